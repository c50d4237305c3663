#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one place so that titles, statements and anchors stay in step)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, symbols, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": where(n, files)} for n in symbols], "observe_at": observe, "hook_needed": None}})

def where(name, files):
    """file:line of a function in /repo, when it can be found."""
    import re
    last = name.split(".")[-1]; recv = name.split(".")[0] if "." in name else None
    for f in files:
        try: lines = open("/repo/" + f).read().split("\n")
        except OSError: continue
        for i, l in enumerate(lines):
            if recv and re.match(r"func \(\w+ \*?%s\) %s\(" % (re.escape(recv), re.escape(last)), l): return f
            if not recv and re.match(r"func %s\(" % re.escape(last), l): return f
    return files[0]


p("C01", "A resource set behaves as a map from (type, name, language) to data",
  "After any sequence of additions, replacements and deletions, looking a resource up by type, name and language returns exactly the data most recently set for that triple and nothing if it was never set or was deleted last, and the reported number of resources is the number of such triples. "
  "An update never changes what any other triple maps to. A zero ordinal, an empty name or a name containing NUL is refused with an error and leaves the set unchanged.",
  ["histories", "inputs"], "every sequence of Set calls (including deletions by nil data) with arbitrary identifiers, languages and data, interleaved with reads and enumerations",
  "the tests run a handful of fixed call sequences; the guarantee is about every history and every other key (frame)",
  ["winres.go", "id.go", "rsrc.go"], ["ResourceSet.Set", "ResourceSet.set", "ResourceSet.delete", "ResourceSet.Get", "ResourceSet.Count", "checkIdentifier"],
  ["ResourceSet.Get", "ResourceSet.Count"])
p("C02", "Enumeration visits every resource exactly once, in directory order",
  "Walking a resource set, or the resources of one type, calls the callback exactly once for each resource the set currently holds, with its current data (as long as the callback does not modify the set), in directory order: names before ordinals, names in ascending case-sensitive order, ordinals ascending, languages ascending. "
  "This holds whatever was set, deleted, walked or written before, and the walk stops at the first callback that returns false.",
  ["histories", "inputs"], "every history of updates interleaved with walks, writes and lookups, and every callback stop position",
  "the tests walk a freshly built set; enumeration order is cached inside the set, so the history of earlier walks and updates matters",
  ["winres.go", "rsrc.go", "id.go"], ["ResourceSet.Walk", "ResourceSet.WalkType", "ResourceSet.order", "typeEntry.order", "resourceEntry.order", "ID.lessThan", "Name.lessThan"],
  ["ResourceSet.Walk", "ResourceSet.WalkType"])
p("C03", "The written resource directory is well formed and holds exactly the set",
  "For every resource set within the format's limits, the emitted resource section is a three-level directory (type, name, language), sorted with names first, in which every table counts its own entries, every offset points at the start of the table, string or data entry it names, and following it for any resource yields that resource's exact bytes and size. "
  "Resource data is 8-byte aligned, and tables, strings and data do not overlap and stay inside the section.",
  ["inputs", "histories"], "every resource set reachable through the API with at most 65535 entries per table, names of at most 65535 UTF-16 units and less than 2 GiB in total",
  "the byte-exact golden tests need sample files and cover four fixed sets; offsets depend on the sizes of all other entries",
  ["rsrc.go", "winres.go"], ["ResourceSet.write", "ResourceSet.prepare", "ResourceSet.writeTypeDir", "ResourceSet.writeResDirs", "ResourceSet.writeLangDirs", "ResourceSet.writeDataIndex", "ResourceSet.writeData", "typeEntry.write", "resourceEntry.write", "dataEntry.write"],
  ["ResourceSet.WriteObject", "ResourceSet.WriteToEXE"])
p("C04", "The object file's headers and relocations describe exactly what was written",
  "For every resource set of at most 65535 resources and every supported architecture, the object file has the machine type and relocation type of that architecture, one .rsrc section whose recorded offset and size match the emitted section content, exactly one relocation per resource, each addressing that resource's data-address field, and a symbol table and string table located where the header says, ending at the end of the file. "
  "An unknown architecture is refused with an error.",
  ["inputs", "configurations"], "every resource set with at most 65535 resources, every architecture value",
  "sizes are computed before the content is written, by different code; tests compare four fixed outputs with golden files",
  ["coff.go", "rsrc.go"], ["writeObject", "writeRelocTable", "writeSymbol", "ResourceSet.fullSize", "ResourceSet.dirSize", "ResourceSet.numDataEntries"],
  ["ResourceSet.WriteObject"])
p("C05", "Loading from an executable returns exactly the resources its directory describes",
  "Loading the resources of an executable whose resource directory is well formed returns every resource in it with its exact type, name, language and bytes and nothing else; loading a single type returns only that type (plus the images belonging to a requested icon or cursor group type). "
  "In particular, a set patched into an executable and loaded back is the same set.",
  ["inputs"], "every resource set within format limits and every well-formed executable; every directory entry count up to 65535 names plus 65535 ordinals",
  "tests load a few sample files; counts, offsets and name lengths range over 16- and 32-bit values",
  ["rsrc.go", "exe.go", "winres.go"], ["ResourceSet.read", "dirEntry.readDirTable", "dirEntry.readData", "readName", "extractRSRCSection", "LoadFromEXE", "LoadFromEXESingleType"],
  ["LoadFromEXE", "LoadFromEXESingleType"])
p("C06", "No executable can crash the loader or the patcher",
  "Whatever bytes a would-be executable contains, loading its resources, testing whether it is signed, and patching it return a result or an error; they never panic and never read or write outside the data they were given.",
  ["inputs"], "every byte sequence given as an executable, and every read or seek failure of the source",
  "the tests flip a few chosen bytes; a crash needs a particular combination of header fields",
  ["exe.go", "rsrc.go", "winres.go", "reader.go"], ["readPEOffset", "readPEHeaders", "extractRSRCSection", "preparePEWriter", "peWriter.fillSectionsInfo", "peWriter.requiresNewSection", "peWriter.updateHeaders", "peWriter.applyReloc", "dirEntry.readDirTable", "dirEntry.readData", "readName", "IsSignedEXE"],
  ["LoadFromEXE", "LoadFromEXESingleType", "IsSignedEXE", "ResourceSet.WriteToEXE"])
p("C07", "No icon or cursor data can crash the icon and cursor readers",
  "Whatever bytes an icon file, a cursor file, or the icon and cursor resources of a set contain, reading them returns a result or an error and never panics.",
  ["inputs"], "every byte sequence given as ICO, CUR, or group and image resources",
  "the tests use a few truncated files; crashes depend on declared sizes that disagree with the data",
  ["icon.go", "cursor.go"], ["LoadICO", "LoadCUR", "ResourceSet.GetIconTranslation", "ResourceSet.GetCursorTranslation", "readDIBBitCount"],
  ["LoadICO", "LoadCUR", "ResourceSet.GetIcon", "ResourceSet.GetCursor"])
p("C08", "No version-info data can crash the version-info decoder",
  "Whatever bytes a version resource contains, decoding it terminates and returns a result or an error without panicking, and the same holds for encoding, merging and splitting whatever structure was decoded from bytes or JSON, and for reading its main translation.",
  ["inputs"], "every byte sequence and every JSON document given as version information",
  "the tests corrupt a few bytes of one sample; node lengths and value lengths are attacker-chosen 16-bit values",
  ["version/binary.go", "version/version.go", "version/json.go"], ["fromBytes", "Info.readNode", "Info.readChildren", "Info.readFixedStruct", "readString", "readStringWithLength", "readNodeHeader", "Info.Set", "Info.splitLangs", "stringTableBytes"],
  ["version.FromBytes", "version.Info.Bytes", "version.Info.SplitTranslations"])
p("C09", "Patching an executable preserves everything but its resources",
  "Patching a well-formed executable keeps its DOS stub, the raw content of every section other than the resource section, and any data appended after the last section, byte for byte, at the position the new headers declare (appended data follows the last section). "
  "Only a signature the caller asked to remove is dropped.",
  ["inputs", "configurations"], "every well-formed executable layout (resource section absent, last, before the relocations, or in the middle; with or without appended data or uninitialised sections) and every resource set",
  "the golden tests cover about ten sample executables that are not even available here; the layout space is unbounded",
  ["exe.go"], ["peWriter.writeEXE", "peWriter.updateHeaders", "preparePEWriter", "peWriter.fillSectionsInfo", "peWriter.requiresNewSection", "writeBlank"],
  ["ResourceSet.WriteToEXE"])
p("C10", "A patched executable has consistent headers",
  "Patching a well-formed executable yields one whose section table has every section's address and file range properly aligned and non-overlapping in memory and in the file, whose resource directory entry and section describe the new resource data, whose declared image size covers the last section, and whose other data directories still designate the same content. "
  "If there is no room for a needed section header, patching fails with an error instead of producing a damaged file.",
  ["inputs", "configurations"], "every well-formed executable layout and every resource set size, growing or shrinking",
  "tests check a few fixed layouts against golden files; arithmetic depends on all sections at once",
  ["exe.go"], ["peWriter.updateHeaders", "peWriter.requiresNewSection", "peWriter.roundRaw", "peWriter.roundVirt", "preparePEWriter", "peWriter.fillSectionsInfo"],
  ["ResourceSet.WriteToEXE"])
p("C11", "The stored checksum is the PE checksum of the file actually written",
  "When the source had a checksum or the caller forces one, the checksum field of the patched file equals the standard PE checksum of that very file (16-bit end-around-carry sum of its words with the field taken as zero, plus its length), independently of how the content is split into writes; otherwise the field is zero.",
  ["inputs", "configurations"], "every byte stream and every way of splitting it into successive writes, including empty and odd-length pieces",
  "one test feeds one stream with a few split points; the guarantee is over all streams and splits",
  ["pesum.go", "exe.go"], ["peCheckSum.Write", "peCheckSum.Sum", "add16c", "replaceRSRCSection"],
  ["ResourceSet.WriteToEXE"])
p("C12", "Signed executables are never altered without consent",
  "Patching an executable that carries a code signature is refused with the dedicated error, before anything is written, unless the caller chose to remove or to ignore the signature; removal clears the signature entry and drops a signature that ends the file, ignoring keeps it and keeps its entry pointing at it. "
  "The signature test reports exactly whether such a signature entry exists.",
  ["inputs", "configurations"], "every executable with or without a signature entry, every option combination",
  "tests use one signed sample file with each option",
  ["exe.go", "winres.go"], ["preparePEWriter", "IsSignedEXE", "replaceRSRCSection", "WithAuthenticode", "peWriter.updateHeaders"],
  ["ResourceSet.WriteToEXE", "IsSignedEXE"])
p("C13", "Version information survives its binary encoding",
  "Encoding version information and decoding it back yields the same version numbers, flags, file type and string tables, and the same timestamp to 100 ns, for every structure with valid UTF-8 strings without NUL, non-empty keys, a timestamp that is absent or after 1601-01-01, and encoded nodes that fit the format's 16-bit lengths (empty string tables count as absent). "
  "Every node of the encoding is 4-byte aligned within its parent and its declared length is its actual length.",
  ["inputs"], "every Info built through the API with valid UTF-8 strings without NUL, timestamps representable as Windows file times in range, and encoded nodes under 64 KiB",
  "the tests encode two fixed structures; padding depends on the parity and length of every key and value",
  ["version/binary.go", "version/timestamp.go"], ["Info.bytes", "Info.fixedFileInfo", "nodeBytes", "stringBytes", "writeAligned", "align", "Info.readNode", "Info.readChildren", "Info.readFixedStruct", "timeToTimestamp", "timestampToTime"],
  ["version.Info.Bytes", "version.FromBytes"])
p("C14", "Splitting and merging translations keep every language's strings",
  "Splitting version information yields exactly one entry per language, each with the same fixed fields and all of that language's own strings, completed for missing keys from the neutral, then the default, then the lowest other language having the key. "
  "Merging yields, for each mapped language, exactly that translation's strings, with the fixed fields of the neutral, else default, else lowest language; merging a split gives back every original string.",
  ["inputs"], "every set of languages, keys and values, including language 0xFFFF and empty tables",
  "tests check a couple of fixed tables; results depend on map contents and on unspecified map iteration order",
  ["version/version.go"], ["Info.splitLangs", "MergeTranslations", "findMainTranslation", "Info.singleLang", "LangTable.GetMainTranslation", "Info.Set", "Info.Table"],
  ["version.Info.SplitTranslations", "version.MergeTranslations", "version.Info.Table"])
p("C15", "Adding an icon or cursor never disturbs other images and reads back intact",
  "Adding an icon or cursor to a set stores its images under ordinals not used by any existing image of that kind, so no existing icon, cursor or image changes, or it fails with an error when no ordinal is left above those the set has held. "
  "Reading the group back yields the same images, sizes and hot spots, largest and deepest first.",
  ["histories", "inputs"], "every history of icon, cursor and raw resource updates, every number and kind of images",
  "tests add one or two icons to fresh sets; identifier allocation depends on the whole history",
  ["icon.go", "cursor.go", "winres.go"], ["ResourceSet.SetIconTranslation", "ResourceSet.SetCursorTranslation", "ResourceSet.GetIconTranslation", "ResourceSet.GetCursorTranslation", "ResourceSet.set", "Icon.order", "Cursor.order", "cursorImage.resData"],
  ["ResourceSet.SetIcon", "ResourceSet.GetIcon", "ResourceSet.SetCursor", "ResourceSet.GetCursor"])
p("C16", "Saved icon and cursor files describe their images exactly",
  "In a saved icon or cursor file the header counts the images and each directory entry gives the dimensions, the hot spot for cursors, the exact byte length and the exact file position of its image, images following one another without gap or overlap. "
  "Loading a saved file gives back the same images in the saved order.",
  ["inputs"], "every icon or cursor obtainable from the API, any number of images up to 65535, any image length",
  "tests compare a few files with golden files that are not available here",
  ["icon.go", "cursor.go"], ["Icon.SaveICO", "Cursor.SaveCUR", "LoadICO", "LoadCUR"],
  ["Icon.SaveICO", "Cursor.SaveCUR", "LoadICO", "LoadCUR"])
p("C17", "A failed write is always reported",
  "If the destination reports an error for any write, writing an object file, patching an executable, or saving an icon or cursor returns a non-nil error; if they return no error, every byte was accepted. Likewise a source that fails to deliver its content makes loading or patching return an error.",
  ["fault_sequences", "inputs"], "every position at which a write or read can fail",
  "the tests inject failures at a few chosen offsets of small outputs",
  ["coff.go", "rsrc.go", "exe.go", "icon.go", "cursor.go", "reader.go"], ["writeObject", "ResourceSet.write", "peWriter.writeEXE", "writeBlank", "Icon.SaveICO", "Cursor.SaveCUR", "readFull", "binaryRead"],
  ["ResourceSet.WriteObject", "ResourceSet.WriteToEXE", "Icon.SaveICO", "Cursor.SaveCUR"])
p("C18", "An application manifest survives XML and JSON",
  "For every application manifest whose texts are made of characters XML can represent, the generated XML is well formed and parsing it gives back the same settings, and marshalling to JSON and unmarshalling gives back the same settings (identity is omitted when it has no name, its version included). "
  "Text forms of the minimum OS, DPI awareness and execution level are mutually inverse and unknown texts are refused without changing the value.",
  ["inputs"], "every combination of the boolean and enumerated settings, all versions, all names and descriptions made of valid XML characters",
  "tests sample about twenty combinations out of millions",
  ["manifest.go"], ["makeManifest", "AppManifestFromXML", "readDPIAwareness", "osIDToEnum", "SupportedOS.MarshalText", "SupportedOS.UnmarshalText", "DPIAwareness.MarshalText", "DPIAwareness.UnmarshalText", "ExecutionLevel.MarshalText", "ExecutionLevel.UnmarshalText", "AssemblyIdentity.MarshalJSON", "AssemblyIdentity.UnmarshalJSON"],
  ["ResourceSet.SetManifest", "AppManifestFromXML"])
p("C19", "Version information survives JSON",
  "Marshalling version information to JSON and unmarshalling it gives back the same version numbers, flags, file type, timestamp and strings (valid UTF-8) for every language (empty string tables count as absent), and unmarshalling discards whatever the target held before.",
  ["inputs"], "every Info built through the API with valid UTF-8 strings",
  "tests marshal one structure; flags and languages combine freely",
  ["version/json.go"], ["Info.MarshalJSON", "Info.UnmarshalJSON"],
  ["version.Info.MarshalJSON", "version.Info.UnmarshalJSON"])
p("C20", "Setting a version string updates number and text together everywhere",
  "Setting the file or product version from a text stores the up to four dot-separated numbers (each at most 65535) that start at its first digit in the numeric field and the text itself as that key's value in every existing language (or the neutral one if there is none), changing nothing else.",
  ["inputs", "histories"], "every version text whose parts are below 65536, every existing set of languages",
  "tests use a few version texts and two languages",
  ["version/version.go"], ["Info.SetProductVersion", "Info.SetFileVersion", "versionStringToArray", "Info.Set"],
  ["version.Info.SetProductVersion", "version.Info.SetFileVersion"])
p("C21", "Imported images keep every pixel and get a correct square header",
  "An image up to 256x256 imported as an icon or cursor becomes a square 32-bit image of its larger dimension that contains every source pixel unchanged (centred for icons, at the top-left for cursors so the hot spot stays right) and is transparent elsewhere, with directory dimensions, and for cursors a doubled bitmap height, that match it; empty or larger images are refused.",
  ["inputs"], "every image size and origin, every pixel value",
  "tests use a few sample images with golden files not available here",
  ["icon.go", "cursor.go"], ["Icon.addImage", "Cursor.addImage", "imageInSquareNRGBA", "resizeImage", "NewIconFromResizedImage"],
  ["NewIconFromImages", "NewCursorFromImages", "NewIconFromResizedImage"])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
