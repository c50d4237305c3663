package main

// utf16of encodes a string, without the standard library's help.
func utf16of(s string) []uint16 {
	var out []uint16
	for _, c := range s {
		if c >= 0x10000 {
			c -= 0x10000
			out = append(out, uint16(0xD800|c>>10), uint16(0xDC00|c&0x3FF))
		} else {
			out = append(out, uint16(c))
		}
	}
	return out
}
