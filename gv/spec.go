package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// ---- contract files

type Expr struct {
	kind string // int str id call idx sel un bin cond quant
	op   string
	args []*Expr
	vars []Param
	pats [][]*Expr
	val  *big.Int
	pos  string
}

type Param struct {
	name string
	typ  *SType
}

type SType struct { // ghost or Go type, as written
	text string
	key  *SType // array
	elem *SType
}

type Clause struct {
	label string
	e     *Expr
	text  string
	why   string
	props []string
}

type Inv struct {
	loop int
	e    *Expr
	text string
	con  *Contract
}

type Contract struct {
	variants   []*Inv
	name       string
	file       string
	props      []string
	ghosts     []Param
	requires   []*Clause
	ensures    []*Clause
	assumes    []*Clause // trusted facts
	modifies   []*Expr
	modAny     bool
	invs       []*Inv
	uses       []*Expr
	effects    []*Expr
	inline     bool
	terminates bool
	nosafety   bool
	reveal     map[string]bool
	plain      bool
	also       string // one more block for the function, with the preconditions and frame of the first
	anybytes   bool // binary.Write of a value: any bytes of its size
	scoped     bool // only there under its own properties
	reliable   bool
	pure       bool
	decreases  *Expr
	trusted    string
	fn         *ssa.Function
	bounds     map[string]int
}

type Macro struct {
	name   string
	params []Param
	body   *Expr
}

type SpecFn struct {
	name   string
	params []Param
	res    *SType
	body   *Expr
	fuel   int
	pred   bool
	pkg    string
}

type Lemma struct {
	name      string
	params    []Param
	requires  []*Expr
	ensures   []*Expr
	induction string
	uses      []*Expr
	pats      [][]*Expr
	props     []string
	proved    bool
	reveal    map[string]bool
}

type Specs struct {
	contracts map[string]*Contract
	blocks    []*Contract
	macros    map[string]*Macro
	fns       map[string]*SpecFn
	lemmas    map[string]*Lemma
	order     []string
}

type specErr struct{ msg string }

func specFail(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

// ---- lexer

type tok struct {
	kind string // id int str op eof
	text string
	line int
	beg  int
	end  int
	nl   bool // first on its line
}

func lex(src string) []tok {
	var out []tok
	line := 1
	nl := true
	for i := 0; i < len(src); {
		c := src[i]
		switch {
		case c == '\n':
			line++
			nl = true
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case unicode.IsLetter(rune(c)) || c == '_' || c == '?' && i+1 < len(src) && unicode.IsLetter(rune(src[i+1])) && false:
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_') {
				j++
			}
			out = append(out, tok{"id", src[i:j], line, i, j, nl})
			nl = false
			i = j
		case unicode.IsDigit(rune(c)):
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j]))) {
				j++
			}
			out = append(out, tok{"int", src[i:j], line, i, j, nl})
			nl = false
			i = j
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				j++
			}
			out = append(out, tok{"str", src[i+1 : j], line, i, j + 1, nl})
			nl = false
			i = j + 1
		default:
			ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", ".."}
			op := string(c)
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					op = o
					break
				}
			}
			out = append(out, tok{"op", op, line, i, i + len(op), nl})
			nl = false
			i += len(op)
		}
	}
	out = append(out, tok{"eof", "", line, len(src), len(src), true})
	return out
}

type parser struct {
	ts   []tok
	i    int
	src  string
	file string
}

func (p *parser) peek() tok { return p.ts[p.i] }
func (p *parser) next() tok { t := p.ts[p.i]; p.i++; return t }
func (p *parser) is(s string) bool {
	t := p.ts[p.i]
	return (t.kind == "op" || t.kind == "id") && t.text == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		t := p.peek()
		specFail("%s:%d: expected %q, found %q", p.file, t.line, s, t.text)
	}
}

var binPrec = map[string]int{
	"<==>": 1, "==>": 2, "||": 4, "&&": 5,
	"==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6, "in": 6,
	"+": 7, "-": 7, "*": 8, "/": 8, "%": 8,
}

func (p *parser) expr() *Expr { return p.cond() }

func (p *parser) cond() *Expr {
	c := p.bin(1)
	if p.accept("?") {
		a := p.cond()
		p.expect(":")
		b := p.cond()
		return &Expr{kind: "cond", args: []*Expr{c, a, b}}
	}
	return c
}

func (p *parser) bin(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := binPrec[t.text]
		if !ok || t.kind == "int" || t.kind == "str" || pr < min || (t.nl && t.text == "*") {
			return l
		}
		p.i++
		var r *Expr
		if t.text == "==>" {
			r = p.bin(pr)
		} else {
			r = p.bin(pr + 1)
		}
		l = &Expr{kind: "bin", op: t.text, args: []*Expr{l, r}}
	}
}

func (p *parser) unary() *Expr {
	t := p.peek()
	if t.kind == "op" {
		switch t.text {
		case "!", "-", "*", "&":
			p.i++
			return &Expr{kind: "un", op: t.text, args: []*Expr{p.unary()}}
		}
	}
	if t.kind == "id" && (t.text == "forall" || t.text == "exists") {
		p.i++
		e := &Expr{kind: "quant", op: t.text}
		e.vars = p.params("::")
		for p.accept("{") {
			var ps []*Expr
			for {
				ps = append(ps, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e.pats = append(e.pats, ps)
		}
		e.args = []*Expr{p.expr()}
		return e
	}
	return p.postfix(p.primary())
}

func (p *parser) postfix(e *Expr) *Expr {
	for {
		switch {
		case p.is("."):
			p.i++
			t := p.next()
			e = &Expr{kind: "sel", op: t.text, args: []*Expr{e}}
		case p.is("["):
			p.i++
			i := p.expr()
			p.expect("]")
			e = &Expr{kind: "idx", args: []*Expr{e, i}}
		case p.is("(") && !p.peek().nl:
			p.i++
			c := &Expr{kind: "call", args: []*Expr{e}}
			for !p.accept(")") {
				c.args = append(c.args, p.expr())
				if !p.accept(",") {
					p.expect(")")
					break
				}
			}
			e = c
		default:
			return e
		}
	}
}

func (p *parser) primary() *Expr {
	t := p.next()
	pos := fmt.Sprintf("%s:%d", p.file, t.line)
	switch t.kind {
	case "int":
		b, ok := new(big.Int).SetString(t.text, 0)
		if !ok {
			specFail("%s: bad number %s", pos, t.text)
		}
		return &Expr{kind: "int", val: b, pos: pos}
	case "str":
		return &Expr{kind: "str", op: t.text, pos: pos}
	case "id":
		return &Expr{kind: "id", op: t.text, pos: pos}
	}
	if t.text == "(" {
		e := p.expr()
		p.expect(")")
		return e
	}
	if t.text == "[" { // type used as expression: []T or [K]V
		p.i--
		ty := p.typ()
		return &Expr{kind: "type", op: ty.text, pos: pos}
	}
	specFail("%s: unexpected %q", pos, t.text)
	return nil
}

func (p *parser) typ() *SType {
	if p.accept("[") {
		if p.accept("]") {
			e := p.typ()
			return &SType{text: "[]" + e.text}
		}
		k := p.typ()
		p.expect("]")
		v := p.typ()
		return &SType{text: "[" + k.text + "]" + v.text, key: k, elem: v}
	}
	if p.accept("*") {
		e := p.typ()
		return &SType{text: "*" + e.text}
	}
	t := p.next()
	if t.kind != "id" {
		specFail("%s:%d: type expected, found %q", p.file, t.line, t.text)
	}
	n := t.text
	if p.is(".") {
		p.i++
		n += "." + p.next().text
	}
	return &SType{text: n}
}

func (p *parser) params(end string) []Param {
	var out []Param
	for !p.accept(end) {
		n := p.next().text
		p.expect(":")
		out = append(out, Param{n, p.typ()})
		if !p.accept(",") {
			p.expect(end)
			break
		}
	}
	return out
}

func (p *parser) restOfLine() string {
	t := p.peek()
	l := t.line
	b := t.beg
	e := b
	for p.peek().kind != "eof" && p.peek().line == l {
		e = p.peek().end
		p.i++
	}
	return strings.TrimSpace(p.src[b:e])
}

func (p *parser) textFrom(i int) string {
	if i >= p.i {
		return ""
	}
	return strings.Join(strings.Fields(p.src[p.ts[i].beg:p.ts[p.i-1].end]), " ")
}

// selectFor chooses the contract of every function under a property. A function may have several blocks with
// different properties; the one naming the property counts, else the first that is not scoped to its own.
func (S *Specs) selectFor(prop string) {
	for _, c := range S.blocks {
		own := false
		for _, p := range c.props {
			own = own || p == prop
		}
		if c.also != "" {
			if own || prop == "" {
				S.contracts[c.name+"#"+c.also] = c
			}
			continue
		}
		if c.scoped && !own && prop != "" {
			continue
		}
		old := S.contracts[c.name]
		if old == nil {
			S.contracts[c.name] = c
			continue
		}
		oldOwn := false
		for _, p := range old.props {
			oldOwn = oldOwn || p == prop
		}
		if own && oldOwn {
			specFail("%s: second contract for %s", c.file, c.name)
		}
		if own {
			S.contracts[c.name] = c
		}
	}
	for n, c := range S.contracts {
		if c.also == "" {
			continue
		}
		m := S.contracts[c.name]
		if m == nil || len(c.requires)+len(c.modifies) > 0 || c.modAny || c.trusted != "" || m.trusted != "" || m.inline {
			specFail("%s: %s: no block to extend", c.file, n)
		}
		c.requires, c.modifies, c.modAny, c.ghosts, c.pure, c.nosafety = m.requires, m.modifies, m.modAny, m.ghosts, m.pure, m.nosafety || c.nosafety
	}
}

func parseSpecs(dir string) (*Specs, error) {
	S := &Specs{contracts: map[string]*Contract{}, macros: map[string]*Macro{}, fns: map[string]*SpecFn{}, lemmas: map[string]*Lemma{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	// "define NAME = text" replaces NAME by text in every file
	var texts []string
	defs := map[string]string{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		lines := strings.Split(string(b), "\n")
		for i, l := range lines {
			if strings.HasPrefix(l, "define ") {
				n, t, _ := strings.Cut(l[7:], "=")
				defs[strings.TrimSpace(n)] = strings.TrimSpace(t)
				lines[i] = ""
			}
		}
		texts = append(texts, strings.Join(lines, "\n"))
	}
	for i, f := range files {
		src := texts[i]
		for n, t := range defs {
			src = regexp.MustCompile(`\b`+n+`\b`).ReplaceAllLiteralString(src, t)
		}
		if err := S.parse(filepath.Base(f), src); err != nil {
			return nil, err
		}
	}
	return S, nil
}

func (S *Specs) parse(file, src string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				err = fmt.Errorf("%s", e.msg)
				return
			}
			panic(r)
		}
	}()
	p := &parser{ts: lex(src), src: src, file: file}
	for p.peek().kind != "eof" {
		t := p.next()
		switch t.text {
		case "macro":
			m := &Macro{name: p.next().text}
			p.expect("(")
			for !p.accept(")") {
				n := p.next().text
				m.params = append(m.params, Param{name: n})
				if !p.accept(",") {
					p.expect(")")
					break
				}
			}
			p.expect("=")
			m.body = p.expr()
			S.macros[m.name] = m
		case "pred": // opaque, except in the functions that reveal it
			f := &SpecFn{name: p.next().text, pred: true, res: &SType{text: "bool"}}
			p.expect("(")
			f.params = p.params(")")
			if p.accept(":") {
				f.res = p.typ()
			}
			p.expect("=")
			f.body = p.expr()
			S.fns[f.name] = f
		case "fn":
			f := &SpecFn{name: p.next().text, fuel: 2}
			p.expect("(")
			f.params = p.params(")")
			p.expect(":")
			f.res = p.typ()
			if p.accept("fuel") {
				f.fuel, _ = strconv.Atoi(p.next().text)
			}
			if p.accept("=") {
				f.body = p.expr()
			}
			S.fns[f.name] = f
		case "lemma":
			l := &Lemma{name: p.next().text}
			p.expect("(")
			l.params = p.params(")")
			for {
				if p.accept("requires") {
					l.requires = append(l.requires, p.expr())
				} else if p.accept("ensures") {
					l.ensures = append(l.ensures, p.expr())
				} else if p.accept("reveal") {
					if l.reveal == nil {
						l.reveal = map[string]bool{}
					}
					l.reveal[p.next().text] = true
				} else if p.accept("induction") {
					l.induction = p.next().text
				} else if p.accept("use") {
					l.uses = append(l.uses, p.expr())
				} else if p.accept("pattern") {
					var ps []*Expr
					for {
						ps = append(ps, p.expr())
						if !p.accept(",") {
							break
						}
					}
					l.pats = append(l.pats, ps)
				} else {
					break
				}
			}
			S.lemmas[l.name] = l
			S.order = append(S.order, l.name)
		case "func":
			c := &Contract{name: p.restOfLine(), file: file, bounds: map[string]int{}}
			p.contract(c)
			S.blocks = append(S.blocks, c)
		default:
			specFail("%s:%d: unexpected %q", file, t.line, t.text)
		}
	}
	return nil
}

func (p *parser) contract(c *Contract) {
	for {
		t := p.peek()
		if t.kind != "id" {
			return
		}
		switch t.text {
		case "props":
			p.i++
			for p.peek().kind == "id" && !p.peek().nl {
				c.props = append(c.props, p.next().text)
			}
		case "scoped":
			p.i++
			c.scoped = true
		case "inline":
			p.i++
			c.inline = true
		case "terminates":
			p.i++
			c.terminates = true
		case "reveal":
			p.i++
			if c.reveal == nil {
				c.reveal = map[string]bool{}
			}
			c.reveal[p.next().text] = true
		case "pure":
			p.i++
			c.pure = true
		case "nosafety":
			p.i++
			c.nosafety = true
		case "anybytes": // what binary.Write writes does not matter here, only how much
			p.i++
			c.anybytes = true
		case "also":
			p.i++
			c.also = p.next().text
		case "plain": // no invariants but the written ones
			p.i++
			c.plain = true
		case "trusted":
			p.i++
			c.trusted = p.next().text
		case "ghost":
			p.i++
			n := p.next().text
			p.expect(":")
			c.ghosts = append(c.ghosts, Param{n, p.typ()})
		case "requires", "ensures", "assumes":
			p.i++
			cl := &Clause{}
			if p.peek().kind == "str" {
				cl.label = p.next().text
			}
			if p.accept("@") {
				for {
					cl.props = append(cl.props, p.next().text)
					if !p.accept(",") {
						break
					}
				}
			}
			i := p.i
			cl.e = p.expr()
			cl.text = p.textFrom(i)
			if cl.label == "" {
				cl.label = cl.text
			}
			switch t.text {
			case "requires":
				c.requires = append(c.requires, cl)
			case "ensures":
				c.ensures = append(c.ensures, cl)
			default:
				c.assumes = append(c.assumes, cl)
			}
		case "modifies":
			p.i++
			for {
				if p.accept("nothing") {
					break
				}
				if p.is("*") && p.ts[p.i+1].nl {
					p.i++
					c.modAny = true
					break
				}
				c.modifies = append(c.modifies, p.expr())
				if !p.accept(",") {
					break
				}
			}
		case "inv", "variant":
			isVar := p.peek().text == "variant"
			p.i++
			v := &Inv{loop: -1, con: c}
			if p.accept("@") {
				v.loop, _ = strconv.Atoi(p.next().text)
			}
			i := p.i
			v.e = p.expr()
			v.text = p.textFrom(i)
			if isVar {
				c.variants = append(c.variants, v)
			} else {
				c.invs = append(c.invs, v)
			}
		case "use":
			p.i++
			c.uses = append(c.uses, p.expr())
		case "effect":
			p.i++
			c.effects = append(c.effects, p.expr())
		case "decreases":
			p.i++
			c.decreases = p.expr()
		default:
			return
		}
	}
}

// ---- evaluation

type SV struct {
	v Value
	t types.Type // nil for ghost values
}

// Ref is a struct in memory.
type Ref struct{ loc *Term }

type Env struct {
	ex         *Exec
	st         *State
	old        *State // heaps for old()
	entry      *State // heaps for entry()
	vars       map[string]SV
	frame      *Frame // locals for invariants
	pkg        *types.Package
	specs      *Specs
	alloc0     *Term
	isOld      bool
	depth      int
	entryFrame *Frame
}

func (e *Env) with(vars map[string]SV) *Env {
	n := *e
	n.vars = map[string]SV{}
	for k, v := range e.vars {
		n.vars[k] = v
	}
	for k, v := range vars {
		n.vars[k] = v
	}
	return &n
}

var ghostInt = types.Typ[types.UntypedInt]

func (e *Env) goType(text string) types.Type {
	if strings.HasPrefix(text, "*") {
		t := e.goType(text[1:])
		if t == nil {
			return nil
		}
		return types.NewPointer(t)
	}
	if strings.HasPrefix(text, "[]") {
		t := e.goType(text[2:])
		if t == nil {
			return nil
		}
		return types.NewSlice(t)
	}
	if strings.HasPrefix(text, "map[") {
		d, i := 0, 3
		for ; i < len(text); i++ {
			if text[i] == '[' {
				d++
			} else if text[i] == ']' {
				d--
				if d == 0 {
					break
				}
			}
		}
		k, v := e.goType(text[4:i]), e.goType(text[i+1:])
		if k == nil || v == nil {
			return nil
		}
		return types.NewMap(k, v)
	}
	switch text {
	case "any":
		return types.NewInterfaceType(nil, nil)
	}
	for _, b := range types.Typ {
		if b.Name() == text {
			return b
		}
	}
	if text == "byte" {
		return types.Typ[types.Uint8]
	}
	if text == "error" {
		return types.Universe.Lookup("error").Type()
	}
	if i := strings.Index(text, "."); i > 0 {
		for _, im := range allPkgs(e.ex.prog) {
			if im.Name() == text[:i] {
				if o, ok := im.Scope().Lookup(text[i+1:]).(*types.TypeName); ok {
					return o.Type()
				}
			}
		}
		return nil
	}
	if e.pkg != nil {
		if o, ok := e.pkg.Scope().Lookup(text).(*types.TypeName); ok {
			return o.Type()
		}
	}
	return nil
}

var pkgList []*types.Package

func allPkgs(P *Program) []*types.Package {
	if pkgList == nil {
		for _, p := range P.prog.AllPackages() {
			pkgList = append(pkgList, p.Pkg)
		}
		sort.Slice(pkgList, func(i, j int) bool { return len(pkgList[i].Path()) < len(pkgList[j].Path()) })
	}
	return pkgList
}

var ghostSorts = map[string]*Sort{"Loc": SLoc, "Iface": SIface, "Str": SStr, "Slice": SSlice, "int": SInt, "bool": SBool, "string": SStr}

// sortFor gives the sort and, for Go types, the type of a written type.
func (e *Env) sortFor(t *SType) (*Sort, types.Type) {
	if t.key != nil {
		k, _ := e.sortFor(t.key)
		v, _ := e.sortFor(t.elem)
		return SArr(k, v), nil
	}
	if t.text == "int" {
		return SInt, ghostInt
	}
	switch t.text {
	case "Loc", "Iface", "Slice", "Str":
		return ghostSorts[t.text], nil
	}
	g := e.goType(t.text)
	if g == nil {
		specFail("unknown type %s", t.text)
	}
	return sortOf(g), g
}

func (e *Env) term(x *Expr) *Term {
	v := e.eval(x)
	return e.asT(v, x)
}

func (e *Env) asT(v SV, x *Expr) *Term {
	switch t := v.v.(type) {
	case *Term:
		return t
	case *Ref:
		return t.loc
	case *LV:
		return t.loc
	case *Tup, *Clo:
		if v.t != nil {
			return e.ex.asTerm(e.st, v.v, v.t)
		}
	}
	specFail("not a scalar: %s", exprStr(x))
	return nil
}

func exprStr(x *Expr) string {
	switch x.kind {
	case "int":
		return x.val.String()
	case "id", "str", "type":
		return x.op
	case "sel":
		return exprStr(x.args[0]) + "." + x.op
	case "idx":
		return exprStr(x.args[0]) + "[" + exprStr(x.args[1]) + "]"
	case "call":
		var as []string
		for _, a := range x.args[1:] {
			as = append(as, exprStr(a))
		}
		return exprStr(x.args[0]) + "(" + strings.Join(as, ", ") + ")"
	case "un":
		return x.op + exprStr(x.args[0])
	case "bin":
		return "(" + exprStr(x.args[0]) + " " + x.op + " " + exprStr(x.args[1]) + ")"
	case "cond":
		return exprStr(x.args[0]) + " ? " + exprStr(x.args[1]) + " : " + exprStr(x.args[2])
	case "quant":
		var vs []string
		for _, v := range x.vars {
			vs = append(vs, v.name+":"+v.typ.text)
		}
		return x.op + " " + strings.Join(vs, ",") + " :: " + exprStr(x.args[0])
	}
	return "?"
}

func (e *Env) bool(x *Expr) *Term {
	t := e.term(x)
	if t.sort != SBool {
		specFail("not a boolean: %s", exprStr(x))
	}
	return t
}

func (e *Env) ident(name string) (SV, bool) {
	if v, ok := e.vars[name]; ok {
		return v, true
	}
	if e.frame != nil {
		if n, ok := e.frame.names[name]; ok {
			if n.addr {
				t := n.typ
				if p, ok := under(t).(*types.Pointer); ok {
					return e.loadAt(n.v, p.Elem()), true
				}
			}
			return SV{n.v, n.typ}, true
		}
	}
	// the parameters of the function under proof, in invariants of functions inlined into it
	if e.frame != nil && e.st != nil && len(e.st.frames) > 1 {
		f := e.st.frames[0]
		for i, p := range f.fn.Params {
			if p.Name() == name {
				return SV{f.args[i], p.Type()}, true
			}
		}
	}
	if e.pkg != nil {
		switch o := e.pkg.Scope().Lookup(name).(type) {
		case *types.Const:
			return constSV(o), true
		case *types.Var:
			for _, sp := range e.ex.prog.prog.AllPackages() {
				if sp.Pkg == e.pkg {
					if g, ok := sp.Members[name].(*ssa.Global); ok {
						return SV{e.ex.loadGlobal(e.st, g), derefType(g.Type())}, true
					}
				}
			}
		}
	}
	return SV{}, false
}

func constSV(o *types.Const) SV {
	switch o.Val().Kind() {
	case constant.Int:
		b, _ := new(big.Int).SetString(o.Val().ExactString(), 10)
		return SV{BI(b), o.Type()}
	case constant.String:
		return SV{StrConst(constant.StringVal(o.Val())), o.Type()}
	case constant.Bool:
		return SV{B(constant.BoolVal(o.Val())), o.Type()}
	}
	specFail("constant %s", o.Name())
	return SV{}
}

// loadAt reads a Go value lazily (structs stay references).
func (e *Env) loadAt(p Value, t types.Type) SV {
	if _, ok := under(t).(*types.Struct); ok {
		if l, ok := p.(*Term); ok {
			return SV{&Ref{l}, t}
		}
	}
	return SV{e.ex.load(e.st, p, t), t}
}

func (e *Env) eval(x *Expr) SV {
	switch x.kind {
	case "int":
		return SV{BI(x.val), ghostInt}
	case "str":
		return SV{StrConst(unescape(x.op)), types.Typ[types.UntypedString]}
	case "id":
		switch x.op {
		case "true":
			return SV{TTrue, types.Typ[types.Bool]}
		case "false":
			return SV{TFalse, types.Typ[types.Bool]}
		case "nil":
			return SV{nil, types.Typ[types.UntypedNil]}
		}
		if v, ok := e.ident(x.op); ok {
			return v
		}
		if m := e.specs.macros[x.op]; m != nil && len(m.params) == 0 {
			return e.with(nil).evalMacro(m, nil)
		}
		specFail("%s: unknown name %s", x.pos, x.op)
	case "un":
		switch x.op {
		case "!":
			return SV{Not(e.bool(x.args[0])), types.Typ[types.Bool]}
		case "-":
			return SV{Neg(e.term(x.args[0])), ghostInt}
		case "*":
			v := e.eval(x.args[0])
			if v.t != nil {
				if p, ok := under(v.t).(*types.Pointer); ok {
					return e.loadAt(v.v, p.Elem())
				}
			}
			specFail("cannot dereference %s", exprStr(x.args[0]))
		case "&":
			v := e.eval(x.args[0])
			if r, ok := v.v.(*Ref); ok {
				return SV{r.loc, types.NewPointer(v.t)}
			}
			specFail("cannot take the address of %s", exprStr(x.args[0]))
		}
	case "bin":
		return e.binary(x)
	case "cond":
		c := e.bool(x.args[0])
		a, b := e.eval(x.args[1]), e.eval(x.args[2])
		at, bt := e.asT(a, x.args[1]), e.asT(b, x.args[2])
		t := a.t
		if t == ghostInt {
			t = b.t
		}
		return SV{Ite(c, at, bt), t}
	case "sel":
		return e.sel(x)
	case "idx":
		return e.index(x)
	case "quant":
		vars := map[string]SV{}
		var bs []*Term
		var facts []*Term
		for _, p := range x.vars {
			s, t := e.sortFor(p.typ)
			e.ex.bcnt++
			b := Bound(fmt.Sprintf("%s%d", p.name, e.depth), s)
			if t != nil && t != ghostInt {
				if lo, hi := intRange(t); lo != nil {
					b = BoundR(fmt.Sprintf("%s%d_%s", p.name, e.depth, typeKey(t)), lo, hi)
				}
				if f := sealedFact(b, t); f != nil {
					facts = append(facts, Or(f))
				}
			}
			vars[p.name] = SV{b, t}
			bs = append(bs, b)
		}
		n := e.with(vars)
		n.depth++
		body := n.bool(x.args[0])
		var ps [][]*Term
		for _, pat := range x.pats {
			var q []*Term
			for _, y := range pat {
				q = append(q, n.term(y))
			}
			ps = append(ps, q)
		}
		if x.op == "forall" {
			if len(facts) > 0 {
				body = Implies(And(facts...), body)
			}
			return SV{Forall(bs, body, ps...), types.Typ[types.Bool]}
		}
		if len(facts) > 0 {
			body = And(append(facts, body)...)
		}
		return SV{Exists(bs, body, ps...), types.Typ[types.Bool]}
	case "call":
		return e.call(x)
	}
	specFail("cannot evaluate %s", exprStr(x))
	return SV{}
}

func unescape(s string) string {
	s = strings.ReplaceAll(s, "\\0", "\x00")
	return strings.ReplaceAll(s, "\\n", "\n")
}

func (e *Env) binary(x *Expr) SV {
	tb := types.Typ[types.Bool]
	switch x.op {
	case "&&":
		a := e.bool(x.args[0])
		if a == TFalse {
			return SV{TFalse, tb}
		}
		return SV{And(a, e.bool(x.args[1])), tb}
	case "||":
		a := e.bool(x.args[0])
		if a == TTrue {
			return SV{TTrue, tb}
		}
		return SV{Or(a, e.bool(x.args[1])), tb}
	case "==>":
		a := e.bool(x.args[0])
		if a == TFalse {
			return SV{TTrue, tb}
		}
		return SV{Implies(a, e.bool(x.args[1])), tb}
	case "<==>":
		return SV{Eq(e.bool(x.args[0]), e.bool(x.args[1])), tb}
	case "==", "!=":
		a, b := e.eval(x.args[0]), e.eval(x.args[1])
		r := e.equal(a, b, x)
		if x.op == "!=" {
			r = Not(r)
		}
		return SV{r, tb}
	case "in":
		k, m := e.eval(x.args[0]), e.eval(x.args[1])
		mt, ok := under(m.t).(*types.Map)
		if !ok {
			specFail("in: not a map")
		}
		kt := e.coerce(k, mt.Key())
		ml := e.asT(m, x.args[1])
		d, _, _ := mapHeaps(mt)
		return SV{And(Ne(Rid(ml), Zero), Select(Select(e.st.H(d), ml), kt)), tb}
	}
	a, b := e.eval(x.args[0]), e.eval(x.args[1])
	at, bt := e.asT(a, x.args[0]), e.asT(b, x.args[1])
	switch x.op {
	case "<", "<=", ">", ">=":
		if at.sort == SStr {
			switch x.op {
			case "<":
				return SV{App("str.lt", at, bt), tb}
			case ">":
				return SV{App("str.lt", bt, at), tb}
			case "<=":
				return SV{Not(App("str.lt", bt, at)), tb}
			}
			return SV{Not(App("str.lt", at, bt)), tb}
		}
		if at.sort != SInt || bt.sort != SInt {
			specFail("comparison of non-integers in %s", exprStr(x))
		}
		switch x.op {
		case "<":
			return SV{Lt(at, bt), tb}
		case "<=":
			return SV{Le(at, bt), tb}
		case ">":
			return SV{Gt(at, bt), tb}
		}
		return SV{Ge(at, bt), tb}
	}
	if at.sort != SInt || bt.sort != SInt {
		specFail("arithmetic on non-integers in %s", exprStr(x))
	}
	switch x.op {
	case "+":
		return SV{Add(at, bt), ghostInt}
	case "-":
		return SV{Sub(at, bt), ghostInt}
	case "*":
		return SV{Mul(at, bt), ghostInt}
	case "/":
		return SV{DivT(at, bt), ghostInt}
	case "%":
		return SV{ModT(at, bt), ghostInt}
	}
	specFail("operator %s", x.op)
	return SV{}
}

func isNilSV(v SV) bool { return v.v == nil }

func (e *Env) equal(a, b SV, x *Expr) *Term {
	if isNilSV(a) {
		a, b = b, a
	}
	if isNilSV(b) {
		if isNilSV(a) {
			return TTrue
		}
		t := e.asT(a, x.args[0])
		switch t.sort {
		case SSlice:
			return Eq(Rid(SBase(t)), Zero)
		case SLoc:
			return Eq(Rid(t), Zero)
		case SIface:
			return MkTest("inil", t)
		}
		specFail("comparison with nil in %s", exprStr(x))
	}
	if a.t != nil && b.t != nil && a.t != ghostInt && b.t != ghostInt {
		va, vb := e.full(a), e.full(b)
		ta, tb := a.t, b.t
		_, ia := under(ta).(*types.Interface)
		_, ib := under(tb).(*types.Interface)
		if ia == ib {
			if s1, s2 := sortOfSafe(ta), sortOfSafe(tb); s1 != nil && s2 != nil && s1 != s2 {
				specFail("type mismatch in %s (%s, %s)", exprStr(x), ta, tb)
			}
		}
		return e.ex.equal(e.st, va, vb, ta, tb)
	}
	at, bt := e.asT(a, x.args[0]), e.asT(b, x.args[1])
	if at.sort != bt.sort {
		specFail("sort mismatch in %s (%s, %s)", exprStr(x), at.sort.name, bt.sort.name)
	}
	return Eq(at, bt)
}

func (e *Env) full(a SV) Value {
	if r, ok := a.v.(*Ref); ok {
		return e.ex.load(e.st, r.loc, a.t)
	}
	return a.v
}

func (e *Env) coerce(v SV, t types.Type) *Term {
	if _, ok := under(t).(*types.Interface); ok && v.t != nil {
		if _, isI := under(v.t).(*types.Interface); !isI {
			if v.v == nil {
				return INil
			}
			return e.ex.makeIface(e.st, e.full(v), v.t)
		}
	}
	if v.v == nil {
		return zeroTerm(sortOf(t))
	}
	if tt, ok := v.v.(*Term); ok {
		return tt
	}
	return e.ex.asTerm(e.st, e.full(v), t)
}

func (e *Env) sel(x *Expr) SV {
	// package-qualified constant
	if x.args[0].kind == "id" {
		if _, ok := e.ident(x.args[0].op); !ok {
			for _, im := range allPkgs(e.ex.prog) {
				if im.Name() == x.args[0].op {
					switch o := im.Scope().Lookup(x.op).(type) {
					case *types.Const:
						return constSV(o)
					case *types.Var:
						if types.TypeString(o.Type(), nil) == "error" {
							return SV{globalErr(im.Path() + "." + x.op), o.Type()}
						}
					}
				}
			}
		}
	}
	v := e.eval(x.args[0])
	if v.t == nil {
		specFail("no field %s in a ghost value", x.op)
	}
	t := v.t
	var loc *Term
	var tup *Tup
	switch u := v.v.(type) {
	case *Ref:
		loc = u.loc
	case *Tup:
		tup = u
	case *Term:
		if p, ok := under(t).(*types.Pointer); ok {
			loc = u
			t = p.Elem()
		} else {
			specFail("%s is not a struct", exprStr(x.args[0]))
		}
	default:
		specFail("%s is not a struct", exprStr(x.args[0]))
	}
	obj, path, _ := types.LookupFieldOrMethod(t, true, e.pkgOf(t), x.op)
	if _, ok := obj.(*types.Var); !ok {
		specFail("no field %s in %s", x.op, t)
	}
	for _, i := range path {
		if p, ok := under(t).(*types.Pointer); ok {
			t = p.Elem()
		}
		ft := under(t).(*types.Struct).Field(i).Type()
		if tup != nil {
			switch w := tup.elems[i].(type) {
			case *Tup:
				tup = w
				v = SV{w, ft}
			default:
				v = SV{w, ft}
				tup = nil
				if tt, ok := w.(*Term); ok {
					loc = tt
				}
			}
		} else {
			v = e.loadAt(fieldPtr(loc, t, i), ft)
			switch w := v.v.(type) {
			case *Ref:
				loc = w.loc
			case *Term:
				loc = w
			}
		}
		t = ft
	}
	return v
}

func (e *Env) pkgOf(t types.Type) *types.Package {
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg()
	}
	return e.pkg
}

func (e *Env) index(x *Expr) SV {
	a := e.eval(x.args[0])
	if a.t == nil {
		at := e.asT(a, x.args[0])
		if !at.sort.isArr() {
			specFail("%s is not an array", exprStr(x.args[0]))
		}
		i := e.eval(x.args[1])
		it := e.asT(i, x.args[1])
		if it.sort != at.sort.k && at.sort.k == SIface {
			it = e.ifaceKey(i)
		}
		r := Select(at, it)
		if r.sort == SInt {
			return SV{r, ghostInt}
		}
		return SV{r, nil}
	}
	switch u := under(a.t).(type) {
	case *types.Slice:
		s := e.asT(a, x.args[0])
		i := e.term(x.args[1])
		p := elemPtr(SBase(s), Add(SOff(s), i), u.Elem())
		return e.loadAt(p, u.Elem())
	case *types.Array:
		arr := e.asT(a, x.args[0])
		return SV{Select(arr, e.term(x.args[1])), u.Elem()}
	case *types.Map:
		m := e.asT(a, x.args[0])
		k := e.coerce(e.eval(x.args[1]), u.Key())
		_, vh, _ := mapHeaps(u)
		r := Select(Select(e.st.H(vh), m), k)
		if !r.bound {
			e.st.refFacts(r)
		}
		return SV{r, u.Elem()}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return SV{App("str.at", e.asT(a, x.args[0]), e.term(x.args[1])), ghostInt}
		}
	case *types.Pointer:
		if at, ok := under(u.Elem()).(*types.Array); ok {
			v := e.ex.load(e.st, a.v, u.Elem())
			return SV{Select(v.(*Term), e.term(x.args[1])), at.Elem()}
		}
	}
	specFail("cannot index %s", exprStr(x.args[0]))
	return SV{}
}

// ifaceKey is the identity of a stream: an interface value or a pointer boxed as one.
func (e *Env) ifaceKey(v SV) *Term {
	if v.t != nil {
		if _, ok := under(v.t).(*types.Interface); ok {
			return v.v.(*Term)
		}
		if r, ok := v.v.(*Ref); ok {
			return Ctor("iloc", tagOf(types.NewPointer(v.t)), r.loc)
		}
		return e.ex.makeIface(e.st, v.v, v.t)
	}
	if t, ok := v.v.(*Term); ok && t.sort == SIface {
		return t
	}
	specFail("not a stream")
	return nil
}

func (e *Env) inState(o *State, f func()) {
	save := e.st.heaps
	e.st.heaps = o.heaps
	defer func() { e.st.heaps = save }()
	f()
}

func (e *Env) evalMacro(m *Macro, args []SV) SV {
	if len(args) != len(m.params) {
		specFail("macro %s takes %d arguments", m.name, len(m.params))
	}
	if e.depth > 60 {
		specFail("macro recursion")
	}
	vars := map[string]SV{}
	for i, p := range m.params {
		vars[p.name] = args[i]
	}
	n := e.with(vars)
	n.depth++
	return n.eval(m.body)
}

func (e *Env) args(x *Expr, n int) []SV {
	if len(x.args)-1 != n {
		specFail("%s takes %d arguments", exprStr(x.args[0]), n)
	}
	var out []SV
	for _, a := range x.args[1:] {
		out = append(out, e.eval(a))
	}
	return out
}

func (e *Env) call(x *Expr) SV {
	tb := types.Typ[types.Bool]
	f := x.args[0]
	if f.kind == "type" || f.kind == "sel" {
		if t := e.goType(exprStr(f)); t != nil && len(x.args) == 2 {
			v := e.eval(x.args[1])
			return SV{v.v, t}
		}
	}
	if f.kind != "id" {
		specFail("cannot call %s", exprStr(f))
	}
	name := f.op
	if v, ok := e.vars[name]; ok {
		_ = v
	}
	switch name {
	case "old":
		if e.old == nil {
			specFail("old() is not available here")
		}
		var r SV
		e.inState(e.old, func() {
			n := *e
			n.isOld = true
			if e.frame != nil && e.old != nil {
				n.frame = nil
				n.vars = map[string]SV{}
				for k, v := range e.frame.paramVars() {
					n.vars[k] = v
				}
				for k, v := range e.vars {
					n.vars[k] = v
				}
			}
			r = n.eval(x.args[1])
			if rf, ok := r.v.(*Ref); ok {
				r.v = e.ex.load(e.st, rf.loc, r.t)
			}
		})
		return r
	case "entry":
		if e.entry == nil {
			specFail("entry() is not available here")
		}
		var r SV
		e.inState(e.entry, func() {
			n := *e
			n.frame = e.entryFrame
			r = n.eval(x.args[1])
			if rf, ok := r.v.(*Ref); ok {
				r.v = e.ex.load(e.st, rf.loc, r.t)
			}
		})
		return r
	case "len", "cap":
		v := e.args(x, 1)[0]
		t := e.asT(v, x.args[1])
		switch t.sort {
		case SSlice:
			if name == "cap" {
				return SV{SCap(t), ghostInt}
			}
			return SV{SLen(t), ghostInt}
		case SStr:
			return SV{App("str.len", t), ghostInt}
		case SLoc:
			mt := under(v.t).(*types.Map)
			return SV{Ite(Eq(Rid(t), Zero), Zero, e.ex.mapLen(e.st, mt, t)), ghostInt}
		}
		if at, ok := under(v.t).(*types.Array); ok {
			return SV{I(at.Len()), ghostInt}
		}
		specFail("len of %s", exprStr(x.args[1]))
	case "fresh", "isold":
		v := e.args(x, 1)[0]
		t := e.asT(v, x.args[1])
		var r *Term
		switch t.sort {
		case SSlice:
			r = Rid(SBase(t))
		case SLoc:
			r = Rid(t)
		case SIface:
			r = Rid(Sel("lval", t))
		}
		if e.alloc0 == nil {
			specFail("fresh() is not available here")
		}
		if name == "fresh" {
			if t.sort == SSlice {
				return SV{Or(Le(e.alloc0, r), Eq(SCap(t), Zero)), tb}
			}
			return SV{Le(e.alloc0, r), tb}
		}
		return SV{Lt(r, e.alloc0), tb}
	case "rid":
		t := e.asT(e.args(x, 1)[0], x.args[1])
		switch t.sort {
		case SSlice:
			return SV{Rid(SBase(t)), ghostInt}
		case SIface:
			return SV{Rid(Sel("lval", t)), ghostInt}
		}
		return SV{Rid(t), ghostInt}
	case "lidx", "lfk":
		t := e.asT(e.args(x, 1)[0], x.args[1])
		if t.sort == SSlice {
			t = SBase(t)
		}
		return SV{Sel(name, t), ghostInt}
	case "allocated":
		t := e.asT(e.args(x, 1)[0], x.args[1])
		if t.sort == SSlice {
			t = SBase(t)
		}
		if t.sort == SIface {
			t = Sel("lval", t)
		}
		return SV{Lt(Rid(t), e.st.alloc), tb}
	case "base":
		return SV{SBase(e.asT(e.args(x, 1)[0], x.args[1])), nil}
	case "idxof": // index of the element of slice s that p points at
		a := e.args(x, 2)
		pl, sl := e.asT(a[0], x.args[1]), e.asT(a[1], x.args[2])
		return SV{Sub(Sel("lidx", pl), Add(SOff(sl), Sel("lidx", SBase(sl)))), ghostInt}
	case "strof": // string(b) of a []byte
		v := e.args(x, 1)[0]
		t := e.asT(v, x.args[1])
		return SV{App("str.of", Select(e.st.H(elemHeap(types.Typ[types.Uint8])), SBase(t)), SOff(t), SLen(t)), types.Typ[types.String]}
	case "lower", "trim":
		nm := map[string]string{"lower": "strings.ToLower", "trim": "strings.TrimSpace"}[name]
		return SV{App(detStr(nm, SStr, SStr), e.asT(e.args(x, 1)[0], x.args[1])), types.Typ[types.String]}
	case "unixsec", "nanos", "iszero": // of a time.Time
		l := timeLeaves(e.full(e.args(x, 1)[0]))
		if name == "iszero" {
			return SV{timeIsZero(l), tb}
		}
		return SV{App(map[string]string{"unixsec": "time.unix", "nanos": "time.nanos"}[name], l...), ghostInt}
	case "hasnul": // strings.ContainsRune(s, 0)
		return SV{App("str.hasnul", e.asT(e.args(x, 1)[0], x.args[1])), tb}
	case "off":
		return SV{SOff(e.asT(e.args(x, 1)[0], x.args[1])), ghostInt}
	case "arr": // contents of the backing array of a slice
		v := e.args(x, 1)[0]
		if at, ok := under(v.t).(*types.Array); ok {
			_ = at
			return SV{v.v, nil}
		}
		s := e.asT(v, x.args[1])
		h := elemHeap(under(v.t).(*types.Slice).Elem())
		return SV{Select(e.st.H(h), SBase(s)), nil}
	case "typeis":
		t := e.goType(exprStr(x.args[2]))
		if t == nil {
			specFail("unknown type %s", exprStr(x.args[2]))
		}
		return SV{ifaceIs(e.term(x.args[1]), t), tb}
	case "as":
		t := e.goType(exprStr(x.args[2]))
		if t == nil {
			specFail("unknown type %s", exprStr(x.args[2]))
		}
		return SV{e.ex.unbox(e.st, e.term(x.args[1]), t), t}
	case "box":
		v := e.args(x, 1)[0]
		return SV{e.ifaceKey(v), nil}
	case "wdata", "wlen", "werr", "rdata", "rsize", "rpos", "rrel", "rerr":
		v := e.args(x, 1)[0]
		k := e.ifaceKey(v)
		h := streamHeap(name)
		r := Select(e.st.H(h), k)
		switch r.sort {
		case SInt:
			return SV{r, ghostInt}
		case SBool:
			return SV{r, tb}
		}
		return SV{r, nil}
	case "le16", "le32":
		n := 2
		if name == "le32" {
			n = 4
		}
		v := e.args(x, 2)
		i := e.asT(v[1], x.args[2])
		var get func(k int) *Term
		if v[0].t != nil {
			if sl, ok := under(v[0].t).(*types.Slice); ok {
				s := e.asT(v[0], x.args[1])
				a := Select(e.st.H(elemHeap(sl.Elem())), SBase(s))
				get = func(k int) *Term { return Select(a, Add(SOff(s), i, I(int64(k)))) }
			}
		}
		if get == nil {
			a := e.asT(v[0], x.args[1])
			get = func(k int) *Term { return Select(a, Add(i, I(int64(k)))) }
		}
		var ts []*Term
		for k := 0; k < n; k++ {
			ts = append(ts, MulC(get(k), pow2(8*k)))
		}
		return SV{Add(ts...), ghostInt}
	case "byteof": // k-th byte of an integer
		v := e.args(x, 2)
		k := e.asT(v[1], x.args[2])
		a := e.asT(v[0], x.args[1])
		if !k.isConst() {
			specFail("byteof wants a constant index")
		}
		return SV{MkByte(a, int(k.int64())), ghostInt}
	case "store":
		v := e.args(x, 3)
		a := e.asT(v[0], x.args[1])
		k := e.asT(v[1], x.args[2])
		if a.sort.k == SIface && k.sort != SIface {
			k = e.ifaceKey(v[1])
		}
		return SV{Store(a, k, e.asT(v[2], x.args[3])), nil}
	case "bytecpy":
		v := e.args(x, 5)
		var ts []*Term
		for i := range v {
			ts = append(ts, e.asT(v[i], x.args[i+1]))
		}
		return SV{Cpy(ts[0], ts[1], ts[2], ts[3], ts[4]), nil}
	case "min", "max":
		v := e.args(x, 2)
		a, b := e.asT(v[0], x.args[1]), e.asT(v[1], x.args[2])
		if name == "min" {
			return SV{Ite(Le(a, b), a, b), ghostInt}
		}
		return SV{Ite(Le(a, b), b, a), ghostInt}
	case "ncalls": // number of calls of a function value so far
		f := e.asT(e.args(x, 1)[0], x.args[1])
		return SV{Select(e.st.H(ghostHeap("CALLN", SLoc, SInt, big0(0), nil)), f), ghostInt}
	case "callarg", "callres": // callarg(f, i): i-th argument of the calls of f, by call number
		fv := e.eval(x.args[1])
		f := e.asT(fv, x.args[1])
		i := int(e.asT(e.eval(x.args[2]), x.args[2]).int64())
		sig := under(fv.t).(*types.Signature)
		pre, tu := "CALLA", sig.Params()
		if name == "callres" {
			pre, tu = "CALLR", sig.Results()
		}
		s := sortOf(tu.At(i).Type())
		return SV{Select(e.st.H(ghostHeap(fmt.Sprintf("%s%d:%s", pre, i, s.name), SLoc, SArr(SInt, s), nil, nil)), f), types.NewArray(tu.At(i).Type(), 1<<40)}
	case "iternum": // number of keys visited by the map iteration in this loop
		n, ok := e.frame.names["#iter"]
		if !ok {
			specFail("no map iteration here")
		}
		iv := n.v.(*IterV)
		return SV{Select(e.st.H(ghostHeap("ITER", SLoc, SInt, nil, nil)), iv.pos), ghostInt}
	case "iterlen":
		n, ok := e.frame.names["#iter"]
		if !ok {
			specFail("no map iteration here")
		}
		return SV{n.v.(*IterV).n, ghostInt}
	case "iterkey": // k-th key of the map iteration
		n, ok := e.frame.names["#iter"]
		if !ok {
			specFail("no map iteration here")
		}
		iv := n.v.(*IterV)
		return SV{Select(iv.it, e.term(x.args[1])), iv.mt.Key()}
	case "iterdom":
		n, ok := e.frame.names["#iter"]
		if !ok {
			specFail("no map iteration here")
		}
		iv := n.v.(*IterV)
		return SV{iv.dom0, nil}
	case "visited": // key already visited
		n, ok := e.frame.names["#iter"]
		if !ok {
			specFail("no map iteration here")
		}
		iv := n.v.(*IterV)
		k := e.coerce(e.eval(x.args[1]), iv.mt.Key())
		pos := Select(e.st.H(ghostHeap("ITER", SLoc, SInt, nil, nil)), iv.pos)
		return SV{And(Select(iv.dom0, k), Lt(Select(iv.itpos, k), pos)), tb}
	case "dom":
		v := e.args(x, 1)[0]
		mt := under(v.t).(*types.Map)
		d, _, _ := mapHeaps(mt)
		return SV{Select(e.st.H(d), e.asT(v, x.args[1])), nil}
	case "vals":
		v := e.args(x, 1)[0]
		mt := under(v.t).(*types.Map)
		_, vh, _ := mapHeaps(mt)
		return SV{Select(e.st.H(vh), e.asT(v, x.args[1])), nil}
	}
	if m := e.specs.macros[name]; m != nil {
		var as []SV
		for _, a := range x.args[1:] {
			as = append(as, e.eval(a))
		}
		return e.evalMacro(m, as)
	}
	if sf := e.specs.fns[name]; sf != nil {
		if sf.pred && e.ex.con != nil && e.ex.con.reveal[name] {
			vars := map[string]SV{}
			for i, p := range sf.params {
				_, ty := e.sortFor(p.typ)
				v := e.eval(x.args[1+i])
				vars[p.name] = SV{e.asT(v, x), ty}
			}
			n := e.with(vars)
			n.depth++
			return n.eval(sf.body)
		}
		e.ex.declSpecFn(sf)
		var ts []*Term
		for i, a := range x.args[1:] {
			v := e.eval(a)
			if i >= len(sf.params) {
				specFail("too many arguments for %s", name)
			}
			s, t := e.sortFor(sf.params[i].typ)
			var tt *Term
			if s == SIface && t != nil {
				tt = e.coerce(v, t)
			} else if s == SIface {
				tt = e.ifaceKey(v)
			} else if v.v == nil {
				tt = zeroTerm(s)
			} else {
				tt = e.asT(v, a)
			}
			ts = append(ts, tt)
		}
		r := App(name, ts...)
		_, t := e.sortFor(sf.res)
		if r.sort == SInt {
			t = ghostInt
		}
		return SV{r, t}
	}
	if t := e.goType(name); t != nil && len(x.args) == 2 {
		v := e.eval(x.args[1])
		return SV{v.v, t}
	}
	specFail("%s: unknown function %s", f.pos, name)
	return SV{}
}

// declSpecFn declares a specification function; its definition is unfolded where it occurs.
func (ex *Exec) declSpecFn(sf *SpecFn) {
	if funcs[sf.name] != nil {
		return
	}
	e := &Env{ex: ex, specs: ex.specs, pkg: ex.mainPkg(), vars: map[string]SV{}, st: ex.pureState()}
	var as []*Sort
	for _, p := range sf.params {
		s, _ := e.sortFor(p.typ)
		as = append(as, s)
	}
	rs, rt := e.sortFor(sf.res)
	f := declFun(sf.name, rs, as...)
	if rt != nil && rt != ghostInt {
		f.lo, f.hi = intRange(rt)
	}
	if sf.body == nil || sf.pred {
		return
	}
	f.rec = true
	f.fuel = sf.fuel
	f.inst = func(t *Term) []*Term {
		vars := map[string]SV{}
		for i, p := range sf.params {
			_, ty := e.sortFor(p.typ)
			vars[p.name] = SV{t.args[i], ty}
		}
		n := e.with(vars)
		n.st = ex.pureState()
		b := n.term(sf.body)
		return []*Term{Eq(t, b)}
	}
}

func (ex *Exec) mainPkg() *types.Package {
	for _, p := range ex.prog.pkgs {
		if p.PkgPath == repoPath {
			return p.Types
		}
	}
	return nil
}

func (ex *Exec) pureState() *State {
	return &State{heaps: map[string]*Term{}, known: map[*Term]bool{}, alloc: allocBase, ghost: map[string]Value{}, scope: "pure:"}
}

func streamHeap(name string) string {
	switch name {
	case "wdata":
		return ghostHeap("WD", SIface, SArr(SInt, SInt), big0(0), big0(255))
	case "wlen":
		return ghostHeap("WL", SIface, SInt, big0(0), pow2(63))
	case "werr":
		return ghostHeap("WERR", SIface, SBool, nil, nil)
	case "rdata":
		return ghostHeap("RD", SIface, SArr(SInt, SInt), big0(0), big0(255))
	case "rsize":
		return ghostHeap("RS", SIface, SInt, big0(0), pow2(63))
	case "rpos":
		return ghostHeap("RP", SIface, SInt, big0(0), pow2(63))
	case "rerr":
		return ghostHeap("RERR", SIface, SBool, nil, nil)
	case "rrel":
		return ghostHeap("RREL", SIface, SBool, nil, nil)
	}
	panic("stream heap " + name)
}

// ---- environments

func (fr *Frame) paramVars() map[string]SV {
	out := map[string]SV{}
	for i, p := range fr.fn.Params {
		if i < len(fr.args) {
			out[p.Name()] = SV{fr.args[i], p.Type()}
		}
	}
	return out
}

func (ex *Exec) env(st *State, pkg *types.Package) *Env {
	return &Env{ex: ex, st: st, specs: ex.specs, pkg: pkg, vars: map[string]SV{}}
}

func fnPkg(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	return nil
}

func (ex *Exec) invsFor(fn *ssa.Function) []*Inv {
	var out []*Inv
	if c := ex.specs.contracts[shortFn(fn)]; c != nil {
		out = append(out, c.invs...)
	}
	return out
}

func (ex *Exec) evalInv(st *State, act *LoopAct, iter *Term, inv *Inv) *Term {
	return ex.invEnv(st, act, iter).bool(inv.e)
}

func (ex *Exec) invEnv(st *State, act *LoopAct, iter *Term) *Env {
	fr := st.top()
	e := ex.env(st, fnPkg(fr.fn))
	e.frame = fr
	e.old = fr.entry
	e.entry = act.entry
	e.entryFrame = act.entry.top()
	e.alloc0 = fr.alloc0
	e.vars["iter"] = SV{iter, ghostInt}
	// iterations completed by the enclosing loops
	n := 0
	for i := len(fr.loops) - 1; i >= 0; i-- {
		if l := fr.loops[i]; l.header != act.header && l.blocks[act.header] && l.iter != nil {
			n++
			e.vars[fmt.Sprint("iter", n)] = SV{l.iter, ghostInt}
		}
	}
	for k, v := range fr.ghosts {
		e.vars[k] = v
	}
	return e
}
