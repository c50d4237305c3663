package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoPath = "github.com/tc-hib/winres"

func repoPkg(p *types.Package) bool {
	return p != nil && (p.Path() == repoPath || strings.HasPrefix(p.Path(), repoPath+"/"))
}

type Loop struct {
	fn     *ssa.Function
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	idx    int
}

type Program struct {
	dir    string
	fset   *token.FileSet
	prog   *ssa.Program
	pkgs   []*packages.Package
	spkgs  []*ssa.Package
	funcs  map[string]*ssa.Function // short name -> function
	loops  map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	nodes  map[token.Pos]ast.Node
	consts map[*ssa.Global]int
	all    map[*ssa.Function]bool
	src    map[string][]byte
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "CGO_ENABLED=0")}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pk {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, ps := ssautil.AllPackages(pk, ssa.InstantiateGenerics|ssa.GlobalDebug)
	P := &Program{dir: dir, fset: pk[0].Fset, prog: prog, pkgs: pk, funcs: map[string]*ssa.Function{},
		loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, consts: map[*ssa.Global]int{}, nodes: map[token.Pos]ast.Node{}}
	for _, p := range ps {
		if p != nil {
			p.Build()
			P.spkgs = append(P.spkgs, p)
		}
	}
	P.all = ssautil.AllFunctions(prog)
	for f := range P.all {
		if f.Pkg != nil && repoPkg(f.Pkg.Pkg) && f.Synthetic == "" {
			P.funcs[shortFn(f)] = f
		}
	}
	for _, p := range pk {
		if !repoPkg(p.Types) {
			continue
		}
		for _, f := range p.Syntax {
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.IndexExpr:
					P.nodes[x.Lbrack] = x
				case *ast.SliceExpr:
					P.nodes[x.Lbrack] = x
				case *ast.StarExpr:
					P.nodes[x.Star] = x
				case *ast.SelectorExpr:
					P.nodes[x.Sel.Pos()] = x
				case *ast.BinaryExpr:
					P.nodes[x.OpPos] = x
				case *ast.CallExpr:
					P.nodes[x.Lparen] = x
				case *ast.TypeAssertExpr:
					P.nodes[x.Lparen] = x
				}
				return true
			})
		}
	}
	return P, nil
}

// shortFn: winres.writeBlank, winres.(*peWriter).roundRaw, version.align ...
func shortFn(f *ssa.Function) string {
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, repoPath+"/", "")
	s = strings.ReplaceAll(s, repoPath, "winres")
	return s
}

func (P *Program) srcAt(i ssa.Instruction) string {
	n := P.nodes[i.Pos()]
	if n == nil {
		return ""
	}
	var b bytes.Buffer
	printer.Fprint(&b, P.fset, n)
	s := strings.Join(strings.Fields(b.String()), " ")
	if len(s) > 90 {
		s = s[:90] + "…"
	}
	return s
}

// constGlobal: the global is assigned in package initialisation only.
func (P *Program) constGlobal(g *ssa.Global) bool {
	if v, ok := P.consts[g]; ok {
		return v == 1
	}
	ok := 1
	for f := range P.all {
		if f.Pkg == nil || f.Pkg != g.Pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(g) {
						if st, isS := in.(*ssa.Store); isS && st.Addr == ssa.Value(g) {
							if f.Name() != "init" {
								ok = 0
							}
							continue
						}
						if u, isU := in.(*ssa.UnOp); isU && u.Op == token.MUL {
							continue
						}
						if _, isD := in.(*ssa.DebugRef); isD {
							continue
						}
						ok = 0
					}
				}
			}
		}
	}
	P.consts[g] = ok
	return ok == 1
}

func (P *Program) loopAt(fn *ssa.Function, b *ssa.BasicBlock) *Loop {
	m, ok := P.loops[fn]
	if !ok {
		m = findLoops(fn)
		P.loops[fn] = m
	}
	return m[b]
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	out := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := out[s]
				if l == nil {
					l = &Loop{fn: fn, header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					out[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.blocks[p] {
							l.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	var hs []*ssa.BasicBlock
	for h := range out {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
	for i, h := range hs {
		out[h].idx = i
	}
	// irreducible back edges are not natural loops
	return out
}
