package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

type bigInt = big.Int

func main() {
	repo := flag.String("repo", "/repo", "repository")
	dir := flag.String("contracts", "/verif/contracts", "contract files")
	prop := flag.String("prop", "", "property")
	one := flag.String("fn", "", "verify one function (worker)")
	ms := flag.Int("ms", 20000, "solver time per obligation, milliseconds")
	dump := flag.String("dump", "", "directory for failing queries")
	ssaOf := flag.String("ssa", "", "print the SSA form of a function")
	out := flag.String("o", "", "write the report here")
	verbose := flag.Bool("v", false, "print every obligation")
	list := flag.Bool("list", false, "list functions")
	limit := flag.Int("limit", 0, "seconds for the whole run, 0 for no limit")
	jobs := flag.Int("j", runtime.NumCPU(), "workers")
	flag.Parse()
	start := time.Now()
	P, err := loadProgram(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	if *list {
		var ns []string
		for n := range P.funcs {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		fmt.Println(strings.Join(ns, "\n"))
		return
	}
	if *ssaOf != "" {
		P.funcs[*ssaOf].WriteTo(os.Stdout)
		return
	}
	S, err := parseSpecs(*dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "contracts:", err)
		os.Exit(2)
	}
	S.selectFor(*prop)
	if *one != "" {
		parent := os.Getppid()
		go func() { // end with the process that started this one
			for os.Getppid() == parent {
				time.Sleep(time.Second)
			}
			syscall.Kill(0, syscall.SIGKILL)
		}()
		initSolvers(4)
		r := reportFn(P, S, *prop, *one, *ms, 3, *dump)
		closeSolvers()
		b, _ := json.Marshal(r)
		os.Stdout.Write(b)
		return
	}
	// orchestrate
	todo := flag.Args()
	if len(todo) == 0 {
		for n, c := range S.contracts {
			if c.inline && len(c.ensures) == 0 {
				continue // invariants for its inlined uses only
			}
			for _, p := range c.props {
				if p == *prop || *prop == "" {
					todo = append(todo, n)
					break
				}
			}
		}
		sort.Strings(todo)
		if len(S.order) > 0 {
			todo = append(todo, "lemmas")
		}
	}
	self, _ := os.Executable()
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	done := map[string]*FnReport{}
	queued := map[string]bool{}
	queue := []string{}
	for _, t := range todo {
		if !queued[t] {
			queued[t] = true
			queue = append(queue, t)
		}
	}
	running := 0
	var wg sync.WaitGroup
	for i := 0; i < *jobs; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				for len(queue) == 0 && running > 0 {
					cond.Wait()
				}
				if len(queue) == 0 {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				n := queue[0]
				queue = queue[1:]
				running++
				mu.Unlock()
				args := []string{"-repo", *repo, "-contracts", *dir, "-prop", *prop, "-fn", n, "-ms", fmt.Sprint(*ms)}
				if *dump != "" {
					args = append(args, "-dump", *dump)
				}
				ctx, cancel := context.WithCancel(context.Background())
				if *limit > 0 {
					ctx, cancel = context.WithDeadline(context.Background(), start.Add(time.Duration(*limit)*time.Second))
				}
				c := exec.CommandContext(ctx, self, args...)
				c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
				c.Cancel = func() error { return syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
				c.Stderr = os.Stderr
				b, err := c.Output()
				r := &FnReport{Name: n}
				if err != nil {
					r.Error = "worker: " + err.Error()
				} else if err := json.Unmarshal(b, r); err != nil {
					r.Error = "worker output: " + err.Error()
				}
				if ctx.Err() != nil {
					r.Error = fmt.Sprintf("not decided within the %d s of the whole run", *limit)
				}
				cancel()
				mu.Lock()
				done[n] = r
				running--
				if flag.NArg() == 0 {
					for _, u := range r.Used {
						if !queued[u] {
							queued[u] = true
							queue = append(queue, u)
						}
					}
				}
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	var names []string
	for n := range done {
		names = append(names, n)
	}
	sort.Strings(names)
	var rs []*FnReport
	bad := 0
	for _, n := range names {
		r := done[n]
		rs = append(rs, r)
		p := 0
		for _, o := range r.Obls {
			if o.Status == "proved" {
				p++
			}
			if *verbose || o.Status != "proved" {
				fmt.Printf("  %-8s %-9s %s  (%s) %s %.1fs %s\n", o.Status, o.Kind, o.Name, o.Pos, o.By, o.Secs, o.Detail)
			}
			if o.Status != "proved" {
				bad++
			}
		}
		if r.Error != "" {
			bad++
		}
		fmt.Printf("%s: %d/%d proved, %d states, %d returns, %.1fs %s%s\n", n, p, len(r.Obls), r.States, r.Returns, r.Secs, r.Error, map[bool]string{true: " (absent)", false: ""}[r.Missing])
	}
	if *out != "" {
		b, _ := json.MarshalIndent(rs, "", " ")
		os.WriteFile(*out, b, 0644)
	}
	if bad > 0 {
		os.Exit(1)
	}
}
