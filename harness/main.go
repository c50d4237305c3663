// Command harness searches for inputs of the real code (built from /repo's working tree) that break a property.
// Its oracles are written from the property texts and from the file formats' documentation; they share no code with winres.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// T is the context of one case.
type T struct {
	r     *rand.Rand
	tier  string
	seed  int64
	notes []string
}

type failure struct{ msg string }

func (t *T) fail(f string, a ...interface{}) { panic(failure{fmt.Sprintf(f, a...)}) }

func (t *T) check(ok bool, f string, a ...interface{}) {
	if !ok {
		panic(failure{fmt.Sprintf(f, a...)})
	}
}

// note records what the case did, for the replay file.
func (t *T) note(f string, a ...interface{}) {
	if len(t.notes) < 400 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 600 {
			s = s[:600] + "…"
		}
		t.notes = append(t.notes, s)
	}
}

// A gen is a family of cases: one per seed.
type gen struct {
	prop   string
	name   string
	weight int // how often it is drawn
	once   int // number of seeds always tried (0..once-1), before anything else
	max    int // number of different seeds, 0 if unbounded
	f      func(t *T)
}

var gens []*gen

func reg(prop, name string, weight, once int, f func(t *T)) *gen {
	g := &gen{prop: prop, name: name, weight: weight, once: once, f: f}
	gens = append(gens, g)
	return g
}

type Result struct {
	Prop     string         `json:"property"`
	Cases    map[string]int `json:"cases"`
	Total    int            `json:"total"`
	Seconds  float64        `json:"seconds"`
	Failures []Fail         `json:"failures"`
}

type Fail struct {
	Prop  string   `json:"property"`
	Gen   string   `json:"case"`
	Seed  int64    `json:"seed"`
	Tier  string   `json:"tier"`
	Msg   string   `json:"message"`
	Notes []string `json:"history,omitempty"`
}

const hangLimit = 150 * time.Second

func runCase(g *gen, seed int64, tier string) (out *Fail) {
	t := &T{r: rand.New(rand.NewSource(seed*7919 + int64(len(g.name))*104729 + 17)), tier: tier, seed: seed}
	done := make(chan *Fail, 1)
	go func() {
		var f *Fail
		defer func() {
			if e := recover(); e != nil {
				msg := ""
				if x, ok := e.(failure); ok {
					msg = x.msg
				} else {
					st := string(debug.Stack())
					msg = fmt.Sprintf("panic: %v\n%s", e, trimStack(st))
				}
				if len(msg) > 4000 {
					msg = msg[:4000]
				}
				f = &Fail{Prop: g.prop, Gen: g.name, Seed: seed, Tier: tier, Msg: msg, Notes: t.notes}
			}
			done <- f
		}()
		g.f(t)
	}()
	select {
	case f := <-done:
		return f
	case <-time.After(hangLimit):
		return &Fail{Prop: g.prop, Gen: g.name, Seed: seed, Tier: tier, Msg: fmt.Sprintf("no result after %v", hangLimit)}
	}
}

func trimStack(s string) string {
	var out []string
	lines := strings.Split(s, "\n")
	seen := false
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			out = out[:0]
			continue
		}
		if seen && i < 60 {
			out = append(out, l)
		}
	}
	if len(out) > 14 {
		out = out[:14]
	}
	return strings.Join(out, "\n")
}

func child(prop, tier string, seed int64, budget time.Duration, work string) {
	start := time.Now()
	var list []*gen
	for _, g := range gens {
		if g.prop == prop {
			list = append(list, g)
		}
	}
	res := Result{Prop: prop, Cases: map[string]int{}}
	var mu sync.Mutex
	var stop int32
	type job struct {
		g    *gen
		seed int64
	}
	jobs := make(chan job, 64)
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		cur, _ := os.Create(filepath.Join(work, fmt.Sprintf("cur.%d", w)))
		go func() {
			defer wg.Done()
			for j := range jobs {
				if cur != nil {
					cur.WriteAt([]byte(fmt.Sprintf("%-40s %20d\n", j.g.name, j.seed)), 0)
				}
				f := runCase(j.g, j.seed, tier)
				mu.Lock()
				res.Cases[j.g.name]++
				res.Total++
				if f != nil {
					res.Failures = append(res.Failures, *f)
					if len(res.Failures) >= 5 {
						atomic.StoreInt32(&stop, 1)
					}
				}
				mu.Unlock()
			}
		}()
	}
	for _, g := range list {
		for s := 0; s < g.once && atomic.LoadInt32(&stop) == 0; s++ {
			jobs <- job{g, int64(s)}
		}
	}
	var bag []*gen
	for _, g := range list {
		for i := 0; i < g.weight; i++ {
			bag = append(bag, g)
		}
	}
	next := map[*gen]int64{}
	for i := 0; len(bag) > 0 && time.Since(start) < budget && atomic.LoadInt32(&stop) == 0; i++ {
		g := bag[i%len(bag)]
		next[g]++
		s := seed*1000000007 + next[g]
		if g.max > 0 {
			if next[g] > int64(g.max) {
				nb := bag[:0:0]
				for _, x := range bag {
					if x != g {
						nb = append(nb, x)
					}
				}
				bag = nb
				continue
			}
			s = next[g] - 1
		}
		jobs <- job{g, s}
	}
	close(jobs)
	wg.Wait()
	res.Seconds = time.Since(start).Seconds()
	sort.Slice(res.Failures, func(i, j int) bool {
		return res.Failures[i].Gen < res.Failures[j].Gen || res.Failures[i].Gen == res.Failures[j].Gen && res.Failures[i].Seed < res.Failures[j].Seed
	})
	b, _ := json.Marshal(res)
	os.WriteFile(filepath.Join(work, "result.json"), b, 0644)
}

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	budget := flag.Float64("budget", 10, "seconds")
	work := flag.String("work", "", "scratch directory")
	isChild := flag.Bool("child", false, "")
	cs := flag.String("case", "", "replay one case")
	out := flag.String("o", "", "result file")
	list := flag.Bool("list", false, "list case families")
	flag.Parse()
	if *list {
		for _, g := range gens {
			fmt.Println(g.prop, g.name, g.weight, g.once, g.max)
		}
		return
	}
	if *cs != "" {
		for _, g := range gens {
			if g.prop == *prop && g.name == *cs {
				if f := runCase(g, *seed, *tier); f != nil {
					b, _ := json.MarshalIndent(f, "", " ")
					fmt.Println(string(b))
					os.Exit(1)
				}
				fmt.Println("ok")
				return
			}
		}
		fmt.Println("no such case")
		os.Exit(2)
	}
	if *isChild {
		child(*prop, *tier, *seed, time.Duration(*budget*float64(time.Second)), *work)
		return
	}
	dir, err := os.MkdirTemp("", "winres-harness")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	defer os.RemoveAll(dir)
	start := time.Now()
	cmd := exec.Command(os.Args[0], "-child", "-prop", *prop, "-tier", *tier, "-seed", fmt.Sprint(*seed), "-budget", fmt.Sprint(*budget), "-work", dir)
	log, _ := os.Create(filepath.Join(dir, "log"))
	cmd.Stdout, cmd.Stderr = log, log
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=12GiB")
	runErr := cmd.Run()
	res := Result{Prop: *prop}
	b, err := os.ReadFile(filepath.Join(dir, "result.json"))
	if err == nil {
		err = json.Unmarshal(b, &res)
	}
	if err != nil || runErr != nil {
		// The process died (stack overflow, out of memory, …): find which case did it.
		lg, _ := os.ReadFile(filepath.Join(dir, "log"))
		if len(lg) > 3000 {
			lg = lg[:3000]
		}
		found := false
		for w := 0; w < 64; w++ {
			b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("cur.%d", w)))
			if err != nil {
				continue
			}
			var name string
			var s int64
			if _, err := fmt.Sscan(string(b), &name, &s); err != nil {
				continue
			}
			c := exec.Command(os.Args[0], "-prop", *prop, "-tier", *tier, "-seed", fmt.Sprint(s), "-case", name)
			o, err := c.CombinedOutput()
			if err != nil {
				if len(o) > 3000 {
					o = o[:3000]
				}
				res.Failures = append(res.Failures, Fail{Prop: *prop, Gen: name, Seed: s, Tier: *tier, Msg: "the process died: " + string(o)})
				found = true
			}
		}
		if !found {
			fmt.Printf("harness died without a reproducible case: %v\n%s\n", runErr, lg)
			os.RemoveAll(dir)
			os.Exit(3)
		}
	}
	res.Seconds = time.Since(start).Seconds()
	b, _ = json.MarshalIndent(res, "", " ")
	if *out != "" {
		os.WriteFile(*out, b, 0644)
	} else {
		fmt.Println(string(b))
	}
	if len(res.Failures) > 0 {
		os.RemoveAll(dir)
		os.Exit(1)
	}
}
