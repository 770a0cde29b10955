package main

import (
	"flag"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	flagRepo   = flag.String("repo", "/repo", "repository")
	flagVerif  = flag.String("verif", "/verif", "verification directory")
	flagProp   = flag.String("prop", "", "property id")
	flagOnly   = flag.String("only", "", "only contracts whose name contains this")
	flagTier   = flag.String("tier", "quick", "quick or thorough")
	flagVerb   = flag.Bool("v", false, "verbose")
	flagDump   = flag.String("dump", "", "dump queries of obligations whose label contains this")
	flagReplay = flag.Bool("replay", true, "replay counterexamples")
)

// ContractResult is the outcome of one contract.
type ContractResult struct {
	Name      string
	Pos       string
	Obls      []*Obligation
	Err       string
	Used      []string
	Assum     []string
	Inv       map[string]int
	LoopObls  int
	Vacuous   bool
	ExitCheck string
	Seconds   float64
	SolveSecs float64
	eng       *Engine
	fn        *ssa.Function
	params    []Val
	Anys      []string
	Cases     int
}

func overlayFor(verif, repo, prop string) (map[string][]byte, map[string]string, []string) {
	ov := map[string][]byte{}
	real := map[string]string{}
	var pats []string
	root := filepath.Join(verif, "contracts")
	seen := map[string]bool{}
	rt, _ := os.ReadFile(filepath.Join(root, "runtime.go.txt"))
	filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		base := filepath.Base(path)
		if !strings.HasPrefix(base, specPrefix) {
			return nil
		}
		if strings.HasPrefix(base, specPrefix+"C") && !strings.HasPrefix(base, specPrefix+prop) {
			return nil
		}
		rel, _ := filepath.Rel(root, filepath.Dir(path))
		b, _ := os.ReadFile(path)
		dst := filepath.Join(repo, rel, base)
		ov[dst] = b
		real[dst] = path
		if !seen[rel] {
			seen[rel] = true
			pats = append(pats, "./"+rel)
			pk := filepath.Base(rel)
			d := filepath.Join(repo, rel, specPrefix+"runtime.go")
			ov[d] = []byte(strings.Replace(string(rt), "package PKG", "package "+pk, 1))
		}
		return nil
	})
	sort.Strings(pats)
	return ov, real, pats
}

func main() {
	debug.SetGCPercent(400)
	flag.Parse()
	os.Exit(runCheck())
}

// verifyContract executes a contract, once for every combination of its case splits.
func verifyContract(p *Program, name string, fn *ssa.Function, prop string) (res *ContractResult) {
	var script []int
	for {
		e := newEngine(p, name, prop)
		e.script = script
		r := runContract(p, e, name, fn)
		if res == nil {
			res = r
		} else {
			res.add(r)
		}
		if r.Err != "" {
			return
		}
		// the next combination
		script = e.script[:e.scriptPos]
		for len(script) > 0 && script[len(script)-1] == e.arity[len(script)-1] {
			script = script[:len(script)-1]
		}
		if len(script) == 0 {
			return
		}
		script = append([]int{}, script...)
		script[len(script)-1]++
	}
}

func (a *ContractResult) add(b *ContractResult) {
	a.Obls = append(a.Obls, b.Obls...)
	a.Err = b.Err
	a.Used = union(a.Used, b.Used)
	a.Assum = union(a.Assum, b.Assum)
	for k, v := range b.Inv {
		a.Inv[k] += v
	}
	a.LoopObls += b.LoopObls
	if a.Vacuous || b.ExitCheck == "unsat" || b.ExitCheck == "" {
		if a.Vacuous && !b.Vacuous {
			a.ExitCheck = b.ExitCheck
		}
	} else if a.ExitCheck == "sat" && b.ExitCheck != "sat" {
		a.ExitCheck = b.ExitCheck
	}
	a.Vacuous = a.Vacuous && b.Vacuous
	a.Seconds += b.Seconds
	a.Cases += b.Cases
	a.params = append(a.params, b.params...)
}

func union(a, b []string) []string {
	m := map[string]bool{}
	for _, x := range a {
		m[x] = true
	}
	for _, x := range b {
		m[x] = true
	}
	return sortedKeys(m)
}

func runContract(p *Program, e *Engine, name string, fn *ssa.Function) (res *ContractResult) {
	t0 := time.Now()
	res = &ContractResult{Name: name, eng: e, fn: fn, Pos: e.pos(fn.Pos()), Cases: 1}
	defer func() {
		res.Seconds = time.Since(t0).Seconds()
		res.Used = sortedKeys(e.used)
		res.Assum = sortedKeys(e.assumption)
		res.Inv = e.invStats
		res.LoopObls = e.loopObls
		res.Obls = e.obls
		if r := recover(); r != nil {
			modLogs = nil
			if u, ok := r.(Unsupported); ok {
				res.Err = u.Msg + " (in " + e.curFn() + ")"
				return
			}
			res.Err = fmt.Sprint("internal error: ", r)
			if *flagVerb {
				fmt.Fprintln(os.Stderr, string(debug.Stack()))
			}
		}
	}()
	forget()
	defer forget()
	st := &State{env: map[ssa.Value]Val{}, heap: p.init.fork()}
	for _, pr := range fn.Params {
		res.params = append(res.params, st.fresh(pr.Type(), name+"."+pr.Name(), true))
	}
	end, _ := e.call(st, fn, res.params, nil, token.NoPos)
	forget()
	if end.dead {
		res.Vacuous = true
		return
	}
	qu := buildQuery(end.pc.terms())
	r := solve(qu, 20, 0)
	res.ExitCheck = r.Status
	if r.Status == "unsat" {
		res.Vacuous = true
	}
	return
}

var deadline time.Time

func remaining(n int) int {
	if deadline.IsZero() {
		return n
	}
	r := int(time.Until(deadline).Seconds())
	if r < 1 {
		r = 1
	}
	if n > r {
		n = r
	}
	return n
}

// discharge solves all obligations of a contract.
func discharge(obls []*Obligation, quick, full int) {
	type group struct {
		obls []*Obligation
		qu   *Query
	}
	var safety, rest []*Obligation
	for _, o := range obls {
		if o.Goal.IsTrue() {
			o.Proved, o.Status = true, "unsat"
			o.Result.Solver = "simplifier"
			continue
		}
		if o.Kind == "ensures" {
			rest = append(rest, o)
		} else {
			safety = append(safety, o)
		}
	}
	var groups []*group
	for i := 0; i < len(safety); i += 12 {
		j := i + 12
		if j > len(safety) {
			j = len(safety)
		}
		groups = append(groups, &group{obls: safety[i:j]})
	}
	for _, o := range rest {
		groups = append(groups, &group{obls: []*Obligation{o}})
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var again []*Obligation
	for _, g := range groups {
		var qs []*Term
		for _, o := range g.obls {
			qs = append(qs, And(append(append([]*Term{}, o.PC...), Not(o.Goal))...))
		}
		if len(qs) == 1 {
			g.qu = buildQuery(append(append([]*Term{}, g.obls[0].PC...), Not(g.obls[0].Goal)))
			g.obls[0].Query = g.qu
			if lite := g.obls[0].Lite; len(lite) < len(g.obls[0].PC) {
				g.qu.lite = buildLevel(append(append([]*Term{}, lite...), Not(g.obls[0].Goal)), -1)
			}
		} else {
			g.qu = buildQuery([]*Term{Or(qs...)})
		}
	}
	for _, g := range groups {
		wg.Add(1)
		go func(g *group) {
			defer wg.Done()
			f := full
			if len(g.obls) > 1 {
				f = 0
			}
			r := solve(g.qu, quick, f)
			mu.Lock()
			defer mu.Unlock()
			if r.Status == "unsat" {
				for _, o := range g.obls {
					o.Proved, o.Status, o.Result = true, "unsat", r
				}
				return
			}
			if len(g.obls) == 1 {
				o := g.obls[0]
				o.Status, o.Result = r.Status, r
				return
			}
			again = append(again, g.obls...)
		}(g)
	}
	wg.Wait()
	for _, o := range again {
		o.Query = buildQuery(append(append([]*Term{}, o.PC...), Not(o.Goal)))
	}
	for _, o := range again {
		wg.Add(1)
		go func(o *Obligation) {
			defer wg.Done()
			r := solve(o.Query, quick, full)
			o.Status, o.Result = r.Status, r
			o.Proved = r.Status == "unsat"
		}(o)
	}
	wg.Wait()
}
