package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// facts attached to terms (type invariants of values read from an unknown heap, definitions of
// fresh symbols); they are asserted in every query in which the term occurs.
// factGen yields facts for every application of a function symbol.
var factGen = map[string]func(t *Term) []*Term{}
var termFacts = map[*Term][]*Term{}

func attachFact(t *Term, f *Term) {
	if f.IsTrue() {
		return
	}
	for _, x := range termFacts[t] {
		if x == f {
			return
		}
	}
	termFacts[t] = append(termFacts[t], f)
}

// Query is a ground (quantifier-free) SMT problem, plus the quantified original for the second attempt.
type Query struct {
	Text     string // QF text without check-sat
	QText    string // text with quantifiers ("" if none)
	level    int    // instantiation effort
	blocked  bool   // a higher effort would instantiate more
	asserts  []*Term
	lite     *Query // fewer hypotheses, no instances; tried first
	Watch    []*Term
	Trivial  string // "unsat" if syntactically so
	Ackerman bool
}

type scan struct {
	seen   map[*Term]bool
	apps   []*Term
	vars   []*Term
	queue  []*Term
	forall []*Term
}

func (s *scan) visit(t *Term) {
	if s.seen[t] {
		return
	}
	s.seen[t] = true
	if t.Op == OpForall {
		if !t.hasFreeBV() {
			s.forall = append(s.forall, t)
		}
		return
	}
	for _, a := range t.Args {
		s.visit(a)
	}
	switch t.Op {
	case OpApp:
		s.apps = append(s.apps, t)
		if g := factGen[t.Name]; g != nil && !t.hasFreeBV() {
			s.queue = append(s.queue, g(t)...)
		}
	case OpVar:
		s.vars = append(s.vars, t)
	}
	if fs, ok := termFacts[t]; ok {
		s.queue = append(s.queue, fs...)
	}
}

// freeBV computes the set of bound variables free in t.
var freeBVMemo = map[*Term][]*Term{}

func freeBVs(t *Term) []*Term {
	if !t.hasBV {
		return nil
	}
	if r, ok := freeBVMemo[t]; ok {
		return r
	}
	var r []*Term
	if t.Op == OpVar {
		r = []*Term{t}
	} else {
		set := map[*Term]bool{}
		as := t.Args
		if t.Op == OpForall {
			as = t.Args[1:]
		}
		for _, a := range as {
			for _, v := range freeBVs(a) {
				if t.Op == OpForall && v == t.Args[0] {
					continue
				}
				if !set[v] {
					set[v] = true
					r = append(r, v)
				}
			}
		}
	}
	freeBVMemo[t] = r
	return r
}
func (t *Term) hasFreeBV() bool { return len(freeBVs(t)) > 0 }

var skolems = map[*Term]*Term{}
var qnames = map[*Term]*Term{}

func qname(q *Term) *Term {
	if v, ok := qnames[q]; ok {
		return v
	}
	v := mk(OpVar, 0, 0, fmt.Sprintf("Q!%d", len(qnames)))
	qnames[q] = v
	return v
}
func skolem(q *Term) *Term {
	if v, ok := skolems[q]; ok {
		return v
	}
	v := FreshVar(q.Args[0].W, "sk_"+q.Args[0].Name)
	if q.Args[0].reg != 0 {
		setRegion(v, q.Args[0].reg, q.Args[0].bound)
	}
	skolems[q] = v
	return v
}

type pat struct {
	fn  string
	pos int
	off *Term // v + off ; nil = exactly v
}

var patMemo = map[*Term][]pat{}

func patterns(q *Term) []pat {
	if p, ok := patMemo[q]; ok {
		return p
	}
	v := q.Args[0]
	var out []pat
	seen := map[*Term]bool{}
	dedup := map[string]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.hasBV {
			return
		}
		seen[t] = true
		if t.Op == OpApp {
			for i, a := range t.Args {
				var off *Term
				ok := false
				if a == v {
					ok = true
				} else if a.Op == OpAdd && a.hasBV {
					// collect sum
					if rest, found := takeOut(a, v); found && !hasVar(rest, v) {
						ok, off = true, rest
					}
				}
				if ok {
					key := fmt.Sprint(t.Name, i)
					if off != nil {
						key += fmt.Sprint("#", off.ID)
					}
					if !dedup[key] {
						dedup[key] = true
						out = append(out, pat{t.Name, i, off})
					}
				}
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(q.Args[1])
	patMemo[q] = out
	return out
}

func hasVar(t, v *Term) bool {
	for _, x := range freeBVs(t) {
		if x == v {
			return true
		}
	}
	return false
}

// takeOut finds v as a summand of a and returns the remainder.
func takeOut(a, v *Term) (*Term, bool) {
	if a == v {
		return BV(a.W, 0), true
	}
	if a.Op == OpAdd {
		if r, ok := takeOut(a.Args[0], v); ok {
			return Add(r, a.Args[1]), true
		}
		if r, ok := takeOut(a.Args[1], v); ok {
			return Add(a.Args[0], r), true
		}
	}
	if a.Op == OpSub {
		if r, ok := takeOut(a.Args[0], v); ok {
			return Sub(r, a.Args[1]), true
		}
	}
	return nil, false
}

const maxInst = 6000

const maxLevel = 2

// skDepth: nesting depth of the instantiations a skolem constant stems from.
var skDepth = map[*Term]int{}
var depthMemo = map[*Term]int{}

func termDepth(t *Term) int {
	if d, ok := skDepth[t]; ok {
		return d
	}
	if len(t.Args) == 0 {
		return -1
	}
	if d, ok := depthMemo[t]; ok {
		return d
	}
	d := -1
	for _, a := range t.Args {
		if x := termDepth(a); x > d {
			d = x
		}
	}
	depthMemo[t] = d
	return d
}

func nested(q *Term) bool { return q.Args[1].nq }

var termMu sync.Mutex

// ground eliminates quantifiers by instantiation (sound for unsat answers).
func ground(asserts []*Term, level int) (ts []*Term, foralls []*Term, blocked bool) {
	lim := level
	if level >= maxLevel {
		lim = 100
	}
	sc := &scan{seen: map[*Term]bool{}}
	var out []*Term
	inOut := map[*Term]bool{}
	add := func(t *Term) {
		if t.IsTrue() || inOut[t] {
			return
		}
		inOut[t] = true
		out = append(out, t)
		sc.visit(t)
	}
	for _, t := range asserts {
		add(t)
	}
	pos := map[*Term]bool{}
	neg := map[*Term]bool{}
	polSeen := map[[2]interface{}]bool{}
	var pol func(t *Term, p, n bool)
	pol = func(t *Term, p, n bool) {
		if !t.nq {
			return
		}
		k := [2]interface{}{t, [2]bool{p, n}}
		if polSeen[k] {
			return
		}
		polSeen[k] = true
		switch t.Op {
		case OpForall:
			if p {
				pos[t] = true
			}
			if n {
				neg[t] = true
			}
		case OpNot:
			pol(t.Args[0], n, p)
		case OpAnd, OpOr:
			for _, a := range t.Args {
				pol(a, p, n)
			}
		case OpIte:
			pol(t.Args[0], true, true)
			pol(t.Args[1], p, n)
			pol(t.Args[2], p, n)
		default:
			for _, a := range t.Args {
				pol(a, true, true)
			}
		}
	}
	done := map[[2]*Term]bool{}
	skDone := map[*Term]bool{}
	nOut := 0
	ninst := 0
	insts := map[*Term]int{}
	rounds := 5
	if level < 0 {
		rounds = 1
	}
	for round := 0; round < rounds; round++ {
		// drain facts
		for len(sc.queue) > 0 || nOut < len(out) {
			for ; nOut < len(out); nOut++ {
				pol(out[nOut], true, false)
			}
			q := sc.queue
			sc.queue = nil
			for _, f := range q {
				add(f)
			}
			// skolemize negative foralls right away
			for _, q := range sc.forall {
				if neg[q] && !skDone[q] {
					skDone[q] = true
					sk := skolem(q)
					if _, ok := skDepth[sk]; !ok {
						d := termDepth(q.Args[1])
						if d < 0 {
							d = 0
						}
						if round > 0 {
							d++
						}
						skDepth[sk] = d
					}
					b := subst(q.Args[1], map[*Term]*Term{q.Args[0]: sk}, map[*Term]*Term{})
					add(Or(qname(q), Not(b)))
				}
			}
		}
		if level < 0 {
			break
		}
		// instantiate
		byFn := map[string][]*Term{}
		for _, a := range sc.apps {
			if !a.hasFreeBV() {
				byFn[a.Name] = append(byFn[a.Name], a)
			}
		}
		var sks []*Term
		for q := range skDone {
			sks = append(sks, skolems[q])
		}
		sort.Slice(sks, func(i, j int) bool { return sks[i].ID < sks[j].ID })
		n0 := ninst
		fa := append([]*Term(nil), sc.forall...)
		for _, q := range fa {
			if !pos[q] {
				continue
			}
			v := q.Args[0]
			cands := map[*Term]bool{}
			var cl []*Term
			addc := func(t *Term) {
				if t.W == v.W && !cands[t] {
					cands[t] = true
					cl = append(cl, t)
				}
			}
			for _, p := range patterns(q) {
				if p.off != nil && p.off.hasFreeBV() {
					continue
				}
				for _, a := range byFn[p.fn] {
					if p.pos >= len(a.Args) || a.Args[p.pos].W != v.W {
						continue
					}
					g := a.Args[p.pos]
					if p.off != nil {
						g = Sub(g, p.off)
					}
					addc(g)
				}
			}
			for _, s := range sks {
				addc(s)
			}
			if v.W == 64 && round == 0 {
				addc(BV(64, 0))
			}
			for _, c := range cl {
				k := [2]*Term{q, c}
				if done[k] || ninst > maxInst || insts[q] > 400 {
					continue
				}
				if d := termDepth(c); nested(q) && d > lim || d > lim+1 {
					blocked = true
					continue
				}
				done[k] = true
				ninst++
				insts[q]++
				b := subst(q.Args[1], map[*Term]*Term{v: c}, map[*Term]*Term{})
				add(Or(Not(qname(q)), b))
			}
		}
		if ninst == n0 {
			break
		}
	}
	for len(sc.queue) > 0 {
		q := sc.queue
		sc.queue = nil
		for _, f := range q {
			add(f)
		}
	}
	m := map[*Term]*Term{}
	memo := map[*Term]*Term{}
	for _, q := range sc.forall {
		m[q] = qname(q)
	}
	for _, t := range out {
		if t.nq {
			t = subst(t, m, memo)
		}
		ts = append(ts, t)
	}
	for _, q := range sc.forall {
		if pos[q] {
			foralls = append(foralls, q)
		}
	}
	return
}

func sortName(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

type printer struct {
	sb   strings.Builder
	done map[*Term]bool
	decl map[string]bool
}

func q(s string) string { return "|" + s + "|" }

func constStr(t *Term) string {
	if t.W == 0 {
		if t.K == 1 {
			return "true"
		}
		return "false"
	}
	if t.W%4 == 0 {
		return fmt.Sprintf("#x%0*x", t.W/4, t.K)
	}
	return fmt.Sprintf("#b%0*b", t.W, t.K)
}

func (p *printer) ref(t *Term) string {
	switch t.Op {
	case OpConst:
		return constStr(t)
	case OpVar:
		return q(t.Name)
	}
	return fmt.Sprintf("t%d", t.ID)
}

func (p *printer) expr(t *Term, ref func(*Term) string) string {
	var sb strings.Builder
	switch t.Op {
	case OpExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", t.K>>8, t.K&255, ref(t.Args[0]))
	case OpZext:
		fmt.Fprintf(&sb, "((_ zero_extend %d) %s)", t.W-t.Args[0].W, ref(t.Args[0]))
	case OpSext:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.W-t.Args[0].W, ref(t.Args[0]))
	case OpApp:
		if len(t.Args) == 0 {
			return q("f." + t.Name)
		}
		sb.WriteString("(" + q("f."+t.Name))
		for _, a := range t.Args {
			sb.WriteString(" " + ref(a))
		}
		sb.WriteString(")")
	default:
		sb.WriteString("(" + opNames[t.Op])
		for _, a := range t.Args {
			sb.WriteString(" " + ref(a))
		}
		sb.WriteString(")")
	}
	return sb.String()
}

func (p *printer) declare(t *Term) {
	switch t.Op {
	case OpVar:
		if !p.decl[t.Name] {
			p.decl[t.Name] = true
			fmt.Fprintf(&p.sb, "(declare-const %s %s)\n", q(t.Name), sortName(t.W))
		}
	case OpApp:
		if !p.decl["f."+t.Name] {
			p.decl["f."+t.Name] = true
			var as []string
			for _, a := range t.Args {
				as = append(as, sortName(a.W))
			}
			fmt.Fprintf(&p.sb, "(declare-fun %s (%s) %s)\n", q("f."+t.Name), strings.Join(as, " "), sortName(t.W))
		}
	}
}

func (p *printer) emit(t *Term) {
	if p.done[t] || t.Op == OpConst {
		return
	}
	p.done[t] = true
	if t.Op == OpForall {
		panic("emit forall")
	}
	for _, a := range t.Args {
		p.emit(a)
	}
	p.declare(t)
	if t.Op == OpVar {
		return
	}
	fmt.Fprintf(&p.sb, "(define-fun t%d () %s %s)\n", t.ID, sortName(t.W), p.expr(t, p.ref))
}

// emitQ emits quantifier-carrying term as a nested expression.
func (p *printer) quant(t *Term) string {
	// emit all closed subterms first, then print the open part inline with let
	var order []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OpForall {
			return
		}
		if !t.hasFreeBV() && !t.nq {
			p.emit(t)
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
		p.declare2(t)
		if len(t.Args) > 0 {
			order = append(order, t)
		}
	}
	var declAll func(t *Term)
	dseen := map[*Term]bool{}
	declAll = func(t *Term) {
		if dseen[t] {
			return
		}
		dseen[t] = true
		if !t.hasFreeBV() && !t.nq {
			p.emit(t)
			return
		}
		for _, a := range t.Args {
			declAll(a)
		}
		p.declare2(t)
	}
	declAll(t)
	_ = walk
	return p.qexpr(t)
}
func (p *printer) declare2(t *Term) {
	if t.Op == OpVar && t.hasBV {
		return
	}
	p.declare(t)
}

func (p *printer) qexpr(t *Term) string {
	// local lets for shared open subterms
	var order []*Term
	seen := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if seen[x] || (!x.hasFreeBV() && !x.nq) || len(x.Args) == 0 {
			return
		}
		seen[x] = true
		if x.Op != OpForall {
			for _, a := range x.Args {
				walk(a)
			}
		}
		order = append(order, x)
	}
	if t.Op == OpForall {
		return fmt.Sprintf("(forall ((%s %s)) %s)", q(t.Args[0].Name), sortName(t.Args[0].W), p.qexpr(t.Args[1]))
	}
	walk(t)
	ref := func(x *Term) string {
		if x.Op == OpConst {
			return constStr(x)
		}
		if x.Op == OpVar {
			return q(x.Name)
		}
		if seen[x] {
			return fmt.Sprintf("l%d", x.ID)
		}
		return fmt.Sprintf("t%d", x.ID)
	}
	var sb strings.Builder
	n := 0
	for _, x := range order {
		if x.Op == OpForall {
			fmt.Fprintf(&sb, "(let ((l%d %s)) ", x.ID, p.qexpr(x))
		} else {
			fmt.Fprintf(&sb, "(let ((l%d %s)) ", x.ID, p.expr(x, ref))
		}
		n++
	}
	sb.WriteString(ref(t))
	sb.WriteString(strings.Repeat(")", n))
	return sb.String()
}

func newPrinter() *printer { return &printer{done: map[*Term]bool{}, decl: map[string]bool{}} }

// buildQuery prepares "is the conjunction satisfiable?".
func buildQuery(asserts []*Term) *Query { return buildLevel(asserts, 0) }

func (qu *Query) next() *Query {
	if !qu.blocked || qu.level >= maxLevel {
		return nil
	}
	termMu.Lock()
	defer termMu.Unlock()
	return buildLevel(qu.asserts, qu.level+1)
}

func buildLevel(asserts []*Term, level int) *Query {
	for _, a := range asserts {
		if a.IsFalse() {
			return &Query{Trivial: "unsat"}
		}
	}
	ts, foralls, blocked := ground(asserts, level)
	qu := &Query{level: level, blocked: blocked, asserts: asserts}
	p := newPrinter()
	for _, t := range ts {
		if t.IsFalse() {
			return &Query{Trivial: "unsat"}
		}
		p.emit(t)
	}
	for _, t := range ts {
		fmt.Fprintf(&p.sb, "(assert %s)\n", p.ref(t))
	}
	qu.Text = p.sb.String()
	// watch all ground apps and vars for model extraction
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			walk(a)
		}
		if t.Op == OpApp || t.Op == OpVar {
			qu.Watch = append(qu.Watch, t)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	if len(foralls) > 0 {
		for _, f := range foralls {
			s := p.quant(f)
			qn := qname(f)
			p.emit(qn)
			fmt.Fprintf(&p.sb, "(assert (=> %s %s))\n", q(qn.Name), s)
		}
		qu.QText = p.sb.String()
	}
	return qu
}

type SolveResult struct {
	Status string // unsat, sat, unknown
	Solver string
	Time   float64
	Model  map[*Term]uint64
	Raw    string
	NoQ    bool // sat answer of the instantiated (weaker) problem only
}

var solverTime int64 // microseconds, atomic
var solverCalls int64

func runSolver(ctx context.Context, name string, text string, timeout int, watch []*Term) (string, string) {
	var cmd *exec.Cmd
	c2, cancel := context.WithTimeout(ctx, time.Duration(timeout+5)*time.Second)
	defer cancel()
	switch name {
	case "z3-new", "z3":
		cmd = exec.CommandContext(c2, name, "-in", "-T:"+strconv.Itoa(timeout), "-memory:6000")
	case "cvc5":
		cmd = exec.CommandContext(c2, "cvc5", "--lang=smt2", "--tlimit="+strconv.Itoa(timeout*1000), "--produce-models", "-")
	case "cvc5-int":
		// bit vectors as integers modulo a power of two
		cmd = exec.CommandContext(c2, "cvc5", "--lang=smt2", "--tlimit="+strconv.Itoa(timeout*1000), "--solve-bv-as-int=sum", "-")
		watch = nil
	}
	var in bytes.Buffer
	if name == "cvc5" || name == "cvc5-int" {
		in.WriteString("(set-logic ALL)\n")
	}
	in.WriteString(text)
	in.WriteString("(check-sat)\n")
	if len(watch) > 0 {
		in.WriteString("(get-value (")
		for _, t := range watch {
			if t.Op == OpVar {
				in.WriteString(q(t.Name) + " ")
			} else {
				fmt.Fprintf(&in, "t%d ", t.ID)
			}
		}
		in.WriteString("))\n")
	}
	cmd.Stdin = &in
	var out bytes.Buffer
	cmd.Stdout = &out
	t0 := time.Now()
	cmd.Run()
	atomic.AddInt64(&solverTime, time.Since(t0).Microseconds())
	atomic.AddInt64(&solverCalls, 1)
	s := strings.TrimSpace(out.String())
	first := s
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		first = s[:i]
	}
	first = strings.TrimSpace(first)
	if first != "unsat" && (first != "sat" || name == "cvc5-int") {
		return "unknown", s
	}
	return first, s
}

func parseModel(raw string, watch []*Term) map[*Term]uint64 {
	m := map[*Term]uint64{}
	i := strings.IndexByte(raw, '\n')
	if i < 0 {
		return m
	}
	s := raw[i+1:]
	// entries "(name value)"
	byName := map[string]*Term{}
	for _, t := range watch {
		if t.Op == OpVar {
			byName[q(t.Name)] = t
			byName[t.Name] = t
		} else {
			byName[fmt.Sprintf("t%d", t.ID)] = t
		}
	}
	toks := tokenize(s)
	for k := 0; k+2 < len(toks); k++ {
		if toks[k] == "(" && toks[k+1] != "(" {
			t, ok := byName[toks[k+1]]
			if !ok {
				continue
			}
			v := toks[k+2]
			switch {
			case v == "true":
				m[t] = 1
			case v == "false":
				m[t] = 0
			case strings.HasPrefix(v, "#x"):
				if len(v) <= 18 {
					u, _ := strconv.ParseUint(v[2:], 16, 64)
					m[t] = u
				}
			case strings.HasPrefix(v, "#b"):
				u, _ := strconv.ParseUint(v[2:], 2, 64)
				m[t] = u
			}
		}
	}
	return m
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '|':
			j := strings.IndexByte(s[i+1:], '|')
			if j < 0 {
				return out
			}
			out = append(out, s[i:i+j+2])
			i += j + 2
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

var verboseSolve = os.Getenv("GOVC_SOLVE") != ""

var solveSem = make(chan struct{}, 8)

// solve decides a query. quick: seconds for the first attempt; full: for the race.
func solve(qu *Query, quick, full int) SolveResult {
	if qu.Trivial != "" {
		return SolveResult{Status: qu.Trivial, Solver: "simplifier"}
	}
	solveSem <- struct{}{}
	defer func() { <-solveSem }()
	t0 := time.Now()
	var res SolveResult
	if l := qu.lite; l != nil {
		if l.Trivial == "unsat" {
			return SolveResult{Status: "unsat", Solver: "simplifier"}
		}
		st, raw := runSolver(context.Background(), "z3-new", l.Text, remaining(6), nil)
		if st == "unsat" {
			return SolveResult{Status: st, Solver: "z3-new", Raw: raw, Time: time.Since(t0).Seconds()}
		}
	}
	for {
		quick, full = remaining(quick), remaining(full)
		t1 := time.Now()
		st, raw := runSolver(context.Background(), "z3-new", qu.Text, quick, qu.Watch)
		if verboseSolve && time.Since(t1).Seconds() > 1 {
			fmt.Fprintf(os.Stderr, "   level %d (%d bytes, blocked %v): %s %.1fs\n", qu.level, len(qu.Text), qu.blocked, st, time.Since(t1).Seconds())
		}
		res = SolveResult{Status: st, Solver: "z3-new", Raw: raw}
		if st == "unknown" && full > 0 {
			t := full
			if qu.blocked {
				t = full / 2
			}
			res = race(qu.Text, t, qu.Watch)
		}
		if res.Status == "unsat" {
			res.Time = time.Since(t0).Seconds()
			return res
		}
		n := qu.next()
		if n == nil || full == 0 && qu.level >= 1 {
			break
		}
		qu = n
		if qu.Trivial != "" {
			return SolveResult{Status: qu.Trivial, Solver: "simplifier", Time: time.Since(t0).Seconds()}
		}
	}
	if res.Status == "sat" {
		res.Model = parseModel(res.Raw, qu.Watch)
		if qu.QText != "" && full > 0 {
			res.NoQ = true
			// the instantiated problem is satisfiable; ask for the quantified one
			r2 := race(qu.QText, full, nil)
			if r2.Status == "unsat" {
				r2.Time = time.Since(t0).Seconds()
				return r2
			}
			if r2.Status == "sat" {
				res.NoQ = false
			}
		}
	}
	res.Time = time.Since(t0).Seconds()
	return res
}

func race(text string, timeout int, watch []*Term) SolveResult {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type r struct{ st, raw, s string }
	solvers := []string{"z3-new", "cvc5", "z3", "cvc5-int"}
	ch := make(chan r, len(solvers))
	var wg sync.WaitGroup
	for _, s := range solvers {
		wg.Add(1)
		go func(s string) {
			defer wg.Done()
			st, raw := runSolver(ctx, s, text, timeout, watch)
			ch <- r{st, raw, s}
		}(s)
	}
	for range solvers {
		x := <-ch
		if x.st != "unknown" {
			return SolveResult{Status: x.st, Solver: x.s, Raw: x.raw}
		}
	}
	return SolveResult{Status: "unknown", Solver: "none"}
}
