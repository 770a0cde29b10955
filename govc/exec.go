package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- path conditions ----

type PC struct {
	prev   *PC
	t      *Term
	branch bool
	req    bool // a precondition
	depth  int
}

func (p *PC) push(t *Term, branch bool) *PC {
	if t.IsTrue() {
		return p
	}
	d := 1
	if p != nil {
		d = p.depth + 1
	}
	return &PC{prev: p, t: t, branch: branch, depth: d}
}
func (p *PC) d() int {
	if p == nil {
		return 0
	}
	return p.depth
}
func commonPC(a, b *PC) *PC {
	for a.d() > b.d() {
		a = a.prev
	}
	for b.d() > a.d() {
		b = b.prev
	}
	for a != b {
		a, b = a.prev, b.prev
	}
	return a
}

// suffix collects entries of p above base, oldest first.
func (p *PC) suffix(base *PC) (out []*PC) {
	for x := p; x != base; x = x.prev {
		out = append(out, x)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return
}

// lite leaves out what was only found out on the way (checks passed, invariants).
func (p *PC) lite() (out []*Term) {
	for x := p; x != nil; x = x.prev {
		if x.branch || x.req {
			out = append(out, x.t)
		}
	}
	return
}
func (p *PC) terms() (out []*Term) {
	for x := p; x != nil; x = x.prev {
		out = append(out, x.t)
	}
	return
}

type deferred struct {
	guard *Term
	call  func(st *State) *State
}

// State is the symbolic state on one (merged) path.
type State struct {
	pc     *PC
	env    map[ssa.Value]Val
	heap   *Heap
	defers []deferred
	dead   bool
}

func (st *State) fork() *State {
	e := make(map[ssa.Value]Val, len(st.env))
	for k, v := range st.env {
		e[k] = v
	}
	return &State{pc: st.pc, env: e, heap: st.heap.fork(), defers: st.defers}
}

func (st *State) assume(t *Term) {
	if t.IsFalse() {
		st.dead = true
	}
	if t.Op == OpAnd {
		for _, a := range t.Args {
			st.assume(a)
		}
		return
	}
	if t.Op == OpNot && t.Args[0].Op == OpOr {
		for _, a := range t.Args[0].Args {
			st.assume(Not(a))
		}
		return
	}
	st.pc = st.pc.push(t, false)
}
func (st *State) branch(t *Term) {
	if t.IsFalse() {
		st.dead = true
	}
	st.pc = st.pc.push(t, true)
}

// mergeStates joins two states; cond tells "came from a".
func mergeStates(a, b *State, withEnv bool) *State {
	if a.dead {
		return b
	}
	if b.dead {
		return a
	}
	base := commonPC(a.pc, b.pc)
	sa, sb := a.pc.suffix(base), b.pc.suffix(base)
	brs := func(s []*PC) *Term {
		r := tTrue
		for _, x := range s {
			if x.branch {
				r = And(r, x.t)
			}
		}
		return r
	}
	ca, cb := brs(sa), brs(sb)
	sel := ca // choose the smaller condition for the ite
	neg := false
	if termSize(cb) < termSize(ca) {
		sel, neg = cb, true
	}
	if ca.IsTrue() && !cb.IsTrue() {
		sel, neg = cb, true
	}
	c := sel
	if neg {
		c = Not(sel)
	}
	out := &State{heap: nil}
	pc := base
	pc = pc.push(Or(ca, cb), true)
	for _, x := range sa {
		if !x.branch {
			pc = pc.push(Implies(ca, x.t), false)
		}
	}
	for _, x := range sb {
		if !x.branch {
			pc = pc.push(Implies(cb, x.t), false)
		}
	}
	out.pc = pc
	out.env = map[ssa.Value]Val{}
	if withEnv {
		for k, va := range a.env {
			if vb, ok := b.env[k]; ok {
				if sameVal(va, vb) {
					out.env[k] = va
				} else {
					out.env[k] = mergeVal(c, va, vb, a, b)
				}
			}
		}
	}
	out.heap = mergeHeap(c, a.heap, b.heap)
	// defers
	n := 0
	for n < len(a.defers) && n < len(b.defers) && &a.defers[n] != nil && sameDefer(a.defers[n], b.defers[n]) {
		n++
	}
	out.defers = append([]deferred{}, a.defers[:n]...)
	for _, d := range a.defers[n:] {
		out.defers = append(out.defers, deferred{And(c, d.guard), d.call})
	}
	for _, d := range b.defers[n:] {
		out.defers = append(out.defers, deferred{And(Not(c), d.guard), d.call})
	}
	return out
}

func sameDefer(a, b deferred) bool {
	return a.guard == b.guard && fmt.Sprintf("%p", a.call) == fmt.Sprintf("%p", b.call)
}

func sameVal(a, b Val) bool {
	switch a.(type) {
	case *Term, *VPtr, *VSlice, *VStruct, *VArray, *VIface, *VTuple, *VIter, *VPoison:
		return a == b
	}
	return false
}

var sizeMemo = map[*Term]int{}

func termSize(t *Term) int {
	if r, ok := sizeMemo[t]; ok {
		return r
	}
	r := 1
	for _, a := range t.Args {
		r += termSize(a)
		if r > 1<<20 {
			r = 1 << 20
			break
		}
	}
	sizeMemo[t] = r
	return r
}

// ---- obligations ----

type Obligation struct {
	Label  string
	Prop   string // property id or "" for safety obligations of the contract's own property
	Kind   string // ensures, safety, invariant, lock, ...
	Pos    string
	Fn     string
	PC     []*Term
	Lite   []*Term // only branch conditions and preconditions
	Goal   *Term
	Result SolveResult
	Query  *Query
	Status string
	Proved bool
	Cross  bool
}

// Engine executes one contract.
type Engine struct {
	prog       *Program
	obls       []*Obligation
	oblSeen    map[[2]interface{}]bool
	suppress   int // >0: do not record obligations (discovery runs)
	safety     bool
	lockCheck  bool
	guards     []guard
	prop       string
	contract   string
	stubs      map[*ssa.Function]*Term
	specDepth  int
	stack      []*frame
	used       map[string]bool // functions executed (inlined)
	assumption map[string]bool
	invs       []invTemplate
	invStats   map[string]int
	anyN       int
	iters      []*VIter
	depth      int
	trackLocks bool
	unrollMax  int
	noAuto     map[*ssa.BasicBlock]bool
	loopObls   int
	exits      []*State
	noMerge    bool
	script     []int // which case of every vSplit to take
	scriptPos  int
	arity      []int
	fnCands    []*Term // functions some function value may be stated to be
	isCand     map[*Term]bool
	noDefs     bool
	defs       *[]*Term       // definitions of ghost functions met by the invariant being evaluated
	defBase    map[*Term]bool // path condition outside it
}

type invTemplate struct {
	name string
	fn   *Term
	sig  *types.Signature
}

type frame struct {
	e     *Engine
	fn    *ssa.Function
	loops *loopInfo
	spec  bool
	names map[string]ssa.Value
	cur   *ssa.BasicBlock
}

func (e *Engine) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	x := e.prog.fset.Position(p)
	f := x.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, x.Line)
}

func (e *Engine) curFn() string {
	for i := len(e.stack) - 1; i >= 0; i-- {
		if !e.stack[i].spec {
			return fnName(e.stack[i].fn)
		}
	}
	return e.contract
}

func fnName(f *ssa.Function) string {
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, "github.com/gostor/gotgt/", "")
	return s
}

// require emits a safety obligation (or just assumes it) and continues under it.
func (e *Engine) require(st *State, t *Term, kind, what string, pos token.Pos) {
	if t.IsTrue() {
		return
	}
	if e.specDepth == 0 && e.suppress == 0 && (e.safety && kind != "lock" || e.lockCheck && kind == "lock") {
		e.addObl(st, t, kind, what+" in "+e.curFn(), pos)
	}
	st.assume(t)
}

func (e *Engine) addObl(st *State, goal *Term, kind, label string, pos token.Pos) {
	if st.dead {
		return
	}
	key := [2]interface{}{st.pc, goal}
	if e.oblSeen[key] && kind == "safety" {
		return
	}
	e.oblSeen[key] = true
	e.obls = append(e.obls, &Obligation{Label: label, Prop: e.prop, Kind: kind, Pos: e.pos(pos), Fn: e.curFn(), PC: st.pc.terms(), Lite: st.pc.lite(), Goal: goal})
}

// ---- function execution ----

type retState struct {
	st  *State
	val Val
}

const maxDepth = 60

// call executes fn from st (st.env is the caller's and is preserved).
func (e *Engine) call(st *State, fn *ssa.Function, args []Val, binds []Val, pos token.Pos) (*State, Val) {
	if len(e.stack) > maxDepth {
		unsup("call depth exceeded in %s", fnName(fn))
	}
	if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Pkg != nil && fn.Parent() == nil && !e.prog.isRepo(fn.Pkg.Pkg.Path()) {
		return st, nil // initialisers of imported packages outside the repository do not touch its state
	}
	if fn.Blocks == nil {
		e.prog.build(fn)
	}
	if fn.Blocks == nil {
		unsup("no body for %s (called in %s)", fnName(fn), e.curFn())
	}
	n := 0
	for _, f := range e.stack {
		if f.fn == fn {
			n++
		}
	}
	if n > 2 {
		unsup("recursion in %s", fnName(fn))
	}
	spec := e.prog.isSpec(fn)
	fr := &frame{e: e, fn: fn, spec: spec, loops: loopsOf(fn)}
	e.stack = append(e.stack, fr)
	if spec {
		e.specDepth++
	} else {
		e.used[fnName(fn)] = true
	}
	saved := e.specDepth
	if !spec {
		e.specDepth = 0
	}
	if debugCalls {
		fmt.Fprintf(os.Stderr, "%s%s\n", strings.Repeat(" ", len(e.stack)), fnName(fn))
	}
	callerEnv, callerDefers := st.env, st.defers
	in := &State{pc: st.pc, env: map[ssa.Value]Val{}, heap: st.heap.fork()}
	for i, p := range fn.Params {
		in.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		in.env[fv] = binds[i]
	}
	rets := fr.run(in)
	e.specDepth = saved
	if spec {
		e.specDepth--
	}
	e.stack = e.stack[:len(e.stack)-1]
	if len(rets) == 0 {
		d := &State{pc: st.pc.push(tFalse, true), env: callerEnv, heap: st.heap, defers: callerDefers, dead: true}
		return d, e.deadVal(fn.Signature)
	}
	cur := rets[0]
	for _, r := range rets[1:] {
		if r.st.dead {
			continue
		}
		if cur.st.dead {
			cur = r
			continue
		}
		cur = mergeRets(cur, r)
	}
	out := &State{pc: cur.st.pc, env: callerEnv, heap: cur.st.heap, defers: callerDefers, dead: cur.st.dead}
	return out, cur.val
}

type retKey struct{ ssa.Value }

func mergeRets(a, b retState) retState {
	k := ssa.Value(nil)
	a.st.env = map[ssa.Value]Val{k: a.val}
	b.st.env = map[ssa.Value]Val{k: b.val}
	a.st.defers, b.st.defers = nil, nil
	m := mergeStates(a.st, b.st, true)
	return retState{m, m.env[k]}
}

func (e *Engine) deadVal(sig *types.Signature) Val {
	st := &State{heap: newHeap()}
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return st.zero(sig.Results().At(0).Type())
	}
	return st.zero(sig.Results())
}

type edgeState struct {
	from *ssa.BasicBlock
	st   *State
}

// pending holds states waiting at block entries.
type pending map[*ssa.BasicBlock][]edgeState

func (fr *frame) run(in *State) []retState {
	var rets []retState
	p := pending{}
	p[fr.fn.Blocks[0]] = []edgeState{{nil, in}}
	fr.region(p, fr.loops.top, nil, &rets)
	return rets
}

// region processes the units of a region (loop body or whole function) in order.
// lp==nil: whole function. Edges leaving the region stay in p for the caller.
func (fr *frame) region(p pending, units []unit, lp *loop, rets *[]retState) {
	for _, u := range units {
		in := p[u.block]
		if len(in) == 0 {
			continue
		}
		delete(p, u.block)
		if u.lp != nil {
			fr.loop(p, u.lp, in, rets)
			continue
		}
		st := fr.join(u.block, in)
		if st == nil || st.dead {
			continue
		}
		fr.block(p, u.block, st, rets)
	}
}

// join merges the incoming states of a block, evaluating phis per edge.
func (fr *frame) join(b *ssa.BasicBlock, in []edgeState) *State {
	var cur *State
	for _, es := range in {
		if es.st.dead {
			continue
		}
		fr.phis(b, es)
		if cur == nil {
			cur = es.st
		} else {
			cur = mergeStates(cur, es.st, true)
		}
	}
	return cur
}

func (fr *frame) phis(b *ssa.BasicBlock, es edgeState) {
	if es.from == nil {
		return
	}
	idx := -1
	for i, p := range b.Preds {
		if p == es.from {
			idx = i
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, fr.eval(es.st, ph.Edges[idx]))
	}
	for i, ph := range phis {
		es.st.env[ph] = vals[i]
	}
}

// block executes b and appends successor states to p.
func (fr *frame) block(p pending, b *ssa.BasicBlock, st *State, rets *[]retState) {
	e := fr.e
	fr.cur = b
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := asTerm(fr.eval(st, x.Cond))
			t, f := b.Succs[0], b.Succs[1]
			if d := st.pc.decide(c); d != nil {
				c = d
			}
			if c.IsTrue() {
				p[t] = append(p[t], edgeState{b, st})
				return
			}
			if c.IsFalse() {
				p[f] = append(p[f], edgeState{b, st})
				return
			}
			s2 := st.fork()
			st.branch(c)
			s2.branch(Not(c))
			p[t] = append(p[t], edgeState{b, st})
			p[f] = append(p[f], edgeState{b, s2})
			return
		case *ssa.Jump:
			p[b.Succs[0]] = append(p[b.Succs[0]], edgeState{b, st})
			return
		case *ssa.Return:
			var v Val
			switch len(x.Results) {
			case 0:
			case 1:
				v = fr.eval(st, x.Results[0])
			default:
				tp := &VTuple{}
				for _, r := range x.Results {
					tp.Es = append(tp.Es, fr.eval(st, r))
				}
				v = tp
			}
			*rets = append(*rets, retState{st, v})
			return
		case *ssa.Panic:
			e.require(st, tFalse, "safety", "panic reachable", x.Pos())
			return
		case *ssa.RunDefers:
			st = fr.runDefers(st)
			if st == nil || st.dead {
				return
			}
		default:
			st = fr.instr(st, in)
			if st == nil || st.dead {
				return
			}
		}
	}
}

func (fr *frame) runDefers(st *State) *State {
	ds := st.defers
	st.defers = nil
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		if d.guard.IsTrue() {
			st = d.call(st)
		} else if !d.guard.IsFalse() {
			o := st.fork()
			st.branch(d.guard)
			o.branch(Not(d.guard))
			st = d.call(st)
			st = mergeStates(st, o, true)
		}
		if st.dead {
			return st
		}
	}
	return st
}

func (fr *frame) eval(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return fr.e.constVal(st, x)
	case *ssa.Global:
		return fr.e.prog.globalPtr(x)
	case *ssa.Function:
		return funcID(x, nil)
	case *ssa.Builtin:
		unsup("builtin as value")
	}
	r, ok := st.env[v]
	if !ok {
		unsup("value %s (%s) not available in %s", v.Name(), v, fnName(fr.fn))
	}
	if po, bad := r.(*VPoison); bad {
		unsup("use of merged value %s: %s in %s", v.Name(), po.Why, fnName(fr.fn))
	}
	return r
}

func (e *Engine) constVal(st *State, c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return st.zero(t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		unsup("type parameter constant")
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		unsup("constant of type %s", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return B(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		return strConst(constant.StringVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return BV(bwidth(b), uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return BV(bwidth(b), u)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return floatConst(f, bwidth(b))
	}
	unsup("constant %s", c)
	return nil
}

// value-producing and effect instructions
func (fr *frame) instr(st *State, in ssa.Instruction) *State {
	e := fr.e
	set := func(v ssa.Value, x Val) { st.env[v] = x }
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		set(x, &VPtr{T: et, Ref: newRef()})
	case *ssa.BinOp:
		set(x, fr.binop(st, x.Op, fr.eval(st, x.X), fr.eval(st, x.Y), x.X.Type(), x.Y.Type(), x.Pos()))
	case *ssa.UnOp:
		return fr.unop(st, x)
	case *ssa.Call:
		ns, v := fr.callInstr(st, &x.Call, x.Pos())
		if ns.dead {
			return ns
		}
		ns.env[x] = v
		return ns
	case *ssa.ChangeInterface:
		iv := fr.eval(st, x.X).(*VIface)
		set(x, &VIface{T: x.Type(), Typ: iv.Typ, Data: iv.Data, Static: iv.Static, ST: iv.ST})
	case *ssa.ChangeType:
		set(x, retype(fr.eval(st, x.X), x.Type()))
	case *ssa.Convert:
		set(x, fr.convert(st, fr.eval(st, x.X), x.X.Type(), x.Type(), x.Pos()))
	case *ssa.MultiConvert:
		set(x, fr.convert(st, fr.eval(st, x.X), x.X.Type(), x.Type(), x.Pos()))
	case *ssa.Extract:
		tv := fr.eval(st, x.Tuple).(*VTuple)
		set(x, tv.Es[x.Index])
	case *ssa.Field:
		sv := fr.eval(st, x.X).(*VStruct)
		set(x, sv.Fs[x.Field])
	case *ssa.FieldAddr:
		p := fr.eval(st, x.X).(*VPtr)
		e.require(st, Not(p.nilTerm()), "safety", "nil dereference", x.Pos())
		set(x, fieldPtr(p, x.Field))
	case *ssa.Index:
		i := fr.index(st, fr.eval(st, x.Index), x.Index.Type())
		switch a := fr.eval(st, x.X).(type) {
		case *VArray:
			e.require(st, Ult(i, BV(64, uint64(len(a.Es)))), "safety", "index out of range", x.Pos())
			set(x, selectArr(a, i, st))
		case *Term: // string
			e.require(st, Ult(i, strLen(a)), "safety", "string index out of range", x.Pos())
			set(x, strAt(a, i))
		}
	case *ssa.IndexAddr:
		i := fr.index(st, fr.eval(st, x.Index), x.Index.Type())
		switch a := fr.eval(st, x.X).(type) {
		case *VSlice:
			e.require(st, Ult(i, a.Len), "safety", "index out of range", x.Pos())
			set(x, elemLoc(a.Elem, a.Ref, Add(a.Off, i)))
		case *VPtr:
			arr := a.T.Underlying().(*types.Array)
			e.require(st, Not(a.nilTerm()), "safety", "nil dereference", x.Pos())
			e.require(st, Ult(i, BV(64, uint64(arr.Len()))), "safety", "index out of range", x.Pos())
			set(x, elemPtr(a, i))
		}
	case *ssa.Lookup:
		switch m := fr.eval(st, x.X).(type) {
		case *Term:
			if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
				keys := e.mapKeys(st, m, fr.eval(st, x.Index), mt.Key())
				dom := And(Not(Eq(m, BV(32, 0))), st.leafRead(mapStem(mt)+"#dom", keys, 0, kPlain))
				v := st.load(&VPtr{T: mt.Elem(), Path: mapStem(mt) + "#v", Keys: keys})
				v = mergeVal(dom, v, st.zero(mt.Elem()), st, st)
				if x.CommaOk {
					set(x, &VTuple{[]Val{v, dom}})
				} else {
					set(x, v)
				}
			} else {
				i := fr.index(st, fr.eval(st, x.Index), x.Index.Type())
				e.require(st, Ult(i, strLen(m)), "safety", "string index out of range", x.Pos())
				set(x, strAt(m, i))
			}
		}
	case *ssa.MakeChan:
		set(x, newRef())
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range x.Bindings {
			bs = append(bs, fr.eval(st, b))
		}
		set(x, funcID(x.Fn.(*ssa.Function), bs))
	case *ssa.MakeInterface:
		v := fr.eval(st, x.X)
		set(x, &VIface{T: x.Type(), Typ: typeID(x.X.Type()), Static: v, ST: x.X.Type()})
	case *ssa.MakeMap:
		set(x, newRef())
	case *ssa.MakeSlice:
		n := fr.index(st, fr.eval(st, x.Len), x.Len.Type())
		c := fr.index(st, fr.eval(st, x.Cap), x.Cap.Type())
		e.require(st, And(Sle(BV(64, 0), n), Sle(n, c)), "safety", "make with negative or too large length", x.Pos())
		e.assumption["allocation sizes stay below 2^56 elements"] = true
		st.assume(Ult(c, BV(64, maxLen)))
		el := x.Type().Underlying().(*types.Slice).Elem()
		set(x, &VSlice{Elem: el, Ref: newRef(), Off: BV(64, 0), Len: n, Cap: c})
	case *ssa.MapUpdate:
		m := asTerm(fr.eval(st, x.Map))
		mt := x.Map.Type().Underlying().(*types.Map)
		e.require(st, Not(Eq(m, BV(32, 0))), "safety", "assignment to nil map", x.Pos())
		e.guardedMap(st, m, mt, x.Pos())
		e.mapStore(st, m, mt, fr.eval(st, x.Key), fr.eval(st, x.Value))
	case *ssa.Range:
		return fr.rangeInit(st, x)
	case *ssa.Next:
		return fr.next(st, x)
	case *ssa.Slice:
		set(x, fr.slice(st, x))
	case *ssa.SliceToArrayPointer:
		s := fr.eval(st, x.X).(*VSlice)
		at := x.Type().Underlying().(*types.Pointer).Elem()
		n := at.Underlying().(*types.Array).Len()
		e.require(st, Uge(s.Len, BV(64, uint64(n))), "safety", "slice to array conversion", x.Pos())
		if !(s.Off.IsConst() && s.Off.K == 0) {
			unsup("slice to array pointer with offset")
		}
		set(x, &VPtr{T: at, Ref: s.Ref})
	case *ssa.Store:
		p := fr.eval(st, x.Addr).(*VPtr)
		e.require(st, Not(p.nilTerm()), "safety", "nil dereference", x.Pos())
		e.guarded(st, p, tTrue, x.Pos())
		st.store(p, fr.eval(st, x.Val))
	case *ssa.TypeAssert:
		return fr.typeAssert(st, x)
	case *ssa.Defer:
		call := fr.prepCall(st, &x.Call, x.Pos())
		st.defers = append(append([]deferred{}, st.defers...), deferred{tTrue, func(s *State) *State {
			ns, _ := call(s)
			return ns
		}})
	case *ssa.Go:
		started, one := comp("G:started", []int{32}, 64, kPlain), []*Term{BV(32, 1)}
		st.heap.write(started, one, Add(st.heap.read(started, one), BV(64, 1)))
		if e.lockCheck {
			fr.goLocks(st, x)
			return st
		}
		e.assumption["goroutines started by the verified code are not executed ("+fnName(fr.fn)+")"] = true
	case *ssa.Send:
		e.assumption["channel operations are not modelled ("+fnName(fr.fn)+")"] = true
	case *ssa.Select:
		e.assumption["channel operations are not modelled ("+fnName(fr.fn)+")"] = true
		n := len(x.States)
		idx := noteFresh(FreshVar(64, "select"))
		lo := BV(64, 0)
		if !x.Blocking {
			lo = BV(64, ^uint64(0))
		}
		st.assume(And(Sle(lo, idx), Slt(idx, BV(64, uint64(n)))))
		tp := &VTuple{Es: []Val{idx, noteFresh(FreshVar(0, "recvok"))}}
		for i := 2; i < x.Type().(*types.Tuple).Len(); i++ {
			e.anyN++
			tp.Es = append(tp.Es, st.fresh(x.Type().(*types.Tuple).At(i).Type(), fmt.Sprintf("recv!%d", e.anyN), false))
		}
		set(x, tp)
	default:
		unsup("instruction %T in %s", in, fnName(fr.fn))
	}
	return st
}

func retype(v Val, t types.Type) Val {
	switch x := v.(type) {
	case *VStruct:
		return &VStruct{T: t, Fs: x.Fs}
	case *VArray:
		return &VArray{T: t, Es: x.Es}
	case *VPtr:
		if p, ok := t.Underlying().(*types.Pointer); ok {
			return &VPtr{T: p.Elem(), Ref: x.Ref, Path: x.Path, Keys: x.Keys, C: x.C, A: x.A, B: x.B}
		}
	}
	return v
}

func selectArr(a *VArray, i *Term, st *State) Val {
	if i.IsConst() {
		if i.K < uint64(len(a.Es)) {
			return a.Es[i.K]
		}
		return a.Es[0]
	}
	r := a.Es[len(a.Es)-1]
	for k := len(a.Es) - 2; k >= 0; k-- {
		r = mergeVal(Eq(i, BV(64, uint64(k))), a.Es[k], r, st, st)
	}
	return r
}

// index converts an index value to 64 bits.
func (fr *frame) index(st *State, v Val, t types.Type) *Term {
	x := asTerm(v)
	if x.W == 64 {
		return x
	}
	if isSigned(t) {
		return Sext(x, 64)
	}
	return Zext(x, 64)
}

func (fr *frame) unop(st *State, x *ssa.UnOp) *State {
	e := fr.e
	v := fr.eval(st, x.X)
	switch x.Op {
	case token.MUL:
		if raw, ok := v.(*VRaw); ok {
			e.assumption["integers read through an unsafe pointer to a byte array are little-endian"] = true
			var r *Term
			for i := 0; i < raw.W/8; i++ {
				b := asTerm(st.load(elemPtr(raw.P, BV(64, uint64(i)))))
				if r == nil {
					r = b
				} else {
					r = Concat(b, r)
				}
			}
			st.env[x] = r
			return st
		}
		p := v.(*VPtr)
		e.require(st, Not(p.nilTerm()), "safety", "nil dereference", x.Pos())
		st.env[x] = st.load(p)
	case token.NOT:
		st.env[x] = Not(asTerm(v))
	case token.SUB:
		if isFloat(x.Type()) {
			st.env[x] = App(asTerm(v).W, "fneg", asTerm(v))
		} else {
			st.env[x] = Neg(asTerm(v))
		}
	case token.XOR:
		st.env[x] = BNot(asTerm(v))
	case token.ARROW:
		e.assumption["channel operations are not modelled ("+fnName(fr.fn)+")"] = true
		e.anyN++
		st.env[x] = st.fresh(x.Type(), fmt.Sprintf("recv!%d", e.anyN), false)
	default:
		unsup("unary %s", x.Op)
	}
	return st
}

func (fr *frame) binop(st *State, op token.Token, a, b Val, ta, tb types.Type, pos token.Pos) Val {
	e := fr.e
	switch op {
	case token.EQL:
		return e.eqVal(st, a, b, ta)
	case token.NEQ:
		return Not(e.eqVal(st, a, b, ta))
	}
	x, y := asTerm(a), asTerm(b)
	if isString(ta) {
		switch op {
		case token.ADD:
			return strConcat(x, y)
		case token.LSS:
			return App(0, "strlt", x, y)
		case token.GTR:
			return App(0, "strlt", y, x)
		case token.LEQ:
			return Not(App(0, "strlt", y, x))
		case token.GEQ:
			return Not(App(0, "strlt", x, y))
		}
	}
	if isFloat(ta) {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return App(0, "f"+op.String(), x, y)
		}
		return App(x.W, "f"+op.String(), x, y)
	}
	sg := isSigned(ta)
	switch op {
	case token.ADD:
		return Add(x, y)
	case token.SUB:
		return Sub(x, y)
	case token.MUL:
		return Mul(x, y)
	case token.QUO, token.REM:
		e.require(st, Not(Eq(y, BV(y.W, 0))), "safety", "division by zero", pos)
		switch {
		case sg && op == token.QUO:
			if nonneg(x) && nonneg(y) {
				return Udiv(x, y)
			}
			return Sdiv(x, y)
		case sg:
			if nonneg(x) && nonneg(y) {
				return Urem(x, y)
			}
			return Srem(x, y)
		case op == token.QUO:
			return Udiv(x, y)
		}
		return Urem(x, y)
	case token.AND:
		if x.W == 0 {
			return And(x, y)
		}
		return BAnd(x, y)
	case token.OR:
		if x.W == 0 {
			return Or(x, y)
		}
		return BOr(x, y)
	case token.XOR:
		if x.W == 0 {
			return Not(Eq(x, y))
		}
		return BXor(x, y)
	case token.AND_NOT:
		return BAnd(x, BNot(y))
	case token.SHL, token.SHR:
		if isSigned(tb) {
			e.require(st, Sle(BV(y.W, 0), y), "safety", "negative shift count", pos)
		}
		// bring the count to x's width, saturating
		var cnt *Term
		if y.W <= x.W {
			cnt = Zext(y, x.W)
		} else {
			if umax(y) < uint64(x.W) {
				cnt = Extract(y, x.W-1, 0)
			} else {
				cnt = Ite(Ult(y, BV(y.W, uint64(x.W))), Extract(y, x.W-1, 0), BV(x.W, uint64(x.W)))
			}
		}
		if op == token.SHL {
			return Shl(x, cnt)
		}
		if sg {
			if nonneg(x) {
				return Lshr(x, cnt)
			}
			return Ashr(x, cnt)
		}
		return Lshr(x, cnt)
	case token.LSS:
		if sg {
			return Slt(x, y)
		}
		return Ult(x, y)
	case token.LEQ:
		if sg {
			return Sle(x, y)
		}
		return Ule(x, y)
	case token.GTR:
		if sg {
			return Slt(y, x)
		}
		return Ult(y, x)
	case token.GEQ:
		if sg {
			return Sle(y, x)
		}
		return Ule(y, x)
	}
	unsup("binary %s", op)
	return nil
}

func (e *Engine) eqVal(st *State, a, b Val, t types.Type) *Term {
	switch x := a.(type) {
	case *Term:
		if iy, ok := b.(*VIface); ok {
			return e.eqVal(st, iy, &VIface{T: iy.T, Typ: typeID(t), Static: x, ST: t}, iy.T)
		}
		if isString(t) {
			return strEq(x, asTerm(b))
		}
		return Eq(x, asTerm(b))
	case *VPtr:
		y, ok := b.(*VPtr)
		if !ok {
			unsup("pointer comparison")
		}
		if x.Path == "?" {
			return Ite(x.C, e.eqVal(st, x.A, y, t), e.eqVal(st, x.B, y, t))
		}
		if y.Path == "?" {
			return e.eqVal(st, y, x, t)
		}
		if x.Path == "" && y.Path == "" {
			return Eq(x.Ref, y.Ref)
		}
		if x.Path == "" && x.Ref.IsConst() && x.Ref.K == 0 || y.Path == "" && y.Ref.IsConst() && y.Ref.K == 0 {
			return tFalse
		}
		if x.Path == y.Path && len(x.Keys) == len(y.Keys) {
			r := tTrue
			for i := range x.Keys {
				r = And(r, Eq(x.Keys[i], y.Keys[i]))
			}
			return r
		}
		if x.Path != "" && y.Path != "" {
			return tFalse
		}
		unsup("pointer comparison")
	case *VSlice: // only nil comparisons
		y := b.(*VSlice)
		if y.Ref.IsConst() && y.Ref.K == 0 {
			return Eq(x.Ref, BV(32, 0))
		}
		return Eq(y.Ref, BV(32, 0))
	case *VStruct:
		y := b.(*VStruct)
		r := tTrue
		s := structOf(x.T)
		for i := range x.Fs {
			r = And(r, e.eqVal(st, x.Fs[i], y.Fs[i], s.Field(i).Type()))
		}
		return r
	case *VArray:
		y := b.(*VArray)
		r := tTrue
		el := x.T.Underlying().(*types.Array).Elem()
		for i := range x.Es {
			r = And(r, e.eqVal(st, x.Es[i], y.Es[i], el))
		}
		return r
	case *VIface:
		y, ok := b.(*VIface)
		if !ok {
			unsup("interface comparison")
		}
		if y.Typ.IsConst() && y.Typ.K == 0 {
			return Eq(x.Typ, BV(32, 0))
		}
		if x.Typ.IsConst() && x.Typ.K == 0 {
			return Eq(y.Typ, BV(32, 0))
		}
		if x.Static != nil && y.Static != nil && types.Identical(x.ST, y.ST) {
			return e.eqVal(st, x.Static, y.Static, x.ST)
		}
		te := Eq(x.Typ, y.Typ)
		if te.IsFalse() {
			return tFalse
		}
		// a statically known value payload against an unknown one of that type
		for k := 0; k < 2; k++ {
			if y.Static != nil {
				if _, isPtr := y.ST.Underlying().(*types.Pointer); !isPtr {
					return And(te, e.eqVal(st, st.unbox(x, y.ST), y.Static, y.ST))
				}
			}
			x, y = y, x
		}
		bx, by := st.boxed(x), st.boxed(y)
		// pointer-shaped dynamic types only
		return And(te, Eq(bx.Data, by.Data))
	}
	unsup("comparison of %T", a)
	return nil
}

func floatConst(f float64, w int) *Term { return App(w, fmt.Sprintf("fc%v", f)) }

func (fr *frame) convert(st *State, v Val, from, to types.Type, pos token.Pos) Val {
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		x := asTerm(v)
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			w := bwidth(tb)
			if w <= x.W {
				return Extract(x, w-1, 0)
			}
			if isSigned(from) {
				return Sext(x, w)
			}
			return Zext(x, w)
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return App(32, "runestr", Zext(x, 64))
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return x
		case fi&types.IsFloat != 0 || ti&types.IsFloat != 0:
			if x.W == 0 {
				unsup("float conversion")
			}
			return App(bwidth(tb), fmt.Sprintf("fconv_%s_%s", fb.Name(), tb.Name()), x)
		case fb.Kind() == types.UnsafePointer || tb.Kind() == types.UnsafePointer:
			unsup("unsafe pointer conversion")
		}
	}
	if fok && fb.Info()&types.IsString != 0 {
		if sl, ok := tu.(*types.Slice); ok && bwidth2(sl.Elem()) == 8 {
			return strToBytes(st, asTerm(v), sl.Elem())
		}
		unsup("string to %s", to)
	}
	if tok && tb.Info()&types.IsString != 0 {
		if sl, ok := fu.(*types.Slice); ok && bwidth2(sl.Elem()) == 8 {
			return bytesToStr(st, v.(*VSlice))
		}
		unsup("%s to string", from)
	}
	if tok && tb.Kind() == types.UnsafePointer {
		return v
	}
	if fok && fb.Kind() == types.UnsafePointer {
		p, ok := v.(*VPtr)
		pt, isP := tu.(*types.Pointer)
		if !ok || !isP {
			unsup("unsafe pointer conversion")
		}
		if types.Identical(p.T, pt.Elem()) {
			return v
		}
		arr, isArr := p.T.Underlying().(*types.Array)
		b, isB := pt.Elem().Underlying().(*types.Basic)
		if !isArr || !isB || bwidth2(arr.Elem()) != 8 || b.Info()&types.IsInteger == 0 || int64(bwidth(b)) > 8*arr.Len() {
			unsup("unsafe pointer conversion from *%s to %s", p.T, to)
		}
		return &VRaw{W: bwidth(b), P: p}
	}
	return retype(v, to)
}

func bwidth2(t types.Type) int {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return bwidth(b)
	}
	return -1
}

func strToBytes(st *State, s *Term, elem types.Type) *VSlice {
	n := strLen(s)
	r := newRef()
	ci := comp("E:"+ename(elem), []int{32, 64}, 8, kPlain)
	if n.IsConst() && n.K <= 64 {
		for i := uint64(0); i < n.K; i++ {
			st.heap.write(ci, []*Term{r, BV(64, i)}, strAt(s, BV(64, i)))
		}
	} else {
		st.heap.writeCond(ci, r, nil, func(k []*Term) *Term { return strAt(s, k[1]) })
	}
	return &VSlice{Elem: elem, Ref: r, Off: BV(64, 0), Len: n, Cap: n}
}

func bytesToStr(st *State, s *VSlice) *Term {
	ci := comp("E:uint8", []int{32, 64}, 8, kPlain)
	node := st.heap.get(ci)
	ref, off := s.Ref, s.Off
	return strBuild(s.Len, func(i *Term) *Term { return readNode(node, []*Term{ref, Add(off, i)}) })
}

func strConcat(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return strConst(strConsts[int(a.K)] + strConsts[int(b.K)])
	}
	if a.IsConst() && a.K == 0 {
		return b
	}
	if b.IsConst() && b.K == 0 {
		return a
	}
	la := strLen(a)
	return strBuild(Add(la, strLen(b)), func(i *Term) *Term { return Ite(Ult(i, la), strAt(a, i), strAt(b, Sub(i, la))) })
}

func substr(s, lo, hi *Term) *Term {
	if s.IsConst() && lo.IsConst() && hi.IsConst() {
		c := strConsts[int(s.K)]
		if lo.K <= hi.K && hi.K <= uint64(len(c)) {
			return strConst(c[lo.K:hi.K])
		}
	}
	if lo.IsConst() && lo.K == 0 && hi == strLen(s) {
		return s
	}
	return strBuild(Sub(hi, lo), func(i *Term) *Term { return strAt(s, Add(lo, i)) })
}

func (fr *frame) slice(st *State, x *ssa.Slice) Val {
	e := fr.e
	v := fr.eval(st, x.X)
	idx := func(y ssa.Value, def *Term) *Term {
		if y == nil {
			return def
		}
		return fr.index(st, fr.eval(st, y), y.Type())
	}
	zero := BV(64, 0)
	switch s := v.(type) {
	case *Term: // string
		lo := idx(x.Low, zero)
		hi := idx(x.High, strLen(s))
		e.require(st, And(Ule(lo, hi), Ule(hi, strLen(s))), "safety", "slice bounds out of range", x.Pos())
		return substr(s, lo, hi)
	case *VSlice:
		lo := idx(x.Low, zero)
		hi := idx(x.High, s.Len)
		mx := idx(x.Max, s.Cap)
		e.require(st, And(Ule(lo, hi), Ule(hi, mx), Ule(mx, s.Cap)), "safety", "slice bounds out of range", x.Pos())
		return &VSlice{Elem: s.Elem, Ref: s.Ref, Off: Add(s.Off, lo), Len: Sub(hi, lo), Cap: Sub(mx, lo)}
	case *VPtr:
		arr := s.T.Underlying().(*types.Array)
		n := BV(64, uint64(arr.Len()))
		e.require(st, Not(s.nilTerm()), "safety", "nil dereference", x.Pos())
		if s.Path != "" {
			unsup("slicing an array inside %s", s.Path)
		}
		lo := idx(x.Low, zero)
		hi := idx(x.High, n)
		mx := idx(x.Max, n)
		e.require(st, And(Ule(lo, hi), Ule(hi, mx), Ule(mx, n)), "safety", "slice bounds out of range", x.Pos())
		return &VSlice{Elem: arr.Elem(), Ref: s.Ref, Off: lo, Len: Sub(hi, lo), Cap: Sub(mx, lo)}
	}
	unsup("slice of %T", v)
	return nil
}

func (fr *frame) typeAssert(st *State, x *ssa.TypeAssert) *State {
	e := fr.e
	iv := fr.eval(st, x.X).(*VIface)
	var ok *Term
	var val Val
	if types.IsInterface(x.AssertedType) {
		it := x.AssertedType.Underlying().(*types.Interface)
		if iv.ST != nil {
			ok = B(types.Implements(iv.ST, it))
		} else if iv.Typ.IsConst() && iv.Typ.K == 0 {
			ok = tFalse
		} else if iv.Typ.IsConst() && typeByID[int(iv.Typ.K)] != nil {
			ok = B(types.Implements(typeByID[int(iv.Typ.K)], it))
		} else {
			ok = And(Not(Eq(iv.Typ, BV(32, 0))), App(0, "implements."+tname(x.AssertedType), iv.Typ))
			if it.NumMethods() == 0 {
				ok = Not(Eq(iv.Typ, BV(32, 0)))
			}
		}
		val = &VIface{T: x.AssertedType, Typ: iv.Typ, Data: iv.Data, Static: iv.Static, ST: iv.ST}
	} else {
		ok = Eq(iv.Typ, typeID(x.AssertedType))
		if ok.IsFalse() {
			val = st.zero(x.AssertedType)
		} else {
			val = st.unbox(iv, x.AssertedType)
		}
	}
	if x.CommaOk {
		val = mergeVal(ok, val, st.zero(x.AssertedType), st, st)
		st.env[x] = &VTuple{[]Val{val, ok}}
	} else {
		e.require(st, ok, "safety", "failed type assertion", x.Pos())
		st.env[x] = val
	}
	return st
}

// ---- maps ----

func mapStem(mt *types.Map) string { return "M:" + ename(mt.Key()) + ":" + ename(mt.Elem()) }

func (e *Engine) mapKeys(st *State, m *Term, k Val, kt types.Type) []*Term {
	return append([]*Term{m}, flatKey(st, k)...)
}

func flatKey(st *State, k Val) []*Term {
	switch x := k.(type) {
	case *Term:
		return []*Term{x}
	case *VPtr:
		if x.Path != "" {
			unsup("interior pointer as map key")
		}
		return []*Term{x.Ref}
	case *VArray:
		var out []*Term
		for _, v := range x.Es {
			out = append(out, flatKey(st, v)...)
		}
		return out
	case *VStruct:
		var out []*Term
		for _, v := range x.Fs {
			out = append(out, flatKey(st, v)...)
		}
		return out
	}
	unsup("map key %T", k)
	return nil
}

func (st *State) mapLen(m *Term, mt *types.Map) *Term {
	return Ite(Eq(m, BV(32, 0)), BV(64, 0), st.leafRead(mapStem(mt)+"#mlen", []*Term{m}, 64, kMapLen))
}

func (e *Engine) mapStore(st *State, m *Term, mt *types.Map, k, v Val) {
	keys := e.mapKeys(st, m, k, mt.Key())
	stem := mapStem(mt)
	dom := st.leafRead(stem+"#dom", keys, 0, kPlain)
	n := st.leafRead(stem+"#mlen", []*Term{m}, 64, kMapLen)
	st.leafWrite(stem+"#mlen", []*Term{m}, 64, kMapLen, Ite(dom, n, Add(n, BV(64, 1))))
	st.leafWrite(stem+"#dom", keys, 0, kPlain, tTrue)
	st.store(&VPtr{T: mt.Elem(), Path: stem + "#v", Keys: keys}, v)
}

func (e *Engine) mapDelete(st *State, m *Term, mt *types.Map, k Val) {
	keys := e.mapKeys(st, m, k, mt.Key())
	stem := mapStem(mt)
	dom := And(Not(Eq(m, BV(32, 0))), st.leafRead(stem+"#dom", keys, 0, kPlain))
	n := st.leafRead(stem+"#mlen", []*Term{m}, 64, kMapLen)
	st.leafWrite(stem+"#mlen", []*Term{m}, 64, kMapLen, Ite(dom, Sub(n, BV(64, 1)), n))
	st.leafWrite(stem+"#dom", keys, 0, kPlain, tFalse)
}

func (fr *frame) rangeInit(st *State, x *ssa.Range) *State {
	switch u := x.X.Type().Underlying().(type) {
	case *types.Map:
		m := asTerm(fr.eval(st, x.X))
		it := &VIter{Map: m, MT: u, Ref: newRef()}
		fr.e.iters = append(fr.e.iters, it)
		st.env[x] = it
	case *types.Basic:
		s := asTerm(fr.eval(st, x.X))
		r := newRef()
		it := &VIter{Str: s, SIdx: &VPtr{T: types.Typ[types.Int], Ref: r}}
		st.env[x] = it
	default:
		unsup("range over %s", x.X.Type())
	}
	return st
}

// visited is the ghost component of a map iterator.
func visComp(mt *types.Map, kw []int) *CompInfo {
	return comp("IT:"+mapStem(mt), append([]int{32}, kw...), 0, kPlain)
}
func cntComp() *CompInfo { return comp("ITN", []int{32}, 64, kPlain) }

func (fr *frame) next(st *State, x *ssa.Next) *State {
	e := fr.e
	it := fr.eval(st, x.Iter).(*VIter)
	if it.MT == nil {
		// string iteration, ASCII only
		e.assumption["string iteration treats strings as single-byte characters ("+fnName(fr.fn)+")"] = true
		i := asTerm(st.load(it.SIdx))
		ok := Ult(i, strLen(it.Str))
		st.store(it.SIdx, Ite(ok, Add(i, BV(64, 1)), i))
		st.env[x] = &VTuple{[]Val{ok, i, Zext(strAt(it.Str, i), 32)}}
		return st
	}
	stem := mapStem(it.MT)
	e.anyN++
	k := st.fresh(it.MT.Key(), fmt.Sprintf("key!%d", e.anyN), false)
	kk := flatKey(st, k)
	keys := append([]*Term{it.Map}, kk...)
	ok := noteFresh(FreshVar(0, "next"))
	dom := st.leafRead(stem+"#dom", keys, 0, kPlain)
	vc := visComp(it.MT, keyWidths(kk))
	vk := append([]*Term{it.Ref}, kk...)
	vis := st.heap.read(vc, vk)
	cnt := st.heap.read(cntComp(), []*Term{it.Ref})
	n := st.mapLen(it.Map, it.MT)
	st.assume(Implies(ok, And(dom, Not(vis), Not(Eq(it.Map, BV(32, 0))))))
	st.assume(Iff(ok, Ult(cnt, n)))
	// when exhausted every key of the map has been visited
	bvs := make([]*Term, len(kk))
	for i := range kk {
		bvs[i] = BoundVar(kk[i].W, "k")
	}
	all := Implies(st.leafRead(stem+"#dom", append([]*Term{it.Map}, bvs...), 0, kPlain), st.heap.read(vc, append([]*Term{it.Ref}, bvs...)))
	for i := len(bvs) - 1; i >= 0; i-- {
		all = Forall(bvs[i], all)
	}
	st.assume(Or(ok, Eq(it.Map, BV(32, 0)), all))
	st.heap.write(vc, vk, Or(ok, vis))
	st.heap.write(cntComp(), []*Term{it.Ref}, Ite(ok, Add(cnt, BV(64, 1)), cnt))
	v := st.load(&VPtr{T: it.MT.Elem(), Path: stem + "#v", Keys: keys})
	st.env[x] = &VTuple{[]Val{ok, k, v}}
	return st
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var debugCalls = os.Getenv("GOVC_CALLS") != ""

// guard: what is modified only while the lock is held.
type guard struct {
	label string
	m     *Term // a map
	mt    types.Type
	p     *VPtr // or a variable
	lock  *VPtr
}

func (g guard) held(e *Engine, st *State) *Term {
	ci, k := e.lockCell(g.lock)
	return Eq(st.heap.read(ci, k), BV(8, 255))
}

func (e *Engine) guardedMap(st *State, m *Term, mt types.Type, pos token.Pos) {
	for _, g := range e.guards {
		if g.mt != nil && types.Identical(g.mt.Underlying(), mt.Underlying()) {
			e.require(st, Or(Not(Eq(g.m, m)), g.held(e, st)), "lock", g.label, pos)
		}
	}
}

func (e *Engine) guarded(st *State, p *VPtr, c *Term, pos token.Pos) {
	if len(e.guards) == 0 {
		return
	}
	if p.Path == "?" {
		e.guarded(st, p.A, And(c, p.C), pos)
		e.guarded(st, p.B, And(c, Not(p.C)), pos)
		return
	}
	for _, g := range e.guards {
		if g.p == nil {
			continue
		}
		same := e.overlap(p, g.p)
		if same == nil {
			continue
		}
		e.require(st, Or(Not(And(c, same)), g.held(e, st)), "lock", g.label, pos)
	}
}

// overlap: when a write at p changes the variable q; nil if never.
func (e *Engine) overlap(p, q *VPtr) *Term {
	eq := func(a, b []*Term) *Term {
		var ts []*Term
		for i := range a {
			if i < len(b) {
				ts = append(ts, Eq(a[i], b[i]))
			}
		}
		return And(ts...)
	}
	within := func(a, b string) bool { return a == b || strings.HasPrefix(a, b+".") }
	switch {
	case p.Path != "" && q.Path != "":
		if within(p.Path, q.Path) || within(q.Path, p.Path) {
			return eq(p.Keys, q.Keys)
		}
	case p.Path != "":
		if within(p.Path, "F:"+tname(q.T)) {
			return Eq(p.Keys[0], q.Ref)
		}
	case q.Path != "":
		if within(q.Path, "F:"+tname(p.T)) {
			return Eq(q.Keys[0], p.Ref)
		}
	default:
		if types.Identical(p.T, q.T) {
			return Eq(p.Ref, q.Ref)
		}
	}
	return nil
}

// goLocks looks at the locks in the function that a goroutine starts with: it holds none at first, and none at the end.
func (fr *frame) goLocks(st *State, x *ssa.Go) {
	e := fr.e
	e.assumption["a goroutine is looked at in the state in which it is started ("+fnName(fr.fn)+")"] = true
	s := st.fork()
	s.defers = nil
	ci := comp("G:lock", []int{32}, 8, kPlain)
	v := BoundVar(32, "l")
	s.heap.havoc(newHavoc(), ci, nil, nil)
	none := func() *Term { return Forall(v, Eq(s.heap.read(ci, []*Term{v}), BV(8, 0))) }
	s.assume(none())
	call := fr.prepCall(s, &x.Call, x.Pos())
	s, _ = call(s)
	if !s.dead {
		e.require(s, none(), "lock", "lock held at the end of a goroutine", x.Pos())
	}
}
