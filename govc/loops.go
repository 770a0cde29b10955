package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loop
	units  []unit
	kids   []*loop
}

type unit struct {
	block *ssa.BasicBlock
	lp    *loop
}

type loopInfo struct {
	top   []unit
	loops []*loop
}

var loopCache = map[*ssa.Function]*loopInfo{}

func loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := loopCache[fn]; ok {
		return li
	}
	li := &loopInfo{}
	loopCache[fn] = li
	// reverse postorder
	var rpo []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		rpo = append(rpo, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(rpo)-1; i < j; i, j = i+1, j-1 {
		rpo[i], rpo[j] = rpo[j], rpo[i]
	}
	byHeader := map[*ssa.BasicBlock]*loop{}
	for _, b := range rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b->s
				lp := byHeader[s]
				if lp == nil {
					lp = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					byHeader[s] = lp
					li.loops = append(li.loops, lp)
				}
				var stack []*ssa.BasicBlock
				if !lp.blocks[b] {
					lp.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !lp.blocks[p] && seen[p] {
							lp.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	// nesting: parent = smallest strictly containing loop
	for _, l := range li.loops {
		for _, m := range li.loops {
			if m != l && m.blocks[l.header] && len(m.blocks) > len(l.blocks) {
				if l.parent == nil || len(m.blocks) < len(l.parent.blocks) {
					l.parent = m
				}
			}
		}
	}
	inner := func(b *ssa.BasicBlock) *loop {
		var r *loop
		for _, l := range li.loops {
			if l.blocks[b] && (r == nil || len(l.blocks) < len(r.blocks)) {
				r = l
			}
		}
		return r
	}
	add := func(l *loop, u unit) {
		if l == nil {
			li.top = append(li.top, u)
		} else {
			l.units = append(l.units, u)
		}
	}
	for _, b := range rpo {
		l := inner(b)
		if l != nil && l.header == b {
			add(l.parent, unit{b, l})
			add(l, unit{b, nil})
		} else {
			add(l, unit{b, nil})
		}
	}
	return li
}

var debugLoops = os.Getenv("GOVC_LOOPS") != ""

// iterate runs one iteration of lp from header state st (phis already set).
func (fr *frame) iterate(lp *loop, st *State, rets *[]retState) (exits pending, back *State) {
	p := pending{}
	p[lp.header] = []edgeState{{nil, st}}
	fr.region(p, lp.units, lp, rets)
	exits = pending{}
	for b, es := range p {
		if b == lp.header {
			back = fr.join(b, es)
		} else {
			exits[b] = es
		}
	}
	if back != nil && back.dead {
		back = nil
	}
	return
}

func addExits(p, ex pending) {
	var bs []*ssa.BasicBlock
	for b := range ex {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	for _, b := range bs {
		p[b] = append(p[b], ex[b]...)
	}
}

func (fr *frame) decided(lp *loop, st *State) (bool, bool) {
	// does the header leave the loop conditionally?
	h := lp.header
	if len(h.Succs) == 2 && (lp.blocks[h.Succs[0]] != lp.blocks[h.Succs[1]]) {
		e := fr.e
		e.suppress++
		p := pending{}
		var rets []retState
		na := nextAlloc
		fr.block(p, h, st.fork(), &rets)
		nextAlloc = na
		e.suppress--
		return true, len(p) <= 1
	}
	return false, false
}

// overMap: the loop ranges over a map.
func overMap(lp *loop) bool {
	for _, in := range lp.header.Instrs {
		if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
			return true
		}
	}
	return false
}

func (fr *frame) loop(p pending, lp *loop, in []edgeState, rets *[]retState) {
	e := fr.e
	cur := fr.join(lp.header, in)
	if cur == nil || cur.dead {
		return
	}
	if len(e.invs) > 0 && e.unrollMax == 0 && overMap(lp) {
		// whatever the map holds: the order of its keys is not known
		fr.houdini(p, lp, cur, rets)
		return
	}
	limit := 600
	sideLimit := 24
	start := cur
	acc := pending{}
	snapO, snapR, nI, nb := len(e.obls), len(*rets), len(e.iters), 0
	seen0 := e.oblSeen
	e.oblSeen = map[[2]interface{}]bool{}
	for k := range seen0 {
		e.oblSeen[k] = true
	}
	side := false
	for iter := 0; iter < limit && !(side && iter >= sideLimit); iter++ {
		headerExit, dec := fr.decided(lp, cur)
		if headerExit && dec {
			ex, back := fr.iterate(lp, cur.fork(), rets)
			addExits(acc, ex)
			if back == nil {
				addExits(p, acc)
				return
			}
			if len(ex) > 0 || len(*rets) > snapR {
				side = true
			}
			cur = back
			continue
		}
		if !headerExit {
			// loop left only from its body: decided if the iteration does not both leave and repeat
			o1, r1 := len(e.obls), len(*rets)
			seen := e.oblSeen
			e.oblSeen = map[[2]interface{}]bool{}
			for k := range seen {
				e.oblSeen[k] = true
			}
			ex, back := fr.iterate(lp, cur.fork(), rets)
			if back == nil || (len(ex) == 0 && len(*rets) == r1) && iter < 40 {
				addExits(acc, ex)
				if back == nil {
					addExits(p, acc)
					return
				}
				cur = back
				continue
			}
			e.obls = e.obls[:o1]
			e.oblSeen = seen
			*rets = (*rets)[:r1]
		}
		nb = iter
		break
	}
	if nb == 0 || side {
		// abstract the loop from its entry
		e.obls = e.obls[:snapO]
		e.oblSeen = seen0
		*rets = (*rets)[:snapR]
		e.iters = e.iters[:nI]
		cur = start
	} else {
		addExits(p, acc)
	}
	if e.unrollMax > 0 {
		if fr.boundedUnroll(p, lp, cur, rets) {
			return
		}
	}
	if e.unrollMax == 0 && fr.autoUnroll(p, lp, cur, rets) {
		return
	}
	fr.houdini(p, lp, cur, rets)
}

// autoUnroll tries a short complete unrolling of small loops (padding loops and the like): at most three
// iterations, accepted only when the solver shows that a further one is impossible.
func (fr *frame) autoUnroll(p pending, lp *loop, cur *State, rets *[]retState) bool {
	e := fr.e
	if e.noAuto[lp.header] {
		return false
	}
	n := 0
	for b := range lp.blocks {
		n += len(b.Instrs)
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if c.Call.IsInvoke() {
					n += 40
				} else if fn := c.Call.StaticCallee(); fn != nil && e.stubs[fn] == nil && fn.Pkg != nil && strings.Contains(fn.Pkg.Pkg.Path(), "gotgt") {
					for _, fb := range fn.Blocks {
						n += len(fb.Instrs)
					}
				}
			}
		}
	}
	if n > 40 {
		return false
	}
	snapO, snapR, nI := len(e.obls), len(*rets), len(e.iters)
	seen := e.oblSeen
	e.oblSeen = map[[2]interface{}]bool{}
	for k := range seen {
		e.oblSeen[k] = true
	}
	acc := pending{}
	st := cur.fork()
	for i := 0; i < 4; i++ {
		ex, back := fr.iterate(lp, st, rets)
		addExits(acc, ex)
		if back == nil || i == 3 && !e.feasible(back) {
			addExits(p, acc)
			e.invStats["unrolled "+fnName(fr.fn)] = i + 1
			return true
		}
		st = back
	}
	if e.noAuto == nil {
		e.noAuto = map[*ssa.BasicBlock]bool{}
	}
	e.noAuto[lp.header] = true
	e.obls = e.obls[:snapO]
	e.oblSeen = seen
	*rets = (*rets)[:snapR]
	e.iters = e.iters[:nI]
	return false
}

// boundedUnroll unrolls up to e.unrollMax iterations; complete when the solver shows no further iteration is possible.
func (fr *frame) boundedUnroll(p pending, lp *loop, cur *State, rets *[]retState) bool {
	e := fr.e
	snapO, snapR := len(e.obls), len(*rets)
	acc := pending{}
	for i := 0; i <= e.unrollMax; i++ {
		ex, back := fr.iterate(lp, cur, rets)
		addExits(acc, ex)
		if back == nil || !e.feasible(back) {
			addExits(p, acc)
			e.invStats["unrolled "+fnName(fr.fn)] = i + 1
			return true
		}
		cur = back
	}
	_ = snapO
	_ = snapR
	unsup("loop in %s not bounded by %d iterations", fnName(fr.fn), e.unrollMax)
	return false
}

func (e *Engine) feasible(st *State) bool {
	if st.dead {
		return false
	}
	qu := buildQuery(st.pc.terms())
	r := solve(qu, 5, 0)
	return r.Status != "unsat"
}

// implied: the path condition is shown to imply g.
func (e *Engine) implied(st *State, g *Term) bool {
	if st.dead {
		return true
	}
	return solve(buildQuery(append(st.pc.terms(), Not(g))), 10, 0).Status == "unsat"
}

// ---- invariant inference over candidate templates (Houdini) ----

type cand struct {
	name string
	user bool
	f    func(st *State) *Term
	// frame: that arrays of this component which the loop does not own keep their elements
	frame *CompInfo
}

func (fr *frame) houdini(p pending, lp *loop, S *State, rets *[]retState) {
	e := fr.e
	if debugLoops {
		fmt.Fprintf(os.Stderr, "houdini %s block %d\n", fnName(fr.fn), lp.header.Index)
	}
	var phis []*ssa.Phi
	for _, in := range lp.header.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			phis = append(phis, ph)
		}
	}
	// 1. modified locations
	type mk struct {
		ci  *CompInfo
		ref *Term // nil: all
	}
	mods := map[mk]bool{}
	var order []mk
	addMod := func(m mk) bool {
		if mods[mk{m.ci, nil}] || mods[m] {
			return false
		}
		mods[m] = true
		order = append(order, m)
		return true
	}
	// frame: arrays that exist when the loop starts are not written, except those its slices start from.
	// It is assumed of a component while framed says so and checked like every other candidate.
	fmark := nextAlloc
	var initRefs []*Term
	for _, ph := range phis {
		if v, ok := S.env[ph].(*VSlice); ok {
			initRefs = append(initRefs, v.Ref)
		}
	}
	framed := map[*CompInfo]bool{}
	old := func(r *Term) *Term {
		c := tTrue
		if reg, b := regionOf(r); reg&^(regNull|regInput|regAlloc) != 0 || reg&regAlloc != 0 && b > fmark {
			c = Ult(r, BV(32, uint64(fmark)))
		}
		for _, ir := range initRefs {
			c = And(c, Not(Eq(r, ir)))
		}
		return c
	}
	headState := func() *State {
		H := S.fork()
		hv := newHavoc()
		for _, m := range order {
			if m.ref != nil && mods[mk{m.ci, nil}] {
				continue
			}
			var condf func(k []*Term) *Term
			if framed[m.ci] {
				condf = func(k []*Term) *Term { return Not(old(k[0])) }
			}
			H.heap.havoc(hv, m.ci, m.ref, condf)
		}
		for _, ph := range phis {
			e.anyN++
			if v, ok := S.env[ph].(*VPtr); ok && v.Path == "?" {
				unsup("a loop over pointers of different kinds")
			}
			if v, ok := S.env[ph].(*VPtr); ok && v.Path != "" {
				// location pointer: keep the family, havoc the keys
				ks := make([]*Term, len(v.Keys))
				for i, k := range v.Keys {
					ks[i] = noteFresh(FreshVar(k.W, "phik"))
					if k.W == 32 {
						setRegion(ks[i], regNull|regInput|regAlloc|regLate|regSub, nextAlloc)
					}
				}
				H.env[ph] = &VPtr{T: v.T, Path: v.Path, Keys: ks}
				continue
			}
			H.env[ph] = H.fresh(ph.Type(), fmt.Sprintf("phi!%d.%s", e.anyN, ph.Comment), false)
		}
		return H
	}
	for round := 0; ; round++ {
		mark := symClock
		amark := nextAlloc
		H := headState()
		var log []modEntry
		saved := modLogs
		modLogs = append(append([]*[]modEntry{}, saved...), &log)
		e.suppress++
		var r2 []retState
		nI := len(e.iters)
		fr.iterate(lp, H, &r2)
		e.iters = e.iters[:nI]
		e.suppress--
		modLogs = saved
		changed := false
		for _, m := range log {
			if m.ref == nil {
				if addMod(mk{m.ci, nil}) {
					changed = true
				}
				continue
			}
			rt := rootOf(m.ref)
			if rt.IsConst() && rt.K >= uint64(amark) && rt.K < lateBase {
				continue // object allocated in this iteration
			}
			if m.ref.hasFreeBV() {
				unsup("write under binder")
			}
			ref := m.ref
			if age(ref) > mark {
				ref = nil
				if isAllocChoice(m.ref, amark) {
					continue
				}
			}
			if addMod(mk{m.ci, ref}) {
				changed = true
			}
		}
		if !changed {
			break
		}
		if round > 12 {
			unsup("loop modification set does not stabilise in %s", fnName(fr.fn))
		}
	}
	// the enclosing logs must see these modifications
	for _, m := range order {
		r := m.ref
		if r == nil {
			r = noteFresh(FreshVar(32, "anyref"))
		}
		logMod(m.ci, r)
	}
	// 2. candidates
	cands := fr.builtinCands(lp, phis, S)
	for _, m := range order {
		if m.ref != nil || len(m.ci.KW) != 2 || !strings.HasPrefix(m.ci.Name, "E:") {
			continue
		}
		ci := m.ci
		framed[ci] = true
		cands = append(cands, cand{name: "frame of " + ci.Name, frame: ci, f: func(st *State) *Term {
			r, k := BoundVar(32, "r"), BoundVar(ci.KW[1], "k")
			ks := []*Term{r, k}
			return Forall(r, Forall(k, Implies(old(r), Eq(st.heap.read(ci, ks), S.heap.read(ci, ks)))))
		}})
	}
	cands = append(cands, fr.sliceCands(lp, phis, S, fmark)...)
	cands = append(cands, fr.userCands(lp, phis, S)...)
	// 3. initial filter
	cands = e.filterCands(cands, S)
	unframe := func() {
		for ci := range framed {
			framed[ci] = false
		}
		for _, c := range cands {
			if c.frame != nil {
				framed[c.frame] = true
			}
		}
	}
	// 4. inductive filter
	for round := 0; round < 40; round++ {
		H := headState()
		base := H
		for _, c := range cands {
			if c.frame == nil {
				base.assume(c.f(base))
			}
		}
		e.suppress++
		var r2 []retState
		nI := len(e.iters)
		_, back := fr.iterate(lp, base, &r2)
		e.iters = e.iters[:nI]
		e.suppress--
		if back == nil {
			break
		}
		n := len(cands)
		cands = e.filterCands(cands, back)
		if len(cands) == n {
			break
		}
		unframe()
	}
	if debugLoops {
		for _, c := range cands {
			fmt.Fprintf(os.Stderr, "  inv %s\n", c.name)
		}
	}
	for _, c := range cands {
		if c.user {
			e.invStats["invariant "+c.name+" in "+fnName(fr.fn)]++
		} else {
			e.invStats["inferred invariants in "+fnName(fr.fn)]++
		}
	}
	e.loopObls += 2 * len(cands)
	// 5. final run
	H := headState()
	for _, c := range cands {
		if c.frame == nil {
			H.assume(c.f(H))
		}
	}
	nI := len(e.iters)
	ex, _ := fr.iterate(lp, H, rets)
	e.iters = e.iters[:nI]
	addExits(p, ex)
}

// isAllocChoice: a choice between objects allocated in this iteration only.
func isAllocChoice(t *Term, mark uint32) bool {
	if t.Op == OpIte {
		return isAllocChoice(t.Args[1], mark) && isAllocChoice(t.Args[2], mark)
	}
	r := rootOf(t)
	return r.IsConst() && r.K >= uint64(mark) && r.K < lateBase
}

var filterQuick = 8

func (e *Engine) filterCands(cs []cand, st *State) []cand {
	type job struct {
		c  cand
		qu *Query
		ok bool
	}
	var jobs []*job
	goals := make([]*Term, len(cs))
	e.noDefs = true // the definitions are used at the start of an iteration
	for i, c := range cs {
		goals[i] = c.f(st)
	}
	e.noDefs = false
	pcs := st.pc.terms()
	for i, c := range cs {
		g := goals[i]
		j := &job{c: c}
		if g.IsTrue() {
			j.ok = true
		} else if !g.IsFalse() {
			j.qu = buildQuery(append(append([]*Term{}, pcs...), Not(g)))
		}
		jobs = append(jobs, j)
	}
	var wg sync.WaitGroup // all queries are built: only next() constructs terms from here on
	for _, j := range jobs {
		if j.qu == nil {
			continue
		}
		wg.Add(1)
		go func(j *job) {
			defer wg.Done()
			full := 0
			if j.c.user {
				full = 20
			}
			r := solve(j.qu, filterQuick, full)
			j.ok = r.Status == "unsat"
			if d := os.Getenv("GOVC_DUMPINV"); d != "" && j.c.user && !j.ok {
				q := j.qu
				for n := q.next(); n != nil; n = q.next() {
					q = n
				}
				d = fmt.Sprintf("%s%d-%s", d, len(jobs), strings.ReplaceAll(j.c.name, " ", "_"))
				os.WriteFile(d, []byte(q.Text), 0644)
				os.WriteFile(d+".model", []byte(r.Status+"\n"+modelText(&Obligation{Result: r})), 0644)
			}
		}(j)
	}
	wg.Wait()
	var out []cand
	for _, j := range jobs {
		if j.ok {
			out = append(out, j.c)
		} else if debugLoops && (j.c.user || os.Getenv("GOVC_LOOPS") == "2") {
			fmt.Fprintf(os.Stderr, "  drop %s\n", j.c.name)
		}
	}
	return out
}

func (fr *frame) builtinCands(lp *loop, phis []*ssa.Phi, S *State) []cand {
	var out []cand
	add := func(name string, f func(st *State) *Term) {
		out = append(out, cand{name: name, f: f})
	}
	if fr.e.lockCheck {
		ci := comp("G:lock", []int{32}, 8, kPlain)
		add("locks are held as before the loop", func(st *State) *Term {
			v := BoundVar(32, "l")
			return Forall(v, Eq(st.heap.read(ci, []*Term{v}), S.heap.read(ci, []*Term{v})))
		})
	}
	ev := func(st *State, v ssa.Value) *Term {
		x, ok := fr.tryEval(st, v).(*Term)
		if !ok {
			return nil
		}
		return x
	}
	for _, ph := range phis {
		ph := ph
		init := S.env[ph]
		switch iv := init.(type) {
		case *Term:
			if iv.W == 0 || isString(ph.Type()) || !isInt(ph.Type()) {
				add(ph.Name()+" unchanged", func(st *State) *Term { return Eq(asTerm(st.env[ph]), iv) })
				if iv.W == 0 {
					break
				}
			}
			if isInt(ph.Type()) {
				sg := isSigned(ph.Type())
				le := func(a, b *Term) *Term {
					if sg {
						return Sle(a, b)
					}
					return Ule(a, b)
				}
				add(ph.Name()+" >= initial", func(st *State) *Term { return le(iv, asTerm(st.env[ph])) })
				add(ph.Name()+" <= initial", func(st *State) *Term { return le(asTerm(st.env[ph]), iv) })
				if sg {
					add(ph.Name()+" >= 0", func(st *State) *Term { return Sle(BV(iv.W, 0), asTerm(st.env[ph])) })
					add(ph.Name()+" >= -1", func(st *State) *Term { return Sle(BV(iv.W, ^uint64(0)), asTerm(st.env[ph])) })
				}
			}
		case *VPtr:
			if iv.Path == "" {
				add(ph.Name()+" unchanged", func(st *State) *Term {
					if v, ok := st.env[ph].(*VPtr); ok && v.Path == "" {
						return Eq(v.Ref, iv.Ref)
					}
					return tFalse
				})
				add(ph.Name()+" non-nil", func(st *State) *Term {
					if v, ok := st.env[ph].(*VPtr); ok && v.Path == "" {
						return Not(Eq(v.Ref, BV(32, 0)))
					}
					return tFalse
				})
			}
		case *VSlice:
			add(ph.Name()+" same backing", func(st *State) *Term { return Eq(st.env[ph].(*VSlice).Ref, iv.Ref) })
			add(ph.Name()+" same len", func(st *State) *Term { return Eq(st.env[ph].(*VSlice).Len, iv.Len) })
			add(ph.Name()+" same off", func(st *State) *Term { return Eq(st.env[ph].(*VSlice).Off, iv.Off) })
			add(ph.Name()+" same cap", func(st *State) *Term { return Eq(st.env[ph].(*VSlice).Cap, iv.Cap) })
			add(ph.Name()+" off 0", func(st *State) *Term { return Eq(st.env[ph].(*VSlice).Off, BV(64, 0)) })
		case *VIface:
			add(ph.Name()+" typ unchanged", func(st *State) *Term { return Eq(st.env[ph].(*VIface).Typ, iv.Typ) })
		}
	}
	// bounds from comparisons in the loop
	for b := range lp.blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok || !isInt(bo.X.Type()) {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			sg := isSigned(bo.X.Type())
			x, y := bo.X, bo.Y
			for k := 0; k < 2; k++ {
				// x phi-based, y defined outside the loop
				ph := phiBase(x, phis)
				if ph != nil && fr.stable(y, lp, 0) {
					yy := y
					ph := ph
					ev := func(st *State, v ssa.Value) *Term {
						if v == ph {
							return ev(st, v)
						}
						t, _ := fr.evalStable(st, v, lp).(*Term)
						return t
					}
					if init, ok := S.env[ph].(*Term); ok {
						add(fmt.Sprintf("%s initial or bound %s", ph.Name(), yy.Name()), func(st *State) *Term {
							a, c := ev(st, ph), ev(st, yy)
							if a == nil || c == nil {
								return tFalse
							}
							// compare in 64 bits when the widths differ (conversions in the comparison)
							le := func(a, c *Term) *Term {
								if sg {
									return Sle(a, c)
								}
								return Ule(a, c)
							}
							if a.W < c.W {
								a = Zext(a, c.W)
							} else if c.W < a.W {
								c = Zext(c, a.W)
							}
							if a.W != init.W {
								return tFalse
							}
							return Or(Eq(a, init), le(a, c))
						})
					}
					for _, strict := range []bool{true, false} {
						strict := strict
						for _, up := range []bool{true, false} {
							up := up
							add(fmt.Sprintf("%s bound %s %v %v", ph.Name(), yy.Name(), strict, up), func(st *State) *Term {
								a, c := ev(st, ph), ev(st, yy)
								if a == nil || c == nil || a.W != c.W {
									return tFalse
								}
								if !up {
									a, c = c, a
								}
								switch {
								case sg && strict:
									return Slt(a, c)
								case sg:
									return Sle(a, c)
								case strict:
									return Ult(a, c)
								}
								return Ule(a, c)
							})
						}
					}
				}
				x, y = y, x
			}
		}
	}
	// integer memory cells that the loop compares: handled by user invariants
	// map iterators
	for b := range lp.blocks {
		for _, in := range b.Instrs {
			nx, ok := in.(*ssa.Next)
			if !ok {
				continue
			}
			it, ok := fr.tryEval(S, nx.Iter).(*VIter)
			if !ok || it.MT == nil {
				continue
			}
			add("iterator count", func(st *State) *Term {
				return Ule(st.heap.read(cntComp(), []*Term{it.Ref}), st.mapLen(it.Map, it.MT))
			})
			kt := it.MT.Key()
			add("visited keys are in the map", func(st *State) *Term {
				ks, bvs := boundKey(kt)
				if ks == nil {
					return tFalse
				}
				body := Implies(st.heap.read(visComp(it.MT, keyWidths(ks)), append([]*Term{it.Ref}, ks...)),
					And(Not(Eq(it.Map, BV(32, 0))), st.leafRead(mapStem(it.MT)+"#dom", append([]*Term{it.Map}, ks...), 0, kPlain)))
				for i := len(bvs) - 1; i >= 0; i-- {
					body = Forall(bvs[i], body)
				}
				return body
			})
		}
	}
	return out
}

// sliceCands: what holds of slices that the loop appends to.
func (fr *frame) sliceCands(lp *loop, phis []*ssa.Phi, S *State, mark uint32) []cand {
	var out []cand
	appends := map[string]bool{}
	for b := range lp.blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				// append, or a function that may append
				if _, ok := c.Type().Underlying().(*types.Slice); ok {
					appends[c.Type().String()] = true
				}
			}
		}
	}
	for _, ph := range phis {
		ph := ph
		iv, ok := S.env[ph].(*VSlice)
		if !ok || !appends[ph.Type().String()] {
			continue
		}
		add := func(name string, f func(st *State, v *VSlice) *Term) {
			out = append(out, cand{name: ph.Name() + " " + name, f: func(st *State) *Term {
				v, ok := st.env[ph].(*VSlice)
				if !ok {
					return tFalse
				}
				return f(st, v)
			}})
		}
		add("initial or new", func(st *State, v *VSlice) *Term {
			return Or(Eq(v.Ref, iv.Ref), And(Ule(BV(32, uint64(mark)), v.Ref), Ult(v.Ref, BV(32, subBase))))
		})
		add("len >= initial", func(st *State, v *VSlice) *Term { return Ule(iv.Len, v.Len) })
		if _, ok := iv.Elem.Underlying().(*types.Basic); !ok || iv.Len.IsConst() && iv.Len.K == 0 {
			continue
		}
		add("keeps its initial elements", func(st *State, v *VSlice) *Term {
			at := func(st *State, s *VSlice, k *Term) *Term {
				return asTerm(st.load(elemLoc(s.Elem, s.Ref, Add(s.Off, k))))
			}
			if iv.Len.IsConst() && iv.Len.K <= 64 {
				c := tTrue
				for k := uint64(0); k < iv.Len.K; k++ {
					c = And(c, Eq(at(st, v, BV(64, k)), at(S, iv, BV(64, k))))
				}
				return c
			}
			k := BoundVar(64, "k")
			return Forall(k, Implies(Ult(k, iv.Len), Eq(at(st, v, k), at(S, iv, k))))
		})
	}
	return out
}

func boundKey(t types.Type) (ks []*Term, bvs []*Term) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		v := BoundVar(bwidth(u), "k")
		return []*Term{v}, []*Term{v}
	case *types.Pointer:
		v := BoundVar(32, "k")
		return []*Term{v}, []*Term{v}
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			a, b := boundKey(u.Elem())
			ks = append(ks, a...)
			bvs = append(bvs, b...)
		}
		return
	}
	return nil, nil
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func phiBase(v ssa.Value, phis []*ssa.Phi) *ssa.Phi {
	for i := 0; i < 4; i++ {
		switch x := v.(type) {
		case *ssa.Phi:
			for _, p := range phis {
				if p == x {
					return p
				}
			}
			return nil
		case *ssa.BinOp:
			if x.Op == token.ADD || x.Op == token.SUB {
				v = x.X
				continue
			}
			return nil
		case *ssa.Convert:
			v = x.X
			continue
		}
		return nil
	}
	return nil
}

func (fr *frame) outside(v ssa.Value, lp *loop) bool {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar:
		return true
	case ssa.Instruction:
		return !lp.blocks[x.Block()]
	case *ssa.Call:
		return false
	}
	return false
}

func (fr *frame) tryEval(st *State, v ssa.Value) (r Val) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(Unsupported); ok {
				r = nil
				return
			}
			panic(x)
		}
	}()
	return fr.eval(st, v)
}

// stable: v is computed in the loop from values defined outside it and from memory only.
func (fr *frame) stable(v ssa.Value, lp *loop, depth int) bool {
	if depth > 8 {
		return false
	}
	if fr.outside(v, lp) {
		return true
	}
	switch x := v.(type) {
	case *ssa.Global:
		return true
	case *ssa.UnOp:
		return x.Op == token.MUL && fr.stable(x.X, lp, depth+1)
	case *ssa.FieldAddr:
		return fr.stable(x.X, lp, depth+1)
	case *ssa.Field:
		return fr.stable(x.X, lp, depth+1)
	case *ssa.Convert:
		return isInt(x.Type()) && isInt(x.X.Type()) && fr.stable(x.X, lp, depth+1)
	case *ssa.ChangeType:
		return fr.stable(x.X, lp, depth+1)
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.SUB, token.MUL, token.SHL, token.SHR, token.AND:
			return fr.stable(x.X, lp, depth+1) && fr.stable(x.Y, lp, depth+1)
		}
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len" && fr.stable(x.Call.Args[0], lp, depth+1)
	}
	return false
}

// evalStable evaluates such a value in the memory of st.
func (fr *frame) evalStable(st *State, v ssa.Value, lp *loop) (r Val) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(Unsupported); ok {
				r = nil
				return
			}
			panic(x)
		}
	}()
	e := fr.e
	e.suppress++
	defer func() { e.suppress-- }()
	tmp := &State{pc: st.pc, env: map[ssa.Value]Val{}, heap: st.heap.fork()}
	for k, x := range st.env {
		tmp.env[k] = x
	}
	var ev func(v ssa.Value) Val
	ev = func(v ssa.Value) Val {
		if fr.outside(v, lp) {
			return fr.eval(tmp, v)
		}
		switch x := v.(type) {
		case *ssa.Global:
			return fr.eval(tmp, v)
		case *ssa.UnOp:
			tmp.env[x.X] = ev(x.X)
			return tmp.load(tmp.env[x.X].(*VPtr))
		case *ssa.FieldAddr:
			return fieldPtr(ev(x.X).(*VPtr), x.Field)
		case *ssa.Field:
			return ev(x.X).(*VStruct).Fs[x.Field]
		case *ssa.Convert:
			return fr.convert(tmp, ev(x.X), x.X.Type(), x.Type(), x.Pos())
		case *ssa.ChangeType:
			return ev(x.X)
		case *ssa.BinOp:
			return fr.binop(tmp, x.Op, ev(x.X), ev(x.Y), x.X.Type(), x.Y.Type(), x.Pos())
		case *ssa.Call:
			switch a := ev(x.Call.Args[0]).(type) {
			case *VSlice:
				return a.Len
			case *Term:
				if isString(x.Call.Args[0].Type()) {
					return strLen(a)
				}
			}
		}
		unsup("not stable")
		return nil
	}
	return ev(v)
}

// userCands instantiates the invariant templates of the contract over values visible at the loop header.
func (fr *frame) userCands(lp *loop, phis []*ssa.Phi, S *State) []cand {
	e := fr.e
	var out []cand
	for _, inv := range e.invs {
		inv := inv
		np := inv.sig.Params().Len()
		choices := make([][]func(st *State) Val, np)
		names := make([][]string, np)
		bad := false
		for i := 0; i < np; i++ {
			t := inv.sig.Params().At(i).Type()
			pname := inv.sig.Params().At(i).Name()
			named := map[string]bool{}
			add := func(n string, f func(st *State) Val) {
				choices[i] = append(choices[i], f)
				names[i] = append(names[i], n)
			}
			for _, ph := range phis {
				ph := ph
				if ph.Comment == pname {
					named[ph.Name()], named["int "+ph.Name()] = true, true
				}
				if isPlainInt(t) && isInt(ph.Type()) && bwidth2(ph.Type()) < 64 {
					// an int parameter stands for an integer of any type
					add("int "+ph.Name(), func(st *State) Val {
						v := fr.tryEval(st, ph)
						if v == nil {
							return nil
						}
						if isUnsigned(ph.Type()) {
							return Zext(asTerm(v), 64)
						}
						return Sext(asTerm(v), 64)
					})
				}
				if types.Identical(ph.Type(), t) || sameShape(ph.Type(), t) || isPlainInt(t) && isInt(ph.Type()) && bwidth2(ph.Type()) == 64 {
					add(ph.Name(), func(st *State) Val { return fr.tryEval(st, ph) })
					// range loops over an index keep i-1 in the phi
					if isInt(t) && strings.Contains(ph.Comment, "rangeindex") {
						add(ph.Name()+"+1", func(st *State) Val { return Add(asTerm(fr.tryEval(st, ph)), BV(bwidth2(t), 1)) })
					}
				}
			}
			// values defined before the loop and used inside it
			seen := map[ssa.Value]bool{}
			var lb []*ssa.BasicBlock
			for b := range lp.blocks {
				lb = append(lb, b)
			}
			sort.Slice(lb, func(i, j int) bool { return lb[i].Index < lb[j].Index })
			for _, b := range lb {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						v := *op
						if v == nil || seen[v] || !fr.outside(v, lp) {
							continue
						}
						if _, isC := v.(*ssa.Const); isC {
							continue
						}
						seen[v] = true
						switch y := v.(type) {
						case *ssa.Parameter:
							named[y.Name()] = y.Name() == pname
						case *ssa.Alloc:
							named["*"+y.Name()] = y.Comment == pname
						case *ssa.FreeVar:
							named["*"+y.Name()] = y.Name() == pname
						}
						if types.Identical(v.Type(), t) {
							add(v.Name(), func(st *State) Val { return fr.tryEval(st, v) })
						}
						if pt, ok := v.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), t) {
							if _, isAlloc := v.(*ssa.Alloc); isAlloc {
								add("*"+v.Name(), func(st *State) Val {
									pv, ok := fr.tryEval(st, v).(*VPtr)
									if !ok {
										return nil
									}
									return st.load(pv)
								})
							}
							if _, isFree := v.(*ssa.FreeVar); isFree {
								add("*"+v.Name(), func(st *State) Val {
									pv, ok := fr.tryEval(st, v).(*VPtr)
									if !ok {
										return nil
									}
									return st.load(pv)
								})
							}
						}
					}
				}
			}
			if len(choices[i]) == 0 {
				bad = true
			}
			// a variable of the parameter's name is preferred
			if byName && len(choices[i]) > 1 {
				var cf []func(st *State) Val
				var cn []string
				for j, n := range names[i] {
					if named[n] {
						cf, cn = append(cf, choices[i][j]), append(cn, n)
					}
				}
				if len(cf) > 0 && len(cf) < len(choices[i]) {
					choices[i], names[i], nameBound = cf, cn, true
				}
			}
		}
		if bad {
			continue
		}
		total := 1
		for i := range choices {
			total *= len(choices[i])
		}
		if total > 400 {
			total = 400
		}
		for k := 0; k < total; k++ {
			sel := make([]func(st *State) Val, np)
			nm := inv.name + "("
			x := k
			for i := range choices {
				n := len(choices[i])
				sel[i] = choices[i][x%n]
				nm += names[i][x%n] + " "
				x /= n
			}
			out = append(out, cand{name: nm + ")", user: true, f: func(st *State) *Term {
				args := make([]Val, np)
				for i := range args {
					args[i] = sel[i](st)
					if args[i] == nil {
						return tFalse
					}
				}
				var defs []*Term
				od, ob := e.defs, e.defBase
				e.defs, e.defBase = &defs, map[*Term]bool{}
				for _, t := range st.pc.terms() {
					e.defBase[t] = true
				}
				g := e.evalSpec(st, inv.fn, args)
				e.defs, e.defBase = od, ob
				if !e.noDefs {
					for _, d := range defs {
						st.assume(d)
					}
				}
				return g
			}})
		}
	}
	return out
}

var (
	byName    bool // bind the parameters of invariants to variables of their name, if there are any
	nameBound bool // and this made a difference
)

func isPlainInt(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Int
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func sameShape(a, b types.Type) bool {
	return isInt(a) && isInt(b) && types.Identical(a.Underlying(), b.Underlying())
}

// evalSpec evaluates a pure boolean closure in st without changing it.
func (e *Engine) evalSpec(st *State, fn *Term, args []Val) *Term {
	f := st.fork()
	f.env = map[ssa.Value]Val{}
	f.defers = nil
	e.suppress++
	e.specDepth++
	ent := funcByID(fn.K)
	if ent == nil {
		unsup("invariant is not a constant function")
	}
	ns, v := e.call(f, ent.fn, args, ent.binds, token.NoPos)
	e.specDepth--
	e.suppress--
	if ns.dead {
		return tFalse
	}
	return asTerm(v)
}
