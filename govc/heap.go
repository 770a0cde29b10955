package main

import (
	"fmt"
	"go/types"
	"strings"
)

// ---- heap components ----

type leafKind uint8

const (
	kPlain leafKind = iota
	kRef            // pointer / map / chan reference
	kSRef           // slice backing reference
	kSOff
	kSLen
	kSCap
	kIfTyp
	kIfData
	kFunc
	kStr
	kMapLen
)

// CompInfo describes one heap component: a total function from keys to a scalar.
type CompInfo struct {
	Name string
	KW   []int  // key widths
	KStr []bool // key is a string id
	W    int
	Kind leafKind
}

var comps = map[string]*CompInfo{}

func comp(name string, kw []int, w int, kind leafKind) *CompInfo {
	if c, ok := comps[name]; ok {
		if c.W != w || len(c.KW) != len(kw) {
			panic(fmt.Sprintf("comp %s shape mismatch: %v/%d %v/%d", name, c.KW, c.W, kw, w))
		}
		return c
	}
	c := &CompInfo{Name: name, KW: kw, W: w, Kind: kind, KStr: make([]bool, len(kw))}
	if strings.HasPrefix(name, "M:string:") && len(kw) > 1 {
		c.KStr[1] = true
	}
	comps[name] = c
	return c
}

type nodeKind uint8

const (
	nBase nodeKind = iota
	nStore
	nCond
	nIte
	nHavoc
)

type Node struct {
	kind      nodeKind
	ci        *CompInfo
	prev, alt *Node
	c         *Term
	keys      []*Term
	val       *Term
	ref       *Term // nCond/nHavoc: only keys with keys[0]==ref are affected (nil: any)
	condf     func(k []*Term) *Term
	valf      func(k []*Term) *Term
	uf        string
	bound     uint32 // nHavoc: allocation counter when the havoc happened
	memo      map[string]*Term
	memoGen   int
	depth     int
}

func rootOf(t *Term) *Term {
	for t.Op == OpApp && strings.HasPrefix(t.Name, "sub.") {
		t = t.Args[0]
	}
	return t
}

// nextAlloc is the next constant allocation reference.
var nextAlloc uint32 = allocBase + 1

func newRef() *Term {
	r := BV(32, uint64(nextAlloc))
	nextAlloc++
	if nextAlloc >= lateBase {
		panic("out of allocation references")
	}
	return r
}

func keySig(ks []*Term) string {
	b := make([]byte, 0, 8*len(ks))
	for _, k := range ks {
		id := k.ID
		b = append(b, byte(id), byte(id>>8), byte(id>>16), byte(id>>24))
	}
	return string(b)
}

func (ci *CompInfo) keyEq(i int, a, b *Term) *Term {
	if ci.KStr[i] {
		return strEq(a, b)
	}
	return Eq(a, b)
}

func (ci *CompInfo) keysEq(a, b []*Term) *Term {
	r := tTrue
	for i := range a {
		e := ci.keyEq(i, a[i], b[i])
		if e.IsFalse() {
			return tFalse
		}
		r = And(r, e)
	}
	return r
}

func readNode(n *Node, keys []*Term) *Term {
	if n.memo != nil && n.memoGen != knownGen {
		n.memo = nil
	}
	// push choices on the reference through
	if k := keys[0]; k.Op == OpIte && k.W == 32 {
		if n.memo == nil {
			n.memo, n.memoGen = map[string]*Term{}, knownGen
		}
		sig := keySig(keys)
		if r, ok := n.memo[sig]; ok {
			return r
		}
		a := append([]*Term{k.Args[1]}, keys[1:]...)
		b := append([]*Term{k.Args[2]}, keys[1:]...)
		r := Ite(k.Args[0], readNode(n, a), readNode(n, b))
		n.memo[sig] = r
		return r
	}
	// skip unaffected nodes
	for {
		switch n.kind {
		case nIte:
			switch isKnown(n.c) {
			case tTrue:
				n = n.prev
				continue
			case tFalse:
				n = n.alt
				continue
			}
		case nStore:
			e := n.ci.keysEq(n.keys, keys)
			if e.IsFalse() {
				n = n.prev
				continue
			}
			if e.IsTrue() {
				return n.val
			}
		case nCond, nHavoc:
			if n.ref != nil && Eq(n.ref, keys[0]).IsFalse() {
				n = n.prev
				continue
			}
			if n.kind == nHavoc {
				if rt := rootOf(keys[0]); rt.IsConst() && rt.K >= uint64(n.bound) && rt.K < lateBase {
					n = n.prev
					continue
				}
			}
		}
		break
	}
	if n.kind == nBase {
		return baseRead(n, keys)
	}
	if n.memo != nil && n.memoGen != knownGen {
		n.memo = nil
	}
	if n.memo == nil {
		n.memo, n.memoGen = map[string]*Term{}, knownGen
	}
	sig := keySig(keys)
	if r, ok := n.memo[sig]; ok {
		return r
	}
	var r *Term
	switch n.kind {
	case nStore:
		e := n.ci.keysEq(n.keys, keys)
		r = Ite(e, n.val, readNode(n.prev, keys))
	case nIte:
		a := readNode(n.prev, keys)
		b := readNode(n.alt, keys)
		r = Ite(n.c, a, b)
	case nCond:
		c := tTrue
		if n.ref != nil {
			c = Eq(n.ref, keys[0])
		}
		if n.condf != nil && !c.IsFalse() {
			c = And(c, n.condf(keys))
		}
		if c.IsFalse() {
			r = readNode(n.prev, keys)
		} else if c.IsTrue() {
			r = n.valf(keys)
		} else {
			r = Ite(c, n.valf(keys), readNode(n.prev, keys))
		}
	case nHavoc:
		c := tTrue
		if n.ref != nil {
			c = Eq(n.ref, keys[0])
		}
		if n.condf != nil && !c.IsFalse() {
			c = And(c, n.condf(keys))
		}
		hv := havocRead(n, keys)
		if c.IsTrue() {
			r = hv
		} else if c.IsFalse() {
			r = readNode(n.prev, keys)
		} else {
			r = Ite(c, hv, readNode(n.prev, keys))
		}
	}
	n.memo[sig] = r
	return r
}

func zeroOf(w int) *Term {
	if w == 0 {
		return tFalse
	}
	return BV(w, 0)
}

func baseRead(n *Node, keys []*Term) *Term {
	ci := n.ci
	rt := rootOf(keys[0])
	if rt.IsConst() {
		if rt.K >= allocBase && rt.K < lateBase && (inInit || rt.K >= uint64(initEnd) || !isMutableComp(ci.Name)) {
			return zeroOf(ci.W)
		}
		if n.uf == "H0." && inInit {
			return zeroOf(ci.W)
		}
	}
	if strings.HasPrefix(ci.Name, "F:sync.") || strings.HasPrefix(ci.Name, "G:") {
		return zeroOf(ci.W)
	}
	reg, _ := regionOf(rt)
	if rt.IsConst() && rt.K >= allocBase && rt.K < lateBase {
		reg |= regAlloc
	}
	if ci.Kind == kSOff && reg&^(regInput|regNull) == 0 {
		return BV(64, 0)
	}
	t := App(ci.W, n.uf+ci.Name, keys...)
	if ci.Kind == kRef || ci.Kind == kSRef || ci.Kind == kIfData {
		if reg&^(regInput|regNull) == 0 {
			setRegion(t, regNull|regInput, 0)
		} else {
			bound := nextAlloc
			if rt.IsConst() && rt.K >= allocBase && rt.K < uint64(initEnd) {
				bound = initEnd
			}
			setRegion(t, regNull|regInput|regAlloc|regLate|regSub, bound)
		}
	}
	ensureFacts(n.uf, ci)
	return t
}

var havocN int

func havocRead(n *Node, keys []*Term) *Term {
	ci := n.ci
	t := App(ci.W, n.uf+ci.Name, keys...)
	if ci.Kind == kRef || ci.Kind == kSRef || ci.Kind == kIfData {
		setRegion(t, regNull|regInput|regAlloc|regLate|regSub, n.bound)
	}
	ensureFacts(n.uf, ci)
	return t
}

const maxLen = 1 << 56

// ensureFacts installs the type invariants of slices and maps for reads of an unknown heap.
func ensureFacts(uf string, ci *CompInfo) {
	name := sanitize(uf + ci.Name)
	if _, ok := factGen[name]; ok {
		return
	}
	switch ci.Kind {
	case kSLen, kSCap, kSOff, kSRef:
		stem := uf + ci.Name[:strings.LastIndex(ci.Name, "#")]
		factGen[name] = func(t *Term) []*Term {
			l := App(64, stem+"#len", t.Args...)
			c := App(64, stem+"#cap", t.Args...)
			r := App(32, stem+"#ref", t.Args...)
			fs := []*Term{Ule(l, c), Ult(c, BV(64, maxLen)), Or(Not(Eq(r, BV(32, 0))), Eq(c, BV(64, 0)))}
			fs = append(fs, regionFact(r)...)
			if ci.Kind == kSOff {
				fs = append(fs, Ult(t, BV(64, maxLen)))
			}
			return fs
		}
	case kMapLen:
		factGen[name] = func(t *Term) []*Term { return []*Term{Ult(t, BV(64, 1<<31))} }
	case kRef, kIfData:
		factGen[name] = func(t *Term) []*Term { return regionFact(t) }
	default:
		factGen[name] = nil
	}
}

// regionFact states numerically what region information says about a reference.
func regionFact(t *Term) []*Term {
	if t.W != 32 || (t.Op != OpApp && t.Op != OpVar) {
		return nil
	}
	r := t.reg
	switch r {
	case regNull | regInput:
		return []*Term{Ult(t, BV(32, allocBase))}
	case regInput:
		return []*Term{Ult(t, BV(32, allocBase)), Not(Eq(t, BV(32, 0)))}
	case regNull | regInput | regAlloc | regLate | regSub:
		return []*Term{Or(Ult(t, BV(32, uint64(t.bound))), Uge(t, BV(32, lateBase)))}
	case regLate:
		return []*Term{Uge(t, BV(32, lateBase)), Ult(t, BV(32, subBase))}
	}
	return nil
}

// Heap is a copy-on-write map from component names to nodes.
type Heap struct {
	m      map[string]*Node
	shared bool
}

func newHeap() *Heap { return &Heap{m: map[string]*Node{}} }
func (h *Heap) fork() *Heap {
	h.shared = true
	return &Heap{m: h.m, shared: true}
}
func (h *Heap) get(ci *CompInfo) *Node {
	if n, ok := h.m[ci.Name]; ok {
		return n
	}
	return baseNode(ci)
}

var baseNodes = map[string]*Node{}

func baseNode(ci *CompInfo) *Node {
	if n, ok := baseNodes[ci.Name]; ok {
		return n
	}
	n := &Node{kind: nBase, ci: ci, uf: "H0."}
	baseNodes[ci.Name] = n
	return n
}
func (h *Heap) set(ci *CompInfo, n *Node) {
	if h.shared {
		m := make(map[string]*Node, len(h.m)+4)
		for k, v := range h.m {
			m[k] = v
		}
		h.m = m
		h.shared = false
	}
	h.m[ci.Name] = n
}

func (h *Heap) read(ci *CompInfo, keys []*Term) *Term {
	t := readNode(h.get(ci), keys)
	if v, ok := knownVal[t]; ok {
		return v
	}
	return t
}

// write log for loop modification discovery and frame checks
type modEntry struct {
	ci    *CompInfo
	ref   *Term
	whole bool
}

var modLogs []*[]modEntry

func logMod(ci *CompInfo, ref *Term) {
	for _, l := range modLogs {
		*l = append(*l, modEntry{ci: ci, ref: ref})
	}
}

func (h *Heap) write(ci *CompInfo, keys []*Term, val *Term) {
	if val.W != ci.W {
		panic(fmt.Sprintf("write width %s: %d want %d", ci.Name, val.W, ci.W))
	}
	logMod(ci, keys[0])
	old := h.get(ci)
	if old.kind == nStore && ci.keysEq(old.keys, keys).IsTrue() {
		old = old.prev
	}
	h.set(ci, &Node{kind: nStore, ci: ci, prev: old, keys: keys, val: val})
}

func (h *Heap) writeCond(ci *CompInfo, ref *Term, condf, valf func(k []*Term) *Term) {
	logMod(ci, ref)
	h.set(ci, &Node{kind: nCond, ci: ci, prev: h.get(ci), ref: ref, condf: condf, valf: valf})
}

// newHavoc names the unknown contents of one havoc. All components havocked together share it, so that the
// invariants that tie the parts of a slice or map together apply to their new contents.
func newHavoc() string {
	havocN++
	n := fmt.Sprintf("hv%d.", havocN)
	noteSymbol(n)
	return n
}

func (h *Heap) havoc(name string, ci *CompInfo, ref *Term, condf func(k []*Term) *Term) {
	logMod(ci, ref)
	h.set(ci, &Node{kind: nHavoc, ci: ci, prev: h.get(ci), ref: ref, condf: condf, uf: name, bound: nextAlloc})
}

func mergeHeap(c *Term, a, b *Heap) *Heap {
	if a == b {
		return a
	}
	out := &Heap{m: make(map[string]*Node, len(a.m)+4)}
	for k, na := range a.m {
		nb, ok := b.m[k]
		if !ok {
			nb = baseNode(na.ci)
		}
		out.m[k] = mergeNode(c, na, nb)
	}
	for k, nb := range b.m {
		if _, ok := a.m[k]; !ok {
			out.m[k] = mergeNode(c, baseNode(nb.ci), nb)
		}
	}
	return out
}

func mergeNode(c *Term, a, b *Node) *Node {
	if a == b {
		return a
	}
	if c.IsTrue() {
		return a
	}
	if c.IsFalse() {
		return b
	}
	// stores to the same key on the same predecessor
	if a.kind == nStore && b.kind == nStore && a.prev == b.prev && a.ci.keysEq(a.keys, b.keys).IsTrue() {
		return &Node{kind: nStore, ci: a.ci, prev: a.prev, keys: a.keys, val: Ite(c, a.val, b.val)}
	}
	return &Node{kind: nIte, ci: a.ci, c: c, prev: a, alt: b}
}

// ---- leaves of Go types ----

type leaf struct {
	suffix string
	w      int
	kind   leafKind
}

var qual = func(p *types.Package) string { return p.Name() }

func tname(t types.Type) string {
	s := types.TypeString(t, qual)
	return s
}

// ename names element types by structure for basic kinds so that named byte types share.
func ename(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return basicName(u)
	}
	return tname(t)
}

func basicName(b *types.Basic) string {
	switch b.Kind() {
	case types.Uint8:
		return "uint8"
	case types.Int32, types.UntypedRune:
		return "int32"
	case types.UntypedInt:
		return "int"
	case types.UntypedBool:
		return "bool"
	case types.UntypedString:
		return "string"
	}
	return b.Name()
}

func bwidth(b *types.Basic) int {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune, types.Float32:
		return 32
	case types.String, types.UntypedString, types.UnsafePointer:
		return 32
	case types.UntypedNil:
		return 32
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	return b.Info()&types.IsUnsigned == 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}
