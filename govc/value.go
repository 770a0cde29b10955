package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- symbolic values ----

type Val interface{}

// VPtr points to an object (Path=="" : object Ref of type T) or to a location inside a component family.
type VPtr struct {
	T    types.Type // pointee
	Ref  *Term      // object reference (when Path=="")
	Path string     // component stem of the pointee
	Keys []*Term
	// Path=="?": A if C, else B
	C    *Term
	A, B *VPtr
}

// choosePtr is a if c, else b.
func choosePtr(c *Term, a, b *VPtr) *VPtr {
	if c.IsTrue() {
		return a
	}
	if c.IsFalse() {
		return b
	}
	if a.Path == "" && b.Path == "" {
		return &VPtr{T: a.T, Ref: Ite(c, a.Ref, b.Ref)}
	}
	if a.Path == b.Path && a.Path != "?" && len(a.Keys) == len(b.Keys) {
		ks := make([]*Term, len(a.Keys))
		for i := range ks {
			ks[i] = Ite(c, a.Keys[i], b.Keys[i])
		}
		return &VPtr{T: a.T, Path: a.Path, Keys: ks}
	}
	return &VPtr{T: a.T, Path: "?", C: c, A: a, B: b}
}

// VRaw points to an integer of W bits that occupies the first bytes of the array P.
type VRaw struct {
	W int
	P *VPtr
}

type VSlice struct {
	Elem               types.Type
	Ref, Off, Len, Cap *Term
}

type VStruct struct {
	T  types.Type
	Fs []Val
}

type VArray struct {
	T  types.Type
	Es []Val
}

type VIface struct {
	T      types.Type
	Typ    *Term
	Data   *Term
	Static Val        // payload when the dynamic type is statically known
	ST     types.Type // that type
}

type VTuple struct{ Es []Val }

type VIter struct {
	Map  *Term
	MT   *types.Map
	Ref  *Term // iterator ghost object
	Str  *Term // string iteration
	SIdx *VPtr
}

type VPoison struct{ Why string }

// VFuncStatic is a function value known statically (not yet interned).
type VFuncStatic struct {
	Fn    *ssa.Function
	Binds []Val
}

type Unsupported struct{ Msg string }

func (u Unsupported) Error() string { return u.Msg }

func unsup(f string, a ...interface{}) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

// ---- function ids ----

type funcEntry struct {
	fn    *ssa.Function
	binds []Val
	prim  string
	recv  Val
}

var funcTab []*funcEntry
var funcIDs = map[*ssa.Function]int{}

const funcBase = 0x1000

func funcID(fn *ssa.Function, binds []Val) *Term {
	if len(binds) == 0 {
		if id, ok := funcIDs[fn]; ok {
			return BV(32, uint64(id))
		}
	}
	funcTab = append(funcTab, &funcEntry{fn: fn, binds: binds})
	id := funcBase + len(funcTab) - 1
	if len(binds) == 0 {
		funcIDs[fn] = id
	}
	return BV(32, uint64(id))
}

func funcByID(k uint64) *funcEntry {
	i := int(k) - funcBase
	if i < 0 || i >= len(funcTab) {
		return nil
	}
	return funcTab[i]
}

// ---- type ids ----

var typeIDs = map[string]int{}
var typeByID = map[int]types.Type{}

func typeID(t types.Type) *Term {
	k := types.TypeString(t, nil)
	id, ok := typeIDs[k]
	if !ok {
		id = 1 + len(typeIDs)
		typeIDs[k] = id
		typeByID[id] = t
	}
	return BV(32, uint64(id))
}

// ---- strings ----

var strIDs = map[string]int{"": 0}
var strConsts = map[int]string{0: ""}

const strBase = 0

func strConst(s string) *Term {
	id, ok := strIDs[s]
	if !ok {
		id = len(strIDs)
		strIDs[s] = id
		strConsts[id] = s
	}
	return BV(32, uint64(id))
}

type strDef struct {
	length *Term
	at     func(i *Term) *Term
}

var strDefs = map[*Term]*strDef{}

func strBuild(length *Term, at func(i *Term) *Term) *Term {
	if length.IsConst() && length.K <= 64 {
		// all bytes constant?
		bs := make([]byte, length.K)
		ok := true
		for i := range bs {
			b := at(BV(64, uint64(i)))
			if !b.IsConst() {
				ok = false
				break
			}
			bs[i] = byte(b.K)
		}
		if ok {
			return strConst(string(bs))
		}
	}
	t := FreshVar(32, "str")
	noteFresh(t)
	strDefs[t] = &strDef{length, at}
	return t
}

func strLen(s *Term) *Term {
	if s.IsConst() {
		if c, ok := strConsts[int(s.K)]; ok {
			return BV(64, uint64(len(c)))
		}
	}
	if s.Op == OpIte {
		return Ite(s.Args[0], strLen(s.Args[1]), strLen(s.Args[2]))
	}
	if d, ok := strDefs[s]; ok {
		return d.length
	}
	if _, ok := factGen["strlen"]; !ok {
		factGen["strlen"] = func(t *Term) []*Term {
			s := t.Args[0]
			fs := []*Term{Ult(t, BV(64, 1<<31)), Iff(Eq(t, BV(64, 0)), Eq(s, BV(32, 0)))}
			return fs
		}
	}
	return App(64, "strlen", s)
}

func strAt(s, i *Term) *Term {
	if s.IsConst() {
		if c, ok := strConsts[int(s.K)]; ok {
			if i.IsConst() {
				if i.K < uint64(len(c)) {
					return BV(8, uint64(c[i.K]))
				}
				return BV(8, 0)
			}
			r := BV(8, 0)
			for k := len(c) - 1; k >= 0; k-- {
				r = Ite(Eq(i, BV(64, uint64(k))), BV(8, uint64(c[k])), r)
			}
			return r
		}
	}
	if s.Op == OpIte {
		return Ite(s.Args[0], strAt(s.Args[1], i), strAt(s.Args[2], i))
	}
	if d, ok := strDefs[s]; ok {
		return d.at(i)
	}
	return App(8, "strbyte", s, i)
}

var strEqMemo = map[[2]*Term]*Term{}

// strEq is string equality by content.
func strEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.IsConst() && b.IsConst() {
		return B(a.K == b.K)
	}
	if a.Op == OpIte {
		return Ite(a.Args[0], strEq(a.Args[1], b), strEq(a.Args[2], b))
	}
	if b.Op == OpIte {
		return Ite(b.Args[0], strEq(a, b.Args[1]), strEq(a, b.Args[2]))
	}
	if a.IsConst() || (b.ID < a.ID && !b.IsConst()) {
		a, b = b, a
	}
	key := [2]*Term{a, b}
	if r, ok := strEqMemo[key]; ok {
		return r
	}
	da, db := strDefs[a], strDefs[b]
	var r *Term
	switch {
	case b.IsConst() && da != nil:
		c := strConsts[int(b.K)]
		r = Eq(da.length, BV(64, uint64(len(c))))
		for i := range c {
			r = And(r, Eq(da.at(BV(64, uint64(i))), BV(8, uint64(c[i]))))
		}
	case b.IsConst():
		// unknown string against a constant: id equality, with its consequences attached
		r = Eq(a, b)
		c := strConsts[int(b.K)]
		f := Eq(strLen(a), BV(64, uint64(len(c))))
		for i := range c {
			f = And(f, Eq(strAt(a, BV(64, uint64(i))), BV(8, uint64(c[i]))))
		}
		attachFact(r, Iff(r, f))
	case da != nil || db != nil:
		v := BoundVar(64, "s")
		r = And(Eq(strLen(a), strLen(b)), Forall(v, Implies(Ult(v, strLen(a)), Eq(strAt(a, v), strAt(b, v)))))
	default:
		r = Eq(a, b)
	}
	strEqMemo[key] = r
	return r
}

// ---- symbol ages (for loop-invariance) ----

var symBirth = map[string]int{}
var symClock int

func noteSymbol(s string) {
	symClock++
	symBirth[s] = symClock
}
func noteFresh(t *Term) *Term {
	symClock++
	symBirth[t.Name] = symClock
	return t
}

var ageMemo = map[*Term]int{}

// age is the birth time of the youngest fresh symbol in t.
func age(t *Term) int {
	if r, ok := ageMemo[t]; ok {
		return r
	}
	r := 0
	switch t.Op {
	case OpVar:
		r = symBirth[t.Name]
	case OpApp:
		for i := 0; i < len(t.Name); i++ {
			if t.Name[i] == '.' {
				r = symBirth[t.Name[:i+1]]
				if r == 0 {
					r = symBirth[t.Name]
				}
				break
			}
		}
	}
	for _, a := range t.Args {
		if x := age(a); x > r {
			r = x
		}
	}
	ageMemo[t] = r
	return r
}
