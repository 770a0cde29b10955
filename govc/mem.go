package main

import (
	"fmt"
	"go/types"
)

// location of a value: component stem + keys
type loc struct {
	stem string
	keys []*Term
}

func keyWidths(ks []*Term) []int {
	w := make([]int, len(ks))
	for i, k := range ks {
		w[i] = k.W
	}
	return w
}

// objStem is the component stem for an object of non-struct, non-array type.
func cellStem(t types.Type) string { return "C:" + ename(t) }

func structOf(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func (st *State) ptrTo(p *VPtr) *VPtr { return p }

// fieldPtr is &p.f
func fieldPtr(p *VPtr, i int) *VPtr {
	if p.Path == "?" {
		return choosePtr(p.C, fieldPtr(p.A, i), fieldPtr(p.B, i))
	}
	s := structOf(p.T)
	f := s.Field(i)
	if p.Path == "" {
		ft := f.Type()
		switch ft.Underlying().(type) {
		case *types.Struct, *types.Array:
			return &VPtr{T: ft, Ref: subRef(tname(p.T), f.Name(), p.Ref)}
		}
		return &VPtr{T: ft, Path: "F:" + tname(p.T) + "." + f.Name(), Keys: []*Term{p.Ref}}
	}
	return &VPtr{T: f.Type(), Path: p.Path + "." + f.Name(), Keys: p.Keys}
}

func subRef(tn, f string, ref *Term) *Term {
	if ref.Op == OpIte {
		return Ite(ref.Args[0], subRef(tn, f, ref.Args[1]), subRef(tn, f, ref.Args[2]))
	}
	t := App(32, "sub."+tn+"."+f, ref)
	nm := t.Name
	if _, ok := factGen[nm]; !ok {
		// interior references are injective and live in their own region
		factGen[nm] = func(t *Term) []*Term {
			return []*Term{Uge(t, BV(32, subBase)), Eq(App(32, "un"+nm, t), t.Args[0]), Eq(App(32, "subtag", t), BV(32, uint64(typeTag(nm))))}
		}
	}
	return t
}

var tagTab = map[string]int{}

func typeTag(s string) int {
	if k, ok := tagTab[s]; ok {
		return k
	}
	tagTab[s] = len(tagTab) + 1
	return tagTab[s]
}

// elemPtr is &a[i] for an array located at p.
func elemPtr(p *VPtr, i *Term) *VPtr {
	if p.Path == "?" {
		return choosePtr(p.C, elemPtr(p.A, i), elemPtr(p.B, i))
	}
	a := p.T.Underlying().(*types.Array)
	if p.Path == "" {
		return elemLoc(a.Elem(), p.Ref, i)
	}
	return &VPtr{T: a.Elem(), Path: p.Path + "[]", Keys: append(append([]*Term{}, p.Keys...), i)}
}

// elemLoc is the location of element i of backing store ref.
func elemLoc(elem types.Type, ref, i *Term) *VPtr {
	return &VPtr{T: elem, Path: "E:" + ename(elem), Keys: []*Term{ref, i}}
}

func (p *VPtr) nilTerm() *Term {
	if p.Path == "" {
		return Eq(p.Ref, BV(32, 0))
	}
	if p.Path == "?" {
		return Ite(p.C, p.A.nilTerm(), p.B.nilTerm())
	}
	return tFalse
}

// ---- load / store ----

func (st *State) leafRead(stem string, keys []*Term, w int, k leafKind) *Term {
	return st.heap.read(comp(stem, keyWidths(keys), w, k), keys)
}
func (st *State) leafWrite(stem string, keys []*Term, w int, k leafKind, v *Term) {
	st.heap.write(comp(stem, keyWidths(keys), w, k), keys, v)
}

func (st *State) load(p *VPtr) Val {
	if p.Path == "?" {
		return mergeVal(p.C, st.load(p.A), st.load(p.B), st, st)
	}
	switch u := p.T.Underlying().(type) {
	case *types.Struct:
		out := &VStruct{T: p.T, Fs: make([]Val, u.NumFields())}
		for i := range out.Fs {
			out.Fs[i] = st.load(fieldPtr(p, i))
		}
		return out
	case *types.Array:
		if u.Len() > 1024 {
			unsup("load of large array %s", p.T)
		}
		out := &VArray{T: p.T, Es: make([]Val, u.Len())}
		for i := range out.Es {
			out.Es[i] = st.load(elemPtr(p, BV(64, uint64(i))))
		}
		return out
	}
	stem, keys := p.Path, p.Keys
	if stem == "" {
		stem, keys = cellStem(p.T), []*Term{p.Ref}
	}
	return st.loadLeaf(p.T, stem, keys)
}

func (st *State) loadLeaf(t types.Type, stem string, keys []*Term) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k := kPlain
		if isString(t) {
			k = kStr
		}
		if u.Kind() == types.UnsafePointer {
			k = kRef
		}
		return st.leafRead(stem, keys, bwidth(u), k)
	case *types.Pointer:
		return &VPtr{T: u.Elem(), Ref: st.leafRead(stem, keys, 32, kRef)}
	case *types.Map, *types.Chan:
		return st.leafRead(stem, keys, 32, kRef)
	case *types.Signature:
		return st.leafRead(stem, keys, 32, kFunc)
	case *types.Interface:
		return &VIface{T: t, Typ: st.leafRead(stem+"#typ", keys, 32, kIfTyp), Data: st.leafRead(stem+"#data", keys, 32, kIfData)}
	case *types.Slice:
		return &VSlice{Elem: u.Elem(),
			Ref: st.leafRead(stem+"#ref", keys, 32, kSRef),
			Off: st.leafRead(stem+"#off", keys, 64, kSOff),
			Len: st.leafRead(stem+"#len", keys, 64, kSLen),
			Cap: st.leafRead(stem+"#cap", keys, 64, kSCap)}
	}
	unsup("load of type %s", t)
	return nil
}

func (st *State) store(p *VPtr, v Val) {
	if po, ok := v.(*VPoison); ok {
		unsup("use of merged value: %s", po.Why)
	}
	if p.Path == "?" {
		st.store(p.A, mergeVal(p.C, v, st.load(p.A), st, st))
		st.store(p.B, mergeVal(p.C, st.load(p.B), v, st, st)) // the same place as A, perhaps
		return
	}
	switch u := p.T.Underlying().(type) {
	case *types.Struct:
		sv, ok := v.(*VStruct)
		if !ok {
			unsup("store struct %T", v)
		}
		for i := 0; i < u.NumFields(); i++ {
			st.store(fieldPtr(p, i), sv.Fs[i])
		}
		return
	case *types.Array:
		av := v.(*VArray)
		for i := range av.Es {
			st.store(elemPtr(p, BV(64, uint64(i))), av.Es[i])
		}
		return
	}
	stem, keys := p.Path, p.Keys
	if stem == "" {
		stem, keys = cellStem(p.T), []*Term{p.Ref}
	}
	st.storeLeaf(p.T, stem, keys, v)
}

func (st *State) storeLeaf(t types.Type, stem string, keys []*Term, v Val) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k := kPlain
		if isString(t) {
			k = kStr
		}
		if u.Kind() == types.UnsafePointer {
			k = kRef
		}
		st.leafWrite(stem, keys, bwidth(u), k, asTerm(v))
	case *types.Pointer:
		pv := v.(*VPtr)
		if pv.Path != "" {
			unsup("storing an interior pointer to %s", pv.Path)
		}
		st.leafWrite(stem, keys, 32, kRef, pv.Ref)
	case *types.Map, *types.Chan:
		st.leafWrite(stem, keys, 32, kRef, asTerm(v))
	case *types.Signature:
		st.leafWrite(stem, keys, 32, kFunc, asTerm(v))
	case *types.Interface:
		iv := st.boxed(v.(*VIface))
		st.leafWrite(stem+"#typ", keys, 32, kIfTyp, iv.Typ)
		st.leafWrite(stem+"#data", keys, 32, kIfData, iv.Data)
	case *types.Slice:
		sv := v.(*VSlice)
		st.leafWrite(stem+"#ref", keys, 32, kSRef, sv.Ref)
		st.leafWrite(stem+"#off", keys, 64, kSOff, sv.Off)
		st.leafWrite(stem+"#len", keys, 64, kSLen, sv.Len)
		st.leafWrite(stem+"#cap", keys, 64, kSCap, sv.Cap)
	default:
		unsup("store of type %s", t)
	}
}

// boxed makes sure the data word of an interface is materialised in this state's heap.
func (st *State) boxed(iv *VIface) *VIface {
	if iv.Data != nil {
		return iv
	}
	out := &VIface{T: iv.T, Typ: iv.Typ, Static: iv.Static, ST: iv.ST}
	switch x := iv.Static.(type) {
	case *VPtr:
		if x.Path != "" {
			unsup("interior pointer in interface")
		}
		out.Data = x.Ref
	default:
		r := newRef()
		st.store(&VPtr{T: iv.ST, Path: "B:" + tname(iv.ST), Keys: []*Term{r}}, iv.Static)
		out.Data = r
	}
	return out
}

// unbox reads the payload of dynamic type t.
func (st *State) unbox(iv *VIface, t types.Type) Val {
	if iv.Static != nil && types.Identical(iv.ST, t) {
		return iv.Static
	}
	if iv.Data == nil {
		return st.zero(t)
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return &VPtr{T: pt.Elem(), Ref: iv.Data}
	}
	switch t.Underlying().(type) {
	case *types.Map, *types.Chan, *types.Signature:
		if iv.Static == nil {
			return st.load(&VPtr{T: t, Path: "B:" + tname(t), Keys: []*Term{iv.Data}})
		}
	}
	return st.load(&VPtr{T: t, Path: "B:" + tname(t), Keys: []*Term{iv.Data}})
}

func asTerm(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *VPoison:
		unsup("use of merged value: %s", x.Why)
	}
	unsup("scalar expected, got %T", v)
	return nil
}

func (st *State) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return zeroOf(bwidth(u))
	case *types.Pointer:
		return &VPtr{T: u.Elem(), Ref: BV(32, 0)}
	case *types.Map, *types.Chan, *types.Signature:
		return BV(32, 0)
	case *types.Interface:
		return &VIface{T: t, Typ: BV(32, 0), Data: BV(32, 0)}
	case *types.Slice:
		z := BV(64, 0)
		return &VSlice{Elem: u.Elem(), Ref: BV(32, 0), Off: z, Len: z, Cap: z}
	case *types.Struct:
		out := &VStruct{T: t}
		for i := 0; i < u.NumFields(); i++ {
			out.Fs = append(out.Fs, st.zero(u.Field(i).Type()))
		}
		return out
	case *types.Array:
		if u.Len() > 1024 {
			unsup("zero of large array")
		}
		out := &VArray{T: t}
		for i := int64(0); i < u.Len(); i++ {
			out.Es = append(out.Es, st.zero(u.Elem()))
		}
		return out
	case *types.Tuple:
		out := &VTuple{}
		for i := 0; i < u.Len(); i++ {
			out.Es = append(out.Es, st.zero(u.At(i).Type()))
		}
		return out
	}
	unsup("zero of %s", t)
	return nil
}

// fresh makes an unconstrained value of type t (named leaves for the model).
func (st *State) fresh(t types.Type, name string, input bool) Val {
	mkv := func(w int, suf string) *Term {
		v := NamedVar(w, name+suf)
		noteFresh(v)
		return v
	}
	region := func(v *Term) *Term {
		if input {
			setRegion(v, regNull|regInput, 0)
		} else {
			setRegion(v, regNull|regInput|regAlloc|regLate|regSub, nextAlloc)
		}
		for _, f := range regionFact(v) {
			attachFact(v, f)
		}
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return mkv(bwidth(u), "")
	case *types.Pointer:
		return &VPtr{T: u.Elem(), Ref: region(mkv(32, ""))}
	case *types.Map, *types.Chan:
		return region(mkv(32, ""))
	case *types.Signature:
		return mkv(32, "")
	case *types.Interface:
		return &VIface{T: t, Typ: mkv(32, "#typ"), Data: region(mkv(32, "#data"))}
	case *types.Slice:
		off := BV(64, 0)
		r, l, c := region(mkv(32, "#ref")), mkv(64, "#len"), mkv(64, "#cap")
		if !input {
			off = mkv(64, "#off")
			attachFact(off, Ult(off, BV(64, maxLen)))
		}
		for _, x := range []*Term{r, l, c} {
			attachFact(x, Ule(l, c))
			attachFact(x, Ult(c, BV(64, maxLen)))
			attachFact(x, Or(Not(Eq(r, BV(32, 0))), Eq(c, BV(64, 0))))
		}
		return &VSlice{Elem: u.Elem(), Ref: r, Off: off, Len: l, Cap: c}
	case *types.Struct:
		out := &VStruct{T: t}
		for i := 0; i < u.NumFields(); i++ {
			out.Fs = append(out.Fs, st.fresh(u.Field(i).Type(), name+"."+u.Field(i).Name(), input))
		}
		return out
	case *types.Array:
		out := &VArray{T: t}
		for i := int64(0); i < u.Len(); i++ {
			out.Es = append(out.Es, st.fresh(u.Elem(), fmt.Sprintf("%s[%d]", name, i), input))
		}
		return out
	case *types.Tuple:
		out := &VTuple{}
		for i := 0; i < u.Len(); i++ {
			out.Es = append(out.Es, st.fresh(u.At(i).Type(), fmt.Sprintf("%s.%d", name, i), input))
		}
		return out
	}
	unsup("fresh of %s", t)
	return nil
}

// ---- merging ----

func mergeVal(c *Term, a, b Val, sa, sb *State) Val {
	if c.IsTrue() {
		return a
	}
	if c.IsFalse() {
		return b
	}
	if a == b {
		return a
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.W != y.W {
			return &VPoison{"scalar shape"}
		}
		return Ite(c, x, y)
	case *VPtr:
		y, ok := b.(*VPtr)
		if !ok {
			return &VPoison{"pointer shape"}
		}
		return choosePtr(c, x, y)
	case *VSlice:
		y, ok := b.(*VSlice)
		if !ok {
			return &VPoison{"slice shape"}
		}
		return &VSlice{Elem: x.Elem, Ref: Ite(c, x.Ref, y.Ref), Off: Ite(c, x.Off, y.Off), Len: Ite(c, x.Len, y.Len), Cap: Ite(c, x.Cap, y.Cap)}
	case *VStruct:
		y, ok := b.(*VStruct)
		if !ok || len(x.Fs) != len(y.Fs) {
			return &VPoison{"struct shape"}
		}
		out := &VStruct{T: x.T, Fs: make([]Val, len(x.Fs))}
		for i := range x.Fs {
			out.Fs[i] = mergeVal(c, x.Fs[i], y.Fs[i], sa, sb)
		}
		return out
	case *VArray:
		y, ok := b.(*VArray)
		if !ok || len(x.Es) != len(y.Es) {
			return &VPoison{"array shape"}
		}
		out := &VArray{T: x.T, Es: make([]Val, len(x.Es))}
		for i := range x.Es {
			out.Es[i] = mergeVal(c, x.Es[i], y.Es[i], sa, sb)
		}
		return out
	case *VTuple:
		y, ok := b.(*VTuple)
		if !ok || len(x.Es) != len(y.Es) {
			return &VPoison{"tuple shape"}
		}
		out := &VTuple{Es: make([]Val, len(x.Es))}
		for i := range x.Es {
			out.Es[i] = mergeVal(c, x.Es[i], y.Es[i], sa, sb)
		}
		return out
	case *VIface:
		y, ok := b.(*VIface)
		if !ok {
			return &VPoison{"interface shape"}
		}
		if x.Static != nil && y.Static != nil && types.Identical(x.ST, y.ST) {
			if m := mergeVal(c, x.Static, y.Static, sa, sb); m != nil {
				if _, bad := m.(*VPoison); !bad {
					return &VIface{T: x.T, Typ: x.Typ, Static: m, ST: x.ST}
				}
			}
		}
		x, y = sa.boxed(x), sb.boxed(y)
		return &VIface{T: x.T, Typ: Ite(c, x.Typ, y.Typ), Data: Ite(c, x.Data, y.Data)}
	case *VIter:
		if y, ok := b.(*VIter); ok && x.Ref == y.Ref {
			return x
		}
		return &VPoison{"iterator"}
	case *VPoison:
		return x
	case nil:
		return nil
	}
	if _, ok := b.(*VPoison); ok {
		return b
	}
	return &VPoison{fmt.Sprintf("%T", a)}
}
