package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type choice struct {
	c *Term
	k *Term
}

// choices lists the leaves of a choice tree with their conditions.
func choices(t *Term) []choice {
	var out []choice
	idx := map[*Term]int{}
	var walk func(t, c *Term)
	walk = func(t, c *Term) {
		if c.IsFalse() {
			return
		}
		if t.Op == OpIte {
			walk(t.Args[1], And(c, t.Args[0]))
			walk(t.Args[2], And(c, Not(t.Args[0])))
			return
		}
		if i, ok := idx[t]; ok {
			out[i].c = Or(out[i].c, c)
			return
		}
		idx[t] = len(out)
		out = append(out, choice{c, t})
	}
	walk(t, tTrue)
	return out
}

func (fr *frame) callInstr(st *State, c *ssa.CallCommon, pos token.Pos) (*State, Val) {
	return fr.prepCall2(st, c, pos)(st)
}

func (fr *frame) prepCall(st *State, c *ssa.CallCommon, pos token.Pos) func(*State) (*State, Val) {
	return fr.prepCall2(st, c, pos)
}

func (fr *frame) prepCall2(st *State, c *ssa.CallCommon, pos token.Pos) func(*State) (*State, Val) {
	e := fr.e
	var args []Val
	if b, ok := c.Value.(*ssa.Builtin); ok {
		for _, a := range c.Args {
			args = append(args, fr.eval(st, a))
		}
		return func(s *State) (*State, Val) { return fr.builtin(s, b, c, args, pos) }
	}
	if c.IsInvoke() {
		recv := fr.eval(st, c.Value).(*VIface)
		for _, a := range c.Args {
			args = append(args, fr.eval(st, a))
		}
		return func(s *State) (*State, Val) { return fr.invoke(s, recv, c, args, pos) }
	}
	for _, a := range c.Args {
		args = append(args, fr.eval(st, a))
	}
	if fn := c.StaticCallee(); fn != nil {
		var binds []Val
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				binds = append(binds, fr.eval(st, b))
			}
		}
		return func(s *State) (*State, Val) { return e.callFn(s, fn, args, binds, c, pos) }
	}
	fv := asTerm(fr.eval(st, c.Value))
	return func(s *State) (*State, Val) { return e.callValue(s, fv, args, c, pos) }
}

func (e *Engine) callValue(st *State, fv *Term, args []Val, c *ssa.CallCommon, pos token.Pos) (*State, Val) {
	cs := choices(fv)
	var out []retState
	for _, ch := range cs {
		s := st
		if len(cs) > 1 {
			s = st.fork()
			s.branch(ch.c)
			if s.dead {
				continue
			}
		}
		if !ch.k.IsConst() {
			// a value the contract states to be some function
			for _, c := range e.fnCands {
				if e.implied(s, Eq(ch.k, c)) {
					ch.k = c
					break
				}
			}
		}
		if !ch.k.IsConst() && e.implied(s, tFalse) {
			continue // this choice does not occur here
		}
		if !ch.k.IsConst() {
			unsup("call of an unknown function value %s in %s", ch.k, e.curFn())
		}
		if ch.k.K == 0 {
			e.require(s, tFalse, "safety", "call of nil function", pos)
			continue
		}
		ent := funcByID(ch.k.K)
		if ent == nil {
			unsup("bad function id")
		}
		a := args
		ns, v := e.callFn(s, ent.fn, a, ent.binds, c, pos)
		if !ns.dead {
			out = append(out, retState{ns, v})
		}
	}
	return e.joinRets(st, out, c)
}

func (e *Engine) joinRets(st *State, out []retState, c *ssa.CallCommon) (*State, Val) {
	if len(out) == 0 {
		d := &State{pc: st.pc.push(tFalse, true), env: st.env, heap: st.heap, defers: st.defers, dead: true}
		return d, e.deadVal(c.Signature())
	}
	env, defers := st.env, st.defers
	cur := out[0]
	for _, r := range out[1:] {
		cur = mergeRets(cur, r)
	}
	cur.st.env = env
	cur.st.defers = defers
	return cur.st, cur.val
}

func (fr *frame) invoke(st *State, recv *VIface, c *ssa.CallCommon, args []Val, pos token.Pos) (*State, Val) {
	e := fr.e
	name := c.Method.Name()
	if recv.ST != nil && recv.Typ.IsConst() {
		fn := e.prog.method(recv.ST, c.Method)
		if fn == nil {
			unsup("method %s of %s", name, recv.ST)
		}
		return e.callFn(st, fn, append([]Val{recv.Static}, args...), nil, c, pos)
	}
	it := tname(c.Value.Type())
	cs := choices(recv.Typ)
	var out []retState
	for _, ch := range cs {
		s := st
		if len(cs) > 1 {
			s = st.fork()
			s.branch(ch.c)
			if s.dead {
				continue
			}
		}
		if ch.k.IsConst() && ch.k.K == 0 {
			e.require(s, tFalse, "safety", "method call on nil interface", pos)
			continue
		}
		var ns *State
		var v Val
		if ch.k.IsConst() && typeByID[int(ch.k.K)] != nil {
			t := typeByID[int(ch.k.K)]
			fn := e.prog.method(t, c.Method)
			if fn == nil {
				unsup("method %s of %s", name, t)
			}
			ns, v = e.callFn(s, fn, append([]Val{s.unbox(recv, t)}, args...), nil, c, pos)
		} else {
			e.require(s, Not(Eq(ch.k, BV(32, 0))), "safety", "method call on nil interface", pos)
			ns, v = e.invokeUnknown(s, it, name, recv, c, args)
		}
		if !ns.dead {
			out = append(out, retState{ns, v})
		}
	}
	return e.joinRets(st, out, c)
}

func (e *Engine) invokeUnknown(st *State, it, name string, recv *VIface, c *ssa.CallCommon, args []Val) (*State, Val) {
	switch it + "." + name {
	case "error.Error", "net.Addr.String", "net.Addr.Network", "fmt.Stringer.String", "context.Context.Err":
		return st, e.opaque(st, c.Signature(), it+"."+name)
	case "net.Conn.LocalAddr", "net.Conn.RemoteAddr":
		if e.specDepth == 0 {
			e.assumption["a connection has addresses ("+it+"."+name+" is not nil)"] = true
		}
		r := e.opaque(st, c.Signature(), it+"."+name)
		st.assume(Not(Eq(r.(*VIface).Typ, BV(32, 0))))
		return st, r
	}
	if m := e.prog.model(strings.ReplaceAll(it, ".", "_") + "_" + name); m != nil {
		return e.call(st, m, append([]Val{recv}, args...), nil, token.NoPos)
	}
	if e.specDepth == 0 {
		e.assumption["interface method "+it+"."+name+" on an unknown implementation returns an arbitrary result and changes nothing visible"] = true
	}
	return st, e.opaque(st, c.Signature(), it+"."+name)
}

// opaque returns an arbitrary result.
func (e *Engine) opaque(st *State, sig *types.Signature, name string) Val {
	e.anyN++
	n := fmt.Sprintf("%s!%d", name, e.anyN)
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return st.fresh(sig.Results().At(0).Type(), n, false)
	}
	return st.fresh(sig.Results(), n, false)
}

func (e *Engine) callFn(st *State, fn *ssa.Function, args []Val, binds []Val, c *ssa.CallCommon, pos token.Pos) (*State, Val) {
	if s, ok := e.stubs[fn]; ok {
		ent := funcByID(s.K)
		if !(len(e.stack) > 0 && e.stack[len(e.stack)-1].fn == ent.fn) {
			return e.call(st, ent.fn, args, ent.binds, pos)
		}
	}
	if ns, v, ok := e.intrinsic(st, fn, args, c, pos); ok {
		return ns, v
	}
	return e.call(st, fn, args, binds, pos)
}

func constStrArg(v Val) string {
	t := asTerm(v)
	if !t.IsConst() {
		return "?"
	}
	return strConsts[int(t.K)]
}

func (fr *frame) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, pos token.Pos) (*State, Val) {
	e := fr.e
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *VSlice:
			return st, x.Len
		case *VPtr:
			return st, BV(64, uint64(x.T.Underlying().(*types.Array).Len()))
		case *VArray:
			return st, BV(64, uint64(len(x.Es)))
		case *Term:
			switch u := c.Args[0].Type().Underlying().(type) {
			case *types.Map:
				return st, st.mapLen(x, u)
			case *types.Chan:
				t := noteFresh(FreshVar(64, "chanlen"))
				st.assume(Ult(t, BV(64, 1<<31)))
				return st, t
			}
			return st, strLen(x)
		}
	case "cap":
		switch x := args[0].(type) {
		case *VSlice:
			return st, x.Cap
		case *VPtr:
			return st, BV(64, uint64(x.T.Underlying().(*types.Array).Len()))
		}
	case "append":
		return st, e.appendOp(st, args[0].(*VSlice), args[1])
	case "copy":
		d := args[0].(*VSlice)
		switch s := args[1].(type) {
		case *VSlice:
			n := Ite(Ult(d.Len, s.Len), d.Len, s.Len)
			e.copyRange(st, d.Elem, d.Ref, d.Off, n, s.Ref, s.Off, st.heap.fork())
			return st, n
		case *Term:
			sl := strLen(s)
			n := Ite(Ult(d.Len, sl), d.Len, sl)
			ci := comp("E:"+ename(d.Elem), []int{32, 64}, 8, kPlain)
			off := d.Off
			st.heap.writeCond(ci, d.Ref, func(k []*Term) *Term { return Ult(Sub(k[1], off), n) }, func(k []*Term) *Term { return strAt(s, Sub(k[1], off)) })
			return st, n
		}
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		e.guardedMap(st, asTerm(args[0]), mt, pos)
		e.mapDelete(st, asTerm(args[0]), mt, args[1])
		return st, nil
	case "print", "println":
		return st, nil
	case "recover":
		return st, st.zero(types.NewInterfaceType(nil, nil))
	case "close":
		return st, nil
	case "min", "max":
		r := asTerm(args[0])
		sg := isSigned(c.Args[0].Type())
		for _, a := range args[1:] {
			y := asTerm(a)
			lt := Ult(y, r)
			if sg {
				lt = Slt(y, r)
			}
			if b.Name() == "max" {
				lt = Ult(r, y)
				if sg {
					lt = Slt(r, y)
				}
			}
			r = Ite(lt, y, r)
		}
		return st, r
	case "ssa:wrapnilchk":
		p := args[0].(*VPtr)
		e.require(st, Not(p.nilTerm()), "safety", "nil dereference", pos)
		return st, p
	}
	unsup("builtin %s", b.Name())
	return st, nil
}

// elemLeaves lists the heap components of a slice element type.
func elemLeaves(t types.Type) []*CompInfo {
	var out []*CompInfo
	var walk func(t types.Type, stem string)
	kw := []int{32, 64}
	walk = func(t types.Type, stem string) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type(), stem+"."+u.Field(i).Name())
			}
		case *types.Slice:
			out = append(out, comp(stem+"#ref", kw, 32, kSRef), comp(stem+"#off", kw, 64, kSOff), comp(stem+"#len", kw, 64, kSLen), comp(stem+"#cap", kw, 64, kSCap))
		case *types.Interface:
			out = append(out, comp(stem+"#typ", kw, 32, kIfTyp), comp(stem+"#data", kw, 32, kIfData))
		case *types.Basic:
			k := kPlain
			if isString(t) {
				k = kStr
			}
			if u.Kind() == types.UnsafePointer {
				k = kRef
			}
			out = append(out, comp(stem, kw, bwidth(u), k))
		case *types.Pointer, *types.Map, *types.Chan:
			out = append(out, comp(stem, kw, 32, kRef))
		case *types.Signature:
			out = append(out, comp(stem, kw, 32, kFunc))
		default:
			unsup("slice elements of type %s", t)
		}
	}
	walk(t, "E:"+ename(t))
	return out
}

// copyRange copies n elements from the source as it was in src.
func (e *Engine) copyRange(st *State, elem types.Type, dref, doff, n, sref, soff *Term, src *Heap) {
	if n.IsConst() && n.K == 0 {
		return
	}
	for _, ci := range elemLeaves(elem) {
		node := src.get(ci)
		if n.IsConst() && n.K <= 16 {
			vals := make([]*Term, n.K)
			for i := range vals {
				vals[i] = readNode(node, []*Term{sref, Add(soff, BV(64, uint64(i)))})
			}
			for i, v := range vals {
				st.heap.write(ci, []*Term{dref, Add(doff, BV(64, uint64(i)))}, v)
			}
			continue
		}
		st.heap.writeCond(ci, dref, func(k []*Term) *Term { return Ult(Sub(k[1], doff), n) },
			func(k []*Term) *Term { return readNode(node, []*Term{sref, Add(Sub(k[1], doff), soff)}) })
	}
}

func (e *Engine) appendOp(st *State, s *VSlice, more Val) Val {
	e.assumption["append copies to a fresh backing array (no aliasing through spare capacity)"] = true
	switch m := more.(type) {
	case *VSlice:
		if m.Len.IsConst() && m.Len.K == 0 {
			return s
		}
		src := st.heap.fork()
		r := newRef()
		n := Add(s.Len, m.Len)
		e.copyRange(st, s.Elem, r, BV(64, 0), s.Len, s.Ref, s.Off, src)
		e.copyRange(st, s.Elem, r, s.Len, m.Len, m.Ref, m.Off, src)
		e.assumption["allocation sizes stay below 2^56 elements"] = true
		st.assume(Ult(n, BV(64, maxLen)))
		// append(nil) keeps nil
		ref := Ite(Eq(n, BV(64, 0)), s.Ref, r)
		return &VSlice{Elem: s.Elem, Ref: ref, Off: Ite(Eq(n, BV(64, 0)), s.Off, BV(64, 0)), Len: n, Cap: n}
	case *Term:
		b := strToBytes(st, m, s.Elem)
		return e.appendOp(st, s, b)
	}
	unsup("append %T", more)
	return nil
}

// ---- intrinsics: specification vocabulary and external functions ----

func (e *Engine) intrinsic(st *State, fn *ssa.Function, args []Val, c *ssa.CallCommon, pos token.Pos) (*State, Val, bool) {
	name := fn.Name()
	orig := fn
	if fn.Origin() != nil {
		orig = fn.Origin()
		name = orig.Name()
	}
	if e.prog.isSpec(orig) && fn.Signature.Recv() == nil && strings.HasPrefix(name, "v") {
		if v, ns, ok := e.specIntrinsic(st, name, fn, args, pos); ok {
			return ns, v, true
		}
	}
	full := ""
	if fn.Pkg != nil {
		full = fn.Pkg.Pkg.Path()
	} else if orig.Pkg != nil {
		full = orig.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		full = fn.Object().Pkg().Path()
	}
	if full == "" {
		return nil, nil, false
	}
	rn := ""
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if nt, ok := t.(*types.Named); ok {
			rn = nt.Obj().Name() + "."
		}
	}
	if e.prog.isRepo(full) {
		if rn == "ISCSICommand." && name == "String" {
			return st, e.opaque(st, fn.Signature, "String"), true
		}
		if strings.HasPrefix(name, "init") && fn.Signature.Recv() == nil && fn.Synthetic == "" {
			return nil, nil, false
		}
		return nil, nil, false
	}
	v, ok := e.external(st, full, rn+name, fn, args, pos)
	if ok {
		return st, v, true
	}
	return nil, nil, false
}

func (e *Engine) lockCell(p *VPtr) (*CompInfo, []*Term) {
	ref := p.Ref
	if p.Path != "" {
		unsup("lock inside a slice element")
	}
	return comp("G:lock", []int{32}, 8, kPlain), []*Term{ref}
}

func (e *Engine) lockOp(st *State, p *VPtr, op string, pos token.Pos) {
	ci, k := e.lockCell(p)
	cur := st.heap.read(ci, k)
	switch op {
	case "Lock":
		e.require(st, Eq(cur, BV(8, 0)), "lock", "lock taken while already held", pos)
		st.heap.write(ci, k, BV(8, 255))
	case "Unlock":
		e.require(st, Eq(cur, BV(8, 255)), "lock", "unlock of a lock not held", pos)
		st.heap.write(ci, k, BV(8, 0))
	case "RLock":
		e.require(st, Not(Eq(cur, BV(8, 255))), "lock", "read lock taken while write lock held", pos)
		st.heap.write(ci, k, Add(cur, BV(8, 1)))
	case "RUnlock":
		e.require(st, And(Not(Eq(cur, BV(8, 0))), Not(Eq(cur, BV(8, 255)))), "lock", "read unlock of a lock not read-held", pos)
		st.heap.write(ci, k, Sub(cur, BV(8, 1)))
	}
}

func (e *Engine) newError(st *State) Val {
	t := e.prog.errType()
	return &VIface{T: types.Universe.Lookup("error").Type(), Typ: typeID(types.NewPointer(t)), Static: &VPtr{T: t, Ref: newRef()}, ST: types.NewPointer(t)}
}

func (e *Engine) external(st *State, pkg, name string, fn *ssa.Function, args []Val, pos token.Pos) (Val, bool) {
	if m := e.prog.model(strings.NewReplacer("/", "_", ".", "_", "-", "_").Replace(pkg + "." + name)); m != nil {
		if len(e.stack) == 0 || e.stack[len(e.stack)-1].fn != m {
			ns, v := e.call(st, m, args, nil, pos)
			*st = *ns
			return v, true
		}
	}
	op := func() (Val, bool) { return e.opaque(st, fn.Signature, pkg+"."+name), true }
	switch pkg {
	case "github.com/sirupsen/logrus":
		if strings.HasPrefix(name, "Fatal") || strings.HasPrefix(name, "Panic") {
			e.require(st, tFalse, "safety", "fatal log call reachable", pos)
		}
		return op()
	case "sync":
		switch name {
		case "Mutex.Lock", "RWMutex.Lock":
			e.lockOp(st, args[0].(*VPtr), "Lock", pos)
			return nil, true
		case "Mutex.Unlock", "RWMutex.Unlock":
			e.lockOp(st, args[0].(*VPtr), "Unlock", pos)
			return nil, true
		case "RWMutex.RLock":
			e.lockOp(st, args[0].(*VPtr), "RLock", pos)
			return nil, true
		case "RWMutex.RUnlock":
			e.lockOp(st, args[0].(*VPtr), "RUnlock", pos)
			return nil, true
		}
		return op()
	case "sync/atomic":
		return nil, false
	case "errors":
		if name == "New" {
			return e.newError(st), true
		}
		return op()
	case "fmt":
		switch name {
		case "Errorf":
			return e.newError(st), true
		}
		if strings.HasPrefix(name, "Sprint") {
			return e.sprintf(st, name, args, fn), true
		}
		return op()
	case "time":
		if len(args) == 0 || name == "Since" || name == "Sleep" || strings.HasPrefix(name, "Time.") {
			return op()
		}
		return op()
	case "os", "io/ioutil", "path/filepath", "path", "runtime", "runtime/debug", "net", "syscall", "os/user", "golang.org/x/sys/unix":
		e.assumption["external call "+pkg+"."+name+" returns an arbitrary result"] = true
		return op()
	case "io":
		switch name {
		case "ReadFull", "Copy", "ReadAtLeast", "WriteString":
			return nil, false
		}
	case "strconv":
		switch name {
		case "Itoa", "FormatInt", "FormatUint", "Atoi", "ParseInt", "ParseUint", "ParseBool", "Quote":
			return e.strconvFn(st, name, args, fn), true
		}
		return op()
	case "strings":
		switch name {
		case "HasPrefix":
			s, p := asTerm(args[0]), asTerm(args[1])
			if p.IsConst() {
				c := strConsts[int(p.K)]
				r := Uge(strLen(s), BV(64, uint64(len(c))))
				for i := range c {
					r = And(r, Eq(strAt(s, BV(64, uint64(i))), BV(8, uint64(c[i]))))
				}
				return r, true
			}
		case "EqualFold", "Contains", "HasSuffix", "Index":
			ks := []*Term{asTerm(args[0]), asTerm(args[1])}
			w := 0
			if name == "Index" {
				w = 64
			}
			e.assumption["strings."+name+" is an uninterpreted function"] = true
			return App(w, "strings."+name, ks...), true
		case "ToLower", "ToUpper", "TrimSpace":
			s := asTerm(args[0])
			if s.IsConst() {
				c := strConsts[int(s.K)]
				switch name {
				case "ToLower":
					return strConst(strings.ToLower(c)), true
				case "ToUpper":
					return strConst(strings.ToUpper(c)), true
				}
				return strConst(strings.TrimSpace(c)), true
			}
			e.assumption["strings."+name+" is an uninterpreted function"] = true
			return App(32, "strings."+name, s), true
		case "Builder.WriteString", "Builder.WriteByte":
			return nil, false
		}
		return e.stringsFn(st, name, args, fn)
	case "bytes":
		return e.bytesFn(st, name, args, fn, pos)
	case "encoding/binary":
		return e.binaryFn(st, name, args, fn, pos)
	case "github.com/satori/go.uuid":
		switch name {
		case "Equal":
			a, b := args[0].(*VArray), args[1].(*VArray)
			return e.eqVal(st, a, b, a.T), true
		}
		e.assumption["external call uuid."+name+" returns an arbitrary result"] = true
		return op()
	case "math", "math/bits", "sort", "container/heap", "unicode/utf8", "slices", "internal/bytealg", "internal/byteorder", "maps", "cmp", "iter":
		return nil, false
	case "context", "net/http", "math/rand", "crypto/rand", "reflect", "encoding/json", "github.com/ceph/go-ceph/rados", "github.com/ceph/go-ceph/rbd":
		e.assumption["external call "+pkg+"."+name+" returns an arbitrary result"] = true
		return op()
	}
	return nil, false
}

func (e *Engine) sprintf(st *State, name string, args []Val, fn *ssa.Function) Val {
	// a deterministic function of constant format and scalar arguments when they are all visible
	e.assumption["fmt formatting is an uninterpreted function of its arguments"] = true
	if name == "Sprintf" {
		f := asTerm(args[0])
		va := args[1].(*VSlice)
		if f.IsConst() && va.Len.IsConst() && va.Len.K <= 4 {
			format := strConsts[int(f.K)]
			var ks []*Term
			var kinds []types.Type
			ok := true
			for i := uint64(0); i < va.Len.K && ok; i++ {
				iv := st.load(elemLoc(va.Elem, va.Ref, BV(64, i))).(*VIface)
				t := typeByID[int(iv.Typ.K)]
				if !iv.Typ.IsConst() || t == nil {
					ok = false
					break
				}
				v := st.unbox(iv, t)
				tv, isT := v.(*Term)
				if !isT {
					ok = false
					break
				}
				ks = append(ks, tv)
				kinds = append(kinds, t)
			}
			if ok {
				// %s concatenation is exact
				if r := exactSprintf(format, ks, kinds); r != nil {
					return r
				}
				return App(32, "sprintf."+format, ks...)
			}
		}
	}
	return e.opaque(st, fn.Signature, "sprintf")
}

func exactSprintf(format string, ks []*Term, kinds []types.Type) *Term {
	r := strConst("")
	k := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			r = strConcat(r, strConst(string(format[i])))
			continue
		}
		if i+1 >= len(format) {
			return nil
		}
		i++
		switch format[i] {
		case '%':
			r = strConcat(r, strConst("%"))
		case 's', 'v':
			if k >= len(ks) || !isString(kinds[k]) {
				if k < len(ks) && format[i] == 'v' && isInt(kinds[k]) {
					r = strConcat(r, itoa(ks[k], kinds[k]))
					k++
					continue
				}
				return nil
			}
			r = strConcat(r, ks[k])
			k++
		case 'd':
			if k >= len(ks) || !isInt(kinds[k]) {
				return nil
			}
			r = strConcat(r, itoa(ks[k], kinds[k]))
			k++
		default:
			return nil
		}
	}
	if k != len(ks) {
		return nil
	}
	return r
}

func itoa(x *Term, t types.Type) *Term {
	if x.W < 64 {
		if isSigned(t) {
			x = Sext(x, 64)
		} else {
			x = Zext(x, 64)
		}
	}
	if x.IsConst() {
		return strConst(fmt.Sprint(int64(x.K)))
	}
	r := App(32, "itoa", x)
	if _, ok := factGen["itoa"]; !ok {
		factGen["itoa"] = func(t *Term) []*Term {
			return []*Term{Eq(App(64, "atoi", t), t.Args[0]), App(0, "atoiok", t), Not(Eq(t, BV(32, 0)))}
		}
	}
	return r
}

func (e *Engine) strconvFn(st *State, name string, args []Val, fn *ssa.Function) Val {
	e.assumption["strconv.Atoi/Itoa are uninterpreted inverse functions"] = true
	switch name {
	case "Itoa":
		return itoa(asTerm(args[0]), types.Typ[types.Int])
	case "FormatInt", "FormatUint":
		if asTerm(args[1]).IsConst() && asTerm(args[1]).K == 10 {
			return itoa(asTerm(args[0]), types.Typ[types.Int])
		}
		return e.opaque(st, fn.Signature, name)
	case "Atoi":
		s := asTerm(args[0])
		val, ok := atoi(s)
		er := e.newError(st).(*VIface)
		nilE := &VIface{T: er.T, Typ: BV(32, 0), Data: BV(32, 0)}
		return &VTuple{[]Val{val, mergeVal(ok, nilE, er, st, st)}}
	case "ParseInt", "ParseUint":
		s := asTerm(args[0])
		n := fmt.Sprintf("%s.%s.%s", name, asTerm(args[1]), asTerm(args[2]))
		er := e.newError(st).(*VIface)
		nilE := &VIface{T: er.T, Typ: BV(32, 0), Data: BV(32, 0)}
		v := App(64, n, s)
		if bs := asTerm(args[2]); bs.IsConst() && bs.K > 0 && bs.K < 64 && name == "ParseUint" {
			k := bs.K
			factGen[sanitize(n)] = func(t *Term) []*Term { return []*Term{Ult(t, BV(64, 1<<k))} }
		}
		return &VTuple{[]Val{v, mergeVal(App(0, n+"ok", s), nilE, er, st, st)}}
	}
	return e.opaque(st, fn.Signature, name)
}

func atoi(s *Term) (*Term, *Term) {
	if s.Op == OpIte {
		a, oa := atoi(s.Args[1])
		b, ob := atoi(s.Args[2])
		return Ite(s.Args[0], a, b), Ite(s.Args[0], oa, ob)
	}
	if s.IsConst() {
		var n int64
		c := strConsts[int(s.K)]
		if _, err := fmt.Sscanf(c, "%d", &n); err == nil && fmt.Sprint(n) == strings.TrimPrefix(c, "+") {
			return BV(64, uint64(n)), tTrue
		}
		if c == "" {
			return BV(64, 0), tFalse
		}
	}
	if s.Op == OpApp && s.Name == "itoa" {
		return s.Args[0], tTrue
	}
	ok := App(0, "atoiok", s)
	return Ite(ok, App(64, "atoi", s), BV(64, 0)), ok
}

func (e *Engine) stringsFn(st *State, name string, args []Val, fn *ssa.Function) (Val, bool) {
	e.assumption["external call strings."+name+" returns an arbitrary result"] = true
	return e.opaque(st, fn.Signature, "strings."+name), true
}

var byteT = types.Typ[types.Uint8]

func (e *Engine) bufField(st *State, p *VPtr) *VPtr {
	return &VPtr{T: types.NewSlice(byteT), Path: "F:bytes.Buffer.buf", Keys: []*Term{p.Ref}}
}

func (e *Engine) bytesFn(st *State, name string, args []Val, fn *ssa.Function, pos token.Pos) (Val, bool) {
	nilErr := &VIface{T: types.Universe.Lookup("error").Type(), Typ: BV(32, 0), Data: BV(32, 0)}
	switch name {
	case "NewBuffer":
		t := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		p := &VPtr{T: t, Ref: newRef()}
		st.store(e.bufField(st, p), args[0])
		return p, true
	case "NewBufferString":
		t := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		p := &VPtr{T: t, Ref: newRef()}
		st.store(e.bufField(st, p), strToBytes(st, asTerm(args[0]), byteT))
		return p, true
	case "Buffer.Write", "Buffer.WriteString":
		p := args[0].(*VPtr)
		b := st.load(e.bufField(st, p)).(*VSlice)
		var n *Term
		switch x := args[1].(type) {
		case *VSlice:
			n = x.Len
		case *Term:
			n = strLen(x)
		}
		st.store(e.bufField(st, p), e.appendOp(st, b, args[1]))
		return &VTuple{[]Val{n, nilErr}}, true
	case "Buffer.WriteByte":
		p := args[0].(*VPtr)
		b := st.load(e.bufField(st, p)).(*VSlice)
		r := newRef()
		st.leafWrite("E:uint8", []*Term{r, BV(64, 0)}, 8, kPlain, asTerm(args[1]))
		one := BV(64, 1)
		st.store(e.bufField(st, p), e.appendOp(st, b, &VSlice{Elem: byteT, Ref: r, Off: BV(64, 0), Len: one, Cap: one}))
		return nilErr, true
	case "Buffer.Bytes":
		return st.load(e.bufField(st, args[0].(*VPtr))), true
	case "Buffer.Len":
		return st.load(e.bufField(st, args[0].(*VPtr))).(*VSlice).Len, true
	case "Buffer.String":
		return bytesToStr(st, st.load(e.bufField(st, args[0].(*VPtr))).(*VSlice)), true
	case "Buffer.Reset":
		st.store(e.bufField(st, args[0].(*VPtr)), st.zero(types.NewSlice(byteT)))
		return nil, true
	case "Equal", "Compare":
		a, b := args[0].(*VSlice), args[1].(*VSlice)
		eq := bytesEq(st.heap.get(comp("E:uint8", []int{32, 64}, 8, kPlain)), a, b)
		if name == "Equal" {
			return eq, true
		}
		r := noteFresh(FreshVar(64, "cmp"))
		st.assume(Iff(eq, Eq(r, BV(64, 0))))
		st.assume(And(Sle(BV(64, ^uint64(0)), r), Sle(r, BV(64, 1))))
		return r, true
	}
	if strings.HasPrefix(name, "Buffer.") {
		unsup("bytes.%s", name)
	}
	return nil, false
}

// bytesEq is content equality of two byte slices.
func bytesEq(node *Node, a, b *VSlice) *Term {
	for k := 0; k < 2; k++ {
		if a.Len.IsConst() && a.Len.K <= 32 {
			r := Eq(a.Len, b.Len)
			for i := uint64(0); i < a.Len.K; i++ {
				r = And(r, Eq(readNode(node, []*Term{a.Ref, Add(a.Off, BV(64, i))}), readNode(node, []*Term{b.Ref, Add(b.Off, BV(64, i))})))
			}
			return r
		}
		a, b = b, a
	}
	v := BoundVar(64, "b")
	body := Implies(Ult(v, a.Len), Eq(readNode(node, []*Term{a.Ref, Add(a.Off, v)}), readNode(node, []*Term{b.Ref, Add(b.Off, v)})))
	return And(Eq(a.Len, b.Len), Forall(v, body))
}

func (e *Engine) binaryFn(st *State, name string, args []Val, fn *ssa.Function, pos token.Pos) (Val, bool) {
	nilErr := &VIface{T: types.Universe.Lookup("error").Type(), Typ: BV(32, 0), Data: BV(32, 0)}
	if name == "Write" {
		w := args[0].(*VIface)
		ord := args[1].(*VIface)
		d := args[2].(*VIface)
		if w.ST == nil || tname(w.ST) != "*bytes.Buffer" || d.ST == nil || ord.ST == nil {
			unsup("binary.Write")
		}
		little := strings.Contains(tname(ord.ST), "little")
		p := w.Static.(*VPtr)
		var bs []*Term
		var enc func(v Val, t types.Type)
		enc = func(v Val, t types.Type) {
			switch x := v.(type) {
			case *Term:
				n := x.W / 8
				if x.W == 0 {
					bs = append(bs, Ite(x, BV(8, 1), BV(8, 0)))
					return
				}
				for i := 0; i < n; i++ {
					j := n - 1 - i
					if little {
						j = i
					}
					bs = append(bs, Extract(x, 8*j+7, 8*j))
				}
			case *VStruct:
				s := structOf(x.T)
				for i, f := range x.Fs {
					enc(f, s.Field(i).Type())
				}
			case *VArray:
				for _, f := range x.Es {
					enc(f, x.T.Underlying().(*types.Array).Elem())
				}
			case *VPtr:
				enc(st.load(x), x.T)
			default:
				unsup("binary.Write of %T", v)
			}
		}
		if sv, ok := d.Static.(*VSlice); ok && bwidth2(sv.Elem) == 8 {
			b := st.load(e.bufField(st, p)).(*VSlice)
			st.store(e.bufField(st, p), e.appendOp(st, b, sv))
			return nilErr, true
		}
		enc(d.Static, d.ST)
		r := newRef()
		for i, x := range bs {
			st.leafWrite("E:uint8", []*Term{r, BV(64, uint64(i))}, 8, kPlain, x)
		}
		n := BV(64, uint64(len(bs)))
		b := st.load(e.bufField(st, p)).(*VSlice)
		st.store(e.bufField(st, p), e.appendOp(st, b, &VSlice{Elem: byteT, Ref: r, Off: BV(64, 0), Len: n, Cap: n}))
		return nilErr, true
	}
	if name == "Read" || name == "Size" {
		unsup("binary.%s", name)
	}
	return nil, false
}

// ---- specification vocabulary ----

func (e *Engine) specIntrinsic(st *State, name string, fn *ssa.Function, args []Val, pos token.Pos) (Val, *State, bool) {
	switch name {
	case "vRequires", "vAssume":
		t := asTerm(args[len(args)-1])
		if name == "vAssume" {
			e.assumption["assumed without proof at "+e.pos(pos)] = true
		}
		before := st.pc
		st.assume(t)
		for p := st.pc; p != before; p = p.prev {
			p.req = true
		}
		if debugLearn {
			fmt.Fprintln(os.Stderr, "requires", e.topLevel(), t.str(5))
		}
		if e.topLevel() && !t.IsConst() {
			learn(t)
		}
		return nil, st, true
	case "vEnsures", "vAssert":
		if e.suppress == 0 {
			e.addOblP(st, asTerm(args[1]), "ensures", constStrArg(args[0]), pos)
		}
		if name == "vAssert" { // a step of the argument: proved, then used
			st.assume(asTerm(args[1]))
		}
		return nil, st, true
	case "vWitness":
		// an index for which the predicate holds: that there is one is an obligation
		lo, hi := asTerm(args[1]), asTerm(args[2])
		v := BoundVar(64, "i")
		body := e.evalSpecUnder(st, asTerm(args[3]), []Val{v})
		if e.suppress == 0 {
			e.addOblP(st, Not(Forall(v, Not(And(Sle(lo, v), Slt(v, hi), body)))), "ensures", constStrArg(args[0]), pos)
		}
		w := FreshVar(64, "witness")
		st.assume(And(Sle(lo, w), Slt(w, hi), e.evalSpec(st, asTerm(args[3]), []Val{w})))
		return w, st, true
	case "vGiven":
		// what the contract named, which is verified under the same property, establishes
		c := constStrArg(args[0])
		if e.prog.contracts()["contract_"+c] == nil || !strings.HasPrefix(c, e.prop+"_") {
			unsup("vGiven refers to %s, which is no contract of this property", c)
		}
		e.assumption["at "+e.pos(pos)+": what contract "+c+" (verified in the same run) establishes"] = true
		st.assume(asTerm(args[1]))
		return nil, st, true
	case "vDefinition":
		// an instance of the recursive definition of ghost functions
		c := asTerm(args[0])
		if e.defs == nil {
			st.assume(c)
			return nil, st, true
		}
		e.assumption["at "+e.pos(pos)+": the recursive definition of the ghost functions"] = true
		for _, t := range st.pc.terms() {
			if !e.defBase[t] {
				c = Implies(t, c)
			}
		}
		*e.defs = append(*e.defs, c)
		return nil, st, true
	case "vForall":
		lo, hi := asTerm(args[0]), asTerm(args[1])
		v := BoundVar(64, "i")
		rng := And(Sle(lo, v), Slt(v, hi))
		if nonneg(lo) && lo.IsConst() && lo.K == 0 {
			rng = And(Ult(v, hi), Slt(BV(64, 0), hi))
			if nonneg(hi) {
				rng = Ult(v, hi)
			}
		}
		if lo.IsConst() && hi.IsConst() && hi.K-lo.K <= 64 && sx(64, hi.K) >= sx(64, lo.K) {
			r := tTrue
			for i := lo.K; i < hi.K; i++ {
				r = And(r, e.evalSpec(st, asTerm(args[2]), []Val{BV(64, i)}))
			}
			return r, st, true
		}
		body := e.evalSpecUnder(st, asTerm(args[2]), []Val{v})
		return Forall(v, Implies(rng, body)), st, true
	case "vExists":
		lo, hi := asTerm(args[0]), asTerm(args[1])
		v := BoundVar(64, "i")
		body := e.evalSpecUnder(st, asTerm(args[2]), []Val{v})
		return Not(Forall(v, Not(And(Sle(lo, v), Slt(v, hi), body)))), st, true
	case "vAll":
		sig := fn.Signature.Params().At(0).Type().Underlying().(*types.Signature)
		kv, bvs := boundVal(st, sig.Params().At(0).Type())
		body := e.evalSpecUnder(st, asTerm(args[0]), []Val{kv})
		for i := len(bvs) - 1; i >= 0; i-- {
			body = Forall(bvs[i], body)
		}
		return body, st, true
	case "vAny":
		e.anyN++
		n := fmt.Sprintf("any!%s!%d", constStrArg(args[0]), e.anyN)
		return st.fresh(fn.Signature.Results().At(0).Type(), n, false), st, true
	case "vSnap":
		s := args[0].(*VSlice)
		r := newRef()
		e.copyRange(st, s.Elem, r, BV(64, 0), s.Len, s.Ref, s.Off, st.heap.fork())
		return &VSlice{Elem: s.Elem, Ref: Ite(Eq(s.Ref, BV(32, 0)), s.Ref, r), Off: BV(64, 0), Len: s.Len, Cap: s.Len}, st, true
	case "vSplit":
		if !e.topLevel() {
			unsup("vSplit is only for the top level of a contract")
		}
		cs := e.boolArgs(st, args[0])
		if e.scriptPos == len(e.script) {
			e.script = append(append([]int{}, e.script...), 0)
		}
		k := e.script[e.scriptPos]
		e.scriptPos++
		e.arity = append(e.arity, len(cs))
		var cond []*Term
		for i, c := range cs {
			if i < k {
				cond = append(cond, Not(c))
			} else if i == k {
				cond = append(cond, c)
			}
		}
		t := And(cond...)
		before := st.pc
		st.assume(t)
		for p := st.pc; p != before; p = p.prev {
			p.req = true
		}
		if !t.IsConst() {
			learn(t)
		}
		return nil, st, true
	case "vInvariant":
		iv := args[1].(*VIface)
		e.invs = append(e.invs, invTemplate{constStrArg(args[0]), asTerm(iv.Static), iv.ST.Underlying().(*types.Signature)})
		return nil, st, true
	case "vUnroll":
		e.unrollMax = int(asTerm(args[0]).K)
		return nil, st, true
	case "vStub":
		r, s := args[0].(*VIface), args[1].(*VIface)
		ent := funcByID(asTerm(r.Static).K)
		target := ent.fn
		if target.Synthetic != "" && strings.Contains(target.Synthetic, "thunk") || strings.Contains(target.Synthetic, "bound") {
			target = e.thunkTarget(target)
		}
		e.stubs[target] = asTerm(s.Static)
		e.assumption["calls of "+fnName(target)+" are replaced by its specification "+funcByID(asTerm(s.Static).K).fn.Name()] = true
		return nil, st, true
	case "vPartial":
		e.safety = false
		return nil, st, true
	case "vGuarded":
		g := guard{label: constStrArg(args[0])}
		w, l := args[1].(*VIface), args[2].(*VIface)
		switch u := w.ST.Underlying().(type) {
		case *types.Map:
			g.m, g.mt = asTerm(w.Static), u
		case *types.Pointer:
			g.p = w.Static.(*VPtr)
		default:
			unsup("vGuarded of %s", w.ST)
		}
		g.lock = l.Static.(*VPtr)
		e.guards = append(e.guards, g)
		return nil, st, true
	case "vTrackLocks":
		e.lockCheck = true
		return nil, st, true
	case "vSameFunc":
		a, b := asTerm(args[0].(*VIface).Static), asTerm(args[1].(*VIface).Static)
		for _, t := range []*Term{a, b} {
			if t.IsConst() && funcByID(t.K) != nil && !e.isCand[t] {
				e.isCand[t] = true
				e.fnCands = append(e.fnCands, t)
			}
		}
		return Eq(a, b), st, true
	case "vSep":
		return Not(Eq(refOf(args[0]), refOf(args[1]))), st, true
	case "vSameRef":
		return Eq(refOf(args[0]), refOf(args[1])), st, true
	case "vSameBacking":
		return Eq(refOf(args[0]), refOf(args[1])), st, true
	case "vOff":
		return args[0].(*VSlice).Off, st, true
	case "vHeld":
		ci, k := e.lockCell(args[0].(*VIface).Static.(*VPtr))
		return Eq(st.heap.read(ci, k), BV(8, 255)), st, true
	case "vRHeld":
		ci, k := e.lockCell(args[0].(*VIface).Static.(*VPtr))
		return Not(Eq(st.heap.read(ci, k), BV(8, 0))), st, true
	case "vNoLocksHeld":
		v := BoundVar(32, "l")
		return Forall(v, Eq(st.heap.read(comp("G:lock", []int{32}, 8, kPlain), []*Term{v}), BV(8, 0))), st, true
	case "vStarted":
		return st.heap.read(comp("G:started", []int{32}, 64, kPlain), []*Term{BV(32, 1)}), st, true
	case "vVisited":
		// vVisited(m, k)
		mi := args[0].(*VIface)
		m := asTerm(mi.Static)
		ki := args[1].(*VIface)
		kk := flatKey(st, ki.Static)
		r := tFalse
		for _, it := range e.iters {
			if types.Identical(it.MT, mi.ST.Underlying()) {
				r = Ite(Eq(it.Map, m), st.heap.read(visComp(it.MT, keyWidths(kk)), append([]*Term{it.Ref}, kk...)), r)
			}
		}
		return r, st, true
	case "vVisitedCount":
		mi := args[0].(*VIface)
		m := asTerm(mi.Static)
		r := BV(64, 0)
		for _, it := range e.iters {
			if types.Identical(it.MT, mi.ST.Underlying()) {
				r = Ite(Eq(it.Map, m), st.heap.read(cntComp(), []*Term{it.Ref}), r)
			}
		}
		return r, st, true
	case "vIsNew":
		r := refOf(args[0])
		reg, _ := regionOf(r)
		return B(reg&^(regAlloc|regLate) == 0), st, true
	case "vOpaque":
		return args[0], st, true
	case "vMustBe":
		return nil, st, true
	case "vTrue":
		return tTrue, st, true
	case "vConcrete":
		return tFalse, st, true
	case "vImplies":
		return Implies(asTerm(args[0]), asTerm(args[1])), st, true
	case "vBytesEq":
		node := st.heap.get(comp("E:uint8", []int{32, 64}, 8, kPlain))
		return bytesEq(node, args[0].(*VSlice), args[1].(*VSlice)), st, true
	}
	return nil, nil, false
}

var debugLearn = os.Getenv("GOVC_LEARN") != ""

// topLevel: the contract itself executes a block that is on all its paths.
func (e *Engine) topLevel() bool {
	if e.suppress > 0 || len(e.stack) != 1 {
		return false
	}
	fr := e.stack[0]
	if fr.cur == nil {
		return false
	}
	for _, b := range fr.fn.Blocks {
		if n := len(b.Instrs); n > 0 {
			if _, ok := b.Instrs[n-1].(*ssa.Return); ok && !fr.cur.Dominates(b) {
				return false
			}
		}
	}
	return true
}

func (e *Engine) boolArgs(st *State, v Val) (out []*Term) {
	s := v.(*VSlice)
	for i := uint64(0); i < s.Len.K; i++ {
		out = append(out, asTerm(st.load(elemLoc(s.Elem, s.Ref, BV(64, i)))))
	}
	return
}

func (e *Engine) thunkTarget(f *ssa.Function) *ssa.Function {
	e.prog.build(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if t := c.Call.StaticCallee(); t != nil {
					return t
				}
			}
		}
	}
	return f
}

func refOf(v Val) *Term {
	switch x := v.(type) {
	case *VIface:
		return refOf(x.Static)
	case *VSlice:
		return x.Ref
	case *VPtr:
		if x.Path != "" {
			unsup("reference of interior pointer")
		}
		return x.Ref
	case *Term:
		return x
	}
	unsup("refOf %T", v)
	return nil
}

func boundVal(st *State, t types.Type) (Val, []*Term) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		v := BoundVar(bwidth(u), "k")
		return v, []*Term{v}
	case *types.Pointer:
		v := BoundVar(32, "k")
		setRegion(v, regNull|regInput|regAlloc|regLate|regSub, nextAlloc)
		return &VPtr{T: u.Elem(), Ref: v}, []*Term{v}
	case *types.Array:
		out := &VArray{T: t}
		var bvs []*Term
		for i := int64(0); i < u.Len(); i++ {
			v, b := boundVal(st, u.Elem())
			out.Es = append(out.Es, v)
			bvs = append(bvs, b...)
		}
		return out, bvs
	}
	unsup("quantifier over %s", t)
	return nil, nil
}

// evalSpecUnder evaluates a spec closure whose arguments contain bound variables: path facts are dropped.
func (e *Engine) evalSpecUnder(st *State, fn *Term, args []Val) *Term {
	return e.evalSpec(st, fn, args)
}

func (e *Engine) addOblP(st *State, goal *Term, kind, label string, pos token.Pos) {
	if st.dead {
		return
	}
	if goal.IsTrue() {
		// still counts as an obligation, discharged by simplification
		e.obls = append(e.obls, &Obligation{Label: label, Prop: e.prop, Kind: kind, Pos: e.pos(pos), Fn: e.contract, Goal: goal, PC: st.pc.terms()})
		return
	}
	e.obls = append(e.obls, &Obligation{Label: label, Prop: e.prop, Kind: kind, Pos: e.pos(pos), Fn: e.contract, Goal: goal, PC: st.pc.terms(), Lite: st.pc.lite()})
}

var _ = constant.BoolVal
