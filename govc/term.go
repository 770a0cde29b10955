package main

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
)

// ---- hash-consed terms over booleans and bit-vectors ----

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpAdd
	OpSub
	OpMul
	OpUdiv
	OpUrem
	OpSdiv
	OpSrem
	OpBAnd
	OpBOr
	OpBXor
	OpShl
	OpLshr
	OpAshr
	OpBNot
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpConcat
	OpExtract
	OpZext
	OpSext
	OpApp
	OpForall // args[0]=bound var, args[1]=body
)

// Term is immutable; W==0 means Bool.
type Term struct {
	Op   Op
	W    int
	Args []*Term
	K    uint64 // const value / extract hi<<8|lo
	Name string
	ID   int
	// region information for reference-valued terms (see region.go)
	reg   uint8
	bound uint32 // for regLateOrOld vars: allocation bound
	nq    bool   // contains quantifier
	hasBV bool
}

var keyBuf []byte
var termTab = map[string]*Term{}
var termList []*Term

func mk(op Op, w int, k uint64, name string, args ...*Term) *Term {
	kb := keyBuf[:0]
	kb = append(kb, byte(op), byte(w), byte(w>>8))
	kb = binary.LittleEndian.AppendUint64(kb, k)
	for _, a := range args {
		kb = binary.LittleEndian.AppendUint32(kb, uint32(a.ID))
	}
	kb = append(kb, name...)
	keyBuf = kb
	if t, ok := termTab[string(kb)]; ok {
		return t
	}
	t := &Term{Op: op, W: w, K: k, Name: name, Args: args, ID: len(termList)}
	for _, a := range args {
		if a.nq {
			t.nq = true
		}
		if a.hasBV {
			t.hasBV = true
		}
	}
	if op == OpForall {
		t.nq = true
	}
	termTab[string(kb)] = t
	termList = append(termList, t)
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func BV(w int, k uint64) *Term { return mk(OpConst, w, k&mask(w), "") }

var tTrue, tFalse *Term

func init() {
	tTrue = mk(OpConst, 0, 1, "")
	tFalse = mk(OpConst, 0, 0, "")
}

func B(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

var freshN = map[string]int{}

func FreshVar(w int, hint string) *Term {
	hint = sanitize(hint)
	freshN[hint]++
	return mk(OpVar, w, 0, fmt.Sprintf("%s!%d", hint, freshN[hint]))
}
func NamedVar(w int, name string) *Term { return mk(OpVar, w, 0, sanitize(name)) }

// BoundVar is a fresh variable meant to be bound by a quantifier.
func BoundVar(w int, hint string) *Term {
	t := FreshVar(w, "q_"+hint)
	t.hasBV = true
	return t
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '_', c == '.', c == '!', c == '#', c == '@', c == '/', c == '-':
			sb.WriteRune(c)
		default:
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func App(w int, name string, args ...*Term) *Term { return mk(OpApp, w, 0, sanitize(name), args...) }

func (t *Term) IsConst() bool { return t.Op == OpConst }
func (t *Term) IsTrue() bool  { return t == tTrue }
func (t *Term) IsFalse() bool { return t == tFalse }

func sx(w int, k uint64) int64 {
	if w >= 64 {
		return int64(k)
	}
	sh := uint(64 - w)
	return int64(k<<sh) >> sh
}

// known holds what is true at the current point of the contract on every path that remains (its
// preconditions). While a contract is executed, terms are simplified under it; every obligation built
// afterwards has these facts among its hypotheses. It is empty whenever queries are built.
var known = map[*Term]bool{}
var knownVal = map[*Term]*Term{}
var knownGen int

var knownMemo = map[*Term]*Term{}
var knownMemoGen int

// isKnown simplifies a condition by what is known.
func isKnown(t *Term) *Term {
	if len(known) == 0 || t.Op == OpConst {
		return t
	}
	if v, ok := known[t]; ok {
		return B(v)
	}
	switch t.Op {
	case OpNot:
		if r := isKnown(t.Args[0]); r != t.Args[0] {
			return Not(r)
		}
	case OpEq:
		if x, k, ok := eqConst(t); ok {
			if d, ok := knownDom[x]; ok && !d[k] {
				return tFalse
			}
		}
	case OpAnd, OpOr:
		if knownMemoGen != knownGen {
			knownMemo, knownMemoGen = map[*Term]*Term{}, knownGen
		}
		if r, ok := knownMemo[t]; ok {
			return r
		}
		r := t
		for _, a := range t.Args {
			if isKnown(a) != a {
				r = junction(t.Op, t.Args)
				break
			}
		}
		knownMemo[t] = r
		return r
	}
	return t
}

var knownDom = map[*Term]map[uint64]bool{}

// eqConst recognises x == constant.
func eqConst(t *Term) (*Term, uint64, bool) {
	if t.Op == OpEq {
		for i := 0; i < 2; i++ {
			if t.Args[i].Op == OpConst && t.Args[1-i].Op != OpConst {
				return t.Args[1-i], t.Args[i].K, true
			}
		}
	}
	return nil, 0, false
}

// domain recognises a disjunction of x == constant.
func domain(t *Term) (*Term, map[uint64]bool) {
	if t.Op != OpOr {
		return nil, nil
	}
	var x *Term
	d := map[uint64]bool{}
	for _, a := range t.Args {
		y, k, ok := eqConst(a)
		if !ok || x != nil && x != y {
			return nil, nil
		}
		x = y
		d[k] = true
	}
	return x, d
}

func learn(t *Term) {
	knownGen++
	switch t.Op {
	case OpAnd:
		for _, a := range t.Args {
			learn(a)
		}
		return
	case OpNot:
		known[t] = true
		known[t.Args[0]] = false
		if t.Args[0].Op == OpOr {
			for _, a := range t.Args[0].Args {
				learn(Not(a))
			}
		}
		return
	case OpConst:
		return
	case OpEq:
		for i := 0; i < 2; i++ {
			if t.Args[i].Op == OpConst && t.Args[1-i].Op != OpConst {
				knownVal[t.Args[1-i]] = t.Args[i]
			}
		}
	}
	if x, k, ok := eqConst(t); ok {
		knownDom[x] = map[uint64]bool{k: true}
	} else if x, d := domain(t); x != nil {
		if o, ok := knownDom[x]; ok {
			for k := range d {
				if !o[k] {
					delete(d, k)
				}
			}
		}
		knownDom[x] = d
	}
	known[t] = true
	known[Not(t)] = false
}

// decide says what the path condition knows about c: nil if nothing.
func (p *PC) decide(c *Term) *Term {
	c = isKnown(c)
	if c.IsConst() {
		return c
	}
	n := Not(c)
	x, k, isEq := eqConst(c)
	if c.Op == OpNot {
		x, k, isEq = eqConst(c.Args[0])
	}
	for ; p != nil; p = p.prev {
		ts := []*Term{p.t}
		if p.t.Op == OpAnd {
			ts = p.t.Args
		}
		for _, t := range ts {
			if t == c {
				return tTrue
			}
			if t == n {
				return tFalse
			}
			if t.Op == OpNot && t.Args[0].Op == OpOr {
				for _, a := range t.Args[0].Args {
					if a == c {
						return tFalse
					}
					if a == n {
						return tTrue
					}
				}
			}
			if isEq {
				hit := false
				if y, j, ok := eqConst(t); ok && y == x && j != k {
					hit = true
				}
				if y, d := domain(t); y == x && y != nil && !d[k] {
					hit = true
				}
				if hit {
					return B(c.Op == OpNot)
				}
			}
		}
	}
	return nil
}

func forget() {
	known, knownVal, knownDom = map[*Term]bool{}, map[*Term]*Term{}, map[*Term]map[uint64]bool{}
	knownGen++
}

var negMemo = map[*Term]*Term{}

func Not(a *Term) *Term {
	if a.IsConst() {
		return B(a.K == 0)
	}
	switch a.Op {
	case OpNot:
		return a.Args[0]
	case OpAnd, OpOr:
		if r, ok := negMemo[a]; ok {
			return r
		}
		ns := make([]*Term, len(a.Args))
		for i, x := range a.Args {
			ns[i] = Not(x)
		}
		var r *Term
		sort.Slice(ns, func(i, j int) bool { return ns[i].ID < ns[j].ID })
		if a.Op == OpAnd {
			r = mk(OpOr, 0, 0, "", ns...)
		} else {
			r = mk(OpAnd, 0, 0, "", ns...)
		}
		negMemo[a] = r
		if _, ok := negMemo[r]; !ok {
			negMemo[r] = a
		}
		return r
	}
	return mk(OpNot, 0, 0, "", a)
}

func And(as ...*Term) *Term { return junction(OpAnd, as) }
func Or(as ...*Term) *Term  { return junction(OpOr, as) }

// junction builds a conjunction or disjunction: flattened, without duplicates, with units propagated.
func junction(op Op, as []*Term) *Term {
	dual, unit, zero := OpOr, tTrue, tFalse
	if op == OpOr {
		dual, unit, zero = OpAnd, tFalse, tTrue
	}
	if len(as) == 1 {
		return isKnown(as[0])
	}
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		a = isKnown(a)
		if a == zero {
			return false
		}
		if a == unit || seen[a] {
			return true
		}
		if a.Op == op {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	// a member of the dual kind that contains another member is absorbed; the negation of another member goes
	for changed, n := true, 0; changed && n < 4; n++ {
		changed = false
		for i := 0; i < len(out); i++ {
			a := out[i]
			if a.Op != dual || len(a.Args) > 64 {
				continue
			}
			absorbed, drop := false, 0
			for _, x := range a.Args {
				if seen[x] {
					absorbed = true
					break
				}
				if seen[Not(x)] {
					drop++
				}
			}
			if !absorbed && drop == 0 {
				continue
			}
			changed = true
			out = append(out[:i:i], out[i+1:]...)
			delete(seen, a)
			i--
			if absorbed {
				continue
			}
			var keep []*Term
			for _, x := range a.Args {
				if !seen[Not(x)] {
					keep = append(keep, x)
				}
			}
			if !add(junction(dual, keep)) {
				return zero
			}
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	// factor what two members have in common: (a&b)|(a&!b)
	if len(out) == 2 && op == OpOr {
		args := func(t *Term) []*Term {
			if t.Op == dual {
				return t.Args
			}
			return []*Term{t}
		}
		ca, cb := args(out[0]), args(out[1])
		var common, ra, rb []*Term
		ina, inb := map[*Term]bool{}, map[*Term]bool{}
		for _, x := range cb {
			inb[x] = true
		}
		for _, x := range ca {
			ina[x] = true
			if inb[x] {
				common = append(common, x)
			} else {
				ra = append(ra, x)
			}
		}
		for _, x := range cb {
			if !ina[x] {
				rb = append(rb, x)
			}
		}
		if len(common) > 0 {
			return junction(dual, append(common, junction(op, []*Term{junction(dual, ra), junction(dual, rb)})))
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return mk(op, 0, 0, "", out...)
}

func conj(t *Term) []*Term {
	if t.Op == OpAnd {
		return t.Args
	}
	return []*Term{t}
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }
func Iff(a, b *Term) *Term     { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	c = isKnown(c)
	if c.IsTrue() {
		return a
	}
	if c.IsFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.W != b.W {
		panic(fmt.Sprintf("ite width %d %d", a.W, b.W))
	}
	if c.Op == OpNot {
		return Ite(c.Args[0], b, a)
	}
	if a.W == 0 {
		if a.IsTrue() {
			return Or(c, b)
		}
		if a.IsFalse() {
			return And(Not(c), b)
		}
		if b.IsTrue() {
			return Or(Not(c), a)
		}
		if b.IsFalse() {
			return And(c, a)
		}
	}
	if a.Op == OpIte && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == OpIte && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	// Ite(c, Ite(d,x,y), y) -> Ite(c&d, x, y)
	if a.Op == OpIte && a.Args[2] == b {
		return Ite(And(c, a.Args[0]), a.Args[1], b)
	}
	if b.Op == OpIte && b.Args[1] == a {
		return Ite(Or(c, b.Args[0]), a, b.Args[2])
	}
	return mk(OpIte, a.W, 0, "", c, a, b)
}

// splitConst writes t as base + const
func splitConst(t *Term) (*Term, uint64) {
	if t.Op == OpConst {
		return nil, t.K
	}
	if t.Op == OpAdd && t.Args[1].Op == OpConst {
		return t.Args[0], t.Args[1].K
	}
	return t, 0
}

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.W != b.W {
		panic(fmt.Sprintf("eq width %d %d: %s %s", a.W, b.W, a, b))
	}
	if a.IsConst() && b.IsConst() {
		return B(a.K == b.K)
	}
	if a.W == 0 {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return Not(a)
		}
		if a == Not(b) {
			return tFalse
		}
	} else {
		if a.IsConst() {
			a, b = b, a
		}
		if disjointRegions(a, b) {
			return tFalse
		}
		if a.Op == OpApp && b.Op == OpApp && strings.HasPrefix(a.Name, "sub.") && strings.HasPrefix(b.Name, "sub.") {
			if a.Name != b.Name {
				return tFalse
			}
			var es []*Term
			for i := range a.Args {
				es = append(es, Eq(a.Args[i], b.Args[i]))
			}
			return And(es...)
		}
		ba, ka := splitConst(a)
		bb, kb := splitConst(b)
		if ba == bb {
			return B(ka == kb)
		}
		if ba != nil && bb != nil && ka != 0 && kb != 0 {
			// cancel constants
			return Eq(ba, Add(bb, BV(a.W, kb-ka)))
		}
		if b.IsConst() && ka != 0 && ba != nil {
			return Eq(ba, BV(a.W, b.K-ka))
		}
		if b.IsConst() {
			switch a.Op {
			case OpIte:
				x, y := a.Args[1], a.Args[2]
				if x.IsConst() || y.IsConst() || (isIteConst(x) && isIteConst(y)) || regionSplits(x, b) || regionSplits(y, b) {
					return Ite(a.Args[0], Eq(x, b), Eq(y, b))
				}
			case OpZext:
				if b.K > mask(a.Args[0].W) {
					return tFalse
				}
				return Eq(a.Args[0], BV(a.Args[0].W, b.K))
			case OpConcat:
				lo := a.Args[1].W
				return And(Eq(a.Args[0], BV(a.Args[0].W, b.K>>uint(lo))), Eq(a.Args[1], BV(lo, b.K)))
			}
		} else {
			if a.Op == OpZext && b.Op == OpZext && a.Args[0].W == b.Args[0].W {
				return Eq(a.Args[0], b.Args[0])
			}
			if a.Op == OpConcat && b.Op == OpConcat && a.Args[1].W == b.Args[1].W {
				return And(Eq(a.Args[0], b.Args[0]), Eq(a.Args[1], b.Args[1]))
			}
			if a.Op == OpIte && regionSplits2(a, b) {
				return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
			}
			if b.Op == OpIte && regionSplits2(b, a) {
				return Ite(b.Args[0], Eq(a, b.Args[1]), Eq(a, b.Args[2]))
			}
		}
	}
	if a.ID > b.ID && !b.IsConst() {
		a, b = b, a
	}
	return mk(OpEq, 0, 0, "", a, b)
}

func isIteConst(t *Term) bool {
	if t.IsConst() {
		return true
	}
	if t.Op == OpIte {
		return isIteConst(t.Args[1]) && isIteConst(t.Args[2])
	}
	return false
}

func Add(a, b *Term) *Term {
	if a.IsConst() {
		a, b = b, a
	}
	if a.IsConst() && b.IsConst() {
		return BV(a.W, a.K+b.K)
	}
	if b.IsConst() {
		if b.K == 0 {
			return a
		}
		if a.Op == OpAdd && a.Args[1].IsConst() {
			return Add(a.Args[0], BV(a.W, a.Args[1].K+b.K))
		}
		if a.Op == OpIte && (a.Args[1].IsConst() || a.Args[2].IsConst()) {
			return Ite(a.Args[0], Add(a.Args[1], b), Add(a.Args[2], b))
		}
		return mk(OpAdd, a.W, 0, "", a, b)
	}
	if a.Op == OpAdd && a.Args[1].IsConst() {
		return Add(Add(a.Args[0], b), a.Args[1])
	}
	if b.Op == OpAdd && b.Args[1].IsConst() {
		return Add(Add(a, b.Args[0]), b.Args[1])
	}
	if a.Op == OpSub && a.Args[1] == b {
		return a.Args[0]
	}
	if b.Op == OpSub && b.Args[1] == a {
		return b.Args[0]
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(OpAdd, a.W, 0, "", a, b)
}

func Sub(a, b *Term) *Term {
	if a == b {
		return BV(a.W, 0)
	}
	if b.IsConst() {
		return Add(a, BV(a.W, -b.K))
	}
	ba, ka := splitConst(a)
	bb, kb := splitConst(b)
	if ba != nil && ba == bb {
		return BV(a.W, ka-kb)
	}
	if ba != nil && (ka != 0 || kb != 0) {
		return Add(Sub(ba, bb), BV(a.W, ka-kb))
	}
	if a.Op == OpAdd {
		if a.Args[0] == b {
			return a.Args[1]
		}
		if a.Args[1] == b {
			return a.Args[0]
		}
	}
	return mk(OpSub, a.W, 0, "", a, b)
}

func Neg(a *Term) *Term { return Sub(BV(a.W, 0), a) }

func Mul(a, b *Term) *Term {
	if a.IsConst() {
		a, b = b, a
	}
	if a.IsConst() {
		return BV(a.W, a.K*b.K)
	}
	if b.IsConst() {
		switch {
		case b.K == 0:
			return b
		case b.K == 1:
			return a
		case b.K&(b.K-1) == 0:
			n := 0
			for b.K>>uint(n) != 1 {
				n++
			}
			return Shl(a, BV(a.W, uint64(n)))
		}
	}
	return mk(OpMul, a.W, 0, "", a, b)
}

func divop(op Op, a, b *Term) *Term {
	w := a.W
	if a.IsConst() && b.IsConst() && b.K != 0 {
		switch op {
		case OpUdiv:
			return BV(w, a.K/b.K)
		case OpUrem:
			return BV(w, a.K%b.K)
		case OpSdiv:
			y := sx(w, b.K)
			if y == -1 {
				return Neg(a)
			}
			return BV(w, uint64(sx(w, a.K)/y))
		case OpSrem:
			y := sx(w, b.K)
			if y == -1 {
				return BV(w, 0)
			}
			return BV(w, uint64(sx(w, a.K)%y))
		}
	}
	if b.IsConst() && b.K != 0 && b.K&(b.K-1) == 0 {
		n := 0
		for b.K>>uint(n) != 1 {
			n++
		}
		switch op {
		case OpUdiv:
			return Lshr(a, BV(w, uint64(n)))
		case OpUrem:
			return BAnd(a, BV(w, b.K-1))
		}
	}
	return mk(op, w, 0, "", a, b)
}

func Udiv(a, b *Term) *Term { return divop(OpUdiv, a, b) }
func Urem(a, b *Term) *Term { return divop(OpUrem, a, b) }
func Sdiv(a, b *Term) *Term { return divop(OpSdiv, a, b) }
func Srem(a, b *Term) *Term { return divop(OpSrem, a, b) }

func BAnd(a, b *Term) *Term {
	if a.IsConst() {
		a, b = b, a
	}
	if a.IsConst() {
		return BV(a.W, a.K&b.K)
	}
	if a == b {
		return a
	}
	if b.IsConst() {
		if b.K == 0 {
			return b
		}
		if b.K == mask(a.W) {
			return a
		}
		if a.Op == OpBAnd && a.Args[1].IsConst() {
			return BAnd(a.Args[0], BV(a.W, a.Args[1].K&b.K))
		}
		if a.Op == OpIte && (a.Args[1].IsConst() || a.Args[2].IsConst()) {
			return Ite(a.Args[0], BAnd(a.Args[1], b), BAnd(a.Args[2], b))
		}
		// low mask: zext(extract)
		if m := b.K + 1; m&(m-1) == 0 && m != 0 {
			n := 0
			for m>>uint(n) != 1 {
				n++
			}
			return Zext(Extract(a, n-1, 0), a.W)
		}
	}
	return mk(OpBAnd, a.W, 0, "", a, b)
}

func BOr(a, b *Term) *Term {
	if a.IsConst() {
		a, b = b, a
	}
	if a.IsConst() {
		return BV(a.W, a.K|b.K)
	}
	if a == b {
		return a
	}
	if b.IsConst() {
		if b.K == 0 {
			return a
		}
		if b.K == mask(a.W) {
			return b
		}
		if a.Op == OpIte && (a.Args[1].IsConst() || a.Args[2].IsConst()) {
			return Ite(a.Args[0], BOr(a.Args[1], b), BOr(a.Args[2], b))
		}
	}
	if r := mergeDisjoint(a, b); r != nil {
		return r
	}
	if a.ID > b.ID && !b.IsConst() {
		a, b = b, a
	}
	return mk(OpBOr, a.W, 0, "", a, b)
}

type bitSeg struct {
	lo int
	t  *Term
}

// bitSegs splits a term into the non-zero pieces it is concatenated from, lowest first.
func bitSegs(t *Term, at int, out []bitSeg) []bitSeg {
	switch t.Op {
	case OpConcat:
		out = bitSegs(t.Args[1], at, out)
		return bitSegs(t.Args[0], at+t.Args[1].W, out)
	case OpZext:
		return bitSegs(t.Args[0], at, out)
	case OpConst:
		if t.K == 0 {
			return out
		}
	}
	return append(out, bitSeg{at, t})
}

// mergeDisjoint turns the or of two terms without a common non-zero piece into one concatenation.
func mergeDisjoint(a, b *Term) *Term {
	if a.W > 64 || a.Op != OpConcat && a.Op != OpZext || b.Op != OpConcat && b.Op != OpZext {
		return nil
	}
	sa, sb := bitSegs(a, 0, nil), bitSegs(b, 0, nil)
	var all []bitSeg
	for len(sa) > 0 || len(sb) > 0 {
		if len(sb) == 0 || len(sa) > 0 && sa[0].lo < sb[0].lo {
			all = append(all, sa[0])
			sa = sa[1:]
		} else {
			all = append(all, sb[0])
			sb = sb[1:]
		}
	}
	end := 0
	for _, s := range all {
		if s.lo < end {
			return nil
		}
		end = s.lo + s.t.W
	}
	var acc *Term
	for _, s := range all {
		switch {
		case acc == nil && s.lo == 0:
			acc = s.t
			continue
		case acc == nil:
			acc = BV(s.lo, 0)
		case acc.W < s.lo:
			acc = Zext(acc, s.lo)
		}
		acc = Concat(s.t, acc)
	}
	return Zext(acc, a.W)
}

func BXor(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return BV(a.W, a.K^b.K)
	}
	if a == b {
		return BV(a.W, 0)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() && b.K == 0 {
		return a
	}
	return mk(OpBXor, a.W, 0, "", a, b)
}

func BNot(a *Term) *Term {
	if a.IsConst() {
		return BV(a.W, ^a.K)
	}
	if a.Op == OpBNot {
		return a.Args[0]
	}
	return mk(OpBNot, a.W, 0, "", a)
}

func Shl(a, b *Term) *Term {
	if b.IsConst() {
		if b.K >= uint64(a.W) {
			return BV(a.W, 0)
		}
		if b.K == 0 {
			return a
		}
		if a.IsConst() {
			return BV(a.W, a.K<<b.K)
		}
		n := int(b.K)
		return Concat(Extract(a, a.W-1-n, 0), BV(n, 0))
	}
	if a.IsConst() && a.K == 0 {
		return a
	}
	return mk(OpShl, a.W, 0, "", a, b)
}

func Lshr(a, b *Term) *Term {
	if b.IsConst() {
		if b.K >= uint64(a.W) {
			return BV(a.W, 0)
		}
		if b.K == 0 {
			return a
		}
		if a.IsConst() {
			return BV(a.W, a.K>>b.K)
		}
		return Zext(Extract(a, a.W-1, int(b.K)), a.W)
	}
	if a.IsConst() && a.K == 0 {
		return a
	}
	return mk(OpLshr, a.W, 0, "", a, b)
}

func Ashr(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		n := b.K
		if n >= uint64(a.W) {
			n = uint64(a.W - 1)
		}
		return BV(a.W, uint64(sx(a.W, a.K)>>n))
	}
	if b.IsConst() && b.K == 0 {
		return a
	}
	if b.IsConst() && b.K < uint64(a.W) {
		return Sext(Extract(a, a.W-1, int(b.K)), a.W)
	}
	return mk(OpAshr, a.W, 0, "", a, b)
}

func Concat(a, b *Term) *Term {
	w := a.W + b.W
	if a.IsConst() && b.IsConst() && w <= 64 {
		return BV(w, a.K<<uint(b.W)|b.K)
	}
	if a.IsConst() && a.K == 0 && w <= 64 {
		return Zext(b, w)
	}
	if a.Op == OpZext && w <= 64 {
		// concat(zext(x), b) = zext(concat(x,b))
		return Zext(Concat(a.Args[0], b), w)
	}
	if a.Op == OpExtract && b.Op == OpExtract && a.Args[0] == b.Args[0] {
		ahi, alo := int(a.K>>8), int(a.K&255)
		bhi, blo := int(b.K>>8), int(b.K&255)
		if alo == bhi+1 {
			return Extract(a.Args[0], ahi, blo)
		}
	}
	if b.Op == OpConcat && a.Op == OpExtract && b.Args[0].Op == OpExtract && a.Args[0] == b.Args[0].Args[0] {
		alo := int(a.K & 255)
		bhi := int(b.Args[0].K >> 8)
		if alo == bhi+1 {
			return Concat(Concat(a, b.Args[0]), b.Args[1])
		}
	}
	if a.Op == OpConcat {
		return Concat(a.Args[0], Concat(a.Args[1], b))
	}
	return mk(OpConcat, w, 0, "", a, b)
}

func Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == a.W {
		return a
	}
	if w <= 0 {
		panic("extract")
	}
	switch a.Op {
	case OpConst:
		return BV(w, a.K>>uint(lo))
	case OpExtract:
		l := int(a.K & 255)
		return Extract(a.Args[0], hi+l, lo+l)
	case OpConcat:
		lw := a.Args[1].W
		if lo >= lw {
			return Extract(a.Args[0], hi-lw, lo-lw)
		}
		if hi < lw {
			return Extract(a.Args[1], hi, lo)
		}
		return Concat(Extract(a.Args[0], hi-lw, 0), Extract(a.Args[1], lw-1, lo))
	case OpZext:
		iw := a.Args[0].W
		if lo >= iw {
			return BV(w, 0)
		}
		if hi < iw {
			return Extract(a.Args[0], hi, lo)
		}
		return Zext(Extract(a.Args[0], iw-1, lo), w)
	case OpSext:
		iw := a.Args[0].W
		if hi < iw {
			return Extract(a.Args[0], hi, lo)
		}
	case OpIte:
		if a.Args[1].IsConst() || a.Args[2].IsConst() {
			return Ite(a.Args[0], Extract(a.Args[1], hi, lo), Extract(a.Args[2], hi, lo))
		}
	case OpBAnd, OpBOr, OpBXor:
		f := map[Op]func(a, b *Term) *Term{OpBAnd: BAnd, OpBOr: BOr, OpBXor: BXor}[a.Op]
		return f(Extract(a.Args[0], hi, lo), Extract(a.Args[1], hi, lo))
	case OpBNot:
		return BNot(Extract(a.Args[0], hi, lo))
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			f := map[Op]func(a, b *Term) *Term{OpAdd: Add, OpSub: Sub, OpMul: Mul}[a.Op]
			return f(Extract(a.Args[0], hi, lo), Extract(a.Args[1], hi, lo))
		}
	}
	return mk(OpExtract, w, uint64(hi)<<8|uint64(lo), "", a)
}

func Zext(a *Term, w int) *Term {
	if w == a.W {
		return a
	}
	if w < a.W {
		return Extract(a, w-1, 0)
	}
	if a.IsConst() {
		return BV(w, a.K)
	}
	if a.Op == OpZext {
		return Zext(a.Args[0], w)
	}
	if a.Op == OpIte && (a.Args[1].IsConst() || a.Args[2].IsConst()) {
		return Ite(a.Args[0], Zext(a.Args[1], w), Zext(a.Args[2], w))
	}
	return mk(OpZext, w, 0, "", a)
}

func Sext(a *Term, w int) *Term {
	if w == a.W {
		return a
	}
	if w < a.W {
		return Extract(a, w-1, 0)
	}
	if a.IsConst() {
		return BV(w, uint64(sx(a.W, a.K)))
	}
	if a.Op == OpZext {
		return Zext(a, w)
	}
	if a.Op == OpSext {
		return Sext(a.Args[0], w)
	}
	if a.Op == OpIte && (a.Args[1].IsConst() || a.Args[2].IsConst()) {
		return Ite(a.Args[0], Sext(a.Args[1], w), Sext(a.Args[2], w))
	}
	return mk(OpSext, w, 0, "", a)
}

func umax(t *Term) uint64 {
	switch t.Op {
	case OpConst:
		return t.K
	case OpZext:
		return umax(t.Args[0])
	case OpIte:
		a, b := umax(t.Args[1]), umax(t.Args[2])
		if a > b {
			return a
		}
		return b
	case OpBAnd:
		a, b := umax(t.Args[0]), umax(t.Args[1])
		if a < b {
			return a
		}
		return b
	case OpConcat:
		if t.W <= 64 {
			return umax(t.Args[0])<<uint(t.Args[1].W) | umax(t.Args[1])
		}
	case OpAdd:
		a, b := umax(t.Args[0]), umax(t.Args[1])
		if s := a + b; s >= a && s <= mask(t.W) {
			return s
		}
	}
	return mask(t.W)
}

func umin(t *Term) uint64 {
	switch t.Op {
	case OpConst:
		return t.K
	case OpZext:
		return umin(t.Args[0])
	case OpIte:
		a, b := umin(t.Args[1]), umin(t.Args[2])
		if a < b {
			return a
		}
		return b
	case OpAdd:
		a, b := umax(t.Args[0]), umax(t.Args[1])
		if s := a + b; s >= a && s <= mask(t.W) {
			return umin(t.Args[0]) + umin(t.Args[1])
		}
	}
	return 0
}

func Ult(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.IsConst() && b.IsConst() {
		return B(a.K < b.K)
	}
	if umax(a) < umin(b) {
		return tTrue
	}
	if umin(a) >= umax(b) {
		return tFalse
	}
	if a.IsConst() && b.Op == OpZext {
		return Ult(BV(b.Args[0].W, a.K), b.Args[0])
	}
	if b.IsConst() && a.Op == OpZext {
		return Ult(a.Args[0], BV(a.Args[0].W, b.K))
	}
	if b.IsConst() && b.K == 1 {
		return Eq(a, BV(a.W, 0))
	}
	if isIteConst(a) && a.Op == OpIte && b.IsConst() {
		return Ite(a.Args[0], Ult(a.Args[1], b), Ult(a.Args[2], b))
	}
	if isIteConst(b) && b.Op == OpIte && a.IsConst() {
		return Ite(b.Args[0], Ult(a, b.Args[1]), Ult(a, b.Args[2]))
	}
	return mk(OpUlt, 0, 0, "", a, b)
}
func Ule(a, b *Term) *Term { return Not(Ult(b, a)) }
func Ugt(a, b *Term) *Term { return Ult(b, a) }
func Uge(a, b *Term) *Term { return Not(Ult(a, b)) }

func nonneg(t *Term) bool { return umax(t) <= mask(t.W)>>1 }

func Slt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.IsConst() && b.IsConst() {
		return B(sx(a.W, a.K) < sx(b.W, b.K))
	}
	if nonneg(a) && nonneg(b) {
		return Ult(a, b)
	}
	if nonneg(a) && b.IsConst() { // b negative
		return tFalse
	}
	if nonneg(b) && a.IsConst() {
		return tTrue
	}
	if a.Op == OpIte && isIteConst(a) && b.IsConst() {
		return Ite(a.Args[0], Slt(a.Args[1], b), Slt(a.Args[2], b))
	}
	if b.Op == OpIte && isIteConst(b) && a.IsConst() {
		return Ite(b.Args[0], Slt(a, b.Args[1]), Slt(a, b.Args[2]))
	}
	return mk(OpSlt, 0, 0, "", a, b)
}
func Sle(a, b *Term) *Term { return Not(Slt(b, a)) }

func Forall(v, body *Term) *Term {
	if body.IsConst() {
		return body
	}
	return mk(OpForall, 0, 0, "", v, body)
}

// subst replaces v by x in t.
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	na := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		na[i] = subst(a, m, memo)
		if na[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, na)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case OpNot:
		return Not(a[0])
	case OpAnd:
		return And(a...)
	case OpOr:
		return Or(a...)
	case OpIte:
		return Ite(a[0], a[1], a[2])
	case OpEq:
		return Eq(a[0], a[1])
	case OpAdd:
		return Add(a[0], a[1])
	case OpSub:
		return Sub(a[0], a[1])
	case OpMul:
		return Mul(a[0], a[1])
	case OpUdiv, OpUrem, OpSdiv, OpSrem:
		return divop(t.Op, a[0], a[1])
	case OpBAnd:
		return BAnd(a[0], a[1])
	case OpBOr:
		return BOr(a[0], a[1])
	case OpBXor:
		return BXor(a[0], a[1])
	case OpShl:
		return Shl(a[0], a[1])
	case OpLshr:
		return Lshr(a[0], a[1])
	case OpAshr:
		return Ashr(a[0], a[1])
	case OpBNot:
		return BNot(a[0])
	case OpUlt:
		return Ult(a[0], a[1])
	case OpUle:
		return Ule(a[0], a[1])
	case OpSlt:
		return Slt(a[0], a[1])
	case OpSle:
		return Sle(a[0], a[1])
	case OpConcat:
		return Concat(a[0], a[1])
	case OpExtract:
		return Extract(a[0], int(t.K>>8), int(t.K&255))
	case OpZext:
		return Zext(a[0], t.W)
	case OpSext:
		return Sext(a[0], t.W)
	case OpApp:
		r := mk(OpApp, t.W, 0, t.Name, a...)
		if r.reg == 0 {
			r.reg = t.reg
			r.bound = t.bound
		}
		return r
	case OpForall:
		return Forall(a[0], a[1])
	}
	panic("rebuild")
}

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	switch t.Op {
	case OpConst:
		if t.W == 0 {
			return fmt.Sprint(t.K == 1)
		}
		return fmt.Sprintf("%#x", t.K)
	case OpVar:
		return t.Name
	}
	if d == 0 {
		return "…"
	}
	nm := opNames[t.Op]
	if t.Op == OpApp {
		nm = t.Name
	}
	if t.Op == OpExtract {
		nm = fmt.Sprintf("ext%d:%d", t.K>>8, t.K&255)
	}
	var p []string
	for _, a := range t.Args {
		p = append(p, a.str(d-1))
	}
	return nm + "(" + strings.Join(p, ",") + ")"
}

var opNames = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul",
	OpUdiv: "bvudiv", OpUrem: "bvurem", OpSdiv: "bvsdiv", OpSrem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpShl: "bvshl",
	OpLshr: "bvlshr", OpAshr: "bvashr", OpBNot: "bvnot", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle", OpConcat: "concat",
	OpExtract: "extract", OpZext: "zext", OpSext: "sext", OpForall: "forall"}

// ---- reference regions ----
// 0                     nil
// [1, 0x3fffffff]       objects that exist in the initial state (input)
// [0x40000000,0x7fff..] objects allocated by the execution (numbered)
// [0x80000000,0xbfff..] objects allocated at an unknown time (earlier loop iterations, callees under contract)
// [0xc0000000, ..]      interior objects sub.T.f(ref)

const (
	regNull  uint8 = 1
	regInput uint8 = 2
	regAlloc uint8 = 4
	regLate  uint8 = 8
	regSub   uint8 = 16
	regAny   uint8 = 63 // nothing known
)

const allocBase = 0x40000000
const lateBase = 0x80000000
const subBase = 0xc0000000

func setRegion(t *Term, r uint8, bound uint32) *Term {
	if t.Op == OpVar || t.Op == OpApp {
		if t.reg == 0 {
			t.reg = r
			t.bound = bound
		}
	}
	return t
}

func regionOf(t *Term) (r uint8, bd uint32) {
	switch t.Op {
	case OpConst:
		switch {
		case t.K == 0:
			return regNull, 0
		case t.K < allocBase:
			return regInput, 0
		case t.K < lateBase:
			return regAlloc, uint32(t.K) + 1
		case t.K < subBase:
			return regLate, 0
		}
		return regSub, 0
	case OpIte:
		if t.reg != 0 {
			return t.reg, t.bound
		}
		defer func() { t.reg, t.bound = r, bd }()
		a, ba := regionOf(t.Args[1])
		b, bb := regionOf(t.Args[2])
		if bb > ba {
			ba = bb
		}
		return a | b, ba
	case OpVar, OpApp:
		if t.Op == OpApp && strings.HasPrefix(t.Name, "sub.") {
			return regSub, 0
		}
		if t.reg != 0 {
			return t.reg, t.bound
		}
	}
	return regAny, 0x7fffffff
}

func disjointRegions(a, b *Term) bool {
	if a.W != 32 {
		return false
	}
	ra, ba := regionOf(a)
	rb, bb := regionOf(b)
	if ra == regAny || rb == regAny {
		return false
	}
	if ra&rb == 0 {
		return true
	}
	if ra&rb == regAlloc {
		// both may be allocations; constant beyond the other's bound?
		if a.IsConst() && uint32(a.K) >= bb {
			return true
		}
		if b.IsConst() && uint32(b.K) >= ba {
			return true
		}
	}
	return false
}
func regionSplits(x, c *Term) bool { return c.W == 32 && disjointRegions(x, c) }
func regionSplits2(ite, b *Term) bool {
	return b.W == 32 && (disjointRegions(ite.Args[1], b) || disjointRegions(ite.Args[2], b) || ite.Args[1] == b || ite.Args[2] == b)
}
