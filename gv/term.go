package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Op is a term operator.
type Op uint8

const (
	OConst Op = iota
	OVar
	OBound // bound variable of a quantifier / lambda
	ONot
	OAnd
	OOr
	OEq
	OIte
	OUlt
	OUle
	OSlt
	OSle
	OAdd // n-ary, canonical linear form
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBvAnd
	OBvOr
	OBvXor
	OBvNot
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OExtract // val = low bit, width = result width
	OConcat
	OSel   // select: seq var, args[0]=index
	OTable // literal table: args[0]=index, seq = literal seq
	OUF    // uninterpreted function application
	OForall
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OAdd: "bvadd", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem", OBvAnd: "bvand", OBvOr: "bvor", OBvXor: "bvxor", OBvNot: "bvnot", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat"}

// Term is a hash-consed term. w==0: Bool, otherwise bit-vector of width w.
type Term struct {
	op   Op
	w    int
	args []*Term
	val  uint64
	name string
	seq  *Seq
	id   int
	// OForall: args = [bound, lo, hi, body]
	hasBound bool
}

type termKey struct {
	op         Op
	w          int
	val        uint64
	name       string
	seq        int
	a0, a1, a2 int
	rest       string
}

var termTab = map[termKey]*Term{}
var termSeq int

func mk(op Op, w int, val uint64, name string, seq *Seq, args ...*Term) *Term {
	k := termKey{op: op, w: w, val: val, name: name}
	if seq != nil {
		k.seq = seq.id
	}
	for i, a := range args {
		switch i {
		case 0:
			k.a0 = a.id
		case 1:
			k.a1 = a.id
		case 2:
			k.a2 = a.id
		default:
			k.rest += fmt.Sprintf(",%d", a.id)
		}
	}
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &Term{op: op, w: w, args: args, val: val, name: name, seq: seq, id: termSeq}
	if op == OBound {
		t.hasBound = true
	}
	for _, a := range args {
		if a.hasBound {
			t.hasBound = true
		}
	}
	if seq != nil && seq.hasBound {
		t.hasBound = true
	}
	termTab[k] = t
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sext64(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

var TTrue = mk(OConst, 0, 1, "", nil)
var TFalse = mk(OConst, 0, 0, "", nil)

func Bool(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}
func BV(v uint64, w int) *Term { return mk(OConst, w, v&mask(w), "", nil) }
func I64(v int64) *Term        { return BV(uint64(v), 64) }

var freshN int
var termInfo = map[string]string{}

func FreshName(base string) string {
	freshN++
	var sb strings.Builder
	for _, c := range base {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return fmt.Sprintf("%s!%d", sb.String(), freshN)
}
func Var(name string, w int) *Term   { return mk(OVar, w, 0, name, nil) }
func Fresh(base string, w int) *Term { return Var(FreshName(base), w) }
func Bound(name string) *Term        { return mk(OBound, 64, 0, FreshName(name), nil) }

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t == TTrue }
func (t *Term) isFalse() bool { return t == TFalse }

func Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return Bool(a.val == 0)
	case ONot:
		return a.args[0]
	case OUlt:
		return Ule(a.args[1], a.args[0])
	case OUle:
		return Ult(a.args[1], a.args[0])
	case OSlt:
		return Sle(a.args[1], a.args[0])
	case OSle:
		return Slt(a.args[1], a.args[0])
	}
	return mk(ONot, 0, 0, "", nil, a)
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.isFalse() {
			return false
		}
		if t.isTrue() || seen[t.id] {
			return true
		}
		if t.op == OAnd {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return TFalse
		}
	}
	for _, t := range out {
		if seen[Not(t).id] {
			return TFalse
		}
	}
	switch len(out) {
	case 0:
		return TTrue
	case 1:
		return out[0]
	}
	return mk(OAnd, 0, 0, "", nil, out...)
}

func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.isTrue() {
			return false
		}
		if t.isFalse() || seen[t.id] {
			return true
		}
		if t.op == OOr {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return TTrue
		}
	}
	for _, t := range out {
		if seen[Not(t).id] {
			return TTrue
		}
	}
	switch len(out) {
	case 0:
		return TFalse
	case 1:
		return out[0]
	}
	// pull a single forall out of a disjunction
	for i, t := range out {
		if t.op == OForall {
			rest := append(append([]*Term{}, out[:i]...), out[i+1:]...)
			return mk(OForall, 0, 0, "", nil, t.args[0], t.args[1], t.args[2], Or(append(rest, t.args[3])...))
		}
		if t.op == OAnd {
			hasF := false
			for _, a := range t.args {
				if containsForall(a) {
					hasF = true
				}
			}
			if hasF {
				if common, rest := factor(out); len(common) > 0 {
					return And(append(common, Or(rest...))...)
				}
				rest := append(append([]*Term{}, out[:i]...), out[i+1:]...)
				var cs, plain []*Term
				for _, a := range t.args {
					if containsForall(a) {
						cs = append(cs, Or(append(append([]*Term{}, rest...), a)...))
					} else {
						plain = append(plain, a)
					}
				}
				return And(append(cs, Or(append(append([]*Term{}, rest...), And(plain...))...))...)
			}
		}
	}
	return mk(OOr, 0, 0, "", nil, out...)
}

// factor takes out the conjuncts that all of ts have.
func factor(ts []*Term) (common, rest []*Term) {
	count := map[*Term]int{}
	conj := func(t *Term) []*Term {
		if t.op == OAnd {
			return t.args
		}
		return []*Term{t}
	}
	for _, t := range ts {
		for _, a := range conj(t) {
			count[a]++
		}
	}
	for _, a := range conj(ts[0]) {
		if count[a] == len(ts) {
			common = append(common, a)
		}
	}
	if len(common) == 0 {
		return nil, ts
	}
	for _, t := range ts {
		var r []*Term
		for _, a := range conj(t) {
			if count[a] != len(ts) {
				r = append(r, a)
			}
		}
		rest = append(rest, And(r...))
	}
	return common, rest
}

func containsForall(t *Term) bool {
	if t.w != 0 {
		return false
	}
	switch t.op {
	case OForall:
		return true
	case OAnd, OOr, ONot, OIte:
		for _, a := range t.args {
			if containsForall(a) {
				return true
			}
		}
	}
	return false
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Forall(b, lo, hi, body *Term) *Term {
	if body.isTrue() {
		return TTrue
	}
	// the same statement over another bound variable is the same term
	if forallVar == nil {
		forallVar = Bound("canonical")
	}
	k := [3]*Term{lo, hi, Subst(body, map[*Term]*Term{b: forallVar})}
	if t, ok := forallMemo[k]; ok {
		return t
	}
	t := mk(OForall, 0, 0, "", nil, b, lo, hi, body)
	forallMemo[k] = t
	return t
}

var forallVar *Term
var forallMemo = map[[3]*Term]*Term{}

func Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if a.w == 0 {
		if a.isTrue() {
			return Or(c, b)
		}
		if a.isFalse() {
			return And(Not(c), b)
		}
		if b.isTrue() {
			return Or(Not(c), a)
		}
		if b.isFalse() {
			return And(c, a)
		}
		if containsForall(a) || containsForall(b) {
			return And(Or(Not(c), a), Or(c, b))
		}
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return mk(OIte, a.w, 0, "", nil, c, a, b)
}

// ---- linear normal form ----

type lin struct {
	c     uint64
	terms map[*Term]uint64
}

func linOf(t *Term) lin {
	l := lin{terms: map[*Term]uint64{}}
	linAdd(&l, t, 1)
	return l
}

func linAdd(l *lin, t *Term, k uint64) {
	m := mask(t.w)
	switch {
	case t.op == OConst:
		l.c = (l.c + k*t.val) & m
	case t.op == OAdd:
		for _, a := range t.args {
			linAdd(l, a, k)
		}
	case t.op == OMul && t.args[0].op == OConst:
		linAdd(l, t.args[1], (k*t.args[0].val)&m)
	case t.op == OBvNot:
		// ~x = -x-1
		linAdd(l, t.args[0], (-k)&m)
		l.c = (l.c - k) & m
	default:
		n := (l.terms[t] + k) & m
		if n == 0 {
			delete(l.terms, t)
		} else {
			l.terms[t] = n
		}
	}
}

func linBuild(l lin, w int) *Term {
	if len(l.terms) == 0 {
		return BV(l.c, w)
	}
	atoms := make([]*Term, 0, len(l.terms))
	for t := range l.terms {
		atoms = append(atoms, t)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	var out []*Term
	for _, a := range atoms {
		k := l.terms[a]
		if k == 1 {
			out = append(out, a)
		} else {
			out = append(out, mk(OMul, w, 0, "", nil, BV(k, w), a))
		}
	}
	if l.c != 0 {
		out = append(out, BV(l.c, w))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(OAdd, w, 0, "", nil, out...)
}

func Add(a, b *Term) *Term {
	chk(a, b)
	if a.isConst() && b.isConst() {
		return BV(a.val+b.val, a.w)
	}
	if r := disjoint(a, b); r != nil {
		return r
	}
	l := linOf(a)
	linAdd(&l, b, 1)
	return linBuild(l, a.w)
}
func Sub(a, b *Term) *Term {
	chk(a, b)
	if a == b {
		return BV(0, a.w)
	}
	l := linOf(a)
	linAdd(&l, b, ^uint64(0)&mask(a.w))
	return linBuild(l, a.w)
}
func Neg(a *Term) *Term { return Sub(BV(0, a.w), a) }
func Mul(a, b *Term) *Term {
	chk(a, b)
	if a.isConst() && b.isConst() {
		return BV(a.val*b.val, a.w)
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		if a.val == 0 {
			return a
		}
		if a.val == 1 {
			return b
		}
		l := lin{terms: map[*Term]uint64{}}
		linAdd(&l, b, a.val)
		return linBuild(l, a.w)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OMul, a.w, 0, "", nil, a, b)
}

func chk(a, b *Term) {
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %d vs %d: %s / %s", a.w, b.w, a, b))
	}
}

func Eq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	chk(a, b)
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return Not(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return mk(OEq, 0, 0, "", nil, a, b)
	}
	if a.isConst() && b.isConst() {
		return Bool(a.val == b.val)
	}
	if a.op == OAdd || b.op == OAdd {
		l := linOf(a)
		linAdd(&l, b, ^uint64(0)&mask(a.w))
		if len(l.terms) == 0 {
			return Bool(l.c == 0)
		}
		// one remaining atom with coefficient ±1
		if len(l.terms) == 1 {
			for t, k := range l.terms {
				if k == 1 {
					return Eq(t, BV(-l.c, a.w))
				}
				if k == mask(a.w) {
					return Eq(t, BV(l.c, a.w))
				}
			}
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OZext:
			in := a.args[0]
			if b.val > mask(in.w) {
				return TFalse
			}
			return Eq(in, BV(b.val, in.w))
		case OIte:
			x, y := a.args[1], a.args[2]
			if x.isConst() || y.isConst() {
				ex, ey := Eq(x, b), Eq(y, b)
				return Ite(a.args[0], ex, ey)
			}
		case OConcat:
			hi, lo := a.args[0], a.args[1]
			return And(Eq(hi, BV(b.val>>uint(lo.w), hi.w)), Eq(lo, BV(b.val, lo.w)))
		}
	}
	if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
		return Eq(a.args[0], b.args[0])
	}
	if a.op == OIte && b.op == OIte && a.args[0] == b.args[0] {
		return Ite(a.args[0], Eq(a.args[1], b.args[1]), Eq(a.args[2], b.args[2]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, 0, 0, "", nil, a, b)
}

func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

// unsigned upper bound of a term (cheap)
func umax(t *Term) uint64 {
	return umaxD(t, 6)
}
func umaxD(t *Term, d int) uint64 {
	m := mask(t.w)
	if d == 0 {
		return m
	}
	switch t.op {
	case OConst:
		return t.val
	case OZext:
		return umaxD(t.args[0], d-1)
	case OIte:
		a, b := umaxD(t.args[1], d-1), umaxD(t.args[2], d-1)
		if a > b {
			return a
		}
		return b
	case OBvAnd:
		a, b := umaxD(t.args[0], d-1), umaxD(t.args[1], d-1)
		if a < b {
			return a
		}
		return b
	case OBvOr, OBvXor:
		a, b := umaxD(t.args[0], d-1), umaxD(t.args[1], d-1)
		return mask(bits.Len64(a | b))
	case OLshr:
		if t.args[1].isConst() {
			if t.args[1].val >= 64 {
				return 0
			}
			return umaxD(t.args[0], d-1) >> t.args[1].val
		}
	case OUrem:
		if t.args[1].isConst() && t.args[1].val > 0 {
			return t.args[1].val - 1
		}
	case OUdiv:
		if t.args[1].isConst() && t.args[1].val > 0 {
			return umaxD(t.args[0], d-1) / t.args[1].val
		}
	case OConcat:
		return umaxD(t.args[0], d-1)<<uint(t.args[1].w) | mask(t.args[1].w)
	case OAdd:
		s := uint64(0)
		for _, a := range t.args {
			x := umaxD(a, d-1)
			if s+x < s || s+x > m {
				return m
			}
			s += x
		}
		return s
	case OMul:
		a, b := umaxD(t.args[0], d-1), umaxD(t.args[1], d-1)
		hi, lo := bits.Mul64(a, b)
		if hi == 0 && lo <= m {
			return lo
		}
	}
	return m
}

func Ult(a, b *Term) *Term {
	chk(a, b)
	if a == b {
		return TFalse
	}
	if a.isConst() && b.isConst() {
		return Bool(a.val < b.val)
	}
	if b.isConst() && b.val == 0 {
		return TFalse
	}
	if a.isConst() && a.val == mask(a.w) {
		return TFalse
	}
	if b.isConst() && umax(a) < b.val {
		return TTrue
	}
	if a.isConst() && umax(b) <= a.val {
		return TFalse
	}
	if a.isConst() && a.val == 0 {
		return Ne(b, a)
	}
	return mk(OUlt, 0, 0, "", nil, a, b)
}
func Ule(a, b *Term) *Term {
	chk(a, b)
	if a == b {
		return TTrue
	}
	if a.isConst() && b.isConst() {
		return Bool(a.val <= b.val)
	}
	if a.isConst() && a.val == 0 {
		return TTrue
	}
	if b.isConst() && b.val == mask(b.w) {
		return TTrue
	}
	if b.isConst() && umax(a) <= b.val {
		return TTrue
	}
	if a.isConst() && umax(b) < a.val {
		return TFalse
	}
	if b.isConst() && b.val == 0 {
		return Eq(a, b)
	}
	return mk(OUle, 0, 0, "", nil, a, b)
}

func nonneg(t *Term) bool { return umax(t) <= mask(t.w)>>1 }

func Slt(a, b *Term) *Term {
	chk(a, b)
	if a == b {
		return TFalse
	}
	if a.isConst() && b.isConst() {
		return Bool(sext64(a.val, a.w) < sext64(b.val, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return Ult(a, b)
	}
	if b.isConst() && nonneg(a) && sext64(b.val, b.w) < 0 {
		return TFalse
	}
	if a.isConst() && nonneg(b) && sext64(a.val, a.w) < 0 {
		return TTrue
	}
	return mk(OSlt, 0, 0, "", nil, a, b)
}
func Sle(a, b *Term) *Term {
	chk(a, b)
	if a == b {
		return TTrue
	}
	if a.isConst() && b.isConst() {
		return Bool(sext64(a.val, a.w) <= sext64(b.val, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return Ule(a, b)
	}
	if b.isConst() && nonneg(a) && sext64(b.val, b.w) < 0 {
		return TFalse
	}
	if a.isConst() && nonneg(b) && sext64(a.val, a.w) <= 0 {
		return TTrue
	}
	return mk(OSle, 0, 0, "", nil, a, b)
}

func isPow2(v uint64) (uint, bool) {
	if v != 0 && v&(v-1) == 0 {
		return uint(bits.TrailingZeros64(v)), true
	}
	return 0, false
}

func Udiv(a, b *Term) *Term {
	chk(a, b)
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			return BV(a.val/b.val, a.w)
		}
		if b.val == 1 {
			return a
		}
		if k, ok := isPow2(b.val); ok {
			return Lshr(a, BV(uint64(k), a.w))
		}
		if umax(a) < b.val {
			return BV(0, a.w)
		}
	}
	return mk(OUdiv, a.w, 0, "", nil, a, b)
}
func Urem(a, b *Term) *Term {
	chk(a, b)
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			return BV(a.val%b.val, a.w)
		}
		if _, ok := isPow2(b.val); ok {
			return BvAnd(a, BV(b.val-1, a.w))
		}
		if umax(a) < b.val {
			return a
		}
	}
	return mk(OUrem, a.w, 0, "", nil, a, b)
}
func Sdiv(a, b *Term) *Term {
	chk(a, b)
	if a.isConst() && b.isConst() && b.val != 0 {
		x, y := sext64(a.val, a.w), sext64(b.val, b.w)
		if y == -1 {
			return Neg(a)
		}
		return BV(uint64(x/y), a.w)
	}
	if nonneg(a) && nonneg(b) && b.isConst() {
		return Udiv(a, b)
	}
	return mk(OSdiv, a.w, 0, "", nil, a, b)
}
func Srem(a, b *Term) *Term {
	chk(a, b)
	if a.isConst() && b.isConst() && b.val != 0 {
		x, y := sext64(a.val, a.w), sext64(b.val, b.w)
		if y == -1 {
			return BV(0, a.w)
		}
		return BV(uint64(x%y), a.w)
	}
	if nonneg(a) && nonneg(b) && b.isConst() {
		return Urem(a, b)
	}
	return mk(OSrem, a.w, 0, "", nil, a, b)
}

func BvAnd(a, b *Term) *Term {
	chk(a, b)
	if a.isConst() && b.isConst() {
		return BV(a.val&b.val, a.w)
	}
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		if b.val == mask(b.w) {
			return a
		}
		u := umax(a)
		if mask(bits.Len64(u))&^b.val == 0 {
			return a
		}
		if u&b.val == 0 && mask(bits.Len64(u))&b.val == 0 {
			return BV(0, a.w)
		}
		if a.op == OBvAnd && a.args[1].isConst() {
			return BvAnd(a.args[0], BV(a.args[1].val&b.val, a.w))
		}
		// low-mask: extract + zext
		if k, ok := isPow2(b.val + 1); ok && int(k) < a.w {
			return Zext(Extract(a, 0, int(k)), a.w)
		}
		if a.op == OBvOr {
			return BvOr(BvAnd(a.args[0], b), BvAnd(a.args[1], b))
		}
		if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
			return Ite(a.args[0], BvAnd(a.args[1], b), BvAnd(a.args[2], b))
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return mk(OBvAnd, a.w, 0, "", nil, a, b)
}
func BvOr(a, b *Term) *Term {
	chk(a, b)
	if a.isConst() && b.isConst() {
		return BV(a.val|b.val, a.w)
	}
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val == mask(b.w) {
			return b
		}
		if a.op == OBvOr && a.args[1].isConst() {
			return BvOr(a.args[0], BV(a.args[1].val|b.val, a.w))
		}
		if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
			return Ite(a.args[0], BvOr(a.args[1], b), BvOr(a.args[2], b))
		}
	}
	if r := disjoint(a, b); r != nil {
		return r
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return mk(OBvOr, a.w, 0, "", nil, a, b)
}

// disjoint recognises x<<k combined with y < 2^k and returns the concatenation.
func disjoint(a, b *Term) *Term {
	for i := 0; i < 2; i++ {
		c := a
		if c.op == OZext {
			c = c.args[0]
		}
		if c.op == OConcat && c.args[1].isConst() && c.args[1].val == 0 {
			k := c.args[1].w
			if umax(b) <= mask(k) {
				return Zext(Concat(c.args[0], Extract(b, 0, k)), a.w)
			}
		}
		a, b = b, a
	}
	return nil
}
func BvXor(a, b *Term) *Term {
	chk(a, b)
	if a.isConst() && b.isConst() {
		return BV(a.val^b.val, a.w)
	}
	if a == b {
		return BV(0, a.w)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && b.val == 0 {
		return a
	}
	if b.isConst() && b.val == mask(b.w) {
		return BvNot(a)
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return mk(OBvXor, a.w, 0, "", nil, a, b)
}
func BvNot(a *Term) *Term {
	if a.isConst() {
		return BV(^a.val, a.w)
	}
	if a.op == OBvNot {
		return a.args[0]
	}
	return mk(OBvNot, a.w, 0, "", nil, a)
}

func Shl(a, b *Term) *Term {
	chk(a, b)
	if b.isConst() {
		if b.val >= uint64(a.w) {
			return BV(0, a.w)
		}
		if b.val == 0 {
			return a
		}
		if a.isConst() {
			return BV(a.val<<b.val, a.w)
		}
		k := int(b.val)
		// concat form: extract(a, 0, w-k) ++ 0_k
		return Concat(Extract(a, 0, a.w-k), BV(0, k))
	}
	if a.isConst() && a.val == 0 {
		return a
	}
	return mk(OShl, a.w, 0, "", nil, a, b)
}
func Lshr(a, b *Term) *Term {
	chk(a, b)
	if b.isConst() {
		if b.val >= uint64(a.w) {
			return BV(0, a.w)
		}
		if b.val == 0 {
			return a
		}
		if a.isConst() {
			return BV(a.val>>b.val, a.w)
		}
		k := int(b.val)
		return Zext(Extract(a, k, a.w-k), a.w)
	}
	if a.isConst() && a.val == 0 {
		return a
	}
	return mk(OLshr, a.w, 0, "", nil, a, b)
}
func Ashr(a, b *Term) *Term {
	chk(a, b)
	if b.isConst() {
		k := b.val
		if k >= uint64(a.w) {
			k = uint64(a.w - 1)
		}
		if k == 0 {
			return a
		}
		if a.isConst() {
			return BV(uint64(sext64(a.val, a.w)>>k), a.w)
		}
		if nonneg(a) {
			return Lshr(a, BV(k, a.w))
		}
		return Sext(Extract(a, int(k), a.w-int(k)), a.w)
	}
	return mk(OAshr, a.w, 0, "", nil, a, b)
}

func Zext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return Extract(a, 0, w)
	}
	if a.isConst() {
		return BV(a.val, w)
	}
	if a.op == OZext {
		return Zext(a.args[0], w)
	}
	return mk(OZext, w, 0, "", nil, a)
}
func Sext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return Extract(a, 0, w)
	}
	if a.isConst() {
		return BV(uint64(sext64(a.val, a.w)), w)
	}
	if nonneg(a) {
		return Zext(a, w)
	}
	if a.op == OSext {
		return Sext(a.args[0], w)
	}
	return mk(OSext, w, 0, "", nil, a)
}

// Extract w bits starting at lo.
func Extract(a *Term, lo, w int) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if a.isConst() {
		return BV(a.val>>uint(lo), w)
	}
	switch a.op {
	case OExtract:
		return Extract(a.args[0], lo+int(a.val), w)
	case OZext:
		in := a.args[0]
		if lo >= in.w {
			return BV(0, w)
		}
		if lo+w <= in.w {
			return Extract(in, lo, w)
		}
		return Zext(Extract(in, lo, in.w-lo), w)
	case OSext:
		in := a.args[0]
		if lo+w <= in.w {
			return Extract(in, lo, w)
		}
		if lo < in.w {
			return Sext(Extract(in, lo, in.w-lo), w)
		}
	case OConcat:
		hi, l := a.args[0], a.args[1]
		if lo+w <= l.w {
			return Extract(l, lo, w)
		}
		if lo >= l.w {
			return Extract(hi, lo-l.w, w)
		}
		return Concat(Extract(hi, 0, lo+w-l.w), Extract(l, lo, l.w-lo))
	case OBvAnd:
		return BvAnd(Extract(a.args[0], lo, w), Extract(a.args[1], lo, w))
	case OBvOr:
		return BvOr(Extract(a.args[0], lo, w), Extract(a.args[1], lo, w))
	case OBvXor:
		return BvXor(Extract(a.args[0], lo, w), Extract(a.args[1], lo, w))
	case OBvNot:
		return BvNot(Extract(a.args[0], lo, w))
	case OIte:
		return Ite(a.args[0], Extract(a.args[1], lo, w), Extract(a.args[2], lo, w))
	case OAdd:
		if lo == 0 {
			l := lin{terms: map[*Term]uint64{}}
			for _, x := range a.args {
				if x.op == OMul && x.args[0].isConst() {
					linAdd(&l, Extract(x.args[1], 0, w), x.args[0].val&mask(w))
				} else {
					linAdd(&l, Extract(x, 0, w), 1)
				}
			}
			return linBuild(l, w)
		}
	case OMul:
		if lo == 0 {
			return Mul(Extract(a.args[0], 0, w), Extract(a.args[1], 0, w))
		}
	}
	return mk(OExtract, w, uint64(lo), "", nil, a)
}
func Concat(hi, lo *Term) *Term {
	if hi.isConst() && lo.isConst() {
		return BV(hi.val<<uint(lo.w)|lo.val, hi.w+lo.w)
	}
	if hi.isConst() && hi.val == 0 {
		return Zext(lo, hi.w+lo.w)
	}
	// adjacent extracts
	if hi.op == OExtract && lo.op == OExtract && hi.args[0] == lo.args[0] && int(hi.val) == int(lo.val)+lo.w {
		return Extract(hi.args[0], int(lo.val), hi.w+lo.w)
	}
	if lo.op == OConcat && hi.op == OExtract && lo.args[0].op == OExtract && hi.args[0] == lo.args[0].args[0] && int(hi.val) == int(lo.args[0].val)+lo.args[0].w {
		return Concat(Concat(hi, lo.args[0]), lo.args[1])
	}
	// zext(x) on top of lo
	if hi.op == OZext {
		return Zext(Concat(hi.args[0], lo), hi.w+lo.w)
	}
	return mk(OConcat, hi.w+lo.w, 0, "", nil, hi, lo)
}

func B2BV(b *Term, w int) *Term { return Ite(b, BV(1, w), BV(0, w)) }

func UF(name string, w int, args ...*Term) *Term {
	return mk(OUF, w, 0, name, nil, args...)
}

// Subst replaces terms in a DAG (used for bound variables).
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	smemo := map[*Seq]*Seq{}
	return substT(t, m, memo, smemo)
}

func substT(t *Term, m map[*Term]*Term, memo map[*Term]*Term, smemo map[*Seq]*Seq) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if !t.hasBound {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = substT(a, m, memo, smemo)
	}
	var sq *Seq
	if t.seq != nil {
		sq = substS(t.seq, m, memo, smemo)
	}
	r := rebuild(t, args, sq)
	memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term, sq *Seq) *Term {
	switch t.op {
	case OConst, OVar, OBound:
		return t
	case ONot:
		return Not(args[0])
	case OAnd:
		return And(args...)
	case OOr:
		return Or(args...)
	case OEq:
		return Eq(args[0], args[1])
	case OIte:
		return Ite(args[0], args[1], args[2])
	case OUlt:
		return Ult(args[0], args[1])
	case OUle:
		return Ule(args[0], args[1])
	case OSlt:
		return Slt(args[0], args[1])
	case OSle:
		return Sle(args[0], args[1])
	case OAdd:
		r := args[0]
		for _, a := range args[1:] {
			r = Add(r, a)
		}
		return r
	case OMul:
		return Mul(args[0], args[1])
	case OUdiv:
		return Udiv(args[0], args[1])
	case OUrem:
		return Urem(args[0], args[1])
	case OSdiv:
		return Sdiv(args[0], args[1])
	case OSrem:
		return Srem(args[0], args[1])
	case OBvAnd:
		return BvAnd(args[0], args[1])
	case OBvOr:
		return BvOr(args[0], args[1])
	case OBvXor:
		return BvXor(args[0], args[1])
	case OBvNot:
		return BvNot(args[0])
	case OShl:
		return Shl(args[0], args[1])
	case OLshr:
		return Lshr(args[0], args[1])
	case OAshr:
		return Ashr(args[0], args[1])
	case OZext:
		return Zext(args[0], t.w)
	case OSext:
		return Sext(args[0], t.w)
	case OExtract:
		return Extract(args[0], int(t.val), t.w)
	case OConcat:
		return Concat(args[0], args[1])
	case OSel, OTable:
		return Select(sq, args[0])
	case OUF:
		return mk(OUF, t.w, 0, t.name, nil, args...)
	case OForall:
		return Forall(args[0], args[1], args[2], args[3])
	}
	panic("rebuild " + fmt.Sprint(t.op))
}

func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 6)
	return sb.String()
}
func (t *Term) str(sb *strings.Builder, d int) {
	if d == 0 {
		fmt.Fprintf(sb, "#%d", t.id)
		return
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			fmt.Fprint(sb, t.val == 1)
		} else if t.w == 64 {
			fmt.Fprint(sb, int64(t.val))
		} else {
			fmt.Fprintf(sb, "0x%x", t.val)
		}
	case OVar, OBound:
		sb.WriteString(t.name)
	case OSel:
		sb.WriteString(t.seq.name + "[")
		t.args[0].str(sb, d-1)
		sb.WriteString("]")
	default:
		n := opNames[t.op]
		if t.op == OUF || t.op == OTable {
			n = t.name
		}
		if t.op == OZext || t.op == OSext || t.op == OExtract || t.op == OForall {
			n = fmt.Sprintf("%s%d_%d", map[Op]string{OZext: "zx", OSext: "sx", OExtract: "ex", OForall: "forall"}[t.op], t.val, t.w)
		}
		sb.WriteString("(" + n)
		for _, a := range t.args {
			sb.WriteString(" ")
			a.str(sb, d-1)
		}
		sb.WriteString(")")
	}
}
