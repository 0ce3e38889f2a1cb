package main

import "fmt"

// Seq is a (total, infinite) map from 64-bit indices to scalars, hash-consed.
type SeqKind uint8

const (
	SVar SeqKind = iota
	SConst
	SStore
	SCopy
	SIte
	SLam
	SLit
	SHandle // bytes of the string named by handle idx
)

type Seq struct {
	kind     SeqKind
	id       int
	w        int // element width (0 = bool)
	name     string
	base     *Seq  // SStore, SCopy dst, SIte a
	other    *Seq  // SCopy src, SIte b
	idx, val *Term // SStore ; SConst val ; SIte idx=cond ; SCopy: idx=doff
	soff, n  *Term // SCopy
	bound    *Term // SLam: bound var, val = body
	lit      []uint64
	hasBound bool
	depth    int
}

type seqKey struct {
	kind                 SeqKind
	w                    int
	name                 string
	b, o, i, v, s, n, bd int
}

var seqTab = map[seqKey]*Seq{}
var seqN int

func tid(t *Term) int {
	if t == nil {
		return 0
	}
	return t.id
}
func sid(s *Seq) int {
	if s == nil {
		return 0
	}
	return s.id
}

func mkSeq(s Seq) *Seq {
	k := seqKey{s.kind, s.w, s.name, sid(s.base), sid(s.other), tid(s.idx), tid(s.val), tid(s.soff), tid(s.n), tid(s.bound)}
	if r, ok := seqTab[k]; ok {
		return r
	}
	seqN++
	s.id = seqN
	for _, t := range []*Term{s.idx, s.val, s.soff, s.n} {
		if t != nil && t.hasBound {
			s.hasBound = true
		}
	}
	for _, b := range []*Seq{s.base, s.other} {
		if b != nil {
			if b.hasBound {
				s.hasBound = true
			}
			if b.depth >= s.depth {
				s.depth = b.depth + 1
			}
		}
	}
	r := &s
	seqTab[k] = r
	return r
}

func SeqVar(name string, w int) *Seq   { return mkSeq(Seq{kind: SVar, name: name, w: w}) }
func SeqFresh(base string, w int) *Seq { return SeqVar(FreshName(base), w) }
func SeqConst(v *Term) *Seq            { return mkSeq(Seq{kind: SConst, val: v, w: v.w}) }
func SeqLit(vals []uint64, w int) *Seq {
	name := fmt.Sprintf("lit%d:%v", w, vals)
	return mkSeq(Seq{kind: SLit, name: name, lit: vals, w: w})
}
func SeqStr(s string) *Seq {
	v := make([]uint64, len(s))
	for i := 0; i < len(s); i++ {
		v[i] = uint64(s[i])
	}
	return SeqLit(v, 8)
}
func SeqLam(bound, body *Term) *Seq {
	return mkSeq(Seq{kind: SLam, bound: bound, val: body, w: body.w})
}
func SeqIte(c *Term, a, b *Seq) *Seq {
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	return mkSeq(Seq{kind: SIte, idx: c, base: a, other: b, w: a.w})
}

// distinct / equal tests on indices
func idxDiff(a, b *Term) (int64, bool) {
	l := linOf(a)
	linAdd(&l, b, ^uint64(0))
	if len(l.terms) == 0 {
		return int64(l.c), true
	}
	return 0, false
}

func SeqStore(s *Seq, i, v *Term) *Seq {
	if s.w != v.w {
		panic(fmt.Sprintf("seqstore width %d %d", s.w, v.w))
	}
	// overwrite the same index, looking through constant-distance stores
	if s.kind == SStore {
		if d, ok := idxDiff(s.idx, i); ok {
			if d == 0 {
				return SeqStore(s.base, i, v)
			}
		}
	}
	if i.isConst() {
		// keep constant-index stores sorted so that overwriting finds them
		if s.kind == SStore && s.idx.isConst() && s.idx.val > i.val {
			return SeqStore(SeqStore(s.base, i, v), s.idx, s.val)
		}
	}
	return mkSeq(Seq{kind: SStore, base: s, idx: i, val: v, w: s.w})
}

func SeqCopy(dst *Seq, doff *Term, src *Seq, soff, n *Term) *Seq {
	if n.isConst() && n.val == 0 {
		return dst
	}
	if n.isConst() && n.val <= 32 {
		r := dst
		for k := uint64(0); k < n.val; k++ {
			r = SeqStore(r, Add(doff, BV(k, 64)), Select(src, Add(soff, BV(k, 64))))
		}
		return r
	}
	if dst.w != src.w {
		panic("seqcopy width")
	}
	return mkSeq(Seq{kind: SCopy, base: dst, idx: doff, other: src, soff: soff, n: n, w: dst.w})
}

type selKey struct {
	s *Seq
	i *Term
}

var selMemo = map[selKey]*Term{}

func Select(s *Seq, i *Term) *Term {
	k := selKey{s, i}
	if r, ok := selMemo[k]; ok {
		return r
	}
	r := selectRaw(s, i)
	selMemo[k] = r
	return r
}

func selectRaw(s *Seq, i *Term) *Term {
	switch s.kind {
	case SVar:
		return mk(OSel, s.w, 0, "", s, i)
	case SHandle:
		return UF("strbyte", 8, s.idx, i)
	case SConst:
		return s.val
	case SLit:
		if i.isConst() {
			if i.val < uint64(len(s.lit)) {
				return constOf(s.lit[i.val], s.w)
			}
			return constOf(0, s.w)
		}
		if len(s.lit) == 0 {
			return constOf(0, s.w)
		}
		same := true
		for _, v := range s.lit {
			if v != s.lit[0] {
				same = false
			}
		}
		if same && s.lit[0] == 0 {
			return constOf(0, s.w)
		}
		return mk(OTable, s.w, 0, "table", s, i)
	case SStore:
		if d, ok := idxDiff(s.idx, i); ok {
			if d == 0 {
				return s.val
			}
			return Select(s.base, i)
		}
		return Ite(Eq(s.idx, i), s.val, Select(s.base, i))
	case SCopy:
		rel := Sub(i, s.idx)
		in := Ult(rel, s.n)
		if rel.isConst() && int64(rel.val) < 0 {
			// below the copy (offsets are < 2^47 so no wrap)
			return Select(s.base, i)
		}
		if in.isTrue() {
			return Select(s.other, Add(rel, s.soff))
		}
		if in.isFalse() {
			return Select(s.base, i)
		}
		// i = doff + n + k, k >= 0 const: outside
		if d, ok := idxDiff(rel, s.n); ok && d >= 0 {
			return Select(s.base, i)
		}
		return Ite(in, Select(s.other, Add(rel, s.soff)), Select(s.base, i))
	case SIte:
		return Ite(s.idx, Select(s.base, i), Select(s.other, i))
	case SLam:
		return Subst(s.val, map[*Term]*Term{s.bound: i})
	}
	panic("select")
}

func constOf(v uint64, w int) *Term {
	if w == 0 {
		return Bool(v != 0)
	}
	return BV(v, w)
}

func substS(s *Seq, m map[*Term]*Term, memo map[*Term]*Term, smemo map[*Seq]*Seq) *Seq {
	if !s.hasBound {
		return s
	}
	if r, ok := smemo[s]; ok {
		return r
	}
	c := *s
	c.id = 0
	c.hasBound = false
	c.depth = 0
	sub := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return substT(t, m, memo, smemo)
	}
	c.idx, c.val, c.soff, c.n = sub(s.idx), sub(s.val), sub(s.soff), sub(s.n)
	if s.base != nil {
		c.base = substS(s.base, m, memo, smemo)
	}
	if s.other != nil {
		c.other = substS(s.other, m, memo, smemo)
	}
	r := mkSeq(c)
	smemo[s] = r
	return r
}

// SeqNorm turns a long chain of constant stores over zeros into a literal table.
func SeqNorm(s *Seq) *Seq {
	vals := map[uint64]uint64{}
	n := 0
	mx := uint64(0)
	for x := s; ; x = x.base {
		if x.kind == SConst {
			if !x.val.isConst() || x.val.val != 0 {
				return s
			}
			break
		}
		if x.kind != SStore || !x.idx.isConst() || !x.val.isConst() || x.idx.val > 1<<16 {
			return s
		}
		if _, ok := vals[x.idx.val]; !ok {
			vals[x.idx.val] = x.val.val
		}
		if x.idx.val > mx {
			mx = x.idx.val
		}
		n++
	}
	if n < 12 {
		return s
	}
	l := make([]uint64, mx+1)
	for k, v := range vals {
		l[k] = v
	}
	return SeqLit(l, s.w)
}
