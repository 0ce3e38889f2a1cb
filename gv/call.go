package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// def is a definitional axiom attached to a fresh symbol or an application.
type def struct {
	terms []*Term
	facts []*Fact
}

// withDefs adds the definitional axioms of every symbol occurring in the terms.
func isRecApp(t *Term) bool { return t.op == OUF && strings.HasPrefix(t.name, "rec_") }

// mentionsRec tells whether a recursive specification function occurs in t.
func mentionsRec(t *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if isRecApp(t) {
			return true
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

func (e *Engine) withDefs(as []*Term, facts ...*Fact) ([]*Term, []*Fact) {
	if len(e.defs) == 0 {
		return as, nil
	}
	out := append([]*Term{}, as...)
	var fs []*Fact
	seen := map[*Term]bool{}
	var walk func(t *Term)
	var pend []*def
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if d, ok := e.defs[t]; ok && !(e.noRec && isRecApp(t)) {
			pend = append(pend, d)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range as {
		walk(t)
	}
	for _, f := range facts {
		walk(f.body)
		walk(f.lo)
		walk(f.hi)
	}
	for len(pend) > 0 {
		d := pend[0]
		pend = pend[1:]
		for _, t := range d.terms {
			out = append(out, t)
			walk(t)
		}
		for _, f := range d.facts {
			fs = append(fs, f)
			walk(f.body)
		}
	}
	return out, fs
}

func one(st *State, v Val) []Outcome { return []Outcome{{st: st, res: v}} }

func (e *Engine) doCall(fr *Frame, in ssa.Instruction, c *ssa.CallCommon, st *State) []Outcome {
	pos := e.pos(in.Pos())
	if c.IsInvoke() {
		recv := e.val(fr, c.Value, st)
		var args []Val
		for _, a := range c.Args {
			args = append(args, e.val(fr, a, st))
		}
		switch r := recv.(type) {
		case VIface:
			if r.typ == nil {
				e.mustHold(st, TFalse, "method call on a nil interface", pos, fr)
				return nil
			}
			fn := e.w.prog.LookupMethod(r.typ, c.Method.Pkg(), c.Method.Name())
			if fn == nil {
				panic(unsupported("method " + c.Method.Name() + " of " + r.typ.String()))
			}
			return e.callFunction(fr, fn, append([]Val{r.val}, args...), nil, st, pos)
		case VErr:
			if !e.mustHold(st, Not(r.nilT), "method call on a nil interface", pos, fr) {
				return nil
			}
			if c.Method.Name() == "Error" {
				l := Fresh("errstr.len", 64)
				st.assume(Ult(l, BV(maxLen, 64)))
				return one(st, VStr{SeqFresh("errstr", 8), zero64, l})
			}
		case VPoison:
			panic(unsupported("method call on a havocked interface: " + r.why))
		}
		panic(unsupported(fmt.Sprintf("invoke %s on %T", c.Method.Name(), recv)))
	}
	fv := e.val(fr, c.Value, st)
	f, ok := fv.(VFunc)
	if !ok {
		panic(unsupported(fmt.Sprintf("call of %T", fv)))
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, e.val(fr, a, st))
	}
	if f.blt != nil {
		return e.builtin(fr, f.blt, c, args, st, pos)
	}
	if f.fn == nil {
		e.mustHold(st, TFalse, "call of a nil function", pos, fr)
		return nil
	}
	return e.callFunction(fr, f.fn, args, f.bind, st, pos)
}

// modelKey names a function for the model table.
func modelKey(fn *ssa.Function) string {
	s := fn.String()
	r := strings.NewReplacer("(", "", ")", "", "*", "", "/", "_", ".", "_", "-", "_")
	return r.Replace(s)
}

func (e *Engine) callFunction(fr *Frame, fn *ssa.Function, args, bind []Val, st *State, pos string) []Outcome {
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == vpPath {
		if r, ok := e.vpCall(fr, fn, args, st, pos); ok {
			return r
		}
	}
	if r, ok := e.stdCall(fr, fn, args, st, pos); ok {
		return r
	}
	if r, ok := e.reflectCall(fr, fn.String(), fn, args, st, pos); ok {
		return r
	}
	key := modelKey(fn)
	if m, ok := e.w.models[key]; ok {
		e.trusted["model of "+fn.String()] = true
		return e.callFn(m, args, nil, st, fr, true)
	}
	ghost := e.w.ghostFn(fn)
	if ghost && strings.HasPrefix(fn.Name(), "rec_") {
		return one(st, e.recCall(fn, args, st, fr))
	}
	// a call from the code under verification is checked against the contract of the callee if the
	// lemma says so; a call from a specification executes the body
	if !ghost && !e.unrollAll && fr != nil && !fr.ghost {
		if c := e.contractOf(fn); c != nil {
			e.usedContracts[strings.ReplaceAll(fn.String(), modPath+"/", "")+" by "+c.Name()] = true
			st.inexact = true
			return e.callFn(c, args, nil, st, fr, true)
		}
	}
	if fn.Pkg != nil {
		e.w.build(fn.Pkg)
	}
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body and no model for " + fn.String()))
	}
	if fn.Pkg != nil && !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
		e.stdInlined[fn.String()] = true
	}
	// packages of instantiated generics, wrappers and closures are built with their parents
	return e.callFn(fn, args, bind, st, fr, ghost)
}

func (e *Engine) builtin(fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []Val, st *State, pos string) []Outcome {
	for _, a := range args {
		if p, ok := a.(VPoison); ok {
			panic(unsupported("use of a value havocked by a loop: " + p.why))
		}
	}
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case VSlice:
			if b.Name() == "cap" {
				return one(st, x.cap)
			}
			return one(st, x.len)
		case VStr:
			return one(st, x.len)
		case VPtr:
			n := c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			return one(st, BV(uint64(n), 64))
		case VArr, VElems:
			n := c.Args[0].Type().Underlying().(*types.Array).Len()
			return one(st, BV(uint64(n), 64))
		case VMap:
			if x.obj != 0 {
				if d := st.heap[x.obj].(*MapData); d.anon {
					if len(d.ents) > 0 {
						return one(st, anonMap(st).n)
					}
					return one(st, d.n)
				}
			}
			if x.obj == 0 {
				return one(st, zero64)
			}
			d := st.heap[x.obj].(*MapData)
			if d.anon {
				panic(unsupported("len of a map modified by a loop"))
			}
			n := zero64
			kt := c.Args[0].Type().Underlying().(*types.Map).Key()
			for i, en := range d.ents {
				last := TTrue
				for j := i + 1; j < len(d.ents); j++ {
					last = And(last, Not(e.reify(e.eqTerm(en.key, d.ents[j].key, kt, st), st)))
				}
				if en.del {
					continue
				}
				n = Add(n, B2BV(last, 64))
			}
			return one(st, n)
		}
		panic(unsupported(fmt.Sprintf("len of %T", args[0])))
	case "append":
		return one(st, e.appendOp(fr, c, args, st, pos))
	case "copy":
		d := args[0].(VSlice)
		var seq *Seq
		var soff, slen *Term
		switch s := args[1].(type) {
		case VSlice:
			if s.base.obj == 0 || d.base.obj == 0 {
				return one(st, zero64)
			}
			if _, ok := st.load(s.base).(VElems); ok {
				if _, ok := st.load(d.base).(VElems); ok {
					return one(st, e.copyElems(d, s, st))
				}
			}
			seq, soff, slen = e.boxedSeq(s, st), s.off, s.len
		case VStr:
			if d.base.obj == 0 {
				return one(st, zero64)
			}
			seq, soff, slen = s.seq, s.off, s.len
		}
		n := e.minTerm(d.len, slen, st)
		dst := e.sliceSeq(d, st)
		st.store(d.base, VArr{SeqCopy(dst, d.off, seq, soff, n), st.load(d.base).(VArr).el})
		return one(st, n)
	case "delete":
		m := args[0].(VMap)
		if m.obj == 0 {
			return one(st, nil)
		}
		d := st.heap[m.obj].(*MapData)
		kt := c.Args[0].Type().Underlying().(*types.Map).Key()
		n := &MapData{anon: d.anon, n: d.n, pt: d.pt, seen: d.seen, memo: d.memo}
		for _, en := range d.ents {
			if !e.eqTerm(en.key, args[1], kt, st).isTrue() {
				n.ents = append(n.ents, en)
			}
		}
		if len(n.ents) > 0 || d.anon {
			sym := d.anon
			for _, en := range n.ents {
				if !e.eqTerm(en.key, args[1], kt, st).isFalse() {
					sym = true
				}
			}
			if sym {
				n.ents = append(n.ents, mapEnt{key: args[1], del: true})
			}
		}
		st.heap[m.obj] = n
		return one(st, nil)
	case "ssa:deferstack":
		return one(st, VPtr{})
	case "print", "println":
		return one(st, nil)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(VPtr); ok && p.obj == 0 {
			e.mustHold(st, TFalse, "nil pointer dereference", pos, fr)
			return nil
		}
		return one(st, args[0])
	case "min", "max":
		r := args[0].(*Term)
		sg := isSigned(c.Args[0].Type())
		for _, a := range args[1:] {
			t := a.(*Term)
			lt := Ult(t, r)
			if sg {
				lt = Slt(t, r)
			}
			if b.Name() == "max" {
				lt = Not(lt)
			}
			r = Ite(lt, t, r)
		}
		return one(st, r)
	}
	panic(unsupported("builtin " + b.Name()))
}

// minTerm is min(a,b) of two non-negative lengths, decided by the solver when possible.
func (e *Engine) minTerm(a, b *Term, st *State) *Term {
	c := st.simp(Sle(a, b))
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if e.inForAll == 0 {
		if !e.feasible(st, c) {
			return b
		}
		if !e.feasible(st, Not(c)) {
			return a
		}
	}
	return Ite(c, a, b)
}

func (e *Engine) copyElems(d, s VSlice, st *State) Val {
	n := e.minTerm(d.len, s.len, st)
	if !n.isConst() || !d.off.isConst() || !s.off.isConst() {
		panic(unsupported("copy of composites with symbolic bounds"))
	}
	src := st.load(s.base).(VElems)
	dst := st.load(d.base).(VElems)
	nv := VElems{append([]Val{}, dst.e...)}
	for i := uint64(0); i < n.val; i++ {
		nv.e[d.off.val+i] = src.e[s.off.val+i]
	}
	st.store(d.base, nv)
	return n
}

func (e *Engine) appendOp(fr *Frame, c *ssa.CallCommon, args []Val, st *State, pos string) Val {
	s := args[0].(VSlice)
	el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	var toff, tlen *Term
	var tseq *Seq
	var telems []Val
	switch t := args[1].(type) {
	case VStr:
		tseq, toff, tlen = t.seq, t.off, t.len
	case VSlice:
		toff, tlen = t.off, t.len
		if t.base.obj == 0 || tlen == zero64 {
			return s
		}
		switch a := st.load(t.base).(type) {
		case VArr:
			tseq = a.seq
		case VElems:
			if !tlen.isConst() || !toff.isConst() {
				panic(unsupported("append of composites with symbolic bounds"))
			}
			telems = a.e[toff.val : toff.val+tlen.val]
		default:
			panic(unsupported(fmt.Sprintf("append from %T", a)))
		}
	default:
		panic(unsupported(fmt.Sprintf("append of %T", t)))
	}
	if tlen == zero64 {
		return s
	}
	if !seqElem(el) && boxable(el) {
		_, arr := heapArr(st, s)
		if arr || tseq != nil || !s.len.isConst() {
			if tseq == nil {
				tseq, toff = boxedSeqOf(telems), zero64
			}
			base := SeqConst(zero64)
			if s.base.obj != 0 {
				base = e.boxedSeq(s, st)
				if s.off != zero64 {
					base = SeqCopy(SeqConst(zero64), zero64, base, s.off, s.len)
				}
			}
			n := Add(s.len, tlen)
			p := st.alloc(VArr{SeqCopy(base, s.len, tseq, toff, tlen), el}, types.NewArray(el, -1))
			st.assume(Ult(n, BV(maxLen, 64)))
			return VSlice{p, zero64, n, n, And(s.nilT, Eq(tlen, zero64))}
		}
	}
	if seqElem(el) {
		var base *Seq
		if s.base.obj == 0 {
			base = SeqConst(constOf(0, widthOf(el)))
		} else {
			base = e.sliceSeq(s, st)
			if s.off != zero64 {
				base = SeqCopy(SeqConst(constOf(0, widthOf(el))), zero64, base, s.off, s.len)
			}
		}
		n := Add(s.len, tlen)
		p := st.alloc(VArr{seq: SeqCopy(base, s.len, tseq, toff, tlen)}, types.NewArray(el, -1))
		st.assume(Ult(n, BV(maxLen, 64)))
		nl := And(s.nilT, Eq(tlen, zero64))
		return VSlice{p, zero64, n, n, nl}
	}
	if !s.len.isConst() || !s.off.isConst() {
		panic(unsupported("append to a composite slice of symbolic length"))
	}
	nv := VElems{}
	if s.base.obj != 0 {
		old, ok := st.load(s.base).(VElems)
		if !ok {
			panic(unsupported("append to a havocked composite slice"))
		}
		nv.e = append(nv.e, old.e[s.off.val:s.off.val+s.len.val]...)
	}
	nv.e = append(nv.e, telems...)
	p := st.alloc(nv, types.NewArray(el, int64(len(nv.e))))
	n := BV(uint64(len(nv.e)), 64)
	return VSlice{p, zero64, n, n, TFalse}
}

// ---------------------------------------------------------------- vp primitives

func (e *Engine) strArg(v Val) string {
	s, ok := concStr(v.(VStr))
	if !ok {
		panic(unsupported("non-constant label"))
	}
	return s
}

func (e *Engine) inputName(st *State, n string) string {
	k := 0
	for _, i := range st.inputs {
		if i.base == n {
			k++
		}
	}
	if k == 0 {
		return n
	}
	return fmt.Sprintf("%s#%d", n, k)
}

// fromTape returns the fixed value of an input when replaying a model symbolically.
func (e *Engine) vpCall(fr *Frame, fn *ssa.Function, args []Val, st *State, pos string) ([]Outcome, bool) {
	scalar := func(w int) []Outcome {
		b := e.strArg(args[0])
		n := e.inputName(st, b)
		t := Var("in."+n, w)
		st.inputs = append(st.inputs, Input{name: n, base: b, kind: fn.Name(), val: t})
		return one(st, t)
	}
	switch fn.Name() {
	case "U8", "I8":
		return scalar(8), true
	case "U16", "I16":
		return scalar(16), true
	case "U32", "I32":
		return scalar(32), true
	case "U64", "I64", "Int", "F64":
		return scalar(64), true
	case "Bool", "More":
		return scalar(0), true
	case "Range":
		r := scalar(64)
		t := r[0].res.(*Term)
		if !st.assume(And(Sle(args[1].(*Term), t), Sle(t, args[2].(*Term)))) {
			return nil, true
		}
		return r, true
	case "Bytes", "Str":
		b := e.strArg(args[0])
		n := e.inputName(st, b)
		l := Var("in."+n+".len", 64)
		sq := SeqVar("in."+n, 8)
		st.assume(Ult(l, BV(1<<31, 64)))
		st.inputs = append(st.inputs, Input{name: n, base: b, kind: fn.Name(), seq: sq, len: l})
		if fn.Name() == "Str" {
			return one(st, VStr{sq, zero64, l}), true
		}
		p := st.alloc(VArr{seq: sq}, types.NewArray(types.Typ[types.Uint8], -1))
		return one(st, VSlice{p, zero64, l, l, TFalse}), true
	case "BytesN":
		b := e.strArg(args[0])
		n := e.inputName(st, b)
		l := args[1].(*Term)
		sq := SeqVar("in."+n, 8)
		if !st.assume(And(Sle(zero64, l), Slt(l, BV(1<<31, 64)))) {
			return nil, true
		}
		st.inputs = append(st.inputs, Input{name: n, base: b, kind: fn.Name(), seq: sq, len: l})
		p := st.alloc(VArr{seq: sq}, types.NewArray(types.Typ[types.Uint8], -1))
		return one(st, VSlice{p, zero64, l, l, TFalse}), true
	case "Assume":
		t := args[0].(*Term)
		if !st.assume(t) {
			return nil, true
		}
		if len(t.args) > 0 && !containsForall(t) && !e.feasible(st, TTrue) {
			return nil, true
		}
		return one(st, nil), true
	case "Assert":
		lab := e.strArg(args[1])
		prop, _, _ := strings.Cut(lab, ":")
		if e.cur.prop != "" && isProp(prop) && prop != e.cur.prop {
			return one(st, nil), true
		}
		e.assert(st, args[0].(*Term), "assert", lab, pos)
		return one(st, nil), true
	case "Check": // assert, then assume
		lab := e.strArg(args[1])
		prop, _, _ := strings.Cut(lab, ":")
		if e.cur.prop != "" && isProp(prop) && prop != e.cur.prop {
			return one(st, nil), true
		}
		e.assert(st, args[0].(*Term), "assert", lab, pos)
		if !st.assume(args[0].(*Term)) {
			return nil, true
		}
		return one(st, nil), true
	case "Cover":
		if e.quiet == 0 {
			e.cover(st, e.strArg(args[0]))
		}
		return one(st, nil), true
	case "Native":
		return one(st, TFalse), true
	case "ForAll":
		return one(st, e.forAll(fr, args, st)), true
	case "Eq":
		return one(st, e.bytesEq(args[0].(VSlice), args[1].(VSlice), st)), true
	case "Inv", "Decreases", "Modifies":
		if fn.Name() == "Modifies" {
			if e.invSink != nil {
				sl := args[0].(VSlice)
				*e.invSink = append(*e.invSink, invCond{win: &sl})
			}
			return one(st, nil), true
		}
		if e.invSink == nil {
			panic(unsupported("vp.Inv outside an invariant"))
		}
		g := And(st.pc[e.invBase:]...)
		if fn.Name() == "Decreases" {
			*e.invSink = append(*e.invSink, invCond{t: args[0].(*Term), label: "variant decreases", dec: true})
			return one(st, nil), true
		}
		*e.invSink = append(*e.invSink, invCond{t: Implies(g, args[0].(*Term)), label: e.strArg(args[1])})
		return one(st, nil), true
	case "SameSlice": // identical base, offset and length
		a, b := args[0].(VSlice), args[1].(VSlice)
		return one(st, And(Bool(eqPtr(a.base, b.base)), Eq(a.off, b.off), Eq(a.len, b.len))), true
	case "Any": // arbitrary elements
		if m, ok := args[1].(VIface).val.(VMap); ok && m.obj != 0 {
			st.heap[m.obj] = anonMap(st)
			return one(st, nil), true
		}
		sl, ok := args[1].(VIface).val.(VSlice)
		if !ok || len(sl.base.path) != 0 {
			panic(unsupported("vp.Any of " + fmt.Sprintf("%T", args[1])))
		}
		arr, ok := st.load(sl.base).(VArr)
		if !ok {
			if x, isE := st.load(sl.base).(VElems); isE {
				arr, ok = VArr{boxedSeqOf(x.e), objTypes[sl.base.obj].(*types.Array).Elem()}, true
			}
		}
		if !ok {
			panic(unsupported("vp.Any of composite elements"))
		}
		sq := SeqFresh("any."+e.strArg(args[0]), arr.seq.w)
		st.store(sl.base, VArr{sq, arr.el})
		if arr.el != nil && !types.IsInterface(arr.el) {
			return one(st, nil), true
		}
		// they are pointers to objects that exist
		b := Bound("k")
		st.facts = append(st.facts, NewFact(b, zero64, BV(1<<62, 64), Ule(Select(sq, b), BV(uint64(objN), 64))))
		return one(st, nil), true
	case "WatchKey":
		k := args[0].(VStr)
		st.watch = &k
		return one(st, nil), true
	case "KeysWithin":
		st.keyLo, st.keyHi = args[0].(*Term), args[1].(*Term)
		return one(st, nil), true
	case "Visited":
		m, _ := args[0].(VMap)
		if m.obj != 0 {
			if d := st.heap[m.obj].(*MapData); d.seen != 0 {
				return one(st, st.heap[d.seen]), true
			}
		}
		return one(st, TFalse), true
	case "Watched":
		m, ok := args[0].(VMap)
		if !ok || st.watch == nil {
			panic(unsupported("vp.Watched of " + fmt.Sprintf("%T", args[0])))
		}
		if m.obj == 0 {
			return one(st, VTuple{[]Val{VIface{}, TFalse}}), true
		}
		v, has := e.watched(st.heap[m.obj].(*MapData), st)
		return one(st, VTuple{[]Val{v, has}}), true
	case "Snapshot": // an independent copy of the content (ghost)
		s := args[0].(VSlice)
		if s.base.obj == 0 {
			return one(st, s), true
		}
		p := st.alloc(VArr{seq: e.sliceSeq(s, st)}, types.NewArray(types.Typ[types.Uint8], -1))
		return one(st, VSlice{p, s.off, s.len, s.cap, s.nilT}), true
	case "Unmodelled":
		panic(unsupported("unmodelled: " + e.strArg(args[0])))
	case "F64frombits", "F64bits":
		return one(st, args[0]), true
	case "FoldCase": // strings.ToUpper and strings.ToLower on ASCII content; any string otherwise
		x := args[0].(VStr)
		up := args[1].(*Term).isTrue()
		if c, ok := concStr(x); ok {
			if up {
				c = strings.ToUpper(c)
			} else {
				c = strings.ToLower(c)
			}
			return one(st, VStr{SeqStr(c), zero64, BV(uint64(len(c)), 64)}), true
		}
		lo, hi, bit := uint64('A'), uint64('Z'), uint64(0x20)
		if up {
			lo, hi, bit = 'a', 'z', ^uint64(0x1f)
		}
		b := Bound("fold")
		c := Select(x.seq, Add(x.off, b))
		body := Ite(And(Ule(BV(lo, 8), c), Ule(c, BV(hi, 8))), Add(c, BV(bit&0xff, 8)), c)
		key := foldKey{x.seq, x.off, up}
		if foldMemo[key] == nil {
			foldMemo[key] = SeqLam(b, body)
		}
		res := VStr{foldMemo[key], zero64, x.len}
		b2 := Bound("q")
		ascii := Forall(b2, zero64, x.len, Ult(Select(x.seq, Add(x.off, b2)), BV(0x80, 8)))
		var outs []Outcome
		s2 := st.clone()
		if s2.assume(Not(ascii)) && e.feasible(s2, TTrue) {
			outs = append(outs, Outcome{st: s2, res: freshOf(types.Typ[types.String], "folded", s2)})
		}
		if st.assume(ascii) {
			outs = append(outs, Outcome{st: st, res: res})
		}
		return outs, true
	case "StrID": // names a string: equal names mean equal content
		return one(st, strID(args[0].(VStr))), true
	case "Apply": // an unknown function of its argument
		return one(st, UF("apply."+e.strArg(args[0]), 64, args[1].(*Term))), true
	case "Opaque":
		// an arbitrary error value
		return one(st, VErr{TFalse, Fresh("opaque", 64)}), true
	}
	return nil, false
}

func strID(x VStr) *Term {
	if x.seq.kind == SIte && x.off == zero64 {
		c := x.seq.idx
		la, lb := x.len, x.len
		if x.len.op == OIte && x.len.args[0] == c {
			la, lb = x.len.args[1], x.len.args[2]
		}
		return Ite(c, strID(VStr{x.seq.base, zero64, la}), strID(VStr{x.seq.other, zero64, lb}))
	}
	return boxVal(x)
}

type foldKey struct {
	s   *Seq
	off *Term
	up  bool
}

var foldMemo = map[foldKey]*Seq{}

func isProp(s string) bool {
	if len(s) != 3 || s[0] != 'C' {
		return false
	}
	return s[1] >= '0' && s[1] <= '9' && s[2] >= '0' && s[2] <= '9'
}

func (e *Engine) bytesEq(a, b VSlice, st *State) *Term {
	return e.strEq(e.sliceStr(a, st), e.sliceStr(b, st), st)
}

func (e *Engine) forAll(fr *Frame, args []Val, st *State) *Term {
	lo, hi := args[0].(*Term), args[1].(*Term)
	f := args[2].(VFunc)
	if lo.isConst() && hi.isConst() && sext64(hi.val, 64)-sext64(lo.val, 64) <= 16 {
		c := TTrue
		for i := sext64(lo.val, 64); i < sext64(hi.val, 64); i++ {
			c = And(c, e.closureBool(fr, f, I64(i), st))
		}
		return c
	}
	b := Bound("q")
	s2 := st.clone()
	s2.assume(Sle(lo, b))
	s2.assume(Slt(b, hi))
	body := e.closureBool(fr, f, b, s2)
	if containsForall(body) {
		panic(unsupported("nested quantifier"))
	}
	return Forall(b, lo, hi, body)
}

func (e *Engine) closureBool(fr *Frame, f VFunc, i *Term, st *State) *Term {
	e.inForAll++
	e.quiet++
	n := len(st.pc)
	outs := e.enter(f.fn, []Val{i}, f.bind, st.clone(), fr, true)
	e.quiet--
	e.inForAll--
	var r *Term
	for k := len(outs) - 1; k >= 0; k-- {
		o := outs[k]
		t := o.res.(*Term)
		if r == nil {
			r = t
			if len(outs) == 1 {
				return r
			}
			continue
		}
		r = Ite(And(o.st.pc[n:]...), t, r)
	}
	if r == nil {
		panic(unsupported("quantified body has no outcome"))
	}
	return r
}

// ---------------------------------------------------------------- recursive specification functions

func (e *Engine) flattenArgs(args []Val, st *State) (string, []*Term) {
	name := ""
	var ts []*Term
	var add func(v Val)
	add = func(v Val) {
		switch x := v.(type) {
		case *Term:
			ts = append(ts, x)
		case VSlice:
			if x.base.obj == 0 {
				name += "@nil"
				return
			}
			sq := e.sliceSeq(x, st)
			name += fmt.Sprintf("@%d", sq.id)
			ts = append(ts, x.off, x.len)
		case VStr:
			name += fmt.Sprintf("@%d", x.seq.id)
			ts = append(ts, x.off, x.len)
		case VStruct:
			for _, f := range x.f {
				add(f)
			}
		default:
			panic(unsupported(fmt.Sprintf("rec_ argument %T", v)))
		}
	}
	for _, a := range args {
		add(a)
	}
	return name, ts
}

// recApp remembers the arguments of an application of a recursive specification function.
type recApp struct {
	fn     string
	shape  string
	scal   []*Term
	slices []VStr
}

func (e *Engine) recShape(fn string, args []Val, st *State) *recApp {
	r := &recApp{fn: fn}
	var add func(v Val)
	add = func(v Val) {
		switch x := v.(type) {
		case *Term:
			r.shape += "t"
			r.scal = append(r.scal, x)
		case VSlice:
			if x.base.obj == 0 {
				r.shape += "n"
				return
			}
			r.shape += "s"
			r.slices = append(r.slices, VStr{e.sliceSeq(x, st), x.off, x.len})
		case VStr:
			r.shape += "s"
			r.slices = append(r.slices, x)
		case VStruct:
			for _, f := range x.f {
				add(f)
			}
		}
	}
	for _, a := range args {
		add(a)
	}
	return r
}

// extensionality: equal arguments give equal results, where slices are compared by content.
func (e *Engine) extFacts(goal *Term, as []*Term) []*Term {
	if len(e.recApps) == 0 {
		return nil
	}
	collect := func(ts []*Term) []*Term {
		seen := map[*Term]bool{}
		var out []*Term
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == OUF && e.recApps[t] != nil {
				out = append(out, t)
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		for _, t := range ts {
			walk(t)
		}
		return out
	}
	var out []*Term
	gs := collect([]*Term{goal})
	bs := collect(as)
	done := map[[2]*Term]bool{}
	for _, a := range gs {
		for _, b := range bs {
			ra, rb := e.recApps[a], e.recApps[b]
			if a == b || a.name == b.name || ra.fn != rb.fn || ra.shape != rb.shape || done[[2]*Term{a, b}] || done[[2]*Term{b, a}] || len(done) > 60 {
				continue
			}
			done[[2]*Term{a, b}] = true
			alts := []*Term{Eq(a, b)}
			for i := range ra.scal {
				if ra.scal[i].w != rb.scal[i].w {
					alts = nil
					break
				}
				alts = append(alts, Not(Eq(ra.scal[i], rb.scal[i])))
			}
			if alts == nil {
				continue
			}
			for i := range ra.slices {
				x, y := ra.slices[i], rb.slices[i]
				if x.seq.w != y.seq.w {
					alts = nil
					break
				}
				k := Fresh("ext", 64)
				alts = append(alts, Not(Eq(x.len, y.len)))
				alts = append(alts, And(Sle(zero64, k), Slt(k, x.len), Not(Eq(Select(x.seq, Add(x.off, k)), Select(y.seq, Add(y.off, k))))))
			}
			if alts != nil {
				out = append(out, Or(alts...))
			}
		}
	}
	return out
}

func (e *Engine) recCall(fn *ssa.Function, args []Val, st *State, fr *Frame) Val {
	suffix, ts := e.flattenArgs(args, st)
	rt := fn.Signature.Results().At(0).Type()
	if !isScalar(rt) {
		panic(unsupported("rec_ result must be scalar"))
	}
	app := UF(fn.Name()+suffix, widthOf(rt), ts...)
	if _, ok := e.recApps[app]; !ok && suffix != "" && !app.hasBound {
		e.recApps[app] = e.recShape(fn.Name(), args, st)
	}
	if e.recDepth > 0 || e.inForAll > 0 {
		return app
	}
	if _, ok := e.defs[app]; ok {
		return app
	}
	d := &def{}
	e.defs[app] = d
	e.recDepth++
	e.quiet++
	s2 := st.clone()
	s2.pc = nil
	s2.inPC = map[*Term]bool{}
	s2.eqs = map[*Term]*Term{}
	s2.facts = nil
	outs := e.enter(fn, args, nil, s2, nil, true)
	e.quiet--
	e.recDepth--
	var r *Term
	for k := len(outs) - 1; k >= 0; k-- {
		o := outs[k]
		t := o.res.(*Term)
		if r == nil {
			r = t
			continue
		}
		r = Ite(And(o.st.pc...), t, r)
	}
	if r == nil {
		panic(unsupported("rec_ function without outcome"))
	}
	d.terms = append(d.terms, Eq(app, r))
	e.trusted["recursive specification function "+fn.Name()+" (definitional unfolding)"] = true
	return app
}

// ---------------------------------------------------------------- standard library primitives

var noopCalls = map[string]bool{
	"(*sync.Mutex).Lock": true, "(*sync.Mutex).Unlock": true, "(*sync.RWMutex).Lock": true, "(*sync.RWMutex).Unlock": true,
	"(*sync.RWMutex).RLock": true, "(*sync.RWMutex).RUnlock": true,
	"log.Printf": true, "log.Println": true, "log.Print": true, "fmt.Println": true, "fmt.Printf": true,
}

func (e *Engine) stdCall(fr *Frame, fn *ssa.Function, args []Val, st *State, pos string) ([]Outcome, bool) {
	n := fn.String()
	if noopCalls[n] {
		e.trusted["no-op "+n] = true
		res := fn.Signature.Results()
		if res.Len() == 0 {
			return one(st, nil), true
		}
		t := VTuple{}
		for i := 0; i < res.Len(); i++ {
			t.e = append(t.e, zeroVal(res.At(i).Type()))
		}
		return one(st, t), true
	}
	switch n {
	case "errors.New", "fmt.Errorf":
		e.trusted[n+" returns a new error"] = true
		if e.inInit {
			errN++
			return one(st, VErr{TFalse, BV(uint64(2000000+errN), 64)}), true
		}
		f := Fresh("err", 64)
		st.assume(Ule(BV(1<<32, 64), f)) // unlike the errors made when packages are initialised
		return one(st, VErr{TFalse, f}), true
	case "math.Float64bits", "math.Float64frombits", "math.Float32bits", "math.Float32frombits":
		return one(st, args[0]), true
	case "bytes.Equal":
		e.trusted["bytes.Equal"] = true
		return one(st, e.bytesEq(args[0].(VSlice), args[1].(VSlice), st)), true
	case "bytes.Compare":
		panic(unsupported(n))
	case "fmt.Sprintf":
		return e.sprintf(args, st)
	}
	return nil, false
}

// sprintf models %s, %d of constants; anything else yields an arbitrary string.
func (e *Engine) sprintf(args []Val, st *State) ([]Outcome, bool) {
	f, ok := concStr(args[0].(VStr))
	va := args[1].(VSlice)
	opaque := func() ([]Outcome, bool) {
		e.trusted["fmt.Sprintf returns an arbitrary string"] = true
		l := Fresh("spf.len", 64)
		st.assume(Ult(l, BV(maxLen, 64)))
		return one(st, VStr{SeqFresh("spf", 8), zero64, l}), true
	}
	if !ok {
		return opaque()
	}
	var vals []Val
	if va.base.obj != 0 {
		el, isE := st.load(va.base).(VElems)
		if !isE || !va.len.isConst() || !va.off.isConst() {
			return opaque()
		}
		vals = el.e[va.off.val : va.off.val+va.len.val]
	}
	out := VStr{SeqConst(BV(0, 8)), zero64, zero64}
	lit := func(s string) { out = concatStr(out, VStr{SeqStr(s), zero64, BV(uint64(len(s)), 64)}) }
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			lit(f[i:j])
			i = j - 1
			continue
		}
		i++
		if i >= len(f) || k >= len(vals) {
			return opaque()
		}
		iv, isI := vals[k].(VIface)
		if !isI || iv.typ == nil {
			return opaque()
		}
		k++
		switch f[i] {
		case 's', 'v':
			s, isS := iv.val.(VStr)
			if t, isT := iv.val.(*Term); isT && f[i] == 'v' && t.isConst() && t.w > 0 && isSigned(iv.typ) {
				lit(fmt.Sprint(sext64(t.val, t.w)))
				continue
			}
			if !isS || e.w.prog.MethodSets.MethodSet(iv.typ).Len() > 0 {
				return opaque()
			}
			out = concatStr(out, s)
		case 'd':
			t, isT := iv.val.(*Term)
			if !isT || !t.isConst() {
				return opaque()
			}
			if isSigned(iv.typ) {
				lit(fmt.Sprint(sext64(t.val, t.w)))
			} else {
				lit(fmt.Sprint(t.val))
			}
		default:
			return opaque()
		}
	}
	e.trusted["fmt.Sprintf with %s/%d verbs"] = true
	return one(st, out), true
}

// ---------------------------------------------------------------- globals

func (e *Engine) globalPtr(g *ssa.Global, st *State) Val {
	if p, ok := e.globals[g]; ok {
		if _, has := st.heap[p.obj]; !has {
			st.heap[p.obj] = e.globalInit(g, p.obj)
		}
		return p
	}
	el := g.Type().Underlying().(*types.Pointer).Elem()
	objN++
	p := VPtr{obj: objN}
	objTypes[objN] = el
	e.globals[g] = p
	st.heap[p.obj] = e.globalInit(g, p.obj)
	return p
}

func (e *Engine) globalInit(g *ssa.Global, obj int) (v Val) {
	el := g.Type().Underlying().(*types.Pointer).Elem()
	if g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		if isErrorType(el) {
			return VErr{TFalse, BV(uint64(1000000+obj), 64)}
		}
		if s, ok := el.Underlying().(*types.Struct); ok && s.NumFields() == 0 {
			return VStruct{}
		}
		return VPoison{"global " + g.String()}
	}
	return zeroVal(el)
}

// errN numbers the errors that package initialisers make: they are different from each other.
var errN int

// initPackage executes the package initialiser of a repository package.
func (e *Engine) initPackage(p *ssa.Package, st *State, done map[*ssa.Package]bool) *State {
	if done[p] || !strings.HasPrefix(p.Pkg.Path(), modPath) {
		return st
	}
	done[p] = true
	for _, im := range p.Pkg.Imports() {
		if sp := e.w.prog.Package(im); sp != nil {
			st = e.initPackage(sp, st, done)
		}
	}
	e.w.build(p)
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			e.globalPtr(g, st)
		}
	}
	if p.Pkg.Path() == vpPath {
		return st
	}
	init := p.Func("init")
	fr := &Frame{fn: init, env: map[ssa.Value]Val{}, cuts: map[*ssa.BasicBlock]*Cut{}, unroll: map[*ssa.BasicBlock]int{}, names: map[string]VPtr{}, args0: map[string]Val{}}
	// straight-line: skip the guard, ignore imported inits
	e.quiet++
	defer func() { e.quiet-- }()
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return:
				continue
			case *ssa.Call:
				f, ok := x.Call.Value.(*ssa.Function)
				if ok && f.Name() == "init" && f.Pkg != p {
					continue
				}
				outs := func() (o []Outcome) {
					defer func() {
						if r := recover(); r != nil {
							if u, ok := r.(Unsupported); ok {
								o = []Outcome{{st: st, res: VPoison{"package initialiser: " + u.msg}}}
								return
							}
							panic(r)
						}
					}()
					return e.doCall(fr, x, x.Common(), st)
				}()
				if len(outs) != 1 {
					panic(unsupported("branching package initialiser of " + p.Pkg.Path()))
				}
				st = outs[0].st
				fr.env[x] = outs[0].res
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if g, ok := x.X.(*ssa.Global); ok && g.Name() == "init$guard" {
						fr.env[x] = TFalse
						continue
					}
				}
				e.instr(fr, in, st)
			default:
				if _, ok := in.(*ssa.Store); ok {
					if g, ok := in.(*ssa.Store).Addr.(*ssa.Global); ok && g.Name() == "init$guard" {
						continue
					}
				}
				e.instr(fr, in, st)
			}
		}
	}
	for o, v := range st.heap {
		if a, ok := v.(VArr); ok {
			st.heap[o] = VArr{SeqNorm(a.seq), a.el}
		}
	}
	return st
}
