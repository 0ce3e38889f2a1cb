package main

import (
	"fmt"
	"go/types"
)

// Boxes: slices of strings or of empty interfaces whose length is not a constant are
// sequences of 64-bit handles. Handle 0 is the zero value; a constant handle from boxBase
// on names an entry of boxVals; any other handle of an interface is the address of an
// abstract value (*zz_vp.Value), any other handle of a string names an arbitrary string.

const boxBase = 1 << 40

var boxVals []Val

// valueType is *zz_vp.Value.
var valueType types.Type

func boxable(t types.Type) bool {
	if isString(t) {
		return true
	}
	if _, ok := t.Underlying().(*types.Struct); ok {
		return true
	}
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// VLazy is a struct read at an unknown place of an array: any value of its type.
type VLazy struct{ t types.Type }

func isAbstract(t types.Type) bool {
	return t != nil && valueType != nil && types.Identical(t, valueType)
}

func strHandle(h *Term) VStr {
	return VStr{mkSeq(Seq{kind: SHandle, idx: h, w: 8}), zero64, UF("strlen", 64, h)}
}

func boxVal(v Val) *Term {
	switch x := v.(type) {
	case VStr:
		if x.seq.kind == SHandle && x.off == zero64 && x.len == UF("strlen", 64, x.seq.idx) {
			return x.seq.idx
		}
		if x.len == zero64 {
			return zero64
		}
	case VIface:
		if x.typ == nil {
			return zero64
		}
		if isAbstract(x.typ) {
			return scalarOf(x.val)
		}
	case VPoison:
		panic(unsupported("use of a value havocked by a loop: " + x.why))
	}
	for i, b := range boxVals {
		if eqVal(b, v) {
			return BV(uint64(boxBase+i), 64)
		}
	}
	boxVals = append(boxVals, v)
	return BV(uint64(boxBase+len(boxVals)-1), 64)
}

func unboxVal(h *Term, el types.Type) Val {
	if h.isConst() {
		if h.val == 0 {
			return zeroVal(el)
		}
		if h.val >= boxBase {
			return boxVals[h.val-boxBase]
		}
		if isString(el) {
			panic(unsupported("string handle"))
		}
		return VIface{valueType, VPtr{obj: int(h.val)}}
	}
	if isString(el) {
		if h.op == OIte {
			if v, ok := mergeVal(h.args[0], unboxVal(h.args[1], el), unboxVal(h.args[2], el)); ok {
				return v
			}
		}
		return strHandle(h)
	}
	if _, ok := el.Underlying().(*types.Struct); ok {
		if h.op == OIte && hasBox(h) {
			a, b := unboxVal(h.args[1], el), unboxVal(h.args[2], el)
			_, la := a.(VLazy)
			_, lb := b.(VLazy)
			if !la && !lb {
				if v, ok := mergeVal(h.args[0], a, b); ok {
					return v
				}
			}
		}
		return VLazy{el}
	}
	if h.op == OIte && hasBox(h) {
		if v, ok := mergeVal(h.args[0], unboxVal(h.args[1], el), unboxVal(h.args[2], el)); ok {
			return v
		}
		return VPoison{"one of several boxed values"}
	}
	return VIface{valueType, VPtrSym{h}}
}

func hasBox(h *Term) bool {
	if h.isConst() {
		return h.val == 0 || h.val >= boxBase
	}
	return h.op == OIte && (hasBox(h.args[1]) || hasBox(h.args[2]))
}

func boxedSeqOf(vs []Val) *Seq {
	s := SeqConst(zero64)
	for i, v := range vs {
		s = SeqStore(s, BV(uint64(i), 64), boxVal(v))
	}
	return s
}

// boxedSeq is the content of a slice as a sequence (of handles for composite elements).
func (e *Engine) boxedSeq(s VSlice, st *State) *Seq {
	if x, ok := st.load(s.base).(VElems); ok {
		return boxedSeqOf(x.e)
	}
	return e.sliceSeq(s, st)
}

func heapArr(st *State, s VSlice) (VArr, bool) {
	if s.base.obj == 0 {
		return VArr{}, false
	}
	a, ok := st.load(s.base).(VArr)
	return a, ok
}

func anonMap(st *State) *MapData {
	n := Fresh("maplen", 64)
	st.assume(Ult(n, BV(maxLen, 64)))
	d := &MapData{anon: true, n: n}
	if st.watch != nil && valueType != nil {
		h := Fresh("watched", 64)
		st.assume(Ult(h, BV(boxBase, 64)))
		d.pt = &mapPoint{ok: Fresh("has", 0), val: VIface{valueType, VPtrSym{h}}}
		st.assume(Or(Not(d.pt.ok), Ult(zero64, n)))
	}
	return d
}

func isObjectMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok || !isString(m.Key()) {
		return false
	}
	i, ok := m.Elem().Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// watched is what a map holds at the watched key.
func (e *Engine) watched(d *MapData, st *State) (Val, *Term) {
	ok := TFalse
	var v Val = VIface{valueType, VPtrSym{Fresh("nothing", 64)}}
	if d.anon {
		if d.pt == nil {
			panic(unsupported("a map that became unknown before its key was watched"))
		}
		ok, v = d.pt.ok, d.pt.val
	}
	for _, en := range d.ents {
		c := st.simp(e.reify(e.eqTerm(en.key, *st.watch, types.Typ[types.String], st), st))
		if en.del {
			ok = And(ok, Not(c))
			continue
		}
		ok = Or(c, ok)
		switch {
		case c.isTrue():
			v = en.val
		case c.isFalse():
		default:
			m, mok := mergeVal(c, en.val, v)
			if !mok {
				panic(unsupported("watched entry of several types"))
			}
			v = m
		}
	}
	return v, ok
}

// freshOf is an arbitrary value of a type.
func freshOf(t types.Type, n string, st *State) Val {
	if isErrorType(t) {
		return VErr{Fresh(n, 0), Fresh(n, 64)}
	}
	if isScalar(t) {
		return Fresh(n, widthOf(t))
	}
	if isString(t) {
		l := Fresh(n+".len", 64)
		st.assume(Ult(l, BV(1<<31, 64)))
		return VStr{SeqFresh(n, 8), zero64, l}
	}
	if boxable(t) && types.IsInterface(t) {
		h := Fresh(n, 64)
		st.assume(Ult(h, BV(boxBase, 64)))
		return VIface{valueType, VPtrSym{h}}
	}
	newLen := func() (l, nl *Term) {
		l, nl = Fresh(n+".len", 64), Fresh(n+".nil", 0)
		st.assume(Ult(l, BV(1<<31, 64)))
		st.assume(Or(Not(nl), Eq(l, zero64)))
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := VStruct{make([]Val, u.NumFields())}
		for i := range v.f {
			v.f[i] = freshOf(u.Field(i).Type(), n+"."+u.Field(i).Name(), st)
		}
		return v
	case *types.Pointer:
		if el := u.Elem().Underlying(); el != nil && t.String() == "*time.Location" {
			return VPtr{}
		}
	case *types.Slice:
		el := u.Elem()
		var a VArr
		if seqElem(el) {
			a.seq = SeqFresh(n, widthOf(el))
		} else if boxable(el) {
			a = VArr{SeqFresh(n, 64), el}
		} else {
			break
		}
		l, nl := newLen()
		return VSlice{st.alloc(a, types.NewArray(el, -1)), zero64, l, l, nl}
	case *types.Map:
		p := st.alloc(anonMap(st), nil)
		return VMap{p.obj}
	}
	panic(unsupported(fmt.Sprintf("arbitrary value of %s", t)))
}
