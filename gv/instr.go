package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

const maxLen = uint64(1) << 47

func (e *Engine) ptr(fr *Frame, v ssa.Value, st *State) VPtr {
	x := e.val(fr, v, st)
	switch p := x.(type) {
	case VPtr:
		return p
	case VPtrSym:
		return e.resolve(p.h, st)
	case VPoison:
		panic(unsupported("use of a value havocked by a loop: " + p.why))
	}
	panic(unsupported(fmt.Sprintf("pointer expected, got %T", x)))
}

// resolve finds the object a handle must denote under the path condition.
func (e *Engine) resolve(h *Term, st *State) VPtr {
	h = st.simp(h)
	seen := map[*Term]bool{}
	var cands []uint64
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.isConst() {
			cands = append(cands, t.val)
		}
		if t.op == OIte {
			walk(t.args[1])
			walk(t.args[2])
		}
	}
	walk(h)
	for _, c := range cands {
		if _, ok := st.heap[int(c)]; (ok || c == 0) && !e.feasible(st, Ne(h, BV(c, 64))) {
			return VPtr{obj: int(c)}
		}
	}
	panic(unsupported("dereference of an opaque pointer"))
}

// nonNil records the nil-dereference obligation.
func (e *Engine) nonNil(fr *Frame, p VPtr, st *State, pos token.Pos) bool {
	if p.obj == 0 {
		e.mustHold(st, TFalse, "nil pointer dereference", e.pos(pos), fr)
		return false
	}
	return true
}

// instr executes a non-control instruction; false means the path ends here.
func (e *Engine) instr(fr *Frame, in ssa.Instruction, st *State) bool {
	switch x := in.(type) {
	case *ssa.Alloc:
		el := x.Type().Underlying().(*types.Pointer).Elem()
		p := st.alloc(zeroVal(el), el)
		fr.env[x] = p
		if x.Comment != "" {
			fr.names[x.Comment] = p
			if x.Comment == "rangeindex" {
				rangeObj[p.obj] = true
			}
		}
		return true
	case *ssa.Store:
		p := e.ptr(fr, x.Addr, st)
		if !e.nonNil(fr, p, st, x.Pos()) {
			return false
		}
		st.store(p, e.val(fr, x.Val, st))
		return true
	case *ssa.FieldAddr:
		p := e.ptr(fr, x.X, st)
		if !e.nonNil(fr, p, st, x.Pos()) {
			return false
		}
		fr.env[x] = VPtr{p.obj, pathAppend(p.path, PE{field: x.Field})}
		return true
	case *ssa.Field:
		v := e.val(fr, x.X, st)
		s, ok := v.(VStruct)
		if !ok {
			panic(unsupported(fmt.Sprintf("field of %T", v)))
		}
		fr.env[x] = s.f[x.Field]
		return true
	case *ssa.IndexAddr:
		i := e.idx64(fr, x.Index, st)
		switch t := x.X.Type().Underlying().(type) {
		case *types.Slice:
			s := e.slice(fr, x.X, st)
			if !e.mustHold(st, And(Sle(zero64, i), Slt(i, s.len)), "index out of range", e.pos(x.Pos()), fr) {
				return false
			}
			fr.env[x] = VPtr{s.base.obj, pathAppend(s.base.path, PE{idx: Add(s.off, i)})}
		case *types.Pointer:
			p := e.ptr(fr, x.X, st)
			if !e.nonNil(fr, p, st, x.Pos()) {
				return false
			}
			n := t.Elem().Underlying().(*types.Array).Len()
			if !e.mustHold(st, Ult(i, BV(uint64(n), 64)), "index out of range", e.pos(x.Pos()), fr) {
				return false
			}
			fr.env[x] = VPtr{p.obj, pathAppend(p.path, PE{idx: i})}
		default:
			panic(unsupported("IndexAddr " + t.String()))
		}
		return true
	case *ssa.Index:
		i := e.idx64(fr, x.Index, st)
		switch t := x.X.Type().Underlying().(type) {
		case *types.Basic: // string
			s := e.str(fr, x.X, st)
			if !e.mustHold(st, And(Sle(zero64, i), Slt(i, s.len)), "index out of range", e.pos(x.Pos()), fr) {
				return false
			}
			fr.env[x] = Select(s.seq, Add(s.off, i))
		case *types.Array:
			if !e.mustHold(st, Ult(i, BV(uint64(t.Len()), 64)), "index out of range", e.pos(x.Pos()), fr) {
				return false
			}
			fr.env[x] = e.fixPtr(loadPath(e.val(fr, x.X, st), []PE{{idx: i}}), t.Elem())
		default:
			panic(unsupported("Index " + t.String()))
		}
		return true
	case *ssa.UnOp:
		return e.unop(fr, x, st)
	case *ssa.BinOp:
		return e.binop(fr, x, st)
	case *ssa.Convert:
		fr.env[x] = e.convert(e.val(fr, x.X, st), x.X.Type(), x.Type(), st)
		return true
	case *ssa.MultiConvert:
		fr.env[x] = e.convert(e.val(fr, x.X, st), x.X.Type(), x.Type(), st)
		return true
	case *ssa.ChangeType:
		fr.env[x] = e.val(fr, x.X, st)
		return true
	case *ssa.ChangeInterface:
		fr.env[x] = e.toIface(e.val(fr, x.X, st), x.X.Type(), x.Type())
		return true
	case *ssa.MakeInterface:
		fr.env[x] = e.toIface(VIface{x.X.Type(), e.val(fr, x.X, st)}, x.X.Type(), x.Type())
		return true
	case *ssa.TypeAssert:
		return e.typeAssert(fr, x, st)
	case *ssa.Extract:
		t := e.val(fr, x.Tuple, st)
		if p, ok := t.(VPoison); ok {
			fr.env[x] = p
			return true
		}
		fr.env[x] = t.(VTuple).e[x.Index]
		return true
	case *ssa.MakeSlice:
		return e.makeSlice(fr, x, st)
	case *ssa.Slice:
		return e.sliceOp(fr, x, st)
	case *ssa.MakeMap:
		fr.env[x] = VMap{st.alloc(&MapData{}, x.Type()).obj}
		return true
	case *ssa.MapUpdate:
		m := e.val(fr, x.Map, st)
		mm, ok := m.(VMap)
		if !ok {
			panic(unsupported(fmt.Sprintf("map update of %T", m)))
		}
		if mm.obj == 0 {
			e.mustHold(st, TFalse, "assignment to entry in nil map", e.pos(x.Pos()), fr)
			return false
		}
		d := st.heap[mm.obj].(*MapData)
		n := &MapData{anon: d.anon, n: d.n, pt: d.pt, seen: d.seen, memo: d.memo}
		k := e.val(fr, x.Key, st)
		for _, en := range d.ents {
			if c := e.eqTerm(en.key, k, x.Map.Type().Underlying().(*types.Map).Key(), st); !c.isTrue() {
				n.ents = append(n.ents, en)
			}
		}
		n.ents = append(n.ents, mapEnt{key: k, val: e.val(fr, x.Value, st)})
		st.heap[mm.obj] = n
		return true
	case *ssa.MakeClosure:
		f := VFunc{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.bind = append(f.bind, e.val(fr, b, st))
		}
		fr.env[x] = f
		return true
	case *ssa.Next:
		return e.next(fr, x, st)
	case *ssa.SliceToArrayPointer:
		s := e.slice(fr, x.X, st)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !e.mustHold(st, Sle(BV(uint64(n), 64), s.len), "slice to array conversion", e.pos(x.Pos()), fr) {
			return false
		}
		panic(unsupported("slice to array pointer"))
	}
	panic(unsupported(fmt.Sprintf("instruction %T in %s", in, fr.fn)))
}

func (e *Engine) idx64(fr *Frame, v ssa.Value, st *State) *Term {
	t := e.term(fr, v, st)
	if isSigned(v.Type()) {
		return Sext(t, 64)
	}
	return Zext(t, 64)
}

func (e *Engine) slice(fr *Frame, v ssa.Value, st *State) VSlice {
	x := e.val(fr, v, st)
	switch s := x.(type) {
	case VSlice:
		return s
	case VPoison:
		panic(unsupported("use of a slice havocked by a loop: " + s.why))
	}
	panic(unsupported(fmt.Sprintf("slice expected, got %T", x)))
}

func (e *Engine) str(fr *Frame, v ssa.Value, st *State) VStr {
	x := e.val(fr, v, st)
	switch s := x.(type) {
	case VStr:
		return s
	case VPoison:
		panic(unsupported("use of a string havocked by a loop: " + s.why))
	}
	panic(unsupported(fmt.Sprintf("string expected, got %T", x)))
}

// fixPtr turns a handle loaded from a sequence into a pointer value.
func (e *Engine) fixPtr(v Val, t types.Type) Val {
	if _, ok := t.Underlying().(*types.Pointer); ok {
		if h, ok := v.(*Term); ok {
			return ptrOfHandle(h)
		}
	}
	return v
}

func (e *Engine) unop(fr *Frame, x *ssa.UnOp, st *State) bool {
	switch x.Op {
	case token.MUL:
		p := e.ptr(fr, x.X, st)
		if !e.nonNil(fr, p, st, x.Pos()) {
			return false
		}
		if os.Getenv("GV_TRACE") != "" {
			func() {
				defer func() {
					if r := recover(); r != nil {
						fmt.Printf("at %s in %s: %v obj %d %s %#v\n", x, fr.fn, p, p.obj, objTypes[p.obj], st.heap[p.obj])
						panic(r)
					}
				}()
				st.load(p)
			}()
		}
		fr.env[x] = e.fixPtr(st.load(p), x.Type())
	case token.NOT:
		fr.env[x] = Not(e.term(fr, x.X, st))
	case token.SUB:
		t := e.term(fr, x.X, st)
		if isFloat(x.Type()) {
			fr.env[x] = BvXor(t, BV(1<<uint(t.w-1), t.w))
		} else {
			fr.env[x] = Neg(t)
		}
	case token.XOR:
		fr.env[x] = BvNot(e.term(fr, x.X, st))
	default:
		panic(unsupported("unop " + x.Op.String()))
	}
	return true
}

func (e *Engine) binop(fr *Frame, x *ssa.BinOp, st *State) bool {
	a, b := e.val(fr, x.X, st), e.val(fr, x.Y, st)
	if p, ok := a.(VPoison); ok {
		panic(unsupported("use of a value havocked by a loop: " + p.why))
	}
	if p, ok := b.(VPoison); ok {
		panic(unsupported("use of a value havocked by a loop: " + p.why))
	}
	switch x.Op {
	case token.EQL:
		fr.env[x] = e.eqTerm(a, b, x.X.Type(), st)
		return true
	case token.NEQ:
		fr.env[x] = Not(e.eqTerm(a, b, x.X.Type(), st))
		return true
	}
	if isString(x.X.Type()) {
		s, t := a.(VStr), b.(VStr)
		switch x.Op {
		case token.ADD:
			fr.env[x] = concatStr(s, t)
			return true
		default:
			if cs, ok := concStr(s); ok {
				if ct, ok := concStr(t); ok {
					var r bool
					switch x.Op {
					case token.LSS:
						r = cs < ct
					case token.LEQ:
						r = cs <= ct
					case token.GTR:
						r = cs > ct
					case token.GEQ:
						r = cs >= ct
					}
					fr.env[x] = Bool(r)
					return true
				}
			}
			panic(unsupported("string ordering"))
		}
	}
	s, ok1 := a.(*Term)
	t, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported(fmt.Sprintf("binop %s on %T,%T", x.Op, a, b)))
	}
	if isFloat(x.X.Type()) {
		fr.env[x] = floatOp(x.Op, s, t)
		return true
	}
	sg := isSigned(x.X.Type())
	switch x.Op {
	case token.ADD:
		fr.env[x] = Add(s, t)
	case token.SUB:
		fr.env[x] = Sub(s, t)
	case token.MUL:
		fr.env[x] = Mul(s, t)
	case token.QUO, token.REM:
		if !e.mustHold(st, Ne(t, BV(0, t.w)), "integer divide by zero", e.pos(x.Pos()), fr) {
			return false
		}
		switch {
		case x.Op == token.QUO && sg:
			fr.env[x] = Sdiv(s, t)
		case x.Op == token.QUO:
			fr.env[x] = Udiv(s, t)
		case sg:
			// a remainder by a variable that is one conditional subtraction
			if !t.isConst() && !s.isConst() && e.inForAll == 0 && e.invSink == nil {
				z := BV(0, s.w)
				ok := And(Sle(z, s), Slt(z, t), Slt(t, BV(1<<uint(s.w-3), s.w)), Slt(s, Add(t, t)))
				if !e.feasible(st, Not(ok)) {
					fr.env[x] = Ite(Slt(s, t), s, Sub(s, t))
					break
				}
			}
			fr.env[x] = Srem(s, t)
		default:
			fr.env[x] = Urem(s, t)
		}
	case token.AND:
		if s.w == 0 {
			fr.env[x] = And(s, t)
		} else {
			fr.env[x] = BvAnd(s, t)
		}
	case token.OR:
		if s.w == 0 {
			fr.env[x] = Or(s, t)
		} else {
			fr.env[x] = BvOr(s, t)
		}
	case token.XOR:
		fr.env[x] = BvXor(s, t)
	case token.AND_NOT:
		fr.env[x] = BvAnd(s, BvNot(t))
	case token.SHL, token.SHR:
		// shift count: any integer type
		if isSigned(x.Y.Type()) {
			if !e.mustHold(st, Sle(BV(0, t.w), t), "negative shift amount", e.pos(x.Pos()), fr) {
				return false
			}
		}
		var c *Term
		if t.w > s.w {
			// saturate
			c = Ite(Ult(t, BV(uint64(s.w), t.w)), Extract(t, 0, s.w), BV(uint64(s.w), s.w))
			if t.isConst() {
				v := t.val
				if v > uint64(s.w) {
					v = uint64(s.w)
				}
				c = BV(v, s.w)
			}
		} else {
			c = Zext(t, s.w)
		}
		switch {
		case x.Op == token.SHL:
			fr.env[x] = Shl(s, c)
		case sg:
			fr.env[x] = Ashr(s, c)
		default:
			fr.env[x] = Lshr(s, c)
		}
	case token.LSS:
		if sg {
			fr.env[x] = Slt(s, t)
		} else {
			fr.env[x] = Ult(s, t)
		}
	case token.LEQ:
		if sg {
			fr.env[x] = Sle(s, t)
		} else {
			fr.env[x] = Ule(s, t)
		}
	case token.GTR:
		if sg {
			fr.env[x] = Slt(t, s)
		} else {
			fr.env[x] = Ult(t, s)
		}
	case token.GEQ:
		if sg {
			fr.env[x] = Sle(t, s)
		} else {
			fr.env[x] = Ule(t, s)
		}
	default:
		panic(unsupported("binop " + x.Op.String()))
	}
	return true
}

func floatOp(op token.Token, a, b *Term) Val {
	n := fmt.Sprintf("f%d_", a.w)
	switch op {
	case token.ADD:
		return UF(n+"add", a.w, a, b)
	case token.SUB:
		return UF(n+"sub", a.w, a, b)
	case token.MUL:
		return UF(n+"mul", a.w, a, b)
	case token.QUO:
		return UF(n+"div", a.w, a, b)
	case token.LSS:
		return UF(n+"lt", 0, a, b)
	case token.GTR:
		return UF(n+"lt", 0, b, a)
	case token.LEQ:
		return UF(n+"le", 0, a, b)
	case token.GEQ:
		return UF(n+"le", 0, b, a)
	}
	panic(unsupported("float op " + op.String()))
}

func floatEq(a, b *Term) *Term {
	// IEEE equality on bit patterns
	w := a.w
	var exp, man *Term
	nan := func(x *Term) *Term {
		if w == 64 {
			exp = Extract(x, 52, 11)
			man = Extract(x, 0, 52)
			return And(Eq(exp, BV(0x7ff, 11)), Ne(man, BV(0, 52)))
		}
		exp = Extract(x, 23, 8)
		man = Extract(x, 0, 23)
		return And(Eq(exp, BV(0xff, 8)), Ne(man, BV(0, 23)))
	}
	zero := func(x *Term) *Term { return Eq(Extract(x, 0, w-1), BV(0, w-1)) }
	return And(Not(nan(a)), Not(nan(b)), Or(Eq(a, b), And(zero(a), zero(b))))
}

// eqTerm is Go's == on two values of static type t.
func (e *Engine) eqTerm(a, b Val, t types.Type, st *State) *Term {
	switch x := a.(type) {
	case *Term:
		switch y := b.(type) {
		case *Term:
			if isFloat(t) {
				return floatEq(x, y)
			}
			return Eq(x, y)
		}
	case VPtr:
		switch y := b.(type) {
		case VPtr:
			if x.obj != y.obj {
				return TFalse
			}
			if len(x.path) != len(y.path) {
				return TFalse
			}
			c := TTrue
			for i := range x.path {
				if x.path[i].idx == nil || y.path[i].idx == nil {
					if x.path[i].field != y.path[i].field {
						return TFalse
					}
					continue
				}
				c = And(c, Eq(x.path[i].idx, y.path[i].idx))
			}
			return c
		case VPtrSym:
			if len(x.path) == 0 {
				return Eq(y.h, BV(uint64(x.obj), 64))
			}
			return TFalse
		}
	case VPtrSym:
		switch y := b.(type) {
		case VPtrSym:
			return Eq(x.h, y.h)
		case VPtr:
			return e.eqTerm(y, x, t, st)
		}
	case VSlice:
		if y, ok := b.(VSlice); ok {
			// only comparison with nil is legal
			if y.nilT.isTrue() {
				return x.nilT
			}
			return y.nilT
		}
	case VMap:
		if y, ok := b.(VMap); ok {
			if y.obj == 0 {
				return Bool(x.obj == 0)
			}
			return Bool(y.obj == 0 && x.obj == 0)
		}
	case VFunc:
		if y, ok := b.(VFunc); ok {
			an, bn := x.fn == nil && x.blt == nil, y.fn == nil && y.blt == nil
			return Bool(an && bn)
		}
	case VErr:
		switch y := b.(type) {
		case VErr:
			return Or(And(x.nilT, y.nilT), And(Not(x.nilT), Not(y.nilT), Eq(x.id, y.id)))
		case VIface:
			if y.typ == nil {
				return x.nilT
			}
		}
	case VIface:
		switch y := b.(type) {
		case VIface:
			if isAbstract(x.typ) != isAbstract(y.typ) {
				if isAbstract(y.typ) {
					x, y = y, x
				}
				if y.typ == nil {
					return Eq(scalarOf(x.val), zero64)
				}
				panic(unsupported("comparison of an abstract value"))
			}
			if x.typ == nil || y.typ == nil {
				return Bool(x.typ == nil && y.typ == nil)
			}
			if !types.Identical(x.typ, y.typ) {
				return TFalse
			}
			return e.eqTerm(x.val, y.val, x.typ, st)
		case VErr:
			return e.eqTerm(y, x, t, st)
		}
	case VStr:
		if y, ok := b.(VStr); ok {
			return e.strEq(x, y, st)
		}
	case VStruct:
		if y, ok := b.(VStruct); ok {
			u := t.Underlying().(*types.Struct)
			c := TTrue
			for i := range x.f {
				c = And(c, e.eqTerm(x.f[i], y.f[i], u.Field(i).Type(), st))
			}
			return c
		}
	case VArr:
		if y, ok := b.(VArr); ok {
			n := t.Underlying().(*types.Array).Len()
			if n <= 256 {
				c := TTrue
				for i := int64(0); i < n; i++ {
					c = And(c, Eq(Select(x.seq, BV(uint64(i), 64)), Select(y.seq, BV(uint64(i), 64))))
				}
				return c
			}
		}
	case VElems:
		if y, ok := b.(VElems); ok {
			el := t.Underlying().(*types.Array).Elem()
			c := TTrue
			for i := range x.e {
				c = And(c, e.eqTerm(x.e[i], y.e[i], el, st))
			}
			return c
		}
	}
	panic(unsupported(fmt.Sprintf("comparison of %T and %T", a, b)))
}

func concStr(s VStr) (string, bool) {
	if !s.len.isConst() || s.len.val > 1<<16 {
		return "", false
	}
	b := make([]byte, s.len.val)
	for i := range b {
		t := Select(s.seq, Add(s.off, BV(uint64(i), 64)))
		if !t.isConst() {
			return "", false
		}
		b[i] = byte(t.val)
	}
	return string(b), true
}

func concatStr(s, t VStr) VStr {
	if s.len == zero64 {
		return t
	}
	if t.len == zero64 {
		return s
	}
	base := s.seq
	if s.off != zero64 {
		base = SeqCopy(SeqConst(BV(0, 8)), zero64, s.seq, s.off, s.len)
	}
	return VStr{SeqCopy(base, s.len, t.seq, t.off, t.len), zero64, Add(s.len, t.len)}
}

// seqEq: equality of two byte ranges, as a term usable in any position.
func (e *Engine) strEq(a, b VStr, st *State) *Term {
	if a.seq == b.seq && a.off == b.off && a.len == b.len {
		return TTrue
	}
	lenEq := st.simp(Eq(a.len, b.len))
	if lenEq.isFalse() {
		return TFalse
	}
	n := a.len
	if !n.isConst() {
		n = b.len
	}
	if !n.isConst() {
		if c, ok := st.eqs[a.len]; ok {
			n = c
		} else if c, ok := st.eqs[b.len]; ok {
			n = c
		}
	}
	if n.isConst() && n.val <= 256 {
		c := lenEq
		for i := uint64(0); i < n.val; i++ {
			k := BV(i, 64)
			c = And(c, Eq(Select(a.seq, Add(a.off, k)), Select(b.seq, Add(b.off, k))))
			if c.isFalse() {
				break
			}
		}
		return c
	}
	bd := Bound("k")
	body := Eq(Select(a.seq, Add(a.off, bd)), Select(b.seq, Add(b.off, bd)))
	if body.isTrue() {
		return lenEq
	}
	return And(lenEq, Forall(bd, zero64, a.len, body))
}

// reify replaces quantified subformulas of a condition by fresh booleans defined in the state,
// so that both the condition and its negation are usable.
func (e *Engine) reify(t *Term, st *State) *Term {
	if !containsForall(t) {
		return t
	}
	switch t.op {
	case OForall:
		b := Fresh("all", 0)
		bd, lo, hi, body := t.args[0], t.args[1], t.args[2], t.args[3]
		if r, ok := e.reified[t]; ok {
			return r
		}
		w := Fresh("wit", 64)
		e.defs[b] = &def{facts: []*Fact{NewFact(bd, lo, hi, Or(Not(b), body))}, terms: []*Term{Or(b, And(Sle(lo, w), Slt(w, hi), Not(Subst(body, map[*Term]*Term{bd: w}))))}}
		e.reified[t] = b
		return b
	case OAnd:
		var out []*Term
		for _, a := range t.args {
			out = append(out, e.reify(a, st))
		}
		return And(out...)
	case OOr:
		var out []*Term
		for _, a := range t.args {
			out = append(out, e.reify(a, st))
		}
		return Or(out...)
	case ONot:
		return Not(e.reify(t.args[0], st))
	case OIte:
		return Ite(e.reify(t.args[0], st), e.reify(t.args[1], st), e.reify(t.args[2], st))
	}
	panic(unsupported("quantifier under " + opNames[t.op]))
}

func (e *Engine) convert(v Val, from, to types.Type, st *State) Val {
	if p, ok := v.(VPoison); ok {
		return p
	}
	fu, tu := from.Underlying(), to.Underlying()
	fb, fOK := fu.(*types.Basic)
	tb, tOK := tu.(*types.Basic)
	if fOK && tOK {
		switch {
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return v
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			t := v.(*Term)
			w := widthOf(to)
			if isSigned(from) {
				return Sext(t, w)
			}
			return Zext(t, w)
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
			t := v.(*Term)
			if isSigned(from) {
				t = Sext(t, 64)
				return UF(fmt.Sprintf("f%d_of_i64", widthOf(to)), widthOf(to), t)
			}
			if t.w < 64 {
				return UF(fmt.Sprintf("f%d_of_i64", widthOf(to)), widthOf(to), Zext(t, 64))
			}
			if t.op == OZext || t.isConst() && t.val < 1<<63 {
				return UF(fmt.Sprintf("f%d_of_i64", widthOf(to)), widthOf(to), t)
			}
			return Ite(Slt(t, zero64), UF(fmt.Sprintf("f%d_of_u64", widthOf(to)), widthOf(to), t), UF(fmt.Sprintf("f%d_of_i64", widthOf(to)), widthOf(to), t))
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			t := v.(*Term)
			return Extract(UF(fmt.Sprintf("f%d_to_i64", t.w), 64, t), 0, widthOf(to))
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			t := v.(*Term)
			if widthOf(to) == t.w {
				return t
			}
			return UF(fmt.Sprintf("f%d_to_f%d", t.w, widthOf(to)), widthOf(to), t)
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			t := v.(*Term)
			if t.isConst() {
				s := string(rune(sext64(t.val, t.w)))
				return VStr{SeqStr(s), zero64, BV(uint64(len(s)), 64)}
			}
			panic(unsupported("string(rune)"))
		}
	}
	if fOK && fb.Info()&types.IsString != 0 {
		if sl, ok := tu.(*types.Slice); ok && widthOf(sl.Elem()) == 8 {
			s := v.(VStr)
			p := st.alloc(VArr{seq: s.seq}, types.NewArray(sl.Elem(), -1))
			return VSlice{p, s.off, s.len, s.len, TFalse}
		}
	}
	if sl, ok := fu.(*types.Slice); ok && tOK && tb.Info()&types.IsString != 0 && isScalar(sl.Elem()) && widthOf(sl.Elem()) == 8 {
		return e.sliceStr(v.(VSlice), st)
	}
	if _, ok := fu.(*types.Pointer); ok {
		if _, ok := tu.(*types.Pointer); ok {
			return v
		}
	}
	panic(unsupported("conversion " + from.String() + " -> " + to.String()))
}

// sliceStr snapshots the content of a byte slice.
func (e *Engine) sliceStr(s VSlice, st *State) VStr {
	if s.base.obj == 0 {
		return VStr{SeqConst(BV(0, 8)), zero64, zero64}
	}
	return VStr{e.sliceSeq(s, st), s.off, s.len}
}

func (e *Engine) sliceSeq(s VSlice, st *State) *Seq {
	v := st.load(s.base)
	a, ok := v.(VArr)
	if !ok {
		if p, ok := v.(VPoison); ok {
			panic(unsupported("use of an array havocked by a loop: " + p.why))
		}
		panic(unsupported(fmt.Sprintf("scalar array expected, got %T", v)))
	}
	return a.seq
}

func (e *Engine) toIface(v Val, from, to types.Type) Val {
	if isErrorType(to) {
		switch x := v.(type) {
		case VErr:
			return x
		case VIface:
			if x.typ == nil {
				return VErr{TTrue, zero64}
			}
			if er, ok := x.val.(VErr); ok {
				return er
			}
			return VErr{TFalse, Fresh("err", 64)}
		}
	}
	switch x := v.(type) {
	case VErr:
		return x
	case VIface:
		if er, ok := x.val.(VErr); ok {
			return er
		}
		return x
	}
	return v
}

func (e *Engine) typeAssert(fr *Frame, x *ssa.TypeAssert, st *State) bool {
	v := e.val(fr, x.X, st)
	ok := false
	var res Val
	switch i := v.(type) {
	case VIface:
		if isAbstract(i.typ) && !types.Identical(x.AssertedType, valueType) {
			if _, isI := x.AssertedType.Underlying().(*types.Interface); isI || e.cur.lemma.opts["values"] != "unknown" {
				panic(unsupported("the code looks into an abstract value"))
			}
			// a value of an unknown type
			is := Fresh("typeis", 0)
			v := freshOf(x.AssertedType, "asserted", st)
			if x.CommaOk {
				fr.env[x] = VTuple{[]Val{v, is}}
				return true
			}
			if !e.mustHold(st, is, "type assertion failed", e.pos(x.Pos()), fr) {
				return false
			}
			fr.env[x] = v
			return true
		}
		if i.typ != nil {
			if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
				ok = types.Implements(i.typ, it)
				res = i
				if ok && isErrorType(x.AssertedType) {
					res = e.toIface(i, i.typ, x.AssertedType)
				}
			} else {
				ok = types.Identical(i.typ, x.AssertedType)
				res = i.val
			}
		}
	case VErr:
		if isErrorType(x.AssertedType) {
			if x.CommaOk {
				fr.env[x] = VTuple{[]Val{i, Not(i.nilT)}}
				return true
			}
			if !e.mustHold(st, Not(i.nilT), "type assertion failed", e.pos(x.Pos()), fr) {
				return false
			}
			fr.env[x] = i
			return true
		}
		ok = false
	case VPoison:
		panic(unsupported("type assertion on a havocked value: " + i.why))
	default:
		panic(unsupported(fmt.Sprintf("type assertion on %T", v)))
	}
	if x.CommaOk {
		if !ok {
			if isErrorType(x.AssertedType) {
				res = VErr{TTrue, zero64}
			} else {
				res = zeroVal(x.AssertedType)
			}
		}
		fr.env[x] = VTuple{[]Val{res, Bool(ok)}}
		return true
	}
	if !ok {
		e.mustHold(st, TFalse, "type assertion failed", e.pos(x.Pos()), fr)
		return false
	}
	fr.env[x] = res
	return true
}

func arrLenT(n *Term) *types.Array { return nil }

func (e *Engine) newArray(el types.Type, n *Term, st *State) VPtr {
	if seqElem(el) {
		return st.alloc(VArr{seq: SeqConst(constOf(0, widthOf(el)))}, types.NewArray(el, -1))
	}
	if boxable(el) && !n.isConst() {
		return st.alloc(VArr{SeqConst(BV(0, 64)), el}, types.NewArray(el, -1))
	}
	if !n.isConst() || n.val > 4096 {
		panic(unsupported("symbolic-length array of " + el.String()))
	}
	v := VElems{make([]Val, n.val)}
	for i := range v.e {
		v.e[i] = zeroVal(el)
	}
	return st.alloc(v, types.NewArray(el, int64(n.val)))
}

func (e *Engine) makeSlice(fr *Frame, x *ssa.MakeSlice, st *State) bool {
	n := e.idx64(fr, x.Len, st)
	c := e.idx64(fr, x.Cap, st)
	if !e.mustHold(st, And(Sle(zero64, n), Ult(n, BV(maxLen, 64))), "makeslice: len out of range", e.pos(x.Pos()), fr) {
		return false
	}
	if c != n && !e.mustHold(st, And(Sle(n, c), Ult(c, BV(maxLen, 64))), "makeslice: cap out of range", e.pos(x.Pos()), fr) {
		return false
	}
	el := x.Type().Underlying().(*types.Slice).Elem()
	p := e.newArray(el, c, st)
	fr.env[x] = VSlice{p, zero64, n, c, TFalse}
	return true
}

func (e *Engine) sliceOp(fr *Frame, x *ssa.Slice, st *State) bool {
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return e.idx64(fr, v, st)
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = zero64
	}
	pos := e.pos(x.Pos())
	switch t := x.X.Type().Underlying().(type) {
	case *types.Basic:
		s := e.str(fr, x.X, st)
		if hi == nil {
			hi = s.len
		}
		if !e.mustHold(st, And(Sle(zero64, lo), Sle(lo, hi), Sle(hi, s.len)), "slice bounds out of range", pos, fr) {
			return false
		}
		fr.env[x] = VStr{s.seq, Add(s.off, lo), Sub(hi, lo)}
	case *types.Slice:
		s := e.slice(fr, x.X, st)
		if hi == nil {
			hi = s.len
		}
		cp := s.cap
		if mx != nil {
			if !e.mustHold(st, And(Sle(hi, mx), Sle(mx, s.cap)), "slice bounds out of range", pos, fr) {
				return false
			}
			cp = mx
		}
		// when hi is the slice's own length, hi <= cap holds by construction
		c := And(Sle(zero64, lo), Sle(lo, hi))
		if hi != s.len {
			c = And(c, Sle(hi, s.cap))
		}
		if !e.mustHold(st, c, "slice bounds out of range", pos, fr) {
			return false
		}
		fr.env[x] = VSlice{s.base, Add(s.off, lo), Sub(hi, lo), Sub(cp, lo), s.nilT}
	case *types.Pointer:
		p := e.ptr(fr, x.X, st)
		if !e.nonNil(fr, p, st, x.Pos()) {
			return false
		}
		n := BV(uint64(t.Elem().Underlying().(*types.Array).Len()), 64)
		if hi == nil {
			hi = n
		}
		cp := n
		if mx != nil {
			cp = mx
		}
		if !e.mustHold(st, And(Sle(zero64, lo), Sle(lo, hi), Sle(hi, cp), Sle(cp, n)), "slice bounds out of range", pos, fr) {
			return false
		}
		fr.env[x] = VSlice{p, lo, Sub(hi, lo), Sub(cp, lo), TFalse}
	default:
		panic(unsupported("slice of " + t.String()))
	}
	return true
}

// lookup may split the state; it is called from run.
func (e *Engine) lookup(fr *Frame, x *ssa.Lookup, st *State) []Outcome {
	k := e.val(fr, x.Index, st)
	if isString(x.X.Type()) {
		s := e.str(fr, x.X, st)
		i := e.idx64(fr, x.Index, st)
		if !e.mustHold(st, And(Sle(zero64, i), Slt(i, s.len)), "index out of range", e.pos(x.Pos()), fr) {
			return nil
		}
		return []Outcome{{st: st, res: Select(s.seq, Add(s.off, i))}}
	}
	mt := x.X.Type().Underlying().(*types.Map)
	mv := e.val(fr, x.X, st)
	m, ok := mv.(VMap)
	if !ok {
		panic(unsupported(fmt.Sprintf("lookup in %T", mv)))
	}
	wrap := func(v Val, ok *Term) Val {
		if x.CommaOk {
			return VTuple{[]Val{v, ok}}
		}
		return v
	}
	zero := zeroVal(mt.Elem())
	if m.obj == 0 {
		return []Outcome{{st: st, res: wrap(zero, TFalse)}}
	}
	d := st.heap[m.obj].(*MapData)
	// newest first
	type br struct {
		c *Term
		v Val
		k *Term
	}
	var brs []br
	rest := TTrue
	for i := len(d.ents) - 1; i >= 0; i-- {
		en := d.ents[i]
		c := st.simp(e.reify(e.eqTerm(en.key, k, mt.Key(), st), st))
		if c.isFalse() {
			continue
		}
		if en.del {
			brs = append(brs, br{And(rest, c), zero, TFalse})
		} else {
			brs = append(brs, br{And(rest, c), en.val, TTrue})
		}
		rest = And(rest, Not(c))
		if c.isTrue() {
			break
		}
	}
	if !rest.isFalse() && d.anon && d.pt != nil && isObjectMap(x.X.Type()) {
		c := st.simp(e.reify(e.eqTerm(*st.watch, k, mt.Key(), st), st))
		brs = append(brs, br{And(rest, c, d.pt.ok), d.pt.val, TTrue})
		brs = append(brs, br{And(rest, c, Not(d.pt.ok)), zero, TFalse})
		brs = append(brs, br{And(rest, Not(c)), freshOf(mt.Elem(), "mapval", st), Fresh("mapok", 0)})
	} else if !rest.isFalse() && d.anon && isString(mt.Key()) && !isScalar(mt.Elem()) {
		return e.lazyLookup(m, d, k, mt, rest, func() []br2 {
			var l []br2
			for _, b := range brs {
				l = append(l, br2{b.c, b.v, b.k})
			}
			return l
		}(), st, wrap)
	} else if !rest.isFalse() && d.anon {
		brs = append(brs, br{rest, freshOf(mt.Elem(), "mapval", st), Fresh("mapok", 0)})
	} else if !rest.isFalse() {
		brs = append(brs, br{rest, zero, TFalse})
	}
	if len(brs) == 1 {
		return []Outcome{{st: st, res: wrap(brs[0].v, brs[0].k)}}
	}
	acc, okT := brs[len(brs)-1].v, brs[len(brs)-1].k
	merged := true
	for i := len(brs) - 2; i >= 0; i-- {
		mv, ok := mergeVal(brs[i].c, brs[i].v, acc)
		if !ok {
			merged = false
			break
		}
		acc = mv
		okT = Ite(brs[i].c, brs[i].k, okT)
	}
	if merged {
		return []Outcome{{st: st, res: wrap(acc, okT)}}
	}
	var outs []Outcome
	for _, b := range brs {
		if !e.feasible(st, b.c) {
			continue
		}
		s2 := st.clone()
		if !s2.assume(b.c) {
			continue
		}
		outs = append(outs, Outcome{st: s2, res: wrap(b.v, b.k)})
	}
	return outs
}

type br2 struct {
	c *Term
	v Val
	k *Term
}

// lazyLookup reads an unknown map: what it holds at a key is chosen at the first lookup
// of that key and kept from then on.
func (e *Engine) lazyLookup(m VMap, d *MapData, k Val, mt *types.Map, rest *Term, brs []br2, st *State, wrap func(Val, *Term) Val) []Outcome {
	var outs []Outcome
	take := func(c *Term, v Val, ok *Term) {
		if c.isFalse() || !e.feasible(st, c) {
			return
		}
		s2 := st.clone()
		if s2.assume(c) {
			outs = append(outs, Outcome{st: s2, res: wrap(v, ok)})
		}
	}
	for _, b := range brs {
		take(b.c, b.v, b.k)
	}
	for _, en := range d.memo {
		c := st.simp(e.reify(e.eqTerm(en.key, k, mt.Key(), st), st))
		if c.isFalse() {
			continue
		}
		v, ok := en.val, TTrue
		if en.del {
			v, ok = zeroVal(mt.Elem()), TFalse
		}
		take(And(rest, c), v, ok)
		rest = And(rest, Not(c))
		if c.isTrue() {
			break
		}
	}
	if rest.isFalse() || !e.feasible(st, rest) {
		return outs
	}
	for _, has := range []bool{true, false} {
		s2 := st.clone()
		if !s2.assume(rest) {
			continue
		}
		d2 := *d
		en := mapEnt{key: k, del: !has}
		if has {
			en.val = freshOf(mt.Elem(), "mapval", s2)
			s2.assume(Ult(zero64, d.n))
		}
		d2.memo = append(append([]mapEnt{}, d.memo...), en)
		s2.heap[m.obj] = &d2
		if has {
			outs = append(outs, Outcome{st: s2, res: wrap(en.val, TTrue)})
		} else {
			outs = append(outs, Outcome{st: s2, res: wrap(zeroVal(mt.Elem()), TFalse)})
		}
	}
	return outs
}

// rangeInit starts an iteration; map iteration order is arbitrary, so every order is explored.
func (e *Engine) rangeInit(fr *Frame, x *ssa.Range, st *State) []Outcome {
	v := e.val(fr, x.X, st)
	switch m := v.(type) {
	case VStr:
		c := st.alloc(zero64, types.Typ[types.Int])
		return []Outcome{{st: st, res: VIter{&iterState{kind: "string", str: m, cell: c.obj}}}}
	case VMap:
		var keys, vals []Val
		if m.obj != 0 {
			d := st.heap[m.obj].(*MapData)
			if d.anon {
				if len(d.ents) > 0 {
					d = anonMap(st)
				}
				c := st.alloc(zero64, types.Typ[types.Int])
				mt := x.X.Type().Underlying().(*types.Map)
				it := &iterState{kind: "anon", cell: c.obj, n: d.n, kt: mt.Key(), vt: mt.Elem()}
				if d.pt != nil && isObjectMap(x.X.Type()) {
					d2 := *d
					d2.seen = st.alloc(TFalse, types.Typ[types.Bool]).obj
					st.heap[m.obj] = &d2
					it.pt, it.seen = d.pt, d2.seen
				}
				return []Outcome{{st: st, res: VIter{it}}}
			}
			for i, en := range d.ents {
				if en.del {
					panic(unsupported("range over a map with deletions"))
				}
				for j := 0; j < i; j++ {
					if !st.simp(e.reify(e.eqTerm(en.key, d.ents[j].key, x.X.Type().Underlying().(*types.Map).Key(), st), st)).isFalse() {
						if e.feasible(st, e.reify(e.eqTerm(en.key, d.ents[j].key, x.X.Type().Underlying().(*types.Map).Key(), st), st)) {
							panic(unsupported("range over a map with possibly equal symbolic keys"))
						}
					}
				}
				keys = append(keys, en.key)
				vals = append(vals, en.val)
			}
		}
		n := len(keys)
		if n > 4 {
			panic(unsupported(fmt.Sprintf("range over a map of %d entries", n)))
		}
		var outs []Outcome
		perm := make([]int, 0, n)
		used := make([]bool, n)
		var rec func()
		rec = func() {
			if len(perm) == n {
				s2 := st.clone()
				it := &iterState{kind: "map", mapID: m.obj}
				for _, p := range perm {
					it.keys = append(it.keys, keys[p])
					it.vals = append(it.vals, vals[p])
				}
				c := s2.alloc(zero64, types.Typ[types.Int])
				it.cell = c.obj
				outs = append(outs, Outcome{st: s2, res: VIter{it}})
				return
			}
			for i := 0; i < n; i++ {
				if !used[i] {
					used[i] = true
					perm = append(perm, i)
					rec()
					perm = perm[:len(perm)-1]
					used[i] = false
				}
			}
		}
		rec()
		return outs
	}
	panic(unsupported(fmt.Sprintf("range over %T", v)))
}

func (e *Engine) next(fr *Frame, x *ssa.Next, st *State) bool {
	it := e.val(fr, x.Iter, st).(VIter).st
	pv, ok := st.heap[it.cell].(*Term)
	if !ok {
		panic(unsupported("iteration position lost"))
	}
	if it.kind == "anon" {
		more := And(Sle(zero64, pv), Slt(pv, it.n))
		st.heap[it.cell] = Ite(more, Add(pv, one64), pv)
		tt := x.Type().(*types.Tuple)
		z := func(i int, t types.Type) Val {
			if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return freshOf(t, "entry", st)
		}
		kv, vv := z(1, it.kt), z(2, it.vt)
		if it.pt != nil {
			seen := st.heap[it.seen].(*Term)
			if kv == nil {
				panic(unsupported("range over a watched map without its keys"))
			}
			c := e.reify(e.eqTerm(kv, *st.watch, it.kt, st), st)
			st.assume(Or(more, Not(it.pt.ok), seen))
			st.assume(Or(Not(more), Not(c), And(it.pt.ok, Not(seen))))
			if l := kv.(VStr).len; st.keyLo != nil {
				st.assume(Or(Not(more), And(Ule(st.keyLo, l), Ule(l, st.keyHi))))
			}
			st.heap[it.seen] = Or(seen, And(more, c))
			if vv != nil {
				m, ok := mergeVal(c, it.pt.val, vv)
				if !ok {
					panic(unsupported("watched entry of several types"))
				}
				vv = m
			}
		}
		fr.env[x] = VTuple{[]Val{more, kv, vv}}
		return true
	}
	if it.kind == "map" {
		if !pv.isConst() {
			panic(unsupported("map iteration inside a cut loop"))
		}
		i := int(pv.val)
		st.heap[it.cell] = BV(uint64(i+1), 64)
		if i >= len(it.keys) {
			tt := x.Type().(*types.Tuple)
			z := func(t types.Type) Val {
				if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
					return nil
				}
				return zeroVal(t)
			}
			fr.env[x] = VTuple{[]Val{TFalse, z(tt.At(1).Type()), z(tt.At(2).Type())}}
			return true
		}
		fr.env[x] = VTuple{[]Val{TTrue, it.keys[i], it.vals[i]}}
		return true
	}
	// string: bytes below 0x80 stand for themselves, others for any rune of any width
	s := it.str
	more := Slt(pv, s.len)
	c := Select(s.seq, Add(s.off, pv))
	width, r := one64, Zext(c, 32)
	if st.simp(Or(Not(more), Ult(c, BV(0x80, 8)))) != TTrue {
		w, u := Fresh("runewidth", 64), Fresh("rune", 32)
		st.assume(And(Ule(one64, w), Ule(w, BV(4, 64))))
		st.assume(Or(Not(more), Sle(Add(pv, w), s.len)))
		st.assume(And(Ule(BV(0x80, 32), u), Ule(u, BV(0x10ffff, 32))))
		low := Ult(c, BV(0x80, 8))
		width, r = Ite(low, one64, w), Ite(low, r, u)
	}
	st.heap[it.cell] = Ite(more, Add(pv, width), pv)
	fr.env[x] = VTuple{[]Val{more, pv, r}}
	return true
}
