package main

import (
	"go/types"
	"reflect"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// VReflect is a reflect.Value holding a copy of the value of an interface.
type VReflect struct{ v VIface }

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return map[types.BasicKind]reflect.Kind{
			types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16,
			types.Int32: reflect.Int32, types.Int64: reflect.Int64, types.Uint: reflect.Uint, types.Uint8: reflect.Uint8,
			types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr,
			types.Float32: reflect.Float32, types.Float64: reflect.Float64, types.Complex64: reflect.Complex64,
			types.Complex128: reflect.Complex128, types.String: reflect.String, types.UnsafePointer: reflect.UnsafePointer,
		}[u.Kind()]
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Struct:
		return reflect.Struct
	case *types.Pointer:
		return reflect.Ptr
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	case *types.Interface:
		return reflect.Interface
	}
	panic(unsupported("reflect kind of " + t.String()))
}

// reflectCall models the part of package reflect that only reads a value, and a few other
// library functions.
func (e *Engine) reflectCall(fr *Frame, n string, fn *ssa.Function, args []Val, st *State, pos string) ([]Outcome, bool) {
	mark := func() { e.trusted[n] = true }
	switch n {
	case "reflect.ValueOf":
		i, ok := args[0].(VIface)
		if !ok {
			panic(unsupported("reflect.ValueOf of an error or unknown value"))
		}
		if isAbstract(i.typ) {
			panic(unsupported("the code looks into an abstract value"))
		}
		mark()
		return one(st, VReflect{i}), true
	case "time.Unix":
		s, ns := args[0].(*Term), args[1].(*Term)
		e.assert(st, Ult(ns, BV(1000000000, 64)), "model", "time.Unix with nanoseconds below a second", pos)
		mark()
		return one(st, VStruct{[]Val{ns, Add(s, BV(62135596800, 64)), VPtr{}}}), true
	case "(time.Time).Unix":
		mark()
		return one(st, Sub(args[0].(VStruct).f[1].(*Term), BV(62135596800, 64))), true
	case "(time.Time).UTC":
		mark()
		return one(st, args[0]), true
	case "sort.Strings":
		return e.sortStrings(args[0].(VSlice), st), true
	}
	if len(args) == 0 {
		return nil, false
	}
	r, ok := args[0].(VReflect)
	if !ok {
		return nil, false
	}
	mark()
	need := func(c bool) bool {
		if !c {
			e.mustHold(st, TFalse, n+" of a value of another kind", pos, fr)
		}
		return c
	}
	t := r.v.typ
	k := reflect.Invalid
	if t != nil {
		k = kindOf(t)
	}
	switch fn.Name() {
	case "Kind":
		return one(st, BV(uint64(k), 64)), true
	case "Type":
		if !need(t != nil) {
			return nil, true
		}
		s := types.TypeString(t, nil)
		return one(st, VIface{types.Typ[types.String], VStr{SeqStr(s), zero64, BV(uint64(len(s)), 64)}}), true
	case "Interface":
		if !need(t != nil) {
			return nil, true
		}
		return one(st, r.v), true
	case "Bool":
		if !need(k == reflect.Bool) {
			return nil, true
		}
		return one(st, r.v.val), true
	case "Int":
		if !need(k >= reflect.Int && k <= reflect.Int64) {
			return nil, true
		}
		return one(st, Sext(r.v.val.(*Term), 64)), true
	case "Uint":
		if !need(k >= reflect.Uint && k <= reflect.Uintptr) {
			return nil, true
		}
		return one(st, Zext(r.v.val.(*Term), 64)), true
	case "Float":
		if !need(k == reflect.Float32 || k == reflect.Float64) {
			return nil, true
		}
		return one(st, e.convert(r.v.val, t, types.Typ[types.Float64], st)), true
	case "String":
		if k != reflect.String {
			panic(unsupported(n + " of a value that is not a string"))
		}
		return one(st, r.v.val), true
	case "Len":
		switch k {
		case reflect.String:
			return one(st, r.v.val.(VStr).len), true
		case reflect.Slice:
			return one(st, r.v.val.(VSlice).len), true
		case reflect.Array:
			return one(st, BV(uint64(t.Underlying().(*types.Array).Len()), 64)), true
		}
		panic(unsupported(n + " of " + t.String()))
	case "Index":
		i := args[1].(*Term)
		switch k {
		case reflect.Slice:
			s := r.v.val.(VSlice)
			if !e.mustHold(st, And(Sle(zero64, i), Slt(i, s.len)), "reflect: slice index out of range", pos, fr) {
				return nil, true
			}
			el := t.Underlying().(*types.Slice).Elem()
			v := st.load(VPtr{s.base.obj, pathAppend(s.base.path, PE{idx: Add(s.off, i)})})
			if el.Underlying() == types.Universe.Lookup("any").Type().Underlying() || types.IsInterface(el) {
				iv, ok := v.(VIface)
				if !ok {
					panic(unsupported(n + " of this element"))
				}
				return one(st, VReflect{iv}), true
			}
			return one(st, VReflect{VIface{el, v}}), true
		case reflect.Array:
			l := t.Underlying().(*types.Array)
			if !e.mustHold(st, And(Sle(zero64, i), Slt(i, BV(uint64(l.Len()), 64))), "reflect: array index out of range", pos, fr) {
				return nil, true
			}
			v := loadPath(r.v.val, []PE{{idx: i}})
			if types.IsInterface(l.Elem()) {
				iv, ok := v.(VIface)
				if !ok {
					panic(unsupported(n + " of this element"))
				}
				return one(st, VReflect{iv}), true
			}
			return one(st, VReflect{VIface{l.Elem(), v}}), true
		}
		panic(unsupported(n + " of " + t.String()))
	}
	panic(unsupported(n))
}

// sortStrings leaves some permutation of the elements (arbitrary elements for slices of symbolic length).
func (e *Engine) sortStrings(s VSlice, st *State) []Outcome {
	e.trusted["sort.Strings permutes its argument"] = true
	if s.base.obj == 0 || s.len == zero64 {
		return one(st, nil)
	}
	x, ok := st.load(s.base).(VElems)
	if !ok || !s.len.isConst() || !s.off.isConst() {
		if ok {
			panic(unsupported("sort of part of an array"))
		}
		a := st.load(s.base).(VArr)
		f := SeqFresh("sorted", 64)
		st.store(s.base, VArr{SeqCopy(a.seq, s.off, f, s.off, s.len), a.el})
		st.inexact = true
		return one(st, nil)
	}
	off, n := int(s.off.val), int(s.len.val)
	conc := make([]string, n)
	all := true
	for i := range conc {
		c, ok := concStr(x.e[off+i].(VStr))
		if !ok {
			all = false
		}
		conc[i] = c
	}
	set := func(st *State, vs []Val) {
		ne := append([]Val{}, x.e...)
		copy(ne[off:], vs)
		st.store(s.base, VElems{ne})
	}
	if all {
		sort.Strings(conc)
		vs := make([]Val, n)
		for i, c := range conc {
			vs[i] = VStr{SeqStr(c), zero64, BV(uint64(len(c)), 64)}
		}
		set(st, vs)
		return one(st, nil)
	}
	if n > 3 {
		panic(unsupported("sort of more than 3 symbolic strings"))
	}
	st.inexact = true
	var outs []Outcome
	used := make([]bool, n)
	var cur []Val
	var rec func()
	rec = func() {
		if len(cur) == n {
			s2 := st.clone()
			set(s2, cur)
			outs = append(outs, Outcome{st: s2})
			return
		}
		for i := range used {
			if !used[i] {
				used[i] = true
				cur = append(cur, x.e[off+i])
				rec()
				cur = cur[:len(cur)-1]
				used[i] = false
			}
		}
	}
	rec()
	return outs
}
