package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value: *Term (scalar), VStruct, VElems, VArr, VPtr, VSlice,
// VStr, VIface, VErr, VFunc, VTuple, VMap, VPoison, VPtrSym, VIter.
type Val interface{}

type VStruct struct{ f []Val }
type VElems struct{ e []Val } // fixed-size array of composites
type VArr struct {            // array of scalars (or of handles)
	seq *Seq
	el  types.Type // element type when the handles denote composite values (see box.go)
}
type PE struct {
	field int
	idx   *Term // nil: field step
}
type VPtr struct {
	obj  int // 0 = nil
	path []PE
}
type VPtrSym struct{ h *Term } // pointer known only by handle
type VSlice struct {
	base VPtr // pointer to the backing array
	off  *Term
	len  *Term
	cap  *Term
	nilT *Term
}
type VStr struct {
	seq *Seq
	off *Term
	len *Term
}
type VIface struct {
	typ types.Type // nil: nil interface
	val Val
}
type VErr struct {
	nilT *Term
	id   *Term
}
type VFunc struct {
	fn   *ssa.Function
	bind []Val
	blt  *ssa.Builtin
}
type VTuple struct{ e []Val }
type VPoison struct{ why string }
type VMap struct{ obj int } // 0 = nil map

// MapData is the content of a map object: a list of entries over an optional symbolic base.
// Lookup walks entries from newest to oldest.
type MapData struct {
	ents []mapEnt
	anon bool  // content unknown below the entries (havocked)
	n    *Term // number of unknown entries
	pt   *mapPoint
	seen int      // cell: the iteration met the watched key
	memo []mapEnt // what lookups below the entries have found
}

// mapPoint is what an unknown map[string]interface{} holds at the watched key.
type mapPoint struct {
	ok  *Term
	val Val
}
type mapEnt struct {
	key Val
	val Val
	del bool
	grd *Term // entry present under this guard (nil = always)
}

type VIter struct{ st *iterState }
type iterState struct {
	kind   string // "map" or "string"
	keys   []Val
	vals   []Val
	str    VStr
	cell   int   // heap object holding the position term
	n      *Term // number of entries of an unknown map
	kt, vt types.Type
	mapID  int
	pt     *mapPoint
	seen   int
}

var zero64 = BV(0, 64)
var one64 = BV(1, 64)

func isScalar(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsInteger|types.IsBoolean|types.IsFloat) != 0 || u.Kind() == types.UnsafePointer
	}
	return false
}

// widthOf returns the bit width (0 for bool) of a scalar type.
func widthOf(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return 0
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32, types.UntypedRune, types.Float32:
			return 32
		default:
			return 64
		}
	case *types.Pointer:
		return 64
	}
	panic(unsupported("widthOf " + t.String()))
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// seqElem reports whether elements of this type are stored in a Seq.
func seqElem(t types.Type) bool {
	if isScalar(t) {
		return true
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

type Unsupported struct{ msg string }

func (u Unsupported) Error() string      { return "unsupported: " + u.msg }
func unsupported(msg string) Unsupported { return Unsupported{msg} }

// zeroVal builds the zero value of a type.
func zeroVal(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return VStr{SeqConst(BV(0, 8)), zero64, zero64}
		}
		if u.Kind() == types.UntypedNil {
			return VPtr{}
		}
		return constOf(0, widthOf(t))
	case *types.Struct:
		s := VStruct{make([]Val, u.NumFields())}
		for i := range s.f {
			s.f[i] = zeroVal(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if seqElem(u.Elem()) {
			return VArr{seq: SeqConst(constOf(0, widthOf(u.Elem())))}
		}
		e := VElems{make([]Val, u.Len())}
		for i := range e.e {
			e.e[i] = zeroVal(u.Elem())
		}
		return e
	case *types.Pointer:
		return VPtr{}
	case *types.Slice:
		return VSlice{VPtr{}, zero64, zero64, zero64, TTrue}
	case *types.Interface:
		if isErrorType(t) {
			return VErr{TTrue, zero64}
		}
		return VIface{}
	case *types.Map:
		return VMap{}
	case *types.Signature:
		return VFunc{}
	case *types.Chan:
		return VPtr{}
	case *types.Tuple:
		v := VTuple{make([]Val, u.Len())}
		for i := range v.e {
			v.e[i] = zeroVal(u.At(i).Type())
		}
		return v
	}
	panic(unsupported("zero value of " + t.String()))
}

// State is a symbolic machine state.
type State struct {
	heap    map[int]Val
	pc      []*Term
	inPC    map[*Term]bool
	eqs     map[*Term]*Term
	facts   []*Fact
	trace   []string
	inputs  []Input
	inexact bool
	dead    bool
	watch   *VStr // the watched key of unknown maps
	keyLo   *Term // lengths of the keys of unknown maps
	keyHi   *Term
}

func newState() *State {
	return &State{heap: map[int]Val{}, inPC: map[*Term]bool{}, eqs: map[*Term]*Term{}}
}

func (s *State) clone() *State {
	n := &State{heap: make(map[int]Val, len(s.heap)+8), inPC: make(map[*Term]bool, len(s.inPC)+4), eqs: make(map[*Term]*Term, len(s.eqs)+4)}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.inPC {
		n.inPC[k] = v
	}
	for k, v := range s.eqs {
		n.eqs[k] = v
	}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.facts = s.facts[:len(s.facts):len(s.facts)]
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	n.inputs = s.inputs[:len(s.inputs):len(s.inputs)]
	n.inexact = s.inexact
	n.dead = s.dead
	n.watch, n.keyLo, n.keyHi = s.watch, s.keyLo, s.keyHi
	return n
}

// assume adds a path condition; returns false if it is trivially contradictory.
func (s *State) assume(t *Term) bool {
	t = s.simp(t)
	if t.isTrue() {
		return true
	}
	if t.op == OAnd {
		for _, a := range t.args {
			if !s.assume(a) {
				return false
			}
		}
		return true
	}
	if t.op == OForall {
		s.facts = append(s.facts, NewFact(t.args[0], t.args[1], t.args[2], t.args[3]))
		return true
	}
	if s.inPC[t] {
		return true
	}
	s.pc = append(s.pc, t)
	s.inPC[t] = true
	if t.isFalse() || s.inPC[Not(t)] {
		return false
	}
	if t.op == OEq && t.args[0].w > 0 {
		a, b := t.args[0], t.args[1]
		if b.isConst() {
			s.eqs[a] = b
		} else if a.isConst() {
			s.eqs[b] = a
		}
	}
	return true
}

// simp uses syntactic knowledge in the path condition.
func (s *State) simp(t *Term) *Term {
	if t.w != 0 || t.isConst() {
		return t
	}
	if s.inPC[t] {
		return TTrue
	}
	if s.inPC[Not(t)] {
		return TFalse
	}
	switch t.op {
	case OEq:
		if t.args[0].w > 0 {
			a, b := t.args[0], t.args[1]
			if c, ok := s.eqs[a]; ok {
				a = c
			}
			if c, ok := s.eqs[b]; ok {
				b = c
			}
			if a != t.args[0] || b != t.args[1] {
				return Eq(a, b)
			}
		}
	case OUlt, OUle, OSlt, OSle:
		a, b := t.args[0], t.args[1]
		if c, ok := s.eqs[a]; ok {
			a = c
		}
		if c, ok := s.eqs[b]; ok {
			b = c
		}
		if a != t.args[0] || b != t.args[1] {
			return rebuild(t, []*Term{a, b}, nil)
		}
	case ONot:
		x := s.simp(t.args[0])
		if x != t.args[0] {
			return Not(x)
		}
	case OAnd:
		var out []*Term
		ch := false
		for _, a := range t.args {
			x := s.simp(a)
			if x != a {
				ch = true
			}
			out = append(out, x)
		}
		if ch {
			return And(out...)
		}
	case OOr:
		var out []*Term
		ch := false
		for _, a := range t.args {
			x := s.simp(a)
			if x != a {
				ch = true
			}
			out = append(out, x)
		}
		if ch {
			return Or(out...)
		}
	}
	return t
}

var objN int
var objTypes = map[int]types.Type{}

func (s *State) alloc(v Val, t types.Type) VPtr {
	objN++
	s.heap[objN] = v
	objTypes[objN] = t
	return VPtr{obj: objN}
}

func pathAppend(p []PE, e PE) []PE {
	n := make([]PE, len(p)+1)
	copy(n, p)
	n[len(p)] = e
	return n
}

func (s *State) load(p VPtr) Val {
	root, ok := s.heap[p.obj]
	if !ok {
		panic(unsupported(fmt.Sprintf("load from unknown object %d", p.obj)))
	}
	var v Val = root
	for i := range p.path {
		v = loadPath(v, p.path[i:i+1])
		if l, ok := v.(VLazy); ok {
			v = freshOf(l.t, "element", s)
			s.inexact = true
		}
	}
	if x, ok := v.(VStr); ok && (x.seq.kind == SHandle || x.seq.kind == SIte) {
		s.assume(Ult(x.len, BV(1<<31, 64)))
	}
	return v
}

func loadPath(v Val, path []PE) Val {
	for _, e := range path {
		switch x := v.(type) {
		case VStruct:
			v = x.f[e.field]
		case VArr:
			v = Select(x.seq, e.idx)
			if x.el != nil {
				v = unboxVal(v.(*Term), x.el)
			}
		case VElems:
			if !e.idx.isConst() {
				return loadElemsSym(x, e.idx)
			}
			if e.idx.val >= uint64(len(x.e)) {
				panic(unsupported("constant index out of a composite array"))
			}
			v = x.e[e.idx.val]
		case VPoison:
			return x
		default:
			panic(unsupported(fmt.Sprintf("load path through %T", v)))
		}
	}
	return v
}

func loadElemsSym(x VElems, i *Term) Val {
	if len(x.e) == 0 {
		panic(unsupported("symbolic index into empty composite array"))
	}
	r := x.e[len(x.e)-1]
	for k := len(x.e) - 2; k >= 0; k-- {
		m, ok := mergeVal(Eq(i, BV(uint64(k), 64)), x.e[k], r)
		if !ok {
			return VPoison{"symbolic index into an array of composites"}
		}
		r = m
	}
	return r
}

func (s *State) store(p VPtr, v Val) {
	if len(p.path) == 0 {
		s.heap[p.obj] = v
		return
	}
	root := s.heap[p.obj]
	if x, ok := root.(VElems); ok && len(p.path) == 1 && p.path[0].idx != nil && !p.path[0].idx.isConst() {
		if at, ok := objTypes[p.obj].(*types.Array); ok && boxable(at.Elem()) {
			root = VArr{boxedSeqOf(x.e), at.Elem()}
		}
	}
	s.heap[p.obj] = storePath(root, p.path, v)
}

func storePath(root Val, path []PE, v Val) Val {
	if len(path) == 0 {
		return v
	}
	e := path[0]
	switch x := root.(type) {
	case VStruct:
		n := make([]Val, len(x.f))
		copy(n, x.f)
		n[e.field] = storePath(x.f[e.field], path[1:], v)
		return VStruct{n}
	case VArr:
		if x.el != nil {
			if len(path) > 1 {
				panic(unsupported("store into a part of a boxed element"))
			}
			return VArr{SeqStore(x.seq, e.idx, boxVal(v)), x.el}
		}
		return VArr{seq: SeqStore(x.seq, e.idx, scalarOf(v))}
	case VElems:
		if !e.idx.isConst() {
			// conditional update of every element
			n := make([]Val, len(x.e))
			for k := range x.e {
				nv := storePath(x.e[k], path[1:], v)
				m, ok := mergeVal(Eq(e.idx, BV(uint64(k), 64)), nv, x.e[k])
				if !ok {
					panic(unsupported("symbolic-index store into composite array"))
				}
				n[k] = m
			}
			return VElems{n}
		}
		n := make([]Val, len(x.e))
		copy(n, x.e)
		n[e.idx.val] = storePath(x.e[e.idx.val], path[1:], v)
		return VElems{n}
	}
	panic(unsupported(fmt.Sprintf("store path through %T", root)))
}

// scalarOf converts a value stored in a Seq to its term.
func scalarOf(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case VPtr:
		if len(x.path) == 0 {
			return BV(uint64(x.obj), 64)
		}
	case VPtrSym:
		return x.h
	}
	panic(unsupported(fmt.Sprintf("scalarOf %T", v)))
}

func ptrOfHandle(t *Term) Val {
	if t.isConst() {
		return VPtr{obj: int(t.val)}
	}
	return VPtrSym{t}
}

// mergeVal builds ite(c, a, b) when representable.
func mergeVal(c *Term, a, b Val) (Val, bool) {
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return Ite(c, x, y), true
		}
	case VStr:
		if y, ok := b.(VStr); ok {
			if x == y {
				return x, true
			}
			if x.off == y.off {
				return VStr{SeqIte(c, x.seq, y.seq), x.off, Ite(c, x.len, y.len)}, true
			}
			// rebase both at zero through a lambda
			return VStr{SeqIte(c, rebase(x.seq, x.off), rebase(y.seq, y.off)), zero64, Ite(c, x.len, y.len)}, true
		}
	case VPtr:
		if y, ok := b.(VPtr); ok && eqPtr(x, y) {
			return x, true
		}
	case VPtrSym:
		if y, ok := b.(VPtrSym); ok && x == y {
			return x, true
		}
	case VSlice:
		if y, ok := b.(VSlice); ok && eqPtr(x.base, y.base) {
			return VSlice{x.base, Ite(c, x.off, y.off), Ite(c, x.len, y.len), Ite(c, x.cap, y.cap), Ite(c, x.nilT, y.nilT)}, true
		}
	case VErr:
		if y, ok := b.(VErr); ok {
			if x == y {
				return x, true
			}
			return VErr{Ite(c, x.nilT, y.nilT), Ite(c, x.id, y.id)}, true
		}
	case VStruct:
		if y, ok := b.(VStruct); ok && len(x.f) == len(y.f) {
			n := VStruct{make([]Val, len(x.f))}
			for i := range x.f {
				m, ok := mergeVal(c, x.f[i], y.f[i])
				if !ok {
					return nil, false
				}
				n.f[i] = m
			}
			return n, true
		}
	case VElems:
		if y, ok := b.(VElems); ok && len(x.e) == len(y.e) {
			n := VElems{make([]Val, len(x.e))}
			for i := range x.e {
				m, ok := mergeVal(c, x.e[i], y.e[i])
				if !ok {
					return nil, false
				}
				n.e[i] = m
			}
			return n, true
		}
	case VArr:
		if y, ok := b.(VArr); ok {
			if x.el != y.el && (x.el == nil || y.el == nil || !types.Identical(x.el, y.el)) {
				return nil, false
			}
			return VArr{SeqIte(c, x.seq, y.seq), x.el}, true
		}
	case VTuple:
		if y, ok := b.(VTuple); ok && len(x.e) == len(y.e) {
			n := VTuple{make([]Val, len(x.e))}
			for i := range x.e {
				m, ok := mergeVal(c, x.e[i], y.e[i])
				if !ok {
					return nil, false
				}
				n.e[i] = m
			}
			return n, true
		}
	case VIface:
		if y, ok := b.(VIface); ok {
			if x.typ == nil && y.typ == nil {
				return x, true
			}
			if x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) {
				if isAbstract(x.typ) && !eqVal(x.val, y.val) {
					return VIface{x.typ, VPtrSym{Ite(c, scalarOf(x.val), scalarOf(y.val))}}, true
				}
				m, ok := mergeVal(c, x.val, y.val)
				if ok {
					return VIface{x.typ, m}, true
				}
			}
		}
	case VFunc:
		if y, ok := b.(VFunc); ok && x.fn == y.fn && len(x.bind) == 0 && len(y.bind) == 0 && x.blt == y.blt {
			return x, true
		}
	case VMap:
		if y, ok := b.(VMap); ok && x == y {
			return x, true
		}
	case VPoison:
		return x, true
	case nil:
		if b == nil {
			return nil, true
		}
	}
	if y, ok := b.(VPoison); ok {
		return y, true
	}
	return nil, false
}

func rebase(s *Seq, off *Term) *Seq {
	if off == zero64 {
		return s
	}
	b := Bound("k")
	return SeqLam(b, Select(s, Add(b, off)))
}

func eqPtr(a, b VPtr) bool {
	if a.obj != b.obj || len(a.path) != len(b.path) {
		return false
	}
	for i := range a.path {
		if a.path[i] != b.path[i] {
			return false
		}
	}
	return true
}

// eqVal is structural identity.
func eqVal(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case VStruct:
		y, ok := b.(VStruct)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !eqVal(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case VElems:
		y, ok := b.(VElems)
		if !ok || len(x.e) != len(y.e) {
			return false
		}
		for i := range x.e {
			if !eqVal(x.e[i], y.e[i]) {
				return false
			}
		}
		return true
	case VTuple:
		y, ok := b.(VTuple)
		if !ok || len(x.e) != len(y.e) {
			return false
		}
		for i := range x.e {
			if !eqVal(x.e[i], y.e[i]) {
				return false
			}
		}
		return true
	case VArr:
		y, ok := b.(VArr)
		return ok && x == y
	case VPtr:
		y, ok := b.(VPtr)
		return ok && eqPtr(x, y)
	case VPtrSym:
		y, ok := b.(VPtrSym)
		return ok && x == y
	case VSlice:
		y, ok := b.(VSlice)
		return ok && eqPtr(x.base, y.base) && x.off == y.off && x.len == y.len && x.cap == y.cap && x.nilT == y.nilT
	case VStr:
		y, ok := b.(VStr)
		return ok && x == y
	case VErr:
		y, ok := b.(VErr)
		return ok && x == y
	case VIface:
		y, ok := b.(VIface)
		if !ok {
			return false
		}
		if x.typ == nil || y.typ == nil {
			return x.typ == nil && y.typ == nil
		}
		return types.Identical(x.typ, y.typ) && eqVal(x.val, y.val)
	case VFunc:
		y, ok := b.(VFunc)
		if !ok || x.fn != y.fn || x.blt != y.blt || len(x.bind) != len(y.bind) {
			return false
		}
		for i := range x.bind {
			if !eqVal(x.bind[i], y.bind[i]) {
				return false
			}
		}
		return true
	case VMap:
		y, ok := b.(VMap)
		return ok && x == y
	case *MapData:
		y, ok := b.(*MapData)
		return ok && x == y
	case VPoison:
		_, ok := b.(VPoison)
		return ok
	case VReflect:
		y, ok := b.(VReflect)
		return ok && eqVal(x.v, y.v)
	case VIter:
		y, ok := b.(VIter)
		return ok && x.st == y.st
	case nil:
		return b == nil
	}
	return false
}
