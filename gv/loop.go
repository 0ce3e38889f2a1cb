package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// rangeObj holds the hidden counters of range loops.
var rangeObj = map[int]bool{}

type modKind int

const (
	mScalar modKind = iota
	mArray
	mSliceSame
	mSliceFresh
	mStr
	mErr
	mMap
	mSym
	mPoison
)

type modCell struct {
	obj  int
	path []PE
	kind modKind
}

type modSet struct {
	cells map[string]*modCell
}

func newModSet() *modSet { return &modSet{cells: map[string]*modCell{}} }

func (m *modSet) add(obj int, path []PE, k modKind) bool {
	key := fmt.Sprint(obj)
	for _, p := range path {
		if p.idx != nil {
			key += fmt.Sprintf("[%d]", p.idx.val)
		} else {
			key += fmt.Sprintf(".%d", p.field)
		}
	}
	if c, ok := m.cells[key]; ok {
		if c.kind == k || c.kind == mPoison {
			return false
		}
		if c.kind == mSliceFresh && k == mSliceSame {
			return false
		}
		if c.kind == mSliceSame && k == mSliceFresh {
			c.kind = k
			return true
		}
		c.kind = mPoison
		return true
	}
	m.cells[key] = &modCell{obj, append([]PE{}, path...), k}
	return true
}

func (m *modSet) sorted() []*modCell {
	var ks []string
	for k := range m.cells {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []*modCell
	for _, k := range ks {
		out = append(out, m.cells[k])
	}
	return out
}

// diff adds every leaf of b differing from a.
func (m *modSet) diff(a, b Val, obj int, path []PE, limit int) bool {
	if eqVal(a, b) {
		return false
	}
	switch x := a.(type) {
	case VStruct:
		if y, ok := b.(VStruct); ok && len(x.f) == len(y.f) {
			g := false
			for i := range x.f {
				if m.diff(x.f[i], y.f[i], obj, pathAppend(path, PE{field: i}), limit) {
					g = true
				}
			}
			return g
		}
	case VElems:
		if at, ok := objTypes[obj].(*types.Array); ok && len(path) == 0 && boxable(at.Elem()) && types.IsInterface(at.Elem()) {
			return m.add(obj, path, mArray)
		}
		if y, ok := b.(VElems); ok && len(x.e) == len(y.e) {
			g := false
			for i := range x.e {
				if m.diff(x.e[i], y.e[i], obj, pathAppend(path, PE{idx: BV(uint64(i), 64)}), limit) {
					g = true
				}
			}
			return g
		}
		if y, ok := b.(VArr); ok && y.el != nil && len(path) == 0 {
			return m.add(obj, path, mArray)
		}
	case *Term:
		if _, ok := b.(*Term); ok {
			return m.add(obj, path, mScalar)
		}
	case VArr:
		if _, ok := b.(VArr); ok {
			return m.add(obj, path, mArray)
		}
	case VSlice:
		if y, ok := b.(VSlice); ok {
			if eqPtr(x.base, y.base) {
				return m.add(obj, path, mSliceSame)
			}
			if len(y.base.path) == 0 && y.base.obj > limit {
				if el, ok := objTypes[y.base.obj].(*types.Array); ok && (seqElem(el.Elem()) || boxable(el.Elem())) {
					return m.add(obj, path, mSliceFresh)
				}
			}
		}
	case VStr:
		if _, ok := b.(VStr); ok {
			return m.add(obj, path, mStr)
		}
	case VErr:
		if _, ok := b.(VErr); ok {
			return m.add(obj, path, mErr)
		}
	case *MapData:
		if _, ok := b.(*MapData); ok {
			return m.add(obj, path, mMap)
		}
	case VPtrSym:
		return m.add(obj, path, mSym)
	case VPtr:
		if _, ok := b.(VPtrSym); ok && len(x.path) == 0 {
			return m.add(obj, path, mSym)
		}
	}
	return m.add(obj, path, mPoison)
}

// growFrom compares two heaps over the objects that exist in the first.
func (m *modSet) growFrom(start, end *State, limit int) bool {
	g := false
	for o, v := range start.heap {
		if nv, ok := end.heap[o]; ok {
			if m.diff(v, nv, o, nil, limit) {
				g = true
			}
		}
	}
	return g
}

func cellName(o int, path []PE) string {
	s := fmt.Sprintf("h%d", o)
	for _, p := range path {
		if p.idx == nil {
			s += fmt.Sprintf(".%d", p.field)
		}
	}
	return s
}

func (e *Engine) havoc(st *State, m *modSet) {
	for _, c := range m.sorted() {
		p := VPtr{c.obj, c.path}
		if _, ok := st.heap[c.obj]; !ok {
			continue
		}
		old := st.load(p)
		n := cellName(c.obj, c.path)
		switch c.kind {
		case mScalar:
			t, ok := old.(*Term)
			if !ok {
				st.store(p, VPoison{"scalar"})
				continue
			}
			st.store(p, Fresh(n, t.w))
		case mArray:
			a, ok := old.(VArr)
			if at, isA := objTypes[c.obj].(*types.Array); !ok && isA && len(c.path) == 0 && boxable(at.Elem()) {
				a, ok = VArr{SeqFresh(n, 64), at.Elem()}, true
			}
			if !ok {
				st.store(p, VPoison{"array"})
				continue
			}
			st.store(p, VArr{SeqFresh(n, a.seq.w), a.el})
		case mSliceSame, mSliceFresh:
			s, ok := old.(VSlice)
			if !ok {
				st.store(p, VPoison{"slice"})
				continue
			}
			l, cp := Fresh(n+".len", 64), Fresh(n+".cap", 64)
			st.assume(Ult(l, BV(maxLen, 64)))
			st.assume(Ult(cp, BV(maxLen, 64)))
			st.assume(Ule(l, cp))
			nl := Fresh(n+".nil", 0)
			st.assume(Or(Not(nl), Eq(cp, zero64)))
			if c.kind == mSliceSame {
				off := Fresh(n+".off", 64)
				st.assume(Ult(off, BV(maxLen, 64)))
				st.store(p, VSlice{s.base, off, l, cp, nl})
			} else {
				var w = 8
				// element width from the declared type of the cell
				if el := cellElem(c, st); el != nil {
					na := VArr{seq: SeqFresh(n, 64)}
					if boxable(el) {
						na.el = el
					} else {
						na.seq = SeqFresh(n, widthOf(el))
					}
					np := st.alloc(na, types.NewArray(el, -1))
					st.store(p, VSlice{np, zero64, l, cp, nl})
				} else {
					np := st.alloc(VArr{seq: SeqFresh(n, w)}, types.NewArray(types.Typ[types.Uint8], -1))
					st.store(p, VSlice{np, zero64, l, cp, nl})
				}
			}
		case mStr:
			l := Fresh(n+".len", 64)
			st.assume(Ult(l, BV(maxLen, 64)))
			st.store(p, VStr{SeqFresh(n, 8), zero64, l})
		case mErr:
			st.store(p, VErr{Fresh(n+".nil", 0), Fresh(n+".id", 64)})
		case mMap:
			st.store(p, anonMap(st))
		case mSym:
			st.store(p, VPtrSym{Fresh(n+".ptr", 64)})
		case mPoison:
			st.store(p, VPoison{n})
		}
	}
}

// cellElem finds the element type of the slice stored in a cell.
func cellElem(c *modCell, st *State) types.Type {
	t := objTypes[c.obj]
	for _, p := range c.path {
		if t == nil {
			return nil
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			t = u.Field(p.field).Type()
		case *types.Array:
			t = u.Elem()
		default:
			return nil
		}
	}
	if t == nil {
		return nil
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// ---------------------------------------------------------------- invariants

// bindInv resolves the parameters of an invariant function against the frame.
func (e *Engine) bindInv(inv *ssa.Function, fr *Frame, st, at *State) ([]Val, bool) {
	var args []Val
	for _, p := range inv.Params {
		n := p.Name()
		src := st
		if strings.HasPrefix(n, "at_") {
			n = n[3:]
			src = at
		}
		if strings.HasSuffix(n, "_0") {
			v, ok := fr.args0[strings.TrimSuffix(n, "_0")]
			if ok {
				args = append(args, v)
				continue
			}
		}
		var found Val
		for f := fr; f != nil; f = f.caller {
			if f != fr && !strings.HasPrefix(n, "c_") {
				break
			}
			nm := n
			if f != fr {
				nm = strings.TrimPrefix(n, "c_")
			} else if strings.HasPrefix(n, "c_") {
				continue
			}
			q, ok := f.names[nm]
			if !ok || src == nil {
				continue
			}
			hv, ok := src.heap[q.obj]
			if !ok {
				continue
			}
			var et types.Type = objTypes[q.obj]
			if len(q.path) == 0 && et != nil && !types.Identical(et, p.Type()) {
				continue
			}
			found = loadPath(hv, q.path)
			break
		}
		if found == nil {
			return nil, false
		}
		args = append(args, found)
	}
	return args, true
}

// evalInv runs an invariant on the state and returns its conditions.
func (e *Engine) evalInv(inv *ssa.Function, fr *Frame, st, at *State) ([]invCond, *State) {
	args, ok := e.bindInv(inv, fr, st, at)
	if !ok {
		panic(unsupported("invariant " + inv.Name() + " no longer binds"))
	}
	var sink []invCond
	oldS, oldB := e.invSink, e.invBase
	e.invSink, e.invBase = &sink, len(st.pc)
	outs := e.enter(inv, args, nil, st.clone(), fr, true)
	e.invSink, e.invBase = oldS, oldB
	_ = outs
	return sink, st
}

func (e *Engine) findInv(fr *Frame, h *ssa.BasicBlock, st *State) *ssa.Function {
	if e.unrollAll {
		return nil
	}
	for _, u := range strings.Split(e.cur.lemma.opts["unroll"], ",") {
		if u == fnKey(fr.fn) {
			return nil
		}
	}
	pkg := ""
	for f := fr.fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			pkg = f.Pkg.Pkg.Path()
		} else if f.Origin() != nil && f.Origin().Pkg != nil {
			pkg = f.Origin().Pkg.Pkg.Path()
		}
	}
	ord := e.info(fr.fn).order[h]
	// a lemma-specific variant first
	miss := ""
	for _, nm := range []string{fmt.Sprintf("inv_%s__%s_%d", strings.TrimPrefix(e.cur.lemma.name, "lemma_"), fnKey(fr.fn), ord), fmt.Sprintf("inv_%s_%d", fnKey(fr.fn), ord)} {
		for _, pk := range []string{e.cur.lemma.pkg, pkg} {
			if f := e.w.invs[pk+"."+nm]; f != nil {
				if _, ok := e.bindInv(f, fr, st, st); ok {
					return f
				}
				miss = nm
			}
		}
	}
	if miss != "" {
		panic(unsupported("invariant " + miss + " no longer binds to the variables of " + fnKey(fr.fn)))
	}
	return nil
}

// loopEntry handles arrival at a loop header from outside.
func (e *Engine) loopEntry(fr *Frame, from, h *ssa.BasicBlock, st *State) []Outcome {
	inv := e.findInv(fr, h, st)
	fi := e.info(fr.fn)
	if inv == nil {
		fr.unroll[h] = 0
		return e.run(fr, h, 0, from, st)
	}
	for _, in := range h.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			panic(unsupported("phi at a loop header"))
		}
	}
	pos := e.loopPos(h)
	e.usedInvs[inv.Name()] = true
	conds, _ := e.evalInv(inv, fr, st, st)
	var declared []VSlice
	for _, c := range conds {
		if c.win != nil {
			declared = append(declared, *c.win)
			continue
		}
		if !c.dec {
			e.assert(st, c.t, "inv-entry", c.label, pos)
		}
	}
	mods := newModSet()
	entry := st
	ck := fr.chain() + fmt.Sprintf("@%d", h.Index)
	if old := e.modCache[ck]; old != nil {
		for _, c := range old.sorted() {
			if _, ok := st.heap[c.obj]; ok {
				mods.add(c.obj, c.path, c.kind)
			}
		}
	}
	defer func() { e.modCache[ck] = mods }()
	startCut := func(infer bool) (*Frame, *State, *Cut) {
		s := entry.clone()
		e.havoc(s, mods)
		for _, c := range mods.cells {
			// the hidden counter of a range loop goes up from -1 and stays below a length
			if t, ok := s.heap[c.obj].(*Term); ok && rangeObj[c.obj] && len(c.path) == 0 {
				s.assume(And(Sle(BV(^uint64(0), 64), t), Slt(t, BV(1<<62, 64))))
			}
		}
		wins := e.frameWindows(fr, entry, s, mods, declared)
		e.quiet++
		cs, _ := e.evalInv(inv, fr, s, entry)
		e.quiet--
		s.inexact = true
		c := &Cut{header: h, body: fi.loops[h], inv: inv, infer: infer, mods: mods, frame: fr, entry: entry, windows: wins}
		for _, x := range cs {
			if x.win != nil {
				continue
			}
			if x.dec {
				c.dec = x.t
				continue
			}
			if !s.assume(x.t) {
				s.dead = true
			}
		}
		c.start = s.clone()
		f := fr.clone()
		f.cuts[h] = c
		c.limit = objN
		return f, s, c
	}
	for it := 0; ; it++ {
		if it > 25 {
			panic(unsupported("modified set of a loop does not stabilise"))
		}
		f, s, c := startCut(true)
		if s.dead {
			break
		}
		n := len(mods.cells)
		e.quiet++
		func() {
			defer func() { e.quiet-- }()
			e.run(f, h, 0, nil, s)
		}()
		if !c.grew && len(mods.cells) == n {
			break
		}
	}
	for it := 0; it < 10; it++ {
		mark := len(e.obls)
		f, s, c := startCut(false)
		if s.dead {
			return nil
		}
		outs := e.run(f, h, 0, nil, s)
		if !c.grew {
			return outs
		}
		e.obls = e.obls[:mark]
	}
	panic(unsupported("modified set of a loop does not stabilise"))
}

func (e *Engine) loopPos(h *ssa.BasicBlock) string {
	for _, in := range h.Instrs {
		if in.Pos().IsValid() {
			return e.pos(in.Pos())
		}
	}
	for _, b := range h.Succs {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return e.pos(in.Pos())
			}
		}
	}
	return h.Parent().Name()
}

func (e *Engine) backEdge(fr *Frame, c *Cut, from, h *ssa.BasicBlock, st *State) {
	if c.mods.growFrom(c.start, st, c.limit) {
		c.grew = true
	}
	if c.infer || c.grew {
		return
	}
	conds, _ := e.evalInv(c.inv, fr, st, c.entry)
	pos := e.loopPos(h)
	for _, w := range c.windows {
		a, ok := st.load(w.p).(VArr)
		if !ok {
			panic(unsupported("framed array changed its shape"))
		}
		k := Fresh("fk", 64)
		s2 := st.clone()
		s2.assume(Ult(k, BV(maxLen, 64)))
		s2.assume(Or(Ult(k, w.off), Ule(Add(w.off, w.len), k)))
		e.assert(s2, Eq(Select(a.seq, k), Select(w.entry, k)), "frame", "only the given slice is written", pos)
	}
	for _, x := range conds {
		if x.win != nil {
			continue
		}
		if x.dec {
			if c.dec != nil {
				e.assert(st, And(Sle(zero64, c.dec), Slt(x.t, c.dec)), "decreases", x.label, pos)
			}
			continue
		}
		e.assert(st, x.t, "inv-step", x.label, pos)
	}
}

// frameWindows restricts the havoc of an array to the slice parameter through which the
// function reaches it; the frame is checked at every back edge.
func (e *Engine) frameWindows(fr *Frame, entry, s *State, m *modSet, declared []VSlice) []window {
	var out []window
	for _, c := range m.sorted() {
		if c.kind != mArray {
			continue
		}
		p := VPtr{c.obj, c.path}
		var w *VSlice
		n := 0
		for _, a := range fr.args0 {
			if sl, ok := a.(VSlice); ok && eqPtr(sl.base, p) {
				sl := sl
				w = &sl
				n++
			}
		}
		for _, d := range declared {
			if eqPtr(d.base, p) {
				d := d
				w = &d
				n = 1
			}
		}
		if n != 1 {
			continue
		}
		old, ok1 := entry.load(p).(VArr)
		cur, ok2 := s.load(p).(VArr)
		if !ok1 || !ok2 {
			continue
		}
		s.store(p, VArr{SeqCopy(old.seq, w.off, cur.seq, w.off, w.len), old.el})
		out = append(out, window{p, w.off, w.len, old.seq})
	}
	return out
}
