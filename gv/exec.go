package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obligation is one proof obligation: pc /\ facts ==> goal.
type Obligation struct {
	kind   string // panic, assert, inv-entry, inv-step, requires, decreases, cover
	label  string
	pos    string
	pc     []*Term
	facts  []*Fact
	goal   *Term
	inputs []Input
	exact  bool // no loop was cut and no contract used before this point
	trace  []string

	res     checkRes
	text    string
	abs     string
	trivial bool
}

// Input is a named harness input.
type Input struct {
	name string
	base string
	kind string // bytes, str, u8.., bool
	val  Val
	seq  *Seq
	len  *Term
}

type Outcome struct {
	st     *State
	res    Val
	fr     *Frame // arrival at a stop block
	arrive bool
	prev   *ssa.BasicBlock
}

// window is the part of an array a loop may write: the slice the function was given.
type window struct {
	p        VPtr
	off, len *Term
	entry    *Seq
}

type Cut struct {
	windows []window
	header  *ssa.BasicBlock
	body    map[*ssa.BasicBlock]bool
	inv     *ssa.Function
	infer   bool
	start   *State
	mods    *modSet
	grew    bool
	dec     *Term
	frame   *Frame
	entry   *State
	limit   int
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	caller *Frame
	cuts   map[*ssa.BasicBlock]*Cut
	unroll map[*ssa.BasicBlock]int
	names  map[string]VPtr
	args0  map[string]Val
	defers []deferred
	depth  int
	ghost  bool
	stop   *ssa.BasicBlock
	site   ssa.Instruction // the call being executed
}

// chain identifies the call path of a frame.
func (f *Frame) chain() string {
	s := f.fn.String()
	for c := f.caller; c != nil; c = c.caller {
		s += fmt.Sprintf("<%p", c.site)
	}
	return s
}

type deferred struct {
	call *ssa.Defer
	fn   Val
	args []Val
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.cuts = make(map[*ssa.BasicBlock]*Cut, len(f.cuts))
	for k, v := range f.cuts {
		n.cuts[k] = v
	}
	n.unroll = make(map[*ssa.BasicBlock]int, len(f.unroll))
	for k, v := range f.unroll {
		n.unroll[k] = v
	}
	n.names = make(map[string]VPtr, len(f.names))
	for k, v := range f.names {
		n.names[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	return &n
}

type Engine struct {
	w             *World
	proc          *Proc
	proc2         *Proc
	recApps       map[*Term]*recApp
	obls          []*Obligation
	quiet         int
	noRec         bool
	cur           *Task
	globals       map[*ssa.Global]VPtr
	base          *State
	invSink       *[]invCond
	invBase       int
	maxUnroll     int
	unrollAll     bool // falsification mode: no invariants, no contracts
	deadline      time.Time
	steps         int
	modCache      map[string]*modSet
	funcInfo      map[*ssa.Function]*fnInfo
	where         string
	feasMemo      map[string]bool
	inInit        bool // package initialisers are running
	covers        map[string]bool
	usedFns       map[string]bool
	usedInvs      map[string]bool
	defs          map[*Term]*def
	recDepth      int
	reified       map[*Term]*Term
	stdInlined    map[string]bool
	inForAll      int
	usedContracts map[string]bool
	trusted       map[string]bool
	nFeas         int
	feasMs        int64
}

type invCond struct {
	t     *Term
	label string
	dec   bool
	win   *VSlice
}

func (e *Engine) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := e.w.fset.Position(p)
	f := ps.Filename
	f = strings.TrimPrefix(f, e.w.repo+"/")
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

type fnInfo struct {
	loops   map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	order   map[*ssa.BasicBlock]int
	ipdom   map[*ssa.BasicBlock]*ssa.BasicBlock
	regions map[*ssa.BasicBlock]*region
}
type region struct {
	join *ssa.BasicBlock
	pure bool
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if fi, ok := e.funcInfo[fn]; ok {
		return fi
	}
	fi := &fnInfo{loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, order: map[*ssa.BasicBlock]int{}, ipdom: map[*ssa.BasicBlock]*ssa.BasicBlock{}, regions: map[*ssa.BasicBlock]*region{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := fi.loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					fi.loops[s] = body
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[x] {
						continue
					}
					body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	var hs []*ssa.BasicBlock
	for h := range fi.loops {
		hs = append(hs, h)
	}
	posOf := func(b *ssa.BasicBlock) token.Pos {
		var p token.Pos
		for x := range fi.loops[b] {
			for _, in := range x.Instrs {
				if in.Pos().IsValid() && (p == 0 || in.Pos() < p) {
					p = in.Pos()
				}
			}
		}
		return p
	}
	sort.Slice(hs, func(i, j int) bool {
		pi, pj := posOf(hs[i]), posOf(hs[j])
		if pi != pj {
			return pi < pj
		}
		return len(fi.loops[hs[i]]) > len(fi.loops[hs[j]])
	})
	for i, h := range hs {
		fi.order[h] = i
	}
	// post-dominators (iterative, sets)
	n := len(fn.Blocks)
	full := make([]bool, n+1)
	for i := range full {
		full[i] = true
	}
	pd := make([][]bool, n+1)
	for i := range pd {
		pd[i] = append([]bool{}, full...)
	}
	for i := range pd[n] {
		pd[n][i] = i == n
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			nw := append([]bool{}, full...)
			if len(b.Succs) == 0 {
				copy(nw, pd[n])
			}
			for _, s := range b.Succs {
				for k := range nw {
					nw[k] = nw[k] && pd[s.Index][k]
				}
			}
			nw[i] = true
			for k := range nw {
				if nw[k] != pd[i][k] {
					ch = true
				}
			}
			pd[i] = nw
		}
	}
	for i, b := range fn.Blocks {
		best := -1
		bestN := -1
		for k := 0; k < n; k++ {
			if k != i && pd[i][k] {
				c := 0
				for _, x := range pd[k] {
					if x {
						c++
					}
				}
				if c > bestN {
					bestN, best = c, k
				}
			}
		}
		if best >= 0 {
			fi.ipdom[b] = fn.Blocks[best]
		}
	}
	e.funcInfo[fn] = fi
	return fi
}

func (e *Engine) regionOf(fi *fnInfo, b *ssa.BasicBlock) *region {
	if r, ok := fi.regions[b]; ok {
		return r
	}
	r := &region{join: fi.ipdom[b]}
	if r.join != nil {
		pure := true
		seen := map[*ssa.BasicBlock]bool{b: true, r.join: true}
		stack := append([]*ssa.BasicBlock{}, b.Succs...)
		n := 0
		for len(stack) > 0 {
			x := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if seen[x] {
				continue
			}
			seen[x] = true
			n++
			for _, in := range x.Instrs {
				switch c := in.(type) {
				case *ssa.UnOp, *ssa.BinOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Phi, *ssa.Convert, *ssa.ChangeType, *ssa.Jump, *ssa.If, *ssa.Field, *ssa.Index, *ssa.Extract, *ssa.Slice, *ssa.DebugRef:
				case *ssa.Call:
					if _, ok := c.Call.Value.(*ssa.Builtin); !ok || (c.Call.Value.Name() != "len" && c.Call.Value.Name() != "cap") {
						pure = false
					}
				default:
					pure = false
				}
			}
			if _, isLoop := fi.loops[x]; isLoop {
				pure = false
			}
			stack = append(stack, x.Succs...)
		}
		if n > 16 {
			pure = false
		}
		if len(r.join.Instrs) == 0 {
			pure = false
		} else if _, ok := r.join.Instrs[0].(*ssa.Phi); !ok {
			pure = false
		}
		if _, isLoop := fi.loops[r.join]; isLoop && fi.loops[r.join][b] {
			r.join = nil
		}
		r.pure = pure
	}
	fi.regions[b] = r
	return r
}

// ---------------------------------------------------------------- feasibility

var varMemo = map[*Term]map[string]bool{}

func varsOf(t *Term) map[string]bool {
	if m, ok := varMemo[t]; ok {
		return m
	}
	m := map[string]bool{}
	switch t.op {
	case OVar:
		m[t.name] = true
	case OSel:
		m[t.seq.name] = true
	case OUF:
		m["uf."+t.name] = true
	}
	for _, a := range t.args {
		for k := range varsOf(a) {
			m[k] = true
		}
	}
	varMemo[t] = m
	return m
}

// slice keeps the conjuncts of pc connected to goal.
func slicePC(pc []*Term, goal *Term) []*Term {
	need := map[string]bool{}
	for k := range varsOf(goal) {
		need[k] = true
	}
	used := make([]bool, len(pc))
	for ch := true; ch; {
		ch = false
		for i, t := range pc {
			if used[i] {
				continue
			}
			vs := varsOf(t)
			hit := false
			for k := range vs {
				if need[k] {
					hit = true
					break
				}
			}
			if hit || len(vs) == 0 {
				used[i] = true
				ch = true
				for k := range vs {
					need[k] = true
				}
			}
		}
	}
	var out []*Term
	for i, t := range pc {
		if used[i] {
			out = append(out, t)
		}
	}
	return out
}

func stripForall(t *Term) *Term {
	if t.op == OForall {
		return TTrue
	}
	if t.op == OAnd {
		var out []*Term
		for _, a := range t.args {
			out = append(out, stripForall(a))
		}
		return And(out...)
	}
	if containsForall(t) {
		panic(unsupported("quantifier in a non-assumption position"))
	}
	return t
}

// feasible checks whether cond is consistent with the path condition (pc known feasible).
func (e *Engine) feasible(st *State, cond *Term) bool {
	q := e.feasPrep(st, cond)
	if q.done {
		return q.r
	}
	return e.feasRun(e.proc, q)
}

// feasible2 asks for a condition and its negation at once.
func (e *Engine) feasible2(st *State, cond *Term) (bool, bool) {
	a, b := e.feasPrep(st, cond), e.feasPrep(st, Not(cond))
	if a.done || b.done {
		ra, rb := a.r, b.r
		if !a.done {
			ra = e.feasRun(e.proc, a)
		}
		if !b.done {
			rb = !ra || e.feasRun(e.proc, b)
		}
		return ra, rb
	}
	if e.proc2 == nil {
		p, err := NewProc()
		if err != nil {
			panic(err)
		}
		e.proc2 = p
	}
	ch := make(chan Verdict)
	go func() { ch <- e.proc2.Check(b.txt, 400) }()
	ra := e.feasRun(e.proc, a)
	rb := <-ch != Unsat
	e.nFeas++
	e.feasMemo[b.key] = rb
	feasCanon[b.canon] = rb
	return ra, rb
}

type feasQ struct {
	done, r  bool
	key, txt string
	canon    string
}

// feasCanon holds the answers by canonical query.
var feasCanon = map[string]bool{}

func (e *Engine) feasPrep(st *State, cond *Term) feasQ {
	if cond.isConst() {
		return feasQ{done: true, r: cond.isTrue()}
	}
	if containsForall(cond) {
		return feasQ{done: true, r: true}
	}
	pc := slicePC(st.pc, cond)
	ids := make([]int, 0, len(pc)+1)
	for _, t := range pc {
		ids = append(ids, t.id)
	}
	sort.Ints(ids)
	key := fmt.Sprint(cond.id, ids)
	if r, ok := e.feasMemo[key]; ok {
		return feasQ{done: true, r: r}
	}
	as := append(append([]*Term{}, pc...), cond)
	e.noRec = !mentionsRec(cond) // pruning only: leaving facts out keeps more paths
	as, dfacts := e.withDefs(as)
	e.noRec = false
	as = instantiate(append(dfacts, st.facts...), as, 1, 60+len(as))
	txt := script(as)
	ct := canon(txt)
	if r, ok := feasCanon[ct]; ok {
		e.feasMemo[key] = r
		return feasQ{done: true, r: r}
	}
	return feasQ{key: key, txt: txt, canon: ct}
}

func (e *Engine) feasRun(p *Proc, q feasQ) bool {
	t0 := time.Now()
	v := p.Check(q.txt, 400)
	e.nFeas++
	ms := time.Since(t0).Milliseconds()
	if statOn {
		x := feasStat[e.where]
		x[0]++
		x[1] += time.Since(t0).Microseconds()
		if v == Unsat {
			x[2]++
		}
		feasStat[e.where] = x
	}
	e.feasMs += ms
	if slowDump != "" && ms > 150 {
		os.WriteFile(fmt.Sprintf("%s/feas%d.smt2", slowDump, e.nFeas), []byte("(set-logic QF_UFBV)\n"+q.txt+"(check-sat)\n"), 0644)
	}
	r := v != Unsat
	e.feasMemo[q.key] = r
	feasCanon[q.canon] = r
	return r
}

var statOn = os.Getenv("GV_STAT") != ""
var feasStat = map[string][3]int64{}

var slowDump = os.Getenv("GV_SLOW")

// ---------------------------------------------------------------- obligations

func (e *Engine) assert(st *State, goal *Term, kind, label, pos string) {
	goal = st.simp(goal)
	if e.quiet > 0 {
		return
	}
	if goal.op == OAnd {
		for i, g := range goal.args {
			_ = i
			e.assert(st, g, kind, label, pos)
		}
		return
	}
	pc := st.pc
	if goal.op == OForall {
		b := Fresh("sk", 64)
		s2 := st.clone()
		s2.assume(Sle(goal.args[1], b))
		s2.assume(Slt(b, goal.args[2]))
		g := Subst(goal.args[3], map[*Term]*Term{goal.args[0]: b})
		e.assert(s2, g, kind, label, pos)
		return
	}
	if goal.op == OOr {
		// a disjunction ending in a quantified part was normalised by Or
		for _, a := range goal.args {
			if containsForall(a) {
				panic(unsupported("quantifier inside a disjunction goal"))
			}
		}
	}
	o := &Obligation{kind: kind, label: label, pos: pos, pc: pc, facts: st.facts, goal: goal, exact: !st.inexact, inputs: st.inputs}
	if goal.isTrue() {
		o.trivial = true
		o.res = checkRes{v: Unsat, by: "simplifier"}
	}
	e.obls = append(e.obls, o)
}

// panicIf records the obligation that a run-time panic cannot happen and continues assuming it did not.
func (e *Engine) mustHold(st *State, ok *Term, label string, pos string, fr *Frame) bool {
	ok = st.simp(ok)
	if ok.isTrue() {
		return true
	}
	if e.inForAll > 0 {
		return true // terms under a binder are total
	}
	kind := "panic"
	if fr != nil && fr.ghost {
		kind = "ghost"
	}
	e.assert(st, ok, kind, label, pos)
	if ok.isFalse() {
		return false
	}
	if !st.assume(ok) {
		return false
	}
	return true
}

// ---------------------------------------------------------------- running

func (e *Engine) step() {
	e.steps++
	if e.steps&0xff == 0 && time.Now().After(e.deadline) {
		panic(unsupported("exploration time budget exhausted"))
	}
}

func (e *Engine) enter(fn *ssa.Function, args, bind []Val, st *State, caller *Frame, ghost bool) []Outcome {
	d := 0
	if caller != nil {
		d = caller.depth + 1
	}
	if d > 60 {
		panic(unsupported("call depth (recursion without contract): " + fn.String()))
	}
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body for " + fn.String()))
	}
	if e.w.repoFn(fn) {
		e.usedFns[fn.String()] = true
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, caller: caller, cuts: map[*ssa.BasicBlock]*Cut{}, unroll: map[*ssa.BasicBlock]int{}, names: map[string]VPtr{}, args0: map[string]Val{}, depth: d, ghost: ghost}
	if len(args) != len(fn.Params) {
		panic(fmt.Sprintf("arity mismatch calling %s: %d vs %d", fn, len(args), len(fn.Params)))
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
		fr.args0[p.Name()] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = bind[i]
		if p, ok := bind[i].(VPtr); ok {
			fr.names[fv.Name()] = p
		}
	}
	return e.run(fr, fn.Blocks[0], 0, nil, st)
}

// callFn runs fn to completion and merges compatible outcomes.
func (e *Engine) callFn(fn *ssa.Function, args, bind []Val, st *State, caller *Frame, ghost bool) []Outcome {
	nPC := len(st.pc)
	snap := map[int]Val{}
	for k, v := range st.heap {
		snap[k] = v
	}
	facts := st.facts
	outs := e.enter(fn, args, bind, st, caller, ghost)
	if len(outs) > 1 {
		if e.merges(fn) {
			outs = e.mergeGroups(outs, nPC, facts)
		}
		k := len(outs)
		outs = e.mergeOuts(outs, nPC, snap, facts, ghost)
		if os.Getenv("GV_OUTS") != "" {
			sh := ""
			for _, o := range outs {
				sh += " " + shape(o.res)
			}
			fmt.Printf("outs %s depth %d: %d -> %d %s\n", fn.Name(), 0, k, len(outs), sh)
		}
	}
	return outs
}

// shape tells results apart that callers are expected to branch on.
func shape(v Val) string {
	switch x := v.(type) {
	case VTuple:
		s := ""
		for _, y := range x.e {
			s += shape(y) + ","
		}
		return s
	case VErr:
		if x.nilT.isTrue() {
			return "nil"
		}
		if x.nilT.isFalse() {
			return "err"
		}
		return "e?"
	case VIface:
		if x.typ == nil {
			return "nil"
		}
		return x.typ.String()
	case *Term:
		if x.isTrue() {
			return "t"
		}
		if x.isFalse() {
			return "f"
		}
	}
	return "."
}

// mergeGroups joins the outcomes of a call whose results have the same shape.
func (e *Engine) mergeGroups(outs []Outcome, nPC int, facts []*Fact) []Outcome {
	var order []string
	groups := map[string][]Outcome{}
	for _, o := range outs {
		k := shape(o.res)
		if len(o.st.pc) < nPC {
			k = fmt.Sprintf("odd %d", len(order))
		}
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], o)
	}
	var res []Outcome
	for _, k := range order {
		g := groups[k]
		acc := g[0]
		accCond := And(acc.st.pc[min(nPC, len(acc.st.pc)):]...)
		for _, o := range g[1:] {
			if n, nc, ok := e.mergePair(acc, accCond, o, nPC, facts); ok {
				acc, accCond = n, nc
			} else {
				res = append(res, o)
			}
		}
		res = append(res, acc)
	}
	return res
}

func (e *Engine) mergePair(acc Outcome, accCond *Term, o Outcome, nPC int, facts []*Fact) (Outcome, *Term, bool) {
	c := And(o.st.pc[nPC:]...)
	r, ok := mergeVal(c, o.res, acc.res)
	if !ok {
		return acc, nil, false
	}
	n := acc.st.clone()
	for k, v := range o.st.heap {
		av, has := acc.st.heap[k]
		if !has {
			n.heap[k] = v
			continue
		}
		if sameVal(v, av) {
			continue
		}
		m, ok := mergeVal(c, v, av)
		if !ok {
			return acc, nil, false
		}
		n.heap[k] = m
	}
	n.facts = mergeFacts(facts, acc.st.facts, accCond, o.st.facts, c)
	n.inexact = acc.st.inexact || o.st.inexact
	s0 := newState()
	base := acc.st.pc[:nPC:nPC]
	for _, t := range base {
		s0.assume(t)
	}
	n.pc, n.inPC, n.eqs = base, s0.inPC, s0.eqs
	both := Or(accCond, c)
	n.assume(both)
	return Outcome{st: n, res: r}, both, true
}

func (e *Engine) mergeOuts(outs []Outcome, nPC int, snap map[int]Val, facts []*Fact, ghost bool) []Outcome {
	// only outcomes that left the pre-existing heap unchanged are merged
	var res []Outcome
	var acc *Outcome
	var accCond *Term
	type part struct {
		facts []*Fact
		c     *Term
	}
	var group []part
	for _, o := range outs {
		o := o
		ok := true
		for k, v := range snap {
			if nv, has := o.st.heap[k]; !has || !sameVal(v, nv) {
				ok = false
				break
			}
		}
		if ok && !mergeableRes(o.res) {
			ok = false
		}
		if ok && len(o.st.pc) < nPC {
			ok = false
		}
		if !ok {
			res = append(res, o)
			continue
		}
		c := And(o.st.pc[nPC:]...)
		if acc == nil {
			acc = &o
			accCond = c
			continue
		}
		m, ok := mergeVal(c, o.res, acc.res)
		if !ok {
			res = append(res, o)
			continue
		}
		if group == nil {
			group = []part{{acc.st.facts, accCond}}
			acc = &Outcome{st: acc.st.clone()}
		}
		n := acc.st
		for k, v := range o.st.heap {
			if _, has := n.heap[k]; !has {
				n.heap[k] = v
			}
		}
		n.inexact = n.inexact || o.st.inexact
		group = append(group, part{o.st.facts, c})
		accCond = Or(accCond, c)
		acc.res = m
	}
	if group != nil {
		n := acc.st
		base := n.pc[:nPC]
		n.pc = nil
		n.inPC = map[*Term]bool{}
		n.eqs = map[*Term]*Term{}
		for _, t := range base {
			n.assume(t)
		}
		n.facts = facts
		for _, p := range group {
			if len(p.facts) == len(facts) {
				continue
			}
			n.facts = n.facts[:len(n.facts):len(n.facts)]
			for _, f := range p.facts[len(facts):] {
				n.facts = append(n.facts, NewFact(f.b, f.lo, f.hi, Or(Not(p.c), f.body)))
			}
		}
		for len(n.pc) < nPC {
			n.pc = append(n.pc, TTrue)
		}
		if len(n.pc) > nPC {
			n.pc = n.pc[:nPC:nPC]
		}
		copy(n.pc, base)
		n.assume(accCond)
	}
	if acc != nil {
		res = append(res, *acc)
	}
	return res
}

// splitLoad is the symbolic index of a load from an array of values that do not merge.
func (e *Engine) splitLoad(fr *Frame, x *ssa.UnOp, st *State) (*Term, int) {
	p, ok := e.val(fr, x.X, st).(VPtr)
	if !ok || p.obj == 0 {
		return nil, 0
	}
	var v Val = st.heap[p.obj]
	for i, s := range p.path {
		switch y := v.(type) {
		case VStruct:
			v = y.f[s.field]
		case VElems:
			if s.idx == nil {
				return nil, 0
			}
			if !s.idx.isConst() {
				if i == len(p.path)-1 && len(y.e) > 0 {
					if _, bad := loadElemsSym(y, s.idx).(VPoison); bad {
						return s.idx, len(y.e)
					}
				}
				return nil, 0
			}
			if s.idx.val >= uint64(len(y.e)) {
				return nil, 0
			}
			v = y.e[s.idx.val]
		default:
			return nil, 0
		}
	}
	return nil, 0
}

// settle decides the errors of a result that the path condition decides.
func settle(v Val, st *State) Val {
	switch x := v.(type) {
	case VErr:
		if !x.nilT.isConst() {
			if st.inPC[x.nilT] {
				return VErr{TTrue, x.id}
			}
			if st.inPC[Not(x.nilT)] {
				return VErr{TFalse, x.id}
			}
		}
	case VTuple:
		n := VTuple{make([]Val, len(x.e))}
		for i, y := range x.e {
			n.e[i] = settle(y, st)
		}
		return n
	}
	return v
}

func sameVal(a, b Val) bool {
	return eqVal(a, b)
}

func mergeableRes(v Val) bool {
	switch x := v.(type) {
	case nil, *Term, VStr:
		return true
	case VTuple:
		for _, y := range x.e {
			if !mergeableRes(y) {
				return false
			}
		}
		return true
	case VErr:
		return x.nilT.isTrue()
	case VStruct:
		for _, y := range x.f {
			if !mergeableRes(y) {
				return false
			}
		}
		return true
	case VIface:
		return x.typ == nil
	}
	return false
}

func (e *Engine) val(fr *Frame, v ssa.Value, st *State) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return e.globalPtr(x, st)
	case *ssa.Function:
		return VFunc{fn: x}
	case *ssa.Builtin:
		return VFunc{blt: x}
	}
	r, ok := fr.env[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn)))
	}
	return r
}

func (e *Engine) term(fr *Frame, v ssa.Value, st *State) *Term {
	r := e.val(fr, v, st)
	t, ok := r.(*Term)
	if !ok {
		if p, ok := r.(VPoison); ok {
			panic(unsupported("use of a value havocked by a loop: " + p.why))
		}
		panic(unsupported(fmt.Sprintf("expected scalar for %s (%s) got %T", v.Name(), v, r)))
	}
	return t
}

func (e *Engine) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			s := constant.StringVal(c.Value)
			return VStr{SeqStr(s), zero64, BV(uint64(len(s)), 64)}
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			if widthOf(t) == 32 {
				return BV(uint64(math.Float32bits(float32(f))), 32)
			}
			return BV(math.Float64bits(f), 64)
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return BV(uint64(i), widthOf(t))
			}
			i, _ := constant.Uint64Val(v)
			return BV(i, widthOf(t))
		}
	}
	panic(unsupported("constant of type " + t.String()))
}

func (e *Engine) run(fr *Frame, blk *ssa.BasicBlock, idx int, prev *ssa.BasicBlock, st *State) []Outcome {
	for {
		// phis
		if idx == 0 {
			var vals []Val
			var phis []*ssa.Phi
			for _, in := range blk.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if prev == nil {
					break
				}
				for i, p := range blk.Preds {
					if p == prev {
						vals = append(vals, e.val(fr, ph.Edges[i], st))
						break
					}
				}
				phis = append(phis, ph)
			}
			for i, ph := range phis {
				if i < len(vals) {
					fr.env[ph] = vals[i]
				}
			}
		}
		for ; idx < len(blk.Instrs); idx++ {
			e.step()
			in := blk.Instrs[idx]
			if statOn && in.Pos().IsValid() {
				e.where = fr.fn.Name() + " " + e.pos(in.Pos())
			}
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.Jump:
				return e.jump(fr, blk, blk.Succs[0], st)
			case *ssa.If:
				return e.branch(fr, blk, x, st)
			case *ssa.Return:
				var res Val
				switch len(x.Results) {
				case 0:
				case 1:
					res = e.val(fr, x.Results[0], st)
				default:
					t := VTuple{}
					for _, r := range x.Results {
						t.e = append(t.e, e.val(fr, r, st))
					}
					res = t
				}
				return []Outcome{{st: st, res: settle(res, st)}}
			case *ssa.Panic:
				e.mustHold(st, TFalse, "explicit panic", e.pos(x.Pos()), fr)
				return nil
			case *ssa.Call:
				fr.site = x
				outs := e.doCall(fr, x, x.Common(), st)
				if len(outs) == 0 {
					return nil
				}
				if len(outs) == 1 {
					st = outs[0].st
					if x.Type() != nil {
						fr.env[x] = outs[0].res
					}
					continue
				}
				var all []Outcome
				for _, o := range outs {
					f2 := fr.clone()
					f2.env[x] = o.res
					all = append(all, e.run(f2, blk, idx+1, prev, o.st)...)
				}
				return all
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if ix, n := e.splitLoad(fr, x, st); ix != nil {
						var all []Outcome
						for k := 0; k < n; k++ {
							c := Eq(ix, BV(uint64(k), 64))
							if !e.feasible(st, c) {
								continue
							}
							s2 := st.clone()
							s2.assume(c)
							f2 := fr.clone()
							p := e.ptr(f2, x.X, s2)
							p.path = append([]PE{}, p.path...)
							for i := range p.path {
								if p.path[i].idx == ix {
									p.path[i].idx = BV(uint64(k), 64)
								}
							}
							f2.env[x] = e.fixPtr(s2.load(p), x.Type())
							all = append(all, e.run(f2, blk, idx+1, prev, s2)...)
						}
						return all
					}
				}
				if !e.instr(fr, in, st) {
					return nil
				}
			case *ssa.Lookup, *ssa.Range:
				var outs []Outcome
				if l, ok := in.(*ssa.Lookup); ok {
					outs = e.lookup(fr, l, st)
				} else {
					outs = e.rangeInit(fr, in.(*ssa.Range), st)
				}
				if len(outs) == 0 {
					return nil
				}
				if len(outs) == 1 {
					st = outs[0].st
					fr.env[in.(ssa.Value)] = outs[0].res
					continue
				}
				var all []Outcome
				for _, o := range outs {
					f2 := fr.clone()
					f2.env[in.(ssa.Value)] = o.res
					all = append(all, e.run(f2, blk, idx+1, prev, o.st)...)
				}
				return all
			case *ssa.Defer:
				d := deferred{call: x}
				if x.Call.IsInvoke() {
					panic(unsupported("defer of an interface method"))
				}
				d.fn = e.val(fr, x.Call.Value, st)
				for _, a := range x.Call.Args {
					d.args = append(d.args, e.val(fr, a, st))
				}
				fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], d)
			case *ssa.RunDefers:
				for len(fr.defers) > 0 {
					d := fr.defers[len(fr.defers)-1]
					fr.defers = fr.defers[:len(fr.defers)-1]
					fv := d.fn.(VFunc)
					if fv.fn == nil {
						panic(unsupported("defer of builtin"))
					}
					outs := e.callFn(fv.fn, d.args, fv.bind, st, fr, fr.ghost)
					if len(outs) != 1 {
						panic(unsupported("branching in a deferred call"))
					}
					st = outs[0].st
				}
			default:
				if !e.instr(fr, in, st) {
					return nil
				}
			}
		}
		panic("fell off block")
	}
}

func (e *Engine) branch(fr *Frame, blk *ssa.BasicBlock, x *ssa.If, st *State) []Outcome {
	c := st.simp(e.reify(e.term(fr, x.Cond, st), st))
	if c.isTrue() {
		return e.jump(fr, blk, blk.Succs[0], st)
	}
	if c.isFalse() {
		return e.jump(fr, blk, blk.Succs[1], st)
	}
	ft, ff := true, true
	fi := e.info(fr.fn)
	reg := e.regionOf(fi, blk)
	merge := reg.join != nil && (reg.pure || fr.ghost || e.merges(fr.fn)) && blk.Succs[0] != blk.Succs[1]
	_, isLoop := fi.loops[blk]
	if (e.inForAll > 0 || e.recDepth > 0) && !isLoop && len(fr.unroll) == 0 {
		// a specification value: both branches, merged by condition
	} else if merge && fr.ghost && e.invSink != nil && !isLoop && len(fr.unroll) == 0 {
		// inside an invariant: the branch condition becomes part of the conjuncts
	} else if !(merge && reg.pure) {
		ft, ff = e.feasible2(st, c)
		ff = ff || !ft
	}
	if ft && !ff {
		st.assume(c)
		return e.jump(fr, blk, blk.Succs[0], st)
	}
	if !ft && ff {
		st.assume(Not(c))
		return e.jump(fr, blk, blk.Succs[1], st)
	}
	if merge {
		return e.branchMerge(fr, blk, c, reg.join, st)
	}
	f2, s2 := fr.clone(), st.clone()
	var outs []Outcome
	if st.assume(c) {
		outs = e.jump(fr, blk, blk.Succs[0], st)
	}
	if s2.assume(Not(c)) {
		outs = append(outs, e.jump(f2, blk, blk.Succs[1], s2)...)
	}
	return outs
}

// merges tells whether the lemma asks for branches of fn to be joined.
func (e *Engine) merges(fn *ssa.Function) bool {
	o := e.cur.lemma.opts["merge"]
	if o == "" {
		return false
	}
	k := fnKey(fn)
	for _, x := range strings.Split(o, ",") {
		if x == k || x == "all" {
			return true
		}
	}
	return false
}

func (e *Engine) branchMerge(fr *Frame, blk *ssa.BasicBlock, c *Term, join *ssa.BasicBlock, st *State) []Outcome {
	nPC := len(st.pc)
	oldStop := fr.stop
	facts := st.facts
	var arr []Outcome
	var outs []Outcome
	for i := 0; i < 2; i++ {
		f2, s2 := fr.clone(), st.clone()
		f2.stop = join
		cc := c
		if i == 1 {
			cc = Not(c)
		}
		if !s2.assume(cc) {
			continue
		}
		for _, o := range e.jump(f2, blk, blk.Succs[i], s2) {
			if o.arrive {
				arr = append(arr, o)
			} else {
				outs = append(outs, o)
			}
		}
	}
	for i := range arr {
		// resolve the phis of the join block now, so that arrivals can be merged
		a := &arr[i]
		f := a.fr
		f.stop = oldStop
		if a.prev == nil {
			continue // resolved by an inner merge at the same join
		}
		var vals []Val
		var phis []*ssa.Phi
		for _, in := range join.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for k, p := range join.Preds {
				if p == a.prev {
					vals = append(vals, e.val(f, ph.Edges[k], a.st))
					break
				}
			}
			phis = append(phis, ph)
		}
		for k, ph := range phis {
			f.env[ph] = vals[k]
		}
	}
	if len(arr) > 1 {
		if m, ok := e.mergeArrivals(arr, nPC, facts, join); ok {
			arr = []Outcome{m}
		}
	}
	for _, a := range arr {
		if oldStop == join {
			outs = append(outs, Outcome{st: a.st, fr: a.fr, arrive: true, prev: nil})
			// phis already resolved: mark with prev=nil
			continue
		}
		outs = append(outs, e.enterBlock(a.fr, nil, join, a.st, true)...)
	}
	return outs
}

func (e *Engine) mergeArrivals(arr []Outcome, nPC int, facts []*Fact, join *ssa.BasicBlock) (Outcome, bool) {
	acc := arr[len(arr)-1]
	if len(acc.st.pc) < nPC {
		return acc, false
	}
	accCond := And(acc.st.pc[nPC:]...)
	base := acc.st.pc[:nPC:nPC]
	// one arrival per side: the branch condition alone tells them apart
	var two *Term
	if len(arr) == 2 && len(acc.st.pc) > nPC && len(arr[0].st.pc) > nPC && acc.st.pc[nPC] == Not(arr[0].st.pc[nPC]) {
		two = arr[0].st.pc[nPC]
	}
	var sides []*Term
	for i := len(arr) - 2; i >= 0; i-- {
		o := arr[i]
		if len(o.st.pc) < nPC {
			return acc, false
		}
		c := And(o.st.pc[nPC:]...)
		if two != nil {
			for _, t := range o.st.pc[nPC+1:] {
				sides = append(sides, Or(Not(two), t))
			}
			for _, t := range acc.st.pc[nPC+1:] {
				sides = append(sides, Or(two, t))
			}
			c = two
			accCond = Not(two)
		}
		n := acc.st.clone()
		f := acc.fr.clone()
		for k, v := range o.st.heap {
			av, has := acc.st.heap[k]
			if !has {
				n.heap[k] = v
				continue
			}
			if sameVal(v, av) {
				continue
			}
			m, ok := mergeVal(c, v, av)
			if !ok {
				return acc, false
			}
			n.heap[k] = m
		}
		for _, in := range join.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			m, ok := mergeVal(c, o.fr.env[ph], acc.fr.env[ph])
			if !ok {
				return acc, false
			}
			f.env[ph] = m
		}
		n.facts = mergeFacts(facts, acc.st.facts, accCond, o.st.facts, c)
		n.inexact = acc.st.inexact || o.st.inexact
		accCond = Or(accCond, c)
		n.pc = base
		n.inPC = map[*Term]bool{}
		n.eqs = map[*Term]*Term{}
		s0 := newState()
		for _, t := range base {
			s0.assume(t)
		}
		n.inPC, n.eqs = s0.inPC, s0.eqs
		acc = Outcome{st: n, fr: f, arrive: true}
	}
	acc.st.assume(accCond)
	for _, t := range sides {
		acc.st.assume(t)
	}
	return acc, true
}

// jump transfers control along an edge.
func (e *Engine) jump(fr *Frame, from, to *ssa.BasicBlock, st *State) []Outcome {
	if fr.stop == to {
		return []Outcome{{st: st, fr: fr, arrive: true, prev: from}}
	}
	return e.enterBlock(fr, from, to, st, false)
}

func (e *Engine) enterBlock(fr *Frame, from, to *ssa.BasicBlock, st *State, phisDone bool) []Outcome {
	fi := e.info(fr.fn)
	// leaving loops?
	for h, c := range fr.cuts {
		if !c.body[to] {
			if c.infer {
				return nil
			}
			delete(fr.cuts, h)
		}
	}
	for h := range fr.unroll {
		if !fi.loops[h][to] {
			delete(fr.unroll, h)
		}
	}
	if body, ok := fi.loops[to]; ok {
		back := from != nil && body[from]
		if c, active := fr.cuts[to]; active {
			e.backEdge(fr, c, from, to, st)
			return nil
		}
		if !back {
			if phisDone {
				from = nil
			}
			return e.loopEntry(fr, from, to, st)
		}
		fr.unroll[to]++
		if fr.unroll[to] > e.maxUnroll {
			e.overUnroll(fr, to, st)
			return nil
		}
	}
	start := 0
	if phisDone {
		for start < len(to.Instrs) {
			if _, ok := to.Instrs[start].(*ssa.Phi); !ok {
				break
			}
			start++
		}
		if start == 0 {
			return e.run(fr, to, 0, nil, st)
		}
	}
	return e.run(fr, to, start, from, st)
}

func (e *Engine) overUnroll(fr *Frame, h *ssa.BasicBlock, st *State) {
	if e.unrollAll {
		return // bounded falsification: drop deeper iterations
	}
	panic(unsupported(fmt.Sprintf("loop %d of %s needs an invariant (unrolled %d times)", e.info(fr.fn).order[h], fnKey(fr.fn), e.maxUnroll)))
}

// fnKey names a function for contract matching: Func, Type_Method.
func fnKey(fn *ssa.Function) string {
	if fn.Signature.Recv() != nil {
		t := fn.Signature.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name() + "_" + fn.Name()
		}
	}
	return strings.ReplaceAll(fn.Name(), "$", "_")
}

// mergeFacts guards the facts learnt on each branch by the branch condition.
func mergeFacts(base, a []*Fact, ca *Term, b []*Fact, cb *Term) []*Fact {
	if len(a) == len(base) && len(b) == len(base) {
		return base
	}
	out := append([]*Fact{}, base...)
	add := func(fs []*Fact, c *Term) {
		for _, f := range fs[len(base):] {
			out = append(out, NewFact(f.b, f.lo, f.hi, Or(Not(c), f.body)))
		}
	}
	add(a, ca)
	add(b, cb)
	return out
}

func (e *Engine) closeProcs() {
	if e.proc != nil {
		e.proc.Close()
	}
	if e.proc2 != nil {
		e.proc2.Close()
		e.proc2 = nil
	}
}
