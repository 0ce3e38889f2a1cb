package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Fact is a universally quantified assumption: for all b in [lo,hi): body.
type Fact struct {
	b, lo, hi, body *Term
	trig            map[*Seq][]*Term // index terms (containing b) used with each seq var
	deps            []trig
}

type trig struct {
	seq *Seq   // nil: UF trigger
	uf  string // UF name
	arg int
	idx *Term // index expression; linear in b with coefficient 1
	off *Term // idx - b
}

// findTriggers collects linear occurrences A[b+off] in body.
func findTriggers(b, body *Term) []trig {
	var out []trig
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.hasBound {
			return
		}
		seen[t] = true
		if t.op == OSel || t.op == OTable {
			l := linOf(t.args[0])
			if l.terms[b] == 1 {
				delete(l.terms, b)
				ok := true
				for x := range l.terms {
					if x.hasBound {
						ok = false
					}
				}
				if ok && t.op == OSel {
					out = append(out, trig{seq: t.seq, idx: t.args[0], off: linBuild(l, 64)})
				}
			}
		}
		if t.op == OUF {
			for i, a := range t.args {
				if a.w != 64 {
					continue
				}
				l := linOf(a)
				if l.terms[b] == 1 {
					delete(l.terms, b)
					ok := true
					for x := range l.terms {
						if x.hasBound {
							ok = false
						}
					}
					if ok {
						out = append(out, trig{uf: t.name, arg: i, idx: a, off: linBuild(l, 64)})
					}
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	return out
}

func NewFact(b, lo, hi, body *Term) *Fact {
	f := &Fact{b: b, lo: lo, hi: hi, body: body}
	f.deps = findTriggers(b, body)
	return f
}

// instantiate returns ground instances of facts relevant to the given ground terms.
func instantiate(facts []*Fact, asserts []*Term, rounds, limit int) []*Term {
	if len(facts) == 0 {
		return asserts
	}
	out := append([]*Term{}, asserts...)
	seenTerm := map[*Term]bool{}
	type inst struct {
		f int
		t *Term
	}
	done := map[inst]bool{}
	frontier := asserts
	for r := 0; r < rounds; r++ {
		// collect selects in the frontier
		sels := map[*Seq]map[*Term]bool{}
		ufs := map[string][]*Term{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seenTerm[t] {
				return
			}
			seenTerm[t] = true
			if t.op == OSel && !t.hasBound {
				m := sels[t.seq]
				if m == nil {
					m = map[*Term]bool{}
					sels[t.seq] = m
				}
				m[t.args[0]] = true
			}
			if t.op == OUF && !t.hasBound {
				ufs[t.name] = append(ufs[t.name], t)
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		for _, t := range frontier {
			walk(t)
		}
		var next []*Term
		for fi, f := range facts {
			for _, tg := range f.deps {
				var idxs []*Term
				if tg.seq != nil {
					for i := range sels[tg.seq] {
						idxs = append(idxs, i)
					}
				} else {
					for _, u := range ufs[tg.uf] {
						if tg.arg < len(u.args) {
							idxs = append(idxs, u.args[tg.arg])
						}
					}
				}
				sort.Slice(idxs, func(a, b int) bool { return idxs[a].id < idxs[b].id })
				for _, i := range idxs {
					at := Sub(i, tg.off)
					k := inst{fi, at}
					if done[k] {
						continue
					}
					done[k] = true
					in := And(Sle(f.lo, at), Slt(at, f.hi))
					g := Or(Not(in), Subst(f.body, map[*Term]*Term{f.b: at}))
					if g.isTrue() {
						continue
					}
					next = append(next, g)
					if len(out)+len(next) > limit {
						return append(out, next...)
					}
				}
			}
		}
		if len(next) == 0 {
			break
		}
		out = append(out, next...)
		frontier = next
	}
	return out
}

// ---- emission ----

type emitter struct {
	sb     strings.Builder
	names  map[*Term]string
	decl   map[string]bool
	refs   map[*Term]int
	tables map[*Seq]string
	n      int
}

func sortStr(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func bvLit(v uint64, w int) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, v&mask(w))
	}
	s := strconv.FormatUint(v&mask(w), 2)
	return "#b" + strings.Repeat("0", w-len(s)) + s
}

func quoteSym(n string) string { return "|" + n + "|" }

func (e *emitter) count(t *Term) {
	e.refs[t]++
	if e.refs[t] > 1 {
		return
	}
	for _, a := range t.args {
		e.count(a)
	}
}

func (e *emitter) table(s *Seq) string {
	if n, ok := e.tables[s]; ok {
		return n
	}
	n := fmt.Sprintf("tbl%d", s.id)
	e.tables[s] = n
	nb := 0
	for (1 << nb) < len(s.lit) {
		nb++
	}
	var gen func(bit int, base int) string
	gen = func(bit int, base int) string {
		if bit < 0 {
			v := uint64(0)
			if base < len(s.lit) {
				v = s.lit[base]
			}
			if s.w == 0 {
				if v != 0 {
					return "true"
				}
				return "false"
			}
			return bvLit(v, s.w)
		}
		a := gen(bit-1, base|1<<bit)
		b := gen(bit-1, base)
		if a == b {
			return a
		}
		return fmt.Sprintf("(ite (= ((_ extract %d %d) i) #b1) %s %s)", bit, bit, a, b)
	}
	zero := "false"
	if s.w > 0 {
		zero = bvLit(0, s.w)
	}
	fmt.Fprintf(&e.sb, "(define-fun %s ((i (_ BitVec 64))) %s (ite (bvult i %s) %s %s))\n", n, sortStr(s.w), bvLit(uint64(len(s.lit)), 64), gen(nb-1, 0), zero)
	return n
}

func (e *emitter) term(t *Term) string {
	if n, ok := e.names[t]; ok {
		return n
	}
	var s string
	args := make([]string, len(t.args))
	if t.op != OForall {
		for i, a := range t.args {
			args[i] = e.term(a)
		}
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val != 0 {
				s = "true"
			} else {
				s = "false"
			}
		} else {
			s = bvLit(t.val, t.w)
		}
		e.names[t] = s
		return s
	case OVar, OBound:
		s = quoteSym(t.name)
		if !e.decl[t.name] {
			e.decl[t.name] = true
			fmt.Fprintf(&e.sb, "(declare-fun %s () %s)\n", s, sortStr(t.w))
		}
		e.names[t] = s
		return s
	case OSel:
		n := quoteSym(t.seq.name)
		if !e.decl[t.seq.name] {
			e.decl[t.seq.name] = true
			fmt.Fprintf(&e.sb, "(declare-fun %s ((_ BitVec 64)) %s)\n", n, sortStr(t.w))
		}
		s = "(" + n + " " + args[0] + ")"
	case OTable:
		s = "(" + e.table(t.seq) + " " + args[0] + ")"
	case OUF:
		n := quoteSym("uf." + t.name)
		if !e.decl["uf."+t.name] {
			e.decl["uf."+t.name] = true
			var ss []string
			for _, a := range t.args {
				ss = append(ss, sortStr(a.w))
			}
			fmt.Fprintf(&e.sb, "(declare-fun %s (%s) %s)\n", n, strings.Join(ss, " "), sortStr(t.w))
		}
		if len(args) == 0 {
			s = n
		} else {
			s = "(" + n + " " + strings.Join(args, " ") + ")"
		}
	case OZext:
		s = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, args[0])
	case OSext:
		s = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, args[0])
	case OExtract:
		s = fmt.Sprintf("((_ extract %d %d) %s)", int(t.val)+t.w-1, t.val, args[0])
	case OForall:
		s = "true" // quantified assumptions are instantiated beforehand; dropping one is sound
	case OAdd:
		s = args[0]
		for _, a := range args[1:] {
			s = "(bvadd " + s + " " + a + ")"
		}
	default:
		s = "(" + opNames[t.op] + " " + strings.Join(args, " ") + ")"
	}
	if e.refs[t] > 1 && len(s) > 12 {
		e.n++
		n := fmt.Sprintf("t%d", e.n)
		fmt.Fprintf(&e.sb, "(define-fun %s () %s %s)\n", n, sortStr(t.w), s)
		e.names[t] = n
		return n
	}
	e.names[t] = s
	return s
}

// script builds the SMT-LIB text asserting all given terms.
func script(asserts []*Term) string {
	e := &emitter{names: map[*Term]string{}, decl: map[string]bool{}, refs: map[*Term]int{}, tables: map[*Seq]string{}}
	for _, a := range asserts {
		e.count(a)
	}
	for _, a := range asserts {
		s := e.term(a)
		fmt.Fprintf(&e.sb, "(assert %s)\n", s)
	}
	return e.sb.String()
}

// ---- solving ----

type Verdict int

const (
	Unknown Verdict = iota
	Sat
	Unsat
)

func (v Verdict) String() string { return [...]string{"unknown", "sat", "unsat"}[v] }

type solverCfg struct {
	name string
	cmd  []string
	pre  string
}

var solverCfgs = []solverCfg{
	{"z3-5.3.2", []string{"z3-new", "-in", "-smt2"}, "(set-logic QF_UFBV)\n"},
	{"cvc5-1.1.2/int", []string{"cvc5", "--lang=smt2", "--produce-models", "--solve-bv-as-int=sum", "-"}, ""},
	{"cvc5-1.1.2", []string{"cvc5", "--lang=smt2", "--produce-models", "-"}, "(set-logic QF_UFBV)\n"},
	{"z3-4.8.12", []string{"z3", "-in", "-smt2"}, "(set-logic QF_UFBV)\n"},
	{"z3-5.3.2/smt", []string{"z3-new", "-in", "-smt2"}, ""},
}

var solverTimeMs int64
var solverCalls int64
var solverWins sync.Map

func countWin(n string) {
	v, _ := solverWins.LoadOrStore(n, new(int64))
	atomic.AddInt64(v.(*int64), 1)
}

func runSolver(ctx context.Context, c solverCfg, text string) (Verdict, string) {
	t0 := time.Now()
	cmd := exec.CommandContext(ctx, c.cmd[0], c.cmd[1:]...)
	cmd.Stdin = strings.NewReader(c.pre + text + "(check-sat)\n")
	out, _ := cmd.Output()
	atomic.AddInt64(&solverTimeMs, time.Since(t0).Milliseconds())
	atomic.AddInt64(&solverCalls, 1)
	s := strings.TrimSpace(string(out))
	switch {
	case strings.HasPrefix(s, "unsat"):
		return Unsat, s
	case strings.HasPrefix(s, "sat"):
		return Sat, s
	}
	return Unknown, s
}

// solverSlots bounds the number of concurrently running solver processes.
var solverSlots = make(chan struct{}, 8)

type checkRes struct {
	v    Verdict
	by   string
	text string
	ms   int64
}

// portfolio decides satisfiability of the script.
// absMul replaces every product by a variable with the range of the product. The result is
// implied by the original, so its unsatisfiability carries over. It is nil without products.
func absMul(as []*Term) []*Term {
	memo := map[*Term]*Term{}
	found := false
	var facts []*Term
	done := map[*Term]bool{}
	var re func(t *Term) *Term
	re = func(t *Term) *Term {
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.op == OMul && !t.hasBound && !(t.args[0].isConst() && t.args[0].val == mask(t.w)) {
			found = true
			a, b := t.args[0], t.args[1]
			neg := false
			if a.isConst() && int64(a.val<<uint(64-a.w)) < 0 {
				neg = true
				a = BV(-a.val&mask(a.w), a.w)
			}
			p := t
			if neg {
				p = Mul(a, b)
			}
			v := Var(fmt.Sprintf("prod.%d", p.id), p.w)
			if !done[v] {
				done[v] = true
				if a.isConst() {
					x := re(b)
					facts = append(facts, Or(Not(Eq(x, BV(0, p.w))), Eq(v, BV(0, p.w))), Or(Not(Eq(x, BV(1, p.w))), Eq(v, a)))
				}
				if u := umax(p); u < mask(p.w) {
					facts = append(facts, Ule(v, BV(u, p.w)))
				}
			}
			r = v
			if neg {
				r = Neg(v)
			}
		} else {
			args := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				args[i] = re(a)
				ch = ch || args[i] != a
			}
			r = t
			if ch {
				r = rebuild(t, args, t.seq)
			}
		}
		memo[t] = r
		return r
	}
	out := make([]*Term, len(as))
	for i, a := range as {
		out[i] = re(a)
	}
	if !found {
		return nil
	}
	return append(out, facts...)
}

func portfolio(text, abs string, timeout time.Duration) checkRes {
	t0 := time.Now()
	// stage 1: one solver with a short budget
	st1 := 3 * time.Second
	if st1 > timeout {
		st1 = timeout
	}
	if abs != "" {
		solverSlots <- struct{}{}
		ctx, cancel := context.WithTimeout(context.Background(), 1500*time.Millisecond)
		v, _ := runSolver(ctx, solverCfgs[0], abs)
		cancel()
		<-solverSlots
		if v == Unsat {
			countWin(solverCfgs[0].name + " (products abstracted)")
			return checkRes{v, solverCfgs[0].name, "", time.Since(t0).Milliseconds()}
		}
	}
	solverSlots <- struct{}{}
	ctx, cancel := context.WithTimeout(context.Background(), st1)
	v, out := runSolver(ctx, solverCfgs[0], text)
	cancel()
	<-solverSlots
	if v != Unknown {
		countWin(solverCfgs[0].name)
		return checkRes{v, solverCfgs[0].name, out, time.Since(t0).Milliseconds()}
	}
	rest := timeout - time.Since(t0)
	if rest < 500*time.Millisecond {
		return checkRes{Unknown, "", out, time.Since(t0).Milliseconds()}
	}
	ctx, cancel = context.WithTimeout(context.Background(), rest)
	defer cancel()
	cfgs := append([]solverCfg{}, solverCfgs...)
	if abs != "" {
		c := solverCfgs[0]
		c.name += "+products"
		cfgs = append([]solverCfg{c}, cfgs...)
	}
	ch := make(chan checkRes, len(cfgs))
	for i, c := range cfgs {
		i, c := i, c
		go func() {
			select {
			case solverSlots <- struct{}{}:
			case <-ctx.Done():
				ch <- checkRes{v: Unknown, by: c.name}
				return
			}
			txt := text
			if abs != "" && i == 0 {
				txt = abs
			}
			v, out := runSolver(ctx, c, txt)
			if abs != "" && i == 0 && v == Sat {
				v = Unknown
			}
			<-solverSlots
			ch <- checkRes{v: v, by: c.name, text: out}
		}()
	}
	last := checkRes{v: Unknown}
	for range cfgs {
		r := <-ch
		if r.v != Unknown {
			cancel()
			countWin(r.by)
			r.ms = time.Since(t0).Milliseconds()
			return r
		}
		if r.text != "" {
			last.text += r.by + ": " + r.text + "\n"
		}
	}
	last.ms = time.Since(t0).Milliseconds()
	return last
}

// Proc is an interactive solver used for pruning and models.
type Proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func NewProc() (*Proc, error) {
	p := &Proc{cmd: exec.Command("z3-new", "-in", "-smt2")}
	var err error
	p.in, err = p.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	o, err := p.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p.out = bufio.NewReaderSize(o, 1<<16)
	return p, p.cmd.Start()
}

func (p *Proc) Close() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

func (p *Proc) line() (string, error) {
	s, err := p.out.ReadString('\n')
	return strings.TrimSpace(s), err
}

// Check runs a full script after a reset.
func (p *Proc) Check(text string, ms int) Verdict {
	t0 := time.Now()
	fmt.Fprintf(p.in, "(reset)\n(set-option :timeout %d)\n(set-logic QF_UFBV)\n%s(check-sat)\n", ms, text)
	defer func() {
		atomic.AddInt64(&solverTimeMs, time.Since(t0).Milliseconds())
		atomic.AddInt64(&solverCalls, 1)
	}()
	for {
		s, err := p.line()
		if err != nil {
			return Unknown
		}
		switch s {
		case "sat":
			return Sat
		case "unsat":
			return Unsat
		case "unknown", "timeout":
			return Unknown
		}
		if strings.HasPrefix(s, "(error") {
			panic("solver error: " + s)
		}
	}
}

// Eval asks for the value of an SMT expression in the current model.
func (p *Proc) Eval(expr string) (uint64, bool) {
	fmt.Fprintf(p.in, "(eval %s :completion true)\n", expr)
	s, err := p.line()
	if err != nil {
		return 0, false
	}
	return parseVal(s)
}

func parseVal(s string) (uint64, bool) {
	switch {
	case s == "true":
		return 1, true
	case s == "false":
		return 0, true
	case strings.HasPrefix(s, "#x"):
		v, err := strconv.ParseUint(s[2:], 16, 64)
		return v, err == nil
	case strings.HasPrefix(s, "#b"):
		v, err := strconv.ParseUint(s[2:], 2, 64)
		return v, err == nil
	}
	return 0, false
}
