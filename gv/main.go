package main

import (
	"crypto/sha256"
	"flag"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Task is the verification of one lemma for one property.
type Task struct {
	lemma *Lemma
	prop  string
}

func NewEngine(w *World) *Engine {
	p, err := NewProc()
	if err != nil {
		panic(err)
	}
	return &Engine{w: w, proc: p, globals: map[*ssa.Global]VPtr{}, funcInfo: map[*ssa.Function]*fnInfo{}, feasMemo: map[string]bool{}, recApps: map[*Term]*recApp{}, modCache: map[string]*modSet{}, covers: map[string]bool{}, usedFns: map[string]bool{}, usedInvs: map[string]bool{}, usedContracts: map[string]bool{}, trusted: map[string]bool{}, stdInlined: map[string]bool{}, defs: map[*Term]*def{}, reified: map[*Term]*Term{}, maxUnroll: 300}
}

func (e *Engine) cover(st *State, label string) {
	o := &Obligation{kind: "cover", label: label, pc: st.pc, facts: st.facts, goal: TFalse}
	e.obls = append(e.obls, o)
}

// explore generates the obligations of a task.
func (e *Engine) explore(t *Task, budget time.Duration) (err error) {
	e.cur = t
	e.deadline = time.Now().Add(budget)
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Unsupported); ok {
				if os.Getenv("GV_TRACE") != "" {
					panic(r)
				}
				err = u
				return
			}
			if os.Getenv("GV_PANIC") != "" {
				panic(r)
			}
			buf := make([]byte, 2000)
			buf = buf[:runtime.Stack(buf, false)]
			err = Unsupported{fmt.Sprintf("internal: %v\n%s", r, buf)}
		}
	}()
	st := newState()
	e.inInit = true
	st = e.initPackage(t.lemma.fn.Pkg, st, map[*ssa.Package]bool{})
	e.inInit = false
	outs := e.callFn(t.lemma.fn, nil, nil, st, nil, true)
	for _, o := range outs {
		e.cover(o.st, "end of "+t.lemma.name)
	}
	if len(outs) == 0 {
		err = Unsupported{"no execution of " + t.lemma.name + " reaches its end"}
	}
	return
}

// canon renames the generated symbols of a script in order of appearance, so that queries that
// differ in them only are solved once.
var symRe = regexp.MustCompile(`\|[^|]*\|`)

func canon(text string) string {
	names := map[string]string{}
	return symRe.ReplaceAllStringFunc(text, func(s string) string {
		n, ok := names[s]
		if !ok {
			n = fmt.Sprintf("|s%d|", len(names))
			names[s] = n
		}
		return n
	})
}

type memoEntry struct {
	once sync.Once
	res  checkRes
}

var queryMemo sync.Map

// solveShared is portfolio, once for all queries with the same canonical text and only if that proves the goal.
func solveShared(text, abs string, timeout time.Duration) checkRes {
	k := sha256.Sum256([]byte(canon(text)))
	v, _ := queryMemo.LoadOrStore(k, &memoEntry{})
	m := v.(*memoEntry)
	mine := false
	m.once.Do(func() {
		mine = true
		m.res = portfolio(text, abs, timeout)
	})
	if mine || m.res.v == Unsat {
		return m.res
	}
	return portfolio(text, abs, timeout)
}

// discharge decides the obligations.
func (e *Engine) discharge(timeout time.Duration, deadline time.Time) {
	type job struct {
		obls []*Obligation
		text string
		abs  string // the same query with products abstracted (only its unsatisfiability counts)
	}
	type query struct{ text, abs string }
	build := func(o *Obligation, pc []*Term, facts []*Fact) ([]*Term, string) {
		var as []*Term
		as = append(as, pc...)
		if o.kind == "cover" {
			pc2, fs := e.withDefs(as, facts...)
			as = instantiate(append(fs, facts...), pc2, 1, len(pc2)+200)
		} else {
			as = append(as, Not(o.goal))
			as = append(as, e.extFacts(o.goal, pc)...)
			as2, fs := e.withDefs(as, facts...)
			as = instantiate(append(fs, facts...), as2, 3, len(as2)+600)
			// definitions of symbols introduced by instantiation
			as, _ = e.withDefs(as)
		}
		ids := make([]int, len(as))
		for i, a := range as {
			ids[i] = a.id
		}
		sort.Ints(ids)
		return as, fmt.Sprint(ids)
	}
	texts := map[string]query{}
	render := func(o *Obligation, as []*Term, key string) query {
		if q, ok := texts[key]; ok {
			return q
		}
		q := query{text: script(as)}
		if ab := absMul(as); ab != nil && o.kind != "cover" {
			q.abs = script(ab)
		}
		texts[key] = q
		return q
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, 10)
	jobs := map[string]*job{}
	covers := map[string]int{}
	for _, o := range e.obls {
		o := o
		if o.trivial {
			continue
		}
		if o.kind == "cover" {
			covers[o.label]++
			if covers[o.label] > 4 {
				o.res = checkRes{v: Unknown, by: "not needed"}
				continue
			}
		}
		as, key := build(o, o.pc, o.facts)
		if j := jobs[key]; j != nil {
			j.obls = append(j.obls, o)
			continue
		}
		q := render(o, as, key)
		// a part of the hypotheses first: those connected to the goal
		var part query
		light := false
		if o.kind != "cover" {
			e.noRec = !mentionsRec(o.goal)
			if pc := slicePC(o.pc, o.goal); len(pc) < len(o.pc) || e.noRec {
				as, k2 := build(o, pc, o.facts)
				if k2 != key {
					part = render(o, as, k2)
				}
			}
			light = e.noRec
			e.noRec = false
		}
		j := &job{text: q.text, abs: q.abs, obls: []*Obligation{o}}
		jobs[key] = j
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			to := timeout
			if r := time.Until(deadline); r < to {
				to = r
			}
			if to < 200*time.Millisecond {
				to = 200 * time.Millisecond
			}
			var r checkRes
			if part.text != "" {
				pt := to
				if light {
					pt = 3 * time.Second
				}
				r = solveShared(part.text, part.abs, pt)
				if r.v != Unsat {
					r = solveShared(j.text, j.abs, to)
				}
			} else {
				r = solveShared(j.text, j.abs, to)
			}
			j.obls[0].res, j.obls[0].text, j.obls[0].abs = r, j.text, j.abs
		}()
	}
	wg.Wait()
	// should no sampled end be reachable, the others are asked too
	reach := map[string]bool{}
	for _, o := range e.obls {
		if o.kind == "cover" && !o.trivial && o.res.by != "not needed" && o.res.v != Unsat {
			reach[o.label] = true
		}
	}
	for _, o := range e.obls {
		if o.kind == "cover" && o.res.by == "not needed" && !reach[o.label] {
			as, _ := build(o, o.pc, o.facts)
			o.res = portfolio(script(as), "", timeout)
			if o.res.v != Unsat {
				reach[o.label] = true
			}
		}
	}
	// a last attempt at the few that are left, one after the other on the whole machine
	var left []*job
	for _, j := range jobs {
		if o := j.obls[0]; o.kind != "cover" && o.res.v == Unknown {
			left = append(left, j)
		}
	}
	if len(left) <= 8 {
		for _, j := range left {
			r := time.Until(deadline)
			if r < 5*time.Second {
				break
			}
			if r > 3*timeout {
				r = 3 * timeout
			}
			o := j.obls[0]
			o.res = portfolio(j.text, j.abs, r)
			if o.res.v != Unsat {
				break
			}
		}
	}
	for _, j := range jobs {
		for _, o := range j.obls[1:] {
			o.res, o.text, o.abs = j.obls[0].res, j.text, j.abs
		}
	}
}

func main() {
	debug.SetGCPercent(300)
	if f := os.Getenv("GV_PROF"); f != "" {
		w, err := os.Create(f)
		if err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: gv list|run|check")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	vdir := fs.String("verif", "/verif", "")
	lemma := fs.String("lemma", "", "")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	_ = tier
	verbose := fs.Bool("v", false, "")
	dump := fs.String("dump", "", "")
	tmo := fs.Duration("timeout", 20*time.Second, "")
	budget := fs.Duration("budget", 300*time.Second, "")
	unroll := fs.Int("unroll", 0, "")
	tapeF := fs.String("tape", "", "")
	fs.Parse(os.Args[2:])
	switch cmd {
	case "check":
		os.Exit(runCheck(*repo, *vdir, *prop, *tier))
	case "fuzz":
		w, err := Load(*repo, *vdir+"/contracts", nil)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		n, err := BuildNative(w, *vdir+"/.build/fuzz")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, l := range w.lemmas {
			if *lemma != "" && !strings.Contains(l.name, *lemma) {
				continue
			}
			for _, p := range l.props {
				if *prop != "" && p != *prop {
					continue
				}
				r := n.Fuzz(l, p, 1, 8, *budget)
				fmt.Println(l.name, p, r.runs, r.summary, r.found, r.out)
			}
		}
	case "mfuzz": // the falsifier alone, over a comma separated list of properties; stops at the first input found
		w, err := Load(*repo, *vdir+"/contracts", nil)
		if err != nil {
			fmt.Println("LOAD", err)
			os.Exit(2)
		}
		n, err := BuildNative(w, *vdir+"/.build/fuzz")
		if err != nil {
			fmt.Println("BUILD", err)
			os.Exit(2)
		}
		want := "," + *prop + ","
		for _, l := range w.lemmas {
			for _, p := range l.props {
				if !strings.Contains(want, ","+p+",") || l.opts["native"] == "no" {
					continue
				}
				if r := n.Fuzz(l, p, 1, 1, *budget); r.found {
					fmt.Println("FOUND", p, l.name, r.out.Label)
					os.Exit(1)
				}
			}
		}
		fmt.Println("NOTHING")
	case "replay":
		os.Exit(runReplay(*repo, *vdir, *prop, *tapeF))
	case "list":
		w, err := Load(*repo, *vdir+"/contracts", nil)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, l := range w.lemmas {
			for _, p := range l.props {
				fmt.Println(p, l.name)
			}
		}
		if len(w.dropped) > 0 {
			fmt.Fprintln(os.Stderr, "dropped:", w.dropped)
		}
	case "run":
		t0 := time.Now()
		w, err := Load(*repo, *vdir+"/contracts", nil)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		if len(w.dropped) > 0 {
			fmt.Println("dropped:", w.dropped)
		}
		fmt.Println("load", time.Since(t0))
		for _, l := range w.lemmas {
			if *lemma != "" && !strings.Contains(l.name, *lemma) {
				continue
			}
			if *prop != "" && !contains(l.props, *prop) {
				continue
			}
			props := []string{*prop}
			if *prop == "" {
				props = []string{""}
			}
			for _, p := range props {
				t1 := time.Now()
				e := NewEngine(w)
				if *unroll > 0 {
					e.unrollAll = true
					e.maxUnroll = *unroll
				}
				err := e.explore(&Task{lemma: l, prop: p}, *budget)
				t2 := time.Now()
				if statOn {
					var ks []string
					for k := range feasStat {
						ks = append(ks, k)
					}
					sort.Slice(ks, func(i, j int) bool { return feasStat[ks[i]][1] > feasStat[ks[j]][1] })
					for i, k := range ks {
						if i < 40 {
							fmt.Printf("   %6d %8dms unsat %6d  %s\n", feasStat[k][0], feasStat[k][1]/1000, feasStat[k][2], k)
						}
					}
				}
				if os.Getenv("GV_EXPLORE") != "" {
					fmt.Println(len(e.obls), time.Since(t1), err)
					continue
				}
				e.discharge(*tmo, time.Now().Add(*budget))
				n, d := 0, 0
				kinds := map[string][2]int{}
				for i, o := range e.obls {
					ok := o.res.v == Unsat
					if o.kind == "cover" {
						ok = o.res.v != Unsat
					}
					n++
					k := kinds[o.kind]
					k[0]++
					if ok {
						d++
						k[1]++
					}
					kinds[o.kind] = k
					if !ok || *verbose {
						fmt.Printf("  [%s] %s %s (%s) %v by %s %dms  goal: %.300s\n", map[bool]string{true: "ok", false: "FAIL"}[ok], o.kind, o.label, o.pos, o.res.v, o.res.by, o.res.ms, o.goal)
					}
					if *dump != "" && (!ok || o.res.ms > 1500) {
						os.WriteFile(fmt.Sprintf("%s/o%d.smt2", *dump, i), []byte(o.text+"(check-sat)\n"), 0644)
						os.WriteFile(fmt.Sprintf("%s/o%d.abs.smt2", *dump, i), []byte(o.abs+"(check-sat)\n"), 0644)
					}
				}
				st := "ok"
				if err != nil {
					st = err.Error()
				}
				fmt.Printf("%s: %s explore %v (feas %d, %dms) discharge %v; obligations %d discharged %d %v\n", l.name, st, t2.Sub(t1).Round(time.Millisecond), e.nFeas, e.feasMs, time.Since(t2).Round(time.Millisecond), n, d, kinds)
				e.closeProcs()
			}
		}
	}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// contractOf is the contract of fn if the lemma uses it.
func (e *Engine) contractOf(fn *ssa.Function) *ssa.Function {
	if e.inInit || e.cur.lemma.opts["use"] == "" || fn.Pkg == nil {
		return nil
	}
	k := fnKey(fn)
	for _, u := range strings.Split(e.cur.lemma.opts["use"], ",") {
		if u == k {
			c := e.w.contracts[fn.Pkg.Pkg.Path()+"."+k]
			if c == nil {
				panic(unsupported("contract con_" + k + " is missing"))
			}
			return c
		}
	}
	return nil
}
