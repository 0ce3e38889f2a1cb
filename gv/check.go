package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type failure struct {
	lemma *Lemma
	eng   *Engine
	obl   *Obligation
	msg   string
}

type verdictReport struct {
	Property   string        `json:"property"`
	Lemma      string        `json:"lemma"`
	Obligation string        `json:"obligation"`
	Position   string        `json:"position"`
	Verifier   string        `json:"verifier"`
	Concrete   bool          `json:"concrete_input"`
	Outcome    nativeOutcome `json:"outcome"`
	HowTo      string        `json:"how_to_replay"`
}

// runCheck decides one property; it returns the process exit code.
func runCheck(repo, vdir, prop, tier string) int {
	t0 := time.Now()
	seed := uint64(1)
	if s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	quick := tier != "thorough"
	work := filepath.Join(vdir, ".build", prop)
	os.MkdirAll(work, 0755)
	os.MkdirAll(filepath.Join(vdir, "evidence"), 0755)
	os.MkdirAll(filepath.Join(vdir, "evidence", "replay"), 0755)
	replayPath := filepath.Join(vdir, "evidence", "replay", prop+".json")
	os.Remove(replayPath)

	hard := 780 * time.Second // everything must be over by then
	deadline := t0.Add(hard)
	var fails []failure
	var undecided []string
	w, err := Load(repo, vdir+"/contracts", nil)
	if err != nil {
		writeReplay(replayPath, verdictReport{Property: prop, Obligation: "load", Verifier: err.Error()})
		writeEvidence(vdir, prop, tier, seed, t0, nil, 1, nil, nil, []string{err.Error()})
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replayPath)
		return 1
	}
	expected := expectedLemmas(vdir, prop)
	var lemmas []*Lemma
	have := map[string]bool{}
	for _, l := range w.lemmas {
		if contains(l.props, prop) {
			lemmas = append(lemmas, l)
			have[l.name] = true
		}
	}
	for _, n := range expected {
		if !have[n] {
			undecided = append(undecided, "contract "+n+" no longer type-checks against the code")
		}
	}
	if len(lemmas) == 0 && len(undecided) == 0 {
		undecided = append(undecided, "no contract states this property")
	}
	natCh := make(chan struct {
		n   *Native
		err error
	}, 1)
	go func() {
		n, err := BuildNative(w, work)
		natCh <- struct {
			n   *Native
			err error
		}{n, err}
	}()
	exploreBudget := 240 * time.Second
	solveTimeout := 60 * time.Second
	proveDeadline := t0.Add(420 * time.Second)
	if !quick {
		solveTimeout = 150 * time.Second
	}
	var engines []*Engine
	for _, l := range lemmas {
		e := NewEngine(w)
		engines = append(engines, e)
		b := exploreBudget
		if r := time.Until(proveDeadline); r < b {
			b = r
		}
		err := e.explore(&Task{lemma: l, prop: prop}, b)
		if err != nil {
			undecided = append(undecided, l.name+": "+err.Error())
			fails = append(fails, failure{lemma: l, eng: e, msg: err.Error()})
		}
		mine := e.obls[:0]
		for _, o := range e.obls {
			if o.kind == "panic" && !l.ownsPanics(prop) {
				continue
			}
			mine = append(mine, o)
		}
		e.obls = mine
		e.discharge(solveTimeout, proveDeadline)
		// at least one path must reach the end of the lemma
		endCover, endUnsat := 0, 0
		for _, o := range e.obls {
			if o.kind == "cover" {
				if strings.HasPrefix(o.label, "end of") {
					endCover++
					if o.res.v == Unsat {
						endUnsat++
					}
				}
				continue
			}
			if o.res.v != Unsat {
				fails = append(fails, failure{lemma: l, eng: e, obl: o})
			}
		}
		if endCover > 0 && endCover == endUnsat {
			undecided = append(undecided, l.name+": vacuous (the end is unreachable)")
			fails = append(fails, failure{lemma: l, eng: e, msg: "vacuous"})
		}
	}
	nb := <-natCh
	var runs []string
	violation := (*verdictReport)(nil)
	if nb.err != nil {
		undecided = append(undecided, nb.err.Error())
	} else {
		nat := nb.n
		// concrete cross-check of every lemma (bounded; never counted as proof)
		dur := 3 * time.Second
		if !quick {
			dur = 60 * time.Second
		}
		failing := len(fails) > 0 || len(undecided) > 0
		if failing {
			dur = 12 * time.Second
		}
		if len(lemmas) > 6 && !failing && quick {
			dur = 1500 * time.Millisecond
		}
		for _, l := range lemmas {
			if l.opts["native"] == "no" {
				continue
			}
			r := nat.Fuzz(l, prop, seed, 8, dur)
			runs = append(runs, fmt.Sprintf("%s: %d native runs; %s", l.name, r.runs, r.summary))
			if r.found {
				violation = report(prop, l, fails, r.out)
				break
			}
		}
		if violation == nil && failing {
			violation = hunt(nat, w, prop, lemmas, fails, seed, deadline)
		}
		if tier == "thorough" && violation == nil && !failing {
			runs = append(runs, "thorough: longer native cross-check")
		}
	}
	for _, e := range engines {
		e.closeProcs()
	}
	known := knownFindings(vdir, prop)
	nv := 0
	code := 0
	switch {
	case violation != nil:
		nv = 1
		writeReplay(replayPath, *violation)
		fmt.Printf("failed: %s %s\n", violation.Lemma, violation.Obligation)
		fmt.Printf("failing input: %s\n", firstLine(violation.Outcome.Label))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replayPath)
		code = 1
	case len(fails) > 0 || len(undecided) > 0:
		nv = 1
		rep := verdictReport{Property: prop}
		for i, f := range fails {
			if f.obl != nil {
				if i < 12 {
					rep.Verifier += fmt.Sprintf("%s: %s %s at %s: %s by %s %s\n", f.lemma.name, f.obl.kind, f.obl.label, f.obl.pos, f.obl.res.v, f.obl.res.by, firstLine(f.obl.res.text))
				}
				if rep.Obligation == "" {
					rep.Lemma, rep.Obligation, rep.Position = f.lemma.name, f.obl.kind+": "+f.obl.label, f.obl.pos
				}
			}
		}
		for _, u := range undecided {
			rep.Verifier += u + "\n"
		}
		if rep.Obligation == "" && len(undecided) > 0 {
			rep.Obligation = firstLine(undecided[0])
		}
		writeReplay(replayPath, rep)
		fmt.Printf("not proved: %s %s %s\n", rep.Lemma, rep.Obligation, rep.Position)
		fmt.Print(rep.Verifier)
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replayPath)
		code = 1
	}
	writeEvidence(vdir, prop, tier, seed, t0, engines, nv, runs, known, undecided)
	if code == 0 {
		for _, k := range known {
			fmt.Println(k)
		}
		n, d := 0, 0
		for _, e := range engines {
			a, b := e.counts()
			n += a
			d += b
		}
		fmt.Printf("OK property=%s obligations=%d discharged=%d lemmas=%d wall=%.1fs\n", prop, n, d, len(lemmas), time.Since(t0).Seconds())
	}
	return code
}

func (e *Engine) counts() (n, d int) {
	for _, o := range e.obls {
		if o.kind == "cover" {
			continue
		}
		n++
		if o.res.v == Unsat {
			d++
		}
	}
	return
}

func firstLine(s string) string {
	s, _, _ = strings.Cut(s, "\n")
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func report(prop string, l *Lemma, fails []failure, o nativeOutcome) *verdictReport {
	r := &verdictReport{Property: prop, Lemma: l.name, Concrete: true, Outcome: o}
	r.Obligation = "native: " + firstLine(o.Label)
	for _, f := range fails {
		if f.obl != nil && f.lemma == l {
			r.Obligation = f.obl.kind + ": " + f.obl.label
			r.Position = f.obl.pos
			r.Verifier += fmt.Sprintf("%s %s at %s: %s\n", f.obl.kind, f.obl.label, f.obl.pos, f.obl.res.v)
		}
	}
	r.HowTo = "bash /verif/check.sh replay " + prop + " <this file>"
	return r
}

// hunt looks for a concrete failing input once the proof is open.
func hunt(nat *Native, w *World, prop string, lemmas []*Lemma, fails []failure, seed uint64, deadline time.Time) *verdictReport {
	left := func() time.Duration { return time.Until(deadline) }
	// 1. solver models of the failed obligations
	tried := 0
	for _, f := range fails {
		if f.obl == nil || tried > 24 || left() < 120*time.Second {
			continue
		}
		tried++
		tape, ok := func() (t []tapeEntry, ok bool) {
			defer func() {
				if r := recover(); r != nil {
					ok = false
				}
			}()
			return f.eng.modelTape(f.obl, nil)
		}()
		if !ok {
			continue
		}
		if bad, o := nat.Replay(f.lemma, prop, tape); bad {
			o.Tape = orTape(o.Tape, tape)
			return report(prop, f.lemma, fails, o)
		}
	}
	// the lemmas with open obligations first
	open := map[*Lemma]bool{}
	for _, f := range fails {
		open[f.lemma] = true
	}
	var order []*Lemma
	for _, l := range lemmas {
		if open[l] {
			order = append(order, l)
		}
	}
	for _, l := range lemmas {
		if !open[l] {
			order = append(order, l)
		}
	}
	// 2. bounded symbolic execution: loops unrolled, every assertion's model replayed
	for _, k := range []int{2, 5} {
		for _, l := range order {
			if !open[l] || left() < 100*time.Second {
				continue
			}
			b := 45 * time.Second
			e := NewEngine(w)
			e.unrollAll = true
			e.maxUnroll = k
			func() {
				defer func() { recover() }()
				e.explore(&Task{lemma: l, prop: prop}, b)
			}()
			t1 := time.Now()
			for _, o := range e.obls {
				if o.kind == "cover" || o.trivial || (o.kind == "panic" && !l.ownsPanics(prop)) {
					continue
				}
				if time.Since(t1) > b || left() < 90*time.Second {
					break
				}
				tape, ok := func() (t []tapeEntry, ok bool) {
					defer func() {
						if r := recover(); r != nil {
							ok = false
						}
					}()
					return e.modelTape(o, nil)
				}()
				if !ok {
					continue
				}
				if bad, out := nat.Replay(l, prop, tape); bad {
					out.Tape = orTape(out.Tape, tape)
					e.closeProcs()
					return report(prop, l, fails, out)
				}
			}
			e.closeProcs()
		}
	}
	// 3. longer random search
	rounds := 0
	for left() > 150*time.Second && rounds < 3 {
		for _, l := range order {
			if left() < 100*time.Second || l.opts["native"] == "no" {
				break
			}
			d := 25 * time.Second
			if !open[l] {
				d = 6 * time.Second
			}
			r := nat.Fuzz(l, prop, seed+uint64(rounds+1)*7777777, 8, d)
			if r.found {
				return report(prop, l, fails, r.out)
			}
		}
		rounds++
	}
	return nil
}

// runReplay executes a recorded failing input against the current code.
func runReplay(repo, vdir, prop, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r verdictReport
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	if !r.Concrete {
		fmt.Println("no concrete input recorded; the open obligation was:", r.Obligation)
		fmt.Println(r.Verifier)
		return 0
	}
	w, err := Load(repo, vdir+"/contracts", nil)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	n, err := BuildNative(w, filepath.Join(vdir, ".build", "replay"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	for _, l := range w.lemmas {
		if l.name == r.Lemma {
			bad, o := n.Replay(l, r.Property, r.Outcome.Tape)
			fmt.Println(o.Status, o.Label)
			if bad {
				return 1
			}
			return 0
		}
	}
	fmt.Println("unknown lemma", r.Lemma)
	return 2
}

func orTape(a, b []tapeEntry) []tapeEntry {
	if len(a) > 0 {
		return a
	}
	return b
}

func writeReplay(p string, r verdictReport) {
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(p, b, 0644)
}

// expectedLemmas reads the committed list of lemmas per property.
func expectedLemmas(vdir, prop string) []string {
	b, err := os.ReadFile(filepath.Join(vdir, "contracts", "lemmas.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, ln := range strings.Split(string(b), "\n") {
		f := strings.Fields(ln)
		if len(f) == 2 && f[0] == prop {
			out = append(out, f[1])
		}
	}
	return out
}

func knownFindings(vdir, prop string) []string {
	f, err := os.Open(filepath.Join(vdir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []string
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		ln := strings.TrimSpace(sc.Text())
		if strings.HasPrefix(ln, "KNOWN-FINDING: property="+prop+" ") {
			out = append(out, ln)
		}
	}
	return out
}

func writeEvidence(vdir, prop, tier string, seed uint64, t0 time.Time, engines []*Engine, viol int, runs, known, undecided []string) {
	n, d := 0, 0
	fns := map[string]bool{}
	invs := map[string]bool{}
	trusted := map[string]bool{}
	std := map[string]bool{}
	kinds := map[string]int{}
	contracts := map[string]bool{}
	var names []string
	var labels []string
	seenL := map[string]bool{}
	covers := 0
	for _, e := range engines {
		a, b := e.counts()
		n += a
		d += b
		names = append(names, e.cur.lemma.name)
		for f := range e.usedFns {
			if strings.Contains(f, modPath) && !strings.Contains(f, "/zz_vp") {
				fns[strings.ReplaceAll(f, modPath+"/", "")] = true
			}
		}
		for f := range e.usedInvs {
			invs[f] = true
		}
		for f := range e.usedContracts {
			contracts[f] = true
		}
		for f := range e.trusted {
			trusted[f] = true
		}
		for f := range e.stdInlined {
			std[f] = true
		}
		for _, o := range e.obls {
			if o.kind == "cover" {
				if o.res.v == Sat {
					covers++
				}
				continue
			}
			kinds[o.kind]++
			if o.kind == "assert" && !seenL[o.label] {
				seenL[o.label] = true
				labels = append(labels, o.label)
			}
		}
	}
	back := map[string]int64{}
	solverWins.Range(func(k, v interface{}) bool {
		back[k.(string)] = *(v.(*int64))
		return true
	})
	lvl := "proof"
	tb := sortedKeys(trusted)
	tb = append(tb, "gv: the symbolic executor and obligation generator in /verif/gv", "golang.org/x/tools/go/ssa (lowering of the Go source)", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2")
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": lvl,
		"wall_s":     time.Since(t0).Seconds(),
		"violations": viol,
		"assumptions": append([]string{
			"append copies: writes through a slice never reach elements another slice owns past its length",
			"input slices and strings are shorter than 2^31 bytes; slice lengths stay below 2^47",
			"allocation does not fail; no other goroutine touches the arguments during a call",
			"package variables hold the values their initialisers gave them",
		}, undecided...),
		"coverage": map[string]interface{}{
			"obligations": n, "discharged": d,
			"obligation_kinds":         kinds,
			"discharged_by":            back,
			"solver_calls":             solverCalls,
			"solver_time_s":            float64(solverTimeMs) / 1000,
			"lemmas":                   names,
			"statements":               labels,
			"functions_under_contract": sortedKeys(fns),
			"loop_invariants":          sortedKeys(invs),
			"function_contracts":       sortedKeys(contracts),
			"std_functions_inlined":    sortedKeys(std),
			"reachability_witnesses":   covers,
			"native_cross_check":       runs,
			"known_findings":           known,
			"checker_cmd":              "bash /verif/check.sh " + prop + " " + tier,
			"trusted_base":             tb,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(vdir, "evidence", prop+".json"), b, 0644)
}

func sortedKeys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
