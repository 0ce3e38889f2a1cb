package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Native is the harness compiled with the real code.
type Native struct {
	dir  string
	bin  string
	dict string
	w    *World
}

type tapeEntry struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  string `json:"val"`
}
type nativeOutcome struct {
	Status string      `json:"status"`
	Label  string      `json:"label"`
	Tape   []tapeEntry `json:"tape"`
}

func relPkg(path string) string { return strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/") }

// BuildNative compiles every contract natively against the current tree.
func BuildNative(w *World, work string) (*Native, error) {
	dir := filepath.Join(work, "native")
	if err := os.MkdirAll(dir, 0755); err != nil {
		return nil, err
	}
	n := &Native{dir: dir, bin: filepath.Join(dir, "vpmain"), dict: filepath.Join(dir, "dict.json"), w: w}
	repl := map[string]string{}
	i := 0
	put := func(virt string, content []byte) error {
		i++
		f := filepath.Join(dir, fmt.Sprintf("f%d_%s", i, filepath.Base(virt)))
		if err := os.WriteFile(f, content, 0644); err != nil {
			return err
		}
		repl[virt] = f
		return nil
	}
	for v, c := range w.content {
		if err := put(v, c); err != nil {
			return nil, err
		}
	}
	byPkg := map[string][]*Lemma{}
	for _, l := range w.lemmas {
		byPkg[l.pkg] = append(byPkg[l.pkg], l)
	}
	var imports []string
	var pk []string
	for p := range byPkg {
		pk = append(pk, p)
	}
	sort.Strings(pk)
	for _, p := range pk {
		var b bytes.Buffer
		name := w.pkgs[p].Pkg.Name()
		fmt.Fprintf(&b, "package %s\n\nimport zzvp %q\n\nfunc init() {\n", name, vpPath)
		for _, l := range byPkg[p] {
			var ps []string
			for x := range l.panics {
				ps = append(ps, x)
			}
			if len(ps) == 0 && len(l.props) > 0 {
				ps = l.props[:1]
			}
			sort.Strings(ps)
			fmt.Fprintf(&b, "\tzzvp.Register(%q, %s, %q)\n", relPkg(p)+"."+l.name, l.name, strings.Join(ps, " "))
		}
		b.WriteString("}\n")
		if err := put(filepath.Join(w.repo, relPkg(p), "zz_vp_reg.go"), b.Bytes()); err != nil {
			return nil, err
		}
		imports = append(imports, p)
	}
	var b bytes.Buffer
	b.WriteString("package main\n\nimport (\n\tzzvp \"" + vpPath + "\"\n")
	for _, p := range imports {
		fmt.Fprintf(&b, "\t_ %q\n", p)
	}
	b.WriteString(")\n\nfunc main() { zzvp.Main() }\n")
	if err := put(filepath.Join(w.repo, "zz_vpmain", "main.go"), b.Bytes()); err != nil {
		return nil, err
	}
	oj, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	ovf := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovf, oj, 0644); err != nil {
		return nil, err
	}
	cmd := exec.Command("go", "build", "-overlay", ovf, "-o", n.bin, "./zz_vpmain")
	cmd.Dir = w.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("native build: %v\n%s", err, out)
	}
	n.writeDict()
	return n, nil
}

// writeDict collects the literals of the repository as generator hints.
func (n *Native) writeDict() {
	ints := map[uint64]bool{}
	strs := map[string]bool{}
	filepath.Walk(n.w.repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		if strings.HasSuffix(p, "crc32.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(x ast.Node) bool {
			bl, ok := x.(*ast.BasicLit)
			if !ok {
				return true
			}
			switch bl.Kind {
			case token.INT:
				if v, err := strconv.ParseUint(bl.Value, 0, 64); err == nil {
					ints[v] = true
				}
			case token.CHAR:
				if v, _, _, err := strconv.UnquoteChar(bl.Value[1:], '\''); err == nil {
					ints[uint64(v)] = true
				}
			case token.STRING:
				if s, err := strconv.Unquote(bl.Value); err == nil && len(s) > 0 && len(s) < 40 {
					strs[s] = true
				}
			}
			return true
		})
		return nil
	})
	var d struct {
		I []uint64
		S []string
	}
	for v := range ints {
		d.I = append(d.I, v)
	}
	for s := range strs {
		d.S = append(d.S, s)
	}
	sort.Slice(d.I, func(i, j int) bool { return d.I[i] < d.I[j] })
	sort.Strings(d.S)
	b, _ := json.Marshal(d)
	os.WriteFile(n.dict, b, 0644)
}

func lemmaID(l *Lemma) string { return relPkg(l.pkg) + "." + l.name }

type fuzzResult struct {
	found   bool
	out     nativeOutcome
	runs    int
	summary string
}

func runLimited(ctx context.Context, bin string, args ...string) (int, string) {
	sh := append([]string{"-c", `ulimit -v 12000000; exec "$0" "$@"`, bin}, args...)
	cmd := exec.CommandContext(ctx, "bash", sh...)
	cmd.Dir = os.TempDir()
	var o bytes.Buffer
	cmd.Stdout = &o
	cmd.Stderr = &o
	err := cmd.Run()
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	return code, o.String()
}

// Fuzz runs the harness on random inputs in procs processes.
func (n *Native) Fuzz(l *Lemma, prop string, seed uint64, procs int, dur time.Duration) fuzzResult {
	var mu sync.Mutex
	var res fuzzResult
	ctx, cancel := context.WithTimeout(context.Background(), dur+40*time.Second)
	defer cancel()
	var wg sync.WaitGroup
	for i := 0; i < procs; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			of := filepath.Join(n.dir, fmt.Sprintf("out_%s_%s_%d.json", l.name, prop, i))
			os.Remove(of)
			s := fmt.Sprint(seed + uint64(i)*1000003)
			args := []string{"-lemma", lemmaID(l), "-prop", prop, "-seed", s, "-time", dur.String(), "-dict", n.dict, "-out", of}
			code, txt := runLimited(ctx, n.bin, args...)
			mu.Lock()
			defer mu.Unlock()
			if code == 0 {
				for _, ln := range strings.Split(txt, "\n") {
					if strings.HasPrefix(ln, "RUNS ") {
						var r int
						fmt.Sscanf(ln, "RUNS %d", &r)
						res.runs += r
						if i == 0 {
							res.summary = ln
						}
					}
				}
				return
			}
			if res.found {
				return
			}
			if code == 3 {
				b, err := os.ReadFile(of)
				if err == nil {
					var o nativeOutcome
					if json.Unmarshal(b, &o) == nil && o.Status != "ok" {
						res.found, res.out = true, o
						cancel()
						return
					}
				}
			}
			if ctx.Err() != nil {
				return
			}
			// crashed: find the iteration again with persistence
			if !l.ownsPanics(prop) {
				return
			}
			pf := of + ".iter"
			ctx2, c2 := context.WithTimeout(context.Background(), dur+20*time.Second)
			defer c2()
			code2, txt2 := runLimited(ctx2, n.bin, append(args, "-persist", pf)...)
			// memory is not bounded by any contract: running out of it is no violation
			if code2 != 0 && code2 != 3 && !strings.Contains(txt2, "out of memory") && !strings.Contains(txt2, "cannot allocate") {
				it, _ := os.ReadFile(pf)
				if len(txt2) > 1500 {
					txt2 = txt2[:1500]
				}
				res.found = true
				res.out = nativeOutcome{Status: "crash", Label: fmt.Sprintf("process crashed (seed %s, iteration %s): %s", s, it, txt2)}
			}
		}()
	}
	wg.Wait()
	return res
}

func (l *Lemma) ownsPanics(prop string) bool {
	if len(l.panics) == 0 {
		return len(l.props) > 0 && l.props[0] == prop
	}
	return l.panics[prop]
}

// Replay runs one tape.
func (n *Native) Replay(l *Lemma, prop string, tape []tapeEntry) (bool, nativeOutcome) {
	b, _ := json.Marshal(nativeOutcome{Tape: tape})
	h := sha256.Sum256(b)
	tf := filepath.Join(n.dir, "tape_"+hex.EncodeToString(h[:6])+".json")
	of := tf + ".out"
	os.WriteFile(tf, b, 0644)
	defer os.Remove(tf)
	defer os.Remove(of)
	ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
	defer cancel()
	code, _ := runLimited(ctx, n.bin, "-lemma", lemmaID(l), "-prop", prop, "-tape", tf, "-out", of)
	if code == 3 {
		var o nativeOutcome
		rb, err := os.ReadFile(of)
		if err == nil && json.Unmarshal(rb, &o) == nil {
			return true, o
		}
	}
	return false, nativeOutcome{}
}

// modelTape asks the solver for a model of the negated obligation and reads the inputs.
func (e *Engine) modelTape(o *Obligation, bound []*Term) ([]tapeEntry, bool) {
	as := append(append([]*Term{}, o.pc...), Not(o.goal))
	as = append(as, bound...)
	// prefer small inputs
	for _, lim := range []uint64{40, 300, 2000, 70000} {
		as2 := append([]*Term{}, as...)
		for _, in := range o.inputs {
			if in.len != nil {
				as2 = append(as2, Ult(in.len, BV(lim, 64)))
			}
		}
		ds, fs := e.withDefs(as2, o.facts...)
		as3 := instantiate(append(fs, o.facts...), ds, 3, len(ds)+600)
		as3, _ = e.withDefs(as3)
		txt := script(as3)
		if e.proc.Check(txt, 8000) != Sat {
			continue
		}
		return e.readInputs(o.inputs, as3)
	}
	return nil, false
}

func (e *Engine) readInputs(ins []Input, as []*Term) ([]tapeEntry, bool) {
	decl := map[string]bool{}
	var walk func(t *Term)
	seen := map[*Term]bool{}
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar {
			decl[t.name] = true
		}
		if t.op == OSel {
			decl[t.seq.name] = true
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range as {
		walk(t)
	}
	var tape []tapeEntry
	for _, in := range ins {
		switch {
		case in.seq != nil:
			n := uint64(0)
			if in.len.isConst() {
				n = in.len.val
			} else if in.len.op == OVar {
				if decl[in.len.name] {
					n, _ = e.proc.Eval(quoteSym(in.len.name))
				}
			} else {
				ok := true
				for v := range varsOf(in.len) {
					if !decl[v] {
						ok = false
					}
				}
				if ok {
					em := &emitter{names: map[*Term]string{}, decl: decl, refs: map[*Term]int{}, tables: map[*Seq]string{}}
					n, _ = e.proc.Eval(em.term(in.len))
				}
			}
			if n > 100000 {
				return nil, false
			}
			b := make([]byte, n)
			if decl[in.seq.name] {
				for i := range b {
					v, _ := e.proc.Eval(fmt.Sprintf("(%s %s)", quoteSym(in.seq.name), bvLit(uint64(i), 64)))
					b[i] = byte(v)
				}
			}
			tape = append(tape, tapeEntry{in.name, in.kind, hex.EncodeToString(b)})
		default:
			t := in.val.(*Term)
			var v uint64
			if decl[t.name] {
				v, _ = e.proc.Eval(quoteSym(t.name))
			}
			s := fmt.Sprint(v)
			if in.kind == "Range" {
				s = fmt.Sprint(int64(v))
			}
			tape = append(tape, tapeEntry{in.name, in.kind, s})
		}
	}
	return tape, true
}
