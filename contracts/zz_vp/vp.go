// Package zz_vp is the specification vocabulary of the contracts.
//
// The verifier gives these functions their symbolic meaning; the bodies below are
// their concrete meaning, used when a contract is executed natively (replay of a
// counterexample, and the search for a failing input when an obligation is open).
package zz_vp

import (
	"encoding/hex"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"math"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

type entry struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  string `json:"val"`
}

type lemma struct {
	name   string
	fn     func()
	panics string
}

var lemmas = map[string]lemma{}

// Register makes a lemma available to the native driver.
func Register(name string, fn func(), panics string) { lemmas[name] = lemma{name, fn, panics} }

type assumeFail struct{}
type assertFail struct{ label string }

var (
	prop    string
	rng     uint64
	tape    map[string]string
	rec     []entry
	count   map[string]int
	dictI   []uint64
	dictS   []string
	covered map[string]int
	inInv   bool
	asserts int
	mutBase map[string]string
)

func next() uint64 {
	rng += 0x9e3779b97f4a7c15
	z := rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func rnd(n int) int {
	if n <= 0 {
		return 0
	}
	return int(next() % uint64(n))
}

func name(n string) string {
	k := count[n]
	count[n] = k + 1
	if k == 0 {
		return n
	}
	return fmt.Sprintf("%s#%d", n, k)
}

func num(n, kind string, bits int, signed bool) uint64 {
	nm := name(n)
	var v uint64
	if tape != nil {
		if s, ok := tape[nm]; ok {
			fmt.Sscan(s, &v)
		}
	} else if s, ok := mutBase[nm]; ok && rnd(4) != 0 {
		fmt.Sscan(s, &v)
	} else {
		switch rnd(10) {
		case 0, 1:
			v = uint64(rnd(6))
		case 2:
			v = uint64(rnd(300))
		case 3, 4:
			k := rnd(bits + 1)
			v = uint64(1)<<uint(k) + uint64(rnd(5)) - 2
		case 5:
			v = -uint64(rnd(300))
		case 6, 7:
			if len(dictI) > 0 {
				v = dictI[rnd(len(dictI))] + uint64(rnd(3)) - 1
				if rnd(3) > 0 {
					v++
					v--
				}
				break
			}
			v = next()
		case 8:
			v = next() >> uint(rnd(bits))
		default:
			v = next()
		}
	}
	if bits < 64 {
		v &= 1<<uint(bits) - 1
		if signed {
			s := uint(64 - bits)
			v = uint64(int64(v<<s) >> s)
		}
	}
	rec = append(rec, entry{nm, kind, fmt.Sprint(v)})
	return v
}

// U8 and friends are arbitrary inputs.
func U8(n string) uint8   { return uint8(num(n, "U8", 8, false)) }
func U16(n string) uint16 { return uint16(num(n, "U16", 16, false)) }
func U32(n string) uint32 { return uint32(num(n, "U32", 32, false)) }
func U64(n string) uint64 { return num(n, "U64", 64, false) }
func I64(n string) int64  { return int64(num(n, "I64", 64, true)) }
func I32(n string) int32  { return int32(num(n, "I32", 32, true)) }
func I16(n string) int16  { return int16(num(n, "I16", 16, true)) }
func Int(n string) int    { return int(num(n, "Int", 64, true)) }
func F64(n string) float64 {
	return math.Float64frombits(num(n, "F64", 64, false))
}
func Bool(n string) bool {
	nm := name(n)
	var v bool
	if tape != nil {
		v = tape[nm] == "1"
	} else {
		v = rnd(2) == 1
	}
	s := "0"
	if v {
		s = "1"
	}
	rec = append(rec, entry{nm, "Bool", s})
	return v
}

// More decides whether a history goes on: it bounds nothing.
func More(n string) bool {
	nm := name(n)
	v := false
	if tape != nil {
		v = tape[nm] == "1"
	} else if count[n] <= 300 {
		if count[n] == 1 {
			histMax = []int{2, 4, 8, 20, 60}[rnd(5)]
		}
		v = rnd(histMax) != 0
	}
	s := "0"
	if v {
		s = "1"
	}
	rec = append(rec, entry{nm, "Bool", s})
	return v
}

var histMax = 8

// Range is an arbitrary integer in [lo,hi].
func Range(n string, lo, hi int) int {
	nm := name(n)
	var v int
	if tape != nil {
		fmt.Sscan(tape[nm], &v)
		if v < lo || v > hi {
			panic(assumeFail{})
		}
	} else if hi < lo {
		panic(assumeFail{})
	} else {
		switch rnd(6) {
		case 0:
			v = lo + rnd(3)
		case 1:
			v = hi - rnd(3)
		case 2:
			v = lo
			if len(dictI) > 0 {
				d := int64(dictI[rnd(len(dictI))]) + int64(rnd(3)) - 1
				if d >= int64(lo) && d <= int64(hi) {
					v = int(d)
				}
			}
		case 3:
			w := hi - lo
			if w > 64 || w < 0 {
				w = 64
			}
			v = lo + rnd(w+1)
		default:
			w := uint64(hi-lo) + 1
			if w == 0 {
				v = int(next())
			} else {
				v = lo + int(next()%w)
			}
		}
		if v < lo {
			v = lo
		}
		if v > hi {
			v = hi
		}
	}
	rec = append(rec, entry{nm, "Range", fmt.Sprint(v)})
	return v
}

var lens = []int{0, 1, 2, 3, 4, 5, 7, 8, 12, 13, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 150, 157, 162, 163, 164, 165, 170, 175, 176, 177, 178, 183, 184, 185, 187, 188, 189, 255, 256, 257, 300, 365, 367, 368, 369, 511, 512, 513, 1023, 1024, 1025}

func genLen() int {
	switch rnd(20) {
	case 0, 1, 2, 3, 4, 5:
		return rnd(9)
	case 6, 7, 8, 9:
		return rnd(65)
	case 10, 11, 12:
		return lens[rnd(len(lens))]
	case 13, 14:
		return rnd(400)
	case 15:
		if len(dictI) > 0 {
			d := dictI[rnd(len(dictI))]
			if d < 5000 {
				return int(d) + rnd(3)
			}
		}
		return rnd(200)
	case 16:
		return rnd(1600)
	case 17:
		if rnd(24) == 0 {
			return 65500 + rnd(80)
		}
		return 8150 + rnd(80)
	}
	return rnd(24)
}

func fill(b []byte) {
	style := rnd(8)
	small := []byte{0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 0x0c, 0x17, 0x27, 0x65, 0x67, 0x68, 0x7f, 0x80, 0x81, 0xaf, 0xff}
	for i := 0; i < len(b); i++ {
		switch style {
		case 0:
			b[i] = small[rnd(len(small))]
		case 1:
			b[i] = byte(0x20 + rnd(0x5f))
		case 2:
			if rnd(2) == 0 {
				b[i] = small[rnd(len(small))]
			} else {
				b[i] = byte(next())
			}
		case 3:
			if len(dictS) > 0 && rnd(4) == 0 {
				i += copy(b[i:], dictS[rnd(len(dictS))]) - 1
			} else {
				b[i] = byte(next())
			}
		case 4:
			if len(dictI) > 0 && rnd(3) == 0 {
				b[i] = byte(dictI[rnd(len(dictI))])
			} else {
				b[i] = byte(rnd(5))
			}
		case 5:
			b[i] = byte(rnd(4))
		default:
			b[i] = byte(next())
		}
	}
}

// Bytes is an arbitrary byte slice.
func Bytes(n string) []byte {
	nm := name(n)
	var b []byte
	if tape != nil {
		b, _ = hex.DecodeString(tape[nm])
	} else if s, ok := mutBase[nm]; ok && rnd(4) != 0 {
		b, _ = hex.DecodeString(s)
		if rnd(2) == 0 && len(b) > 0 {
			for k := rnd(4); k >= 0; k-- {
				b[rnd(len(b))] = byte(next())
			}
		}
		if rnd(4) == 0 {
			b = b[:rnd(len(b)+1)]
		}
	} else {
		b = make([]byte, genLen())
		fill(b)
	}
	rec = append(rec, entry{nm, "Bytes", hex.EncodeToString(b)})
	if b == nil {
		b = []byte{}
	}
	return b[:len(b):len(b)]
}

// BytesN is an arbitrary byte slice of length l.
func BytesN(n string, l int) []byte {
	nm := name(n)
	if l < 0 || l > 1<<24 {
		panic(assumeFail{})
	}
	b := make([]byte, l)
	if tape != nil {
		x, _ := hex.DecodeString(tape[nm])
		copy(b, x)
	} else {
		fill(b)
	}
	rec = append(rec, entry{nm, "Bytes", hex.EncodeToString(b)})
	return b
}

// Str is an arbitrary string.
func Str(n string) string {
	nm := name(n)
	var b []byte
	if tape != nil {
		b, _ = hex.DecodeString(tape[nm])
	} else if rnd(3) == 0 && len(dictS) > 0 {
		b = []byte(dictS[rnd(len(dictS))])
	} else {
		b = make([]byte, genLen())
		fill(b)
	}
	rec = append(rec, entry{nm, "Bytes", hex.EncodeToString(b)})
	return string(b)
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(assumeFail{})
	}
}

// Assert states a property; the label starts with the property's id.
func Assert(c bool, label string) {
	if len(label) > 3 && label[0] == 'C' && label[3] == ':' && prop != "" && label[:3] != prop {
		return
	}
	asserts++
	if !c {
		panic(assertFail{label})
	}
}

// Check is Assert followed by Assume.
func Check(c bool, label string) {
	Assert(c, label)
}

// Cover states that this point is reachable.
func Cover(label string) { covered[label]++ }

// Native is true when the contract runs natively.
func Native() bool { return true }

// ForAll is a bounded universal quantifier.
func ForAll(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

// Eq compares content.
func Eq(a, b []byte) bool { return string(a) == string(b) }

// Snapshot copies the content.
func Snapshot(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append(make([]byte, 0, len(b)), b...)
}

// SameSlice compares identity.
func SameSlice(a, b []byte) bool {
	return len(a) == len(b) && (len(a) == 0 || &a[0] == &b[0])
}

// Inv is a loop-invariant conjunct.
// Any makes the elements of a slice of pointers arbitrary (symbolic runs only).
func Any(n string, slice interface{}) {}

// WatchKey chooses the key maps of unknown content are known at; an arbitrary key stands for every key.
func WatchKey(key string) {}

// KeysWithin bounds the lengths of the keys of maps of unknown content.
func KeysWithin(lo, hi int) {}

// Watched is what m holds at the watched key.
func Watched(m map[string]interface{}, key string) (interface{}, bool) {
	v, ok := m[key]
	return v, ok
}

// Visited: the iteration over m met the watched key.
func Visited(m map[string]interface{}) bool { return false }

func Inv(c bool, label string) {}

// Modifies names the only part of its array a loop writes (evaluated where the loop starts).
func Modifies(b []byte) {}

// Decreases is a loop variant.
func Decreases(x int) {}

// Opaque is an arbitrary error.
func Opaque() error { return errors.New("opaque") }

// ---------------------------------------------------------------- native driver

type outcome struct {
	Status string  `json:"status"` // ok, violation, panic, hang, assume
	Label  string  `json:"label"`
	Tape   []entry `json:"tape"`
}

func runOnce(l lemma) (o outcome) {
	rec = nil
	count = map[string]int{}
	o.Status = "ok"
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case assumeFail:
				o.Status = "assume"
			case assertFail:
				o.Status, o.Label = "violation", x.label
			default:
				st := string(debug.Stack())
				if i := strings.Index(st, "panic("); i >= 0 {
					st = st[i:]
				}
				if len(st) > 1500 {
					st = st[:1500]
				}
				o.Status, o.Label = "panic", fmt.Sprint("run-time panic: ", r, "\n", st)
			}
			o.Tape = rec
		}
	}()
	l.fn()
	return
}

func emit(o outcome, out string) {
	b, _ := json.MarshalIndent(o, "", " ")
	if out != "" {
		os.WriteFile(out, b, 0644)
	} else {
		fmt.Println(string(b))
	}
}

// Main is the native driver.
func Main() {
	var lname, out, tapeFile, dictFile, persist string
	var seed uint64
	var iters int
	var dur time.Duration
	flag.StringVar(&lname, "lemma", "", "")
	flag.StringVar(&prop, "prop", "", "")
	flag.StringVar(&out, "out", "", "")
	flag.StringVar(&tapeFile, "tape", "", "")
	flag.StringVar(&dictFile, "dict", "", "")
	flag.StringVar(&persist, "persist", "", "")
	flag.Uint64Var(&seed, "seed", 1, "")
	flag.IntVar(&iters, "iters", 1<<30, "")
	flag.DurationVar(&dur, "time", 5*time.Second, "")
	flag.Parse()
	debug.SetMemoryLimit(2 << 30)
	debug.SetMaxStack(256 << 20)
	if lname == "" {
		var ns []string
		for n := range lemmas {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		fmt.Println(strings.Join(ns, "\n"))
		return
	}
	l, ok := lemmas[lname]
	if !ok {
		fmt.Println("unknown lemma", lname)
		os.Exit(4)
	}
	covered = map[string]int{}
	if dictFile != "" {
		b, _ := os.ReadFile(dictFile)
		var d struct {
			I []uint64
			S []string
		}
		json.Unmarshal(b, &d)
		dictI, dictS = d.I, d.S
	}
	panicsMine := l.panics == "" || prop == ""
	for _, p := range strings.Fields(l.panics) {
		if p == prop {
			panicsMine = true
		}
	}
	var started int64
	atomic.StoreInt64(&started, time.Now().UnixNano())
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			if time.Now().UnixNano()-atomic.LoadInt64(&started) > int64(20*time.Second) {
				// a data race on rec is acceptable here: the run is stuck
				st := "hang"
				if !panicsMine {
					st = "ok"
				}
				emit(outcome{Status: st, Label: "no termination within 20 s", Tape: rec}, out)
				fmt.Println("hang")
				os.Exit(3)
			}
		}
	}()
	if tapeFile != "" {
		b, err := os.ReadFile(tapeFile)
		if err != nil {
			fmt.Println(err)
			os.Exit(4)
		}
		var o outcome
		if err := json.Unmarshal(b, &o); err != nil {
			fmt.Println(err)
			os.Exit(4)
		}
		tape = map[string]string{}
		for _, e := range o.Tape {
			tape[e.Name] = e.Val
		}
		r := runOnce(l)
		if r.Status == "panic" && !panicsMine {
			r.Status = "ok"
		}
		emit(r, out)
		if r.Status == "violation" || r.Status == "panic" {
			os.Exit(3)
		}
		os.Exit(0)
	}
	t0 := time.Now()
	n, rej := 0, 0
	var last []entry
	for n = 0; n < iters && time.Since(t0) < dur; n++ {
		rng = seed*0x9e3779b97f4a7c15 + uint64(n)*0xd1342543de82ef95
		mutBase = nil
		if last != nil && rnd(5) == 0 {
			mutBase = map[string]string{}
			for _, e := range last {
				mutBase[e.Name] = e.Val
			}
		}
		atomic.StoreInt64(&started, time.Now().UnixNano())
		if persist != "" {
			os.WriteFile(persist, []byte(fmt.Sprint(n)), 0644)
		}
		a0 := asserts
		o := runOnce(l)
		if o.Status == "assume" {
			rej++
			continue
		}
		if o.Status == "ok" && asserts > a0 && len(rec) < 64 {
			last = rec
		}
		if o.Status == "violation" || (o.Status == "panic" && panicsMine) {
			emit(o, out)
			fmt.Printf("FOUND %s after %d runs\n", o.Label, n+1)
			os.Exit(3)
		}
	}
	var cs []string
	for c, k := range covered {
		cs = append(cs, fmt.Sprintf("%s=%d", c, k))
	}
	sort.Strings(cs)
	fmt.Printf("RUNS %d REJECTED %d ASSERTS %d COVER %s\n", n, rej, asserts, strings.Join(cs, " "))
}

// F64frombits and F64bits avoid the float conversions of package math in models.
func F64frombits(b uint64) float64 { return math.Float64frombits(b) }
func F64bits(f float64) uint64     { return math.Float64bits(f) }

// FoldCase is strings.ToUpper or strings.ToLower.
func FoldCase(s string, upper bool) string {
	if upper {
		return strings.ToUpper(s)
	}
	return strings.ToLower(s)
}

// StrID names the content of a string (symbolic runs only).
func StrID(s string) uint64 { return 0 }

// Apply is a function about which nothing is known (symbolic runs only).
func Apply(f string, x uint64) uint64 { return 0 }

// Unmodelled stops the verifier: the construct is outside its models.
func Unmodelled(what string) { panic("unmodelled: " + what) }

// FailWriter is a monitor: it appends what it receives to Data and fails from the
// FailAt-th call on (never if FailAt < 0), counting calls after a failure.
type FailWriter struct {
	Data   []byte
	FailAt int
	Calls  int
	After  int  // calls made after a failure
	Failed bool // some call failed
	Err    error
}

func (w *FailWriter) Write(p []byte) (int, error) {
	if w.Failed {
		w.After++
	}
	w.Calls++
	if w.FailAt >= 0 && w.Calls > w.FailAt {
		w.Failed = true
		return 0, w.Err
	}
	w.Data = append(w.Data, p...)
	return len(p), nil
}
