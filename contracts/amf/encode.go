package amf

import (
	"bytes"
	"errors"
	"io"
	"strings"
	"time"

	vp "github.com/moggle-mog/goav/zz_vp"
)

var errSink = errors.New("sink")

// sink counts the bytes it accepts and may fail at any write.
type sink struct {
	N      int
	Failed bool
	After  int

	calm           bool // native runs: fail at one write at most
	writes, failAt int
}

// fails decides whether the next write fails.
func (w *sink) fails() bool {
	if vp.Native() {
		if w.writes == 0 {
			w.calm = vp.Bool("calm")
			if w.calm {
				w.failAt = vp.Range("failAt", 0, 400)
			}
		}
		w.writes++
		if w.calm {
			return w.writes == w.failAt
		}
	}
	return vp.Bool("fail")
}

func (w *sink) Write(p []byte) (int, error) {
	if w.Failed {
		w.After++
	}
	if w.fails() {
		w.Failed = true
		k := vp.Range("part", 0, len(p))
		w.N += k
		return k, errSink
	}
	w.N += len(p)
	return len(p), nil
}

// counted is what every encoding call owes its caller.
func counted(w *sink, n int, err error) {
	vp.Assert(w.After == 0, "C22: nothing is written after a write failed")
	vp.Assert(!w.Failed || err != nil, "C22: a failed write is reported")
	if err == nil {
		vp.Assert(n == w.N, "C22: the count is the number of bytes written")
	}
}

// nested is the contract of encoding one value (induction on its depth).
func nested(w io.Writer) (int, error) {
	s := w.(*sink)
	vp.Assert(!s.Failed, "C22: nothing is written after a write failed")
	k := vp.Range("nested", 0, 1<<32)
	s.N += k
	if vp.Bool("nestedFails") {
		s.Failed = vp.Bool("nestedWrite")
		return vp.Int("nestedCount"), vp.Opaque()
	}
	return k, nil
}

func con_EnDecAMF0_Encode(ed *EnDecAMF0, w io.Writer, val interface{}) (int, error) {
	if b, ok := w.(*bytes.Buffer); ok {
		return encodeMetadata(ed, b, val)
	}
	if t, ok := w.(*tape); ok {
		t.value(val)
		return vp.Range("nested", 1, 1<<32), nil
	}
	return nested(w)
}

func con_EnDecAMF3_Encode(ed *EnDecAMF3, w io.Writer, val interface{}) (int, error) {
	if t, ok := w.(*tokens); ok {
		t.value(val)
		return vp.Range("nested", 1, 1<<32), nil
	}
	if t, ok := w.(*tape); ok {
		t.value(val)
		return vp.Range("nested", 1, 1<<32), nil
	}
	return nested(w)
}

// gen is a random value (native runs).
func gen(depth int) interface{} {
	k := vp.Range("gen", 0, 24)
	if depth == 0 && k > 16 {
		k -= 10
	}
	switch k {
	case 17, 18:
		a := make(Array, genCount(4))
		for i := range a {
			if i < 4 {
				a[i] = gen(depth - 1)
			} else {
				a[i] = i
			}
		}
		return a
	case 19, 20:
		return genObject(depth)
	case 21, 22:
		return TypedObject{Type: vp.Str("genType"), Object: genObject(depth)}
	case 23:
		return []string{vp.Str("genS"), vp.Str("genS")}
	case 24:
		return struct{}{}
	}
	return flat(k)
}

// genCount is a number of parts: up to few, now and then around a power of two (native runs only).
func genCount(few int) int {
	n := vp.Range("genCount", 0, 30*few)
	if n <= few {
		return n
	}
	if n%8 == 3 {
		return []int{7, 8, 9, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 300, 1024}[vp.Range("genPow", 0, 15)]
	}
	return n % (few + 1)
}

// longString is a string of up to 70000 bytes, now and then longer (native runs only).
func longString() string {
	n := vp.Range("longLen", 0, 70000)
	if n%32 == 7 {
		n += []int{1<<20 - 5, 1<<21 - 5, 1<<24 - 5}[vp.Range("longPow", 0, 2)] - n + n%9
	}
	return strings.Repeat("x", n)
}

func genObject(depth int) Object {
	m := Object{}
	for i := genCount(3); i > 0; i-- {
		if i > 4 {
			m["k"+string(rune(0x4e00+i))] = i
		} else {
			m[vp.Str("genKey")] = gen(depth - 1)
		}
	}
	return m
}

// flat is an arbitrary value of one of the simple types.
func flat(kind int) interface{} {
	switch kind {
	case 0:
		return nil
	case 1:
		return vp.Bool("bool")
	case 2:
		return vp.Int("int")
	case 3:
		return int8(vp.U8("int8"))
	case 4:
		return vp.I16("int16")
	case 5:
		return vp.I32("int32")
	case 6:
		return vp.I64("int64")
	case 7:
		return uint(vp.U64("uint"))
	case 8:
		return vp.U8("uint8")
	case 9:
		return vp.U16("uint16")
	case 10:
		return vp.U32("uint32")
	case 11:
		return vp.U64("uint64")
	case 12:
		return vp.F64("float64")
	case 13:
		return float32(vp.F64("float32"))
	case 14:
		return vp.Str("string")
	case 15:
		return time.Unix(vp.I64("time"), 0)
	}
	return vp.Bytes("bytes")
}

// someLen makes a length small, but not always (native runs only).
func someLen(n int) int {
	switch n % 8 {
	case 3:
		return n % 300
	case 5:
		if n%64 == 5 {
			return n % 20000
		}
	}
	return n % 40
}

// anyArray is a slice of any length with any elements.
func anyArray(name string) Array {
	n := vp.Range(name+".len", 0, 1<<28)
	if vp.Native() {
		n = someLen(n)
	}
	a := make(Array, n)
	vp.Any(name, a)
	if vp.Native() {
		for i := range a {
			if i < 40 {
				a[i] = gen(2)
			} else {
				a[i] = i
			}
		}
	}
	return a
}

// anyStrings is a slice of any length with any strings.
func anyStrings(name string) []string {
	n := vp.Range(name+".len", 0, 1<<28)
	if vp.Native() {
		n = someLen(n)
	}
	a := make([]string, n)
	vp.Any(name, a)
	if vp.Native() {
		for i := range a {
			if i < 40 {
				a[i] = vp.Str(name)
			}
		}
	}
	return a
}

// anyObject is a map of any size with any keys and values.
func anyObject(name string) Object {
	if vp.Native() {
		return genObject(3)
	}
	m := Object{}
	vp.Any(name, m)
	return m
}

func inv_EnDecAMF0_Encode_0(i int) { vp.Inv(i >= 0, "index") }
func inv_EnDecAMF3_Encode_0(i int) { vp.Inv(i >= 0, "index") }

func clean(s *sink) { vp.Inv(!s.Failed && s.After == 0, "no write failed") }

func inv_EnDecAMF0_EncodeBatch_0(w io.Writer) {
	clean(w.(*sink))
}
func inv_EnDecAMF3_EncodeBatch_0(w io.Writer) {
	clean(w.(*sink))
}

func inv_EnDecAMF0_encodeStrictArray_0(w io.Writer, n int) {
	clean(w.(*sink))
	vp.Inv(n == w.(*sink).N, "count")
}

func inv_EnDecAMF0_encodeObject_0(w io.Writer, n int) {
	clean(w.(*sink))
	vp.Inv(n == w.(*sink).N, "count")
}

func inv_enc0_ecma__EnDecAMF0_encodeObject_0(w io.Writer, n int) {
	clean(w.(*sink))
	vp.Inv(n == w.(*sink).N-5, "count")
}

func inv_enc0_typed__EnDecAMF0_encodeObject_0(w io.Writer, n int, c_tyeObj TypedObject) {
	clean(w.(*sink))
	vp.Inv(n == w.(*sink).N-3-len(c_tyeObj.Type), "count")
}

func inv_EnDecAMF3_encodeArray_0(w io.Writer, n int) {
	clean(w.(*sink))
	vp.Inv(n == w.(*sink).N, "count")
}

func inv_EnDecAMF3_encodeObject_0(w io.Writer) { clean(w.(*sink)) }

func inv_EnDecAMF3_encodeObject_1(w io.Writer, n int) {
	clean(w.(*sink))
	vp.Inv(n == w.(*sink).N, "count")
}

func inv_EnDecAMF3_encodeObject_2(w io.Writer, n int) {
	clean(w.(*sink))
	vp.Inv(n == w.(*sink).N, "count")
}

// Every simple value.
// property: C22
// panics: C22
// opt: merge=all
func lemma_enc0_flat() {
	w := &sink{}
	n, err := new(EnDecAMF0).Encode(w, flat(vp.Range("kind", 0, 15)))
	counted(w, n, err)
	if !w.Failed {
		vp.Assert(err == nil, "C22: a supported value is encoded unless a write fails")
	}
}

// property: C22
// panics: C22
// opt: merge=all
func lemma_enc3_flat() {
	w := &sink{}
	n, err := new(EnDecAMF3).Encode(w, flat(vp.Range("kind", 0, 16)))
	counted(w, n, err)
}

// A value no encoder supports.
// property: C22
// panics: C22
func lemma_enc_unsupported() {
	w := &sink{}
	var err error
	if vp.Bool("amf3") {
		_, err = new(EnDecAMF3).Encode(w, struct{}{})
	} else {
		_, err = new(EnDecAMF0).Encode(w, struct{}{})
	}
	vp.Assert(err != nil && w.N == 0 && !w.Failed, "C22: an unsupported value is refused")
}

// Arrays of any length.
// property: C22
// panics: C22
// opt: use=EnDecAMF0_Encode,EnDecAMF3_Encode merge=all
func lemma_enc_array() {
	w := &sink{}
	var v interface{}
	switch vp.Range("kind", 0, 3) {
	case 0:
		v = anyArray("elems")
	case 1:
		v = []interface{}(anyArray("elems"))
	case 2:
		v = anyStrings("strings")
	default:
		v = [3]uint16{vp.U16("e"), vp.U16("e"), vp.U16("e")}
	}
	if vp.Bool("amf3") {
		n, err := new(EnDecAMF3).Encode(w, v)
		counted(w, n, err)
	} else {
		n, err := new(EnDecAMF0).Encode(w, v)
		counted(w, n, err)
	}
}

// Objects of any size.
// property: C22
// panics: C22
// opt: use=EnDecAMF0_Encode merge=all
func lemma_enc0_object() {
	w := &sink{}
	n, err := new(EnDecAMF0).Encode(w, anyObject("m"))
	counted(w, n, err)
}

// property: C22
// panics: C22
// opt: use=EnDecAMF0_Encode merge=all
func lemma_enc0_typed() {
	w := &sink{}
	n, err := new(EnDecAMF0).Encode(w, TypedObject{Type: vp.Str("type"), Object: anyObject("m")})
	counted(w, n, err)
}

// property: C22
// panics: C22
// opt: use=EnDecAMF0_Encode merge=all
func lemma_enc0_ecma() {
	w := &sink{}
	n, err := new(EnDecAMF0).EncodeEcmaArray(w, anyObject("m"))
	counted(w, n, err)
}

// property: C22
// panics: C22
// opt: use=EnDecAMF3_Encode merge=all
func lemma_enc3_object() {
	w := &sink{}
	var v interface{} = anyObject("m")
	if vp.Bool("typed") {
		v = TypedObject{Type: vp.Str("type"), Object: anyObject("m")}
	}
	n, err := new(EnDecAMF3).Encode(w, v)
	counted(w, n, err)
}

// The other entry points.
// property: C22
// panics: C22
// opt: use=EnDecAMF3_Encode merge=all
func lemma_enc_entry() {
	w := &sink{}
	ed := NewEnDecAMF0()
	var n int
	var err error
	switch vp.Range("entry", 0, 4) {
	case 0:
		var v interface{} = &vp.Value{}
		if vp.Native() {
			v = gen(3)
		}
		n, err = ed.EncodeWithAMF3(w, v)
	case 1:
		n, err = ed.EncodeXmlDocument(w, vp.Str("xml"))
	case 2:
		n, err = ed.EncodeReference(w, vp.U16("ref"))
	case 3:
		n, err = ed.EncodeUndefined(w)
	default:
		n, err = ed.EncodeUnsupported(w)
	}
	counted(w, n, err)
}

// Batches of any length.
// property: C22
// panics: C22
// opt: use=EnDecAMF0_Encode,EnDecAMF3_Encode merge=all
func lemma_enc_batch() {
	w := &sink{}
	args := anyArray("args")
	var err error
	if vp.Bool("amf3") {
		err = NewEnDecAMF3().EncodeBatch(w, args...)
	} else {
		err = NewEnDecAMF0().EncodeBatch(w, args...)
	}
	vp.Assert(w.After == 0, "C22: nothing is written after a write failed")
	vp.Assert(!w.Failed || err != nil, "C22: a failed write is reported")
}
