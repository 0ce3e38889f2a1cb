package amf

import (
	"bytes"
	"io"
	"math"
	"reflect"
	"strings"
	"time"

	vp "github.com/moggle-mog/goav/zz_vp"
)

// A tape holds the encoding of one array or object as its parts: raw bytes in front, the
// entries, raw bytes behind. Of the entries it keeps the number and the watched one: the
// entry of an arbitrary key (objects) or of an arbitrary index (arrays). Writing and reading
// a nested value or a key is a step over one part, which is the contract of Encode and
// Decode of a smaller value (induction on the depth) and of the string codecs (lemma_rt_string).
type tape struct {
	key   string
	watch int  // arrays: the watched index
	array bool // values without keys
	typed bool // a type name comes first

	name  string
	named bool
	head  []byte
	tail  []byte
	n     int // entries
	hit   int // the watched entry, or -1
	val   *vp.Value
	open  bool // a key without its value
	ours  bool // and it is the watched key
	ended bool

	refused bool

	pos    int // reading: raw bytes
	i      int // entries
	rname  bool
	got    bool
	rended bool
}

func (t *tape) Write(p []byte) (int, error) {
	vp.Assert(!t.open, "a key is followed by its value")
	if t.ended {
		t.tail = append(t.tail, p...)
	} else {
		vp.Assert(t.n == 0 && !t.named, "an entry is a key and a value")
		t.head = append(t.head, p...)
	}
	return len(p), nil
}

func (t *tape) text(s string) {
	if t.typed && !t.named {
		t.name, t.named = s, true
		return
	}
	vp.Assert(!t.array && !t.open && !t.ended, "a key stands between entries")
	if len(s) == 0 {
		t.ended = true
		return
	}
	t.open, t.ours = true, s == t.key
}

func (t *tape) value(v interface{}) {
	if t.array {
		t.ours = t.n == t.watch
	} else {
		vp.Assert(t.open, "a value follows its key")
	}
	if t.ours {
		t.hit, t.val = t.n, v.(*vp.Value)
	}
	t.open = false
	t.n++
	vp.Assume(t.n < 1<<40)
}

func (t *tape) Read(p []byte) (int, error) { return t.ReadFull(p) }

// ReadFull reads raw bytes.
func (t *tape) ReadFull(p []byte) (int, error) {
	vp.Assert(!t.got, "a value is read after its key")
	if t.pos < len(t.head) {
		vp.Check(t.pos+len(p) <= len(t.head), "the decoder reads what was written")
		copy(p, t.head[t.pos:t.pos+len(p)])
	} else {
		vp.Assert(t.rended, "the decoder reads what was written")
		k := t.pos - len(t.head)
		vp.Check(k+len(p) <= len(t.tail), "the decoder reads what was written")
		copy(p, t.tail[k:k+len(p)])
	}
	t.pos += len(p)
	return len(p), nil
}

func (t *tape) readText() string {
	vp.Check(t.pos == len(t.head), "the decoder reads what was written")
	if t.typed && !t.rname {
		t.rname = true
		return t.name
	}
	vp.Check(!t.array && !t.got && !t.rended, "the decoder reads what was written")
	if t.i == t.n {
		t.rended = true
		return ""
	}
	t.got = true
	if t.i == t.hit {
		return t.key
	}
	s := vp.Str("otherKey")
	vp.Assume(s != t.key && len(s) > 0)
	return s
}

func (t *tape) readValue() interface{} {
	vp.Check(t.pos == len(t.head), "the decoder reads what was written")
	vp.Check(t.array || t.got, "the decoder reads what was written")
	vp.Check(t.i < t.n, "the decoder reads what was written")
	t.got = false
	t.i++
	if t.i-1 == t.hit {
		return t.val
	}
	return &vp.Value{}
}

// done: the whole tape was read.
func (t *tape) done() bool {
	return t.pos == len(t.head)+len(t.tail) && t.i == t.n && !t.got && (t.array || t.rended)
}

func con_EnDecAMF0_encodeString(ed *EnDecAMF0, w io.Writer, val string, encodeMarker bool) (int, error) {
	t := w.(*tape)
	vp.Assert(!encodeMarker, "C19: keys and type names have no marker")
	if len(val) > 65535 {
		t.refused = true
		return 0, vp.Opaque()
	}
	t.text(val)
	return 2 + len(val), nil
}

func con_EnDecAMF0_decodeString(ed *EnDecAMF0, r io.Reader) (string, error) {
	return r.(*tape).readText(), nil
}

func writing(t *tape) {
	vp.Inv(!t.open && !t.ended, "between two entries")
	vp.Inv(t.n >= 0 && t.n < 1<<40, "entries")
	vp.Inv(t.hit >= -1 && t.hit < t.n, "the watched entry was written")
	vp.Inv(t.array || t.hit < 0 || (len(t.key) > 0 && len(t.key) <= 65535), "the watched key fits")
}

func inv_rt0_object__EnDecAMF0_encodeObject_0(w io.Writer, val Object) {
	t := w.(*tape)
	writing(t)
	v, ok := vp.Watched(val, t.key)
	vp.Inv(vp.Visited(val) == (t.hit >= 0), "the watched entry was written when it was met")
	vp.Inv(t.hit < 0 || (ok && v.(*vp.Value) == t.val), "the watched value was written")
}

func inv_rt0_object__EnDecAMF0_decodeObject_0(r io.Reader, result Object) {
	t := r.(*tape)
	vp.Inv(!t.got && !t.rended && t.i >= 0 && t.i <= t.n, "between two entries")
	vp.Inv(t.pos == len(t.head), "behind the head")
	v, ok := vp.Watched(result, t.key)
	vp.Inv(ok == (t.hit >= 0 && t.hit < t.i), "the watched entry was read")
	vp.Inv(!ok || v.(*vp.Value) == t.val, "the watched value was read")
}

// Objects, associative arrays and typed objects with any number of entries.
// property: C19
// panics: C19
// opt: use=EnDecAMF0_Encode,EnDecAMF0_Decode,EnDecAMF0_encodeString,EnDecAMF0_decodeString merge=all native=no
func lemma_rt0_object() {
	t := &tape{key: vp.Str("key"), hit: -1}
	vp.WatchKey(t.key)
	fit := vp.Bool("fit")
	lo, hi := 0, 1<<31
	if fit {
		lo, hi = 1, 65535
	}
	vp.KeysWithin(lo, hi)
	o := Object{}
	vp.Any("o", o)
	v, has := vp.Watched(o, t.key)
	enc := &EnDecAMF0{}
	anyDecoder0(enc)
	var n int
	var err error
	kind := vp.Range("kind", 0, 2)
	name := ""
	switch kind {
	case 0:
		n, err = enc.Encode(t, o)
	case 1:
		n, err = enc.EncodeEcmaArray(t, o)
	default:
		t.typed, name = true, vp.Str("type")
		n, err = enc.Encode(t, TypedObject{Type: name, Object: o})
	}
	if err != nil {
		vp.Assert(!fit || len(name) > 65535, "C19: an object is encoded when its keys fit")
		return
	}
	_ = n
	vp.Assert(!has || (len(t.key) > 0 && len(t.key) <= 65535), "C19: a key that does not fit is refused")
	vp.Assert(len(name) <= 65535, "C19: a type name that does not fit is refused")
	vp.Check(t.ended, "C19: an object has its end")
	dec := &EnDecAMF0{}
	anyDecoder0(dec)
	got, err := dec.Decode(t)
	vp.Check(err == nil, "C19: the encoding is decoded")
	vp.Assert(t.done(), "C19: exactly the encoding is consumed")
	var m Object
	if kind == 2 {
		to, ok := got.(TypedObject)
		vp.Check(ok && to.Type == name, "C19: the type name survives")
		m = to.Object
	} else {
		x, ok := got.(Object)
		vp.Check(ok, "C19: an object is decoded as one")
		m = x
	}
	v2, has2 := vp.Watched(m, t.key)
	vp.Assert(has2 == has, "C19: an object has the same keys")
	vp.Assert(!has || v2 == v, "C19: a key has the same value")
}

func inv_rt0_array__EnDecAMF0_Encode_0(w io.Writer, val interface{}, i int, arr Array) {
	t := w.(*tape)
	vp.Inv(i >= 0 && i <= len(arr) && len(arr) == len(val.(Array)), "copied elements")
	vp.Inv(t.watch >= i || arr[t.watch] == val.(Array)[t.watch], "the watched element was copied")
}

func inv_rt0_array__EnDecAMF0_encodeStrictArray_0(w io.Writer, val Array, rangeindex int) {
	t := w.(*tape)
	writing(t)
	vp.Inv(t.n == rangeindex+1 && rangeindex < len(val), "elements in order")
	vp.Inv((t.hit >= 0) == (t.watch < t.n), "the watched element was written")
	vp.Inv(t.hit < 0 || (t.hit == t.watch && val[t.watch].(*vp.Value) == t.val), "the watched element was written")
}

func inv_rt0_array__EnDecAMF0_decodeStrictArray_0(r io.Reader, i uint32, length uint32, result Array) {
	t := r.(*tape)
	vp.Inv(!t.got && t.pos == len(t.head) && int(length) == t.n, "behind the head")
	vp.Inv(int(i) == t.i && t.i <= t.n && len(result) == t.i, "elements in order")
	vp.Inv(t.watch >= t.i || result[t.watch].(*vp.Value) == t.val, "the watched element was read")
}

// Strict arrays of any length.
// property: C19
// panics: C19
// opt: use=EnDecAMF0_Encode,EnDecAMF0_Decode merge=all native=no
func lemma_rt0_array() {
	val := anyArray("elems")
	t := &tape{array: true, watch: vp.Range("index", 0, 1<<28), hit: -1}
	enc := &EnDecAMF0{}
	anyDecoder0(enc)
	_, err := enc.Encode(t, val)
	vp.Check(err == nil, "C19: an array is encoded")
	vp.Check(t.n == len(val), "C19: an array is encoded with all its elements")
	dec := &EnDecAMF0{}
	anyDecoder0(dec)
	got, err := dec.Decode(t)
	vp.Check(err == nil, "C19: the encoding is decoded")
	vp.Assert(t.done(), "C19: exactly the encoding is consumed")
	a, ok := got.(Array)
	vp.Check(ok && len(a) == len(val), "C19: an array has the same length")
	if t.watch < len(val) {
		vp.Assert(a[t.watch].(*vp.Value) == val[t.watch].(*vp.Value), "C19: an array has the same elements")
	}
}

// encoded is the stream holding an encoding between other bytes.
func encoded(w *bytes.Buffer) *vp.Stream {
	return vp.NewStream(append(vp.Snapshot(w.Bytes()), vp.Bytes("tail")...))
}

func bits(v interface{}) uint64 {
	f, ok := v.(float64)
	vp.Check(ok, "C19: a number is decoded as one")
	return math.Float64bits(f)
}

// Keys and type names.
// property: C19
// panics: C19
// opt: merge=all
func lemma_rt0_string() {
	w := &bytes.Buffer{}
	v := vp.Str("v")
	if vp.Native() && vp.Bool("big") {
		v = strings.Repeat(v+"x", 1+65536/(len(v)+1))
	}
	n, err := new(EnDecAMF0).encodeString(w, v, false)
	if len(v) > 65535 {
		vp.Assert(err != nil && w.Len() == 0, "C19: a key that does not fit is refused")
		return
	}
	vp.Check(err == nil && n == w.Len() && n == 2+len(v), "C19: a key is encoded when it fits")
	s := encoded(w)
	got, err := new(EnDecAMF0).decodeString(s)
	vp.Assert(err == nil && got == v, "C19: a key survives")
	vp.Assert(s.Pos == n, "C19: exactly the encoding is consumed")
}

// Values without parts.
// property: C19
// panics: C19
// opt: merge=all
func lemma_rt0_flat() {
	enc, dec := &EnDecAMF0{}, &EnDecAMF0{}
	anyDecoder0(enc)
	anyDecoder0(dec)
	w := &bytes.Buffer{}
	v := flat(vp.Range("kind", 0, 15))
	if vp.Native() && vp.Bool("big") {
		v = strings.Repeat("x", vp.Range("bigLen", 65530, 65540))
	}
	n, err := enc.Encode(w, v)
	vp.Check(err == nil && n == w.Len(), "C19: a supported value is encoded")
	s := encoded(w)
	got, err := dec.Decode(s)
	vp.Check(err == nil, "C19: the encoding is decoded")
	vp.Assert(s.Pos == n, "C19: exactly the encoding is consumed")
	switch x := v.(type) {
	case nil:
		vp.Assert(got == nil, "C19: null survives")
	case bool:
		b, ok := got.(bool)
		vp.Assert(ok && b == x, "C19: a boolean survives")
	case string:
		t, ok := got.(string)
		vp.Assert(ok && t == x, "C19: a string survives")
		vp.Assert(n == 3+len(x) == (len(x) <= 65535) && (n == 5+len(x)) == (len(x) > 65535), "C19: the long form is for longer strings")
	case time.Time:
		vp.Assert(bits(got) == math.Float64bits(float64(x.Unix())*1000), "C19: a date is its milliseconds")
	case float64:
		vp.Assert(bits(got) == math.Float64bits(x), "C19: a number survives")
	case float32:
		vp.Assert(bits(got) == math.Float64bits(float64(x)), "C19: a number survives")
	case int:
		vp.Assert(bits(got) == math.Float64bits(float64(x)), "C19: a number survives")
	case int8:
		vp.Assert(bits(got) == math.Float64bits(float64(x)), "C19: a number survives")
	case int16:
		vp.Assert(bits(got) == math.Float64bits(float64(x)), "C19: a number survives")
	case int32:
		vp.Assert(bits(got) == math.Float64bits(float64(x)), "C19: a number survives")
	case int64:
		vp.Assert(bits(got) == math.Float64bits(float64(x)), "C19: a number survives")
	case uint:
		vp.Assert(bits(got) == math.Float64bits(float64(x)), "C19: a number survives")
	case uint8:
		vp.Assert(bits(got) == math.Float64bits(float64(x)), "C19: a number survives")
	case uint16:
		vp.Assert(bits(got) == math.Float64bits(float64(x)), "C19: a number survives")
	case uint32:
		vp.Assert(bits(got) == math.Float64bits(float64(x)), "C19: a number survives")
	case uint64:
		vp.Assert(bits(got) == math.Float64bits(float64(x)), "C19: a number survives")
	}
}

// same compares a value with what its AMF0 encoding is decoded to.
func same0(v, got interface{}) bool {
	switch x := v.(type) {
	case Object:
		m, ok := got.(Object)
		if !ok || len(m) != len(x) {
			return false
		}
		for k, e := range x {
			if g, has := m[k]; !has || !same0(e, g) {
				return false
			}
		}
		return true
	case TypedObject:
		t, ok := got.(TypedObject)
		return ok && t.Type == x.Type && same0(x.Object, t.Object)
	case time.Time:
		f, ok := got.(float64)
		return ok && f == float64(x.Unix())*1000
	case nil:
		return got == nil
	case string, bool:
		return v == got
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Slice, reflect.Array:
		a, ok := got.(Array)
		if !ok || len(a) != r.Len() {
			return false
		}
		for i := range a {
			if !same0(r.Index(i).Interface(), a[i]) {
				return false
			}
		}
		return true
	}
	f, ok := got.(float64)
	return ok && math.Float64bits(f) == math.Float64bits(r.Convert(reflect.TypeOf(f)).Float())
}

// encodable0: every key and type name fits and no part is of an unsupported type.
func encodable0(v interface{}) bool {
	switch x := v.(type) {
	case Object:
		for k, e := range x {
			if len(k) == 0 || len(k) > 65535 || !encodable0(e) {
				return false
			}
		}
	case Array:
		for _, e := range x {
			if !encodable0(e) {
				return false
			}
		}
	case TypedObject:
		return len(x.Type) <= 65535 && encodable0(x.Object)
	case struct{}:
		return false
	}
	return true
}

// Whole values and one codec for a sequence of them (native runs; the lemmas above are the proof).
// property: C19
func lemma_rt0_values() {
	if !vp.Native() {
		return
	}
	ed := NewEnDecAMF0()
	w := &bytes.Buffer{}
	var vs []interface{}
	for k := vp.Range("values", 1, 4); k > 0; k-- {
		v := gen(3)
		if vp.Bool("ecma") {
			v = genObject(3)
		}
		at := w.Len()
		var n int
		var err error
		if o, ok := v.(Object); ok && vp.Bool("asEcma") {
			n, err = ed.EncodeEcmaArray(w, o)
		} else {
			n, err = ed.Encode(w, v)
		}
		if !encodable0(v) {
			vp.Assert(err != nil, "C19: a value that does not fit is refused")
			w.Truncate(at)
			continue
		}
		vp.Assert(err == nil && n == w.Len()-at, "C19: a supported value is encoded")
		vs = append(vs, v)
	}
	s := encoded(w)
	for _, v := range vs {
		got, err := ed.Decode(s)
		vp.Assert(err == nil && same0(v, got), "C19: a value survives")
	}
	vp.Assert(s.Pos == w.Len(), "C19: exactly the encoding is consumed")
}
