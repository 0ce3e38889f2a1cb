package amf

import (
	"bytes"
	"io"
	"math"
	"reflect"
	"time"

	vp "github.com/moggle-mog/goav/zz_vp"
)

// tokens holds the encoding of one object as raw bytes, strings and values in order.
type tokens struct {
	head  []byte
	texts []string
	vals  []*vp.Value
	big   bool

	pos, ti, vi int
}

func (t *tokens) Write(p []byte) (int, error) {
	vp.Assert(len(t.texts) == 0 && len(t.vals) == 0, "C20: flags, strings, values in order")
	t.head = append(t.head, p...)
	return len(p), nil
}

func (t *tokens) text(s string) {
	vp.Assert(len(t.vals) == 0, "C20: flags, strings, values in order")
	t.texts = append(t.texts, s)
}

func (t *tokens) value(v interface{}) { t.vals = append(t.vals, v.(*vp.Value)) }

func (t *tokens) Read(p []byte) (int, error) { return t.ReadFull(p) }

func (t *tokens) ReadFull(p []byte) (int, error) {
	vp.Check(t.ti == 0 && t.vi == 0 && t.pos+len(p) <= len(t.head), "C20: the decoder reads what was written")
	copy(p, t.head[t.pos:t.pos+len(p)])
	t.pos += len(p)
	return len(p), nil
}

func (t *tokens) readText() string {
	vp.Check(t.pos == len(t.head) && t.vi == 0 && t.ti < len(t.texts), "C20: the decoder reads what was written")
	t.ti++
	return t.texts[t.ti-1]
}

func (t *tokens) readValue() interface{} {
	vp.Check(t.ti == len(t.texts) && t.vi < len(t.vals), "C20: the decoder reads what was written")
	t.vi++
	return t.vals[t.vi-1]
}

func con_EnDecAMF3_encodeUtf8(ed *EnDecAMF3, w io.Writer, val string) (int, error) {
	t := w.(*tokens)
	if len(val) >= 1<<28 {
		t.big = true
		return 0, vp.Opaque()
	}
	t.text(val)
	return vp.Range("text", 1, 1<<32), nil
}

// object3 is an object of n entries.
func object3(n int) (o Object, keys []string, vals []*vp.Value) {
	o = Object{}
	keys = []string{vp.Str("k0"), vp.Str("k1")}[:n]
	vp.Assume(n < 2 || keys[0] != keys[1])
	for _, k := range keys {
		vp.Assume(len(k) < 1<<28)
		v := &vp.Value{}
		vals = append(vals, v)
		o[k] = v
	}
	return o, keys, vals
}

func rt3(n int) {
	o, keys, vals := object3(n)
	name := vp.Str("type")
	vp.Assume(len(name) < 1<<28)
	ed := &EnDecAMF3{}
	anyDecoder3(ed)
	t := &tokens{}
	_, err := ed.Encode(t, TypedObject{Type: name, Object: o})
	vp.Check(err == nil, "an object is encoded unless a string is too long")
	got, err := ed.Decode(t)
	vp.Check(err == nil, "the encoding is decoded")
	vp.Assert(t.pos == len(t.head) && t.ti == len(t.texts) && t.vi == len(t.vals), "exactly the encoding is consumed")
	m, ok := got.(Object)
	vp.Check(ok && len(m) == n, "an object has the same number of keys")
	for i, k := range keys {
		vp.Assert(m[k].(*vp.Value) == vals[i], "a key has the same value")
	}
}

// Objects without entries.
// property: C20
// panics: C20
// opt: use=EnDecAMF3_Encode,EnDecAMF3_Decode,EnDecAMF3_encodeUtf8,EnDecAMF3_decodeString merge=all unroll=EnDecAMF3_encodeObject,EnDecAMF3_decodeObject native=no bounded=entries<=2
func lemma_rt3_object0() { rt3(0) }

// Objects of one entry.
// property: C20
// panics: C20
// opt: use=EnDecAMF3_Encode,EnDecAMF3_Decode,EnDecAMF3_encodeUtf8,EnDecAMF3_decodeString merge=all unroll=EnDecAMF3_encodeObject,EnDecAMF3_decodeObject native=no bounded=entries<=2
func lemma_rt3_object1() { rt3(1) }

// Objects of two entries.
// property: C20
// panics: C20
// opt: use=EnDecAMF3_Encode,EnDecAMF3_Decode,EnDecAMF3_encodeUtf8,EnDecAMF3_decodeString merge=all unroll=EnDecAMF3_encodeObject,EnDecAMF3_decodeObject native=no bounded=entries<=2
func lemma_rt3_object2() { rt3(2) }

func inv_rt3_array__EnDecAMF3_Encode_0(w io.Writer, val interface{}, i int, arr Array) {
	t := w.(*tape)
	vp.Inv(i >= 0 && i <= len(arr) && len(arr) == len(val.(Array)), "copied elements")
	vp.Inv(t.watch >= i || arr[t.watch] == val.(Array)[t.watch], "the watched element was copied")
}

func inv_rt3_array__EnDecAMF3_encodeArray_0(w io.Writer, val Array, rangeindex int) {
	t := w.(*tape)
	writing(t)
	vp.Inv(t.n == rangeindex+1 && rangeindex < len(val), "elements in order")
	vp.Inv((t.hit >= 0) == (t.watch < t.n), "the watched element was written")
	vp.Inv(t.hit < 0 || (t.hit == t.watch && val[t.watch].(*vp.Value) == t.val), "the watched element was written")
}

func inv_rt3_array__EnDecAMF3_decodeArray_0(key string, result EcmaArrayAMF3) {
	vp.Inv(len(key) == 0 && len(result.associative) == 0, "no keys")
}

func inv_rt3_array__EnDecAMF3_decodeArray_1(r io.Reader, i uint32, refVal uint32, result EcmaArrayAMF3) {
	t := r.(*tape)
	vp.Inv(!t.got && t.pos == len(t.head) && int(refVal) == t.n && len(result.dense) == t.n, "behind the head")
	vp.Inv(int(i) == t.i && t.i <= t.n, "elements in order")
	vp.Inv(t.watch >= t.i || result.dense[t.watch].(*vp.Value) == t.val, "the watched element was read")
}

// Arrays of any length.
// property: C20
// panics: C20
// opt: use=EnDecAMF3_Encode,EnDecAMF3_Decode merge=all native=no
func lemma_rt3_array() {
	val := anyArray("elems")
	t := &tape{array: true, watch: vp.Range("index", 0, 1<<28), hit: -1}
	enc, dec := &EnDecAMF3{}, &EnDecAMF3{}
	anyDecoder3(enc)
	anyDecoder3(dec)
	_, err := enc.Encode(t, val)
	if len(val) >= 1<<28 {
		vp.Assert(err != nil, "C20: an array that is too long is refused")
		return
	}
	vp.Check(err == nil, "C20: an array is encoded")
	vp.Check(t.n == len(val), "C20: an array is encoded with all its elements")
	got, err := dec.Decode(t)
	vp.Check(err == nil, "C20: the encoding is decoded")
	vp.Assert(t.done(), "C20: exactly the encoding is consumed")
	a, ok := got.(EcmaArrayAMF3)
	vp.Check(ok && len(a.dense) == len(val) && len(a.associative) == 0, "C20: an array has the same length")
	if t.watch < len(val) {
		vp.Assert(a.dense[t.watch].(*vp.Value) == val[t.watch].(*vp.Value), "C20: an array has the same elements")
	}
}

// Strings inside objects.
// property: C20
// panics: C20
// opt: merge=all
func lemma_rt3_string() {
	w := &bytes.Buffer{}
	v := vp.Str("v")
	n, err := new(EnDecAMF3).encodeUtf8(w, v)
	if len(v) >= 1<<28 {
		vp.Assert(err != nil && w.Len() == 0, "C20: a string that is too long is refused")
		return
	}
	vp.Check(err == nil && n == w.Len() && n == u29len(uint32(len(v))<<1)+len(v), "C20: a string is encoded")
	s := encoded(w)
	dec := &EnDecAMF3{}
	anyDecoder3(dec)
	got, err := dec.decodeString(s)
	vp.Assert(err == nil && got == v, "C20: a string survives")
	vp.Assert(s.Pos == n, "C20: exactly the encoding is consumed")
}

// number is what an AMF3 integer or double holds.
func number(v interface{}) float64 {
	if u, ok := v.(uint32); ok {
		return float64(u)
	}
	f, ok := v.(float64)
	vp.Check(ok, "C20: a number is decoded as one")
	return f
}

func sameNumber(got interface{}, f float64) {
	_, isInt := got.(uint32)
	vp.Assert(!isInt, "C20: a number that is no small integer is decoded as a float64")
	vp.Assert(math.Float64bits(number(got)) == math.Float64bits(f), "C20: a number survives")
}

// sameInt compares an integer of up to 32 bits with what is decoded for it.
func sameInt(got interface{}, i int64, f float64) {
	u, ok := got.(uint32)
	vp.Assert(ok == (i >= 0 && i < 1<<29), "C20: an integer that fits 29 bits is decoded as one, any other as a float64")
	if ok {
		vp.Assert(int64(u) == i, "C20: an integer survives")
	} else {
		sameNumber(got, f)
	}
}

// Values without parts.
// property: C20
// panics: C20
// opt: merge=all
func lemma_rt3_flat() {
	enc, dec := &EnDecAMF3{}, &EnDecAMF3{}
	anyDecoder3(enc)
	anyDecoder3(dec)
	w := &bytes.Buffer{}
	v := flat(vp.Range("kind", 0, 16))
	if x, ok := v.(time.Time); ok {
		sec := x.Unix()
		vp.Assume(int64(float64(sec)*1000/1000) == sec)
	}
	n, err := enc.Encode(w, v)
	if x, ok := v.(string); ok && len(x) >= 1<<28 {
		vp.Assert(err != nil, "C20: a string that is too long is refused")
		return
	}
	if x, ok := v.([]byte); ok && len(x) >= 1<<28 {
		vp.Assert(err != nil, "C20: a byte array that is too long is refused")
		return
	}
	vp.Check(err == nil && n == w.Len(), "C20: a supported value is encoded")
	s := encoded(w)
	got, err := dec.Decode(s)
	vp.Check(err == nil, "C20: the encoding is decoded")
	vp.Assert(s.Pos == n, "C20: exactly the encoding is consumed")
	switch x := v.(type) {
	case nil:
		vp.Assert(got == nil, "C20: null survives")
	case bool:
		b, ok := got.(bool)
		vp.Assert(ok && b == x, "C20: a boolean survives")
	case string:
		t, ok := got.(string)
		vp.Assert(ok && t == x, "C20: a string survives")
	case []byte:
		t, ok := got.([]byte)
		vp.Assert(ok && string(t) == string(x), "C20: a byte array survives")
	case time.Time:
		t, ok := got.(time.Time)
		vp.Assert(ok && t.Unix() == x.Unix(), "C20: a date survives")
	case float64:
		vp.Assert(math.Float64bits(number(got)) == math.Float64bits(x), "C20: a number survives")
	case float32:
		sameNumber(got, float64(x))
	case int:
		sameInt(got, int64(x), float64(x))
	case int8:
		sameInt(got, int64(x), float64(x))
	case int16:
		sameInt(got, int64(x), float64(x))
	case int32:
		sameInt(got, int64(x), float64(x))
	case int64:
		sameNumber(got, float64(x))
	case uint:
		sameInt(got, int64(x), float64(x))
	case uint8:
		sameInt(got, int64(x), float64(x))
	case uint16:
		sameInt(got, int64(x), float64(x))
	case uint32:
		sameInt(got, int64(x), float64(x))
	case uint64:
		sameNumber(got, float64(x))
	}
}

// same3 compares a value with what its AMF3 encoding is decoded to.
func same3(v, got interface{}) bool {
	switch x := v.(type) {
	case Object:
		m, ok := got.(Object)
		if !ok || len(m) != len(x) {
			return false
		}
		for k, e := range x {
			if g, has := m[k]; !has || !same3(e, g) {
				return false
			}
		}
		return true
	case TypedObject:
		return same3(x.Object, got)
	case time.Time:
		t, ok := got.(time.Time)
		return ok && t.Unix() == x.Unix()
	case []byte:
		t, ok := got.([]byte)
		return ok && string(t) == string(x)
	case nil:
		return got == nil
	case string, bool:
		return v == got
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Slice, reflect.Array:
		a, ok := got.(EcmaArrayAMF3)
		if !ok || len(a.dense) != r.Len() || len(a.associative) != 0 {
			return false
		}
		for i := range a.dense {
			if !same3(r.Index(i).Interface(), a.dense[i]) {
				return false
			}
		}
		return true
	}
	if u, ok := got.(uint32); ok {
		if r.Kind() == reflect.Int64 || r.Kind() == reflect.Uint64 || r.Kind() == reflect.Float32 || r.Kind() == reflect.Float64 {
			return false
		}
		got = float64(u)
	}
	f, ok := got.(float64)
	return ok && math.Float64bits(f) == math.Float64bits(r.Convert(reflect.TypeOf(f)).Float())
}

// encodable3: no part is of an unsupported type, and dates are in range.
func encodable3(v interface{}) bool {
	switch x := v.(type) {
	case Object:
		for _, e := range x {
			if !encodable3(e) {
				return false
			}
		}
	case Array:
		for _, e := range x {
			if !encodable3(e) {
				return false
			}
		}
	case TypedObject:
		return encodable3(x.Object)
	case struct{}:
		return false
	case time.Time:
		return int64(float64(x.Unix())*1000/1000) == x.Unix()
	}
	return true
}

// Whole values, one codec for a sequence of them (native runs; the lemmas above are the proof).
// property: C20
func lemma_rt3_values() {
	if !vp.Native() {
		return
	}
	ed := NewEnDecAMF3()
	w := &bytes.Buffer{}
	var vs []interface{}
	for k := vp.Range("values", 1, 4); k > 0; k-- {
		v := gen(3)
		if vp.Bool("long") {
			v = longString()
		}
		if !encodable3(v) {
			continue
		}
		at := w.Len()
		n, err := ed.Encode(w, v)
		vp.Assert(err == nil && n == w.Len()-at, "C20: a supported value is encoded")
		vs = append(vs, v)
	}
	s := encoded(w)
	for _, v := range vs {
		got, err := ed.Decode(s)
		vp.Assert(err == nil && same3(v, got), "C20: a value survives")
	}
	vp.Assert(s.Pos == w.Len(), "C20: exactly the encoding is consumed")
}
