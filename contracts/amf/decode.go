package amf

import (
	"errors"
	"io"

	vp "github.com/moggle-mog/goav/zz_vp"
)

var errSource = errors.New("source")

// anyStream is any byte stream, split in any way, that ends with io.EOF or another error.
func anyStream() *vp.Stream {
	s := vp.NewStream(vp.Bytes("data"))
	if vp.Bool("broken") {
		s.End = errSource
	}
	return s
}

// anyDecoder3 is a decoder after any history.
func anyDecoder3(ed *EnDecAMF3) {
	ed.deStrTable = anyStrings("strTable")
	ed.deObjTable = anyArray("objTable")
	n := vp.Range("traits", 0, 1<<28)
	if vp.Native() {
		n %= 4
	}
	t := make([]TraitAMF3, n)
	vp.Any("traits", t)
	if vp.Native() {
		for i := range t {
			t[i] = TraitAMF3{Type: vp.Str("trait"), Externalizable: vp.Bool("ext"), Dynamic: vp.Bool("dyn"), Properties: anyStrings("props")}
		}
	}
	ed.traitTable = t
}

func anyDecoder0(ed *EnDecAMF0) {
	ed.deRefCache = anyArray("refs")
	anyDecoder3(&ed.EnDecAMF3)
}

// decoded is what every decoding call owes its caller; rest is what the stream held before.
func decoded(s *vp.Stream, rest int, err error) {
	vp.Assert(!s.Short || err != nil, "C21: a stream that ends inside a value is an error")
	if err == nil {
		vp.Assert(s.Rest() < rest, "C21: a value has at least one byte")
	}
	vp.Assert((err == io.EOF) == (rest == 0 && s.End == nil), "C21: io.EOF is reported between values only")
}

// nestedValue is the contract of decoding one value (induction on its length).
func nestedValue(r io.Reader) (interface{}, error) {
	s := r.(*vp.Stream)
	vp.Assert(!s.Short, "C21: decoding stops where the stream ends")
	left := s.Rest()
	if left == 0 {
		s.Short = true
		return nil, s.ReadErr()
	}
	if vp.Bool("nestedFails") {
		s.Pos += vp.Range("nestedRead", 0, left)
		s.Short = vp.Bool("nestedShort")
		e := vp.Opaque()
		vp.Assume(e != io.EOF)
		return nil, e
	}
	s.Pos += vp.Range("nestedRead", 1, left)
	return &vp.Value{}, nil
}

func con_EnDecAMF0_Decode(ed *EnDecAMF0, r io.Reader) (interface{}, error) {
	if t, ok := r.(*tape); ok {
		return t.readValue(), nil
	}
	v, err := nestedValue(r)
	anyDecoder0(ed)
	return v, err
}

func con_EnDecAMF3_Decode(ed *EnDecAMF3, r io.Reader) (interface{}, error) {
	if t, ok := r.(*tokens); ok {
		return t.readValue(), nil
	}
	if t, ok := r.(*tape); ok {
		return t.readValue(), nil
	}
	v, err := nestedValue(r)
	anyDecoder3(ed)
	return v, err
}

// someBytes is what reading part of a value does to the stream.
func someBytes(r io.Reader, min int) error {
	s := r.(*vp.Stream)
	vp.Assert(!s.Short, "C21: decoding stops where the stream ends")
	left := s.Rest()
	if left < min || vp.Bool("partFails") {
		s.Pos += vp.Range("partRead", 0, left)
		s.Short = vp.Bool("partShort")
		return vp.Opaque()
	}
	s.Pos += vp.Range("partRead", min, left)
	return nil
}

// part is what someBytes promises.
func part(s *vp.Stream, rest, min int, err error) {
	vp.Assert(!s.Short || err != nil, "C21: a stream that ends inside a value is an error")
	vp.Assert(err != nil || s.Rest() <= rest-min, "C21: a part has its bytes")
}

func con_EnDecAMF3_decodeString(ed *EnDecAMF3, r io.Reader) (string, error) {
	if t, ok := r.(*tokens); ok {
		return t.readText(), nil
	}
	err := someBytes(r, 1)
	ed.deStrTable = anyStrings("strTable")
	return vp.Str("decoded"), err
}

func con_EnDecAMF3_decodeExternal(ed *EnDecAMF3, r io.Reader, obj *Object, fieldSets ...[]string) error {
	err := someBytes(r, 1)
	anyDecoder3(ed)
	vp.Any("fields", *obj)
	return err
}

// property: C21
// panics: C21
// opt: merge=all
func lemma_dec_string3() {
	ed := &EnDecAMF3{}
	anyDecoder3(ed)
	table := ed.deStrTable
	s := anyStream()
	n := s.Rest()
	v, err := ed.decodeString(s)
	part(s, n, 1, err)
	u, k := u29(s.Data)
	if k == 0 {
		return
	}
	if u&1 == 0 {
		vp.Assert((err == nil) == (int(u>>1) < len(table)), "C21: a reference names an earlier string")
		if err == nil {
			vp.Assert(v == table[u>>1], "C21: a reference is the string it names")
			vp.Assert(s.Pos == k, "C21: a reference is its integer")
		}
		return
	}
	l := int(u >> 1)
	vp.Check((err == nil) == (l <= len(s.Data)-k), "C21: a string is decoded when its bytes are there")
	if err == nil {
		vp.Assert(v == string(s.Data[k:k+l]), "C21: a string depends on its bytes only")
		vp.Assert(s.Pos == k+l, "C21: a string is its length and its bytes")
	}
}

// property: C21
// panics: C21
// opt: merge=all
func lemma_dec_string0() {
	ed := &EnDecAMF0{}
	anyDecoder0(ed)
	s := anyStream()
	n := s.Rest()
	h := 2
	var v string
	var err error
	if vp.Bool("long") {
		h = 4
		v, err = ed.decodeLongString(s)
	} else {
		v, err = ed.decodeString(s)
	}
	part(s, n, h, err)
	if len(s.Data) < h {
		return
	}
	l := 0
	for i := 0; i < h; i++ {
		l = l<<8 | int(s.Data[i])
	}
	vp.Check((err == nil) == (l <= len(s.Data)-h), "C21: a string is decoded when its bytes are there")
	if err == nil {
		vp.Assert(v == string(s.Data[h:h+l]), "C21: a string depends on its bytes only")
		vp.Assert(s.Pos == h+l, "C21: a string is its length and its bytes")
	}
}

// Externalizable messages.
// property: C21
// panics: C21
// opt: use=EnDecAMF3_Decode merge=all values=unknown
func lemma_dec_external() {
	ed := &EnDecAMF3{}
	anyDecoder3(ed)
	s := anyStream()
	n := s.Rest()
	obj := Object{}
	var err error
	switch vp.Range("fields", 0, 2) {
	case 0:
		err = ed.decodeExternal(s, &obj)
	case 1:
		err = ed.decodeExternal(s, &obj, []string{"correlationId", "correlationIdBytes"})
	case 2:
		err = ed.decodeExternal(s, &obj,
			[]string{"body", "clientId", "destination", "headers", "messageId", "timeStamp", "timeToLive"},
			[]string{"clientIdBytes", "messageIdBytes"})
	}
	part(s, n, 1, err)
}

func going(r io.Reader) {
	vp.Inv(!r.(*vp.Stream).Short, "the stream has not ended")
	vp.Inv(r.(*vp.Stream).Pos >= 0 && r.(*vp.Stream).Pos <= len(r.(*vp.Stream).Data), "position")
}

// inside is going for a loop inside a value.
func inside(r io.Reader) {
	going(r)
	vp.Inv(r.(*vp.Stream).Pos >= 1, "after the first byte")
}

func inv_EnDecAMF0_decodeObject_0(r io.Reader) {
	inside(r)
	vp.Decreases(r.(*vp.Stream).Rest())
}

func inv_EnDecAMF0_decodeStrictArray_0(r io.Reader) {
	inside(r)
	vp.Decreases(r.(*vp.Stream).Rest())
}

func inv_EnDecAMF0_DecodeBatch_0(r io.Reader) {
	going(r)
	vp.Decreases(r.(*vp.Stream).Rest())
}

func inv_EnDecAMF3_DecodeBatch_0(r io.Reader) {
	going(r)
	vp.Decreases(r.(*vp.Stream).Rest())
}

func inv_EnDecAMF3_decodeArray_0(r io.Reader) {
	inside(r)
	vp.Decreases(r.(*vp.Stream).Rest())
}

func inv_EnDecAMF3_decodeArray_1(r io.Reader, i uint32) {
	inside(r)
	vp.Decreases(r.(*vp.Stream).Rest())
}

func inv_EnDecAMF3_decodeObject_0(r io.Reader, i int) {
	inside(r)
	vp.Inv(i >= 0, "index")
	vp.Decreases(r.(*vp.Stream).Rest())
}

func inv_EnDecAMF3_decodeObject_1(r io.Reader) {
	inside(r)
	vp.Decreases(r.(*vp.Stream).Rest())
}

func inv_EnDecAMF3_decodeObject_2(r io.Reader) {
	inside(r)
	vp.Decreases(r.(*vp.Stream).Rest())
}

func inv_EnDecAMF3_readFlags_0(r io.Reader) {
	going(r)
	vp.Decreases(r.(*vp.Stream).Rest())
}

func inv_EnDecAMF3_decodeExternal_0(r io.Reader) { inside(r) }

func inv_EnDecAMF3_decodeExternal_1(r io.Reader) { inside(r) }

func inv_EnDecAMF3_decodeExternal_2(r io.Reader) { inside(r) }

// Every stream, after every history of one decoder.
// property: C21
// panics: C21
// opt: use=EnDecAMF0_Decode,EnDecAMF3_Decode merge=all values=unknown
func lemma_dec0() {
	ed := &EnDecAMF0{}
	anyDecoder0(ed)
	s := anyStream()
	n := s.Rest()
	_, err := ed.Decode(s)
	decoded(s, n, err)
}

// property: C21
// panics: C21
// opt: use=EnDecAMF3_Decode,EnDecAMF3_decodeString,EnDecAMF3_decodeExternal merge=all values=unknown
func lemma_dec3() {
	ed := &EnDecAMF3{}
	anyDecoder3(ed)
	s := anyStream()
	n := s.Rest()
	_, err := ed.Decode(s)
	decoded(s, n, err)
}

// Batches: an error unless the stream ends between two values.
// property: C21
// panics: C21
// opt: use=EnDecAMF0_Decode,EnDecAMF3_Decode merge=all values=unknown
func lemma_dec_batch() {
	s := anyStream()
	var err error
	if vp.Bool("amf3") {
		ed := &EnDecAMF3{}
		anyDecoder3(ed)
		_, err = ed.DecodeBatch(s)
	} else {
		ed := &EnDecAMF0{}
		anyDecoder0(ed)
		_, err = ed.DecodeBatch(s)
	}
	if err == nil {
		vp.Assert(s.Pos == len(s.Data) && s.End == nil, "C21: a batch without an error is the whole stream")
	}
}
