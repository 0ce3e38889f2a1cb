package amf

import (
	"bytes"
	"errors"
	"io"

	vp "github.com/moggle-mog/goav/zz_vp"
)

var errUndecodable = errors.New("undecodable")

// header0 and header3 are what the RTMP specification puts in front of metadata.
const (
	header0 = "\x02\x00\x0d@setDataFrame"
	header3 = "\x06\x1b@setDataFrame"
)

// anyHeaderDecoder is what adding and removing rely on of a decoder: it decodes the header as
// the string it is and consumes exactly its bytes (lemma_meta_dec0), it consumes between one
// and all bytes of anything else it decodes (lemma_dec0), and it decodes the same bytes in the
// same way each time.
type anyHeaderDecoder struct {
	p    []byte // the data decoded in an arbitrary way
	err  bool
	size int
	text bool
	s    string
	uses int
}

func (d *anyHeaderDecoder) Decode(r io.Reader) (interface{}, error) {
	br := r.(*bytes.Reader)
	n := br.Len()
	b := make([]byte, n)
	br.Read(b)
	d.uses++
	if n >= len(header0) && string(b[:len(header0)]) == header0 {
		br.Seek(int64(len(header0)), 0)
		return SetDataFrame, nil
	}
	vp.Check(string(b) == string(d.p), "decoded data is the data or starts with the header")
	if d.err || n == 0 {
		return nil, errUndecodable
	}
	br.Seek(int64(d.size), 0)
	if d.text {
		return d.s, nil
	}
	return 1.0, nil
}

func (d *anyHeaderDecoder) DecodeBatch(r io.Reader) ([]interface{}, error) {
	vp.Assert(false, "a single value is decoded")
	return nil, nil
}

// Adding and removing with any decoder.
// property: C10
// panics: C10
// opt: merge=all
func lemma_meta_any() {
	p := vp.Bytes("p")
	d := &anyHeaderDecoder{p: p, err: vp.Bool("err"), size: vp.Range("size", 1, 1<<31), text: vp.Bool("text"), s: vp.Str("s")}
	if vp.Native() && len(p) > 0 {
		d.size = 1 + d.size%len(p)
	}
	if len(p) > 0 {
		vp.Assume(d.size <= len(p))
	}
	has := len(p) >= len(header0) && string(p[:len(header0)]) == header0
	isText := has || (!d.err && len(p) > 0 && d.text)
	isHeader := has || (isText && d.s == SetDataFrame)
	size := d.size
	if has {
		size = len(header0)
	}
	q, err := AddMetaHeader(p, d)
	x, err2 := DelMetaHeader(p, d)
	vp.Check((err == nil) == isText && (err2 == nil) == isText, "C10: data that does not start with a string is refused")
	if err != nil {
		return
	}
	if isHeader {
		vp.Assert(string(q) == string(p), "C10: a header is not added twice")
		vp.Assert(string(x) == string(p[size:]), "C10: exactly the header is removed")
	} else {
		vp.Check(len(q) == len(header0)+len(p), "C10: the header is added")
		vp.Assert(string(q[:len(header0)]) == header0 && string(q[len(header0):]) == string(p), "C10: the header is added")
		vp.Assert(string(x) == string(p), "C10: data without a header is left unchanged")
	}
	again, err := AddMetaHeader(q, d)
	vp.Assert(err == nil && string(again) == string(q), "C10: adding is idempotent")
	back, err := DelMetaHeader(q, d)
	vp.Assert(err == nil && (isHeader || string(back) == string(p)), "C10: removing undoes adding")
}

// The AMF0 decoder reads the header as the string it is, whatever follows and whatever it
// decoded before.
// property: C10
// panics: C10
func lemma_meta_dec0() {
	ed := &EnDecAMF0{}
	anyDecoder0(ed)
	s := vp.NewStream(append([]byte(header0), vp.Bytes("rest")...))
	v, err := ed.Decode(s)
	t, ok := v.(string)
	vp.Assert(err == nil && ok && t == SetDataFrame, "C10: the header is decoded")
	vp.Assert(s.Pos == len(header0), "C10: the header is consumed")
}

// So does the AMF3 decoder.
// property: C10
// panics: C10
func lemma_meta_dec3() {
	ed := &EnDecAMF3{}
	anyDecoder3(ed)
	s := vp.NewStream(append([]byte(header3), vp.Bytes("rest")...))
	v, err := ed.Decode(s)
	t, ok := v.(string)
	vp.Assert(err == nil && ok && t == SetDataFrame, "C10: the header is decoded")
	vp.Assert(s.Pos == len(header3), "C10: the header is consumed")
}

// theHeader is the set-data-frame string in any encoding of it.
func theHeader(kind int) []byte {
	switch kind {
	case 0:
		return []byte(header0)
	case 1: // long string
		return []byte("\x0c\x00\x00\x00\x0d@setDataFrame")
	case 2: // AMF3 inside AMF0
		return []byte("\x11" + header3)
	case 3: // longer than necessary length
		return []byte("\x11\x06\x80\x1b@setDataFrame")
	case 4:
		return []byte("\x11\x06\x80\x80\x80\x1b@setDataFrame")
	case 5:
		return []byte(header3)
	}
	return []byte("\x06\x80\x80\x1b@setDataFrame")
}

func anyMetaDecoder(amf3 bool) Decoder {
	if amf3 {
		d := &EnDecAMF3{}
		anyDecoder3(d)
		return d
	}
	d := &EnDecAMF0{}
	anyDecoder0(d)
	return d
}

// Removing the header in any encoding leaves what follows.
// property: C10
// panics: C10
func lemma_meta_del() {
	rest := vp.Bytes("rest")
	for kind := 0; kind <= 6; kind++ {
		p := append(theHeader(kind), rest...)
		x, err := DelMetaHeader(p, anyMetaDecoder(kind >= 5))
		vp.Assert(err == nil && string(x) == string(rest), "C10: exactly the header is removed")
		q, err := AddMetaHeader(p, anyMetaDecoder(kind >= 5))
		vp.Assert(err == nil && string(q) == string(p), "C10: a header is not added twice")
	}
}

func metaBack(p []byte, amf3 bool) {
	d := anyMetaDecoder(amf3)
	h := header0
	if amf3 {
		h = header3
	}
	q, err := AddMetaHeader(p, d)
	x, err2 := DelMetaHeader(p, d)
	vp.Assert((err == nil) == (err2 == nil), "C10: data is refused by both or by neither")
	if err != nil {
		return
	}
	if len(q) != len(p) {
		vp.Check(len(q) == len(h)+len(p), "C10: the header is added")
		vp.Assert(string(q[:len(h)]) == h && string(q[len(h):]) == string(p), "C10: the header is added")
		vp.Assert(string(x) == string(p), "C10: data without a header is left unchanged")
		back, err := DelMetaHeader(q, d)
		vp.Assert(err == nil && string(back) == string(p), "C10: removing undoes adding")
	} else {
		vp.Assert(string(q) == string(p), "C10: a header is not added twice")
		vp.Assert(len(x) < len(p) && string(x) == string(p[len(p)-len(x):]), "C10: the header is removed from the front")
	}
	again, err := AddMetaHeader(q, d)
	vp.Assert(err == nil && string(again) == string(q), "C10: adding is idempotent")
}

// Data that starts with a string written in place, with the AMF0 decoder.
// property: C10
// panics: C10
// opt: merge=all
func lemma_meta_back0() {
	metaBack(append([]byte{stringMarkerOnAMF0}, vp.Bytes("p")...), false)
}

// Or with a long string.
// property: C10
// panics: C10
// opt: merge=all
func lemma_meta_back0_long() {
	metaBack(append([]byte{longStringMarkerOnAMF0}, vp.Bytes("p")...), false)
}

// Or with something that is not a string.
// property: C10
// panics: C10
// opt: merge=all
func lemma_meta_back0_other() {
	p := vp.Bytes("p")
	if len(p) > 0 {
		vp.Assume(p[0] == numberMarkerOnAMF0 || p[0] == booleanMarkerOnAMF0 || p[0] == nullMarkerOnAMF0 || p[0] > avmPlusObjectMarkerOnAMF0)
	}
	_, err := AddMetaHeader(p, anyMetaDecoder(false))
	vp.Assert(err != nil, "C10: data that does not start with a string is refused")
	_, err = DelMetaHeader(p, anyMetaDecoder(false))
	vp.Assert(err != nil, "C10: data that does not start with a string is refused")
}

// A string written in place, with the AMF3 decoder.
// property: C10
// panics: C10
// opt: merge=all
func lemma_meta_back3() {
	p := vp.Bytes("p")
	if len(p) > 0 {
		vp.Assume(p[0] == stringMarkerOnAMF3 || p[0] == doubleMarkerOnAMF3 || p[0] == nullMarkerOnAMF3)
	}
	metaBack(p, true)
}

// Any data with any decoder (native runs).
// property: C10
func lemma_meta_values() {
	if !vp.Native() {
		return
	}
	amf3 := vp.Bool("amf3")
	p := vp.Bytes("p")
	if vp.Bool("header") {
		k := vp.Range("kind", 0, 4)
		if amf3 {
			k = vp.Range("kind", 5, 6)
		}
		p = append(theHeader(k), p...)
	}
	if len(p) > 0 && vp.Bool("string") {
		p[0] = stringMarkerOnAMF0
		if amf3 {
			p[0] = stringMarkerOnAMF3
		}
	}
	metaBack(p, amf3)
}
