package amf

import (
	"bytes"

	vp "github.com/moggle-mog/goav/zz_vp"
)

// u29len is the number of bytes of the shortest form.
func u29len(v uint32) int {
	switch {
	case v < 1<<7:
		return 1
	case v < 1<<14:
		return 2
	case v < 1<<21:
		return 3
	}
	return 4
}

// u29 is the value the bytes at p encode and their number (0: truncated).
func u29(b []byte) (uint32, int) {
	var v uint32
	for i := 0; i < 4; i++ {
		if len(b) <= i {
			return 0, 0
		}
		if i == 3 {
			return v<<8 | uint32(b[i]), 4
		}
		v = v<<7 | uint32(b[i]&0x7f)
		if b[i] < 0x80 {
			return v, i + 1
		}
	}
	return 0, 0
}

// Writing and reading back every 29-bit integer.
// property: C18
// panics: C18
func lemma_u29_write() {
	v := vp.U32("v")
	w := &bytes.Buffer{}
	n, err := new(EnDecAMF3).writeUint29(w, v)
	if v >= 1<<29 {
		vp.Assert(err != nil && w.Len() == 0, "C18: a larger value is not encoded")
		return
	}
	vp.Check(err == nil && n == w.Len(), "C18: encoded")
	vp.Check(w.Len() == u29len(v), "C18: the shortest form")
	b := vp.Snapshot(w.Bytes())
	x, k := u29(b)
	vp.Assert(x == v && k == len(b), "C18: the encoding of the value")
	s := vp.NewStream(append(b, vp.Bytes("tail")...))
	got, err := new(EnDecAMF3).readUint29(s)
	vp.Assert(err == nil && got == v, "C18: decoding yields the integer")
	vp.Assert(s.Pos == n, "C18: and consumes exactly its encoding")
}

// Reading any bytes.
// property: C18
// panics: C18
func lemma_u29_read() {
	s := vp.NewStream(vp.Bytes("data"))
	x, k := u29(s.Data)
	got, err := new(EnDecAMF3).readUint29(s)
	if k == 0 {
		vp.Assert(err != nil, "C18: a truncated encoding is an error")
		vp.Assert(s.Pos == len(s.Data), "C18: nothing but the data is read")
		return
	}
	vp.Assert(err == nil && got == x, "C18: the integer of its bytes")
	vp.Assert(s.Pos == k && k <= 4, "C18: never more than four bytes")
}

// The encoder of integer values.
// property: C18
// panics: C18
func lemma_u29_value() {
	v := vp.U32("v")
	vp.Assume(v < 1<<29)
	w := &bytes.Buffer{}
	n, err := new(EnDecAMF3).Encode(w, v)
	vp.Check(err == nil, "C18: an integer below 2^29 is accepted")
	vp.Check(n == w.Len() && n == 1+u29len(v), "C18: the shortest form after the marker")
	x, k := u29(w.Bytes()[1:])
	vp.Assert(w.Bytes()[0] == 4 && x == v && k == n-1, "C18: an integer below 2^29 is encoded as a 29-bit integer")
}
