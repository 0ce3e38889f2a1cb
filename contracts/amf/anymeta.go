package amf

import (
	"bytes"
	"io"

	vp "github.com/moggle-mog/goav/zz_vp"
)

// Metadata is what the contract of Encode writes for the object AnyMetadata has made.
var metadata struct {
	b  []byte
	ok bool
}

// AnyMetadata is an arbitrary metadata object, the tag body it stands for, and whether it can
// be encoded.
func AnyMetadata() (Object, []byte, bool) {
	o := Object{}
	if !vp.Native() {
		vp.Any("metadata", o)
		metadata.b, metadata.ok = vp.Bytes("encoding"), vp.Bool("encodable")
		return o, append([]byte("\x02\x00\x0aonMetaData"), metadata.b...), metadata.ok
	}
	// one key at most: the order in which a map is encoded varies
	for k := vp.Range("metaKeys", 0, 1); k > 0; k-- {
		o[vp.Str("metaKey")] = gen(0)
	}
	w := &bytes.Buffer{}
	ed := NewEnDecAMF0()
	ed.Encode(w, OnMetaData)
	_, err := ed.Encode(w, o)
	return o, w.Bytes(), err == nil
}

// encodeMetadata is the contract of Encode over a buffer.
func encodeMetadata(ed *EnDecAMF0, w *bytes.Buffer, val interface{}) (int, error) {
	if s, ok := val.(string); ok {
		return ed.encodeString(w, s, true)
	}
	_, ok := val.(Object)
	vp.Assert(ok, "C08: the metadata is encoded")
	if !metadata.ok {
		w.Write(vp.Bytes("partial"))
		return 0, vp.Opaque()
	}
	w.Write(metadata.b)
	return len(metadata.b), nil
}

var _ io.Writer
