package flv

import (
	"bytes"
	"io"

	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/packet"
	vp "github.com/moggle-mog/goav/zz_vp"
)

// saved is the tag of what was saved last of one kind.
type saved struct {
	have bool
	tag  []byte
}

// set checks that b, what is kept for the stream start, is the tag of data at timestamp 0.
func (s *saved) set(b []byte, typ byte, data []byte) {
	tagAt(b, 0, typ, 0, data, "C08")
	vp.Assert(len(b) == len(data)+15, "C08: a header replaces the old one completely")
	s.have, s.tag = true, vp.Snapshot(b)
}

// kept: b is what is kept.
func (s *saved) kept(b []byte) bool { return s.have == (len(b) > 0) && vp.Eq(b, s.tag) }

func inv_lemma_flvstart_0(m *Mixer, md *saved, video *saved, audio *saved) {
	vp.Inv(md.kept(m.cache.metadata.Bytes()), "the metadata saved last")
	vp.Inv(video.kept(m.cache.avcSeqHdr.Bytes()), "the video header saved last")
	vp.Inv(audio.kept(m.cache.aacSeqHdr.Bytes()), "the audio header saved last")
	v, a := packet.Announced(m.cache.types)
	vp.Inv(v == video.have && a == audio.have, "saved headers are announced")
	h := m.muxer.flvHdr
	vp.Inv(len(h) == 13 && string(h[:4]) == "FLV\x01" && h[4]&^5 == 0 && string(h[5:]) == "\x00\x00\x00\x09\x00\x00\x00\x00", "file header")
	t := m.muxer.tagHdr
	vp.Inv(len(t) == 11 && t[8] == 0 && t[9] == 0 && t[10] == 0, "tag header")
}

// startIs: b is the stream start for what was saved.
func startIs(b []byte, md, video, audio *saved) {
	n := len(md.tag)
	v := n + len(video.tag)
	a := v + len(audio.tag)
	vp.Check(len(b) == 13+a, "C08: header and saved tags are written")
	var flags byte
	if video.have {
		flags |= 1
	}
	if audio.have {
		flags |= 4
	}
	vp.Assert(string(b[:4]) == "FLV\x01" && b[4] == flags && string(b[5:13]) == "\x00\x00\x00\x09\x00\x00\x00\x00", "C08: file header")
	vp.Assert(vp.Eq(b[13:13+n], md.tag), "C08: metadata first")
	vp.Assert(vp.Eq(b[13+n:13+v], video.tag), "C08: then the video header")
	vp.Assert(vp.Eq(b[13+v:], audio.tag), "C08: then the audio header")
}

// Every history of saved headers, packets and starts.
// property: C08
// panics: C08
// opt: use=EnDecAMF0_Encode merge=all
func lemma_flvstart() {
	m := NewMixer(io.Discard)
	md, video, audio := &saved{}, &saved{}, &saved{}
	for vp.More("history") {
		switch vp.Range("op", 0, 4) {
		case 0:
			o, body, ok := amf.AnyMetadata()
			vp.Assume(len(body) < 1<<24-100)
			err := m.SaveMetadata(o)
			vp.Assert((err == nil) == ok, "C08: metadata that cannot be encoded is refused")
			if ok {
				md.set(m.cache.metadata.Bytes(), 18, body)
			}
		case 1:
			data := vp.Bytes("avc")
			vp.Assume(len(data) < 1<<24)
			vp.Assert(m.SaveAVCHeader(&packet.Packet{Type: packet.PktVideo, TimeStamp: vp.U32("t"), Data: data}) == nil, "C08: a header is saved")
			video.set(m.cache.avcSeqHdr.Bytes(), 9, data)
			clobber(data)
		case 2:
			data := vp.Bytes("aac")
			vp.Assume(len(data) < 1<<24)
			vp.Assert(m.SaveAACHeader(&packet.Packet{Type: packet.PktAudio, TimeStamp: vp.U32("t"), Data: data}) == nil, "C08: a header is saved")
			audio.set(m.cache.aacSeqHdr.Bytes(), 8, data)
			clobber(data)
		case 3:
			typ := packet.PktVideo
			if vp.Bool("audio") {
				typ = packet.PktAudio
			}
			m.SetWriter(anyWriter())
			m.Mux(&packet.Packet{Type: typ, Data: vp.Bytes("data")}, vp.U32("ts"))
		default:
			w := anyWriter()
			m.SetWriter(w)
			err := m.SetFlvHeader()
			vp.Assert(w.After == 0, "C08: nothing is written after an error")
			if w.Failed {
				vp.Assert(err == errSink, "C08: the error of the output is returned")
				continue
			}
			vp.Check(err == nil, "C08: the start is written")
			startIs(w.Data, md, video, audio)
		}
	}
}

// clobber: the caller may reuse its buffer.
func clobber(b []byte) {
	if vp.Native() {
		for i := range b {
			b[i] ^= 0x5a
		}
	}
}

func anyWriter() *vp.FailWriter {
	w := &vp.FailWriter{FailAt: -1, Err: errSink}
	if vp.Bool("failing") {
		w.FailAt = vp.Range("failAt", 0, 4)
	}
	return w
}

var _ = bytes.NewBuffer
