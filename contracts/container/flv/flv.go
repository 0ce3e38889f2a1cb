package flv

import (
	"errors"
	"io"

	"github.com/moggle-mog/goav/packet"
	vp "github.com/moggle-mog/goav/zz_vp"
)

var errSink = errors.New("sink")

// tagAt checks that the bytes of b from off on start with the tag of data: header, data, size.
func tagAt(b []byte, off int, typ byte, ts uint32, data []byte, prop string) {
	n := len(data)
	vp.Check(len(b) >= off+11+n+4, prop+": header, data and previous-tag size are written")
	vp.Assert(b[off] == typ, prop+": tag type")
	vp.Assert(uint32(b[off+1])<<16|uint32(b[off+2])<<8|uint32(b[off+3]) == uint32(n), prop+": data size")
	vp.Assert(uint32(b[off+4])<<16|uint32(b[off+5])<<8|uint32(b[off+6]) == ts&0xffffff && b[off+7] == byte(ts>>24), prop+": timestamp")
	vp.Assert(b[off+8] == 0 && b[off+9] == 0 && b[off+10] == 0, prop+": stream id 0")
	vp.Assert(vp.Eq(b[off+11:off+11+n], data), prop+": data unchanged")
	e := off + 11 + n
	vp.Assert(uint32(b[e])<<24|uint32(b[e+1])<<16|uint32(b[e+2])<<8|uint32(b[e+3]) == uint32(n)+11, prop+": previous-tag size")
}

func inv_lemma_tag_0(m *Mixer) {
	h := m.muxer.tagHdr
	vp.Inv(len(h) == 11, "header buffer")
	vp.Inv(h[8] == 0 && h[9] == 0 && h[10] == 0, "stream id stays 0")
}

// Every history of tags on one mixer, with outputs that may fail.
// property: C07
// panics: C07
func lemma_tag() {
	m := NewMixer(io.Discard)
	for vp.More("tags") {
		w := &vp.FailWriter{FailAt: -1, Err: errSink}
		if vp.Bool("failing") {
			w.FailAt = vp.Range("failAt", 0, 4)
		}
		m.SetWriter(w)
		data := vp.Bytes("data")
		vp.Assume(len(data) < 1<<24)
		d0 := vp.Snapshot(data)
		ts := vp.U32("ts")
		p := &packet.Packet{Type: packet.PktAudio, TimeStamp: vp.U32("pts"), Data: data}
		typ := byte(8)
		switch vp.Range("type", 0, 2) {
		case 0:
			p.Type = packet.PktVideo
			typ = 9
		case 1:
			p.Type = vp.Int("unknown")
			vp.Assume(p.Type != packet.PktVideo && p.Type != packet.PktAudio && p.Type != packet.PktMetadata)
			err := m.Mux(p, ts)
			vp.Assert(err != nil && w.Calls == 0, "C07: an unknown packet type writes nothing and is an error")
			continue
		}
		err := m.Mux(p, ts)
		vp.Assert(w.After == 0, "C07: nothing is written after an error")
		if w.Failed {
			vp.Assert(err == errSink, "C07: the error of the output is returned")
			continue
		}
		vp.Assert(err == nil, "C07: muxing succeeds")
		vp.Assert(len(w.Data) == len(d0)+15, "C07: nothing but the tag is written")
		tagAt(w.Data, 0, typ, ts, d0, "C07")
		vp.Assert(vp.Eq(p.Data, d0), "C07: the packet is left unchanged")
	}
}

// other demuxes another packet.
func other(d *Demuxer) {
	d.Demux(&packet.Packet{Type: vp.Range("otherType", 0, 3), Data: vp.Bytes("otherBody")})
}

func inv_lemma_demux_0(d *Demuxer) { vp.Inv(d != nil, "the demuxer is there") }
func inv_lemma_demux_1(d *Demuxer) { vp.Inv(d != nil, "the demuxer is there") }

// Every body, after every history of one demuxer; what is reported stays when others are demuxed.
// property: C09
// panics: C09
func lemma_demux() {
	b := vp.Bytes("body")
	b0 := vp.Snapshot(b)
	var typ int
	switch vp.Range("type", 0, 3) {
	case 0:
		typ = packet.PktVideo
	case 1:
		typ = packet.PktAudio
	case 2:
		typ = packet.PktMetadata
	default:
		typ = vp.Int("other")
	}
	p := &packet.Packet{Type: typ, Data: b}
	d := NewDemuxer()
	for vp.More("before") {
		other(d)
	}
	err := d.Demux(p)
	for vp.More("after") {
		other(d)
	}
	demuxed(b0, typ, p, err)
	vp.Assert(vp.Eq(b, b0), "C09: the body is left unchanged")
}

// demuxed states what demuxing the body must have produced.
func demuxed(b []byte, typ int, p *packet.Packet, err error) {
	switch typ {
	case packet.PktVideo:
		vp.Assert((err == nil) == (len(b) >= 5), "C09: exactly the bodies with a complete video header are accepted")
		if err != nil {
			return
		}
		h, ok := p.Header.(packet.VideoPacketHeader)
		vp.Check(ok, "C09: a video header is reported")
		n := videoHdr(h, b)
		vp.Assert(vp.Eq(p.Media, b[n:]), "C09: the media is exactly the bytes after the video header")
	case packet.PktAudio:
		f := byte(0xff)
		if len(b) >= 2 {
			f = b[0] >> 4
		}
		vp.Assert((err == nil) == (f == 10 || f == 2), "C09: exactly AAC and MP3 with a complete header are accepted")
		if err != nil {
			return
		}
		h, ok := p.Header.(packet.AudioPacketHeader)
		vp.Check(ok, "C09: an audio header is reported")
		n := audioHdr(h, b)
		vp.Assert(vp.Eq(p.Media, b[n:]), "C09: the media is exactly the bytes after the audio header")
	case packet.PktMetadata:
		vp.Assert(err == nil, "C09: metadata is accepted")
		vp.Assert(vp.Eq(p.Media, b), "C09: the media of metadata is the whole body")
	default:
		vp.Assert(err != nil, "C09: other packet types are refused")
	}
}

func videoHdr(h packet.VideoPacketHeader, b []byte) int {
	ft := b[0] >> 4
	vp.Assert(h.IsKeyFrame() == (ft == 1) && h.IsInterFrame() == (ft == 2), "C09: frame type")
	vp.Assert(h.CodecID() == b[0]&15 && h.IsCodecAvc() == (b[0]&15 == 7), "C09: codec id")
	if ft != 1 && ft != 2 {
		vp.Assert(!h.IsSeqHdr() && !h.IsEndOfSeq(), "C09: no packet type without a packet header")
		vp.Assert(h.CompositionTime() == 0, "C09: no composition time without a packet header")
		return 1
	}
	vp.Assert(h.IsSeqHdr() == (ft == 1 && b[1] == 0) && h.IsEndOfSeq() == (ft == 1 && b[1] == 2), "C09: packet type")
	ct := int32(uint32(b[2])<<16 | uint32(b[3])<<8 | uint32(b[4]))
	if ct >= 1<<23 {
		ct -= 1 << 24
	}
	if b[1] == 1 {
		vp.Assert(h.CompositionTime() == ct, "C09: signed composition time")
	}
	return 5
}

func audioHdr(h packet.AudioPacketHeader, b []byte) int {
	f := b[0] >> 4
	vp.Assert(h.SoundFormat() == f && h.IsSoundAAC() == (f == 10) && h.IsSoundMP3() == (f == 2), "C09: sound format")
	if f == 2 {
		return 1
	}
	vp.Assert(h.AACType() == b[1] && h.IsAACSeqHdr() == (b[1] == 0), "C09: AAC packet type")
	return 2
}

// A tag that parsed other headers before gives the same outcome.
// property: C09
// panics: C09
func lemma_reuse() {
	var tag Tag
	tag.media = mediaTag{vp.U8("m0"), vp.U8("m1"), vp.U8("m2"), vp.U8("m3"), vp.U8("m4"), vp.U8("m5"), vp.U8("m6"), vp.U8("m7"), vp.I32("m8")}
	b := vp.Bytes("body")
	typ := packet.PktAudio
	if vp.Bool("video") {
		typ = packet.PktVideo
	}
	n, err := tag.ParseMediaTagHeader(b, typ)
	if typ == packet.PktVideo {
		vp.Assert((err == nil) == (len(b) >= 5), "C09: reuse: acceptance")
		if err == nil {
			vp.Assert(videoHdr(&tag, b) == n, "C09: reuse: header size")
		}
		return
	}
	vp.Assert((err == nil) == (len(b) >= 2 && (b[0]>>4 == 10 || b[0]>>4 == 2)), "C09: reuse: acceptance")
	if err == nil {
		vp.Assert(audioHdr(&tag, b) == n, "C09: reuse: header size")
	}
}
