package parser

import (
	"errors"

	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/packet"
	"github.com/moggle-mog/goav/parser/aac"
	"github.com/moggle-mog/goav/parser/h264"
	"github.com/moggle-mog/goav/parser/mp3"
	vp "github.com/moggle-mog/goav/zz_vp"
)

var errSink = errors.New("sink")

// vhdr and ahdr are arbitrary packet headers.
type vhdr struct {
	key, inter, seq, eos, avc bool
	codec                     uint8
	ct                        int32
}

func (h vhdr) IsKeyFrame() bool       { return h.key }
func (h vhdr) IsInterFrame() bool     { return h.inter }
func (h vhdr) IsSeqHdr() bool         { return h.seq }
func (h vhdr) IsEndOfSeq() bool       { return h.eos }
func (h vhdr) IsCodecAvc() bool       { return h.avc }
func (h vhdr) CodecID() uint8         { return h.codec }
func (h vhdr) CompositionTime() int32 { return h.ct }

type ahdr struct {
	format, typ   uint8
	aac, mp3, seq bool
}

func (h ahdr) SoundFormat() uint8 { return h.format }
func (h ahdr) AACType() uint8     { return h.typ }
func (h ahdr) IsSoundAAC() bool   { return h.aac }
func (h ahdr) IsSoundMP3() bool   { return h.mp3 }
func (h ahdr) IsAACSeqHdr() bool  { return h.seq }

// mp3Rate is the sample rate of ISO/IEC 11172-3 for an audio frame, 0 if it is reserved or the frame
// is in the region described in known_findings.txt.
func mp3Rate(b []byte) int {
	if len(b) >= 3 && b[2]>>2&3 == b[2]>>1&3 && b[2]>>2&3 == 0 {
		return 44100
	}
	return 0
}

func isRate(r int) bool { return r == 44100 || r == 48000 || r == 32000 }

// history is a codec parser and what it has seen.
type history struct {
	c                *CodecParser
	info             []byte
	cfg              aac.Cfg
	haveAAC, haveMP3 bool
}

// holds is the representation of a history in a codec parser.
func (s *history) holds() bool {
	if s.c == nil || (s.c.aac != nil) != s.haveAAC || (s.c.mp3 != nil) != s.haveMP3 {
		return false
	}
	if s.c.mp3 != nil && !isRate(s.c.mp3.SampleRate()) {
		return false
	}
	return vp.Eq(s.c.h264.Info(), s.info) && aac.Holds(s.c.aac, s.cfg) && h264.Valid(s.c.h264)
}

// any is a codec parser after an arbitrary history.
func (s *history) any() {
	s.c = NewCodecParser()
	if vp.Bool("haveH264") {
		s.c.h264, s.info = h264.Any()
	}
	if vp.Bool("haveAAC") {
		s.haveAAC = true
		s.c.aac, s.cfg = aac.Any()
	}
	if vp.Bool("haveMP3") {
		s.haveMP3 = true
		s.c.mp3 = mp3.Any()
		vp.Assume(isRate(s.c.mp3.SampleRate()))
	}
	vp.Assume(s.holds())
}

// Every packet after every history: the new codec parser represents the empty history, and every
// packet leads from a represented history to a represented history.
// property: C16
// panics: C16
func lemma_dispatch() {
	s := &history{c: NewCodecParser()}
	vp.Assert(s.holds(), "C16: a new parser has seen nothing")
	if vp.Native() {
		for i := vp.Range("packets", 1, 12); i > 0; i-- {
			s.packet()
		}
		return
	}
	s.any()
	s.packet()
	vp.Assert(s.holds(), "C16: parser state persists")
}

func (s *history) packet() {
	w := &vp.FailWriter{FailAt: -1, Err: errSink}
	switch vp.Range("kind", 0, 6) {
	case 0:
		b := h264.Input()
		vp.Assume(b != nil)
		b0 := vp.Snapshot(b)
		seq := vp.Bool("seq")
		p := &packet.Packet{Type: packet.PktVideo, Media: b, Header: vhdr{avc: true, seq: seq, key: vp.Bool("key"), codec: vp.U8("codec")}}
		h264.Aim(s.info)
		err := s.c.Parse(p, w)
		if len(b0) == 0 {
			vp.Assert(err != nil && w.Calls == 0, "C16: an empty packet is refused")
		} else if seq {
			vp.Assert(w.Calls == 0, "C16: a sequence header writes nothing")
			s.info = h264.CheckHeader(b0, err, s.info, "C16")
		} else {
			h264.CheckUnit(b0, err, w.Data, "C16", "C16")
		}
	case 1:
		b := vp.Bytes("aac")
		vp.Assume(b != nil)
		b0 := vp.Snapshot(b)
		t := vp.U8("aacType")
		p := &packet.Packet{Type: packet.PktAudio, Media: b, Header: ahdr{aac: true, typ: t, seq: t == flv.AacSeqHdr, format: vp.U8("format")}}
		err := s.c.Parse(p, w)
		s.haveAAC = true
		if t == flv.AacSeqHdr {
			vp.Assert(w.Calls == 0, "C16: a configuration writes nothing")
			s.cfg = aac.CheckConfig(b0, err, s.cfg, "C16")
		} else if t != flv.AacRaw || len(b0) == 0 || !s.cfg.Have {
			vp.Assert(err != nil && w.Calls == 0, "C16: a frame without a configuration is refused")
		} else {
			vp.Assert(err == nil, "C16: a frame is accepted")
			aac.CheckFrame(b0, w.Data, s.cfg, "C16")
		}
	case 2:
		b := vp.Bytes("mp3")
		vp.Assume(b != nil)
		r0, e0 := s.c.SampleRate()
		p := &packet.Packet{Type: packet.PktAudio, Media: b, Header: ahdr{mp3: true, format: vp.U8("format")}}
		err := s.c.Parse(p, w)
		vp.Assert(w.Calls == 0, "C16: MP3 is not converted")
		vp.Assert(len(b) >= 3 || err != nil, "C16: a truncated MP3 frame is refused")
		r, e := s.c.SampleRate()
		vp.Assert(e == nil, "C16: the rate is known once MP3 was seen")
		if s.haveAAC {
			vp.Assert(e0 == nil && r == r0, "C16: the AAC rate stays in force")
		} else if err != nil {
			vp.Assert(e0 != nil && r == 44100 || e0 == nil && r == r0, "C16: a refused MP3 frame leaves the rate")
		} else {
			vp.Assert(isRate(r) && (mp3Rate(b) == 0 || r == mp3Rate(b)), "C16: the sample rate of the MP3 frame")
		}
		s.haveMP3 = true
	case 3:
		p := &packet.Packet{Type: vp.Range("video", 0, 1), Media: vp.Bytes("data"), Header: vhdr{seq: vp.Bool("seq"), key: vp.Bool("key"), codec: vp.U8("codec")}}
		if p.Type == packet.PktAudio {
			p.Header = ahdr{format: vp.U8("format"), typ: vp.U8("typ")}
		}
		err := s.c.Parse(p, w)
		vp.Assert(err != nil && w.Calls == 0, "C16: another codec is refused")
	case 4:
		p := &packet.Packet{Type: vp.Int("type"), Media: vp.Bytes("data"), Header: vhdr{avc: true}}
		vp.Assume(p.Type != packet.PktVideo && p.Type != packet.PktAudio)
		err := s.c.Parse(p, w)
		vp.Assert(err != nil && w.Calls == 0, "C16: another packet type is refused")
	case 5:
		p := &packet.Packet{Type: vp.Range("media", 0, 1), Media: vp.Bytes("data")}
		err := s.c.Parse(p, w)
		vp.Assert(err != nil && w.Calls == 0, "C16: a packet without a header is refused")
	case 6:
		p := &packet.Packet{Type: packet.PktVideo, Header: vhdr{avc: true, seq: vp.Bool("seq")}}
		if vp.Bool("audio") {
			p = &packet.Packet{Type: packet.PktAudio, Header: ahdr{aac: true, typ: vp.U8("typ")}}
		}
		err := s.c.Parse(p, w)
		vp.Assert(err != nil && w.Calls == 0, "C16: a packet without media is refused")
	}
	r, err := s.c.SampleRate()
	vp.Assert((err != nil) == (!s.haveAAC && !s.haveMP3), "C16: asking for the rate before any audio is an error")
	if err == nil && s.haveAAC {
		vp.Assert(aac.Rate(s.cfg) == 0 || r == aac.Rate(s.cfg), "C16: the sample rate of the AAC configuration")
	}
	if err == nil && !s.haveAAC {
		vp.Assert(isRate(r), "C16: the sample rate of MP3")
	}
}

// AnyVideo is a codec parser after an arbitrary history, and the parameter sets in force.
func AnyVideo() (*CodecParser, []byte) {
	c := NewCodecParser()
	var info []byte
	if vp.Bool("haveH264") {
		c.h264, info = h264.Any()
	}
	return c, info
}

// AnyAudio is a codec parser after an arbitrary history, and the AAC configuration in force.
func AnyAudio() (*CodecParser, aac.Cfg) {
	c := NewCodecParser()
	var cfg aac.Cfg
	if vp.Bool("haveAAC") {
		c.aac, cfg = aac.Any()
		vp.Assume(aac.Holds(c.aac, cfg))
	}
	return c, cfg
}

// SeesVideo and SeesAudio tell whether the parser is in the given state.
func SeesVideo(c *CodecParser, info []byte) bool { return vp.Eq(c.h264.Info(), info) }
func SeesAudio(c *CodecParser, cfg aac.Cfg) bool { return aac.Holds(c.aac, cfg) }
