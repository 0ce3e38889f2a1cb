package ts

import (
	"bytes"
	"io"

	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/packet"
	"github.com/moggle-mog/goav/parser"
	"github.com/moggle-mog/goav/parser/aac"
	"github.com/moggle-mog/goav/parser/h264"
	vp "github.com/moggle-mog/goav/zz_vp"
)

// anyMixer is a mixer after an arbitrary history, with the codec state c.
func anyMixer(c *parser.CodecParser, w io.Writer) *Mixer {
	m := NewMixer(w)
	m.parser = c
	m.muxer = anyMuxer()
	m.dts, m.pts = vp.I64("dts"), vp.I64("pts")
	m.cache.media = bytes.NewBuffer(vp.Bytes("earlier"))
	return m
}

func sinkFor(m *Mixer, p *packet.Packet) *muxSink {
	s := &muxSink{prop: "C17", pk: p, dts: m.dts, pts: m.pts}
	s.video = p.Type == packet.PktVideo
	s.key = s.video && p.Header.(packet.VideoPacketHeader).IsKeyFrame()
	s.failAt = vp.Range("failAt", -1, 1<<30)
	m.SetWriter(s)
	return s
}

// written checks that the sink has received one whole PES packet with the media of the packet.
func (s *muxSink) written(err error) {
	if s.failed {
		vp.Assert(err == errSink, "C17: the error of the output is returned")
		return
	}
	vp.Assert(err == nil, "C17: a parsed packet is written")
	vp.Assert(s.total == s.hdrLen()+len(s.pk.Media), "C17: the media are written as one PES packet")
}

// Muxing a video packet after any history.
// property: C17
// opt: use=Muxer_Mux
// panics: C17
func lemma_mux_video() {
	c, info := parser.AnyVideo()
	m := anyMixer(c, io.Discard)
	b := h264.Input()
	b0 := vp.Snapshot(b)
	seq := vp.Bool("seq")
	p := &packet.Packet{Type: packet.PktVideo, Media: b, Header: vhdr{avc: vp.Bool("avc"), seq: seq, key: vp.Bool("key")}}
	s := sinkFor(m, p)
	h264.Aim(info)
	err := m.Mux(p)
	if !p.Header.(vhdr).avc || len(b0) == 0 {
		vp.Assert(err != nil && s.n == 0, "C17: a packet that cannot be parsed writes nothing and is an error")
		return
	}
	if seq {
		h := h264.Header(b0)
		if h == nil {
			vp.Assert(err != nil && s.n == 0, "C17: a sequence header that cannot be parsed writes nothing and is an error")
			vp.Assert(parser.SeesVideo(m.parser, info), "C17: the codec state stays")
			return
		}
		vp.Assert(parser.SeesVideo(m.parser, h), "C17: the codec state accumulates")
		vp.Assert(len(p.Media) == 0, "C17: a sequence header has no media of its own")
		s.written(err)
		return
	}
	vp.Assert(parser.SeesVideo(m.parser, info), "C17: the codec state stays")
	if !h264.Good(b0) {
		vp.Assert(err != nil && s.n == 0, "C17: a packet that cannot be parsed writes nothing and is an error")
		return
	}
	s.written(err)
	if !s.failed {
		h264.CheckUnit(b0, nil, p.Media, "C17", "C17")
	}
}

// Muxing an audio packet, or one of another kind, after any history.
// property: C17
// opt: use=Muxer_Mux
// panics: C17
func lemma_mux_audio() {
	c, cfg := parser.AnyAudio()
	m := anyMixer(c, io.Discard)
	b := vp.Bytes("data")
	vp.Assume(b != nil)
	b0 := vp.Snapshot(b)
	h := ahdr{aac: vp.Bool("aac"), mp3: vp.Bool("mp3"), typ: vp.U8("aacType")}
	h.seq = h.typ == flv.AacSeqHdr
	p := &packet.Packet{Type: packet.PktAudio, Media: b, Header: h}
	s := sinkFor(m, p)
	switch vp.Range("kind", 0, 3) {
	case 1:
		p.Media = nil
	case 2:
		p.Header = nil
	case 3:
		p.Type = vp.Int("type")
		vp.Assume(p.Type != packet.PktVideo && p.Type != packet.PktAudio)
	default:
		err := m.Mux(p)
		switch {
		case h.aac && len(b0) > 0 && h.seq:
			cfg2, ok := aac.Config(b0)
			if !ok {
				vp.Assert(err != nil && s.n == 0, "C17: a configuration that cannot be parsed writes nothing and is an error")
				return
			}
			vp.Assert(parser.SeesAudio(m.parser, cfg2), "C17: the codec state accumulates")
			vp.Assert(len(p.Media) == 0, "C17: a configuration has no media of its own")
			s.written(err)
		case h.aac && len(b0) > 0 && h.typ == flv.AacRaw && cfg.Have:
			s.written(err)
			if !s.failed {
				aac.CheckFrame(b0, p.Media, cfg, "C17")
			}
			vp.Assert(parser.SeesAudio(m.parser, cfg), "C17: the codec state stays")
		case !h.aac && h.mp3 && len(b0) >= 3 && (b0[2]>>2&3 != 3 || b0[2]>>1&3 != 3):
			vp.Assert(err != nil && s.n == 0 || len(p.Media) == 0, "C17: MP3 is not converted")
			if err == nil {
				s.written(err)
			}
		case h.aac || !h.mp3 || len(b0) < 3:
			vp.Assert(err != nil && s.n == 0, "C17: a packet that cannot be parsed writes nothing and is an error")
		}
		return
	}
	err := m.Mux(p)
	vp.Assert(err != nil && s.n == 0, "C17: a packet that cannot be parsed writes nothing and is an error")
}

// startSink reads the stream start.
type startSink struct {
	n, failAt    int
	failed       bool
	desc         []byte
	video, audio bool
}

// descByte is byte k of the service descriptor with the given names.
func descByte(prov, svc string, k int) byte {
	a, b := len(prov), len(svc)
	switch {
	case k == 0:
		return 0x48
	case k == 1:
		return byte(a + b + 3)
	case k == 2:
		return 1
	case k == 3:
		return byte(a)
	case k < 4+a:
		return prov[k-4]
	case k == 4+a:
		return byte(b)
	}
	return svc[k-5-a]
}

func (s *startSink) Write(p []byte) (int, error) {
	vp.Assert(!s.failed, "C17: nothing is written after an error")
	vp.Check(len(p) == 188, "C17: a table is one packet")
	vp.Assert(p[0] == 0x47, "C17: sync byte")
	pid := int(p[1]&0x1f)<<8 | int(p[2])
	switch s.n {
	case 0:
		vp.Assert(pid == 0x11 && p[5] == 0x42, "C17: the SDT comes first")
		n := len(s.desc)
		vp.Assert(int(p[19]&0x0f)<<8|int(p[20]) == n, "C17: the SDT holds the descriptor")
		vp.Assert(vp.Eq(p[21:21+n], s.desc), "C17: the SDT holds the provider and service names")
	case 1:
		vp.Assert(pid == 0 && p[5] == 0, "C17: the PAT comes second")
	case 2:
		vp.Assert(pid == 0x1001 && p[5] == 2, "C17: the PMT comes third")
		n := 0
		if s.video {
			vp.Assert(vp.ForAll(0, 5, func(k int) bool { return p[17+k] == streamByte(packet.PktVideo, k) }), "C17: the PMT lists the video stream")
			n = 5
		}
		if s.audio {
			vp.Assert(vp.ForAll(0, 5, func(k int) bool { return p[17+n+k] == streamByte(packet.PktAudio, k) }), "C17: the PMT lists the audio stream")
			n += 5
		}
		vp.Assert(int(p[6]&0x0f)<<8|int(p[7]) == 13+n, "C17: the PMT lists nothing else")
	default:
		vp.Assert(false, "C17: exactly three packets")
	}
	if s.n == s.failAt {
		s.failed = true
		return 0, errSink
	}
	s.n++
	return len(p), nil
}

// startMixer is a mixer after any history of saves: it holds the descriptor and the types of the sink.
func (s *startSink) startMixer() *Mixer {
	m := NewMixer(s)
	m.muxer = anyMuxer()
	s.desc = vp.Bytes("desc")
	vp.Assume(len(s.desc) <= 163)
	m.cache.metadata = bytes.NewBuffer(vp.Snapshot(s.desc))
	if vp.Bool("savedVideo") {
		s.video = true
		m.cache.types.IsVideo()
	}
	if vp.Bool("savedAudio") {
		s.audio = true
		m.cache.types.IsAudio()
	}
	return m
}

// holds is the representation of the saved metadata and headers.
func (s *startSink) holds(m *Mixer) bool {
	t := m.cache.types.ToSlice()
	n := 0
	if s.video {
		if len(t) == 0 || t[0] != packet.PktVideo {
			return false
		}
		n = 1
	}
	if s.audio {
		if len(t) != n+1 || t[n] != packet.PktAudio {
			return false
		}
		n++
	}
	return len(t) == n && vp.Eq(m.cache.metadata.Bytes(), s.desc)
}

// SaveMetadata replaces the descriptor by the one with the given names.
// property: C17
// panics: C17
func lemma_save_metadata() {
	s := &startSink{failAt: -1}
	m := s.startMixer()
	vp.Assert(s.holds(m), "C17: saved metadata and headers are kept")
	prov, svc := vp.Str("provider"), vp.Str("service")
	vp.Assume(len(prov) <= 158 && len(svc) <= 158 && len(prov)+len(svc) <= 158)
	md := amf.Object{"Provider": prov, "Service": svc}
	switch vp.Range("names", 0, 2) {
	case 1:
		md = amf.Object{"Provider": prov}
		svc = "undefined"
		vp.Assume(len(prov) <= 140)
	case 2:
		md = amf.Object{"Service": svc, "Provider": 1}
		prov = "undefined"
		vp.Assume(len(svc) <= 140)
	}
	vp.Assert(m.SaveMetadata(md) == nil, "C17: metadata are saved")
	b := m.cache.metadata.Bytes()
	vp.Check(len(b) == 5+len(prov)+len(svc), "C17: the length of the service descriptor")
	vp.Assert(vp.ForAll(0, len(b), func(k int) bool { return b[k] == descByte(prov, svc, k) }), "C17: the descriptor holds the provider and service names")
	s.desc = b
	vp.Assert(s.holds(m), "C17: saving metadata keeps the headers")
	vp.Assert(s.n == 0, "C17: saving writes nothing")
}

// Saving a sequence header adds its medium and nothing else.
// property: C17
// opt: use=Muxer_Mux
// panics: C17
func lemma_save_headers() {
	s := &startSink{failAt: -1}
	m := s.startMixer()
	if vp.Bool("saveVideo") {
		s.video = true
		p := &packet.Packet{Type: packet.PktVideo, Media: validAvc(), Header: vhdr{avc: true, seq: true}}
		vp.Assert(m.SaveAVCHeader(p) == nil, "C17: a video sequence header is saved")
	} else {
		s.audio = true
		b := vp.BytesN("asc", 2)
		vp.Assume(b[0]&7<<1|b[1]>>7 < 13)
		p := &packet.Packet{Type: packet.PktAudio, Media: b, Header: ahdr{aac: true, seq: true, typ: flv.AacSeqHdr}}
		vp.Assert(m.SaveAACHeader(p) == nil, "C17: an audio sequence header is saved")
	}
	vp.Assert(s.holds(m), "C17: saving a header adds its medium to the stream start")
	vp.Assert(s.n == 0, "C17: saving writes nothing")
}

// The stream start after any history of saves.
// property: C17
// panics: C17
func lemma_start() {
	s := &startSink{failAt: vp.Range("failAt", -1, 3)}
	new := NewMixer(s)
	vp.Assert(s.holds(new), "C17: a new mixer has saved nothing")
	if vp.Native() {
		s.history(new)
		return
	}
	m := s.startMixer()
	err := m.SetTsHeader()
	if s.failed {
		vp.Assert(err == errSink, "C17: the error of the output is returned")
		return
	}
	vp.Assert(err == nil && s.n == 3, "C17: exactly three packets")
}

// history is a sampled history of saves and stream starts (concrete runs only).
func (s *startSink) history(m *Mixer) {
	for i := vp.Range("ops", 1, 8); i > 0; i-- {
		switch vp.Range("op", 0, 4) {
		case 0:
			prov, svc := vp.Str("provider"), vp.Str("service")
			vp.Assume(len(prov)+len(svc) <= 158)
			vp.Assert(m.SaveMetadata(amf.Object{"Provider": prov, "Service": svc}) == nil, "C17: metadata are saved")
			s.desc = nil
			for k := 0; k < 5+len(prov)+len(svc); k++ {
				s.desc = append(s.desc, descByte(prov, svc, k))
			}
		case 1:
			s.video = true
			b := validAvc()
			info := h264.Header(b)
			vp.Assert(m.SaveAVCHeader(&packet.Packet{Type: packet.PktVideo, Media: b, Header: vhdr{avc: true, seq: true}}) == nil, "C17: a video sequence header is saved")
			vp.Assert(parser.SeesVideo(m.parser, info), "C17: the codec state accumulates")
		case 2:
			s.audio = true
			b := vp.BytesN("asc", 2)
			vp.Assume(b[0]&7<<1|b[1]>>7 < 13)
			cfg, _ := aac.Config(b)
			vp.Assert(m.SaveAACHeader(&packet.Packet{Type: packet.PktAudio, Media: b, Header: ahdr{aac: true, seq: true, typ: flv.AacSeqHdr}}) == nil, "C17: an audio sequence header is saved")
			vp.Assert(parser.SeesAudio(m.parser, cfg), "C17: the codec state accumulates")
		default:
			err := m.SetTsHeader()
			if s.failed {
				vp.Assert(err == errSink, "C17: the error of the output is returned")
				return
			}
			vp.Assert(err == nil && s.n == 3, "C17: exactly three packets")
			s.n = 0
		}
	}
}

// validAvc is a sequence header with one parameter set of each kind.
func validAvc() []byte {
	b := h264.Input()
	vp.Assume(h264.Header(b) != nil)
	return b
}
