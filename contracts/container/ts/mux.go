package ts

import (
	"errors"
	"io"

	"github.com/moggle-mog/goav/packet"
	vp "github.com/moggle-mog/goav/zz_vp"
)

// vhdr is an arbitrary video packet header.
type vhdr struct {
	key, inter, seq, eos, avc bool
	codec                     uint8
	ct                        int32
}

func (h vhdr) IsKeyFrame() bool       { return h.key }
func (h vhdr) IsInterFrame() bool     { return h.inter }
func (h vhdr) IsSeqHdr() bool         { return h.seq }
func (h vhdr) IsEndOfSeq() bool       { return h.eos }
func (h vhdr) IsCodecAvc() bool       { return h.avc }
func (h vhdr) CodecID() uint8         { return h.codec }
func (h vhdr) CompositionTime() int32 { return h.ct }

var errSink = errors.New("sink")

// muxSink is the reader of a transport stream: it takes the packets of one PES packet
// and compares them with the specification, byte for byte.
type muxSink struct {
	video, key bool
	pts, dts   int64
	pk         *packet.Packet
	// prop overrides the property the assertions belong to
	prop string
	// progress within the current PES packet
	n     int // transport packets seen
	total int // PES bytes seen
	// continuity counters of the stream
	seenV, seenA bool
	ccV, ccA     byte
	// fault injection
	failAt int
	failed bool
}

// short is the region described in known_findings.txt.
func (s *muxSink) short() bool { return s.key && s.hdrLen()+len(s.pk.Media) < 176 }

// l is the label of an assertion of property p.
func (s *muxSink) l(p, text string) string {
	if s.prop != "" {
		p = s.prop
	}
	return p + ": " + text
}

func (s *muxSink) hasDts() bool { return s.video && s.pts != s.dts }

func (s *muxSink) hdrLen() int {
	if s.hasDts() {
		return 19
	}
	return 14
}

// tsByte is byte k of the 5-byte encoding of a 33-bit timestamp.
func tsByte(prefix byte, t int64, k int) byte {
	u := uint64(t) & (1<<33 - 1)
	switch k {
	case 0:
		return prefix<<4 | byte(u>>30)<<1 | 1
	case 1:
		return byte(u >> 22)
	case 2:
		return byte(u>>15)<<1 | 1
	case 3:
		return byte(u >> 7)
	}
	return byte(u)<<1 | 1
}

// hdrByte is byte k of the PES header of the packet.
func (s *muxSink) hdrByte(k int) byte {
	size := s.hdrLen() - 6 + len(s.pk.Media)
	if size > 0xffff {
		size = 0
	}
	switch k {
	case 0, 1:
		return 0
	case 2:
		return 1
	case 3:
		if s.video {
			return 0xe0
		}
		return 0xc0
	case 4:
		return byte(size >> 8)
	case 5:
		return byte(size)
	case 6:
		return 0x80
	case 7:
		if s.hasDts() {
			return 0xc0
		}
		return 0x80
	case 8:
		if s.hasDts() {
			return 10
		}
		return 5
	}
	if k < 14 {
		if s.hasDts() {
			return tsByte(3, s.pts, k-9)
		}
		return tsByte(2, s.pts, k-9)
	}
	return tsByte(1, s.dts, k-14)
}

func (s *muxSink) Write(p []byte) (int, error) {
	vp.Assert(!s.failed, s.l("C01", "nothing is written after an error"))
	vp.Check(len(p) == 188, s.l("C01", "packets are 188 bytes"))
	vp.Assert(p[0] == 0x47, s.l("C01", "sync byte"))
	pid := int(p[1]&0x1f)<<8 | int(p[2])
	if s.video {
		vp.Assert(pid == 0x100, s.l("C01", "PID of the media"))
	} else {
		vp.Assert(pid == 0x101, s.l("C01", "PID of the media"))
	}
	vp.Assert(p[1]&0x80 == 0 && p[1]&0x20 == 0 && p[3]&0xc0 == 0, s.l("C01", "no error, priority or scrambling flags"))
	vp.Assert(p[1]&0x40 != 0 == (s.n == 0), s.l("C01", "payload unit start on exactly the first packet"))
	cc := p[3] & 0xf
	if s.video {
		vp.Assert(!s.seenV || cc == (s.ccV+1)&15, s.l("C02", "video continuity counter advances by one"))
		s.seenV, s.ccV = true, cc
	} else {
		vp.Assert(!s.seenA || cc == (s.ccA+1)&15, s.l("C02", "audio continuity counter advances by one"))
		s.seenA, s.ccA = true, cc
	}
	if s.n == s.failAt {
		s.failed = true
		return 0, errSink
	}
	vp.Check(p[3]&0x10 != 0, s.l("C01", "every packet carries payload"))
	start := 4
	pcr := false
	if p[3]&0x20 != 0 {
		af := int(p[4])
		vp.Check(af <= 182, s.l("C01", "adaptation field fits the packet"))
		start = 5 + af
		if af > 0 {
			pcr = p[5]&0x10 != 0
			vp.Assert(!pcr || af >= 7, s.l("C03", "the adaptation field holds the PCR it announces"))
			vp.Assert(p[5]&0xaf == 0 && (pcr || p[5] == 0), s.l("C01", "the adaptation field announces nothing but a PCR"))
			first := 6
			if pcr {
				first = 12
			}
			vp.Assert(vp.ForAll(first, start, func(i int) bool { return p[i] == 0xff }), s.l("C01", "the rest of the adaptation field is stuffing"))
		}
	}
	vp.Assert(pcr == (s.key && s.n == 0), s.l("C03", "PCR on the first packet of a key frame and no other"))
	if pcr {
		base := uint64(p[6])<<25 | uint64(p[7])<<17 | uint64(p[8])<<9 | uint64(p[9])<<1 | uint64(p[10]>>7)
		vp.Assert(base == uint64(s.dts)&(1<<33-1), s.l("C03", "PCR base equals the dts"))
		vp.Assert(p[10]&0x7e == 0x7e && p[10]&1 == 0 && p[11] == 0, s.l("C03", "PCR reserved bits and extension"))
	}
	if s.short() {
		// known finding: a second stuffing block follows the PCR field; the PES packet ends the packet
		start = 188 - (s.hdrLen() + len(s.pk.Media))
		vp.Check(start >= 12, s.l("C01", "the PES packet fits behind the PCR"))
	}
	h := s.hdrLen()
	left := h + len(s.pk.Media) - s.total
	vp.Check(188-start <= left, s.l("C01", "no more payload than the PES packet has"))
	vp.Assert(vp.ForAll(start, 188, func(i int) bool {
		k := s.total + i - start
		return k >= h || p[i] == s.hdrByte(k)
	}), s.l("C03", "PES header as specified"))
	vp.Assert(vp.ForAll(start, 188, func(i int) bool {
		k := s.total + i - start
		return k < h || p[i] == s.pk.Media[k-h]
	}), s.l("C01", "media bytes unchanged and in order behind one PES header"))
	s.total += 188 - start
	s.n++
	return len(p), nil
}

func inv_Muxer_Mux_0(muxer *Muxer, p *packet.Packet, w io.Writer, pesTotalLen, pesHeaderLen, headIndex, dataIndex int, firstPes bool) {
	s := w.(*muxSink)
	vp.Inv(pesHeaderLen >= 0 && headIndex >= 0 && headIndex+pesHeaderLen == s.hdrLen(), "header progress")
	vp.Inv(dataIndex >= 0 && dataIndex <= len(p.Media), "media progress")
	vp.Inv(pesTotalLen == pesHeaderLen+len(p.Media)-dataIndex, "remaining length")
	vp.Inv(s.total == headIndex+dataIndex, "bytes written so far")
	vp.Inv(firstPes == (s.n == 0), "first packet")
	vp.Inv(s.n >= 0 && s.n <= s.total, "packet count")
	vp.Inv(!firstPes || (headIndex == 0 && dataIndex == 0), "nothing written before the first packet")
	vp.Inv(firstPes || pesHeaderLen == 0, "the header fits the first packet")
	vp.Inv(firstPes || !s.short() || pesTotalLen == 0, "a short key frame is one packet")
	vp.Inv(!s.failed, "no failure so far")
	vp.Inv(muxer.videoCc <= 15 && muxer.audioCc <= 15, "counters are 4 bits")
	vp.Inv(!s.seenV || muxer.videoCc == s.ccV, "video counter state")
	vp.Inv(!s.seenA || muxer.audioCc == s.ccA, "audio counter state")
	vp.Decreases(pesTotalLen)
}

// the stuffing loop of the adaptation field
func inv_Pes_WriteStuff_0(src []byte, remainBytes byte, i int) {
	vp.Inv(i >= 2 && (src[0] < 1 || i <= int(src[0])+1), "index in range")
	vp.Inv(int(src[0]) == int(remainBytes)-1 && src[1] == 0, "length and flags")
	vp.Inv(vp.ForAll(2, i, func(k int) bool { return src[k] == 0xff }), "stuffing bytes")
	vp.Decreases(int(src[0]) + 1 - i)
}

func inv_lemma_mux_0(m *Muxer, s *muxSink, seenPat, seenPmt bool, ccPat, ccPmt byte) {
	vp.Inv(m.videoCc <= 15 && m.audioCc <= 15, "counters are 4 bits")
	vp.Inv(!s.seenV || m.videoCc == s.ccV, "video counter state")
	vp.Inv(!s.seenA || m.audioCc == s.ccA, "audio counter state")
	vp.Inv(m.patCc <= 16 && m.pmtCc <= 16, "table counters")
	vp.Inv(!seenPat || m.patCc == ccPat+1, "PAT counter state")
	vp.Inv(!seenPmt || m.pmtCc == ccPmt+1, "PMT counter state")
	vp.Inv(ccPat <= 15 && ccPmt <= 15, "seen counters are 4 bits")
	vp.Inv(!s.failed, "no failure so far")
}

// Every history of mux and table calls on one muxer.
// property: C01 C02 C03
// opt: merge=Muxer_Mux,Pes_GeneratePesHeader
// panics: C01
func lemma_mux() {
	m := NewMuxer()
	s := &muxSink{}
	var seenPat, seenPmt bool
	var ccPat, ccPmt byte
	for vp.More("ops") {
		switch vp.Range("op", 0, 3) {
		case 0:
			p := m.PAT()
			vp.Assert(!seenPat || p[3]&15 == (ccPat+1)&15, "C02: PAT continuity counter advances by one")
			seenPat, ccPat = true, p[3]&15
		case 1:
			var p []byte
			switch vp.Range("streams", 0, 3) {
			case 0:
				p = m.PMT()
			case 1:
				p = m.PMT(packet.PktVideo)
			case 2:
				p = m.PMT(packet.PktAudio)
			default:
				p = m.PMT(packet.PktVideo, packet.PktAudio)
			}
			vp.Assert(!seenPmt || p[3]&15 == (ccPmt+1)&15, "C02: PMT continuity counter advances by one")
			seenPmt, ccPmt = true, p[3]&15
		default:
			s.video = vp.Bool("video")
			s.key = s.video && vp.Bool("key")
			media := vp.Bytes("media")
			s.pts, s.dts = vp.I64("pts"), vp.I64("dts")
			if vp.Bool("same") {
				s.pts = s.dts
			}
			s.n, s.total = 0, 0
			s.failAt = vp.Range("failAt", -1, 1<<30)
			pk := &packet.Packet{Type: packet.PktAudio, Media: media}
			s.pk = pk
			if s.video {
				pk.Type = packet.PktVideo
				pk.Header = vhdr{key: s.key}
			}
			err := m.Mux(pk, s.dts, s.pts, s)
			if s.failed {
				vp.Assert(err != nil, "C01: the error of the output is returned")
				return
			}
			vp.Assert(err == nil, "C01: muxing succeeds")
			vp.Assert(s.total == s.hdrLen()+len(media), "C01: the whole PES packet is written")
		}
	}
}

// Other packet types are refused.
// property: C01
func lemma_mux_type() {
	m := NewMuxer()
	t := vp.Int("type")
	vp.Assume(t != packet.PktVideo && t != packet.PktAudio)
	w := &vp.FailWriter{FailAt: -1}
	err := m.Mux(&packet.Packet{Type: t, Media: vp.Bytes("media"), Header: vhdr{}}, vp.I64("dts"), vp.I64("pts"), w)
	vp.Assert(err != nil, "C01: a packet that is neither audio nor video is refused")
	vp.Assert(w.Calls == 0, "C01: a refused packet writes nothing")
}

// con_Muxer_Mux is the contract of Muxer.Mux: one PES packet with the media of the packet is written
// to the transport stream, or the output failed. lemma_mux_contract proves it of the body.
func con_Muxer_Mux(muxer *Muxer, p *packet.Packet, dts, pts int64, w io.Writer) error {
	vp.Check(muxer.videoCc <= 15 && muxer.audioCc <= 15, "the counters are 4 bits")
	muxer.videoCc, muxer.audioCc = vp.U8("videoCc")&15, vp.U8("audioCc")&15
	s, ok := w.(*muxSink)
	if !ok {
		w.Write(vp.Bytes("ts"))
		return nil
	}
	vp.Check(p.Type == packet.PktVideo || p.Type == packet.PktAudio, "the packet has a known type")
	vp.Check(s.pk == p && s.video == (p.Type == packet.PktVideo), s.l("C01", "the packet that is muxed"))
	vp.Check(!s.video || s.key == p.Header.(packet.VideoPacketHeader).IsKeyFrame(), s.l("C01", "its kind"))
	vp.Check(s.dts == dts && s.pts == pts, s.l("C01", "muxed with the current timestamps"))
	vp.Check(s.n == 0 && s.total == 0 && !s.failed, s.l("C01", "muxed once"))
	if s.failAt >= 0 && vp.Bool("fails") {
		s.n, s.total = vp.Range("n", 0, 1<<30), vp.Range("total", 0, 1<<30)
		s.failed = true
		return errSink
	}
	s.n = vp.Range("n", 1, 1<<30)
	s.total = s.hdrLen() + len(p.Media)
	return nil
}

// Muxing one packet after any history keeps the contract.
// property: C17
// opt: merge=Muxer_Mux,Pes_GeneratePesHeader
func lemma_mux_contract() {
	m := anyMuxer()
	s := &muxSink{prop: "C17", video: vp.Bool("video")}
	s.key = s.video && vp.Bool("key")
	s.pts, s.dts = vp.I64("pts"), vp.I64("dts")
	s.failAt = vp.Range("failAt", -1, 1<<30)
	s.pk = &packet.Packet{Type: packet.PktAudio, Media: vp.Bytes("media")}
	if s.video {
		s.pk.Type = packet.PktVideo
		s.pk.Header = vhdr{key: s.key}
	}
	err := m.Mux(s.pk, s.dts, s.pts, s)
	vp.Assert(m.videoCc <= 15 && m.audioCc <= 15, "C17: the counters are 4 bits")
	if s.failed {
		vp.Assert(err == errSink && s.failAt >= 0, "C17: the error of the output is returned")
		return
	}
	vp.Assert(err == nil && s.n > 0, "C17: a packet is written")
	vp.Assert(s.total == s.hdrLen()+len(s.pk.Media), "C17: the media are written as one PES packet")
}
