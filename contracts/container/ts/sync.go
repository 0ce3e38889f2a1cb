package ts

import (
	"io"

	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/packet"
	vp "github.com/moggle-mog/goav/zz_vp"
)

// ahdr is an arbitrary audio packet header.
type ahdr struct {
	format, typ   uint8
	aac, mp3, seq bool
}

func (h ahdr) SoundFormat() uint8 { return h.format }
func (h ahdr) AACType() uint8     { return h.typ }
func (h ahdr) IsSoundAAC() bool   { return h.aac }
func (h ahdr) IsSoundMP3() bool   { return h.mp3 }
func (h ahdr) IsAACSeqHdr() bool  { return h.seq }

// specRates are the sampling rates of ISO/IEC 14496-3, table 1.18.
var specRates = [13]int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}

func within(a, b, d int64) bool { return b-d <= a && a <= b+d }

// Video timestamps follow the packet time and the composition offset.
// property: C06
func lemma_video_ts() {
	m := NewMixer(io.Discard)
	m.dts, m.pts = vp.I64("dts"), vp.I64("pts")
	ts, cts := vp.U32("ts"), vp.U32("cts")
	err := m.Update(&packet.Packet{Type: packet.PktVideo}, ts, cts)
	vp.Assert(err == nil, "C06: video is accepted")
	vp.Assert(m.dts == 90*int64(ts), "C06: the dts is 90 times the packet time")
	vp.Assert(m.pts == m.dts+90*int64(cts), "C06: the pts exceeds the dts by 90 times the offset")
}

// Audio before any audio codec is known is refused.
// property: C06
func lemma_audio_unknown() {
	m := NewMixer(io.Discard)
	err := m.Update(&packet.Packet{Type: packet.PktAudio}, vp.U32("ts"), vp.U32("cts"))
	vp.Assert(err != nil, "C06: audio without a codec is refused")
}

func inv_audioHistory_0(m *Mixer, inc int64, have bool, last, lastPkt int64) {
	s := m.sync
	vp.Inv(have == (s.frameNum > 0), "some audio was seen")
	vp.Inv(have || (s.frameNum == 0 && s.frameDts == 0), "initial state")
	vp.Inv(lastPkt >= 0 && lastPkt < 90<<32, "packet time in range")
	vp.Inv(!have || within(last, lastPkt, 900), "the last timestamp was close to its packet")
	vp.Inv(!have || last == s.frameDts+(s.frameNum-1)*inc, "the grid of timestamps")
	vp.Inv(s.frameDts >= 0 && s.frameDts < 90<<32, "base in range")
	vp.Inv(s.frameNum >= 0 && s.frameNum < 1<<33, "frame count in range")
}

// audioHistory plays any interleaving of audio and video through a mixer that knows the rate.
func audioHistory(m *Mixer, inc int64) {
	have := false
	var last, lastPkt int64
	for vp.More("packets") {
		ts, cts := vp.U32("ts"), vp.U32("cts")
		if vp.Native() && have && vp.Bool("near") {
			ts = uint32(lastPkt/90) + vp.U32("delta")%40
		}
		d := 90 * int64(ts)
		if vp.Bool("video") {
			err := m.Update(&packet.Packet{Type: packet.PktVideo}, ts, cts)
			vp.Assert(err == nil && m.dts == d && m.pts == d+90*int64(cts), "C06: video timestamps within a stream")
			continue
		}
		err := m.Update(&packet.Packet{Type: packet.PktAudio}, ts, cts)
		vp.Check(err == nil, "C06: audio is accepted once the codec is known")
		vp.Assert(m.pts == m.dts, "C06: audio is presented when it is decoded")
		vp.Check(within(m.dts, d, 900), "C06: the audio timestamp is within 10 ms of the packet time")
		if have {
			next := last + inc
			if within(next, d, 900) {
				vp.Check(m.dts == next, "C06: consecutive audio timestamps are one frame apart")
			} else {
				vp.Check(m.dts == d, "C06: after a jump the audio restarts from the packet time")
			}
		}
		have, last, lastPkt = true, m.dts, d
	}
}

// Audio timestamps, for every sampling rate of the standard.
// property: C06
func lemma_audio_ts() {
	m := NewMixer(io.Discard)
	idx := vp.Range("rate", 0, 12)
	for k := 0; k < 13; k++ {
		if k != idx {
			continue
		}
		cfg := []byte{byte(2<<3 | k>>1), byte(k<<7 | 2<<3)}
		p := &packet.Packet{Type: packet.PktAudio, Media: cfg, Header: ahdr{aac: true, typ: flv.AacSeqHdr, seq: true}}
		vp.Check(m.parser.Parse(p, io.Discard) == nil, "C06: the sequence header is accepted")
		audioHistory(m, int64(90000*1024/specRates[k]))
		return
	}
}
