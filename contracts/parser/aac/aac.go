package aac

import (
	"errors"

	"github.com/moggle-mog/goav/container/flv"
	vp "github.com/moggle-mog/goav/zz_vp"
)

var errSink = errors.New("sink")

// specRates are the sampling rates of ISO/IEC 14496-3, table 1.18.
var specRates = [13]int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}

// Cfg is the latest accepted configuration.
type Cfg struct {
	Have         bool
	Aot, Idx, Ch byte
}

// Holds is the representation of a configuration in the parser.
func Holds(p *Parser, c Cfg) bool {
	if p == nil {
		return !c.Have
	}
	if p.gotSpecific != c.Have || len(p.adtsHeader) != 7 || p.cfgInfo == nil {
		return false
	}
	if !c.Have {
		return true
	}
	return c.Aot < 32 && c.Idx < 15 && c.Ch < 16 && p.cfgInfo.objectType == c.Aot && p.cfgInfo.sampleRateIndex == c.Idx && p.cfgInfo.channel == c.Ch
}

// Any is an arbitrary parser and the configuration it has seen.
func Any() (*Parser, Cfg) {
	p := NewParser()
	p.gotSpecific = vp.Bool("aac.have")
	p.adtsHeader = vp.BytesN("aac.header", 7)
	p.cfgInfo.objectType, p.cfgInfo.sampleRateIndex, p.cfgInfo.channel = vp.U8("aac.aot"), vp.U8("aac.idx"), vp.U8("aac.ch")
	return p, Cfg{p.gotSpecific, p.cfgInfo.objectType, p.cfgInfo.sampleRateIndex, p.cfgInfo.channel}
}

// Rate is the sample rate of a configuration: 44100 without one, 0 for the reserved indices.
func Rate(c Cfg) int {
	if !c.Have {
		return 44100
	}
	if c.Idx >= 13 {
		return 0
	}
	return specRates[c.Idx]
}

// Config is the configuration in the sequence header b, and whether it is acceptable.
func Config(b []byte) (Cfg, bool) {
	if len(b) < 2 {
		return Cfg{}, false
	}
	i := b[0]&7<<1 | b[1]>>7
	return Cfg{true, b[0] >> 3, i, b[1] >> 3 & 15}, i != 15
}

// CheckConfig checks the outcome of parsing the sequence header b and returns the configuration then in force.
func CheckConfig(b []byte, err error, c Cfg, prop string) Cfg {
	n, ok := Config(b)
	if len(b) < 2 {
		vp.Assert(err != nil, prop+": a configuration that is too short is refused")
		return c
	}
	if !ok {
		vp.Assert(err != nil, prop+": an explicit sampling frequency is refused")
		return c
	}
	vp.Assert(err == nil, prop+": a configuration is accepted")
	return n
}

// CheckFrame checks the output h of a raw frame b under configuration c.
func CheckFrame(b, h []byte, c Cfg, prop string) {
	if len(b) > 8184 {
		return
	}
	vp.Check(len(h) == len(b)+7, prop+": a 7-byte header and the frame")
	vp.Assert(vp.Eq(h[7:], b), prop+": the frame is unchanged")
	vp.Assert(h[0] == 0xff && h[1] == 0xf1, prop+": syncword, MPEG-4, layer 0, no CRC")
	if c.Aot >= 1 && c.Aot <= 4 {
		vp.Assert(h[2]>>6 == c.Aot-1, prop+": profile")
	}
	vp.Assert(h[2]>>2&15 == c.Idx, prop+": sampling frequency index")
	if c.Ch < 8 {
		vp.Assert(h[2]&3 == c.Ch>>2 && h[3]>>6 == c.Ch&3, prop+": channel configuration")
	}
	vp.Assert(h[3]&0x3c == 0, prop+": original, home and copyright bits")
	n := int(h[3]&3)<<11 | int(h[4])<<3 | int(h[5])>>5
	vp.Assert(n == len(b)+7, prop+": frame length")
	vp.Assert(h[5]&0x1f == 0x1f && h[6] == 0xfc, prop+": buffer fullness and block count")
}

func inv_lemma_adts_0(p *Parser, c Cfg) {
	vp.Inv(Holds(p, c), "the latest accepted configuration is in force")
}

// Every history of sequence headers and raw frames.
// property: C13
// panics: C13
func lemma_adts() {
	p := NewParser()
	var c Cfg
	for vp.More("packets") {
		w := &vp.FailWriter{FailAt: -1, Err: errSink}
		if vp.Bool("failing") {
			w.FailAt = vp.Range("failAt", 0, 3)
		}
		b := vp.Bytes("data")
		b0 := vp.Snapshot(b)
		switch vp.Range("type", 0, 2) {
		case 0:
			err := p.Parse(b, flv.AacSeqHdr, w)
			vp.Assert(w.Calls == 0, "C13: a configuration writes nothing")
			c = CheckConfig(b0, err, c, "C13")
			r := Rate(c)
			vp.Assert(r == 0 || p.SampleRate() == r, "C13: the sample rate is the one of the configured index")
		case 1:
			err := p.Parse(b, flv.AacRaw, w)
			vp.Assert(w.After == 0, "C13: nothing is written after an error")
			if !c.Have || len(b0) == 0 {
				vp.Assert(err != nil && w.Calls == 0, "C13: a raw frame without a configuration is refused")
				continue
			}
			if w.Failed {
				vp.Assert(err == errSink, "C13: the error of the output is returned")
				continue
			}
			vp.Assert(err == nil, "C13: a raw frame is accepted")
			CheckFrame(b0, w.Data, c, "C13")
			vp.Assert(vp.Eq(b, b0), "C13: the packet is left unchanged")
		default:
			t := vp.U8("other")
			vp.Assume(t != flv.AacSeqHdr && t != flv.AacRaw)
			err := p.Parse(b, t, w)
			vp.Assert(err != nil && w.Calls == 0, "C13: other packet types are refused")
		}
	}
}

// The sample rate of every index of the standard, and the default.
// property: C13 C16
func lemma_rates() {
	p := NewParser()
	vp.Assert(p.SampleRate() == 44100, "C16: 44100 until a configuration says otherwise")
	p.cfgInfo.sampleRateIndex = vp.U8("index")
	p.gotSpecific = true
	vp.Assume(p.cfgInfo.sampleRateIndex < 13)
	vp.Assert(p.SampleRate() == specRates[p.cfgInfo.sampleRateIndex], "C13: the sample rate is the one of the configured index")
}
