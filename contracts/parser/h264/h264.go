package h264

import (
	"bytes"
	"errors"
	"io"

	vp "github.com/moggle-mog/goav/zz_vp"
)

var errSink = errors.New("sink")

func be32(b []byte, i int) int {
	return int(b[i])<<24 | int(b[i+1])<<16 | int(b[i+2])<<8 | int(b[i+3])
}

// unit tells whether a well-formed unit of a supported type starts at i.
func unit(s []byte, i int) bool {
	if len(s)-i < 4 {
		return false
	}
	n := be32(s, i)
	if n <= 0 || n > len(s)-i-4 {
		return false
	}
	switch s[i+4] & 31 {
	case 1, 5, 6, 7, 8, 9:
		return true
	}
	return false
}

func isSet(s []byte, i int) bool { return s[i+4]&31 == 7 || s[i+4]&31 == 8 }

// rec_ok: the units from i on are all well formed.
func rec_ok(s []byte, i int) bool {
	if i >= len(s) {
		return true
	}
	if !unit(s, i) {
		return false
	}
	return rec_ok(s, i+4+be32(s, i))
}

// scByte is byte k of a unit starting at i behind a start code.
func scByte(s []byte, i, k int) int {
	if k < 3 {
		return 0
	}
	if k == 3 {
		return 1
	}
	return int(s[i+k])
}

// rec_set is byte k of the parameter sets before the first IDR unit, given that the units before i
// make up n bytes of them; -1 if there is no such byte.
func rec_set(s []byte, i, n, k int) int {
	if i >= len(s) || !unit(s, i) || s[i+4]&31 == 5 {
		return -1
	}
	l := be32(s, i)
	if !isSet(s, i) {
		return rec_set(s, i+4+l, n, k)
	}
	if k < n+4+l {
		return scByte(s, i, k-n)
	}
	return rec_set(s, i+4+l, n+4+l, k)
}

// rec_out is byte k of the output, given that the units before i make up n bytes of it and m bytes
// of parameter sets, and whether an IDR unit was seen; j is the byte of the parameter sets looked at:
// -2 stands for another byte of them, -1 for the end.
func rec_out(s []byte, i, n, m int, idr bool, info []byte, k, j int) int {
	if i >= len(s) || !unit(s, i) {
		return -1
	}
	l := be32(s, i)
	switch s[i+4] & 31 {
	case 9:
		return rec_out(s, i+4+l, n, m, idr, info, k, j)
	case 7, 8:
		return rec_out(s, i+4+l, n, m+4+l, idr, info, k, j)
	case 5:
		if !idr {
			if m > 0 {
				if k < n+m {
					if k-n == j {
						return rec_set(s, 0, 0, j)
					}
					return -2
				}
				n += m
			} else {
				if k < n+len(info) {
					return int(info[k-n])
				}
				n += len(info)
			}
		}
		idr = true
	}
	if k < n+4+l {
		return scByte(s, i, k-n)
	}
	return rec_out(s, i+4+l, n+4+l, m, idr, info, k, j)
}

func rec_outLen(s []byte, i, n, m int, idr bool, info int) int {
	if i >= len(s) || !unit(s, i) {
		return n
	}
	l := be32(s, i)
	switch s[i+4] & 31 {
	case 9:
		return rec_outLen(s, i+4+l, n, m, idr, info)
	case 7, 8:
		return rec_outLen(s, i+4+l, n, m+4+l, idr, info)
	case 5:
		if !idr {
			if m > 0 {
				n += m
			} else {
				n += info
			}
		}
		idr = true
	}
	return rec_outLen(s, i+4+l, n+4+l, m, idr, info)
}

// G is what the current conversion is checked against: the parameter sets in force, the byte of the
// output looked at (an arbitrary one) and the byte of the parameter sets it may come from.
var G struct {
	Info []byte
	K, J int
}

// expect is the specification of byte K of the conversion of s.
func expect(s []byte) int { return rec_out(s, 0, 6, 0, false, G.Info, G.K, G.J) }

// written is what the output w has received.
func written(w io.Writer) []byte {
	switch o := w.(type) {
	case *vp.FailWriter:
		return o.Data
	case *bytes.Buffer:
		return o.Bytes()
	}
	return nil
}

func failed(w io.Writer) bool {
	o, ok := w.(*vp.FailWriter)
	return ok && o.Failed
}

// reference is the same specification, executable; it guides the native search only.
func reference(s, info []byte) (r []byte, at int, ps []byte) {
	at = -1
	var sets []byte
	r = append(r, 0, 0, 0, 1, 9, 0xf0)
	idr := false
	for i := 0; i < len(s); i += 4 + be32(s, i) {
		u := append([]byte{0, 0, 0, 1}, s[i+4:i+4+be32(s, i)]...)
		switch s[i+4] & 31 {
		case 9:
			continue
		case 7, 8:
			sets = append(sets, u...)
			continue
		case 5:
			if !idr {
				if sets == nil {
					sets = info
				}
				at, ps = len(r), sets
				r = append(r, sets...)
			}
			idr = true
		}
		r = append(r, u...)
	}
	return r, at, ps
}

func inv_Parser_getAnnexbH264_0(p *Parser, src []byte, w io.Writer, index, dataSize int, hasSpsPps, hasWriteSpsPps bool) {
	b := p.spsPps.Bytes()
	d := written(w)
	vp.Inv(index >= 0 && dataSize >= 0 && index+dataSize == len(src), "progress")
	vp.Inv(!failed(w), "no failure so far")
	vp.Inv(vp.Eq(p.specificInfo, G.Info), "the parameter sets of the sequence header are in force")
	vp.Inv(rec_ok(src, index) == rec_ok(src, 0), "the units so far are well formed")
	vp.Inv(len(d) >= 6 && d[0] == 0 && d[1] == 0 && d[2] == 0 && d[3] == 1 && d[4] == 9 && d[5] == 0xf0, "delimiter first")
	vp.Inv(hasSpsPps == (len(b) > 0), "parameter sets were seen")
	vp.Inv(rec_outLen(src, index, len(d), len(b), hasWriteSpsPps, len(G.Info)) == rec_outLen(src, 0, 6, 0, false, len(G.Info)), "length of the output")
	vp.Inv(G.K < len(d) || rec_out(src, index, len(d), len(b), hasWriteSpsPps, G.Info, G.K, G.J) == expect(src), "byte k to come")
	vp.Inv(G.K >= len(d) || G.K < 6 || expect(src) == -2 || int(d[G.K]) == expect(src), "byte k written")
	vp.Inv(hasWriteSpsPps || G.J < len(b) || rec_set(src, index, len(b), G.J) == rec_set(src, 0, 0, G.J), "parameter set byte j to come")
	vp.Inv(hasWriteSpsPps || G.J >= len(b) || int(b[G.J]) == rec_set(src, 0, 0, G.J), "parameter set byte j stored")
	vp.Decreases(dataSize)
}

// Info is the parameter sets of the sequence header in force.
func (p *Parser) Info() []byte {
	if p == nil {
		return nil
	}
	return p.specificInfo
}

// Any is an arbitrary parser and the parameter sets it has seen.
func Any() (*Parser, []byte) {
	p := &Parser{specificInfo: vp.Bytes("h264.info"), spsPps: bytes.NewBuffer(vp.Bytes("h264.sets"))}
	return p, vp.Snapshot(p.specificInfo)
}

// Valid is the invariant of a parser.
func Valid(p *Parser) bool { return p == nil || p.spsPps != nil }

// Input is an arbitrary packet body.
func Input() []byte {
	if vp.Native() && vp.Bool("wellformed") {
		var s []byte
		for i := vp.Range("units", 0, 5); i > 0; i-- {
			u := vp.Bytes("unit")
			if len(u) > 0 {
				u[0] = u[0]&0xe0 | []byte{1, 5, 5, 6, 7, 8, 9, 7}[vp.Range("kind", 0, 7)]
			}
			s = append(s, byte(len(u)>>24), byte(len(u)>>16), byte(len(u)>>8), byte(len(u)))
			s = append(s, u...)
		}
		return s
	}
	if vp.Native() && vp.Bool("record") {
		sps, pps := vp.Bytes("sps"), vp.Bytes("pps")
		s := []byte{1, 100, 0, 30, 0xff, 0xe1, byte(len(sps) >> 8), byte(len(sps))}
		s = append(s, sps...)
		s = append(s, 1, byte(len(pps)>>8), byte(len(pps)))
		s = append(s, pps...)
		return append(s, vp.Bytes("extra")...)
	}
	return vp.Bytes("data")
}

// Aim chooses the byte of the next conversion to look at.
func Aim(info []byte) {
	G.Info = info
	G.K = vp.Range("k", 0, 1<<40)
	G.J = vp.Range("j", 0, 1<<40)
}

// Header is the parameter sets of the sequence header s, nil if it is to be refused.
func Header(s []byte) []byte {
	if len(s) < 9 {
		return nil
	}
	n := int(s[6])<<8 | int(s[7])
	if n == 0 || len(s) < 8+n+4 {
		return nil
	}
	m := int(s[8+n+1])<<8 | int(s[8+n+2])
	if m == 0 || len(s) < 8+n+3+m {
		return nil
	}
	info := append([]byte{0, 0, 0, 1}, s[8:8+n]...)
	info = append(info, 0, 0, 0, 1)
	return append(info, s[8+n+3:8+n+3+m]...)
}

// CheckHeader checks the outcome of parsing the sequence header s and returns the parameter sets
// then in force; prop is the property.
func CheckHeader(s []byte, err error, info []byte, prop string) []byte {
	h := Header(s)
	if h == nil {
		vp.Assert(err != nil, prop+": a sequence header with a truncated or empty parameter set is refused")
		return info
	}
	vp.Check(err == nil, prop+": a well-formed sequence header is accepted")
	return h
}

// Good tells whether the parser accepts the access unit s.
func Good(s []byte) bool { return len(s) > 0 && (isAnnexB(s) || rec_ok(s, 0)) }

func isAnnexB(s []byte) bool { return len(s) >= 4 && be32(s, 0) == 1 }

// CheckUnit checks the output d of parsing the access unit s; sets is the property about parameter sets.
func CheckUnit(s []byte, err error, d []byte, prop, sets string) {
	if isAnnexB(s) {
		vp.Assert(err == nil && vp.Eq(d, s), prop+": data that starts with a start code is passed through")
		return
	}
	if !Good(s) {
		vp.Assert(err != nil, prop+": a malformed access unit is refused")
		return
	}
	vp.Check(err == nil, prop+": a well-formed access unit is accepted")
	vp.Check(len(d) == rec_outLen(s, 0, 6, 0, false, len(G.Info)), prop+": nothing is lost or added")
	vp.Check(len(d) >= 6 && vp.Eq(d[:6], []byte{0, 0, 0, 1, 9, 0xf0}), prop+": an access-unit delimiter comes first")
	if vp.Native() {
		r, at, ps := reference(s, G.Info)
		vp.Assert(vp.Eq(d, r), prop+": units unchanged and in order behind start codes")
		if sets != prop && at >= 0 && len(d) >= at && vp.Eq(d[:at], r[:at]) {
			vp.Assert(len(d) >= at+len(ps)+5 && vp.Eq(d[at:at+len(ps)+5], r[at:at+len(ps)+5]), sets+": parameter sets in force before the first IDR unit")
		}
		if sets != prop {
			vp.Assert(len(d) <= len(r), sets+": no other parameter sets are written")
		}
	}
	if G.K >= 6 && G.K < len(d) {
		e := expect(s)
		vp.Assert(e == -2 || int(d[G.K]) == e, prop+": units unchanged and in order behind start codes")
		if sets != prop {
			vp.Assert(e == -2 || int(d[G.K]) == e, sets+": parameter sets in force before the first IDR unit and only there")
		}
	}
}

func inv_lemma_avc_0(p *Parser, info []byte) {
	vp.Inv(vp.Eq(p.specificInfo, info), "the parameter sets of the latest accepted sequence header are in force")
}

// Every history of sequence headers and access units.
// property: C14 C15
// panics: C14
func lemma_avc() {
	p := NewParser()
	var info []byte
	for vp.More("packets") {
		w := &vp.FailWriter{FailAt: -1, Err: errSink}
		if vp.Bool("failing") {
			w.FailAt = vp.Range("failAt", 0, 1<<40)
			if vp.Native() {
				w.FailAt %= 16
			}
		}
		s := Input()
		s0 := vp.Snapshot(s)
		if vp.Bool("header") {
			err := p.Parse(s, true, w)
			vp.Assert(w.Calls == 0, "C15: a sequence header writes nothing")
			info = CheckHeader(s0, err, info, "C15")
			continue
		}
		Aim(info)
		err := p.Parse(s, false, w)
		vp.Assert(w.After == 0, "C14: nothing is written after an error")
		if w.Failed {
			vp.Assert(err == errSink, "C14: the error of the output is returned")
			continue
		}
		CheckUnit(s0, err, w.Data, "C14", "C15")
		vp.Assert(vp.Eq(s, s0), "C14: the packet is left unchanged")
	}
}
