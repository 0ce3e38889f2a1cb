package ts

import (
	"bytes"

	"github.com/moggle-mog/goav/container/ts/table"
	"github.com/moggle-mog/goav/packet"
	vp "github.com/moggle-mog/goav/zz_vp"
)

// anyMuxer is a muxer after an arbitrary earlier use: the table counters are in the range
// that lemma_mux establishes, the packet buffers hold anything.
func anyMuxer() *Muxer {
	m := &Muxer{patCc: vp.U8("patCc"), pmtCc: vp.U8("pmtCc"), videoCc: vp.U8("videoCc"), audioCc: vp.U8("audioCc")}
	vp.Assume(m.patCc <= 16 && m.pmtCc <= 16 && m.videoCc <= 15 && m.audioCc <= 15)
	copy(m.sdt[:], vp.BytesN("sdt", 188))
	copy(m.pat[:], vp.BytesN("pat", 188))
	copy(m.pmt[:], vp.BytesN("pmt", 188))
	return m
}

// section checks the envelope of a one-packet section: packet header, section length,
// checksum and filling.
func section(p []byte, pid int, tableID byte, n int) {
	vp.Check(len(p) == 188, "C04: a table is one 188-byte packet")
	vp.Assert(p[0] == 0x47 && p[1]&0xe0 == 0x40 && p[3]&0xf0 == 0x10, "C04: payload-only packet that starts a section")
	vp.Assert(int(p[1]&0x1f)<<8|int(p[2]) == pid, "C04: PID of the table")
	vp.Assert(p[4] == 0, "C04: the section starts behind the pointer field")
	vp.Assert(p[5] == tableID, "C04: table id")
	vp.Assert(p[6]&0x80 != 0, "C04: section syntax indicator")
	vp.Check(int(p[6]&0x0f)<<8|int(p[7]) == n, "C04: the section length delimits the section")
	vp.Assert(p[10]&1 == 1 && p[11] == 0 && p[12] == 0, "C04: current, only section")
	end := 8 + n
	crc := uint32(p[end-4])<<24 | uint32(p[end-3])<<16 | uint32(p[end-2])<<8 | uint32(p[end-1])
	vp.Assert(crc == rec_crc(p[5:end-4], n-1), "C04: CRC of the section")
	vp.Assert(vp.ForAll(end, 188, func(i int) bool { return p[i] == 0xff }), "C04: the rest is 0xff")
}

func inv_Muxer_SDT_0(muxer *Muxer, i, j int) {
	vp.Modifies(muxer.sdt[i:])
	vp.Inv(j >= 0 && j <= 188-i, "index in range")
	vp.Inv(vp.ForAll(i, i+j, func(k int) bool { return muxer.sdt[k] == 0xff }), "filled so far")
	vp.Decreases(188 - i - j)
}

func inv_Muxer_PAT_0(muxer *Muxer, i, j int) {
	vp.Modifies(muxer.pat[i:])
	vp.Inv(j >= 0 && j <= 188-i, "index in range")
	vp.Inv(vp.ForAll(i, i+j, func(k int) bool { return muxer.pat[k] == 0xff }), "filled so far")
	vp.Decreases(188 - i - j)
}

// the stream loop of the PMT
func inv_Muxer_PMT_0(mediaType []int, pmt *table.Pmt, programInfo bytes.Buffer, rangeindex int) {
	vp.Modifies(pmt.PmtHeader[9:10])
	b := programInfo.Bytes()
	n := rangeindex + 1
	vp.Inv(n >= 0 && n <= len(mediaType), "index in range")
	vp.Inv(len(b) == 5*n, "five bytes per stream")
	vp.Inv(vp.ForAll(0, len(b), func(k int) bool { return b[k] == streamByte(mediaType[k/5], k%5) }), "streams so far")
	vp.Decreases(len(mediaType) - n)
}

func inv_Muxer_PMT_1(muxer *Muxer, i, j int) {
	vp.Modifies(muxer.pmt[i:])
	vp.Inv(j >= 0 && j <= 188-i, "index in range")
	vp.Inv(vp.ForAll(i, i+j, func(k int) bool { return muxer.pmt[k] == 0xff }), "filled so far")
	vp.Decreases(188 - i - j)
}

// streamByte is byte k of the PMT entry of a stream: its type, its PID, no descriptors.
func streamByte(t, k int) byte {
	switch k {
	case 0:
		if t == packet.PktVideo {
			return 0x1b
		}
		return 0x0f
	case 1:
		return 0xe1
	case 2:
		if t == packet.PktVideo {
			return 0x00
		}
		return 0x01
	case 3:
		return 0xf0
	}
	return 0
}

// property: C04
func lemma_sdt() {
	m := anyMuxer()
	d := vp.Bytes("desc")
	vp.Assume(len(d) <= 163)
	d0 := vp.Snapshot(d)
	p := m.SDT(bytes.NewBuffer(d))
	section(p, 0x11, 0x42, 17+len(d))
	vp.Assert(p[16] == 0 && p[17] == 1, "C04: the SDT describes service 1")
	vp.Assert(int(p[19]&0x0f)<<8|int(p[20]) == len(d0), "C04: descriptor loop length")
	vp.Assert(vp.Eq(p[21:21+len(d0)], d0), "C04: the SDT contains the descriptor unchanged")
}

// property: C04
func lemma_pat() {
	m := anyMuxer()
	p := m.PAT()
	section(p, 0, 0, 13)
	vp.Assert(p[13] == 0 && p[14] == 1, "C04: the PAT maps program 1")
	q := m.PMT()
	vp.Assert(p[13] == q[8] && p[14] == q[9], "C04: the PMT describes the program the PAT maps")
	vp.Assert(int(p[15]&0x1f)<<8|int(p[16]) == int(q[1]&0x1f)<<8|int(q[2]), "C04: the PAT maps it to the PID of the PMT")
}

func kindType(b byte) int {
	if b&1 == 0 {
		return packet.PktVideo
	}
	return packet.PktAudio
}

func inv_lemma_pmt_0(kinds []byte, types []int, i int) {
	vp.Inv(i >= 0 && i <= len(kinds) && len(types) == i, "index in range")
	vp.Inv(vp.ForAll(0, i, func(k int) bool { return types[k] == kindType(kinds[k]) }), "kinds so far")
	vp.Decreases(len(kinds) - i)
}

// property: C04
func lemma_pmt() {
	m := anyMuxer()
	kinds := vp.Bytes("kinds")
	vp.Assume(len(kinds) <= 33)
	types := []int{}
	for i := 0; i < len(kinds); i++ {
		types = append(types, kindType(kinds[i]))
	}
	p := m.PMT(types...)
	n := len(kinds)
	section(p, 0x1001, 2, 13+5*n)
	vp.Assert(p[8] == 0 && p[9] == 1, "C04: the PMT describes program 1")
	vp.Assert(p[15]&0x0f == 0 && p[16] == 0, "C04: no program descriptors")
	vp.Assert(vp.ForAll(17, 17+5*n, func(k int) bool { return p[k] == streamByte(kindType(kinds[(k-17)/5]), (k-17)%5) }), "C04: the PMT lists exactly the requested streams in order")
}
