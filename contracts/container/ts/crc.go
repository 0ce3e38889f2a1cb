package ts

import vp "github.com/moggle-mog/goav/zz_vp"

// crcBit shifts one bit of the CRC-32/MPEG-2 register (polynomial 0x04C11DB7, no reflection).
func crcBit(c uint32) uint32 {
	if c&0x80000000 != 0 {
		return c<<1 ^ 0x04C11DB7
	}
	return c << 1
}

// crcByte is the bit-by-bit definition of one step.
func crcByte(c uint32, b byte) uint32 {
	c ^= uint32(b) << 24
	for i := 0; i < 8; i++ {
		c = crcBit(c)
	}
	return c
}

// rec_crc is CRC-32/MPEG-2 of the first n bytes of p.
func rec_crc(p []byte, n int) uint32 {
	if n <= 0 {
		return 0xFFFFFFFF
	}
	return crcByte(rec_crc(p, n-1), p[n-1])
}

func inv_GenerateCrc32_0(src []byte, i int, crc32 uint32) {
	vp.Inv(i >= 0 && i <= len(src), "index in range")
	vp.Inv(crc32 == rec_crc(src, i), "register equals the CRC of the prefix")
	vp.Decreases(len(src) - i)
}

// The table-driven checksum equals the bitwise definition for every input.
// property: C05
func lemma_crc32() {
	p := vp.Bytes("src")
	c := GenerateCrc32(p)
	vp.Assert(c == rec_crc(p, len(p)), "C05: GenerateCrc32 equals the bitwise CRC-32/MPEG-2")
}
