package zz_vp

import (
	"encoding/binary"
	"io"
)

// Models of standard-library functions: M_<key> replaces the function named by the key
// when the verifier executes a call to it. They are Go code over the same field layout
// and never run natively, where the real functions do.

// gvBuffer mirrors bytes.Buffer.
type gvBuffer struct {
	buf      []byte
	off      int
	lastRead int8
}

func M_bytes_NewBuffer(buf []byte) *gvBuffer { return &gvBuffer{buf: buf} }

func M_bytes_NewBufferString(s string) *gvBuffer { return &gvBuffer{buf: []byte(s)} }

func M_bytes_Buffer_Write(b *gvBuffer, p []byte) (int, error) {
	b.lastRead = 0
	b.buf = append(b.buf, p...)
	return len(p), nil
}

func M_bytes_Buffer_WriteString(b *gvBuffer, s string) (int, error) {
	b.lastRead = 0
	b.buf = append(b.buf, s...)
	return len(s), nil
}

func M_bytes_Buffer_WriteByte(b *gvBuffer, c byte) error {
	b.lastRead = 0
	b.buf = append(b.buf, c)
	return nil
}

func M_bytes_Buffer_Bytes(b *gvBuffer) []byte { return b.buf[b.off:] }

func M_bytes_Buffer_String(b *gvBuffer) string {
	if b == nil {
		return "<nil>"
	}
	return string(b.buf[b.off:])
}

func M_bytes_Buffer_Len(b *gvBuffer) int { return len(b.buf) - b.off }

func M_bytes_Buffer_Reset(b *gvBuffer) {
	b.buf = []byte{}
	b.off = 0
	b.lastRead = 0
}

func M_bytes_Buffer_Read(b *gvBuffer, p []byte) (int, error) {
	b.lastRead = 0
	if len(b.buf) <= b.off {
		b.buf = []byte{}
		b.off = 0
		if len(p) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(p, b.buf[b.off:])
	b.off += n
	if n > 0 {
		b.lastRead = -1
	}
	return n, nil
}

func M_bytes_Buffer_ReadByte(b *gvBuffer) (byte, error) {
	if len(b.buf) <= b.off {
		b.buf = []byte{}
		b.off = 0
		b.lastRead = 0
		return 0, io.EOF
	}
	c := b.buf[b.off]
	b.off++
	b.lastRead = -1
	return c, nil
}

func M_bytes_Buffer_Next(b *gvBuffer, n int) []byte {
	b.lastRead = 0
	m := len(b.buf) - b.off
	if n > m {
		n = m
	}
	data := b.buf[b.off : b.off+n]
	b.off += n
	if n > 0 {
		b.lastRead = -1
	}
	return data
}

func M_bytes_Buffer_Truncate(b *gvBuffer, n int) {
	if n == 0 {
		b.buf = []byte{}
		b.off = 0
		b.lastRead = 0
		return
	}
	b.lastRead = 0
	if n < 0 || n > len(b.buf)-b.off {
		panic("bytes.Buffer: truncation out of range")
	}
	b.buf = b.buf[:b.off+n]
}

func M_bytes_Buffer_Grow(b *gvBuffer, n int) {
	if n < 0 {
		panic("bytes.Buffer.Grow: negative count")
	}
}

func M_bytes_Buffer_WriteTo(b *gvBuffer, w io.Writer) (int64, error) {
	b.lastRead = 0
	n := len(b.buf) - b.off
	if n > 0 {
		m, e := w.Write(b.buf[b.off:])
		if m > n {
			panic("bytes.Buffer.WriteTo: invalid Write count")
		}
		b.off += m
		if e != nil {
			return int64(m), e
		}
		if m != n {
			return int64(m), io.ErrShortWrite
		}
	}
	b.buf = []byte{}
	b.off = 0
	return int64(n), nil
}

// M_io_ReadFull trusts io.ReadFull to fill its argument from any conforming reader.
func M_io_ReadFull(r io.Reader, p []byte) (int, error) {
	if f, ok := r.(fullReader); ok {
		return f.ReadFull(p)
	}
	return io.ReadAtLeast(r, p, len(p))
}

func M_io_WriteString(w io.Writer, s string) (int, error) { return w.Write([]byte(s)) }

// M_encoding_binary_Read covers pointers to fixed-size numbers.
func M_encoding_binary_Read(r io.Reader, order binary.ByteOrder, data interface{}) error {
	var b [8]byte
	switch d := data.(type) {
	case *bool:
		if _, err := io.ReadFull(r, b[:1]); err != nil {
			return err
		}
		*d = b[0] != 0
	case *uint8:
		if _, err := io.ReadFull(r, b[:1]); err != nil {
			return err
		}
		*d = b[0]
	case *int8:
		if _, err := io.ReadFull(r, b[:1]); err != nil {
			return err
		}
		*d = int8(b[0])
	case *uint16:
		if _, err := io.ReadFull(r, b[:2]); err != nil {
			return err
		}
		*d = order.Uint16(b[:2])
	case *int16:
		if _, err := io.ReadFull(r, b[:2]); err != nil {
			return err
		}
		*d = int16(order.Uint16(b[:2]))
	case *uint32:
		if _, err := io.ReadFull(r, b[:4]); err != nil {
			return err
		}
		*d = order.Uint32(b[:4])
	case *int32:
		if _, err := io.ReadFull(r, b[:4]); err != nil {
			return err
		}
		*d = int32(order.Uint32(b[:4]))
	case *uint64:
		if _, err := io.ReadFull(r, b[:8]); err != nil {
			return err
		}
		*d = order.Uint64(b[:8])
	case *int64:
		if _, err := io.ReadFull(r, b[:8]); err != nil {
			return err
		}
		*d = int64(order.Uint64(b[:8]))
	case *float64:
		if _, err := io.ReadFull(r, b[:8]); err != nil {
			return err
		}
		*d = F64frombits(order.Uint64(b[:8]))
	default:
		Unmodelled("binary.Read of this type")
	}
	return nil
}

// M_encoding_binary_Write covers fixed-size numbers and byte slices.
func M_encoding_binary_Write(w io.Writer, order binary.ByteOrder, data interface{}) error {
	var b [8]byte
	var n int
	switch d := data.(type) {
	case bool:
		n = 1
		if d {
			b[0] = 1
		}
	case uint8:
		n = 1
		b[0] = d
	case int8:
		n = 1
		b[0] = byte(d)
	case uint16:
		n = 2
		order.PutUint16(b[:2], d)
	case int16:
		n = 2
		order.PutUint16(b[:2], uint16(d))
	case uint32:
		n = 4
		order.PutUint32(b[:4], d)
	case int32:
		n = 4
		order.PutUint32(b[:4], uint32(d))
	case uint64:
		n = 8
		order.PutUint64(b[:8], d)
	case int64:
		n = 8
		order.PutUint64(b[:8], uint64(d))
	case float64:
		n = 8
		order.PutUint64(b[:8], F64bits(d))
	case *float64:
		n = 8
		order.PutUint64(b[:8], F64bits(*d))
	case *uint16:
		n = 2
		order.PutUint16(b[:2], *d)
	case *uint32:
		n = 4
		order.PutUint32(b[:4], *d)
	case *uint64:
		n = 8
		order.PutUint64(b[:8], *d)
	default:
		Unmodelled("binary.Write of this type")
	}
	_, err := w.Write(b[:n])
	return err
}
