package zz_vp

import (
	"bufio"
	"bytes"
	"errors"
	"io"
	"strings"
)

// Assumed contracts of package strings, bytes, strconv and bufio, as far as package sips
// uses them.

func M_strings_ToUpper(s string) string { return FoldCase(s, true) }

func M_strings_ToLower(s string) string { return FoldCase(s, false) }

// M_strings_TrimSpace returns a part of s.
func M_strings_TrimSpace(s string) string {
	i := Range("trim.from", 0, len(s))
	j := Range("trim.to", i, len(s))
	return s[i:j]
}

func M_bytes_TrimSpace(s []byte) []byte {
	i := Range("trim.from", 0, len(s))
	j := Range("trim.to", i, len(s))
	if i == j {
		return nil
	}
	return s[i:j]
}

// M_strings_Index covers separators of one byte.
func M_strings_Index(s, sep string) int {
	if len(sep) != 1 {
		Unmodelled("strings.Index of a longer separator")
	}
	c := sep[0]
	if Bool("index.found") {
		i := Range("index", 0, len(s)-1)
		Assume(s[i] == c)
		Assume(ForAll(0, i, func(j int) bool { return s[j] != c }))
		return i
	}
	Assume(ForAll(0, len(s), func(j int) bool { return s[j] != c }))
	return -1
}

func M_bytes_Index(s, sep []byte) int {
	if len(sep) != 1 {
		Unmodelled("bytes.Index of a longer separator")
	}
	c := sep[0]
	if Bool("index.found") {
		i := Range("index", 0, len(s)-1)
		Assume(s[i] == c)
		Assume(ForAll(0, i, func(j int) bool { return s[j] != c }))
		return i
	}
	Assume(ForAll(0, len(s), func(j int) bool { return s[j] != c }))
	return -1
}

// M_strings_SplitN covers up to three parts.
func M_strings_SplitN(s, sep string, n int) []string {
	if n != 3 {
		Unmodelled("strings.SplitN into other than three parts")
	}
	i := strings.Index(s, sep)
	if i < 0 {
		return []string{s}
	}
	rest := s[i+len(sep):]
	j := strings.Index(rest, sep)
	if j < 0 {
		return []string{s[:i], rest}
	}
	return []string{s[:i], rest[:j], rest[j+len(sep):]}
}

func oneOf(c byte, set string) bool {
	switch len(set) {
	case 1:
		return c == set[0]
	case 2:
		return c == set[0] || c == set[1]
	}
	Unmodelled("a larger set of characters")
	return false
}

// M_bytes_Trim covers sets of one or two ASCII characters.
func M_bytes_Trim(s []byte, set string) []byte {
	i := Range("trim.from", 0, len(s))
	j := Range("trim.to", i, len(s))
	Assume(ForAll(0, i, func(k int) bool { return oneOf(s[k], set) }))
	Assume(ForAll(j, len(s), func(k int) bool { return oneOf(s[k], set) }))
	if i == j {
		return nil
	}
	Assume(!oneOf(s[i], set))
	Assume(!oneOf(s[j-1], set))
	return s[i:j]
}

var errAtoi = errors.New("not a decimal integer")

// M_strconv_Atoi returns a value and an error that depend on the content alone; anything
// but an optional sign and digits is an error.
func M_strconv_Atoi(s string) (int, error) {
	if len(s) == 0 {
		return 0, errAtoi
	}
	if !ForAll(0, len(s), func(i int) bool {
		return s[i] >= '0' && s[i] <= '9' || i == 0 && (s[0] == '+' || s[0] == '-')
	}) {
		return 0, errAtoi
	}
	id := StrID(s)
	if Apply("atoi.err", id) != 0 {
		return 0, errAtoi
	}
	n := int(Apply("atoi", id))
	if s[0] != '-' {
		Assume(n >= 0)
	} else {
		Assume(n <= 0)
	}
	return n, nil
}

func M_bytes_Buffer_WriteRune(b *gvBuffer, r rune) (int, error) {
	b.lastRead = 0
	if r >= 0 && r < 0x80 {
		b.buf = append(b.buf, byte(r))
		return 1, nil
	}
	n := Range("rune.width", 2, 4)
	b.buf = append(b.buf, BytesN("rune", n)...)
	return n, nil
}

// gvBufio mirrors bufio.Reader.
type gvBufio struct {
	buf          []byte
	rd           io.Reader
	r, w         int
	err          error
	lastByte     int
	lastRuneSize int
}

// bufioSize is the size of the buffer bufio.NewReader allocates.
const bufioSize = 4096

// M_bufio_NewReader covers readers over a Stream or over bytes. The buffer is not modelled:
// what the reader delivers comes straight from the stream, which is where a caller that
// only uses the bufio.Reader finds it.
func M_bufio_NewReader(rd io.Reader) *gvBufio {
	switch r := rd.(type) {
	case *Stream:
		return &gvBufio{rd: r}
	case *bytes.Reader:
		b := make([]byte, r.Len())
		r.Read(b)
		return &gvBufio{rd: NewStream(b)}
	}
	Unmodelled("bufio.NewReader of another reader")
	return nil
}

// M_bufio_Reader_ReadSlice returns the bytes up to the delimiter, all that are left if
// there is none, or a full buffer if the delimiter does not come within it.
func M_bufio_Reader_ReadSlice(b *gvBufio, delim byte) ([]byte, error) {
	s := b.rd.(*Stream)
	p := s.Pos
	m := len(s.Data) - p
	i := Range("slice", 0, m)
	Assume(ForAll(p, p+i, func(j int) bool { return s.Data[j] != delim }))
	var err error
	n := i + 1
	if i == m {
		n = m
		err = s.eof()
	} else {
		Assume(s.Data[p+i] == delim)
	}
	if i >= bufioSize {
		n = bufioSize
		err = bufio.ErrBufferFull
	}
	s.Pos = p + n
	s.Mark = s.Pos
	return s.Data[p : p+n], err
}

// M_bufio_Reader_Read returns some of the bytes that are left.
func M_bufio_Reader_Read(b *gvBufio, p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	s := b.rd.(*Stream)
	m := len(s.Data) - s.Pos
	if m == 0 {
		return 0, s.eof()
	}
	if m > len(p) {
		m = len(p)
	}
	n := Range("read", 1, m)
	copy(p[:n], s.Data[s.Pos:s.Pos+n])
	s.Pos += n
	return n, nil
}

// M_strconv_Itoa is exact for numbers of up to three digits.
func M_strconv_Itoa(n int) string {
	if n < 0 || n > 999 {
		return Str("itoa")
	}
	h, t, u := byte('0'+n/100), byte('0'+n/10%10), byte('0'+n%10)
	if n >= 100 {
		return string([]byte{h, t, u})
	}
	if n >= 10 {
		return string([]byte{t, u})
	}
	return string([]byte{u})
}
