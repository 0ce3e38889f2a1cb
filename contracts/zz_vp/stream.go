package zz_vp

import "io"

// Stream is a reader over Data that splits its reads in any way io.Reader allows.
type Stream struct {
	Data  []byte
	Pos   int
	Short bool  // a read found fewer bytes than it needs
	End   error // what the reader reports at the end of the data (nil: io.EOF)
	Mark  int   // where the latest line read through a bufio.Reader ended (symbolic runs only)
}

// NewStream starts at the first byte.
func NewStream(b []byte) *Stream { return &Stream{Data: b} }

// Rest is the number of bytes left.
func (s *Stream) Rest() int { return len(s.Data) - s.Pos }

func (s *Stream) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	m := len(s.Data) - s.Pos
	if m == 0 {
		s.Short = true
		return 0, s.eof()
	}
	if m > len(p) {
		m = len(p)
	}
	n := Range("read", 1, m)
	copy(p[:n], s.Data[s.Pos:s.Pos+n])
	s.Pos += n
	if s.Pos == len(s.Data) && Bool("eof") {
		if n < len(p) {
			s.Short = true
		}
		return n, s.eof()
	}
	return n, nil
}

// ReadErr is the error of a read at the end.
func (s *Stream) ReadErr() error { return s.eof() }

func (s *Stream) eof() error {
	if s.End != nil {
		return s.End
	}
	return io.EOF
}

// ReadFull is the contract of io.ReadFull over a Stream.
func (s *Stream) ReadFull(p []byte) (int, error) {
	m := len(s.Data) - s.Pos
	if m >= len(p) {
		copy(p, s.Data[s.Pos:s.Pos+len(p)])
		s.Pos += len(p)
		return len(p), nil
	}
	s.Short = true
	copy(p, s.Data[s.Pos:])
	s.Pos = len(s.Data)
	if s.End != nil {
		return m, s.End
	}
	if m == 0 {
		return 0, io.EOF
	}
	return m, io.ErrUnexpectedEOF
}

type fullReader interface {
	ReadFull(p []byte) (int, error)
}

// Value is an arbitrary value of a type the code does not look at.
type Value struct{ ID int }
