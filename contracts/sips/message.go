package sips

import (
	"bufio"
	"bytes"
	"io/ioutil"
	"strconv"

	vp "github.com/moggle-mog/goav/zz_vp"
)

// wire is the stream the message is read from, and start is where the message starts.
var wire *vp.Stream
var start int

// seen and refused: a first line has been parsed, and refused.
var seen, refused bool

// con_SIP_ParseFirstLine is the contract of ParseFirstLine as far as Parse needs it.
func con_SIP_ParseFirstLine(s *SIP, line []byte) error {
	vp.Check(!seen, "C25: one line is parsed as the first line")
	seen = true
	if vp.Bool("first line refused") {
		refused = true
		return vp.Opaque()
	}
	return nil
}

// con_SIP_ParseHeader is the contract of ParseHeader: it needs headers to add to, and may change any of them.
func con_SIP_ParseHeader(s *SIP, line []byte) {
	vp.Check(seen, "C25: headers come behind the first line")
	vp.Check(s.Headers != nil, "C25: headers are parsed into a message that has some")
	vp.Any("headers", map[string][]string(s.Headers))
	s.lastHeaderParsed = vp.Str("last")
}

// con_SIP_fillHeader is the contract of fillHeader.
func con_SIP_fillHeader(s *SIP) {
	s.From, s.To, s.Contact = &SIPUser{}, &SIPUser{}, &SIPUser{}
	s.Cseq, s.Via = &SIPCseq{}, &SIPVia{}
}

func inv_SIP_Parse_0(countLines, offset int, buffer []byte, s *SIP) {
	vp.Inv(!refused, "the first line has not been refused")
	vp.Inv(0 <= countLines && countLines <= len(buffer) && seen == (countLines > 0) && seen == (len(buffer) > 0), "the first of the lines has been parsed as such")
	vp.Inv(start <= wire.Pos && wire.Pos <= len(wire.Data), "the position in the stream")
	vp.Inv(len(buffer) == wire.Pos-start && offset == len(buffer), "the lines read so far are kept")
	vp.Inv(vp.Eq(buffer, wire.Data[start:wire.Pos]), "the lines read so far are kept")
	vp.Inv(wire.Mark == wire.Pos, "only lines have been read so far")
}

func inv_SIP_fillBody_0(size int, body []byte, at_size int) {
	vp.Inv(wire.Mark <= wire.Pos && wire.Pos <= len(wire.Data), "the position in the stream")
	vp.Inv(len(body) == wire.Pos-wire.Mark && size == at_size-len(body), "the body read so far")
	vp.Inv(len(body) == 0 || len(body) <= at_size, "no more than the body has been read")
	vp.Inv(vp.Eq(body, wire.Data[wire.Mark:wire.Pos]), "the body read so far is what was sent")
}

// bodyLen is the length of the body of which size bytes are announced and there are left.
func bodyLen(size, left int) int {
	if size <= 0 {
		return 0
	}
	if size > left {
		return left
	}
	return size
}

// message is an arbitrary byte string, natively most of the time something like a message.
func message() []byte {
	if vp.Native() && vp.Range("formed", 0, 9) > 0 {
		f := []string{"INVITE sip:a@b SIP/2.0\r\n", "SIP/2.0 200 OK\r\n", "BYE x SIP/1.0\n", "PING sip:a\r\n", ""}
		m := f[vp.Range("first line", 0, 4)]
		for n := vp.Range("headers", 0, 3); n > 0; n-- {
			h := []string{"from: <sip:a@b:1>;tag=x\r\n", " more\r\n", "\tmore\n", "Via: SIP/2.0/UDP h:1\r\n", "CSeq: 1 INVITE\r\n", "x\r\n", ":\r\n", "Authorization: Digest a=\"b\", c=\"\r\n", "a: b\r\r\n", "to:\"x\" <sips:a\r\n", "contact: ;\"\r\n"}
			m += h[vp.Range("header", 0, 10)]
		}
		body := vp.Bytes("body")
		n := len(body) + vp.Range("off", -3, 3)
		if vp.Bool("odd length") {
			n = vp.Range("length", -5, 9000)
		}
		l := strconv.Itoa(n)
		switch vp.Range("length header", 0, 5) {
		case 0:
			m += "l: " + l + "\r\n"
		case 1:
			m += "CONTENT-Length:" + l + "\n"
		case 2:
			m += "content-length: " + l + "\r\ncontent-length: 0\r\n"
		case 3:
			m += "content-length: x" + l + "\r\n"
		default:
			m += "Content-Length: " + l + "\r\n"
		}
		switch vp.Range("blank line", 0, 3) {
		case 0:
			m += "\n"
		case 1:
			m += "\r\r\n"
		default:
			m += "\r\n"
		}
		return append([]byte(m), body...)
	}
	return vp.Bytes("message")
}

// lemma_sipmessage: any stream parses to a message or an error; the body of a message is
// what its content-length announces, and the bytes behind it stay in the stream.
// property: C26
// panics: C25
// opt: use=SIP_ParseFirstLine,SIP_ParseHeader,SIP_fillHeader
func lemma_sipmessage() {
	data := message()
	before := vp.Snapshot(data)
	wire = vp.NewStream(data)
	if vp.Bool("the stream breaks") {
		wire.End = vp.Opaque()
	}
	start = 0
	if !vp.Native() {
		start = vp.Range("start", 0, len(data))
		wire.Pos, wire.Mark = start, start
	}
	seen, refused = false, false
	r := bufio.NewReader(wire)
	s := NewSIP()
	err := s.Parse(r)
	if vp.Native() {
		if line := bytes.Trim(bytes.SplitN(data, []byte("\n"), 2)[0], "\r"); len(line) > 0 {
			seen, refused = true, NewSIP().ParseFirstLine(line) != nil
		}
	}
	vp.Assert(vp.Eq(data, before), "C26: the stream is left alone")
	if err != nil {
		vp.Cover("refused")
		return
	}
	size, e := s.Headers.GetContentLength()
	vp.Assert(e == nil, "C26: a missing or non-numeric content-length is an error")
	head, rest := s.LayerContents(), s.LayerPayload()
	mark, pos := wire.Mark, wire.Pos
	if vp.Native() {
		left, _ := ioutil.ReadAll(r)
		pos = len(data) - len(left)
		mark = lines(data)
	}
	vp.Assert(!refused, "C25: a message whose first line is refused is refused")
	vp.Assert(seen || len(head) == 0, "C25: the first line has been parsed as such")
	n := bodyLen(size, len(data)-mark)
	vp.Assert(pos == mark+n, "C26: the bytes behind the body stay in the stream")
	vp.Assert(len(head)+len(rest) == pos-start, "C26: the message is the bytes read from the stream")
	at := start + len(head)
	vp.Assert(at <= mark && vp.ForAll(at, mark, func(i int) bool { return data[i] == '\r' || data[i] == '\n' }), "C26: only the blank line is between the headers and the body")
	vp.Assert(at == mark || data[mark-1] == '\n' || mark == len(data), "C26: the blank line ends with a line feed")
	vp.Assert(len(rest) == mark-at+n, "C26: the body is what content-length announces, or what there is")
	vp.Assert(vp.Eq(head, data[start:at]), "C26: the headers are the bytes sent")
	vp.Assert(vp.Eq(rest, data[at:pos]), "C26: the body is the bytes sent")
	vp.Cover("parsed")
}

// lines is where the blank line behind the headers ends.
func lines(data []byte) int {
	p := 0
	for p < len(data) {
		q, blank := p, true
		for q < len(data) && data[q] != '\n' {
			blank = blank && data[q] == '\r'
			q++
		}
		if q < len(data) {
			q++
		}
		p = q
		if blank {
			break
		}
	}
	return p
}
