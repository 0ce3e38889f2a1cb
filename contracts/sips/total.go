package sips

import (
	"bufio"

	vp "github.com/moggle-mog/goav/zz_vp"
)

func inv_NewSIPRequest_0(uri string, pos int) {
	vp.Inv(0 <= pos && pos <= len(uri)+16, "the position is not before the text")
}

func inv_NewSIPUser_0(uri string, pos int) {
	vp.Inv(0 <= pos && pos <= len(uri)+16, "the position is not before the text")
}

func inv_NewSIPVia_0(uri string, pos int) {
	vp.Inv(0 <= pos && pos <= len(uri)+16, "the position is not before the text")
}

func inv_NewSIPCseq_0(uri string, pos int) {
	vp.Inv(0 <= pos && pos <= len(uri)+16, "the position is not before the text")
}

func inv_Args_ParseList_0() {}

func inv_ParseArgsPairs_0() {}

// lemma_sipany_args: any string parses as an argument list.
// property: C25
// panics: C25
func lemma_sipany_args() {
	s := vp.Str("text")
	switch vp.Range("as", 0, 2) {
	case 0:
		a := ParseArgsPairs(s)
		vp.Assert(a != nil, "C25: an argument list yields a result")
	case 1:
		a := ParseArgs(s)
		vp.Assert(a != nil, "C25: arguments yield a result")
	default:
		a := NewSIPAuth(s)
		vp.Assert(a != nil && a.Args != nil, "C25: an authorization yields a result")
	}
	vp.Cover("arguments")
}

// lemma_sipany_address: any string parses as a user, request URI, via and cseq.
// property: C25
// panics: C25
func lemma_sipany_address() {
	s := vp.Str("text")
	switch vp.Range("as", 0, 3) {
	case 0:
		vp.Assert(NewSIPUser(s) != nil, "C25: a user yields a result")
	case 1:
		vp.Assert(NewSIPRequest(s) != nil, "C25: a request URI yields a result")
	case 2:
		vp.Assert(NewSIPVia(s) != nil, "C25: a via yields a result")
	default:
		vp.Assert(NewSIPCseq(s) != nil, "C25: a cseq yields a result")
	}
	vp.Cover("address")
}

// con_NewSIPRequest is the contract of NewSIPRequest as far as the first line needs it.
func con_NewSIPRequest(uri string) *SIPRequest { return &SIPRequest{Src: uri} }

// hasPart: s has a first part of n bytes, that is n bytes other than a space and then a space.
func partOf(s []byte, at, n int) bool {
	return n >= 0 && at+n < len(s) && s[at+n] == ' ' && vp.ForAll(at, at+n, func(i int) bool { return s[i] != ' ' })
}

// firstLine is an arbitrary first line.
func firstLine() []byte {
	if vp.Native() && vp.Bool("formed") {
		a := []string{"SIP/2.0", "sip/2.0", "SIP/1.0", "INVITE", "PING", "ACK", "SIPPED", "Bye", "x", "", "SIP"}
		b := []string{"sip:a@b:1;c=d", "200", "x", "-7", "", " "}
		c := []string{"SIP/2.0", "sip/1.0", "OK", "SIP/2.1", "", " SIP/2.0"}
		return []byte(a[vp.Range("a", 0, 10)] + " " + b[vp.Range("b", 0, 5)] + " " + c[vp.Range("c", 0, 5)])
	}
	return vp.Bytes("line")
}

// lemma_sipany_first: any first line is parsed, or refused if it has less than three parts, an unknown method or an unknown version.
// property: C25
// panics: C25
// opt: use=NewSIPRequest
func lemma_sipany_first() {
	s := NewSIP()
	line := firstLine()
	before := vp.Snapshot(line)
	n, m := vp.Range("first part", 0, 1<<31), vp.Range("second part", 0, 1<<31)
	err := s.ParseFirstLine(line)
	vp.Assert(vp.Eq(line, before), "C25: the first line is left alone")
	if vp.Native() {
		n, m = 0, 0
		for n < len(line) && line[n] != ' ' {
			n++
		}
		for n+1+m < len(line) && line[n+1+m] != ' ' {
			m++
		}
		if err == nil {
			vp.Assert(partOf(line, 0, n) && partOf(line, n+1, m), "C25: a first line of less than three parts is refused")
		}
	}
	if err != nil {
		vp.Cover("refused")
		return
	}
	vp.Cover("parsed")
	if !partOf(line, 0, n) || !partOf(line, n+1, m) {
		return
	}
	first, last := string(line[:n]), string(line[n+m+2:])
	if n >= 3 && first[0] == 'S' && first[1] == 'I' && first[2] == 'P' {
		vp.Assert(s.IsResponse, "C25: a line that starts with the version is a response")
		vp.Assert(s.Version == SIPVersion1 || s.Version == SIPVersion2, "C25: a line of an unknown version is refused")
		if ASCII(first) {
			vp.Assert(Same(first, specVersion(s.Version)), "C25: a line of an unknown version is refused")
			vp.Cover("response")
		}
		vp.Assert(s.ResponseStatus == last, "C25: the reason of a response is the rest of its line")
		return
	}
	vp.Assert(!s.IsResponse && s.Request != nil, "C25: any other line is a request")
	vp.Assert(s.Method >= 1 && s.Method <= 15, "C25: a line of an unknown method is refused")
	vp.Assert(s.Version == SIPVersion1 || s.Version == SIPVersion2, "C25: a line of an unknown version is refused")
	if ASCII(first) {
		vp.Assert(Same(first, specMethods[s.Method-1]), "C25: a line of an unknown method is refused")
	}
	if ASCII(last) {
		vp.Assert(Same(last, specVersion(s.Version)), "C25: a line of an unknown version is refused")
		vp.Cover("request")
	}
}

// lemma_sipany_short: a first line of less than three parts is refused.
// property: C25
// panics: C25
// opt: use=NewSIPRequest
func lemma_sipany_short() {
	s := NewSIP()
	line := vp.Bytes("line")
	at := vp.Range("the only space", 0, len(line))
	vp.Assume(vp.ForAll(0, len(line), func(i int) bool { return i == at || line[i] != ' ' }))
	err := s.ParseFirstLine(line)
	vp.Assert(err != nil, "C25: a first line of less than three parts is refused")
	vp.Cover("short")
}

// lemma_sipany_header: any header line leaves the message usable.
// property: C25
// panics: C25
func lemma_sipany_header() {
	s := NewSIP()
	s.Headers = anyHeaders()
	s.lastHeaderParsed = vp.Str("last")
	s.ParseHeader(vp.Bytes("line"))
	vp.Assert(s.Headers != nil, "C25: there are headers")
	vp.Cover("header")
}

// The contracts of the parsers of header values: they are total.
func con_NewSIPUser(uri string) *SIPUser { return &SIPUser{Src: uri} }
func con_NewSIPVia(uri string) *SIPVia   { return &SIPVia{Src: uri} }
func con_NewSIPCseq(uri string) *SIPCseq { return &SIPCseq{Src: uri} }
func con_NewSIPAuth(src string) *SIPAuth { return &SIPAuth{Src: src} }

// con_SIPHeader_GetFirstHeader: any name has a value, if an empty one (C24).
func con_SIPHeader_GetFirstHeader(s SIPHeader, name string) string { return vp.Str("value") }

// lemma_sipany_fill: any headers yield the typed ones.
// property: C25
// panics: C25
// opt: use=NewSIPUser,NewSIPVia,NewSIPCseq,NewSIPAuth,SIPHeader_GetFirstHeader
func lemma_sipany_fill() {
	s := NewSIP()
	s.Headers = anyHeaders()
	s.fillHeader()
	vp.Assert(s.From != nil && s.To != nil && s.Contact != nil && s.Via != nil && s.Cseq != nil, "C25: the typed headers are there")
	vp.Assert(s.Headers.GetAuthorization() != nil, "C25: the authorization is there")
	vp.Cover("filled")
}

// con_SIP_Parse is the contract of Parse: a result or an error.
func con_SIP_Parse(s *SIP, r *bufio.Reader) error {
	vp.Check(s.Headers != nil, "C25: a message has headers to parse into")
	if vp.Bool("refused") {
		return vp.Opaque()
	}
	return nil
}

// lemma_sipany_bytes: any byte string parses to a message or an error.
// property: C25
// panics: C25
// opt: use=SIP_Parse
func lemma_sipany_bytes() {
	s := NewSIP()
	if s.ParseBytes(message()) == nil {
		vp.Cover("parsed")
	}
}
