package sips

import (
	vp "github.com/moggle-mog/goav/zz_vp"
)

// plain: no delimiter of the SIP grammar.
func plain(s string) bool {
	return vp.ForAll(0, len(s), func(i int) bool {
		c := s[i]
		return c != ' ' && c != '"' && c != ':' && c != ';' && c != '<' && c != '>' && c != '@'
	})
}

// part is an arbitrary part of an address.
func part(n string) string {
	if vp.Native() {
		b := vp.Bytes(n)
		for i := range b {
			switch b[i] {
			case ' ', '"', ':', ';', '<', '>', '@':
				b[i] = '.'
			}
		}
		return string(b)
	}
	s := vp.Str(n)
	vp.Assume(plain(s))
	return s
}

// scheme is one of the schemes of a URI.
func scheme() string {
	switch vp.Range("scheme", 0, 2) {
	case 0:
		return "sip"
	case 1:
		return "sips"
	}
	return "tel"
}

// address is user@host and the port, if there is one.
func address(user, host, port string) string {
	if port != "" {
		return user + "@" + host + ":" + port
	}
	return user + "@" + host
}

// invAddress is what has been read of start ++ user@host:port after pos bytes.
func invAddress(pos, state, start int, user, host, port []byte, typ, c_typ, c_user, c_host, c_port string) {
	at := start
	hAt := at + len(c_user) + 1
	pAt := hAt + len(c_host) + 1
	switch state {
	case _FieldUser:
		vp.Inv(at <= pos && pos < hAt, "the user is being read")
		vp.Inv(len(user) == pos-at && len(host) == 0 && len(port) == 0, "the user is being read")
		vp.Inv(vp.Eq(user, []byte(c_user[:pos-at])), "the user as far as read")
	case _FieldHost:
		vp.Inv(hAt <= pos && pos < pAt, "the host is being read")
		vp.Inv(len(host) == pos-hAt && len(port) == 0, "the host is being read")
		vp.Inv(vp.Eq(user, []byte(c_user)), "the user has been read")
		vp.Inv(vp.Eq(host, []byte(c_host[:pos-hAt])), "the host as far as read")
	case _FieldPort:
		vp.Inv(len(c_port) > 0 && pAt <= pos && pos <= pAt+len(c_port), "the port is being read")
		vp.Inv(len(port) == pos-pAt, "the port is being read")
		vp.Inv(vp.Eq(user, []byte(c_user)), "the user has been read")
		vp.Inv(vp.Eq(host, []byte(c_host)), "the host has been read")
		vp.Inv(vp.Eq(port, []byte(c_port[:pos-pAt])), "the port as far as read")
	}
	vp.Inv(typ == c_typ, "the scheme has been read")
}

func inv_siprequest__NewSIPRequest_0(uri string, pos, state int, user, host, port []byte, sr *SIPRequest, c_typ, c_u, c_h, c_p string) {
	vp.Inv(state == _FieldBase || state == _FieldUser || state == _FieldHost || state == _FieldPort, "a state of the request parser")
	if state == _FieldBase {
		vp.Inv(pos == 0 && len(user) == 0 && len(host) == 0 && len(port) == 0, "nothing has been read")
		return
	}
	invAddress(pos, state, len(c_typ)+1, user, host, port, sr.URIType, c_typ, c_u, c_h, c_p)
}

// lemma_siprequest: a request URI survives printing and parsing.
// property: C27
func lemma_siprequest() {
	typ, u, h, p := scheme(), part("user"), part("host"), part("port")
	r := &SIPRequest{URIType: typ, User: u, Host: h, Port: p}
	text := r.String()
	vp.Assert(text == typ+":"+address(u, h, p), "C27: a request URI prints its parts in order, the port when it is set")
	got := NewSIPRequest(text)
	vp.Assert(got != nil && got.URIType == typ, "C27: the scheme of a request URI survives")
	vp.Assert(got.User == u && got.Host == h && got.Port == p, "C27: user, host and port of a request URI survive")
	vp.Assert(len(got.Args) == 0, "C27: a request URI without arguments parses to one without")
	vp.Cover("request")
}

func inv_sipuser__NewSIPUser_0(uri string, pos, state int, name, user, host, port []byte, su *SIPUser, c_typ, c_u, c_h, c_p string) {
	vp.Inv(state == _FieldBase || state == _FieldUser || state == _FieldHost || state == _FieldPort, "a state of the user parser")
	vp.Inv(len(name) == 0, "there is no display name")
	if state == _FieldBase {
		if pos < 2 {
			vp.Inv(0 <= pos && len(user) == 0 && len(host) == 0 && len(port) == 0 && su.URIType == "sip", "nothing has been read")
			return
		}
		vp.Inv(pos == len(uri), "the address has been read")
		vp.Inv(su.URIType == c_typ, "the scheme has been read")
		vp.Inv(len(user) == len(c_u) && vp.Eq(user, []byte(c_u)), "the user has been read")
		vp.Inv(len(host) == len(c_h) && vp.Eq(host, []byte(c_h)), "the host has been read")
		vp.Inv(len(port) == len(c_p) && vp.Eq(port, []byte(c_p)), "the port has been read")
		return
	}
	invAddress(pos, state, len(c_typ)+2, user, host, port, su.URIType, c_typ, c_u, c_h, c_p)
}

// lemma_sipuser: a user address survives printing and parsing.
// property: C27
func lemma_sipuser() {
	typ, u, h, p := scheme(), part("user"), part("host"), part("port")
	r := &SIPUser{URIType: typ, User: u, Host: h, Port: p}
	text := r.String()
	vp.Assert(text == "<"+typ+":"+address(u, h, p)+">", "C27: a user address prints its parts in order, the port when it is set")
	got := NewSIPUser(text)
	vp.Assert(got != nil && got.URIType == typ, "C27: the scheme of a user address survives")
	vp.Assert(got.User == u && got.Host == h && got.Port == p, "C27: user, host and port of a user address survive")
	vp.Assert(got.Name == "" && len(got.Args) == 0, "C27: a bare user address parses to one")
	vp.Cover("user")
}

// transport is one of the transports of a via.
func transport() string {
	switch vp.Range("transport", 0, 3) {
	case 0:
		return "UDP"
	case 1:
		return "TCP"
	case 2:
		return "TLS"
	}
	return "SCTP"
}

func inv_sipvia__NewSIPVia_0(uri string, pos, state int, host, port []byte, sv *SIPVia, c_tr, c_h, c_p string) {
	hAt := 8 + len(c_tr) + 1
	pAt := hAt + len(c_h) + 1
	vp.Inv(state == _FieldBase || state == _FieldHost || state == _FieldPort, "a state of the via parser")
	if state == _FieldBase {
		vp.Inv(pos == 0 && len(host) == 0 && len(port) == 0, "nothing has been read")
		return
	}
	vp.Inv(sv.Trans == c_tr, "the transport has been read")
	if state == _FieldHost {
		vp.Inv(hAt-1 <= pos && pos < pAt && len(port) == 0, "the host is being read")
		if pos == hAt-1 {
			vp.Inv(len(host) == 0, "the host is about to be read")
			return
		}
		vp.Inv(len(host) == pos-hAt, "the host is being read")
		vp.Inv(vp.Eq(host, []byte(c_h[:pos-hAt])), "the host as far as read")
		return
	}
	vp.Inv(len(c_p) > 0 && pAt <= pos && pos <= pAt+len(c_p), "the port is being read")
	vp.Inv(len(port) == pos-pAt, "the port is being read")
	vp.Inv(len(host) == len(c_h) && vp.Eq(host, []byte(c_h)), "the host has been read")
	vp.Inv(vp.Eq(port, []byte(c_p[:pos-pAt])), "the port as far as read")
}

// lemma_sipvia: a via survives printing and parsing.
// property: C27
func lemma_sipvia() {
	tr, h, p := transport(), part("host"), part("port")
	r := &SIPVia{Trans: tr, Host: h, Port: p}
	text := r.String()
	want := "SIP/2.0/" + tr + " " + h
	if p != "" {
		want += ":" + p
	}
	vp.Assert(text == want, "C27: a via prints its parts in order, the port when it is set")
	got := NewSIPVia(text)
	vp.Assert(got != nil && got.Trans == tr, "C27: the transport of a via survives")
	vp.Assert(got.Host == h && got.Port == p, "C27: host and port of a via survive")
	vp.Assert(len(got.Args) == 0, "C27: a via without arguments parses to one without")
	vp.Cover("via")
}

func inv_sipcseq__NewSIPCseq_0(uri string, pos, state int, id, method []byte, c_id, c_m string) {
	vp.Inv(state == _FieldID || state == _FieldMethod, "a state of the cseq parser")
	if state == _FieldID {
		vp.Inv(0 <= pos && pos <= len(c_id) && len(id) == pos && len(method) == 0, "the number is being read")
		vp.Inv(vp.Eq(id, []byte(c_id[:pos])), "the number as far as read")
		return
	}
	at := len(c_id) + 1
	vp.Inv(at <= pos && pos <= at+len(c_m) && len(method) == pos-at, "the method is being read")
	vp.Inv(len(id) == len(c_id) && vp.Eq(id, []byte(c_id)), "the number has been read")
	vp.Inv(vp.Eq(method, []byte(c_m[:pos-at])), "the method as far as read")
}

// lemma_sipcseq: a cseq survives printing and parsing.
// property: C27
func lemma_sipcseq() {
	id, m := part("number"), part("method")
	r := &SIPCseq{ID: id, Method: m}
	text := r.String()
	vp.Assert(text == id+" "+m, "C27: a cseq prints its number and its method")
	got := NewSIPCseq(text)
	vp.Assert(got != nil && got.ID == id && got.Method == m, "C27: number and method of a cseq survive")
	vp.Cover("cseq")
}
