package sips

import (
	vp "github.com/moggle-mog/goav/zz_vp"
)

// The names of RFC 3261 and its extensions, as the specification prints them.
var specMethods = [15]string{"INVITE", "ACK", "BYE", "CANCEL", "OPTIONS", "REGISTER", "PRACK", "SUBSCRIBE", "NOTIFY", "PUBLISH", "INFO", "REFER", "MESSAGE", "UPDATE", "PING"}

// Same: a and b are the same but for the case of their letters.
func Same(a, b string) bool {
	return len(a) == len(b) && vp.ForAll(0, len(a), func(i int) bool { return Lower(a[i]) == Lower(b[i]) })
}

// Lower is the lower-case form of an ASCII character.
func Lower(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		return c + 32
	}
	return c
}

// ASCII: only ASCII characters.
func ASCII(s string) bool {
	return vp.ForAll(0, len(s), func(i int) bool { return s[i] < 0x80 })
}

// spell is name in an arbitrary letter case.
func spell(n, name string) string {
	b := []byte(name)
	if vp.Native() {
		for i := range b {
			if vp.Bool(n) && Lower(b[i]) >= 'a' && Lower(b[i]) <= 'z' {
				b[i] ^= 32
			}
		}
		return string(b)
	}
	s := vp.Str(n)
	vp.Assume(len(s) == len(b))
	vp.Assume(vp.ForAll(0, len(b), func(i int) bool { return s[i] < 0x80 && Lower(s[i]) == Lower(b[i]) }))
	return s
}

// lemma_sipmethod: every method prints as its name and parses back from it in any letter case.
// property: C23
func lemma_sipmethod() {
	m := vp.Range("method", 1, 15)
	name := SIPMethod(m).String()
	for k := 1; k <= 15; k++ {
		if m == k {
			vp.Assert(name == specMethods[k-1], "C23: a method prints as its name")
			got, err := GetSIPMethod(spell("spelling", specMethods[k-1]))
			vp.Assert(err == nil && got == SIPMethod(k), "C23: a method parses back in any letter case")
			got, err = GetSIPMethod(name)
			vp.Assert(err == nil && got == SIPMethod(k), "C23: a method parses back from what it prints")
			vp.Cover("method parsed")
		}
	}
}

// lemma_sipunknown: only the known names are accepted.
// property: C23
func lemma_sipunknown() {
	s := vp.Str("text")
	vp.Assume(ASCII(s))
	m, err := GetSIPMethod(s)
	if err == nil {
		vp.Assert(m >= 1 && m <= 15, "C23: an accepted method is a known one")
		vp.Assert(Same(s, specMethods[m-1]), "C23: only the name of a method is accepted for it")
		vp.Cover("a method is accepted")
	}
	v, err := GetSIPVersion(s)
	if err == nil {
		vp.Assert(v == SIPVersion1 || v == SIPVersion2, "C23: an accepted version is a known one")
		vp.Assert(Same(s, specVersion(v)), "C23: only the name of a version is accepted for it")
		vp.Cover("a version is accepted")
	}
}

func specVersion(v SIPVersion) string {
	if v == SIPVersion1 {
		return "SIP/1.0"
	}
	return "SIP/2.0"
}

// lemma_sipversion: both versions print as their name and parse back from it in any letter case.
// property: C23
func lemma_sipversion() {
	v := SIPVersion1
	if vp.Bool("two") {
		v = SIPVersion2
	}
	vp.Assert(v.String() == specVersion(v), "C23: a version prints as its name")
	got, err := GetSIPVersion(spell("spelling", specVersion(v)))
	vp.Assert(err == nil && got == v, "C23: a version parses back in any letter case")
	got, err = GetSIPVersion(v.String())
	vp.Assert(err == nil && got == v, "C23: a version parses back from what it prints")
	vp.Cover("version parsed")
}

// specCodes are the status codes with a reason text.
var specCodes = [...]int{100, 180, 181, 182, 183, 200, 300, 301, 302, 305, 380, 400, 401, 402, 403, 404, 405, 406, 407, 408, 410, 413, 414, 415, 416, 420, 421, 423, 480, 481, 482, 483, 484, 485, 486, 487, 488, 491, 493, 500, 501, 502, 503, 504, 505, 513, 600, 603, 604, 606}

// lemma_sipstatus: a status code prints as its digits; known ones have a reason text.
// property: C23
func lemma_sipstatus() {
	c := vp.Range("code", 0, 999)
	s := SIPStatus(c).String()
	vp.Assert(SIPStatus(c).Int() == c, "C23: a status code is its number")
	switch {
	case c >= 100:
		vp.Assert(len(s) == 3 && s[0] == byte('0'+c/100) && s[1] == byte('0'+c/10%10) && s[2] == byte('0'+c%10), "C23: a status code prints as its decimal digits")
	case c >= 10:
		vp.Assert(len(s) == 2 && s[0] == byte('0'+c/10) && s[1] == byte('0'+c%10), "C23: a status code prints as its decimal digits")
	default:
		vp.Assert(len(s) == 1 && s[0] == byte('0'+c), "C23: a status code prints as its decimal digits")
	}
	known := false
	for _, k := range specCodes {
		known = known || c == k
	}
	if known {
		vp.Assert(len(SIPStatus(c).Text()) > 0, "C23: a known status code has a reason text")
		vp.Cover("known code")
	}
}
