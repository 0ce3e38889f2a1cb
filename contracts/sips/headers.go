package sips

import (
	"strings"

	vp "github.com/moggle-mog/goav/zz_vp"
)

// specCompact is the compact form of a header name (RFC 3261, section 20, and extensions).
func specCompact(long string) (string, bool) {
	switch long {
	case "accept-contact":
		return "a", true
	case "allow-events":
		return "u", true
	case "call-id":
		return "i", true
	case "contact":
		return "m", true
	case "content-encoding":
		return "e", true
	case "content-length":
		return "l", true
	case "content-type":
		return "c", true
	case "event":
		return "o", true
	case "from":
		return "f", true
	case "identity":
		return "y", true
	case "refer-to":
		return "r", true
	case "referred-by":
		return "b", true
	case "reject-contact":
		return "j", true
	case "request-disposition":
		return "d", true
	case "session-expires":
		return "x", true
	case "subject":
		return "s", true
	case "supported":
		return "k", true
	case "to":
		return "t", true
	case "via":
		return "v", true
	}
	return "", false
}

var specLong = [19]string{"accept-contact", "allow-events", "call-id", "contact", "content-encoding", "content-length", "content-type", "event", "from", "identity", "refer-to", "referred-by", "reject-contact", "request-disposition", "session-expires", "subject", "supported", "to", "via"}

// anyHeaders is an arbitrary set of headers.
func anyHeaders() SIPHeader {
	h := NewSIPHeader()
	vp.Any("headers", map[string][]string(h))
	if vp.Native() {
		for i := vp.Range("headers", 0, 5); i > 0; i-- {
			var k string
			switch j := vp.Range("header", 0, 21); {
			case j < 19:
				k = specLong[j]
				if vp.Bool("compact") {
					k, _ = specCompact(k)
				}
			default:
				k = vp.Str("name")
			}
			var v []string
			for n := vp.Range("values", 0, 2); n > 0; n-- {
				v = append(v, vp.Str("value"))
			}
			h[k] = v
		}
	}
	return h
}

// same: the two lists hold the same strings.
func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	if vp.Native() {
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	i := vp.Range("place", 0, 1<<31)
	return i >= len(a) || a[i] == b[i]
}

// checkLookup: the lookups of a name with spelling sp, whose headers are under low or else under compact.
func checkLookup(h SIPHeader, sp, low, compact string) {
	key := vp.Str("key")
	before, had := h[key]
	n := len(h)
	want := h[low]
	if len(want) == 0 && compact != "" {
		want = h[compact]
	}
	got := h.GetHeader(sp)
	vp.Assert(got != nil, "C24: a lookup yields a list, if an empty one")
	vp.Assert(same(got, want), "C24: a header is found under its name, or else under its compact name")
	first := h.GetFirstHeader(sp)
	if len(want) > 0 {
		vp.Assert(first == want[0], "C24: the first value of a header is found")
		vp.Cover("a header is found")
	} else {
		vp.Assert(first == "", "C24: an absent header yields an empty value")
		vp.Cover("a header is absent")
	}
	after, has := h[key]
	vp.Assert(has == had && same(after, before), "C24: a lookup leaves the message alone")
	vp.Assert(len(h) == n, "C24: a lookup leaves the message alone")
}

// lemma_sipheader_known: lookups of the names that have a compact form, in any letter case and any set of headers.
// property: C24
func lemma_sipheader_known() {
	h := anyHeaders()
	k := vp.Range("which", 0, 18)
	for i := 0; i < 19; i++ {
		if i == k {
			c, _ := specCompact(specLong[i])
			checkLookup(h, spell("spelling", specLong[i]), specLong[i], c)
			return
		}
	}
}

// lemma_sipheader_other: lookups of any other name, in any letter case and any set of headers.
// property: C24
func lemma_sipheader_other() {
	h := anyHeaders()
	sp := vp.Str("spelling")
	vp.Assume(ASCII(sp))
	for i := 0; i < 19; i++ {
		vp.Assume(!Same(sp, specLong[i]))
	}
	checkLookup(h, sp, strings.ToLower(sp), "")
}

// lemma_sipheader_compact: a header carried under its compact name only is found under its long name.
// property: C24
func lemma_sipheader_compact() {
	k := vp.Range("which", 0, 18)
	v, w := vp.Str("compact value"), vp.Str("long value")
	long := vp.Bool("both")
	for i := 0; i < 19; i++ {
		if i == k {
			c, ok := specCompact(specLong[i])
			vp.Assert(ok && len(c) == 1, "C24: (specification)")
			h := SIPHeader{c: []string{v}}
			want := v
			if long {
				h[specLong[i]] = []string{w}
				want = w
			}
			sp := spell("spelling", specLong[i])
			vp.Assert(h.GetFirstHeader(sp) == want, "C24: the compact name stands in for the long one, which wins")
			l := h.GetHeader(sp)
			vp.Assert(len(l) == 1 && l[0] == want, "C24: the compact name stands in for the long one, which wins")
			vp.Cover("compact")
		}
	}
}

// lemma_sipheader_set: what is set is found in every letter case, setting replaces, and other headers stay.
// property: C24
func lemma_sipheader_set() {
	h := anyHeaders()
	name := vp.Str("name")
	vp.Assume(ASCII(name))
	low := strings.ToLower(name)
	key := vp.Str("key")
	before, had := h[key]
	h.SetFirstHeader(name, vp.Str("old"))
	v := vp.Str("new")
	h.SetFirstHeader(spell("second", name), v)
	sp := spell("third", name)
	vp.Assert(h.GetFirstHeader(sp) == v, "C24: a header is found in every letter case")
	l := h.GetHeader(sp)
	vp.Assert(len(l) == 1 && l[0] == v, "C24: setting a header again replaces it")
	if key != low {
		after, has := h[key]
		vp.Assert(has == had && same(after, before), "C24: setting a header leaves the others alone")
	}
	vp.Cover("set")
}

// lemma_sipheader_nil: a message without headers yields nothing.
// property: C24
func lemma_sipheader_nil() {
	var h SIPHeader
	if vp.Bool("empty") {
		h = NewSIPHeader()
	}
	name := vp.Str("name")
	vp.Assert(h.GetFirstHeader(name) == "", "C24: an absent header yields an empty value")
	l := h.GetHeader(name)
	vp.Assert(l != nil && len(l) == 0, "C24: an absent header yields an empty list")
	vp.Assert(len(h) == 0, "C24: a lookup leaves the message alone")
	vp.Cover("nothing")
}
