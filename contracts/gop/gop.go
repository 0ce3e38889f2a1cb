package gop

import (
	"errors"

	"github.com/moggle-mog/goav/packet"
	vp "github.com/moggle-mog/goav/zz_vp"
)

var errSink = errors.New("sink")

type vhdr struct {
	key, inter, seq, eos, avc bool
	codec                     uint8
	ct                        int32
}

func (h vhdr) IsKeyFrame() bool       { return h.key }
func (h vhdr) IsInterFrame() bool     { return h.inter }
func (h vhdr) IsSeqHdr() bool         { return h.seq }
func (h vhdr) IsEndOfSeq() bool       { return h.eos }
func (h vhdr) IsCodecAvc() bool       { return h.avc }
func (h vhdr) CodecID() uint8         { return h.codec }
func (h vhdr) CompositionTime() int32 { return h.ct }

type ahdr struct {
	format, typ   uint8
	aac, mp3, seq bool
}

func (h ahdr) SoundFormat() uint8 { return h.format }
func (h ahdr) AACType() uint8     { return h.typ }
func (h ahdr) IsSoundAAC() bool   { return h.aac }
func (h ahdr) IsSoundMP3() bool   { return h.mp3 }
func (h ahdr) IsAACSeqHdr() bool  { return h.seq }

// ---- one group ----

// anyArray is a group after any history of writes.
func anyArray(name string) *array {
	n := vp.Range(name+".len", 1, 1024)
	a := &array{packets: make([]*packet.Packet, n)}
	vp.Any(name, a.packets)
	return a
}

// holdsArray is the representation of a group: at most 1024 packets.
func holdsArray(a *array) bool { return len(a.packets) <= 1024 }

func copyPackets(p []*packet.Packet) []*packet.Packet {
	return append([]*packet.Packet(nil), p...)
}

// appended tells whether b is a followed by p.
func appended(b, a []*packet.Packet, p *packet.Packet) bool {
	return len(b) == len(a)+1 && b[len(a)] == p && vp.ForAll(0, len(a), func(k int) bool { return b[k] == a[k] })
}

func same(b, a []*packet.Packet) bool {
	return len(b) == len(a) && vp.ForAll(0, len(a), func(k int) bool { return b[k] == a[k] })
}

// Writing to a group appends, and refuses the packet after the 1024th.
// property: C11 C12
// panics: C12
func lemma_array() {
	if vp.Native() {
		return
	}
	a := anyArray("packets")
	if vp.Bool("empty") {
		a = newArray()
		vp.Assert(len(a.packets) == 0, "C12: a new group is empty")
	}
	old := copyPackets(a.packets)
	p := &packet.Packet{}
	err := a.write(p)
	if len(old) >= 1024 {
		vp.Assert(err != nil && same(a.packets, old), "C12: the packet after the 1024th is refused and the others are kept")
	} else {
		vp.Assert(err == nil && appended(a.packets, old, p), "C11: a packet is appended to its group")
	}
	vp.Assert(holdsArray(a), "C12: a group holds at most 1024 packets")
	a.reset()
	vp.Assert(len(a.packets) == 0, "C11: a group is reset")
}

// packetSink receives the packets of one group.
type packetSink struct {
	want      []*packet.Packet
	n, failAt int
	failed    bool
}

func (s *packetSink) Write(p *packet.Packet) error {
	vp.Assert(!s.failed, "C11: an error stops the replay")
	vp.Check(s.n < len(s.want), "C11: no more packets than cached")
	vp.Assert(p == s.want[s.n], "C11: the packets of a group in the order written")
	if s.n == s.failAt {
		s.failed = true
		return errSink
	}
	s.n++
	return nil
}

func inv_array_sendTo_0(a *array, w packet.Writer, i, l int) {
	s := w.(*packetSink)
	vp.Inv(i >= 0 && i <= l && l == len(a.packets), "index in range")
	vp.Inv(s.n == i && !s.failed, "packets sent so far")
	vp.Decreases(l - i)
}

// A group is sent in the order written.
// property: C11
func lemma_array_send() {
	if vp.Native() {
		return
	}
	a := anyArray("packets")
	s := &packetSink{want: copyPackets(a.packets), failAt: vp.Range("failAt", -1, 2000)}
	err := a.sendTo(s)
	if s.failed {
		vp.Assert(err == errSink, "C11: the error of the receiver is returned")
	} else {
		vp.Assert(err == nil && s.n == len(s.want), "C11: the whole group is sent")
	}
	vp.Assert(same(a.packets, s.want), "C11: sending does not change a group")
}

// ---- the ring of groups ----

// slot is the place of the i-th oldest group.
func slot(g *gopCache, i int) int {
	if g.len < g.cap {
		return i
	}
	if g.index+1+i < g.cap {
		return g.index + 1 + i
	}
	return g.index + 1 + i - g.cap
}

// ring is the representation of the groups: the slots in use are those below len; the newest is at index.
func ring(g *gopCache) bool {
	if g.cap < 0 || len(g.gops) != g.cap || g.len < 0 || g.len > g.cap {
		return false
	}
	if g.len < g.cap && g.index != g.len-1 {
		return false
	}
	return g.len == 0 && g.index == -1 || g.len > 0 && g.index >= 0 && g.index < g.len
}

func used(g *gopCache) bool {
	return vp.ForAll(0, g.cap, func(k int) bool { return (g.gops[k] != nil) == (k < g.len) })
}

// state is an arbitrary represented ring; cur and next are the newest group and the one the next key frame replaces.
func state() (g *gopCache, cur, next *array) {
	n := vp.Range("groups", 0, 1<<20)
	g = &gopCache{cap: n, len: vp.Range("len", 0, 1<<20), index: vp.Range("index", -1, 1<<20), gops: make([]*array, n)}
	vp.Any("gops", g.gops)
	vp.Assume(ring(g))
	vp.Assume(used(g))
	if g.len > 0 {
		cur = anyArray("cur")
		g.gops[g.index] = cur
		if g.len == g.cap {
			next = cur
			if g.cap > 1 {
				next = anyArray("next")
				g.gops[slot(g, 0)] = next
			}
		}
	}
	return
}

// Writing to the ring after any history.
// property: C11 C12
// panics: C12
func lemma_ring() {
	if vp.Native() {
		replays()
		return
	}
	n := vp.Range("new", 0, 1<<20)
	e := newGopCache(n)
	vp.Assert(ring(e) && used(e) && e.cap == n && e.len == 0, "C12: a new cache holds no group")
	g, cur, next := state()
	old := *g
	old.gops = append([]*array(nil), g.gops...)
	var curOld, nextOld []*packet.Packet
	if cur != nil {
		curOld = copyPackets(cur.packets)
	}
	if next != nil {
		nextOld = copyPackets(next.packets)
	}
	p := &packet.Packet{}
	create := vp.Bool("key")
	err := g.Write(p, create)
	vp.Assert(ring(g), "C12: never more than the configured number of groups")
	vp.Assert(used(g), "C12: the groups in use are there")
	vp.Assert(g.cap == old.cap, "C12: the configured number stays")
	if g.cap == 0 {
		vp.Assert(g.len == 0, "C12: a cache with zero groups stores no frames")
		return
	}
	if !create {
		vp.Assert(g.len == old.len && g.index == old.index, "C11: an inter frame starts no group")
		vp.Assert(vp.ForAll(0, g.cap, func(k int) bool { return g.gops[k] == old.gops[k] }), "C11: an inter frame keeps the groups")
		if old.len == 0 {
			vp.Assert(err != nil, "C12: an inter frame before any key frame is refused")
			return
		}
		if next != nil && next != cur {
			vp.Assert(same(next.packets, nextOld), "C11: an inter frame joins the newest group only")
		}
		if len(curOld) >= 1024 {
			vp.Assert(err != nil && same(cur.packets, curOld), "C12: the packet after the 1024th is refused and the others are kept")
		} else {
			vp.Assert(err == nil && appended(cur.packets, curOld, p), "C11: an inter frame joins the newest group")
		}
		return
	}
	vp.Assert(err == nil, "C11: a key frame is accepted")
	drop := 0
	if old.len == old.cap {
		drop = 1
	}
	vp.Check(g.len == old.len+1-drop, "C11: the most recent groups are kept")
	vp.Assert(g.index == slot(g, g.len-1), "C11: the new group is the newest")
	vp.Assert(vp.ForAll(0, g.len-1, func(i int) bool {
		return slot(g, i) == slot(&old, i+drop) && g.gops[slot(g, i)] == old.gops[slot(&old, i+drop)]
	}), "C11: the older groups keep their order")
	a := g.gops[g.index]
	if drop == 0 {
		vp.Assert(vp.ForAll(0, old.cap, func(k int) bool { return old.gops[k] != a }), "C11: a key frame gets a group that is not in use")
	}
	vp.Assert(len(a.packets) == 1 && a.packets[0] == p, "C11: a key frame starts a group of its own")
	if cur != nil && g.cap > 1 {
		vp.Assert(same(cur.packets, curOld), "C11: the other groups are unchanged")
	}
}

// ringSink receives whole groups (through the contract of array.sendTo) or packets (in concrete runs).
type ringSink struct {
	g         *gopCache
	n, failAt int
	failed    bool
}

func (s *ringSink) Write(p *packet.Packet) error { return nil }

// con_array_sendTo is the contract of array.sendTo (lemma_array_send): the packets of the group are
// written in order, or the receiver failed.
func con_array_sendTo(a *array, w packet.Writer) error {
	s := w.(*ringSink)
	vp.Assert(!s.failed, "C11: an error stops the replay")
	vp.Check(s.n < s.g.len, "C11: no more groups than cached")
	vp.Assert(a == s.g.gops[slot(s.g, s.n)], "C11: the oldest group first")
	if s.n == s.failAt {
		s.failed = true
		return errSink
	}
	s.n++
	return nil
}

func inv_gopCache_SendTo_0(g *gopCache, w packet.Writer, i, baseIndex int) {
	s := w.(*ringSink)
	vp.Inv(i >= 0 && i <= g.len, "index in range")
	vp.Inv(s.n == i && !s.failed, "groups sent so far")
	vp.Inv(baseIndex >= 0 && baseIndex < g.len && baseIndex == slot(g, 0), "the oldest group")
	vp.Decreases(g.len - i)
}

// Replaying the ring sends every group, oldest first.
// property: C11
// opt: use=array_sendTo
func lemma_ring_send() {
	if vp.Native() {
		return
	}
	g, _, _ := state()
	old := *g
	handles := append([]*array(nil), g.gops...)
	s := &ringSink{g: g, failAt: vp.Range("failAt", -1, 1<<20)}
	err := g.SendTo(s)
	if s.failed {
		vp.Assert(err == errSink, "C11: the error of the receiver is returned")
	} else {
		vp.Assert(err == nil && s.n == g.len, "C11: all groups are sent")
	}
	vp.Assert(g.len == old.len && g.index == old.index && g.cap == old.cap, "C11: replaying does not change the cache")
	vp.Assert(vp.ForAll(0, g.cap, func(k int) bool { return g.gops[k] == handles[k] }), "C11: replaying keeps the groups")
}

// ---- the cache ----

// ghost records the calls of the ring made by the cache.
var ghost struct {
	calls  int
	p      *packet.Packet
	key    bool
	g      *gopCache
	refuse bool
}

// con_gopCache_Write is the contract of gopCache.Write towards the cache: the packet joins the
// ring or is refused (lemma_ring says when).
func con_gopCache_Write(g *gopCache, p *packet.Packet, create bool) error {
	ghost.calls++
	ghost.g, ghost.p, ghost.key = g, p, create
	if ghost.refuse {
		return errSink
	}
	return nil
}

// con_gopCache_SendTo is the contract of gopCache.SendTo (lemma_ring_send).
func con_gopCache_SendTo(g *gopCache, w packet.Writer) error {
	s := w.(*cacheSink)
	vp.Assert(!s.failed, "C11: an error stops the replay")
	vp.Assert(g == s.c.Gop && s.n == len(s.want), "C11: the groups follow the headers")
	s.ring++
	if s.failAt == s.n {
		s.failed = true
		return errSink
	}
	return nil
}

// cacheSink receives the replay: the headers, then the ring.
type cacheSink struct {
	c         *Cache
	want      []*packet.Packet
	n, failAt int
	ring      int
	failed    bool
}

func (s *cacheSink) Write(p *packet.Packet) error {
	vp.Assert(!s.failed, "C11: an error stops the replay")
	vp.Check(s.n < len(s.want), "C11: each header at most once")
	vp.Assert(p == s.want[s.n], "C11: the latest metadata, video and audio sequence headers in this order")
	if s.failAt == s.n {
		s.failed = true
		return errSink
	}
	s.n++
	return nil
}

func anyFrame(n string) *packet.Packet {
	if vp.Bool(n) {
		return &packet.Packet{}
	}
	return nil
}

// Writing any packet after any history.
// property: C11 C12
// opt: use=gopCache_Write
// panics: C12
func lemma_cache() {
	if vp.Native() {
		return
	}
	c := NewCache(vp.Range("groups", 0, 1<<20))
	vp.Assert(c.Metadata.packet == nil && c.VideoSeqHdr.packet == nil && c.AudioSeqHdr.packet == nil, "C11: a new cache has no headers")
	m, v, a := anyFrame("m"), anyFrame("v"), anyFrame("a")
	c.Metadata.packet, c.VideoSeqHdr.packet, c.AudioSeqHdr.packet = m, v, a
	ghost.calls = 0
	ghost.refuse = vp.Bool("refuse")
	p := &packet.Packet{Type: vp.Int("type")}
	frame := false
	switch p.Type {
	case packet.PktVideo:
		h := vhdr{key: vp.Bool("key"), inter: vp.Bool("inter"), seq: vp.Bool("seq"), eos: vp.Bool("eos"), avc: vp.Bool("avc")}
		p.Header = h
		if h.seq {
			v = p
		} else if h.key || h.inter {
			frame = true
		}
		err := c.Write(p)
		if frame {
			vp.Check(ghost.calls == 1 && ghost.p == p && ghost.g == c.Gop, "C11: a frame is written to the groups once")
			vp.Assert(ghost.key == h.key, "C11: exactly a key frame starts a group")
			vp.Assert((err != nil) == ghost.refuse, "C12: the refusal of a frame is returned")
		} else {
			vp.Assert(err == nil, "C11: a sequence header is accepted")
		}
	case packet.PktAudio:
		h := ahdr{format: vp.U8("format"), typ: vp.U8("typ"), aac: vp.Bool("aac"), mp3: vp.Bool("mp3"), seq: vp.Bool("aseq")}
		p.Header = h
		if h.aac && h.seq {
			a = p
		}
		vp.Assert(c.Write(p) == nil, "C11: audio is accepted")
	case packet.PktMetadata:
		m = p
		vp.Assert(c.Write(p) == nil, "C11: metadata is accepted")
	default:
		vp.Assert(c.Write(p) == nil, "C11: other packets are ignored")
	}
	if !frame {
		vp.Assert(ghost.calls == 0, "C11: sequence headers and audio are never part of a group")
	}
	vp.Assert(c.Metadata.packet == m, "C11: the latest metadata")
	vp.Assert(c.VideoSeqHdr.packet == v, "C11: the latest video sequence header")
	vp.Assert(c.AudioSeqHdr.packet == a, "C11: the latest audio sequence header")
}

// Replaying after any history.
// property: C11
// opt: use=gopCache_SendTo
// panics: C11
func lemma_cache_send() {
	if vp.Native() {
		replays()
		return
	}
	c := NewCache(vp.Range("groups", 0, 1<<20))
	m, v, a := anyFrame("m"), anyFrame("v"), anyFrame("a")
	c.Metadata.packet, c.VideoSeqHdr.packet, c.AudioSeqHdr.packet = m, v, a
	s := &cacheSink{c: c, failAt: vp.Range("failAt", -1, 5)}
	if m != nil {
		s.want = append(s.want, m)
	}
	if v != nil {
		s.want = append(s.want, v)
	}
	if a != nil {
		s.want = append(s.want, a)
	}
	err := c.SendTo(s)
	if s.failed {
		vp.Assert(err == errSink, "C11: the error of the receiver is returned")
	} else {
		vp.Assert(err == nil && s.n == len(s.want) && s.ring == 1, "C11: the headers and the groups are sent")
	}
	vp.Assert(c.Metadata.packet == m && c.VideoSeqHdr.packet == v && c.AudioSeqHdr.packet == a, "C11: replaying does not change the cache")
}

// replays is a sampled history of writes and replays (concrete runs only).
func replays() {
	n := vp.Range("groups", 0, 4)
	c := NewCache(n)
	var m, v, a *packet.Packet
	var groups [][]*packet.Packet
	for i := vp.Range("ops", 1, 14); i > 0; i-- {
		p := &packet.Packet{Data: []byte{byte(i)}}
		count := 1
		op := vp.Range("op", 0, 7)
		switch op {
		case 0:
			p.Type = packet.PktMetadata
			m = p
		case 1:
			p.Type, p.Header = packet.PktVideo, vhdr{key: true, seq: true}
			v = p
		case 2:
			p.Type = packet.PktAudio
			h := ahdr{aac: vp.Bool("aac"), seq: vp.Bool("seq")}
			p.Header = h
			if h.aac && h.seq {
				a = p
			}
		case 3, 4:
			p.Type, p.Header = packet.PktVideo, vhdr{key: true}
			if n > 0 {
				groups = append(groups, []*packet.Packet{p})
				if len(groups) > n {
					groups = groups[1:]
				}
			}
		default:
			p.Type, p.Header = packet.PktVideo, vhdr{inter: true}
			if op == 7 {
				count = []int{3, 1022, 1023, 1024, 1030}[vp.Range("count", 0, 4)]
			}
		}
		for ; count > 0; count-- {
			err := c.Write(p)
			if op < 5 || n == 0 {
				vp.Assert(err == nil, "C11: the packet is accepted")
				continue
			}
			if len(groups) == 0 {
				vp.Assert(err != nil, "C12: an inter frame before any key frame is refused")
				continue
			}
			g := groups[len(groups)-1]
			if len(g) >= 1024 {
				vp.Assert(err != nil, "C12: the packet after the 1024th is refused and the others are kept")
				continue
			}
			vp.Assert(err == nil, "C11: an inter frame joins the newest group")
			groups[len(groups)-1] = append(g[:len(g):len(g)], p)
		}
		if vp.Bool("replay") || i == 1 {
			s := &packetSink{failAt: -1}
			for _, p := range []*packet.Packet{m, v, a} {
				if p != nil {
					s.want = append(s.want, p)
				}
			}
			for _, g := range groups {
				s.want = append(s.want, g...)
			}
			if vp.Bool("failing") {
				s.failAt = vp.Range("failAt", 0, 6)
			}
			err := c.SendTo(s)
			if s.failed {
				vp.Assert(err == errSink, "C11: the error of the receiver is returned")
			} else {
				vp.Assert(err == nil && s.n == len(s.want), "C11: the headers and the most recent groups are sent")
			}
		}
	}
}
