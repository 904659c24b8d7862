package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	p "github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"

	"verif/ref"
)

// ---- C03 ----------------------------------------------------------------------------------------------------------

type setter struct {
	name string
	kind byte
	n    int
	s    string
}

var filters = []string{"", "a", "a/b/c/d", "$share", "$shar", "$share/g/t", "$share/g/#", "$sharex/y", "$SYS/x"}

func setters() (l []setter) {
	for i := 0; i < 3; i++ {
		l = append(l, setter{fmt.Sprintf("SetQoS(%d)", i), 'q', i, ""})
	}
	for i := 0; i < 2; i++ {
		l = append(l, setter{fmt.Sprintf("SetNoLocal(%v)", i == 1), 'n', i, ""})
	}
	for i := 0; i < 2; i++ {
		l = append(l, setter{fmt.Sprintf("SetRetainAsPublished(%v)", i == 1), 'r', i, ""})
	}
	for i := 0; i < 3; i++ {
		l = append(l, setter{fmt.Sprintf("SetRetainHandling(%d)", i), 'h', i, ""})
	}
	for _, f := range filters {
		l = append(l, setter{fmt.Sprintf("SetFilter(%q)", f), 'f', 0, f})
	}
	return
}

func (s setter) apply(t *packets.Topic) *packets.Topic {
	switch s.kind {
	case 'q':
		return t.SetQoS(packets.QoS(s.n))
	case 'n':
		return t.SetNoLocal(s.n == 1)
	case 'r':
		return t.SetRetainAsPublished(s.n == 1)
	case 'h':
		return t.SetRetainHandling(packets.RetainHandlingOption(s.n))
	}
	return t.SetFilter(s.s)
}

// topicModel is the specification of a subscription under construction.
type topicModel struct {
	filter   string
	q, r, h  int
	nl       bool
	nlEither bool // No Local was requested while it was not allowed: afterwards both values are acceptable
}

func (m *topicModel) shared() bool { return strings.HasPrefix(m.filter, "$share/") }
func (m *topicModel) apply(s setter) {
	switch s.kind {
	case 'q':
		m.q = s.n
	case 'n':
		m.nl, m.nlEither = s.n == 1, false
	case 'r':
		m.r = s.n
	case 'h':
		m.h = s.n
	case 'f':
		m.filter = s.s
	}
	if m.shared() && m.nl {
		m.nlEither = true
	}
}
func (m *topicModel) accepts(f ref.Filter) bool {
	base := byte(m.q | m.r<<3 | m.h<<4)
	if f.Filter != m.filter {
		return false
	}
	if m.shared() {
		return f.Opts == base
	}
	if m.nlEither {
		return f.Opts&^4 == base
	}
	if m.nl {
		base |= 4
	}
	return f.Opts == base
}

func c03(c *check) {
	depth := 5
	if c.Thorough() {
		depth = 6
	}
	ss := setters()
	c.Coverage["rule"] = fmt.Sprintf("every sequence of up to %d of the %d setter calls (each possible value, filters %q) on a topic, encoded and decoded by the reference; every list of up to 3 of a set of prepared topics in SUBSCRIBE and UNSUBSCRIBE; every string length and property boundary. States = distinct sequences or packets; traces = executions of the real code compared with the reference; transitions = reads and writes on the streams.", depth, len(ss), filters)
	total := 0
	var bounds []int
	for d, n := 0, 1; d <= depth; d++ {
		bounds = append(bounds, total)
		total += n
		n *= len(ss)
	}
	const block = 4096
	c.par((total+block-1)/block, func(b int) {
		for i := b * block; i < min(total, (b+1)*block); i++ {
			d := len(bounds) - 1
			for bounds[d] > i {
				d--
			}
			seq := make([]int, d)
			for k, x := 0, i-bounds[d]; k < d; k++ {
				seq[k], x = x%len(ss), x/len(ss)
			}
			desc := func() string {
				var l []string
				for _, k := range seq {
					l = append(l, ss[k].name)
				}
				return "Topic{}." + strings.Join(l, ".")
			}
			c.try(desc, func() {
				var t packets.Topic
				var m topicModel
				for _, k := range seq {
					if ss[k].apply(&t) != &t {
						c.bad("chain", desc(), "the setter does not return its receiver")
					}
					m.apply(ss[k])
				}
				c.nontrivial.Add(1)
				if t.Filter() != m.filter {
					c.bad("filter", desc(), fmt.Sprintf("Filter() is %q", t.Filter()))
				}
				if m.filter == "" {
					c.evals.Add(1)
					return
				}
				got, bb := c.encode(&packets.Subscribe{PacketIdentifier: 0x0102, Topics: []packets.Topic{t}}, desc)
				if got == nil {
					return
				}
				if got.Type != ref.SUBSCRIBE || got.ID != 0x0102 || len(got.Filters) != 1 || len(got.Props) != 0 || !m.accepts(got.Filters[0]) {
					c.bad("content", desc(), fmt.Sprintf("encoded as %v, want %+v\n  bytes: %x", got, m, bb))
				}
			})
		}
	})
	c.Sample("all sequences of up to " + fmt.Sprint(depth) + " setters, e.g. Topic{}.SetNoLocal(true).SetFilter(\"$share/g/t\").SetRetainHandling(2).SetQoS(1).SetFilter(\"a\")")

	// Lists of topics.
	var pool []packets.Topic
	var want []ref.Filter
	for i, f := range []string{"a", "+/b/#", "$share/g/t", "x/y", "é/€", str(200)} {
		var t packets.Topic
		t.SetFilter(f).SetQoS(packets.QoS(i % 3)).SetRetainHandling(packets.RetainHandlingOption((i + 1) % 3)).SetRetainAsPublished(i%2 == 0).SetNoLocal(i%2 == 1)
		o := byte(i%3 | (i+1)%3<<4)
		if i%2 == 0 {
			o |= 8
		}
		if i%2 == 1 {
			o |= 4
		}
		pool = append(pool, t)
		want = append(want, ref.Filter{Filter: f, Opts: o})
	}
	list := func(name string, ts []packets.Topic, fs []ref.Filter, subID uint32, users int, id uint16) {
		desc := func() string {
			return fmt.Sprintf("%s id %d, subscription identifier %d, %d user properties, %d topics", name, id, subID, users, len(ts))
		}
		c.nontrivial.Add(1)
		c.try(desc, func() {
			m, ps := user(users)
			e := &ref.Packet{Type: ref.SUBSCRIBE, Flags: 2, ID: id, Filters: fs}
			e.Props = append(e.Props, ps...)
			if subID > 0 {
				e.Props = append(e.Props, ref.Prop{ID: 0x0B, Num: subID})
			}
			got, b := c.encode(&packets.Subscribe{PacketIdentifier: p.PrimitiveUint16(id), Topics: ts, SubscriptionIdentifier: p.VariableByteInt(subID), UserProperties: m}, desc)
			c.same(got, e, b, desc)
			e = &ref.Packet{Type: ref.UNSUBSCRIBE, Flags: 2, ID: id}
			for _, f := range fs {
				e.Filters = append(e.Filters, ref.Filter{Filter: f.Filter})
			}
			m, ps = user(users)
			e.Props = ps
			udesc := func() string { return "UN" + desc() }
			got, b = c.encode(&packets.Unsubscribe{PacketIdentifier: p.PrimitiveUint16(id), Topics: ts, UserProperties: m}, udesc)
			c.same(got, e, b, udesc)
		})
	}
	n := len(pool)
	for l := 1; l <= 3; l++ {
		cnt := 1
		for i := 0; i < l; i++ {
			cnt *= n
		}
		c.par(cnt, func(i int) {
			var ts []packets.Topic
			var fs []ref.Filter
			for k, x := 0, i; k < l; k, x = k+1, x/n {
				ts = append(ts, pool[x%n])
				fs = append(fs, want[x%n])
			}
			for users := 0; users < 3; users++ {
				for _, sub := range []uint32{0, 1, 128} {
					list("SUBSCRIBE", ts, fs, sub, users, 7)
				}
			}
		})
	}
	for _, id := range []uint16{1, 127, 128, 255, 256, 0x8000, 65535} {
		for _, sub := range []uint32{0, 1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455} {
			list("SUBSCRIBE", pool[:1], want[:1], sub, 1, id)
		}
	}
	// Sizes around the length boundaries, and many topics.
	for _, k := range []int{1, 10, 50, 100, 1000, 5000} {
		var ts []packets.Topic
		var fs []ref.Filter
		for i := 0; i < k; i++ {
			ts = append(ts, pool[i%n])
			fs = append(fs, want[i%n])
		}
		list("SUBSCRIBE", ts, fs, 300, 2, 9)
	}
	c.par(len(sizes(c.Thorough())), func(i int) {
		l := sizes(c.Thorough())[i]
		if l == 0 {
			return
		}
		var t packets.Topic
		t.SetFilter(str(l)).SetQoS(2)
		list("SUBSCRIBE", []packets.Topic{t}, []ref.Filter{{Filter: str(l), Opts: 2}}, 5, 0, 3)
		desc := func() string { return fmt.Sprintf("SUBSCRIBE/UNSUBSCRIBE with a user property of %d bytes", l) }
		c.try(desc, func() {
			m := p.PrimitiveStringMap{p.PrimitiveString(str(l)): "v"}
			ps := []ref.Prop{{ID: 0x26, S: str(l), V: "v"}}
			got, b := c.encode(&packets.Subscribe{PacketIdentifier: 1, Topics: pool[:1], UserProperties: m}, desc)
			c.same(got, &ref.Packet{Type: ref.SUBSCRIBE, Flags: 2, ID: 1, Filters: want[:1], Props: ps}, b, desc)
			got, b = c.encode(&packets.Unsubscribe{PacketIdentifier: 1, Topics: pool[:1], UserProperties: m}, desc)
			c.same(got, &ref.Packet{Type: ref.UNSUBSCRIBE, Flags: 2, ID: 1, Filters: []ref.Filter{{Filter: "a"}}, Props: ps}, b, desc)
		})
	})
	for _, l := range []int{65536, 131072} {
		var t packets.Topic
		t.SetFilter(str(l))
		c.refused(&packets.Subscribe{PacketIdentifier: 1, Topics: []packets.Topic{t}}, fmt.Sprintf("SUBSCRIBE with a filter of %d bytes", l))
		c.refused(&packets.Unsubscribe{PacketIdentifier: 1, Topics: []packets.Topic{t}}, fmt.Sprintf("UNSUBSCRIBE with a filter of %d bytes", l))
	}
	for _, ts := range [][]packets.Topic{nil, {}} {
		c.refusedSilently(&packets.Subscribe{PacketIdentifier: 1, Topics: ts}, "SUBSCRIBE without topics")
		c.refusedSilently(&packets.Unsubscribe{PacketIdentifier: 1, Topics: ts}, "UNSUBSCRIBE without topics")
	}
}

func (c *check) refusedSilently(w io.WriterTo, desc string) {
	c.refused(w, desc)
	var buf bytes.Buffer
	w.WriteTo(&buf)
	if buf.Len() > 0 {
		c.bad("not-refused", desc, "bytes are produced although the packet is refused")
	}
}

// ---- C04 ----------------------------------------------------------------------------------------------------------

func c04(c *check) {
	c.Coverage["rule"] = "for PUBACK, PUBREC, PUBREL, PUBCOMP, DISCONNECT and AUTH: every reason code the specification allows x every subset of properties x every packet identifier (acknowledgements without properties) or boundary identifiers; every string field at the lengths around the length boundaries; encoding twice. States = distinct packets; traces = executions of the real code compared with the reference; transitions = reads and writes on the streams."
	type ack struct {
		t    byte
		mk   func(pa packets.Puback) io.WriterTo
		code []byte
	}
	pub := []byte{0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99}
	rel := []byte{0, 0x92}
	acks := []ack{
		{ref.PUBACK, func(pa packets.Puback) io.WriterTo { return &pa }, pub},
		{ref.PUBREC, func(pa packets.Puback) io.WriterTo { return &packets.Pubrec{Puback: pa} }, pub},
		{ref.PUBREL, func(pa packets.Puback) io.WriterTo { return &packets.Pubrel{Puback: pa} }, rel},
		{ref.PUBCOMP, func(pa packets.Puback) io.WriterTo { return &packets.Pubcomp{Puback: pa} }, rel},
	}
	one := func(a ack, id uint16, code byte, reason string, m p.PrimitiveStringMap, ps []ref.Prop) {
		desc := func() string {
			return fmt.Sprintf("%s id %d code %#x, reason string of %d bytes, %d user properties", ref.TypeNames[a.t], id, code, len(reason), len(m))
		}
		c.nontrivial.Add(1)
		c.try(desc, func() {
			w := a.mk(packets.Puback{PacketIdentifier: p.PrimitiveUint16(id), ReasonCode: p.PrimitiveByte(code), ReasonString: p.PrimitiveString(reason), UserProperties: m})
			e := &ref.Packet{Type: a.t, ID: id, Reason: code, Props: append([]ref.Prop{}, ps...)}
			if a.t == ref.PUBREL {
				e.Flags = 2
			}
			if reason != "" {
				e.Props = append(e.Props, ref.Prop{ID: 0x1F, S: reason})
			}
			for i := 0; i < 2; i++ { // the second time as a retransmission
				got, b := c.encode(w, desc)
				c.same(got, e, b, desc)
			}
		})
	}
	c.par(65535, func(i int) {
		for _, a := range acks {
			for _, code := range a.code {
				one(a, uint16(i+1), code, "", nil, nil)
			}
		}
	})
	for _, a := range acks {
		for _, code := range a.code {
			for users := 0; users < 3; users++ {
				for _, rs := range []string{"", "r", "réason"} {
					for _, id := range []uint16{1, 255, 256, 65535} {
						m, ps := user(users)
						one(a, id, code, rs, m, ps)
					}
				}
			}
		}
	}
	c.Sample("PUBREL id 1..65535 with codes 0x00, 0x92, with and without reason string and user properties")
	ss := sizes(c.Thorough())
	c.par(len(ss), func(i int) {
		n := ss[i]
		if n == 0 {
			return
		}
		for _, a := range acks {
			for _, code := range []byte{0, a.code[len(a.code)-1]} {
				one(a, 5, code, str(n), nil, nil)
				one(a, 5, code, "", p.PrimitiveStringMap{p.PrimitiveString(str(n)): "v"}, []ref.Prop{{ID: 0x26, S: str(n), V: "v"}})
				one(a, 5, code, "x", p.PrimitiveStringMap{"k": p.PrimitiveString(str(n))}, []ref.Prop{{ID: 0x26, S: "k", V: str(n)}})
			}
		}
	})
	for _, a := range acks {
		for _, n := range []int{65536, 131072} {
			c.refused(a.mk(packets.Puback{PacketIdentifier: 1, ReasonString: p.PrimitiveString(str(n))}), fmt.Sprintf("%s with a reason string of %d bytes", ref.TypeNames[a.t], n))
		}
		for _, n := range []int{2097151, 2097152} {
			m, ps := bigUser(n)
			one(a, 1, 0, "", m, ps)
		}
	}

	// DISCONNECT and AUTH.
	disc := func(code byte, sei uint32, reason, srv string, m p.PrimitiveStringMap, ps []ref.Prop) {
		desc := func() string {
			return fmt.Sprintf("DISCONNECT code %#x, session expiry %d, reason string of %d bytes, server reference of %d bytes, %d user properties", code, sei, len(reason), len(srv), len(m))
		}
		c.nontrivial.Add(1)
		c.try(desc, func() {
			w := &packets.Disconnect{ReasonCode: p.PrimitiveByte(code), SessionExpiryInterval: p.PrimitiveUint32(sei), ReasonString: p.PrimitiveString(reason), ServerReference: p.PrimitiveString(srv), UserProperties: m}
			e := &ref.Packet{Type: ref.DISCONNECT, Reason: code, Props: append([]ref.Prop{}, ps...)}
			if sei != 0 {
				e.Props = append(e.Props, ref.Prop{ID: 0x11, Num: sei})
			}
			if reason != "" {
				e.Props = append(e.Props, ref.Prop{ID: 0x1F, S: reason})
			}
			if srv != "" {
				e.Props = append(e.Props, ref.Prop{ID: 0x1C, S: srv})
			}
			for i := 0; i < 2; i++ {
				got, b := c.encode(w, desc)
				c.same(got, e, b, desc)
			}
		})
	}
	auth := func(code byte, method, data, reason string, m p.PrimitiveStringMap, ps []ref.Prop) {
		desc := func() string {
			return fmt.Sprintf("AUTH code %#x, method of %d bytes, data of %d bytes, reason string of %d bytes, %d user properties", code, len(method), len(data), len(reason), len(m))
		}
		c.nontrivial.Add(1)
		c.try(desc, func() {
			w := &packets.Auth{AuthenticateReasonCode: p.PrimitiveByte(code), AuthenticationMethod: p.PrimitiveString(method), AuthenticationData: p.PrimitiveString(data), ReasonString: p.PrimitiveString(reason), UserProperties: m}
			e := &ref.Packet{Type: ref.AUTH, Reason: code, Props: append([]ref.Prop{}, ps...)}
			if method != "" {
				e.Props = append(e.Props, ref.Prop{ID: 0x15, S: method}, ref.Prop{ID: 0x16, S: data})
			}
			if reason != "" {
				e.Props = append(e.Props, ref.Prop{ID: 0x1F, S: reason})
			}
			for i := 0; i < 2; i++ {
				got, b := c.encode(w, desc)
				c.same(got, e, b, desc)
			}
		})
	}
	for code := 0; code < 256; code++ {
		for m := 0; m < 16; m++ {
			pick := func(i int, s string) string {
				if m>>i&1 != 0 {
					return s
				}
				return ""
			}
			um, ps := user(m >> 3 & 1 * 2)
			sei := uint32(m & 1 * 0x01020304)
			disc(byte(code), sei, pick(1, "reason"), pick(2, "server:1883"), um, ps)
			auth(byte(code), pick(0, "SCRAM"), pick(0, pick(1, "\x00\xff")), pick(2, "why"), um, ps)
		}
	}
	for _, sei := range []uint32{1, 127, 128, 255, 256, 65535, 65536, 1 << 24, 0xfffffffe, 0xffffffff} {
		disc(4, sei, "", "", nil, nil)
	}
	c.par(len(ss), func(i int) {
		n := ss[i]
		if n == 0 {
			return
		}
		s := str(n)
		um, ps := p.PrimitiveStringMap{p.PrimitiveString(s): "v"}, []ref.Prop{{ID: 0x26, S: s, V: "v"}}
		disc(0, 0, s, "", nil, nil)
		disc(0, 9, "", s, nil, nil)
		disc(0x82, 0, "", "", um, ps)
		disc(0x82, 1, s, s, um, ps)
		auth(0x18, s, "", "", nil, nil)
		auth(0x18, "m", s, "", nil, nil)
		auth(0x19, "m", "", s, nil, nil)
		auth(0, "m", "d", "", um, ps)
		auth(0, s, s, s, um, ps)
	})
	// The shortest property sections: nothing may be taken for a short form.
	for n := 1; n <= 12; n++ {
		s := str(n)
		for _, code := range []byte{0, 0x18, 0x19, 0x82, 0xff} {
			for k := 0; k <= n; k++ {
				um, ps := p.PrimitiveStringMap{p.PrimitiveString(s[:k]): p.PrimitiveString(s[k:])}, []ref.Prop{{ID: 0x26, S: s[:k], V: s[k:]}}
				disc(code, 0, "", "", um, ps)
				auth(code, "", "", "", um, ps)
			}
			disc(code, 0, s, "", nil, nil)
			disc(code, 0, "", s, nil, nil)
			auth(code, s, "", "", nil, nil)
			auth(code, "", "", s, nil, nil)
		}
	}
	for _, n := range []int{65536, 131072} {
		c.refused(&packets.Disconnect{ReasonString: p.PrimitiveString(str(n))}, fmt.Sprintf("DISCONNECT with a reason string of %d bytes", n))
		c.refused(&packets.Auth{AuthenticationMethod: p.PrimitiveString(str(n))}, fmt.Sprintf("AUTH with a method of %d bytes", n))
	}
	for _, n := range []int{2097151, 2097152} {
		m, ps := bigUser(n)
		disc(0, 0, "", "", m, ps)
		auth(0, "", "", "", m, ps)
	}
}
