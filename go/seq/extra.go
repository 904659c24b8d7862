package main

import (
	"fmt"
	"io"
	"strings"

	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	p "github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"

	"verif/ref"
)

// textValues are strings whose content a codec might treat in a special way.
var textValues = []string{"\x01", " ", "a ", " a", "\t", "a/", "/", "\u00e9", "a\u00e9", "\u20ac", "\U0001F600", "\ufeffx", "x\ufeff", "\ufffd", "A", "$a", "a\n", "a\r\n", "%s", "\"", "\\", "0",
	"null", "\x7f", strings.Repeat(" ", 20)}

// blobValues are binary data of that kind.
var blobValues = append([]string{"\x00", "\x00\x00", "a\x00", "\x00a", "\xff", "\xff\xff", "\xff\xfe", "\xc3", "a\xc3", "\x80", "\xed\xa0\x80", "\r\n\x00", "\x00\x03abc"}, textValues...)

// values encodes packets with every such value.
func (c *check) values(name string, l []string, mk func(s string) (io.WriterTo, *ref.Packet)) {
	for _, s := range l {
		desc := func() string { return fmt.Sprintf("%s %q", name, s) }
		c.nontrivial.Add(1)
		c.try(desc, func() {
			w, e := mk(s)
			got, b := c.encode(w, desc)
			c.same(got, e, b, desc)
		})
	}
}

// userMap is a set of user properties and its specification.
type userMap struct {
	m  p.PrimitiveStringMap
	ps []ref.Prop
}

func (u userMap) String() string { return fmt.Sprintf("user properties %.200q", fmt.Sprint(u.m)) }

// userMaps lists every map of one or two user properties whose keys and values are empty, short, equal, not ASCII or as
// long as a length boundary.
func userMaps() (l []userMap) {
	s := []string{"", "k", "é", str(127), str(128)}
	for _, k := range s {
		for _, v := range s {
			l = append(l, userMap{p.PrimitiveStringMap{p.PrimitiveString(k): p.PrimitiveString(v)}, []ref.Prop{{ID: 0x26, S: k, V: v}}})
			for _, k2 := range s {
				for _, v2 := range s {
					if k >= k2 {
						continue
					}
					l = append(l, userMap{
						p.PrimitiveStringMap{p.PrimitiveString(k): p.PrimitiveString(v), p.PrimitiveString(k2): p.PrimitiveString(v2)},
						[]ref.Prop{{ID: 0x26, S: k, V: v}, {ID: 0x26, S: k2, V: v2}},
					})
				}
			}
		}
	}
	return
}

// users encodes a packet with every set of user properties.
func (c *check) users(name string, mk func(u userMap) (io.WriterTo, *ref.Packet)) {
	l := userMaps()
	c.par(len(l), func(i int) {
		desc := func() string { return name + " with " + l[i].String() }
		c.nontrivial.Add(1)
		c.try(desc, func() {
			w, e := mk(l[i])
			got, b := c.encode(w, desc)
			c.same(got, e, b, desc)
		})
	})
}

func c01extra(c *check) {
	mkc := func() (*packets.Connect, *ref.Packet) { return connectOf(0, 1, 1) }
	for _, f := range []struct {
		name string
		bin  bool
		set  func(v *packets.Connect, e *ref.Packet, s string)
	}{
		{"client identifier", false, func(v *packets.Connect, e *ref.Packet, s string) { v.ClientId, e.ClientID = p.PrimitiveString(s), s }},
		{"user name", false, func(v *packets.Connect, e *ref.Packet, s string) {
			v.Username, e.Username, e.ConnFlags = p.PrimitiveString(s), s, e.ConnFlags|0x80
		}},
		{"password", true, func(v *packets.Connect, e *ref.Packet, s string) {
			v.Password, e.Password, e.ConnFlags = p.PrimitiveString(s), s, e.ConnFlags|0x40
		}},
		{"authentication data", true, func(v *packets.Connect, e *ref.Packet, s string) {
			v.AuthenticationMethod, v.AuthenticationData = "m", p.PrimitiveString(s)
			e.Props = append(e.Props, ref.Prop{ID: 0x15, S: "m"}, ref.Prop{ID: 0x16, S: s})
		}},
		{"authentication method", false, func(v *packets.Connect, e *ref.Packet, s string) {
			v.AuthenticationMethod, v.AuthenticationData = p.PrimitiveString(s), "d"
			e.Props = append(e.Props, ref.Prop{ID: 0x15, S: s}, ref.Prop{ID: 0x16, S: "d"})
		}},
	} {
		l := textValues
		if f.bin {
			l = blobValues
		}
		c.values("CONNECT, "+f.name, l, func(s string) (io.WriterTo, *ref.Packet) {
			v, e := mkc()
			f.set(v, e, s)
			return v, e
		})
	}
	for _, base := range []int{0, 0x3fff &^ 0x40} {
		c.users("CONNECT", func(u userMap) (io.WriterTo, *ref.Packet) {
			v, e := connectOf(base, 1, 1)
			v.UserProperties = u.m
			e.Props = append(e.Props, u.ps...)
			return v, e
		})
		c.users("the will of a CONNECT", func(u userMap) (io.WriterTo, *ref.Packet) {
			v, e := connectOf(base, 0x7f, 2)
			v.WillUserProperties = u.m
			e.WillProps = append(e.WillProps, u.ps...)
			return v, e
		})
	}
	// A value that is encoded again after fields were changed carries the new fields only.
	var masks []int
	for i := 0; i < 14; i++ {
		masks = append(masks, 1<<i, 0x3fff&^(1<<i))
	}
	masks = append(masks, 0, 0x3fff)
	c.par(len(masks)*len(masks), func(i int) {
		a, b := masks[i%len(masks)], masks[i/len(masks)]
		if a>>7&3 == 2 || b>>7&3 == 2 {
			return
		}
		for _, w := range [][2]int{{1, 0}, {0, 1}, {0xff, 1}, {1, 0xff}} {
			desc := func() string {
				v, _ := connectOf(a, w[0], 2)
				u, _ := connectOf(b, w[1], 0)
				return fmt.Sprintf("%+v encoded, changed to and encoded as %+v", *v, *u)
			}
			c.nontrivial.Add(1)
			c.try(desc, func() {
				v, e := connectOf(a, w[0], 2)
				got, bb := c.encode(v, desc)
				c.same(got, e, bb, desc)
				u, e := connectOf(b, w[1], 0)
				*v = *u
				got, bb = c.encode(v, desc)
				c.same(got, e, bb, desc)
			})
		}
	})
}

func c02extra(c *check) {
	for qos := 0; qos < 3; qos++ {
		str := func(id byte, s string) []ref.Prop { return []ref.Prop{{ID: id, S: s}} }
		mkp := func(set func(v *packets.Publish, e *ref.Packet, s string)) func(s string) (io.WriterTo, *ref.Packet) {
			return func(s string) (io.WriterTo, *ref.Packet) {
				v, e := publishOf(4, qos)
				set(v, e, s)
				return v, e
			}
		}
		c.values("PUBLISH, topic", textValues, mkp(func(v *packets.Publish, e *ref.Packet, s string) { v.Topic, e.Topic = p.PrimitiveString(s), s }))
		c.values("PUBLISH, payload", blobValues, mkp(func(v *packets.Publish, e *ref.Packet, s string) { v.Payload, e.Payload = []byte(s), []byte(s) }))
		c.values("PUBLISH, response topic", textValues, mkp(func(v *packets.Publish, e *ref.Packet, s string) {
			v.ResponseTopic, e.Props = p.PrimitiveString(s), append(e.Props, str(0x08, s)...)
		}))
		c.values("PUBLISH, correlation data", blobValues, mkp(func(v *packets.Publish, e *ref.Packet, s string) {
			v.CorrelationData, e.Props = p.PrimitiveString(s), append(e.Props, str(0x09, s)...)
		}))
		c.values("PUBLISH, content type", textValues, mkp(func(v *packets.Publish, e *ref.Packet, s string) {
			v.ContentType, e.Props = p.PrimitiveString(s), append(e.Props, str(0x03, s)...)
		}))
		// What the header of a value held before does not matter: it may be one that was received.
		for h := 0; h < 256; h++ {
			for m := 0; m < 4; m++ {
				desc := func() string { return fmt.Sprintf("PUBLISH QoS %d flags %d with a header of %#x", qos, m, h) }
				c.nontrivial.Add(1)
				c.try(desc, func() {
					v, e := publishOf(4, qos)
					v.Header.Header, v.Header.Remaining = p.PrimitiveByte(h), 77
					v.Retain, v.Duplicate = m&1 != 0, m&2 != 0 && qos > 0
					e.Flags = byte(qos)<<1 | byte(m&1)
					if v.Duplicate {
						e.Flags |= 8
					}
					got, b := c.encode(v, desc)
					c.same(got, e, b, desc)
				})
			}
		}
	}
	for qos := 0; qos < 3; qos++ {
		for _, base := range []int{4, 0x7ff &^ 0x80 &^ 8} {
			c.users("PUBLISH", func(u userMap) (io.WriterTo, *ref.Packet) {
				v, e := publishOf(base, qos)
				v.UserProperties = u.m
				e.Props = append(e.Props, u.ps...)
				return v, e
			})
		}
		l := userMaps()
		c.par(len(l), func(i int) {
			desc := func() string { return "PUBLISH with " + l[i].String() }
			c.try(desc, func() {
				v, _ := publishOf(0x7ff&^0x80, qos)
				v.UserProperties = l[i].m
				_, b := c.encode(v, desc)
				if b != nil {
					c.roundTrip(v, b, 1<<20, desc)
					c.roundTrip(v, b, 1, desc)
				}
			})
		})
	}
	// Every number at its boundaries, alone and with the other fields.
	for _, base := range []int{4, 0x7f7 &^ 0x10 &^ 0x100} {
		for qos := 0; qos < 3; qos++ {
			for id := byte(0); id < 3; id++ {
				for _, n := range []uint32{1, 2, 127, 128, 129, 255, 256, 16383, 16384, 32767, 32768, 65534, 65535, 65536, 2097151, 2097152, 268435455, 268435456, 0x7fffffff, 0x80000000, 0xffffffff} {
					v, e := publishOf(base, qos)
					pr := ref.Prop{Num: n}
					switch {
					case id == 0:
						pr.ID, v.MessageExpiryInterval = 0x02, p.PrimitiveUint32(n)
					case id == 1 && n <= 65535:
						pr.ID, v.TopicAlias = 0x23, p.PrimitiveUint16(n)
					case id == 2 && n <= 268435455:
						pr.ID, v.SubscriptionIdentifier = 0x0B, p.VariableByteInt(n)
					default:
						continue
					}
					e.Props = append(e.Props, pr)
					desc := func() string { return fmt.Sprintf("PUBLISH QoS %d with property %#x of %d", qos, pr.ID, n) }
					c.nontrivial.Add(1)
					c.try(desc, func() {
						got, b := c.encode(v, desc)
						c.same(got, e, b, desc)
						if b != nil {
							c.roundTrip(v, b, 1, desc)
						}
					})
				}
			}
		}
	}
	// A packet identifier left in a QoS 0 publish is not sent.
	for _, base := range []int{4, 12, 0x7fd} {
		v, e := publishOf(base, 0)
		v.PacketIdentifier = 0x4711
		desc := func() string { return fmt.Sprintf("QoS 0 %+v", *v) }
		c.nontrivial.Add(1)
		c.try(desc, func() {
			got, b := c.encode(v, desc)
			c.same(got, e, b, desc)
		})
	}
	// A value that is encoded, changed and encoded again carries the new fields only; so does one that was decoded.
	c.par(1<<11, func(m int) {
		if m>>2&3 == 0 {
			return
		}
		for _, k := range []int{4, 0x7ff, 12, 0x7ff ^ m | 4} {
			for qq := 0; qq < 9; qq++ {
				desc := func() string {
					v, _ := publishOf(m, qq%3)
					u, _ := publishOf(k, qq/3)
					return fmt.Sprintf("%+v encoded, changed to and encoded as %+v", *v, *u)
				}
				c.nontrivial.Add(1)
				c.try(desc, func() {
					v, e := publishOf(m, qq%3)
					got, b := c.encode(v, desc)
					c.same(got, e, b, desc)
					u, e := publishOf(k, qq/3)
					v.Retain, v.QoS, v.Duplicate, v.Topic, v.PacketIdentifier, v.Payload = u.Retain, u.QoS, u.Duplicate, u.Topic, u.PacketIdentifier, u.Payload
					v.MessageExpiryInterval, v.TopicAlias, v.ResponseTopic, v.CorrelationData = u.MessageExpiryInterval, u.TopicAlias, u.ResponseTopic, u.CorrelationData
					v.UserProperties, v.SubscriptionIdentifier, v.ContentType = u.UserProperties, u.SubscriptionIdentifier, u.ContentType
					got, b = c.encode(v, desc)
					c.same(got, e, b, desc)
				})
			}
		}
	})
}

func c03extra(c *check) {
	c.values("SUBSCRIBE, filter", textValues, func(s string) (io.WriterTo, *ref.Packet) {
		var t packets.Topic
		t.SetFilter(s).SetQoS(2)
		return &packets.Subscribe{PacketIdentifier: 9, Topics: []packets.Topic{t}}, &ref.Packet{Type: ref.SUBSCRIBE, Flags: 2, ID: 9, Filters: []ref.Filter{{Filter: s, Opts: 2}}}
	})
	c.values("UNSUBSCRIBE, filter", textValues, func(s string) (io.WriterTo, *ref.Packet) {
		var t packets.Topic
		t.SetFilter(s)
		return &packets.Unsubscribe{PacketIdentifier: 9, Topics: []packets.Topic{t}}, &ref.Packet{Type: ref.UNSUBSCRIBE, Flags: 2, ID: 9, Filters: []ref.Filter{{Filter: s}}}
	})
	var t packets.Topic
	t.SetFilter("a/+").SetQoS(1)
	for _, sub := range []uint32{0, 1, 127, 128} {
		c.users(fmt.Sprintf("SUBSCRIBE with subscription identifier %d", sub), func(u userMap) (io.WriterTo, *ref.Packet) {
			e := &ref.Packet{Type: ref.SUBSCRIBE, Flags: 2, ID: 7, Filters: []ref.Filter{{Filter: "a/+", Opts: 1}}, Props: append([]ref.Prop{}, u.ps...)}
			if sub > 0 {
				e.Props = append(e.Props, ref.Prop{ID: 0x0B, Num: sub})
			}
			return &packets.Subscribe{PacketIdentifier: 7, Topics: []packets.Topic{t}, SubscriptionIdentifier: p.VariableByteInt(sub), UserProperties: u.m}, e
		})
	}
	c.users("UNSUBSCRIBE", func(u userMap) (io.WriterTo, *ref.Packet) {
		return &packets.Unsubscribe{PacketIdentifier: 7, Topics: []packets.Topic{t}, UserProperties: u.m},
			&ref.Packet{Type: ref.UNSUBSCRIBE, Flags: 2, ID: 7, Filters: []ref.Filter{{Filter: "a/+"}}, Props: append([]ref.Prop{}, u.ps...)}
	})
	// Filters that contain every byte.
	for x := 1; x < 256; x++ {
		s := "a/" + string(rune(x)) + "/" + string(rune(x*83))
		var t packets.Topic
		t.SetFilter(s).SetNoLocal(true)
		desc := func() string { return fmt.Sprintf("filter %q", s) }
		c.nontrivial.Add(1)
		c.try(desc, func() {
			got, b := c.encode(&packets.Subscribe{PacketIdentifier: 7, Topics: []packets.Topic{t}}, desc)
			c.same(got, &ref.Packet{Type: ref.SUBSCRIBE, Flags: 2, ID: 7, Filters: []ref.Filter{{Filter: s, Opts: 4}}}, b, desc)
		})
	}
}

func c04extra(c *check) {
	for t := byte(ref.PUBACK); t <= ref.PUBCOMP; t++ {
		c.values(ref.TypeNames[t]+", reason string", textValues, func(s string) (io.WriterTo, *ref.Packet) {
			v := packets.Puback{PacketIdentifier: 7, ReasonString: p.PrimitiveString(s)}
			e := &ref.Packet{Type: t, ID: 7, Props: []ref.Prop{{ID: 0x1F, S: s}}}
			switch t {
			case ref.PUBREC:
				return &packets.Pubrec{Puback: v}, e
			case ref.PUBREL:
				e.Flags = 2
				return &packets.Pubrel{Puback: v}, e
			case ref.PUBCOMP:
				return &packets.Pubcomp{Puback: v}, e
			}
			return &v, e
		})
	}
	c.values("DISCONNECT, reason string", textValues, func(s string) (io.WriterTo, *ref.Packet) {
		return &packets.Disconnect{ReasonString: p.PrimitiveString(s)}, &ref.Packet{Type: ref.DISCONNECT, Props: []ref.Prop{{ID: 0x1F, S: s}}}
	})
	c.values("DISCONNECT, server reference", textValues, func(s string) (io.WriterTo, *ref.Packet) {
		return &packets.Disconnect{ServerReference: p.PrimitiveString(s)}, &ref.Packet{Type: ref.DISCONNECT, Props: []ref.Prop{{ID: 0x1C, S: s}}}
	})
	c.values("AUTH, method", textValues, func(s string) (io.WriterTo, *ref.Packet) {
		return &packets.Auth{AuthenticateReasonCode: 0x18, AuthenticationMethod: p.PrimitiveString(s), AuthenticationData: "d"}, &ref.Packet{Type: ref.AUTH, Reason: 0x18, Props: []ref.Prop{{ID: 0x15, S: s}, {ID: 0x16, S: "d"}}}
	})
	c.values("AUTH, data", blobValues, func(s string) (io.WriterTo, *ref.Packet) {
		return &packets.Auth{AuthenticateReasonCode: 0x18, AuthenticationMethod: "m", AuthenticationData: p.PrimitiveString(s)}, &ref.Packet{Type: ref.AUTH, Reason: 0x18, Props: []ref.Prop{{ID: 0x15, S: "m"}, {ID: 0x16, S: s}}}
	})
	// What the header of a PUBREL held before does not matter.
	for h := 0; h < 256; h++ {
		desc := func() string { return fmt.Sprintf("PUBREL with a header of %#x", h) }
		c.try(desc, func() {
			v := &packets.Pubrel{Puback: packets.Puback{PacketIdentifier: 7}}
			v.Header.Header = p.PrimitiveByte(h)
			got, b := c.encode(v, desc)
			c.same(got, &ref.Packet{Type: ref.PUBREL, Flags: 2, ID: 7}, b, desc)
		})
	}
	for _, reason := range []string{"", "why"} {
		for _, code := range []byte{0, 0x92} {
			mk := func(t byte, u userMap) (packets.Puback, *ref.Packet) {
				e := &ref.Packet{Type: t, ID: 7, Reason: code, Props: append([]ref.Prop{}, u.ps...)}
				if code != 0 && t <= ref.PUBREC {
					e.Reason = 0x97
				}
				if t == ref.PUBREL {
					e.Flags = 2
				}
				if reason != "" {
					e.Props = append(e.Props, ref.Prop{ID: 0x1F, S: reason})
				}
				return packets.Puback{PacketIdentifier: 7, ReasonCode: p.PrimitiveByte(e.Reason), ReasonString: p.PrimitiveString(reason), UserProperties: u.m}, e
			}
			c.users("PUBACK", func(u userMap) (io.WriterTo, *ref.Packet) { v, e := mk(ref.PUBACK, u); return &v, e })
			c.users("PUBREC", func(u userMap) (io.WriterTo, *ref.Packet) {
				v, e := mk(ref.PUBREC, u)
				return &packets.Pubrec{Puback: v}, e
			})
			c.users("PUBREL", func(u userMap) (io.WriterTo, *ref.Packet) {
				v, e := mk(ref.PUBREL, u)
				return &packets.Pubrel{Puback: v}, e
			})
			c.users("PUBCOMP", func(u userMap) (io.WriterTo, *ref.Packet) {
				v, e := mk(ref.PUBCOMP, u)
				return &packets.Pubcomp{Puback: v}, e
			})
			c.users("DISCONNECT", func(u userMap) (io.WriterTo, *ref.Packet) {
				e := &ref.Packet{Type: ref.DISCONNECT, Reason: code, Props: append([]ref.Prop{{ID: 0x11, Num: 5}}, u.ps...)}
				if reason != "" {
					e.Props = append(e.Props, ref.Prop{ID: 0x1C, S: reason})
				}
				return &packets.Disconnect{ReasonCode: p.PrimitiveByte(code), SessionExpiryInterval: 5, ServerReference: p.PrimitiveString(reason), UserProperties: u.m}, e
			})
			c.users("AUTH", func(u userMap) (io.WriterTo, *ref.Packet) {
				e := &ref.Packet{Type: ref.AUTH, Reason: code, Props: append([]ref.Prop{{ID: 0x15, S: "m"}, {ID: 0x16, S: "d"}}, u.ps...)}
				if reason != "" {
					e.Props = append(e.Props, ref.Prop{ID: 0x1F, S: reason})
				}
				return &packets.Auth{AuthenticateReasonCode: p.PrimitiveByte(code), AuthenticationMethod: "m", AuthenticationData: "d", ReasonString: p.PrimitiveString(reason), UserProperties: u.m}, e
			})
		}
	}
	// A value that is encoded, changed and encoded again carries the new fields only.
	type shape struct {
		code   byte
		reason string
		users  int
	}
	var shapes []shape
	for _, code := range []byte{0, 0x92} {
		for _, r := range []string{"", "why"} {
			for n := 0; n < 3; n += 2 {
				shapes = append(shapes, shape{code, r, n})
			}
		}
	}
	for t := byte(ref.PUBACK); t <= ref.PUBCOMP; t++ {
		for _, a := range shapes {
			for _, b := range shapes {
				desc := func() string {
					return fmt.Sprintf("%s %+v encoded, changed to and encoded as %+v", ref.TypeNames[t], a, b)
				}
				c.nontrivial.Add(1)
				c.try(desc, func() {
					var v *packets.Puback
					var w io.WriterTo
					switch t {
					case ref.PUBACK:
						v = &packets.Puback{}
						w = v
					case ref.PUBREC:
						x := &packets.Pubrec{}
						v, w = &x.Puback, x
					case ref.PUBREL:
						x := &packets.Pubrel{}
						v, w = &x.Puback, x
					case ref.PUBCOMP:
						x := &packets.Pubcomp{}
						v, w = &x.Puback, x
					}
					for i, s := range []shape{a, b, a} {
						if s.code != 0 && t <= ref.PUBREC {
							s.code = 0x97
						}
						m, ps := user(s.users)
						v.PacketIdentifier, v.ReasonCode, v.ReasonString, v.UserProperties = p.PrimitiveUint16(i+1), p.PrimitiveByte(s.code), p.PrimitiveString(s.reason), m
						e := &ref.Packet{Type: t, ID: uint16(i + 1), Reason: s.code, Props: ps}
						if t == ref.PUBREL {
							e.Flags = 2
						}
						if s.reason != "" {
							e.Props = append(e.Props, ref.Prop{ID: 0x1F, S: s.reason})
						}
						got, bb := c.encode(w, desc)
						c.same(got, e, bb, desc)
					}
				})
			}
		}
	}
}

// c05extra delivers every number at its boundaries and every combination of user properties.
func c05extra(c *check) {
	type job struct {
		q  *ref.Packet
		ps []ref.Prop
	}
	var jobs []job
	maps := userMaps()
	for _, q := range inboundBase() {
		if !q.HasProps && q.Type != ref.PUBLISH {
			continue
		}
		for _, id := range ref.Allowed(q.Type) {
			var max uint32
			switch ref.PropKind(id) {
			case ref.U8:
				max = 1
			case ref.U16:
				max = 0xffff
			case ref.U32:
				max = 0xffffffff
			case ref.VAR:
				max = 268435455
			case ref.PAIR:
				for _, u := range maps {
					jobs = append(jobs, job{q, u.ps})
				}
				continue
			default:
				continue
			}
			for _, n := range []uint32{1, 2, 127, 128, 129, 255, 256, 16383, 16384, 32767, 32768, 65534, 65535, 65536, 2097151, 2097152, 268435455, 268435456, 0x7fffffff, 0x80000000, 0xffffffff} {
				if n <= max {
					jobs = append(jobs, job{q, []ref.Prop{{ID: id, Num: n}}})
				}
			}
		}
	}
	c.par(len(jobs), func(i int) {
		w := withProps(jobs[i].q, jobs[i].ps)
		b := w.Encode()
		if _, _, err := ref.Decode(b); err != nil {
			return // not a value the specification allows
		}
		c.deliver(b, w, every(1<<20))
		c.deliver(b, w, every(1))
	})
	// Packets in sequence on one connection: what one carried does not show in the next.
	base := inboundBase()
	var seq []*ref.Packet
	for _, q := range base {
		if q.Type == ref.CONNACK || q.Type == ref.DISCONNECT {
			continue
		}
		seq = append(seq, q)
		if q.HasProps || q.Type == ref.PUBLISH {
			var all []ref.Prop
			for _, id := range ref.Allowed(q.Type) {
				all = append(all, propValue(id, 1))
			}
			seq = append(seq, withProps(q, all))
		}
	}
	c.par(len(seq), func(i int) {
		for _, second := range seq {
			c.pair(seq[i], second)
		}
	})
}

// pair delivers two packets on one connection.
func (c *check) pair(a, b *ref.Packet) {
	desc := func() string { return fmt.Sprintf("%v followed by %v", a, b) }
	c.evals.Add(1)
	c.try(desc, func() {
		s, err := open()
		if err != nil {
			c.bad("connect", desc(), "connecting fails: "+err.Error())
			return
		}
		defer func() { c.ops.Add(int64(s.f.ops)) }()
		s.f.in = append(a.Encode(), b.Encode()...)
		if _, _, err := ref.Decode(a.Encode()); err != nil {
			panic(err)
		}
		for i, want := range []*ref.Packet{a, b} {
			dup := i == 1 && a.Type == ref.PUBLISH && b.Type == ref.PUBLISH && a.QoS() == 2 && b.QoS() == 2 && a.ID == b.ID
			if err := s.cl.Poll(farCtx); err != nil {
				c.bad("refused", desc(), fmt.Sprintf("packet %d is refused: %v", i+1, err))
				return
			}
			e := s.event()
			if dup && e == nil {
				continue
			}
			if e == nil || byte(e.PacketType) != want.Type {
				c.bad("event", desc(), fmt.Sprintf("packet %d is announced as %+v", i+1, e))
				return
			}
			got := fromLib(e.Data)
			if got == nil {
				c.bad("event", desc(), fmt.Sprintf("announced with data of type %T", e.Data))
				return
			}
			if d := diff(got, expected(want)); d != "" {
				c.bad("content", desc(), fmt.Sprintf("packet %d: decoded content differs: %s", i+1, d))
				return
			}
		}
	})
}
