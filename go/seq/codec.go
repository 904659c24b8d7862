package main

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	p "github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"

	"verif/ref"
)

// encode runs WriteTo and decodes the result with the reference decoder.
func (c *check) encode(w io.WriterTo, desc func() string) (*ref.Packet, []byte) {
	var buf counter
	c.evals.Add(1)
	n, err := w.WriteTo(&buf)
	c.ops.Add(buf.n)
	if err != nil {
		c.bad("encode-error", desc(), "encoding a valid packet fails: "+err.Error())
		return nil, nil
	}
	b := buf.Bytes()
	if int(n) != len(b) {
		c.bad("count", desc(), fmt.Sprintf("WriteTo reports %d bytes but produced %d", n, len(b)))
		return nil, nil
	}
	q, k, err := ref.Decode(b)
	if err != nil {
		c.bad("malformed", desc(), fmt.Sprintf("the encoding is not a well-formed packet: %v\n  bytes: %x", err, clip(b)))
		return nil, nil
	}
	if k != len(b) {
		c.bad("malformed", desc(), fmt.Sprintf("the first packet ends after %d of %d bytes\n  bytes: %x", k, len(b), clip(b)))
		return nil, nil
	}
	return q, b
}

// counter counts the writes made to a buffer.
type counter struct {
	bytes.Buffer
	n int64
}

func (b *counter) Write(q []byte) (int, error) {
	b.n++
	return b.Buffer.Write(q)
}

func clip(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

// same compares a decoded packet with the expected one.
func (c *check) same(got, want *ref.Packet, b []byte, desc func() string) {
	if got == nil {
		return
	}
	if d := diff(got, want); d != "" {
		c.bad("content", desc(), "the encoding does not carry what was set: "+d+fmt.Sprintf("\n  bytes: %x", clip(b)))
	}
}

func diff(got, want *ref.Packet) string {
	var d []string
	f := func(name string, a, b any) {
		if !reflect.DeepEqual(a, b) {
			d = append(d, fmt.Sprintf("%s is %.80q, want %.80q", name, fmt.Sprint(a), fmt.Sprint(b)))
		}
	}
	f("type", ref.TypeNames[got.Type], ref.TypeNames[want.Type])
	f("flags", got.Flags, want.Flags)
	f("protocol version", got.ProtoVer, want.ProtoVer)
	f("connect flags", got.ConnFlags, want.ConnFlags)
	f("keep alive", got.KeepAlive, want.KeepAlive)
	f("client id", got.ClientID, want.ClientID)
	f("will topic", got.WillTopic, want.WillTopic)
	f("will payload", got.WillPayload, want.WillPayload)
	f("username", got.Username, want.Username)
	f("password", got.Password, want.Password)
	f("packet id", got.ID, want.ID)
	f("reason", got.Reason, want.Reason)
	f("topic", got.Topic, want.Topic)
	f("payload", string(got.Payload), string(want.Payload))
	f("codes", string(got.Codes), string(want.Codes))
	if len(got.Filters)+len(want.Filters) > 0 {
		f("filters", got.Filters, want.Filters)
	}
	if !ref.SameProps(got.Props, want.Props) {
		d = append(d, fmt.Sprintf("properties are %.200v, want %.200v", ref.NormProps(got.Props), ref.NormProps(want.Props)))
	}
	if !ref.SameProps(got.WillProps, want.WillProps) {
		d = append(d, fmt.Sprintf("will properties are %.200v, want %.200v", ref.NormProps(got.WillProps), ref.NormProps(want.WillProps)))
	}
	return strings.Join(d, "; ")
}

func user(n int) (m p.PrimitiveStringMap, ps []ref.Prop) {
	m = p.PrimitiveStringMap{}
	for i := 0; i < n; i++ {
		k, v := fmt.Sprintf("k%d", i), strings.Repeat("v", i)
		m[p.PrimitiveString(k)] = p.PrimitiveString(v)
		ps = append(ps, ref.Prop{ID: 0x26, S: k, V: v})
	}
	return
}

func str(n int) string {
	if n == 0 {
		return ""
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte(i%23)
	}
	return string(b)
}

// sizes are the string lengths around every boundary of the length encodings.
func sizes(thorough bool) []int {
	var s []int
	for i := 0; i <= 300; i++ {
		s = append(s, i)
	}
	for i := 16300; i <= 16400; i++ {
		s = append(s, i)
	}
	s = append(s, 65500, 65533, 65534, 65535)
	if thorough {
		for i := 301; i < 16300; i++ {
			s = append(s, i)
		}
	}
	return s
}

// connectOf builds a CONNECT and the packet it must encode to. Bits select the fields that are set.
func connectOf(m, w, qos int) (*packets.Connect, *ref.Packet) {
	c := &packets.Connect{Version: packets.MQTT5}
	e := &ref.Packet{Type: ref.CONNECT, ProtoVer: 5}
	bit := func(i int) bool { return m>>uint(i)&1 != 0 }
	prop := func(id byte, n uint32, s string) { e.Props = append(e.Props, ref.Prop{ID: id, Num: n, S: s}) }
	if bit(0) {
		c.SessionExpiryInterval = 0xfffffffe
		prop(0x11, 0xfffffffe, "")
	}
	if bit(1) {
		c.ReceiveMaximum = 0x1234
		prop(0x21, 0x1234, "")
	}
	if bit(2) {
		c.MaximumPacketSize = 0x01020304
		prop(0x27, 0x01020304, "")
	}
	if bit(3) {
		c.TopicAliasMaximum = 0xfedc
		prop(0x22, 0xfedc, "")
	}
	if bit(4) {
		c.RequestResponseInformation = 1
		prop(0x19, 1, "")
	}
	if bit(5) {
		c.RequestProblemInformation = 1
		prop(0x17, 1, "")
	}
	if bit(6) {
		var ps []ref.Prop
		c.UserProperties, ps = user(2)
		e.Props = append(e.Props, ps...)
	}
	if bit(7) {
		c.AuthenticationMethod = "meth"
		prop(0x15, 0, "meth")
		if bit(8) {
			c.AuthenticationData = "\x00\xff"
			prop(0x16, 0, "\x00\xff")
		}
	}
	if bit(9) {
		c.Username = "usér"
		e.Username = "usér"
		e.ConnFlags |= 0x80
	}
	if bit(10) {
		c.Password = "\x00p\xff"
		e.Password = "\x00p\xff"
		e.ConnFlags |= 0x40
	}
	if bit(11) {
		c.CleanSession = true
		e.ConnFlags |= 2
	}
	if bit(12) {
		c.ClientId = "client"
		e.ClientID = "client"
	}
	if bit(13) {
		c.KeepAlive = 0xabcd
		e.KeepAlive = 0xabcd
	}
	wb := func(i int) bool { return w>>uint(i)&1 != 0 }
	will := wb(0)
	wprop := func(id byte, n uint32, s string) {
		if will {
			e.WillProps = append(e.WillProps, ref.Prop{ID: id, Num: n, S: s})
		}
	}
	if will {
		c.Will = "bye\x00"
		e.WillPayload = "bye\x00"
		e.ConnFlags |= 4 | byte(qos)<<3
		e.WillTopic = "w/t"
	}
	c.WillTopic = "w/t"
	c.WillQos = packets.QoS(qos)
	if wb(1) {
		c.WillRetain = true
		if will {
			e.ConnFlags |= 0x20
		}
	}
	if wb(2) {
		c.WillDelayInterval = 0x0a0b0c0d
		wprop(0x18, 0x0a0b0c0d, "")
	}
	if wb(3) {
		c.WillMessageExpiryInterval = 7
		wprop(0x02, 7, "")
	}
	if wb(4) {
		c.WillContentType = "ct"
		wprop(0x03, 0, "ct")
	}
	if wb(5) {
		c.WillResponseTopic = "resp/t"
		wprop(0x08, 0, "resp/t")
	}
	if wb(6) {
		c.WillCorrelationData = "\x01\x02"
		wprop(0x09, 0, "\x01\x02")
	}
	if wb(7) {
		var ps []ref.Prop
		c.WillUserProperties, ps = user(2)
		if will {
			e.WillProps = append(e.WillProps, ps...)
		}
	}
	return c, e
}

func c01(c *check) {
	c.Coverage["rule"] = "every subset of CONNECT fields x every subset of will fields x will QoS; every string field alone and in pairs at the lengths around the 1/2/3-byte length boundaries; every number at its boundaries. States = distinct field combinations; traces = executions of the real code compared with the reference; transitions = reads and writes on the streams."
	// Every combination of fields.
	c.par(1<<14, func(m int) {
		if m>>7&3 == 2 { // authentication data without method is not a valid CONNECT
			return
		}
		for w := 0; w < 1<<8; w++ {
			if w&1 == 0 && w != 0 && w != 0xfe { // without a will, only "nothing set" and "all attributes set"
				continue
			}
			for qos := 0; qos < 3; qos++ {
				if w&1 == 0 && qos == 1 {
					continue
				}
				desc := func() string { v, _ := connectOf(m, w, qos); return fmt.Sprintf("%+v", *v) }
				c.try(desc, func() {
					v, e := connectOf(m, w, qos)
					got, b := c.encode(v, desc)
					c.same(got, e, b, desc)
				})
			}
		}
		c.nontrivial.Add(1)
	})
	c.Sample("all 2^14 x (2^7+2) x 3 field combinations, e.g. " + fmt.Sprintf("%+v", func() packets.Connect { v, _ := connectOf(0x3fff, 0xff, 2); return *v }()))
	// Numbers at their boundaries.
	u16 := []uint16{0, 1, 127, 128, 255, 256, 0x7fff, 0x8000, 65535}
	u32 := []uint32{0, 1, 127, 128, 255, 256, 65535, 65536, 1 << 24, 0x7fffffff, 0x80000000, 0xffffffff}
	for _, a := range u16 {
		for _, b := range u32 {
			v, e := connectOf(0x1000, 1, 1)
			v.KeepAlive, e.KeepAlive = p.PrimitiveUint16(a), a
			v.ReceiveMaximum = p.PrimitiveUint16(a)
			v.TopicAliasMaximum = p.PrimitiveUint16(a)
			v.SessionExpiryInterval = p.PrimitiveUint32(b)
			v.MaximumPacketSize = p.PrimitiveUint32(b)
			v.WillDelayInterval = p.PrimitiveUint32(b)
			v.WillMessageExpiryInterval = p.PrimitiveUint32(b)
			if a > 0 {
				e.Props = append(e.Props, ref.Prop{ID: 0x21, Num: uint32(a)}, ref.Prop{ID: 0x22, Num: uint32(a)})
			}
			if b > 0 {
				e.Props = append(e.Props, ref.Prop{ID: 0x11, Num: b}, ref.Prop{ID: 0x27, Num: b})
				e.WillProps = append(e.WillProps, ref.Prop{ID: 0x18, Num: b}, ref.Prop{ID: 0x02, Num: b})
			}
			desc := func() string { return fmt.Sprintf("%+v", *v) }
			got, bb := c.encode(v, desc)
			c.same(got, e, bb, desc)
			c.nontrivial.Add(1)
		}
	}
	// String fields at the boundary lengths.
	type sf struct {
		name string
		set  func(v *packets.Connect, e *ref.Packet, s string)
	}
	ps := func(s string) p.PrimitiveString { return p.PrimitiveString(s) }
	fields := []sf{
		{"ClientId", func(v *packets.Connect, e *ref.Packet, s string) { v.ClientId = ps(s); e.ClientID = s }},
		{"Username", func(v *packets.Connect, e *ref.Packet, s string) {
			v.Username = ps(s)
			e.Username = s
			e.ConnFlags |= 0x80
		}},
		{"Password", func(v *packets.Connect, e *ref.Packet, s string) {
			v.Password = ps(s)
			e.Password = s
			e.ConnFlags |= 0x40
		}},
		{"Will", func(v *packets.Connect, e *ref.Packet, s string) { v.Will = ps(s); e.WillPayload = s }},
		{"WillTopic", func(v *packets.Connect, e *ref.Packet, s string) { v.WillTopic = ps(s); e.WillTopic = s }},
		{"WillContentType", func(v *packets.Connect, e *ref.Packet, s string) {
			v.WillContentType = ps(s)
			e.WillProps = append(e.WillProps, ref.Prop{ID: 3, S: s})
		}},
		{"WillResponseTopic", func(v *packets.Connect, e *ref.Packet, s string) {
			v.WillResponseTopic = ps(s)
			e.WillProps = append(e.WillProps, ref.Prop{ID: 8, S: s})
		}},
		{"WillCorrelationData", func(v *packets.Connect, e *ref.Packet, s string) {
			v.WillCorrelationData = ps(s)
			e.WillProps = append(e.WillProps, ref.Prop{ID: 9, S: s})
		}},
		{"WillUserProperties key", func(v *packets.Connect, e *ref.Packet, s string) {
			v.WillUserProperties = p.PrimitiveStringMap{ps(s): "x"}
			e.WillProps = append(e.WillProps, ref.Prop{ID: 0x26, S: s, V: "x"})
		}},
		{"UserProperties value", func(v *packets.Connect, e *ref.Packet, s string) {
			v.UserProperties = p.PrimitiveStringMap{"k": ps(s)}
			e.Props = append(e.Props, ref.Prop{ID: 0x26, S: "k", V: s})
		}},
		{"AuthenticationMethod", func(v *packets.Connect, e *ref.Packet, s string) {
			v.AuthenticationMethod = ps(s)
			e.Props = append(e.Props, ref.Prop{ID: 0x15, S: s})
		}},
		{"AuthenticationData", func(v *packets.Connect, e *ref.Packet, s string) {
			v.AuthenticationMethod = "m"
			v.AuthenticationData = ps(s)
			e.Props = append(e.Props, ref.Prop{ID: 0x15, S: "m"}, ref.Prop{ID: 0x16, S: s})
		}},
	}
	ss := sizes(c.Thorough())
	c.par(len(fields)*len(ss), func(i int) {
		f, n := fields[i%len(fields)], ss[i/len(fields)]
		if n == 0 {
			return
		}
		desc := func() string { return fmt.Sprintf("CONNECT with a %s of %d bytes and a will", f.name, n) }
		c.try(desc, func() {
			v, e := connectOf(0, 1, 0)
			f.set(v, e, str(n))
			got, b := c.encode(v, desc)
			c.same(got, e, b, desc)
		})
		c.nontrivial.Add(1)
	})
	// Pairs of fields that together move the lengths across a boundary.
	var short []int
	for _, n := range []int{1, 40, 60, 61, 62, 63, 64, 65, 100, 110, 120, 121, 122, 123, 124, 125, 126, 127, 128, 8180, 8190, 16250, 16380} {
		short = append(short, n)
	}
	c.par(len(fields)*len(fields), func(i int) {
		f, g := fields[i%len(fields)], fields[i/len(fields)]
		if f.name == g.name || strings.HasPrefix(f.name, "Auth") && strings.HasPrefix(g.name, "Auth") {
			return
		}
		for _, n := range short {
			for _, m := range short {
				desc := func() string {
					return fmt.Sprintf("CONNECT with a %s of %d and a %s of %d bytes", f.name, n, g.name, m)
				}
				c.try(desc, func() {
					v, e := connectOf(0, 1, 0)
					f.set(v, e, str(n))
					g.set(v, e, str(m))
					got, b := c.encode(v, desc)
					c.same(got, e, b, desc)
				})
				c.nontrivial.Add(1)
			}
		}
	})
	// Property sections of more than 2 MiB (four-byte lengths), in the CONNECT and in the will.
	for _, total := range []int{2097151 - 1, 2097151, 2097152, 2097153} {
		for will := 0; will < 2; will++ {
			v, e := connectOf(0, 1, 0)
			m, list := bigUser(total - 2*will)
			if will == 1 {
				v.WillUserProperties, e.WillProps = m, list
			} else {
				v.UserProperties, e.Props = m, list
			}
			desc := func() string { return fmt.Sprintf("CONNECT with %d bytes of properties (will: %d)", total, will) }
			c.try(desc, func() {
				got, b := c.encode(v, desc)
				c.same(got, e, b, desc)
			})
			c.nontrivial.Add(1)
		}
	}
	// A string that does not fit its length field must be refused.
	for _, f := range fields {
		for _, n := range []int{65536, 65537, 131072} {
			v, e := connectOf(0, 1, 0)
			f.set(v, e, str(n))
			c.refused(v, fmt.Sprintf("CONNECT with a %s of %d bytes", f.name, n))
		}
	}
}

// bigUser returns user properties whose encoding takes exactly total bytes.
func bigUser(total int) (p.PrimitiveStringMap, []ref.Prop) {
	m := p.PrimitiveStringMap{}
	var l []ref.Prop
	for i := 0; total > 0; i++ {
		n := 60000
		if total < 70000 {
			n = total
		}
		k := fmt.Sprintf("%05d", i)
		v := str(n - 5 - len(k))
		m[p.PrimitiveString(k)] = p.PrimitiveString(v)
		l = append(l, ref.Prop{ID: 0x26, S: k, V: v})
		total -= n
	}
	return m, l
}

func (c *check) refused(w io.WriterTo, desc string) {
	c.try(func() string { return desc }, func() {
		c.evals.Add(1)
		c.nontrivial.Add(1)
		var buf counter
		_, err := w.WriteTo(&buf)
		c.ops.Add(buf.n)
		if err == nil {
			c.bad("not-refused", desc, "encoding must fail but succeeded")
		}
	})
}

// ---- C02 ----------------------------------------------------------------------------------------------------------

func publishOf(m, qos int) (*packets.Publish, *ref.Packet) {
	v := &packets.Publish{QoS: packets.QoS(qos)}
	e := &ref.Packet{Type: ref.PUBLISH, Flags: byte(qos) << 1}
	bit := func(i int) bool { return m>>uint(i)&1 != 0 }
	prop := func(id byte, n uint32, s string) { e.Props = append(e.Props, ref.Prop{ID: id, Num: n, S: s}) }
	if bit(0) {
		v.Retain = true
		e.Flags |= 1
	}
	if bit(1) && qos > 0 {
		v.Duplicate = true
		e.Flags |= 8
	}
	if bit(2) {
		v.Topic, e.Topic = "a/b", "a/b"
	}
	if bit(3) {
		v.TopicAlias = 0x0102
		prop(0x23, 0x0102, "")
	}
	if bit(4) {
		v.MessageExpiryInterval = 0x01020304
		prop(0x02, 0x01020304, "")
	}
	if bit(5) {
		v.ResponseTopic = "r"
		prop(0x08, 0, "r")
	}
	if bit(6) {
		v.CorrelationData = "\xff\x00"
		prop(0x09, 0, "\xff\x00")
	}
	if bit(7) {
		var ps []ref.Prop
		v.UserProperties, ps = user(2)
		e.Props = append(e.Props, ps...)
	}
	if bit(8) {
		v.SubscriptionIdentifier = 300
		prop(0x0B, 300, "")
	}
	if bit(9) {
		v.ContentType = "text"
		prop(0x03, 0, "text")
	}
	if bit(10) {
		v.Payload, e.Payload = []byte("payload\x00\xff"), []byte("payload\x00\xff")
	}
	if qos > 0 {
		v.PacketIdentifier, e.ID = 0x1234, 0x1234
	}
	return v, e
}

type fragReader struct {
	b   []byte
	n   func() int
	ops int64
}

func (f *fragReader) Read(q []byte) (int, error) {
	f.ops++
	if len(q) == 0 {
		return 0, nil
	}
	if len(f.b) == 0 {
		return 0, io.EOF
	}
	n := min(f.n(), len(q), len(f.b))
	copy(q, f.b[:n])
	f.b = f.b[n:]
	return n, nil
}

// roundTrip decodes with the library's stand-alone decoder in fragments and compares.
func (c *check) roundTrip(v *packets.Publish, b []byte, frag int, desc func() string) {
	tail := []byte{0xC0, 0x00, 0x30}
	r := &fragReader{b: append(append([]byte{}, b...), tail...), n: func() int { return frag }}
	var q packets.Publish
	c.evals.Add(1)
	n, err := q.ReadFrom(r)
	c.ops.Add(r.ops)
	if err != nil {
		c.bad("decode-error", desc(), "decoding the encoded packet fails: "+err.Error()+fmt.Sprintf("\n  bytes: %x", clip(b)))
		return
	}
	if int(n) != len(b) || !bytes.Equal(r.b, tail) {
		c.bad("decode-count", desc(), fmt.Sprintf("decoding %d bytes reports %d and consumes %d", len(b), n, len(b)+len(tail)-len(r.b)))
		return
	}
	if d := diffPublish(&q, v); d != "" {
		c.bad("roundtrip", desc(), "decoding the encoded packet yields another packet: "+d)
	}
}

func diffPublish(got, want *packets.Publish) string {
	var d []string
	f := func(n string, a, b any) {
		if !reflect.DeepEqual(a, b) {
			d = append(d, fmt.Sprintf("%s is %.60v, want %.60v", n, a, b))
		}
	}
	f("Retain", got.Retain, want.Retain)
	f("QoS", got.QoS, want.QoS)
	f("Duplicate", got.Duplicate, want.Duplicate)
	f("Topic", got.Topic, want.Topic)
	f("PacketIdentifier", got.PacketIdentifier, want.PacketIdentifier)
	f("Payload", string(got.Payload), string(want.Payload))
	f("MessageExpiryInterval", got.MessageExpiryInterval, want.MessageExpiryInterval)
	f("TopicAlias", got.TopicAlias, want.TopicAlias)
	f("ResponseTopic", got.ResponseTopic, want.ResponseTopic)
	f("CorrelationData", got.CorrelationData, want.CorrelationData)
	f("SubscriptionIdentifier", got.SubscriptionIdentifier, want.SubscriptionIdentifier)
	f("ContentType", got.ContentType, want.ContentType)
	if len(got.UserProperties)+len(want.UserProperties) > 0 {
		f("UserProperties", got.UserProperties, want.UserProperties)
	}
	return strings.Join(d, "; ")
}

func c02(c *check) {
	c.Coverage["rule"] = "every subset of PUBLISH fields x QoS, every length around the boundaries for every string field and the payload, every packet-identifier/number boundary; each encoding decoded by the reference and by the library's own decoder in fragments of 1, 2, 3, 7 and all bytes. States = distinct packets; traces = executions of the real code compared with the reference; transitions = reads and writes on the streams."
	c.par(1<<11, func(m int) {
		for qos := 0; qos < 3; qos++ {
			desc := func() string { v, _ := publishOf(m, qos); return fmt.Sprintf("%+v", *v) }
			c.try(desc, func() {
				v, e := publishOf(m, qos)
				if m>>2&3 == 0 {
					c.refused(v, "PUBLISH without topic and alias: "+desc())
					return
				}
				got, b := c.encode(v, desc)
				c.same(got, e, b, desc)
				if got != nil {
					w, _ := publishOf(m, qos)
					for _, frag := range []int{1, 2, 3, 7, 1 << 20} {
						c.roundTrip(w, b, frag, desc)
					}
					// Encoding again (retransmission) gives the same bytes up to the order of user properties.
					got2, b2 := c.encode(v, desc)
					c.same(got2, e, b2, desc)
				}
			})
			c.nontrivial.Add(1)
		}
	})
	c.Sample(func() string { v, _ := publishOf(0x7ff, 2); return fmt.Sprintf("%+v", *v) }())
	one := func(name string, v *packets.Publish, e *ref.Packet) {
		desc := func() string { return "PUBLISH " + name }
		c.try(desc, func() {
			got, b := c.encode(v, desc)
			c.same(got, e, b, desc)
			if got != nil {
				c.roundTrip(v, b, 1<<20, desc)
				if len(b) < 1000 {
					c.roundTrip(v, b, 1, desc)
				} else {
					c.roundTrip(v, b, 4096, desc)
				}
			}
		})
		c.nontrivial.Add(1)
	}
	for _, id := range []uint16{1, 2, 127, 128, 255, 256, 257, 0x7fff, 0x8000, 65535} {
		for qos := 1; qos < 3; qos++ {
			v, e := publishOf(4, qos)
			v.PacketIdentifier, e.ID = p.PrimitiveUint16(id), id
			one(fmt.Sprintf("id %d", id), v, e)
		}
	}
	for _, n := range []uint32{1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455} {
		v, e := publishOf(4, 0)
		v.SubscriptionIdentifier = p.VariableByteInt(n)
		v.MessageExpiryInterval = p.PrimitiveUint32(n)
		v.TopicAlias = p.PrimitiveUint16(n%65535 + 1)
		e.Props = []ref.Prop{{ID: 0x0B, Num: n}, {ID: 0x02, Num: n}, {ID: 0x23, Num: n%65535 + 1}}
		one(fmt.Sprintf("numbers %d", n), v, e)
	}
	type sf struct {
		name string
		set  func(v *packets.Publish, e *ref.Packet, s string)
	}
	ps := func(s string) p.PrimitiveString { return p.PrimitiveString(s) }
	fields := []sf{
		{"Topic", func(v *packets.Publish, e *ref.Packet, s string) { v.Topic = ps(s); e.Topic = s }},
		{"ResponseTopic", func(v *packets.Publish, e *ref.Packet, s string) {
			v.ResponseTopic = ps(s)
			e.Props = append(e.Props, ref.Prop{ID: 8, S: s})
		}},
		{"CorrelationData", func(v *packets.Publish, e *ref.Packet, s string) {
			v.CorrelationData = ps(s)
			e.Props = append(e.Props, ref.Prop{ID: 9, S: s})
		}},
		{"ContentType", func(v *packets.Publish, e *ref.Packet, s string) {
			v.ContentType = ps(s)
			e.Props = append(e.Props, ref.Prop{ID: 3, S: s})
		}},
		{"UserProperties", func(v *packets.Publish, e *ref.Packet, s string) {
			v.UserProperties = p.PrimitiveStringMap{"k": ps(s)}
			e.Props = append(e.Props, ref.Prop{ID: 0x26, S: "k", V: s})
		}},
		{"Payload", func(v *packets.Publish, e *ref.Packet, s string) { v.Payload = []byte(s); e.Payload = []byte(s) }},
	}
	ss := sizes(c.Thorough())
	c.par(len(fields)*len(ss), func(i int) {
		f, n := fields[i%len(fields)], ss[i/len(fields)]
		if n == 0 {
			return
		}
		for qos := 0; qos < 3; qos += 2 {
			v, e := publishOf(4, qos)
			f.set(v, e, str(n))
			one(fmt.Sprintf("with a %s of %d bytes, QoS %d", f.name, n, qos), v, e)
		}
	})
	short := []int{1, 40, 50, 60, 62, 64, 100, 110, 115, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 8185, 16250, 16380}
	c.par(len(fields)*len(fields), func(i int) {
		f, g := fields[i%len(fields)], fields[i/len(fields)]
		if f.name == g.name {
			return
		}
		for _, n := range short {
			for _, m := range short {
				v, e := publishOf(4, 1)
				f.set(v, e, str(n))
				g.set(v, e, str(m))
				one(fmt.Sprintf("with a %s of %d and a %s of %d bytes", f.name, n, g.name, m), v, e)
			}
		}
	})
	for _, n := range []int{2097130, 2097140, 2097141, 2097142, 2097143, 2097144, 2097145, 2097146, 2097147, 2097148, 2097149, 2097150, 2097151, 2097152} {
		v, e := publishOf(4, 1)
		v.Payload, e.Payload = []byte(str(n)), []byte(str(n))
		one(fmt.Sprintf("with a payload of %d bytes", n), v, e)
		w, g := publishOf(4, 1)
		w.UserProperties, g.Props = bigUser(n)
		one(fmt.Sprintf("with %d bytes of properties", n), w, g)
	}
	for _, f := range fields[:5] {
		for _, n := range []int{65536, 65537, 131072} {
			v, e := publishOf(4, 1)
			f.set(v, e, str(n))
			c.refused(v, fmt.Sprintf("PUBLISH with a %s of %d bytes", f.name, n))
		}
	}
	// A packet that exceeds the largest remaining length must be refused.
	v, _ := publishOf(4, 1)
	v.Payload = make([]byte, 268435455)
	c.refused(v, "PUBLISH with a payload of 268435455 bytes")
}
