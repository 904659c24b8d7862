package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync/atomic"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	p "github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	"github.com/waj334/tinygo-mqtt/mqtt/storage/memory"

	"verif/ref"
)

// conn is a connection whose peer is a byte slice.
type conn struct {
	in       []byte
	cut      func(consumed int) int // how many bytes the next read may return
	consumed int
	out      []byte
	eof      bool // the peer has closed after the last byte
	closed   atomic.Bool
	ops      int // reads and writes
}

type addr struct{}

func (addr) Network() string { return "fake" }
func (addr) String() string  { return "fake" }

func (f *conn) Read(b []byte) (int, error) {
	f.ops++
	if f.closed.Load() {
		return 0, net.ErrClosed
	}
	if len(b) == 0 {
		return 0, nil
	}
	if len(f.in) == 0 {
		if f.eof {
			return 0, io.EOF
		}
		return 0, os.ErrDeadlineExceeded
	}
	n := min(len(b), len(f.in))
	if f.cut != nil {
		n = max(1, min(n, f.cut(f.consumed)))
	}
	copy(b, f.in[:n])
	f.in = f.in[n:]
	f.consumed += n
	return n, nil
}
func (f *conn) Write(b []byte) (int, error) {
	f.ops++
	if f.closed.Load() {
		return 0, net.ErrClosed
	}
	f.out = append(f.out, b...)
	return len(b), nil
}
func (f *conn) Close() error                     { f.closed.Store(true); return nil }
func (f *conn) LocalAddr() net.Addr              { return addr{} }
func (f *conn) RemoteAddr() net.Addr             { return addr{} }
func (f *conn) SetDeadline(time.Time) error      { return nil }
func (f *conn) SetReadDeadline(time.Time) error  { return nil }
func (f *conn) SetWriteDeadline(time.Time) error { return nil }

var farCtx, _ = context.WithDeadline(context.Background(), time.Now().Add(24*time.Hour))

type session struct {
	f  *conn
	cl *mqtt.Client
	ev mqtt.EventChannel
}

var okConnack = (&ref.Packet{Type: ref.CONNACK, HasProps: true}).Encode()

// open returns a connected client whose event channel is empty.
func open() (*session, error) {
	s := &session{f: &conn{in: append([]byte{}, okConnack...)}}
	s.cl = mqtt.NewClient(s.f)
	s.cl.SetStorage(memory.NewStorage())
	if err := s.cl.Connect(farCtx, &packets.Connect{Version: packets.MQTT5, ClientId: "c"}); err != nil {
		return nil, err
	}
	s.ev = s.cl.CreateEventChannel(16)
	s.f.consumed = 0
	s.f.out = nil
	return s, nil
}

func (s *session) event() *mqtt.Event {
	select {
	case e := <-s.ev.C:
		return e
	default:
		return nil
	}
}

func mapProps(m p.PrimitiveStringMap) (ps []ref.Prop) {
	for k, v := range m {
		ps = append(ps, ref.Prop{ID: 0x26, S: string(k), V: string(v)})
	}
	return
}

// fromLib translates a decoded library packet.
func fromLib(data any) *ref.Packet {
	q := &ref.Packet{}
	num := func(id byte, n uint32) {
		if n != 0 {
			q.Props = append(q.Props, ref.Prop{ID: id, Num: n})
		}
	}
	s := func(id byte, v p.PrimitiveString) {
		if v != "" {
			q.Props = append(q.Props, ref.Prop{ID: id, S: string(v)})
		}
	}
	ack := func(t byte, a *packets.Puback) {
		q.Type, q.ID, q.Reason = t, uint16(a.PacketIdentifier), byte(a.ReasonCode)
		s(0x1F, a.ReasonString)
		q.Props = append(q.Props, mapProps(a.UserProperties)...)
	}
	switch v := data.(type) {
	case *packets.Connack:
		q.Type, q.Reason = ref.CONNACK, byte(v.ReasonCode)
		if v.SessionPresent {
			q.AckFlags = 1
		}
		num(0x11, uint32(v.SessionExpiryInterval))
		num(0x21, uint32(v.ReceiveMaximum))
		num(0x24, uint32(v.MaximumQoS))
		num(0x25, uint32(v.RetainAvailable))
		num(0x27, uint32(v.MaximumPacketSize))
		s(0x12, v.ClientId)
		num(0x22, uint32(v.TopicAliasMaximum))
		s(0x1F, v.ReasonString)
		num(0x28, uint32(v.WildcardSubscriptions))
		num(0x29, uint32(v.SubscriptionIdentifiers))
		num(0x2A, uint32(v.SharedSubscriptions))
		num(0x13, uint32(v.ServerKeepAlive))
		s(0x1A, v.ResponseInformation)
		s(0x1C, v.ServerReference)
		s(0x15, v.AuthenticationMethod)
		s(0x16, v.AuthenticationData)
		q.Props = append(q.Props, mapProps(v.UserProperties)...)
	case *packets.Publish:
		q.Type, q.ID, q.Topic, q.Payload = ref.PUBLISH, uint16(v.PacketIdentifier), string(v.Topic), v.Payload
		q.Flags = byte(v.QoS) << 1
		if v.Retain {
			q.Flags |= 1
		}
		if v.Duplicate {
			q.Flags |= 8
		}
		num(0x02, uint32(v.MessageExpiryInterval))
		num(0x23, uint32(v.TopicAlias))
		s(0x08, v.ResponseTopic)
		s(0x09, v.CorrelationData)
		num(0x0B, uint32(v.SubscriptionIdentifier))
		s(0x03, v.ContentType)
		q.Props = append(q.Props, mapProps(v.UserProperties)...)
	case *packets.Puback:
		ack(ref.PUBACK, v)
	case *packets.Pubrec:
		ack(ref.PUBREC, &v.Puback)
	case *packets.Pubrel:
		ack(ref.PUBREL, &v.Puback)
		q.Flags = 2
	case *packets.Pubcomp:
		ack(ref.PUBCOMP, &v.Puback)
	case *packets.Suback:
		q.Type, q.ID, q.Codes = ref.SUBACK, uint16(v.PacketIdentifier), v.ReasonCodes
		s(0x1F, v.ReasonString)
		q.Props = append(q.Props, mapProps(v.UserProperties)...)
	case *packets.Unsuback:
		q.Type, q.ID, q.Codes = ref.UNSUBACK, uint16(v.PacketIdentifier), v.ReasonCodes
		s(0x1F, v.ReasonString)
		q.Props = append(q.Props, mapProps(v.UserProperties)...)
	case *packets.Disconnect:
		q.Type, q.Reason = ref.DISCONNECT, byte(v.ReasonCode)
		num(0x11, uint32(v.SessionExpiryInterval))
		s(0x1F, v.ReasonString)
		s(0x1C, v.ServerReference)
		q.Props = append(q.Props, mapProps(v.UserProperties)...)
	case *packets.Auth:
		q.Type, q.Reason = ref.AUTH, byte(v.AuthenticateReasonCode)
		s(0x15, v.AuthenticationMethod)
		s(0x16, v.AuthenticationData)
		s(0x1F, v.ReasonString)
		q.Props = append(q.Props, mapProps(v.UserProperties)...)
	default:
		return nil
	}
	return q
}

// expected reduces a well-formed packet to what the library's packet types can express: numbers and strings that equal
// the zero value are the same as absent, the payload format indicator is not exposed.
func expected(q *ref.Packet) *ref.Packet {
	e := *q
	e.Props = nil
	e.ProtoName = ""
	for _, pr := range q.Props {
		if pr.ID == 0x01 || pr.ID != 0x26 && pr.Num == 0 && pr.S == "" {
			continue
		}
		e.Props = append(e.Props, pr)
	}
	return &e
}

// frag is a way to deliver a stream in pieces.
type frag struct {
	name string
	cut  func(consumed int) int
}

func every(n int) frag {
	return frag{fmt.Sprintf("pieces of %d", n), func(int) int { return n }}
}

// cuts delivers the stream with boundaries at the given offsets.
func cuts(at ...int) frag {
	return frag{fmt.Sprintf("cut at %v", at), func(c int) int {
		for _, a := range at {
			if a > c {
				return a - c
			}
		}
		return 1 << 30
	}}
}

func bits(mask uint) frag {
	return frag{fmt.Sprintf("cut mask %b", mask), func(c int) int {
		n := 1
		for mask>>(c+n-1)&1 == 0 && n < 40 {
			n++
		}
		return n
	}}
}

var marker = (&ref.Packet{Type: ref.PUBCOMP, ID: 0x7e7e}).Encode()

// deliver sends a well-formed packet and then a marker packet to a connected client and checks what the client announces.
func (c *check) deliver(b []byte, want *ref.Packet, f frag) {
	desc := func() string { return fmt.Sprintf("%v, bytes %x, delivered in %s", want, clip(b), f.name) }
	c.evals.Add(1)
	c.distinct(b)
	c.try(desc, func() {
		s, err := open()
		if err != nil {
			c.bad("connect", desc(), "connecting fails: "+err.Error())
			return
		}
		g := s.f
		defer func() { c.ops.Add(int64(g.ops)) }()
		s.f.in = append(append([]byte{}, b...), marker...)
		s.f.cut = f.cut
		if want.Type == ref.CONNACK {
			// A CONNACK is only expected once, so it takes a new client.
			s.f = &conn{in: s.f.in, cut: f.cut}
			defer func() { c.ops.Add(int64(s.f.ops)) }()
			s.cl = mqtt.NewClient(s.f)
			s.ev = s.cl.CreateEventChannel(16)
			err = s.cl.Connect(farCtx, &packets.Connect{Version: packets.MQTT5, ClientId: "c"})
			if want.Reason >= 0x80 {
				if err == nil || err != mqtt.ReasonCode(want.Reason) && fmt.Sprint(err) != mqtt.ReasonCode(want.Reason).Error() {
					c.bad("connack", desc(), fmt.Sprintf("Connect returns %v", err))
				}
				if s.f.consumed != len(b) {
					c.bad("consumed", desc(), fmt.Sprintf("%d bytes consumed of %d", s.f.consumed, len(b)))
				}
				return
			}
		} else {
			err = s.cl.Poll(farCtx)
		}
		if err != nil {
			c.bad("refused", desc(), "a well-formed packet is refused: "+err.Error())
			return
		}
		if s.f.consumed != len(b) {
			c.bad("consumed", desc(), fmt.Sprintf("%d bytes consumed of %d", s.f.consumed, len(b)))
			return
		}
		e := s.event()
		if e == nil {
			c.bad("event", desc(), "the packet is not announced")
			return
		}
		if byte(e.PacketType) != want.Type {
			c.bad("event", desc(), fmt.Sprintf("announced as packet type %d", e.PacketType))
			return
		}
		got := fromLib(e.Data)
		if got == nil {
			c.bad("event", desc(), fmt.Sprintf("announced with data of type %T", e.Data))
			return
		}
		if d := diff(got, expected(want)); d != "" || got.AckFlags != want.AckFlags {
			c.bad("content", desc(), fmt.Sprintf("decoded content differs: %s (flags %d, want %d)", d, got.AckFlags, want.AckFlags))
			return
		}
		if k, ok := e.Data.(*packets.Connack); ok {
			has := false
			for _, pr := range want.Props {
				has = has || pr.ID == 0x13
			}
			if k.HasServerKeepAlive != has {
				c.bad("content", desc(), fmt.Sprintf("the presence of the server keep alive is announced as %v", k.HasServerKeepAlive))
				return
			}
		}
		if want.Type == ref.DISCONNECT {
			return
		}
		// The next packet on the stream is intact.
		if err := s.cl.Poll(farCtx); err != nil {
			c.bad("next", desc(), "the packet that follows is refused: "+err.Error())
			return
		}
		e = s.event()
		if e == nil || e.PacketType != packets.PUBCOMP || fromLib(e.Data).ID != 0x7e7e || s.event() != nil {
			c.bad("next", desc(), fmt.Sprintf("the packet that follows is announced as %+v", e))
		}
	})
}

// propValue returns a property with a value that is neither zero nor the default.
func propValue(id byte, i int) ref.Prop {
	q := ref.Prop{ID: id}
	switch ref.PropKind(id) {
	case ref.U8:
		q.Num = 1
	case ref.U16:
		q.Num = 0x0102 + uint32(id)<<8
	case ref.U32:
		q.Num = 0x01020304 + uint32(id)<<24
	case ref.VAR:
		q.Num = []uint32{5, 128, 16384, 268435455}[i&3]
	case ref.STR:
		q.S = fmt.Sprintf("s%02x", id)
	case ref.BIN:
		q.S = "\x00\xff" + string(rune('a'+i&3))
	case ref.PAIR:
		q.S, q.V = "k", "v\xc3\xa9"
	}
	return q
}

// inboundBase lists the packet shapes a server can send, without properties.
func inboundBase() (l []*ref.Packet) {
	l = append(l,
		&ref.Packet{Type: ref.CONNACK, HasProps: true},
		&ref.Packet{Type: ref.CONNACK, HasProps: true, AckFlags: 1},
		&ref.Packet{Type: ref.CONNACK, HasProps: true, Reason: 0x87})
	for q := byte(0); q < 3; q++ {
		for f := byte(0); f < 4; f++ { // retain, dup
			if q == 0 && f&2 != 0 {
				continue
			}
			id := uint16(0)
			if q > 0 {
				id = 0x0a0b
			}
			l = append(l,
				&ref.Packet{Type: ref.PUBLISH, Flags: q<<1 | f&1 | f&2<<2, ID: id, Topic: "a/b", Payload: []byte("payload")},
				&ref.Packet{Type: ref.PUBLISH, Flags: q<<1 | f&1 | f&2<<2, ID: id, Topic: "t", Payload: nil})
		}
	}
	for t := byte(ref.PUBACK); t <= ref.PUBCOMP; t++ {
		f := byte(0)
		if t == ref.PUBREL {
			f = 2
		}
		l = append(l, &ref.Packet{Type: t, Flags: f, ID: 0x0102}, &ref.Packet{Type: t, Flags: f, ID: 0xffff, HasReason: true},
			&ref.Packet{Type: t, Flags: f, ID: 1, HasReason: true, Reason: 0x92}, &ref.Packet{Type: t, Flags: f, ID: 1, HasProps: true, Reason: 0x92},
			&ref.Packet{Type: t, Flags: f, ID: 1, HasProps: true})
		if t == ref.PUBACK || t == ref.PUBREC {
			for _, q := range l[len(l)-3:] {
				if q.Reason != 0 {
					q.Reason = 0x10
				}
			}
			l = append(l, &ref.Packet{Type: t, ID: 9, HasProps: true, Reason: 0x97}, &ref.Packet{Type: t, ID: 9, HasReason: true, Reason: 0x80})
		}
	}
	for _, t := range []byte{ref.SUBACK, ref.UNSUBACK} {
		l = append(l, &ref.Packet{Type: t, ID: 1, HasProps: true, Codes: []byte{0}}, &ref.Packet{Type: t, ID: 0x1234, HasProps: true, Codes: []byte{0, 0x80, 0x11, 0x87}})
	}
	for _, t := range []byte{ref.DISCONNECT, ref.AUTH} {
		r := byte(0x8b)
		if t == ref.AUTH {
			r = 0x18
		}
		l = append(l, &ref.Packet{Type: t}, &ref.Packet{Type: t, HasReason: true, Reason: r}, &ref.Packet{Type: t, HasReason: true},
			&ref.Packet{Type: t, HasProps: true, Reason: r}, &ref.Packet{Type: t, HasProps: true})
	}
	return
}

func withProps(q *ref.Packet, ps []ref.Prop) *ref.Packet {
	r := *q
	r.Props = ps
	return &r
}

func c05(c *check) {
	c.Coverage["rule"] = "every inbound packet shape (all types, short forms, QoS, flags) x every subset of the properties its type allows (PUBLISH, CONNACK: in two orders) x delivery whole, byte by byte, in 2s, 3s, 5s; every property, topic and payload with values at the boundaries of their encodings and characters; for every shape with few properties every single cut and every pair of cuts, for encodings of up to 16 bytes every fragmentation; sizes around every length boundary. Each through Connect or Poll of a real client, followed by another packet. States = distinct packets; traces = (packet, fragmentation) executions; transitions = reads and writes on the connection."
	base := inboundBase()
	type job struct {
		q    *ref.Packet
		mask int
	}
	var jobs []job
	for _, q := range base {
		if len(q.Props) > 0 || !q.HasProps && q.Type != ref.PUBLISH {
			jobs = append(jobs, job{q, 0})
			continue
		}
		n := len(ref.Allowed(q.Type))
		for m := 0; m < 1<<n; m++ {
			if q.Type == ref.CONNACK && (q.AckFlags == 1 || q.Reason != 0) && m%61 != 0 && !c.Thorough() {
				continue
			}
			jobs = append(jobs, job{q, m})
		}
	}
	c.par(len(jobs), func(i int) {
		q, m := jobs[i].q, jobs[i].mask
		ids := ref.Allowed(q.Type)
		var ps []ref.Prop
		for k, id := range ids {
			if m>>k&1 != 0 {
				ps = append(ps, propValue(id, m))
				if id == 0x26 && m&1 != 0 {
					ps = append(ps, ref.Prop{ID: 0x26, S: "", V: ""}, ref.Prop{ID: 0x26, S: "k2", V: ""})
				}
			}
		}
		// Authentication data needs a method to be well-formed.
		has := map[byte]bool{}
		for _, pr := range ps {
			has[pr.ID] = true
		}
		if has[0x16] && !has[0x15] {
			return
		}
		orders := [][]ref.Prop{ps}
		if len(ps) > 1 {
			var rev []ref.Prop
			for k := len(ps) - 1; k >= 0; k-- {
				rev = append(rev, ps[k])
			}
			orders = append(orders, rev)
		}
		for o, list := range orders {
			w := withProps(q, list)
			b := w.Encode()
			if _, _, err := ref.Decode(b); err != nil {
				panic(fmt.Sprintf("generator: %v: %x: %v", w, b, err))
			}
			fr := []frag{every(1 << 20), every(1)}
			if o == 0 && (q.Type != ref.CONNACK || m%7 == 0) {
				fr = append(fr, every(2), every(3), every(5))
			}
			for _, f := range fr {
				c.deliver(b, w, f)
			}
		}
	})
	c.Sample("CONNACK with all 17 properties, reversed, byte by byte; PUBACK with Remaining Length 2, 3 and 4; ...")
	// All cuts.
	var shapes []*ref.Packet
	for _, q := range base {
		shapes = append(shapes, q)
		if q.HasProps || q.Type == ref.PUBLISH {
			ids := ref.Allowed(q.Type)
			for _, id := range ids {
				if id == 0x16 {
					shapes = append(shapes, withProps(q, []ref.Prop{propValue(0x15, 0), propValue(0x16, 0)}))
					continue
				}
				shapes = append(shapes, withProps(q, []ref.Prop{propValue(id, 1)}))
				if id != 0x26 {
					shapes = append(shapes, withProps(q, []ref.Prop{propValue(id, 1), propValue(0x26, 0)}))
				}
			}
		}
	}
	c.par(len(shapes), func(i int) {
		w := shapes[i]
		b := w.Encode()
		n := len(b)
		for x := 1; x < n+len(marker); x++ {
			c.deliver(b, w, cuts(x))
		}
		for x := 1; x < n; x++ {
			for y := x + 1; y < n; y++ {
				c.deliver(b, w, cuts(x, y))
			}
		}
		lim := 12
		if c.Thorough() {
			lim = 16
		}
		if n <= lim {
			for m := uint(0); m < 1<<(n-1); m++ {
				c.deliver(b, w, bits(m))
			}
		}
	})
	// Sizes.
	ss := sizes(c.Thorough())
	c.par(len(ss), func(i int) {
		n := ss[i]
		if n == 0 {
			return
		}
		s := str(n)
		for _, w := range []*ref.Packet{
			{Type: ref.PUBLISH, Topic: s, Payload: []byte("x")},
			{Type: ref.PUBLISH, Flags: 2, ID: 3, Topic: "t", Payload: []byte(s)},
			{Type: ref.PUBLISH, Topic: "t", Payload: []byte("x"), Props: []ref.Prop{{ID: 0x26, S: s, V: "v"}}},
			{Type: ref.PUBLISH, Topic: "t", Payload: []byte(s), Props: []ref.Prop{{ID: 0x09, S: s}, {ID: 0x26, S: "k", V: s}}},
			{Type: ref.PUBACK, ID: 1, HasProps: true, Props: []ref.Prop{{ID: 0x1F, S: s}}},
			{Type: ref.SUBACK, ID: 1, HasProps: true, Props: []ref.Prop{{ID: 0x1F, S: s}}, Codes: []byte{1}},
			{Type: ref.SUBACK, ID: 1, HasProps: true, Codes: bytes.Repeat([]byte{1}, n)},
			{Type: ref.UNSUBACK, ID: 1, HasProps: true, Props: []ref.Prop{{ID: 0x26, S: "k", V: s}}, Codes: []byte{0, 17}},
			{Type: ref.CONNACK, HasProps: true, Props: []ref.Prop{{ID: 0x1F, S: s}, {ID: 0x12, S: "id"}}},
			{Type: ref.DISCONNECT, HasProps: true, Props: []ref.Prop{{ID: 0x1C, S: s}}},
			{Type: ref.AUTH, HasProps: true, Reason: 0x18, Props: []ref.Prop{{ID: 0x15, S: s}, {ID: 0x16, S: s}}},
		} {
			b := w.Encode()
			fr := []frag{every(1 << 20), every(1000), cuts(1), cuts(2), cuts(3, 5)}
			if len(b) < 600 {
				fr = append(fr, every(1))
			}
			for _, f := range fr {
				c.deliver(b, w, f)
			}
		}
	})
	// Reason codes and identifiers.
	for id := 1; id < 65536; id += 1 {
		if id > 600 && id%251 != 0 && id < 65300 {
			continue
		}
		for _, t := range []byte{ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP} {
			f := byte(0)
			if t == ref.PUBREL {
				f = 2
			}
			w := &ref.Packet{Type: t, Flags: f, ID: uint16(id)}
			c.deliver(w.Encode(), w, every(1))
		}
	}
	for code := 0; code < 256; code++ {
		for _, t := range []byte{ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.DISCONNECT, ref.AUTH, ref.CONNACK} {
			w := &ref.Packet{Type: t, ID: 1, HasProps: true, Reason: byte(code)}
			switch t {
			case ref.PUBREL:
				w.Flags = 2
			case ref.DISCONNECT, ref.AUTH, ref.CONNACK:
				w.ID = 0
			}
			if _, _, err := ref.Decode(w.Encode()); err != nil {
				continue // not a code the specification allows here
			}
			c.deliver(w.Encode(), w, every(1<<20))
		}
	}
	// Explicit zero values.
	for _, q := range base {
		if !q.HasProps && q.Type != ref.PUBLISH {
			continue
		}
		for _, id := range ref.Allowed(q.Type) {
			if id == 0x16 || id == 0x0B || id == 0x23 || id == 0x21 || id == 0x27 {
				continue // zero is a protocol error
			}
			w := withProps(q, []ref.Prop{{ID: id}, propValue(0x26, 0)})
			if id == 0x26 {
				w = withProps(q, []ref.Prop{{ID: id}})
			}
			if _, _, err := ref.Decode(w.Encode()); err != nil {
				continue
			}
			for _, f := range []frag{every(1 << 20), every(1)} {
				c.deliver(w.Encode(), w, f)
			}
		}
	}
	// Values.
	nums := []uint32{1, 2, 0x7f, 0x80, 0xfe, 0xff, 0x100, 0x3fff, 0x4000, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000, 0x1fffff, 0x200000, 0xffffff, 0xfffffff, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}
	var valued []*ref.Packet
	for _, q := range base {
		if q.Type == ref.PUBLISH {
			for _, v := range textValues {
				w := *q
				w.Topic = v
				valued = append(valued, &w)
			}
			for _, v := range blobValues {
				w := *q
				w.Payload = []byte(v)
				valued = append(valued, &w)
			}
		}
		if !q.HasProps && q.Type != ref.PUBLISH {
			continue
		}
		for _, id := range ref.Allowed(q.Type) {
			var vals []ref.Prop
			switch ref.PropKind(id) {
			case ref.STR:
				for _, v := range textValues {
					vals = append(vals, ref.Prop{ID: id, S: v})
				}
			case ref.BIN:
				for _, v := range blobValues {
					vals = append(vals, ref.Prop{ID: id, S: v})
				}
			case ref.PAIR:
				for _, v := range textValues {
					vals = append(vals, ref.Prop{ID: id, S: v}, ref.Prop{ID: id, V: v}, ref.Prop{ID: id, S: v, V: v})
				}
			default:
				for _, v := range nums {
					if k := ref.PropKind(id); k == ref.U8 && v > 0xff || k == ref.U16 && v > 0xffff || k == ref.VAR && v > 0xfffffff {
						continue
					}
					vals = append(vals, ref.Prop{ID: id, Num: v})
				}
			}
			for _, v := range vals {
				ps := []ref.Prop{v}
				if id == 0x16 {
					ps = []ref.Prop{propValue(0x15, 0), v}
				}
				valued = append(valued, withProps(q, ps), withProps(q, append(ps, propValue(0x26, 0))))
			}
		}
	}
	c.par(len(valued), func(i int) {
		b := valued[i].Encode()
		if _, _, err := ref.Decode(b); err != nil {
			return // not a value the specification allows here
		}
		for _, f := range []frag{every(1 << 20), every(1)} {
			c.deliver(b, valued[i], f)
		}
	})
	for _, n := range []int{2097140, 2097145, 2097146, 2097147, 2097148, 2097149, 2097150, 2097151, 2097152} {
		w := &ref.Packet{Type: ref.PUBLISH, Flags: 2, ID: 1, Topic: "t", Payload: []byte(str(n))}
		c.deliver(w.Encode(), w, every(65536))
		_, ps := bigUser(n)
		w = &ref.Packet{Type: ref.PUBLISH, Flags: 2, ID: 1, Topic: "t", Payload: []byte("x"), Props: ps}
		c.deliver(w.Encode(), w, every(65536))
	}
}

// ---- C06 ----------------------------------------------------------------------------------------------------------

// structure classifies the body of an inbound packet by the lengths alone: it reports an error exactly if the body is
// shorter or longer than the packet's content, a property section overruns or cuts a property, or a property identifier
// is unknown.
func structure(head byte, body []byte) error {
	bad := errors.New("malformed")
	i := 0
	left := func() int { return len(body) - i }
	str := func() bool {
		if left() < 2 {
			return false
		}
		n := int(body[i])<<8 | int(body[i+1])
		if left()-2 < n {
			return false
		}
		i += 2 + n
		return true
	}
	vbi := func() (v int, ok bool) {
		for k := 0; k < 4; k++ {
			if left() == 0 {
				return 0, false
			}
			b := body[i]
			i++
			v |= int(b&0x7f) << (7 * k)
			if b&0x80 == 0 {
				return v, true
			}
		}
		return 0, false
	}
	props := func(t byte) bool {
		n, ok := vbi()
		if !ok || n > left() {
			return false
		}
		end := i + n
		for i < end {
			id := body[i]
			i++
			allowed := false
			for _, a := range ref.Allowed(t) {
				allowed = allowed || a == id
			}
			if !allowed {
				return false
			}
			ok := true
			switch ref.PropKind(id) {
			case ref.U8:
				i++
			case ref.U16:
				i += 2
			case ref.U32:
				i += 4
			case ref.VAR:
				_, ok = vbi()
			case ref.STR, ref.BIN:
				ok = str()
			case ref.PAIR:
				ok = str() && str()
			}
			if !ok || i > end {
				return false
			}
		}
		return i == end
	}
	t := head >> 4
	switch t {
	case ref.PUBLISH:
		if !str() || head>>1&3 == 3 {
			return bad
		}
		if head>>1&3 > 0 {
			i += 2
			if left() < 0 {
				return bad
			}
		}
		if !props(t) {
			return bad
		}
		return nil // the rest is payload
	case ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP:
		i = 2
		if left() < 0 {
			return bad
		}
		if left() > 0 {
			i++
		}
		if left() > 0 && !props(t) {
			return bad
		}
	case ref.SUBACK, ref.UNSUBACK:
		i = 2
		if left() < 0 || !props(t) || left() == 0 {
			return bad
		}
		return nil // the rest are reason codes
	case ref.DISCONNECT, ref.AUTH:
		if left() > 0 {
			i++
		}
		if left() > 0 && !props(t) {
			return bad
		}
	case ref.PINGRESP:
	case ref.CONNACK:
		// A CONNACK without a property length (as in earlier versions of the protocol) may be tolerated.
		i = 2
		if left() < 0 || left() > 0 && !props(t) {
			return bad
		}
	default:
		return bad
	}
	if left() != 0 {
		return bad
	}
	return nil
}

var whole = every(1 << 20)

const fillerLen = 40

// lenientFrame is ref.Frame without the requirement that the remaining length has the minimal form.
func lenientFrame(b []byte) (head byte, body []byte, n int, err error) {
	v := 0
	for k := 0; k < 4; k++ {
		if len(b) < 2+k {
			return b[0], nil, 0, ref.ErrIncomplete
		}
		v |= int(b[1+k]&0x7f) << (7 * k)
		if b[1+k]&0x80 == 0 {
			n = 2 + k + v
			if len(b) < n {
				return b[0], nil, 0, ref.ErrIncomplete
			}
			return b[0], b[2+k : n], n, nil
		}
	}
	return b[0], nil, 0, errors.New("malformed remaining length")
}

// hostile delivers one packet with the given header byte, encoded remaining length and body to a polling client and
// checks that it is refused if its structure is malformed, that nothing beyond it is consumed, and that nothing panics.
// If cut >= 0 the peer closes after that many bytes.
func (c *check) hostile(head byte, remaining int, body []byte, f frag, connect bool) {
	b := append(ref.AppendVBI([]byte{head}, uint32(remaining)), body...)
	c.raw(b, f, connect)
}

func (c *check) raw(b []byte, f frag, connect bool) {
	desc := func() string {
		return fmt.Sprintf("bytes %x, delivered in %s, connecting: %v", clip(b), f.name, connect)
	}
	c.evals.Add(1)
	head, body, n, ferr := lenientFrame(b)
	declared := -1
	must := false
	switch {
	case ferr == nil && n == len(b):
		declared = n
		must = structure(head, body) != nil
	case ferr == ref.ErrIncomplete:
		must = true
	case ferr == nil:
		return // not one packet
	default:
		must = true // the remaining length is malformed
		declared = 6
	}
	if !connect && head>>4 == ref.CONNACK {
		must = true
	}
	if connect && head>>4 != ref.CONNACK {
		must = true
	}
	if f.name == whole.name {
		c.nontrivial.Add(1)
	}
	c.try(desc, func() {
		filler := bytes.Repeat([]byte{0xd0}, fillerLen)
		var s *session
		var err error
		if connect {
			s = &session{f: &conn{}}
			s.cl = mqtt.NewClient(s.f)
			s.ev = s.cl.CreateEventChannel(4)
		} else if s, err = open(); err != nil {
			c.bad("connect", desc(), "connecting fails: "+err.Error())
			return
		}
		defer func() { c.ops.Add(int64(s.f.ops)) }()
		if ferr == ref.ErrIncomplete {
			s.f.in, s.f.eof = append([]byte{}, b...), true
		} else {
			s.f.in = append(append([]byte{}, b...), filler...)
		}
		s.f.cut = f.cut
		if connect {
			err = s.cl.Connect(farCtx, &packets.Connect{Version: packets.MQTT5, ClientId: "c"})
		} else {
			err = s.cl.Poll(farCtx)
		}
		if declared >= 0 && s.f.consumed > declared {
			c.bad("over-read", desc(), fmt.Sprintf("%d bytes are taken from the stream although the packet declares %d (result: %v)", s.f.consumed, declared, err))
			return
		}
		if must && err == nil {
			c.bad("accepted", desc(), "a malformed packet is accepted")
			return
		}
		if must {
			if e := s.event(); e != nil && !(e.PacketType == packets.DISCONNECT && head>>4 != ref.DISCONNECT) {
				c.bad("delivered", desc(), fmt.Sprintf("a malformed packet is delivered: %+v", e.Data))
			}
		}
	})
}

func c06(c *check) {
	al := []byte{0, 1, 2, 3, 0x0B, 0x1F, 0x26, 0x80, 0xff}
	depth := 5
	if c.Thorough() {
		depth = 6
	}
	c.Coverage["rule"] = fmt.Sprintf("every header byte x every body of up to 2 bytes, every plausible header byte x every body of up to %d bytes over %x; every well-formed shape with up to two properties: every truncation and extension, with the remaining length adjusted and not, every byte replaced by every of 256 values, every property length changed, every prefix followed by end of stream; malformed remaining lengths. Each against a structural oracle. States = distinct byte strings; traces = executions (byte string, fragmentation); transitions = reads and writes on the connection.", depth, al)
	// All headers x all short bodies.
	c.par(256, func(h int) {
		c.hostile(byte(h), 0, nil, whole, false)
		c.hostile(byte(h), 0, nil, whole, true)
		for a := 0; a < 256; a++ {
			c.hostile(byte(h), 1, []byte{byte(a)}, whole, false)
			c.hostile(byte(h), 1, []byte{byte(a)}, whole, true)
		}
		for a := 0; a < 1<<16; a++ {
			if a%11 != 0 && !c.Thorough() && h>>4 != 3 && h&15 > 2 {
				continue
			}
			c.hostile(byte(h), 2, []byte{byte(a), byte(a >> 8)}, whole, false)
		}
	})
	heads := []byte{0x20, 0x30, 0x32, 0x34, 0x36, 0x3d, 0x3e, 0x3f, 0x40, 0x50, 0x62, 0x70, 0x90, 0xb0, 0xd0, 0xe0, 0xf0}
	total := 1
	for i := 0; i < depth; i++ {
		total *= len(al)
	}
	c.par(len(heads)*len(al), func(i int) {
		h, first := heads[i%len(heads)], al[i/len(heads)]
		n := 1
		for l := 1; l <= depth; l++ {
			for x := 0; x < n; x++ {
				body := make([]byte, l)
				body[0] = first
				for k, y := 1, x; k < l; k, y = k+1, y/len(al) {
					body[k] = al[y%len(al)]
				}
				c.hostile(h, l, body, whole, h == 0x20)
			}
			n *= len(al)
		}
	})
	c.Sample("header 0x32, bodies 0001.., e.g. 32 05 00 01 ff 80 26")
	// Mutations of well-formed packets.
	var shapes []*ref.Packet
	for _, q := range inboundBase() {
		shapes = append(shapes, q)
		if q.HasProps || q.Type == ref.PUBLISH {
			for _, id := range ref.Allowed(q.Type) {
				shapes = append(shapes, withProps(q, []ref.Prop{propValue(id, 1)}))
				if id != 0x26 {
					shapes = append(shapes, withProps(q, []ref.Prop{propValue(id, 0), propValue(0x26, 0)}))
				}
			}
		}
	}
	c.par(len(shapes), func(i int) {
		q := shapes[i]
		head := q.Encode()[0]
		body := q.Body()
		conn := q.Type == ref.CONNACK
		for flags := byte(0); flags < 16; flags++ {
			c.hostile(head&0xf0|flags, len(body), body, whole, conn)
		}
		for n := 0; n <= len(body); n++ {
			c.hostile(head, n, body[:n], whole, conn) // cut, declared as cut
			c.hostile(head, n, body[:n], every(1), conn)
			c.hostile(head, len(body), body[:n], whole, conn) // cut by the end of the stream
			c.hostile(head, len(body), body[:n], every(1), conn)
		}
		full := q.Encode()
		for n := 1; n < len(full)-len(body); n++ {
			c.raw(full[:n], whole, conn)
		}
		for _, tail := range [][]byte{{0}, {0xff}, {0, 0}, {0x26}, {0x1f, 0, 1, 'x'}, bytes.Repeat([]byte{7}, 130), bytes.Repeat([]byte{0}, 300)} {
			c.hostile(head, len(body)+len(tail), append(append([]byte{}, body...), tail...), whole, conn)
			c.hostile(head, len(body)+len(tail), append(append([]byte{}, body...), tail...), every(1), conn)
		}
		for pos := range body {
			m := append([]byte{}, body...)
			for v := 0; v < 256; v++ {
				m[pos] = byte(v)
				c.hostile(head, len(m), m, whole, conn)
			}
			// A byte dropped or doubled.
			c.hostile(head, len(body)-1, append(append([]byte{}, body[:pos]...), body[pos+1:]...), whole, conn)
			c.hostile(head, len(body)+1, append(append([]byte{}, body[:pos+1]...), body[pos:]...), whole, conn)
		}
		// Every identifier.
		if q.HasProps || q.Type == ref.PUBLISH {
			for id := 0; id < 256; id++ {
				for l := 0; l < 6; l++ {
					r := *q
					r.Props = nil
					b0 := r.Body()
					at := 0 // position of the property length
					switch q.Type {
					case ref.PUBLISH:
						at = 2 + len(q.Topic)
						if q.QoS() > 0 {
							at += 2
						}
					case ref.SUBACK, ref.UNSUBACK, ref.CONNACK:
						at = 2
					case ref.DISCONNECT, ref.AUTH:
						at = 1
					default:
						at = 3
					}
					m := append([]byte{}, b0[:at]...)
					m = append(m, byte(1+l), byte(id))
					m = append(m, make([]byte, l)...)
					m = append(m, b0[at+1:]...)
					c.hostile(head, len(m), m, whole, conn)
				}
			}
		}
	})
	// Malformed remaining lengths.
	for _, h := range heads {
		for _, x := range [][]byte{{0x80, 0x80, 0x80, 0x80, 0x01}, {0xff, 0xff, 0xff, 0xff, 0x7f}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x80, 0x80, 0x80, 0x80, 0x00}, {0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01}} {
			for _, f := range []frag{whole, every(1)} {
				c.raw(append([]byte{h}, x...), f, h == 0x20)
			}
		}
	}
	// Non-minimal but terminated remaining lengths never cause an over-read or a panic.
	for _, q := range inboundBase() {
		body := q.Body()
		if len(body) >= 128 {
			continue
		}
		b := append([]byte{q.Encode()[0], byte(len(body)) | 0x80, 0}, body...)
		c.raw(b, whole, q.Type == ref.CONNACK)
	}
	// Declared lengths far beyond what arrives.
	for _, h := range heads {
		for _, l := range []int{127, 128, 16383, 16384, 1 << 20} {
			for _, body := range [][]byte{nil, {0}, {0, 1}, {0, 1, 't', 0}, {0xff, 0xff}, {0, 1, 0, 0xff, 0xff, 0x7f}} {
				c.hostile(h, l, body, whole, h == 0x20)
			}
		}
	}
}
