package main

import (
	"context"
	"errors"
	"os"
	"strings"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"

	"verif/ref"
	"verif/vs"
)

// refused checks that a client that is not connected refuses every operation without sending anything.
func (c *Client) refused(what string) {
	c.refuses(what, c.w.Choose(len(refusals)+1, "refused operation"))
}

// refuses checks one operation, or all of them one after the other.
func (c *Client) refuses(what string, i int) {
	w := c.w
	if c.IsConnected() {
		w.Bad("still-connected", "%s: the client reports itself connected", what)
		return
	}
	sent, ops := len(c.conn.tx), c.conn.writes
	n := len(refusals)
	var list []int
	if i == n { // all of them, one after the other
		for k := 0; k < n; k++ {
			list = append(list, k)
		}
	} else {
		list = []int{i}
	}
	for _, i := range list {
		err := refusals[i].run(c)
		if !errors.Is(err, mqtt.ErrClientNotConnected) {
			w.Bad("not-refused:"+refusals[i].name, "%s: %s returns %v instead of the not-connected error", what, refusals[i].name, err)
		}
		if len(c.conn.tx) != sent || c.conn.writes != ops {
			w.Bad("sent-after-end", "%s: %s writes to the connection: %x", what, refusals[i].name, c.conn.tx[sent:])
		}
	}
}

type refusal struct {
	name string
	run  func(c *Client) error
}

var refusals = []refusal{
	{"publish QoS 0", func(c *Client) error { return c.pub(0, "z") }},
	{"publish QoS 1", func(c *Client) error { return c.pub(1, "z") }},
	{"publish QoS 2", func(c *Client) error { return c.pub(2, "z") }},
	{"subscribe", func(c *Client) error { return c.sub("z", nil) }},
	{"unsubscribe", func(c *Client) error { return c.unsub("z") }},
	{"keep-alive", func(c *Client) error { return c.ping() }},
	{"poll", func(c *Client) error { return c.pollOnce(time.Second) }},
	{"disconnect", func(c *Client) error { return c.disc() }},
	{"disconnect with session expiry", func(c *Client) error {
		return c.DisconnectWithSessionExpiry(context.Background(), true, 5)
	}},
}

// dial calls Connect with a deadline.
func (c *Client) dial(p *packets.Connect, d time.Duration) error {
	ctx, cancel := within(d)
	defer cancel()
	err := c.Connect(ctx, p)
	c.w.T.Logf("connect: %v", err)
	return err
}

// failedConnect checks the state after a Connect that did not succeed.
func (w *World) failedConnect(c *Client, err error, what string) {
	if err == nil {
		w.Bad("connect-accepted", "%s: Connect reports success", what)
		return
	}
	if c.IsConnected() {
		w.Bad("connected-after-failure", "%s: Connect returned %v but the client reports itself connected", what, err)
	}
	if n := c.conn.srv.count(ref.CONNECT); n > 1 {
		w.Bad("connect-count", "%s: %d CONNECT packets were sent", what, n)
	}
}

// works checks that a connected client can be used.
func (c *Client) works(what string) {
	w := c.w
	before := c.conn.srv.count(ref.PUBLISH)
	if err := c.pub(0, "w"); err != nil || c.conn.srv.count(ref.PUBLISH) != before+1 {
		w.Bad("unusable", "%s: publishing fails: %v", what, err)
	}
	c.conn.Push(publish(0, 0, "w", "w"))
	if err := c.pollOnce(time.Second); err != nil {
		w.Bad("unusable", "%s: polling fails: %v", what, err)
	}
}

func prop16(id byte, v uint16) ref.Prop { return ref.Prop{ID: id, Num: uint32(v)} }

func connectScenarios(th bool) (r []Scenario) {
	kaServer := []int{-1, 0, 1, 30, 65535}
	kaClient := []int{0, 7, 65535}
	r = append(r, Scenario{Name: "every reason code", Seq: true, Body: func(w *World) {
		c := w.NewClient("A")
		code := byte(w.Choose(256, "reason code"))
		sk := kaServer[w.Choose(len(kaServer), "server keep-alive")]
		ck := kaClient[w.Choose(len(kaClient), "requested keep-alive")]
		nch := w.Choose(3, "channels")
		var chs []mqtt.EventChannel
		for i := 0; i < nch; i++ {
			chs = append(chs, c.CreateEventChannel(2))
		}
		ca := &ref.Packet{Type: ref.CONNACK, Reason: code, HasProps: true}
		if sk >= 0 {
			ca.Props = append(ca.Props, prop16(0x13, uint16(sk)))
		}
		c.conn.srv.connack = ca
		p := connectPacket()
		p.KeepAlive = primitives.PrimitiveUint16(ck)
		err := c.dial(p, 10*time.Second)
		if n := len(c.conn.srv.recv); n != 1 || c.conn.srv.count(ref.CONNECT) != 1 {
			w.Bad("connect-count", "Connect sends %v instead of one CONNECT", c.conn.srv.dump())
		}
		if code >= 0x80 {
			w.failedConnect(c, err, "the server refuses")
			if rc := mqtt.ReasonCode(0); !errors.As(err, &rc) || byte(rc) != code {
				w.Bad("refusal-code", "the server refused with %#x but Connect returns %v", code, err)
			}
			if !c.conn.closed {
				w.Bad("refusal-open", "the server refused with %#x but the connection stays open", code)
			}
			c.refused("after a refusal")
			return
		}
		if err != nil || !c.IsConnected() || c.conn.closed {
			w.Bad("connect-refused", "the server accepts (reason code %#x) but Connect returns %v (connected=%v, closed=%v)", code, err, c.IsConnected(), c.conn.closed)
			return
		}
		want := time.Duration(ck) * time.Second
		if sk >= 0 {
			want = time.Duration(sk) * time.Second
		}
		if got := c.KeepAliveInterval(); got != want {
			w.Bad("keep-alive", "the keep-alive interval is %v instead of %v (server %d, requested %d)", got, want, sk, ck)
		}
		for _, ch := range chs {
			ev, _ := drain(ch)
			if len(ev) != 1 || ev[0].PacketType != packets.CONNACK {
				w.Bad("connack-event", "the connection acknowledgement is announced as %q", showAll(ev))
			} else if ca, ok := ev[0].Data.(*packets.Connack); !ok || byte(ca.ReasonCode) != code {
				w.Bad("connack-event", "the announced connection acknowledgement is %v", show(ev[0]))
			}
		}
		c.works("after Connect")
	}})

	answers := [][]byte{}
	labels := []string{}
	for t := byte(1); t < 16; t++ {
		if t == ref.CONNACK {
			continue
		}
		for _, body := range [][]byte{nil, {0, 0}, {0, 1, 0}, {0, 0, 0}} {
			answers = append(answers, ref.WithHeader(t<<4, body))
			labels = append(labels, "another packet")
		}
	}
	answers = append(answers, ref.WithHeader(0, []byte{0, 0, 0}), []byte{0x20, 0xff, 0xff, 0xff, 0xff, 0x01})
	r = append(r, Scenario{Name: "other answers", Seq: true, Body: func(w *World) {
		c := w.NewClient("A")
		c.conn.srv.noConnack = true
		c.conn.srv.onPacket = func(p *ref.Packet) {
			c.conn.put(vs.Offset(), nil, answers[w.Choose(len(answers), "answer")])
			if w.Choose(2, "then") == 1 {
				c.conn.put(vs.Offset(), nil, (&ref.Packet{Type: ref.CONNACK}).Encode())
			}
		}
		err := c.dial(connectPacket(), 10*time.Second)
		w.failedConnect(c, err, "the server answers with another packet")
		c.refused("after another answer")
	}})

	full := &ref.Packet{Type: ref.CONNACK, HasProps: true, Props: []ref.Prop{prop16(0x13, 9), prop16(0x21, 3), {ID: 0x1f, S: "ok"}, {ID: 0x26, S: "k", V: "v"}}}
	empty := &ref.Packet{Type: ref.CONNACK}
	cut := func(w *World, c *Client, b []byte) string {
		if n := w.Choose(3, "what ends the answer"); n == 0 {
			c.conn.put(vs.Offset(), nil, b)
			c.conn.peerClose()
			return "end of stream"
		} else if n == 1 {
			c.conn.put(vs.Offset(), nil, b)
			c.conn.rxErr = errors.New("connection reset")
			c.conn.peerClose()
			return "connection reset"
		}
		c.conn.put(vs.Offset(), nil, b)
		return "silence"
	}
	r = append(r, Scenario{Name: "cut answers", Seq: true, Body: func(w *World) {
		c := w.NewClient("A")
		c.conn.srv.noConnack = true
		what := ""
		c.conn.srv.onPacket = func(p *ref.Packet) {
			b := full.Encode()
			if w.Choose(2, "acknowledgement") == 1 {
				b = empty.Encode()
			}
			what = cut(w, c, b[:w.Choose(len(b), "length")])
		}
		start := vs.Offset()
		err := c.dial(connectPacket(), 10*time.Second)
		w.failedConnect(c, err, "the answer is cut by "+what)
		if vs.Offset()-start > 10*time.Second {
			w.Bad("connect-late", "Connect returns %v after it was called with a deadline of 10s", vs.Offset()-start)
		}
		c.refused("after a cut answer")
	}})
	r = append(r, Scenario{Name: "wrong lengths", Seq: true, Body: func(w *World) {
		c := w.NewClient("A")
		c.conn.srv.noConnack = true
		skip := false
		c.conn.srv.onPacket = func(p *ref.Packet) {
			b := full.Encode()
			if w.Choose(2, "acknowledgement") == 1 {
				b = empty.Encode()
			}
			body := b[2:]
			switch w.Choose(2, "kind") {
			case 0: // the declared length is wrong
				n := w.Choose(len(body)+3, "declared length")
				if n == len(body) || n == 2 {
					// (a CONNACK without a property length is accepted as one without properties)
					skip = true
					return
				}
				b = append([]byte{0x20, byte(n)}, body...)
			case 1: // the property length is wrong
				n := byte(w.Choose(len(body)+3, "property length"))
				if n == body[2] {
					skip = true
					return
				}
				body = append([]byte{}, body...)
				body[2] = n
				b = ref.WithHeader(0x20, body)
				if _, _, err := ref.Decode(b); err == nil {
					skip = true
					return
				}
			}
			c.conn.put(vs.Offset(), nil, b)
			c.conn.peerClose()
		}
		err := c.dial(connectPacket(), 10*time.Second)
		if skip {
			return
		}
		w.failedConnect(c, err, "the acknowledgement has a wrong length")
	}})
	r = append(r, Scenario{Name: "transport failures", Seq: true, Body: func(w *World) {
		c := w.NewClient("A")
		at := w.Choose(12, "failing call")
		partial := w.Choose(4, "bytes written")
		w.faultKind = w.Choose(4, "kind of error")
		if w.Choose(2, "refused") == 1 {
			c.conn.srv.connack = &ref.Packet{Type: ref.CONNACK, Reason: 0x87}
		}
		hit := ""
		n := 0
		w.torn = true
		c.conn.fault = func(op string, size int) (int, error) {
			if n++; n-1 == at {
				hit = op
				return []int{0, 1, size / 2, size - 1, size}[partial], errFault
			}
			return 0, nil
		}
		err := c.dial(connectPacket(), 10*time.Second)
		c.conn.fault = nil
		if hit == "" {
			return
		}
		w.failedConnect(c, err, "the transport fails")
		c.refused("after a transport failure")
	}})
	return
}

// ---- L02 -----------------------------------------------------------------------------------------------------------

func disconnectScenarios(th bool) (r []Scenario) {
	expiries := []int{0, 1, 5, 0xffff, 0x80000000, 0xfffffffe, 0xffffffff}
	r = append(r, Scenario{Name: "the client disconnects", Seq: true, Body: func(w *World) {
		session := expiries[w.Choose(len(expiries), "session expiry in CONNECT")]
		c := w.Up("A", func(c *Client, p *packets.Connect) { p.SessionExpiryInterval = primitives.PrimitiveUint32(session) })
		ch := []mqtt.EventChannel{c.CreateEventChannel(1), c.CreateEventChannel(3)}
		will := w.Choose(2, "publish will") == 1
		expiry := 0
		ctx, cancel := within(time.Second)
		defer cancel()
		before := len(c.conn.srv.recv)
		var err error
		if w.Choose(2, "call") == 0 {
			err = c.Disconnect(ctx, will)
		} else {
			expiry = expiries[w.Choose(len(expiries), "session expiry")]
			err = c.DisconnectWithSessionExpiry(ctx, will, expiry)
		}
		if err != nil {
			w.Bad("disconnect-failed", "disconnecting fails: %v", err)
			return
		}
		got := c.conn.srv.recv[before:]
		if len(got) != 1 || got[0].Type != ref.DISCONNECT {
			w.Bad("disconnect-packets", "disconnecting sends %v", c.conn.srv.dump()[before:])
			return
		}
		var reason byte
		if will {
			reason = 4
		}
		if got[0].Reason != reason {
			w.Bad("disconnect-reason", "the reason code of DISCONNECT is %#x instead of %#x", got[0].Reason, reason)
		}
		want := 0
		if session != 0 {
			want = expiry
		}
		pr, has := got[0].Prop(0x11)
		if has != (want != 0) || has && int(pr.Num) != want || len(got[0].Props) > 1 {
			w.Bad("disconnect-expiry", "DISCONNECT carries %v; the session was opened with expiry %d and closed with %d", got[0].Props, session, expiry)
		}
		if !c.conn.closed {
			w.Bad("disconnect-open", "the connection stays open")
		}
		for _, x := range ch {
			ev, closed := drain(x)
			if len(ev) != 1 || ev[0].PacketType != packets.DISCONNECT || closed {
				w.Bad("disconnect-event", "the disconnection is announced as %q", showAll(ev))
			}
		}
		c.refused("after Disconnect")
	}})
	r = append(r, Scenario{Name: "the server disconnects", Seq: true, Body: func(w *World) {
		c := w.Up("A", withKeepAlive(5))
		ch := c.CreateEventChannel(4)
		code := byte(w.Choose(256, "reason code"))
		p := &ref.Packet{Type: ref.DISCONNECT, Reason: code, HasReason: code != 0 || w.Choose(2, "reason given") == 1}
		c.conn.Push(p)
		if w.Choose(2, "close") == 1 {
			c.conn.CloseByPeer()
		}
		c.pollOnce(time.Second)
		c.conn.sealed = true
		if !c.conn.closed {
			w.Bad("disconnect-open", "the connection stays open after the server sent DISCONNECT")
		}
		ev, _ := drain(ch)
		if len(ev) != 1 || ev[0].PacketType != packets.DISCONNECT {
			w.Bad("disconnect-event", "the disconnection is announced as %q", showAll(ev))
		} else if d := ev[0].Data.(*packets.Disconnect); byte(d.ReasonCode) != code {
			w.Bad("disconnect-event", "the server disconnected with %#x, announced as %#x", code, d.ReasonCode)
		}
		c.refused("after the server sent DISCONNECT")
	}})
	inbound := []*ref.Packet{publish(0, 0, "t", "xyz"), publish(1, 3, "t", "xyz"), publish(2, 3, "t", ""), ack(ref.PUBACK, 9, 0x10), ack(ref.PUBREL, 9, 0),
		ack(ref.PUBREC, 9, 0), {Type: ref.SUBACK, ID: 4, Codes: []byte{1}}, {Type: ref.PINGRESP}, {Type: ref.DISCONNECT, HasReason: true, Reason: 0x8b, HasProps: true, Props: []ref.Prop{{ID: 0x1f, S: "bye"}}},
		{Type: ref.AUTH, HasReason: true, Reason: 0x18, HasProps: true, Props: []ref.Prop{{ID: 0x15, S: "m"}}}}
	r = append(r, Scenario{Name: "the peer closes", Seq: true, Body: func(w *World) {
		c := w.Up("A", withKeepAlive(5))
		w.torn = true
		p := inbound[w.Choose(len(inbound), "packet")]
		b := p.Encode()
		n := w.Choose(len(b), "bytes before the end")
		if n > 0 {
			c.conn.PushBytes(b[:n])
		}
		if w.Choose(2, "how") == 1 {
			c.conn.rxErr = errors.New("connection reset")
		}
		if n > 0 && w.Choose(2, "when") == 1 {
			// the end of the stream comes later than the beginning of the packet
			c.conn.eof, c.conn.eofAt = true, vs.Offset()+3*time.Second
			c.conn.data.Raise()
		} else {
			c.conn.CloseByPeer()
		}
		if err := c.pollOnce(time.Second); err == nil {
			w.Bad("end-unnoticed", "the poll that meets the end of the stream returns no error")
		}
		c.conn.sealed = true
		c.refused("after the peer closed the connection")
	}})
	// Closing may fail: the connection has ended nevertheless.
	r = append(r, Scenario{Name: "closing fails", Seq: true, Body: func(w *World) {
		rm := func(c *Client, p *packets.Connect) { p.ReceiveMaximum = 1 }
		c := w.Up("A", withKeepAlive(600), rm)
		what := ""
		w.closeFails = true
		switch w.Choose(6, "ending") {
		case 0:
			what = "Disconnect"
			c.disc()
		case 1:
			what = "DisconnectWithSessionExpiry"
			c.DisconnectWithSessionExpiry(context.Background(), false, 5)
		case 2:
			what = "DISCONNECT from the server"
			c.conn.Push(&ref.Packet{Type: ref.DISCONNECT, HasReason: true, Reason: 0x8b})
			c.pollOnce(time.Second)
		case 3:
			what = "too many publishes"
			c.conn.srv.hold = func(p *ref.Packet) bool { return p.Type == ref.PUBREC }
			c.conn.Push(publish(2, 5, "t", "x"), publish(2, 6, "t", "x"))
			c.pollOnce(time.Second)
			c.pollOnce(time.Second)
		case 4:
			what = "the keep-alive timeout"
			vs.Sleep(3 * time.Hour)
			c.pollOnce(time.Second)
		case 5:
			what = "the end of the stream"
			c.conn.CloseByPeer()
			c.pollOnce(time.Second)
		}
		c.conn.sealed = true
		c.refused("after " + what + " with a close that fails")
	}})
	// The end of the connection concurrently with an operation.
	for _, o := range append(ops(), twice()...) {
		o := o
		for _, how := range []string{"client", "server", "peer"} {
			how := how
			r = append(r, Scenario{Name: o.name + " while the " + how + " ends the connection", Body: func(w *World) {
				c := w.Up("A", withKeepAlive(600))
				c.StartLoop()
				h := w.T.Go(o.name, func() { o.run(w, c) })
				switch how {
				case "client":
					c.disc()
				case "server":
					c.conn.Push(&ref.Packet{Type: ref.DISCONNECT})
				case "peer":
					c.conn.CloseByPeer()
				}
				w.T.Join(h)
				c.StopLoop()
				if how != "peer" || c.conn.readEnd {
					// Nothing may be written from now on.
					c.conn.sealed = true
					for _, f := range refusals {
						if err := f.run(c); !errors.Is(err, mqtt.ErrClientNotConnected) {
							w.Bad("not-refused:"+f.name, "after the end of the connection %s returns %v", f.name, err)
						}
					}
				}
			}})
		}
	}
	return
}

// ---- L03 -----------------------------------------------------------------------------------------------------------

// action is an operation performed under fault injection. It runs with a poll loop where it needs one.
type action struct {
	name    string
	prepare func(w *World, c *Client)
	run     func(w *World, c *Client) error
	loop    bool // needs a poll loop
	rm      int  // Receive Maximum of the server
}

func faultActions() []action {
	pollOf := func(name string, pkts ...*ref.Packet) action {
		return action{name: "poll " + name, prepare: func(w *World, c *Client) { c.conn.Push(pkts...) }, run: func(w *World, c *Client) error {
			return c.pollOnce(time.Second)
		}}
	}
	return []action{
		{name: "publish 0", run: func(w *World, c *Client) error { return c.pub(0, "a") }},
		{name: "publish 1", run: func(w *World, c *Client) error { return c.pub(1, "a") }},
		{name: "publish 2", run: func(w *World, c *Client) error { return c.pub(2, "a") }},
		{name: "subscribe", loop: true, run: func(w *World, c *Client) error {
			ch := c.CreateEventChannel(1)
			return c.sub("s", &ch)
		}},
		{name: "unsubscribe", loop: true, run: func(w *World, c *Client) error { return c.unsub("s") }},
		{name: "keep-alive", run: func(w *World, c *Client) error { return c.ping() }},
		{name: "disconnect", run: func(w *World, c *Client) error { return c.disc() }},
		pollOf("nothing"),
		pollOf("publish 0", publish(0, 0, "t", "x")),
		pollOf("publish 1", publish(1, 5, "t", "x")),
		pollOf("publish 2", publish(2, 5, "t", "x")),
		{name: "poll publish 2 again", prepare: func(w *World, c *Client) {
			c.conn.srv.hold = func(p *ref.Packet) bool { return p.Type == ref.PUBREC }
			c.conn.Push(publish(2, 5, "t", "x"))
			c.pollOnce(time.Second)
			p := publish(2, 5, "t", "x")
			p.Flags |= 8
			c.conn.Push(p)
		}, run: func(w *World, c *Client) error { return c.pollOnce(time.Second) }},
		{name: "poll release", prepare: func(w *World, c *Client) {
			c.conn.Push(publish(2, 5, "t", "x"))
			c.pollOnce(time.Second)
		}, run: func(w *World, c *Client) error { return c.pollOnce(time.Second) }},
		{name: "poll PUBACK", prepare: func(w *World, c *Client) { c.pub(1, "p") }, run: func(w *World, c *Client) error { return c.pollOnce(time.Second) }},
		{name: "poll PUBREC", prepare: func(w *World, c *Client) { c.pub(2, "p") }, run: func(w *World, c *Client) error { return c.pollOnce(time.Second) }},
		{name: "poll failing PUBREC", prepare: func(w *World, c *Client) {
			c.conn.srv.pubCode = func(*ref.Packet) byte { return 0x97 }
			c.pub(2, "p")
		}, run: func(w *World, c *Client) error { return c.pollOnce(time.Second) }},
		{name: "poll PUBCOMP", prepare: func(w *World, c *Client) {
			c.pub(2, "p")
			c.pollOnce(time.Second)
		}, run: func(w *World, c *Client) error { return c.pollOnce(time.Second) }},
		pollOf("DISCONNECT", &ref.Packet{Type: ref.DISCONNECT}),
		pollOf("PINGRESP", &ref.Packet{Type: ref.PINGRESP}),
		pollOf("SUBACK", &ref.Packet{Type: ref.SUBACK, ID: 77, Codes: []byte{0}}),
		pollOf("AUTH", &ref.Packet{Type: ref.AUTH}),
		{name: "poll excess publish", prepare: func(w *World, c *Client) {
			c.conn.srv.hold = func(p *ref.Packet) bool { return p.Type == ref.PUBREC }
			c.conn.Push(publish(2, 5, "t", "x"), publish(2, 6, "t", "x"))
			c.pollOnce(time.Second)
			c.pollOnce(time.Second)
			c.conn.Push(publish(1, 7, "t", "x"))
		}, run: func(w *World, c *Client) error { return c.pollOnce(time.Second) }},
		{name: "poll after the keep-alive ran out", prepare: func(w *World, c *Client) { vs.Sleep(3 * time.Hour) },
			run: func(w *World, c *Client) error { return c.pollOnce(time.Second) }},
		{name: "poll malformed", prepare: func(w *World, c *Client) { c.conn.PushBytes([]byte{0x40, 3, 0, 1, 0xff, 0x42, 2, 0, 1}) },
			run: func(w *World, c *Client) error { return c.pollOnce(time.Second) }},
		// What is not sent takes no slot of the server's.
		{name: "publish 1, receive maximum 1", rm: 1, run: func(w *World, c *Client) error { return c.pub(1, "a") }},
		{name: "publish 2, receive maximum 1", rm: 1, run: func(w *World, c *Client) error { return c.pub(2, "a") }},
		// Large packets may be written in pieces, and there may be nothing to write of a payload.
		{name: "publish 0 of 0 bytes", run: func(w *World, c *Client) error { return c.pub(0, "") }},
		{name: "publish 1 of 0 bytes", run: func(w *World, c *Client) error { return c.pub(1, "") }},
		{name: "publish 0 of 5000 bytes", run: func(w *World, c *Client) error { return c.pub(0, strings.Repeat("X", 5000)) }},
		{name: "publish 1 of 5000 bytes", run: func(w *World, c *Client) error { return c.pub(1, strings.Repeat("X", 5000)) }},
		{name: "publish 2 of 5000 bytes", run: func(w *World, c *Client) error { return c.pub(2, strings.Repeat("X", 5000)) }},
		{name: "publish 0 of 70000 bytes", run: func(w *World, c *Client) error { return c.pub(0, strings.Repeat("X", 70000)) }},
		{name: "subscribe to many filters", loop: true, run: func(w *World, c *Client) error {
			ch := c.CreateEventChannel(1)
			return c.subs(&ch, manyFilters()...)
		}},
		{name: "unsubscribe from many filters", loop: true, run: func(w *World, c *Client) error { return c.unsub(manyFilters()...) }},
	}
}

// faulty runs an action with its n-th transport or storage call failing, then another operation.
func faulty(a action, storage bool, second bool) Scenario {
	name := a.name
	if storage {
		name += " with storage"
	}
	if second {
		name += ", two failures"
	}
	return Scenario{Name: name, Seq: true, Body: func(w *World) {
		w.torn = true
		opts := []func(*Client, *packets.Connect){withKeepAlive(3600), func(c *Client, p *packets.Connect) { p.ReceiveMaximum = 2 }, withRM(a.rm)}
		s := w.NewStore()
		if storage {
			opts = append(opts, withStore(s))
		}
		c := w.Up("A", opts...)
		if a.prepare != nil {
			a.prepare(w, c)
		}
		after := faultActions()
		at := w.Choose(24, "failing call")
		at2 := -1
		if second {
			at2 = at + 1 + w.Choose(6, "second failing call")
		}
		partial := -1
		n := 0
		hit := ""
		mine := vs.ThreadName()
		fail := func(op string) bool {
			n++
			if n-1 == at || n-1 == at2 {
				if hit == "" {
					w.faultKind = w.Choose(4, "kind of error")
				}
				hit = op
				return true
			}
			return false
		}
		c.conn.fault = func(op string, size int) (int, error) {
			if a.loop && op == "read" && vs.ThreadName() == mine {
				return 0, nil
			}
			if !fail(op) {
				return 0, nil
			}
			if op == "write" {
				if partial < 0 {
					partial = w.Choose(5, "bytes written")
				}
				return []int{0, 1, size / 2, size - 1, size}[partial], errFault
			}
			return 0, errFault
		}
		s.fault = func(op string) error {
			if fail("storage " + op) {
				return errFault
			}
			return nil
		}
		if a.loop {
			c.StartLoop()
		}
		err := a.run(w, c)
		c.conn.fault, s.fault = nil, nil
		if hit == "" {
			if n > 20 {
				w.T.Fail("setup", "the action makes %d calls, more than are enumerated", n)
			}
			if a.loop {
				c.StopLoop()
			}
			return
		}
		ok := err != nil
		if a.loop && !ok {
			// The failing call may have been the poll loop's.
			ok = len(c.pollErrs) > 0
		}
		if hit == "storage store" && w.faultKind == 3 {
			// The library takes an entry that is there already for a message that it has received before.
			ok = true
		}
		if !ok {
			w.Fail("L03", "swallowed:"+a.name+":"+hit, "%s returns no error although a %s failed", a.name, hit)
		}
		if a.loop {
			c.StopLoop()
		}
		// Everything else still runs to completion.
		c.conn.srv.hold, c.conn.srv.pubCode = nil, nil
		b := after[w.Choose(7, "next operation")]
		lim := vs.Offset() + 2*time.Minute
		c.stop = vs.Flag{}
		c.StartLoop()
		b.run(w, c)
		c.IsConnected()
		c.KeepAliveInterval()
		ch := c.CreateEventChannel(1)
		c.CloseEventChannel(ch)
		c.pub(1, "z")
		c.StopLoop()
		c.disc()
		if vs.Offset() > lim {
			w.Fail("L03", "slow", "after the failure the operations take %v", vs.Offset()-lim+2*time.Minute)
		}
	}}
}

// manyFilters make a packet of some ten thousand bytes.
func manyFilters() (r []string) {
	for i := 0; i < 10; i++ {
		r = append(r, strings.Repeat(string(rune('a'+i)), 1000))
	}
	return
}

func faultScenarios(th bool) (r []Scenario) {
	for _, a := range faultActions() {
		for _, st := range []bool{false, true} {
			r = append(r, faulty(a, st, false))
			s := faulty(a, st, true)
			s.Thorough = true
			r = append(r, s)
		}
	}
	r = append(r, Scenario{Name: "connect", Seq: true, Body: func(w *World) {
		w.torn = true
		c := w.NewClient("A")
		at := w.Choose(10, "failing call")
		n := 0
		hit := ""
		c.conn.fault = func(op string, size int) (int, error) {
			if n++; n-1 == at {
				hit = op
				w.faultKind = w.Choose(4, "kind of error")
				return w.Choose(2, "bytes written") * size, errFault
			}
			return 0, nil
		}
		err := c.dial(connectPacket(), time.Second)
		c.conn.fault = nil
		if hit != "" && err == nil {
			w.Fail("L03", "swallowed:connect:"+hit, "Connect returns no error although a %s failed", hit)
		}
		b := faultActions()[w.Choose(7, "next operation")]
		c.StartLoop()
		b.run(w, c)
		c.StopLoop()
	}})
	return append(r, concurrentFaults()...)
}

// concurrentFaults makes writing or storing fail while several goroutines use the client.
func concurrentFaults() (r []Scenario) {
	for _, storage := range []bool{false, true} {
		for _, o := range []string{"pub0", "pub0e", "pub0l", "pub1", "pub2", "sub", "unsub", "keepalive", "inbound"} {
			o, storage := o, storage
			name := "failures during " + o
			if storage {
				if o != "pub1" && o != "pub2" && o != "inbound" {
					continue
				}
				name += " with storage"
			}
			r = append(r, Scenario{Name: name, Body: func(w *World) {
				w.torn = true
				opts := []func(*Client, *packets.Connect){withKeepAlive(600)}
				st := w.NewStore()
				if storage {
					opts = append(opts, withStore(st))
				}
				c := w.Up("A", opts...)
				at := w.Choose(4, "failing call")
				w.faultKind = w.Choose(2, "kind of error")
				n := 0
				if storage {
					st.fault = func(op string) error {
						if n++; n-1 == at {
							return errFault
						}
						return nil
					}
				}
				c.conn.fault = func(op string, size int) (int, error) {
					if op == "write" {
						if n++; n-1 == at {
							return w.Choose(2, "bytes written"), errFault
						}
					}
					return 0, nil
				}
				c.StartLoop()
				run := func() {
					switch o {
					case "pub0":
						c.pub(0, "a")
					case "pub0e":
						c.pub(0, "")
					case "pub0l":
						c.pub(0, strings.Repeat("X", 9000))
					case "pub1":
						c.pub(1, "a")
					case "pub2":
						c.pub(2, "a")
					case "sub":
						c.sub("s", nil)
					case "unsub":
						c.unsub("s")
					case "keepalive":
						c.ping()
					}
				}
				if o == "inbound" {
					c.conn.Push(publish(1, 1, "t", "x"), publish(2, 2, "t", "y"))
				}
				h1, h2 := w.T.Go("first", run), w.T.Go("second", func() { c.pub(0, "q"); run() })
				w.T.Join(h1)
				w.T.Join(h2)
				c.StopLoop()
			}})
		}
	}
	return
}

func init() {
	suites["L01"] = suite{scenarios: connectScenarios}
	suites["L02"] = suite{scenarios: disconnectScenarios}
	suites["L03"] = suite{scenarios: faultScenarios}
}

var _ = os.ErrDeadlineExceeded
