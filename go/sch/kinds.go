package main

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"

	"verif/ref"
)

// What a publish looks like makes no difference to the flow it is part of: these scenarios go through the combinations of
// QoS, flags, topic, payload and properties.

var kindTopics = []string{"t", "a/b/c", "/", "$SYS/x", strings.Repeat("long/", 60) + "t"}
var kindPayloads = []string{"x", "", "\x00", strings.Repeat("y", 300), strings.Repeat("z", 20000)}

// kind is one of the combinations.
type kind struct {
	qos            byte
	retain, dup    bool
	topic, payload string
	rich           bool
}

func (k kind) String() string {
	return fmt.Sprintf("QoS %d retain %v duplicate %v topic %.12q payload %.4q (%d) properties %v", k.qos, k.retain, k.dup, k.topic, k.payload, len(k.payload), k.rich)
}

// chooseKind enumerates the combinations; at most two of topic, payload and properties are unusual at a time.
func (w *World) chooseKind(qos ...byte) (k kind) {
	k.qos = qos[w.Choose(len(qos), "QoS")]
	k.retain = w.Choose(2, "retain") == 1
	k.dup = k.qos > 0 && w.Choose(2, "duplicate") == 1
	k.topic = kindTopics[w.Choose(len(kindTopics), "topic")]
	k.payload = kindPayloads[w.Choose(len(kindPayloads), "payload")]
	k.rich = w.Choose(2, "properties") == 1
	w.T.Logf("%v", k)
	return
}

// inbound makes the packet of the server.
func (k kind) inbound(id uint16) *ref.Packet {
	if k.qos == 0 {
		id = 0
	}
	p := publish(k.qos, id, k.topic, k.payload)
	if k.retain {
		p.Flags |= 1
	}
	if k.dup {
		p.Flags |= 8
	}
	if k.rich {
		rich(0, p)
	}
	return p
}

// outbound makes the packet of the client.
func (k kind) outbound() *packets.Publish {
	p := newPublish(k.qos, k.topic, k.payload)
	p.Retain, p.Duplicate = k.retain, k.dup
	if k.rich {
		richPublish(p)
		p.Retain = k.retain
	}
	return p
}

// carries reports whether the event is a delivery of this publish.
func (k kind) carries(e *mqtt.Event) bool {
	p, ok := e.Data.(*packets.Publish)
	return ok && e.PacketType == packets.PUBLISH && string(p.Topic) == k.topic && string(p.Payload) == k.payload && p.QoS == packets.QoS(k.qos)
}

// inboundKinds: a publish of every kind is delivered, answered and counted.
func inboundKinds(storage, bound bool) Scenario {
	name := "a publish of every kind arrives"
	if storage {
		name += ", storage"
	}
	if bound {
		name += ", subscribed"
	}
	return Scenario{Name: name, Seq: true, Heavy: true, Body: func(w *World) {
		opts := []func(*Client, *packets.Connect){func(c *Client, p *packets.Connect) { p.ReceiveMaximum = 1 }}
		st := w.NewStore()
		if storage {
			opts = append(opts, withStore(st))
		}
		c := w.Up("A", opts...)
		s := c.conn.srv
		general := c.CreateEventChannel(8)
		other := c.CreateEventChannel(8)
		hit := c.CreateEventChannel(8)
		k := w.chooseKind(0, 1, 2)
		if bound {
			f := k.topic
			if i := strings.LastIndexByte(f, '/'); i > 0 {
				f = f[:i] + "/#"
			}
			c.StartLoop()
			if c.sub("never/matches", &other) != nil || c.sub(f, &hit) != nil {
				w.T.Fail("setup", "cannot subscribe")
			}
			c.StopLoop()
		}
		drain(general)
		drain(other)
		drain(hit)
		s.hold = func(p *ref.Packet) bool { return true }
		start := len(s.recv)
		c.conn.Push(k.inbound(7))
		if errs := c.pollAll(); len(errs) > 0 || !c.IsConnected() {
			w.Bad("refused", "polling fails: %v", errs)
			return
		}
		want := []string{"", "PUBACK(7)", "PUBREC(7)"}[k.qos]
		if got := s.sentSince(start); got != want {
			w.Bad("answers", "the client sends %q instead of %q", got, want)
		}
		if storage {
			held := ""
			if k.qos == 2 {
				held = "7:PUBREC"
			}
			if st.contents() != held {
				w.Bad("stored", "the store holds %q instead of %q", st.contents(), held)
			}
		}
		for i, ch := range []mqtt.EventChannel{general, hit, other} {
			name := []string{"general", "bound", "other"}[i]
			ev, closed := drain(ch)
			if n := len(ev); closed || bound && i == 2 && n > 0 || !(bound && i == 2) && (n != 1 || !k.carries(ev[0])) {
				w.Bad("delivered", "the %s channel gets %q", name, showAll(ev))
			}
		}
		// It takes the only slot if it is unfinished.
		start = len(s.recv)
		n := w.chooseKindShort()
		c.conn.Push(n.inbound(9))
		err := c.pollOnce(time.Second)
		ev, _ := drain(general)
		var rc mqtt.ReasonCode
		if k.qos == 2 && n.qos > 0 {
			if got := s.sentSince(start); !errors.As(err, &rc) || byte(rc) != 0x93 || got != "DISCONNECT(0)" || c.IsConnected() || !c.conn.closed || strings.Contains(showAll(ev), "PUBLISH") {
				w.Bad("excess", "the server exceeds the Receive Maximum with a publish (%v); the poll returns %v, the client sends %q and delivers %q", n, err, got, showAll(ev))
			}
		} else if err != nil || !c.IsConnected() || len(ev) != 1 || !n.carries(ev[0]) {
			w.Bad("refused", "a publish (%v) within the Receive Maximum leads to %v and %q", n, err, showAll(ev))
		}
	}}
}

// chooseKindShort enumerates a few kinds.
func (w *World) chooseKindShort() (k kind) {
	k.qos = byte(w.Choose(3, "QoS"))
	k.retain = w.Choose(2, "retain") == 1
	k.dup = k.qos > 0 && k.retain
	k.topic, k.payload = "t", "second"
	if k.retain && w.Choose(2, "payload") == 1 {
		k.payload = ""
	}
	return
}

// outboundKinds: a publish of every kind is stored, counted and completed.
func outboundKinds(storage bool) Scenario {
	name := "the client publishes a message of every kind"
	if storage {
		name += ", storage"
	}
	return Scenario{Name: name, Seq: true, Heavy: true, Body: func(w *World) {
		opts := []func(*Client, *packets.Connect){withRM(1)}
		st := w.NewStore()
		if storage {
			opts = append(opts, withStore(st))
		}
		c := w.Up("A", opts...)
		s := c.conn.srv
		ch := c.CreateEventChannel(8)
		s.hold = func(p *ref.Packet) bool { return true }
		if storage {
			w.watchStore(c, st)
		}
		k := w.chooseKind(0, 1, 2)
		code := byte(0)
		if k.qos > 0 {
			code = []byte{0, 0x10, 0x97}[w.Choose(3, "code")]
		}
		ctx, cancel := within(time.Second)
		err := c.Publish(ctx, k.outbound())
		cancel()
		if err != nil || len(s.recv) == 0 || s.recv[len(s.recv)-1].Type != ref.PUBLISH {
			w.Bad("publish", "the publish returns %v, the server gets %v", err, s.dump())
			return
		}
		got := s.recv[len(s.recv)-1]
		if string(got.Payload) != k.payload || got.Topic != k.topic || got.QoS() != k.qos || got.Flags&1 != 0 != k.retain || got.Flags&8 != 0 != k.dup {
			w.Bad("publish", "the server gets %v", got)
		}
		// Another one passes if this one takes no slot.
		n := w.chooseKindShort()
		ctx, cancel = within(time.Second)
		err = c.Publish(ctx, n.outbound())
		cancel()
		if blocked := k.qos > 0 && n.qos > 0; blocked != isTimeout(err) || !blocked && err != nil {
			w.Bad("slots", "with a publish (%v) unacknowledged and a Receive Maximum of 1 another publish (%v) returns %v", k, n, err)
			return
		}
		s.hold = nil
		s.pubCode = func(p *ref.Packet) byte { return code }
		held := s.held
		s.held = nil
		for _, p := range held {
			if a := s.answer(p); a != nil {
				c.conn.Push(a)
			}
		}
		start := len(s.recv)
		if errs := c.pollAll(); len(errs) > 0 {
			w.Bad("poll", "polling fails: %v", errs)
		}
		var want, events []string
		for i, x := range []kind{k, n} {
			if x.qos == 0 || i > 0 && k.qos > 0 {
				continue
			}
			if x.qos == 1 {
				events = append(events, "PUBACK")
			} else {
				events = append(events, "PUBREC")
				if code < 0x80 {
					events = append(events, "PUBCOMP")
					want = append(want, "PUBREL")
				}
			}
		}
		if got := s.sentSince(start); len(want) > 0 != strings.HasPrefix(got, "PUBREL(") || len(strings.Fields(got)) != len(want) {
			w.Bad("answers", "the client sends %q instead of %v", got, want)
		}
		ev, _ := drain(ch)
		var names []string
		for _, e := range ev {
			names = append(names, strings.SplitN(show(e), "(", 2)[0])
		}
		if strings.Join(names, " ") != strings.Join(events, " ") {
			w.Bad("events", "announced are %v instead of %v", names, events)
		}
		if storage && st.contents() != "" {
			w.Bad("left-over", "every exchange has completed but the store holds %s", st.contents())
		}
		for i := 0; i < 2; i++ {
			s.hold = func(p *ref.Packet) bool { return true }
			ctx, cancel := within(time.Second)
			err := c.Publish(ctx, newPublish(1, "t", "probe"))
			cancel()
			if i == 0 && err != nil || i == 1 && !isTimeout(err) {
				w.Bad("slots", "afterwards publish %d with a Receive Maximum of 1 returns %v", i+1, err)
			}
		}
	}}
}

// redeliveredKinds: a publish of every kind is delivered once although it is sent again on the next connection.
func redeliveredKinds() Scenario {
	return Scenario{Name: "a publish of every kind is sent again", Seq: true, Heavy: true, Body: func(w *World) {
		st := w.NewStore()
		k := w.chooseKind(2)
		again := k
		again.dup = !k.dup
		got := 0
		for i := 0; i < 2; i++ {
			c := w.Up(fmt.Sprint("A", i), withStore(st), resumes(i > 0))
			ch := c.CreateEventChannel(8)
			s := c.conn.srv
			s.hold = func(p *ref.Packet) bool { return true }
			start := len(s.recv)
			want := "PUBREC(7)"
			if i == 0 {
				c.conn.Push(k.inbound(7))
			} else {
				c.conn.Push(again.inbound(7), ack(ref.PUBREL, 7, 0), k.inbound(7))
				want = "PUBREC(7) PUBCOMP(7) PUBREC(7)"
			}
			if errs := c.pollAll(); len(errs) > 0 {
				w.Bad("poll", "polling fails: %v", errs)
			}
			if sent := s.sentSince(start); sent != want {
				w.Bad("answers", "the client sends %q instead of %q", sent, want)
			}
			ev, _ := drain(ch)
			n := 0
			for _, e := range ev {
				if k.carries(e) {
					n++
				}
			}
			if n != 1 {
				// On the second connection the message is a new one under the same identifier.
				w.Bad("delivered", "on connection %d the message is delivered %d times", i+1, n)
			}
			got += n
			c.conn.closed = true
		}
	}}
}

// resumes makes the server resume the session.
func resumes(on bool) func(c *Client, p *packets.Connect) {
	return func(c *Client, p *packets.Connect) {
		if on {
			c.conn.srv.connack = &ref.Packet{Type: ref.CONNACK, AckFlags: 1, HasProps: true}
		}
	}
}

func inboundKindScenarios() (r []Scenario) {
	for _, st := range []bool{false, true} {
		for _, b := range []bool{false, true} {
			r = append(r, inboundKinds(st, b))
		}
	}
	return
}

func outboundKindScenarios() []Scenario {
	return []Scenario{outboundKinds(false), outboundKinds(true)}
}

// sameIdentifier: the client and the server use the same identifier for exchanges of their own; in every order of their
// steps neither exchange disturbs the other.
func sameIdentifier(prop string) Scenario {
	return Scenario{Name: "exchanges of both sides with the same identifier", Seq: true, Keep: true, Body: func(w *World) {
		st := w.NewStore()
		c := w.Up("A", withStore(st))
		s := c.conn.srv
		s.hold = func(*ref.Packet) bool { return true }
		ch := c.CreateEventChannel(16)
		qos := byte(1 + w.Choose(2, "QoS of the client's publish"))
		other := w.Choose(3, "QoS of the server's publish")
		own := newPublish(qos, "t", "own")
		own.PacketIdentifier = 7
		ctx, cancel := within(time.Second)
		defer cancel()
		if err := c.Publish(ctx, own); err != nil {
			w.T.Fail("setup", "publishing fails: %v", err)
		}
		left := [2][]*ref.Packet{{ack(ref.PUBACK, 7, 0)}, {publish(byte(other), 7, "t", "m")}}
		if qos == 2 {
			left[0] = []*ref.Packet{ack(ref.PUBREC, 7, 0), ack(ref.PUBCOMP, 7, 0)}
		}
		if other == 0 {
			left[1][0].ID = 0
		}
		if other == 2 {
			left[1] = append(left[1], ack(ref.PUBREL, 7, 0))
		}
		if n := w.Choose(2, "again"); n == 1 && other == 1 {
			left[1] = append(left[1], publish(1, 7, "t", "n"))
		} else if n == 1 && other == 2 {
			left[1] = append(left[1], publish(2, 7, "t", "n"), ack(ref.PUBREL, 7, 0))
		}
		drain(ch)
		kept := "PUBLISH"
		for len(left[0])+len(left[1]) > 0 && !w.T.Failed() {
			k := 0
			if len(left[0]) == 0 || len(left[1]) > 0 && w.Choose(2, "whose step") == 1 {
				k = 1
			}
			p := left[k][0]
			left[k] = left[k][1:]
			want, events := "", ref.TypeNames[p.Type]
			switch {
			case k == 0 && p.Type == ref.PUBREC:
				want, kept = "PUBREL(7)", "PUBREC"
			case k == 0:
				kept = ""
			case p.Type == ref.PUBREL:
				want = "PUBCOMP(7)"
			case p.Type == ref.PUBLISH && other > 0:
				want = []string{"", "PUBACK(7)", "PUBREC(7)"}[other]
			}
			start := len(s.recv)
			c.conn.Push(p)
			errs := c.pollAll()
			ev, _ := drain(ch)
			if prop == "Q04" && p.Type == ref.PUBLISH && strings.Join(payloads(ev), " ") != string(p.Payload) {
				w.Bad("delivered", "the message %q of the server, with the identifier of a publish of the client, leads to the events %q", p.Payload, showAll(ev))
			}
			if prop == "Q04" && p.Type != ref.PUBLISH && len(payloads(ev)) > 0 {
				w.Bad("delivered", "%v leads to the events %q", p, showAll(ev))
			}
			if got := s.sentSince(start); prop == "Q01" && got != want {
				w.Bad("answers", "%v is answered with %q instead of %q", p, got, want)
			}
			if prop == "Q01" && (len(errs) > 0 || len(ev) != 1 || !strings.HasPrefix(show(ev[0]), events)) {
				w.Bad("refused", "%v leads to %v and the events %q", p, errs, showAll(ev))
			}
			if prop == "Q03" && kept != "" && st.kind(7) != kept {
				w.Bad("disturbed", "after %v the store holds %q; the client's exchange is kept as %s", p, st.contents(), kept)
			}
		}
		if prop == "Q03" && st.contents() != "" {
			w.Bad("left-over", "every exchange has completed but the store holds %s", st.contents())
		}
	}}
}

// requestIdentifier: like sameIdentifier, for requests of the client and for publishes that are not stored.
func requestIdentifier(prop string) Scenario {
	return Scenario{Name: "requests and publishes of both sides with the same identifier", Seq: true, Bare: true, Body: func(w *World) {
		store := w.Choose(2, "storage") == 1
		st := w.NewStore()
		var opts []func(*Client, *packets.Connect)
		if store {
			opts = append(opts, withStore(st))
		}
		c := w.Up("A", opts...)
		s := c.conn.srv
		s.hold = func(*ref.Packet) bool { return true }
		c.SetRngFn(func() uint32 { return 7 })
		ch := c.CreateEventChannel(16)
		bound := c.CreateEventChannel(16)
		kinds := 4
		if store {
			kinds = 2 // see sameIdentifier for the others
		}
		kind := w.Choose(kinds, "what the client does")
		var err error
		own := w.T.Go("own", func() {
			switch kind {
			case 0:
				err = c.sub("other", &bound)
			case 1:
				err = c.unsub("other")
			case 2:
				err = c.pub(1, "own")
			case 3:
				err = c.pub(2, "own")
			}
		})
		w.T.Quiesce()
		if e, _ := s.open.Get(7); e == nil {
			w.T.Fail("setup", "nothing was sent under identifier 7")
		}
		left := [2][]*ref.Packet{}
		switch kind {
		case 0:
			left[0] = []*ref.Packet{{Type: ref.SUBACK, ID: 7, HasProps: true, Codes: []byte{0}}}
		case 1:
			left[0] = []*ref.Packet{{Type: ref.UNSUBACK, ID: 7, HasProps: true, Codes: []byte{0}}}
		case 2:
			left[0] = []*ref.Packet{ack(ref.PUBACK, 7, 0)}
		case 3:
			left[0] = []*ref.Packet{ack(ref.PUBREC, 7, 0), ack(ref.PUBCOMP, 7, 0)}
		}
		qos := byte(1 + w.Choose(2, "QoS of the server's publish"))
		for n := w.Choose(2, "again"); n >= 0; n-- {
			left[1] = append(left[1], publish(qos, 7, "t", fmt.Sprint("m", n)))
			if qos == 2 {
				if store && w.Choose(2, "redelivered") == 1 {
					p := publish(2, 7, "t", "again")
					p.Flags |= 8
					left[1] = append(left[1], p)
				}
				left[1] = append(left[1], ack(ref.PUBREL, 7, 0))
			}
		}
		drain(ch)
		for len(left[0])+len(left[1]) > 0 && !w.T.Failed() {
			k := 0
			if len(left[0]) == 0 || len(left[1]) > 0 && w.Choose(2, "whose step") == 1 {
				k = 1
			}
			p := left[k][0]
			left[k] = left[k][1:]
			want := ""
			switch {
			case k == 0 && p.Type == ref.PUBREC:
				want = "PUBREL(7)"
			case k == 0:
			case p.Type == ref.PUBREL:
				want = "PUBCOMP(7)"
			case qos == 1:
				want = "PUBACK(7)"
			default:
				want = "PUBREC(7)"
			}
			pending := !own.Done()
			start := len(s.recv)
			c.conn.Push(p)
			errs := c.pollAll()
			w.T.Quiesce()
			ev, _ := drain(ch)
			text := ""
			if p.Type == ref.PUBLISH && string(p.Payload) != "again" {
				text = string(p.Payload)
			}
			switch prop {
			case "Q04":
				if got := strings.Join(payloads(ev), " "); got != text {
					w.Bad("delivered", "%v leads to the messages %q instead of %q", p, got, text)
				}
			case "Q01":
				if got := s.sentSince(start); got != want {
					w.Bad("answers", "%v is answered with %q instead of %q", p, got, want)
				}
				if len(errs) > 0 {
					w.Bad("refused", "%v leads to %v", p, errs)
				}
			case "R01":
				if kind < 2 && k == 1 && pending && own.Done() {
					w.Bad("disturbed", "%v ends a request with the same identifier: %v", p, err)
				}
				if kind < 2 && k == 0 && (!own.Done() || err != nil) {
					w.Bad("not-answered", "%v does not complete the request: %v", p, err)
				}
			case "Q03":
				if kept := st.kind(7); store && kept != "" && (kept != "PUBREC" || qos != 2) {
					w.Bad("disturbed", "after %v the store holds %q", p, st.contents())
				}
			}
		}
		if prop == "Q03" && st.contents() != "" {
			w.Bad("left-over", "every exchange has completed but the store holds %s", st.contents())
		}
		w.T.Join(own)
	}}
}
