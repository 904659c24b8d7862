package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"

	"verif/ref"
	"verif/vs"
)

// pollAll polls until everything that arrived was handled.
func (c *Client) pollAll() (errs []error) {
	for n := 0; c.conn.Available() && !c.conn.closed && n < 200; n++ {
		if err := c.pollOnce(time.Second); err != nil {
			errs = append(errs, err)
		}
	}
	return
}

// sentSince lists what the client sent from a position on.
func (s *Server) sentSince(n int) string {
	var l []string
	for _, p := range s.recv[n:] {
		l = append(l, fmt.Sprintf("%s(%d)", names[p.Type], p.ID))
	}
	return strings.Join(l, " ")
}

// ---- Q01 -----------------------------------------------------------------------------------------------------------

type inStep struct {
	name    string
	pk      func(i int) *ref.Packet
	answer  string
	q2, rel uint16
}

// inboundHistory enumerates the sequences of packets of a server.
func inboundHistory(depth int, storage, bound bool) Scenario {
	name := fmt.Sprintf("history of %d packets", depth)
	if storage {
		name += ", storage"
	}
	if bound {
		name += ", subscribed"
	}
	steps := []inStep{
		{"q0", func(i int) *ref.Packet { return publish(0, 0, "t", fmt.Sprint("m", i)) }, "", 0, 0},
		{"q1 id 1", func(i int) *ref.Packet { return publish(1, 1, "t", fmt.Sprint("m", i)) }, "PUBACK(1)", 0, 0},
		{"q1 id 65535", func(i int) *ref.Packet { return publish(1, 65535, "t", fmt.Sprint("m", i)) }, "PUBACK(65535)", 0, 0},
		{"q2 id 1", func(i int) *ref.Packet { return publish(2, 1, "t", fmt.Sprint("m", i)) }, "PUBREC(1)", 1, 0},
		{"q2 id 256", func(i int) *ref.Packet { return publish(2, 256, "t", fmt.Sprint("m", i)) }, "PUBREC(256)", 256, 0},
		{"rel 1", func(i int) *ref.Packet { return ack(ref.PUBREL, 1, 0) }, "PUBCOMP(1)", 0, 1},
		{"rel 256", func(i int) *ref.Packet { return ack(ref.PUBREL, 256, 0x92) }, "PUBCOMP(256)", 0, 256},
		{"own", nil, "", 0, 0},
	}
	return Scenario{Name: name, Seq: true, Body: func(w *World) {
		opts := []func(*Client, *packets.Connect){}
		var st *Store
		if storage {
			st = w.NewStore()
			opts = append(opts, withStore(st))
		}
		c := w.Up("A", opts...)
		s := c.conn.srv
		ch := c.CreateEventChannel(32)
		if bound {
			c.StartLoop()
			if c.sub("t", &ch) != nil {
				w.T.Fail("setup", "cannot subscribe")
			}
			c.StopLoop()
		}
		drain(ch)
		s.hold = func(p *ref.Packet) bool { return true }
		all := w.Choose(2, "batch") == 1
		start := len(s.recv)
		var want, deliver []string
		open := map[uint16]bool{}
		own := 0
		check := func() {
			if errs := c.pollAll(); len(errs) > 0 {
				w.Bad("poll-error", "polling fails: %v", errs)
			}
			if got := s.sentSince(start); got != strings.Join(want, " ") {
				w.Bad("answers", "the client sends %q instead of %q", got, strings.Join(want, " "))
			}
			if st != nil {
				for _, id := range []uint16{1, 256} {
					if (st.kind(id) == "PUBREC") != open[id] || st.kind(id) == "PUBLISH" {
						w.Bad("stored", "the QoS 2 exchange %d is open: %v, but the store holds %q", id, open[id], st.contents())
					}
				}
				if n := st.held.Len(); n != len(open)+own {
					w.Bad("stored", "%d exchanges are open, but the store holds %q", len(open)+own, st.contents())
				}
			}
		}
		for i := 0; i < depth && !w.T.Failed(); i++ {
			k := w.Choose(len(steps), "packet")
			x := steps[k]
			w.T.Logf("step: %s", x.name)
			if x.pk == nil {
				if all {
					check()
				}
				p := newPublish(2, "t", "own")
				p.PacketIdentifier = primitives.PrimitiveUint16(1000 + i)
				ctx, cancel := within(time.Second)
				if err := c.Publish(ctx, p); err != nil {
					w.Bad("publish", "publishing fails: %v", err)
				}
				cancel()
				want = append(want, fmt.Sprintf("PUBLISH(%d)", 1000+i))
				own++
				continue
			}
			p := x.pk(i)
			dup := x.q2 != 0 && open[x.q2]
			if dup {
				p.Flags |= 8
			}
			c.conn.Push(p)
			if x.answer != "" {
				want = append(want, x.answer)
			}
			// Without storage the client cannot tell a redelivery from a new message.
			if p.Type == ref.PUBLISH && !(dup && storage) {
				deliver = append(deliver, fmt.Sprint("m", i))
			}
			if x.q2 != 0 {
				open[x.q2] = true
			}
			if x.rel != 0 {
				delete(open, x.rel)
			}
			if !all {
				check()
			}
		}
		check()
		ev, _ := drain(ch)
		got := strings.Join(payloads(ev), " ")
		if w.T.Failed() || got == strings.Join(deliver, " ") {
			return
		}
		w.Bad("delivered", "delivered are %q instead of %q", got, strings.Join(deliver, " "))
	}}
}

func ackScenarios(th bool) (r []Scenario) {
	for _, st := range []bool{false, true} {
		for _, b := range []bool{false, true} {
			r = append(r, inboundHistory(5, st, b))
			s := inboundHistory(6, st, b)
			s.Thorough = true
			r = append(r, s)
		}
	}
	// Every identifier.
	r = append(r, Scenario{Name: "every identifier", Seq: true, Horizon: 20000000, Body: func(w *World) {
		st := w.NewStore()
		c := w.Up("A", withStore(st))
		s := c.conn.srv
		s.hold = func(p *ref.Packet) bool { return true }
		for id := 1; id < 65536; id++ {
			n := len(s.recv)
			c.conn.Push(publish(1, uint16(id), "t", ""), publish(2, uint16(id), "t", ""), ack(ref.PUBREL, uint16(id), 0))
			errs := c.pollAll()
			if got, want := s.sentSince(n), fmt.Sprintf("PUBACK(%d) PUBREC(%d) PUBCOMP(%d)", id, id, id); got != want || len(errs) > 0 {
				w.Bad("answers", "identifier %d: the client sends %q (errors %v)", id, got, errs)
				return
			}
		}
		if st.contents() != "" {
			w.Bad("stored", "the store is not empty: %s", st.contents())
		}
	}})
	// A long history of exchanges does not use anything up.
	r = append(r, Scenario{Name: "70000 exchanges", Seq: true, Horizon: 20000000, Body: func(w *World) {
		c := w.Up("A")
		s := c.conn.srv
		s.hold = func(p *ref.Packet) bool { return true }
		for i := 0; i < 70000; i++ {
			n := len(s.recv)
			id := uint16(1 + i%3)
			c.conn.Push(publish(1, id, "t", ""), publish(2, id, "t", ""), ack(ref.PUBREL, id, 0))
			errs := c.pollAll()
			if got, want := s.sentSince(n), fmt.Sprintf("PUBACK(%d) PUBREC(%d) PUBCOMP(%d)", id, id, id); got != want || len(errs) > 0 {
				w.Bad("answers", "exchange %d: the client sends %q (errors %v)", i, got, errs)
				return
			}
			s.held = nil
		}
	}})
	// Concurrent operations do not change the answers.
	in := [][]*ref.Packet{
		{publish(1, 7, "t", "a"), publish(2, 8, "t", "b")},
		{publish(2, 7, "t", "a"), publish(2, 8, "t", "b"), publish(0, 0, "t", "c")},
		{publish(1, 7, "t", "a"), publish(1, 7, "t", "b"), publish(1, 8, "t", "c")},
	}
	for k, pkts := range in {
		for _, o := range append(ops(), twice()...) {
			if o.name == "disconnect" {
				continue
			}
			for _, storage := range []bool{false, true} {
				pkts, o, storage := pkts, o, storage
				name := fmt.Sprintf("sequence %d during %s", k, o.name)
				if storage {
					name += ", storage"
				}
				r = append(r, Scenario{Name: name, Body: func(w *World) {
					opts := []func(*Client, *packets.Connect){withKeepAlive(600)}
					st := w.NewStore()
					if storage {
						opts = append(opts, withStore(st))
					}
					c := w.Up("A", opts...)
					c.StartLoop()
					h := w.T.Go(o.name, func() { o.run(w, c) })
					c.conn.Push(pkts...)
					w.T.Join(h)
					c.StopLoop()
					var got, want, gotComp, wantComp []string
					for _, p := range c.conn.srv.recv {
						switch p.Type {
						case ref.PUBACK, ref.PUBREC:
							got = append(got, fmt.Sprintf("%s(%d)", names[p.Type], p.ID))
						case ref.PUBCOMP:
							gotComp = append(gotComp, fmt.Sprint(p.ID))
						}
					}
					for _, p := range pkts {
						switch p.QoS() {
						case 1:
							want = append(want, fmt.Sprintf("PUBACK(%d)", p.ID))
						case 2:
							want = append(want, fmt.Sprintf("PUBREC(%d)", p.ID))
							wantComp = append(wantComp, fmt.Sprint(p.ID))
						}
					}
					if fmt.Sprint(got) != fmt.Sprint(want) || fmt.Sprint(gotComp) != fmt.Sprint(wantComp) {
						w.Bad("answers", "the client answers %v, %v instead of %v, %v", got, gotComp, want, wantComp)
					}
					if st.contents() != "" {
						w.Bad("stored", "all exchanges are complete but the store holds %s", st.contents())
					}
				}})
			}
		}
	}
	return
}

// ---- Q02 -----------------------------------------------------------------------------------------------------------

func reactScenarios(th bool) (r []Scenario) {
	for _, storage := range []bool{false, true} {
		storage := storage
		sfx := ""
		if storage {
			sfx = ", storage"
		}
		up := func(w *World) (*Client, *Store) {
			st := w.NewStore()
			if storage {
				return w.Up("A", withStore(st)), st
			}
			return w.Up("A"), st
		}
		// Every reason code at every point of an exchange.
		r = append(r, Scenario{Name: "every reason code" + sfx, Seq: true, Body: func(w *World) {
			c, st := up(w)
			s := c.conn.srv
			ch := c.CreateEventChannel(8)
			s.hold = func(*ref.Packet) bool { return true }
			p := newPublish(2, "t", "x")
			ids := []uint16{1, 255, 256, 65535}
			id := ids[w.Choose(len(ids), "identifier")]
			p.PacketIdentifier = primitives.PrimitiveUint16(id)
			ctx, cancel := within(time.Second)
			defer cancel()
			if err := c.Publish(ctx, p); err != nil {
				w.Bad("publish", "publishing fails: %v", err)
				return
			}
			code := byte(w.Choose(256, "PUBREC"))
			explicit := code != 0 || w.Choose(2, "explicit") == 1
			rec := ack(ref.PUBREC, id, code)
			rec.HasReason = explicit
			n := len(s.recv)
			c.conn.Push(rec)
			c.pollAll()
			want := ""
			if code < 0x80 {
				want = fmt.Sprintf("PUBREL(%d)", id)
			}
			if got := s.sentSince(n); got != want {
				w.Bad("reaction", "PUBREC(%d) with code %#x makes the client send %q instead of %q", id, code, got, want)
				return
			}
			if want != "" && s.recv[n].Reason != 0 {
				w.Bad("reaction", "PUBREL carries reason code %#x", s.recv[n].Reason)
			}
			wantEv := fmt.Sprintf("PUBREC(%d %#x)", id, code)
			if storage {
				k := st.contents()
				if code < 0x80 && k != fmt.Sprintf("%d:PUBREC", id) || code >= 0x80 && k != "" {
					w.Fail("Q02", "stored", "after PUBREC with code %#x the store holds %q", code, k)
				}
			}
			if code < 0x80 && code < 8 {
				comp := byte(w.Choose(256, "PUBCOMP"))
				n = len(s.recv)
				c.conn.Push(ack(ref.PUBCOMP, id, comp))
				c.pollAll()
				if got := s.sentSince(n); got != "" {
					w.Bad("reaction", "PUBCOMP makes the client send %q", got)
				}
				wantEv += fmt.Sprintf(" PUBCOMP(%d %#x)", id, comp)
				if st.contents() != "" {
					w.Bad("stored", "the exchange is complete but the store holds %q", st.contents())
				}
			}
			ev, _ := drain(ch)
			if got := showAll(ev); got != wantEv {
				w.Bad("events", "announced are %q instead of %q", got, wantEv)
			}
		}})
		r = append(r, Scenario{Name: "every PUBACK code" + sfx, Seq: true, Body: func(w *World) {
			c, st := up(w)
			s := c.conn.srv
			ch := c.CreateEventChannel(8)
			s.hold = func(*ref.Packet) bool { return true }
			if err := c.pub(1, "x"); err != nil {
				w.Bad("publish", "publishing fails: %v", err)
				return
			}
			id := s.recv[len(s.recv)-1].ID
			code := byte(w.Choose(256, "PUBACK"))
			n := len(s.recv)
			c.conn.Push(ack(ref.PUBACK, id, code))
			c.pollAll()
			if got := s.sentSince(n); got != "" {
				w.Bad("reaction", "PUBACK makes the client send %q", got)
			}
			ev, _ := drain(ch)
			if got, want := showAll(ev), fmt.Sprintf("PUBACK(%d %#x)", id, code); got != want {
				w.Bad("events", "announced are %q instead of %q", got, want)
			}
			if st.contents() != "" {
				w.Bad("stored", "the exchange is complete but the store holds %q", st.contents())
			}
		}})
		// Sequences of acknowledgements with own, other and unknown identifiers.
		depth := 4
		for _, d := range []int{depth, depth + 1} {
			d := d
			r = append(r, Scenario{Name: fmt.Sprintf("sequences of %d acknowledgements", d) + sfx, Seq: true, Thorough: d > depth, Body: func(w *World) {
				c, st := up(w)
				s := c.conn.srv
				ch := c.CreateEventChannel(16)
				s.hold = func(*ref.Packet) bool { return true }
				// open exchanges: 1 (QoS 1), 2 and 3 (QoS 2)
				for id, q := range []byte{1: 1, 2: 2, 3: 2} {
					if id == 0 {
						continue
					}
					p := newPublish(q, "t", "x")
					p.PacketIdentifier = primitives.PrimitiveUint16(id)
					ctx, cancel := within(time.Second)
					if err := c.Publish(ctx, p); err != nil {
						w.T.Fail("setup", "publishing fails: %v", err)
					}
					cancel()
				}
				n := len(s.recv)
				var want, wantEv []string
				// what the store holds of each exchange
				hold := map[uint16]string{1: "PUBLISH", 2: "PUBLISH", 3: "PUBLISH"}
				batch := w.Choose(2, "batch") == 1
				for i := 0; i < d; i++ {
					kinds := []struct {
						t    byte
						id   uint16
						code byte
					}{{ref.PUBACK, 1, 0}, {ref.PUBACK, 9, 0}, {ref.PUBREC, 2, 0}, {ref.PUBREC, 2, 0x83}, {ref.PUBREC, 3, 0x10}, {ref.PUBREC, 9, 0},
						{ref.PUBREC, 9, 0x91}, {ref.PUBCOMP, 2, 0}, {ref.PUBCOMP, 3, 0x92}, {ref.PUBCOMP, 9, 0x92}}
					k := kinds[w.Choose(len(kinds), "acknowledgement")]
					c.conn.Push(ack(k.t, k.id, k.code))
					if k.t == ref.PUBREC && k.code < 0x80 {
						want = append(want, fmt.Sprintf("PUBREL(%d)", k.id))
						hold[k.id] = "PUBREC"
					} else {
						delete(hold, k.id)
					}
					wantEv = append(wantEv, fmt.Sprintf("%s(%d %#x)", names[k.t], k.id, k.code))
					if !batch {
						c.pollAll()
					}
				}
				c.pollAll()
				if got := s.sentSince(n); got != strings.Join(want, " ") {
					w.Bad("reaction", "the client sends %q instead of %q", got, strings.Join(want, " "))
				}
				ev, _ := drain(ch)
				if got := showAll(ev); got != strings.Join(wantEv, " ") {
					w.Bad("events", "announced are %q instead of %q", got, strings.Join(wantEv, " "))
				}
				if storage {
					for _, id := range []uint16{1, 2, 3, 9} {
						if id != 9 && st.kind(id) != hold[id] {
							w.Bad("stored", "the store holds %q; expected for %d: %q", st.contents(), id, hold[id])
						}
					}
				}
			}})
		}
	}
	// Concurrent publishers: each exchange runs to completion.
	progs := [][]byte{{2}, {2, 2}, {1, 2}, {2, 1}}
	for i, a := range progs {
		for _, b := range progs[i:] {
			for _, storage := range []bool{false, true} {
				for _, code := range []byte{0, 0x90} {
					a, b, storage, code := a, b, storage, code
					if storage && len(a)+len(b) > 3 {
						continue
					}
					name := fmt.Sprintf("publishers %d and %d, code %#x", a, b, code)
					if storage {
						name += ", storage"
					}
					r = append(r, Scenario{Name: name, Body: func(w *World) {
						opts := []func(*Client, *packets.Connect){}
						st := w.NewStore()
						if storage {
							opts = append(opts, withStore(st))
						}
						c := w.Up("A", opts...)
						s := c.conn.srv
						ch := c.CreateEventChannel(24)
						s.pubCode = func(p *ref.Packet) byte {
							if strings.HasPrefix(string(p.Payload), "a") {
								return code
							}
							return 0
						}
						c.StartLoop()
						run := func(name string, l []byte) *vs.Handle {
							return w.T.Go(name, func() {
								for i, q := range l {
									if err := c.pub(q, fmt.Sprint(name, i)); err != nil {
										w.Bad("publish", "publishing fails: %v", err)
									}
								}
							})
						}
						h1, h2 := run("a", a), run("b", b)
						w.T.Join(h1)
						w.T.Join(h2)
						c.StopLoop()
						rel := map[uint16]int{}
						wantRel := map[uint16]int{}
						for _, p := range s.recv {
							switch {
							case p.Type == ref.PUBREL:
								rel[p.ID]++
							case p.Type == ref.PUBLISH && p.QoS() == 2 && s.pubCode(p) < 0x80:
								wantRel[p.ID]++
							}
						}
						if fmt.Sprint(rel) != fmt.Sprint(wantRel) {
							w.Bad("reaction", "PUBREL per identifier %v instead of %v", rel, wantRel)
						}
						ev, _ := drain(ch)
						var got, want []string
						for _, e := range ev {
							got = append(got, show(e))
						}
						for _, p := range s.sent {
							if k := p.pk.Type; k == ref.PUBACK || k == ref.PUBREC || k == ref.PUBCOMP {
								want = append(want, fmt.Sprintf("%s(%d %#x)", names[k], p.pk.ID, p.pk.Reason))
							}
						}
						if fmt.Sprint(got) != fmt.Sprint(want) {
							w.Bad("events", "announced are %v instead of %v", got, want)
						}
						if st.contents() != "" {
							w.Bad("stored", "all exchanges are complete but the store holds %s", st.contents())
						}
					}})
				}
			}
		}
	}
	return
}

// ---- Q03 -----------------------------------------------------------------------------------------------------------

// watchStore checks, whenever a byte is written or an acknowledgement is read, that what has to be stored is stored.
func (w *World) watchStore(c *Client, st *Store) {
	s := c.conn.srv
	phase := vs.Table[uint16, string]{} // what must be stored of the client's exchanges
	verify := func(when string) {
		for _, id := range phase.Keys() {
			if want, _ := phase.Get(id); st.kind(id) != want {
				w.Fail("Q03", "stored", "%s the store holds %q for the exchange %d instead of %q", when, st.kind(id), id, want)
			}
		}
	}
	prev := c.conn.fault
	c.conn.fault = func(op string, size int) (int, error) {
		verify("at a " + op)
		if prev != nil {
			return prev(op, size)
		}
		return 0, nil
	}
	c.conn.onBytes = func(p []byte) {
		if len(c.conn.part) == 0 && len(p) > 0 && p[0]>>4 == ref.PUBLISH && p[0]&6 != 0 {
			pk, _, err := ref.Decode(p)
			if err == nil {
				if st.kind(pk.ID) != "PUBLISH" {
					w.Fail("Q03", "sent-before-stored", "the first byte of publish %d is written while the store holds %q", pk.ID, st.contents())
				}
				phase.Set(pk.ID, "PUBLISH")
			}
		}
	}
	s.onRead = func(p *ref.Packet) {
		verify("when an acknowledgement arrives")
		switch {
		case p.Type == ref.PUBACK, p.Type == ref.PUBCOMP, p.Type == ref.PUBREC && p.Reason >= 0x80:
			phase.Delete(p.ID)
		case p.Type == ref.PUBREC:
			if _, ok := phase.Get(p.ID); ok {
				phase.Delete(p.ID) // in transition until the PUBREL is written
			}
		}
	}
	old := s.onPacket
	s.onPacket = func(p *ref.Packet) {
		if p.Type == ref.PUBREL {
			if st.kind(p.ID) != "PUBREC" {
				w.Fail("Q03", "released-before-stored", "PUBREL(%d) is written while the store holds %q", p.ID, st.contents())
			}
			phase.Set(p.ID, "PUBREC")
		}
		if old != nil {
			old(p)
		}
	}
}

func storedScenarios(th bool) (r []Scenario) {
	for _, depth := range []int{5, 6} {
		depth := depth
		r = append(r, Scenario{Name: fmt.Sprintf("history of %d steps", depth), Seq: true, Thorough: depth > 5, Body: func(w *World) {
			st := w.NewStore()
			c := w.Up("A", withStore(st), withRM(3))
			s := c.conn.srv
			s.hold = func(p *ref.Packet) bool { return true }
			failing := -1
			c.conn.fault = func(op string, size int) (int, error) {
				if op == "write" && failing >= 0 {
					failing = -1
					return 0, errFault
				}
				return 0, nil
			}
			w.watchStore(c, st)
			model := map[uint16]string{}
			used := 0
			for i := 0; i < depth && !w.T.Failed(); i++ {
				type move struct {
					name string
					run  func()
				}
				var moves []move
				add := func(n string, f func()) { moves = append(moves, move{n, f}) }
				do := func(qos byte, id uint16, mk func(p *packets.Publish), ctx context.Context, ok bool) {
					p := newPublish(qos, "t", "x")
					p.PacketIdentifier = primitives.PrimitiveUint16(id)
					if mk != nil {
						mk(p)
					}
					before := st.contents()
					n := len(s.recv)
					err := c.Publish(ctx, p)
					w.T.Logf("publish q%d: %v", qos, err)
					if (err == nil) != ok {
						w.Bad("publish", "the publish returns %v", err)
					}
					if !ok {
						if st.contents() != before {
							w.Bad("refused-stored", "a refused publish changes the store from %q to %q", before, st.contents())
						}
						if len(s.recv) != n {
							w.Bad("refused-sent", "a refused publish was sent")
						}
					} else if qos > 0 {
						model[s.recv[len(s.recv)-1].ID] = "PUBLISH"
					}
				}
				bg := context.Background()
				if s.outstanding < 3 && len(model) < 3 {
					add("publish 1", func() { do(1, 0, nil, bg, true) })
					add("publish 2", func() { do(2, 0, nil, bg, true) })
					add("publish 0", func() { do(0, 0, nil, bg, true) })
					add("publish 2 with identifier", func() {
						used++
						do(2, uint16(40000+used), func(p *packets.Publish) { p.Duplicate = used%2 == 1 }, bg, true)
					})
					add("unencodable", func() {
						do(2, 0, func(p *packets.Publish) { p.Topic = primitives.PrimitiveString(strings.Repeat("x", 65536)) }, bg, false)
					})
					add("unencodable with identifier", func() {
						do(1, 50000, func(p *packets.Publish) { p.Topic = "" }, bg, false)
					})
					add("write fails", func() { failing = 0; do(1, 0, nil, bg, false) })
					if id := s.lowest(); id != 0 {
						add("used identifier", func() { do(1, id, nil, bg, false) })
					}
				} else {
					add("no slot", func() {
						ctx, cancel := within(time.Second)
						defer cancel()
						do(1, 0, nil, ctx, false)
					})
				}
				for k := range s.held {
					p := s.held[k]
					k := k
					take := func() { s.held = append(append([]*ref.Packet{}, s.held[:k]...), s.held[k+1:]...) }
					switch {
					case p.Type == ref.PUBLISH && p.QoS() == 1:
						add("PUBACK", func() { take(); delete(model, p.ID); c.conn.Push(ack(ref.PUBACK, p.ID, 0)) })
						add("PUBACK 0x99", func() { take(); delete(model, p.ID); c.conn.Push(ack(ref.PUBACK, p.ID, 0x99)) })
					case p.Type == ref.PUBLISH && p.QoS() == 2:
						add("PUBREC", func() { take(); model[p.ID] = "PUBREC"; c.conn.Push(ack(ref.PUBREC, p.ID, 0x10)) })
						add("PUBREC 0x99", func() { take(); delete(model, p.ID); c.conn.Push(ack(ref.PUBREC, p.ID, 0x99)) })
					case p.Type == ref.PUBREL:
						add("PUBCOMP", func() { take(); delete(model, p.ID); c.conn.Push(ack(ref.PUBCOMP, p.ID, 0)) })
					}
				}
				m := moves[w.Choose(len(moves), "step")]
				w.T.Logf("step: %s", m.name)
				m.run()
				c.pollAll()
				n := 0
				for id, k := range model {
					if st.kind(id) != k {
						w.Bad("stored", "the store holds %q; for %d it should hold %s", st.contents(), id, k)
					}
					n++
				}
				if st.held.Len() != n {
					w.Bad("stored", "the store holds %q; expected are %v", st.contents(), model)
				}
			}
			for n := 0; len(s.held) > 0 && !w.T.Failed() && n < 30; n++ {
				p := s.held[0]
				s.held = s.held[1:]
				if a := s.answer(p); a != nil {
					c.conn.Push(a)
				}
				c.pollAll()
			}
			if st.contents() != "" {
				w.Bad("left-over", "every exchange has completed but the store holds %s", st.contents())
			}
		}})
	}
	// A write that fails after the first byte has left a message behind that the server may have received.
	r = append(r, Scenario{Name: "writing fails", Seq: true, Body: func(w *World) {
		w.torn = true
		st := w.NewStore()
		c := w.Up("A", withStore(st))
		qos := byte(1 + w.Choose(2, "QoS"))
		part := w.Choose(4, "bytes written")
		c.conn.fault = func(op string, size int) (int, error) {
			if op == "write" {
				c.conn.fault = nil
				return []int{0, 1, size / 2, size}[part], errFault
			}
			return 0, nil
		}
		if err := c.pub(qos, "x"); err == nil {
			w.Bad("publish", "writing failed, but Publish returns nil")
		}
		if stored := strings.HasSuffix(st.contents(), "PUBLISH"); stored != (part > 0) {
			w.Bad("stored", "writing failed after part %d of 3 of the packet, and the store holds %q", part, st.contents())
		}
	}})
	// After the end of the connection nothing is stored any more, and what was outstanding stays stored.
	r = append(r, Scenario{Name: "the connection ends", Seq: true, Body: func(w *World) {
		st := w.NewStore()
		c := w.Up("A", withStore(st))
		s := c.conn.srv
		s.hold = func(p *ref.Packet) bool {
			return p.Type == ref.PUBLISH && string(p.Payload) != "2b" || p.Type == ref.PUBREL
		}
		want := ""
		switch w.Choose(4, "outstanding") {
		case 1:
			c.pub(1, "1")
			want = "PUBLISH"
		case 2:
			c.pub(2, "2a")
			want = "PUBLISH"
		case 3:
			c.pub(2, "2b")
			c.pollAll()
			want = "PUBREC"
		}
		switch w.Choose(3, "end") {
		case 0:
			c.disc()
		case 1:
			c.conn.Push(&ref.Packet{Type: ref.DISCONNECT})
			c.pollAll()
		case 2:
			c.conn.CloseByPeer()
			c.pollAll()
		}
		before := st.contents()
		if (want == "") != (before == "") || !strings.HasSuffix(before, want) {
			w.Bad("lost", "the exchange was cut, but the store holds %q instead of %q", before, want)
		}
		for q := byte(0); q < 3; q++ {
			if err := c.pub(q, "z"); !errors.Is(err, mqtt.ErrClientNotConnected) {
				w.Bad("publish", "publishing without a connection returns %v", err)
			}
			if st.contents() != before {
				w.Bad("refused-stored", "a refused publish changes the store from %q to %q", before, st.contents())
			}
		}
	}})
	// A write that fails part way: the server may have the message, so it stays stored.
	r = append(r, Scenario{Name: "a write fails part way", Seq: true, Body: func(w *World) {
		w.torn = true
		st := w.NewStore()
		c := w.Up("A", withStore(st))
		q := byte(1 + w.Choose(2, "QoS"))
		n := w.Choose(9, "bytes written")
		c.conn.fault = func(op string, size int) (int, error) {
			if op == "write" {
				if n > size {
					n = size
				}
				return n, errFault
			}
			return 0, nil
		}
		err := c.pub(q, "x")
		if err == nil {
			w.Bad("publish", "the publish succeeds although writing failed")
		}
		if n == 0 && st.contents() != "" {
			w.Bad("refused-stored", "nothing was sent but the store holds %q", st.contents())
		}
		if n > 0 && !strings.HasSuffix(st.contents(), "PUBLISH") {
			w.Bad("lost", "the message may have been sent but the store holds %q", st.contents())
		}
	}})
	// Storage failures.
	r = append(r, Scenario{Name: "the storage refuses", Seq: true, Body: func(w *World) {
		st := w.NewStore()
		c := w.Up("A", withStore(st))
		q := byte(1 + w.Choose(2, "QoS"))
		st.fault = func(op string) error {
			if op == "store" {
				return errFault
			}
			return nil
		}
		if err := c.pub(q, "x"); err == nil {
			w.Bad("publish", "the publish succeeds although it cannot be stored")
		}
		if c.conn.srv.count(ref.PUBLISH) != 0 {
			w.Bad("sent-before-stored", "the publish was sent although it is not stored")
		}
		st.fault = nil
		if st.contents() != "" {
			w.Bad("refused-stored", "the store holds %q", st.contents())
		}
		c.works("after the storage refused")
	}})
	// The storage fails while an acknowledgement is handled: what the client goes on to do is covered by what it holds.
	r = append(r, Scenario{Name: "the storage fails at an acknowledgement", Seq: true, Body: func(w *World) {
		st := w.NewStore()
		c := w.Up("A", withStore(st))
		s := c.conn.srv
		s.hold = func(p *ref.Packet) bool { return true }
		w.watchStore(c, st)
		q := byte(1 + w.Choose(2, "QoS"))
		if c.pub(q, "x") != nil || c.pub(2, "y") != nil {
			w.T.Fail("setup", "cannot publish")
		}
		id, other := s.recv[1].ID, s.recv[2].ID
		reason := []byte{0, 0x10, 0x80, 0x97}[w.Choose(4, "reason")]
		at := w.Choose(4, "fault at operation")
		st.fault = func(op string) error {
			if at--; at == -1 {
				return errFault
			}
			return nil
		}
		if q == 1 {
			c.conn.Push(ack(ref.PUBACK, id, reason))
		} else {
			c.conn.Push(ack(ref.PUBREC, id, reason))
			if reason < 0x80 {
				c.conn.Push(ack(ref.PUBCOMP, id, []byte{0, 0x92}[w.Choose(2, "last reason")]))
			}
		}
		errs := c.pollAll()
		if at < 0 && len(errs) == 0 {
			w.Bad("ignored", "the storage failed, but polling returns no error")
		}
		st.fault = nil
		if st.kind(other) != "PUBLISH" {
			w.Bad("stored", "the storage failed at an acknowledgement of %d, and holds %q for the unacknowledged %d", id, st.kind(other), other)
		}
	}})
	// Concurrently.
	progs := [][]byte{{1}, {2}, {1, 2}, {2, 1}}
	for i, a := range progs {
		for _, b := range progs[i:] {
			for _, code := range []byte{0, 0x97} {
				a, b, code := a, b, code
				if len(a)+len(b) > 3 {
					continue
				}
				for _, rm := range []int{1, 5} {
					rm := rm
					r = append(r, Scenario{Name: fmt.Sprintf("publishers %d and %d, code %#x, receive maximum %d", a, b, code, rm), Body: func(w *World) {
						st := w.NewStore()
						c := w.Up("A", withStore(st), withRM(rm))
						c.conn.srv.pubCode = func(*ref.Packet) byte { return code }
						w.watchStore(c, st)
						c.StartLoop()
						var hs []*vs.Handle
						for i, l := range [][]byte{a, b} {
							l := l
							name := fmt.Sprint("p", i)
							hs = append(hs, w.T.Go(name, func() {
								for _, q := range l {
									if err := c.pub(q, name); err != nil {
										w.Bad("publish", "publishing fails: %v", err)
									}
								}
							}))
						}
						for _, h := range hs {
							w.T.Join(h)
						}
						c.StopLoop()
						if st.contents() != "" {
							w.Bad("left-over", "every exchange has completed but the store holds %s", st.contents())
						}
					}})
				}
			}
		}
	}
	return
}

// ---- Q04 -----------------------------------------------------------------------------------------------------------

// message is a QoS 2 message of the server across connections.
type message struct {
	id      uint16
	payload string
	state   int // 0: not sent, 1: sent, 2: PUBREC received, 3: complete
	sentOn  int // connections it was sent on
}

// sessions runs a session over several connections that are cut at every possible point.
func sessions(msgs [][2]any, conns int, bound bool) Scenario {
	name := fmt.Sprintf("%d connections, messages", conns)
	for _, m := range msgs {
		name += fmt.Sprintf(" %v:%v", m[0], m[1])
	}
	if bound {
		name += ", subscribed"
	}
	return Scenario{Name: name, Seq: true, Body: func(w *World) {
		w.torn = true
		st := w.NewStore()
		var list []*message
		for _, m := range msgs {
			list = append(list, &message{id: uint16(m[0].(int)), payload: m[1].(string)})
		}
		count := map[string]int{}
		lied := map[string]bool{} // the client was told that its PUBREC was not sent although it was
		for k := 0; k < conns && !w.T.Failed(); k++ {
			last := k == conns-1
			c := w.Up(fmt.Sprint("A", k), withStore(st), resumes(k > 0))
			s := c.conn.srv
			ch := c.CreateEventChannel(16)
			if bound {
				c.StartLoop()
				if c.sub("t", &ch) != nil {
					w.T.Fail("setup", "cannot subscribe")
				}
				c.StopLoop()
			}
			s.hold = func(p *ref.Packet) bool { return p.Type != ref.CONNECT }
			cut := -1
			kind := 0
			if !last {
				// (cut -1: the connection is not cut)
				cut = w.Choose(150, "cut at call") - 1
				if cut >= 0 {
					kind = w.Choose(3, "bytes written")
				}
			}
			n := 0
			done := false
			wrote := false
			c.conn.fault = func(op string, size int) (int, error) {
				n++
				if done || n-1 == cut {
					done = true
					if op == "write" && n-1 == cut {
						wrote = true
						return []int{0, 1, size}[kind], errFault
					}
					return 0, errFault
				}
				return 0, nil
			}
			s.onPacket = func(p *ref.Packet) {
				for _, m := range list {
					if m.id != p.ID || m.state == 0 || m.state == 3 {
						continue
					}
					if p.Type == ref.PUBREC && m.state == 1 {
						m.state = 2
						if done {
							lied[m.payload] = true
						}
						break
					}
					if p.Type == ref.PUBCOMP && m.state == 2 {
						m.state = 3
						break
					}
				}
			}
			take := func() {
				ev, _ := drain(ch)
				for _, p := range payloads(ev) {
					count[p]++
					if count[p] > 1 {
						w.Bad("delivered-twice", "message %q is delivered twice", p)
					}
				}
			}
			// The server resumes its exchanges and goes on with the next messages; an identifier is used again once its
			// exchange is complete.
			resumed := map[*message]int{}
			for round := 0; round < 20 && !done && !w.T.Failed(); round++ {
				var pkts []*ref.Packet
				busy := map[uint16]bool{}
				for _, m := range list {
					if m.state == 3 || busy[m.id] {
						continue
					}
					busy[m.id] = true
					switch m.state {
					case 0:
						m.state = 1
						m.sentOn = k
						pkts = append(pkts, publish(2, m.id, "t", m.payload))
						resumed[m] = 1
					case 1:
						if resumed[m] == 0 {
							p := publish(2, m.id, "t", m.payload)
							p.Flags |= 8
							pkts = append(pkts, p)
							resumed[m] = 1
						}
					case 2:
						if resumed[m] != 2 {
							pkts = append(pkts, ack(ref.PUBREL, m.id, 0))
							resumed[m] = 2
						}
					}
				}
				if len(pkts) == 0 {
					break
				}
				c.conn.Push(pkts...)
				for c.conn.Available() && !c.conn.closed && !done {
					c.pollOnce(time.Second)
					take()
				}
				if c.conn.closed {
					break
				}
			}
			take()
			if cut >= 0 && (!done || kind > 0 && !wrote) {
				return // the same as another choice
			}
			if last {
				for _, m := range list {
					if m.state != 3 {
						w.Bad("stuck", "message %q: the exchange does not complete (state %d)", m.payload, m.state)
					}
					if count[m.payload] != 1 && !lied[m.payload] {
						w.Bad("lost", "message %q is delivered %d times", m.payload, count[m.payload])
					}
				}
				if st.contents() != "" {
					w.Bad("left-over", "every exchange has completed but the store holds %s", st.contents())
				}
			} else {
				c.conn.fault = nil
				c.conn.closed = true
			}
		}
	}}
}

func redeliveryScenarios(th bool) (r []Scenario) {
	one := [][2]any{{7, "m"}}
	reuse := [][2]any{{7, "m"}, {7, "n"}}
	mixed := [][2]any{{7, "m"}, {8, "n"}}
	all := [][2]any{{7, "m"}, {8, "n"}, {7, "o"}, {8, "p"}}
	for _, b := range []bool{false, true} {
		for _, l := range [][][2]any{one, reuse, mixed, all} {
			r = append(r, sessions(l, 2, b), sessions(l, 3, b))
			s := sessions(l, 4, b)
			s.Thorough = true
			r = append(r, s)
		}
	}
	// Within one connection.
	for _, depth := range []int{6, 8} {
		depth := depth
		r = append(r, Scenario{Name: fmt.Sprintf("one connection, %d packets", depth), Seq: true, Thorough: depth > 6, Body: func(w *World) {
			st := w.NewStore()
			c := w.Up("A", withStore(st), func(c *Client, p *packets.Connect) { p.ReceiveMaximum = 50 })
			s := c.conn.srv
			s.hold = func(*ref.Packet) bool { return true }
			ch := c.CreateEventChannel(16)
			open := map[uint16]string{}
			var want []string
			n := 0
			for i := 0; i < depth; i++ {
				id := uint16(7 + w.Choose(2, "identifier"))
				if open[id] != "" && w.Choose(2, "release") == 1 {
					c.conn.Push(ack(ref.PUBREL, id, 0))
					delete(open, id)
				} else if open[id] != "" {
					p := publish(2, id, "t", open[id])
					p.Flags |= 8
					c.conn.Push(p)
				} else {
					n++
					open[id] = fmt.Sprint("m", n)
					want = append(want, open[id])
					c.conn.Push(publish(2, id, "t", open[id]))
				}
			}
			c.pollAll()
			ev, _ := drain(ch)
			if got := payloads(ev); strings.Join(got, " ") != strings.Join(want, " ") {
				w.Bad("delivered-twice", "delivered are %v instead of %v", got, want)
			}
		}})
	}
	// The client publishes on its own meanwhile.
	for _, o := range ops() {
		if o.name == "disconnect" || o.name == "query" {
			continue
		}
		o := o
		r = append(r, Scenario{Name: "redelivery during " + o.name, Body: func(w *World) {
			st := w.NewStore()
			c := w.Up("A", withStore(st), withKeepAlive(600))
			s := c.conn.srv
			s.hold = func(p *ref.Packet) bool { return p.Type == ref.PUBREC }
			ch := c.CreateEventChannel(16)
			c.StartLoop()
			h := w.T.Go(o.name, func() { o.run(w, c) })
			d := publish(2, 7, "t", "m")
			d.Flags |= 8
			c.conn.Push(publish(2, 7, "t", "m"), d, ack(ref.PUBREL, 7, 0), publish(2, 7, "t", "n"))
			w.T.Join(h)
			c.StopLoop()
			ev, _ := drain(ch)
			if got := strings.Join(payloads(ev), " "); got != "m n" {
				w.Bad("delivered-twice", "delivered are %q instead of %q", got, "m n")
			}
		}})
	}
	return
}

// collisions are the known failures of keeping the exchanges of both directions in one store keyed by identifier alone.
func collisions(prop string) Scenario {
	return Scenario{Name: "both sides use the same identifier", Seq: true, Keep: true, Body: func(w *World) {
		st := w.NewStore()
		c := w.Up("A", withStore(st))
		s := c.conn.srv
		s.hold = func(*ref.Packet) bool { return true }
		ch := c.CreateEventChannel(8)
		own := newPublish(2, "t", "own")
		own.PacketIdentifier = 7
		ctx, cancel := within(time.Second)
		defer cancel()
		if err := c.Publish(ctx, own); err != nil {
			w.T.Fail("setup", "publishing fails: %v", err)
		}
		again := publish(2, 7, "t", "m")
		again.Flags |= 8
		switch prop {
		case "Q01":
			c.conn.Push(publish(2, 7, "t", "m"))
			c.pollAll()
			if st.kind(7) != "PUBREC" {
				w.Bad("collision-not-kept", "a QoS 2 message with the identifier of a publish of the client is open but not stored: %q", st.contents())
			}
		case "Q03":
			// After a reconnect the release of the server's exchange removes the client's.
			c.conn.Push(ack(ref.PUBREC, 7, 0))
			c.pollAll()
			c.conn.CloseByPeer()
			c.pollAll()
			d := w.Up("B", withStore(st))
			d.conn.Push(publish(2, 7, "t", "m"), ack(ref.PUBREL, 7, 0))
			d.pollAll()
			if st.kind(7) != "PUBREC" {
				w.Bad("collision-dropped", "the release of the server's exchange with the same identifier removes the client's PUBREC from the store: %q", st.contents())
			}
		case "Q04":
			c.conn.Push(publish(2, 7, "t", "m"), again)
			c.pollAll()
			ev, _ := drain(ch)
			if got := payloads(ev); len(got) != 1 {
				w.Bad("collision-redelivered", "a redelivered message with the identifier of a publish of the client is delivered again: %v", got)
			}
		}
	}}
}

// cancelledWrites cancels a publish at any time, in particular while and after it is being written.
func cancelledWrites() (r []Scenario) {
	for _, slow := range []bool{false, true} {
		slow := slow
		name := "a publish is cancelled"
		if slow {
			name += " while it is written"
		}
		r = append(r, Scenario{Name: name, Body: func(w *World) {
			st := w.NewStore()
			rm := 1 + w.Choose(2, "receive maximum")
			opts := []func(*Client, *packets.Connect){withRM(rm)}
			storage := w.prop == "Q03" || w.Choose(2, "storage") == 1
			if storage {
				opts = append(opts, withStore(st))
			}
			qos := byte(1 + w.Choose(2, "QoS"))
			c := w.Up("A", opts...)
			s := c.conn.srv
			s.hold = func(*ref.Packet) bool { return true }
			c.SetRngFn(func() uint32 { return 7 })
			if slow {
				w.slow = 10 * time.Millisecond
			}
			ctx, cancel := vs.WithCancel(context.Background())
			h := w.T.Go("publisher", func() { w.T.Logf("publish: %v", c.Publish(ctx, newPublish(qos, "t", "x"))) })
			if slow {
				vs.Sleep(5 * time.Millisecond)
			}
			cancel()
			w.T.Join(h)
			w.slow = 0
			kept := func(when string) {
				for _, p := range s.held {
					if p.Type == ref.PUBLISH && storage && st.kind(p.ID) != "PUBLISH" {
						w.Fail("Q03", "stored", "%s: %v was sent and not acknowledged; the store holds %q", when, p, st.contents())
					}
				}
				if storage && len(st.held.Keys()) != len(s.held) {
					w.Fail("Q03", "stored", "%s: the store holds %q; sent were %v", when, st.contents(), s.dump())
				}
			}
			kept("after the cancelled publish")
			for i := 0; i < 2; i++ {
				c.pub(1, "y") // waits in vain if there is no slot
			}
			kept("after another publish")
			if s.outstanding != rm {
				w.Fail("F02", "lost-slot", "publishes were made until there was no slot left; %d are outstanding instead of %d", s.outstanding, rm)
			}
		}})
	}
	return
}

func init() {
	suites["Q01"] = suite{scenarios: func(th bool) []Scenario {
		return append(append(ackScenarios(th), collisions("Q01"), sameIdentifier("Q01"), requestIdentifier("Q01")), inboundKindScenarios()...)
	}}
	suites["Q02"] = suite{scenarios: func(th bool) []Scenario { return append(reactScenarios(th), outboundKindScenarios()...) }}
	suites["Q03"] = suite{scenarios: func(th bool) []Scenario {
		return append(append(append(storedScenarios(th), collisions("Q03"), sameIdentifier("Q03"), requestIdentifier("Q03")), cancelledWrites()...), outboundKinds(true))
	}}
	suites["Q04"] = suite{scenarios: func(th bool) []Scenario {
		return append(redeliveryScenarios(th), collisions("Q04"), sameIdentifier("Q04"), requestIdentifier("Q04"), redeliveredKinds())
	}}
}
