package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"

	"verif/ref"
	"verif/vs"
)

// ---- F01, F02: outbound flow control -------------------------------------------------------------------------------

// refill checks that Receive Maximum publishes pass without blocking and that the next one waits.
func (w *World) refill(c *Client, rm int) {
	s := c.conn.srv
	if s.outstanding != 0 || c.conn.ending() {
		return
	}
	before := len(s.recv)
	s.hold = func(p *ref.Packet) bool { return true }
	for i := 0; i < rm; i++ {
		ctx, cancel := within(time.Second)
		start := vs.Offset()
		err := c.Publish(ctx, newPublish(byte(1+i%2), "t", "r"))
		cancel()
		if err != nil || vs.Offset() != start {
			w.Fail("F02", "slot-lost", "every publish has completed, but publish %d of %d does not pass at once: %v after %v", i+1, rm, err, vs.Offset()-start)
			return
		}
	}
	ctx, cancel := within(time.Second)
	defer cancel()
	err := c.Publish(ctx, newPublish(1, "t", "r"))
	if err == nil {
		w.Fail("F01", "one-too-many", "%d publishes are outstanding, as many as the Receive Maximum allows, and another one passes", rm)
	} else if !isTimeout(err) {
		w.Fail("F02", "refill", "waiting for a slot ends with %v instead of the deadline", err)
	}
	if n := len(s.recv) - before; n != rm {
		w.Fail("F01", "one-too-many", "%d packets were sent instead of %d", n, rm)
	}
}

// publisher is a goroutine publishing one message.
type publisher struct {
	qos     byte
	payload string
	h       *vs.Handle
	cancel  context.CancelFunc
	err     error
	stopped bool // its context was cancelled
	bad     bool // it cannot be sent
}

// flowHistory enumerates the histories of publishers, acknowledgements, cancellations and failures of a given depth.
// After every step everything runs until it waits; then exactly the publishers that cannot have a slot must be waiting.
func flowHistory(rm, depth int, storage bool) Scenario {
	name := fmt.Sprintf("history of %d steps, receive maximum %d", depth, rm)
	if storage {
		name += ", storage"
	}
	return Scenario{Name: name, Seq: true, Body: func(w *World) {
		opts := []func(*Client, *packets.Connect){withRM(rm)}
		var st *Store
		if storage {
			st = w.NewStore()
			opts = append(opts, withStore(st))
		}
		c := w.Up("A", opts...)
		s := c.conn.srv
		s.hold = func(p *ref.Packet) bool { return p.Type == ref.PUBLISH || p.Type == ref.PUBREL }
		c.StartLoop()
		var pubs []*publisher
		failing := false
		storeFails := ""
		if st != nil {
			st.fault = func(op string) error {
				if op == storeFails {
					storeFails = ""
					return errFault
				}
				return nil
			}
		}
		c.conn.fault = func(op string, size int) (int, error) {
			if failing && op == "write" {
				failing = false
				return 0, errFault
			}
			return 0, nil
		}
		refused, explicit := 0, uint16(100)
		start := func(qos byte, mk func(p *packets.Publish)) *publisher {
			p := &publisher{qos: qos, payload: fmt.Sprint("m", len(pubs))}
			ctx, cancel := vs.WithCancel(context.Background())
			p.cancel = cancel
			pk := newPublish(qos, "t", p.payload)
			if mk != nil {
				mk(pk)
			}
			p.h = w.T.Go(p.payload, func() {
				p.err = c.Publish(ctx, pk)
				w.T.Logf("publish %s q%d: %v", p.payload, qos, p.err)
			})
			pubs = append(pubs, p)
			return p
		}
		waiting := func() (r []*publisher) {
			for _, p := range pubs {
				if !p.h.Done() {
					r = append(r, p)
				}
			}
			return
		}
		check := func() {
			w.T.Quiesce()
			blocked := waiting()
			for _, p := range blocked {
				if p.qos == 0 {
					w.Fail("F01", "qos0-held-back", "a QoS 0 publish waits (%d of %d slots in use)", s.outstanding, rm)
				}
				if p.stopped {
					w.Fail("F02", "cancel-ignored", "publisher %s still waits although its context was cancelled", p.payload)
				}
			}
			if len(blocked) > 0 && s.outstanding < rm {
				w.Fail("F02", "slot-lost", "%d publishers wait although only %d of %d slots are in use", len(blocked), s.outstanding, rm)
			}
			for _, p := range pubs {
				if p.h.Done() && p.err == nil && p.bad {
					w.Fail("F02", "accepted", "publisher %s succeeds although it cannot", p.payload)
				}
				if p.h.Done() && p.err != nil && !p.bad && !p.stopped {
					w.Fail("F02", "refused", "publisher %s fails: %v", p.payload, p.err)
				}
			}
		}
		dropFails := 0
		undropped := func(answer func(), id uint16) {
			dropFails++
			storeFails = "drop"
			answer()
			w.T.Quiesce()
			if storeFails == "" {
				st.Drop(id)
			}
			storeFails = ""
		}
		limit := rm + 3
		for i := 0; i < depth && !w.T.Failed(); i++ {
			type move struct {
				name string
				run  func()
			}
			var moves []move
			add := func(n string, f func()) { moves = append(moves, move{n, f}) }
			if len(waiting()) < 2 && len(pubs) < limit {
				add("publish 1", func() { start(1, nil) })
				add("publish 2", func() { start(2, nil) })
				add("publish 0", func() { start(0, nil) })
				if refused < 1 {
					add("publish unencodable", func() {
						refused++
						p := start(1, func(p *packets.Publish) { p.Topic = primitives.PrimitiveString(strings.Repeat("x", 65536)) })
						p.bad = true
					})
					if s.outstanding < rm {
						add("publish and fail to write", func() {
							refused++
							failing = true
							start(2, nil).bad = true
						})
						if st != nil {
							add("publish and fail to store", func() {
								refused++
								storeFails = "store"
								start(1, nil).bad = true
							})
							add("publish and fail to look for an identifier", func() {
								refused++
								storeFails = "get"
								start(2, nil).bad = true
							})
							add("publish with an identifier that is taken in the store", func() {
								refused++
								if err := st.Store(77, "something"); err != nil {
									w.T.Fail("setup", "%v", err)
								}
								start(2, func(p *packets.Publish) { p.PacketIdentifier = 77 }).bad = true
								w.T.Quiesce()
								st.Drop(77)
							})
						}
						if e := s.lowest(); e != 0 {
							add("publish with a used identifier", func() {
								refused++
								start(2, func(p *packets.Publish) { p.PacketIdentifier = primitives.PrimitiveUint16(e) }).bad = true
							})
						}
						add("publish with an identifier of its own", func() {
							refused++
							explicit++
							start(1, func(p *packets.Publish) { p.PacketIdentifier = primitives.PrimitiveUint16(explicit) })
						})
					}
				}
			}
			for k := range s.held {
				if k > 0 && k < len(s.held)-1 {
					continue
				}
				k := k
				p := s.held[k]
				answer := func(t, code byte) {
					s.held = append(append([]*ref.Packet{}, s.held[:k]...), s.held[k+1:]...)
					c.conn.Push(ack(t, p.ID, code))
				}
				switch {
				case p.Type == ref.PUBREL:
					if st != nil && dropFails < 1 {
						add("PUBCOMP and fail to drop", func() { undropped(func() { answer(ref.PUBCOMP, 0) }, p.ID) })
					}
					add("PUBCOMP", func() { answer(ref.PUBCOMP, 0) })
					add("PUBCOMP 0x92", func() { answer(ref.PUBCOMP, 0x92) })
				case p.QoS() == 1:
					if st != nil && dropFails < 1 {
						add("PUBACK and fail to drop", func() { undropped(func() { answer(ref.PUBACK, 0) }, p.ID) })
					}
					add("PUBACK", func() { answer(ref.PUBACK, 0) })
					add("PUBACK 0x97", func() { answer(ref.PUBACK, 0x97) })
				case p.QoS() == 2:
					if st != nil && dropFails < 1 {
						add("PUBREC 0x97 and fail to drop", func() { undropped(func() { answer(ref.PUBREC, 0x97) }, p.ID) })
					}
					add("PUBREC", func() { answer(ref.PUBREC, 0) })
					add("PUBREC 0x10", func() { answer(ref.PUBREC, 0x10) })
					add("PUBREC 0x80", func() { answer(ref.PUBREC, 0x80) })
					add("PUBREC 0x97", func() { answer(ref.PUBREC, 0x97) })
				default:
					s.held = append(append([]*ref.Packet{}, s.held[:k]...), s.held[k+1:]...)
				}
			}
			if len(s.held) > 1 {
				add("all answers at once", func() {
					l := s.held
					s.held = nil
					var as []*ref.Packet
					for _, p := range l {
						if a := s.answer(p); a != nil {
							as = append(as, a)
						}
					}
					c.conn.Push(as...)
				})
			}
			if l := waiting(); len(l) > 0 {
				add("cancel", func() { l[0].stopped = true; l[0].cancel() })
			}
			if len(moves) == 0 {
				break
			}
			m := moves[w.Choose(len(moves), "step")]
			w.T.Logf("step: %s", m.name)
			m.run()
			check()
		}
		// Complete everything.
		for n := 0; n < 40 && len(s.held) > 0 && !w.T.Failed(); n++ {
			p := s.held[0]
			s.held = s.held[1:]
			if a := s.answer(p); a != nil {
				c.conn.Push(a)
			}
			check()
		}
		if w.T.Failed() {
			return
		}
		for _, p := range pubs {
			w.T.Join(p.h)
		}
		if s.outstanding != 0 {
			w.T.Fail("setup", "exchanges are left over")
		}
		if st != nil && st.contents() != "" {
			w.Fail("Q03", "left-over", "every exchange has completed but the store holds %s", st.contents())
		}
		w.refill(c, rm)
		c.StopLoop()
	}}
}

// lowest returns an identifier in use by an outstanding publish.
func (s *Server) lowest() (id uint16) {
	for _, k := range s.open.Keys() {
		if e, _ := s.open.Get(k); e != nil && e.kind == ref.PUBLISH && (id == 0 || k < id) {
			id = k
		}
	}
	return
}

// flowConcurrent lets publishers run concurrently with the acknowledgements of their publishes.
func flowConcurrent(rm int, storage bool, code byte, programs ...[]byte) Scenario {
	name := fmt.Sprintf("receive maximum %d:", rm)
	for _, p := range programs {
		name += fmt.Sprintf(" %d", p)
	}
	if storage {
		name += ", storage"
	}
	if code != 0 {
		name += fmt.Sprintf(", refused with %#x", code)
	}
	return Scenario{Name: name, Body: func(w *World) {
		opts := []func(*Client, *packets.Connect){withRM(rm)}
		if storage {
			opts = append(opts, withStore(w.NewStore()))
		}
		c := w.Up("A", opts...)
		c.conn.srv.pubCode = func(*ref.Packet) byte { return code }
		c.StartLoop()
		var hs []*vs.Handle
		for i, prog := range programs {
			prog := prog
			name := fmt.Sprint("p", i)
			hs = append(hs, w.T.Go(name, func() {
				for _, q := range prog {
					if err := c.pub(q, name); err != nil {
						w.Bad("publish-failed", "a publish fails although the server answers everything: %v", err)
					}
				}
			}))
		}
		for _, h := range hs {
			w.T.Join(h)
		}
		c.StopLoop()
		w.refill(c, rm)
	}}
}

// flowCancel cancels a waiting publisher while its slot is being freed.
func flowCancel(rm int, qos byte, how string, third bool) Scenario {
	name := fmt.Sprintf("a waiting publisher gives up (%s), receive maximum %d, QoS %d", how, rm, qos)
	if third {
		name += ", another one waits"
	}
	return Scenario{Name: name, Body: func(w *World) {
		c := w.Up("A", withRM(rm))
		s := c.conn.srv
		s.hold = func(p *ref.Packet) bool {
			return p.Type == ref.PUBLISH && strings.HasPrefix(string(p.Payload), "first")
		}
		for i := 0; i < rm; i++ {
			if err := c.pub(qos, fmt.Sprint("first", i)); err != nil {
				w.Bad("publish-failed", "a publish within the Receive Maximum fails: %v", err)
			}
		}
		c.StartLoop()
		ctx, cancel := vs.WithCancel(context.Background())
		var hs []*vs.Handle
		hs = append(hs, w.T.Go("second", func() {
			p := newPublish(1, "t", "second")
			switch how {
			case "unencodable":
				p.Topic = primitives.PrimitiveString(strings.Repeat("x", 65536))
				if err := c.Publish(context.Background(), p); err == nil {
					w.Bad("accepted", "an unencodable publish succeeds")
				}
			case "cancelled":
				if err := c.Publish(ctx, p); err != nil && !errors.Is(err, context.Canceled) {
					w.Bad("refused", "the cancelled publish fails with %v", err)
				}
			}
		}))
		if how == "cancelled" {
			hs = append(hs, w.T.Go("canceller", func() { cancel() }))
		}
		hs = append(hs, w.T.Go("server", func() {
			for _, p := range s.held {
				c.conn.Push(s.answer(p))
			}
		}))
		if third {
			hs = append(hs, w.T.Go("third", func() {
				if err := c.pub(1, "third"); err != nil {
					w.Bad("publish-failed", "a publish fails although slots become free: %v", err)
				}
			}))
		}
		for _, h := range hs {
			w.T.Join(h)
		}
		cancel()
		c.StopLoop()
		w.refill(c, rm)
	}}
}

// flowWaiters lets several publishers wait for slots that become free at the same time.
func flowWaiters(rm, waiters int, qos byte) Scenario {
	return Scenario{Name: fmt.Sprintf("%d publishers wait while %d slots become free, QoS %d", waiters, rm, qos), Body: func(w *World) {
		c := w.Up("A", withRM(rm))
		s := c.conn.srv
		s.hold = func(p *ref.Packet) bool { return p.Type == ref.PUBLISH }
		for i := 0; i < rm; i++ {
			if err := c.pub(1, fmt.Sprint("first", i)); err != nil {
				w.Bad("publish-failed", "a publish within the Receive Maximum fails: %v", err)
			}
		}
		c.StartLoop()
		var hs []*vs.Handle
		for i := 0; i < waiters; i++ {
			name := fmt.Sprint("p", i)
			hs = append(hs, w.T.Go(name, func() {
				if err := c.pub(qos, name); err != nil {
					w.Bad("publish-failed", "a publish fails although slots become free: %v", err)
				}
			}))
		}
		var as []*ref.Packet
		for _, p := range s.held {
			as = append(as, s.answer(p))
		}
		s.held = nil
		c.conn.Push(as...)
		w.T.Quiesce()
		if n := s.count(ref.PUBLISH) - rm; n != min(rm, waiters) {
			// None of these is acknowledged yet.
			w.Bad("stuck", "%d slots became free while %d publishers were waiting, but %d publishes are sent", rm, waiters, n)
		}
		s.hold = nil
		held := s.held
		s.held = nil
		for _, p := range held {
			if a := s.answer(p); a != nil {
				c.conn.Push(a)
			}
		}
		for _, h := range hs {
			w.T.Join(h)
		}
		c.StopLoop()
		w.refill(c, rm)
	}}
}

// flowLimit fills a Receive Maximum of the server (0: none is given, which means 65535) up to the last slot.
func flowLimit(rm int) Scenario {
	name := "no receive maximum given"
	if rm > 0 {
		name = fmt.Sprint("all of receive maximum ", rm)
	}
	return Scenario{Name: name, Seq: true, Horizon: 10000000, Body: func(w *World) {
		var opts []func(*Client, *packets.Connect)
		n := 65535
		if rm > 0 {
			opts = append(opts, withRM(rm))
			n = rm
		}
		c := w.Up("A", opts...)
		s := c.conn.srv
		s.hold = func(*ref.Packet) bool { return true }
		s.quiet = true
		var next uint32
		c.SetRngFn(func() uint32 { next++; return next })
		for i := 0; i < n; i++ {
			ctx, cancel := within(time.Second)
			err := c.Publish(ctx, newPublish(1, "t", "x"))
			cancel()
			if err != nil {
				w.Fail("F02", "default", "publish %d fails although the Receive Maximum is %d: %v", i+1, n, err)
				return
			}
		}
		ctx, cancel := within(time.Second)
		defer cancel()
		if err := c.Publish(ctx, newPublish(1, "t", "x")); !isTimeout(err) {
			w.Fail("F01", "default", "publish %d returns %v", n+1, err)
		}
		if m := s.count(ref.PUBLISH); m != n {
			w.Fail("F01", "default", "%d publishes were sent", m)
		}
		c.conn.Push(ack(ref.PUBACK, 17, 0))
		c.pollOnce(time.Second)
		ctx2, cancel2 := within(time.Second)
		defer cancel2()
		if err := c.Publish(ctx2, newPublish(1, "t", "x")); err != nil {
			w.Fail("F02", "default", "an acknowledgement frees no slot: %v", err)
		}
	}}
}

func flowScenarios(th bool) (r []Scenario) {
	for _, rm := range []int{2, 3} {
		for _, q := range []byte{1, 2} {
			for n := 2; n <= 3; n++ {
				s := flowWaiters(rm, n, q)
				if n == 3 {
					all := s
					all.Thorough = true
					r = append(r, all)
					s.Name += " (two deviations)"
					s.CB, s.Deviate, s.Preempt = true, true, 2
				}
				s.Heavy = rm == 3 || n == 3
				r = append(r, s)
			}
		}
	}
	for _, rm := range []int{1, 2, 3} {
		r = append(r, flowHistory(rm, 5, rm == 2))
		s := flowHistory(rm, 7, rm != 2)
		s.Thorough = true
		r = append(r, s)
	}
	kinds := [][]byte{{1}, {2}, {1, 2}, {2, 1}, {0, 1}, {1, 1}}
	for i, a := range kinds {
		for _, b := range kinds[i:] {
			r = append(r, flowConcurrent(1, false, 0, a, b), flowConcurrent(2, false, 0, a, b))
			if len(a)+len(b) < 4 {
				r = append(r, flowConcurrent(1, true, 0, a, b), flowConcurrent(1, false, 0x97, a, b), flowConcurrent(1, true, 0x87, a, b))
			}
		}
	}
	for _, a := range [][]byte{{1}, {2}} {
		for _, b := range [][]byte{{1}, {2}} {
			for _, d := range [][]byte{{1}, {2}, {0}} {
				r = append(r, flowConcurrent(1, false, 0, a, b, d), flowConcurrent(2, false, 0, a, b, d), flowConcurrent(1, false, 0x80, a, b, d))
			}
		}
	}
	for _, rm := range []int{1, 2} {
		for _, q := range []byte{1, 2} {
			for _, how := range []string{"cancelled", "unencodable"} {
				for _, third := range []bool{false, true} {
					r = append(r, flowCancel(rm, q, how, third))
				}
			}
		}
	}
	for _, rm := range []int{0, 255, 256, 1025, 5000, 32767, 32768, 65534, 65535} {
		r = append(r, flowLimit(rm))
	}
	return
}

// ---- F03: inbound flow control -------------------------------------------------------------------------------------

// inboundQuota enumerates the histories of a server that publishes at will.
func inboundQuota(rm, depth int, storage bool) Scenario {
	name := fmt.Sprintf("history of %d packets, receive maximum %d", depth, rm)
	if storage {
		name += ", storage"
	}
	return Scenario{Name: name, Seq: true, Body: func(w *World) {
		opts := []func(*Client, *packets.Connect){func(c *Client, p *packets.Connect) { p.ReceiveMaximum = primitives.PrimitiveUint16(rm) }}
		if storage {
			opts = append(opts, withStore(w.NewStore()))
		}
		c := w.Up("A", opts...)
		s := c.conn.srv
		s.hold = func(p *ref.Packet) bool { return p.Type == ref.PUBREC }
		ch := c.CreateEventChannel(depth + 4)
		var open []uint16
		next := uint16(1)
		var want []string
		batch := w.Choose(2, "batch") == 1
		type exp struct {
			deliver string
			over    bool
		}
		var exps []exp
		verify := func(e exp) {
			before := len(s.recv)
			err := c.pollOnce(time.Second)
			got := s.recv[before:]
			if e.over {
				var rc mqtt.ReasonCode
				if !errors.As(err, &rc) || byte(rc) != 0x93 {
					w.Bad("excess-error", "the server exceeds the Receive Maximum of %d and the poll returns %v", rm, err)
				}
				if len(got) != 1 || got[0].Type != ref.DISCONNECT || got[0].Reason != 0x93 {
					w.Bad("excess-answer", "the server exceeds the Receive Maximum of %d and the client sends %v", rm, got)
				}
				if !c.conn.closed || c.IsConnected() {
					w.Bad("excess-open", "the server exceeds the Receive Maximum and the connection stays open")
				}
			} else if err != nil || c.conn.closed || !c.IsConnected() {
				w.Bad("refused", "the client refuses a packet within its Receive Maximum of %d: %v, open %v", rm, err, open)
			}
			if e.deliver != "" {
				want = append(want, e.deliver)
			}
		}
		for i := 0; i < depth && !w.T.Failed(); i++ {
			n := 4
			if len(open) > 1 {
				n = 5
			}
			payload := fmt.Sprint("m", i)
			var p *ref.Packet
			e := exp{deliver: payload}
			switch m := w.Choose(n, "packet"); m {
			case 0:
				p = publish(0, 0, "t", payload)
			case 1, 2:
				if len(open) == rm {
					e = exp{over: true}
				} else if m == 2 {
					open = append(open, next)
				}
				p = publish(byte(m), next, "t", payload)
				next++
			case 3:
				if e = (exp{}); len(open) == 0 {
					// Everything is free already: the release of an exchange that is over, or of none, frees nothing.
					if p = ack(ref.PUBREL, 60000, 0x92); next > 1 {
						p = ack(ref.PUBREL, next-1, 0)
					}
					break
				}
				p = ack(ref.PUBREL, open[0], 0)
				open = open[1:]
			case 4:
				p, e = ack(ref.PUBREL, open[len(open)-1], 0), exp{}
				open = open[:len(open)-1]
			}
			c.conn.Push(p)
			exps = append(exps, e)
			if !batch {
				verify(e)
			}
			if e.over {
				break
			}
		}
		if batch {
			for _, e := range exps {
				if verify(e); w.T.Failed() {
					return
				}
			}
		}
		ev, _ := drain(ch)
		if got := payloads(ev); strings.Join(got, " ") != strings.Join(want, " ") {
			w.Bad("delivered", "delivered are %v instead of %v", got, want)
		}
	}}
}

// fillInbound lets the server fill the client's Receive Maximum (0: none is announced, which means 65535).
func fillInbound(rm int) Scenario {
	name := "no receive maximum announced"
	n := 65535
	if rm > 0 {
		name = fmt.Sprint("all of the announced receive maximum ", rm)
		n = rm
	}
	return Scenario{Name: name, Seq: true, Horizon: 10000000, Body: func(w *World) {
		c := w.Up("A", func(_ *Client, p *packets.Connect) { p.ReceiveMaximum = primitives.PrimitiveUint16(rm) })
		s := c.conn.srv
		s.hold = func(p *ref.Packet) bool { return true }
		for i := 1; i <= n; i++ {
			c.conn.Push(publish(2, uint16(i), "t", "x"))
			if err := c.pollOnce(time.Second); err != nil {
				w.Bad("refused", "publish %d fails although the Receive Maximum is %d: %v", i, n, err)
				return
			}
		}
		c.conn.Push(publish(0, 0, "t", "x"), ack(ref.PUBREL, 9, 0), publish(1, 9, "t", "x"), publish(2, 9, "t", "x"))
		for i := 0; i < 4; i++ {
			if err := c.pollOnce(time.Second); err != nil {
				w.Bad("refused", "a publish within the limit fails: %v", err)
				return
			}
		}
		c.conn.Push(publish(1, 10, "t", "x"))
		if err := c.pollOnce(time.Second); err == nil || !c.conn.closed {
			w.Bad("excess-error", "%d unacknowledged publishes are accepted", n+1)
		}
	}}
}

func quotaScenarios(th bool) (r []Scenario) {
	for _, rm := range []int{1, 2, 3} {
		for _, st := range []bool{false, true} {
			r = append(r, inboundQuota(rm, 7, st))
			s := inboundQuota(rm, 9, st)
			s.Thorough = true
			r = append(r, s)
		}
	}
	for _, rm := range []int{0, 255, 256, 1025, 5000, 32767, 32768, 65534, 65535} {
		r = append(r, fillInbound(rm))
	}
	// The Receive Maximum of the server limits the publishes of the client only, however small it is.
	for _, n := range []uint16{1, 2} {
		for _, st := range []bool{false, true} {
			n, st := n, st
			name := fmt.Sprintf("no receive maximum announced, but %d by the server", n)
			if st {
				name += ", storage"
			}
			r = append(r, Scenario{Name: name, Seq: true, Body: func(w *World) {
				var opts []func(*Client, *packets.Connect)
				if st {
					opts = append(opts, withStore(w.NewStore()))
				}
				opts = append(opts, func(c *Client, p *packets.Connect) {
					c.conn.srv.connack = &ref.Packet{Type: ref.CONNACK, HasProps: true, Props: []ref.Prop{prop16(0x21, n)}}
					p.ReceiveMaximum = primitives.PrimitiveUint16(w.Choose(2, "announced") * 65535)
				})
				c := w.Up("A", opts...)
				s := c.conn.srv
				s.hold = func(p *ref.Packet) bool { return p.Type == ref.PUBREC }
				for i := 1; i <= 6; i++ {
					c.conn.Push(publish(byte(w.Choose(3, "QoS")), uint16(i), "t", "x"))
					if err := c.pollOnce(time.Second); err != nil || !c.IsConnected() {
						w.Bad("refused", "publish %d fails although the client announced no Receive Maximum or 65535: %v", i, err)
						return
					}
				}
			}})
		}
	}
	// The client's own operations do not disturb the count.
	for _, o := range ops() {
		if o.name == "disconnect" {
			continue
		}
		o := o
		r = append(r, Scenario{Name: "the server uses its limit while the client does " + o.name, Body: func(w *World) {
			c := w.Up("A", func(c *Client, p *packets.Connect) { p.ReceiveMaximum = 1 }, withKeepAlive(600))
			ch := c.CreateEventChannel(8)
			c.StartLoop()
			s := c.conn.srv
			n := 0
			s.onPacket = func(p *ref.Packet) {
				if p.Type == ref.PUBACK {
					s.c.put(vs.Offset(), nil, publish(2, 7, "t", "two").Encode())
				}
				if p.Type == ref.PUBCOMP && n < 1 {
					n++
					s.c.put(vs.Offset(), nil, publish(1, 8, "t", "three").Encode())
				}
			}
			h := w.T.Go(o.name, func() { o.run(w, c) })
			c.conn.Push(publish(1, 7, "t", "one"))
			w.T.Join(h)
			c.StopLoop()
			ev, _ := drain(ch)
			if got := strings.Join(payloads(ev), " "); !strings.HasPrefix(got, "one two three") || len(c.pollErrs) > 0 {
				w.Bad("refused", "the server stays within the limit, but delivered is %q (poll errors %v)", got, c.pollErrs)
			}
			s.onPacket = nil
			s.hold = func(p *ref.Packet) bool { return p.Type == ref.PUBREC }
			c.conn.Push(publish(2, 1, "t", "x"))
			if err := c.pollOnce(time.Second); err != nil {
				w.Bad("refused", "a publish within the limit is refused: %v", err)
			}
			c.conn.Push(publish(1, 2, "t", "x"))
			var rc mqtt.ReasonCode
			if err := c.pollOnce(time.Second); !errors.As(err, &rc) || byte(rc) != 0x93 || !c.conn.closed {
				w.Bad("excess-error", "an excess publish is not refused: %v", err)
			}
		}})
	}
	return
}

func init() {
	all := func(th bool) []Scenario {
		return append(append(flowScenarios(th), cancelledWrites()...), outboundKindScenarios()...)
	}
	suites["F01"] = suite{scenarios: all}
	suites["F02"] = suite{scenarios: all}
	suites["F03"] = suite{scenarios: func(th bool) []Scenario { return append(quotaScenarios(th), inboundKindScenarios()...) }}
}
