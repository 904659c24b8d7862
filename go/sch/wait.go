package main

import (
	"context"
	"strings"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"

	"verif/ref"
	"verif/vs"
)

// ---- X01 -----------------------------------------------------------------------------------------------------------

// waiter is a call that waits for the server.
type waiter struct {
	name string
	kind byte
	call func(w *World, c *Client, ctx context.Context) error
}

func waiters() []waiter {
	return []waiter{
		{"subscribe", ref.SUBSCRIBE, func(w *World, c *Client, ctx context.Context) error {
			ch := c.CreateEventChannel(4)
			return c.Subscribe(ctx, []mqtt.Topic{topic("s", 0, &ch)})
		}},
		{"unsubscribe", ref.UNSUBSCRIBE, func(w *World, c *Client, ctx context.Context) error { return c.Unsubscribe(ctx, []string{"u"}) }},
		{"publish 1", ref.PUBLISH, func(w *World, c *Client, ctx context.Context) error {
			return c.Publish(ctx, newPublish(1, "t", "late"))
		}},
		{"publish 2", ref.PUBLISH, func(w *World, c *Client, ctx context.Context) error {
			return c.Publish(ctx, newPublish(2, "t", "late"))
		}},
	}
}

// await runs a waiting call against what ends it.
func await(x waiter, end string, answered bool, withOther bool) Scenario {
	name := x.name + ": " + end
	if answered {
		name += ", answered meanwhile"
	}
	if withOther {
		name += ", another call waits, too"
	}
	end, closeFails := strings.CutSuffix(end, ", closing fails")
	return Scenario{Name: name, Body: func(w *World) {
		w.closeFails = closeFails
		opts := []func(*Client, *packets.Connect){withKeepAlive(600), withRM(1)}
		if end == "keep-alive" {
			opts[0] = withKeepAlive(10)
		}
		c := w.Up("A", opts...)
		s := c.conn.srv
		s.hold = func(p *ref.Packet) bool {
			return p.Type == ref.SUBSCRIBE || p.Type == ref.UNSUBSCRIBE || p.Type == ref.PUBLISH && p.QoS() > 0
		}
		if x.kind == ref.PUBLISH {
			// Take the only slot.
			if err := c.pub(1, "first"); err != nil {
				w.Bad("setup", "publishing fails: %v", err)
				return
			}
		}
		ctx, cancel := vs.WithCancel(context.Background())
		limit := time.Duration(-1)
		start := vs.Offset()
		switch end {
		case "deadline":
			limit = 2 * time.Second
			ctx, cancel = within(limit)
		case "deadline passed":
			limit = 0
			ctx, cancel = vs.WithDeadline(context.Background(), vs.Now().Add(-time.Second))
		case "cancelled before":
			limit = 0
			cancel()
		}
		c.StartLoop()
		type res struct {
			err  error
			at   time.Duration
			h    *vs.Handle
			done vs.Flag
		}
		run := func(name string, call func(w *World, c *Client, ctx context.Context) error) *res {
			r := &res{}
			r.h = w.T.Go(name, func() {
				r.err = call(w, c, ctx)
				r.at = vs.Offset()
				w.T.Logf("%s returns %v", name, r.err)
				r.done.Raise()
			})
			return r
		}
		results := []*res{run("call", x.call)}
		if withOther {
			results = append(results, run("other call", waiters()[0].call))
		}
		var hs []*vs.Handle
		ended := true // the connection has ended
		switch end {
		case "deadline", "deadline passed", "cancelled before":
			ended = false
		case "cancel":
			ended = false
			hs = append(hs, w.T.Go("canceller", func() { cancel() }))
		case "server disconnects":
			hs = append(hs, w.T.Go("server ends", func() { c.conn.Push(&ref.Packet{Type: ref.DISCONNECT, HasReason: true, Reason: 0x8b}) }))
		case "peer closes":
			hs = append(hs, w.T.Go("peer ends", func() { c.conn.CloseByPeer() }))
		case "stream cut":
			w.torn = true
			hs = append(hs, w.T.Go("peer ends", func() { c.conn.PushBytes([]byte{0x30, 9, 0}); c.conn.CloseByPeer() }))
		case "disconnect":
			hs = append(hs, w.T.Go("disconnecter", func() { c.disc() }))
		case "keep-alive":
			hs = append(hs, w.T.Go("poller", func() {
				vs.Sleep(time.Minute)
				if err := c.pollOnce(time.Second); err == nil {
					w.Bad("setup", "the keep-alive does not run out")
				}
			}))
		}
		if answered {
			hs = append(hs, w.T.Go("server", func() {
				if x.kind == ref.PUBLISH {
					c.conn.Push(s.answerHeld(0))
					return
				}
				vs.Wait("server waits for the request", func() bool { return len(s.held) > 0 || results[0].done.Up() }, nil, &s.got, &results[0].done)
				if len(s.held) > 0 && !c.conn.ending() {
					c.conn.Push(s.answerHeld(0))
				}
			}))
		}
		for _, h := range hs {
			w.T.Join(h)
		}
		for _, r := range results {
			w.T.Join(r.h)
			if limit >= 0 && r.at > start+limit {
				w.Bad("late", "%s with a deadline of %v returns %v after %v", x.name, limit, r.err, r.at-start)
			}
			if r.err == nil && !answered {
				w.Bad("success", "%s succeeds although the server does not answer", x.name)
			}
		}
		c.StopLoop()
		if ended {
			if c.IsConnected() {
				w.Bad("setup", "the connection has not ended")
			}
			return
		}
		// The late answers are harmless and the client is usable.
		s.hold = nil
		for len(s.held) > 0 {
			c.conn.Push(s.answerHeld(0))
		}
		c.pollErrs = nil
		c.stop = vs.Flag{}
		c.StartLoop()
		ch := c.CreateEventChannel(8)
		if err := c.sub("again", &ch); err != nil {
			w.Bad("unusable", "subscribing fails after an abandoned call: %v", err)
		}
		for i := 1; i <= 3; i++ {
			if err := c.pub(byte(1+i%2), "again"); err != nil {
				w.Bad("unusable", "publishing fails after an abandoned call: %v", err)
			}
		}
		c.conn.Push(publish(1, 77, "again", "inbound"))
		if err := c.unsub("x"); err != nil {
			w.Bad("unusable", "unsubscribing fails after an abandoned call: %v", err)
		}
		c.StopLoop()
		ev, _ := drain(ch)
		if got := payloads(ev); len(got) != 1 || got[0] != "inbound" || len(c.pollErrs) > 0 || !c.IsConnected() {
			w.Bad("unusable", "after an abandoned call: delivered %q, poll errors %v, connected %v", got, c.pollErrs, c.IsConnected())
		}
		cancel()
	}}
}

// answerHeld takes a packet that was held and makes its answer.
func (s *Server) answerHeld(i int) *ref.Packet {
	p := s.held[i]
	s.held = append(append([]*ref.Packet{}, s.held[:i]...), s.held[i+1:]...)
	return s.answer(p)
}

// dialling waits for the connection acknowledgement.
func dialling(end string, answer int) Scenario {
	what := []string{"no answer", "part of the answer", "answered meanwhile"}[answer]
	return Scenario{Name: "connect: " + end + ", " + what, Body: func(w *World) {
		c := w.NewClient("A")
		s := c.conn.srv
		s.noConnack = true
		b := (&ref.Packet{Type: ref.CONNACK, HasProps: true, Props: []ref.Prop{prop16(0x21, 9)}}).Encode()
		s.hold = func(p *ref.Packet) bool { return p.Type == ref.CONNECT }
		ctx, cancel := vs.WithCancel(context.Background())
		limit := time.Duration(-1)
		start := vs.Offset()
		switch end {
		case "deadline":
			limit = 2 * time.Second
			ctx, cancel = within(limit)
		case "cancelled before":
			limit = 0
			cancel()
		}
		var err error
		var at time.Duration
		var done vs.Flag
		h := w.T.Go("call", func() {
			err = c.Connect(ctx, connectPacket())
			at = vs.Offset()
			w.T.Logf("connect returns %v", err)
			done.Raise()
		})
		var hs []*vs.Handle
		switch end {
		case "cancel":
			hs = append(hs, w.T.Go("canceller", func() { cancel() }))
		case "peer closes":
			hs = append(hs, w.T.Go("peer", func() { c.conn.CloseByPeer() }))
		}
		if answer > 0 {
			hs = append(hs, w.T.Go("server", func() {
				vs.Wait("server waits for CONNECT", func() bool { return len(s.held) > 0 || done.Up() }, nil, &s.got, &done)
				if len(s.held) == 0 {
					return
				}
				if answer == 1 {
					c.conn.PushBytes(b[:1+w.Choose(len(b)-1, "length")])
				} else {
					c.conn.PushBytes(b)
				}
			}))
		}
		w.T.Join(h)
		for _, x := range hs {
			w.T.Join(x)
		}
		if limit >= 0 && at > start+limit {
			w.Bad("late", "Connect with a deadline of %v returns %v after %v", limit, err, at-start)
		}
		if err == nil && answer < 2 {
			w.Bad("success", "Connect succeeds although the server does not accept")
		}
		if c.IsConnected() != (err == nil) {
			w.Bad("state", "Connect returned %v, but connected is %v", err, c.IsConnected())
		}
		if err != nil {
			c.refuses("after Connect failed", len(refusals))
			return
		}
		if end == "cancel" || end == "deadline" {
			// A context that ends later does not matter any more.
			cancel()
			vs.Sleep(5 * time.Second)
			c.works("after Connect succeeded and its context ended")
		}
	}}
}

// late enumerates the moments of the answer and of the deadline.
func late(x waiter) Scenario {
	return Scenario{Name: x.name + ": moments of the answer and the deadline", Seq: true, Body: func(w *World) {
		c := w.Up("A", withRM(1))
		s := c.conn.srv
		s.hold = func(p *ref.Packet) bool { return true }
		if x.kind == ref.PUBLISH {
			c.pub(1, "first")
		}
		ds := []time.Duration{0, time.Millisecond, time.Second, 2 * time.Second, 2*time.Second + time.Millisecond, time.Hour}
		deadline := ds[w.Choose(len(ds), "deadline")]
		answer := ds[w.Choose(len(ds), "answer")]
		cancelAt := time.Duration(-1)
		if w.Choose(2, "cancelled") == 1 {
			cancelAt = ds[w.Choose(len(ds), "cancelled")]
		}
		c.StartLoop()
		ctx, cancel := within(deadline)
		var err error
		start := vs.Offset()
		var at time.Duration
		h := w.T.Go("call", func() {
			err = x.call(w, c, ctx)
			at = vs.Offset() - start
			w.T.Logf("%s returns %v after %v", x.name, err, at)
		})
		h2 := w.T.Go("canceller", func() {
			if cancelAt >= 0 {
				vs.Sleep(cancelAt)
				cancel()
			}
		})
		h3 := w.T.Go("server", func() {
			vs.Sleep(answer)
			if len(s.held) > 0 {
				c.conn.Push(s.answerHeld(0))
			}
		})
		w.T.Join(h)
		w.T.Join(h2)
		w.T.Join(h3)
		end := deadline
		if cancelAt >= 0 && cancelAt < end {
			end = cancelAt
		}
		if at > end {
			w.Bad("late", "%s with a deadline of %v (cancelled at %v) returns %v after %v", x.name, deadline, cancelAt, err, at)
		}
		if answer < end && (err != nil || at != answer) && deadline > 0 {
			w.Bad("answer-ignored", "%s is answered after %v and returns %v after %v", x.name, answer, err, at)
		}
		if answer > end && err == nil && x.kind != ref.PUBLISH {
			w.Bad("success", "%s succeeds although the server did not answer in time", x.name)
		}
		c.StopLoop()
	}}
}

// behindPoll makes a call while another goroutine polls and nothing arrives.
func behindPoll(x waiter) Scenario {
	return Scenario{Name: x.name + ": while a poll waits for data", Seq: true, Keep: true, Body: func(w *World) {
		c := w.Up("A")
		h := w.T.Go("poll", func() { c.pollOnce(5 * time.Second) })
		w.T.Quiesce()
		start := vs.Offset()
		ctx, cancel := within(time.Second)
		err := x.call(w, c, ctx)
		cancel()
		if at := vs.Offset() - start; at > time.Second {
			w.Bad("behind-poll:"+x.name, "%s with a deadline of 1s returns %v after %v because another goroutine polls with a deadline of 5s and nothing arrives", x.name, err, at)
		}
		w.T.Join(h)
	}}
}

func waitingScenarios(th bool) (r []Scenario) {
	for _, x := range waiters() {
		r = append(r, behindPoll(x))
	}
	for _, x := range waiters() {
		for _, end := range []string{"deadline", "deadline passed", "cancel", "cancelled before", "server disconnects", "peer closes", "stream cut", "disconnect", "keep-alive",
			"server disconnects, closing fails", "stream cut, closing fails", "disconnect, closing fails", "keep-alive, closing fails"} {
			for _, answered := range []bool{false, true} {
				if answered && (end == "deadline passed" || end == "cancelled before") {
					continue
				}
				r = append(r, await(x, end, answered, false))
				if x.name != "publish 2" {
					s := await(x, end, answered, true)
					s.Thorough = answered
					r = append(r, s)
				}
			}
		}
		r = append(r, late(x))
	}
	for _, end := range []string{"deadline", "cancel", "cancelled before", "peer closes"} {
		for a := 0; a < 3; a++ {
			r = append(r, dialling(end, a))
		}
	}
	return
}

func init() {
	suites["X01"] = suite{scenarios: waitingScenarios}
}
