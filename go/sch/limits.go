package main

import (
	"context"
	"fmt"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"

	"verif/ref"
	"verif/vs"
)

// ---- X03 -----------------------------------------------------------------------------------------------------------

// limit is the deadline of a call.
type limit struct {
	name string
	d    time.Duration
	none bool
}

var limits = []limit{{"no deadline", 0, true}, {"a deadline that has passed", -time.Second, false}, {"100ms", 100 * time.Millisecond, false}, {"5s", 5 * time.Second, false}, {"1h", time.Hour, false}}

func (l limit) context() (context.Context, context.CancelFunc) {
	if l.none {
		return vs.WithCancel(context.Background())
	}
	return vs.WithDeadline(context.Background(), vs.Now().Add(l.d))
}

// suffices tells whether there is more time than d.
func (l limit) suffices(d time.Duration) bool { return l.none || l.d > d }

// limited is a call with a limit of its own.
type limited struct {
	name  string
	waits bool // for the server's answer
	call  func(c *Client, ctx context.Context) error
}

func limitedCalls() []limited {
	return []limited{
		{"publish 0", false, func(c *Client, ctx context.Context) error { return c.Publish(ctx, newPublish(0, "t", "x")) }},
		{"publish 1", false, func(c *Client, ctx context.Context) error { return c.Publish(ctx, newPublish(1, "t", "x")) }},
		{"publish 2", false, func(c *Client, ctx context.Context) error { return c.Publish(ctx, newPublish(2, "t", "x")) }},
		{"subscribe", true, func(c *Client, ctx context.Context) error {
			return c.Subscribe(ctx, []mqtt.Topic{topic("f", 0, nil)})
		}},
		{"unsubscribe", true, func(c *Client, ctx context.Context) error { return c.Unsubscribe(ctx, []string{"f"}) }},
		{"keep-alive", false, func(c *Client, ctx context.Context) error { return c.KeepAlive() }},
		{"disconnect", false, func(c *Client, ctx context.Context) error { return c.Disconnect(ctx, false) }},
	}
}

// ownLimit checks the outcome of a call that took place without any other call next to it.
func (w *World) ownLimit(what string, l limit, need, took time.Duration, err error) {
	if l.suffices(need) {
		if err != nil {
			w.Bad("cut-short", "%s needs %v and has %s, but returns %v after %v", what, need, l.name, err, took)
		}
		return
	}
	if took > max(l.d, 0) {
		w.Bad("outlasts", "%s has %s, but returns %v after %v", what, l.name, err, took)
	}
}

// limitHistory is a sequence of calls with deadlines of their own, over a transport that takes its time.
func limitHistory(depth int, slow time.Duration, shared bool) Scenario {
	name := fmt.Sprintf("%d calls after each other", depth)
	if slow > 0 {
		name += fmt.Sprintf(", writing takes %v", slow)
	}
	pauses, all, waiting := []time.Duration{0, 200 * time.Millisecond, 10 * time.Second}, limits, []limit{limits[0], {"2s", 2 * time.Second, false}, limits[3], limits[4]}
	if shared {
		name += ", few contexts"
		pauses, all, waiting = []time.Duration{0, 10 * time.Second}, limits[3:], limits[4:]
	}
	return Scenario{Name: name, Seq: true, Keep: true, Body: func(w *World) {
		w.slow = slow
		c := w.NewClient("A")
		s := c.conn.srv
		p := connectPacket()
		p.KeepAlive = []primitives.PrimitiveUint16{60000, 0}[w.Choose(2, "keep-alive")]
		l := []limit{limits[0], limits[3], limits[4]}[w.Choose(3, "connecting has")]
		ctx, cancel := l.context()
		err := c.Connect(ctx, p)
		if w.Choose(2, "cancelled afterwards") == 1 {
			cancel()
		}
		defer cancel()
		w.ownLimit("connecting", l, slow, vs.Offset(), err)
		if err != nil {
			return
		}
		ch := c.CreateEventChannel(32)
		calls := limitedCalls()
		// The application uses one context for several calls, or one for each.
		once := map[string]context.Context{}
		began := vs.Offset()
		open := func(l *limit) (context.Context, context.CancelFunc) {
			if !shared {
				return l.context()
			}
			ctx := once[l.name]
			if ctx == nil {
				ctx, _ = vs.WithDeadline(context.Background(), vs.Base.Add(began+l.d))
				once[l.name] = ctx
			}
			l.d -= vs.Offset() - began
			return ctx, func() {}
		}
		for i := 0; i < depth && c.IsConnected() && !w.T.Failed(); i++ {
			if d := pauses[w.Choose(len(pauses), "pause")]; d > 0 {
				vs.Sleep(d)
			}
			k := w.Choose(len(calls)+2, "call")
			if k >= len(calls) {
				// A poll that reads a message and acknowledges it.
				var l limit
				late := k - len(calls)
				if late == 1 {
					l = waiting[w.Choose(len(waiting), "poll has")]
				} else {
					l = all[w.Choose(len(all), "poll has")]
				}
				for len(c.conn.rx) > 0 && !w.T.Failed() {
					c.pollOnce(time.Hour)
				}
				w.pollErrors(c)
				drain(ch)
				id := uint16(100 + i)
				b := encodeAll([]*ref.Packet{publish(1, id, "t", "in")})
				if late == 0 {
					c.conn.Push(publish(1, id, "t", "in"))
				} else {
					// It arrives while the poll waits, in two pieces.
					at := vs.Offset()
					c.conn.put(at+time.Second, nil, b[:5])
					c.conn.put(at+3*time.Second+200*time.Millisecond, nil, b[5:])
				}
				n := s.count(ref.PUBACK)
				start := vs.Offset()
				ctx, cancel := open(&l)
				err := c.Poll(ctx)
				cancel()
				ev, _ := drain(ch)
				if err != nil {
					w.Bad("cut-short", "a poll with %s returns %v after %v", l.name, err, vs.Offset()-start)
				} else if l.suffices(0) != (len(ev) == 1 && s.count(ref.PUBACK) == n+1) {
					w.Bad("cut-short", "a poll with %s delivers %q and sends %d acknowledgements", l.name, showAll(ev), s.count(ref.PUBACK)-n)
				}
				continue
			}
			x := calls[k]
			l := all[w.Choose(len(all), x.name+" has")]
			if x.name == "keep-alive" {
				l = limits[0]
			}
			if x.waits {
				c.stop = vs.Flag{}
				c.StartLoop()
			}
			start := vs.Offset()
			ctx, cancel := open(&l)
			err := x.call(c, ctx)
			took := vs.Offset() - start
			cancel()
			w.T.Logf("%s with %s returns %v after %v", x.name, l.name, err, took)
			w.ownLimit(x.name, l, slow, took, err)
			if x.waits {
				c.StopLoop()
				w.pollErrors(c)
			}
		}
		if !c.IsConnected() {
			return
		}
		for len(c.conn.rx) > 0 && !w.T.Failed() {
			c.pollOnce(time.Hour)
		}
		w.pollErrors(c)
		w.slow = 0
		c.works("at the end")
	}}
}

// pollErrors checks that no poll has failed.
func (w *World) pollErrors(c *Client) {
	if len(c.pollErrs) > 0 {
		w.Bad("cut-short", "polling fails: %v", c.pollErrs)
	}
}

// limitRace makes two calls at once, of which one has too little time, next to polls.
func limitRace(a, b limited, la, lb limit, slow time.Duration) Scenario {
	name := fmt.Sprintf("%s with %s and %s with %s at once", a.name, la.name, b.name, lb.name)
	if slow > 0 {
		name += fmt.Sprintf(", writing takes %v", slow)
	}
	return Scenario{Name: name, Keep: true, Body: func(w *World) {
		c := w.Up("A", withKeepAlive(60000))
		w.slow = slow
		ch := c.CreateEventChannel(32)
		c.StartLoop()
		// Answers come too late for a short deadline.
		c.conn.srv.hold = func(p *ref.Packet) bool {
			if p.Type == ref.SUBSCRIBE || p.Type == ref.UNSUBSCRIBE {
				c.conn.put(vs.Offset()+2*time.Second, nil, encodeAll([]*ref.Packet{c.conn.srv.answer(p)}))
				return true
			}
			return false
		}
		// A message arrives in two pieces while the calls are made.
		pieces := encodeAll([]*ref.Packet{publish(1, 50, "t", "in")})
		at := vs.Offset()
		c.conn.put(at, nil, pieces[:3])
		c.conn.put(at+time.Second, nil, pieces[3:])
		start := vs.Offset()
		var hs []*vs.Handle
		for i, x := range []limited{a, b} {
			x, l := x, []limit{la, lb}[i]
			hs = append(hs, w.T.Go(x.name, func() {
				ctx, cancel := l.context()
				err := x.call(c, ctx)
				cancel()
				w.T.Logf("%s with %s returns %v", x.name, l.name, err)
				// The call may wait for the lock behind the message, the acknowledgement, the other call and answers.
				if l.suffices(10*time.Second) && err != nil {
					w.Bad("cut-short", "%s has %s, but returns %v after %v", x.name, l.name, err, vs.Offset()-start)
				}
			}))
		}
		for _, h := range hs {
			w.T.Join(h)
		}
		c.StopLoop()
		for n := 0; n < 10 && len(c.conn.rx) > 0; n++ {
			c.pollOnce(time.Hour)
		}
		w.pollErrors(c)
		if ev, _ := drain(ch); len(payloads(ev)) != 1 || c.conn.srv.count(ref.PUBACK) != 1 {
			w.Bad("cut-short", "delivered is %q and %d acknowledgements were sent", showAll(ev), c.conn.srv.count(ref.PUBACK))
		}
		w.slow = 0
		c.works("at the end")
	}}
}

func limitScenarios(th bool) (r []Scenario) {
	for _, slow := range []time.Duration{0, time.Second} {
		r = append(r, limitHistory(2, slow, false), limitHistory(3, slow, true))
		s := limitHistory(3, slow, false)
		s.Thorough = true
		r = append(r, s)
		calls := limitedCalls()
		calls = calls[:len(calls)-1]
		for i, a := range calls {
			for j, b := range calls {
				for _, la := range limits {
					for _, lb := range []limit{limits[0], limits[4]} {
						if a.name == "keep-alive" && !la.none || b.name == "keep-alive" && !lb.none {
							continue
						}
						if la.none && lb.none && i > j {
							continue
						}
						if !la.none && la.d == time.Hour {
							continue
						}
						s := limitRace(a, b, la, lb, slow)
						s.Thorough = lb.none == (la.d < 0)
						r = append(r, s)
					}
				}
			}
		}
	}
	return
}

func init() {
	suites["X03"] = suite{scenarios: limitScenarios}
}
