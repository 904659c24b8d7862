package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"

	"verif/ref"
	"verif/vs"
)

// ---- K01 -----------------------------------------------------------------------------------------------------------

// withServerKeepAlive makes the server specify the keep-alive interval.
func withServerKeepAlive(s int) func(c *Client, p *packets.Connect) {
	return func(c *Client, p *packets.Connect) {
		if s >= 0 {
			c.conn.srv.connack = &ref.Packet{Type: ref.CONNACK, HasProps: true, Props: []ref.Prop{prop16(0x13, uint16(s))}}
		}
	}
}

// keepAlive drives a client and a model of what it knows about the liveness of the connection.
type keepAlive struct {
	w *World
	c *Client
	k time.Duration // effective interval

	// The arrival of the last ping response that was read, and the moment it was read (or the moment the connection was
	// made). An implementation may count from either.
	arrived, read time.Duration
	dead          bool
	responses     []time.Duration // arrival of the responses that were not read
}

// respond lets a ping response arrive after a delay.
func (k *keepAlive) respond(d time.Duration) {
	at := vs.Offset() + d
	if n := len(k.c.conn.rx); n > 0 && k.c.conn.rx[n-1].at > at {
		at = k.c.conn.rx[n-1].at
	}
	k.responses = append(k.responses, at)
	k.c.conn.put(at, func() {
		k.arrived, k.read = at, vs.Offset()
		k.responses = k.responses[1:]
	}, (&ref.Packet{Type: ref.PINGRESP}).Encode())
}

// poll polls with a deadline and checks the outcome.
func (k *keepAlive) poll(d time.Duration) {
	now := vs.Offset()
	w, c := k.w, k.c
	unread := len(k.responses) > 0 && k.responses[0] <= now
	mustLive := k.k == 0 || now <= k.arrived+2*k.k
	mustDie := k.k > 0 && now > k.read+2*k.k && !unread
	sent := len(c.conn.srv.recv)
	err := c.pollOnce(d)
	if wantCode(err, 0x8d) || c.conn.closed || !c.IsConnected() {
		k.dead = true
		if mustLive {
			w.Bad("killed", "a poll %v after the last ping response (interval %v) ends the connection: %v (connected: %v, closed: %v)",
				now-k.arrived, k.k, err, c.IsConnected(), c.conn.closed)
			return
		}
		if !wantCode(err, 0x8d) {
			w.Bad("timeout-error", "the keep-alive ran out and the poll returns %v instead of the keep-alive timeout", err)
		}
		if !c.conn.closed {
			w.Bad("timeout-open", "the keep-alive ran out but the connection stays open")
		}
		if c.IsConnected() {
			w.Bad("timeout-connected", "the keep-alive ran out but the client reports itself connected")
		}
		return
	}
	if mustDie {
		w.Bad("survived", "no ping response for %v, more than twice the interval of %v, and the poll returns %v", now-k.read, k.k, err)
		return
	}
	if err != nil {
		w.Bad("poll-error", "polling fails: %v", err)
	}
	for _, p := range c.conn.srv.recv[sent:] {
		w.Bad("poll-sends", "polling sends %v", p)
	}
}

func (k *keepAlive) ping() bool {
	s := k.c.conn.srv
	n, pings := len(s.recv), s.pings
	start := vs.Offset()
	err := k.c.ping()
	if err != nil || s.pings != pings+1 || len(s.recv) != n+1 || vs.Offset()-start > k.w.slow {
		k.w.Bad("ping", "KeepAlive returns %v and sends %v", err, s.dump()[n:])
		return false
	}
	return true
}

func newKeepAlive(w *World, client, server int) *keepAlive {
	c := w.Up("A", withKeepAlive(client), withServerKeepAlive(server))
	c.conn.srv.hold = func(*ref.Packet) bool { return true }
	eff := client
	if server >= 0 {
		eff = server
	}
	return &keepAlive{w: w, c: c, k: time.Duration(eff) * time.Second, arrived: vs.Offset(), read: vs.Offset()}
}

// intervals are the requested keep-alive and the server's (-1: none).
var intervals = [][2]int{{10, -1}, {1, -1}, {0, -1}, {10, 2}, {10, 0}, {0, 2}, {1, 60}, {65535, -1}, {10, 32768}, {10, 65535}, {300, -1}}

func keepAliveHistory(depth int, client, server int) Scenario {
	name := fmt.Sprintf("history of %d steps, keep-alive %d", depth, client)
	if server >= 0 {
		name += fmt.Sprintf(", server keep-alive %d", server)
	}
	return Scenario{Name: name, Seq: true, Heavy: true, Body: func(w *World) {
		k := newKeepAlive(w, client, server)
		c := k.c
		u := k.k
		if u == 0 {
			u = time.Hour
		}
		const short = time.Millisecond
		n := 0
		type move struct {
			name string
			run  func()
		}
		moves := []move{
			{"ping, answered", func() { k.ping(); k.respond(0) }},
			{"ping, answered after half the interval", func() { k.ping(); k.respond(u / 2) }},
			{"ping, answered after twice the interval", func() { k.ping(); k.respond(2 * u) }},
			{"ping, not answered", func() { k.ping() }},
			{"poll", func() { k.poll(short) }},
			{"long poll", func() { k.poll(3 * u) }},
			{"half the interval", func() { vs.Sleep(u / 2) }},
			{"the interval", func() { vs.Sleep(u) }},
			{"twice the interval", func() { vs.Sleep(2 * u) }},
			{"a little", func() { vs.Sleep(2 * time.Millisecond) }},
			{"the server publishes", func() { n++; c.conn.Push(publish(0, 0, "t", fmt.Sprint(n))) }},
			{"the client publishes", func() { c.pub(0, "x") }},
		}
		for i := 0; i < depth && !w.T.Failed() && !k.dead; i++ {
			m := moves[w.Choose(len(moves), "step")]
			w.T.Logf("%v: %s", vs.Offset(), m.name)
			m.run()
		}
		if w.T.Failed() {
			return
		}
		// In the end nothing more is answered.
		for i := 0; i < 30 && !k.dead && !w.T.Failed(); i++ {
			k.poll(short)
			if len(c.conn.rx) > 0 {
				if d := c.conn.rx[0].at - vs.Offset(); d > 0 {
					vs.Sleep(d)
				}
			} else if !k.dead {
				vs.Sleep(k.read + 2*u - vs.Offset() + 1)
			}
		}
		for i := 0; k.k == 0 && i < 3; i++ {
			vs.Sleep(100 * time.Hour)
			k.poll(short)
		}
		if w.T.Failed() {
			return
		}
		if k.k > 0 && !k.dead {
			w.T.Fail("setup", "the history does not end")
		}
		if k.dead {
			c.refuses("after the keep-alive ran out", len(refusals))
		}
	}}
}

func keepAliveScenarios(th bool) (r []Scenario) {
	for _, i := range intervals {
		r = append(r, keepAliveHistory(5, i[0], i[1]))
		s := keepAliveHistory(6, i[0], i[1])
		s.Thorough = true
		r = append(r, s)
	}
	// Exactly around the limit, every effective interval.
	for _, i := range intervals {
		i := i
		r = append(r, Scenario{Name: fmt.Sprintf("around the limit, keep-alive %d/%d", i[0], i[1]), Seq: true, Body: func(w *World) {
			k := newKeepAlive(w, i[0], i[1])
			for j := 0; j < 3 && !k.dead && !w.T.Failed(); j++ {
				if w.Choose(2, "ping") == 1 {
					k.ping()
					switch w.Choose(3, "answer") {
					case 0:
						k.respond(0)
					case 1:
						k.respond(k.k)
					}
				}
				d := []time.Duration{-time.Second, -1, 0, 1, time.Second}[w.Choose(5, "moment")]
				if at := k.arrived + 2*k.k + d - vs.Offset(); at > 0 {
					vs.Sleep(at)
				}
				k.poll(time.Millisecond)
			}
		}})
	}
	// Writing takes long, but not longer than the interval.
	for _, i := range intervals {
		i := i
		r = append(r, Scenario{Name: fmt.Sprintf("writing takes long, keep-alive %d/%d", i[0], i[1]), Seq: true, Body: func(w *World) {
			k := newKeepAlive(w, i[0], i[1])
			u := k.k
			if u == 0 {
				u = time.Hour
			}
			w.slow = []time.Duration{0, 1, u / 100, u / 2, u}[w.Choose(5, "time")]
			for j := 0; j < 4 && !k.dead && !w.T.Failed(); j++ {
				k.ping()
				k.respond(0)
				k.poll(time.Millisecond)
			}
		}})
	}
	// A program that pings and polls regularly.
	for _, i := range intervals {
		i := i
		for _, silent := range []int{-1, 0, 1, 2, 3} {
			silent := silent
			name := fmt.Sprintf("regular pings, keep-alive %d/%d", i[0], i[1])
			if silent >= 0 {
				name += fmt.Sprintf(", no answer from ping %d on", silent+1)
			}
			r = append(r, Scenario{Name: name, Seq: true, Body: func(w *World) {
				k := newKeepAlive(w, i[0], i[1])
				u := k.k
				if u == 0 {
					u = time.Hour
				}
				half := w.Choose(2, "short polls") == 1
				for n := 0; n < 8 && !k.dead && !w.T.Failed(); n++ {
					if !k.ping() {
						return
					}
					if silent < 0 || n < silent {
						k.respond(time.Duration(w.Choose(2, "delay")) * (u - 1))
					}
					for end := vs.Offset() + u; vs.Offset() < end && !k.dead && !w.T.Failed(); {
						d := end - vs.Offset()
						if half && d > u/2 {
							d = u / 2
						}
						k.poll(d)
					}
				}
				if silent >= 0 && k.k > 0 && !k.dead && !w.T.Failed() {
					w.Bad("survived", "the connection is not declared dead although the server does not answer")
				}
			}})
		}
	}
	// Closing the connection reports an error.
	for _, i := range intervals {
		i := i
		r = append(r, Scenario{Name: fmt.Sprintf("closing fails, keep-alive %d/%d", i[0], i[1]), Seq: true, Body: func(w *World) {
			k := newKeepAlive(w, i[0], i[1])
			if k.k == 0 {
				return
			}
			for n := w.Choose(3, "pings"); n > 0; n-- {
				k.ping()
				k.respond(0)
				k.poll(time.Millisecond)
			}
			vs.Sleep(2*k.k + 1)
			w.closeFails = true
			err := k.c.pollOnce(time.Millisecond)
			w.closeFails = false
			if err == nil || k.c.conn.closes == 0 || k.c.IsConnected() {
				w.Bad("timeout-connected", "the keep-alive ran out and closing the connection reports an error: the poll returns %v, the connection was closed %d times, the client reports itself connected: %v", err, k.c.conn.closes, k.c.IsConnected())
			}
			k.c.refuses("after the keep-alive ran out", len(refusals))
		}})
	}
	// Concurrently.
	for _, other := range []string{"", "pub1", "inbound"} {
		other := other
		for _, answered := range []bool{true, false} {
			answered := answered
			name := "poll loop and pings in different goroutines"
			if other != "" {
				name += ", " + other
			}
			if !answered {
				name += ", not answered"
			}
			r = append(r, Scenario{Name: name, Body: func(w *World) {
				c := w.Up("A", withKeepAlive(10))
				s := c.conn.srv
				s.hold = func(p *ref.Packet) bool { return !answered && p.Type == ref.PINGREQ }
				hs := []*vs.Handle{w.T.Go("pinger", func() {
					for i := 0; i < 2; i++ {
						if err := c.ping(); err != nil {
							w.Bad("ping", "KeepAlive fails: %v", err)
						}
						vs.Sleep(15 * time.Second)
					}
				})}
				switch other {
				case "pub1":
					hs = append(hs, w.T.Go("publisher", func() { c.pub(1, "x") }))
				case "inbound":
					hs = append(hs, w.T.Go("server", func() { c.conn.Push(publish(1, 5, "t", "x")) }))
				}
				c.StartLoop()
				for _, h := range hs {
					w.T.Join(h)
				}
				c.StopLoop()
				if s.pings != 2 {
					w.Bad("ping", "2 calls of KeepAlive send %d PINGREQ", s.pings)
				}
				if len(c.pollErrs) > 0 || !c.IsConnected() {
					w.Bad("killed", "the connection is declared dead: %v", c.pollErrs)
					return
				}
				if err := c.pollOnce(time.Millisecond); answered != (err == nil) || !answered && !wantCode(err, 0x8d) {
					w.Bad("survived", "30 seconds after the connection was made (interval 10s, pings answered: %v) a poll returns %v", answered, err)
				}
			}})
		}
	}
	return
}

// ---- X02 -----------------------------------------------------------------------------------------------------------

// observed is what a client does in response to an inbound byte stream.
type observed struct {
	tx     string
	events string
	errs   []string
}

// feeder gives a client an inbound byte stream with gaps.
type feeder struct {
	w     *World
	c     *Client
	ch    mqtt.EventChannel
	start int
}

func (w *World) feed(name string, storage bool) *feeder {
	opts := []func(*Client, *packets.Connect){}
	if storage {
		opts = append(opts, withStore(w.NewStore()))
	}
	c := w.Up(name, opts...)
	var n uint32 = 40
	c.SetRngFn(func() uint32 { n++; return n })
	c.conn.srv.hold = func(*ref.Packet) bool { return true }
	ch := c.CreateEventChannel(64)
	c.pub(1, "own")
	c.pub(2, "own")
	return &feeder{w: w, c: c, ch: ch, start: len(c.conn.tx)}
}

// take polls until the stream was read.
func (f *feeder) take(poll time.Duration) observed {
	w, c := f.w, f.c
	var o observed
	idle := 0
	for n := 0; n < 4000 && !c.conn.closed && (len(c.conn.rx) > 0 || n == 0); n++ {
		left := f.pending()
		could := c.conn.Available()
		at := vs.Offset()
		ctx, cancel := context.WithCancel(context.Background())
		if poll > 0 {
			cancel()
			ctx, cancel = within(poll)
		}
		err := c.Poll(ctx)
		cancel()
		if err != nil {
			o.errs = append(o.errs, err.Error())
		}
		if f.pending() == left && !could && poll > 0 && vs.Offset() == at+poll {
			// nothing arrived
			idle++
			if err != nil {
				w.Bad("idle-error", "a poll without data returns %v", err)
			}
		}
	}
	if len(c.conn.rx) > 0 && !c.conn.closed {
		w.Bad("stuck", "polling does not read the stream")
	}
	o.tx = fmt.Sprintf("%x", c.conn.tx[f.start:])
	ev, _ := drain(f.ch)
	o.events = showAll(ev)
	return o
}

func (f *feeder) pending() (n int) {
	for _, s := range f.c.conn.rx {
		n += len(s.b)
	}
	return
}

// gap is a pause in the inbound stream.
type gap struct {
	at int
	d  time.Duration
}

func (f *feeder) stream(b []byte, gaps ...gap) {
	at, last := vs.Offset(), 0
	for _, g := range gaps {
		f.c.conn.put(at, nil, append([]byte{}, b[last:g.at]...))
		at += g.d
		last = g.at
	}
	f.c.conn.put(at, nil, append([]byte{}, b[last:]...))
}

func pollingStreams() [][]*ref.Packet {
	props := []ref.Prop{{ID: 0x26, S: "k", V: "v"}, {ID: 0x03, S: "ct"}}
	big := publish(1, 9, "a/b/c", strings.Repeat("p", 130))
	full := publish(2, 10, "t", "payload")
	full.HasProps, full.Props = true, props
	return [][]*ref.Packet{
		{publish(0, 0, "t", "hello"), publish(1, 7, "t", ""), publish(2, 8, "t", "x")},
		{full, ack(ref.PUBREL, 10, 0), big},
		{ack(ref.PUBACK, 41, 0), ack(ref.PUBREC, 42, 0), ack(ref.PUBCOMP, 42, 0x92)},
		{{Type: ref.SUBACK, ID: 5, Codes: []byte{0, 0x80}}, {Type: ref.PINGRESP}, {Type: ref.UNSUBACK, ID: 6, HasProps: true, Props: []ref.Prop{{ID: 0x1f, S: "why"}}, Codes: []byte{0x11}}},
		{{Type: ref.PUBACK, ID: 41, Reason: 0x97, HasReason: true, HasProps: true, Props: []ref.Prop{{ID: 0x1f, S: "no"}}}, {Type: ref.AUTH, Reason: 0x18, HasReason: true, HasProps: true, Props: []ref.Prop{{ID: 0x15, S: "m"}, {ID: 0x16, S: "data"}}}, publish(1, 11, "u", "last")},
		{publish(0, 0, "t", "hello"), {Type: ref.DISCONNECT, Reason: 0x8b, HasReason: true, HasProps: true, Props: []ref.Prop{{ID: 0x1f, S: "bye"}}}},
	}
}

func encodeAll(l []*ref.Packet) (b []byte) {
	for _, p := range l {
		b = append(b, p.Encode()...)
	}
	return
}

// malformedStreams contain a packet that is refused, between others.
func malformedStreams() [][]byte {
	a, z := publish(1, 7, "t", "before").Encode(), publish(1, 8, "t", "after").Encode()
	var r [][]byte
	for _, m := range [][]byte{
		{0x40, 3, 0, 1, 0xff, 0x42, 2, 0, 1},
		{0xd0, 1, 0},
		{0xf0, 3, 0x18, 1, 9},
		{0x90, 5, 0, 1, 1, 0x99, 0},
		{0x30, 4, 0, 9, 'a', 'b'},
		{0x40, 6, 0, 1, 0, 9, 0x1f, 0},
	} {
		r = append(r, append(append(append([]byte{}, a...), m...), z...))
	}
	return r
}

func (w *World) compare(base, o observed, what string) {
	if o.tx != base.tx {
		w.Bad("answers", "%s: the client sends %s instead of %s", what, o.tx, base.tx)
	}
	if o.events != base.events {
		w.Bad("events", "%s: delivered is %q instead of %q", what, o.events, base.events)
	}
	if strings.Join(o.errs, "; ") != strings.Join(base.errs, "; ") {
		w.Bad("errors", "%s: polling returns the errors %q instead of %q", what, o.errs, base.errs)
	}
}

// boundaries returns where packets begin in a stream.
func boundaries(b []byte) map[int]bool {
	r := map[int]bool{}
	for at := 0; at < len(b); {
		r[at] = true
		n, shift, i := 0, 0, at+1
		for ; i < len(b); i++ {
			n |= int(b[i]&0x7f) << shift
			shift += 7
			if b[i] < 0x80 {
				break
			}
		}
		at = i + 1 + n
	}
	return r
}

func pollingScenarios(th bool) (r []Scenario) {
	var streams [][]byte
	var labels []string
	for i, l := range pollingStreams() {
		streams = append(streams, encodeAll(l))
		labels = append(labels, fmt.Sprint("stream ", i+1))
	}
	for i, b := range malformedStreams() {
		streams = append(streams, b)
		labels = append(labels, fmt.Sprint("stream with malformed packet ", i+1))
	}
	// Poll deadlines; 0 stands for none.
	polls := []time.Duration{0, 1, time.Second, 20 * time.Second}
	durations := []time.Duration{1, time.Second / 2, time.Second, 5 * time.Second, 29 * time.Second}
	two := []time.Duration{1, time.Second, 14 * time.Second}
	for i, b := range streams {
		b := b
		for _, storage := range []bool{false, true} {
			storage := storage
			name := labels[i]
			if storage {
				name += ", storage"
			}
			base := func(w *World) observed {
				f := w.feed("B", storage)
				f.stream(b)
				return f.take(time.Second)
			}
			r = append(r, Scenario{Name: name + ", one gap", Seq: true, Body: func(w *World) {
				want := base(w)
				f := w.feed("A", storage)
				if w.Choose(2, "reads") == 1 {
					f.c.conn.maxRead = 1
				}
				g := gap{w.Choose(len(b), "position"), durations[w.Choose(len(durations), "gap")]}
				poll := polls[w.Choose(len(polls), "poll deadline")]
				if poll == 1 && g.d > time.Microsecond {
					poll = g.d / 3
				}
				f.stream(b, g)
				w.compare(want, f.take(poll), fmt.Sprintf("gap of %v before byte %d, polling for %v", g.d, g.at, poll))
			}})
			s := Scenario{Name: name + ", two gaps", Seq: true, Heavy: true, Thorough: storage || i > 1, Body: func(w *World) {
				want := base(w)
				f := w.feed("A", storage)
				g1 := gap{w.Choose(len(b), "position"), two[w.Choose(len(two), "gap")]}
				g2 := gap{g1.at + w.Choose(len(b)-g1.at, "position"), two[w.Choose(len(two), "gap")]}
				poll := []time.Duration{0, time.Second}[w.Choose(2, "poll deadline")]
				f.stream(b, g1, g2)
				w.compare(want, f.take(poll), fmt.Sprintf("gaps of %v and %v before the bytes %d and %d, polling for %v", g1.d, g2.d, g1.at, g2.at, poll))
			}}
			r = append(r, s)
			r = append(r, Scenario{Name: name + ", byte by byte", Seq: true, Body: func(w *World) {
				want := base(w)
				f := w.feed("A", storage)
				d := []time.Duration{0, 1, 100 * time.Millisecond}[w.Choose(3, "gap")]
				var gaps []gap
				for i := 1; i < len(b); i++ {
					gaps = append(gaps, gap{i, d})
				}
				poll := []time.Duration{0, 50 * time.Millisecond, time.Second}[w.Choose(3, "poll deadline")]
				f.stream(b, gaps...)
				w.compare(want, f.take(poll), fmt.Sprintf("every byte %v after the one before, polling for %v", d, poll))
			}})
		}
	}
	// A packet that takes longer than half a minute to arrive ends the connection; it is not taken for another one.
	for i, b := range streams {
		b := b
		starts := boundaries(b)
		r = append(r, Scenario{Name: labels[i] + ", stopping within a packet", Seq: true, Body: func(w *World) {
			f := w.feed("B", false)
			f.stream(b)
			want := f.take(time.Second)
			f = w.feed("A", false)
			if w.Choose(2, "reads") == 1 {
				f.c.conn.maxRead = 1
			}
			g := gap{1 + w.Choose(len(b)-1, "position"), []time.Duration{31 * time.Second, 45 * time.Second, time.Hour}[w.Choose(3, "gap")]}
			poll := polls[1+w.Choose(len(polls)-1, "poll deadline")]
			if poll == 1 {
				poll = g.d / 7
			} else if poll < g.d/100 {
				poll = g.d / 100
			}
			f.stream(b, g)
			got := f.take(poll)
			what := fmt.Sprintf("gap of %v before byte %d, polling for %v", g.d, g.at, poll)
			if starts[g.at] {
				w.compare(want, got, what)
				return
			}
			if !strings.HasPrefix(want.tx, got.tx) || !strings.HasPrefix(want.events, got.events) {
				w.Bad("misread", "%s: the client sends %s and delivers %q, which is not the beginning of %s and %q", what, got.tx, got.events, want.tx, want.events)
			}
			if len(got.errs) == 0 || f.c.IsConnected() || !f.c.conn.closed {
				w.Bad("stopped", "%s: the rest of the packet did not arrive within half a minute, but polling returns %q and the client is connected=%v, closed=%v", what, got.errs, f.c.IsConnected(), f.c.conn.closed)
			}
			if err := f.c.pollOnce(time.Second); !errors.Is(err, mqtt.ErrClientNotConnected) {
				w.Bad("stopped", "%s: the next poll returns %v", what, err)
			}
		}})
	}
	// Polls that find nothing.
	r = append(r, Scenario{Name: "nothing arrives", Seq: true, Body: func(w *World) {
		c := w.Up("A")
		ch := c.CreateEventChannel(4)
		sent := len(c.conn.tx)
		ds := []time.Duration{-time.Second, 0, 1, time.Millisecond, time.Second, time.Hour}
		for i := 0; i < 4; i++ {
			d := ds[w.Choose(len(ds), "deadline")]
			start := vs.Offset()
			ctx, cancel := vs.WithDeadline(context.Background(), vs.Now().Add(d))
			err := c.Poll(ctx)
			cancel()
			if err != nil {
				w.Bad("idle-error", "a poll without data returns %v", err)
			}
			if d < 0 {
				d = 0
			}
			if vs.Offset() != start+d {
				w.Bad("idle-late", "a poll with a deadline of %v returns after %v", d, vs.Offset()-start)
			}
		}
		ev, _ := drain(ch)
		if len(c.conn.tx) != sent || len(ev) > 0 || !c.IsConnected() || c.conn.closed {
			w.Bad("idle", "polls without data have effects: sent %x, events %q", c.conn.tx[sent:], showAll(ev))
		}
		c.works("after polls without data")
	}})
	// A poll whose deadline has passed already leaves what has arrived alone.
	r = append(r, Scenario{Name: "deadlines that have passed", Seq: true, Body: func(w *World) {
		i := w.Choose(len(streams), "stream")
		b := streams[i]
		g := w.feed("B", false)
		g.stream(b)
		want := g.take(time.Second)
		f := w.feed("A", false)
		f.stream(b)
		var o observed
		for n := 0; n < 12 && len(f.c.conn.rx) > 0 && !f.c.conn.closed; n++ {
			left := f.pending()
			ctx, cancel := vs.WithDeadline(context.Background(), vs.Now().Add(-time.Duration(w.Choose(2, "past"))))
			if err := f.c.Poll(ctx); err != nil {
				w.Bad("idle-error", "a poll whose deadline has passed returns %v", err)
			}
			cancel()
			if f.pending() != left {
				w.Bad("consumed", "a poll whose deadline has passed consumes %d bytes", left-f.pending())
			}
			if err := f.c.pollOnce(time.Second); err != nil {
				o.errs = append(o.errs, err.Error())
			}
		}
		x := f.take(time.Second)
		x.errs = append(o.errs, x.errs...)
		w.compare(want, x, "with polls whose deadline has passed")
	}})
	// Other operations between the polls do not disturb a packet that arrives in pieces.
	for _, o := range ops() {
		if o.name == "disconnect" || o.name == "sub" || o.name == "unsub" || o.name == "query" || o.name == "channel" {
			continue
		}
		o := o
		r = append(r, Scenario{Name: "packets in pieces while the client does " + o.name, Body: func(w *World) {
			c := w.Up("A", withKeepAlive(600))
			ch := c.CreateEventChannel(16)
			c.idle = 1
			c.StartLoop()
			f := &feeder{w: w, c: c, ch: ch}
			b := encodeAll([]*ref.Packet{publish(0, 0, "t", "m1"), publish(0, 0, "t", "m2")})
			cut := []int{1, 2, 5, len(b)/2 + 1}[w.Choose(4, "gap")]
			f.stream(b, gap{cut, 1500 * time.Millisecond})
			h := w.T.Go(o.name, func() { o.run(w, c) })
			w.T.Join(h)
			c.StopLoop()
			for n := 0; n < 10 && len(c.conn.rx) > 0; n++ {
				c.pollOnce(time.Second)
			}
			ev, _ := drain(ch)
			if got := strings.Join(payloads(ev), " "); got != "m1 m2" || len(c.pollErrs) > 0 {
				w.Bad("events", "delivered is %q instead of m1 and m2 (poll errors %v)", got, c.pollErrs)
			}
		}})
	}
	return
}

func init() {
	suites["K01"] = suite{scenarios: keepAliveScenarios}
	suites["X02"] = suite{scenarios: pollingScenarios}
}
