package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"

	"verif/ref"
	"verif/vs"
)

// match is the reference for topic filters (the valid ones used here).
func match(filter, name string) bool {
	f, n := strings.Split(filter, "/"), strings.Split(name, "/")
	if strings.HasPrefix(name, "$") && (f[0] == "+" || f[0] == "#") {
		return false
	}
	for i, l := range f {
		if l == "#" {
			return true
		}
		if i >= len(n) || l != "+" && l != n[i] {
			return false
		}
	}
	return len(f) == len(n)
}

// ---- E01 -----------------------------------------------------------------------------------------------------------

// mchan models an event channel.
type mchan struct {
	ch     mqtt.EventChannel
	cap    int
	queue  []string
	bound  map[string]bool
	wasB   bool // has ever been bound: no longer a general channel
	closed bool
}

func (m *mchan) offer(s string) {
	if !m.closed && len(m.queue) < m.cap {
		m.queue = append(m.queue, s)
	}
}

// routing drives a client and a model of its event channels.
type routing struct {
	w     *World
	c     *Client
	chans []*mchan
	n     int
}

func (r *routing) create(cap int) {
	m := &mchan{ch: r.c.CreateEventChannel(cap), cap: cap, bound: map[string]bool{}}
	if cap < 1 {
		m.cap = 1
	}
	r.chans = append(r.chans, m)
}

func (r *routing) announce(s string) {
	for _, m := range r.chans {
		if !m.wasB {
			m.offer(s)
		}
	}
}

func (r *routing) publishEvent(topic, s string) {
	for _, m := range r.chans {
		if !m.wasB {
			m.offer(s)
			continue
		}
		for f := range m.bound {
			if match(f, topic) {
				m.offer(s)
				break
			}
		}
	}
}

// owner returns the channel bound to a filter.
func (r *routing) owner(f string) *mchan {
	for _, m := range r.chans {
		if m.bound[f] {
			return m
		}
	}
	return nil
}

// poll handles what has arrived; nothing may delay it.
func (r *routing) poll() {
	start := vs.Offset()
	if errs := r.c.pollAll(); len(errs) > 0 {
		r.w.Bad("poll-error", "polling fails: %v", errs)
	}
	if vs.Offset()-start > time.Millisecond {
		r.w.Bad("delayed", "delivering events takes %v", vs.Offset()-start)
	}
}

// inbound publishes to the client.
func (r *routing) inbound(qos byte, topic string) {
	r.n++
	s := fmt.Sprint("m", r.n)
	r.c.conn.Push(publish(qos, uint16(qos)*77, topic, s))
	r.publishEvent(topic, fmt.Sprintf("PUBLISH(q%d %s %s)", qos, topic, s))
	r.poll()
}

// other lets the server send another packet that is announced.
func (r *routing) other(p *ref.Packet, s string) {
	r.c.conn.Push(p)
	r.announce(s)
	r.poll()
}

// subscribe subscribes with the given channels; the server answers with the given codes.
func (r *routing) subscribe(filters []string, chs []*mchan, codes []byte) {
	var topics []mqtt.Topic
	for i, f := range filters {
		if chs[i] == nil {
			topics = append(topics, topic(f, 0, nil))
		} else {
			topics = append(topics, topic(f, 0, &chs[i].ch))
		}
	}
	i := -1
	r.c.conn.srv.subCode = func(string) byte { i++; return codes[i] }
	var err error
	r.request(func() {
		ctx, cancel := within(10 * time.Second)
		defer cancel()
		err = r.c.Subscribe(ctx, topics)
	}, chs, ref.SUBACK, codes)
	refused := false
	for i, c := range codes {
		if c >= 0x80 {
			refused = true
		} else if m := chs[i]; m != nil && !m.closed {
			if o := r.owner(filters[i]); o != nil {
				delete(o.bound, filters[i])
			}
			m.bound[filters[i]] = true
			m.wasB = true
		}
	}
	if refused != (err != nil) {
		r.w.Bad("subscribe", "Subscribe returns %v although the answer is %x", err, codes)
	}
}

func (r *routing) unsubscribe(filter string, code byte) {
	r.c.conn.srv.unsubCode = func(string) byte { return code }
	var err error
	var l []*mchan
	o := r.owner(filter)
	if o != nil {
		l = append(l, o)
	}
	r.request(func() {
		ctx, cancel := within(10 * time.Second)
		defer cancel()
		err = r.c.Unsubscribe(ctx, []string{filter})
	}, nil, ref.UNSUBACK, []byte{code})
	if (code >= 0x80) != (err != nil) {
		r.w.Bad("unsubscribe", "Unsubscribe returns %v although the answer is %x", err, code)
	}
	if code < 0x80 && o != nil {
		delete(o.bound, filter)
		if len(o.bound) == 0 {
			o.closed = true
		}
	}
}

// request runs a subscribe or unsubscribe call with a poll loop. The channels that change their role are emptied: whether
// the acknowledgement itself is announced on them depends on when the role changes.
func (r *routing) request(call func(), changing []*mchan, t byte, codes []byte) {
	before := len(r.c.conn.srv.recv)
	r.c.stop = vs.Flag{}
	r.c.StartLoop()
	call()
	r.c.StopLoop()
	id := r.c.conn.srv.recv[before].ID
	r.announce(fmt.Sprintf("%s(%d %x)", map[byte]string{ref.SUBACK: "SUBACK", ref.UNSUBACK: "UNSUBACK"}[t], id, codes))
	seen := map[*mchan]bool{}
	for _, m := range changing {
		if m == nil || seen[m] || m.closed {
			continue
		}
		seen[m] = true
		ev, _ := drain(m.ch)
		got := showAll(ev)
		all := strings.Join(m.queue, " ")
		without := all
		if n := len(m.queue); n > 0 && strings.Contains(m.queue[n-1], "SUBACK") {
			without = strings.Join(m.queue[:n-1], " ")
		}
		if got != all && got != without {
			r.w.Bad("events", "a channel received %q instead of %q", got, all)
		}
		m.queue = nil
	}
}

func (r *routing) close(m *mchan) {
	r.c.CloseEventChannel(m.ch)
	m.closed = true
	m.bound = map[string]bool{}
}

// take consumes one event.
func (r *routing) take(m *mchan) {
	e, ok, got := vs.TryRecv(m.ch.C)
	switch {
	case len(m.queue) == 0 && m.closed:
		if !got || ok {
			r.w.Bad("not-closed", "a closed channel does not report its end")
		}
	case len(m.queue) == 0:
		if got {
			r.w.Bad("events", "a channel holds %q; it should hold nothing (closed %v)", show(e), !ok)
		}
	case !got || !ok:
		r.w.Bad("events", "a channel is empty; it should hold %q", m.queue)
	default:
		if s := show(e); s != m.queue[0] {
			r.w.Bad("events", "a channel holds %q; it should hold %q", s, m.queue[0])
		}
		m.queue = m.queue[1:]
	}
}

// settle compares everything.
func (r *routing) settle() {
	for i, m := range r.chans {
		ev, closed := drain(m.ch)
		if got, want := showAll(ev), strings.Join(m.queue, " "); got != want {
			r.w.Bad("events", "channel %d (capacity %d, bound to %v) received %q instead of %q", i, m.cap, keys(m.bound), got, want)
		}
		if closed != m.closed {
			r.w.Bad("closed", "channel %d is closed: %v; it should be: %v", i, closed, m.closed)
		}
		m.queue = nil
	}
}

func keys(m map[string]bool) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	return
}

// broad returns filters that all match a/b/c/d.
func broad() (r []string) {
	var grow func(f string, l []string)
	grow = func(f string, l []string) {
		r = append(r, strings.TrimPrefix(f+"/#", "/"))
		if len(l) == 0 {
			r = append(r, strings.TrimPrefix(f, "/"))
			return
		}
		grow(f+"/"+l[0], l[1:])
		grow(f+"/+", l[1:])
	}
	grow("", []string{"a", "b", "c", "d"})
	return
}

// manyChannels uses more channels and filters, and longer queues, than the histories do.
func manyChannels() Scenario {
	return Scenario{Name: "many channels", Seq: true, Horizon: 50000000, Body: func(w *World) {
		c := w.Up("A")
		x := &routing{w: w, c: c}
		filters := broad()
		general := []int{0, 2, 70}[w.Choose(3, "general channels")]
		bound := []int{1, 2, 5, 9, 17, 33, len(filters)}[w.Choose(7, "filters")]
		per := []int{1, 2, len(filters)}[w.Choose(3, "filters per channel")]
		capacity := []int{1, 2, 300}[w.Choose(3, "capacity")]
		if capacity > 2 && general+bound > 7 {
			capacity = 20
		}
		before := []int{0, 62, 63, 254, 255, 65534, 65535}
		if general+bound != 3 {
			before = before[:5]
		}
		for n := before[w.Choose(len(before), "channels created before")]; n > 0; n-- {
			ch := c.CreateEventChannel(1)
			c.CloseEventChannel(ch)
		}
		// The channels bound to filters may be created far apart.
		apart := []int{0, 63, 255}[w.Choose(3, "channels created in between")]
		if bound > 9 {
			apart = min(apart, 63)
		}
		for i := 0; i < general; i++ {
			x.create(capacity)
		}
		name := func(i int) string {
			if i%4 == 3 {
				return "other/" + filters[i]
			}
			return filters[i]
		}
		var fs []string
		var ms []*mchan
		for i := 0; i < bound; i++ {
			if i%per == 0 {
				for n := 0; n < apart && i > 0; n++ {
					c.CloseEventChannel(c.CreateEventChannel(1))
				}
				x.create(capacity)
			}
			fs = append(fs, name(i))
			ms = append(ms, x.chans[len(x.chans)-1])
		}
		if n := bound / 2; n > 0 {
			x.subscribe(fs[:n], ms[:n], make([]byte, n))
			fs, ms = fs[n:], ms[n:]
		}
		x.subscribe(fs, ms, make([]byte, len(fs)))
		rounds := func() {
			x.settle()
			for i := 0; i < 2 && !w.T.Failed(); i++ {
				x.inbound(byte(i), "a/b/c/d")
				x.inbound(0, "other/a/b/c/d")
				x.other(ack(ref.PUBACK, 9, 0), "PUBACK(9 0x0)")
			}
			x.settle()
			if capacity > 2 {
				for i := 0; i < capacity+10 && !w.T.Failed(); i++ {
					x.inbound(0, "a/b/c/d")
				}
				x.settle()
			}
		}
		rounds()
		for i, m := range x.chans {
			if !m.closed && i%3 == 1 {
				x.close(m)
			}
		}
		rounds()
		for i := 0; i < bound && !w.T.Failed(); i += 1 + bound/5 {
			x.unsubscribe(name(i), 0)
		}
		rounds()
	}}
}

func routingScenarios(th bool) (r []Scenario) {
	r = append(r, manyChannels())
	// Histories of creating, binding, closing and consuming channels and of inbound packets.
	history := func(name string, depth int, thorough, orders bool, caps []int, filters []string, topics []string) {
		r = append(r, Scenario{Name: fmt.Sprintf("history of %d steps, %s", depth, name), Seq: true, Heavy: orders, Thorough: thorough, MapOrder: orders, Body: func(w *World) {
			c := w.Up("A")
			x := &routing{w: w, c: c}
			for _, k := range caps {
				x.create(k)
			}
			for i := 0; i < depth && !w.T.Failed(); i++ {
				type move struct {
					name string
					run  func()
				}
				var moves []move
				add := func(n string, f func()) { moves = append(moves, move{n, f}) }
				for _, t := range topics {
					t := t
					add("publish "+t, func() { x.inbound(0, t) })
				}
				add("other", func() { x.other(ack(ref.PUBACK, 9, 0), "PUBACK(9 0x0)") })
				for k, m := range x.chans {
					m := m
					if len(m.queue) > 0 || m.closed {
						add(fmt.Sprint("consume ", k), func() { x.take(m) })
					}
					if !m.closed {
						add(fmt.Sprint("close ", k), func() { x.close(m) })
						for _, f := range filters {
							f := f
							if o := x.owner(f); o == nil || o == m {
								add(fmt.Sprintf("bind %d to %s", k, f), func() { x.subscribe([]string{f}, []*mchan{m}, []byte{0}) })
							}
						}
						if !m.wasB {
							add(fmt.Sprint("refused ", k), func() { x.subscribe([]string{filters[0]}, []*mchan{m}, []byte{0x87}) })
						}
					}
				}
				for _, f := range filters {
					f := f
					if x.owner(f) != nil {
						add("unsubscribe "+f, func() { x.unsubscribe(f, 0) })
						add("unsubscribe refused "+f, func() { x.unsubscribe(f, 0x87) })
					}
				}
				if len(x.chans) < 3 {
					add("create", func() { x.create(1) })
				}
				m := moves[w.Choose(len(moves), "step")]
				w.T.Logf("step: %s", m.name)
				m.run()
			}
			x.inbound(1, topics[0])
			x.settle()
			x.inbound(0, topics[len(topics)-1])
			x.other(ack(ref.PUBACK, 8, 0), "PUBACK(8 0x0)")
			x.settle()
		}})
	}
	history("two channels", 4, false, false, []int{2, 1}, []string{"a", "+"}, []string{"a", "b"})
	history("one channel, two filters", 5, false, false, []int{2}, []string{"a/#", "a/+"}, []string{"a/b", "a", "c"})
	history("two channels", 5, true, false, []int{2, 1}, []string{"a", "+"}, []string{"a", "b"})
	history("three channels", 4, true, false, []int{1, 2, 3}, []string{"a", "+"}, []string{"a", "b"})
	history("two channels, every map order", 4, true, true, []int{2, 1}, []string{"a", "+"}, []string{"a", "b"})
	history("two channels, every map order", 3, false, true, []int{3, 3}, []string{"a", "+", "#"}, []string{"a"})

	// Every assignment of three channels to roles, with every filter and topic of a set, in every map order.
	all := []string{"a", "a/b", "+", "#", "a/+", "a/#", "+/b", "b"}
	for _, orders := range []bool{false, true} {
		orders := orders
		name := "every assignment"
		if orders {
			name += ", every map order"
		}
		r = append(r, Scenario{Name: name, Seq: true, MapOrder: orders, Thorough: orders, Body: func(w *World) {
			c := w.Up("A")
			x := &routing{w: w, c: c}
			for k := 0; k < 3; k++ {
				x.create(2)
			}
			used := map[string]bool{}
			for k := 0; k < 2; k++ {
				for n := w.Choose(3, "bindings"); n > 0; n-- {
					f := all[w.Choose(len(all), "filter")]
					if used[f] {
						return
					}
					used[f] = true
					x.subscribe([]string{f}, []*mchan{x.chans[k]}, []byte{0})
					if n == 2 {
						continue
					}
				}
			}
			for _, t := range []string{"a", "a/b", "b", "a/b/c", "$x", ""} {
				x.inbound(0, t)
				x.settle()
			}
		}})
	}
	// A filter is subscribed to again with another channel: whatever becomes of the first channel, the new one is bound.
	for _, same := range []bool{false, true} {
		same := same
		name := "a filter is bound again"
		if same {
			name += " in the same request"
		}
		r = append(r, Scenario{Name: name, Seq: true, Body: func(w *World) {
			c := w.Up("A")
			general, first, second := c.CreateEventChannel(4), c.CreateEventChannel(4), c.CreateEventChannel(4)
			f := []string{"a", "+", "a/#", "#"}[w.Choose(4, "filter")]
			other := []string{"", "x", "+/a"}[w.Choose(3, "other filter of the first channel")]
			c.StartLoop()
			if other != "" && c.sub(other, &first) != nil {
				w.T.Fail("setup", "cannot subscribe")
			}
			var err error
			if same {
				ctx, cancel := within(10 * time.Second)
				err = c.Subscribe(ctx, []mqtt.Topic{topic(f, 0, &first), topic(f, 1, &second)})
				cancel()
			} else if err = c.sub(f, &first); err == nil {
				err = c.sub(f, &second)
			}
			c.StopLoop()
			if err != nil {
				w.Bad("subscribe", "subscribing fails: %v", err)
				return
			}
			drain(general)
			drain(second)
			for i := 0; i < 2; i++ {
				c.conn.Push(publish(0, 0, "a", fmt.Sprint(i)))
				if errs := c.pollAll(); len(errs) > 0 {
					w.Bad("poll-error", "polling fails: %v", errs)
				}
				w.only("second", second, fmt.Sprint(i))
				w.only("general", general, fmt.Sprint(i))
			}
			c.conn.Push(publish(0, 0, "b/c", "no"))
			if f != "#" {
				c.pollAll()
				w.only("second", second)
			}
		}})
	}
	// One request for several filters with different outcomes.
	r = append(r, Scenario{Name: "several filters in one request", Seq: true, Body: func(w *World) {
		c := w.Up("A")
		x := &routing{w: w, c: c}
		for k := 0; k < 3; k++ {
			x.create(4)
		}
		fs := []string{"a", "b", "c"}
		var chs []*mchan
		var codes []byte
		for range fs {
			k := w.Choose(4, "channel")
			if k == 3 {
				chs = append(chs, nil)
			} else {
				chs = append(chs, x.chans[k])
			}
			codes = append(codes, []byte{0, 1, 2, 0x80}[w.Choose(4, "code")])
		}
		x.subscribe(fs, chs, codes)
		for _, t := range []string{"a", "b", "c", "d"} {
			x.inbound(0, t)
		}
		x.settle()
	}})
	// Every kind of packet is announced on every general channel that has room, on no bound one, in order.
	kinds := func(n int) func(w *World) {
		return func(w *World) {
			c := w.Up("A")
			x := &routing{w: w, c: c}
			x.create(1 + w.Choose(6, "capacity"))
			x.create(0)
			x.create(10)
			x.create(3)
			x.subscribe([]string{"a"}, []*mchan{x.chans[3]}, []byte{0})
			x.settle()
			c.conn.srv.hold = func(*ref.Packet) bool { return true }
			type item struct {
				p *ref.Packet
				s string
			}
			items := []item{{ack(ref.PUBACK, 9, 0x10), "PUBACK(9 0x10)"}, {ack(ref.PUBREC, 9, 0), "PUBREC(9 0x0)"}, {ack(ref.PUBREC, 9, 0x80), "PUBREC(9 0x80)"},
				{ack(ref.PUBREL, 9, 0x92), "PUBREL(9 0x92)"}, {ack(ref.PUBCOMP, 9, 0), "PUBCOMP(9 0x0)"}, {&ref.Packet{Type: ref.SUBACK, ID: 5, Codes: []byte{1, 0x80}}, "SUBACK(5 0180)"},
				{&ref.Packet{Type: ref.UNSUBACK, ID: 6, Codes: []byte{0x11}}, "UNSUBACK(6 11)"}, {&ref.Packet{Type: ref.AUTH, HasReason: true, Reason: 0x18, HasProps: true}, "AUTH(0x18)"},
				{&ref.Packet{Type: ref.PINGRESP}, ""}, {publish(0, 0, "b", "x"), "PUBLISH(q0 b x)"}, {publish(1, 3, "b", "y"), "PUBLISH(q1 b y)"}, {publish(2, 4, "b", "z"), "PUBLISH(q2 b z)"}}
			off := w.Choose(len(items), "first")
			for k := 0; k < n && k < len(items); k++ {
				it := items[(off+k)%len(items)]
				if it.s == "" {
					c.conn.Push(it.p)
					x.poll()
				} else if it.p.Type == ref.PUBLISH {
					c.conn.Push(it.p)
					x.publishEvent("b", it.s)
					x.poll()
				} else {
					x.other(it.p, it.s)
				}
			}
			c.conn.Push(&ref.Packet{Type: ref.DISCONNECT, HasReason: true, Reason: 0x8b})
			x.announce("DISCONNECT(0x8b)")
			x.poll()
			x.settle()
		}
	}
	r = append(r, Scenario{Name: "every kind of packet", Seq: true, Body: kinds(99)},
		Scenario{Name: "every kind of packet, every map order", Seq: true, MapOrder: true, Body: kinds(2)})
	// The order and the number of events do not depend on what else the client does.
	for _, o := range append(ops(), twice()...) {
		if o.name == "disconnect" {
			continue
		}
		o := o
		r = append(r, Scenario{Name: "inbound publishes during " + o.name, Body: func(w *World) {
			c := w.Up("A", withKeepAlive(600))
			general, small, bound := c.CreateEventChannel(32), c.CreateEventChannel(1), c.CreateEventChannel(8)
			c.StartLoop()
			c.sub("in/+", &bound)
			c.StopLoop()
			c.stop = vs.Flag{}
			drain(general)
			drain(small)
			drain(bound)
			c.acts = nil
			c.StartLoop()
			h := w.T.Go(o.name, func() { o.run(w, c) })
			c.conn.Push(publish(0, 0, "in/a", "1"), publish(1, 7, "other", "2"), publish(2, 8, "in/b", "3"))
			w.T.Join(h)
			c.StopLoop()
			ev, _ := drain(bound)
			if got := strings.Join(payloads(ev), " "); got != "1 3" || len(ev) != 2 {
				w.Bad("events", "the bound channel received %q", showAll(ev))
			}
			ev, _ = drain(general)
			if got := strings.Join(payloads(ev), " "); got != "1 2 3" {
				w.Bad("events", "the general channel received %q", showAll(ev))
			}
			ev, _ = drain(small)
			if len(ev) != 1 {
				w.Bad("events", "the channel for one event received %q", showAll(ev))
			}
		}})
	}
	return
}

// ---- E02 -----------------------------------------------------------------------------------------------------------

// doneOnce checks that the completion of a channel was signalled exactly once.
func (w *World) doneOnce(name string, ch mqtt.EventChannel, closed bool) {
	_, ok, got := vs.TryRecv(ch.Done)
	if !closed {
		if got {
			w.Bad("done", "%s signals its completion although it was not closed", name)
		}
		if _, c := drain(ch); c {
			w.Bad("closed", "%s is closed although nobody closed it", name)
		}
		return
	}
	if !got || !ok {
		w.Bad("done", "%s was closed but does not signal its completion (got %v, value %v)", name, got, ok)
		return
	}
	if _, ok, got := vs.TryRecv(ch.Done); !got || ok {
		w.Bad("done", "%s signals its completion more than once", name)
	}
	if _, c := drain(ch); !c {
		w.Bad("closed", "%s was closed but its events do not end", name)
	}
}

// only checks that the general channel received the publishes, in order.
func (w *World) only(name string, ch mqtt.EventChannel, want ...string) {
	ev, _ := drain(ch)
	if got := payloads(ev); strings.Join(got, " ") != strings.Join(want, " ") {
		w.Bad("events", "%s received %v instead of %v", name, got, want)
	}
}

func lifeScenarios(th bool) (r []Scenario) {
	r = append(r, manyChannels())
	add := func(name string, body func(w *World)) { r = append(r, Scenario{Name: name, Body: body}) }
	add("create and close during delivery", func(w *World) {
		c := w.Up("A")
		base := c.CreateEventChannel(8)
		c.StartLoop()
		var a, b mqtt.EventChannel
		h1 := w.T.Go("creator", func() {
			a = c.CreateEventChannel(4)
			c.CloseEventChannel(a)
		})
		h2 := w.T.Go("creator2", func() { b = c.CreateEventChannel(4) })
		c.conn.Push(publish(0, 0, "t", "1"), publish(0, 0, "t", "2"))
		w.T.Join(h1)
		w.T.Join(h2)
		c.StopLoop()
		w.only("the first channel", base, "1", "2")
		w.doneOnce("the closed channel", a, true)
		ev, _ := drain(b)
		if got := strings.Join(payloads(ev), " "); got != "" && got != "2" && got != "1 2" {
			w.Bad("events", "a channel created meanwhile received %q", got)
		}
		w.doneOnce("the open channel", b, false)
	})
	add("closed twice at once", func(w *World) {
		c := w.Up("A")
		a, b := c.CreateEventChannel(4), c.CreateEventChannel(4)
		c.StartLoop()
		h1 := w.T.Go("closer", func() { c.CloseEventChannel(a) })
		h2 := w.T.Go("closer2", func() { c.CloseEventChannel(a) })
		c.conn.Push(publish(0, 0, "t", "1"))
		w.T.Join(h1)
		w.T.Join(h2)
		c.CloseEventChannel(a)
		c.StopLoop()
		w.doneOnce("the closed channel", a, true)
		w.only("the other channel", b, "1")
		w.doneOnce("the other channel", b, false)
	})
	add("a waiting consumer", func(w *World) {
		c := w.Up("A")
		a := c.CreateEventChannel(1)
		var got []string
		h := w.T.Go("consumer", func() {
			for {
				e, ok := vs.Recv2(a.C)
				if !ok {
					break
				}
				got = append(got, show(e))
			}
			vs.Recv(a.Done)
		})
		c.StartLoop()
		c.conn.Push(publish(0, 0, "t", "1"), publish(0, 0, "t", "2"))
		h2 := w.T.Go("closer", func() { c.CloseEventChannel(a) })
		w.T.Join(h)
		w.T.Join(h2)
		c.StopLoop()
		for i := range got {
			if i > 0 && got[i] <= got[i-1] {
				w.Bad("events", "the consumer received %v", got)
			}
		}
	})
	// The server grants the subscription and publishes at once.
	for _, extra := range []string{"", "close", "close other", "unsubscribe", "second subscribe", "create"} {
		for _, qos := range []byte{0, 1, 2} {
			extra, qos := extra, qos
			if extra != "" && qos > 0 {
				continue
			}
			name := fmt.Sprintf("publishes at QoS %d right after the subscription is granted", qos)
			if extra != "" {
				name += ", concurrently " + extra
			}
			add(name, func(w *World) {
				c := w.Up("A")
				base, ch, other := c.CreateEventChannel(16), c.CreateEventChannel(16), c.CreateEventChannel(16)
				s := c.conn.srv
				s.onPacket = func(p *ref.Packet) {
					if p.Type == ref.SUBSCRIBE && p.Filters[0].Filter == "t" {
						s.hold = func(*ref.Packet) bool { return true }
						s.send(s.answer(p))
						s.send(publish(qos, 1, "t", "1"))
						s.send(publish(qos, 2, "x", "2"))
						s.send(publish(qos, 3, "t", "3"))
						return
					}
					s.hold = nil
				}
				c.StartLoop()
				var hs []*vs.Handle
				var err error
				hs = append(hs, w.T.Go("subscriber", func() { err = c.sub("t", &ch) }))
				switch extra {
				case "close":
					hs = append(hs, w.T.Go("closer", func() { c.CloseEventChannel(ch) }))
				case "close other":
					hs = append(hs, w.T.Go("closer", func() { c.CloseEventChannel(other) }))
				case "unsubscribe":
					hs = append(hs, w.T.Go("unsubscriber", func() { c.unsub("t") }))
				case "second subscribe":
					hs = append(hs, w.T.Go("subscriber2", func() { c.sub("u", &other) }))
				case "create":
					hs = append(hs, w.T.Go("creator", func() { c.CreateEventChannel(1) }))
				}
				for _, h := range hs {
					w.T.Join(h)
				}
				c.StopLoop()
				if err != nil {
					w.Bad("subscribe", "subscribing fails: %v", err)
				}
				w.only("the general channel", base, "1", "2", "3")
				switch extra {
				case "close", "unsubscribe":
					ev, closed := drain(ch)
					got := " " + strings.Join(payloads(ev), " ") + " "
					if strings.Count(got, " 1 ") > 1 || strings.Count(got, " 3 ") > 1 {
						w.Bad("duplicated", "the channel received %q", got)
					}
					if extra == "close" && !closed {
						w.Bad("closed", "the channel was closed but its events do not end")
					}
					if extra == "close" {
						w.doneOnce("the closed channel", ch, true)
						c.conn.Push(publish(0, 0, "t", "4"))
						c.pollOnce(time.Second)
						w.only("the general channel", base, "4")
					}
				default:
					ev, _ := drain(ch)
					got := " " + strings.Join(payloads(ev), " ") + " "
					if got != " 1 3 " && got != " 1 2 3 " {
						w.Bad("lost", "publishes arrived right after the subscription was granted; the channel received %q", got)
					}
					c.conn.Push(publish(0, 0, "x", "5"), publish(0, 0, "t", "6"))
					c.pollAll()
					w.only("the bound channel", ch, "6")
				}
				if extra == "close other" {
					w.doneOnce("the other channel", other, true)
				}
			})
		}
	}
	// Unsubscribing, closing and delivering at once.
	for _, closing := range []bool{false, true} {
		for _, both := range []bool{false, true} {
			closing, both := closing, both
			name := "unsubscribing during delivery"
			if closing {
				name += ", closing"
			}
			if both {
				name += ", bound twice"
			}
			add(name, func(w *World) {
				c := w.Up("A")
				base, ch, keep := c.CreateEventChannel(16), c.CreateEventChannel(8), c.CreateEventChannel(8)
				c.StartLoop()
				c.sub("t", &ch)
				c.sub("+", &keep)
				if both {
					c.sub("t/#", &ch)
				}
				c.StopLoop()
				c.stop = vs.Flag{}
				drain(base)
				drain(ch)
				drain(keep)
				c.StartLoop()
				hs := []*vs.Handle{w.T.Go("unsubscriber", func() {
					if err := c.unsub("t"); err != nil {
						w.Bad("unsubscribe", "unsubscribing fails: %v", err)
					}
				})}
				if closing {
					hs = append(hs, w.T.Go("closer", func() { c.CloseEventChannel(ch) }))
				}
				c.conn.Push(publish(0, 0, "t", "1"), publish(0, 0, "t", "2"))
				for _, h := range hs {
					w.T.Join(h)
				}
				c.StopLoop()
				w.only("the general channel", base, "1", "2")
				w.only("the other bound channel", keep, "1", "2")
				ev, closed := drain(ch)
				got := strings.Join(payloads(ev), " ")
				if both && !closing {
					if closed || got != "1 2" {
						w.Bad("closed", "the channel is still bound to another filter; it received %q, closed: %v", got, closed)
					}
					w.doneOnce("the channel", ch, false)
				} else {
					if got != "" && got != "1" && got != "1 2" {
						w.Bad("events", "the channel received %q", got)
					}
					w.doneOnce("the channel", ch, true)
				}
				w.doneOnce("the other channel", keep, false)
				c.conn.Push(publish(0, 0, "t", "3"))
				c.pollAll()
				w.only("the other bound channel", keep, "3")
			})
		}
	}
	// The end of the connection and everything else at once.
	add("disconnect during create, bind and close", func(w *World) {
		c := w.Up("A")
		base, ch := c.CreateEventChannel(16), c.CreateEventChannel(8)
		c.StartLoop()
		h1 := w.T.Go("subscriber", func() { c.sub("t", &ch) })
		h2 := w.T.Go("closer", func() { c.CloseEventChannel(ch) })
		c.disc()
		w.T.Join(h1)
		w.T.Join(h2)
		c.StopLoop()
		w.doneOnce("the closed channel", ch, true)
		w.doneOnce("the general channel", base, false)
	})
	// Channels come and go.
	for _, depth := range []int{6, 7} {
		depth := depth
		r = append(r, Scenario{Name: fmt.Sprintf("%d channels come and go", depth), Seq: true, Thorough: depth > 6, Body: func(w *World) {
			c := w.Up("A")
			x := &routing{w: w, c: c}
			x.create(4)
			for i := 0; i < depth && !w.T.Failed(); i++ {
				type move struct {
					name string
					run  func()
				}
				moves := []move{{"nothing more", func() { i = depth }}}
				open := 0
				for k, m := range x.chans {
					if m := m; !m.closed {
						open++
						moves = append(moves, move{fmt.Sprint("close ", k), func() { x.close(m) }})
						if !m.wasB {
							moves = append(moves, move{fmt.Sprint("bind ", k), func() { x.subscribe([]string{fmt.Sprint("f", k)}, []*mchan{m}, []byte{0}) }})
						}
					} else if k == 0 {
						moves = append(moves, move{"close 0 again", func() { x.c.CloseEventChannel(m.ch) }})
					}
				}
				if open < 4 {
					moves = append(moves, move{"create", func() { x.create(4) }})
				}
				m := moves[w.Choose(len(moves), "step")]
				w.T.Logf("step: %s", m.name)
				m.run()
				for _, m := range x.chans {
					drain(m.ch)
					m.queue = nil
				}
			}
			x.inbound(0, "t")
			for k := range x.chans {
				x.inbound(0, fmt.Sprint("f", k))
				x.settle()
			}
			for k, m := range x.chans {
				w.doneOnce(fmt.Sprint("channel ", k), m.ch, m.closed)
			}
		}})
	}
	// Full channels.
	add("full channels", func(w *World) {
		c := w.Up("A")
		full, bound, base := c.CreateEventChannel(1), c.CreateEventChannel(1), c.CreateEventChannel(16)
		c.StartLoop()
		c.sub("t", &bound)
		c.StopLoop()
		c.stop = vs.Flag{}
		drain(bound)
		drain(base)
		drain(full)
		c.StartLoop()
		h := w.T.Go("closer", func() { c.CloseEventChannel(full) })
		h2 := w.T.Go("closer2", func() { c.CloseEventChannel(bound) })
		c.conn.Push(publish(0, 0, "t", "1"), publish(0, 0, "t", "2"))
		w.T.Join(h)
		w.T.Join(h2)
		c.StopLoop()
		w.only("the general channel", base, "1", "2")
		w.doneOnce("the full channel", full, true)
		w.doneOnce("the bound channel", bound, true)
	})
	// Histories of two goroutines that manage channels.
	progs := []struct {
		name string
		run  func(c *Client, ch mqtt.EventChannel)
	}{
		{"create-close", func(c *Client, _ mqtt.EventChannel) { c.CloseEventChannel(c.CreateEventChannel(1)) }},
		{"close", func(c *Client, ch mqtt.EventChannel) { c.CloseEventChannel(ch) }},
		{"bind", func(c *Client, ch mqtt.EventChannel) { c.sub("t", &ch) }},
		{"bind-unbind", func(c *Client, ch mqtt.EventChannel) { c.sub("v", &ch); c.unsub("v") }},
		{"bind-close", func(c *Client, ch mqtt.EventChannel) { c.sub("w", &ch); c.CloseEventChannel(ch) }},
		{"unbind", func(c *Client, ch mqtt.EventChannel) { c.unsub("b") }},
	}
	for i, p := range progs {
		for _, q := range progs[i:] {
			p, q := p, q
			add(p.name+" and "+q.name+" on one channel", func(w *World) {
				c := w.Up("A")
				base, ch := c.CreateEventChannel(32), c.CreateEventChannel(16)
				c.StartLoop()
				if p.name == "unbind" || q.name == "unbind" {
					c.sub("b", &ch)
				}
				h1, h2 := w.T.Go(p.name, func() { p.run(c, ch) }), w.T.Go(q.name, func() { q.run(c, ch) })
				c.conn.Push(publish(0, 0, "t", "1"), publish(0, 0, "b", "2"))
				w.T.Join(h1)
				w.T.Join(h2)
				c.StopLoop()
				w.only("the general channel", base, "1", "2")
				ev, closed := drain(ch)
				seen := map[string]int{}
				for _, x := range payloads(ev) {
					if seen[x]++; seen[x] > 1 {
						w.Bad("duplicated", "the channel received %q", showAll(ev))
					}
				}
				must := strings.HasSuffix(p.name, "close") && p.name != "create-close" || strings.HasSuffix(q.name, "close") && q.name != "create-close"
				if must && !closed {
					w.Bad("closed", "the channel was closed but its events do not end")
				}
				if closed {
					w.doneOnce("the channel", ch, true)
				} else {
					w.doneOnce("the channel", ch, false)
				}
				c.conn.Push(publish(0, 0, "t", "3"), publish(0, 0, "b", "4"))
				c.pollAll()
				w.only("the general channel", base, "3", "4")
			})
		}
	}
	return
}

func init() {
	suites["E01"] = suite{scenarios: func(th bool) []Scenario { return append(routingScenarios(th), inboundKindScenarios()...) }}
	suites["E02"] = suite{scenarios: lifeScenarios}
}

var _ = context.Background
