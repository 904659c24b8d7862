package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"

	"verif/ref"
	"verif/vs"
)

// ---- I01 -----------------------------------------------------------------------------------------------------------

// program is what the application does with one client, in one goroutine. Its observations depend on nothing else.
type program struct {
	name    string
	storage bool
	run     func(p *player)
}

// observation is something a program observes.
type observation struct {
	format string
	args   []any
}

// lazily is a value that is computed when it is printed.
type lazily func() string

func (f lazily) String() string { return f() }

func render(l []observation) (r []string) {
	for _, o := range l {
		r = append(r, fmt.Sprintf(o.format, o.args...))
	}
	return
}

// full shows everything about an event.
func full(l []*mqtt.Event) (s string) {
	for _, e := range l {
		if e == nil {
			s += " nil"
			continue
		}
		s += " " + show(e)
		if d, ok := e.Data.(*packets.Publish); ok {
			s += fmt.Sprintf(" %v %v %d %d %d %q %q %v %d %q", d.Retain, d.Duplicate, d.PacketIdentifier, d.MessageExpiryInterval, d.TopicAlias, d.ResponseTopic,
				d.CorrelationData, d.UserProperties, d.SubscriptionIdentifier, d.ContentType)
		}
	}
	return
}

// player runs a program.
type player struct {
	w    *World
	c    *Client
	tag  string
	seed uint32
	out  []observation
	chs  []mqtt.EventChannel
	errs []error
}

func (p *player) note(format string, args ...any) {
	// Formatting waits until both programs are over: package fmt hands its buffers from goroutine to goroutine, which the
	// race detector takes for synchronisation.
	p.out = append(p.out, observation{format, args})
}

// poll handles what has arrived.
func (p *player) poll() {
	for n := 0; p.c.conn.Available() && !p.c.conn.closed && n < 50; n++ {
		p.note("poll: %v", p.c.pollOnce(time.Second))
	}
}

// request runs a call that waits for the server with a poll loop next to it.
func (p *player) request(name string, call func() error) {
	p.c.stop = vs.Flag{}
	p.c.poller = p.w.T.Go(p.tag+" poll", p.c.Loop)
	p.note("%s: %v", name, call())
	p.c.StopLoop()
}

func (p *player) drain() {
	for i, ch := range p.chs {
		all, closed := drain(ch)
		var ev []*mqtt.Event
		for _, e := range all {
			// Whether the channel of a subscription sees the acknowledgement depends on the order of two goroutines.
			if i == 0 || e == nil || e.PacketType == packets.PUBLISH {
				ev = append(ev, e)
			}
		}
		p.note("channel %d: %v closed %v", i, lazily(func() string { return full(ev) }), closed)
	}
}

// play connects the client, runs the program and returns everything that can be observed.
func (w *World) play(pr program, tag string, n int, same bool) []observation {
	p := &player{w: w, tag: tag, seed: uint32(10 * n)}
	if same {
		p.seed = 10
	}
	c := w.NewClient(tag)
	p.c = c
	if pr.storage {
		c.store = w.NewStore()
		c.SetStorage(c.store)
	}
	c.SetRngFn(func() uint32 { p.seed++; return p.seed })
	p.chs = append(p.chs, c.CreateEventChannel(8))
	pk := connectPacket()
	if !same {
		pk.ClientId = primitives.PrimitiveString(tag)
	}
	pk.KeepAlive = 60
	if n == 2 {
		pk.ReceiveMaximum = 2
	}
	c.conn.srv.connack = &ref.Packet{Type: ref.CONNACK, HasProps: true, Props: []ref.Prop{prop16(0x21, uint16(n)), prop16(0x13, uint16(100*n)), {ID: 0x1f, S: "hello " + tag}}}
	p.note("connect: %v", c.dial(pk, 10*time.Second))
	p.note("keep-alive interval: %v", c.KeepAliveInterval())
	pr.run(p)
	p.drain()
	p.note("connected: %v", c.IsConnected())
	p.note("sent: %x", c.conn.tx)
	if c.store != nil {
		p.note("stored: %s", lazily(c.store.contents))
	}
	return p.out
}

func programs() []program {
	pubs := func(p *player) {
		p.note("publish: %v", p.c.pub(0, p.tag+" zero"))
		p.note("publish: %v", p.c.pub(1, p.tag+" one"))
		p.poll()
		p.note("publish: %v", p.c.pub(2, p.tag+" two"))
		p.poll()
		p.poll()
	}
	inbound := func(p *player) {
		full := publish(2, 9, "t/"+p.tag, "payload for "+p.tag)
		full.HasProps, full.Props = true, []ref.Prop{{ID: 0x03, S: "type " + p.tag}, {ID: 0x26, S: "k" + p.tag, V: "v" + p.tag}, {ID: 0x09, S: p.tag}}
		p.c.conn.Push(publish(1, 5, "t", "one "+p.tag), full, publish(0, 0, "s", p.tag))
		p.poll()
		p.poll()
	}
	subs := func(p *player) {
		ch := p.c.CreateEventChannel(4)
		p.chs = append(p.chs, ch)
		p.request("subscribe", func() error { return p.c.sub("s/+", &ch) })
		p.c.conn.Push(publish(0, 0, "s/1", "for "+p.tag), publish(0, 0, "q", "general "+p.tag))
		p.poll()
		p.request("unsubscribe", func() error { return p.c.unsub("s/+") })
		p.c.conn.Push(publish(0, 0, "s/1", "late "+p.tag))
		p.poll()
	}
	bound := func(p *player) {
		ch, ch2 := p.c.CreateEventChannel(4), p.c.CreateEventChannel(4)
		p.request("subscribe", func() error { return p.c.sub("s/+", &ch) })
		p.request("subscribe", func() error { return p.c.sub("u", &ch2) })
		p.c.CloseEventChannel(p.chs[0])
		drain(p.chs[0])
		drain(ch)
		drain(ch2)
		p.chs = append(p.chs[:0], ch, ch2)
		p.c.conn.Push(publish(0, 0, "q", "nobody"), publish(0, 0, "s/1", "one "+p.tag), publish(0, 0, "u", "two "+p.tag), publish(0, 0, "q", "nobody"), publish(0, 0, "s/3", "three "+p.tag))
		p.poll()
	}
	pings := func(p *player) {
		p.note("ping: %v", p.c.ping())
		p.poll()
		p.note("ping: %v", p.c.ping())
		p.poll()
		p.note("publish: %v", p.c.pub(1, p.tag))
		p.note("disconnect: %v", p.c.disc())
		p.note("publish: %v", p.c.pub(1, p.tag))
	}
	failing := func(p *player) {
		p.c.conn.PushBytes([]byte{0x40, 3, 0, 1, 0xff, 0x42, 2, 0, 1})
		p.poll()
		p.c.conn.Push(&ref.Packet{Type: ref.DISCONNECT, Reason: 0x8b, HasReason: true, HasProps: true, Props: []ref.Prop{{ID: 0x1f, S: "bye " + p.tag}}})
		p.poll()
		p.note("publish: %v", p.c.pub(1, p.tag))
		p.note("poll: %v", p.c.pollOnce(time.Second))
	}
	quota := func(p *player) {
		p.c.conn.srv.hold = func(x *ref.Packet) bool { return x.Type == ref.PUBLISH }
		p.note("publish: %v", p.c.pub(1, p.tag+" one"))
		ctx, cancel := within(time.Second)
		p.note("publish: %v", p.c.Publish(ctx, newPublish(2, "t", p.tag+" two")))
		cancel()
		p.c.conn.srv.hold = nil
		for len(p.c.conn.srv.held) > 0 {
			p.c.conn.Push(p.c.conn.srv.answerHeld(0))
		}
		p.poll()
		p.note("publish: %v", p.c.pub(1, p.tag+" three"))
		p.poll()
	}
	return []program{{"publishing", false, pubs}, {"publishing with storage", true, pubs}, {"receiving", false, inbound}, {"receiving with storage", true, inbound},
		{"subscribing", false, subs}, {"receiving on bound channels only", false, bound}, {"pinging", false, pings}, {"failing", false, failing}, {"waiting for slots", true, quota}}
}

// isolated runs two programs together and compares what they observe with what they observe alone.
func isolated(a, b program, mode string, same, th bool) Scenario {
	solo := make([][]string, 2)
	s := Scenario{Bare: true, Name: a.name + " and " + b.name}
	switch mode {
	case "preempt":
		s.Name += ", preemptions"
		s.CB, s.Deviate, s.Preempt = true, true, 2
	case "one after the other":
		s.Name += ", one after the other"
		s.Seq = true
	}
	if same {
		if !th {
			s.Preempt = min(s.Preempt, 1)
		}
		s.Name += ", same identifiers"
	}
	s.Setup = func() {
		for i, pr := range []program{a, b} {
			i, pr := i, pr
			e := &vs.Explorer{Name: "alone", NoSched: true, Horizon: 20000, Body: func(t *vs.T) {
				solo[i] = render((&World{T: t, prop: "I01"}).play(pr, string(rune('A'+i)), i+1, same))
			}}
			e.Run()
		}
	}
	s.Body = func(w *World) {
		out := make([][]observation, 2)
		progs := []program{a, b}
		first := 0
		if mode == "one after the other" {
			first = w.Choose(2, "first")
		}
		if mode == "one after the other" {
			for _, i := range []int{first, 1 - first} {
				out[i] = w.play(progs[i], string(rune('A'+i)), i+1, same)
			}
		} else {
			var hs []*vs.Handle
			for i := range progs {
				i := i
				hs = append(hs, w.T.Go(string(rune('A'+i)), func() { out[i] = w.play(progs[i], string(rune('A'+i)), i+1, same) }))
			}
			for _, h := range hs {
				w.T.Join(h)
			}
		}
		for i := range out {
			if x, y := strings.Join(render(out[i]), "\n"), strings.Join(solo[i], "\n"); x != y {
				w.Bad("influence", "client %d (%s) observes, next to a client that is %s,\n%s\nbut alone\n%s", i+1, progs[i].name, progs[1-i].name, x, y)
			}
		}
	}
	return s
}

func isolationScenarios(th bool) (r []Scenario) {
	ps := programs()
	for i := range ps {
		for j := i; j < len(ps); j++ {
			for _, m := range []string{"", "preempt", "one after the other"} {
				r = append(r, isolated(ps[i], ps[j], m, true, th))
				s := isolated(ps[i], ps[j], m, false, th)
				r = append(r, s)
				if m == "" {
					s.Race = true
					r = append(r, s)
				}
			}
		}
	}
	return
}

func init() {
	suites["I01"] = suite{scenarios: isolationScenarios}
}
