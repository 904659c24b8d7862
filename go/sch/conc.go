package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"

	"verif/ref"
	"verif/vs"
)

// op is one of the documented concurrent uses of a client.
type op struct {
	name string
	run  func(w *World, c *Client)
}

// expect reports an operation that failed although nothing but the end of the connection can make it fail.
func (w *World) expect(c *Client, what string, err error) {
	if err != nil && !(errors.Is(err, mqtt.ErrClientNotConnected) && c.conn.ending()) {
		w.Bad("failed:"+what, "%s failed although the server answers everything: %v", what, err)
	}
}

func ops() []op {
	return []op{
		{"pub0", func(w *World, c *Client) { w.expect(c, "publish", c.pub(0, "a")) }},
		{"pub1", func(w *World, c *Client) { w.expect(c, "publish", c.pub(1, "b")) }},
		{"pub2", func(w *World, c *Client) { w.expect(c, "publish", c.pub(2, "c")) }},
		{"sub", func(w *World, c *Client) {
			ch := c.CreateEventChannel(1)
			w.expect(c, "subscribe", c.sub("s", &ch))
		}},
		{"unsub", func(w *World, c *Client) { w.expect(c, "unsubscribe", c.unsub("u")) }},
		{"keepalive", func(w *World, c *Client) { w.expect(c, "keep-alive", c.ping()) }},
		{"channel", func(w *World, c *Client) {
			ch := c.CreateEventChannel(1)
			c.CloseEventChannel(ch)
		}},
		{"query", func(w *World, c *Client) { c.IsConnected(); c.KeepAliveInterval() }},
		{"disconnect", func(w *World, c *Client) { w.expect(c, "disconnect", c.disc()) }},
	}
}

// twice are longer programs of one goroutine.
func twice() []op {
	return []op{
		{"pub1-pub2", func(w *World, c *Client) {
			w.expect(c, "publish", c.pub(1, "d"))
			w.expect(c, "publish", c.pub(2, "e"))
		}},
		{"pub0-pub0-ping", func(w *World, c *Client) {
			w.expect(c, "publish", c.pub(0, "f"))
			w.expect(c, "publish", c.pub(0, "g"))
			w.expect(c, "keep-alive", c.ping())
		}},
		{"sub-unsub", func(w *World, c *Client) {
			ch := c.CreateEventChannel(2)
			w.expect(c, "subscribe", c.sub("x", &ch))
			w.expect(c, "unsubscribe", c.unsub("x"))
		}},
		{"sub-close", func(w *World, c *Client) {
			ch := c.CreateEventChannel(2)
			w.expect(c, "subscribe", c.sub("y", &ch))
			c.CloseEventChannel(ch)
		}},
		{"sub-drain", func(w *World, c *Client) {
			ch := c.CreateEventChannel(2)
			w.expect(c, "subscribe", c.sub("t", &ch))
			drain(ch)
			w.expect(c, "publish", c.pub(0, "h"))
		}},
	}
}

// many are requests with several filters.
func many() []op {
	return []op{
		{"sub of 2 filters", func(w *World, c *Client) {
			ch := c.CreateEventChannel(1)
			w.expect(c, "subscribe", c.subs(&ch, "m", "n"))
		}},
		{"unsub of 2 filters", func(w *World, c *Client) { w.expect(c, "unsubscribe", c.unsub("m", "n")) }},
		{"unsub of 3 filters", func(w *World, c *Client) { w.expect(c, "unsubscribe", c.unsub("l", "m", "n")) }},
	}
}

// large are publishes that an implementation might write in pieces, or without a payload at all.
func large() (r []op) {
	for _, n := range []int{0, 300, 5000, 70000} {
		for q := byte(0); q < 3; q++ {
			n, q := n, q
			r = append(r, op{fmt.Sprintf("pub%d of %d bytes", q, n), func(w *World, c *Client) {
				w.expect(c, "publish", c.pub(q, strings.Repeat("X", n)))
			}})
		}
	}
	return
}

// mode selects the surroundings of concurrent operations.
type mode struct {
	name    string
	storage bool
	rm      int
	inbound bool // the server publishes meanwhile
	idle    int  // polls that wait for data
	end     bool // the server disconnects meanwhile
	eof     bool // the peer closes meanwhile
}

// together runs a poll loop and the operations, each in its own goroutine, against a responsive server.
func together(m mode, list ...op) Scenario {
	name := m.name
	for i, o := range list {
		if i > 0 {
			name += "+"
		} else {
			name += " "
		}
		name += o.name
	}
	return Scenario{Name: name, Body: func(w *World) {
		var opts []func(*Client, *packets.Connect)
		opts = append(opts, withKeepAlive(600))
		if m.storage {
			opts = append(opts, withStore(w.NewStore()))
		}
		if m.rm > 0 {
			opts = append(opts, withRM(m.rm))
		}
		c := w.Up("A", opts...)
		c.idle = m.idle
		base := c.CreateEventChannel(16)
		c.StartLoop()
		var hs []*vs.Handle
		for _, o := range list {
			o := o
			hs = append(hs, w.T.Go(o.name, func() { o.run(w, c) }))
		}
		if m.inbound {
			hs = append(hs, w.T.Go("server", func() {
				c.conn.Push(publish(1, 7, "t", "in1"), publish(2, 8, "s", "in2"), publish(0, 0, "x", "in0"))
			}))
		}
		if m.end {
			hs = append(hs, w.T.Go("server", func() {
				c.conn.Push(&ref.Packet{Type: ref.DISCONNECT, Reason: 0x8b, HasReason: true})
				c.conn.CloseByPeer()
			}))
		}
		if m.eof {
			hs = append(hs, w.T.Go("peer", func() { c.conn.CloseByPeer() }))
		}
		for _, h := range hs {
			w.T.Join(h)
		}
		c.StopLoop()
		audit(w, c)
		var events []*mqtt.Event
		events, _ = drain(base)
		_ = events
	}}
}

// audit compares what the server received with what the goroutines did.
func audit(w *World, c *Client) {
	s := c.conn.srv
	if s.broken {
		return
	}
	wire := map[string]int{}
	for _, p := range s.recv {
		switch p.Type {
		case ref.PUBLISH:
			wire[strings.TrimSuffix("PUBLISH "+string(p.Payload), " ")]++
		case ref.SUBSCRIBE, ref.UNSUBSCRIBE:
			wire[names[p.Type]+" "+p.Filters[0].Filter]++
		default:
			wire[names[p.Type]]++
		}
	}
	want := map[string]int{"CONNECT": 1}
	may := map[string]int{}
	for _, a := range c.acts {
		k := a.kind
		if a.arg != "" {
			k += " " + a.arg
		}
		if a.err == nil {
			want[k]++
		} else {
			may[k]++
		}
	}
	ended := c.conn.ending()
	// acknowledgements: one for each packet that the client has read
	for i := range s.sent {
		p := s.sent[i]
		if k := reaction(p); k != "" {
			if p.read && !ended {
				want[k]++
			} else {
				may[k]++
			}
		}
	}
	var keys []string
	for k := range wire {
		keys = append(keys, k)
	}
	for k := range want {
		if wire[k] == 0 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		if wire[k] < want[k] || wire[k] > want[k]+may[k] {
			w.Fail("W01", "actions", "the server received %d times %q, but the client did it %d times (and failed %d times): %v",
				wire[k], k, want[k], may[k], s.dump())
		}
	}
	// program order
	// (two goroutines may run the same action, so the order is one of counts)
	for _, order := range [][2]string{{"d", "e"}, {"f", "g"}} {
		lead := 0
		for _, p := range s.recv {
			if p.Type != ref.PUBLISH {
				continue
			}
			switch string(p.Payload) {
			case order[0]:
				lead++
			case order[1]:
				if lead--; lead < 0 {
					w.Fail("W01", "order", "publishes of one goroutine are out of order: %v", s.dump())
				}
			}
		}
	}
}

var names = map[byte]string{ref.CONNECT: "CONNECT", ref.PUBLISH: "PUBLISH", ref.PUBACK: "PUBACK", ref.PUBREC: "PUBREC", ref.PUBREL: "PUBREL",
	ref.PUBCOMP: "PUBCOMP", ref.SUBSCRIBE: "SUBSCRIBE", ref.UNSUBSCRIBE: "UNSUBSCRIBE", ref.PINGREQ: "PINGREQ", ref.DISCONNECT: "DISCONNECT", ref.AUTH: "AUTH"}

// reaction names the packet the client answers an inbound packet with.
func reaction(p *inPacket) string {
	switch p.pk.Type {
	case ref.PUBLISH:
		switch p.pk.QoS() {
		case 1:
			return "PUBACK"
		case 2:
			return "PUBREC"
		}
	case ref.PUBREC:
		if p.pk.Reason < 0x80 {
			return "PUBREL"
		}
	case ref.PUBREL:
		return "PUBCOMP"
	}
	return ""
}

var (
	plain   = mode{name: "plain"}
	stored  = mode{name: "storage+inbound", storage: true, inbound: true}
	narrow  = mode{name: "receive maximum 1", rm: 1}
	waiting = mode{name: "idle polls", idle: 2}
	ending  = mode{name: "server disconnects", end: true}
	broken  = mode{name: "peer closes", eof: true}
)

// concurrent lists the closed programs of concurrent use.
func concurrent(thorough bool) (r []Scenario) {
	l := append(ops(), twice()...)
	for _, m := range []mode{plain, narrow, waiting, ending, broken} {
		for i := range l {
			for j := i; j < len(l); j++ {
				r = append(r, together(m, l[i], l[j]))
			}
		}
	}
	l = ops()
	for i := range l {
		r = append(r, together(stored, l[i]))
		for j := i; j < len(l); j++ {
			s := together(stored, l[i], l[j])
			s.Thorough = l[i].name[:3] == "sub" || l[i].name == "unsub" || l[j].name == "sub" || l[j].name == "unsub"
			r = append(r, s)
		}
	}
	// large packets
	for _, big := range large() {
		for _, o := range append(ops(), big) {
			r = append(r, together(plain, big, o))
		}
		r = append(r, together(stored, big))
	}
	// requests with several filters
	for i, o := range many() {
		for _, m := range []mode{plain, ending} {
			for _, x := range append(ops(), many()[i:]...) {
				s := together(m, o, x)
				s.Thorough = m.end && (i == 2 || x.name != "pub0" && x.name != "keepalive" && x.name != "disconnect")
				r = append(r, s)
			}
		}
		r = append(r, together(stored, o))
	}
	// three at once
	for i := range l {
		for j := i; j < len(l); j++ {
			for k := j; k < len(l); k++ {
				s := together(plain, l[i], l[j], l[k])
				heavy := 0
				for _, x := range []int{i, j, k} {
					if n := l[x].name; n == "sub" || n == "unsub" || n == "pub2" {
						heavy++
					}
				}
				s.Thorough = heavy > 1
				r = append(r, s)
				if m := narrow; l[i].name[:3] == "pub" && l[j].name[:3] == "pub" && l[k].name[:3] == "pub" {
					r = append(r, together(m, l[i], l[j], l[k]))
				}
			}
		}
	}
	return
}

// connecting runs Connect concurrently with other operations.
func connecting() (r []Scenario) {
	for _, o := range ops() {
		o := o
		r = append(r, Scenario{Name: "connect+" + o.name, Body: func(w *World) {
			c := w.NewClient("A")
			h := w.T.Go(o.name, func() {
				switch o.name {
				case "pub0":
					c.pub(0, "a")
				case "pub1":
					c.pub(1, "b")
				case "pub2":
					c.pub(2, "c")
				case "sub":
					ch := c.CreateEventChannel(1)
					c.sub("s", &ch)
				case "unsub":
					c.unsub("u")
				case "keepalive":
					c.ping()
				case "disconnect":
					c.disc()
				default:
					o.run(w, c)
				}
			})
			p := w.T.Go("poll", func() { c.pollOnce(time.Second) })
			ctx, cancel := within(10 * time.Second)
			c.Connect(ctx, connectPacket())
			cancel()
			c.StartLoop()
			w.T.Join(h)
			w.T.Join(p)
			c.StopLoop()
			audit(w, c)
		}})
	}
	return
}

func init() {
	all := func(th bool) []Scenario { return append(concurrent(th), connecting()...) }
	suites["D01"] = suite{scenarios: all}
	suites["W01"] = suite{scenarios: func(th bool) []Scenario { return append(all(th), faultScenarios(th)...) }}
	suites["D02"] = suite{scenarios: func(th bool) (r []Scenario) {
		for _, s := range append(all(th), concurrentFaults()...) {
			s.Race = true
			r = append(r, s)
		}
		return
	}}
}

var _ = fmt.Sprint
