package main

import (
	"strings"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	"github.com/waj334/tinygo-mqtt/mqtt/storage/memory"

	"verif/ref"
)

// Dresses are what a server may do differently without changing what its packets mean to the flows of the client: every
// sequential scenario runs with each of them.
type dress struct {
	name    string
	packet  func(n int, p *ref.Packet)
	trickle bool
	slow    bool
	fails   bool
	both    bool                     // also for concurrent scenarios
	publish func(p *packets.Publish) // what the client publishes
	connect func(p *packets.Connect)
	codes   bool // changes reason codes
	fault   int
	client  func(w *World, c *Client)
	upped   func(w *World, c *Client)
}

func acknowledges(p *ref.Packet) bool {
	return p.Type >= ref.PUBACK && p.Type <= ref.PUBCOMP
}

func dup(n int, p *ref.Packet) {
	if p.Type == ref.PUBLISH && p.QoS() > 0 {
		p.Flags |= 8
	}
}

func retained(n int, p *ref.Packet) {
	if p.Type == ref.PUBLISH {
		p.Flags |= 1
	}
}

func rich(n int, p *ref.Packet) {
	if len(p.Props) > 0 {
		return
	}
	user := ref.Prop{ID: 0x26, S: "k", V: "v"}
	switch p.Type {
	case ref.PUBLISH:
		p.Props = []ref.Prop{{ID: 1, Num: 1}, {ID: 2, Num: 1}, {ID: 3, S: "text"}, {ID: 8, S: "r/t"}, {ID: 9, S: "corr"}, {ID: 11, Num: 300}, user}
	case ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP, ref.SUBACK, ref.UNSUBACK, ref.DISCONNECT:
		p.HasReason = true
		p.HasProps = true
		p.Props = []ref.Prop{{ID: 31, S: "because"}, user}
	}
}

func explicit(n int, p *ref.Packet) {
	if acknowledges(p) || p.Type == ref.DISCONNECT {
		p.HasReason = true
		p.HasProps = n%2 == 0 || len(p.Props) > 0
	}
}

// unusual uses the reason codes that do not say "success" and are no refusals either, as far as there are any.
func unusual(n int, p *ref.Packet) {
	switch {
	case acknowledges(p) && p.Reason == 0:
		p.HasReason, p.Reason = true, 0x10
		if p.Type >= ref.PUBREL {
			p.Reason = 0x92
		}
	case p.Type == ref.UNSUBACK:
		p.Codes = append([]byte{}, p.Codes...)
		for i, code := range p.Codes {
			if code == 0 {
				p.Codes[i] = 0x11
			}
		}
	}
}

func every(n int, p *ref.Packet) {
	if n%2 == 0 {
		dup(n, p)
		rich(n, p)
	} else {
		retained(n, p)
		explicit(n, p)
	}
}

// session makes the CONNACK of a resumed session that states everything.
func session(n int, p *ref.Packet) {
	if p.Type != ref.CONNACK {
		return
	}
	if p.Reason >= 0x80 {
		p.HasProps = true
		p.Props = append([]ref.Prop{{ID: 0x1f, S: "sorry"}, {ID: 0x26, S: "k", V: "v"}, {ID: 0x1c, S: "other.example:1883"}}, p.Props...)
		return
	}
	p.AckFlags, p.HasProps = 1, true
	p.Props = append([]ref.Prop{{ID: 0x11, Num: 100}, {ID: 0x25, Num: 1}, {ID: 0x27, Num: 100000}, {ID: 0x22, Num: 10}, {ID: 0x1f, S: "fine"},
		{ID: 0x26, S: "k", V: "v"}, {ID: 0x28, Num: 1}, {ID: 0x29, Num: 1}, {ID: 0x2a, Num: 1}, {ID: 0x1a, S: "info"}}, p.Props...)
}

func richPublish(p *packets.Publish) {
	p.Retain = true
	p.MessageExpiryInterval = 60
	p.ResponseTopic = "r/t"
	p.CorrelationData = "corr"
	p.ContentType = "text"
	p.UserProperties = primitives.PrimitiveStringMap{"k": "v"}
}

func richConnect(p *packets.Connect) {
	p.Username, p.Password = "user", "secret"
	p.Will, p.WillTopic, p.WillQos, p.WillRetain = "bye", "will", 1, true
	p.RequestProblemInformation = 1
	p.TopicAliasMaximum = 5
	p.MaximumPacketSize = 100000
	if p.SessionExpiryInterval == 0 {
		p.SessionExpiryInterval = 100
	}
	p.UserProperties = primitives.PrimitiveStringMap{"k": "v"}
	if p.ReceiveMaximum == 0 && !inboundLimit {
		p.ReceiveMaximum = 1000
	}
}

// inboundLimit is set when the Receive Maximum that the client announces is part of the scenario.
var inboundLimit bool

// withMemory gives the client a store.
func withMemory(w *World, c *Client) { c.SetStorage(memory.NewStorage()) }

// channels makes the client have two event channels more.
func channels(w *World, c *Client) {
	for i := 0; i < 2; i++ {
		c.CreateEventChannel(200)
	}
}

// repeating draws every identifier three times in a row, starting with the last one before the counter starts anew.
func repeating(w *World, c *Client) {
	n := uint32(0)
	c.SetRngFn(func() uint32 {
		n++
		return 0x2ffff + (n-1)/3
	})
}

// what the helpers of the scenarios apply; each worker process runs one scenario
var (
	dressPublish func(p *packets.Publish)
	dressConnect func(p *packets.Connect)
	dressClient  func(w *World, c *Client)
	dressUpped   func(w *World, c *Client)
)

var dresses = []dress{
	{name: "publishes marked as duplicates", packet: dup},
	{name: "publishes never marked as duplicates", packet: func(n int, p *ref.Packet) {
		if p.Type == ref.PUBLISH {
			p.Flags &^= 8
		}
	}},
	{name: "retained publishes", packet: retained},
	{name: "retained duplicates", packet: func(n int, p *ref.Packet) { dup(n, p); retained(n, p) }},
	{name: "unusual reason codes", packet: unusual, codes: true},
	{name: "properties everywhere", packet: rich},
	{name: "explicit reason codes", packet: explicit},
	{name: "mixed", packet: every, both: true},
	{name: "closing fails", fails: true},
	{name: "the client publishes retained messages with properties", both: true, publish: richPublish},
	{name: "a resumed session with everything", packet: session, both: true, connect: richConnect},
	{name: "byte by byte", trickle: true},
	{name: "slow writes", slow: true},
	{name: "with storage", both: true, client: withMemory},
	{name: "other event channels", both: true, client: channels},
	{name: "failures of another kind", fault: 1},
	{name: "failures of a third kind", fault: 2},
	{name: "an idle poll first", both: true, upped: func(w *World, c *Client) { c.pollOnce(time.Second) }},
	{name: "repeating identifiers", both: true, client: repeating},
}

// dressUp makes the variants of a scenario.
func dressUp(prop string, s Scenario) (r []Scenario) {
	if s.Keep || s.Horizon != 0 || s.Bare || s.Race || s.CB {
		return
	}
	for _, d := range dresses {
		d := d
		if d.fails && strings.Contains("F03 L01 L02 E01 K01 I01", prop) {
			continue // the error of closing takes the place of the one these expect
		}
		if d.slow && strings.Contains("F01 F02 Q02 E01 R01 X01 I01", prop) {
			continue // these expect that what can happen at once does
		}
		if d.name == "with storage" && prop == "Q01" && strings.HasPrefix(s.Name, "history ") {
			continue // these come with and without
		}
		if d.name == "repeating identifiers" && prop == "D02" {
			continue // the generator is not made for concurrent use
		}
		if d.fault != 0 && strings.Contains("T01 S01 D01 D02 E01 E02 K01 X01 X02 I01 W01 F01 F03", prop) {
			continue // nothing fails in these, or close only
		}
		if d.upped != nil && prop == "K01" {
			continue // time passes, which is what these measure
		}
		if d.codes && (prop == "E01" || strings.HasPrefix(s.Name, "every ") || strings.HasPrefix(s.Name, "sequences ")) {
			continue // these compare reason codes themselves
		}
		v := s
		v.Name += "; " + d.name
		v.Body = func(w *World) {
			w.closeFails, dressPublish, dressConnect, dressClient, dressUpped = d.fails, d.publish, d.connect, d.client, d.upped
			w.faultKind = d.fault
			w.dress, w.trickle = d.packet, d.trickle
			inboundLimit = prop == "F03"
			if d.slow {
				w.slow = 10 * time.Millisecond
			}
			s.Body(w)
		}
		if s.Heavy {
			v.Thorough = true
		}
		if !s.Seq {
			// Concurrent scenarios: three variants, with all schedules that deviate at most once from the default one.
			if !d.both {
				continue
			}
			v.Name += " (one deviation)"
			v.CB, v.Deviate, v.Preempt = true, true, 1
		}
		r = append(r, v)
	}
	return
}
