package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"

	"verif/ref"
	"verif/vs"
)

// World is one execution of a scenario.
type World struct {
	T     *vs.T
	prop  string
	conns []*Conn

	resetOnWrite bool // writing after the peer closed fails
	torn         bool // the scenario cuts writes: an incomplete packet at the end is expected
	finals       []func()
	dress        func(n int, p *ref.Packet) // what a server may add to its packets without changing their meaning here
	dressed      int
	faultKind    int           // which errors injected faults are
	closeFails   bool          // closing the connection works but reports an error
	trickle      bool          // reading yields one byte at a time
	slow         time.Duration // how long a write takes
}

// Fail reports an oracle violation of a property. Monitors report for the property they watch; only the property under
// check counts.
func (w *World) Fail(prop, sig, format string, args ...any) {
	if prop == w.prop {
		w.T.Fail(prop+":"+sig, prop+": "+format, args...)
	}
}

// Bad reports a violation of the property under check.
func (w *World) Bad(sig, format string, args ...any) { w.Fail(w.prop, sig, format, args...) }

func (w *World) Choose(n int, label string) int { return w.T.Choose(n, label) }

// finish runs the end-of-execution checks.
func (w *World) finish() {
	for _, f := range w.finals {
		f()
	}
	for _, c := range w.conns {
		if len(c.part) > 0 && !w.torn {
			w.Fail("W01", "incomplete", "%s: the client left an incomplete packet on the wire: %x", c.name, c.part)
		}
	}
}

// ---- contexts ------------------------------------------------------------------------------------------------------

func within(d time.Duration) (context.Context, context.CancelFunc) {
	return vs.WithTimeout(context.Background(), d)
}

// ---- client --------------------------------------------------------------------------------------------------------

// Client is a client under test with its connection.
type Client struct {
	*mqtt.Client
	w     *World
	conn  *Conn
	stop  vs.Flag
	polls int

	pollErrs []error
	idle     int // idle polls the poll loop may still take
	poller   *vs.Handle
	onPoll   func(err error)
	store    *Store
	acts     []act
}

// act is an operation the scenario performed.
type act struct {
	kind, arg string
	err       error
}

func (c *Client) did(kind, arg string, err error) error {
	c.acts = append(c.acts, act{kind, arg, err})
	return err
}

func (w *World) NewClient(name string) *Client {
	conn := w.NewConn(name)
	c := &Client{Client: mqtt.NewClient(conn), w: w, conn: conn}
	if dressClient != nil {
		dressClient(w, c)
	}
	return c
}

func connectPacket() *packets.Connect {
	p := &packets.Connect{Version: packets.MQTT5, ClientId: "c"}
	if dressConnect != nil {
		dressConnect(p)
	}
	return p
}

// Up makes a connected client.
func (w *World) Up(name string, opts ...func(c *Client, p *packets.Connect)) *Client {
	c := w.NewClient(name)
	p := connectPacket()
	for _, o := range opts {
		o(c, p)
	}
	ctx, cancel := within(10 * time.Second)
	err := c.Connect(ctx, p)
	cancel()
	if err != nil {
		w.T.Fail("setup", "the scenario could not connect: %v", err)
	}
	if dressUpped != nil {
		dressUpped(w, c)
	}
	return c
}

// withRM sets the server's Receive Maximum.
func withRM(n int) func(c *Client, p *packets.Connect) {
	return func(c *Client, p *packets.Connect) {
		if n > 0 {
			c.conn.srv.recvMax = n
			c.conn.srv.connack = &ref.Packet{Type: ref.CONNACK, HasProps: true, Props: []ref.Prop{{ID: 0x21, Num: uint32(n)}}}
		}
	}
}

// pollOnce polls with a deadline.
func (c *Client) pollOnce(d time.Duration) error {
	ctx, cancel := within(d)
	c.polls++
	err := c.Poll(ctx)
	cancel()
	c.w.T.Logf("poll: %v", err)
	if err != nil {
		c.pollErrs = append(c.pollErrs, err)
	}
	if c.onPoll != nil {
		c.onPoll(err)
	}
	return err
}

// Loop is a poll loop: it polls whenever data is there, plus a bounded number of idle polls at any other time, until
// the client is stopped or its connection ended.
func (c *Client) Loop() {
	for {
		if c.idle > 0 {
			c.idle--
		} else {
			vs.Wait("poll loop waits for data", func() bool { return c.conn.Available() || c.stop.Up() }, c.conn.nextArrival, &c.conn.data, &c.stop)
			if !c.conn.Available() {
				return
			}
		}
		if err := c.pollOnce(time.Second); err != nil {
			if errors.Is(err, mqtt.ErrClientNotConnected) || c.conn.closed {
				return
			}
			if c.polls > 400 {
				c.w.T.Fail("poll-loop", "polling does not make progress: %v", err)
				return
			}
		} else if c.conn.closed {
			return
		}
	}
}

// StartLoop starts the poll loop in its own thread.
func (c *Client) StartLoop() { c.poller = c.w.T.Go("poll", c.Loop) }

// StopLoop ends the poll loop once it has handled everything that arrived.
func (c *Client) StopLoop() {
	c.stop.Raise()
	c.w.T.Join(c.poller)
}

// ---- operations ----------------------------------------------------------------------------------------------------

func newPublish(qos byte, topic, payload string) *packets.Publish {
	p := &packets.Publish{}
	p.Topic = primitives.PrimitiveString(topic)
	p.QoS = packets.QoS(qos)
	p.Payload = []byte(payload)
	if dressPublish != nil {
		dressPublish(p)
	}
	return p
}

func (c *Client) pub(qos byte, payload string) error {
	ctx, cancel := within(30 * time.Second)
	defer cancel()
	err := c.Publish(ctx, newPublish(qos, "t", payload))
	c.w.T.Logf("publish q%d %s: %v", qos, payload, err)
	return c.did("PUBLISH", payload, err)
}

func topic(filter string, qos byte, ch *mqtt.EventChannel) mqtt.Topic {
	t := mqtt.Topic{}
	t.SetFilter(filter)
	t.SetQoS(packets.QoS(qos))
	if ch != nil {
		t.SetEventChannel(*ch)
	}
	return t
}

func (c *Client) sub(filter string, ch *mqtt.EventChannel) error {
	ctx, cancel := within(30 * time.Second)
	defer cancel()
	err := c.Subscribe(ctx, []mqtt.Topic{topic(filter, 0, ch)})
	c.w.T.Logf("subscribe %s: %v", filter, err)
	return c.did("SUBSCRIBE", filter, err)
}

func (c *Client) subs(ch *mqtt.EventChannel, filters ...string) error {
	ctx, cancel := within(30 * time.Second)
	defer cancel()
	var l []mqtt.Topic
	for _, f := range filters {
		l = append(l, topic(f, 0, ch))
	}
	err := c.Subscribe(ctx, l)
	c.w.T.Logf("subscribe %v: %v", filters, err)
	return c.did("SUBSCRIBE", filters[0], err)
}

func (c *Client) unsub(filters ...string) error {
	ctx, cancel := within(30 * time.Second)
	defer cancel()
	err := c.Unsubscribe(ctx, filters)
	c.w.T.Logf("unsubscribe %v: %v", filters, err)
	return c.did("UNSUBSCRIBE", filters[0], err)
}

func (c *Client) ping() error {
	err := c.KeepAlive()
	c.w.T.Logf("keep alive: %v", err)
	return c.did("PINGREQ", "", err)
}

func (c *Client) disc() error {
	ctx, cancel := within(30 * time.Second)
	defer cancel()
	err := c.Disconnect(ctx, false)
	c.w.T.Logf("disconnect: %v", err)
	return c.did("DISCONNECT", "", err)
}

// ---- events --------------------------------------------------------------------------------------------------------

// drain takes everything from an event channel; closed reports whether it was closed.
func drain(ch mqtt.EventChannel) (events []*mqtt.Event, closed bool) {
	for {
		e, ok, got := vs.TryRecv(ch.C)
		if !got {
			return events, false
		}
		if !ok {
			return events, true
		}
		events = append(events, e)
	}
}

// show names an event.
func show(e *mqtt.Event) string {
	if e == nil {
		return "<nil>"
	}
	switch d := e.Data.(type) {
	case *packets.Publish:
		return fmt.Sprintf("PUBLISH(q%d %s %s)", d.QoS, d.Topic, d.Payload)
	case *packets.Puback:
		return fmt.Sprintf("PUBACK(%d %#x)", d.PacketIdentifier, byte(d.ReasonCode))
	case *packets.Pubrec:
		return fmt.Sprintf("PUBREC(%d %#x)", d.PacketIdentifier, byte(d.ReasonCode))
	case *packets.Pubrel:
		return fmt.Sprintf("PUBREL(%d %#x)", d.PacketIdentifier, byte(d.ReasonCode))
	case *packets.Pubcomp:
		return fmt.Sprintf("PUBCOMP(%d %#x)", d.PacketIdentifier, byte(d.ReasonCode))
	case *packets.Suback:
		return fmt.Sprintf("SUBACK(%d %x)", d.PacketIdentifier, d.ReasonCodes)
	case *packets.Unsuback:
		return fmt.Sprintf("UNSUBACK(%d %x)", d.PacketIdentifier, d.ReasonCodes)
	case *packets.Connack:
		return fmt.Sprintf("CONNACK(%#x)", d.ReasonCode)
	case *packets.Disconnect:
		return fmt.Sprintf("DISCONNECT(%#x)", byte(d.ReasonCode))
	case *packets.Auth:
		return fmt.Sprintf("AUTH(%#x)", byte(d.AuthenticateReasonCode))
	}
	return fmt.Sprintf("%v:%T", e.PacketType, e.Data)
}

func showAll(l []*mqtt.Event) string {
	var s []string
	for _, e := range l {
		s = append(s, show(e))
	}
	return strings.Join(s, " ")
}

func payloads(l []*mqtt.Event) (r []string) {
	for _, e := range l {
		if e == nil {
			continue
		}
		if p, ok := e.Data.(*packets.Publish); ok {
			r = append(r, string(p.Payload))
		}
	}
	return
}

func isTimeout(err error) bool {
	return errors.Is(err, os.ErrDeadlineExceeded) || errors.Is(err, context.DeadlineExceeded)
}

// withKeepAlive sets the requested keep-alive interval in seconds.
func withKeepAlive(s int) func(c *Client, p *packets.Connect) {
	return func(c *Client, p *packets.Connect) { p.KeepAlive = primitives.PrimitiveUint16(s) }
}
