package main

import (
	"fmt"
	"reflect"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"

	"verif/ref"
)

// ---- V01 -----------------------------------------------------------------------------------------------------------

// content renders the exported fields of a packet apart from what the client fills in when it sends one.
func content(p any) (s string) {
	v := reflect.ValueOf(p).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if f.IsExported() && f.Name != "Header" && f.Name != "PacketIdentifier" {
			s += fmt.Sprintf(" %s=%v", f.Name, v.Field(i).Interface())
		}
	}
	return
}

// anonymous encodes a packet that the server has received without its identifier.
func anonymous(p *ref.Packet) string {
	q := *p
	q.ID = 0
	return fmt.Sprintf("%x", q.Encode())
}

// given publishes the same value several times, on one connection or another, whatever becomes of it.
func given(storage bool) Scenario {
	name := "a packet is published several times"
	if storage {
		name += ", storage"
	}
	return Scenario{Name: name, Seq: true, Bare: true, Body: func(w *World) {
		up := func(tag string) *Client {
			if storage {
				return w.Up(tag, withStore(w.NewStore()))
			}
			return w.Up(tag)
		}
		c := up("A")
		p := newPublish(byte(w.Choose(3, "QoS")), "t", "payload")
		if w.Choose(2, "properties") == 1 {
			p.MessageExpiryInterval, p.ResponseTopic, p.CorrelationData, p.ContentType = 7, "r", "c", "text"
			p.UserProperties = primitives.PrimitiveStringMap{"k": "v"}
		}
		p.Retain = w.Choose(2, "retain") == 1
		p.Duplicate = p.QoS > 0 && w.Choose(2, "duplicate") == 1
		if w.Choose(2, "read before") == 1 {
			p.Read(make([]byte, 3))
		}
		want, first := content(p), ""
		for i := 0; i < 3; i++ {
			s := c.conn.srv
			code := []byte{0, 0x10, 0x97}[w.Choose(3, "code")]
			s.pubCode = func(*ref.Packet) byte { return code }
			fail := w.Choose(3, "failure")
			if fail == 1 {
				c.conn.fault = func(op string, size int) (int, error) {
					if op == "write" {
						c.conn.fault = nil
						return 0, errFault
					}
					return 0, nil
				}
			}
			n := len(s.recv)
			ctx, cancel := within(time.Second)
			err := c.Publish(ctx, p)
			cancel()
			if fail == 1 {
				if err == nil || len(s.recv) != n {
					w.Bad("unsent", "writing failed, but publishing returns %v", err)
				}
			} else if err != nil || len(s.recv) != n+1 {
				w.Bad("refused", "publishing the packet for the %d. time returns %v", i+1, err)
				return
			} else {
				sent := anonymous(s.recv[n])
				if first == "" {
					first = sent
					if x := s.recv[n]; string(x.Payload) != "payload" || x.Topic != "t" {
						w.Bad("sent", "sent is %v", x)
					}
				}
				if sent != first {
					w.Bad("sent", "the same packet is sent as %s and the %d. time as %s", first, i+1, sent)
				}
			}
			if got := content(p); got != want {
				w.Bad("altered", "publishing changes the packet from%s to%s", want, got)
			}
			c.conn.fault = nil
			if errs := c.pollAll(); len(errs) > 0 {
				w.Bad("poll", "polling fails: %v", errs)
			}
			if got := content(p); got != want {
				w.Bad("altered", "the acknowledgement changes the packet from%s to%s", want, got)
			}
			if fail == 2 {
				c = up(fmt.Sprint("next ", i))
			}
			if w.Choose(2, "identifier") == 1 {
				p.PacketIdentifier = 0
			}
		}
	}}
}

// connecting connects several clients with the same packet.
func sameConnect() Scenario {
	return Scenario{Name: "several clients connect with the same packet", Seq: true, Bare: true, Body: func(w *World) {
		p := &packets.Connect{Version: packets.MQTT5, ClientId: "c", KeepAlive: primitives.PrimitiveUint16(60 * w.Choose(2, "keep-alive")), CleanSession: w.Choose(2, "clean") == 1}
		if w.Choose(2, "properties") == 1 {
			p.Username, p.Password, p.UserProperties = "u", "p", primitives.PrimitiveStringMap{"k": "v"}
			p.ReceiveMaximum, p.SessionExpiryInterval, p.MaximumPacketSize, p.TopicAliasMaximum = 5, 9, 1000, 3
		}
		if w.Choose(2, "will") == 1 {
			p.Will, p.WillTopic, p.WillQos, p.WillRetain = "gone", "w", 1, true
			p.WillDelayInterval, p.WillContentType = 4, "text"
		}
		want, first := content(p), ""
		for i := 0; i < 2; i++ {
			c := w.NewClient(fmt.Sprint("client ", i))
			a := &ref.Packet{Type: ref.CONNACK, HasProps: true}
			switch w.Choose(4, "answer") {
			case 1:
				a.Props = []ref.Prop{prop16(0x13, 33), prop16(0x21, 3), {ID: 0x12, S: "other"}, {ID: 0x11, Num: 77}, {ID: 0x27, Num: 555}, {ID: 0x26, S: "a", V: "b"}}
			case 2:
				a.Reason = 0x85
			case 3:
				a.Props = []ref.Prop{prop16(0x22, 9), {ID: 0x1a, S: "info"}}
			}
			c.conn.srv.connack = a
			c.dial(p, time.Second)
			if got := content(p); got != want {
				w.Bad("altered", "connecting changes the packet from%s to%s", want, got)
			}
			if len(c.conn.srv.recv) != 1 {
				w.Bad("sent", "sent is %v", c.conn.srv.dump())
				return
			}
			sent := anonymous(c.conn.srv.recv[0])
			if first == "" {
				first = sent
			}
			if sent != first {
				w.Bad("sent", "the same packet is sent as %s and the second time as %s", first, sent)
			}
			if c.IsConnected() {
				c.works("after connecting")
				c.disc()
			}
			if got := content(p); got != want {
				w.Bad("altered", "using the connection changes the packet from%s to%s", want, got)
			}
		}
	}}
}

// asked makes several requests with the same list of topics.
func asked() Scenario {
	return Scenario{Name: "several requests with the same topics", Seq: true, Bare: true, Body: func(w *World) {
		c := w.Up("A")
		s := c.conn.srv
		ch := c.CreateEventChannel(20)
		ts := []mqtt.Topic{topic("b/+", 2, &ch), topic("a", 0, nil), topic("c/#", 1, nil)}
		names := []string{"b/+", "a", "c/#"}
		ts = ts[:1+w.Choose(3, "topics")]
		names = names[:len(ts)]
		want := fmt.Sprint(names)
		first := map[byte]string{}
		c.StartLoop()
		for i := 0; i < 4; i++ {
			code := []byte{0, 2, 0x80}[w.Choose(3, "code")]
			s.subCode = func(string) byte { return code }
			n := len(s.recv)
			ctx, cancel := within(time.Second)
			if i == 1 || i == 2 && w.Choose(2, "request") == 1 {
				c.Unsubscribe(ctx, names)
			} else {
				c.Subscribe(ctx, ts)
			}
			cancel()
			w.T.Quiesce()
			if len(s.recv) != n+1 {
				w.Bad("sent", "sent is %v", s.dump()[n:])
				return
			}
			x := s.recv[n]
			if first[x.Type] == "" {
				first[x.Type] = anonymous(x)
			}
			if got := anonymous(x); got != first[x.Type] {
				w.Bad("sent", "the same request is sent as %s and later as %s", first[x.Type], got)
			}
			if fmt.Sprint(names) != want {
				w.Bad("altered", "the topics are changed from %v to %v", want, names)
			}
		}
		c.StopLoop()
	}}
}

// kept looks at delivered events again after everything else that may happen.
func kept() Scenario {
	return Scenario{Name: "delivered events stay as they are", Seq: true, Bare: true, Body: func(w *World) {
		var c *Client
		if w.Choose(2, "storage") == 1 {
			c = w.Up("A", withStore(w.NewStore()))
		} else {
			c = w.Up("A")
		}
		ch := c.CreateEventChannel(64)
		var events []*mqtt.Event
		var shown []string
		for i := 0; i < 4 && !w.T.Failed(); i++ {
			id := uint16(10 + i)
			rich := publish(2, id, fmt.Sprint("topic/", i), fmt.Sprint("payload ", i))
			rich.HasProps, rich.Props = true, []ref.Prop{{ID: 0x03, S: fmt.Sprint("type ", i)}, {ID: 0x09, S: fmt.Sprint("data ", i)}, {ID: 0x26, S: "k", V: fmt.Sprint(i)}}
			reason := ack(ref.PUBACK, id, 0x10)
			reason.HasProps, reason.Props = true, []ref.Prop{{ID: 0x1f, S: fmt.Sprint("reason ", i)}, {ID: 0x26, S: "k", V: fmt.Sprint(i)}}
			switch w.Choose(6, "step") {
			case 0:
				c.conn.Push(publish(0, 0, fmt.Sprint("t", i), fmt.Sprint("short", i)))
			case 1:
				c.conn.Push(rich)
			case 2:
				c.conn.Push(reason)
			case 3:
				c.conn.Push(&ref.Packet{Type: ref.SUBACK, ID: id, Codes: []byte{byte(i), 0x80, 1}}, &ref.Packet{Type: ref.UNSUBACK, ID: id, Codes: []byte{0x11, byte(i)}})
			case 4:
				c.pub(byte(i%3), fmt.Sprint("out ", i))
			case 5:
				c.conn.Push(ack(ref.PUBREC, id, 0), ack(ref.PUBREL, id, 0), ack(ref.PUBCOMP, id, 0x92))
			}
			c.pollAll()
			ev, _ := drain(ch)
			for _, e := range ev {
				events = append(events, e)
				shown = append(shown, fmt.Sprintf("%v %+v", e.PacketType, deref(e.Data)))
			}
		}
		c.disc()
		for i, e := range events {
			if got := fmt.Sprintf("%v %+v", e.PacketType, deref(e.Data)); got != shown[i] {
				w.Bad("altered", "a delivered event changes from %s to %s", shown[i], got)
			}
		}
	}}
}

func deref(x any) any {
	if v := reflect.ValueOf(x); v.Kind() == reflect.Pointer && !v.IsNil() {
		return v.Elem().Interface()
	}
	return x
}

func valueScenarios(th bool) []Scenario {
	return []Scenario{given(false), given(true), sameConnect(), asked(), kept()}
}

func init() {
	suites["V01"] = suite{scenarios: valueScenarios}
}
