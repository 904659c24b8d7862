package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt/storage"

	"verif/ref"
	"verif/vs"
)

var errFault = errors.New("injected fault")

// seg is a piece of the inbound byte stream that arrives at a certain virtual time.
type seg struct {
	at   time.Duration
	b    []byte
	done func() // called when the client has read the last byte
}

// Conn is the client's network connection. All operations are scheduling points.
type Conn struct {
	w    *World
	name string
	o    *vs.Obj

	rx     []seg
	eof    bool // the peer closes after everything in rx
	eofAt  time.Duration
	rxErr  error // what reading reports instead of io.EOF
	dl     time.Time
	closed bool
	closes int

	tx      []byte // every byte written
	part    []byte // bytes that are not a complete packet yet
	writes  int
	ops     int
	maxRead int // most bytes returned by one Read (0: no limit)

	data vs.Flag // raised whenever rx, eof or closed changes

	// fault is asked before every operation; a non-nil error makes it fail (for write: after n bytes).
	fault func(op string, size int) (n int, err error)

	// onBytes sees bytes before they are accepted.
	onBytes func(p []byte)

	srv *Server

	// afterEnd counts bytes written after a DISCONNECT was written or the connection ended.
	sealed   bool
	torn     bool // a write ended in the middle of a packet
	afterEnd int
	readEnd  bool // the client saw the end of the stream
}

func (w *World) NewConn(name string) *Conn {
	c := &Conn{w: w, name: name, o: vs.NewObj("conn " + name)}
	c.srv = newServer(c)
	w.conns = append(w.conns, c)
	return c
}

func (c *Conn) expired() bool { return !c.dl.IsZero() && !vs.Now().Before(c.dl) }

// Available reports whether reading would not wait.
func (c *Conn) Available() bool {
	if c.closed {
		return true
	}
	if len(c.rx) > 0 {
		return c.rx[0].at <= vs.Offset()
	}
	return c.eof && c.eofAt <= vs.Offset()
}

func (c *Conn) nextArrival() (time.Duration, bool) {
	if len(c.rx) > 0 {
		return c.rx[0].at, true
	}
	if c.eof {
		return c.eofAt, true
	}
	return 0, false
}

// ending reports whether either side has ended the connection.
func (c *Conn) ending() bool { return c.closed || c.sealed || c.eof || c.srv.gone }

func (c *Conn) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Err: err}
}

func (c *Conn) step(op string, size int) (int, error) {
	c.ops++
	if c.fault != nil {
		n, err := c.fault(op, size)
		return n, c.w.failure(op, err)
	}
	return 0, nil
}

// failure makes an injected fault one of the errors that transports and storages are known to return.
func (w *World) failure(op string, err error) error {
	if err != errFault || w.faultKind == 0 {
		return err
	}
	switch op {
	case "write":
		return []error{os.ErrDeadlineExceeded, io.EOF, net.ErrClosed}[w.faultKind-1]
	case "read":
		return []error{io.EOF, io.ErrUnexpectedEOF, net.ErrClosed}[w.faultKind-1]
	case "deadline", "close":
		return []error{net.ErrClosed, io.ErrClosedPipe, os.ErrDeadlineExceeded}[w.faultKind-1]
	case "store":
		return []error{os.ErrDeadlineExceeded, io.EOF, storage.ErrDuplicateEntry}[w.faultKind-1]
	}
	return []error{os.ErrDeadlineExceeded, io.EOF, context.DeadlineExceeded}[w.faultKind-1]
}

func (c *Conn) Read(p []byte) (int, error) {
	c.o.Op("conn.Read", func() bool { return c.expired() || c.Available() }, func() (time.Duration, bool) {
		at, ok := c.nextArrival()
		if !c.dl.IsZero() {
			if d := c.dl.Sub(vs.Base); !ok || d < at {
				at, ok = d, true
			}
		}
		return at, ok
	})
	c.o.Acquire()
	if c.closed {
		return 0, c.opErr("read", net.ErrClosed)
	}
	if c.expired() {
		return 0, c.opErr("read", os.ErrDeadlineExceeded)
	}
	if _, err := c.step("read", len(p)); err != nil {
		return 0, c.opErr("read", err)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if len(c.rx) == 0 {
		c.readEnd = true
		if c.rxErr != nil {
			return 0, c.opErr("read", c.rxErr)
		}
		return 0, io.EOF
	}
	s := &c.rx[0]
	if c.maxRead > 0 && len(p) > c.maxRead {
		p = p[:c.maxRead]
	}
	if c.w.trickle && len(p) > 1 {
		p = p[:1]
	}
	n := copy(p, s.b)
	vs.RaceWrite(p[:n])
	s.b = s.b[n:]
	if len(s.b) == 0 {
		done := s.done
		c.rx = c.rx[1:]
		if done != nil {
			done()
		}
	}
	return n, nil
}

func (c *Conn) Write(p []byte) (int, error) {
	c.o.Op("conn.Write", nil, nil)
	c.o.Release()
	vs.RaceRead(p)
	c.writes++
	if c.closed {
		return 0, c.opErr("write", net.ErrClosed)
	}
	if c.expired() {
		return 0, c.opErr("write", os.ErrDeadlineExceeded)
	}
	if d := c.w.slow; d > 0 {
		// The bytes go out in the end, unless the deadline comes first.
		d += vs.Offset()
		c.o.Op("conn.Write goes on", func() bool { return vs.Offset() >= d || c.expired() || c.closed }, func() (time.Duration, bool) {
			if dl := c.dl.Sub(vs.Base); !c.dl.IsZero() && dl < d {
				return dl, true
			}
			return d, true
		})
		c.o.Release()
		if c.closed {
			return 0, c.opErr("write", net.ErrClosed)
		}
		if vs.Offset() < d {
			return 0, c.opErr("write", os.ErrDeadlineExceeded)
		}
	}
	n, err := c.step("write", len(p))
	if err != nil {
		c.accept(p[:n])
		c.torn = c.torn || len(c.part) > 0
		return n, c.opErr("write", err)
	}
	if c.eof && c.eofAt <= vs.Offset() && c.w.resetOnWrite {
		return 0, c.opErr("write", errors.New("broken pipe"))
	}
	c.accept(p)
	return len(p), nil
}

func (c *Conn) accept(p []byte) {
	if len(p) == 0 {
		return
	}
	if c.sealed {
		c.afterEnd += len(p)
		c.w.Fail("L02", "write-after-end", "%s: %d bytes written after the connection had ended: %x", c.name, len(p), p)
	}
	if c.torn {
		c.w.Fail("W01", "after-torn", "%s: %x is written after a packet of which only a part could be written", c.name, p)
	}
	if c.onBytes != nil {
		c.onBytes(p)
	}
	c.tx = append(c.tx, p...)
	c.part = append(c.part, p...)
	for {
		pk, n, err := ref.Decode(c.part)
		if err == ref.ErrIncomplete {
			break
		}
		if err != nil {
			c.w.Fail("W01", "malformed", "%s: the client sent bytes that are no MQTT 5 packet: %v: %x", c.name, err, c.part)
			c.part = nil
			c.srv.broken = true
			break
		}
		c.part = c.part[n:]
		c.w.T.Logf("%s: client sends %v", c.name, pk)
		c.srv.packet(pk)
	}
}

func (c *Conn) Close() error {
	c.o.Op("conn.Close", nil, nil)
	c.closes++
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	_, err := c.step("close", 0)
	c.closed = true
	c.data.Raise()
	if err == nil && c.w.closeFails {
		err = c.w.failure("close", errFault)
	}
	if err != nil {
		return c.opErr("close", err)
	}
	return nil
}

func (c *Conn) SetDeadline(t time.Time) error {
	c.o.Op("conn.SetDeadline", nil, nil)
	if c.closed {
		return c.opErr("set", net.ErrClosed)
	}
	if _, err := c.step("deadline", 0); err != nil {
		return c.opErr("set", err)
	}
	c.dl = t
	return nil
}

func (c *Conn) SetReadDeadline(t time.Time) error  { return c.SetDeadline(t) }
func (c *Conn) SetWriteDeadline(t time.Time) error { return c.SetDeadline(t) }
func (c *Conn) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (c *Conn) RemoteAddr() net.Addr               { return &net.TCPAddr{} }

// put appends inbound bytes without a scheduling point.
func (c *Conn) put(at time.Duration, done func(), b []byte) {
	if n := len(c.rx); n > 0 && c.rx[n-1].at > at {
		at = c.rx[n-1].at
	}
	c.rx = append(c.rx, seg{at, b, done})
	c.data.Raise()
}

// Push is a harness thread delivering inbound packets now.
func (c *Conn) Push(pkts ...*ref.Packet) {
	c.o.Op("server sends", nil, nil)
	c.o.Release()
	for _, p := range pkts {
		c.srv.send(p)
	}
}

// PushBytes delivers raw bytes.
func (c *Conn) PushBytes(b []byte) {
	c.o.Op("server sends", nil, nil)
	c.o.Release()
	c.put(vs.Offset(), nil, b)
}

// CloseByPeer ends the inbound stream.
func (c *Conn) CloseByPeer() {
	c.o.Op("peer closes", nil, nil)
	c.o.Release()
	c.peerClose()
}

func (c *Conn) peerClose() {
	c.eof, c.eofAt = true, vs.Offset()
	if n := len(c.rx); n > 0 && c.rx[n-1].at > c.eofAt {
		c.eofAt = c.rx[n-1].at
	}
	c.data.Raise()
}

// exchange is an unfinished exchange started by the client.
type exchange struct {
	kind byte // ref.PUBLISH, ref.SUBSCRIBE, ref.UNSUBSCRIBE
	qos  byte
	rel  bool
	pk   *ref.Packet
}

// inPacket is a packet sent to the client.
type inPacket struct {
	pk   *ref.Packet
	read bool // the client has read all of it
}

// Server is a conforming MQTT 5 server (within what the scenarios need) and the monitor of what the client sends.
type Server struct {
	c      *Conn
	recv   []*ref.Packet
	sent   []*inPacket
	broken bool
	gone   bool // the server has sent DISCONNECT

	connack     *ref.Packet
	noConnack   bool
	recvMax     int
	delay       time.Duration
	hold        func(p *ref.Packet) bool // packets that are not answered automatically
	held        []*ref.Packet
	got         vs.Flag // raised with every packet that is held
	subCode     func(filter string) byte
	unsubCode   func(filter string) byte
	pubCode     func(p *ref.Packet) byte
	onPacket    func(p *ref.Packet)
	onRead      func(p *ref.Packet) // the client has read the packet
	echo        bool                // publishes are sent back at QoS 0
	open        vs.Table[uint16, *exchange]
	outstanding int
	maxOut      int
	quiet       bool // do not monitor identifiers and quotas
	pings       int
	disconnects int
	inflight    vs.Table[uint16, byte] // server-initiated: QoS of unacknowledged publishes
}

func newServer(c *Conn) *Server {
	return &Server{c: c, connack: &ref.Packet{Type: ref.CONNACK}, recvMax: 65535}
}

func (s *Server) count(t byte) (n int) {
	for _, p := range s.recv {
		if p.Type == t {
			n++
		}
	}
	return
}

// send puts a packet on the inbound stream.
func (s *Server) send(p *ref.Packet) {
	if d := s.c.w.dress; d != nil {
		q := *p
		d(s.c.w.dressed, &q)
		s.c.w.dressed++
		p = &q
	}
	s.c.w.T.Logf("%s: server sends %v", s.c.name, p)
	in := &inPacket{pk: p}
	s.sent = append(s.sent, in)
	if p.Type == ref.DISCONNECT {
		s.gone = true
	}
	var done func()
	id := p.ID
	switch p.Type {
	case ref.PUBACK, ref.PUBCOMP:
		done = func() { s.finish(id, ref.PUBLISH) }
	case ref.PUBREC:
		if p.Reason >= 0x80 {
			done = func() { s.finish(id, ref.PUBLISH) }
		}
	case ref.SUBACK:
		done = func() { s.finish(id, ref.SUBSCRIBE) }
	case ref.UNSUBACK:
		done = func() { s.finish(id, ref.UNSUBSCRIBE) }
	}
	s.c.put(vs.Offset()+s.delay, func() {
		in.read = true
		if done != nil {
			done()
		}
		if s.onRead != nil {
			s.onRead(p)
		}
	}, p.Encode())
}

func (s *Server) finish(id uint16, kind byte) {
	e, _ := s.open.Get(id)
	if e == nil || e.kind != kind {
		return
	}
	s.open.Delete(id)
	if kind == ref.PUBLISH {
		s.outstanding--
	}
}

// start monitors the beginning of an exchange.
func (s *Server) start(p *ref.Packet) {
	if s.quiet {
		return
	}
	if p.ID == 0 {
		s.c.w.Fail("R02", "id-zero", "%s: %v carries packet identifier 0", s.c.name, p)
		return
	}
	if e, _ := s.open.Get(p.ID); e != nil {
		s.c.w.Fail("R02", "id-in-use", "%s: %v uses packet identifier %d, which is still in use by the unfinished %v", s.c.name, p, p.ID, e.pk)
	}
	s.open.Set(p.ID, &exchange{kind: p.Type, qos: p.QoS(), pk: p})
	if p.Type == ref.PUBLISH {
		s.outstanding++
		if s.outstanding > s.maxOut {
			s.maxOut = s.outstanding
		}
		if s.outstanding > s.recvMax {
			s.c.w.Fail("F01", "receive-maximum", "%s: %d unacknowledged QoS 1/2 publishes are outstanding although the server's Receive Maximum is %d", s.c.name, s.outstanding, s.recvMax)
		}
	}
}

func (s *Server) packet(p *ref.Packet) {
	if len(s.recv) == 0 && p.Type != ref.CONNECT {
		s.c.w.Fail("W01", "first-not-connect", "%s: the first packet is %v", s.c.name, p)
	}
	if len(s.recv) > 0 && p.Type == ref.CONNECT {
		s.c.w.Fail("W01", "second-connect", "%s: a second CONNECT was sent", s.c.name)
	}
	s.recv = append(s.recv, p)
	switch p.Type {
	case ref.PUBLISH:
		if p.QoS() > 0 {
			s.start(p)
		}
	case ref.SUBSCRIBE, ref.UNSUBSCRIBE:
		s.start(p)
	case ref.PUBREL:
		if e, _ := s.open.Get(p.ID); e != nil {
			e.rel = true
		}
	case ref.PUBACK:
		if q, _ := s.inflight.Get(p.ID); q == 1 {
			s.inflight.Delete(p.ID)
		}
	case ref.PUBCOMP:
		s.inflight.Delete(p.ID)
	case ref.DISCONNECT:
		s.disconnects++
		s.c.sealed = true
	case ref.PINGREQ:
		s.pings++
	}
	if s.onPacket != nil {
		s.onPacket(p)
	}
	if s.hold != nil && s.hold(p) {
		s.held = append(s.held, p)
		s.got.Raise()
		return
	}
	if a := s.answer(p); a != nil {
		s.send(a)
	}
	if p.Type == ref.DISCONNECT {
		s.c.peerClose()
	}
	if s.echo && p.Type == ref.PUBLISH {
		s.send(&ref.Packet{Type: ref.PUBLISH, Topic: p.Topic, Payload: p.Payload})
	}
}

// answer is what a conforming server replies.
func (s *Server) answer(p *ref.Packet) *ref.Packet {
	switch p.Type {
	case ref.CONNECT:
		if s.noConnack {
			return nil
		}
		return s.connack
	case ref.PUBLISH:
		var code byte
		if s.pubCode != nil {
			code = s.pubCode(p)
		}
		switch p.QoS() {
		case 1:
			return ack(ref.PUBACK, p.ID, code)
		case 2:
			return ack(ref.PUBREC, p.ID, code)
		}
	case ref.PUBREL:
		return ack(ref.PUBCOMP, p.ID, 0)
	case ref.PUBREC:
		return ack(ref.PUBREL, p.ID, 0)
	case ref.SUBSCRIBE:
		a := &ref.Packet{Type: ref.SUBACK, ID: p.ID}
		for _, f := range p.Filters {
			code := f.Opts & 3
			if s.subCode != nil {
				code = s.subCode(f.Filter)
			}
			a.Codes = append(a.Codes, code)
		}
		return a
	case ref.UNSUBSCRIBE:
		a := &ref.Packet{Type: ref.UNSUBACK, ID: p.ID}
		for _, f := range p.Filters {
			var code byte
			if s.unsubCode != nil {
				code = s.unsubCode(f.Filter)
			}
			a.Codes = append(a.Codes, code)
		}
		return a
	case ref.PINGREQ:
		return &ref.Packet{Type: ref.PINGRESP}
	}
	return nil
}

// ack makes an acknowledgement.
func ack(t byte, id uint16, code byte) *ref.Packet {
	p := &ref.Packet{Type: t, ID: id, Reason: code, HasReason: code != 0}
	if t == ref.PUBREL {
		p.Flags = 2
	}
	return p
}

// publish makes a PUBLISH.
func publish(qos byte, id uint16, topic, payload string) *ref.Packet {
	return &ref.Packet{Type: ref.PUBLISH, Flags: qos << 1, ID: id, Topic: topic, Payload: []byte(payload)}
}

func (s *Server) dump() (r []string) {
	for _, p := range s.recv {
		r = append(r, fmt.Sprint(p))
	}
	return
}
