package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"

	"verif/ref"
	"verif/vs"
)

// ---- R01 -----------------------------------------------------------------------------------------------------------

// request is a call of Subscribe or Unsubscribe.
type request struct {
	name    string
	kind    byte
	filters []string
	chans   []mqtt.EventChannel
	h       *vs.Handle
	err     error
	pk      *ref.Packet // what was sent
	codes   []byte      // the codes of its own acknowledgement
	vague   bool        // a malformed acknowledgement has arrived: the call may have given up
	cancel  context.CancelFunc
	gaveUp  bool
}

// start makes the call in its own thread.
func (q *request) start(w *World, c *Client) {
	ctx, cancel := vs.WithCancel(context.Background())
	q.cancel = cancel
	q.h = w.T.Go(q.name, func() {
		if q.kind == ref.SUBSCRIBE {
			var l []mqtt.Topic
			for i, f := range q.filters {
				var ch *mqtt.EventChannel
				if i < len(q.chans) {
					ch = &q.chans[i]
				}
				l = append(l, topic(f, byte(i%3), ch))
			}
			q.err = c.Subscribe(ctx, l)
		} else {
			q.err = c.Unsubscribe(ctx, q.filters)
		}
		w.T.Logf("%s returns %v", q.name, q.err)
	})
}

func (q *request) ackType() byte {
	if q.kind == ref.SUBSCRIBE {
		return ref.SUBACK
	}
	return ref.UNSUBACK
}

// outcome is what the call must return.
func (q *request) outcome() error {
	for _, c := range q.codes {
		if c >= 0x80 {
			return mqtt.ReasonCode(c)
		}
	}
	return nil
}

// verify checks a call that must have returned, or must not have returned.
func (q *request) verify(w *World) {
	if q.gaveUp {
		if !q.h.Done() {
			w.Bad("stuck", "%s was cancelled but still waits", q.name)
		}
		return
	}
	if q.codes == nil {
		if q.h.Done() && !(q.vague && q.err != nil) {
			w.Bad("early", "%s returned %v although its acknowledgement has not arrived", q.name, q.err)
		}
		return
	}
	if q.vague && q.h.Done() && q.err != nil {
		return
	}
	if !q.h.Done() {
		w.Bad("stuck", "%s still waits although its acknowledgement (%x) has arrived", q.name, q.codes)
		return
	}
	if want := q.outcome(); want != q.err && fmt.Sprint(want) != fmt.Sprint(q.err) || (want == nil) != (q.err == nil) {
		w.Bad("outcome", "%s returned %v, but its acknowledgement carries the codes %x", q.name, q.err, q.codes)
	}
}

// wantCode checks that an error is the reason code.
func wantCode(err error, code byte) bool {
	var rc mqtt.ReasonCode
	return errors.As(err, &rc) && byte(rc) == code
}

// requests drives the calls and a model of the bindings.
type requests struct {
	w     *World
	c     *Client
	list  []*request
	bound map[string]int // filter -> index of the channel
	chans []mqtt.EventChannel
	was   []bool // the channel has been bound
	dead  map[int]bool
	vague map[int]bool
}

func (r *requests) channel() mqtt.EventChannel {
	ch := r.c.CreateEventChannel(32)
	r.chans = append(r.chans, ch)
	r.was = append(r.was, false)
	return ch
}

func (r *requests) index(ch mqtt.EventChannel) int {
	for i := range r.chans {
		if r.chans[i].C == ch.C {
			return i
		}
	}
	return -1
}

// begin makes a call and waits until its packet was sent.
func (r *requests) begin(q *request) {
	s := r.c.conn.srv
	n := len(s.recv)
	q.name = fmt.Sprintf("%s %v (call %d)", names[q.kind], q.filters, len(r.list)+1)
	r.list = append(r.list, q)
	q.start(r.w, r.c)
	r.w.T.Quiesce()
	if len(s.recv) != n+1 || s.recv[n].Type != q.kind {
		r.w.Bad("packets", "%s sends %v", q.name, s.dump()[n:])
		return
	}
	q.pk = s.recv[n]
	if len(q.pk.Filters) != len(q.filters) {
		r.w.Bad("packets", "%s sends %v", q.name, q.pk)
		return
	}
	for i, f := range q.pk.Filters {
		if f.Filter != q.filters[i] {
			r.w.Bad("packets", "%s sends %v", q.name, q.pk)
		}
	}
}

// answer sends the acknowledgement of a call.
func (r *requests) answer(q *request, codes []byte) {
	q.codes = codes
	r.c.conn.Push(&ref.Packet{Type: q.ackType(), ID: q.pk.ID, Codes: codes})
	for i, f := range q.filters {
		if codes[i] >= 0x80 {
			continue
		}
		if q.vague || q.gaveUp {
			// Whether an abandoned request still binds is not specified.
			if o, ok := r.bound[f]; ok {
				r.vague[o] = true
			}
			if i < len(q.chans) {
				r.vague[r.index(q.chans[i])] = true
			}
			continue
		}
		if q.kind == ref.SUBSCRIBE {
			if i < len(q.chans) {
				r.bind(f, r.index(q.chans[i]))
			}
		} else {
			r.unbind(f)
		}
	}
}

// bind binds an open channel.
func (r *requests) bind(f string, k int) {
	if !r.dead[k] {
		r.bound[f], r.was[k] = k, true
	}
}

// unbind removes a binding; a channel is closed along with its last one.
func (r *requests) unbind(f string) {
	k, ok := r.bound[f]
	if !ok {
		return
	}
	delete(r.bound, f)
	for _, o := range r.bound {
		if o == k {
			return
		}
	}
	if r.dead == nil {
		r.dead = map[int]bool{}
	}
	r.dead[k] = true
}

func (r *requests) settle() {
	r.w.T.Quiesce()
	for _, q := range r.list {
		q.verify(r.w)
	}
}

// bindings checks by publishing which channel is bound to what.
func (r *requests) bindings() {
	if r.w.T.Failed() || !r.c.IsConnected() {
		return
	}
	for _, ch := range r.chans {
		drain(ch)
	}
	topics := map[string]bool{}
	var order []string
	for _, q := range r.list {
		for _, f := range q.filters {
			if !topics[f] {
				topics[f] = true
				order = append(order, f)
			}
		}
	}
	order = append(order, "elsewhere")
	for _, f := range order {
		r.c.conn.Push(publish(0, 0, f, f))
	}
	r.w.T.Quiesce()
	for i, ch := range r.chans {
		ev, closed := drain(ch)
		if r.vague[i] {
			continue
		}
		var want []string
		for _, f := range order {
			if k, ok := r.bound[f]; ok && k == i {
				want = append(want, f)
			} else if !r.was[i] {
				want = append(want, f)
			}
		}
		got := payloads(ev)
		if strings.Join(got, " ") != strings.Join(want, " ") {
			r.w.Bad("bindings", "after %s: channel %d gets %q instead of %q", r.summary(), i, got, want)
		}
		if r.dead[i] != closed {
			r.w.Bad("bindings", "after %s: channel %d closed: %v; its last binding was removed: %v", r.summary(), i, closed, r.dead[i])
		}
	}
}

func (r *requests) summary() string {
	var l []string
	for _, q := range r.list {
		l = append(l, fmt.Sprintf("%s answered %x", q.name, q.codes))
	}
	return strings.Join(l, ", ")
}

func requestHistory(depth int, several bool) Scenario {
	name := fmt.Sprintf("history of %d steps", depth)
	if several {
		name += ", several topics"
	}
	return Scenario{Name: name, Seq: true, Body: func(w *World) {
		c := w.Up("A")
		s := c.conn.srv
		s.hold = func(*ref.Packet) bool { return true }
		c.StartLoop()
		r := &requests{w: w, c: c, bound: map[string]int{}, vague: map[int]bool{}}
		other := c.CreateEventChannel(64)
		nsub := 0
		for i := 0; i < depth && !w.T.Failed(); i++ {
			type move struct {
				name string
				run  func()
			}
			var moves []move
			add := func(n string, f func()) { moves = append(moves, move{n, f}) }
			var open, done []*request
			for _, q := range r.list {
				if q.codes == nil {
					open = append(open, q)
				} else {
					done = append(done, q)
				}
			}
			if len(open) < 3 {
				add("subscribe", func() {
					q := &request{kind: ref.SUBSCRIBE}
					n := 1
					if several {
						n = 2
					}
					for k := 0; k < n; k++ {
						nsub++
						q.filters = append(q.filters, fmt.Sprint("f", nsub))
						q.chans = append(q.chans, r.channel())
					}
					r.begin(q)
				})
				if several && len(r.chans) > 0 {
					add("subscribe with a channel in use", func() {
						nsub++
						r.begin(&request{kind: ref.SUBSCRIBE, filters: []string{fmt.Sprint("f", nsub)}, chans: r.chans[:1]})
					})
				}
				add("unsubscribe", func() {
					q := &request{kind: ref.UNSUBSCRIBE, filters: []string{"f1"}}
					if several {
						q.filters = []string{"f2", "f3"}
					}
					r.begin(q)
				})
			}
			for k, q := range open {
				if k > 0 && k < len(open)-1 {
					continue
				}
				q := q
				n := len(q.filters)
				sets := [][]byte{{0}, {0x87}, {0x80}}
				if n == 2 {
					sets = [][]byte{{0, 0}, {0, 0x97}, {0x87, 1}, {0x8f, 0x97}}
				}
				for _, codes := range sets {
					codes := codes
					add(fmt.Sprintf("acknowledge %s with %x", q.name, codes), func() {
						// a channel that several pending requests use may be bound or closed in any order
						r.answer(q, codes)
					})
				}
				add("mistyped acknowledgement of "+q.name, func() {
					t := byte(ref.SUBACK)
					if q.kind == ref.SUBSCRIBE {
						t = ref.UNSUBACK
					}
					c.conn.Push(&ref.Packet{Type: t, ID: q.pk.ID, Codes: make([]byte, n)})
				})
				add("too many codes for "+q.name, func() {
					q.vague = true
					c.conn.Push(&ref.Packet{Type: q.ackType(), ID: q.pk.ID, Codes: make([]byte, n+1)})
				})
				if k == 0 {
					add("too few codes for "+q.name, func() {
						q.vague = true
						c.conn.Push(&ref.Packet{Type: q.ackType(), ID: q.pk.ID, Codes: make([]byte, n-1)})
					})
					add("malformed acknowledgement of "+q.name, func() {
						q.vague = true
						c.conn.PushBytes(ref.WithHeader(q.ackType()<<4, []byte{byte(q.pk.ID >> 8), byte(q.pk.ID), 3, 0x1f, 0, 9, 0, 0}))
					})
					add("other packets with the identifier of "+q.name, func() {
						c.conn.Push(ack(ref.PUBACK, q.pk.ID, 0), ack(ref.PUBCOMP, q.pk.ID, 0), ack(ref.PUBREC, q.pk.ID, 0x92), ack(ref.PUBREC, q.pk.ID, 0),
							ack(ref.PUBREL, q.pk.ID, 0), ack(ref.PUBCOMP, q.pk.ID, 0x92))
					})
					add("cancel "+q.name, func() { q.gaveUp = true; q.cancel() })
				}
			}
			if len(done) > 0 {
				q := done[len(done)-1]
				if !r.reused(q) {
					add("duplicate acknowledgement of "+q.name, func() {
						c.conn.Push(&ref.Packet{Type: q.ackType(), ID: q.pk.ID, Codes: make([]byte, len(q.filters))})
					})
				}
			}
			add("unrelated acknowledgement", func() {
				for _, id := range []uint16{0, 9, 65535} {
					if !r.uses(id) {
						c.conn.Push(&ref.Packet{Type: ref.SUBACK, ID: id, Codes: []byte{0}}, &ref.Packet{Type: ref.UNSUBACK, ID: id, Codes: []byte{0x87}})
					}
				}
			})
			m := moves[w.Choose(len(moves), "step")]
			w.T.Logf("step: %s", m.name)
			m.run()
			r.settle()
			drain(other)
		}
		// Everything that is open is answered in the end.
		for _, q := range r.list {
			if w.T.Failed() {
				return
			}
			if q.codes == nil {
				r.answer(q, make([]byte, len(q.filters)))
				r.settle()
			}
		}
		r.bindings()
		if w.T.Failed() {
			return
		}
		if !c.IsConnected() {
			w.Bad("connection", "acknowledgements ended the connection")
		}
		for _, q := range r.list {
			w.T.Join(q.h)
		}
		c.StopLoop()
	}}
}

// uses reports whether an open request has the identifier.
func (r *requests) uses(id uint16) bool {
	for _, q := range r.list {
		if q.codes == nil && q.pk.ID == id {
			return true
		}
	}
	return false
}

func (r *requests) reused(q *request) bool { return r.uses(q.pk.ID) }

// race runs calls concurrently with a server that answers in a chosen order, with noise in between.
func requestRace(noise string, free bool, kinds ...string) Scenario {
	name := strings.Join(kinds, "+")
	if noise != "" {
		name += ", " + noise
	}
	if free {
		name += ", answered at once"
	}
	return Scenario{Name: name, Body: func(w *World) {
		c := w.Up("A")
		s := c.conn.srv
		r := &requests{w: w, c: c, bound: map[string]int{}, vague: map[int]bool{}}
		// what the unsubscribing calls unsubscribe was bound before
		c.StartLoop()
		for i, k := range kinds {
			if k != "sub" {
				f := fmt.Sprint("f", i)
				ch := r.channel()
				if err := c.sub(f, &ch); err != nil {
					w.Bad("setup", "subscribing fails: %v", err)
					return
				}
				r.bound[f], r.was[r.index(ch)] = r.index(ch), true
			}
		}
		if !free {
			s.hold = func(*ref.Packet) bool { return true }
		}
		code := func(i int) byte {
			if i%2 == 1 {
				return 0x87 + byte(i)
			}
			return 0
		}
		s.subCode = func(f string) byte { return code(int(f[1] - '0')) }
		s.unsubCode = s.subCode
		for i, k := range kinds {
			q := &request{filters: []string{fmt.Sprint("f", i)}, kind: ref.SUBSCRIBE, codes: []byte{code(i)}}
			if k != "sub" {
				q.kind = ref.UNSUBSCRIBE
			} else {
				q.chans = append(q.chans, r.channel())
			}
			q.name = fmt.Sprintf("%s %v", k, q.filters)
			r.list = append(r.list, q)
		}
		for _, q := range r.list {
			q.start(w, c)
		}
		if !free {
			order := permute(len(kinds), w.Choose(fact(len(kinds)), "order"))
			h := w.T.Go("server", func() {
				vs.Wait("server waits for the requests", func() bool { return len(s.held) == len(kinds) }, nil, &s.got)
				for n, k := range order {
					var p *ref.Packet
					for _, x := range s.held {
						if x.Filters[0].Filter == r.list[k].filters[0] {
							p = x
						}
					}
					a := s.answer(p)
					switch noise {
					case "duplicated":
						c.conn.Push(a, a)
					case "mistyped":
						t := byte(ref.SUBACK)
						if a.Type == ref.SUBACK {
							t = ref.UNSUBACK
						}
						c.conn.Push(&ref.Packet{Type: t, ID: a.ID, Codes: []byte{0}}, a)
					case "unrelated":
						c.conn.Push(&ref.Packet{Type: a.Type, ID: a.ID ^ 0x5555, Codes: []byte{0x99}}, a)
					default:
						c.conn.Push(a)
					}
					_ = n
				}
			})
			w.T.Join(h)
		}
		for _, q := range r.list {
			w.T.Join(q.h)
		}
		for _, q := range r.list {
			q.verify(w)
			if q.codes[0] < 0x80 {
				if q.kind == ref.SUBSCRIBE {
					r.bind(q.filters[0], r.index(q.chans[0]))
				} else {
					r.unbind(q.filters[0])
				}
			}
		}
		s.hold = nil
		r.bindingsNow()
		c.StopLoop()
	}}
}

// bindingsNow is bindings with all of the harness's steps in this thread.
func (r *requests) bindingsNow() {
	r.c.stop.Raise()
	r.w.T.Join(r.c.poller)
	r.c.stop = vs.Flag{}
	r.c.poller = r.w.T.Go("poll again", r.c.Loop)
	r.bindings()
}

func fact(n int) int {
	if n <= 1 {
		return 1
	}
	return n * fact(n-1)
}

// permute returns the k-th permutation of 0..n-1.
func permute(n, k int) []int {
	var l, r []int
	for i := 0; i < n; i++ {
		l = append(l, i)
	}
	for n > 0 {
		f := fact(n - 1)
		i := k / f
		k %= f
		r = append(r, l[i])
		l = append(append([]int{}, l[:i]...), l[i+1:]...)
		n--
	}
	return r
}

func requestScenarios(th bool) (r []Scenario) {
	r = append(r, requestHistory(5, false), requestHistory(4, true))
	for _, sv := range []bool{false, true} {
		s := requestHistory(6, sv)
		s.Thorough = true
		r = append(r, s)
	}
	for _, free := range []bool{false, true} {
		for _, noise := range []string{"", "duplicated", "mistyped", "unrelated"} {
			if free && noise != "" {
				continue
			}
			for _, k := range [][]string{{"sub", "sub"}, {"sub", "unsub"}, {"unsub", "unsub"}} {
				r = append(r, requestRace(noise, free, k...))
			}
			for _, k := range [][]string{{"sub", "sub", "sub"}, {"sub", "unsub", "sub"}, {"unsub", "sub", "unsub"}} {
				s := requestRace(noise, free, k...)
				s.Thorough = noise != ""
				r = append(r, s)
			}
		}
	}
	// Every reason code, one or two topics, every position.
	r = append(r, Scenario{Name: "every reason code", Seq: true, Body: func(w *World) {
		c := w.Up("A")
		s := c.conn.srv
		s.hold = func(*ref.Packet) bool { return true }
		c.StartLoop()
		r := &requests{w: w, c: c, bound: map[string]int{}, vague: map[int]bool{}}
		n := 1 + w.Choose(3, "topics")
		un := w.Choose(2, "call") == 1
		at := w.Choose(n, "position")
		codes := make([]byte, n)
		codes[at] = byte(w.Choose(256, "code"))
		if n > 1 && w.Choose(2, "another refusal") == 1 {
			codes[(at+1)%n] = 0x83
		}
		q := &request{kind: ref.SUBSCRIBE}
		for i := 0; i < n; i++ {
			q.filters = append(q.filters, fmt.Sprint("f", i))
			q.chans = append(q.chans, r.channel())
		}
		r.begin(q)
		if w.T.Failed() {
			return
		}
		if un {
			r.answer(q, make([]byte, n))
			r.settle()
			q = &request{kind: ref.UNSUBSCRIBE, filters: q.filters}
			r.begin(q)
		}
		if w.T.Failed() {
			return
		}
		r.answer(q, codes)
		r.settle()
		r.bindings()
		c.StopLoop()
	}})
	// An acknowledgement with another number of codes does not count; it ends no call with success and breaks nothing.
	r = append(r, Scenario{Name: "every number of codes", Seq: true, Body: func(w *World) {
		c := w.Up("A")
		s := c.conn.srv
		s.hold = func(*ref.Packet) bool { return true }
		c.StartLoop()
		r := &requests{w: w, c: c, bound: map[string]int{}, vague: map[int]bool{}}
		r.channel()
		q := &request{kind: ref.SUBSCRIBE}
		if w.Choose(2, "kind") == 1 {
			q.kind = ref.UNSUBSCRIBE
		}
		n := []int{1, 2, 3, 8}[w.Choose(4, "topics")]
		for i := 0; i < n; i++ {
			q.filters = append(q.filters, fmt.Sprint("f", i))
			if q.kind == ref.SUBSCRIBE && i == 0 {
				q.chans = append(q.chans, r.channel())
			}
		}
		wrong := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 18, 19, 24, 31, 32, 33, 34, 63, 64, 65, 66, 67, 72, 127, 128, 129, 130, 131, 136,
			255, 256, 257, 258, 259, 264, 511, 512, 513, 514, 515, 520, 1025, 4097, 65535, 65536, 65537, 65538, 65539, 65544}
		k := wrong[w.Choose(len(wrong), "codes")]
		if k == n || w.trickle && k > 4097 {
			c.StopLoop()
			return
		}
		r.begin(q)
		q.vague = true
		codes := make([]byte, k)
		if k > 0 && w.Choose(2, "refused") == 1 {
			codes[k-1] = 0x80
		}
		c.conn.Push(&ref.Packet{Type: q.ackType(), ID: q.pk.ID, Codes: codes})
		w.T.Quiesce()
		if q.h.Done() && q.err == nil {
			w.Bad("early", "%s with %d topics returns success after an acknowledgement with %d codes", q.name, n, k)
		}
		r.settle()
		if c.IsConnected() && !w.T.Failed() {
			r.answer(q, make([]byte, n))
			r.settle()
			c.works("after an acknowledgement with another number of codes")
		}
		c.StopLoop()
	}})
	// One channel bound to several filters, unbound one by one.
	r = append(r, Scenario{Name: "one channel for several filters", Seq: true, Body: func(w *World) {
		c := w.Up("A")
		s := c.conn.srv
		s.hold = func(*ref.Packet) bool { return true }
		c.StartLoop()
		r := &requests{w: w, c: c, bound: map[string]int{}, vague: map[int]bool{}}
		ch, ch2 := r.channel(), r.channel()
		var batch *request
		fs := []string{"a", "b", "c"}
		if w.Choose(2, "one call") == 1 {
			batch = &request{kind: ref.SUBSCRIBE, filters: fs, chans: []mqtt.EventChannel{ch, ch2, ch}}
			r.begin(batch)
			r.answer(batch, make([]byte, 3))
			r.settle()
		} else {
			for i, f := range fs {
				q := &request{kind: ref.SUBSCRIBE, filters: []string{f}, chans: []mqtt.EventChannel{ch}}
				if i == 1 {
					q.chans[0] = ch2
				}
				r.begin(q)
				r.answer(q, make([]byte, 1))
				r.settle()
			}
		}
		order := permute(3, w.Choose(6, "order"))
		n := w.Choose(4, "unsubscriptions")
		for _, k := range order[:n] {
			if w.T.Failed() {
				return
			}
			q := &request{kind: ref.UNSUBSCRIBE, filters: []string{fs[k]}}
			r.begin(q)
			code := byte(0)
			if w.Choose(2, "refused") == 1 {
				code = 0x87
			}
			r.answer(q, []byte{code})
			r.settle()
		}
		r.bindings()
		c.StopLoop()
	}})
	return
}

// ---- R02 -----------------------------------------------------------------------------------------------------------

var randoms = []uint32{0, 1, 2, 0x10000, 0x10001, 65535}

// identifierHistory enumerates operations, random numbers and answers.
func identifierHistory(depth int, storage bool, earlier bool) Scenario {
	name := fmt.Sprintf("history of %d steps", depth)
	if storage {
		name += ", storage"
	}
	if earlier {
		name += ", exchanges of an earlier connection"
	}
	return Scenario{Name: name, Seq: true, Heavy: true, Body: func(w *World) {
		var st *Store
		var opts []func(*Client, *packets.Connect)
		if storage {
			st = w.NewStore()
			opts = append(opts, withStore(st))
		}
		taken := map[uint16]bool{}
		if earlier {
			// The earlier connection ended with open exchanges.
			a := w.Up("earlier", opts...)
			a.conn.srv.hold = func(*ref.Packet) bool { return true }
			var n uint32
			a.SetRngFn(func() uint32 { n++; return n })
			a.pub(1, "x")
			a.pub(2, "y")
			a.conn.Push(ack(ref.PUBREC, 2, 0))
			a.pollAll()
			a.disc()
			for _, p := range a.conn.srv.recv {
				if p.Type == ref.PUBLISH {
					taken[p.ID] = true
				}
			}
		}
		c := w.Up("A", opts...)
		s := c.conn.srv
		s.hold = func(p *ref.Packet) bool {
			return p.Type == ref.PUBLISH || p.Type == ref.PUBREL || p.Type == ref.SUBSCRIBE || p.Type == ref.UNSUBSCRIBE
		}
		calls := 0
		c.SetRngFn(func() uint32 {
			if calls++; calls > 4 {
				return uint32(calls)
			}
			return randoms[w.Choose(len(randoms), "random number")]
		})
		s.onPacket = func(p *ref.Packet) {
			switch p.Type {
			case ref.PUBLISH, ref.SUBSCRIBE, ref.UNSUBSCRIBE:
				if taken[p.ID] && (p.Type != ref.PUBLISH || p.QoS() > 0) {
					w.Bad("id-in-use", "%v uses an identifier that belongs to an unfinished publish of the earlier connection", p)
				}
			}
		}
		c.StartLoop()
		var calling []*request
		for i := 0; i < depth && !w.T.Failed(); i++ {
			calls = 0
			type move struct {
				name string
				run  func()
			}
			var moves []move
			add := func(n string, f func()) { moves = append(moves, move{n, f}) }
			add("publish 1", func() { w.idErr(c.pub(1, "x")) })
			add("publish 2", func() { w.idErr(c.pub(2, "x")) })
			for _, k := range []byte{ref.SUBSCRIBE, ref.UNSUBSCRIBE} {
				k := k
				add(names[k], func() {
					q := &request{name: names[k], kind: k, filters: []string{"f"}}
					q.start(w, c)
					calling = append(calling, q)
					w.T.Quiesce()
					if q.h.Done() {
						w.Bad("refused", "%s fails: %v", q.name, q.err)
					}
				})
			}
			for _, id := range []uint16{1, 2} {
				id := id
				if e, _ := s.open.Get(id); e == nil && !taken[id] {
					add(fmt.Sprint("publish with identifier ", id), func() {
						p := newPublish(byte(id), "t", "x")
						p.PacketIdentifier = primitives.PrimitiveUint16(id)
						ctx, cancel := within(time.Second)
						w.idErr(c.Publish(ctx, p))
						cancel()
					})
				}
			}
			for k := range s.held {
				if k > 0 && k < len(s.held)-1 {
					continue
				}
				k := k
				add(fmt.Sprint("answer ", k), func() {
					p := s.held[k]
					s.held = append(append([]*ref.Packet{}, s.held[:k]...), s.held[k+1:]...)
					c.conn.Push(s.answer(p))
				})
			}
			for k, q := range calling {
				k, q := k, q
				if k == 0 {
					add("cancel "+q.name, func() {
						q.cancel()
						calling = calling[1:]
					})
				}
			}
			add("publish by the server", func() { c.conn.Push(publish(2, 3, "t", "x"), publish(1, 4, "t", "x"), ack(ref.PUBREL, 3, 0)) })
			m := moves[w.Choose(len(moves), "step")]
			w.T.Logf("step: %s", m.name)
			m.run()
			w.T.Quiesce()
		}
		c.disc()
		c.StopLoop()
	}}
}

func (w *World) idErr(err error) {
	if err != nil {
		w.Bad("refused", "publishing fails: %v", err)
	}
}

// exhaust uses every identifier.
func exhaust(storage bool, last string) Scenario {
	name := "every identifier in use, then " + last
	if storage {
		name += ", storage"
	}
	return Scenario{Name: name, Seq: true, Horizon: 50000000, Body: func(w *World) {
		var opts []func(*Client, *packets.Connect)
		if storage {
			opts = append(opts, withStore(w.NewStore()))
		}
		c := w.Up("A", opts...)
		s := c.conn.srv
		s.hold = func(*ref.Packet) bool { return true }
		s.quiet = true
		used := make([]bool, 65536)
		n := 0
		s.onPacket = func(p *ref.Packet) {
			if p.Type != ref.SUBSCRIBE && p.Type != ref.UNSUBSCRIBE && p.Type != ref.PUBLISH {
				return
			}
			if p.ID == 0 {
				w.Bad("id-zero", "%v carries packet identifier 0", p)
			}
			if used[p.ID] {
				w.Bad("id-in-use", "%v uses an identifier that is still in use", p)
			}
			used[p.ID] = true
			n++
			s.recv, s.held = s.recv[:1], nil
		}
		var next uint32
		c.SetRngFn(func() uint32 { next++; return next - 1 })
		one := func(kind string) error {
			ctx, cancel := vs.WithCancel(context.Background())
			cancel()
			switch kind {
			case "subscribe":
				return c.Subscribe(ctx, []mqtt.Topic{topic("f", 0, nil)})
			case "unsubscribe":
				return c.Unsubscribe(ctx, []string{"f"})
			}
			ctx, cancel = within(time.Second)
			defer cancel()
			return c.Publish(ctx, newPublish(1, "t", "x"))
		}
		for i := 0; i < 65535 && !w.T.Failed(); i++ {
			k := "subscribe"
			if i%2 == 1 {
				k = "unsubscribe"
			}
			if i%1000 == 7 && !storage {
				k = "publish"
			}
			err := one(k)
			if k == "publish" && err != nil || k != "publish" && !errors.Is(err, context.Canceled) {
				w.Bad("refused", "%s number %d returns %v", k, i+1, err)
			}
		}
		if n != 65535 && !w.T.Failed() {
			w.Bad("count", "%d requests were sent", n)
			return
		}
		if w.T.Failed() {
			return
		}
		if err := one(last); err == nil || errors.Is(err, context.Canceled) || n != 65535 {
			w.Bad("exhausted", "every identifier is in use and %s returns %v (%d requests sent)", last, err, n)
		}
		// One becomes free.
		s.onPacket = nil
		id := map[string]uint16{"subscribe": 2, "unsubscribe": 65535, "publish": 40001}[last]
		if storage {
			id = 30000
		}
		s.recv = s.recv[:1]
		c.conn.Push(&ref.Packet{Type: ref.SUBACK, ID: id, Codes: []byte{0}}, &ref.Packet{Type: ref.UNSUBACK, ID: id, Codes: []byte{0}})
		c.pollAll()
		// It stays free if a request that would use it cannot be sent.
		for _, k := range []string{"publish", "subscribe", "unsubscribe"} {
			c.conn.fault = func(op string, size int) (int, error) {
				if op == "write" {
					c.conn.fault = nil
					return 0, errFault
				}
				return 0, nil
			}
			if err := one(k); err == nil || len(s.recv) != 1 {
				w.Bad("unsent", "writing failed, but %s returns %v (sent %v)", k, err, s.dump()[1:])
			}
		}
		err := one(last)
		if len(s.recv) != 2 || s.recv[1].ID != id {
			w.Bad("exhausted", "identifier %d is free again, and %s returns %v (sent %v)", id, last, err, s.dump()[1:])
		}
	}}
}

// retried publishes a packet again after it could not be sent, while other exchanges may have taken the identifier that
// the failed attempt was given.
func retried(qos byte, storage, reconnect bool) Scenario {
	name := fmt.Sprintf("a publish (QoS %d) that failed is published again", qos)
	if storage {
		name += ", storage"
	}
	if reconnect {
		name += ", on the next connection"
	}
	return Scenario{Name: name, Seq: true, Body: func(w *World) {
		st := w.NewStore()
		var opts []func(*Client, *packets.Connect)
		if storage {
			opts = append(opts, withStore(st))
		}
		v := uint32([]int{0, 7, 65535}[w.Choose(3, "random number")])
		up := func(name string) *Client {
			c := w.Up(name, opts...)
			c.conn.srv.hold = func(p *ref.Packet) bool { return true }
			c.SetRngFn(func() uint32 { return v })
			return c
		}
		c := up("A")
		p := newPublish(qos, "t", "x")
		attempt := func() error {
			ctx, cancel := within(time.Second)
			defer cancel()
			return c.Publish(ctx, p)
		}
		for n := 0; n < 2; n++ {
			kinds := []string{"write", "deadline", "store"}
			if reconnect {
				kinds = []string{"write", "deadline"}
			} else if !storage {
				kinds = kinds[:2]
			}
			kind := kinds[w.Choose(len(kinds), "failure")]
			if kind == "store" {
				st.fault = func(op string) error { st.fault = nil; return errFault }
			} else {
				c.conn.fault = func(op string, size int) (int, error) {
					if op != "write" && kind == "write" {
						return 0, nil
					}
					c.conn.fault = nil
					return 0, errFault
				}
			}
			sent := len(c.conn.srv.recv)
			if err := attempt(); err == nil || len(c.conn.srv.recv) != sent {
				w.Bad("unsent", "%s failed, but publishing returns %v (sent %v)", kind, err, c.conn.srv.dump()[sent:])
				return
			}
			c.conn.fault, st.fault = nil, nil
			if reconnect {
				c.disc()
				c = up(fmt.Sprint("next ", n))
			}
			for k := w.Choose(2, "others"); k >= 0; k-- {
				switch w.Choose(5, "other") {
				case 1:
					w.idErr(c.pub(1, "y"))
				case 2:
					w.idErr(c.pub(2, "y"))
				case 3, 4:
					ctx, cancel := vs.WithCancel(context.Background())
					cancel()
					if k == 0 {
						c.Subscribe(ctx, []mqtt.Topic{topic("f", 0, nil)})
					} else {
						c.Unsubscribe(ctx, []string{"f"})
					}
				}
			}
		}
		w.idErr(attempt())
	}}
}

func identifierScenarios(th bool) (r []Scenario) {
	for _, q := range []byte{1, 2} {
		for k := 0; k < 4; k++ {
			r = append(r, retried(q, k&1 == 1, k&2 == 2))
		}
	}
	for _, st := range []bool{false, true} {
		r = append(r, identifierHistory(4, st, false))
		s := identifierHistory(5, st, false)
		s.Thorough = true
		r = append(r, s)
	}
	r = append(r, identifierHistory(4, true, true))
	s := identifierHistory(5, true, true)
	s.Thorough = true
	r = append(r, s)
	for _, last := range []string{"subscribe", "unsubscribe", "publish"} {
		r = append(r, exhaust(false, last))
	}
	r = append(r, exhaust(true, "publish"))
	r = append(r, cancelledWrites()...)
	// Concurrent calls with a random number source that always yields the same.
	for _, v := range []uint32{0, 7, 65535} {
		for _, k := range [][]string{{"pub1", "pub2"}, {"pub1", "pub1"}, {"pub2", "sub"}, {"sub", "sub"}, {"sub", "unsub"}, {"pub1", "unsub"}} {
			for _, st := range []bool{false, true} {
				v, k, st := v, k, st
				name := fmt.Sprintf("%s, always %d", strings.Join(k, "+"), v)
				if st {
					name += ", storage"
				}
				r = append(r, Scenario{Name: name, Body: func(w *World) {
					var opts []func(*Client, *packets.Connect)
					if st {
						opts = append(opts, withStore(w.NewStore()))
					}
					c := w.Up("A", opts...)
					c.SetRngFn(func() uint32 { return v })
					c.StartLoop()
					var hs []*vs.Handle
					for i, x := range k {
						x := x
						hs = append(hs, w.T.Go(fmt.Sprint(x, i), func() {
							switch x {
							case "pub1":
								c.pub(1, "a")
							case "pub2":
								c.pub(2, "b")
							case "sub":
								c.sub("s", nil)
							case "unsub":
								c.unsub("u")
							}
						}))
					}
					for _, h := range hs {
						w.T.Join(h)
					}
					c.StopLoop()
				}})
			}
		}
	}
	return
}

func init() {
	suites["R01"] = suite{scenarios: func(th bool) []Scenario { return append(requestScenarios(th), requestIdentifier("R01")) }}
	suites["R02"] = suite{scenarios: identifierScenarios}
}
