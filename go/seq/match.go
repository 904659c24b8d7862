package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"

	"verif/ref"
)

// matches is section 4.7 of the specification, level by level. Filters that are not valid match nothing.
func matches(filter, topic string) bool {
	fl, tl := strings.Split(filter, "/"), strings.Split(topic, "/")
	for i, l := range fl {
		if strings.ContainsAny(l, "+#") && len(l) > 1 || l == "#" && i != len(fl)-1 {
			return false
		}
	}
	if strings.HasPrefix(topic, "$") && (fl[0] == "+" || fl[0] == "#") {
		return false
	}
	for i, l := range fl {
		if l == "#" {
			return true
		}
		if i >= len(tl) || l != "+" && l != tl[i] {
			return false
		}
		if i == len(tl)-1 && i == len(fl)-2 && fl[i+1] == "#" {
			return true
		}
	}
	return len(fl) == len(tl)
}

// bound returns a client with one event channel bound to each filter.
func (c *check) bound(fs []string) (*session, []mqtt.EventChannel) {
	s, err := open()
	if err != nil {
		c.bad("connect", "", err.Error())
		return nil, nil
	}
	var chans []mqtt.EventChannel
	var topics []mqtt.Topic
	for _, f := range fs {
		ch := s.cl.CreateEventChannel(1)
		chans = append(chans, ch)
		var t mqtt.Topic
		t.SetFilter(f)
		t.SetEventChannel(ch)
		topics = append(topics, t)
	}
	s.cl.SetRngFn(func() uint32 { return 7 })
	done := make(chan error, 1)
	go func() {
		ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
		defer cancel()
		done <- s.cl.Subscribe(ctx, topics)
	}()
	// Wait until the request is registered, then acknowledge it.
	ack := (&ref.Packet{Type: ref.SUBACK, ID: 7, HasProps: true, Codes: make([]byte, len(fs))}).Encode()
	for end := time.Now().Add(30 * time.Second); ; {
		s.cl.KeepAlive() // takes the connection lock, so the SUBSCRIBE has been written if it is in the output
		if _, _, _, err := ref.Frame(s.f.out); err == nil && s.f.out[0]>>4 == ref.SUBSCRIBE {
			break
		}
		s.f.out = nil
		if time.Now().After(end) {
			c.bad("subscribe", fmt.Sprintf("%d filters", len(fs)), "no SUBSCRIBE is sent")
			return nil, nil
		}
		time.Sleep(time.Millisecond)
	}
	s.f.in = ack
	if err := s.cl.Poll(farCtx); err != nil {
		c.bad("subscribe", fmt.Sprintf("%d filters", len(fs)), "polling the SUBACK fails: "+err.Error())
		return nil, nil
	}
	select {
	case err := <-done:
		if err != nil {
			c.bad("subscribe", fmt.Sprintf("%d filters", len(fs)), "subscribing fails: "+err.Error())
			return nil, nil
		}
	case <-time.After(30 * time.Second):
		c.bad("subscribe", fmt.Sprintf("%d filters", len(fs)), "Subscribe does not return after its SUBACK was polled")
		return nil, nil
	}
	return s, chans
}

// allStrings lists all non-empty strings of up to n symbols.
func allStrings(al string, n int) (l []string) {
	cur := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, s := range cur {
			for _, r := range al {
				next = append(next, s+string(r))
			}
		}
		l = append(l, next...)
		cur = next
	}
	return
}

// levels lists all strings of 1..n vocabulary levels joined by slashes, except the empty string.
func levels(vocab []string, n int) (l []string) {
	cur := []string{}
	for i := 0; i < n; i++ {
		var next []string
		if i == 0 {
			next = append(next, vocab...)
		} else {
			for _, s := range cur {
				for _, v := range vocab {
					next = append(next, s+"/"+v)
				}
			}
		}
		cur = next
		for _, s := range cur {
			if s != "" {
				l = append(l, s)
			}
		}
	}
	return
}

// deep makes filters and topics of many levels and with long levels.
func deep() (fs, ts []string) {
	seen := map[string]bool{}
	add := func(l *[]string, s string) {
		key := fmt.Sprintf("%p", l) + s
		if len(s) > 0 && len(s) <= 65535 && !seen[key] {
			seen[key] = true
			*l = append(*l, s)
		}
	}
	var sizes []int
	for n := 1; n <= 12; n++ {
		sizes = append(sizes, n)
	}
	for _, n := range []int{16, 32, 64, 100, 128, 256, 512, 1024} {
		sizes = append(sizes, n-1, n, n+1)
	}
	for _, n := range append(sizes, 32767, 32768) {
		a := strings.Repeat("a/", n-1)
		add(&fs, a+"a")
		add(&fs, a+"b")
		add(&fs, a+"+")
		add(&fs, a+"#")
		add(&fs, "+/"+a+"a")
		add(&fs, strings.Repeat("+/", n-1)+"+")
		add(&fs, strings.Repeat("+/", n-1)+"a")
		add(&fs, a+"/a")
		add(&ts, a+"a")
		add(&ts, a+"b")
		add(&ts, a)
		add(&ts, a+"/a")
	}
	for _, n := range append(sizes, 4095, 4096, 32767, 32768, 65533, 65534, 65535) {
		x := strings.Repeat("x", n)
		for _, s := range []string{"", "/+", "/#", "/y", "y"} {
			add(&fs, x+s)
		}
		for _, s := range []string{"", "/", "/y", "y"} {
			add(&ts, x+s)
		}
	}
	for _, s := range []string{"+", "+/+", "+/y", "#", "+/#"} {
		add(&fs, s)
	}
	return
}

func t01(c *check) {
	fn, tn, ln := 6, 5, 4
	if c.Thorough() {
		fn, tn, ln = 7, 6, 4
	}
	fs, ts := allStrings("ab/+#$", fn), allStrings("ab/$", tn)
	lf := levels([]string{"", "a", "ab", "+", "#", "a+", "+a", "#a", "a#", "$", "$SYS", "é", " "}, ln)
	lt := levels([]string{"", "a", "ab", "b", "$", "$SYS", "é", " "}, ln)
	// Characters: all of one or two bytes, and enough others to have every possible byte of an encoding.
	cf, ct := []string{"+", "+/+", "a/b", "a/+", "+/b", "#", "a/#", "+/#", "a"}, []string{"a/b", "a"}
	char := func(r rune) {
		l := "a" + string(r) + "b"
		cf = append(cf, l)
		if r != '+' && r != '#' {
			ct = append(ct, l)
		}
	}
	for r := rune(1); r < 0x800; r++ {
		char(r)
	}
	for r := rune(0x800); r < 0x10000; r += 0x3c1 {
		if r < 0xd800 || r > 0xdfff {
			char(r)
		}
	}
	for r := rune(0x10000); r < 0x110000; r += 0x3c41 {
		char(r)
	}
	df, dt := deep()
	c.Coverage["rule"] = fmt.Sprintf("every filter of up to %d symbols over {a,b,/,+,#,$} (%d) x every topic of up to %d symbols over {a,b,/,$} (%d); every filter of up to %d levels from a vocabulary with valid and misplaced wildcards (%d) x every topic of up to %d levels (%d); filters and topics with every character of up to two bytes and every possible byte of the longer ones in the place of a separator (%d x %d); filters and topics of up to 32768 levels and with levels of up to 65535 bytes (%d x %d). Each filter is bound to an event channel by a granted subscription of a real client and each topic arrives as a PUBLISH. Filters of shared subscriptions are not included. States = (filter, topic) pairs that match; traces = pairs compared; transitions = reads and writes on the connections.", fn, len(fs), tn, len(ts), ln, len(lf), ln, len(lt), len(cf), len(ct), len(df), len(dt))
	run := func(fs, ts []string) {
		const parts = 8
		c.par(parts, func(k int) {
			var mine []string
			for i := k; i < len(fs); i += parts {
				if !strings.HasPrefix(fs[i], "$share/") {
					mine = append(mine, fs[i])
				}
			}
			s, chans := c.bound(mine)
			if s == nil {
				return
			}
			for len(s.ev.C) > 0 {
				<-s.ev.C
			}
			for _, ch := range chans { // events from the time before the channel was bound
				for len(ch.C) > 0 {
					<-ch.C
				}
			}
			defer func() { c.ops.Add(int64(s.f.ops)) }()
			for _, t := range ts {
				s.f.in = (&ref.Packet{Type: ref.PUBLISH, Topic: t, Payload: []byte("x")}).Encode()
				c.try(func() string { return fmt.Sprintf("topic %q", t) }, func() {
					if err := s.cl.Poll(farCtx); err != nil {
						c.bad("poll", fmt.Sprintf("topic %q", t), "polling a PUBLISH fails: "+err.Error())
					}
				})
				if c.Violations() > 0 {
					return
				}
				if e := s.event(); e == nil {
					c.bad("general", fmt.Sprintf("topic %q", t), "the publish is not announced on the general channel")
				}
				for i, f := range mine {
					want := matches(f, t)
					got := len(chans[i].C)
					if want != (got == 1) {
						c.bad("match", fmt.Sprintf("filter %q, topic %q", f, t), fmt.Sprintf("bound channel received %d events; the filter matches: %v", got, want))
						return
					}
					if got > 0 {
						if e := <-chans[i].C; e.PacketType != packets.PUBLISH {
							c.bad("match", fmt.Sprintf("filter %q, topic %q", f, t), "an event of another type is delivered")
						}
						c.nontrivial.Add(1)
					}
					c.evals.Add(1)
				}
				c.progress.Add(1)
			}
		})
	}
	run(fs, ts)
	run(lf, lt)
	run(cf, ct)
	run(df, dt)
	c.Sample("filter \"+/#\", topic \"a\" -> match; filter \"#\", topic \"$a\" -> no match; filter \"a/+\", topic \"a/\" -> match")
}
