package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	p "github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"

	"verif/ref"
)

// ---- C07 ----------------------------------------------------------------------------------------------------------

type sink struct {
	b   []byte
	ops int64
}

func (s *sink) Write(q []byte) (int, error) {
	s.ops++
	s.b = append(s.b, q...)
	return len(q), nil
}

type source struct {
	b    []byte
	step int
	ops  int64
}

func (s *source) Read(q []byte) (int, error) {
	s.ops++
	if len(q) == 0 {
		return 0, nil
	}
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	n := min(len(q), len(s.b), s.step)
	copy(q, s.b[:n])
	s.b = s.b[n:]
	return n, nil
}

func c07(c *check) {
	c.Coverage["rule"] = "all 2^28 variable byte integers, values above the maximum, all 1-4 byte encodings over boundary bytes and all longer continuations; all bytes, all 16-bit values, 32-bit values at every bit boundary; strings at every length 0..65535, above it refused; with and without property identifier; delivered whole and byte by byte. States = distinct values; traces = executions of the real code compared with the reference; transitions = reads and writes on the streams."
	// prim checks one primitive against its expected encoding.
	prim := func(name string, v, w p.Primitive, enc []byte, eq func() bool) {
		c.evals.Add(1)
		desc := func() string { return fmt.Sprintf("%s encoded as %x", name, clip(enc)) }
		c.try(desc, func() {
			var s, t sink
			src := &source{}
			defer func() { c.ops.Add(s.ops + t.ops + src.ops) }()
			n, err := v.WriteTo(&s)
			if err != nil || int(n) != len(enc) || !bytes.Equal(s.b, enc) {
				c.bad("write", desc(), fmt.Sprintf("WriteTo wrote %x, n=%d, err=%v", clip(s.b), n, err))
				return
			}
			if l := v.Length(false); int(l) != len(enc) {
				c.bad("length", desc(), fmt.Sprintf("Length(false) is %d, want %d", l, len(enc)))
				return
			}
			if l := v.Length(true); int(l) != len(enc)+1 {
				c.bad("length", desc(), fmt.Sprintf("Length(true) is %d, want %d", l, len(enc)+1))
				return
			}
			n, err = v.WriteToAsProperty(0x42, &t)
			if err != nil || int(n) != len(enc)+1 || len(t.b) != len(enc)+1 || t.b[0] != 0x42 || !bytes.Equal(t.b[1:], enc) {
				c.bad("write", desc(), fmt.Sprintf("WriteToAsProperty wrote %x, n=%d, err=%v", clip(t.b), n, err))
				return
			}
			steps := []int{1 << 20, 1}
			if len(enc) > 300 {
				steps[1] = 4096
			}
			for _, step := range steps {
				src.b, src.step = append(append([]byte{}, enc...), 0xAA, 0x55), step
				n, err = w.ReadFrom(src)
				if err != nil || int(n) != len(enc) || len(src.b) != 2 || !eq() {
					c.bad("read", desc(), fmt.Sprintf("ReadFrom (pieces of %d) gives %.80v, n=%d, err=%v, %d bytes left", step, w, n, err, len(src.b)))
					return
				}
			}
		})
	}
	const block = 1 << 16
	c.par(1<<28/block, func(bl int) {
		var enc []byte
		var s sink
		src := &source{step: 1 << 20}
		for i := bl * block; i < (bl+1)*block; i++ {
			v := p.VariableByteInt(i)
			enc = ref.AppendVBI(enc[:0], uint32(i))
			s.b = s.b[:0]
			n, err := v.WriteTo(&s)
			if err != nil || int(n) != len(enc) || !bytes.Equal(s.b, enc) || int(v.Length(false)) != len(enc) || int(v.Length(true)) != len(enc)+1 {
				c.bad("write", fmt.Sprintf("variable byte integer %d", i), fmt.Sprintf("written as %x, n=%d, err=%v, length %d, want %x", s.b, n, err, v.Length(false), enc))
				return
			}
			src.b = s.b
			var w p.VariableByteInt
			m, err := w.ReadFrom(src)
			if err != nil || int(m) != len(enc) || w != v || len(src.b) != 0 {
				c.bad("read", fmt.Sprintf("variable byte integer %d", i), fmt.Sprintf("%x is read as %d, n=%d, err=%v", enc, w, m, err))
				return
			}
		}
		c.ops.Add(s.ops + src.ops)
		c.evals.Add(block)
		c.nontrivial.Add(block)
	})
	for _, i := range []uint32{0, 1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455} {
		v, w := p.VariableByteInt(i), p.VariableByteInt(77)
		prim(fmt.Sprintf("variable byte integer %d", i), &v, &w, ref.AppendVBI(nil, i), func() bool { return v == w })
	}
	// Too large a value is refused, and writes nothing.
	over := []uint32{1 << 28, 1<<28 + 1, 1<<29 - 1, 1 << 29, 1 << 30, 1 << 31, 1<<32 - 1}
	for i := uint32(0); i < 1<<16; i++ {
		over = append(over, 1<<28+i*61440)
	}
	for _, i := range over {
		v := p.VariableByteInt(i)
		c.evals.Add(1)
		c.nontrivial.Add(1)
		c.try(func() string { return fmt.Sprint(i) }, func() {
			var s sink
			if _, err := v.WriteTo(&s); err == nil {
				c.bad("write", fmt.Sprintf("variable byte integer %d", i), fmt.Sprintf("a value above 268435455 is written as %x instead of being refused", s.b))
			}
		})
	}
	// Encodings: every sequence over boundary bytes of up to 6 bytes. At most four bytes are taken; longer ones are refused.
	al := []byte{0, 1, 0x7f, 0x80, 0x81, 0xff}
	for l := 1; l <= 6; l++ {
		n := 1
		for i := 0; i < l; i++ {
			n *= len(al)
		}
		for i := 0; i < n; i++ {
			b := make([]byte, l)
			for k, x := 0, i; k < l; k, x = k+1, x/len(al) {
				b[k] = al[x%len(al)]
			}
			want, used := uint32(0), 0
			for used < l {
				want |= uint32(b[used]&0x7f) << (7 * used)
				used++
				if b[used-1]&0x80 == 0 || used == 4 {
					break
				}
			}
			complete := b[used-1]&0x80 == 0
			for _, step := range []int{1, 8} {
				c.evals.Add(1)
				c.try(func() string { return fmt.Sprintf("%x", b) }, func() {
					src := &source{b: append([]byte{}, b...), step: step}
					var v p.VariableByteInt
					k, err := v.ReadFrom(src)
					c.ops.Add(src.ops)
					switch {
					case complete && (err != nil || int(k) != used || uint32(v) != want || len(src.b) != l-used):
						c.bad("read", fmt.Sprintf("bytes %x", b), fmt.Sprintf("read as %d, n=%d, err=%v, want %d from %d bytes", v, k, err, want, used))
					case !complete && err == nil:
						c.bad("read", fmt.Sprintf("bytes %x", b), fmt.Sprintf("an incomplete or overlong encoding is read as %d", v))
					case !complete && l > 5 && len(src.b) < l-5:
						c.bad("read", fmt.Sprintf("bytes %x", b), "more than five bytes are taken")
					}
				})
			}
			c.nontrivial.Add(1)
		}
	}
	for i := 0; i < 256; i++ {
		v, w := p.PrimitiveByte(i), p.PrimitiveByte(^i)
		prim(fmt.Sprintf("byte %d", i), &v, &w, []byte{byte(i)}, func() bool { return v == w && v.Value() == byte(i) && v.Bool() == (i != 0) })
		c.nontrivial.Add(1)
	}
	c.par(65536, func(i int) {
		v, w := p.PrimitiveUint16(i), p.PrimitiveUint16(^i)
		prim(fmt.Sprintf("uint16 %d", i), &v, &w, []byte{byte(i >> 8), byte(i)}, func() bool { return v == w && v.Value() == uint16(i) })
		c.nontrivial.Add(1)
	})
	var u32 []uint32
	for i := 0; i < 32; i++ {
		for j := 0; j <= i; j++ {
			x := uint32(1)<<i | uint32(1)<<j
			u32 = append(u32, x, x-1, ^x)
		}
	}
	for pos := 0; pos < 4; pos++ {
		for b := 0; b < 256; b++ {
			u32 = append(u32, uint32(b)<<(8*pos), 0xffffffff^uint32(b)<<(8*pos))
		}
	}
	for i := 0; i < 1<<16; i++ {
		u32 = append(u32, uint32(i), uint32(i)<<16, uint32(i)*65537)
	}
	c.par(len(u32), func(k int) {
		i := u32[k]
		v, w := p.PrimitiveUint32(i), p.PrimitiveUint32(^i)
		prim(fmt.Sprintf("uint32 %d", i), &v, &w, []byte{byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)}, func() bool { return v == w && v.Value() == i })
		c.nontrivial.Add(1)
	})
	all := str(65535)
	c.par(65536, func(n int) {
		if n > 1000 && n < 65000 && n%64 != 0 && !c.Thorough() && n&255 > 1 {
			return
		}
		v, w := p.PrimitiveString(all[:n]), p.PrimitiveString("previous")
		prim(fmt.Sprintf("string of %d bytes", n), &v, &w, append([]byte{byte(n >> 8), byte(n)}, all[:n]...), func() bool { return v == w && v.String() == all[:n] })
		c.nontrivial.Add(1)
	})
	for i := 0; i < 256; i++ {
		v, w := p.PrimitiveString([]byte{byte(i), 'x', byte(i)}), p.PrimitiveString("")
		prim(fmt.Sprintf("string with byte %d", i), &v, &w, []byte{0, 3, byte(i), 'x', byte(i)}, func() bool { return v == w })
		c.nontrivial.Add(1)
	}
	// Every string of two bytes, and of three and four over the bytes with a meaning in UTF-8.
	alphabet := []byte{0, 1, '\n', ' ', '/', 'a', 0x7f, 0x80, 0xa0, 0xbb, 0xbf, 0xc3, 0xe2, 0xed, 0xef, 0xf0, 0xff}
	var texts []string
	for i := 0; i < 1<<16; i++ {
		texts = append(texts, string([]byte{byte(i >> 8), byte(i)}))
	}
	for _, x := range alphabet {
		for _, y := range alphabet {
			for _, z := range alphabet {
				texts = append(texts, string([]byte{x, y, z}))
				for _, u := range alphabet {
					texts = append(texts, string([]byte{x, y, z, u}))
				}
			}
		}
	}
	c.par(len(texts), func(i int) {
		s := texts[i]
		v, w := p.PrimitiveString(s), p.PrimitiveString("previous")
		prim(fmt.Sprintf("string %q", s), &v, &w, append([]byte{0, byte(len(s))}, s...), func() bool { return v == w && v.String() == s })
		c.nontrivial.Add(1)
	})
	for _, n := range []int{65536, 65537, 65536 + 255, 65536 + 256, 131071, 131072, 1 << 20} {
		v := p.PrimitiveString(strings.Repeat("x", n))
		c.refused(&v, fmt.Sprintf("string of %d bytes", n))
		c.evals.Add(1)
		var s sink
		if _, err := v.WriteToAsProperty(1, &s); err == nil {
			c.bad("not-refused", fmt.Sprintf("string of %d bytes as property", n), "written instead of refused")
		}
	}
	// A source that ends early is an error, never a value.
	for _, x := range []struct {
		name string
		v    func() p.Primitive
		b    []byte
	}{
		{"byte", func() p.Primitive { return new(p.PrimitiveByte) }, []byte{1}},
		{"uint16", func() p.Primitive { return new(p.PrimitiveUint16) }, []byte{1, 2}},
		{"uint32", func() p.Primitive { return new(p.PrimitiveUint32) }, []byte{1, 2, 3, 4}},
		{"varint", func() p.Primitive { return new(p.VariableByteInt) }, []byte{0x81, 0x82, 0x83, 0x04}},
		{"string", func() p.Primitive { return new(p.PrimitiveString) }, []byte{0, 3, 'a', 'b', 'c'}},
	} {
		for n := 0; n < len(x.b); n++ {
			for _, step := range []int{1, 10} {
				c.evals.Add(1)
				if _, err := x.v().ReadFrom(&source{b: append([]byte{}, x.b[:n]...), step: step}); err == nil {
					c.bad("read", fmt.Sprintf("%s from %x", x.name, x.b[:n]), "reading from a source that ends early succeeds")
				}
			}
		}
	}
	c.Sample("variable byte integers 0..268435455, e.g. 16383 = ff7f, 2097152 = 80808001")
}

// ---- C08 ----------------------------------------------------------------------------------------------------------

// Between two resets a payload is either only read or only written, as the interface is meant to be used.
func c08(c *check) {
	depth, maxLen := 6, 8
	if c.Thorough() {
		depth, maxLen = 7, 9
	}
	c.Coverage["rule"] = fmt.Sprintf("every payload length 0..%d x every sequence of %d operations (read k, write k for k in 0..%d, reset) in which reads and writes are not mixed between resets, against a cursor model; plus payloads with a capacity beyond their length. States = distinct sequences; traces = executions of the real code compared with the reference; transitions = operations.", maxLen, depth, 5)
	nops := 6 + 6 + 1
	total := 1
	for i := 0; i < depth; i++ {
		total *= nops
	}
	c.par(total, func(x int) {
		ops := make([]int, depth)
		for i, y := 0, x; i < depth; i, y = i+1, y/nops {
			ops[i] = y % nops
		}
		mode := 0
		for _, o := range ops {
			m := 0
			if o < 6 {
				m = 1
			} else if o < 12 {
				m = 2
			} else {
				mode = 0
			}
			if mode != 0 && m != 0 && m != mode {
				return
			}
			if m != 0 {
				mode = m
			}
		}
		for l := 0; l <= maxLen; l++ {
			c.nontrivial.Add(1)
			c.stream(l, ops)
		}
	})
	// Large pieces and payloads.
	for _, l := range []int{100, 1000, 70000} {
		for _, k := range []int{1, 7, 99, 100, 101, 4096} {
			c.nontrivial.Add(1)
			src := []byte(str(l))
			pub := &packets.Publish{Payload: append([]byte{}, src...)}
			for round := 0; round < 2; round++ {
				var got []byte
				buf := make([]byte, k)
				for i := 0; i <= l+1; i++ {
					n, err := pub.Read(buf)
					c.ops.Add(1)
					got = append(got, buf[:n]...)
					if err == io.EOF {
						break
					} else if err != nil {
						c.bad("read", fmt.Sprintf("payload of %d in pieces of %d", l, k), err.Error())
						break
					}
				}
				c.evals.Add(1)
				if !bytes.Equal(got, src) {
					c.bad("read", fmt.Sprintf("payload of %d in pieces of %d, round %d", l, k, round), fmt.Sprintf("%d bytes read that are not the payload", len(got)))
				}
				pub.Reset()
			}
			w := &packets.Publish{Payload: make([]byte, l)}
			for off := 0; off < l; off += k {
				n, _ := w.Write(src[off:min(l, off+k)])
				if n != min(l, off+k)-off {
					c.bad("write", fmt.Sprintf("payload of %d in pieces of %d", l, k), fmt.Sprintf("%d bytes written at %d", n, off))
				}
			}
			if !bytes.Equal(w.Payload, src) {
				c.bad("write", fmt.Sprintf("payload of %d in pieces of %d", l, k), "the payload is not what was written")
			}
			if n, err := w.Write([]byte("x")); n != 0 || err != io.EOF {
				c.bad("write", fmt.Sprintf("payload of %d in pieces of %d", l, k), fmt.Sprintf("writing to the full payload gives %d, %v", n, err))
			}
		}
	}
	// A publish that was decoded starts reading at its first byte.
	for l := 0; l < 40; l++ {
		e := &ref.Packet{Type: ref.PUBLISH, Topic: "t", Payload: []byte(str(l))}
		var pub packets.Publish
		c.evals.Add(1)
		if _, err := pub.ReadFrom(bytes.NewReader(e.Encode())); err != nil {
			c.bad("decode", fmt.Sprint(l), err.Error())
			continue
		}
		got, err := io.ReadAll(&pub)
		if err != nil || string(got) != str(l) {
			c.bad("read", fmt.Sprintf("decoded payload of %d bytes", l), fmt.Sprintf("reads %q, %v", got, err))
		}
	}
	c.Sample("payload of 5 bytes: Read(2) Read(0) Read(3) Read(1) Reset")
}

func (c *check) stream(l int, ops []int) {
	desc := func() string {
		var s []string
		for _, o := range ops {
			switch {
			case o < 6:
				s = append(s, fmt.Sprintf("Read(%d)", o))
			case o < 12:
				s = append(s, fmt.Sprintf("Write(%d)", o-6))
			default:
				s = append(s, "Reset")
			}
		}
		return fmt.Sprintf("payload of %d bytes: %s", l, strings.Join(s, " "))
	}
	c.try(desc, func() {
		// The payload is a window of a larger array, so an overrun is visible.
		back := []byte("0123456789ABCDEF")
		model := append([]byte{}, back...)
		pub := &packets.Publish{Payload: back[:l]}
		pos := 0
		next := byte('a')
		c.evals.Add(1)
		c.ops.Add(int64(len(ops)))
		for i, o := range ops {
			k := o % 6
			switch {
			case o < 6:
				buf := bytes.Repeat([]byte{'#'}, k)
				n, err := pub.Read(buf)
				want := min(k, l-pos)
				if n != want || !bytes.Equal(buf[:want], model[pos:pos+want]) || strings.Trim(string(buf[want:]), "#") != "" {
					c.bad("read", desc(), fmt.Sprintf("operation %d reads %d bytes %q, want %d", i+1, n, buf, want))
					return
				}
				if want == 0 && k > 0 && err != io.EOF || want > 0 && want == k && err != nil && !(pos+want == l && err == io.EOF) || err != nil && err != io.EOF || err == io.EOF && pos+want < l {
					c.bad("read", desc(), fmt.Sprintf("operation %d returns %d, %v", i+1, n, err))
					return
				}
				pos += want
			case o < 12:
				buf := make([]byte, k)
				for j := range buf {
					buf[j] = next
					next++
				}
				n, err := pub.Write(buf)
				want := min(k, l-pos)
				copy(model[pos:pos+want], buf)
				if n != want || !bytes.Equal(back, model) || len(pub.Payload) != l {
					c.bad("write", desc(), fmt.Sprintf("operation %d writes %d bytes, want %d; payload and what follows it %q, want %q", i+1, n, want, back, model))
					return
				}
				if want == 0 && k > 0 && err != io.EOF || want == k && k > 0 && err != nil {
					c.bad("write", desc(), fmt.Sprintf("operation %d returns %d, %v", i+1, n, err))
					return
				}
				pos += want
			default:
				pub.Reset()
				pos = 0
			}
		}
	})
}
