// Package ref is an independent MQTT 5 codec written from the specification. It shares no code with the library under
// test and is strict: anything the specification does not allow is an error.
package ref

import (
	"errors"
	"fmt"
	"sort"
	"unicode/utf8"
)

const (
	CONNECT = iota + 1
	CONNACK
	PUBLISH
	PUBACK
	PUBREC
	PUBREL
	PUBCOMP
	SUBSCRIBE
	SUBACK
	UNSUBSCRIBE
	UNSUBACK
	PINGREQ
	PINGRESP
	DISCONNECT
	AUTH
	WILL // pseudo packet type: will properties
)

var TypeNames = []string{"RESERVED", "CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBSCRIBE",
	"SUBACK", "UNSUBSCRIBE", "UNSUBACK", "PINGREQ", "PINGRESP", "DISCONNECT", "AUTH", "WILL"}

type Kind byte

const (
	U8 Kind = iota
	U16
	U32
	VAR
	STR
	BIN
	PAIR
)

type propDef struct {
	kind Kind
	in   []byte
}

// Table 2-4 of the specification.
var PropTable = map[byte]propDef{
	0x01: {U8, []byte{PUBLISH, WILL}},
	0x02: {U32, []byte{PUBLISH, WILL}},
	0x03: {STR, []byte{PUBLISH, WILL}},
	0x08: {STR, []byte{PUBLISH, WILL}},
	0x09: {BIN, []byte{PUBLISH, WILL}},
	0x0B: {VAR, []byte{PUBLISH, SUBSCRIBE}},
	0x11: {U32, []byte{CONNECT, CONNACK, DISCONNECT}},
	0x12: {STR, []byte{CONNACK}},
	0x13: {U16, []byte{CONNACK}},
	0x15: {STR, []byte{CONNECT, CONNACK, AUTH}},
	0x16: {BIN, []byte{CONNECT, CONNACK, AUTH}},
	0x17: {U8, []byte{CONNECT}},
	0x18: {U32, []byte{WILL}},
	0x19: {U8, []byte{CONNECT}},
	0x1A: {STR, []byte{CONNACK}},
	0x1C: {STR, []byte{CONNACK, DISCONNECT}},
	0x1F: {STR, []byte{CONNACK, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, DISCONNECT, AUTH}},
	0x21: {U16, []byte{CONNECT, CONNACK}},
	0x22: {U16, []byte{CONNECT, CONNACK}},
	0x23: {U16, []byte{PUBLISH}},
	0x24: {U8, []byte{CONNACK}},
	0x25: {U8, []byte{CONNACK}},
	0x26: {PAIR, []byte{CONNECT, CONNACK, PUBLISH, WILL, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK, DISCONNECT, AUTH}},
	0x27: {U32, []byte{CONNECT, CONNACK}},
	0x28: {U8, []byte{CONNACK}},
	0x29: {U8, []byte{CONNACK}},
	0x2A: {U8, []byte{CONNACK}},
}

// PropKind reports the wire type of a property.
func PropKind(id byte) Kind { return PropTable[id].kind }

// Allowed lists the property identifiers allowed in a packet type, ascending.
func Allowed(t byte) (ids []byte) {
	for id, d := range PropTable {
		for _, p := range d.in {
			if p == t {
				ids = append(ids, id)
			}
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return
}

type Prop struct {
	ID   byte
	Num  uint32
	S, V string
}

type Filter struct {
	Filter string
	Opts   byte
}

type Packet struct {
	Type, Flags byte

	ProtoName          string
	ProtoVer           byte
	ConnFlags          byte
	KeepAlive          uint16
	ClientID           string
	WillProps          []Prop
	WillTopic          string
	WillPayload        string
	Username, Password string

	ID        uint16
	HasReason bool
	Reason    byte
	AckFlags  byte
	HasProps  bool
	Props     []Prop

	Topic   string
	Payload []byte

	Filters []Filter
	Codes   []byte
}

func (p *Packet) QoS() byte    { return p.Flags >> 1 & 3 }
func (p *Packet) Retain() bool { return p.Flags&1 != 0 }
func (p *Packet) Dup() bool    { return p.Flags&8 != 0 }

func (p *Packet) String() string {
	if p == nil {
		return "<nil>"
	}
	s := TypeNames[p.Type]
	switch p.Type {
	case CONNECT:
		s += fmt.Sprintf("(client=%q keepalive=%d flags=%#x)", clip(p.ClientID), p.KeepAlive, p.ConnFlags)
	case PUBLISH:
		s += fmt.Sprintf("(q%d id=%d %q %q dup=%v retain=%v)", p.QoS(), p.ID, clip(p.Topic), clip(string(p.Payload)), p.Dup(), p.Retain())
	case PUBACK, PUBREC, PUBREL, PUBCOMP:
		s += fmt.Sprintf("(id=%d rc=%#x)", p.ID, p.Reason)
	case SUBSCRIBE, UNSUBSCRIBE:
		s += fmt.Sprintf("(id=%d %v)", p.ID, p.Filters)
	case SUBACK, UNSUBACK:
		s += fmt.Sprintf("(id=%d %x)", p.ID, p.Codes)
	case CONNACK, DISCONNECT, AUTH:
		s += fmt.Sprintf("(rc=%#x)", p.Reason)
	}
	if len(p.Props) > 0 {
		s += fmt.Sprintf("+%dprops", len(p.Props))
	}
	return s
}

func clip(s string) string {
	if len(s) > 20 {
		return s[:20] + "..."
	}
	return s
}

// Prop returns the first property with the identifier.
func (p *Packet) Prop(id byte) (Prop, bool) {
	for _, q := range p.Props {
		if q.ID == id {
			return q, true
		}
	}
	return Prop{}, false
}

// ErrIncomplete means the bytes are a proper prefix of a packet.
var ErrIncomplete = errors.New("incomplete")

type rd struct {
	b   []byte
	i   int
	err error
}

func (r *rd) fail(f string, a ...any) {
	if r.err == nil {
		r.err = fmt.Errorf(f, a...)
	}
}
func (r *rd) left() int { return len(r.b) - r.i }
func (r *rd) take(n int) []byte {
	if r.err != nil {
		return make([]byte, min(n, 8))
	}
	if r.left() < n {
		r.fail("packet body ends inside a field (need %d bytes, %d left)", n, r.left())
		return make([]byte, min(n, 8))
	}
	v := r.b[r.i : r.i+n]
	r.i += n
	return v
}
func (r *rd) u8() byte    { return r.take(1)[0] }
func (r *rd) u16() uint16 { v := r.take(2); return uint16(v[0])<<8 | uint16(v[1]) }
func (r *rd) u32() uint32 {
	v := r.take(4)
	return uint32(v[0])<<24 | uint32(v[1])<<16 | uint32(v[2])<<8 | uint32(v[3])
}
func (r *rd) bin() string {
	n := int(r.u16())
	if r.err != nil {
		return ""
	}
	v := r.take(n)
	if r.err != nil {
		return ""
	}
	return string(v)
}
func (r *rd) str() string {
	s := r.bin()
	if !utf8.ValidString(s) {
		r.fail("string is not valid UTF-8")
	}
	for i := 0; i < len(s); i++ {
		if s[i] == 0 {
			r.fail("string contains U+0000")
		}
	}
	return s
}
func (r *rd) vbi() uint32 {
	var v uint32
	for i := 0; ; i++ {
		if i == 4 {
			r.fail("variable byte integer longer than 4 bytes")
			return 0
		}
		b := r.u8()
		if r.err != nil {
			return 0
		}
		v |= uint32(b&0x7f) << (7 * uint(i))
		if b&0x80 == 0 {
			if i > 0 && b == 0 {
				r.fail("variable byte integer is not minimal")
			}
			return v
		}
	}
}

func (r *rd) props(t byte) []Prop {
	n := int(r.vbi())
	if r.err != nil {
		return nil
	}
	if n > r.left() {
		r.fail("property length %d exceeds the rest of the packet (%d)", n, r.left())
		return nil
	}
	q := rd{b: r.b[r.i : r.i+n]}
	r.i += n
	var out []Prop
	seen := map[byte]bool{}
	for q.left() > 0 && q.err == nil {
		id := q.u8()
		d, ok := PropTable[id]
		if !ok {
			q.fail("unknown property identifier %#x", id)
			break
		}
		allowed := false
		for _, p := range d.in {
			if p == t {
				allowed = true
			}
		}
		if !allowed {
			q.fail("property %#x is not allowed in %s", id, TypeNames[t])
		}
		if seen[id] && id != 0x26 && !(id == 0x0B && t == PUBLISH) {
			q.fail("property %#x occurs twice", id)
		}
		seen[id] = true
		p := Prop{ID: id}
		switch d.kind {
		case U8:
			p.Num = uint32(q.u8())
			switch id {
			case 0x01, 0x17, 0x19, 0x24, 0x25, 0x28, 0x29, 0x2A:
				if p.Num > 1 {
					q.fail("property %#x has the value %d", id, p.Num)
				}
			}
		case U16:
			p.Num = uint32(q.u16())
			if (id == 0x21 || id == 0x23) && p.Num == 0 {
				q.fail("property %#x is zero", id)
			}
		case U32:
			p.Num = q.u32()
			if id == 0x27 && p.Num == 0 {
				q.fail("maximum packet size is zero")
			}
		case VAR:
			p.Num = q.vbi()
			if p.Num == 0 {
				q.fail("subscription identifier is zero")
			}
		case STR:
			p.S = q.str()
		case BIN:
			p.S = q.bin()
		case PAIR:
			p.S = q.str()
			p.V = q.str()
		}
		out = append(out, p)
	}
	if q.err != nil {
		r.fail("properties: %v", q.err)
	}
	return out
}

// Frame splits off the first packet: header byte, body and total length.
func Frame(b []byte) (head byte, body []byte, n int, err error) {
	if len(b) < 2 {
		return 0, nil, 0, ErrIncomplete
	}
	v, i := 0, 1
	for k := 0; ; k++ {
		if k == 4 {
			return 0, nil, 0, errors.New("remaining length longer than 4 bytes")
		}
		if i >= len(b) {
			return 0, nil, 0, ErrIncomplete
		}
		v |= int(b[i]&0x7f) << (7 * uint(k))
		i++
		if b[i-1]&0x80 == 0 {
			if k > 0 && b[i-1] == 0 {
				return 0, nil, 0, errors.New("remaining length is not minimal")
			}
			break
		}
	}
	if len(b)-i < v {
		return b[0], nil, i + v, ErrIncomplete
	}
	return b[0], b[i : i+v], i + v, nil
}

// Decode decodes the first packet of b strictly and returns the number of bytes it occupies.
func Decode(b []byte) (*Packet, int, error) {
	head, body, n, err := Frame(b)
	if err != nil {
		return nil, n, err
	}
	p := &Packet{Type: head >> 4, Flags: head & 0xf}
	r := &rd{b: body}
	switch p.Type {
	case PUBLISH:
		if p.QoS() == 3 {
			r.fail("PUBLISH with QoS 3")
		}
		if p.QoS() == 0 && p.Dup() {
			r.fail("PUBLISH QoS 0 with DUP")
		}
	case PUBREL, SUBSCRIBE, UNSUBSCRIBE:
		if p.Flags != 2 {
			r.fail("%s with flags %#x", TypeNames[p.Type], p.Flags)
		}
	default:
		if p.Flags != 0 {
			r.fail("%s with flags %#x", TypeNames[p.Type], p.Flags)
		}
	}
	switch p.Type {
	case CONNECT:
		p.ProtoName = r.str()
		p.ProtoVer = r.u8()
		if r.err == nil && (p.ProtoName != "MQTT" || p.ProtoVer != 5) {
			r.fail("protocol %q version %d", p.ProtoName, p.ProtoVer)
		}
		p.ConnFlags = r.u8()
		f := p.ConnFlags
		if f&1 != 0 {
			r.fail("reserved connect flag set")
		}
		if f&4 == 0 && f&0x38 != 0 {
			r.fail("will flags without will")
		}
		if f>>3&3 == 3 {
			r.fail("will QoS 3")
		}
		p.KeepAlive = r.u16()
		p.Props = r.props(CONNECT)
		p.HasProps = true
		p.ClientID = r.str()
		if f&4 != 0 {
			p.WillProps = r.props(WILL)
			p.WillTopic = r.str()
			p.WillPayload = r.bin()
		}
		if f&0x80 != 0 {
			p.Username = r.str()
		}
		if f&0x40 != 0 {
			p.Password = r.bin()
		}
		_, am := p.Prop(0x15)
		_, ad := p.Prop(0x16)
		if ad && !am {
			r.fail("authentication data without method")
		}
	case CONNACK:
		p.AckFlags = r.u8()
		if p.AckFlags > 1 {
			r.fail("reserved CONNACK flags")
		}
		p.HasReason = true
		p.Reason = r.u8()
		p.Props = r.props(CONNACK)
		p.HasProps = true
	case PUBLISH:
		p.Topic = r.str()
		if p.QoS() > 0 {
			p.ID = r.u16()
			if p.ID == 0 {
				r.fail("packet identifier 0")
			}
		}
		p.Props = r.props(PUBLISH)
		p.HasProps = true
		if r.err == nil {
			p.Payload = append([]byte{}, r.take(r.left())...)
		}
		if _, ok := p.Prop(0x23); !ok && p.Topic == "" {
			r.fail("PUBLISH without topic and alias")
		}
		for i := 0; i < len(p.Topic); i++ {
			if p.Topic[i] == '#' || p.Topic[i] == '+' {
				r.fail("wildcard in topic name")
			}
		}
	case PUBACK, PUBREC, PUBREL, PUBCOMP:
		p.ID = r.u16()
		if p.ID == 0 {
			r.fail("packet identifier 0")
		}
		if r.left() > 0 {
			p.HasReason = true
			p.Reason = r.u8()
		}
		if r.left() > 0 {
			p.HasProps = true
			p.Props = r.props(p.Type)
		}
		okc := map[byte]bool{0: true, 0x92: p.Type == PUBREL || p.Type == PUBCOMP}
		if p.Type == PUBACK || p.Type == PUBREC {
			for _, c := range []byte{0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99} {
				okc[c] = true
			}
		}
		if !okc[p.Reason] {
			r.fail("%s with reason code %#x", TypeNames[p.Type], p.Reason)
		}
	case SUBSCRIBE:
		p.ID = r.u16()
		if p.ID == 0 {
			r.fail("packet identifier 0")
		}
		p.Props = r.props(SUBSCRIBE)
		p.HasProps = true
		for r.left() > 0 && r.err == nil {
			f := Filter{Filter: r.str()}
			f.Opts = r.u8()
			if f.Opts&0xC0 != 0 || f.Opts&3 == 3 || f.Opts>>4&3 == 3 {
				r.fail("subscription options %#x", f.Opts)
			}
			if f.Opts&4 != 0 && len(f.Filter) >= 7 && f.Filter[:7] == "$share/" {
				r.fail("No Local on a shared subscription")
			}
			p.Filters = append(p.Filters, f)
		}
		if len(p.Filters) == 0 {
			r.fail("SUBSCRIBE without filters")
		}
	case UNSUBSCRIBE:
		p.ID = r.u16()
		if p.ID == 0 {
			r.fail("packet identifier 0")
		}
		p.Props = r.props(UNSUBSCRIBE)
		p.HasProps = true
		for r.left() > 0 && r.err == nil {
			p.Filters = append(p.Filters, Filter{Filter: r.str()})
		}
		if len(p.Filters) == 0 {
			r.fail("UNSUBSCRIBE without filters")
		}
	case SUBACK, UNSUBACK:
		p.ID = r.u16()
		p.Props = r.props(p.Type)
		p.HasProps = true
		p.Codes = append([]byte{}, r.take(r.left())...)
		if len(p.Codes) == 0 {
			r.fail("no reason codes")
		}
	case PINGREQ, PINGRESP:
	case DISCONNECT, AUTH:
		if r.left() > 0 {
			p.HasReason = true
			p.Reason = r.u8()
		}
		if r.left() > 0 {
			p.HasProps = true
			p.Props = r.props(p.Type)
		}
		_, am := p.Prop(0x15)
		_, ad := p.Prop(0x16)
		if ad && !am {
			r.fail("authentication data without method")
		}
	default:
		r.fail("packet type %d", p.Type)
	}
	if r.err == nil && r.left() > 0 {
		r.fail("%d bytes left over at the end of %s", r.left(), TypeNames[p.Type])
	}
	if r.err != nil {
		return p, n, r.err
	}
	return p, n, nil
}

// ---- encoder -------------------------------------------------------------------------------------------------------

func AppendVBI(b []byte, v uint32) []byte {
	for {
		c := byte(v & 0x7f)
		v >>= 7
		if v > 0 {
			b = append(b, c|0x80)
		} else {
			return append(b, c)
		}
	}
}
func appU16(b []byte, v uint16) []byte { return append(b, byte(v>>8), byte(v)) }
func appU32(b []byte, v uint32) []byte {
	return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}
func appStr(b []byte, s string) []byte { return append(appU16(b, uint16(len(s))), s...) }

func AppendProps(b []byte, ps []Prop) []byte {
	var q []byte
	for _, p := range ps {
		q = append(q, p.ID)
		switch PropTable[p.ID].kind {
		case U8:
			q = append(q, byte(p.Num))
		case U16:
			q = appU16(q, uint16(p.Num))
		case U32:
			q = appU32(q, p.Num)
		case VAR:
			q = AppendVBI(q, p.Num)
		case STR, BIN:
			q = appStr(q, p.S)
		case PAIR:
			q = appStr(appStr(q, p.S), p.V)
		}
	}
	b = AppendVBI(b, uint32(len(q)))
	return append(b, q...)
}

// Body encodes everything after the fixed header. For acknowledgements, DISCONNECT and AUTH, HasReason and HasProps
// select the short forms.
func (p *Packet) Body() []byte {
	var b []byte
	switch p.Type {
	case CONNECT:
		b = appStr(b, p.ProtoName)
		b = append(b, p.ProtoVer, p.ConnFlags)
		b = appU16(b, p.KeepAlive)
		b = AppendProps(b, p.Props)
		b = appStr(b, p.ClientID)
		if p.ConnFlags&4 != 0 {
			b = AppendProps(b, p.WillProps)
			b = appStr(b, p.WillTopic)
			b = appStr(b, p.WillPayload)
		}
		if p.ConnFlags&0x80 != 0 {
			b = appStr(b, p.Username)
		}
		if p.ConnFlags&0x40 != 0 {
			b = appStr(b, p.Password)
		}
	case CONNACK:
		b = append(b, p.AckFlags, p.Reason)
		b = AppendProps(b, p.Props)
	case PUBLISH:
		b = appStr(b, p.Topic)
		if p.QoS() > 0 {
			b = appU16(b, p.ID)
		}
		b = AppendProps(b, p.Props)
		b = append(b, p.Payload...)
	case PUBACK, PUBREC, PUBREL, PUBCOMP:
		b = appU16(b, p.ID)
		if p.HasReason || p.HasProps {
			b = append(b, p.Reason)
		}
		if p.HasProps {
			b = AppendProps(b, p.Props)
		}
	case SUBSCRIBE:
		b = appU16(b, p.ID)
		b = AppendProps(b, p.Props)
		for _, f := range p.Filters {
			b = append(appStr(b, f.Filter), f.Opts)
		}
	case UNSUBSCRIBE:
		b = appU16(b, p.ID)
		b = AppendProps(b, p.Props)
		for _, f := range p.Filters {
			b = appStr(b, f.Filter)
		}
	case SUBACK, UNSUBACK:
		b = appU16(b, p.ID)
		b = AppendProps(b, p.Props)
		b = append(b, p.Codes...)
	case DISCONNECT, AUTH:
		if p.HasReason || p.HasProps {
			b = append(b, p.Reason)
		}
		if p.HasProps {
			b = AppendProps(b, p.Props)
		}
	}
	return b
}

// Encode encodes the packet.
func (p *Packet) Encode() []byte {
	body := p.Body()
	f := p.Flags
	if p.Type == PUBREL || p.Type == SUBSCRIBE || p.Type == UNSUBSCRIBE {
		f = 2
	}
	return WithHeader(p.Type<<4|f, body)
}

// WithHeader prepends a fixed header with the right remaining length.
func WithHeader(head byte, body []byte) []byte {
	b := AppendVBI([]byte{head}, uint32(len(body)))
	return append(b, body...)
}

// NormProps sorts properties (user properties keep their relative order only as a set, which is all the library's map
// type can express) and drops those that carry the specification's default and so mean the same as absence.
func NormProps(ps []Prop) []Prop {
	var out []Prop
	for _, p := range ps {
		if p.ID == 0x01 && p.Num == 0 {
			continue
		}
		if p.ID == 0x16 && p.S == "" {
			continue
		}
		out = append(out, p)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.ID != b.ID {
			return a.ID < b.ID
		}
		if a.S != b.S {
			return a.S < b.S
		}
		if a.V != b.V {
			return a.V < b.V
		}
		return a.Num < b.Num
	})
	return out
}

// SameProps compares property lists up to order and defaults.
func SameProps(a, b []Prop) bool {
	a, b = NormProps(a), NormProps(b)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
