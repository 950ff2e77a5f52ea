// Package ref is an independent, strict codec of the BACnet octets that the checks
// compare with. It shares no code with the library under test.
package ref

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"unicode/utf16"
)

// ---- values

type (
	Null   struct{}
	Uint   uint32
	Int    int32
	Enum   uint32
	Octets []byte
	// Str is UTF-8 text, Str2 the same text sent as UCS-2
	Str   string
	Str2  string
	Bits  []bool
	Date  struct{ Year, Month, Day, Dow uint8 }
	Time  struct{ H, M, S, Hs uint8 }
	ObjID struct {
		Type     uint16
		Instance uint32
	}
)

// LenForm selects how the length of a tag is written
type LenForm int

const (
	Short LenForm = iota // the fewest octets
	Ext8
	Ext16
	Ext32
)

func be32(v uint32) []byte { return binary.BigEndian.AppendUint32(nil, v) }

// UintBytes is v in the fewest octets
func UintBytes(v uint32) []byte {
	b := be32(v)
	for len(b) > 1 && b[0] == 0 {
		b = b[1:]
	}
	return b
}

// IntBytes is v in two's complement in the fewest octets
func IntBytes(v int32) []byte {
	b := be32(uint32(v))
	for len(b) > 1 && ((b[0] == 0 && b[1] < 0x80) || (b[0] == 0xff && b[1] >= 0x80)) {
		b = b[1:]
	}
	return b
}

// Tag is a tag octet (or octets) with a length
func Tag(num int, ctx bool, length int, form LenForm) []byte {
	first := byte(0)
	if ctx {
		first |= 8
	}
	var b []byte
	lvt := byte(length)
	if form != Short || length > 4 {
		lvt = 5
	}
	first |= lvt
	if num < 15 {
		b = append(b, first|byte(num)<<4)
	} else {
		b = append(b, first|0xf0, byte(num))
	}
	if lvt == 5 {
		switch {
		case form == Ext32 || length > 65535:
			b = append(b, 255)
			b = append(b, be32(uint32(length))...)
		case form == Ext16 || length > 253:
			b = append(b, 254, byte(length>>8), byte(length))
		default:
			b = append(b, byte(length))
		}
	}
	return b
}

func Open(num int) []byte  { return Paren(num, 6) }
func Close(num int) []byte { return Paren(num, 7) }
func Paren(num int, lvt byte) []byte {
	if num < 15 {
		return []byte{byte(num)<<4 | 8 | lvt}
	}
	return []byte{0xf8 | lvt, byte(num)}
}

// Ctx is a context-tagged unsigned or enumerated
func Ctx(num int, v uint32) []byte {
	b := UintBytes(v)
	return append(Tag(num, true, len(b), Short), b...)
}

func CtxObj(num int, o ObjID) []byte {
	return append(Tag(num, true, 4, Short), be32(uint32(o.Type)<<22|o.Instance)...)
}

// InCtx is a value in a context tag
func InCtx(num int, v any, form LenForm) []byte {
	c := []byte{0}
	if b, ok := v.(bool); !ok {
		_, c = content(v)
	} else if b {
		c[0] = 1
	}
	return append(Tag(num, true, len(c), form), c...)
}

// content returns the tag number and the octets of v
func content(v any) (int, []byte) {
	switch x := v.(type) {
	case Null:
		return 0, nil
	case Uint:
		return 2, UintBytes(uint32(x))
	case Int:
		return 3, IntBytes(int32(x))
	case float32:
		return 4, be32(math.Float32bits(x))
	case float64:
		return 5, binary.BigEndian.AppendUint64(nil, math.Float64bits(x))
	case Octets:
		return 6, x
	case Str:
		return 7, append([]byte{0}, x...)
	case Str2:
		b := []byte{4}
		for _, u := range utf16.Encode([]rune(string(x))) {
			b = append(b, byte(u>>8), byte(u))
		}
		return 7, b
	case Bits:
		n := (len(x) + 7) / 8
		b := make([]byte, 1+n)
		b[0] = byte(n*8 - len(x))
		for i, bit := range x {
			if bit {
				b[1+i/8] |= 0x80 >> (i % 8)
			}
		}
		return 8, b
	case Enum:
		return 9, UintBytes(uint32(x))
	case Date:
		return 10, []byte{x.Year, x.Month, x.Day, x.Dow}
	case Time:
		return 11, []byte{x.H, x.M, x.S, x.Hs}
	case ObjID:
		return 12, be32(uint32(x.Type)<<22 | x.Instance)
	}
	panic(fmt.Sprintf("ref: no encoding of %T", v))
}

// App is the application-tagged encoding of v
func App(v any) []byte { return AppForm(v, Short) }

func AppForm(v any, form LenForm) []byte {
	if b, ok := v.(bool); ok {
		if b {
			return []byte{0x11}
		}
		return []byte{0x10}
	}
	num, c := content(v)
	return append(Tag(num, false, len(c), form), c...)
}

// ---- network header

type Addr struct {
	Net uint16
	Mac []byte
}

type NPDU struct {
	Version  uint8
	Priority uint8
	Reply    bool
	Network  bool // network-layer message
	Dst, Src *Addr
	Hop      uint8
	Type     uint8
	Vendor   uint16
}

func (n NPDU) Bytes() []byte {
	c := n.Priority & 3
	if n.Reply {
		c |= 4
	}
	if n.Src != nil {
		c |= 8
	}
	if n.Dst != nil {
		c |= 0x20
	}
	if n.Network {
		c |= 0x80
	}
	b := []byte{n.Version, c}
	for _, a := range []*Addr{n.Dst, n.Src} {
		if a != nil {
			b = append(b, byte(a.Net>>8), byte(a.Net), byte(len(a.Mac)))
			b = append(b, a.Mac...)
		}
	}
	if n.Dst != nil {
		b = append(b, n.Hop)
	}
	if n.Network {
		b = append(b, n.Type)
		if n.Type >= 0x80 {
			b = append(b, byte(n.Vendor>>8), byte(n.Vendor))
		}
	}
	return b
}

var ErrShort = errors.New("ref: cut short")

type rd struct {
	b   []byte
	err error
}

func (r *rd) u8() uint8 {
	if len(r.b) < 1 {
		r.err = ErrShort
		r.b = nil
		return 0
	}
	v := r.b[0]
	r.b = r.b[1:]
	return v
}
func (r *rd) u16() uint16 { h := r.u8(); return uint16(h)<<8 | uint16(r.u8()) }
func (r *rd) take(n int) []byte {
	if n > len(r.b) {
		r.err = ErrShort
		r.b = nil
		return nil
	}
	v := r.b[:n:n]
	r.b = r.b[n:]
	return v
}

// ParseNPDU returns the header and what follows it
func ParseNPDU(b []byte) (n NPDU, rest []byte, err error) {
	r := &rd{b: b}
	n.Version = r.u8()
	c := r.u8()
	n.Priority = c & 3
	n.Reply = c&4 != 0
	n.Network = c&0x80 != 0
	if r.err == nil && c&0x50 != 0 {
		return n, nil, errors.New("ref: reserved NPCI bits set")
	}
	addr := func() *Addr {
		a := &Addr{Net: r.u16()}
		a.Mac = append([]byte{}, r.take(int(r.u8()))...)
		return a
	}
	if c&0x20 != 0 {
		n.Dst = addr()
	}
	if c&8 != 0 {
		n.Src = addr()
	}
	if n.Dst != nil {
		n.Hop = r.u8()
	}
	if n.Network {
		n.Type = r.u8()
		if n.Type >= 0x80 {
			n.Vendor = r.u16()
		}
	}
	return n, r.b, r.err
}

// ---- link header

func BVLC(function byte, payload ...[]byte) []byte {
	b := []byte{0x81, function, 0, 0}
	for _, p := range payload {
		b = append(b, p...)
	}
	b[2], b[3] = byte(len(b)>>8), byte(len(b))
	return b
}

const (
	FuncForwarded = 4
	FuncUnicast   = 10
	FuncBroadcast = 11
)

// ParseBVLC checks type and length strictly
func ParseBVLC(b []byte) (function byte, rest []byte, err error) {
	if len(b) < 4 {
		return 0, nil, ErrShort
	}
	if b[0] != 0x81 {
		return 0, nil, fmt.Errorf("ref: BVLC type %#x", b[0])
	}
	if l := int(b[2])<<8 | int(b[3]); l != len(b) {
		return 0, nil, fmt.Errorf("ref: BVLC length %d of %d octets", l, len(b))
	}
	return b[1], b[4:], nil
}

// ---- application header

const (
	Confirmed   = 0
	Unconfirmed = 1
	SimpleAck   = 2
	ComplexAck  = 3
	SegmentAck  = 4
	ErrorPDU    = 5
	Reject      = 6
	Abort       = 7
)

const (
	SvcReadProperty  = 12
	SvcReadMultiple  = 14
	SvcWriteProperty = 15
	SvcWriteMultiple = 16
	SvcIAm           = 0
	SvcWhoIs         = 8
)

// APDU is a parsed application header
type APDU struct {
	Type               uint8
	Seg, More, SA, Srv bool
	MaxSegs, MaxApdu   uint8 // as encoded
	ID, Seq, Win, Svc  uint8
	Body               []byte
}

func ParseAPDU(b []byte) (a APDU, err error) {
	r := &rd{b: b}
	f := r.u8()
	a.Type = f >> 4
	switch a.Type {
	case Confirmed:
		a.Seg, a.More, a.SA = f&8 != 0, f&4 != 0, f&2 != 0
		m := r.u8()
		a.MaxSegs, a.MaxApdu = m>>4, m&15
		a.ID = r.u8()
		if a.Seg {
			a.Seq, a.Win = r.u8(), r.u8()
		}
		a.Svc = r.u8()
	case Unconfirmed:
		a.Svc = r.u8()
	case SimpleAck, ErrorPDU:
		a.ID, a.Svc = r.u8(), r.u8()
	case ComplexAck:
		a.Seg, a.More = f&8 != 0, f&4 != 0
		a.ID = r.u8()
		if a.Seg {
			a.Seq, a.Win = r.u8(), r.u8()
		}
		a.Svc = r.u8()
	case SegmentAck:
		a.ID, a.Seq, a.Win = r.u8(), r.u8(), r.u8()
	case Reject, Abort:
		a.Srv = f&1 != 0
		a.ID = r.u8()
		a.Svc = r.u8() // the reason
	default:
		return a, fmt.Errorf("ref: PDU type %d", a.Type)
	}
	a.Body = r.b
	return a, r.err
}

// ReqHeader is the header of the unsegmented requests that the library makes
func ReqHeader(id, svc byte) []byte { return []byte{0x00, 0x05, id, svc} }

// ---- services

const ArrayAll = 0xFFFFFFFF

type Prop struct {
	ID    uint32
	Index uint32 // ArrayAll: the whole property
	Vals  []any  // values, application-tagged
	Raw   []byte // replaces Vals when not nil
	Err   *[2]uint32
	Prio  uint8
}

// DateTime is a date and a time that belong together
type DateTime struct {
	Date
	Time
}

type Obj struct {
	ID    ObjID
	Props []Prop
}

func vals(p Prop) []byte {
	if p.Raw != nil {
		return p.Raw
	}
	var b []byte
	for _, v := range p.Vals {
		b = append(b, App(v)...)
	}
	return b
}

func cat(bs ...[]byte) []byte {
	var out []byte
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

// Cat joins octets
func Cat(bs ...[]byte) []byte { return cat(bs...) }

func idx(tag int, i uint32) []byte {
	if i == ArrayAll {
		return nil
	}
	return Ctx(tag, i)
}

func ReadPropertyReq(o ObjID, prop, index uint32) []byte {
	return cat(CtxObj(0, o), Ctx(1, prop), idx(2, index))
}

func WritePropertyReq(o ObjID, p Prop) []byte {
	b := cat(CtxObj(0, o), Ctx(1, p.ID), idx(2, p.Index), Open(3), vals(p), Close(3))
	if p.Prio != 0 {
		b = append(b, Ctx(4, uint32(p.Prio))...)
	}
	return b
}

func ReadMultipleReq(objs []Obj) []byte {
	var b []byte
	for _, o := range objs {
		b = append(b, cat(CtxObj(0, o.ID), Open(1))...)
		for _, p := range o.Props {
			b = append(b, cat(Ctx(0, p.ID), idx(1, p.Index))...)
		}
		b = append(b, Close(1)...)
	}
	return b
}

func WriteMultipleReq(objs []Obj) []byte {
	var b []byte
	for _, o := range objs {
		b = append(b, cat(CtxObj(0, o.ID), Open(1))...)
		for _, p := range o.Props {
			b = append(b, cat(Ctx(0, p.ID), idx(1, p.Index), Open(2), vals(p), Close(2))...)
			if p.Prio != 0 {
				b = append(b, Ctx(3, uint32(p.Prio))...)
			}
		}
		b = append(b, Close(1)...)
	}
	return b
}

// ReadPropertyAck is the service part of the acknowledgement
func ReadPropertyAck(o ObjID, p Prop) []byte {
	return cat(CtxObj(0, o), Ctx(1, p.ID), idx(2, p.Index), Open(3), vals(p), Close(3))
}

func ReadMultipleAck(objs []Obj) []byte {
	var b []byte
	for _, o := range objs {
		b = append(b, cat(CtxObj(0, o.ID), Open(1))...)
		for _, p := range o.Props {
			b = append(b, cat(Ctx(2, p.ID), idx(3, p.Index))...)
			if p.Err != nil {
				b = append(b, cat(Open(5), App(Enum(p.Err[0])), App(Enum(p.Err[1])), Close(5))...)
			} else {
				b = append(b, cat(Open(4), vals(p), Close(4))...)
			}
		}
		b = append(b, Close(1)...)
	}
	return b
}

func IAm(dev ObjID, maxApdu, seg, vendor uint32) []byte {
	return cat([]byte{0x10, SvcIAm}, App(dev), App(Uint(maxApdu)), App(Enum(seg)), App(Uint(vendor)))
}

func WhoIs(low, high int64) []byte {
	b := []byte{0x10, SvcWhoIs}
	if low >= 0 {
		b = append(b, cat(Ctx(0, uint32(low)), Ctx(1, uint32(high)))...)
	}
	return b
}

func ErrorAnswer(id, svc byte, class, code uint32) []byte {
	return cat([]byte{0x50, id, svc}, App(Enum(class)), App(Enum(code)))
}
func Complex(id, svc byte, body []byte) []byte { return cat([]byte{0x30, id, svc}, body) }
func Simple(id, svc byte) []byte               { return []byte{0x20, id, svc} }

// ---- strict parsing of requests

type tag struct {
	num    int
	ctx    bool
	open   bool
	close_ bool
	n      uint32
	minLen bool
}

func (r *rd) tag() (t tag) {
	f := r.u8()
	t.num = int(f >> 4)
	t.ctx = f&8 != 0
	if t.num == 15 {
		t.num = int(r.u8())
	}
	t.minLen = true
	switch l := f & 7; {
	case t.ctx && l == 6:
		t.open = true
	case t.ctx && l == 7:
		t.close_ = true
	case l == 5:
		switch e := r.u8(); e {
		case 254:
			t.n = uint32(r.u16())
			t.minLen = t.n > 253
		case 255:
			h := r.u16()
			t.n = uint32(h)<<16 | uint32(r.u16())
			t.minLen = t.n > 65535
		default:
			t.n = uint32(e)
			t.minLen = t.n > 4
		}
	case l > 5:
		r.err = fmt.Errorf("ref: tag %#x", f)
	default:
		t.n = uint32(l)
	}
	return t
}

func (r *rd) uintOf(n uint32) uint32 {
	if n < 1 || n > 4 {
		r.fail("unsigned of %d octets", n)
		return 0
	}
	b := r.take(int(n))
	if len(b) > 1 && b[0] == 0 {
		r.fail("unsigned not in the fewest octets")
	}
	var v uint32
	for _, x := range b {
		v = v<<8 | uint32(x)
	}
	return v
}

func (r *rd) fail(f string, a ...any) {
	if r.err == nil {
		r.err = fmt.Errorf("ref: "+f, a...)
	}
}

func (r *rd) ctxUint(num int) uint32 {
	t := r.tag()
	if !t.ctx || t.open || t.close_ || t.num != num || !t.minLen {
		r.fail("expected context tag %d, got %+v", num, t)
		return 0
	}
	return r.uintOf(t.n)
}

func (r *rd) ctxObj(num int) ObjID {
	t := r.tag()
	if !t.ctx || t.num != num || t.n != 4 {
		r.fail("expected object in context tag %d, got %+v", num, t)
		return ObjID{}
	}
	h := r.u16()
	v := uint32(h)<<16 | uint32(r.u16())
	return ObjID{uint16(v >> 22), v & 0x3fffff}
}

func (r *rd) peek(num int, kind byte) bool { // kind 0: primitive, 6: opening, 7: closing
	if len(r.b) == 0 || r.b[0]>>4 != byte(num) || r.b[0]&8 == 0 {
		return false
	}
	l := r.b[0] & 7
	if kind == 0 {
		return l < 6
	}
	return l == kind
}

func (r *rd) paren(num int, kind byte) {
	if !r.peek(num, kind) {
		r.fail("expected paren %d of tag %d, got % x", kind, num, r.b[:min(len(r.b), 4)])
		return
	}
	r.b = r.b[1:]
}

// value reads application-tagged values up to the closing tag num
func (r *rd) value(num int) []any {
	r.paren(num, 6)
	out := []any{}
	for r.err == nil && !r.peek(num, 7) {
		v, rest, err := ParseApp(r.b)
		if err != nil {
			r.fail("%v", err)
			return nil
		}
		r.b = rest
		out = append(out, v)
	}
	r.paren(num, 7)
	return out
}

// ParseApp reads one application-tagged value in its canonical encoding
func ParseApp(b []byte) (v any, rest []byte, err error) {
	r := &rd{b: b}
	t := r.tag()
	if r.err != nil {
		return nil, nil, r.err
	}
	if t.ctx || !t.minLen {
		return nil, nil, fmt.Errorf("ref: not an application tag: % x", b[:min(4, len(b))])
	}
	if t.num == 1 {
		return t.n == 1, r.b, nil
	}
	c := r.take(int(t.n))
	if r.err != nil {
		return nil, nil, r.err
	}
	switch t.num {
	case 0:
		v = Null{}
	case 2, 9:
		q := &rd{b: c}
		u := q.uintOf(uint32(len(c)))
		if q.err != nil {
			return nil, nil, q.err
		}
		if t.num == 2 {
			v = Uint(u)
		} else {
			v = Enum(u)
		}
	case 3:
		if len(c) < 1 || len(c) > 4 {
			return nil, nil, errors.New("ref: signed length")
		}
		u := int32(int8(c[0]))
		for _, x := range c[1:] {
			u = u<<8 | int32(x)
		}
		v = Int(u)
	case 4:
		if len(c) != 4 {
			return nil, nil, errors.New("ref: real length")
		}
		v = math.Float32frombits(binary.BigEndian.Uint32(c))
	case 5:
		if len(c) != 8 {
			return nil, nil, errors.New("ref: double length")
		}
		v = math.Float64frombits(binary.BigEndian.Uint64(c))
	case 6:
		v = Octets(c)
	case 7:
		if len(c) < 1 || c[0] != 0 {
			return nil, nil, errors.New("ref: text")
		}
		v = Str(c[1:])
	case 12:
		if len(c) != 4 {
			return nil, nil, errors.New("ref: object id length")
		}
		u := binary.BigEndian.Uint32(c)
		v = ObjID{uint16(u >> 22), u & 0x3fffff}
	default:
		return nil, nil, fmt.Errorf("ref: tag %d", t.num)
	}
	if enc := App(v); len(enc) > len(b) || string(enc) != string(b[:len(enc)]) {
		return nil, nil, fmt.Errorf("ref: % x is not the canonical encoding of %v", b[:min(8, len(b))], v)
	}
	return v, r.b, nil
}

func (r *rd) end() error {
	if r.err == nil && len(r.b) > 0 {
		return fmt.Errorf("ref: %d octets too many", len(r.b))
	}
	return r.err
}

func ParseReadProperty(b []byte) (o ObjID, p Prop, err error) {
	r := &rd{b: b}
	o = r.ctxObj(0)
	p.ID = r.ctxUint(1)
	p.Index = ArrayAll
	if r.err == nil && len(r.b) > 0 {
		p.Index = r.ctxUint(2)
	}
	return o, p, r.end()
}

func ParseWriteProperty(b []byte) (o ObjID, p Prop, err error) {
	r := &rd{b: b}
	o = r.ctxObj(0)
	p.ID = r.ctxUint(1)
	p.Index = ArrayAll
	if r.peek(2, 0) {
		p.Index = r.ctxUint(2)
	}
	p.Vals = r.value(3)
	if r.err == nil && len(r.b) > 0 {
		p.Prio = uint8(r.ctxUint(4))
	}
	return o, p, r.end()
}

func ParseReadMultiple(b []byte) (objs []Obj, err error) {
	r := &rd{b: b}
	for r.err == nil && len(r.b) > 0 {
		o := Obj{ID: r.ctxObj(0)}
		r.paren(1, 6)
		for r.err == nil && !r.peek(1, 7) {
			p := Prop{ID: r.ctxUint(0), Index: ArrayAll}
			if r.peek(1, 0) {
				p.Index = r.ctxUint(1)
			}
			o.Props = append(o.Props, p)
		}
		r.paren(1, 7)
		objs = append(objs, o)
	}
	return objs, r.end()
}

func ParseWriteMultiple(b []byte) (objs []Obj, err error) {
	r := &rd{b: b}
	for r.err == nil && len(r.b) > 0 {
		o := Obj{ID: r.ctxObj(0)}
		r.paren(1, 6)
		for r.err == nil && !r.peek(1, 7) {
			p := Prop{ID: r.ctxUint(0), Index: ArrayAll}
			if r.peek(1, 0) {
				p.Index = r.ctxUint(1)
			}
			p.Vals = r.value(2)
			if r.peek(3, 0) {
				p.Prio = uint8(r.ctxUint(3))
			}
			o.Props = append(o.Props, p)
		}
		r.paren(1, 7)
		objs = append(objs, o)
	}
	return objs, r.end()
}

// ParseWhoIs returns -1, -1 when there are no limits
func ParseWhoIs(b []byte) (low, high int64, err error) {
	if len(b) == 0 {
		return -1, -1, nil
	}
	r := &rd{b: b}
	low = int64(r.ctxUint(0))
	high = int64(r.ctxUint(1))
	return low, high, r.end()
}
