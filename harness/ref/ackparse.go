package ref

import (
	"encoding/binary"
	"fmt"
	"math"
	"unicode/utf8"
)

// Verdict is what the standard says of the service part of an acknowledgement
type Verdict int

const (
	Valid     Verdict = iota // it has to be decoded to exactly what it carries
	Malformed                // it has to be refused
	Unjudged                 // irregular in a way that a reader may accept or refuse
)

type ackReader struct {
	b     []byte
	bad   string // why it is malformed
	loose string // why it is irregular
	multi bool
}

func (r *ackReader) fail(f string, a ...any) {
	if r.bad == "" {
		r.bad = fmt.Sprintf(f, a...)
	}
	r.b = nil
}

func (r *ackReader) odd(f string, a ...any) {
	if r.loose == "" {
		r.loose = fmt.Sprintf(f, a...)
	}
}

func (r *ackReader) take(n int) []byte {
	if n > len(r.b) {
		r.fail("cut short")
		return nil
	}
	v := r.b[:n:n]
	r.b = r.b[n:]
	return v
}

func (r *ackReader) num(n int) (v uint32) {
	for _, x := range r.take(n) {
		v = v<<8 | uint32(x)
	}
	return v
}

func (r *ackReader) tag() (t tag) {
	f := r.num(1)
	t.num, t.ctx, t.minLen = int(f>>4), f&8 != 0, true
	if t.num == 15 {
		if t.num = int(r.num(1)); t.num == 255 || t.num < 15 {
			r.odd("tag number %d in a second octet", t.num)
		}
	}
	switch l := f & 7; {
	case t.ctx && l == 6:
		t.open = true
	case t.ctx && l == 7:
		t.close_ = true
	case l > 5:
		r.fail("application tag that opens or closes")
	case l == 5:
		t.minLen = false
		if t.n = r.num(1); t.n == 254 {
			t.n = r.num(2)
		} else if t.n == 255 {
			t.n = r.num(4)
		}
	default:
		t.n = l
	}
	if r.bad != "" {
		return tag{num: -1}
	}
	return t
}

func (r *ackReader) peek() tag {
	if len(r.b) == 0 {
		return tag{num: -1}
	}
	q := *r
	return q.tag()
}

// field is the content of the primitive context tag num, which has lo to hi octets
func (r *ackReader) field(num int, lo, hi uint32) (v uint32) {
	t := r.tag()
	if t.num != num || !t.ctx || t.open || t.close_ || t.n < lo || t.n > hi {
		r.fail("%+v in place of context tag %d", t, num)
		return 0
	}
	return r.num(int(t.n))
}

func (r *ackReader) object() ObjID {
	v := r.field(0, 4, 4)
	return ObjID{uint16(v >> 22), v & 0x3fffff}
}

func (r *ackReader) paren(num int, open bool) {
	if t := r.tag(); t.num != num || t.open != open || t.close_ == open {
		r.fail("%+v in place of the opening (%v) tag %d", t, open, num)
	}
}

// primitive is the value of a type in n octets
func (r *ackReader) primitive(typ int, n uint32) any {
	if n > uint32(len(r.b)) {
		r.fail("value cut short")
		return nil
	}
	c := r.take(int(n))
	length := func(lo, hi uint32) bool {
		if n < lo || n > hi {
			r.fail("type %d of %d octets", typ, n)
		}
		return n >= lo && n <= hi
	}
	u := func() uint32 { return (&ackReader{b: c}).num(len(c)) }
	switch typ {
	case 0:
		length(0, 0)
		return Null{}
	case 2:
		length(1, 4)
		return Uint(u())
	case 3:
		if !length(1, 4) {
			return nil
		}
		return Int(int32(u()<<(32-8*n)) >> (32 - 8*n))
	case 4:
		length(4, 4)
		return math.Float32frombits(u())
	case 5:
		if !length(8, 8) {
			return nil
		}
		return math.Float64frombits(binary.BigEndian.Uint64(c))
	case 6:
		return Octets(c)
	case 7:
		if !length(1, math.MaxUint32) {
			return nil
		}
		switch {
		case c[0] == 0:
			if !utf8.Valid(c[1:]) {
				r.odd("text that is not UTF-8")
			}
			return Str(c[1:])
		case c[0] == 4:
			if n%2 == 0 {
				r.fail("UCS-2 text cut short")
			}
			var s []rune
			for i := 1; i+1 < len(c); i += 2 {
				x := rune(c[i])<<8 | rune(c[i+1])
				if x >= 0xd800 && x < 0xe000 {
					r.odd("UCS-2 text with surrogates")
				}
				s = append(s, x)
			}
			return Str2(string(s))
		}
		r.odd("character set %d", c[0])
		return nil
	case 8:
		if !length(1, math.MaxUint32) {
			return nil
		}
		if c[0] > 7 || n > 16 {
			r.odd("bit string with %d unused bits in %d octets", c[0], n)
			return nil
		}
		if n == 1 {
			if c[0] > 0 {
				r.fail("no bits, %d of them unused", c[0])
			}
			return Bits{}
		}
		bits := Bits{}
		for i := 0; i < 8*int(n-1)-int(c[0]); i++ {
			bits = append(bits, c[1+i/8]>>(7-uint(i)%8)&1 == 1)
		}
		return bits
	case 9:
		length(1, 4)
		return Enum(u())
	case 10:
		if !length(4, 4) {
			return nil
		}
		return Date{Year: c[0], Month: c[1], Day: c[2], Dow: c[3]}
	case 11:
		if !length(4, 4) {
			return nil
		}
		return Time{H: c[0], M: c[1], S: c[2], Hs: c[3]}
	case 12:
		length(4, 4)
		return ObjID{uint16(u() >> 22), u() & 0x3fffff}
	}
	r.fail("reserved tag %d", typ)
	return nil
}

// the types that the standard gives the context tags of some properties, outside (0) and inside
// (1) a constructed value; -1: none, -2: not judged
var contextTypes = map[uint32][2]map[int]int{
	130: {{0: 11, 1: 2}},
	38:  {{1: 12, 3: 2}},
	132: {{0: 12, 1: 9, 2: 2, 3: 12}},
	211: {{0: 12, 1: 12}},
	102: {{0: 12}},
	152: {{2: 1, 3: 2, 4: 4}},
	2:   {{0: -2, 1: -2, 2: -2, 3: -2, 5: -2, 6: -2, 7: -2, 8: -2}, {0: 12, 1: 12, 2: 9, 3: 2, 5: 2, 6: 2, 7: 1, 8: 1}},
	53:  {{0: 12}, {0: 9, 1: 2}},
	212: {{0: 2, 1: 2, 2: 4}},
	214: {{0: 2, 1: 2, 2: 4}},
	218: {{0: 2, 1: 2, 2: 4}},
}

func contextType(prop uint32, open []int, num int) int {
	levels, ok := contextTypes[prop]
	switch {
	case !ok || len(open) > 0 && levels[1] == nil:
		return -1
	case len(open) > 1 || len(open) == 1 && (prop == 2 && open[0] != 0 || prop == 53 && open[0] != 1):
		return -2
	}
	if t, ok := levels[len(open)][num]; ok {
		return t
	}
	return -1
}

// values are those between the opening tag num, which has been read, and its closing tag
func (r *ackReader) values(prop uint32, num int) (vs []any) {
	vs = []any{}
	var open []int
	for {
		t := r.tag()
		if r.bad != "" {
			return nil
		}
		switch {
		case t.open:
			if r.multi && t.num == 2 {
				q := *r
				d, tm, e := q.tag(), tag{}, tag{}
				q.take(int(min(d.n, 100)))
				tm = q.tag()
				q.take(int(min(tm.n, 100)))
				e = q.tag()
				if q.bad == "" && d.num == 10 && !d.ctx && d.n == 4 && tm.num == 11 && !tm.ctx && tm.n == 4 && e.close_ && e.num == 2 {
					if !d.minLen || !tm.minLen {
						r.odd("time stamp with long lengths")
					}
					r.tag()
					dv := r.primitive(10, 4)
					r.tag()
					tv := r.primitive(11, 4)
					r.tag()
					vs = append(vs, DateTime{Date: dv.(Date), Time: tv.(Time)})
					continue
				}
			}
			open = append(open, t.num)
		case t.close_:
			if len(open) == 0 {
				if t.num != num {
					r.fail("opening tag %d closed with %d", num, t.num)
				}
				return vs
			}
			if last := open[len(open)-1]; last != t.num {
				r.fail("opening tag %d closed with %d", last, t.num)
			}
			open = open[:len(open)-1]
		case t.ctx:
			switch typ := contextType(prop, open, t.num); typ {
			case -2:
				r.odd("context tag %d of property %d in %v", t.num, prop, open)
				r.take(int(min(t.n, 1<<30)))
			case -1:
				r.take(int(min(t.n, 1<<30)))
			case 1:
				if t.n != 1 {
					r.fail("boolean of %d octets", t.n)
				}
				v := r.num(1)
				if v > 1 {
					r.odd("boolean %d", v)
				}
				vs = append(vs, v == 1)
			default:
				vs = append(vs, r.primitive(typ, t.n))
			}
		case t.num == 1:
			if t.n > 1 {
				r.odd("boolean %d", t.n)
			}
			vs = append(vs, t.n == 1)
		default:
			vs = append(vs, r.primitive(t.num, t.n))
		}
	}
}

func (r *ackReader) verdict() (Verdict, string) {
	switch {
	case r.bad != "":
		return Malformed, r.bad
	case r.loose != "":
		return Unjudged, r.loose
	}
	return Valid, ""
}

// ReadReadPropertyAck says whether b is the service part of a ReadProperty acknowledgement and what it carries
func ReadReadPropertyAck(b []byte) (o Obj, v Verdict, why string) {
	r := &ackReader{b: b}
	o.ID = r.object()
	p := Prop{ID: r.field(1, 1, 4), Index: ArrayAll}
	if r.peek().num == 2 {
		p.Index = r.field(2, 1, 4)
	}
	r.paren(3, true)
	if r.bad == "" {
		p.Vals = r.values(p.ID, 3)
	}
	if len(r.b) > 0 {
		r.odd("octets after the value")
	}
	o.Props = []Prop{p}
	v, why = r.verdict()
	return o, v, why
}

// ReadReadMultipleAck says whether b is the service part of a ReadPropertyMultiple acknowledgement
// and what it carries. One with an access error is to be refused, too
func ReadReadMultipleAck(b []byte) (objs []Obj, v Verdict, why string) {
	r := &ackReader{b: b, multi: true}
	for len(r.b) > 0 {
		o := Obj{ID: r.object()}
		r.paren(1, true)
		for r.bad == "" {
			if t := r.peek(); t.num == 1 {
				r.paren(1, false)
				break
			}
			p := Prop{ID: r.field(2, 1, 4), Index: ArrayAll}
			if r.peek().num == 3 {
				p.Index = r.field(3, 1, 4)
			}
			r.paren(4, true)
			if r.bad == "" {
				p.Vals = r.values(p.ID, 4)
				o.Props = append(o.Props, p)
			}
		}
		if len(o.Props) == 0 {
			r.odd("object without properties")
		}
		objs = append(objs, o)
	}
	v, why = r.verdict()
	return objs, v, why
}
