package checks

import (
	"fmt"
	"math/rand"
	"testing"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
	"verif/harness/ref"
	"verif/harness/sim"
)

func init() {
	register("C30", "acknowledgements with constructed values made by an independent encoder: the standard layouts of time stamps, schedules, recipients, subscriptions, commands, groups, shed levels and references, and arbitrary nesting with values in context tags that nothing is known of; decoded directly and through a client, with what cannot be decoded in the place of a value, and changed ones compared with an independent reader", runC30)
}

// cval is a (part of a) property value: its octets and what a reader gets
type cval struct {
	raw  []byte
	want []any
}

func (v *cval) add(w cval) {
	v.raw = append(v.raw, w.raw...)
	v.want = append(v.want, w.want...)
}

func app(v any) cval { return cval{ref.App(v), []any{v}} }

func inCtx(r *rand.Rand, num int, v any) cval {
	form := ref.Short
	if r.Intn(20) == 0 {
		form = []ref.LenForm{ref.Ext8, ref.Ext16, ref.Ext32}[r.Intn(3)]
	}
	return cval{ref.InCtx(num, v, form), []any{v}}
}

// unread is a value in a context tag that is left out
func unread(num int, octets []byte) cval {
	return cval{raw: append(ref.Tag(num, true, len(octets), ref.Short), octets...)}
}

func paren(num int, vs ...cval) cval {
	c := cval{raw: ref.Open(num)}
	for _, v := range vs {
		c.add(v)
	}
	c.raw = append(c.raw, ref.Close(num)...)
	return c
}

func list(vs ...cval) (c cval) {
	for _, v := range vs {
		c.add(v)
	}
	return c
}

func genDate(r *rand.Rand) ref.Date {
	return ref.Date{Year: uint8(r.Intn(256)), Month: uint8(r.Intn(256)), Day: uint8(r.Intn(256)), Dow: uint8(r.Intn(256))}
}

func genTime(r *rand.Rand) ref.Time {
	return ref.Time{H: uint8(r.Intn(256)), M: uint8(r.Intn(256)), S: uint8(r.Intn(256)), Hs: uint8(r.Intn(256))}
}

func genAddress(r *rand.Rand) cval { // BACnetAddress
	return list(app(ref.Uint(r.Intn(65536))), app(genOctets(r, r.Intn(8))))
}

// timeValues is a list of BACnetTimeValue
func timeValues(r *rand.Rand, n int) (c cval) {
	for ; n > 0; n-- {
		c.add(app(genTime(r)))
		c.add(app(genValue(r, false)))
	}
	return c
}

func maybe(r *rand.Rand, v func() cval) cval {
	if r.Intn(2) == 0 {
		return cval{}
	}
	return v()
}

// layouts are the properties with values in context tags, as clause 21 of the standard lays them out.
// multi is whether it is a ReadPropertyMultiple acknowledgement
var layouts = []struct {
	name string
	id   uint32
	gen  func(r *rand.Rand, multi bool) cval
}{
	{"time stamps", 130, func(r *rand.Rand, multi bool) (c cval) {
		for n := []int{3, 3, 1, r.Intn(5)}[r.Intn(4)]; n > 0; n-- {
			switch r.Intn(3) {
			case 0:
				c.add(inCtx(r, 0, genTime(r)))
			case 1:
				c.add(inCtx(r, 1, ref.Uint(genUint(r))))
			default:
				c.add(dateTime(r, multi))
			}
		}
		return c
	}},
	{"weekly schedule", 123, func(r *rand.Rand, multi bool) (c cval) {
		for n := []int{7, 7, 1, r.Intn(8)}[r.Intn(4)]; n > 0; n-- {
			c.add(paren(0, timeValues(r, r.Intn(4))))
		}
		return c
	}},
	{"exception schedule", 38, func(r *rand.Rand, multi bool) (c cval) {
		for n := r.Intn(4); n > 0; n-- {
			switch r.Intn(4) {
			case 0:
				c.add(paren(0, unread(0, []byte{byte(r.Intn(256)), 1, 2, 3})))
			case 1:
				c.add(paren(0, paren(1, app(genDate(r)), app(genDate(r)))))
			case 2:
				c.add(paren(0, unread(2, []byte{byte(r.Intn(256)), 255, 3})))
			default:
				c.add(inCtx(r, 1, genObj(r)))
			}
			c.add(paren(2, timeValues(r, r.Intn(4))))
			c.add(inCtx(r, 3, ref.Uint(1+r.Intn(16))))
		}
		return c
	}},
	{"reference", 132, func(r *rand.Rand, multi bool) cval {
		return list(inCtx(r, 0, genObj(r)), inCtx(r, 1, ref.Enum(genPropID(r))),
			maybe(r, func() cval { return inCtx(r, 2, ref.Uint(genUint(r))) }), maybe(r, func() cval { return inCtx(r, 3, genObj(r)) }))
	}},
	{"subordinates", 211, func(r *rand.Rand, multi bool) (c cval) {
		for n := r.Intn(6); n > 0; n-- {
			c.add(maybe(r, func() cval { return inCtx(r, 0, genObj(r)) }))
			c.add(inCtx(r, 1, genObj(r)))
		}
		return c
	}},
	{"recipients", 102, func(r *rand.Rand, multi bool) (c cval) {
		for n := r.Intn(4); n > 0; n-- {
			c.add(list(app(genBits(r)), app(genTime(r)), app(genTime(r))))
			if r.Intn(2) == 0 {
				c.add(inCtx(r, 0, genObj(r)))
			} else {
				c.add(paren(1, genAddress(r)))
			}
			c.add(list(app(ref.Uint(genUint(r))), app(r.Intn(2) == 0), app(genBits(r))))
		}
		return c
	}},
	{"subscriptions", 152, func(r *rand.Rand, multi bool) (c cval) {
		for n := r.Intn(4); n > 0; n-- {
			who := paren(1, genAddress(r))
			if r.Intn(2) == 0 {
				who = unread(0, []byte{2, 0, 0, byte(r.Intn(256))})
			}
			c.add(paren(0, paren(0, who), unread(1, ref.UintBytes(genUint(r)))))
			what := list(unread(0, []byte{0, 0, 0, 1}), unread(1, []byte{85}))
			if r.Intn(2) == 0 {
				what.add(unread(2, []byte{byte(r.Intn(256))}))
			}
			c.add(paren(1, what))
			c.add(inCtx(r, 2, r.Intn(2) == 0))
			c.add(inCtx(r, 3, ref.Uint(genUint(r))))
			c.add(maybe(r, func() cval { return inCtx(r, 4, genF32(r)) }))
		}
		return c
	}},
	{"command", 2, func(r *rand.Rand, multi bool) (c cval) {
		for n := 1 + r.Intn(2); n > 0; n-- {
			var l cval
			for k := r.Intn(3); k > 0; k-- {
				l.add(maybe(r, func() cval { return inCtx(r, 0, genObj(r)) }))
				l.add(inCtx(r, 1, genObj(r)))
				l.add(inCtx(r, 2, ref.Enum(genPropID(r))))
				l.add(maybe(r, func() cval { return inCtx(r, 3, ref.Uint(genUint(r))) }))
				l.add(paren(4, app(genValue(r, false))))
				l.add(maybe(r, func() cval { return inCtx(r, 5, ref.Uint(1+r.Intn(16))) }))
				l.add(maybe(r, func() cval { return inCtx(r, 6, ref.Uint(genUint(r))) }))
				l.add(inCtx(r, 7, r.Intn(2) == 0))
				l.add(inCtx(r, 8, r.Intn(2) == 0))
			}
			c.add(paren(0, l))
		}
		return c
	}},
	{"group members", 53, func(r *rand.Rand, multi bool) (c cval) {
		for n := r.Intn(4); n > 0; n-- {
			c.add(inCtx(r, 0, genObj(r)))
			var l cval
			for k := 1 + r.Intn(3); k > 0; k-- {
				l.add(inCtx(r, 0, ref.Enum(genPropID(r))))
				l.add(maybe(r, func() cval { return inCtx(r, 1, ref.Uint(genUint(r))) }))
			}
			c.add(paren(1, l))
		}
		return c
	}},
	{"shed level", 212, shedLevel}, {"shed level", 214, shedLevel}, {"shed level", 218, shedLevel},
}

func shedLevel(r *rand.Rand, multi bool) cval {
	if k := r.Intn(3); k < 2 {
		return inCtx(r, k, ref.Uint(genUint(r)))
	}
	return inCtx(r, 2, genF32(r))
}

// dateTime is a BACnetDateTime in a time stamp
func dateTime(r *rand.Rand, multi bool) cval {
	d := ref.DateTime{Date: genDate(r), Time: genTime(r)}
	c := paren(2, app(d.Date), app(d.Time))
	if multi {
		c.want = []any{d}
	}
	return c
}

// known are the properties of which some context tags are understood
func known(id uint32) bool {
	for _, l := range layouts {
		if l.id == id {
			return true
		}
	}
	return false
}

// anyNesting is a value of a property nothing is known of
func anyNesting(r *rand.Rand, multi bool, depth int) (c cval) {
	for n := r.Intn(4); n > 0; n-- {
		num := []int{r.Intn(6), r.Intn(15), 14, 15, 16, 254, r.Intn(255)}[r.Intn(7)]
		switch k := r.Intn(5); {
		case k == 0:
			c.add(unread(num, genOctets(r, genLen(r, false))))
		case k <= 2 || depth > 6:
			c.add(app(genValue(r, false)))
		case k == 3 && r.Intn(3) == 0:
			c.add(dateTime(r, multi))
		default:
			in := anyNesting(r, multi, depth+1)
			if num == 2 && r.Intn(2) == 0 { // almost a time stamp
				in = [](cval){list(app(genDate(r)), app(genTime(r)), app(genValue(r, false))), list(app(genTime(r)), app(genDate(r))), app(genDate(r)),
					list(app(genDate(r)), app(genDate(r))), list(app(genDate(r)), cval{raw: ref.Open(1)}, app(genTime(r)), cval{raw: ref.Close(1)})}[r.Intn(5)]
			}
			if num == 2 && len(in.want) == 2 {
				_, d := in.want[0].(ref.Date)
				_, t := in.want[1].(ref.Time)
				if d && t && len(in.raw) == 10 {
					in = cval{}
				}
			}
			c.add(paren(num, in))
		}
	}
	return c
}

// genConstructed is a property with a value that is constructed
func genConstructed(r *rand.Rand, multi bool) (p ref.Prop, name string) {
	var v cval
	p.Index = genIndex(r)
	if r.Intn(3) > 0 {
		l := layouts[r.Intn(len(layouts))]
		p.ID, name = l.id, l.name
		v = l.gen(r, multi)
	} else {
		for p.ID = genPropID(r); known(p.ID); {
			p.ID = genPropID(r)
		}
		name = "any nesting"
		v = anyNesting(r, multi, 0)
		if r.Intn(4) == 0 { // deep
			for k := []int{8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, r.Intn(400)}[r.Intn(19)]; k > 0 && len(v.raw) < 900; k-- {
				var in cval
				if r.Intn(8) == 0 {
					in.add(app(genValue(r, false)))
				}
				in.add(paren([]int{0, 1, 3, 14, 15, 3 + r.Intn(252)}[r.Intn(6)], v))
				if r.Intn(8) == 0 {
					in.add(app(genValue(r, false)))
				}
				v = in
			}
			name = "deep nesting"
		}
	}
	p.Vals = v.want
	if p.Raw = v.raw; p.Raw == nil {
		p.Raw = []byte{}
	}
	return p, name
}

func runC30(c *C) {
	c.Need("long idle", "any nesting", "deep nesting", "time stamps", "weekly schedule", "exception schedule", "reference", "subordinates", "recipients", "subscriptions", "command", "group members", "shed level",
		"ReadProperty", "ReadMultiple", "through a client", "bad value", "cut", "judged valid", "judged malformed")
	multi := func(r *rand.Rand) []ref.Obj {
		objs := genAckObjs(r)
		if len(objs) > 2 {
			objs = objs[:2]
		}
		for i := range objs {
			for j := range objs[i].Props {
				if r.Intn(2) == 0 {
					p, name := genConstructed(r, true)
					objs[i].Props[j] = p
					c.Count(name, 1)
				}
			}
		}
		return objs
	}
	c.Loop(0, c.N(120000, 2000000), func(i int, r *rand.Rand) {
		p, name := genConstructed(r, false)
		c.Count(name, 1)
		o := genObj(r)
		b := ref.ReadPropertyAck(o, p)
		c.Guard("ReadProperty", "acknowledgement "+hexs(b), func() {
			var got btypes.PropertyData
			if err := encoding.NewDecoder(b).ReadProperty(&got); err != nil {
				c.Fail("refused", "the acknowledgement %s of %s is refused: %v", hexs(b), name, err)
			} else if d := sameObjs([]btypes.Object{got.Object}, []ref.Obj{{ID: o, Props: []ref.Prop{p}}}); d != "" {
				c.Fail("ReadProperty", "the acknowledgement %s of %s: %s", hexs(b), name, d)
			}
		})
		c.Count("ReadProperty", 1)
		c.Eval("one " + hexs(b))
	})
	c.Loop(10000000, c.N(60000, 1000000), func(i int, r *rand.Rand) {
		objs := multi(r)
		b := ref.ReadMultipleAck(objs)
		c.Guard("ReadMultiple", "acknowledgement "+hexs(b), func() {
			var got btypes.MultiplePropertyData
			if err := encoding.NewDecoder(b).ReadMultiplePropertyAck(&got); err != nil {
				c.Fail("refused", "the acknowledgement %s is refused: %v", showObjs(objs), err)
			} else if d := sameObjs(got.Objects, objs); d != "" {
				c.Fail("ReadMultiple", "the acknowledgement %s: %s", showObjs(objs), d)
			}
		})
		c.Count("ReadMultiple", 1)
		c.Eval("many " + hexs(b))
		// cut short within the last property
		last := objs[len(objs)-1].Props
		p := last[len(last)-1]
		n := len(p.Raw)
		if p.Raw == nil {
			for _, v := range p.Vals {
				n += len(ref.App(v))
			}
		}
		b = b[:len(b)-2-r.Intn(n+1)]
		c.Guard("cut", "acknowledgement "+hexs(b), func() {
			var got btypes.MultiplePropertyData
			if err := encoding.NewDecoder(b).ReadMultiplePropertyAck(&got); err == nil {
				c.Fail("cut", "the beginning %s of the acknowledgement %s is decoded as if it were whole", hexs(b), showObjs(objs))
			}
		})
		c.Count("cut", 1)
	})
	// through a client
	c.Loop(20000000, c.N(4000, 60000), func(i int, r *rand.Rand) {
		op := i % 2
		var objs []ref.Obj
		if op == opRead {
			p, _ := genConstructed(r, false)
			objs = []ref.Obj{{ID: genObj(r), Props: []ref.Prop{p}}}
		} else {
			objs = multi(r)
			for k := range objs {
				if len(objs[k].Props) > 6 {
					objs[k].Props = objs[k].Props[:6]
				}
			}
		}
		body := ref.ReadMultipleAck(objs)
		if op == opRead {
			body = ref.ReadPropertyAck(objs[0].ID, objs[0].Props[0])
		}
		if len(body) > 1400 {
			return
		}
		c.Bubble(opNames[op], func(t *testing.T) {
			w := newWorld(0)
			c.idle(r)
			defer w.end()
			dev := genDevices(r, 1)[0]
			dev.MaxApdu = 1476
			w.OnSend = func(p sim.Packet) {
				q, err := sim.ParseRequest(p)
				if err != nil {
					c.Fail("request", "%s: %v: %s", opNames[op], err, hexs(p.Data))
					return
				}
				w.Inject(dev.Route().From, dev.Route().Frame(positive(q, op, objs)))
			}
			got, err := w.do(op, libDevice(dev), askFor(objs))
			if err != nil {
				c.Fail("client", "%s fails with %v, the device answered %s", opNames[op], err, showObjs(objs))
			} else if d := sameObjs(got, objs); d != "" {
				c.Fail("client", "%s, the device answered %s: %s", opNames[op], showObjs(objs), d)
			}
		})
		c.Count("through a client", 1)
		c.Eval(fmt.Sprintf("client %d %s", op, hexs(body)))
	})
	// of unknown quality
	c.Loop(25000000, c.N(300000, 6000000), func(i int, r *rand.Rand) {
		if i%2 == 0 {
			objs := multi(r)
			if len(objs[0].Props) > 3 {
				objs[0].Props = objs[0].Props[:3]
			}
			c.judge(true, mutateAck(r, ref.ReadMultipleAck(objs[:1])))
		} else {
			p, _ := genConstructed(r, false)
			c.judge(false, mutateAck(r, ref.ReadPropertyAck(genObj(r), p)))
		}
	})
	// a value that is none of its type
	bad := []struct {
		id   uint32
		in   int // the constructed value it is in, or -1
		num  int
		lens []int // the lengths it may have
	}{
		{130, -1, 0, []int{4}}, {130, -1, 1, []int{1, 2, 3, 4}}, {38, -1, 1, []int{4}}, {38, -1, 3, []int{1, 2, 3, 4}}, {132, -1, 0, []int{4}}, {132, -1, 1, []int{1, 2, 3, 4}},
		{132, -1, 2, []int{1, 2, 3, 4}}, {132, -1, 3, []int{4}}, {211, -1, 0, []int{4}}, {211, -1, 1, []int{4}}, {102, -1, 0, []int{4}}, {152, -1, 2, []int{1}}, {152, -1, 3, []int{1, 2, 3, 4}},
		{152, -1, 4, []int{4}}, {2, 0, 1, []int{4}}, {2, 0, 2, []int{1, 2, 3, 4}}, {2, 0, 5, []int{1, 2, 3, 4}}, {2, 0, 7, []int{1}}, {2, 0, 8, []int{1}}, {53, -1, 0, []int{4}}, {53, 1, 0, []int{1, 2, 3, 4}},
		{53, 1, 1, []int{1, 2, 3, 4}}, {212, -1, 0, []int{1, 2, 3, 4}}, {214, -1, 1, []int{1, 2, 3, 4}}, {218, -1, 2, []int{4}},
	}
	c.Loop(30000000, c.N(30000, 300000), func(i int, r *rand.Rand) {
		x := bad[i%len(bad)]
		n := -1
		for n < 0 {
			n = r.Intn(10)
			for _, l := range x.lens {
				if l == n {
					n = -1
					break
				}
			}
		}
		v := unread(x.num, genOctets(r, n))
		if x.in >= 0 {
			v = paren(x.in, v)
		}
		p := ref.Prop{ID: x.id, Index: ref.ArrayAll, Raw: v.raw}
		o := genObj(r)
		b := ref.ReadPropertyAck(o, p)
		m := ref.ReadMultipleAck([]ref.Obj{{ID: o, Props: []ref.Prop{p}}})
		c.Guard("bad value", "acknowledgement "+hexs(b), func() {
			var got btypes.PropertyData
			if err := encoding.NewDecoder(b).ReadProperty(&got); err == nil {
				c.Fail("bad value", "%d octets in tag %d of property %d (%s) are read as %s", n, x.num, x.id, hexs(b), show(got.Object.Properties))
			}
			var all btypes.MultiplePropertyData
			if err := encoding.NewDecoder(m).ReadMultiplePropertyAck(&all); err == nil {
				c.Fail("bad value", "%d octets in tag %d of property %d (%s) are read as %s", n, x.num, x.id, hexs(m), show(all.Objects))
			}
		})
		c.Count("bad value", 1)
		c.Eval("bad " + hexs(b))
	})
}
