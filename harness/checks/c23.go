package checks

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
	"github.com/NubeDev/bacnet/btypes/priority"
	"github.com/NubeDev/bacnet/helpers/data"
	"github.com/NubeDev/bacnet/helpers/nils"
	"verif/harness/ref"
)

func init() {
	register("C23", "sequences of operations on bit strings of every capacity against a plain array of bits; object maps of every object type to JSON and back; priority arrays with every combination of set slots; typed accessors on data of every type; each compared with what was put in", runC23)
}

func runC23(c *C) {
	c.Need("bit operations", "bits beyond the capacity", "bytes beyond the capacity", "every bit", "sizes that are none", "object maps", "proprietary types", "objects with properties", "types without a name", "priority arrays", "slots set", "no slot set", "all 65536 patterns", "binary arrays", "short arrays", "long arrays", "foreign values",
		"accessor right type", "accessor other type", "no property", "pointers")
	c.Loop(0, c.N(60000, 2000000), func(i int, r *rand.Rand) { c.bits(r) })
	c.Loop(10000000, 18, func(i int, r *rand.Rand) { // each bit alone, at each capacity
		for n := 0; n < 256; n++ {
			what := fmt.Sprintf("bit %d of a string of %d octets", n, i)
			c.Guard("bits", what, func() {
				bs := btypes.NewBitString(i)
				m := &bitModel{cap: min(i, 15)}
				bs.SetBit(uint8(n), true)
				m.set(n, true)
				c.sameBits(what, bs, m)
				bs.SetBit(uint8(n), false)
				m.set(n, false)
				c.sameBits(what, bs, m)
			})
			c.Count("every bit", 1)
			c.Eval(what)
		}
	})
	c.Loop(20000000, c.N(3000, 60000), func(i int, r *rand.Rand) { c.objectMap(r, -1) })
	c.Loop(30000000, 1024, func(i int, r *rand.Rand) { c.objectMap(r, i) })
	c.Loop(40000000, 256, func(i int, r *rand.Rand) { // every pattern of slots
		for k := 0; k < 256; k++ {
			c.priorities(r, 16, i<<8|k)
			c.Count("all 65536 patterns", 1)
		}
	})
	c.Loop(50000000, c.N(30000, 600000), func(i int, r *rand.Rand) {
		c.priorities(r, []int{16, 16, 0, 1, 15, 17, 40, r.Intn(20)}[r.Intn(8)], r.Intn(65536))
	})
	c.Loop(60000000, c.N(60000, 1000000), func(i int, r *rand.Rand) { c.accessors(r) })
	c.Loop(70000000, c.N(10000, 100000), func(i int, r *rand.Rand) { c.pointers(r) })
}

type bitModel struct {
	cap  int // octets
	bit  [256]bool
	used int
}

func (m *bitModel) set(n int, v bool) {
	if n < 8*m.cap {
		m.bit[n] = v
		m.used = max(m.used, n+1)
	}
}

func (m *bitModel) octet(i int) (b byte) {
	for k := 0; k < 8; k++ {
		if i < m.cap && m.bit[8*i+k] {
			b |= 1 << k
		}
	}
	return
}

func (c *C) sameBits(what string, bs *btypes.BitString, m *bitModel) bool {
	bad := func(f string, a ...any) bool {
		c.Fail("bits", "%s: %s", what, fmt.Sprintf(f, a...))
		return false
	}
	if int(bs.GetBitUsed()) != m.used || int(bs.BitsCapacity()) != 8*m.cap || int(bs.BytesUsed()) != (m.used+7)/8 {
		return bad("%d bits and %d bytes of %d bits are used, want %d and %d of %d", bs.GetBitUsed(), bs.BytesUsed(), bs.BitsCapacity(), m.used, (m.used+7)/8, 8*m.cap)
	}
	for n := 0; n < 256; n++ {
		if bs.Bit(uint8(n)) != m.bit[n] {
			return bad("bit %d is %v", n, !m.bit[n])
		}
		if bs.Byte(uint8(n)) != m.octet(n) {
			return bad("byte %d is %#x, want %#x", n, bs.Byte(uint8(n)), m.octet(n))
		}
	}
	l := bs.GetValue()
	if len(l) != m.used {
		return bad("%d bits are listed of %d", len(l), m.used)
	}
	for n, b := range l {
		if b != m.bit[n] {
			return bad("bit %d is listed as %v", n, b)
		}
	}
	var text []bool
	if err := json.Unmarshal([]byte(bs.String()), &text); err != nil || !reflect.DeepEqual(append([]bool{}, text...), append([]bool{}, l...)) {
		return bad("written as %q, the bits are %v", bs.String(), l)
	}
	return true
}

func (c *C) bits(r *rand.Rand) {
	size := r.Intn(18)
	if r.Intn(20) == 0 { // a size that is none
		size = []int{-1, -1 - r.Intn(1000), math.MinInt, math.MaxInt, 1 << 40}[r.Intn(5)]
		c.Count("sizes that are none", 1)
	}
	m := &bitModel{cap: max(min(size, 15), 0)}
	what := fmt.Sprintf("bit string of %d octets:", size)
	c.Guard("bits", what, func() {
		bs := btypes.NewBitString(size)
		for k := r.Intn(30); k >= 0; k-- {
			if len(what) > 1000 {
				what = what[:60] + " ..."
			}
			n := r.Intn(max(8*m.cap, 1))
			if r.Intn(6) == 0 {
				n = r.Intn(256)
			}
			switch r.Intn(6) {
			case 0:
				i, b := n/8, byte(r.Intn(256))
				if r.Intn(6) == 0 {
					i = r.Intn(256)
				}
				what += fmt.Sprintf(" byte %d=%#x", i, b)
				ok := bs.SetByte(uint8(i), b)
				if ok != (i < m.cap) {
					c.Fail("bits", "%s: setting the byte returned %v", what, ok)
					return
				}
				if i < m.cap {
					for j := 0; j < 8; j++ {
						m.bit[8*i+j] = b>>j&1 == 1
					}
				} else {
					c.Count("bytes beyond the capacity", 1)
				}
			case 1:
				if m.cap == 0 {
					continue
				}
				bytes := 1 + r.Intn(m.cap)
				unused := r.Intn(8)
				what += fmt.Sprintf(" used %d bytes less %d bits", bytes, unused)
				if !bs.SetBitsUsed(uint8(bytes), uint8(unused)) {
					c.Fail("bits", "%s: not accepted", what)
					return
				}
				m.used = 8*bytes - unused
			default:
				v := r.Intn(3) > 0
				what += fmt.Sprintf(" %d=%v", n, v)
				bs.SetBit(uint8(n), v)
				m.set(n, v)
				if n >= 8*m.cap {
					c.Count("bits beyond the capacity", 1)
				}
			}
			c.Count("bit operations", 1)
			if r.Intn(4) == 0 && !c.sameBits(what, bs, m) {
				return
			}
		}
		if !c.sameBits(what, bs, m) {
			return
		}
		// any number of bits used that anybody may announce
		bs.SetBitsUsed(uint8(r.Intn(256)), uint8(r.Intn(256)))
		bs.GetValue()
		_ = bs.String()
		bs.BytesUsed()
		for n := 0; n < 256; n++ {
			bs.Bit(uint8(n))
			bs.Byte(uint8(n))
		}
		// and one that was made without room
		e := &btypes.BitString{BitUsed: uint8(r.Intn(256))}
		e.SetBit(uint8(r.Intn(256)), true)
		e.SetByte(uint8(r.Intn(256)), 1)
		e.GetValue()
		_ = e.String()
		e.BytesUsed()
		e.BitsCapacity()
	})
	c.Eval(what)
}

func (c *C) objectMap(r *rand.Rand, typ int) {
	in := btypes.ObjectMap{}
	n := 0
	for k := r.Intn(6) + 1; k > 0; k-- {
		t := uint16(r.Intn(1024))
		if r.Intn(2) == 0 {
			t = uint16(r.Intn(48))
		}
		if typ >= 0 {
			t = uint16(typ)
			typ = -1
		}
		m := in[btypes.ObjectType(t)]
		if m == nil {
			m = map[btypes.ObjectInstance]btypes.Object{}
			in[btypes.ObjectType(t)] = m
		}
		if t >= 128 {
			c.Count("proprietary types", 1)
		}
		if t > 60 {
			c.Count("types without a name", 1)
		}
		for j := r.Intn(4); j > 0; j-- {
			o := genObj(r)
			o.Type = t
			lo := btypes.Object{Name: genText(r, r.Intn(30)), Description: genText(r, r.Intn(30)), ID: libObj(o)}
			for p := r.Intn(3); p > 0; p-- {
				c.Count("objects with properties", 1)
				lo.Properties = append(lo.Properties, btypes.Property{Type: btypes.PropertyType(genPropID(r)), ArrayIndex: genIndex(r), Priority: btypes.NPDUPriority(r.Intn(17)),
					Data: []any{nil, true, false, genText(r, r.Intn(10)), float64(r.Intn(1000)) / 4, genF64finite(r)}[r.Intn(6)]})
			}
			if _, ok := m[lo.ID.Instance]; !ok {
				n++
			}
			m[lo.ID.Instance] = lo
		}
	}
	what := fmt.Sprintf("object map %v", in)
	if len(what) > 1000 {
		what = what[:1000]
	}
	c.Guard("object map", what, func() {
		if in.Len() != n {
			c.Fail("object map", "%s: %d objects are counted, want %d", what, in.Len(), n)
		}
		dev := btypes.Device{Objects: in}
		l := dev.ObjectSlice()
		seen := map[btypes.ObjectID]bool{}
		for _, o := range l {
			if seen[o.ID] || !reflect.DeepEqual(in[o.ID.Type][o.ID.Instance], o) {
				c.Fail("object list", "%s: lists %v", what, o)
				return
			}
			seen[o.ID] = true
		}
		if len(l) != n {
			c.Fail("object list", "%s: %d objects are listed", what, len(l))
		}
		b, err := json.Marshal(in)
		if err != nil {
			c.Fail("object map", "%s: %v", what, err)
			return
		}
		var out btypes.ObjectMap
		if r.Intn(2) == 0 {
			out = btypes.ObjectMap{}
		}
		if err := json.Unmarshal(b, &out); err != nil {
			c.Fail("object map", "%s: %v: %s", what, err, b)
			return
		}
		if !reflect.DeepEqual(in, out) {
			c.Fail("object map", "%s comes back as %v by way of %s", what, out, b)
		}
		// as a part of something else, and not changed by it
		type part struct{ Objects btypes.ObjectMap }
		var p part
		b, err = json.Marshal(part{in})
		if err == nil {
			err = json.Unmarshal(b, &p)
		}
		if err != nil || !reflect.DeepEqual(p.Objects, in) {
			c.Fail("object map", "%s as a part comes back as %v (%v) by way of %s", what, p.Objects, err, b)
		}
	})
	c.Count("object maps", 1)
	c.Eval(what)
}

func genF64finite(r *rand.Rand) float64 {
	for {
		if f := genF64(r); !math.IsInf(f, 0) {
			return f
		}
	}
}

func slots(p *priority.Float32) []*float32 {
	return []*float32{p.P1, p.P2, p.P3, p.P4, p.P5, p.P6, p.P7, p.P8, p.P9, p.P10, p.P11, p.P12, p.P13, p.P14, p.P15, p.P16}
}

func sameFloat(a, b *float32) bool {
	if a == nil || b == nil {
		return a == b
	}
	return math.Float32bits(*a) == math.Float32bits(*b)
}

func showFloat(f *float32) string {
	if f == nil {
		return "none"
	}
	return fmt.Sprint(*f)
}

func (c *C) priorities(r *rand.Rand, n, pattern int) {
	types := []btypes.ObjectType{0, 1, 2, 3, 4, 5, 13, 14, 19}
	typ := types[r.Intn(len(types))]
	binary := typ == btypes.BinaryOutput || typ == btypes.BinaryValue
	var arr []interface{}
	var want [16]*float32
	foreign := n == 16 && r.Intn(8) == 0
	for k := 0; k < n; k++ {
		var v interface{} = null.Null{}
		var f *float32
		if pattern>>(k%16)&1 == 1 {
			var x float32
			if binary || r.Intn(2) == 0 {
				u := genUint(r)
				if binary && r.Intn(3) > 0 {
					u &= 1
				}
				v, x = u, float32(u)
			} else {
				x = genF32(r)
				v = x
			}
			f = &x
			if foreign && r.Intn(4) == 0 { // no panic is all that is asked for
				v = []interface{}{nil, "text", true, int32(3), float64(3), &null.Null{}, []interface{}{1}, btypes.ObjectID{}, (*btypes.BitString)(nil), btypes.Enumerated(1)}[r.Intn(10)]
			}
		}
		arr = append(arr, v)
		if k < 16 {
			want[k] = f
		}
	}
	what := fmt.Sprintf("priority array %v of a %v", arr, typ)
	in := btypes.PropertyData{Object: btypes.Object{ID: btypes.ObjectID{Type: typ, Instance: 1}, Properties: []btypes.Property{{Type: 87, ArrayIndex: ref.ArrayAll, Data: arr}}}}
	c.Guard("priority array", what, func() {
		p := priority.BuildFloat32(in, typ)
		if p == nil {
			c.Fail("priority array", "%s: nothing is returned", what)
			return
		}
		high := p.HighestFloat32()
		if foreign {
			c.Count("foreign values", 1)
			return
		}
		var first *float32
		for k, f := range slots(p) {
			if !sameFloat(f, want[k]) {
				c.Fail("priority array", "%s: slot %d is %s", what, k+1, showFloat(f))
				return
			}
			if first == nil {
				first = want[k]
			}
		}
		if !sameFloat(high, first) {
			c.Fail("priority array", "%s: the highest is %s, want %s", what, showFloat(high), showFloat(first))
		}
		if first != nil {
			c.Count("slots set", 1)
		} else {
			c.Count("no slot set", 1)
		}
	})
	c.Count("priority arrays", 1)
	if binary {
		c.Count("binary arrays", 1)
	}
	if n < 16 {
		c.Count("short arrays", 1)
	} else if n > 16 {
		c.Count("long arrays", 1)
	}
	c.Eval(what)
	if r.Intn(20) == 0 {
		c.Guard("priority array", "no array", func() {
			priority.BuildFloat32(btypes.PropertyData{}, typ)
			in.Object.Properties[0].Data = []any{nil, 3, "text", uint32(1)}[r.Intn(4)]
			p := priority.BuildFloat32(in, typ)
			p.HighestFloat32()
		})
	}
}

func (c *C) accessors(r *rand.Rand) {
	bs := btypes.NewBitString(2)
	vals := []any{nil, true, false, int(r.Int63()), int(-3), genF32(r), genF64(r), genText(r, r.Intn(20)), "", r.Uint32(), uint32(0), int32(3), uint8(1), uint16(2), int64(4), uint64(5),
		[]interface{}{1, 2}, []interface{}{}, []byte{1}, bs, *bs, null.Null{}, btypes.ObjectID{Type: 1, Instance: 2}, btypes.Enumerated(3), btypes.Date{}, btypes.Time{}, []string{"a"}}
	v := vals[r.Intn(len(vals))]
	d := btypes.PropertyData{Object: btypes.Object{Properties: []btypes.Property{{Data: v}}}}
	if r.Intn(4) == 0 { // it is the first that counts
		d.Object.Properties = append(d.Object.Properties, btypes.Property{Data: vals[r.Intn(len(vals))]})
	}
	if r.Intn(20) == 0 {
		d.Object.Properties = nil
		v = nil
		c.Count("no property", 1)
	}
	check := func(name string, ok bool, got any, is bool) {
		want := reflect.Zero(reflect.TypeOf(got)).Interface()
		if is {
			want = v
			c.Count("accessor right type", 1)
		} else {
			c.Count("accessor other type", 1)
		}
		if ok != is {
			c.Fail("accessor", "%s of %s returned %v", name, show(v), ok)
		} else if !reflect.DeepEqual(got, want) {
			c.Fail("accessor", "%s of %s returned %s", name, show(v), show(got))
		}
		c.Eval(fmt.Sprintf("%s of %T %v", name, v, v))
	}
	c.Guard("accessor", show(v), func() {
		_, is := v.(int)
		ok, i := data.ToInt(d)
		check("ToInt", ok, i, is)
		_, is = v.(float32)
		ok, f := data.ToFloat32(d)
		check("ToFloat32", ok, f, is)
		_, is = v.(float64)
		ok, g := data.ToFloat64(d)
		check("ToFloat64", ok, g, is)
		_, is = v.(bool)
		ok, b := data.ToBool(d)
		check("ToBool", ok, b, is)
		_, is = v.(string)
		ok, s := data.ToStr(d)
		check("ToStr", ok, s, is)
		_, is = v.(uint32)
		ok, u := data.ToUint32(d)
		check("ToUint32", ok, u, is)
		_, is = v.([]interface{})
		ok, a := data.ToArr(d)
		check("ToArr", ok, a, is)
		_, is = v.(*btypes.BitString)
		ok, x := data.ToBitString(d)
		check("ToBitString", ok, x, is)
	})
}

// pointers are the helpers that make and read optional values
func (c *C) pointers(r *rand.Rand) {
	s, i, b, u16, u32, f32, f64 := genText(r, r.Intn(9)), int(r.Int63()), r.Intn(2) == 0, uint16(r.Uint32()), genUint(r), genF32(r), genF64(r)
	what := fmt.Sprintf("optional values %q %d %v %d %d %v %v", s, i, b, u16, u32, f32, f64)
	c.Guard("pointers", what, func() {
		u := uint(u32)
		if nils.StringIsNil(nils.NewString(s)) != s || nils.IntIsNil(nils.NewInt(i)) != i || nils.BoolIsNil(nils.NewBool(b)) != b || nils.Unit16IsNil(nils.NewUint16(u16)) != u16 ||
			nils.Unit32IsNil(nils.NewUint32(u32)) != u32 || nils.Float32IsNil(nils.NewFloat32(f32)) != f32 || nils.Float64IsNil(nils.NewFloat64(f64)) != f64 || nils.UnitIsNil(&u) != u {
			c.Fail("pointers", "%s: not all come back", what)
		}
		if nils.StringIsNil(nil) != "" || nils.IntIsNil(nil) != 0 || nils.BoolIsNil(nil) || nils.Unit16IsNil(nil) != 0 || nils.Unit32IsNil(nil) != 0 || nils.Float32IsNil(nil) != 0 ||
			nils.Float64IsNil(nil) != 0 || nils.UnitIsNil(nil) != 0 || !*nils.NewTrue() || *nils.NewFalse() {
			c.Fail("pointers", "what is absent is not zero")
		}
		if nils.StringNilCheck(&s) || !nils.StringNilCheck(nil) || nils.BoolNilCheck(&b) || !nils.BoolNilCheck(nil) || nils.IntNilCheck(&i) || !nils.IntNilCheck(nil) ||
			nils.Unit32NilCheck(&u32) || !nils.Unit32NilCheck(nil) || nils.FloatIsNilCheck(&f64) || !nils.FloatIsNilCheck(nil) {
			c.Fail("pointers", "%s: presence is not told", what)
		}
		// each is its own
		p, q := nils.NewFloat32(1), nils.NewFloat32(1)
		if *p = 2; *q != 1 {
			c.Fail("pointers", "two values share their place")
		}
	})
	c.Count("pointers", 1)
	c.Eval(what)
}
