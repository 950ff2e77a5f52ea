package checks

import (
	"fmt"
	"math/rand"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
	"verif/harness/ref"
)

func init() {
	register("C08", "ReadProperty and ReadPropertyMultiple acknowledgements made by an independent encoder (values of every type, lists, indices and identifiers of every width, errors at every position) decoded and compared; changed ones compared with an independent reader, which says whether they are still acknowledgements; acknowledgements encoded by the library decoded again", runC08)
	register("C09", "Who-Is and I-Am messages with enumerated and random fields, encoded and compared with an independent encoder and decoded back; I-Am messages with a field missing or of another type have to be refused", runC09)
}

// sameObjs compares a decoded acknowledgement with what it carries and says where they differ
func sameObjs(got []btypes.Object, want []ref.Obj) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d objects, want %d", len(got), len(want))
	}
	for i, o := range want {
		if got[i].ID != libObj(o.ID) {
			return fmt.Sprintf("object %d is %v, want %v", i, got[i].ID, o.ID)
		}
		if len(got[i].Properties) != len(o.Props) {
			return fmt.Sprintf("object %d has %d properties, want %d", i, len(got[i].Properties), len(o.Props))
		}
		for j, p := range o.Props {
			if d := sameProp(got[i].Properties[j], p); d != "" {
				return fmt.Sprintf("object %d (%v), property %d: %s", i, o.ID, j, d)
			}
		}
	}
	return ""
}

func sameProp(g btypes.Property, p ref.Prop) string {
	if uint32(g.Type) != p.ID || g.ArrayIndex != p.Index {
		return fmt.Sprintf("is %d[%d], want %d[%d]", g.Type, int32(g.ArrayIndex), p.ID, int32(p.Index))
	}
	if !sameData(g.Data, p.Vals) {
		return fmt.Sprintf("%d[%d] has the value %s, want %s", p.ID, int32(p.Index), show(g.Data), show(p.Vals))
	}
	return ""
}

func runC08(c *C) {
	c.Need("ReadProperty", "ReadMultiple", "no value", "one value", "several values", "error inside", "ReadProperty round trip", "ReadMultiple round trip", "long list",
		"judged valid", "judged malformed")
	count := func(p ref.Prop) {
		switch len(p.Vals) {
		case 0:
			c.Count("no value", 1)
		case 1:
			c.Count("one value", 1)
		default:
			c.Count("several values", 1)
		}
	}
	single := func(o ref.ObjID, p ref.Prop) {
		b := ref.ReadPropertyAck(o, p)
		c.Guard("ReadProperty", "acknowledgement "+hexs(b), func() {
			var got btypes.PropertyData
			err := encoding.NewDecoder(b).ReadProperty(&got)
			if err != nil {
				c.Fail("ReadProperty refused", "ReadProperty acknowledgement %s is refused: %v", hexs(b), err)
				return
			}
			if d := sameObjs([]btypes.Object{got.Object}, []ref.Obj{{ID: o, Props: []ref.Prop{p}}}); d != "" {
				c.Fail("ReadProperty", "ReadProperty acknowledgement %s: %s", hexs(b), d)
			}
		})
		c.Count("ReadProperty", 1)
		count(p)
		c.Eval(fmt.Sprintf("ReadProperty %v %d[%d] %s", o, p.ID, int32(p.Index), show(p.Vals)))
	}
	c.Loop(0, c.N(200000, 3000000), func(i int, r *rand.Rand) {
		single(genObj(r), ref.Prop{ID: genPropID(r), Index: genIndex(r), Vals: genVals(r)})
	})
	// lists of every length
	c.Loop(10000000, 400, func(i int, r *rand.Rand) {
		vs := make([]any, i)
		for k := range vs {
			vs[k] = genObj(r)
			if i%3 == 0 {
				vs[k] = genValue(r, false)
			}
		}
		single(genObj(r), ref.Prop{ID: 76, Index: genIndex(r), Vals: vs})
		c.Count("long list", 1)
	})
	multi := func(objs []ref.Obj) {
		b := ref.ReadMultipleAck(objs)
		c.Guard("ReadMultiple", "acknowledgement "+hexs(b), func() {
			var got btypes.MultiplePropertyData
			err := encoding.NewDecoder(b).ReadMultiplePropertyAck(&got)
			if err != nil {
				c.Fail("ReadMultiple refused", "ReadPropertyMultiple acknowledgement %s is refused: %v", showObjs(objs), err)
				return
			}
			if d := sameObjs(got.Objects, objs); d != "" {
				c.Fail("ReadMultiple", "ReadPropertyMultiple acknowledgement %s: %s", showObjs(objs), d)
			}
		})
		c.Count("ReadMultiple", 1)
		for _, o := range objs {
			for _, p := range o.Props {
				count(p)
			}
		}
		c.Eval("ReadPropertyMultiple " + showObjs(objs))
	}
	c.Loop(20000000, c.N(60000, 1000000), func(i int, r *rand.Rand) { multi(genAckObjs(r)) })
	c.Loop(30000000, 400, func(i int, r *rand.Rand) {
		objs := make([]ref.Obj, 1+i%3)
		for k := range objs {
			objs[k].ID = genObj(r)
			for n := 1 + i/4; n > 0; n-- {
				objs[k].Props = append(objs[k].Props, ref.Prop{ID: genPropID(r), Index: genIndex(r), Vals: []any{genValue(r, false)}})
			}
		}
		multi(objs)
		c.Count("long list", 1)
	})
	// of unknown quality
	c.Loop(35000000, c.N(400000, 8000000), func(i int, r *rand.Rand) {
		var b []byte
		switch {
		case r.Intn(5) == 0:
			b = genTags(r, 8)
		case i%2 == 0:
			b = ref.ReadMultipleAck(genAckObjs(r))
		default:
			b = ref.ReadPropertyAck(genObj(r), ref.Prop{ID: genPropID(r), Index: genIndex(r), Vals: genVals(r)})
		}
		c.judge(i%2 == 0, mutateAck(r, b))
	})
	// errors inside
	c.Loop(40000000, c.N(40000, 500000), func(i int, r *rand.Rand) {
		objs := genAckObjs(r)
		k := r.Intn(len(objs))
		j := r.Intn(len(objs[k].Props))
		class, code := genError(r)
		objs[k].Props[j].Err = &[2]uint32{class, code}
		b := ref.ReadMultipleAck(objs)
		c.Guard("ReadMultiple", "acknowledgement "+hexs(b), func() {
			var got btypes.MultiplePropertyData
			err := encoding.NewDecoder(b).ReadMultiplePropertyAck(&got)
			if err == nil {
				c.Fail("error lost", "the error class %d code %d of property %d of object %d of %s is not reported", class, code, j, k, showObjs(objs))
			} else if !namesError(err, class, code) {
				c.Fail("error unnamed", "the error class %d code %d is reported as %q", class, code, err)
			}
		})
		c.Count("error inside", 1)
		c.Eval(fmt.Sprintf("error %d/%d in %d/%d of %s", class, code, k, j, showObjs(objs)))
	})
	// what the library encodes
	c.Loop(50000000, c.N(60000, 600000), func(i int, r *rand.Rand) {
		objs := genAckObjs(r)
		for k := range objs {
			for j := range objs[k].Props {
				_, v := genWritable(r, false)
				objs[k].Props[j].Vals = []any{v}
			}
		}
		id := byte(r.Intn(256))
		c.Guard("round trip", "acknowledgement of "+showObjs(objs), func() {
			if i%2 == 0 {
				objs = objs[:1]
				objs[0].Props = objs[0].Props[:1]
				e := encoding.NewEncoder()
				err := e.ReadPropertyAck(id, btypes.PropertyData{Object: libObject(objs[0])})
				d := encoding.NewDecoder(e.Bytes())
				var a btypes.APDU
				var got btypes.PropertyData
				err2 := d.APDU(&a)
				err3 := d.ReadProperty(&got)
				if err != nil || err2 != nil || err3 != nil || a.DataType != btypes.ComplexAck || a.InvokeId != id || a.Service != btypes.ServiceConfirmedReadProperty {
					c.Fail("round trip", "the acknowledgement of %s is encoded as %s (%v) and decoded as %+v (%v, %v)", showObjs(objs), hexs(e.Bytes()), err, a, err2, err3)
				} else if d := sameObjs([]btypes.Object{got.Object}, objs); d != "" {
					c.Fail("round trip", "the acknowledgement of %s: %s", showObjs(objs), d)
				} else if want := ref.Complex(id, 12, ref.ReadPropertyAck(objs[0].ID, objs[0].Props[0])); string(e.Bytes()) != string(want) {
					c.Fail("encoded", "the acknowledgement of %s is encoded as %s, want %s", showObjs(objs), hexs(e.Bytes()), hexs(want))
				}
				c.Count("ReadProperty round trip", 1)
			} else {
				e := encoding.NewEncoder()
				err := e.ReadMultiplePropertyAck(id, btypes.MultiplePropertyData{Objects: libObjects(objs)})
				d := encoding.NewDecoder(e.Bytes())
				var a btypes.APDU
				var got btypes.MultiplePropertyData
				err2 := d.APDU(&a)
				err3 := d.ReadMultiplePropertyAck(&got)
				if err != nil || err2 != nil || err3 != nil || a.DataType != btypes.ComplexAck || a.InvokeId != id || a.Service != btypes.ServiceConfirmedReadPropMultiple {
					c.Fail("round trip", "the acknowledgement of %s is encoded as %s (%v) and decoded as %+v (%v, %v)", showObjs(objs), hexs(e.Bytes()), err, a, err2, err3)
				} else if d := sameObjs(got.Objects, objs); d != "" {
					c.Fail("round trip", "the acknowledgement of %s: %s", showObjs(objs), d)
				} else if want := ref.Complex(id, 14, ref.ReadMultipleAck(objs)); string(e.Bytes()) != string(want) {
					c.Fail("encoded", "the acknowledgement of %s is encoded as %s, want %s", showObjs(objs), hexs(e.Bytes()), hexs(want))
				}
				c.Count("ReadMultiple round trip", 1)
			}
		})
		c.Eval(fmt.Sprintf("round trip %d %s", i%2, showObjs(objs)))
	})
}

func runC09(c *C) {
	c.Need("Who-Is limits", "Who-Is without", "I-Am", "I-Am cut", "I-Am wrong type")
	edge := []int32{0, 1, 2, 127, 128, 255, 256, 257, 65535, 65536, 65537, 1 << 20, 4194301, 4194302, 4194303, 4194304, 4194305, 1 << 24, 1 << 30, 2147483647, -1, -2, -256, -2147483648}
	whois := func(low, high int32) {
		l, h := int64(low), int64(high)
		limits := low >= 0 && high >= 0 && low < 4194303 && high < 4194303
		if !limits {
			l, h = -1, -1
			c.Count("Who-Is without", 1)
		} else {
			c.Count("Who-Is limits", 1)
		}
		want := ref.WhoIs(l, h)
		c.Guard("WhoIs", fmt.Sprintf("Who-Is %d %d", low, high), func() {
			e := encoding.NewEncoder()
			if err := e.WhoIs(low, high); err != nil || string(e.Bytes()) != string(want) {
				c.Fail("WhoIs", "Who-Is %d to %d is encoded as %s (%v), want %s", low, high, hexs(e.Bytes()), err, hexs(want))
			}
			gl, gh := int32(77), int32(78)
			if err := encoding.NewDecoder(want[2:]).WhoIs(&gl, &gh); err != nil || int64(gl) != l || int64(gh) != h {
				c.Fail("WhoIs", "Who-Is %s is decoded as %d to %d, %v", hexs(want), gl, gh, err)
			}
		})
		c.Eval(fmt.Sprintf("Who-Is %d %d", low, high))
	}
	c.Loop(0, len(edge), func(i int, r *rand.Rand) {
		for _, h := range edge {
			whois(edge[i], h)
		}
	})
	c.Loop(1000, c.N(200000, 4000000), func(i int, r *rand.Rand) {
		lim := func() int32 {
			switch r.Intn(6) {
			case 0:
				return edge[r.Intn(len(edge))]
			case 1:
				return int32(r.Uint32())
			}
			return int32(r.Intn(1<<uint(1+r.Intn(22)))) & 0x3fffff
		}
		whois(lim(), lim())
	})
	// limits are decoded whatever their width
	c.Loop(10000000, c.N(150000, 3000000), func(i int, r *rand.Rand) {
		dev := genObj(r)
		if r.Intn(3) > 0 {
			dev.Type = 8
		}
		maxApdu, seg, vendor := genUint(r), genUint(r)&3, genUint(r)
		if r.Intn(8) == 0 {
			seg = genUint(r)
		}
		want := ref.IAm(dev, maxApdu, seg, vendor)
		what := fmt.Sprintf("I-Am %v %d %d %d", dev, maxApdu, seg, vendor)
		c.Guard("IAm", what, func() {
			e := encoding.NewEncoder()
			err := e.IAm(btypes.IAm{ID: libObj(dev), MaxApdu: maxApdu, Segmentation: btypes.Enumerated(seg), Vendor: vendor})
			if err != nil || string(e.Bytes()) != string(want) {
				c.Fail("IAm", "%s is encoded as %s (%v), want %s", what, hexs(e.Bytes()), err, hexs(want))
			}
			var got btypes.IAm
			err = encoding.NewDecoder(want[2:]).IAm(&got)
			if err != nil || got.ID != libObj(dev) || got.MaxApdu != maxApdu || uint32(got.Segmentation) != seg || got.Vendor != vendor {
				c.Fail("IAm", "%s is decoded as %+v, %v", hexs(want), got, err)
			}
		})
		c.Count("I-Am", 1)
		c.Eval(what)
		// one field of another type
		fields := []any{dev, ref.Uint(maxApdu), ref.Enum(seg), ref.Uint(vendor)}
		k := r.Intn(4)
		var bad any
		for bad == nil {
			v := genValue(r, false)
			if fmt.Sprintf("%T", v) != fmt.Sprintf("%T", fields[k]) {
				bad = v
			}
		}
		switch r.Intn(6) {
		case 0: // the same octets as the other kind of number
			switch x := fields[k].(type) {
			case ref.Uint:
				bad = ref.Enum(x)
			case ref.Enum:
				bad = ref.Uint(x)
			}
		}
		var b []byte
		drop := r.Intn(5) == 0
		for j, f := range fields {
			if j != k {
				b = append(b, ref.App(f)...)
			} else if !drop {
				if r.Intn(10) == 0 { // in a context tag
					x := ref.App(f)
					x[0] |= 8
					b = append(b, x...)
				} else {
					b = append(b, ref.App(bad)...)
				}
			}
		}
		c.Guard("IAm", "I-Am "+hexs(b), func() {
			var got btypes.IAm
			if err := encoding.NewDecoder(b).IAm(&got); err == nil {
				c.Fail("accepted", "the I-Am %s, field %d of which is wrong or missing, is decoded as %+v", hexs(b), k, got)
			}
			b = want[2 : 2+r.Intn(len(want)-2)]
			if err := encoding.NewDecoder(b).IAm(&got); err == nil {
				c.Fail("accepted", "the beginning %s of an I-Am is decoded as %+v", hexs(b), got)
			}
		})
		c.Count("I-Am cut", 1)
		c.Count("I-Am wrong type", 1)
	})
}
