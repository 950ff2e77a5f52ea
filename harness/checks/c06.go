package checks

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
	"verif/harness/ref"
)

func init() {
	register("C06", "ReadProperty and ReadPropertyMultiple requests for random objects, properties and indices encoded and compared with an independent encoder; invalid identifiers at every position have to be refused", runC06)
	register("C07", "WriteProperty and WritePropertyMultiple requests with random targets, priorities and values encoded and compared with an independent encoder; invalid identifiers and values at every position have to be refused", runC07)
}

// libObject is an object of a request or of an acknowledgement
func libObject(o ref.Obj) btypes.Object {
	out := btypes.Object{ID: libObj(o.ID)}
	for _, p := range o.Props {
		lp := btypes.Property{Type: btypes.PropertyType(p.ID), ArrayIndex: p.Index, Priority: btypes.NPDUPriority(p.Prio)}
		if len(p.Vals) == 1 {
			lp.Data = toLib(p.Vals[0])
		}
		out.Properties = append(out.Properties, lp)
	}
	return out
}

func libObjects(objs []ref.Obj) []btypes.Object {
	var out []btypes.Object
	for _, o := range objs {
		out = append(out, libObject(o))
	}
	return out
}

// genReads are the objects of a ReadPropertyMultiple request
func genReads(r *rand.Rand) []ref.Obj {
	n := 1 + r.Intn(4)
	if r.Intn(20) == 0 {
		n = 1 + r.Intn(60)
	}
	objs := make([]ref.Obj, n)
	for i := range objs {
		objs[i].ID = genObj(r)
		m := 1 + r.Intn(4)
		if r.Intn(20) == 0 {
			m = r.Intn(60)
		}
		for ; m > 0; m-- {
			objs[i].Props = append(objs[i].Props, ref.Prop{ID: genPropID(r), Index: genIndex(r)})
		}
		if i > 0 && r.Intn(6) == 0 { // the same again
			objs[i].ID = objs[i-1].ID
		}
		if len(objs[i].Props) > 1 && r.Intn(4) == 0 {
			objs[i].Props[1] = objs[i].Props[0]
		}
	}
	return objs
}

// spoil makes an object identifier or property of a request invalid
func spoil(r *rand.Rand, o *btypes.Object) string {
	k := r.Intn(3)
	if len(o.Properties) == 0 {
		k = r.Intn(2)
	}
	switch k {
	case 0:
		o.ID.Type = btypes.ObjectType([]uint16{1024, 1025, 2047, 2048, 65535, uint16(1024 + r.Intn(64512))}[r.Intn(6)])
		return fmt.Sprintf("object type %d", o.ID.Type)
	case 1:
		o.ID.Instance = btypes.ObjectInstance([]uint32{4194304, 4194305, 1 << 23, 1 << 31, 0xffffffff, 4194304 + uint32(r.Intn(1<<30))}[r.Intn(6)])
		return fmt.Sprintf("instance %d", o.ID.Instance)
	}
	j := r.Intn(len(o.Properties))
	o.Properties[j].Type = btypes.PropertyType([]uint32{4194304, 4194305, 1 << 23, 1 << 31, 0xffffffff, 4194304 + uint32(r.Intn(1<<30))}[r.Intn(6)])
	return fmt.Sprintf("property %d", o.Properties[j].Type)
}

func runC06(c *C) {
	c.Need("ReadProperty", "ReadMultiple", "whole property", "index", "ReadProperty refused", "ReadMultiple refused", "no property refused")
	single := func(o ref.ObjID, prop, index uint32, id byte) {
		what := fmt.Sprintf("ReadProperty %v property %d index %d id %d", o, prop, int32(index), id)
		want := ref.Cat(ref.ReqHeader(id, ref.SvcReadProperty), ref.ReadPropertyReq(o, prop, index))
		c.Guard("ReadProperty", what, func() {
			e := encoding.NewEncoder()
			err := e.ReadProperty(id, btypes.PropertyData{Object: libObject(ref.Obj{ID: o, Props: []ref.Prop{{ID: prop, Index: index}}})})
			if err != nil || e.Error() != nil || !bytes.Equal(e.Bytes(), want) {
				c.Fail("ReadProperty", "%s is encoded as %s (%v), want %s", what, hexs(e.Bytes()), err, hexs(want))
			}
		})
		c.Count("ReadProperty", 1)
		if index == ref.ArrayAll {
			c.Count("whole property", 1)
		} else {
			c.Count("index", 1)
		}
		c.Eval(what)
	}
	c.Loop(0, c.N(200000, 4000000), func(i int, r *rand.Rand) {
		single(genObj(r), genPropID(r), genIndex(r), byte(r.Intn(256)))
	})
	// every object type, and properties densely
	c.Loop(10000000, 1024, func(i int, r *rand.Rand) {
		single(ref.ObjID{Type: uint16(i), Instance: uint32(r.Intn(1 << 22))}, uint32(r.Intn(512)), ref.ArrayAll, byte(i))
		for k := 0; k < c.N(64, 1024); k++ {
			single(genObj(r), uint32(i*4096+r.Intn(4096)), genIndex(r), byte(i))
		}
	})
	c.Loop(20000000, c.N(60000, 1000000), func(i int, r *rand.Rand) {
		objs := genReads(r)
		id := byte(r.Intn(256))
		want := ref.Cat(ref.ReqHeader(id, ref.SvcReadMultiple), ref.ReadMultipleReq(objs))
		c.Guard("ReadMultiple", "ReadPropertyMultiple "+showObjs(objs), func() {
			e := encoding.NewEncoder()
			err := e.ReadMultipleProperty(id, btypes.MultiplePropertyData{Objects: libObjects(objs)})
			if err != nil || e.Error() != nil || !bytes.Equal(e.Bytes(), want) {
				c.Fail("ReadMultiple", "ReadPropertyMultiple %s is encoded as %s (%v), want %s", showObjs(objs), hexs(e.Bytes()), err, hexs(want))
			}
		})
		c.Count("ReadMultiple", 1)
		c.Eval(fmt.Sprintf("ReadPropertyMultiple id %d %s", id, showObjs(objs)))
	})
	// what cannot be encoded
	c.Loop(30000000, c.N(60000, 500000), func(i int, r *rand.Rand) {
		objs := libObjects(genReads(r))
		k := r.Intn(len(objs))
		c.Guard("refusal", "an invalid request", func() {
			if i%2 == 0 {
				o := libObject(ref.Obj{ID: genObj(r), Props: []ref.Prop{{ID: genPropID(r), Index: genIndex(r)}}})
				what := spoil(r, &o)
				if i%20 == 0 {
					o.Properties = nil
					what = "no property"
				}
				e := encoding.NewEncoder()
				if err := e.ReadProperty(byte(r.Intn(256)), btypes.PropertyData{Object: o}); err == nil {
					c.Fail("accepted", "ReadProperty of %s (%+v) is encoded as %s", what, o, hexs(e.Bytes()))
				}
				if i%20 == 0 {
					c.Count("no property refused", 1)
				} else {
					c.Count("ReadProperty refused", 1)
				}
				c.Eval("invalid ReadProperty " + what)
				return
			}
			what := spoil(r, &objs[k])
			e := encoding.NewEncoder()
			if err := e.ReadMultipleProperty(byte(r.Intn(256)), btypes.MultiplePropertyData{Objects: objs}); err == nil {
				c.Fail("accepted", "ReadPropertyMultiple of %s in object %d of %d is encoded as %s", what, k, len(objs), hexs(e.Bytes()))
			}
			c.Count("ReadMultiple refused", 1)
			c.Eval(fmt.Sprintf("invalid ReadPropertyMultiple %s in object %d of %d", what, k, len(objs)))
		})
	})
}

// unencodable is a value of no supported kind, or one that cannot be represented
func unencodable(r *rand.Rand) any {
	switch r.Intn(9) {
	case 0:
		return struct{ A int }{1}
	case 1:
		return int64(r.Int63())
	case 2:
		return nil
	case 3:
		return map[string]int{}
	case 4:
		return complex(1, 1)
	case 5:
		return &struct{}{}
	case 6:
		return btypes.ObjectID{Type: 1024, Instance: 1}
	case 7:
		return btypes.ObjectID{Type: 1, Instance: 4194304}
	}
	return make(chan int)
}

func runC07(c *C) {
	c.Need("WriteProperty", "WriteMultiple", "enumerated", "priority", "no priority", "WriteProperty refused", "WriteMultiple refused", "value refused", "not for a binary point")
	binary := func(o ref.ObjID, prop uint32) bool { return (o.Type == 4 || o.Type == 5) && prop == 85 }
	prop := func(r *rand.Rand, o ref.ObjID) ref.Prop {
		p := ref.Prop{ID: genPropID(r), Index: genIndex(r), Prio: uint8(r.Intn(17))}
		if r.Intn(3) == 0 {
			p.ID = 85
		}
		_, v := genWritable(r, true)
		p.Vals = []any{v}
		return p
	}
	obj := func(r *rand.Rand) ref.ObjID {
		o := genObj(r)
		if r.Intn(3) == 0 {
			o.Type = uint16(r.Intn(6))
		}
		return o
	}
	c.Loop(0, c.N(250000, 4000000), func(i int, r *rand.Rand) {
		o := obj(r)
		p := prop(r, o)
		lib := libObject(ref.Obj{ID: o, Props: []ref.Prop{p}})
		refuse := false
		if binary(o, p.ID) {
			switch v := p.Vals[0].(type) {
			case ref.Uint:
				p.Vals[0] = ref.Enum(v)
				c.Count("enumerated", 1)
			case ref.Null:
			case ref.Enum:
				return // not stated
			default:
				refuse = true
			}
		}
		id := byte(r.Intn(256))
		what := fmt.Sprintf("WriteProperty %v property %d index %d priority %d id %d value %s", o, p.ID, int32(p.Index), p.Prio, id, show(lib.Properties[0].Data))
		c.Guard("WriteProperty", what, func() {
			e := encoding.NewEncoder()
			err := e.WriteProperty(id, btypes.PropertyData{Object: lib})
			if refuse {
				if err == nil {
					c.Fail("binary", "%s is encoded as %s", what, hexs(e.Bytes()))
				}
				c.Count("not for a binary point", 1)
				return
			}
			want := ref.Cat(ref.ReqHeader(id, ref.SvcWriteProperty), ref.WritePropertyReq(o, p))
			if err != nil || e.Error() != nil || !bytes.Equal(e.Bytes(), want) {
				c.Fail("WriteProperty", "%s is encoded as %s (%v), want %s", what, hexs(e.Bytes()), err, hexs(want))
			}
		})
		c.Count("WriteProperty", 1)
		if p.Prio == 0 {
			c.Count("no priority", 1)
		} else {
			c.Count("priority", 1)
		}
		c.Eval(what)
	})
	writes := func(r *rand.Rand) []ref.Obj {
		objs := make([]ref.Obj, 1+r.Intn(4))
		if r.Intn(20) == 0 {
			objs = make([]ref.Obj, 1+r.Intn(30))
		}
		for i := range objs {
			objs[i].ID = obj(r)
			for k := 1 + r.Intn(4); k > 0; k-- {
				objs[i].Props = append(objs[i].Props, prop(r, objs[i].ID))
			}
		}
		return objs
	}
	c.Loop(10000000, c.N(60000, 1000000), func(i int, r *rand.Rand) {
		objs := writes(r)
		id := byte(r.Intn(256))
		want := ref.Cat(ref.ReqHeader(id, ref.SvcWriteMultiple), ref.WriteMultipleReq(objs))
		c.Guard("WriteMultiple", "WritePropertyMultiple "+showObjs(objs), func() {
			e := encoding.NewEncoder()
			err := e.WriteMultiProperty(id, btypes.MultiplePropertyData{Objects: libObjects(objs)})
			if err != nil || e.Error() != nil || !bytes.Equal(e.Bytes(), want) {
				c.Fail("WriteMultiple", "WritePropertyMultiple %s is encoded as %s (%v), want %s", showObjs(objs), hexs(e.Bytes()), err, hexs(want))
			}
		})
		c.Count("WriteMultiple", 1)
		c.Eval(fmt.Sprintf("WritePropertyMultiple id %d %s", id, showObjs(objs)))
	})
	c.Loop(20000000, c.N(60000, 500000), func(i int, r *rand.Rand) {
		objs := libObjects(writes(r))
		k := r.Intn(len(objs))
		if i%2 == 0 {
			objs, k = objs[:1], 0
			objs[0].Properties = objs[0].Properties[:1]
		}
		var what string
		if r.Intn(2) == 0 {
			what = spoil(r, &objs[k])
		} else {
			j := r.Intn(len(objs[k].Properties))
			objs[k].Properties[j].Data = unencodable(r)
			what = fmt.Sprintf("value %T", objs[k].Properties[j].Data)
			c.Count("value refused", 1)
		}
		c.Guard("refusal", "an invalid request: "+what, func() {
			e := encoding.NewEncoder()
			var err error
			if i%2 == 0 {
				c.Count("WriteProperty refused", 1)
				err = e.WriteProperty(byte(r.Intn(256)), btypes.PropertyData{Object: objs[0]})
			} else {
				c.Count("WriteMultiple refused", 1)
				err = e.WriteMultiProperty(byte(r.Intn(256)), btypes.MultiplePropertyData{Objects: objs})
			}
			if err == nil {
				c.Fail("accepted", "a write with %s in object %d of %d is encoded as %s", what, k, len(objs), hexs(e.Bytes()))
			}
		})
		c.Eval(fmt.Sprintf("invalid write %d of %s in object %d of %d", i%2, what, k, len(objs)))
	})
}
