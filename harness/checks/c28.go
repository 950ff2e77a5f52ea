package checks

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"
	"unsafe"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/network"
	"verif/harness/ref"
	"verif/harness/sim"
)

func init() {
	register("C28", "operations of every kind, alone and several at once sharing devices and data; a complete picture of each argument, unexported fields and spare room of slices included, is taken before and compared after; a picture of each result is compared again after much other traffic; results are then overwritten and the operations repeated", runC28)
}

// deep writes all there is to reach from a value, with the spare room of slices when asked to
func deep(v any, spare bool) string {
	var b strings.Builder
	x := reflect.New(reflect.TypeOf(&v).Elem()).Elem()
	if v != nil {
		x.Set(reflect.ValueOf(v))
	}
	deepInto(&b, x, spare, 0)
	return b.String()
}

func deepInto(b *strings.Builder, v reflect.Value, spare bool, depth int) {
	if depth > 14 {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(b, "%x", math.Float64bits(v.Float()))
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(b, "%v:", v.Elem().Type())
		deepInto(b, v.Elem(), spare, depth+1)
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		deepInto(b, v.Elem(), spare, depth+1)
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			t := v.Field(i).Type()
			if t == reflect.TypeOf((*bacnet.Client)(nil)).Elem() {
				continue
			}
			fmt.Fprintf(b, "%s=", v.Type().Field(i).Name)
			deepInto(b, v.Field(i), spare, depth+1)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice:
		n := v.Len()
		fmt.Fprintf(b, "%d[", n)
		if spare && !v.IsNil() {
			v = v.Slice(0, v.Cap())
			n = v.Cap()
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			deepInto(b, v.Index(i), spare, depth+1)
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.Map:
		it := v.MapRange()
		var all []string
		for it.Next() {
			var e strings.Builder
			deepInto(&e, it.Key(), spare, depth+1)
			e.WriteString(":")
			deepInto(&e, it.Value(), spare, depth+1)
			all = append(all, e.String())
		}
		sortStrings(all)
		fmt.Fprintf(b, "%q", all)
	}
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// scribble overwrites all that can be reached from a result
func scribble(v reflect.Value, depth int) {
	if depth > 14 {
		return
	}
	if v.CanAddr() && !v.CanSet() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i), depth+1)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), depth+1)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(0xee & (1<<min(v.Type().Bits(), 63) - 1))
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(0x6e)
		}
	}
}

// roomy gives a slice spare room with something in it
func roomy(b []byte) []byte {
	if len(b) == 0 {
		return b
	}
	x := make([]byte, len(b)+5)
	for i := range x {
		x[i] = 0xa5
	}
	copy(x, b)
	return x[:len(b)]
}

var owned = []string{"ReadProperty", "ReadMultiProperty", "WriteProperty", "WriteMultiProperty", "Who-Is", "network number", "routers", "I-Am", "inventory", "point read", "point write", "point release", "point details", "point object", "network discovery"}

// anyWhoIsOpts has limits of every sort, those without a meaning included
func anyWhoIsOpts(r *rand.Rand, devs []*sim.Device) *bacnet.WhoIsOpts {
	o := genWhoIsOpts(r, devs)
	odd := []int{-1, 0, -4194304, 1, 4194302, 4194303, 4194304, 1 << 30, int(devs[0].Instance)}
	if r.Intn(2) == 0 {
		o.Low = odd[r.Intn(len(odd))]
	}
	if r.Intn(2) == 0 {
		o.High = odd[r.Intn(len(odd))]
	}
	if r.Intn(4) == 0 {
		o.NetworkNumber = uint16(r.Intn(65536))
	}
	return o
}

func runC28(c *C) {
	for _, k := range owned {
		c.Need(k)
	}
	c.Need("long idle", "failed", "succeeded", "shared by several at once", "results kept", "repeated after overwriting", "octets returned")
	c.Loop(0, c.N(9600, 200000), func(i int, r *rand.Rand) {
		c.Bubble("ownership", func(t *testing.T) { c.ownership(r) })
	})
}

func (c *C) ownership(r *rand.Rand) {
	w := newWorld(0)
	c.idle(r)
	w.Patience = 1000
	defer w.end()
	devs := genNetDevices(r, 2)
	var names []string
	for k, d := range devs {
		n, _ := describe(r, d, k)
		names = append(names, n)
		var ids []any
		for _, id := range genIDs(r, r.Intn(12)) {
			ids = append(ids, id)
			d.Set(id, sim.PropObjectName, ref.Str(genText(r, r.Intn(10))))
			d.Set(id, sim.PropDescription, ref.Str(genText(r, r.Intn(10))))
			d.Set(id, sim.PropPresentValue, genF32(r))
			d.Set(id, propUnits, ref.Enum(r.Intn(200)))
		}
		d.Set(d.Self(), sim.PropObjectList, ids...)
	}
	bad := r.Intn(3) == 0
	var mu sync.Mutex
	values := map[string][]any{} // what a property holds, so that repeating a read returns the same
	rr := rand.New(rand.NewSource(r.Int63()))
	w.OnSend = func(p sim.Packet) {
		mu.Lock()
		defer mu.Unlock()
		q, err := sim.ParseRequest(p)
		if err != nil {
			if lo, hi, ok := parseWhoIs(p.Data); ok {
				for _, d := range devs {
					if lo < 0 || int64(d.Instance) >= lo && int64(d.Instance) <= hi {
						w.InjectAfter(ms(5), d.EP, d.Route().Frame(d.IAm()))
					}
				}
				return
			}
			// some network query: what it gets is the same each time
			for k := 0; k < 3; k++ {
				rt := sim.Route{From: sim.EP{IP: [4]byte{10, 3, 0, byte(k)}, Port: 47808}, Src: &ref.Addr{Net: uint16(3 + k), Mac: ref.Octets{9, byte(k)}}}
				w.InjectAfter(ms(5+k), rt.From, rt.FrameNetwork(0x13, []byte{0, byte(20 + k), 1}))
				rt.Src = nil
				w.InjectAfter(ms(5+k), rt.From, rt.FrameNetwork(0x01, []byte{0, byte(30 + k), 0, byte(40 + k)}))
			}
			return
		}
		d := find(devs, q)
		if d == nil {
			return
		}
		op, objs, err := asked(q)
		if err != nil {
			return
		}
		var b []byte
		switch {
		case bad && len(q.APDU.Body)%3 == 0:
			class, code := genError(rr)
			b = ref.ErrorAnswer(q.APDU.ID, q.APDU.Svc, class, code)
		default:
			served := d.Serve(q)
			if served[0]>>4 == 5 && op == opRead || op == opReadMulti && objs[0].ID.Type != 8 && len(objs[0].Props) > 0 && objs[0].Props[0].ID != sim.PropObjectName || served[0]>>4 == 5 { // anything at all
				for i := range objs {
					for j := range objs[i].Props {
						p := &objs[i].Props[j]
						key := fmt.Sprint(d.Instance, objs[i].ID, p.ID, p.Index)
						if values[key] == nil {
							values[key] = genVals(rr)
							if len(values[key]) == 0 || rr.Intn(3) == 0 {
								values[key] = []any{genOctets(rr, 1+rr.Intn(30))}
							}
						}
						p.Vals = values[key]
					}
				}
				served = positive(q, op, objs)
			}
			b = served
		}
		rt := q.Reply()
		w.InjectAfter(ms(rr.Intn(3)), rt.From, rt.Frame(b))
	}
	net, ok := simNetwork(w.cl)
	if !ok {
		c.Assume("the client of a network could not be replaced")
		return
	}
	my, bc := deep(w.My, true), deep(w.Bcast, true)
	type call struct {
		kind string
		args []any
		run  func() (any, error)
		// what came of it
		got  any
		pic  string
		err  error
		what string
	}
	var calls []*call
	n := 1 + r.Intn(6)
	var shared []*call
	for k := 0; k < n; k++ {
		d := devs[r.Intn(2)]
		dev := libDevice(d)
		dev.Addr.Mac, dev.Addr.Adr = roomy(dev.Addr.Mac), roomy(dev.Addr.Adr)
		x := &call{kind: owned[r.Intn(len(owned))]}
		switch x.kind {
		case "ReadProperty":
			rp := propData(ref.Obj{ID: genObj(r), Props: []ref.Prop{{ID: genPropID(r), Index: genIndex(r)}}})
			x.args = []any{&dev, &rp}
			one := []btypes.Object{rp.Object}
			givenData(r, one)
			rp.Object = one[0]
			x.run = func() (any, error) { return w.cl.ReadProperty(dev, rp) }
		case "ReadMultiProperty":
			rp := multiData(genReads(r))
			givenData(r, rp.Objects)
			x.args = []any{&dev, &rp}
			x.run = func() (any, error) { return w.cl.ReadMultiProperty(dev, rp) }
		case "WriteProperty", "WriteMultiProperty":
			var objs []ref.Obj
			for objs == nil {
				objs = genWritesOf(r, 30+r.Intn(400))
			}
			if r.Intn(2) == 0 { // commands to inputs, outputs and values of every kind
				for k := range objs {
					objs[k].ID.Type = uint16([]int{0, 1, 2, 3, 4, 5, 13, 14, 19}[r.Intn(9)])
					p := &objs[k].Props[0]
					p.ID, p.Prio = sim.PropPresentValue, uint8(r.Intn(17))
					p.Vals = []any{[]any{ref.Uint(r.Intn(3)), ref.Enum(r.Intn(3)), genF32(r), r.Intn(2) == 0, ref.Null{}, ref.Int(-r.Intn(3)), genF64(r)}[r.Intn(7)]}
				}
			}
			if x.kind == "WriteProperty" {
				objs[0].Props = objs[0].Props[:1]
				wp := propData(objs[0])
				x.args = []any{&dev, &wp}
				x.run = func() (any, error) { return nil, w.cl.WriteProperty(dev, wp) }
				break
			}
			wp := multiData(objs)
			x.args = []any{&dev, &wp}
			x.run = func() (any, error) { return nil, w.cl.WriteMultiProperty(dev, wp) }
		case "Who-Is":
			o := anyWhoIsOpts(r, devs)
			x.args = []any{o}
			x.run = func() (any, error) { return w.cl.WhoIs(o) }
		case "network number":
			x.run = func() (any, error) { return w.cl.WhatIsNetworkNumber(), nil }
		case "routers":
			x.run = func() (any, error) { return w.cl.WhoIsRouterToNetwork(), nil }
		case "I-Am":
			iam := btypes.IAm{ID: dev.ID, MaxApdu: genUint(r), Segmentation: 3, Vendor: genUint(r), Addr: dev.Addr}
			x.args = []any{&dev, &iam}
			x.run = func() (any, error) { return nil, w.cl.IAm(dev.Addr, iam) }
		case "inventory":
			dev.Objects = btypes.ObjectMap{2: {7: btypes.Object{Name: "old"}}}
			x.args = []any{&dev}
			x.run = func() (any, error) { return w.cl.Objects(dev) }
		case "network discovery":
			o := anyWhoIsOpts(r, devs)
			x.args = []any{o}
			x.run = func() (any, error) { return net.NetworkDiscover(o) }
		default:
			nd, err := network.NewDevice(net, netDevice(d, "x"))
			if err != nil {
				c.Fail("device", "no device: %v", err)
				return
			}
			id := genObj(r)
			pnt := &network.Point{ObjectID: btypes.ObjectInstance(id.Instance), ObjectType: btypes.ObjectType(r.Intn(6)), WritePriority: uint8(r.Intn(17)), WriteValue: genF32(r)}
			x.args = []any{nd, pnt}
			switch x.kind {
			case "point read":
				x.run = func() (any, error) { return nd.PointReadPriority(pnt) }
			case "point write":
				v := genF32(r)
				x.run = func() (any, error) { return nil, nd.PointWriteAnalogue(pnt, v) }
			case "point release":
				pri := uint8(1 + r.Intn(16))
				x.run = func() (any, error) { return nil, nd.PointReleasePriority(pnt, pri) }
			case "point details":
				x.run = func() (any, error) { return nd.PointDetails(pnt) }
			case "point object":
				o := &network.Object{ObjectID: pnt.ObjectID, ObjectType: pnt.ObjectType, Prop: btypes.PropertyType(genPropID(r)), ArrayIndex: genIndex(r)}
				x.args = append(x.args, o)
				x.run = func() (any, error) { return nd.Read(o) }
			}
		}
		calls = append(calls, x)
		if r.Intn(3) == 0 { // the very same arguments at the same time
			y := *x
			calls = append(calls, &y)
			shared = append(shared, x)
		}
	}
	pics := map[*call]string{}
	for _, x := range calls {
		pics[x] = deep(x.args, true)
	}
	args := func(when string) {
		for _, x := range calls {
			if p := deep(x.args, true); p != pics[x] {
				c.Fail("argument", "%s, %s: the arguments were\n%s\nand are\n%s", x.kind, when, pics[x], p)
				return
			}
		}
	}
	atOnce := r.Intn(2) == 0
	do := func(x *call) {
		c.Guard(x.kind, x.kind, func() {
			x.got, x.err = x.run()
			x.pic = deep(x.got, false)
			time.Sleep(ms(20)) // what is still under way arrives
		})
	}
	var wg sync.WaitGroup
	for _, x := range calls {
		if !atOnce {
			do(x)
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			do(x)
		}()
	}
	wg.Wait()
	for _, x := range calls {
		c.Count(x.kind, 1)
		c.Eval(x.kind + x.pic + pics[x])
		if x.err != nil {
			c.Count("failed", 1)
		} else {
			c.Count("succeeded", 1)
		}
		if strings.Contains(x.pic, "[]uint8:") {
			c.Count("octets returned", 1)
		}
	}
	if atOnce && len(shared) > 0 {
		c.Count("shared by several at once", len(shared))
	}
	args("after it")
	if deep(w.My, true) != my || deep(w.Bcast, true) != bc {
		c.Fail("link address", "the addresses of the link have changed to %s and %s", deep(w.My, true), deep(w.Bcast, true))
	}
	// much that has nothing to do with the results
	for k := 0; k < 1+r.Intn(60); k++ {
		b, _ := genTraffic(r)
		w.Inject(genEP(r), harmless(b, func(byte) bool { return true }))
	}
	time.Sleep(time.Second)
	for k := 0; k < r.Intn(4); k++ {
		w.do(r.Intn(2), libDevice(devs[r.Intn(2)]), []ref.Obj{{ID: genObj(r), Props: []ref.Prop{{ID: genPropID(r), Index: ref.ArrayAll}}}})
	}
	for _, x := range calls {
		if p := deep(x.got, false); p != x.pic {
			c.Fail("result", "%s: the result was\n%s\nand has become\n%s", x.kind, x.pic, p)
			return
		}
		c.Count("results kept", 1)
	}
	args("after other operations")
	// the caller may do with a result what he likes
	if bad {
		return
	}
	for _, x := range calls {
		if x.kind == "inventory" { // returns the device given
			continue
		}
		scribble(reflect.ValueOf(&x.got).Elem(), 0)
	}
	for _, x := range calls {
		if x.err != nil || x.kind == "inventory" {
			continue
		}
		was := x.pic
		do(x)
		c.Count("repeated after overwriting", 1)
		if x.err != nil {
			c.Fail("repeated", "%s: succeeded, and failed when repeated: %v", x.kind, x.err)
		} else if x.kind == "network number" || x.kind == "routers" || x.kind == "Who-Is" || x.kind == "network discovery" {
			if len(x.pic) != len(was) && !atOnce { // others asked, too
				c.Fail("repeated", "%s: the result was\n%s\nand is, repeated after it was overwritten,\n%s", x.kind, was, x.pic)
			}
		} else if x.pic != was {
			c.Fail("repeated", "%s: the result was\n%s\nand is, repeated after it was overwritten,\n%s", x.kind, was, x.pic)
		}
	}
	args("after repeating")
}

// givenData puts into what is to be read the values, priorities and texts that a caller may have there from before
func givenData(r *rand.Rand, objs []btypes.Object) {
	for i := range objs {
		if r.Intn(4) == 0 {
			objs[i].Name, objs[i].Description = genLabel(r), genLabel(r)
		}
		for k := range objs[i].Properties {
			p := &objs[i].Properties[k]
			switch r.Intn(4) {
			case 0:
				p.Data = []any{genUint(r), "text", []any{float32(1), "x"}, true, &btypes.BitString{}}[r.Intn(5)]
			case 1:
				p.Priority = btypes.NPDUPriority(r.Intn(17))
			}
		}
	}
}
