package checks

import (
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/NubeDev/bacnet/btypes"
	"verif/harness/ref"
	"verif/harness/sim"
)

func init() {
	register("C19", "object inventories of simulated devices: lists of every length and mix of types, every maximum APDU from 128 on, several at once; devices that answer everything, and devices that at one read fail, stay silent or answer something else; the inventory is compared with the device's database", runC19)
}

// ways to answer a read wrongly
const (
	badError = iota
	badSilent
	badReject
	badAbort
	badPropError
	badFewer
	badMore
	badOrder
	badIndex
	badObject
	badProperty
	badType
	badNull
	badTwoValues
	badNothing
	badTruncated
	badLength
	badKinds
)

var badNames = []string{"error", "silence", "reject", "abort", "property error", "fewer results", "more results", "another order", "another index", "another object",
	"another property", "another type of value", "null values", "two values", "no results", "truncated", "a wrong length"}

func genName(r *rand.Rand) any {
	n := []int{0, 1, 3, 10, 20, 30}[r.Intn(6)]
	if r.Intn(4) == 0 {
		return ref.Str(genText(r, n))
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(' ' + r.Intn(95))
	}
	return ref.Str(b)
}

type inventory struct {
	dev   *sim.Device
	list  []ref.ObjID
	names map[ref.ObjID][2]any
	fault int // the read that is answered wrongly, -1: none
	kind  int
	nth   int
	hit   int
	long  bool // the fault lasts
	slow  bool // every answer takes seconds
}

func genInventory(r *rand.Rand, d *sim.Device) *inventory {
	v := &inventory{dev: d, names: map[ref.ObjID][2]any{}, fault: -1}
	n := []int{0, 1, 2, 4, 5, 6, 7, 10, 11, 12, 24, 73, 74, 146, r.Intn(40), r.Intn(200), r.Intn(600)}[r.Intn(17)]
	if r.Intn(6) == 0 { // around a multiple of what one read can ask for
		n = max(0, int(min(d.MaxApdu, 1476))/20*(1+r.Intn(4))+r.Intn(3)-1)
	}
	mode := r.Intn(5)
	seen := map[ref.ObjID]bool{}
	for len(v.list) < n {
		o := ref.ObjID{Type: uint16(r.Intn(60)), Instance: uint32(r.Intn(50))}
		switch mode {
		case 0:
			o = ref.ObjID{Type: uint16(r.Intn(3)), Instance: uint32(len(v.list))}
		case 1:
			o = ref.ObjID{Type: uint16([]int{127, 128, 129, 130, 200, 1022, 1023}[r.Intn(7)]), Instance: uint32(r.Intn(4194304))}
		case 2:
			o.Type = uint16(r.Intn(1024))
			o.Instance = uint32(r.Intn(4194304))
		}
		if len(v.list) == 0 && r.Intn(2) == 0 {
			o = d.Self()
		}
		if seen[o] {
			o.Instance = uint32(r.Intn(4194304))
			if seen[o] {
				continue
			}
		}
		seen[o] = true
		v.list = append(v.list, o)
	}
	var vals []any
	for _, o := range v.list {
		vals = append(vals, o)
		nm := [2]any{genName(r), genName(r)}
		v.names[o] = nm
		d.Set(o, sim.PropObjectName, nm[0])
		d.Set(o, sim.PropDescription, nm[1])
	}
	d.Set(d.Self(), sim.PropObjectList, vals...)
	return v
}

// again changes what the device holds, as an engineer would, and the inventory with it
func (v *inventory) again(r *rand.Rand) {
	v.fault, v.hit, v.long = -1, 0, false
	if r.Intn(3) == 0 { // another set of objects
		w := genInventory(r, v.dev)
		v.list, v.names = w.list, w.names
	}
	for _, o := range v.list {
		nm := v.names[o]
		for k := range nm {
			switch r.Intn(4) {
			case 0:
				nm[k] = ref.Str("")
			case 1:
				nm[k] = genName(r)
			}
		}
		if r.Intn(4) == 0 {
			nm[0], nm[1] = nm[1], nm[0]
		}
		v.names[o] = nm
		v.dev.Set(o, sim.PropObjectName, nm[0])
		v.dev.Set(o, sim.PropDescription, nm[1])
	}
}

func runC19(c *C) {
	for _, n := range badNames {
		c.Need("answered with " + n)
	}
	c.Need("long idle", "complete inventories", "objects", "proprietary objects", "standard objects", "empty lists", "one object", "errors", "taken again after changes", "taken again with what was returned", "huge maximum", "several at once", "remote devices", "smallest APDU", "largest APDU", "a long list", "slow devices")
	c.Loop(0, c.N(15000, 300000), func(i int, r *rand.Rand) {
		n := []int{1, 1, 1, 3}[r.Intn(4)]
		devs := genDevices(r, n)
		var vs []*inventory
		for _, d := range devs {
			d.MaxApdu = []uint32{128, 206, 480, 1024, 1476, uint32(128 + r.Intn(1349))}[r.Intn(6)]
			v := genInventory(r, d)
			if i%2 == 1 {
				v.fault, v.kind, v.long = r.Intn(12), r.Intn(badKinds), r.Intn(3) > 0
				if r.Intn(2) == 0 {
					v.fault = r.Intn(3)
				}
			}
			if r.Intn(8) == 0 { // more than there is on this link
				d.MaxApdu = []uint32{1477, 2000, 5119, 5120, 5121, 5140, 65535, 65536, 1<<17 + 20, 1 << 20, 1<<31 - 1, 1 << 31, 1<<32 - 1}[r.Intn(13)]
				c.Count("huge maximum", 1)
			}
			vs = append(vs, v)
		}
		if n > 1 {
			c.Count("several at once", 1)
		}
		c.inventories(vs, r)
	})
	c.Loop(1<<21, c.N(64, 800), func(i int, r *rand.Rand) { // many objects, and a device that takes its time
		d := genDevices(r, 1)[0]
		d.MaxApdu = []uint32{128, 206, 480, 1024, 1476}[r.Intn(5)]
		var v *inventory
		for v == nil || len(v.list) < 100 {
			v = genInventory(r, d)
		}
		v.slow = true
		c.Count("slow devices", 1)
		c.inventories([]*inventory{v}, r)
	})
	c.Loop(1<<20, c.N(8, 80), func(i int, r *rand.Rand) { // beyond two octets of index
		if i > 0 && i < 7 && !c.Thorough {
			return
		}
		d := genDevices(r, 1)[0]
		d.MaxApdu = []uint32{1476, 480}[r.Intn(2)]
		v := &inventory{dev: d, names: map[ref.ObjID][2]any{}, fault: -1}
		var vals []any
		n := 65530 + r.Intn(300)
		if i == 7 {
			n = 5000
		}
		for k := 0; k < n; k++ {
			o := ref.ObjID{Type: 200, Instance: uint32(k)}
			if k%50 == 0 {
				o.Type = 2
				nm := [2]any{ref.Str(fmt.Sprint("point ", k)), ref.Str("")}
				v.names[o] = nm
				d.Set(o, sim.PropObjectName, nm[0])
				d.Set(o, sim.PropDescription, nm[1])
			}
			v.list = append(v.list, o)
			vals = append(vals, o)
		}
		d.Set(d.Self(), sim.PropObjectList, vals...)
		c.Count("a long list", 1)
		c.inventories([]*inventory{v}, r)
	})
}

// slow reports whether the devices take long to answer
func slow(vs []*inventory) bool {
	for _, v := range vs {
		if v.slow {
			return true
		}
	}
	return false
}

func (c *C) inventories(vs []*inventory, r *rand.Rand) {
	var devs []*sim.Device
	for _, v := range vs {
		devs = append(devs, v.dev)
	}
	seed := r.Int63()
	c.Bubble("inventory", func(t *testing.T) {
		w := newWorld(0)
		defer w.end()
		rr := rand.New(rand.NewSource(seed))
		c.idle(rr)
		var mu sync.Mutex
		w.OnSend = func(p sim.Packet) {
			q, err := sim.ParseRequest(p)
			if err != nil {
				c.Fail("request", "sent to %v: %v: %s", p.Dest, err, hexs(p.Data))
				return
			}
			d := find(devs, q)
			if d == nil {
				c.Fail("request", "sent to nobody: %v: %s", p.Dest, hexs(p.Data))
				return
			}
			mu.Lock()
			defer mu.Unlock()
			var v *inventory
			for _, v = range vs {
				if v.dev == d {
					break
				}
			}
			k := v.nth
			v.nth++
			rt := q.Reply()
			if v.fault >= 0 && (k == v.fault || v.long && k > v.fault) {
				if b := c.wrong(v, q, rr); b != nil {
					v.hit++
					w.InjectAfter(ms(rr.Intn(20)), rt.From, rt.Frame(b))
					return
				}
				if v.kind == badSilent {
					v.hit++
					return
				}
			}
			if v.slow {
				w.InjectAfter(ms(1000+rr.Intn(3500)), rt.From, rt.Frame(d.Serve(q)))
				return
			}
			w.InjectAfter(ms(rr.Intn(20)), rt.From, rt.Frame(d.Serve(q)))
		}
		more := max(0, rr.Intn(6)-3)
		if slow(vs) {
			more = 0
		}
		var wg sync.WaitGroup
		for _, v := range vs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				in := libDevice(v.dev)
				var out btypes.Device
				var err error
				if !c.Guard("objects", "Objects", func() { out, err = w.cl.Objects(in) }) {
					return
				}
				c.judgeInventory(v, in, out, err)
				for k := more; k > 0 && len(v.list) < 5000; k-- {
					time.Sleep(20 * time.Second) // late answers are gone
					mu.Lock()
					v.again(rr)
					if rr.Intn(2) == 0 { // with what was returned
						in = out
						c.Count("taken again with what was returned", 1)
					}
					mu.Unlock()
					if c.Guard("objects", "Objects", func() { out, err = w.cl.Objects(in) }) {
						c.judgeInventory(v, in, out, err)
						c.Count("taken again after changes", 1)
					}
				}
			}()
		}
		wg.Wait()
		time.Sleep(time.Second)
	})
}

// wrong answers a read with something other than what was asked for, nil if that is not possible
func (c *C) wrong(v *inventory, q *sim.Request, r *rand.Rand) []byte {
	id, svc := q.APDU.ID, q.APDU.Svc
	op, objs, err := asked(q)
	if err != nil || op > opReadMulti {
		return nil
	}
	// the right answer
	for i := range objs {
		for j := range objs[i].Props {
			p := &objs[i].Props[j]
			l := v.dev.Get(objs[i].ID, p.ID)
			switch {
			case p.Index == ref.ArrayAll:
				p.Vals = l
			case p.Index == 0:
				p.Vals = []any{ref.Uint(len(l))}
			case int(p.Index) <= len(l):
				p.Vals = l[p.Index-1 : p.Index]
			default:
				return nil
			}
		}
	}
	i := r.Intn(len(objs))
	j := r.Intn(len(objs[i].Props))
	o := &objs[i]
	p := &o.Props[j]
	multi := op == opReadMulti
	switch v.kind {
	case badError:
		class, code := genError(r)
		c.Count("answered with error", 1)
		return ref.ErrorAnswer(id, svc, class, code)
	case badSilent:
		c.Count("answered with silence", 1)
		return nil
	case badReject:
		c.Count("answered with reject", 1)
		return []byte{0x60, id, 9}
	case badAbort:
		c.Count("answered with abort", 1)
		return []byte{0x71, id, 4}
	case badPropError:
		if !multi {
			return nil
		}
		p.Err = &[2]uint32{2, 32}
		if r.Intn(2) == 0 {
			for k := range objs {
				for l := range objs[k].Props {
					objs[k].Props[l].Err = &[2]uint32{2, 32}
				}
			}
		}
	case badFewer:
		if !multi {
			return nil
		}
		if len(o.Props) > 1 && r.Intn(2) == 0 {
			o.Props = append(o.Props[:j:j], o.Props[j+1:]...)
		} else if len(objs) > 1 {
			objs = append(objs[:i:i], objs[i+1:]...)
		} else {
			return nil
		}
	case badMore:
		if !multi {
			return nil
		}
		if r.Intn(2) == 0 {
			o.Props = append(o.Props, *p)
		} else {
			objs = append(objs, *o)
		}
	case badOrder:
		if len(objs) > 1 && r.Intn(2) == 0 {
			k := (i + 1) % len(objs)
			objs[i], objs[k] = objs[k], objs[i]
		} else if len(o.Props) > 1 {
			k := (j + 1) % len(o.Props)
			o.Props[j], o.Props[k] = o.Props[k], o.Props[j]
		} else {
			return nil
		}
	case badIndex:
		if p.Index == ref.ArrayAll {
			p.Index = 1
		} else {
			p.Index++
		}
	case badObject:
		o.ID.Instance ^= 1
	case badProperty:
		p.ID++
	case badType:
		p.Vals = []any{genValue(r, false)}
		switch p.Vals[0].(type) {
		case ref.Str, ref.Str2, ref.ObjID, ref.Uint, ref.Enum: // an enumeration is the same Go type as a number
			p.Vals = []any{float32(3)}
		}
	case badNull:
		p.Vals = []any{ref.Null{}}
	case badTwoValues:
		p.Vals = append(append([]any{}, p.Vals...), p.Vals...)
	case badNothing:
		if !multi {
			p.Vals = nil
		} else {
			objs = nil
		}
	case badTruncated:
		b := positive(q, op, objs)
		c.Count("answered with truncated", 1)
		return b[:3+r.Intn(len(b)-3)]
	case badLength:
		if p.Index != 0 {
			return nil
		}
		n := len(v.list)
		l := []any{ref.Uint(n + 1 + r.Intn(30)), ref.Uint(4294967295), ref.Uint(2147483648), ref.Str("3"), ref.Int(-1)}
		p.Vals = l[r.Intn(len(l)):][:1]
	}
	c.Count("answered with "+badNames[v.kind], 1)
	if b := positive(q, op, objs); len(b) <= 1476 {
		return b
	}
	return nil
}

func text(v any) string {
	switch s := v.(type) {
	case ref.Str:
		return string(s)
	case ref.Str2:
		return string(s)
	}
	return fmt.Sprint(v)
}

func (c *C) judgeInventory(v *inventory, in, out btypes.Device, err error) {
	what := fmt.Sprintf("inventory of %d objects, maximum APDU %d, network %d MAC % x", len(v.list), v.dev.MaxApdu, v.dev.Net, v.dev.Mac)
	if v.hit > 0 {
		what += fmt.Sprintf(", answered with %s from read %d on", badNames[v.kind], v.fault)
	}
	types := map[uint16]int{}
	for _, o := range v.list {
		types[o.Type]++
	}
	c.Eval(fmt.Sprintf("%s, types %v", what, types))
	if err != nil {
		if v.hit == 0 {
			c.Fail("error", "%s: failed although every read was answered: %v", what, err)
		}
		c.Count("errors", 1)
		return
	}
	if v.hit > 0 {
		switch v.kind {
		case badFewer, badMore, badOrder, badIndex, badObject, badProperty:
			c.Fail("accepted", "%s, which is not what was asked for: no error", what)
			return
		}
	}
	n := 0
	for t, m := range out.Objects {
		for i, o := range m {
			n++
			id := ref.ObjID{Type: uint16(t), Instance: uint32(i)}
			nm, ok := v.names[id]
			if !ok && t != 200 {
				c.Fail("inventory", "%s: %v is listed, but the device does not have it", what, id)
				return
			}
			if o.ID.Type != t || o.ID.Instance != i {
				c.Fail("inventory", "%s: under %v is %v", what, id, o.ID)
				return
			}
			if t < 128 && (o.Name != text(nm[0]) || o.Description != text(nm[1])) {
				c.Fail("inventory", "%s: %v has the name %q and the description %q, reported as %q and %q", what, id, text(nm[0]), text(nm[1]), o.Name, o.Description)
				return
			}
			if t >= 128 {
				c.Count("proprietary objects", 1)
			} else {
				c.Count("standard objects", 1)
			}
		}
	}
	if n != len(v.list) {
		c.Fail("inventory", "%s: %d objects are listed", what, n)
		return
	}
	for _, o := range v.list {
		if _, ok := out.Objects[btypes.ObjectType(o.Type)][btypes.ObjectInstance(o.Instance)]; !ok {
			c.Fail("inventory", "%s: %v is missing", what, o)
			return
		}
	}
	if out.ID != in.ID || out.DeviceID != in.DeviceID || fmt.Sprint(out.Addr.Mac, out.Addr.Net, out.Addr.Adr) != fmt.Sprint(in.Addr.Mac, in.Addr.Net, in.Addr.Adr) {
		c.Fail("inventory", "%s: of %+v was asked, returned was %+v", what, in, out)
		return
	}
	c.Count("complete inventories", 1)
	c.Count("objects", n)
	switch n {
	case 0:
		c.Count("empty lists", 1)
	case 1:
		c.Count("one object", 1)
	}
	if v.dev.Net != 0 {
		c.Count("remote devices", 1)
	}
	switch v.dev.MaxApdu {
	case 128:
		c.Count("smallest APDU", 1)
	case 1476:
		c.Count("largest APDU", 1)
	}
}
