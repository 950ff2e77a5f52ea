package checks

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sync"
	"testing"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/units"
	"github.com/NubeDev/bacnet/network"
	"verif/harness/ref"
	"verif/harness/sim"
)

func init() {
	register("C24", "sequences of point reads, writes, releases and name operations on the points of several simulated devices, on several points at once; devices that now and then answer with an error, nothing or a value of another type; each result and in the end the whole database and log of writes of each device are compared with a model", runC24)
}

var pointTypes = []uint16{0, 1, 2, 3, 4, 5, 13, 14, 19}

const propUnits = 117

// point is a point and what the device should hold of it
type point struct {
	d      *sim.Device
	nd     *network.Device
	id     ref.ObjID
	cmd    bool
	slots  [16]any
	dflt   any
	pv     any
	name   any
	desc   any
	other  map[uint32]any
	units  uint32
	writes []sim.Write
	// what the next request for it meets
	fate  string
	value []any
	hit   bool
	once  bool // it meets it only once
	sent  int
}

func (p *point) present() any {
	if !p.cmd {
		return p.pv
	}
	for _, v := range p.slots {
		if v != (ref.Null{}) {
			return v
		}
	}
	return p.dflt
}

func (p *point) binary() bool { return p.id.Type == 3 || p.id.Type == 4 || p.id.Type == 5 }
func (p *point) analog() bool { return p.id.Type < 3 }

func (p *point) genPresent(r *rand.Rand) any {
	switch {
	case p.analog():
		return genReal(r)
	case p.binary():
		return ref.Enum(r.Intn(2))
	}
	return ref.Uint(genUint(r))
}

// genReal is any real, one that is no number among them
func genReal(r *rand.Rand) float32 {
	if r.Intn(25) == 0 {
		return float32(math.NaN())
	}
	return genF32(r)
}

// canon makes values comparable, also those that are no numbers
func canon(v any) any {
	switch x := v.(type) {
	case float32:
		if x != x {
			return "NaN32"
		}
		return [2]uint64{32, uint64(math.Float32bits(x))}
	case float64:
		if x != x {
			return "NaN64"
		}
		return [2]uint64{64, math.Float64bits(x)}
	case []any:
		out := make([]any, 0, len(x))
		for _, e := range x {
			out = append(out, canon(e))
		}
		return out
	case [16]any:
		for k := range x {
			x[k] = canon(x[k])
		}
		return x
	case []sim.Write:
		out := make([]sim.Write, 0, len(x))
		for _, e := range x {
			e.Prop.Vals = canon(e.Prop.Vals).([]any)
			out = append(out, e)
		}
		return out
	}
	return v
}

// alike compares any values
func alike(a, b any) bool { return reflect.DeepEqual(canon(a), canon(b)) }

var pointOps = []string{"PointReadFloat32", "PointReadBool", "PointReadMultiState", "PointReadPriority", "PointWriteAnalogue", "PointWriteBool", "PointWriteMultiState", "PointReleasePriority", "ReadPointName",
	"WritePointName", "ReadString", "Read", "Write", "write of another property", "PointDetails", "unsupported", "release refused"}

// props are further properties that can be read and written, of any type
var props = []uint32{1, 17, 22, 59, 113, 512, 9999, 4194303}

// genOther is a value of a type that can be written
func genOther(r *rand.Rand) any {
	switch r.Intn(5) {
	case 0:
		return ref.Uint(genUint(r))
	case 1:
		return genReal(r)
	case 2:
		return []float64{0.1, 1e300, -5e-324, 16777217, 1.0000000001, math.Pi, math.Inf(-1), 0, r.NormFloat64(), float64(r.Uint64()), math.Float64frombits(r.Uint64()&^(1<<62) | 1<<51)}[r.Intn(11)]
	case 3:
		return ref.Str(genLabel(r))
	}
	return ref.Null{}
}

var pointFates = []string{"error", "silence", "reject", "abort", "another type"}

func runC24(c *C) {
	for _, o := range pointOps {
		c.Need(o)
	}
	for _, f := range pointFates {
		c.Need("met: " + f)
	}
	for p := 0; p <= 16; p++ {
		c.Need(fmt.Sprintf("written at priority %d", p))
		if p > 0 {
			c.Need(fmt.Sprintf("released at priority %d", p))
		}
	}
	c.Need("long idle", "written: float32", "written: float64", "written: ref.Uint", "written: ref.Str", "written: ref.Null")
	c.Need("ReadDeviceName", "WriteDeviceName", "behind a router", "over UDP")
	c.Loop(0, c.N(4000, 80000), func(i int, r *rand.Rand) {
		c.Bubble("point operations", func(t *testing.T) {
			w := newWorld(0)
			c.idle(r)
			defer w.end()
			net, ok := simNetwork(w.cl)
			if !ok {
				c.Assume("the client of a network could not be replaced: real sockets only")
				return
			}
			devs := genNetDevices(r, 1+r.Intn(3))
			pts := genPoints(c, r, net, devs)
			var mu sync.Mutex
			w.OnSend = func(p sim.Packet) {
				q, err := sim.ParseRequest(p)
				var d *sim.Device
				if err == nil {
					d = find(devs, q)
				}
				if d == nil {
					c.Fail("request", "sent to %v (%v): %s", p.Dest, err, hexs(p.Data))
					return
				}
				mu.Lock()
				defer mu.Unlock()
				if b := c.answerPoint(r, pts, d, q); b != nil {
					w.InjectAfter(ms(r.Intn(20)), q.Reply().From, q.Reply().Frame(b))
				}
			}
			c.points(r, &mu, pts, devs, 1+r.Intn(60))
			c.idle(r)
			c.points(r, &mu, pts, devs, 1+r.Intn(10))
		})
	})
	c.Loop(1<<20, 8, func(i int, r *rand.Rand) { // over real sockets
		ip := [4]byte{127, 0, byte(10 + c.Shard), 1}
		devs := []*sim.Device{sim.NewDevice(sim.EP{IP: ip, Port: 47808}, 11), sim.NewDevice(sim.EP{IP: ip, Port: 47850}, 12), sim.NewDevice(sim.EP{IP: ip, Port: 47850}, 13)}
		devs[2].Net, devs[2].Mac = 9, []byte{77}
		nw := newRealNet(devs, false)
		defer nw.close()
		net, err := realNetwork(24000+100*c.Shard, i%2 == 0)
		if err != nil {
			c.Fail("network", "no network: %v", err)
			return
		}
		done := make(chan struct{})
		go func() {
			defer close(done)
			net.NetworkRun()
		}()
		defer func() {
			net.NetworkClose(false)
			<-done
		}()
		pts := genPoints(c, r, net, devs)
		var mu sync.Mutex
		nw.Answer = func(d *sim.Device, q *sim.Request) []byte {
			mu.Lock()
			defer mu.Unlock()
			if b := c.answerPoint(r, pts, d, q); b != nil {
				return q.Reply().Frame(b)
			}
			return nil
		}
		c.points(r, &mu, pts, devs, 120)
		c.Count("over UDP", 1)
	})
}

// genNetDevices are devices that the network package can address
func genNetDevices(r *rand.Rand, n int) []*sim.Device {
	var devs []*sim.Device
	for i := 0; i < n; i++ {
		d := sim.NewDevice(sim.EP{IP: [4]byte{10, 0, 1, byte(2 + i)}, Port: 47808}, uint32(1+i*9))
		switch r.Intn(4) {
		case 0:
			d.EP.Port = uint16(1 + r.Intn(65535))
		case 1:
			d.EP = sim.EP{IP: [4]byte{10, 0, 9, 9}, Port: 47808}
			d.Net = []uint16{1, 2, 255, 256, 65534, uint16(1 + r.Intn(65534))}[r.Intn(6)]
			d.Mac = []byte{[][]byte{{0, 1}, {255, 254}, {127, 128}}[i][r.Intn(2)]}
		}
		if r.Intn(4) == 0 {
			d.Instance = []uint32{4194302, 4194303, 65536, 255, 256}[r.Intn(5)] - uint32(i*7)
		}
		devs = append(devs, d)
	}
	return devs
}

func genPoints(c *C, r *rand.Rand, net *network.Network, devs []*sim.Device) []*point {
	var pts []*point
	for k, d := range devs {
		nd, err := network.NewDevice(net, netDevice(d, fmt.Sprintf("dev %d", k)))
		if err != nil {
			c.Fail("device", "no device: %v", err)
			return nil
		}
		d.Set(d.Self(), sim.PropObjectName, ref.Str(fmt.Sprintf("device %d", k)))
		if d.Net != 0 {
			c.Count("behind a router", 1)
		}
		for j := 2 + r.Intn(6); j > 0; j-- {
			p := &point{d: d, nd: nd, id: ref.ObjID{Type: pointTypes[r.Intn(len(pointTypes))], Instance: uint32(100*k + j)}}
			switch r.Intn(6) {
			case 0:
				p.id.Instance = uint32(4194303 - 10*k - j)
			case 1:
				p.id.Instance = uint32(r.Intn(4194304))
			}
			taken := false
			for _, o := range pts {
				taken = taken || o.id == p.id
			}
			if taken {
				continue
			}
			p.pv = p.genPresent(r)
			p.name, p.desc, p.units = ref.Str(genLabel(r)), ref.Str(genLabel(r)), uint32(r.Intn(230))
			switch p.id.Type {
			case 0, 3, 13:
				d.Set(p.id, sim.PropPresentValue, p.pv)
			default:
				p.cmd = true
				p.dflt = p.pv
				for i := range p.slots {
					p.slots[i] = ref.Null{}
				}
				d.Command(p.id, p.dflt)
			}
			d.Set(p.id, sim.PropObjectName, p.name)
			d.Set(p.id, sim.PropDescription, p.desc)
			p.other = map[uint32]any{}
			for _, x := range props {
				p.other[x] = genOther(r)
				d.Set(p.id, x, p.other[x])
			}
			if !p.binary() {
				d.Set(p.id, propUnits, ref.Enum(p.units))
			}
			pts = append(pts, p)
		}
		self := &point{d: d, nd: nd, id: d.Self(), name: ref.Str(fmt.Sprintf("device %d", k))}
		pts = append(pts, self)
	}
	return pts
}

// answerPoint is what the device answers, nil for nothing
func (c *C) answerPoint(r *rand.Rand, pts []*point, d *sim.Device, q *sim.Request) []byte {
	id, svc := q.APDU.ID, q.APDU.Svc
	op, objs, err := asked(q)
	if err == nil && len(objs) == 1 {
		for _, p := range pts {
			if p.d != d || p.id != objs[0].ID {
				continue
			}
			p.sent++
			if p.fate == "" {
				break
			}
			again := p.hit
			p.hit = true
			if p.once && again {
				break
			}
			c.Count("met: "+p.fate, 1)
			switch p.fate {
			case "error":
				class, code := genError(r)
				return ref.ErrorAnswer(id, svc, class, code)
			case "silence":
				return nil
			case "reject":
				return []byte{0x60, id, byte(r.Intn(10))}
			case "abort":
				return []byte{0x71, id, byte(r.Intn(10))}
			case "another type":
				objs[0].Props[0].Vals = p.value
				return positive(q, op, objs)
			}
		}
	}
	return d.Serve(q)
}

func (c *C) points(r *rand.Rand, mu *sync.Mutex, pts []*point, devs []*sim.Device, n int) {
	if len(pts) == 0 {
		return
	}
	var wg sync.WaitGroup
	many := 1 + r.Intn(4)
	for g := 0; g < many; g++ { // each point belongs to one of them
		var mine []*point
		for k, p := range pts {
			if k%many == g {
				mine = append(mine, p)
			}
		}
		if len(mine) == 0 {
			continue
		}
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < n; k++ {
				p := mine[rr.Intn(len(mine))]
				if p.id.Type == 8 {
					c.deviceName(rr, mu, p)
				} else {
					c.pointOp(rr, mu, p)
				}
			}
		}()
	}
	wg.Wait()
	// the whole database
	for _, p := range pts {
		what := fmt.Sprintf("%v of device %d", p.id, p.d.Instance)
		if p.cmd {
			if got := p.d.Slots(p.id); !alike(got, p.slots) {
				c.Fail("database", "%s: the priorities are %v, want %v", what, got, p.slots)
			}
		} else if p.id.Type != 8 {
			if got := p.d.Get(p.id, sim.PropPresentValue); !alike(got, []any{p.pv}) {
				c.Fail("database", "%s: the present value is %v, want %v", what, got, p.pv)
			}
		}
		if got := p.d.Get(p.id, sim.PropObjectName); !reflect.DeepEqual(got, []any{p.name}) {
			c.Fail("database", "%s: the name is %q, want %q", what, got, p.name)
		}
		for x, v := range p.other {
			if got := p.d.Get(p.id, x); !alike(got, []any{v}) {
				c.Fail("database", "%s: property %d is %v, want %v", what, x, got, v)
			}
		}
		if got := p.d.Get(p.id, sim.PropDescription); p.id.Type != 8 && !reflect.DeepEqual(got, []any{p.desc}) {
			c.Fail("database", "%s: the description is %q, want %q", what, got, p.desc)
		}
	}
	for _, d := range devs {
		log, bad := d.Log()
		if len(bad) > 0 {
			c.Fail("request", "device %d got requests that are none: %v", d.Instance, bad)
		}
		by := map[ref.ObjID][]sim.Write{}
		for _, x := range log {
			by[x.Obj] = append(by[x.Obj], x)
		}
		for _, p := range pts {
			if p.d == d {
				if !alike(by[p.id], p.writes) {
					c.Fail("writes", "%v of device %d was written %v, want %v", p.id, d.Instance, by[p.id], p.writes)
				}
				p.writes = nil
				delete(by, p.id)
			}
		}
		if len(by) > 0 {
			c.Fail("writes", "device %d: nobody asked for the writes %v", d.Instance, by)
		}
	}
}

// wrongType is a value that a read of the kind cannot return
func wrongType(r *rand.Rand, want string) []any {
	all := []struct {
		kind string
		v    any
	}{{"number", ref.Uint(3)}, {"real", float32(1.5)}, {"text", ref.Str("x")}, {"", ref.Null{}}, {"", ref.ObjID{Type: 1, Instance: 2}}, {"", ref.Int(-3)}, {"", ref.Octets{1, 2}}, {"", float64(2)}, {"", ref.Bits{true}}}
	for {
		x := all[r.Intn(len(all))]
		if x.kind != "" && x.kind == want {
			continue
		}
		switch {
		case want != "list" && r.Intn(6) == 0:
			return []any{x.v, x.v}
		case want != "list" && r.Intn(8) == 0:
			return nil // an empty list
		}
		return []any{x.v}
	}
}

// begin sets what the next requests for a point meet
func (p *point) begin(r *rand.Rand, mu *sync.Mutex, want string) string {
	mu.Lock()
	defer mu.Unlock()
	p.fate, p.hit, p.sent, p.once = "", false, 0, false
	if r.Intn(6) == 0 {
		p.fate = pointFates[r.Intn(len(pointFates))]
		if p.fate == "another type" {
			if want == "" {
				p.fate = "error"
			} else {
				p.value = wrongType(r, want)
			}
		}
		if p.fate == "silence" && r.Intn(4) > 0 {
			p.fate = "reject"
		}
		p.once = p.fate == "error" && r.Intn(2) == 0
	}
	return p.fate
}

func (p *point) finish(mu *sync.Mutex) (sent int) {
	mu.Lock()
	defer mu.Unlock()
	p.fate = ""
	return p.sent
}

func (c *C) pointOp(r *rand.Rand, mu *sync.Mutex, p *point) {
	pnt := &network.Point{ObjectID: btypes.ObjectInstance(p.id.Instance), ObjectType: btypes.ObjectType(p.id.Type)}
	if r.Intn(2) == 0 { // what a point says besides does not matter to these operations
		pnt.WriteNull, pnt.ReadPresentValue, pnt.ReadPriority = r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0
		pnt.WriteValue = []any{nil, uint32(1), float32(2), true, "x"}[r.Intn(5)]
	}
	var op string
	for {
		op = pointOps[r.Intn(len(pointOps))]
		ok := true
		switch op {
		case "PointReadFloat32", "PointWriteAnalogue":
			ok = p.analog()
		case "PointReadBool", "PointWriteBool":
			ok = p.binary()
		case "PointReadMultiState", "PointWriteMultiState":
			ok = !p.analog() && !p.binary()
		case "PointReadPriority", "PointReleasePriority":
			ok = p.cmd
		}
		if ok {
			break
		}
	}
	c.Count(op, 1)
	what := fmt.Sprintf("%s on %v of device %d", op, p.id, p.d.Instance)
	var err error
	read := func(want string, f func() (any, error), right func(any) bool) {
		fate := p.begin(r, mu, want)
		var got any
		if !c.Guard(op, what, func() { got, err = f() }) {
			return
		}
		sent := p.finish(mu)
		c.Eval(fmt.Sprintf("%s: %v", what, got))
		switch {
		case fate != "":
			if err == nil {
				c.Fail("no error", "%s: answered with %s %v, returned %s", what, fate, p.value, show(got))
			}
		case err != nil:
			c.Fail("error", "%s failed: %v", what, err)
		case sent == 0 || !right(got):
			c.Fail("value", "%s returned %s; the device holds %v, priorities %v, name %q", what, show(got), p.present(), p.slots, p.name)
		}
	}
	// write runs f, which should write one value, or nothing when it is refused
	write := func(prop uint32, prio uint8, v any, refused bool, f func() error) {
		fate := p.begin(r, mu, "")
		if !c.Guard(op, what, func() { err = f() }) {
			return
		}
		sent := p.finish(mu)
		c.Eval(fmt.Sprintf("%s: property %d priority %d: %v", what, prop, prio, v))
		switch {
		case refused:
			if err == nil || sent > 0 {
				c.Fail("not refused", "%s of %T at priority %d: %v, %d requests", what, v, prio, err, sent)
			}
			return
		case fate != "":
			if err == nil {
				c.Fail("no error", "%s: answered with %s", what, fate)
			}
			return
		case err != nil:
			c.Fail("error", "%s of %v failed: %v", what, v, err)
		}
		p.writes = append(p.writes, sim.Write{Obj: p.id, Prop: ref.Prop{ID: prop, Index: ref.ArrayAll, Prio: prio, Vals: []any{v}}})
		switch {
		case prop == sim.PropObjectName:
			p.name = v
		case prop == sim.PropDescription:
			p.desc = v
		case prop != sim.PropPresentValue:
			p.other[prop] = v
		case p.cmd:
			if prio == 0 {
				prio = 16
			}
			p.slots[prio-1] = v
		default:
			p.pv = v
		}
	}
	num := func(v any) any { // as a number on the wire
		switch x := v.(type) {
		case ref.Enum:
			return uint32(x)
		case ref.Uint:
			return uint32(x)
		}
		return v
	}
	prio := uint8(r.Intn(17))
	pnt.WritePriority = prio
	switch op {
	case "PointReadFloat32":
		read("real", func() (any, error) { return p.nd.PointReadFloat32(pnt) }, func(got any) bool { return same(got, p.present()) })
	case "PointReadBool":
		read("number", func() (any, error) { return p.nd.PointReadBool(pnt) }, func(got any) bool { return got == num(p.present()) })
	case "PointReadMultiState":
		read("number", func() (any, error) { return p.nd.PointReadMultiState(pnt) }, func(got any) bool { return got == num(p.present()) })
	case "PointReadPriority":
		read("list", func() (any, error) {
			pri, err := p.nd.PointReadPriority(pnt)
			if err != nil {
				return nil, err
			}
			return slots(pri), nil
		}, func(got any) bool {
			for k, f := range got.([]*float32) {
				var want *float32
				switch x := num(p.slots[k]).(type) {
				case uint32:
					y := float32(x)
					want = &y
				case float32:
					want = &x
				}
				if f != nil && want != nil && *f != *f && *want != *want {
					continue
				}
				if !sameFloat(f, want) {
					return false
				}
			}
			return true
		})
	case "ReadPointName":
		read("text", func() (any, error) { return p.nd.ReadPointName(pnt) }, func(got any) bool { return same(got, p.name) })
	case "ReadString":
		prop, v := uint32(sim.PropDescription), p.desc
		if r.Intn(2) == 0 {
			prop, v = sim.PropObjectName, p.name
		}
		read("text", func() (any, error) {
			return p.nd.ReadString(&network.Object{ObjectID: pnt.ObjectID, ObjectType: pnt.ObjectType, Prop: btypes.PropertyType(prop), ArrayIndex: ref.ArrayAll})
		}, func(got any) bool { return same(got, v) })
	case "Read":
		prop := []uint32{sim.PropPresentValue, sim.PropObjectName, sim.PropDescription, sim.PropPriorities}[r.Intn(4)]
		index := uint32(ref.ArrayAll)
		if r.Intn(3) == 0 {
			prop = props[r.Intn(len(props))]
		}
		if prop == sim.PropPriorities {
			if !p.cmd {
				return
			}
			if r.Intn(2) == 0 {
				index = uint32(r.Intn(17))
			}
		}
		read("", func() (any, error) {
			return p.nd.Read(&network.Object{ObjectID: pnt.ObjectID, ObjectType: pnt.ObjectType, Prop: btypes.PropertyType(prop), ArrayIndex: index})
		}, func(got any) bool {
			vals := p.d.Get(p.id, prop)
			if index == 0 {
				vals = []any{ref.Uint(16)}
			} else if index != ref.ArrayAll {
				vals = vals[index-1 : index]
			}
			return sameObjs([]btypes.Object{got.(btypes.PropertyData).Object}, []ref.Obj{{ID: p.id, Props: []ref.Prop{{ID: prop, Index: index, Vals: vals}}}}) == ""
		})
	case "PointDetails":
		p.finish(mu)
		var det *network.PointDetails
		if !c.Guard(op, what, func() { det, err = p.nd.PointDetails(pnt) }) {
			return
		}
		if err != nil || det == nil {
			c.Fail("error", "%s failed: %v", what, err)
			return
		}
		u := p.units
		if p.binary() {
			u = 0
		}
		if det.Name != text(p.name) || det.ObjectID != pnt.ObjectID || det.ObjectType != pnt.ObjectType || det.PointType != pnt.ObjectType.String() || det.Unit != u ||
			!p.binary() && det.UnitString != units.Unit(u).String() {
			c.Fail("details", "%s: %+v; the name is %q, the unit %d", what, det, text(p.name), u)
		}
		c.Eval(fmt.Sprintf("%s: %v", what, det))
	case "PointWriteAnalogue":
		v := genReal(r)
		c.Count(fmt.Sprintf("written at priority %d", prio), 1)
		write(sim.PropPresentValue, prio, v, false, func() error { return p.nd.PointWriteAnalogue(pnt, v) })
	case "PointWriteBool":
		v := uint32(r.Intn(2))
		if r.Intn(4) == 0 {
			v = genUint(r)
		}
		var on any = ref.Enum(v)
		if p.id.Type == 3 { // an input is written as an unsigned; nothing says that it should be
			return
		}
		c.Count(fmt.Sprintf("written at priority %d", prio), 1)
		write(sim.PropPresentValue, prio, on, false, func() error { return p.nd.PointWriteBool(pnt, v) })
	case "PointWriteMultiState":
		v := genUint(r)
		c.Count(fmt.Sprintf("written at priority %d", prio), 1)
		write(sim.PropPresentValue, prio, ref.Uint(v), false, func() error { return p.nd.PointWriteMultiState(pnt, v) })
	case "PointReleasePriority":
		pri := uint8(1 + r.Intn(16))
		c.Count(fmt.Sprintf("released at priority %d", pri), 1)
		if r.Intn(2) == 0 {
			pnt.WritePriority = uint8(r.Intn(17)) // does not matter
		}
		write(sim.PropPresentValue, pri, ref.Null{}, false, func() error { return p.nd.PointReleasePriority(pnt, pri) })
	case "release refused":
		pri := uint8(17 + r.Intn(239))
		if r.Intn(3) == 0 {
			pri = 0
		}
		if r.Intn(4) == 0 {
			pri = []uint8{17, 18, 32, 128, 255}[r.Intn(5)]
		}
		write(sim.PropPresentValue, pri, ref.Null{}, true, func() error { return p.nd.PointReleasePriority(pnt, pri) })
		c.Guard(op, "release of no point", func() {
			if p.nd.PointReleasePriority(nil, 3) == nil {
				c.Fail("not refused", "the release of no point succeeds")
			}
		})
	case "WritePointName":
		s := genLabel(r)
		write(sim.PropObjectName, 0, ref.Str(s), false, func() error { return p.nd.WritePointName(pnt, s) })
	case "Write":
		w := &network.Write{ObjectID: pnt.ObjectID, ObjectType: pnt.ObjectType, Prop: sim.PropDescription, WritePriority: prio}
		s := genLabel(r)
		var v any = ref.Str(s)
		w.WriteValue = s
		if r.Intn(2) == 0 {
			w.Prop = sim.PropPresentValue
			switch x := p.genPresent(r).(type) {
			case float32:
				w.WriteValue, v = x, x
			case ref.Enum:
				w.WriteValue, v = uint32(x), x
				if p.id.Type == 3 {
					return
				}
			case ref.Uint:
				w.WriteValue, v = uint32(x), x
			}
			if r.Intn(4) == 0 && p.cmd { // to relinquish; what value is there does not matter
				w.WriteNull, v = true, ref.Null{}
				w.WriteValue = []any{nil, uint32(1), float32(2), true, "x"}[r.Intn(5)]
			}
		}
		write(uint32(w.Prop), prio, v, false, func() error { return p.nd.Write(w) })
	case "write of another property":
		w := &network.Write{ObjectID: pnt.ObjectID, ObjectType: pnt.ObjectType, WritePriority: prio}
		prop := props[r.Intn(len(props))]
		w.Prop = btypes.PropertyType(prop)
		v := genOther(r)
		switch x := v.(type) {
		case ref.Uint:
			w.WriteValue = uint32(x)
		case ref.Str:
			w.WriteValue = string(x)
		case ref.Null:
			w.WriteNull = true
			w.WriteValue = []any{nil, uint32(1), float32(2), true, "x"}[r.Intn(5)]
		default:
			w.WriteValue = x
		}
		c.Count(fmt.Sprintf("written: %T", v), 1)
		write(prop, prio, v, false, func() error { return p.nd.Write(w) })
	case "unsupported":
		v := []any{nil, true, int(3), int32(-1), int64(3), uint8(1), uint16(2), uint64(3), []byte{1}, []interface{}{1}, struct{}{}, btypes.BitString{}, &prio}[r.Intn(13)]
		write(sim.PropPresentValue, prio, v, true, func() error {
			return p.nd.Write(&network.Write{ObjectID: pnt.ObjectID, ObjectType: pnt.ObjectType, Prop: sim.PropPresentValue, WriteValue: v, WritePriority: prio})
		})
	}
}

func (c *C) deviceName(r *rand.Rand, mu *sync.Mutex, p *point) {
	id := btypes.ObjectInstance(p.id.Instance)
	if r.Intn(2) == 0 {
		want := "text"
		fate := p.begin(r, mu, want)
		got, err := p.nd.ReadDeviceName(id)
		p.finish(mu)
		c.Count("ReadDeviceName", 1)
		c.Eval(fmt.Sprintf("ReadDeviceName of %d: %q", id, got))
		switch {
		case fate != "":
			if err == nil {
				c.Fail("no error", "ReadDeviceName: answered with %s %v, returned %q", fate, p.value, got)
			}
		case err != nil || !same(got, p.name):
			c.Fail("value", "ReadDeviceName returned %q (%v), want %q", got, err, p.name)
		}
		return
	}
	s := genLabel(r)
	fate := p.begin(r, mu, "")
	err := p.nd.WriteDeviceName(id, s)
	p.finish(mu)
	c.Count("WriteDeviceName", 1)
	c.Eval(fmt.Sprintf("WriteDeviceName of %d: %q", id, s))
	switch {
	case fate != "":
		if err == nil {
			c.Fail("no error", "WriteDeviceName: answered with %s", fate)
		}
		return
	case err != nil:
		c.Fail("error", "WriteDeviceName failed: %v", err)
	}
	p.writes = append(p.writes, sim.Write{Obj: p.id, Prop: ref.Prop{ID: sim.PropObjectName, Index: ref.ArrayAll, Vals: []any{ref.Str(s)}}})
	p.name = ref.Str(s)
}
