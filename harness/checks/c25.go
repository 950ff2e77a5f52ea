package checks

import (
	"fmt"
	"math/rand"
	"net"
	"reflect"
	"sync"
	"testing"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/units"
	"github.com/NubeDev/bacnet/network"
	"verif/harness/ref"
	"verif/harness/sim"
)

func init() {
	register("C25", "networks of simulated devices at all kinds of addresses are discovered with each of the network-level calls, some of their reads failing; object lists of many lengths are read whole and element by element, with each kind of failing or wrong element; stores with many networks and devices; the results are compared with the simulated devices", runC25)
}

func runC25(c *C) {
	c.Need("devices of the same name", "stored under several ids", "long idle", "Who-Is cannot be sent", "Network.Whois", "Device.Whois", "NetworkDiscover", "DeviceDiscover", "details failed", "several devices", "no device", "behind a router", "MAC of 1 octet", "longer MAC", "outside the limits", "one network only",
		"operation on a discovered device", "with a check of the APDU size", "announced nothing",
		"list read whole", "list read by element", "empty list", "list of one", "long list", "whole read: abort", "whole read: error", "whole read: reject", "whole read: silence", "whole read: too long", "whole read: another type",
		"size failed", "size of another type", "element failed", "element of another type", "element empty", "size too large",
		"GetDevicePoints", "GetDeviceDetails", "point details failed", "stored device", "stored network", "updated device", "unknown id", "discovery over UDP", "listed twice", "other devices listed", "kept for long", "of the other kind", "without a store", "without a network", "device out of range", "very long list", "discovered again", "many slow devices")
	c.Loop(0, c.N(2400, 60000), func(i int, r *rand.Rand) {
		c.Bubble("discovery", func(t *testing.T) { c.discovery(r) })
	})
	c.Loop(1<<20, c.N(3200, 80000), func(i int, r *rand.Rand) {
		c.Bubble("object list", func(t *testing.T) { c.objectList(r) })
	})
	c.Loop(2<<20, c.N(1600, 30000), func(i int, r *rand.Rand) {
		c.Bubble("store", func(t *testing.T) { c.store(r) })
	})
	c.Loop(5<<20, c.N(16, 320), func(i int, r *rand.Rand) {
		c.Bubble("long object list", func(t *testing.T) { c.longList(i, r) })
	})
	c.Loop(6<<20, c.N(64, 800), func(i int, r *rand.Rand) {
		c.Bubble("crowd", func(t *testing.T) { c.crowd(r) })
	})
	c.Loop(3<<20, 8, func(i int, r *rand.Rand) { c.storedNetworks(r) })
	c.Loop(4<<20, 1, func(i int, r *rand.Rand) { c.realDiscovery(r) })
}

// fault is what a read of a property meets
type fault struct {
	obj  ref.ObjID
	prop uint32
	all  bool // also with an index
	how  string
	vals []any
}

var faultKinds = []string{"error", "reject", "abort", "silence"}

func (f *fault) answer(r *rand.Rand, d *sim.Device, q *sim.Request) []byte {
	id, svc := q.APDU.ID, q.APDU.Svc
	op, objs, err := asked(q)
	if f == nil || err != nil || op != opRead || objs[0].ID != f.obj || objs[0].Props[0].ID != f.prop || !f.all && objs[0].Props[0].Index != ref.ArrayAll {
		return d.Serve(q)
	}
	switch f.how {
	case "error":
		class, code := genError(r)
		return ref.ErrorAnswer(id, svc, class, code)
	case "reject":
		return []byte{0x60, id, byte(r.Intn(10))}
	case "abort":
		return []byte{0x71, id, byte(r.Intn(10))}
	case "silence":
		return nil
	}
	objs[0].Props[0].Vals = f.vals
	return positive(q, op, objs)
}

// describe gives a device its properties
func describe(r *rand.Rand, d *sim.Device, k int) (name, vendor string) {
	name, vendor = fmt.Sprintf("device %d %s", k, genLabel(r)), fmt.Sprintf("vendor %d %s", k, genLabel(r))
	d.MaxApdu = []uint32{50, 128, 206, 480, 1024, 1476, 1476, 1497, 2048, 65535}[r.Intn(10)]
	d.Seg = uint32(r.Intn(4))
	d.Set(d.Self(), sim.PropObjectName, ref.Str(name))
	d.Set(d.Self(), sim.PropVendorName, ref.Str(vendor))
	d.Set(d.Self(), sim.PropMaxApdu, ref.Uint(d.MaxApdu))
	d.Set(d.Self(), sim.PropSegmentation, ref.Enum(d.Seg))
	return
}

// within says whether a Who-Is is for the device
func within(d *sim.Device, o *bacnet.WhoIsOpts) bool {
	if o.Low > 0 && int(d.Instance) < o.Low || o.High > 0 && int(d.Instance) > o.High {
		return false
	}
	return o.GlobalBroadcast || d.Net == o.NetworkNumber
}

func genWhoIsOpts(r *rand.Rand, devs []*sim.Device) *bacnet.WhoIsOpts {
	o := &bacnet.WhoIsOpts{GlobalBroadcast: r.Intn(3) > 0}
	if !o.GlobalBroadcast && len(devs) > 0 && r.Intn(2) == 0 {
		o.NetworkNumber = devs[r.Intn(len(devs))].Net
	}
	if r.Intn(2) == 0 && len(devs) > 0 {
		o.Low, o.High = int(devs[r.Intn(len(devs))].Instance), int(devs[r.Intn(len(devs))].Instance)
		if o.Low > o.High {
			o.Low, o.High = o.High, o.Low
		}
		if r.Intn(4) == 0 {
			o.Low, o.High = o.Low+1, o.High+1
		}
	}
	return o
}

func (c *C) discovery(r *rand.Rand) {
	var devs []*sim.Device
	if r.Intn(10) > 0 {
		devs = genStations(c, r)
	}
	type info struct {
		name, vendor string
		f            *fault
	}
	inf := map[*sim.Device]*info{}
	alike := r.Intn(5) == 0 // names need not differ
	for k, d := range devs {
		x := &info{}
		x.name, x.vendor = describe(r, d, k)
		if alike {
			x.name, x.vendor = "the same", "the same"
			d.Set(d.Self(), sim.PropObjectName, ref.Str(x.name))
			d.Set(d.Self(), sim.PropVendorName, ref.Str(x.vendor))
			c.Count("devices of the same name", 1)
		}
		if r.Intn(8) == 0 {
			x.f = &fault{obj: d.Self(), prop: []uint32{sim.PropObjectName, sim.PropVendorName, sim.PropMaxApdu, sim.PropSegmentation}[r.Intn(4)], how: faultKinds[r.Intn(4)]}
		}
		inf[d] = x
		if d.Net != 0 {
			c.Count("behind a router", 1)
		}
	}
	w := newWorld(0)
	c.idle(r)
	w.Patience = 100
	defer w.end()
	nw, ok := simNetwork(w.cl)
	if !ok {
		c.Assume("the client of a network could not be replaced: real sockets only")
		return
	}
	opts := genWhoIsOpts(r, devs)
	seed := r.Int63()
	rr := rand.New(rand.NewSource(seed))
	var mu sync.Mutex
	w.OnSend = func(p sim.Packet) {
		mu.Lock()
		defer mu.Unlock()
		if lo, hi, ok := parseWhoIs(p.Data); ok {
			for _, d := range devs {
				in := lo < 0 || int64(d.Instance) >= lo && int64(d.Instance) <= hi
				if in && (opts.GlobalBroadcast || d.Net == opts.NetworkNumber) || rr.Intn(3) == 0 && !in { // some announce themselves at the wrong time
					rt := travel(c, rr, d, devs, "announcement")
					for k := 0; k < 1+rr.Intn(2); k++ {
						w.InjectAfter(ms(rr.Intn(1000)), rt.From, rt.Frame(d.IAm()))
					}
				}
			}
			return
		}
		q, err := sim.ParseRequest(p)
		var d *sim.Device
		if err == nil {
			d = find(devs, q)
		}
		if d == nil {
			c.Fail("request", "sent to %v (%v): %s", p.Dest, err, hexs(p.Data))
			return
		}
		if b := inf[d].f.answer(rr, d, q); b != nil {
			rt := travel(c, rr, d, devs, "answer")
			w.InjectAfter(ms(rr.Intn(20)), rt.From, rt.Frame(b))
		}
	}
	discover := func() bool {
		var want []*sim.Device
		for _, d := range devs {
			if within(d, opts) {
				want = append(want, d)
			} else {
				c.Count("outside the limits", 1)
			}
		}
		switch {
		case len(want) > 1:
			c.Count("several devices", 1)
		case len(want) == 0:
			c.Count("no device", 1)
		}
		if !opts.GlobalBroadcast {
			c.Count("one network only", 1)
		}
		kind := []string{"Network.Whois", "Device.Whois", "NetworkDiscover", "DeviceDiscover"}[r.Intn(4)]
		c.Count(kind, 1)
		what := fmt.Sprintf("%s %+v of", kind, *opts)
		for _, d := range devs {
			what += fmt.Sprintf(" %d at %v:%d network %d MAC % x;", d.Instance, d.EP, d.EP.Port, d.Net, d.Mac)
		}
		c.Eval(what)
		given := *opts
		var found []btypes.Device
		var pub []*network.Device
		var err error
		var any *network.Device
		if kind[0] == 'D' {
			any, err = network.NewDevice(nw, &network.Device{Ip: "10.200.0.1", DeviceID: 77777, StoreID: "any"})
			if err != nil {
				c.Fail("device", "no device: %v", err)
				return false
			}
		}
		refused := r.Intn(40) == 0 // the link does not take the request
		if refused {
			w.SendErr = func(p sim.Packet) error {
				if _, _, ok := parseWhoIs(p.Data); ok {
					return fmt.Errorf("the link refuses")
				}
				return nil
			}
		}
		if !c.Guard(kind, what, func() {
			switch kind {
			case "Network.Whois":
				found, err = nw.Whois(&given)
			case "Device.Whois":
				found, err = any.Whois(&given)
			case "NetworkDiscover":
				found, err = nw.NetworkDiscover(&given)
			case "DeviceDiscover":
				pub, err = any.DeviceDiscover(&given)
			}
		}) {
			return false
		}
		if refused {
			c.Count("Who-Is cannot be sent", 1)
			if err == nil {
				c.Fail("no error", "%s: the link refused to send Who-Is, but %d devices are returned without an error", what, len(found)+len(pub))
			}
			return false
		}
		failing := false
		for _, d := range want {
			failing = failing || inf[d].f != nil
		}
		names := kind == "NetworkDiscover" || kind == "DeviceDiscover"
		if names && failing {
			c.Count("details failed", 1)
			if err != nil {
				return false // allowed
			}
		}
		if err != nil {
			c.Fail("error", "%s: %v", what, err)
			return false
		}
		if len(found)+len(pub) != len(want) {
			c.Fail("number", "%s: %d found, want %d: %+v %+v", what, len(found)+len(pub), len(want), found, pub)
			return false
		}
		check := func(id int) (*sim.Device, *info) {
			for k, d := range want {
				if int(d.Instance) == id {
					want = append(want[:k:k], want[k+1:]...)
					return d, inf[d]
				}
			}
			c.Fail("id", "%s: %d is reported, more than once or though no such device answered", what, id)
			return nil, nil
		}
		name := func(d *sim.Device, x *info, name, vendor string) {
			wn, wv := x.name, x.vendor
			if !names {
				wn, wv = "", ""
			}
			if x.f != nil && x.f.prop == sim.PropObjectName {
				wn = ""
			}
			if x.f != nil && x.f.prop == sim.PropVendorName {
				wv = ""
			}
			if name != wn || vendor != wv {
				c.Fail("names", "%s: device %d is called %q of %q, want %q of %q", what, d.Instance, name, vendor, wn, wv)
			}
		}
		for _, b := range found {
			d, x := check(b.DeviceID)
			if d == nil {
				return false
			}
			a := announce{inst: d.Instance, apdu: d.MaxApdu, seg: d.Seg, vendor: d.Vendor, origin: d.EP, src: d.Route().Src}
			if s := sameAnnounce(b, &a); s != "" {
				c.Fail("description", "%s: device %d: %s: %+v", what, d.Instance, s, b)
			}
			name(d, x, b.DeviceName, b.VendorName)
		}
		for _, b := range pub {
			d, x := check(b.DeviceID)
			if d == nil {
				return false
			}
			mac := 0
			if len(d.Mac) > 0 {
				mac = int(d.Mac[0])
			}
			if b.Ip != d.EP.String() || b.Port != int(d.EP.Port) || b.NetworkNumber != int(d.Net) || b.MacMSTP != mac || b.MaxApdu != d.MaxApdu || b.Segmentation != d.Seg {
				c.Fail("description", "%s: device %d: %+v", what, d.Instance, *b)
			}
			name(d, x, b.DeviceName, b.VendorName)
		}
		// the devices reported can be talked to
		for _, b := range pub {
			d := func() *sim.Device {
				for _, d := range devs {
					if int(d.Instance) == b.DeviceID {
						return d
					}
				}
				return nil
			}()
			inf[d].f = nil
			c.Count("operation on a discovered device", 1)
			if got, err := b.ReadDeviceName(btypes.ObjectInstance(d.Instance)); err != nil || got != inf[d].name {
				c.Fail("reported device", "%s: the name of device %d as reported is read as %q (%v)", what, d.Instance, got, err)
			}
		}
		for _, b := range found {
			for _, d := range devs {
				if int(d.Instance) != b.DeviceID {
					continue
				}
				inf[d].f = nil
				c.Count("operation on a discovered device", 1)
				got, err := w.do(opRead, b, []ref.Obj{{ID: d.Self(), Props: []ref.Prop{{ID: sim.PropObjectName, Index: ref.ArrayAll}}}})
				if err != nil || got[0].Properties[0].Data != inf[d].name {
					c.Fail("reported device", "%s: the name of device %d as reported is read as %s (%v)", what, d.Instance, showLib(got), err)
				}
			}
		}
		return true
	}
	if !discover() || len(devs) == 0 || r.Intn(3) > 0 {
		return
	}
	// once more, when the devices are called otherwise
	c.Count("discovered again", 1)
	mu.Lock()
	for k, d := range devs {
		inf[d].f = nil
		d.Vendor, d.Seg = genUint(r), uint32(r.Intn(4))
		inf[d].name, inf[d].vendor = describe(r, d, k+100)
		if r.Intn(4) == 0 {
			inf[d].f = &fault{obj: d.Self(), prop: []uint32{sim.PropObjectName, sim.PropVendorName}[r.Intn(2)], how: faultKinds[r.Intn(4)]}
		}
	}
	mu.Unlock()
	if r.Intn(2) == 0 {
		mu.Lock()
		*opts = *genWhoIsOpts(r, devs)
		mu.Unlock()
	}
	time.Sleep([]time.Duration{0, time.Second, time.Hour, 400 * 24 * time.Hour}[r.Intn(4)])
	discover()
}

// crowd discovers many devices, each of which takes its time to answer
func (c *C) crowd(r *rand.Rand) {
	devs := genDevices(r, 25+r.Intn(60))
	names := map[int][2]string{}
	for k, d := range devs {
		n, v := describe(r, d, k)
		names[int(d.Instance)] = [2]string{n, v}
	}
	w := newWorld(0)
	w.Patience = 100
	defer w.end()
	nw, ok := simNetwork(w.cl)
	if !ok {
		return
	}
	var mu sync.Mutex
	rr := rand.New(rand.NewSource(r.Int63()))
	w.OnSend = func(p sim.Packet) {
		mu.Lock()
		defer mu.Unlock()
		if _, _, ok := parseWhoIs(p.Data); ok {
			for _, d := range devs {
				w.InjectAfter(ms(rr.Intn(1500)), d.EP, d.Route().Frame(d.IAm()))
			}
			return
		}
		q, err := sim.ParseRequest(p)
		if err != nil {
			return
		}
		if d := find(devs, q); d != nil {
			w.InjectAfter(ms(1500+rr.Intn(3000)), d.EP, q.Reply().Frame(d.Serve(q)))
		}
	}
	opts := &bacnet.WhoIsOpts{GlobalBroadcast: true}
	kind := []string{"NetworkDiscover", "DeviceDiscover"}[r.Intn(2)]
	what := fmt.Sprintf("%s of %d devices that answer slowly", kind, len(devs))
	c.Count("many slow devices", 1)
	c.Eval(what)
	got := map[int][2]string{}
	n := 0
	var err error
	c.Guard(kind, what, func() {
		if kind == "NetworkDiscover" {
			var found []btypes.Device
			found, err = nw.NetworkDiscover(opts)
			for _, b := range found {
				got[b.DeviceID] = [2]string{b.DeviceName, b.VendorName}
				n++
			}
			return
		}
		var any *network.Device
		if any, err = network.NewDevice(nw, &network.Device{Ip: "10.200.0.1", DeviceID: 77777, StoreID: "any"}); err != nil {
			return
		}
		found, e := any.DeviceDiscover(opts)
		for _, b := range found {
			got[b.DeviceID] = [2]string{b.DeviceName, b.VendorName}
			n++
		}
		err = e
	})
	if err != nil || n != len(devs) {
		c.Fail("crowd", "%s: %d found, %v", what, n, err)
		return
	}
	for id, nm := range names {
		if got[id] != nm {
			c.Fail("crowd", "%s: device %d is called %q, want %q", what, id, got[id], nm)
			return
		}
	}
}

// genIDs is an object list without repetitions
func genIDs(r *rand.Rand, n int) []ref.ObjID {
	var out []ref.ObjID
	seen := map[ref.ObjID]bool{}
	for len(out) < n {
		id := ref.ObjID{Type: pointTypes[r.Intn(len(pointTypes))], Instance: uint32(r.Intn(2 * (n + 2)))}
		switch r.Intn(8) {
		case 0:
			id = ref.ObjID{Type: uint16(r.Intn(1024)), Instance: uint32(r.Intn(4194304))}
		case 1:
			id.Instance = uint32(4194303 - r.Intn(3))
		case 2:
			id.Type = uint16(r.Intn(60))
		}
		if id.Type == 8 || seen[id] {
			continue
		}
		seen[id] = true
		out = append(out, id)
	}
	return out
}

// longList has an object list of thousands read by element. The list is that of device 7, its
// elements are made up as they are asked for.
func (c *C) longList(i int, r *rand.Rand) {
	n := []int{255, 256, 257, 1000, 4095, 4096, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 300 + r.Intn(5000), 300 + r.Intn(70000)}[i%16]
	last := -1 // fails
	if r.Intn(4) == 0 {
		last = []int{n, n - 1, n / 2, 1 + r.Intn(n)}[r.Intn(4)]
	}
	d := genNetDevices(r, 1)[0]
	element := func(k int) ref.ObjID {
		if k == 1 {
			return d.Self()
		}
		return ref.ObjID{Type: uint16(k % 7), Instance: uint32(k * 5 % 4194304)}
	}
	w := newWorld(0)
	c.idle(r)
	w.Patience = 100
	defer w.end()
	nw, ok := simNetwork(w.cl)
	if !ok {
		return
	}
	w.OnSend = func(p sim.Packet) {
		q, err := sim.ParseRequest(p)
		var op int
		var objs []ref.Obj
		if err == nil {
			op, objs, err = asked(q)
		}
		if err != nil || op != opRead || find([]*sim.Device{d}, q) == nil || objs[0].ID != d.Self() || objs[0].Props[0].ID != sim.PropObjectList {
			c.Fail("request", "sent to %v (%v): %s", p.Dest, err, hexs(p.Data))
			return
		}
		b := []byte{0x71, q.APDU.ID, 4}
		ix := objs[0].Props[0].Index
		switch {
		case ix == 0:
			objs[0].Props[0].Vals = []any{ref.Uint(uint32(n))}
			b = positive(q, op, objs)
		case ix <= uint32(n) && int(ix) != last:
			objs[0].Props[0].Vals = []any{element(int(ix))}
			b = positive(q, op, objs)
		}
		w.Inject(d.EP, q.Reply().Frame(b))
		w.Forget()
	}
	nd, err := network.NewDevice(nw, netDevice(d, "dev"))
	if err != nil {
		c.Fail("device", "no device: %v", err)
		return
	}
	what := fmt.Sprintf("object list of %d, read by element, element %d fails", n, last)
	var got []btypes.ObjectID
	if !c.Guard("DeviceObjects", what, func() {
		got, err = nd.DeviceObjects(btypes.ObjectInstance(d.Instance), false)
	}) {
		return
	}
	c.Count("very long list", 1)
	c.Eval(what)
	switch {
	case last >= 0:
		if err == nil {
			c.Fail("no error", "%s: returned %d objects", what, len(got))
		}
	case err != nil:
		c.Fail("error", "%s: %v", what, err)
	case len(got) != n:
		c.Fail("list", "%s: returned %d", what, len(got))
	default:
		for k, o := range got {
			if o != libObj(element(k+1)) {
				c.Fail("list", "%s: element %d is %v, want %v", what, k+1, o, libObj(element(k+1)))
				return
			}
		}
	}
}

func (c *C) objectList(r *rand.Rand) {
	devs := genNetDevices(r, 1+r.Intn(2))
	d := devs[0]
	name, vendor := describe(r, d, 0)
	n := []int{0, 1, 2, 3, 10, r.Intn(20), r.Intn(60), r.Intn(300)}[r.Intn(8)]
	points := r.Intn(3) == 0 // read the points, too
	if points {
		n = r.Intn(20)
	}
	ids := genIDs(r, n)
	if r.Intn(3) > 0 && n > 0 { // usually the device itself is the first
		ids[0] = d.Self()
		if k := r.Intn(n); r.Intn(3) == 0 {
			ids[0], ids[k] = ids[k], ids[0]
		}
	}
	if n > 1 && !points && r.Intn(4) == 0 { // a list that names an object twice, or other devices
		c.Count("listed twice", 1)
		k := 1 + r.Intn(n-1)
		ids[k] = ids[[]int{k - 1, r.Intn(n)}[r.Intn(2)]]
	}
	if n > 1 && r.Intn(4) == 0 {
		c.Count("other devices listed", 1)
		if k := 1 + r.Intn(n-1); ids[k] != d.Self() {
			ids[k] = ref.ObjID{Type: 8, Instance: d.Instance ^ uint32(1+r.Intn(7))}
		}
	}
	var vals []any
	var want []btypes.ObjectID
	for _, id := range ids {
		vals = append(vals, id)
		want = append(want, libObj(id))
	}
	d.Set(d.Self(), sim.PropObjectList, vals...)
	// what goes wrong
	how := ""
	var wrong []any
	whole := []string{"", "", "abort", "error", "reject", "silence", "too long", "another type", "another in the list"}[r.Intn(9)]
	d.MaxReply = 100000
	switch whole {
	case "too long":
		d.MaxReply = 50 + r.Intn(100)
		for len(name) > 33 || len(vendor) > 33 {
			name, vendor = describe(r, d, 0)
		}
	}
	if whole == "another type" && n == 0 {
		whole = ""
	}
	bad := -1 // the element that cannot be read; 0 is the size
	if whole != "" && r.Intn(3) == 0 {
		bad = 0
		if n > 0 && r.Intn(3) > 0 {
			bad = 1 + r.Intn(n)
			if r.Intn(3) == 0 {
				bad = n
			}
		}
		how = []string{"error", "reject", "abort", "silence", "another type", "empty", "size too large"}[r.Intn(7)]
		wrong = []any{[]any{ref.Uint(3), float32(3), ref.Str("x"), ref.Null{}, ref.Int(3), ref.Enum(3)}[r.Intn(6)]}
		if how == "empty" {
			wrong = nil
		}
		if how == "size too large" {
			bad = 0
			wrong = []any{ref.Uint(n + 1 + r.Intn(1000))}
		} else if bad == 0 && how == "another type" {
			wrong = []any{[]any{float32(3), ref.Str("x"), ref.Null{}, ref.Int(3), ref.ObjID{Type: 0, Instance: 1}, float64(2)}[r.Intn(6)]}
		}
	}
	w := newWorld(0)
	c.idle(r)
	w.Patience = 100
	defer w.end()
	nw, ok := simNetwork(w.cl)
	if !ok {
		return
	}
	announces := r.Intn(5) > 0
	rr := rand.New(rand.NewSource(r.Int63()))
	var mu sync.Mutex
	asks := 0 // reads by element
	pf := &fault{}
	w.OnSend = func(p sim.Packet) {
		mu.Lock()
		defer mu.Unlock()
		if lo, hi, ok := parseWhoIs(p.Data); ok {
			for _, d := range devs {
				if announces && (lo < 0 || int64(d.Instance) >= lo && int64(d.Instance) <= hi) {
					w.InjectAfter(ms(rr.Intn(1000)), d.EP, d.Route().Frame(d.IAm()))
				}
			}
			return
		}
		q, err := sim.ParseRequest(p)
		var to *sim.Device
		if err == nil {
			to = find(devs, q)
		}
		if to != d {
			c.Fail("request", "sent to %v (%v): %s", p.Dest, err, hexs(p.Data))
			return
		}
		f := pf
		if op, objs, err := asked(q); err == nil && op == opRead && objs[0].ID == d.Self() && objs[0].Props[0].ID == sim.PropObjectList {
			ix := objs[0].Props[0].Index
			g := &fault{obj: d.Self(), prop: sim.PropObjectList, all: true, vals: wrong}
			switch {
			case ix == ref.ArrayAll && whole == "another type":
				g.how, g.vals = "value", []any{[]any{ref.Uint(3), float32(1), ref.Str("x"), ref.Null{}, ref.Bits{true}}[rr.Intn(5)]}
				f = g
			case ix == ref.ArrayAll && whole == "another in the list":
				g.how, g.vals = "value", append([]any(nil), vals...)
				k := rr.Intn(len(vals) + 1)
				g.vals = append(g.vals[:k:k], append([]any{[]any{ref.Uint(3), float32(1), ref.Str("x"), ref.Null{}, ref.Bits{true}}[rr.Intn(5)]}, g.vals[k:]...)...)
				f = g
			case ix == ref.ArrayAll && whole != "" && whole != "too long":
				g.how = whole
				f = g
			case ix != ref.ArrayAll:
				asks++
				if bad >= 0 && int(ix) == bad {
					g.how = how
					f = g
				}
			}
		}
		if b := f.answer(rr, d, q); b != nil {
			w.InjectAfter(ms(rr.Intn(10)), d.EP, q.Reply().Frame(b))
		}
	}
	nd, err := network.NewDevice(nw, netDevice(d, "dev"))
	if err != nil {
		c.Fail("device", "no device: %v", err)
		return
	}
	if r.Intn(4) == 0 {
		nd.MaxApdu, nd.Segmentation = 0, 0
	}
	had := [2]uint32{nd.MaxApdu, nd.Segmentation}
	checkAPDU := r.Intn(2) == 0 || points
	what := fmt.Sprintf("object list of %d, whole read: %q, element %d: %q %v", n, whole, bad, how, wrong)
	c.Eval(what + fmt.Sprint(ids))
	var got []btypes.ObjectID
	var dets []*network.PointDetails
	if points {
		c.Count("GetDevicePoints", 1)
		if r.Intn(3) == 0 && len(ids) > 0 {
			c.Count("point details failed", 1)
			pf = &fault{obj: ids[r.Intn(len(ids))], prop: sim.PropObjectName, how: faultKinds[r.Intn(4)]}
		}
		for k, id := range ids {
			if id != d.Self() {
				d.Set(id, sim.PropObjectName, ref.Str(fmt.Sprintf("point %d", k)))
				if k%3 > 0 {
					d.Set(id, propUnits, ref.Enum(k*7%250))
				}
			}
		}
	}
	if !c.Guard("DeviceObjects", what, func() {
		if points {
			dets, err = nd.GetDevicePoints(btypes.ObjectInstance(d.Instance))
		} else {
			got, err = nd.DeviceObjects(btypes.ObjectInstance(d.Instance), checkAPDU)
		}
	}) {
		return
	}
	if checkAPDU {
		c.Count("with a check of the APDU size", 1)
		if announces {
			had = [2]uint32{d.MaxApdu, d.Seg}
		} else {
			c.Count("announced nothing", 1)
		}
		if nd.MaxApdu != had[0] || nd.Segmentation != had[1] {
			c.Fail("APDU size", "%s: the device was given maximum APDU %d and segmentation %d, want %v", what, nd.MaxApdu, nd.Segmentation, had)
		}
	}
	mu.Lock()
	byElement := asks > 0
	mu.Unlock()
	switch {
	case n == 0:
		c.Count("empty list", 1)
	case n == 1:
		c.Count("list of one", 1)
	case n > 100:
		c.Count("long list", 1)
	}
	if byElement {
		c.Count("list read by element", 1)
		if whole != "" {
			c.Count("whole read: "+whole, 1)
		}
	} else {
		c.Count("list read whole", 1)
	}
	if whole == "another type" || whole == "another in the list" {
		c.Count("whole read: another type", 1)
		if byElement && bad < 0 { // also fine, when the result is
			whole = "error"
		} else if err == nil {
			c.Fail("no error", "%s: returned %v %v", what, got, dets)
			return
		} else {
			return
		}
	}
	if bad >= 0 && byElement {
		if bad == 0 && how == "size too large" {
			c.Count(how, 1)
		} else if bad == 0 && how == "another type" {
			c.Count("size of another type", 1)
		} else if bad == 0 {
			c.Count("size failed", 1)
		} else if how == "another type" {
			c.Count("element of another type", 1)
		} else if how == "empty" {
			c.Count("element empty", 1)
		} else {
			c.Count("element failed", 1)
		}
		if err == nil {
			c.Fail("no error", "%s: returned %v %v", what, got, dets)
		}
		return
	}
	if err != nil {
		c.Fail("error", "%s: %v", what, err)
		return
	}
	if !points {
		if len(got) != len(want) || len(got) > 0 && !reflect.DeepEqual(got, want) {
			c.Fail("list", "%s: returned %d %v, want %v", what, len(got), got, want)
		}
		c.Count("GetDeviceDetails", 1)
		det, err := nd.GetDeviceDetails(btypes.ObjectInstance(d.Instance))
		if err != nil || det.Name != name || det.VendorName != vendor || det.MaxApdu != d.MaxApdu || det.Segmentation != d.Seg {
			c.Fail("details", "the details of device %d are %+v (%v), want %q, %q, %d, %d", d.Instance, det, err, name, vendor, d.MaxApdu, d.Seg)
		}
		return
	}
	j := 0
	for k, id := range ids {
		if id.Type == 8 {
			continue
		}
		wn, wu := fmt.Sprintf("point %d", k), uint32(0)
		if k%3 > 0 && id.Type != 3 && id.Type != 4 && id.Type != 5 {
			wu = uint32(k * 7 % 250)
		}
		if pf.obj == id && pf.prop == sim.PropObjectName {
			wn = ""
		}
		if j >= len(dets) {
			c.Fail("points", "%s: %d points returned", what, len(dets))
			return
		}
		p := dets[j]
		j++
		if p == nil || p.ObjectID != btypes.ObjectInstance(id.Instance) || p.ObjectType != btypes.ObjectType(id.Type) || p.Name != wn || p.Unit != wu || p.PointType != btypes.ObjectType(id.Type).String() ||
			wu != 0 && p.UnitString != units.Unit(wu).String() {
			c.Fail("points", "%s: point %d is %+v, want %v, %q, unit %d", what, j, p, id, wn, wu)
		}
	}
	if j != len(dets) {
		c.Fail("points", "%s: %d points, want %d", what, len(dets), j)
	}
}

// store checks that devices are found under their ids
func (c *C) store(r *rand.Rand) {
	w := newWorld(0)
	c.idle(r)
	w.Patience = 100
	defer w.end()
	nw, ok := simNetwork(w.cl)
	if !ok {
		return
	}
	devs := genNetDevices(r, 3)
	for k := range devs { // and ones that differ in one thing
		d := sim.NewDevice(devs[k].EP, devs[k].Instance)
		d.Net, d.Mac = devs[k].Net, devs[k].Mac
		switch r.Intn(4) {
		case 0:
			d.EP.Port ^= 256
		case 1:
			d.EP.Port ^= 1
		case 2:
			d.Net ^= 768
			if len(d.Mac) == 0 {
				d.Mac = []byte{3}
			}
		case 3:
			d.Mac = []byte{byte(7 + k)}
			if d.Net == 0 {
				d.Net = 300
			}
		}
		devs = append(devs, d)
	}
	for k, d := range devs {
		d.Set(d.Self(), sim.PropObjectName, ref.Str(fmt.Sprintf("device %d", k)))
	}
	w.OnSend = func(p sim.Packet) {
		q, err := sim.ParseRequest(p)
		if err == nil {
			if d := find(devs, q); d != nil {
				w.InjectAfter(ms(1), d.EP, q.Reply().Frame(d.Serve(q)))
				return
			}
		}
		c.Fail("request", "sent to %v (%v): %s", p.Dest, err, hexs(p.Data))
	}
	type entry struct {
		nd *network.Device
		d  *sim.Device
	}
	have := map[string]entry{}
	ids := []string{"", "a", "b", "A", "a ", "1", "uuid-7", genText(r, 5)}
	for k := 0; k < 2+r.Intn(20); k++ {
		id := ids[r.Intn(len(ids))]
		d := devs[r.Intn(len(devs))]
		nd := netDevice(d, id)
		switch r.Intn(4) {
		case 3: // what is stored already under another id
			for _, k := range ids {
				if e, ok := have[k]; ok && k != id {
					if err := nw.Store.UpdateDevice(id, nw, e.nd); err != nil {
						c.Fail("store", "no update of %+v: %v", e.nd, err)
						return
					}
					have[id] = e
					c.Count("stored under several ids", 1)
					break
				}
			}
		case 0:
			got, err := network.NewDevice(nw, nd)
			if err != nil || got == nil {
				c.Fail("store", "no device for %+v: %v", nd, err)
				return
			}
			have[id] = entry{got, d}
			c.Count("stored device", 1)
		case 1:
			if err := nw.Store.UpdateDevice(id, nw, nd); err != nil {
				c.Fail("store", "no update of %+v: %v", nd, err)
				return
			}
			c.Count("updated device", 1)
			have[id] = entry{nd, d}
		}
		if k == 1 && r.Intn(3) == 0 { // what is out of range is neither made nor stored
			nd := netDevice(d, "out of range")
			switch r.Intn(3) {
			case 0:
				nd.Port = []int{-1, 65536, 65536 + 47808}[r.Intn(3)]
			case 1:
				nd.NetworkNumber = []int{-1, 65536, 65537}[r.Intn(3)]
			case 2:
				nd.NetworkNumber, nd.MacMSTP = 5, []int{-1, 256, 257}[r.Intn(3)]
			}
			c.Count("device out of range", 1)
			c.Guard("NewDevice", "out of range", func() {
				if got, err := network.NewDevice(nw, nd); err == nil {
					c.Fail("store", "made the device %+v", got)
				}
				if err := nw.Store.UpdateDevice("out of range", nw, nd); err == nil {
					c.Fail("store", "updated the device %+v", nd)
				}
				if got, err := nw.Store.GetDevice("out of range"); err == nil {
					c.Fail("store", "stored the device %+v", got)
				}
			})
		}
		if r.Intn(12) == 0 { // however long it has been there
			time.Sleep(time.Duration(1+r.Intn(400)) * 24 * time.Hour)
			c.Count("kept for long", 1)
		}
		id = ids[r.Intn(len(ids))]
		e, ok := have[id]
		var got *network.Device
		var err error
		if !c.Guard("GetDevice", id, func() { got, err = nw.Store.GetDevice(id) }) {
			return
		}
		c.Eval(fmt.Sprintf("device %q of %d", id, len(have)))
		if !ok {
			c.Count("unknown id", 1)
			if err == nil {
				c.Fail("store", "under the id %q, where nothing was stored, is %+v", id, got)
			}
			c.Guard("GetNetwork", id, func() {
				if n, err := nw.Store.GetNetwork(id); err == nil {
					c.Fail("store", "under the id %q, where nothing was stored, is %+v", id, n)
				}
			})
			continue
		}
		c.Count("of the other kind", 1)
		c.Guard("GetNetwork", id, func() {
			if n, err := nw.Store.GetNetwork(id); err == nil {
				c.Fail("store", "under the id %q of a device is the network %+v", id, n)
			}
		})
		want := netDevice(e.d, id)
		if err != nil || got != e.nd && (got == nil || got.Ip != want.Ip || got.Port != want.Port || got.DeviceID != want.DeviceID || got.NetworkNumber != want.NetworkNumber || got.MacMSTP != want.MacMSTP) {
			c.Fail("store", "under the id %q is %+v (%v), want %+v", id, got, err, want)
			continue
		}
		name, err := got.ReadDeviceName(btypes.ObjectInstance(e.d.Instance))
		if err != nil || !reflect.DeepEqual(e.d.Get(e.d.Self(), sim.PropObjectName), []any{ref.Str(name)}) {
			c.Fail("stored device", "the name of the device stored under %q is read as %q (%v)", id, name, err)
		}
	}
}

// storedNetworks checks networks on real sockets under their ids
func (c *C) storedNetworks(r *rand.Rand) {
	st := network.NewStore()
	base := 25000 + 100*c.Shard
	ports := map[string]int{}
	var all []*network.Network
	for k := 0; k < 6; k++ {
		id := []string{"", "a", "b", "A", "net 7", genText(r, 6)}[k]
		if _, ok := ports[id]; ok {
			continue
		}
		ports[id] = base + k
		var err error
		if r.Intn(2) == 0 {
			err = st.NewNetwork(id, "", "127.0.0.1", base+k, 8)
		} else {
			_, err = network.New(&network.Network{Ip: "127.0.0.1", Port: base + k, SubnetCIDR: 8, StoreID: id, Store: st})
		}
		if err != nil {
			c.Fail("network", "no network on port %d: %v", base+k, err)
			return
		}
		if id == "b" { // a port in use
			if err := st.NewNetwork("used", "", "127.0.0.1", base+k, 8); err == nil {
				c.Fail("network", "a second network on port %d", base+k)
			}
			if n, err := st.GetNetwork("used"); err == nil {
				c.Fail("network", "the network that could not be made is stored: %+v", n)
			}
		}
	}
	ip := sim.EP{IP: [4]byte{127, 0, byte(10 + c.Shard), 2}, Port: 47850}
	d := sim.NewDevice(ip, 5)
	d.Set(d.Self(), sim.PropObjectName, ref.Str("real"))
	rn := newRealNet([]*sim.Device{d}, false)
	defer rn.close()
	for id, port := range ports {
		n, err := st.GetNetwork(id)
		c.Count("stored network", 1)
		c.Eval(fmt.Sprintf("network %q on %d", id, port))
		if err != nil || n == nil || n.Port != port || n.StoreID != id || n.Ip != "127.0.0.1" || n.SubnetCIDR != 8 {
			c.Fail("store", "under the id %q is %+v (%v), want the network on port %d", id, n, err, port)
			continue
		}
		all = append(all, n)
		c.Guard("GetDevice", id, func() {
			if d, err := st.GetDevice(id); err == nil {
				c.Fail("store", "under the id %q of a network is the device %+v", id, d)
			}
		})
		go n.NetworkRun()
		var from *net.UDPAddr
		rn.mu.Lock()
		rn.OnRequest = nil
		rn.OnPeer = func(a *net.UDPAddr) { from = a }
		rn.mu.Unlock()
		err = patiently(func() error {
			nd, err := network.NewDevice(n, netDevice(d, "dev "+id))
			if err != nil {
				return err
			}
			name, err := nd.ReadDeviceName(5)
			if err == nil && name != "real" {
				c.Fail("stored network", "the name is read as %q", name)
			}
			return err
		})
		rn.mu.Lock()
		if err != nil || from == nil || from.Port != port {
			c.Fail("stored network", "the network stored under %q is on %v, not on port %d (%v)", id, from, port, err)
		}
		rn.mu.Unlock()
	}
	for _, n := range all {
		if err := n.NetworkClose(false); err != nil {
			c.Fail("close", "closing a network: %v", err)
		}
	}
	for k, id := range []string{"a", "b"} { // another network under the id of one that was closed
		port := base + 20 + k
		var err error
		if r.Intn(2) == 0 {
			err = st.NewNetwork(id, "", "127.0.0.1", port, 8)
		} else {
			_, err = network.New(&network.Network{Ip: "127.0.0.1", Port: port, SubnetCIDR: 8, StoreID: id, Store: st})
		}
		if err != nil {
			c.Fail("network", "no network on port %d: %v", port, err)
			return
		}
		n, err := st.GetNetwork(id)
		if err != nil || n.Port != port {
			c.Fail("store", "under the id %q is %+v (%v), want the network that was stored last, on port %d", id, n, err, port)
			return
		}
		n.NetworkClose(false)
		c.Count("network stored in place of another", 1)
	}
	c.storeless(base + 50)
	if n, err := st.GetNetwork("nothing"); err == nil {
		c.Fail("store", "under an unknown id is %+v", n)
	}
}

// realDiscovery discovers devices over loopback sockets
func (c *C) realDiscovery(r *rand.Rand) {
	var devs []*sim.Device
	names := map[uint32]string{}
	for k := 0; k < 6; k++ {
		d := sim.NewDevice(sim.EP{IP: [4]byte{127, 0, 40, byte(1 + k)}, Port: uint16(47850 + k)}, uint32(100+k))
		if k >= 4 {
			d.EP = sim.EP{IP: [4]byte{127, 0, 40, 99}, Port: 47870}
			d.Net, d.Mac = uint16(5+k), genOctets(r, 1+6*(k-4))
		}
		names[d.Instance], _ = describe(r, d, k)
		var l []any
		for j := 0; j < 20; j++ {
			l = append(l, ref.ObjID{Type: 2, Instance: uint32(j)})
		}
		d.Set(d.Self(), sim.PropObjectList, l...)
		d.NoWholeList = k%2 == 0
		devs = append(devs, d)
	}
	rn := newRealNet(devs, true)
	defer rn.close()
	n, err := realNetwork(25900, true)
	if err != nil {
		c.Fail("network", "no network: %v", err)
		return
	}
	defer n.NetworkClose(false)
	any, err := network.NewDevice(n, &network.Device{Ip: "127.0.40.200", DeviceID: 7, StoreID: "any"})
	if err != nil {
		c.Fail("device", "no device: %v", err)
		return
	}
	err = patiently(func() error {
		found, err := n.NetworkDiscover(&bacnet.WhoIsOpts{Low: 101, High: 104, GlobalBroadcast: true})
		if err != nil {
			return err
		}
		if len(found) != 4 {
			return fmt.Errorf("%d devices: %+v", len(found), found)
		}
		for _, b := range found {
			d := devs[(b.DeviceID-100)%6]
			a := announce{inst: d.Instance, apdu: d.MaxApdu, seg: d.Seg, vendor: d.Vendor, origin: d.EP, src: d.Route().Src}
			if s := sameAnnounce(b, &a); s != "" || b.DeviceName != names[d.Instance] {
				return fmt.Errorf("%s: %+v, want %q", s, b, names[d.Instance])
			}
		}
		pub, err := any.DeviceDiscover(&bacnet.WhoIsOpts{GlobalBroadcast: true})
		if err != nil {
			return err
		}
		if len(pub) != 6 {
			return fmt.Errorf("%d devices: %+v", len(pub), pub)
		}
		for _, b := range pub {
			d := devs[(b.DeviceID-100)%6]
			if b.Ip != d.EP.String() || b.Port != int(d.EP.Port) || b.DeviceName != names[d.Instance] || b.NetworkNumber != int(d.Net) || b.MaxApdu != d.MaxApdu {
				return fmt.Errorf("%+v, want %q", *b, names[d.Instance])
			}
			ids, err := b.DeviceObjects(btypes.ObjectInstance(d.Instance), d.NoWholeList)
			if err != nil || len(ids) != 20 || ids[7] != libObj(ref.ObjID{Type: 2, Instance: 7}) {
				return fmt.Errorf("objects of %d: %v (%v)", d.Instance, ids, err)
			}
		}
		c.Count("discovery over UDP", 1)
		return nil
	})
	c.Eval("discovery over UDP")
	if err != nil {
		c.Fail("UDP", "discovery over UDP: %v", err)
	}
}

// storeless checks that without a place to store it nothing is opened, and that a network
// without a store still has devices
func (c *C) storeless(port int) {
	free := func(how string) {
		s, err := net.ListenUDP("udp4", &net.UDPAddr{Port: port})
		if err != nil {
			c.Fail("port left open", "%s: the port is in use: %v", how, err)
			return
		}
		s.Close()
	}
	c.Count("without a store", 1)
	for k, st := range []*network.Store{nil, {}} {
		how := fmt.Sprintf("network with the store %+v", st)
		c.Eval(how)
		c.Guard("New", how, func() {
			n, err := network.New(&network.Network{Ip: "127.0.0.1", Port: port, SubnetCIDR: 8, StoreID: "x", Store: st})
			if err == nil { // also fine, when it is one
				if n == nil {
					c.Fail("network", "%s: neither a network nor an error", how)
				} else {
					n.NetworkClose(false)
				}
			}
		})
		free(how)
		if k == 1 {
			c.Guard("NewNetwork", how, func() {
				if err := st.NewNetwork("x", "", "127.0.0.1", port, 8); err == nil {
					c.Fail("network", "%s: stored without an error", how)
				}
			})
			free("stored " + how)
		}
	}
	d := &network.Device{Ip: "127.0.0.1", DeviceID: 5, StoreID: "x"}
	c.Guard("NewDevice", "of a network without a store", func() {
		got, err := network.NewDevice(&network.Network{}, d)
		if (err == nil) != (got != nil) {
			c.Fail("device", "in a network without a store: %+v, %v", got, err)
		}
	})
	c.Count("without a network", 1)
	c.Guard("NewDevice", "without a network", func() {
		if got, err := network.NewDevice(nil, d); err == nil {
			c.Fail("device", "without a network: %+v and no error", got)
		}
		if err := network.NewStore().UpdateDevice("x", nil, d); err == nil {
			c.Fail("device", "updated without a network")
		}
	})
}
