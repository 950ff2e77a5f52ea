package checks

import (
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"verif/harness/ref"
	"verif/harness/sim"
)

func init() {
	register("C21", "devices at many addresses, some behind BBMDs, some behind routers with network numbers and MACs of every length, are discovered with Who-Is through forwarded and routed announcements; then all operations are run on each as it was reported, and answered directly, forwarded, through routers and both", runC21)
}

func runC21(c *C) {
	c.Need("long idle", "reported", "direct", "forwarded announcement", "routed announcement", "forwarded and routed announcement", "operations", "direct answer", "forwarded answer", "routed answer", "forwarded and routed answer",
		"MAC of 1 octet", "MAC of 2 octets", "MAC of 6 octets", "MAC of 7 octets", "longer MAC", "same router", "same MAC on two networks", "the forwarder is a device, too")
	c.Loop(0, c.N(15000, 300000), func(i int, r *rand.Rand) {
		c.attribution(r)
	})
}

// genStations are devices at all kinds of addresses, no two at the same
func genStations(c *C, r *rand.Rand) []*sim.Device {
	var devs []*sim.Device
	n := 1 + r.Intn(5)
	router := genEP(r)
	mac := genOctets(r, 1+r.Intn(7))
	for len(devs) < n {
		d := sim.NewDevice(genEP(r), genInstance(r))
		d.Vendor, d.Seg = genUint(r), uint32(r.Intn(4))
		switch r.Intn(3) {
		case 0:
			d.EP = router
			c.Count("same router", 1)
			fallthrough
		case 1:
			d.Net = uint16(1 + r.Intn(65534))
			if r.Intn(3) == 0 {
				d.Net = []uint16{1, 2, 255, 256, 32768, 65534}[r.Intn(6)]
			}
			k := []int{1, 1, 1, 2, 3, 4, 5, 6, 6, 7, 7, 8, 16, 254, 255, 1 + r.Intn(255)}[r.Intn(16)]
			d.Mac = genOctets(r, k)
			if r.Intn(3) == 0 {
				d.Mac = mac
				c.Count("same MAC on two networks", 1)
			}
			switch k := len(d.Mac); k {
			case 1:
				c.Count("MAC of 1 octet", 1)
			case 2, 6, 7:
				c.Count(fmt.Sprintf("MAC of %d octets", k), 1)
			default:
				if k > 7 {
					c.Count("longer MAC", 1)
				}
			}
		}
		ok := true
		for _, e := range devs {
			if e.Instance == d.Instance || e.EP == d.EP && e.Net == d.Net && string(e.Mac) == string(d.Mac) {
				ok = false
			}
		}
		if ok {
			devs = append(devs, d)
		}
	}
	return devs
}

// travel is a way for a message of the device to reach the client
func travel(c *C, r *rand.Rand, d *sim.Device, others []*sim.Device, what string) sim.Route {
	rt := d.Route()
	fwd := r.Intn(2) == 0
	if fwd {
		o := d.EP
		rt.Forward = &o
		rt.From = genEP(r)
		if r.Intn(4) == 0 {
			rt.From = others[r.Intn(len(others))].EP
			c.Count("the forwarder is a device, too", 1)
		}
	}
	if r.Intn(3) == 0 {
		rt.Bcast = true
	}
	if r.Intn(3) == 0 {
		rt.Dst = &ref.Addr{Net: 65535}
		if r.Intn(2) == 0 {
			rt.Dst = genAddr(r)
			if rt.Dst.Net == 0 {
				rt.Dst.Net = 5
			}
		}
	}
	switch {
	case fwd && rt.Src != nil:
		c.Count("forwarded and routed "+what, 1)
	case fwd:
		c.Count("forwarded "+what, 1)
	case rt.Src != nil:
		c.Count("routed "+what, 1)
	case what == "answer":
		c.Count("direct answer", 1)
	default:
		c.Count("direct", 1)
	}
	return rt
}

func (c *C) attribution(r *rand.Rand) {
	devs := genStations(c, r)
	var what string
	for _, d := range devs {
		what += fmt.Sprintf("%d at %v:%d network %d MAC % x; ", d.Instance, d.EP, d.EP.Port, d.Net, d.Mac)
	}
	seed := r.Int63()
	c.Bubble(what, func(t *testing.T) {
		w := newWorld(0)
		c.idle(r)
		defer w.end()
		rr := rand.New(rand.NewSource(seed))
		var mu sync.Mutex
		w.OnSend = func(p sim.Packet) {
			mu.Lock()
			defer mu.Unlock()
			if _, _, ok := parseWhoIs(p.Data); ok {
				for _, d := range devs {
					rt := travel(c, rr, d, devs, "announcement")
					w.InjectAfter(ms(rr.Intn(1500)), rt.From, rt.Frame(d.IAm()))
				}
				return
			}
			q, err := sim.ParseRequest(p)
			if err != nil {
				c.Fail("request", "%s: %v: %s", what, err, hexs(p.Data))
				return
			}
			d := find(devs, q)
			if d == nil {
				c.Fail("addressed", "%s: a request went to %v:%d, destination %+v", what, q.To, q.To.Port, q.NPDU.Dst)
				return
			}
			rt := travel(c, rr, d, devs, "answer")
			w.InjectAfter(ms(rr.Intn(300)), rt.From, rt.Frame(d.Serve(q)))
		}
		var found []btypes.Device
		var err error
		if !c.Guard("WhoIs", what, func() { found, err = w.cl.WhoIs(&bacnet.WhoIsOpts{}) }) {
			return
		}
		c.Eval(what)
		if err != nil || len(found) != len(devs) {
			c.Fail("WhoIs", "%s: %d were reported (%v)", what, len(found), err)
			return
		}
		by := map[int]btypes.Device{}
		for _, f := range found {
			by[f.DeviceID] = f
		}
		for _, d := range devs {
			f, ok := by[int(d.Instance)]
			a := &announce{inst: d.Instance, apdu: d.MaxApdu, seg: d.Seg, vendor: d.Vendor, origin: d.EP}
			if d.Net != 0 {
				a.src = &ref.Addr{Net: d.Net, Mac: ref.Octets(d.Mac)}
			}
			if !ok {
				c.Fail("WhoIs", "%s: %d was not reported", what, d.Instance)
				return
			}
			if diff := sameAnnounce(f, a); diff != "" {
				c.Fail("attribution", "%s: reported was %s (%s)", what, showDevice(f), diff)
				return
			}
			c.Count("reported", 1)
		}
		var wg sync.WaitGroup
		for k := 0; k < 4*len(devs); k++ {
			d := devs[k/4]
			op, o, v := k%4, ref.ObjID{Type: 2, Instance: uint32(1 + k)}, rr.Uint32()
			f := by[int(d.Instance)]
			wg.Add(1)
			go func() {
				defer wg.Done()
				s := ""
				if !c.Guard(opNames[op], what, func() {
					s = probeOne(func(objs []ref.Obj) (any, error) { return w.do(op, f, objs) }, d, op, o, v)
				}) {
					return
				}
				if s != "" {
					c.Fail("operation", "%s: on %s: %s", what, showDevice(f), s)
				}
				c.Count("operations", 1)
			}()
		}
		wg.Wait()
		time.Sleep(time.Second)
	})
}
