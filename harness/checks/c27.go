package checks

import (
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/network"
	"verif/harness/ref"
	"verif/harness/sim"
)

func init() {
	register("C27", "all operations of one client at once from several goroutines, on devices, objects and options that they share, while answers, announcements and garbage arrive, until the client is closed among them; on the simulated link and on real sockets, also through the network package and with a second client; the race detector watches, and results are compared", runC27)
}

var mixed = []string{"ReadProperty", "ReadMultiProperty", "WriteProperty", "WriteMultiProperty", "Who-Is", "network number", "routers", "I-Am", "inventory", "shared read", "shared Who-Is", "point", "discovery", "values"}

func runC27(c *C) {
	for _, m := range mixed {
		c.Need(m)
	}
	c.Need("cases", "operations", "results right", "closed among them", "closed afterwards", "garbage", "announcements", "real sockets", "two clients")
	c.Loop(0, c.N(240, 6000), func(i int, r *rand.Rand) {
		c.Bubble("mixed operations", func(t *testing.T) { c.mixture(r) })
	})
	c.Loop(1<<20, c.N(8, 160), func(i int, r *rand.Rand) { c.realMixture(r) })
}

// mixDevice is a device whose answers take no lock
type mixDevice struct {
	*sim.Device
	lib  btypes.Device // what all goroutines share
	vals []ref.Prop    // of an object that has values of all kinds
}

func newMixDevice(d *sim.Device) *mixDevice {
	d.Set(d.Self(), sim.PropObjectName, ref.Str("device"))
	d.Set(d.Self(), sim.PropVendorName, ref.Str("vendor"))
	var ids []any
	for k := 0; k < 12; k++ {
		o := ref.ObjID{Type: 2, Instance: uint32(k)}
		ids = append(ids, o)
		d.Set(o, sim.PropObjectName, ref.Str(fmt.Sprintf("object %d", k)))
		d.Set(o, sim.PropDescription, ref.Str("about it"))
		d.Set(o, sim.PropPresentValue, ref.Uint(7*k))
	}
	d.Set(d.Self(), sim.PropObjectList, ids...)
	m := &mixDevice{Device: d, lib: libDevice(d)}
	r := rand.New(rand.NewSource(int64(d.Instance)))
	for k := 0; k < 16; k++ {
		v := []any{ref.Str2(genUCS2(r, 20)), ref.Str2(genUCS2(r, 3)), ref.Str(genText(r, 9)), genBits(r), genF64(r), genValue(r, false), genValue(r, false), genValue(r, false)}[k%8]
		if b, ok := v.(ref.Octets); ok && len(b) > 40 {
			v = b[:40]
		}
		if s, ok := v.(ref.Str); ok && len(s) > 40 {
			v = ref.Str("a text")
		}
		if s, ok := v.(ref.Str2); ok && len(s) > 40 {
			v = ref.Str2(genUCS2(r, 5))
		}
		p := ref.Prop{ID: uint32(600 + k), Index: ref.ArrayAll, Vals: []any{v}}
		d.Set(valuesObj, p.ID, v)
		m.vals = append(m.vals, p)
	}
	return m
}

// valuesObj is in no list
var valuesObj = ref.ObjID{Type: 20, Instance: 4000}

// one runs an operation; it returns what was wrong with the result
func (m *mixDevice) one(kind string, g, k int, cl bacnet.Client, net *network.Network, nd *network.Device, shared btypes.PropertyData, opts *bacnet.WhoIsOpts, r *rand.Rand) string {
	mine := ref.ObjID{Type: 19, Instance: uint32(1000*(g+1) + k)}
	w := &world{cl: cl}
	for op, name := range opNames {
		if name == kind {
			return probeOne(func(o []ref.Obj) (any, error) { return w.do(op, m.lib, o) }, m.Device, op, mine, r.Uint32())
		}
	}
	switch kind {
	case "Who-Is":
		if _, err := cl.WhoIs(&bacnet.WhoIsOpts{Low: int(m.Instance), High: int(m.Instance), GlobalBroadcast: r.Intn(2) == 0}); err != nil {
			return fmt.Sprintf("Who-Is: %v", err)
		}
	case "shared Who-Is":
		if _, err := cl.WhoIs(opts); err != nil {
			return fmt.Sprintf("Who-Is: %v", err)
		}
	case "network number":
		cl.WhatIsNetworkNumber()
	case "routers":
		cl.WhoIsRouterToNetwork()
	case "I-Am":
		if err := cl.IAm(m.lib.Addr, btypes.IAm{ID: m.lib.ID, MaxApdu: 1476, Segmentation: 3, Vendor: 1}); err != nil {
			return fmt.Sprintf("I-Am: %v", err)
		}
	case "inventory":
		out, err := cl.Objects(m.lib)
		if err != nil {
			return fmt.Sprintf("Objects: %v", err)
		}
		if out.Objects.Len() != 12 || out.Objects[2][5].Name != "object 5" {
			return fmt.Sprintf("Objects: %v", out.Objects)
		}
	case "shared read":
		out, err := cl.ReadProperty(m.lib, shared)
		if err != nil {
			return fmt.Sprintf("ReadProperty: %v", err)
		}
		if len(out.Object.Properties) != 1 || out.Object.Properties[0].Data != uint32(21) {
			return fmt.Sprintf("ReadProperty: %v", out)
		}
	case "point":
		name, err := nd.ReadPointName(&network.Point{ObjectType: 2, ObjectID: 4})
		if err != nil || name != "object 4" {
			return fmt.Sprintf("ReadPointName: %q, %v", name, err)
		}
	case "values":
		n, op := 1, opRead
		if r.Intn(2) == 0 {
			n, op = 1+r.Intn(len(m.vals)), opReadMulti
		}
		o := []ref.Obj{{ID: valuesObj}}
		for _, k := range r.Perm(len(m.vals))[:n] {
			o[0].Props = append(o[0].Props, m.vals[k])
		}
		q := []ref.Obj{{ID: valuesObj}}
		for _, p := range o[0].Props {
			q[0].Props = append(q[0].Props, ref.Prop{ID: p.ID, Index: p.Index})
		}
		got, err := w.do(op, m.lib, q)
		if err != nil {
			return fmt.Sprintf("%s of values: %v", opNames[op], err)
		}
		if s := sameObjs(got, o); s != "" {
			return fmt.Sprintf("%s of values: %s", opNames[op], s)
		}
	case "discovery":
		if _, err := net.NetworkDiscover(&bacnet.WhoIsOpts{Low: int(m.Instance), High: int(m.Instance), GlobalBroadcast: true}); err != nil {
			return fmt.Sprintf("NetworkDiscover: %v", err)
		}
	}
	return ""
}

func (c *C) mixture(r *rand.Rand) {
	var worlds []*world
	n := 1
	if r.Intn(4) == 0 {
		n = 2
		c.Count("two clients", 1)
	}
	for k := 0; k < n; k++ {
		w := newWorld(0)
		w.Patience = 1000
		w.Quick = true
		worlds = append(worlds, w)
	}
	var wg sync.WaitGroup
	for _, w := range worlds {
		r := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.mix(w, r)
		}()
	}
	wg.Wait()
}

func (c *C) mix(w *world, r *rand.Rand) {
	var devs []*mixDevice
	var sims []*sim.Device
	for _, d := range genNetDevices(r, 1+r.Intn(3)) {
		devs = append(devs, newMixDevice(d))
		sims = append(sims, d)
	}
	w.OnSend = func(p sim.Packet) { // on the goroutine of the sender, without a lock
		if _, _, ok := parseWhoIs(p.Data); ok {
			for k, d := range devs {
				w.InjectAfter(ms(1+k), d.EP, d.Route().Frame(d.IAm()))
				w.InjectAfter(ms(1+k), d.EP, d.Route().Frame(d.IAm()))
			}
			return
		}
		q, err := sim.ParseRequest(p)
		if err != nil {
			return
		}
		if d := find(sims, q); d != nil {
			w.InjectAfter(time.Duration(len(p.Data)%7)*time.Millisecond, d.EP, q.Reply().Frame(d.Serve(q)))
		}
	}
	net, ok := simNetwork(w.cl)
	nds := map[*mixDevice]*network.Device{}
	if ok {
		for k, m := range devs {
			nds[m], _ = network.NewDevice(net, netDevice(m.Device, fmt.Sprint(k)))
		}
	}
	shared := propData(ref.Obj{ID: ref.ObjID{Type: 2, Instance: 3}, Props: []ref.Prop{{ID: 85, Index: ref.ArrayAll}}})
	opts := &bacnet.WhoIsOpts{GlobalBroadcast: r.Intn(2) == 0, NetworkNumber: 5}
	gs := 3 + r.Intn(9)
	among := r.Intn(2) == 0
	ops := 4 + r.Intn(12)
	type result struct {
		counts map[string]int
		wrong  string
		right  int
	}
	results := make([]result, gs)
	closing := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < gs; g++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			res := result{counts: map[string]int{}}
			for k := 0; k < ops; k++ {
				m := devs[rr.Intn(len(devs))]
				kind := mixed[rr.Intn(len(mixed))]
				if !ok && (kind == "point" || kind == "discovery") {
					continue
				}
				res.counts[kind]++
				s := m.one(kind, g, k, w.cl, net, nds[m], shared, opts, rr)
				select {
				case <-closing: // then anything may fail
				default:
					if s == "" {
						res.right++
					} else if res.wrong == "" && !among { // an operation that began before Close may end after it
						res.wrong = s
					}
				}
			}
			results[g] = res
		}()
	}
	stop := make(chan struct{})
	var tr sync.WaitGroup
	rr := rand.New(rand.NewSource(r.Int63()))
	tr.Add(1)
	go func() {
		defer tr.Done()
		n, a := 0, 0
		for {
			select {
			case <-stop:
				c.Count("garbage", n)
				c.Count("announcements", a)
				return
			default:
			}
			for k := rr.Intn(10); k > 0; k-- {
				if rr.Intn(3) == 0 {
					x := genAnnounce(rr, genInstance(rr))
					w.Inject(x.from, x.frame)
					m := genNetMsg(rr)
					w.Inject(genEP(rr), m.frame)
					a += 2
					continue
				}
				b, _ := genTraffic(rr)
				w.Inject(genEP(rr), harmless(b, func(byte) bool { return true }))
				n++
			}
			time.Sleep(time.Duration(1+rr.Intn(300)) * time.Millisecond)
		}
	}()
	if among {
		time.Sleep(time.Duration(r.Intn(30000)) * time.Millisecond)
		close(closing)
		w.cl.Close()
		c.Count("closed among them", 1)
	}
	wg.Wait()
	close(stop)
	tr.Wait()
	if !among {
		c.Count("closed afterwards", 1)
	}
	w.end()
	c.tally(func(f func(map[string]int, int, string)) {
		for _, res := range results {
			f(res.counts, res.right, res.wrong)
		}
	}, fmt.Sprintf("%d goroutines, %d operations each, %d devices, closed among them: %v", gs, ops, len(devs), among))
}

func (c *C) tally(each func(func(map[string]int, int, string)), what string) {
	c.Count("cases", 1)
	var all []string
	each(func(counts map[string]int, right int, wrong string) {
		all = append(all, fmt.Sprint(counts))
		for k, v := range counts {
			c.Count(k, v)
			c.Count("operations", v)
		}
		c.Count("results right", right)
		if wrong != "" {
			c.Fail("result", "%s: %s", what, wrong)
		}
	})
	c.Eval(what + fmt.Sprint(all))
}

func (c *C) realMixture(r *rand.Rand) {
	ip := [4]byte{127, 0, byte(10 + c.Shard), 3}
	var devs []*mixDevice
	var sims []*sim.Device
	for k := 0; k < 3; k++ {
		d := sim.NewDevice(sim.EP{IP: ip, Port: uint16(47810 + k)}, uint32(10+k))
		devs = append(devs, newMixDevice(d))
		sims = append(sims, d)
	}
	rn := newRealNet(sims, false)
	defer rn.close()
	cl, done, err := realClient(27000 + 100*c.Shard)
	if err != nil {
		panic(fmt.Sprintf("harness: no client: %v", err))
	}
	shared := propData(ref.Obj{ID: ref.ObjID{Type: 2, Instance: 3}, Props: []ref.Prop{{ID: 85, Index: ref.ArrayAll}}})
	kinds := []string{"ReadProperty", "ReadMultiProperty", "WriteProperty", "WriteMultiProperty", "I-Am", "inventory", "shared read", "values", "values"}
	counts := make([]map[string]int, 8)
	wrong := make([]string, 8)
	var wg sync.WaitGroup
	for g := range counts {
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			counts[g] = map[string]int{}
			if g == 0 { // one goes looking for devices
				cl.WhoIs(&bacnet.WhoIsOpts{Low: 1, High: 5})
				counts[g]["Who-Is"]++
				return
			}
			for k := 0; k < 40; k++ {
				m := devs[rr.Intn(3)]
				kind := kinds[rr.Intn(len(kinds))]
				counts[g][kind]++
				err := patiently(func() error {
					if s := m.one(kind, g, k, cl, nil, nil, shared, nil, rr); s != "" {
						return fmt.Errorf("%s", s)
					}
					return nil
				})
				if err != nil && wrong[g] == "" {
					wrong[g] = err.Error()
				}
			}
		}()
	}
	wg.Wait()
	cl.Close()
	<-done
	c.Count("real sockets", 1)
	c.tally(func(f func(map[string]int, int, string)) {
		for g := range counts {
			f(counts[g], 0, wrong[g])
		}
	}, "real sockets")
}
