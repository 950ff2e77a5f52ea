package checks

import (
	"fmt"
	"math/rand"
	"net"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/network"
	"verif/harness/ref"
	"verif/harness/sim"
	"verif/harness/yield"
)

func init() {
	register("C31", "several clients in one process, each on a network of its own whose devices have the same addresses, instances and objects but other values; some of them are overloaded, flooded, without a network, slow, or opened and closed all the time; what the others return, send and how long they take is compared with what they would do alone; also on real sockets", runC31)
}

// party is a client, its network and what is to become of them
type party struct {
	*world
	k       int
	role    string
	maxPDU  uint16
	devs    []*sim.Device
	delay   time.Duration
	nw      *network.Network
	nds     []*network.Device
	mu      sync.Mutex
	asked   int
	calls   int
	counts  map[string]int
	wrong   string
	running []string
}

var partyIlls = []string{"overloaded", "flooded", "without a network", "slow", "opened and closed", "looking for devices"}
var partyOps = []string{"one operation", "20 operations at once", "Who-Is", "routers", "network number", "inventory", "large answer", "point", "discovery"}

func runC31(c *C) {
	for _, t := range partyIlls {
		c.Need("other client " + t)
	}
	for _, o := range partyOps {
		c.Need(o)
	}
	c.Need("cases", "operations right", "after the others closed", "stored under the same id", "other buffer sizes", "real sockets")
	n := c.N(1600, 30000)
	if c.Race {
		n = c.N(240, 5000)
	}
	c.Loop(0, n, func(i int, r *rand.Rand) {
		yield.Set([]int{0, 20, 100, 300}[r.Intn(4)])
		defer yield.Set(0)
		seed := r.Int63()
		c.Bubble("clients of one process", func(t *testing.T) { c.apart(rand.New(rand.NewSource(seed))) })
	})
	c.Loop(1<<20, c.N(8, 100), func(i int, r *rand.Rand) { c.realApart(r) })
	c.Need("subnets of their own")
	c.Loop(1<<21, c.N(8, 100), func(i int, r *rand.Rand) { c.subnets(r) })
}

// deviceSet makes the same devices each time, with the values of one party
func deviceSet(seed int64, k int) []*sim.Device {
	r := rand.New(rand.NewSource(seed))
	devs := genNetDevices(r, 1+r.Intn(3))
	objs := 3 + r.Intn(20)
	for j, d := range devs {
		d.Vendor = uint32(1000 * (k + 1))
		text := func(s string) ref.Str { return ref.Str(fmt.Sprintf("%s %d of party %d", s, j, k)) }
		d.Set(d.Self(), sim.PropObjectName, text("device"))
		d.Set(d.Self(), sim.PropVendorName, text("vendor"))
		var ids []any
		for m := 0; m < objs; m++ {
			o := ref.ObjID{Type: 2, Instance: uint32(m)}
			ids = append(ids, o)
			d.Set(o, sim.PropObjectName, text(fmt.Sprintf("object %d at", m)))
			d.Set(o, sim.PropDescription, text("about it"))
			d.Set(o, sim.PropPresentValue, ref.Uint(1000000*(k+1)+m))
		}
		d.Set(d.Self(), sim.PropObjectList, ids...)
	}
	return devs
}

func newParty(k int, role string, seed int64, r *rand.Rand) *party {
	p := &party{k: k, role: role, devs: deviceSet(seed, k), delay: ms(r.Intn(60)), counts: map[string]int{}, maxPDU: []uint16{0, 0, 1476, 480, 206, 50}[r.Intn(6)]}
	if role == "slow" {
		p.delay = 4 * time.Second
	}
	p.open()
	var ok bool
	if p.nw, ok = simNetwork(p.cl); ok {
		for j, d := range p.devs {
			nd, err := network.NewDevice(p.nw, netDevice(d, fmt.Sprintf("device %d", j)))
			if err != nil {
				p.bad("no device: %v", err)
				continue
			}
			p.nds = append(p.nds, nd)
		}
	}
	return p
}

func (p *party) open() {
	l := sim.NewLink()
	l.My = sim.EP{IP: [4]byte{10, byte(p.k), 0, 1}, Port: 47808}.Addr()
	l.Bcast = sim.EP{IP: [4]byte{10, byte(p.k), 255, 255}, Port: 47808}.Addr()
	p.world = worldOn(l, p.maxPDU)
	w := p.world
	w.Patience = 1000
	w.OnSend = func(x sim.Packet) { p.answer(w, x) }
	if p.role == "without a network" {
		w.SendErr = func(sim.Packet) error { return fmt.Errorf("network is unreachable") }
	}
}

func (p *party) bad(f string, a ...any) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.wrong == "" {
		p.wrong = fmt.Sprintf(f, a...)
	}
}

// announced is what a party's network announces to each request of the kind
func (p *party) announced() []*sim.Device {
	own := sim.NewDevice(sim.EP{IP: [4]byte{10, 1, byte(p.k), 1}, Port: 47808}, uint32(3000000+p.k))
	own.Vendor = p.devs[0].Vendor
	return append(append([]*sim.Device{}, p.devs...), own)
}

func (p *party) numbers() []uint16 { return []uint16{7, uint16(100 + p.k), uint16(30000 + p.k)} }

// answer is the network of a party
func (p *party) answer(w *world, x sim.Packet) {
	if p.role == "overloaded" || p.role == "without a network" {
		return
	}
	lo, hi, whois := parseWhoIs(x.Data)
	q, err := sim.ParseRequest(x)
	if want := w.Bcast.Mac; err != nil && string(x.Dest.Mac) != string(want) {
		p.bad("what is broadcast on its network went to %v, not to %v: %s", x.Dest.Mac, want, hexs(x.Data))
		return
	}
	if whois {
		for j, d := range p.announced() {
			if lo < 0 || int64(d.Instance) >= lo && int64(d.Instance) <= hi {
				w.InjectAfter(ms(100*j), d.EP, d.Route().Frame(d.IAm()))
			}
		}
		return
	}
	if err != nil { // a question for networks
		from := sim.EP{IP: [4]byte{10, 0, 9, 9}, Port: 47808}
		for j, n := range p.numbers() {
			w.InjectAfter(ms(100*j), from, sim.Route{From: from}.FrameNetwork(1, []byte{byte(n >> 8), byte(n)}))
			w.InjectAfter(ms(100*j), from, sim.Route{From: from}.FrameNetwork(0x13, []byte{byte(n >> 8), byte(n), 1}))
		}
		return
	}
	d := find(p.devs, q)
	if d == nil {
		p.bad("a request was sent to %v, which it has no operation for: %s", x.Dest, hexs(x.Data))
		return
	}
	p.mu.Lock()
	p.asked++
	p.mu.Unlock()
	w.InjectAfter(p.delay, d.EP, q.Reply().Frame(d.Serve(q)))
}

// timed runs n operations that need only answers and judges what was sent and how long it took
func (p *party) timed(what string, n int, f func() string) {
	p.mu.Lock()
	before := p.asked
	p.mu.Unlock()
	t := time.Now()
	if s := f(); s != "" {
		p.bad("%s: %s", what, s)
		return
	}
	took := time.Since(t)
	p.mu.Lock()
	sent := p.asked - before
	p.mu.Unlock()
	if n > 0 && sent != n {
		p.bad("%s: %d requests were sent for %d operations that were answered at once", what, sent, n)
	}
	rounds := sent
	if n > 1 {
		rounds = 1
	}
	if most := time.Duration(rounds)*p.delay + 300*time.Millisecond; took > most {
		p.bad("%s: took %v, although its %d requests were answered within %v each", what, took, sent, p.delay)
	}
}

// act runs one kind of operation and compares what it returns with this party's network
func (p *party) act(kind string, r *rand.Rand) {
	j := r.Intn(len(p.devs))
	d := p.devs[j]
	dev := libDevice(d)
	p.calls++
	switch kind {
	case "one operation", "20 operations at once":
		n := 1
		if kind != "one operation" {
			n = 20
		}
		p.timed(kind, n, func() string {
			var wg sync.WaitGroup
			wrong := make([]string, n)
			for k := 0; k < n; k++ {
				op, v := r.Intn(4), uint32(1000000*(p.k+1))+uint32(r.Intn(1000000))
				o := ref.ObjID{Type: 19, Instance: uint32(k)} // the same in each network
				wg.Add(1)
				go func() {
					defer wg.Done()
					wrong[k] = probeOne(func(objs []ref.Obj) (any, error) { return p.do(op, dev, objs) }, d, op, o, v)
				}()
			}
			wg.Wait()
			return strings.Join(wrong, "")
		})
	case "large answer":
		size := 100 + r.Intn(1250)
		if p.maxPDU > 0 {
			size = min(size, int(p.maxPDU)-20)
		}
		text := strings.Repeat(string(rune('a'+p.k)), size)
		o := ref.ObjID{Type: 40, Instance: 1}
		d.Set(o, 85, ref.Str(text))
		p.timed(kind, 1, func() string {
			out, err := p.cl.ReadProperty(dev, propData(ref.Obj{ID: o, Props: []ref.Prop{{ID: 85, Index: ref.ArrayAll}}}))
			if err != nil {
				return err.Error()
			}
			if ps := out.Object.Properties; len(ps) != 1 || ps[0].Data != text {
				return fmt.Sprintf("a text of %d letters %c was read as %v", size, 'a'+p.k, ps)
			}
			return ""
		})
	case "inventory":
		if p.maxPDU > 0 && p.maxPDU < 1476 { // its answers need not fit
			return
		}
		p.timed(kind, 0, func() string {
			out, err := p.cl.Objects(dev)
			if err != nil {
				return err.Error()
			}
			want := len(d.Get(d.Self(), sim.PropObjectList))
			if out.Objects.Len() != want {
				return fmt.Sprintf("%d objects, the device has %d", out.Objects.Len(), want)
			}
			for m := 0; m < want; m++ {
				if got := out.Objects[2][btypes.ObjectInstance(m)].Name; got != fmt.Sprintf("object %d at %d of party %d", m, j, p.k) {
					return fmt.Sprintf("object %d of device %d of party %d is called %q", m, j, p.k, got)
				}
			}
			return ""
		})
	case "point":
		if p.nds == nil {
			return
		}
		p.timed(kind, 0, func() string {
			pnt := &network.Point{ObjectType: 2, ObjectID: 1}
			name, err := p.nds[j].ReadPointName(pnt)
			if err != nil || name != fmt.Sprintf("object 1 at %d of party %d", j, p.k) {
				return fmt.Sprintf("device %d of party %d: %q, %v", j, p.k, name, err)
			}
			return ""
		})
	case "Who-Is":
		devs, err := p.cl.WhoIs(&bacnet.WhoIsOpts{GlobalBroadcast: r.Intn(2) == 0})
		p.sameDevices(kind, devs, err)
	case "discovery":
		if p.nds == nil || p.maxPDU > 0 && p.maxPDU < 1476 {
			return
		}
		p.discover(r)
	case "routers", "network number":
		var got []int
		if kind == "routers" {
			out := p.cl.WhoIsRouterToNetwork()
			if out != nil {
				for _, a := range *out {
					got = append(got, int(a.Net))
				}
			}
		} else {
			for _, a := range p.cl.WhatIsNetworkNumber() {
				if a != nil {
					got = append(got, int(a.Net))
				}
			}
		}
		seen := map[int]bool{}
		for _, n := range got {
			seen[n] = true
		}
		for _, n := range p.numbers() {
			if !seen[int(n)] {
				p.bad("%s: %v, announced were %v", kind, got, p.numbers())
			}
			delete(seen, int(n))
		}
		if len(seen) > 0 {
			p.bad("%s: %v, announced to it were only %v", kind, got, p.numbers())
		}
	}
	p.mu.Lock()
	p.counts[kind]++
	p.mu.Unlock()
}

func (p *party) sameDevices(kind string, devs []btypes.Device, err error) {
	if err != nil {
		p.bad("%s: %v", kind, err)
		return
	}
	var got, want []string
	for _, d := range devs {
		got = append(got, fmt.Sprintf("%d of vendor %d", d.DeviceID, d.Vendor))
	}
	for _, d := range p.announced() {
		want = append(want, fmt.Sprintf("%d of vendor %d", d.Instance, d.Vendor))
	}
	sort.Strings(got)
	sort.Strings(want)
	if !slices.Equal(got, want) {
		p.bad("%s of party %d found %v, announced to it were %v", kind, p.k, got, want)
	}
}

func (p *party) discover(r *rand.Rand) {
	lo, hi := 1<<22, 0
	for _, d := range p.devs {
		lo, hi = min(lo, int(d.Instance)), max(hi, int(d.Instance))
	}
	if lo <= 3000000+p.k && 3000000+p.k <= hi { // the one without a network behind it
		return
	}
	out, err := p.nw.NetworkDiscover(&bacnet.WhoIsOpts{Low: lo, High: hi, GlobalBroadcast: true})
	if err != nil {
		p.bad("discovery: %v", err)
		return
	}
	if len(out) != len(p.devs) {
		p.bad("discovery: %d devices, announced were %d", len(out), len(p.devs))
	}
	for _, nd := range out {
		found := false
		for j, d := range p.devs {
			if int(d.Instance) == nd.DeviceID {
				found = true
				if nd.DeviceName != fmt.Sprintf("device %d of party %d", j, p.k) || nd.VendorName != fmt.Sprintf("vendor %d of party %d", j, p.k) {
					p.bad("discovery: device %d of party %d is called %q of %q", j, p.k, nd.DeviceName, nd.VendorName)
				}
			}
		}
		if !found {
			p.bad("discovery: device %d was not announced", nd.DeviceID)
		}
	}
}

// trouble is a party that is none of the judged ones
func (p *party) trouble(stop <-chan struct{}, r *rand.Rand) {
	stopped := func() bool {
		select {
		case <-stop:
			return true
		default:
			return false
		}
	}
	var wg sync.WaitGroup
	use := func(w *world, n int, pause int, once bool) {
		for k := 0; k < n; k++ {
			rr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for !stopped() {
					d := p.devs[rr.Intn(len(p.devs))]
					objs := []ref.Obj{{ID: ref.ObjID{Type: 19, Instance: uint32(rr.Intn(20))}, Props: []ref.Prop{{ID: 85, Index: ref.ArrayAll, Vals: []any{ref.Uint(9)}}}}}
					switch rr.Intn(12) {
					case 0:
						w.cl.WhoIs(&bacnet.WhoIsOpts{})
					case 1:
						w.cl.WhatIsNetworkNumber()
					case 2:
						w.cl.WhoIsRouterToNetwork()
					case 3:
						w.cl.Objects(libDevice(d))
					default:
						w.do(rr.Intn(4), libDevice(d), objs)
					}
					if once {
						return
					}
					time.Sleep(ms(1 + rr.Intn(pause)))
				}
			}()
		}
	}
	switch p.role {
	case "overloaded":
		use(p.world, 40, 50, false)
	case "without a network", "slow":
		use(p.world, 25, 300, false)
	case "looking for devices":
		use(p.world, 4, 50, false)
	case "flooded":
		use(p.world, 3, 200, false)
		for !stopped() {
			for k := r.Intn(40); k > 0; k-- {
				b, _ := genTraffic(r)
				if r.Intn(3) == 0 {
					d := p.devs[r.Intn(len(p.devs))]
					b = d.Route().Frame(d.IAm())
				}
				p.Inject(genEP(r), b)
			}
			time.Sleep(ms(1 + r.Intn(200)))
		}
	case "opened and closed":
		for !stopped() {
			use(p.world, 1+r.Intn(5), 1, true)
			time.Sleep(ms(r.Intn(3000)))
			p.end()
			p.open()
		}
	}
	<-stop
	p.end()
	wg.Wait()
}

func (c *C) apart(r *rand.Rand) {
	seed := r.Int63()
	var good, other []*party
	for k, n := 0, 1+r.Intn(3); k < n; k++ {
		good = append(good, newParty(k, "well", seed, r))
	}
	n := r.Intn(4)
	if len(good) == 1 {
		n = 1 + r.Intn(3)
	}
	for k := 0; k < n; k++ {
		other = append(other, newParty(len(good)+k, partyIlls[r.Intn(len(partyIlls))], seed, r))
	}
	var others, wg sync.WaitGroup
	stop := make(chan struct{})
	for _, p := range other {
		rr := rand.New(rand.NewSource(r.Int63()))
		others.Add(1)
		go func() {
			defer others.Done()
			p.trouble(stop, rr)
		}()
	}
	time.Sleep(ms(r.Intn(2000)))
	// the same instant for all, or not
	together := r.Intn(2) == 0
	round := func(steps int) {
		var kinds []string
		for k := 0; k < steps; k++ {
			kinds = append(kinds, partyOps[r.Intn(len(partyOps))])
		}
		for _, p := range good {
			rr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, kind := range kinds {
					if !together {
						kind = partyOps[rr.Intn(len(partyOps))]
						time.Sleep(ms(rr.Intn(500)))
					}
					p.act(kind, rr)
				}
			}()
		}
		wg.Wait()
	}
	round(2 + r.Intn(8))
	close(stop)
	if r.Intn(2) == 0 { // what they still had under way ends first
		others.Wait()
	}
	round(1 + r.Intn(4))
	others.Wait()
	what := ""
	for _, p := range good {
		p.end()
		what += fmt.Sprintf("party %d (buffer %d, delay %v): %v; ", p.k, p.maxPDU, p.delay, p.counts)
		for k, v := range p.counts {
			c.Count(k, v)
			c.Count("operations right", v)
		}
		for j, nd := range p.nds {
			got, err := p.nw.Store.GetDevice(fmt.Sprintf("device %d", j))
			if err != nil || got != nd {
				p.bad("the store of party %d holds %v (%v) under the id of its device %d", p.k, got, err, j)
			}
			c.Count("stored under the same id", 1)
		}
		if p.maxPDU != 0 {
			c.Count("other buffer sizes", 1)
		}
	}
	for _, p := range other {
		what += p.role + "; "
		c.Count("other client "+p.role, 1)
		if p.wrong != "" {
			p.wrong = "other client " + p.role + ": " + p.wrong
		}
	}
	c.Count("cases", 1)
	c.Count("after the others closed", 1)
	c.Eval(what)
	for _, p := range append(good, other...) {
		if p.wrong != "" {
			c.Fail("independence", "%s: party %d: %s", what, p.k, p.wrong)
			return
		}
	}
}

// realApart lets clients on sockets of their own come and go beside others
func (c *C) realApart(r *rand.Rand) {
	ip := [4]byte{127, 0, byte(10 + c.Shard), 5}
	d := sim.NewDevice(sim.EP{IP: ip, Port: 47811}, 10)
	rn := newRealNet([]*sim.Device{d}, false)
	defer rn.close()
	base := 31000 + 100*c.Shard
	var nets []*network.Network
	for k := 0; k < 2; k++ { // each in a store of its own, under the same id
		n, err := realNetwork(base+k, r.Intn(2) == 0)
		if err != nil {
			panic(fmt.Sprintf("harness: no network: %v", err))
		}
		go n.NetworkRun()
		nets = append(nets, n)
	}
	if nets[0] == nets[1] {
		c.Fail("independence", "two networks stored in two stores under one id are the same")
		return
	}
	var nds []*network.Device
	for k, n := range nets {
		nd, err := network.NewDevice(n, netDevice(d, "device"))
		if err != nil {
			panic(fmt.Sprintf("harness: no device: %v", err))
		}
		nds = append(nds, nd)
		if got, err := n.Store.GetNetwork("real"); err != nil || got != n {
			c.Fail("independence", "the store of network %d holds %p (%v) under the id of %p", k, got, err, n)
		}
	}
	for k, n := range nets {
		if got, err := n.Store.GetDevice("device"); err != nil || got != nds[k] {
			c.Fail("independence", "the store of network %d holds %p (%v) under the id of the device %p", k, got, err, nds[k])
		}
	}
	d.Set(ref.ObjID{Type: 2, Instance: 4}, sim.PropObjectName, ref.Str("the object"))
	read := func(k int) error {
		return patiently(func() error {
			name, err := nds[k].ReadPointName(&network.Point{ObjectType: 2, ObjectID: 4})
			if err == nil && name != "the object" {
				err = fmt.Errorf("the name was read as %q", name)
			}
			return err
		})
	}
	both := func(when string) {
		for k := range nets {
			if err := read(k); err != nil {
				c.Fail("independence", "network %d, %s: %v", k, when, err)
			}
		}
	}
	both("both open")
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { // others that come and go, and one that finds its port taken
		defer wg.Done()
		for k := 0; ; k++ {
			select {
			case <-stop:
				return
			default:
			}
			if x, err := bacnet.NewClient(&bacnet.ClientBuilder{Ip: "127.0.0.1", SubnetCIDR: 8, Port: base + k%3}); err == nil {
				if k%3 < 2 {
					// two on one port: what becomes of that is not judged
					c.Assume("a port could be opened twice")
					x.Close()
					continue
				}
				go x.ClientRun()
				x.Close()
			}
		}
	}()
	flood, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, byte(10+c.Shard), 6)})
	if err != nil {
		panic(fmt.Sprintf("harness: no socket: %v", err))
	}
	wg.Add(1)
	go func() { // the second network is flooded
		defer wg.Done()
		rr := rand.New(rand.NewSource(1))
		for {
			select {
			case <-stop:
				return
			default:
			}
			b, _ := genTraffic(rr)
			flood.WriteToUDP(harmless(b, func(byte) bool { return true }), &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: base + 1})
			time.Sleep(time.Millisecond)
		}
	}()
	for k := 0; k < 20; k++ {
		both("others come and go")
	}
	close(stop)
	wg.Wait()
	flood.Close()
	nets[1].NetworkClose(false)
	if err := read(0); err != nil {
		c.Fail("independence", "network 0, after network 1 was closed: %v", err)
	}
	nets[0].NetworkClose(false)
	c.Count("real sockets", 1)
	c.Eval("two networks on real sockets")
}

// subnets opens clients on several subnets and looks where each broadcasts
func (c *C) subnets(r *rand.Rand) {
	x := byte(40 + c.Shard)
	masks := []int{24, 25, 26, 27, 28}
	r.Shuffle(len(masks), func(i, j int) { masks[i], masks[j] = masks[j], masks[i] })
	n := 2 + r.Intn(3)
	socks := make([]*net.UDPConn, n)
	cls := make([]bacnet.Client, n)
	ips := make([]string, n)
	for k := range cls {
		at := net.IPv4(127, 0, x, byte(1<<(32-masks[k])-1))
		s, err := net.ListenUDP("udp4", &net.UDPAddr{IP: at, Port: 47808})
		if err != nil {
			panic(fmt.Sprintf("harness: no socket: %v", err))
		}
		defer s.Close()
		socks[k] = s
		ips[k] = fmt.Sprintf("127.0.%d.%d", x, 1+k)
		cl, err := bacnet.NewClient(&bacnet.ClientBuilder{Ip: ips[k], SubnetCIDR: masks[k], Port: 33000 + 100*c.Shard + k})
		if err != nil {
			c.Fail("independence", "no client on %s/%d beside %d others: %v", ips[k], masks[k], k, err)
			return
		}
		defer cl.Close()
		go cl.ClientRun()
		cls[k] = cl
	}
	var wg sync.WaitGroup
	for k, cl := range cls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cl.WhoIs(&bacnet.WhoIsOpts{Low: 1000 + k, High: 2000})
		}()
	}
	wg.Wait()
	for k, s := range socks {
		heard := map[int64]int{}
		s.SetReadDeadline(time.Now().Add(200 * time.Millisecond))
		buf := make([]byte, 2000)
		for {
			m, from, err := s.ReadFromUDP(buf)
			if err != nil {
				break
			}
			if lo, _, ok := parseWhoIs(buf[:m]); ok {
				heard[lo]++
				if from.Port != 33000+100*c.Shard+int(lo-1000) {
					c.Fail("independence", "the Who-Is of client %d came from port %d", lo-1000, from.Port)
				}
			}
		}
		if len(heard) != 1 || heard[int64(1000+k)] != 1 {
			c.Fail("independence", "on the subnet of client %d of %d (%s/%d) the Who-Is of these was heard: %v (1000 is client 0)", k, n, ips[k], masks[k], heard)
		}
	}
	c.Count("subnets of their own", n)
	c.Eval(fmt.Sprintf("%d clients on subnets %v", n, masks[:n]))
}
