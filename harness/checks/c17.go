package checks

import (
	"fmt"
	"math/rand"
	"net"
	"runtime"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"verif/harness/ref"
	"verif/harness/sim"
)

func init() {
	register("C17", "floods of random, malformed, mutated and valid but unasked datagrams of every size and kind from random senders, before, between and during operations of a running client, on the simulated link and on real sockets; afterwards nothing of it is left and operations return the right results", runC17)
}

// genTraffic is any datagram at all
func genTraffic(r *rand.Rand) ([]byte, string) { return genTrafficOf(r.Intn(trafficKinds), r) }

const trafficKinds = 16

func genTrafficOf(kind int, r *rand.Rand) ([]byte, string) {
	route := sim.Route{From: genEP(r), Bcast: r.Intn(3) == 0}
	if r.Intn(4) == 0 {
		o := genEP(r)
		route.Forward = &o
	}
	if r.Intn(4) == 0 {
		route.Src = genAddr(r)
	}
	if r.Intn(6) == 0 {
		route.Dst = genAddr(r)
	}
	id := byte(r.Intn(256))
	svc := []byte{5, 6, 12, 14, 15, 16, 0, 255, byte(r.Intn(256))}[r.Intn(9)]
	junk := genOctets(r, r.Intn(60))
	switch kind {
	case 0:
		n := []int{0, 1, 2, 3, 4, 5, 6, 10, 100, 1476, 1497, 2000, 4000, 65507}[r.Intn(14)]
		return genOctets(r, n), "random octets"
	case 1:
		return ref.BVLC(byte(r.Intn(256)), junk), "any link function"
	case 2:
		return ref.Cat([]byte{0x81, []byte{4, 10, 11}[r.Intn(3)]}, junk), "random after the link function"
	case 3:
		return ref.BVLC([]byte{4, 10, 11}[r.Intn(3)], []byte{1, byte(r.Intn(256))}, junk), "random network header"
	case 4:
		return route.FrameNetwork(byte(r.Intn(256)), junk), "network message"
	case 5:
		m := genMsg(r)
		return route.Frame(ref.Cat([]byte{0x30, id, svc}, m.b)), "complex acknowledgement"
	case 6:
		return route.Frame(ref.Simple(id, svc)), "simple acknowledgement"
	case 7:
		class, code := genError(r)
		return route.Frame(ref.ErrorAnswer(id, svc, class, code)), "error"
	case 8:
		return route.Frame([]byte{[]byte{0x60, 0x70, 0x71}[r.Intn(3)], id, byte(r.Intn(256))}), "reject or abort"
	case 9:
		return route.Frame(ref.Cat([]byte{byte(r.Intn(16)), 0x75, id, svc}, junk)), "confirmed request"
	case 10:
		return route.Frame(ref.Cat([]byte{0x10, byte(r.Intn(256))}, junk)), "unconfirmed service"
	case 11:
		return route.Frame(ref.IAm(ref.ObjID{Type: 8, Instance: genInstance(r)}, 1476, 3, 1)), "I-Am"
	case 12:
		return route.Frame(ref.WhoIs(-1, -1)), "Who-Is"
	case 13:
		return route.Frame(ref.Cat([]byte{byte(r.Intn(256))}, junk)), "random application message"
	case 14:
		m := genNetMsg(r)
		return m.frame, "network announcement"
	default:
		b, _ := genTraffic(r)
		return mutate(r, b), "mutated"
	}
}

// genKnown is a datagram that names the devices under use: what announces, refuses or
// describes them or their networks, and is no answer
func genKnown(r *rand.Rand, devs []*sim.Device) ([]byte, string) {
	d := devs[r.Intn(len(devs))]
	route := d.Route()
	if r.Intn(3) == 0 {
		route = sim.Route{From: d.EP}
	}
	route.Bcast = r.Intn(3) == 0
	net := d.Net
	if r.Intn(8) == 0 {
		net = genNet(r)
	}
	two := []byte{byte(net >> 8), byte(net)}
	switch r.Intn(9) {
	case 0, 1, 2, 3:
		type form struct {
			t    byte
			body []byte
		}
		f := []form{{0, two}, {0, nil}, {1, two}, {2, append(two, byte(r.Intn(256)))}, {3, ref.Cat([]byte{byte(r.Intn(7))}, two)}, {3, ref.Cat([]byte{1}, two)}, {4, two}, {4, nil}, {5, two}, {5, nil},
			{6, ref.Cat([]byte{1}, two, []byte{1, 0})}, {7, []byte{0}}, {8, append(two, 5)}, {9, two}, {18, nil}, {19, append(two, byte(r.Intn(2)))}}
		m := f[r.Intn(len(f))]
		return route.FrameNetwork(m.t, m.body), "about known networks"
	case 4, 5:
		return ref.BVLC(0, []byte{0, byte(r.Intn(7) * 16)}), "link result"
	case 6:
		apdu := []uint32{0, 50, 480, 1476, 65535}[r.Intn(5)]
		return route.Frame(ref.IAm(d.Self(), apdu, uint32(r.Intn(4)), r.Uint32()%65536)), "I-Am of known devices"
	case 7:
		o := genEP(r)
		route.Forward = &o
		return route.Frame(ref.IAm(d.Self(), 50, 3, 1)), "I-Am of known devices"
	}
	id := byte([]int{0, 255}[r.Intn(2)])
	svc := opService[r.Intn(4)]
	m := [][]byte{ref.Simple(id, svc), ref.ErrorAnswer(id, svc, 2, 32), {0x60, id, 9}, {0x71, id, 4}, {0x70, id, 0}, {0x40, id, 0, 1}}[r.Intn(6)]
	return route.Frame(m), "answers of known devices to nothing"
}

// answerID finds the invoke id of what may be taken for an answer
func answerID(b []byte) (at int, ok bool) {
	if len(b) < 4 || b[0] != 0x81 {
		return 0, false
	}
	k := 4
	if b[1] == 4 {
		k = 10
	}
	if len(b) < k+2 {
		return 0, false
	}
	n := append([]byte(nil), b[k:]...)
	n[1] &^= 0x50 // that they are reserved need not matter to a receiver
	_, rest, err := ref.ParseNPDU(n)
	if err != nil || len(rest) < 2 {
		return 0, false
	}
	switch rest[0] >> 4 {
	case 2, 3, 5, 6, 7:
		return len(b) - len(rest) + 1, true
	}
	return 0, false
}

// harmless makes a datagram one that does not answer what is under way
func harmless(b []byte, busy func(byte) bool) []byte {
	if at, ok := answerID(b); ok && busy(b[at]) {
		b = append([]byte(nil), b...)
		b[at] = []byte{0, 255}[int(b[at])%2]
	}
	return b
}

func runC17(c *C) {
	c.Need("about known networks", "link result", "I-Am of known devices", "answers of known devices to nothing", "long idle", "from the devices' own addresses", "datagrams", "during operations", "probes right", "operations during traffic", "random octets", "any link function", "random network header", "network message", "complex acknowledgement", "simple acknowledgement", "error", "reject or abort", "confirmed request", "unconfirmed service", "I-Am", "mutated", "floods", "memory measured", "other buffer sizes", "real sockets", "real datagrams", "discovery during traffic")
	const idleCase = 1 << 22
	var idle func(time.Duration, *rand.Rand)
	if c.Shard == 0 && (c.Only < 0 || c.Only == idleCase) {
		idle = c.idleClient() // grows old while the rest runs
	}
	if c.Shard == 0 {
		c.Need("real client idle for long")
	}
	c.Loop(0, c.N(2600, 60000), func(i int, r *rand.Rand) {
		seed := r.Int63()
		max := []uint16{0, 0, 0, 50, 480, 1476}[i/8%6]
		if max != 0 {
			c.Count("other buffer sizes", 1)
		}
		n := []int{5, 50, 300, 3000}[r.Intn(4)]
		c.Bubble(fmt.Sprintf("%d datagrams", n), func(t *testing.T) {
			c.flood(n, max, rand.New(rand.NewSource(seed)))
		})
	})
	c.Loop(1<<20, c.N(8, 200), func(i int, r *rand.Rand) { c.realFlood(r) })
	c.Loop(1<<21, trafficKinds, func(i int, r *rand.Rand) { c.memory(i, r) })
	c.Loop(idleCase, 1, func(i int, r *rand.Rand) {
		if idle == nil {
			idle = c.idleClient()
		}
		idle(time.Duration(c.N(130, 700))*time.Second, r)
	})
}

// probe runs all operations on well-behaved devices
func (c *C) probe(w *world, devs []*sim.Device, r *rand.Rand, many int, what string) bool {
	var wg sync.WaitGroup
	var mu sync.Mutex
	ok := true
	for k := 0; k < many; k++ {
		d := devs[r.Intn(len(devs))]
		op, o, v := k%4, ref.ObjID{Type: 2, Instance: uint32(1 + k)}, r.Uint32()
		wg.Add(1)
		go func() {
			defer wg.Done()
			if s := probeOne(func(objs []ref.Obj) (any, error) { return w.do(op, libDevice(d), objs) }, d, op, o, v); s != "" {
				c.Fail("probe", "%s: %s", what, s)
				mu.Lock()
				ok = false
				mu.Unlock()
			} else {
				c.Count("probes right", 1)
			}
		}()
	}
	wg.Wait()
	return ok
}

func probeOne(do func([]ref.Obj) (any, error), d *sim.Device, op int, o ref.ObjID, v uint32) string {
	objs := []ref.Obj{{ID: o, Props: []ref.Prop{{ID: 85, Index: ref.ArrayAll, Vals: []any{ref.Uint(v)}}}}}
	d.Set(o, 85, ref.Uint(v))
	if op >= opWrite {
		d.Set(o, 85, ref.Uint(v+1))
	}
	want := []ref.Obj{{ID: o, Props: []ref.Prop{{ID: 85, Index: ref.ArrayAll, Vals: []any{ref.Uint(v)}}}}}
	if op < opWrite {
		objs[0].Props[0].Vals = nil
	}
	got, err := do(objs)
	switch {
	case err != nil:
		return fmt.Sprintf("%s of %v failed: %v", opNames[op], o, err)
	case op < opWrite:
		if s := sameObjs(libObjsOf(got), want); s != "" {
			return fmt.Sprintf("%s of %v returned %s, the device holds %d: %s", opNames[op], o, showLib(got), v, s)
		}
	default:
		if g := d.Get(o, 85); len(g) != 1 || g[0] != ref.Uint(v) {
			return fmt.Sprintf("%s of %d to %v succeeded, but the device holds %v", opNames[op], v, o, g)
		}
	}
	return ""
}

func (c *C) flood(n int, maxPDU uint16, r *rand.Rand) {
	w := newWorld(maxPDU)
	c.idle(r)
	defer w.end()
	devs := genDevices(r, 1+r.Intn(4))
	var mu sync.Mutex
	traffic := r.Intn(2) == 0
	w.OnSend = func(p sim.Packet) {
		q, err := sim.ParseRequest(p)
		if err != nil {
			return
		}
		d := find(devs, q)
		if d == nil {
			c.Fail("request", "sent to %v: %s", p.Dest, hexs(p.Data))
			return
		}
		mu.Lock()
		if traffic {
			// all ids count as busy while operations run
			for k := r.Intn(5); k > 0; k-- {
				b, what := genTraffic(r)
				c.Count(what, 1)
				c.Count("during operations", 1)
				b = harmless(b, func(byte) bool { return true })
				w.Inject(genEP(r), b)
			}
		}
		mu.Unlock()
		rt := q.Reply()
		w.Inject(rt.From, rt.Frame(d.Serve(q)))
	}
	// all handlers have been through once
	if !c.probe(w, devs, r, 8, "before any traffic") {
		return
	}
	synctest.Wait()
	time.Sleep(time.Minute)
	synctest.Wait()
	before, _ := libGoroutines()
	c.Count("floods", 1)
	pause := []int{0, 0, 1, 50}[r.Intn(4)]
	var same []byte
	if r.Intn(6) == 0 {
		same, _ = genTraffic(r)
	}
	var last []byte
	sender := r.Intn(3)
	if sender == 1 {
		c.Count("from the devices' own addresses", n)
	}
	one := genEP(r)
	known := r.Intn(3) == 0
	traf := func(r *rand.Rand) ([]byte, string) {
		if known && r.Intn(2) == 0 {
			return genKnown(r, devs)
		}
		return genTraffic(r)
	}
	from := func(r *rand.Rand) sim.EP {
		switch sender {
		case 0:
			return one
		case 1:
			return devs[r.Intn(len(devs))].EP
		}
		return genEP(r)
	}
	for k := 0; k < n; k++ {
		b, what := traf(r)
		if same != nil {
			b = same
		}
		c.Count(what, 1)
		if k < 4 {
			c.Eval(fmt.Sprintf("%s %s", what, hexs(b)))
		}
		w.Inject(from(r), b)
		last = b
		if pause > 0 && r.Intn(pause) == 0 {
			time.Sleep(time.Millisecond)
		}
		if k%1000 == 999 {
			synctest.Wait()
		}
	}
	c.Count("datagrams", n)
	synctest.Wait()
	if p := w.Pending(); p > 0 {
		c.Fail("receive", "the client has left %d of %d datagrams; the last was %s", p, n, hexs(last))
		return
	}
	time.Sleep(time.Minute)
	synctest.Wait()
	if after, text := libGoroutines(); after > before {
		c.Fail("goroutines", "%d goroutines before %d datagrams, %d afterwards:\n%s", before, n, after, trim(text, 60))
		return
	}
	what := fmt.Sprintf("after %d datagrams", n)
	if !c.probe(w, devs, r, 4+r.Intn(20), what) {
		return
	}
	// operations with traffic between and during them
	if r.Intn(2) == 0 {
		stop := make(chan struct{})
		var wg sync.WaitGroup
		wg.Add(1)
		rr := rand.New(rand.NewSource(r.Int63()))
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				for k := rr.Intn(20); k > 0; k-- {
					b, what := traf(rr)
					c.Count(what, 1)
					c.Count("during operations", 1)
					w.Inject(from(rr), harmless(b, func(byte) bool { return true }))
				}
				time.Sleep(time.Duration(1+rr.Intn(100000)) * time.Microsecond)
			}
		}()
		c.probe(w, devs, r, 1+r.Intn(30), "during traffic")
		c.Count("operations during traffic", 1)
		if r.Intn(3) == 0 {
			start := time.Now()
			w.cl.WhoIs(&bacnet.WhoIsOpts{})
			w.cl.WhatIsNetworkNumber()
			w.cl.WhoIsRouterToNetwork()
			if t := time.Since(start); t > 90*time.Second {
				c.Fail("slow", "three discoveries took %v", t)
			}
			c.Count("discovery during traffic", 1)
		}
		close(stop)
		wg.Wait()
		c.probe(w, devs, r, 4+r.Intn(20), "after traffic during operations")
	}
}

// idleClient opens a client on a real socket. What it returns waits until the client
// has got nothing for so long, then uses it.
// feed is a data link that delivers what is put into it and sends nothing anywhere
type feed struct {
	in     chan fed
	closed chan struct{}
}

type fed struct {
	from *btypes.Address
	b    []byte
}

func (f *feed) GetMyAddress() *btypes.Address {
	return sim.EP{IP: [4]byte{10, 0, 0, 1}, Port: 47808}.Addr()
}
func (f *feed) GetBroadcastAddress() *btypes.Address {
	return sim.EP{IP: [4]byte{10, 0, 0, 255}, Port: 47808}.Addr()
}
func (f *feed) Send(b []byte, _ *btypes.NPDU, _ *btypes.Address) (int, error) { return len(b), nil }
func (f *feed) Close() error                                                  { close(f.closed); return nil }
func (f *feed) Receive(b []byte) (*btypes.Address, int, error) {
	select {
	case d := <-f.in:
		return d.from, copy(b, d.b), nil
	case <-f.closed:
		return nil, 0, net.ErrClosed
	}
}

// memory measures what a client keeps of many datagrams of one kind, each other than the others
func (c *C) memory(kind int, r *rand.Rand) {
	l := &feed{make(chan fed), make(chan struct{})}
	cl, err := bacnet.NewClient(&bacnet.ClientBuilder{DataLink: l})
	if err != nil {
		c.noClient(err)
		return
	}
	done := make(chan struct{})
	go func() { cl.ClientRun(); close(done) }()
	running, name, bytes := 0, "", 0
	heap := func(n int) (uint64, bool) {
		for k := 0; k < n; k++ {
			b, what := genTrafficOf(kind, r)
			if len(b) > 1500 {
				b = b[:1500]
			}
			name = what
			bytes += len(b)
			select {
			case l.in <- fed{genEP(r).Addr(), b}:
			case <-done:
				c.Fail("receive", "the receive loop has ended after %s", hexs(b))
				return 0, false
			}
			if k%64 == 63 || k == n-1 { // until these are dealt with
				for t := 0; runtime.NumGoroutine() > running && t < 200; t++ {
					time.Sleep(50 * time.Microsecond)
				}
			}
		}
		var m runtime.MemStats
		best := uint64(1 << 60)
		for t := 0; t < 20; t++ { // pools are emptied by the second collection
			runtime.GC()
			runtime.ReadMemStats(&m)
			if m.HeapAlloc < best {
				best = m.HeapAlloc
			} else if t > 5 {
				break
			}
			time.Sleep(time.Millisecond)
		}
		return best, true
	}
	running = runtime.NumGoroutine()
	const some, most = 4000, 20000
	if before, ok := heap(some); ok {
		if after, ok := heap(most); ok {
			if after > before+most*13 { // once more: what happens once is not left of each
				before = after
				if after, ok = heap(most); !ok {
					return
				}
			}
			if after > before+most*13 {
				c.Fail("memory", "%d octets of memory are left of %d datagrams of the kind %q", after-before, most, name)
			}
			c.Count("memory measured", most)
			c.Eval(fmt.Sprintf("memory after %d datagrams of the kind %q, %d octets", some+most, name, bytes))
		}
	}
	cl.Close()
	<-done
}

func (c *C) idleClient() func(time.Duration, *rand.Rand) {
	base := 21090 + 100*c.Shard
	ip := [4]byte{127, 0, byte(10 + c.Shard), 2}
	d := sim.NewDevice(sim.EP{IP: ip, Port: 47808}, 1)
	nw := newRealNet([]*sim.Device{d}, false)
	cl, done, err := realClient(base)
	if err != nil {
		panic(fmt.Sprintf("harness: no client: %v", err))
	}
	w := &world{cl: cl, done: done}
	use := func(r *rand.Rand, what string) bool {
		err := patiently(func() error {
			if s := probeOne(func(objs []ref.Obj) (any, error) { return w.do(opRead, libDevice(d), objs) }, d, opRead, ref.ObjID{Type: 2, Instance: 1}, r.Uint32()); s != "" {
				return fmt.Errorf("%s", s)
			}
			return nil
		})
		if err != nil {
			c.Fail("probe", "real sockets, %s: %v", what, err)
		}
		return err == nil
	}
	ok := use(rand.New(rand.NewSource(c.Seed)), "before any traffic")
	since := time.Now()
	return func(least time.Duration, r *rand.Rand) {
		defer nw.close()
		if !ok {
			return
		}
		time.Sleep(least - time.Since(since))
		age := time.Since(since)
		select {
		case <-done:
			c.Fail("receive", "the receive loop has ended within %v without any traffic", age)
			return
		default:
		}
		if use(r, fmt.Sprintf("after %v without any traffic", age)) {
			c.Count("real client idle for long", 1)
			c.Eval(fmt.Sprintf("a client on port %d idle for %d s", base, int(least.Seconds())))
		}
		w.end()
	}
}

// realFlood sends datagrams to a client on real sockets
func (c *C) realFlood(r *rand.Rand) {
	base := 21000 + 100*c.Shard
	ip := [4]byte{127, 0, byte(10 + c.Shard), 1}
	devs := []*sim.Device{sim.NewDevice(sim.EP{IP: ip, Port: 47808}, 1), sim.NewDevice(sim.EP{IP: ip, Port: 47809}, 2)}
	nw := newRealNet(devs, false)
	defer nw.close()
	cl, done, err := realClient(base)
	if err != nil {
		panic(fmt.Sprintf("harness: no client: %v", err))
	}
	probe := func(what string) bool {
		for k := 0; k < 8; k++ {
			d := devs[r.Intn(2)]
			err := patiently(func() error {
				w := &world{cl: cl}
				if s := probeOne(func(objs []ref.Obj) (any, error) { return w.do(k%4, libDevice(d), objs) }, d, k%4, ref.ObjID{Type: 2, Instance: uint32(1 + k)}, r.Uint32()); s != "" {
					return fmt.Errorf("%s", s)
				}
				return nil
			})
			if err != nil {
				c.Fail("probe", "real sockets, %s: %v", what, err)
				return false
			}
			c.Count("probes right", 1)
		}
		return true
	}
	if !probe("before any traffic") {
		return
	}
	src, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		panic(fmt.Sprintf("harness: no socket: %v", err))
	}
	defer src.Close()
	to := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: base}
	for round := 0; round < 20; round++ {
		for k := 0; k < 100; k++ {
			b, _ := genTraffic(r)
			src.WriteToUDP(b, to)
			c.Count("real datagrams", 1)
			if k%20 == 19 {
				time.Sleep(time.Millisecond)
			}
		}
		if round == 10 {
			// to a port where nobody listens: what comes back is no end of the client
			o := devs[0].EP
			o.Port = 9
			d := sim.NewDevice(o, 3)
			w := &world{cl: cl}
			w.do(opRead, libDevice(d), []ref.Obj{{ID: ref.ObjID{Type: 2, Instance: 1}, Props: []ref.Prop{{ID: 85, Index: ref.ArrayAll}}}})
		}
		if !probe(fmt.Sprintf("after %d datagrams", 100*(round+1))) {
			return
		}
	}
	c.Count("real sockets", 1)
	c.Eval(fmt.Sprintf("real sockets, %d datagrams, port %d", 2000, base))
	select {
	case <-done:
		c.Fail("receive", "the receive loop has ended before the client was closed")
	default:
	}
	cl.Close()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		c.Fail("close", "the receive loop has not ended after the client was closed")
	}
}
