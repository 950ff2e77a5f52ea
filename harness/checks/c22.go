package checks

import (
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"runtime"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/network"
	"verif/harness/ref"
	"verif/harness/sim"
)

func init() {
	register("C22", "histories of operations that succeed, are refused, cannot be sent, time out, are answered with errors or nonsense, or exceed what a client can run at once; how many operations run at once is measured before and after; then the client is closed in every way with operations pending, and goroutines, receive loops, ports and descriptors are counted", runC22)
}

// what an operation of a history meets
var fates = []string{"answered", "answered by script", "silence", "send error", "refused: invalid", "refused: too large", "refused: no size", "overload", "Who-Is", "Who-Is send error", "network number",
	"routers", "I-Am", "I-Am send error", "inventory", "inventory fails", "late answer", "duplicate answer", "no address", "network Who-Is"}

func runC22(c *C) {
	for _, f := range fates {
		c.Need("met: " + f)
	}
	c.Need("long idle", "histories", "closed with Close", "closed with ClientClose(false)", "closed with ClientClose(true)", "closed twice", "closed with operations pending", "closed when idle", "operations after close",
		"long histories", "port bound again", "client on the same port", "port in use", "real operations pending at close")
	c.Loop(0, c.N(2400, 40000), func(i int, r *rand.Rand) { c.history(i, r) })
	c.Loop(1<<20, c.N(24, 200), func(i int, r *rand.Rand) { c.realClose(i, r) })
	c.Need("operations of worn clients", "memory measured", "clients opened and closed")
	c.Loop(3<<20, c.N(6, 24), func(i int, r *rand.Rand) { c.opened(i) })
	c.Loop(1<<22, 11, func(i int, r *rand.Rand) {
		c.Bubble("memory", func(t *testing.T) { c.remains(i, r) })
	})
	c.Loop(1<<21, c.N(8, 64), func(i int, r *rand.Rand) {
		n := []int{70000, 140000, 5000, 20000, 40000, 70000, 140000, 35000}[i%8]
		c.Bubble("worn client", func(t *testing.T) { c.worn(n, r) })
	})
	c.Need("standard error is open after a close")
	c.Loop(1<<23, c.N(160, 2000), func(i int, r *rand.Rand) { c.logs(r) })
}

// logs closes one of several clients after the other: what they share with the process stays
func (c *C) logs(r *rand.Rand) {
	stderr := os.Stderr
	f := nullFile()
	os.Stderr = f
	defer func() {
		os.Stderr = stderr
		f.Close()
	}()
	c.Bubble("clients that are closed with their logs", func(t *testing.T) {
		d := sim.NewDevice(sim.EP{IP: [4]byte{10, 0, 8, 8}, Port: 47808}, 77)
		o := ref.ObjID{Type: 2, Instance: 1}
		d.Set(o, 85, ref.Uint(3))
		objs := []ref.Obj{{ID: o, Props: []ref.Prop{{ID: 85, Index: ref.ArrayAll}}}}
		var ws []*world
		for n := 1 + r.Intn(5); n > 0; n-- {
			w := newWorld(0)
			w.OnSend = func(p sim.Packet) {
				if q, err := sim.ParseRequest(p); err == nil {
					w.InjectAfter(ms(5), d.EP, q.Reply().Frame(d.Serve(q)))
				}
			}
			ws = append(ws, w)
		}
		for len(ws) > 0 {
			w := ws[0]
			ws = ws[1:]
			mode := r.Intn(4)
			pending := make(chan bool, 1)
			go func() {
				w.do(opRead, libDevice(d), objs)
				pending <- true
			}()
			time.Sleep(ms(r.Intn(10)))
			what := fmt.Sprintf("one of several clients, close mode %d", mode)
			for n := 1 + r.Intn(2); n > 0; n-- {
				if err := w.close(mode); err != nil {
					c.Fail("close error", "%s: the close failed: %v", what, err)
				}
			}
			<-w.done
			<-pending
			if _, err := f.WriteString("still open"); err != nil {
				c.Fail("standard error", "%s: the standard error of the process is closed: %v", what, err)
			}
			c.Count("standard error is open after a close", 1)
			for _, w := range ws {
				if _, err := w.do(opRead, libDevice(d), objs); err != nil {
					c.Fail("others", "%s: a read of another client failed: %v", what, err)
				}
			}
			c.Eval(fmt.Sprintf("%s, %d more", what, len(ws)))
		}
	})
}

// remains measures what memory is left of many operations of one kind
func (c *C) remains(i int, r *rand.Rand) {
	kinds := []string{"answered", "refused by the device", "not answered", "answered too late", "not sent", "refused as too large", "Who-Is", "Who-Is-Router", "What-Is-Network-Number", "inventory", "I-Am"}
	kind := kinds[i%len(kinds)]
	w := newWorld(0)
	w.Quick = true
	defer w.end()
	d := sim.NewDevice(sim.EP{IP: [4]byte{10, 0, 8, 8}, Port: 47808}, 77)
	ids := []any{d.Self()}
	d.Set(d.Self(), sim.PropObjectName, ref.Str("device"))
	d.Set(d.Self(), sim.PropDescription, ref.Str(""))
	for k := uint32(1); k < 8; k++ {
		o := ref.ObjID{Type: 2, Instance: k}
		ids = append(ids, o)
		d.Set(o, sim.PropObjectName, ref.Str(fmt.Sprint("object ", k)))
		d.Set(o, sim.PropDescription, ref.Str(""))
	}
	d.Set(d.Self(), sim.PropObjectList, ids...)
	lib := libDevice(d)
	serial := uint32(0)
	w.OnSend = func(p sim.Packet) {
		serial++
		switch kind {
		case "Who-Is":
			for k := uint32(0); k < 3; k++ {
				w.Inject(genEP(r), sim.Route{}.Frame(ref.IAm(ref.ObjID{Type: 8, Instance: (3*serial + k) % 4000000}, 1476, 3, k)))
			}
		case "Who-Is-Router", "What-Is-Network-Number":
			n := uint16(serial%60000 + 1)
			w.Inject(genEP(r), sim.Route{}.FrameNetwork(1, []byte{byte(n >> 8), byte(n)}))
			w.Inject(genEP(r), sim.Route{}.FrameNetwork(0x13, []byte{byte(n >> 8), byte(n), 1}))
		case "inventory":
			if q, err := sim.ParseRequest(p); err == nil {
				w.Inject(d.EP, q.Reply().Frame(d.Serve(q)))
			}
		case "answered", "answered too late", "refused by the device":
			q, err := sim.ParseRequest(p)
			if err != nil {
				return
			}
			op, objs, err := asked(q)
			if err != nil {
				return
			}
			for a := range objs {
				for b := range objs[a].Props {
					objs[a].Props[b].Vals = []any{ref.Uint(serial)}
				}
			}
			b := positive(q, op, objs)
			if kind == "refused by the device" {
				b = ref.ErrorAnswer(q.APDU.ID, q.APDU.Svc, 2, serial)
			}
			if kind == "answered too late" {
				w.InjectAfter(12*time.Second, d.EP, q.Reply().Frame(b))
			} else {
				w.Inject(d.EP, q.Reply().Frame(b))
			}
		}
	}
	if kind == "not sent" {
		w.Quick = false
		w.SendErr = func(sim.Packet) error { return fmt.Errorf("no route") }
	}
	if kind == "refused as too large" {
		lib.MaxApdu = 10
	}
	most, done := 8000, 0
	heap := func(n int) uint64 {
		for k := done; k < done+n; k++ {
			var err error
			switch kind {
			case "Who-Is":
				_, err = w.cl.WhoIs(&bacnet.WhoIsOpts{Low: -1, High: -1})
			case "Who-Is-Router":
				w.cl.WhoIsRouterToNetwork()
			case "What-Is-Network-Number":
				w.cl.WhatIsNetworkNumber()
			case "inventory":
				_, err = w.cl.Objects(lib)
			case "I-Am":
				err = w.cl.IAm(*w.Bcast, btypes.IAm{ID: btypes.ObjectID{Type: 8, Instance: btypes.ObjectInstance(k)}, MaxApdu: 1476, Vendor: 1})
			default:
				op := k % 4
				p := ref.Prop{ID: 85, Index: ref.ArrayAll}
				if op >= opWrite {
					p.Vals = []any{ref.Uint(k)}
				}
				_, err = w.do(op, lib, []ref.Obj{{ID: ref.ObjID{Type: 2, Instance: uint32(k)}, Props: []ref.Prop{p}}})
				if kind == "answered" && err != nil {
					c.Fail("operation", "%d alike operations, the last of which failed: %v", k, err)
					return 0
				}
				err = nil
			}
			if err != nil {
				c.Fail("operation", "%s number %d: %v", kind, k, err)
				return 0
			}
			if kind == "not sent" {
				w.Forget()
			}
			if k%8 == 7 {
				time.Sleep(20 * time.Second) // what is late arrives
			}
		}
		done += n
		synctest.Wait()
		best := uint64(1 << 60)
		var m runtime.MemStats
		for t := 0; t < 20; t++ {
			runtime.GC()
			runtime.ReadMemStats(&m)
			if m.HeapAlloc < best {
				best = m.HeapAlloc
			} else if t > 5 {
				break
			}
			time.Sleep(time.Second)
		}
		return best
	}
	before := heap(most / 4)
	after := heap(most)
	if after > before+uint64(40000+4*most) { // once more: what happens once is not left of each
		before = after
		after = heap(most)
	}
	if after > before+uint64(40000+4*most) {
		c.Fail("memory", "%d octets of memory are left of %d operations (%s)", after-before, most, kind)
	}
	c.Count("memory measured", most)
	c.Eval(fmt.Sprintf("memory after %d operations (%s)", most, kind))
}

// opened measures what memory is left of many clients that were opened and closed
func (c *C) opened(i int) {
	kind := []string{"client", "network", "network in a store", "network that asked who is there", "client with operations pending", "network in use"}[i%6]
	port := 23050 + 100*c.Shard
	silent := libDevice(sim.NewDevice(sim.EP{IP: [4]byte{127, 0, byte(10 + c.Shard), 1}, Port: 47809}, 2))
	var wg sync.WaitGroup
	do := func(f func()) {
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}
	heap := func(n int) uint64 {
		for k := 0; k < n; k++ {
			if kind == "client" || kind == "client with operations pending" {
				cl, done, err := realClient(port)
				if err != nil {
					c.Fail("port", "no client on the port of the last %d: %v", k, err)
					return 0
				}
				if kind != "client" {
					w := &world{cl: cl}
					do(func() {
						w.do(opRead, silent, []ref.Obj{{ID: ref.ObjID{Type: 2, Instance: 1}, Props: []ref.Prop{{ID: 85, Index: ref.ArrayAll}}}})
					})
					do(func() { cl.WhoIs(&bacnet.WhoIsOpts{Low: k, High: k + 1}) })
					runtime.Gosched()
				}
				cl.Close()
				<-done
				continue
			}
			n, err := realNetwork(port, kind == "network in a store")
			if err != nil {
				c.Fail("port", "no network on the port of the last %d: %v", k, err)
				return 0
			}
			switch kind {
			case "network that asked who is there":
				do(func() { n.Whois(&bacnet.WhoIsOpts{Low: k, High: k + 1}) })
				runtime.Gosched()
			case "network in use":
				do(n.NetworkRun)
			}
			if err := n.NetworkClose(false); err != nil {
				c.Fail("close", "network number %d: %v", k, err)
				return 0
			}
		}
		wg.Wait()
		best := uint64(1 << 60)
		var m runtime.MemStats
		for t := 0; t < 20; t++ {
			runtime.GC()
			runtime.ReadMemStats(&m)
			if m.HeapAlloc < best {
				best = m.HeapAlloc
			} else if t > 5 {
				break
			}
			time.Sleep(ms(20))
		}
		return best
	}
	most := 500
	before := heap(most / 4)
	after := heap(most)
	if after > before+uint64(50000+300*most) {
		before = after
		after = heap(most)
	}
	if after > before+uint64(50000+300*most) {
		c.Fail("memory", "%d octets of memory are left of %d clients that were opened and closed (%s)", after-before, most, kind)
	}
	c.Count("clients opened and closed", most)
	c.Eval(fmt.Sprintf("memory after %d clients (%s)", most, kind))
}

// capacity is how many operations the client has under way at once; all are answered in the end
func (c *C) capacity(w *world, what string) int {
	d := sim.NewDevice(sim.EP{IP: [4]byte{10, 0, 8, 8}, Port: 47808}, 77)
	var mu sync.Mutex
	held := map[byte]*sim.Request{}
	var most int
	open := false
	w.OnSend = func(p sim.Packet) {
		q, err := sim.ParseRequest(p)
		if err != nil {
			return
		}
		mu.Lock()
		defer mu.Unlock()
		if open {
			w.Inject(d.EP, q.Reply().Frame(d.Serve(q)))
			return
		}
		held[q.APDU.ID] = q
		most = max(most, len(held))
	}
	var wg sync.WaitGroup
	n := 40
	for k := 0; k < n; k++ {
		o := ref.ObjID{Type: 2, Instance: uint32(k)}
		v := ref.Uint(1000 + k)
		d.Set(o, 85, v)
		wg.Add(1)
		go func() {
			defer wg.Done()
			objs := []ref.Obj{{ID: o, Props: []ref.Prop{{ID: 85, Index: ref.ArrayAll}}}}
			got, err := w.do(k%2, libDevice(d), objs)
			objs[0].Props[0].Vals = []any{v}
			if err != nil {
				c.Fail("operation", "%s: one of %d reads at once failed: %v", what, n, err)
			} else if s := sameObjs(got, objs); s != "" {
				c.Fail("operation", "%s: one of %d reads at once: %s", what, n, s)
			}
		}()
	}
	time.Sleep(ms(600))
	mu.Lock()
	open = true
	for _, q := range held {
		w.Inject(d.EP, q.Reply().Frame(d.Serve(q)))
	}
	mu.Unlock()
	wg.Wait()
	w.OnSend = nil
	return most
}

func (c *C) history(i int, r *rand.Rand) {
	long := i%16 == 3
	ops := 1 + r.Intn(60)
	if long {
		ops = 300 + r.Intn(300)
	}
	mode := r.Intn(4)
	pending := r.Intn(3)
	seed := r.Int63()
	what := fmt.Sprintf("history of %d operations", ops)
	stderr := os.Stderr
	var f *os.File
	if mode >= 2 { // the log output is what the client may close
		f = nullFile()
		os.Stderr = f
		defer f.Close()
	}
	c.Bubble(what, func(t *testing.T) {
		w := newWorld(0)
		os.Stderr = stderr
		rr := rand.New(rand.NewSource(seed))
		closed := false
		defer func() {
			if !closed {
				w.end()
			}
		}()
		before := c.capacity(w, what+", before it")
		var g [3]int
		for k := range g {
			n := ops
			if k > 0 {
				n = min(n, 60)
			}
			c.live(w, n, rr, what)
			time.Sleep(time.Minute)
			c.idle(rr)
			g[k], _ = libGoroutines()
		}
		if g[2] > g[1] && g[1] > g[0] {
			_, text := libGoroutines()
			c.Fail("goroutines", "%s: %d, %d and then %d goroutines of the client remain:\n%s", what, g[0], g[1], g[2], trim(text, 60))
			return
		}
		if after := c.capacity(w, what+", after it"); after < before {
			c.Fail("capacity", "%s: %d operations could run at once before and %d after", what, before, after)
			return
		}
		c.Count("histories", 1)
		if long {
			c.Count("long histories", 1)
		}
		c.Eval(fmt.Sprintf("%s, seed %d, close mode %d, %d pending", what, seed, mode, pending))
		closed = true
		c.closing(w, mode, pending, rr, what)
	})
}

// worn compares what a client can do at once before and after very many operations
func (c *C) worn(n int, r *rand.Rand) {
	what := fmt.Sprintf("%d operations of one client", n)
	w := newWorld(0)
	before := c.capacity(w, what+", before them")
	time.Sleep(time.Minute)
	g, _ := libGoroutines()
	devs := genDevices(r, 3)
	bad := r.Intn(3) // one of how many fails
	w.OnSend = func(p sim.Packet) {
		q, err := sim.ParseRequest(p)
		if err != nil {
			return
		}
		d := find(devs, q)
		if d == nil {
			return
		}
		w.Inject(d.EP, q.Reply().Frame(d.Serve(q)))
	}
	w.SendErr = func(p sim.Packet) error {
		if q, err := sim.ParseRequest(p); err == nil {
			if _, objs, err := asked(q); err == nil && len(objs) > 0 && objs[0].ID.Instance == 999 {
				return errors.New("no route to host")
			}
		}
		return nil
	}
	for _, d := range devs {
		d.Set(ref.ObjID{Type: 2, Instance: 1}, 85, ref.Uint(5))
	}
	var wg sync.WaitGroup
	width := []int{1, 4, 15, 40}[r.Intn(4)]
	for k := 0; k < width; k++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < n/width; j++ {
				d := devs[rr.Intn(len(devs))]
				op := rr.Intn(4)
				objs := []ref.Obj{{ID: ref.ObjID{Type: 2, Instance: 1}, Props: []ref.Prop{{ID: 85, Index: ref.ArrayAll}}}}
				if op >= opWrite {
					objs[0].Props[0].Vals = []any{ref.Uint(5)}
				}
				fine := bad == 0 || rr.Intn(bad*4) > 0
				if !fine {
					objs[0].ID.Instance = []uint32{999, 2}[rr.Intn(2)] // cannot be sent, not known
				}
				got, err := w.do(op, libDevice(d), objs)
				if fine && err != nil {
					c.Fail("operation", "%s: one failed: %v", what, err)
					return
				}
				if fine && op < opWrite {
					objs[0].Props[0].Vals = []any{ref.Uint(5)}
					if s := sameObjs(got, objs); s != "" {
						c.Fail("operation", "%s: %s", what, s)
						return
					}
				}
			}
		}()
	}
	wg.Wait()
	w.SendErr = nil
	time.Sleep(time.Minute)
	if now, text := libGoroutines(); now > g {
		c.Fail("goroutines", "%s: %d goroutines of the client before, %d after:\n%s", what, g, now, trim(text, 60))
	}
	if after := c.capacity(w, what+", after them"); after < before {
		c.Fail("capacity", "%s: %d could run at once before and %d after", what, before, after)
	}
	w.end()
	c.Count("operations of worn clients", n)
	c.Eval(fmt.Sprintf("%s, %d at once, one of %d fails", what, width, bad*4))
}

// live runs a history
func (c *C) live(w *world, n int, r *rand.Rand, what string) {
	devs := genDevices(r, 4)
	var mu sync.Mutex
	scripts := map[uint32]*script{} // by the first instance
	late := map[uint32]string{}
	w.OnSend = func(p sim.Packet) {
		q, err := sim.ParseRequest(p)
		if err != nil {
			if lo, _, ok := parseWhoIs(p.Data); ok && lo != 0 {
				for _, d := range devs {
					w.InjectAfter(ms(10), d.EP, d.Route().Frame(d.IAm()))
				}
			}
			return
		}
		mu.Lock()
		defer mu.Unlock()
		_, objs, err := asked(q)
		d := find(devs, q)
		if err != nil || d == nil || len(objs) == 0 {
			return
		}
		in := objs[0].ID.Instance
		if s := scripts[in]; s != nil {
			if s.tried < 2 {
				for k := range s.per[s.tried] {
					a := s.per[s.tried][k]
					if b := c.arrival(r, q, s, &a); b != nil {
						w.InjectAfter(a.after, genEP(r), b)
					}
				}
			}
			s.tried++
			return
		}
		ok := q.Reply().Frame(d.Serve(q))
		switch late[in] {
		case "silence":
		case "late answer":
			w.InjectAfter(ms(4990+r.Intn(20)), d.EP, ok)
		case "duplicate answer":
			for k := 0; k < 3; k++ {
				w.InjectAfter(ms(r.Intn(5)), d.EP, ok)
			}
		default:
			w.InjectAfter(ms(r.Intn(5)), d.EP, ok)
		}
	}
	fail := map[uint32]bool{}
	var discovery bool
	nw, ok := simNetwork(w.cl) // looks for devices as a network and as a device of it
	var nd *network.Device
	if ok {
		nd, _ = network.NewDevice(nw, &network.Device{Ip: "10.200.0.1", DeviceID: 77777, StoreID: "any"})
	} else {
		c.Assume("the client of a network could not be replaced: no network-level Who-Is in the histories")
	}
	w.SendErr = func(p sim.Packet) error {
		mu.Lock()
		defer mu.Unlock()
		q, err := sim.ParseRequest(p)
		if err != nil {
			if discovery {
				return errors.New("no route to host")
			}
			return nil
		}
		if _, objs, err := asked(q); err == nil && len(objs) > 0 && fail[objs[0].ID.Instance] {
			return errors.New("no route to host")
		}
		return nil
	}
	var wg sync.WaitGroup
	width := 1 + r.Intn(15)
	busy := make(chan struct{}, width)
	one := func(k int, f func()) {
		busy <- struct{}{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-busy }()
			c.Guard("operation", what, f)
		}()
	}
	only := -1 // a history of one kind shows what leaks a little
	if r.Intn(2) == 0 {
		only = r.Intn(len(fates))
	}
	for k := 0; k < n; k++ {
		fate := fates[r.Intn(len(fates))]
		if only >= 0 {
			fate = fates[only]
		}
		c.Count("met: "+fate, 1)
		in := uint32(1000 + k)
		d := devs[r.Intn(len(devs))]
		op := r.Intn(4)
		o := ref.ObjID{Type: 2, Instance: in}
		objs := []ref.Obj{{ID: o, Props: []ref.Prop{{ID: 85, Index: ref.ArrayAll}}}}
		if op >= opWrite {
			objs[0].Props[0].Vals = []any{ref.Uint(k)}
		}
		d.Set(o, 85, ref.Uint(k))
		dev := libDevice(d)
		mu.Lock()
		switch fate {
		case "answered by script":
			s := genScript(r, []*sim.Device{d}, in)
			scripts[in] = s
			op, objs = s.op, s.objs
		case "silence", "late answer", "duplicate answer":
			late[in] = fate
		case "send error":
			fail[in] = true
		}
		mu.Unlock()
		switch fate {
		case "refused: invalid":
			lo := libObject(objs[0])
			spoil(r, &lo)
			one(k, func() {
				switch op {
				case opRead:
					w.cl.ReadProperty(dev, btypes.PropertyData{Object: lo})
				case opReadMulti:
					w.cl.ReadMultiProperty(dev, btypes.MultiplePropertyData{Objects: []btypes.Object{lo}})
				case opWrite:
					w.cl.WriteProperty(dev, btypes.PropertyData{Object: lo})
				default:
					w.cl.WriteMultiProperty(dev, btypes.MultiplePropertyData{Objects: []btypes.Object{lo}})
				}
			})
		case "refused: too large":
			dev.MaxApdu = 5
			one(k, func() { w.do([]int{opReadMulti, opWriteMulti}[op%2], dev, objs) })
		case "refused: no size":
			dev.MaxApdu = 0
			one(k, func() { w.do(op, dev, objs) })
		case "no address":
			dev.Addr = btypes.Address{}
			one(k, func() { w.do(op, dev, objs) })
		case "overload":
			mu.Lock()
			late[in] = "silence"
			mu.Unlock()
			for j := 0; j < 30; j++ { // more than can run at once, and the device is slow
				wg.Add(1)
				go func() {
					defer wg.Done()
					w.do(j%4, dev, objs)
				}()
			}
			time.Sleep(ms(r.Intn(2000)))
		case "Who-Is":
			one(k, func() { w.cl.WhoIs(&bacnet.WhoIsOpts{Low: r.Intn(3), High: r.Intn(50)}) })
		case "network Who-Is":
			o := &bacnet.WhoIsOpts{Low: 1 + r.Intn(3), High: r.Intn(50)}
			kind := r.Intn(4)
			if nd == nil {
				continue
			}
			one(k, func() {
				switch kind {
				case 0:
					nw.Whois(o)
				case 1:
					nd.Whois(o)
				case 2:
					nw.NetworkDiscover(o)
				case 3:
					nd.DeviceDiscover(o)
				}
			})
		case "network number":
			one(k, func() { w.cl.WhatIsNetworkNumber() })
		case "routers":
			one(k, func() { w.cl.WhoIsRouterToNetwork() })
		case "I-Am":
			one(k, func() { w.cl.IAm(*w.Bcast, btypes.IAm{ID: dev.ID, MaxApdu: 1476, Vendor: 1}) })
		case "Who-Is send error", "I-Am send error":
			mu.Lock()
			discovery = true
			mu.Unlock()
			if fate == "I-Am send error" {
				w.cl.IAm(*w.Bcast, btypes.IAm{ID: dev.ID, MaxApdu: 1476, Vendor: 1})
			} else {
				w.cl.WhoIs(&bacnet.WhoIsOpts{Low: 1, High: 50})
			}
			mu.Lock()
			discovery = false
			mu.Unlock()
		case "inventory", "inventory fails":
			d.Set(d.Self(), sim.PropObjectList, o)
			if fate == "inventory" {
				d.Set(o, sim.PropObjectName, ref.Str("x"))
				d.Set(o, sim.PropDescription, ref.Str("y"))
			}
			one(k, func() { w.cl.Objects(dev) })
		default:
			one(k, func() { w.do(op, dev, objs) })
		}
		if r.Intn(10) == 0 {
			b, _ := genTraffic(r)
			w.Inject(genEP(r), b)
		}
	}
	wg.Wait()
	time.Sleep(20 * time.Second)
	w.OnSend, w.SendErr = nil, nil
}

func (w *world) close(mode int) error {
	switch mode {
	case 0:
		return w.cl.Close()
	case 1:
		return w.cl.ClientClose(false)
	default:
		return w.cl.ClientClose(true)
	}
}

func (c *C) countClose(mode int) {
	switch mode {
	case 0:
		c.Count("closed with Close", 1)
	case 1:
		c.Count("closed with ClientClose(false)", 1)
	default:
		c.Count("closed with ClientClose(true)", 1)
	}
}

// closing closes the client with operations pending and waits until nothing of it is left
func (c *C) closing(w *world, mode, pending int, r *rand.Rand, what string) {
	d := sim.NewDevice(sim.EP{IP: [4]byte{10, 0, 8, 8}, Port: 47808}, 77)
	o := ref.ObjID{Type: 2, Instance: 1}
	d.Set(o, 85, ref.Uint(3))
	var wg sync.WaitGroup
	run := func(f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			start := time.Now()
			c.Guard("pending", what, f)
			if t := time.Since(start); t > 60*time.Second {
				c.Fail("pending", "%s: an operation pending at the close took %v", what, t)
			}
		}()
	}
	every := func(n int) {
		for k := 0; k < n; k++ {
			objs := []ref.Obj{{ID: o, Props: []ref.Prop{{ID: 85, Index: ref.ArrayAll}}}}
			if k%4 >= opWrite {
				objs[0].Props[0].Vals = []any{ref.Uint(4)}
			}
			run(func() { w.do(k%4, libDevice(d), objs) })
			switch k % 5 {
			case 0:
				run(func() { w.cl.WhoIs(&bacnet.WhoIsOpts{}) })
			case 1:
				run(func() { w.cl.WhatIsNetworkNumber() })
			case 2:
				run(func() { w.cl.WhoIsRouterToNetwork() })
			case 3:
				run(func() { w.cl.Objects(libDevice(d)) })
			}
		}
	}
	if pending > 0 {
		every([]int{0, 5, 30}[pending])
		for k := r.Intn(50); k > 0; k-- { // and messages waiting to be received
			b, _ := genTraffic(r)
			w.Inject(genEP(r), b)
		}
		time.Sleep(ms(r.Intn(3000)))
		c.Count("closed with operations pending", 1)
	} else {
		c.Count("closed when idle", 1)
	}
	if !c.Guard("close", what, func() { w.close(mode) }) {
		return
	}
	c.countClose(mode)
	time.Sleep(time.Second)
	select {
	case <-w.done:
	default:
		c.Fail("loop", "%s: the receive loop goes on after the close", what)
		return
	}
	if n, _ := w.Closes(); n == 0 {
		c.Fail("link", "%s: the link is still open after the close", what)
		return
	}
	if r.Intn(2) == 0 {
		c.Guard("close", what, func() { w.close(r.Intn(2)) })
		c.Count("closed twice", 1)
	}
	if r.Intn(2) == 0 { // operations on a closed client
		every(1 + r.Intn(5))
		c.Count("operations after close", 1)
	}
	wg.Wait()
	time.Sleep(2 * time.Minute)
	if n, text := libGoroutines(); n > 0 {
		c.Fail("remains", "%s: %d goroutines remain two minutes after the close:\n%s", what, n, trim(text, 60))
	}
}

func nullFile() *os.File {
	f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	return f
}

func openFiles() int {
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(l)
}

// realClose opens and closes clients on UDP
func (c *C) realClose(i int, r *rand.Rand) {
	port := 23000 + 100*c.Shard
	ip := [4]byte{127, 0, byte(10 + c.Shard), 1}
	d := sim.NewDevice(sim.EP{IP: ip, Port: 47808}, 1)
	silent := sim.NewDevice(sim.EP{IP: ip, Port: 47809}, 2)
	o := ref.ObjID{Type: 2, Instance: 1}
	d.Set(o, 85, ref.Uint(3))
	objs := []ref.Obj{{ID: o, Props: []ref.Prop{{ID: 85, Index: ref.ArrayAll}}}}
	nw := newRealNet([]*sim.Device{d}, false)
	defer nw.close()
	files := openFiles()
	for round := 0; round < 6; round++ {
		mode := r.Intn(3)
		stderr := os.Stderr
		var f *os.File
		if mode == 2 {
			f = nullFile()
			os.Stderr = f
		}
		cl, done, err := realClient(port)
		os.Stderr = stderr
		if err != nil {
			c.Fail("port", "round %d: no client on the port of the last: %v", round, err)
			return
		}
		if round > 0 {
			c.Count("client on the same port", 1)
		}
		w := &world{cl: cl, done: done}
		if err := patiently(func() error { _, err := w.do(opRead, libDevice(d), objs); return err }); err != nil {
			c.Fail("operation", "round %d: a read over UDP failed: %v", round, err)
			return
		}
		if r.Intn(2) == 0 {
			if _, _, err := realClient(port); err == nil {
				c.Fail("in use", "a second client could be opened on the port")
				return
			}
			c.Count("port in use", 1)
		}
		var wg sync.WaitGroup
		if round == 0 && i%3 == 0 { // operations that nobody answers
			for k := 0; k < 4; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					w.do(opRead, libDevice(silent), objs)
				}()
			}
			time.Sleep(ms(20))
			c.Count("real operations pending at close", 1)
		}
		w.close(mode)
		c.countClose(mode)
		// at once
		s, err := net.ListenUDP("udp4", &net.UDPAddr{Port: port})
		if err != nil {
			c.Fail("port", "round %d: the port cannot be bound again after the close: %v", round, err)
			return
		}
		s.Close()
		c.Count("port bound again", 1)
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			c.Fail("loop", "round %d: the receive loop goes on after the close", round)
			return
		}
		wg.Wait()
		if f != nil {
			f.Close()
		}
		c.Eval(fmt.Sprintf("case %d round %d of open, use, close (mode %d)", i, round, mode))
	}
	var n, left int
	var text string
	for k := 0; k < 100; k++ { // finished goroutines take a moment to be gone
		n = openFiles()
		if left, text = libGoroutines(); left == 0 && n <= files {
			break
		}
		time.Sleep(ms(50))
	}
	if n > files {
		c.Fail("descriptors", "%d files were open before the clients, %d are after them", files, n)
	}
	if left > 0 {
		c.Fail("remains", "%d goroutines remain:\n%s", left, trim(text, 60))
	}
}
