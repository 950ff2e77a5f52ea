package checks

import (
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/network"
	"verif/harness/ref"
	"verif/harness/sim"
)

func init() {
	register("C32", "clients that are idle, at work, being closed and closed, while requests, announcements, link and network control messages, segments, late and repeated answers and garbage arrive; each datagram that leaves is matched to an operation under way that asks for it, and counted; also on real sockets, whose peers must hear nothing", runC32)
}

// deed is an operation of which it is known what it may transmit
type deed struct {
	kind   string
	key    string // what its requests name
	reads  bool
	writes bool
	most   int
	refuse bool
	sent   int
	over   bool
}

// witness sees all that a client transmits
type witness struct {
	mu      sync.Mutex
	deeds   map[string]*deed
	nets    map[string][]*deed // questions for networks, which name nothing
	wrong   string
	looking int  // discoveries under way
	free    bool // whatever is sent, it is only counted
	seen    int
	silent  bool // everything is over
}

func newWitness() *witness { return &witness{deeds: map[string]*deed{}, nets: map[string][]*deed{}} }

func (t *witness) bad(f string, a ...any) {
	if t.wrong == "" {
		t.wrong = fmt.Sprintf(f, a...)
	}
}

func (t *witness) begin(d *deed) *deed {
	t.mu.Lock()
	defer t.mu.Unlock()
	if d.key == "routers" || d.key == "number" {
		t.nets[d.key] = append(t.nets[d.key], d)
	} else {
		t.deeds[d.key] = d
	}
	return d
}

func (t *witness) end(d *deed) {
	t.mu.Lock()
	defer t.mu.Unlock()
	d.over = true
}

func (t *witness) look(n int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.looking += n
}

// saw judges one datagram
func (t *witness) saw(p sim.Packet) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.seen++
	if t.silent {
		t.bad("transmitted after all was over: %s to %v", hexs(p.Data), p.Dest.Mac)
		return
	}
	if t.free {
		return
	}
	key, read, ok := named(p)
	if !ok {
		t.bad("transmitted to %v, asked for by no operation: %s", p.Dest.Mac, hexs(p.Data))
		return
	}
	if key == "routers" || key == "number" {
		under, may := 0, 0
		for _, d := range t.nets[key] {
			may += d.most
			if !d.over {
				under++
			}
			d.sent++
		}
		if l := t.nets[key]; under == 0 {
			t.bad("a question for %s was transmitted although no operation that asks for it was under way", key)
		} else if l[0].sent > may {
			t.bad("%d questions for %s were transmitted for %d operations", l[0].sent, key, len(l))
		}
		return
	}
	d := t.deeds[key]
	if t.looking > 0 && strings.HasPrefix(key, "device at") && read {
		return // devices that are announced to a discovery are asked what they are
	}
	switch {
	case d == nil:
		t.bad("transmitted to %v, asked for by no operation (%s): %s", p.Dest.Mac, key, hexs(p.Data))
		return
	case d.over:
		t.bad("transmitted after %s (%s) had returned: %s", d.kind, key, hexs(p.Data))
	case d.refuse:
		t.bad("transmitted for %s (%s), which is to be refused: %s", d.kind, key, hexs(p.Data))
	case read && !d.reads, !read && !d.writes:
		t.bad("%s (%s) transmitted a request of another kind: %s", d.kind, key, hexs(p.Data))
	}
	if d.sent++; d.sent > d.most {
		t.bad("%s (%s) transmitted %d datagrams, at most %d are asked for: %s", d.kind, key, d.sent, d.most, hexs(p.Data))
	}
}

// named says what a datagram names
func named(p sim.Packet) (key string, read, ok bool) {
	if lo, hi, ok := parseWhoIs(p.Data); ok {
		return fmt.Sprintf("Who-Is %d %d", lo, hi), true, true
	}
	_, rest, err := ref.ParseBVLC(p.Data)
	if err != nil {
		return
	}
	h, rest, err := ref.ParseNPDU(rest)
	if err != nil {
		return
	}
	if h.Network {
		switch {
		case h.Type == 0 && len(rest) == 0:
			return "routers", true, true
		case h.Type == 0x12 && len(rest) == 0:
			return "number", true, true
		}
		return
	}
	if len(rest) >= 7 && rest[0] == 0x10 && rest[1] == 0 { // I-Am
		id := uint32(rest[3])<<24 | uint32(rest[4])<<16 | uint32(rest[5])<<8 | uint32(rest[6])
		return fmt.Sprintf("I-Am %d", id&(1<<22-1)), false, true
	}
	q := &sim.Request{Packet: p, NPDU: h} // how it is framed is not judged here
	q.To, _ = sim.EPOf(p.Dest.Mac)
	if q.APDU, err = ref.ParseAPDU(rest); err != nil || q.APDU.Type != ref.Confirmed {
		return
	}
	op, objs, err := asked(q)
	if err != nil || len(objs) == 0 {
		return
	}
	who := ""
	if objs[0].ID.Type == 8 || objs[0].ID.Type == 2 { // of an inventory or a discovery
		who = fmt.Sprintf(" at %s %d", q.To, q.To.Port)
		return "device" + who, op == opRead || op == opReadMulti, true
	}
	return fmt.Sprintf("object %d %d", objs[0].ID.Type, objs[0].ID.Instance), op == opRead || op == opReadMulti, true
}

// provocation is what others answer
func provocation(r *rand.Rand, devs []*sim.Device, own uint32) ([]byte, string) {
	d := devs[r.Intn(len(devs))]
	route := d.Route()
	switch r.Intn(4) {
	case 0:
		route.Bcast = true
	case 1:
		o := genEP(r)
		route.Forward = &o
	}
	if r.Intn(4) == 0 {
		route.Dst = &ref.Addr{Net: []uint16{65535, 1, 5}[r.Intn(3)]}
	}
	id := byte(r.Intn(256))
	two := []byte{byte(r.Intn(256)), byte(r.Intn(256))}
	self := []byte{0xc4, 2, byte(own >> 16), byte(own >> 8), byte(own)}
	ctx := []byte{0x0c, 2, byte(own >> 16), byte(own >> 8), byte(own)}
	confirmed := func(svc byte, body ...[]byte) []byte {
		first := []byte{0x00, 0x02, 0x08, 0x0c, 0x0e}[r.Intn(5)]
		h := []byte{first, byte(r.Intn(256)), id, svc}
		if first&8 != 0 {
			h = []byte{first, 0x75, id, byte(r.Intn(4)), 4, svc}
		}
		return route.Frame(append(h, ref.Cat(body...)...))
	}
	switch r.Intn(16) {
	case 0, 1:
		lim := [][2]int64{{-1, -1}, {0, 4194303}, {int64(own), int64(own)}, {int64(d.Instance), int64(d.Instance)}}[r.Intn(4)]
		return route.Frame(ref.WhoIs(lim[0], lim[1])), "Who-Is"
	case 2: // Who-Has, by id and by name
		return route.Frame(ref.Cat([]byte{0x10, 7}, [][]byte{{0x2c, 2, byte(own >> 16), byte(own >> 8), byte(own)}, {0x3d, 5, 0, 'n', 'a', 'm', 'e'}}[r.Intn(2)])), "Who-Has"
	case 3: // I-Have, I-Am, time synchronization, text and event notifications
		svc := []byte{1, 2, 3, 5, 6, 9}[r.Intn(6)]
		return route.Frame(ref.Cat([]byte{0x10, svc}, self, self, []byte{0x75, 5, 0, 'n', 'a', 'm', 'e'})), "notification"
	case 4:
		return route.Frame(ref.IAm(ref.ObjID{Type: 8, Instance: []uint32{own, d.Instance, genInstance(r)}[r.Intn(3)]}, 1476, uint32(r.Intn(4)), 1)), "I-Am"
	case 5:
		return confirmed(12, ctx, []byte{0x19, 76}), "confirmed request"
	case 6:
		return confirmed(14, ctx, []byte{0x1e, 0x09, 8, 0x1f}), "confirmed request"
	case 7:
		return confirmed(15, ctx, []byte{0x19, 77, 0x3e, 0x75, 2, 0, 'x', 0x3f}), "confirmed request"
	case 8: // change of value, event, device control, restart, subscription, text
		return confirmed([]byte{1, 2, 5, 17, 20, 19, 0, 28}[r.Intn(8)], ctx, ctx), "confirmed request"
	case 9: // a segment of an answer
		return route.Frame(append([]byte{[]byte{0x38, 0x3c}[r.Intn(2)], id, byte(r.Intn(3)), byte(1 + r.Intn(10)), 12}, ctx...)), "segment"
	case 10:
		return route.Frame([]byte{0x40 | byte(r.Intn(4)), id, byte(r.Intn(4)), byte(1 + r.Intn(10))}), "segment acknowledgement"
	case 11: // link control
		return [][]byte{ref.BVLC(0, []byte{0, byte(r.Intn(7) * 16)}), ref.BVLC(2), ref.BVLC(6), ref.BVLC(5, []byte{0, 60}), ref.BVLC(8, d.EP.Mac()), ref.BVLC(1), ref.BVLC(3), ref.BVLC(7),
			ref.BVLC(9, []byte{1, 0, 0x10, 8}), ref.BVLC(9, []byte{1, 0x20, 255, 255, 0, 255, 0x10, 8}), ref.BVLC(12, []byte{1, 0, 0x10, 8})}[r.Intn(11)], "link control"
	case 12, 13: // network control
		m := []struct {
			t byte
			b []byte
		}{{0, nil}, {0, two}, {1, two}, {2, append(two, 5)}, {3, append([]byte{1}, two...)}, {4, two}, {5, two}, {6, []byte{0}}, {7, []byte{0}}, {8, append(two, 9)}, {9, two}, {0x12, nil}, {0x13, append(two, 1)}}[r.Intn(13)]
		return route.FrameNetwork(m.t, m.b), "network control"
	case 14:
		return genKnown(r, devs)
	}
	b, _ := genTraffic(r)
	return b, "garbage"
}

func runC32(c *C) {
	c.Need("opened and closed unused", "idle for hours", "operations", "datagrams matched", "refused without a datagram", "repeated answers", "late answers", "failing links", "closed while at work", "real sockets", "datagrams of peers",
		"Who-Is", "Who-Has", "notification", "I-Am", "confirmed request", "segment", "segment acknowledgement", "link control", "network control", "garbage", "inventory", "discovery", "network questions", "announcement", "device operations", "devices kept account of", "refused: ReadMultiProperty", "refused: WriteMultiProperty", "refused: WriteProperty")
	c.Loop(0, c.N(3600, 60000), func(i int, r *rand.Rand) {
		seed := r.Int63()
		c.Bubble("what a client transmits", func(t *testing.T) { c.transmitted(rand.New(rand.NewSource(seed))) })
	})
	c.Loop(1<<20, c.N(8, 100), func(i int, r *rand.Rand) { c.realSilence(r) })
}

func (c *C) transmitted(r *rand.Rand) {
	t := newWitness()
	w := &world{Link: sim.NewLink()}
	w.Patience = 1000
	devs := genNetDevices(r, 1+r.Intn(3))
	for _, d := range devs {
		newMixDevice(d)
	}
	own := uint32(1 + r.Intn(4000000))
	var mu sync.Mutex
	answered := map[string]int{}
	count := func(s string, n int) {
		mu.Lock()
		answered[s] += n
		mu.Unlock()
	}
	failing := r.Intn(10) == 0
	lose := r.Intn(4)
	rr := rand.New(rand.NewSource(r.Int63()))
	w.OnSend = func(p sim.Packet) {
		q, err := sim.ParseRequest(p)
		if _, _, ok := parseWhoIs(p.Data); ok {
			for _, d := range devs {
				w.InjectAfter(ms(10), d.EP, d.Route().Frame(d.IAm()))
			}
		}
		if err != nil {
			return
		}
		d := find(devs, q)
		if d == nil {
			return
		}
		b := q.Reply().Frame(d.Serve(q))
		mu.Lock()
		what, copies := rr.Intn(12), rr.Intn(4)
		later := ms(1 + rr.Intn(40000)) // nothing is answered at once
		mu.Unlock()
		switch {
		case what < lose: // answered by silence
			return
		case what == 4: // too late, or twice
			w.InjectAfter(later, d.EP, b)
			count("late answers", 1)
			return
		case what == 5:
			w.InjectAfter(ms(1), d.EP, q.Reply().Frame([]byte{ref.Abort<<4 | 1, q.APDU.ID, 4}))
			return
		case what == 6: // the first segment of an answer
			w.InjectAfter(ms(1), d.EP, q.Reply().Frame([]byte{0x3c, q.APDU.ID, 0, 4, q.APDU.Svc, 0x0c, 0, 128}))
			count("segment", 1)
			return
		case what == 7: // the segmented request is being acknowledged, and then answered
			w.InjectAfter(ms(1), d.EP, q.Reply().Frame([]byte{0x41, q.APDU.ID, 0, 4}))
		}
		w.InjectAfter(ms(2), d.EP, b)
		for k := 0; k < copies; k++ {
			w.InjectAfter(ms(3)+later/time.Duration(1+k), d.EP, b)
			count("repeated answers", 1)
		}
	}
	w.SendErr = func(p sim.Packet) error {
		t.saw(p)
		if failing {
			return errors.New("network is unreachable")
		}
		return nil
	}
	var err error
	if w.cl, w.done, err = sim.NewClient(w.Link, []uint16{0, 0, 480}[r.Intn(3)]); err != nil {
		c.noClient(err)
	}
	closed := false
	shut := func() {}
	stop := make(chan struct{})
	var traffic sync.WaitGroup
	tr := rand.New(rand.NewSource(r.Int63()))
	burst := func() {
		for k := tr.Intn(30); k > 0; k-- {
			b, kind := provocation(tr, devs, own)
			from := genEP(tr)
			if tr.Intn(2) == 0 {
				from = devs[tr.Intn(len(devs))].EP
			}
			if tr.Intn(8) == 0 { // from its own address
				from = sim.Self
			}
			w.Inject(from, b)
			count(kind, 1)
		}
	}
	quiet := func() {
		burst()
		time.Sleep([]time.Duration{time.Second, 30 * time.Second, time.Hour, 30 * time.Hour}[r.Intn(4)])
	}
	if r.Intn(3) == 0 {
		quiet()
		count("idle for hours", 1)
	}
	if r.Intn(4) == 0 && !failing {
		refusals(t, w, devs, r, count)
	}
	if r.Intn(12) > 0 {
		traffic.Add(1)
		go func() {
			defer traffic.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				burst()
				time.Sleep(ms(1 + tr.Intn(1500)))
			}
		}()
		var wg sync.WaitGroup
		nw, hasNet := simNetwork(w.cl)
		if hasNet && r.Intn(2) == 0 {
			shut = func() { nw.NetworkClose(r.Intn(2) == 0) }
		}
		var nds []*network.Device
		if hasNet {
			for j, d := range devs {
				nd, err := network.NewDevice(nw, netDevice(d, fmt.Sprint(j)))
				if err != nil {
					hasNet = false
					break
				}
				nds = append(nds, nd)
			}
		}
		// one at a time asks for what names a device only
		workers := 1 + r.Intn(8)
		for g := 0; g < workers; g++ {
			gr := rand.New(rand.NewSource(r.Int63()))
			whole := g == 0
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 3+gr.Intn(8); k++ {
					n := uint32(10000*(g+1) + k)
					c.deedOf(t, w.cl, nw, nds, devs, n, whole, gr, count)
					time.Sleep(ms(gr.Intn(300)))
				}
			}()
		}
		if r.Intn(5) == 0 {
			time.Sleep(ms(r.Intn(5000)))
			w.cl.Close()
			closed = true
			count("closed while at work", 1)
		}
		wg.Wait()
		close(stop)
		traffic.Wait()
	} else {
		count("opened and closed unused", 1)
	}
	t.mu.Lock()
	t.silent = true
	t.mu.Unlock()
	if !closed {
		quiet()
	}
	if failing {
		count("failing links", 1)
	}
	shut()
	w.end()
	time.Sleep(time.Minute)
	for k, v := range answered {
		c.Count(k, v)
	}
	c.Count("datagrams matched", t.seen)
	c.Eval(fmt.Sprintf("%d devices, %v, %d transmitted", len(devs), answered, t.seen))
	if t.wrong != "" {
		c.Fail("transmission", "%s", t.wrong)
	}
}

// refusals asks for what may be refused. What fails before anything can have been answered was.
func refusals(t *witness, w *world, devs []*sim.Device, r *rand.Rand, count func(string, int)) {
	t.free = true
	w.Forget()
	time.Sleep(time.Minute) // what was under way has come
	for k := 5 + r.Intn(20); k > 0; k-- {
		dev := libDevice(devs[r.Intn(len(devs))])
		if r.Intn(2) == 0 {
			dev.MaxApdu = []uint32{0, 1, 10, 20, 49, 50, r.Uint32()}[r.Intn(7)]
		}
		num := func(legal, bits int) uint32 {
			if r.Intn(2) == 0 {
				return uint32(r.Intn(legal))
			}
			return uint32(r.Int63n(1 << bits))
		}
		obj := btypes.Object{ID: btypes.ObjectID{Type: btypes.ObjectType(num(60, 16)), Instance: btypes.ObjectInstance(num(1<<22, 32))}}
		for n := 1 + r.Intn(3)*r.Intn(2); n > 0; n-- {
			var data any = []any{nil, true, uint32(7), float32(1), 1.5, "text", int8(-1), []byte{1}, []any{uint32(1)}, map[int]int{1: 2}, struct{}{}, make(chan int), uint64(1) << 60, int64(-1) << 60, &obj, errors.New("x"), time.Second}[r.Intn(17)]
			obj.Properties = append(obj.Properties, btypes.Property{Type: btypes.PropertyType(num(200, 32)), ArrayIndex: []uint32{bacnet.ArrayAll, 0, 1, r.Uint32()}[r.Intn(4)], Data: data, Priority: btypes.NPDUPriority(r.Intn(20))})
		}
		objs := []btypes.Object{obj}
		for n := r.Intn(3) * r.Intn(60); n > 0; n-- {
			objs = append(objs, obj)
		}
		before, began := w.SentCount(), time.Now()
		what, err := "", error(nil)
		func() {
			defer func() { recover() }() // what cannot be encoded is judged elsewhere
			switch r.Intn(6) {
			case 0:
				what = "ReadProperty"
				_, err = w.cl.ReadProperty(dev, btypes.PropertyData{Object: obj})
			case 1:
				what = "ReadMultiProperty"
				_, err = w.cl.ReadMultiProperty(dev, btypes.MultiplePropertyData{Objects: objs})
			case 2:
				what = "WriteProperty"
				err = w.cl.WriteProperty(dev, btypes.PropertyData{Object: obj})
			case 3:
				what = "WriteMultiProperty"
				err = w.cl.WriteMultiProperty(dev, btypes.MultiplePropertyData{Objects: objs})
			case 4:
				what = "I-Am"
				err = w.cl.IAm(dev.Addr, btypes.IAm{ID: obj.ID, MaxApdu: r.Uint32(), Segmentation: btypes.Enumerated(num(4, 32)), Vendor: r.Uint32()})
			case 5:
				what = "Who-Is"
				_, err = w.cl.WhoIs(&bacnet.WhoIsOpts{Low: int(num(1<<22, 40)), High: int(num(1<<22, 40)), NetworkNumber: uint16(r.Intn(1 << 16))})
			}
		}()
		if err == nil || !time.Now().Equal(began) {
			continue
		}
		count("refused without a datagram", 1)
		count("refused: "+what, 1)
		if n := w.SentCount() - before; n > 0 {
			t.mu.Lock()
			t.bad("%s was refused (%v), but transmitted %d datagrams: %s", what, err, n, hexs(w.Sent(before)[0].Data))
			t.mu.Unlock()
		}
	}
	time.Sleep(time.Minute)
	t.mu.Lock()
	t.free = false
	t.mu.Unlock()
}

// deedOf runs one operation
func (c *C) deedOf(t *witness, cl bacnet.Client, nw *network.Network, nds []*network.Device, devs []*sim.Device, n uint32, whole bool, r *rand.Rand, count func(string, int)) {
	j := r.Intn(len(devs))
	d := devs[j]
	dev := libDevice(d)
	run := func(x *deed, f func() error) error {
		t.begin(x)
		err := f()
		t.end(x)
		count("operations", 1)
		return err
	}
	w := &world{cl: cl}
	o := ref.ObjID{Type: 19, Instance: n}
	key := fmt.Sprintf("object 19 %d", n)
	if nw != nil && r.Intn(4) == 0 { // to keep account of devices transmits nothing
		nd := netDevice(d, fmt.Sprint("device ", r.Intn(20)))
		nd.MaxApdu = []uint32{0, 50, 480, 1476}[r.Intn(4)]
		if r.Intn(3) == 0 {
			nd.DeviceID, nd.Segmentation = int(n), 0
		}
		nd.DeviceName = []string{"", "a name"}[r.Intn(2)]
		if r.Intn(2) == 0 {
			network.NewDevice(nw, nd)
		} else {
			nw.Store.UpdateDevice(nd.StoreID, nw, nd)
		}
		nw.Store.GetDevice(nd.StoreID)
		nw.Store.GetNetwork(nw.StoreID)
		count("devices kept account of", 1)
	}
	op := r.Intn(4)
	objs := []ref.Obj{{ID: o, Props: []ref.Prop{{ID: 85, Index: ref.ArrayAll, Vals: []any{ref.Uint(n)}}}}}
	if op >= opWrite {
		d.Set(o, 85, ref.Uint(1))
	} else if r.Intn(4) > 0 { // else it is not there
		d.Set(o, 85, ref.Uint(n))
	}
	switch k := r.Intn(12); {
	case k < 4:
		run(&deed{kind: opNames[op], key: key, reads: op < opWrite, writes: op >= opWrite, most: 2}, func() error {
			_, err := w.do(op, dev, objs)
			return err
		})
	case k == 4: // what cannot be asked
		x := &deed{kind: "a refused operation", key: key, most: 0, refuse: true}
		var err error
		switch r.Intn(3) {
		case 0:
			pd := btypes.PropertyData{Object: btypes.Object{ID: libObj(o), Properties: []btypes.Property{{Type: 85, ArrayIndex: bacnet.ArrayAll, Data: struct{ a chan int }{}}}}}
			err = run(x, func() error { return cl.WriteProperty(dev, pd) })
		case 1:
			dev.MaxApdu = 0
			err = run(x, func() error {
				_, err := w.do([]int{opReadMulti, opWriteMulti}[r.Intn(2)], dev, objs)
				return err
			})
		case 2:
			for k := 0; k < 400; k++ {
				objs = append(objs, ref.Obj{ID: ref.ObjID{Type: 19, Instance: n}, Props: objs[0].Props})
			}
			err = run(x, func() error {
				_, err := w.do([]int{opReadMulti, opWriteMulti}[r.Intn(2)], dev, objs)
				return err
			})
		}
		if err != nil {
			count("refused without a datagram", 1)
		}
	case k == 5:
		lo, hi := int(n), min(int(n)+r.Intn(2)*int(d.Instance), 4194302)
		x := &deed{kind: "Who-Is", key: fmt.Sprintf("Who-Is %d %d", lo, hi), reads: true, most: 1}
		run(x, func() error {
			_, err := cl.WhoIs(&bacnet.WhoIsOpts{Low: lo, High: hi, GlobalBroadcast: r.Intn(2) == 0})
			return err
		})
	case k == 6:
		x := &deed{kind: "an announcement", key: fmt.Sprintf("I-Am %d", n), writes: true, most: 1}
		run(x, func() error {
			return cl.IAm(dev.Addr, btypes.IAm{ID: btypes.ObjectID{Type: 8, Instance: btypes.ObjectInstance(n)}, MaxApdu: 1476, Segmentation: 3, Vendor: 1})
		})
		count("announcement", 1)
	case k == 7:
		if r.Intn(2) == 0 {
			run(&deed{kind: "a question for routers", key: "routers", most: 1}, func() error { cl.WhoIsRouterToNetwork(); return nil })
		} else {
			run(&deed{kind: "a question for numbers", key: "number", most: 1}, func() error { cl.WhatIsNetworkNumber(); return nil })
		}
		count("network questions", 1)
	case k == 8 && whole:
		x := &deed{kind: "an inventory", key: fmt.Sprintf("device at %s %d", d.EP, d.EP.Port), reads: true, most: 2 * (2 + 2*12)}
		run(x, func() error {
			_, err := cl.Objects(dev)
			return err
		})
		count("inventory", 1)
	case k == 9 && whole && len(nds) > 0:
		hi := 4000000 + int(n)
		x := &deed{kind: "a discovery", key: fmt.Sprintf("Who-Is 1 %d", hi), reads: true, most: 1}
		t.look(1)
		defer t.look(-1)
		run(x, func() error {
			_, err := nw.NetworkDiscover(&bacnet.WhoIsOpts{Low: 1, High: hi, GlobalBroadcast: true})
			return err
		})
		count("discovery", 1)
	case len(nds) > 0: // of the network package
		id := btypes.ObjectInstance(n)
		pnt := &network.Point{ObjectType: 19, ObjectID: id}
		x := &deed{kind: "a point operation", key: key, reads: true, most: 2}
		switch r.Intn(4) {
		case 0:
			run(x, func() error { _, err := nds[j].ReadPointName(pnt); return err })
		case 1:
			run(x, func() error { _, err := nds[j].PointReadMultiState(pnt); return err })
		case 2:
			x.most = 4
			run(x, func() error { _, err := nds[j].PointDetails(pnt); return err })
		case 3:
			x.reads, x.writes = false, true
			run(x, func() error { return nds[j].PointWriteMultiState(pnt, 1) })
		}
		count("device operations", 1)
	}
}

// realSilence provokes a client on a real socket; its peers must hear nothing
func (c *C) realSilence(r *rand.Rand) {
	port := 32000 + 100*c.Shard
	ip := [4]byte{127, 0, byte(10 + c.Shard), 8}
	d := sim.NewDevice(sim.EP{IP: ip, Port: 47812}, 10)
	nw := newRealNet([]*sim.Device{d}, false)
	defer nw.close()
	per := map[uint32]int{}
	var mu sync.Mutex
	nw.OnRequest = func(_ *sim.Device, q *sim.Request) bool {
		mu.Lock()
		defer mu.Unlock()
		if _, objs, err := asked(q); err == nil && len(objs) > 0 {
			per[objs[0].ID.Instance]++
		}
		return true
	}
	cl, done, err := realClient(port)
	if err != nil {
		panic(fmt.Sprintf("harness: no client: %v", err))
	}
	var socks []*net.UDPConn
	open := func(a *net.UDPAddr) {
		s, err := net.ListenUDP("udp4", a)
		if err != nil {
			panic(fmt.Sprintf("harness: no socket: %v", err))
		}
		socks = append(socks, s)
	}
	open(&net.UDPAddr{IP: net.IPv4(127, 0, ip[2], 8), Port: 47808})
	open(&net.UDPAddr{IP: net.IPv4(127, 0, ip[2], 9), Port: 47808})
	open(&net.UDPAddr{IP: net.IPv4(127, 0, ip[2], 9)})
	if c.Shard == 0 { // what is broadcast
		open(&net.UDPAddr{IP: net.IPv4(127, 255, 255, 255), Port: 47808})
	}
	work := func() {
		w := &world{cl: cl}
		for k := 0; k < 4; k++ {
			o := ref.ObjID{Type: 2, Instance: uint32(r.Intn(1 << 22))}
			d.Set(o, 85, ref.Uint(1))
			w.do(k, libDevice(d), []ref.Obj{{ID: o, Props: []ref.Prop{{ID: 85, Index: ref.ArrayAll, Vals: []any{ref.Uint(2)}}}}})
		}
	}
	to := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}
	n := 0
	for k := 0; k < 20; k++ {
		for m := 0; m < 40; m++ {
			b, _ := provocation(r, []*sim.Device{d}, 5)
			socks[r.Intn(3)].WriteToUDP(harmless(b, func(byte) bool { return true }), to)
			n++
		}
		work()
	}
	time.Sleep(100 * time.Millisecond)
	for _, s := range socks {
		buf := make([]byte, 2000)
		s.SetReadDeadline(time.Now().Add(100 * time.Millisecond))
		for {
			k, from, err := s.ReadFromUDP(buf)
			if err != nil {
				if !errors.Is(err, os.ErrDeadlineExceeded) {
					c.Assume("a socket of a peer reported an error")
				}
				break
			}
			if from.Port == port {
				c.Fail("transmission", "a peer that asked for nothing it may get heard %s from the client", hexs(buf[:k]))
			}
		}
		s.Close()
	}
	for o, k := range per {
		if k > 2 {
			c.Fail("transmission", "the object %d was asked for %d times by one operation", o, k)
		}
	}
	cl.Close()
	<-done
	c.Count("datagrams of peers", n)
	c.Count("real sockets", 1)
	c.Eval(fmt.Sprintf("real sockets, %d datagrams of peers, %d requests", n, len(per)))
}
