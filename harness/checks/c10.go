package checks

import (
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	"verif/harness/ref"
	"verif/harness/sim"
	"verif/harness/yield"
)

func init() {
	register("C10", "many operations of all kinds at once on one client in virtual time; every request names its operation and every answer carries a value never used before; answers are reordered, delayed, duplicated and lost", runC10)
}

// sentAnswer is one answer that a device sent
type sentAnswer struct {
	objs  []ref.Obj // with the values sent
	class uint32
	code  uint32 // an error answer when not 0
}

type opLog struct {
	op      int
	dev     *sim.Device
	objs    []ref.Obj
	plan    plan
	answers []sentAnswer
	nth     int // transmissions seen
	dropped bool
}

// plan says what happens to the answers of an operation
type plan struct {
	lose   int // how many transmissions stay without an answer
	delay  time.Duration
	copies []time.Duration // more copies, and when
	err    bool
}

func genPlan(r *rand.Rand) plan {
	p := plan{delay: time.Duration(r.Intn(40)) * time.Millisecond}
	switch r.Intn(10) {
	case 0:
		p.delay = 0
	case 1:
		p.delay = time.Duration(r.Intn(12000)) * time.Millisecond
	case 2:
		p.delay = 4900*time.Millisecond + time.Duration(r.Intn(200))*time.Millisecond
	case 3:
		p.lose = 1 + r.Intn(2)
	case 4:
		p.err = true
	}
	if r.Intn(4) == 0 {
		for k := 1 + r.Intn(4); k > 0; k-- {
			p.copies = append(p.copies, time.Duration(r.Intn(1<<uint(r.Intn(15))))*time.Millisecond)
		}
	}
	return p
}

func runC10(c *C) {
	c.Need("several clients", "long idle", "operations", "read succeeded", "write succeeded", "failed", "error answers", "copies delivered", "late answers delivered", "answers lost", "several at once")
	c.Loop(0, c.N(7200, 60000), func(i int, r *rand.Rand) {
		workers := []int{1, 2, 5, 19, 20, 21, 30, 60}[i/8%8]
		per := 4 + r.Intn(12)
		if i%8 == 3 {
			per = 300 / workers
		}
		yield.Set([]int{0, 20, 100, 300}[i%4])
		defer yield.Set(0)
		devs := genDevices(r, 1+r.Intn(12))
		seed := r.Int63()
		clients := 1
		if r.Intn(6) == 0 {
			clients = 2 + r.Intn(2)
			c.Count("several clients", 1)
		}
		c.Bubble(fmt.Sprintf("%d clients with %d workers with %d operations each on %d devices", clients, workers, per, len(devs)), func(t *testing.T) {
			var wg sync.WaitGroup
			for k := 0; k < clients; k++ { // each on a network of its own, with devices of the same addresses
				wg.Add(1)
				go func() {
					defer wg.Done()
					c.many(devs, workers, per, seed+int64(k*1000), uint32(1+64*k)<<20)
				}()
			}
			wg.Wait()
		})
	})
	c.Need("alike at once", "alike to devices behind one router", "alike to devices of one address", "alike to one device")
	c.Loop(1<<20, c.N(2400, 20000), func(i int, r *rand.Rand) {
		yield.Set([]int{0, 20, 100, 300}[i/8%4])
		defer yield.Set(0)
		c.Bubble("the same operation on many devices", func(t *testing.T) {
			c.alike(r)
		})
	})
}

// alike asks many devices, which differ in one part of their address, for the same at once
func (c *C) alike(r *rand.Rand) {
	w := newWorld(0)
	c.idle(r)
	defer w.end()
	var devs []*sim.Device
	base := sim.EP{IP: [4]byte{10, 0, byte(r.Intn(3)), byte(1 + r.Intn(200))}, Port: 47808}
	nets := []uint16{1, 2, 256, 257, 65534}
	kind := r.Intn(5)
	for k, n := 0, 2+r.Intn(8); k < n; k++ {
		d := sim.NewDevice(base, uint32(77))
		switch kind {
		case 0: // behind one router, on one network
			d.Net, d.Mac = 5, []byte{byte(1 + k)}
		case 1: // behind one router, with one MAC
			d.Net, d.Mac = nets[k%5], []byte{9}
			if k >= 5 {
				d.Mac = []byte{9, 9}
			}
		case 2: // other ports
			d.EP.Port += uint16(k * 256)
		case 3: // other addresses
			d.EP.IP[3] += byte(k)
		case 4: // alike but for their router
			d.EP.IP[k%4] += byte(1 + k/4)
			d.Net, d.Mac = 5, []byte{1, 2, 3}
		}
		if kind < 2 && k == n-1 { // the router itself
			d.Net, d.Mac = 0, nil
		}
		devs = append(devs, d)
	}
	c.Count([]string{"alike to devices behind one router", "alike to devices behind one router", "alike to devices of one address", "alike to devices of one port", "alike to devices behind routers"}[kind], 1)
	var mu sync.Mutex
	unique := uint32(1 << 20)
	var op int
	var objs []ref.Obj
	sent := map[*sim.Device][]sentAnswer{}
	used := map[*sim.Device]map[int]bool{}
	slow := r.Intn(3) == 0
	w.OnSend = func(p sim.Packet) {
		q, err := sim.ParseRequest(p)
		var d *sim.Device
		if err == nil {
			d = find(devs, q)
		}
		if d == nil {
			c.Fail("request", "sent to %v (%v): %s", p.Dest, err, hexs(p.Data))
			return
		}
		mu.Lock()
		defer mu.Unlock()
		got, asks, err := asked(q)
		if err != nil || got != op || fmt.Sprint(asks) != fmt.Sprint(objs) {
			c.Fail("request", "%s of %s is sent as %s of %s (%v)", opNames[op], showObjs(objs), opNames[got], showObjs(asks), err)
			return
		}
		var a sentAnswer
		var apdu []byte
		if r.Intn(5) == 0 {
			a.class, a.code = uint32(64+r.Intn(1000)), unique
			unique++
			apdu = ref.ErrorAnswer(q.APDU.ID, q.APDU.Svc, a.class, a.code)
		} else {
			for i := range asks {
				for j := range asks[i].Props {
					if op == opRead || op == opReadMulti {
						asks[i].Props[j].Vals = []any{ref.Uint(unique)}
						unique++
					}
				}
			}
			a.objs = asks
			apdu = positive(q, op, asks)
		}
		sent[d] = append(sent[d], a)
		delay := ms(r.Intn(20))
		if slow {
			delay = ms(r.Intn(4000))
		}
		w.InjectAfter(delay, q.Reply().From, q.Reply().Frame(apdu))
	}
	for round := 0; round < 12; round++ {
		if r.Intn(4) == 0 {
			c.idle(r)
		}
		mu.Lock()
		op = r.Intn(4)
		objs = nil
		for a := 1 + r.Intn(2); a > 0; a-- {
			o := ref.Obj{ID: genObj(r)}
			for b := 1 + r.Intn(2); b > 0; b-- {
				p := ref.Prop{ID: genPropID(r), Index: genIndex(r)}
				if op >= opWrite {
					p.Vals, p.Prio = []any{ref.Uint(genUint(r))}, uint8(r.Intn(17))
				}
				o.Props = append(o.Props, p)
				if op == opRead || op == opWrite {
					break
				}
			}
			objs = append(objs, o)
			if op == opRead || op == opWrite {
				break
			}
		}
		clear(sent)
		clear(used)
		times := 1
		if r.Intn(3) == 0 {
			times = 2 + r.Intn(2)
			c.Count("alike to one device", 1)
		}
		mu.Unlock()
		var wg sync.WaitGroup
		calls := 0
		for _, d := range devs {
			for k := 0; k < times && calls < 20; k++ {
				calls++
				pause := ms(r.Intn(30))
				if r.Intn(2) == 0 {
					pause = 0
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(pause)
					got, err := w.do(op, libDevice(d), objs)
					mu.Lock()
					defer mu.Unlock()
					l := &opLog{op: op, answers: sent[d]}
					what := fmt.Sprintf("%s of %s from %v net %d mac %x among %d devices", opNames[op], showObjs(objs), d.EP, d.Net, d.Mac, len(devs))
					for i, a := range l.answers {
						if used[d][i] { // each is for one call
							continue
						}
						if err == nil && a.code == 0 && (op >= opWrite || sameObjs(libObjsOf(got), a.objs) == "") || err != nil && a.code != 0 && namesError(err, a.class, a.code) {
							if used[d] == nil {
								used[d] = map[int]bool{}
							}
							used[d][i] = true
							return
						}
					}
					if err != nil {
						c.Fail("misdelivered", "%s failed with %q, but was answered with %s", what, err, showAnswers(l.answers))
					} else {
						c.Fail("misdelivered", "%s returned %s, but the device had sent %s", what, showLib(got), showAnswers(l.answers))
					}
				}()
			}
		}
		wg.Wait()
		c.Count("alike at once", calls)
		mu.Lock()
		c.Eval(fmt.Sprintf("%d alike calls, kind %d, %s of %s", calls, kind, opNames[op], showObjs(objs)))
		for _, d := range devs {
			if n := len(sent[d]); n < times && calls == times*len(devs) {
				c.Fail("not sent", "%d calls of %s of %s on %v net %d mac %x: %d requests", times, opNames[op], showObjs(objs), d.EP, d.Net, d.Mac, n)
			}
		}
		mu.Unlock()
	}
}

// many runs the operations; the n-th of them reads or writes objects with the instance n
// and gives values from unique on
func (c *C) many(devs []*sim.Device, workers, per int, seed int64, unique uint32) {
	w := newWorld(0)
	var mu sync.Mutex
	ops := map[uint32]*opLog{}
	begun := 0
	flying, peak := 0, 0
	var steps []step
	event := func(who, what int) { steps = append(steps, step{int64(len(steps)), who, what}) }
	rr := rand.New(rand.NewSource(seed))
	c.idle(rr)
	w.OnSend = func(p sim.Packet) {
		q, err := sim.ParseRequest(p)
		if err != nil {
			c.Fail("request", "sent to %v: %v: %s", p.Dest, err, hexs(p.Data))
			return
		}
		op, objs, err := asked(q)
		if err != nil || len(objs) == 0 {
			c.Fail("request", "%v: %s", err, hexs(p.Data))
			return
		}
		mu.Lock()
		defer mu.Unlock()
		n := objs[0].ID.Instance
		l := ops[n]
		if l == nil || l.op != op || !l.dev.Matches(q) || fmt.Sprint(objs) != fmt.Sprint(l.objs) {
			c.Fail("request", "the request of operation %d is sent as %s to %v: %s", n, opNames[op], q.To, hexs(p.Data))
			return
		}
		l.nth++
		if l.nth <= l.plan.lose {
			c.Count("answers lost", 1)
			return
		}
		var a sentAnswer
		var apdu []byte
		if l.plan.err {
			a.class, a.code = uint32(64+rr.Intn(1000)), unique
			unique++
			apdu = ref.ErrorAnswer(q.APDU.ID, q.APDU.Svc, a.class, a.code)
			c.Count("error answers", 1)
		} else {
			for i := range objs {
				for j := range objs[i].Props {
					if op == opRead || op == opReadMulti {
						objs[i].Props[j].Vals = []any{ref.Uint(unique)}
						unique++
					}
				}
			}
			a.objs = objs
			apdu = positive(q, op, objs)
		}
		l.answers = append(l.answers, a)
		route := q.Reply()
		frame := route.Frame(apdu)
		for k, d := range append([]time.Duration{l.plan.delay}, l.plan.copies...) {
			go func() {
				time.Sleep(d)
				mu.Lock()
				fresh := begun-int(n) < 200
				event(int(n), 2)
				l.dropped = l.dropped || !fresh
				mu.Unlock()
				if !fresh { // the number may belong to another operation now
					c.Count("answers dropped", 1)
					return
				}
				if k > 0 {
					c.Count("copies delivered", 1)
				} else if d > 5*time.Second {
					c.Count("late answers delivered", 1)
				}
				w.Inject(route.From, frame)
			}()
		}
	}
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wr := rand.New(rand.NewSource(seed + int64(k) + 1))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < per; j++ {
				if wr.Intn(4) == 0 {
					time.Sleep(ms(wr.Intn(200)))
					if wr.Intn(8) == 0 {
						c.idle(wr)
					}
				}
				mu.Lock()
				n := uint32(begun)
				begun++
				l := &opLog{op: wr.Intn(4), dev: devs[wr.Intn(len(devs))], plan: genPlan(wr)}
				objs := 1
				if l.op == opReadMulti || l.op == opWriteMulti {
					objs = 1 + wr.Intn(3)
				}
				for a := 0; a < objs; a++ {
					o := ref.Obj{ID: ref.ObjID{Type: uint16(6 + wr.Intn(900)), Instance: n}}
					props := 1
					if objs > 1 {
						props = 1 + wr.Intn(3)
					}
					for b := 0; b < props; b++ {
						p := ref.Prop{ID: genPropID(wr), Index: ref.ArrayAll}
						if wr.Intn(3) == 0 {
							p.Index = uint32(wr.Intn(1000))
						}
						if l.op >= opWrite {
							p.Vals, p.Prio = []any{ref.Uint(unique)}, uint8(wr.Intn(17))
							unique++
						}
						o.Props = append(o.Props, p)
					}
					l.objs = append(l.objs, o)
				}
				ops[n] = l
				event(int(n), 0)
				flying++
				peak = max(peak, flying)
				mu.Unlock()
				start := time.Now()
				got, err := w.do(l.op, libDevice(l.dev), l.objs)
				took := time.Since(start)
				mu.Lock()
				flying--
				event(int(n), 1)
				c.judgeOp(int(n), l, got, err, took)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	c.Count("operations", workers*per)
	if peak > 1 {
		c.Count("several at once", 1)
	}
	c.Eval(fmt.Sprintf("%d workers %d operations %d devices, %d at once, seed %d", workers, workers*per, len(devs), peak, seed))
	time.Sleep(time.Minute) // what is still under way
	mu.Lock()
	c.Order(steps)
	mu.Unlock()
	w.end()
}

func (c *C) judgeOp(n int, l *opLog, got any, err error, took time.Duration) {
	what := fmt.Sprintf("%s %d of %s", opNames[l.op], n, showObjs(l.objs))
	if took > 30*time.Second {
		c.Fail("slow", "%s returned after %v", what, took)
	}
	if err == nil {
		ok := false
		for _, a := range l.answers {
			if a.code != 0 {
				continue
			}
			if l.op >= opWrite || sameObjs(libObjsOf(got), a.objs) == "" {
				ok = true
			}
		}
		if !ok {
			c.Fail("misdelivered", "%s returned %s, but the device had sent %s", what, showLib(got), showAnswers(l.answers))
		}
		if l.op >= opWrite {
			c.Count("write succeeded", 1)
		} else {
			c.Count("read succeeded", 1)
		}
		return
	}
	c.Count("failed", 1)
	// an answer that was delivered while the operation was waiting for it has to arrive
	if !l.dropped && l.plan.lose == 0 && l.plan.delay < 4*time.Second && l.nth > 0 {
		if !l.plan.err {
			c.Fail("undelivered", "%s failed with %q, but was answered after %v", what, err, l.plan.delay)
			return
		}
		for _, a := range l.answers {
			if namesError(err, a.class, a.code) {
				return
			}
		}
		c.Fail("misdelivered", "%s failed with %q, but was answered with %s", what, err, showAnswers(l.answers))
	}
}

func showAnswers(as []sentAnswer) string {
	s := ""
	for _, a := range as {
		if a.code != 0 {
			s += fmt.Sprintf("error %d/%d; ", a.class, a.code)
		} else {
			s += showObjs(a.objs) + "; "
		}
	}
	if s == "" {
		return "nothing"
	}
	return s
}
