package checks

import (
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"verif/harness/ref"
	"verif/harness/sim"
	"verif/harness/yield"
)

func init() {
	register("C16", "Who-Is calls with all kinds of limits, one or several at once, while announcements arrive: direct, broadcast, forwarded, through routers, in bursts, repeated, from several stations with one instance, out of range, malformed, before, between and after the calls; the entries returned are compared with what arrived", runC16)
}

// announce is an I-Am that arrives
type announce struct {
	inst, apdu, seg, vendor uint32
	origin                  sim.EP
	src                     *ref.Addr
	frame                   []byte
	from                    sim.EP
	junk                    string // why it is no I-Am
	at                      time.Duration
	arrived                 bool
}

func (a *announce) String() string {
	s := fmt.Sprintf("I-Am of %d (%d, %d, %d) from %v:%d", a.inst, a.apdu, a.seg, a.vendor, a.origin, a.origin.Port)
	if a.src != nil {
		s += fmt.Sprintf(" network %d address % x", a.src.Net, []byte(a.src.Mac))
	}
	if a.junk != "" {
		s += " (" + a.junk + ")"
	}
	return s + fmt.Sprintf(" at %v", a.at)
}

func genInstance(r *rand.Rand) uint32 {
	switch r.Intn(8) {
	case 0:
		return []uint32{0, 1, 4194302, 4194303, 255, 256, 65535, 65536}[r.Intn(8)]
	case 1:
		return uint32(r.Intn(4194304))
	}
	return uint32(r.Intn(60))
}

func genAnnounce(r *rand.Rand, inst uint32) *announce {
	a := &announce{inst: inst, apdu: genUint(r), seg: uint32(r.Intn(4)), vendor: genUint(r), origin: genEP(r)}
	if r.Intn(3) > 0 {
		a.apdu, a.vendor = []uint32{50, 128, 206, 480, 1024, 1476}[r.Intn(6)], uint32(r.Intn(1000))
	}
	if r.Intn(20) == 0 {
		a.seg = genUint(r)
	}
	route := sim.Route{From: a.origin, Bcast: r.Intn(2) == 0}
	if r.Intn(3) == 0 {
		route.Src = genAddr(r)
		if route.Src.Net == 65535 || route.Src.Net == 0 {
			route.Src.Net = uint16(1 + r.Intn(65534))
		}
		if len(route.Src.Mac) == 0 { // a source always has an address
			route.Src.Mac = ref.Octets{byte(r.Intn(256))}
		}
		a.src = route.Src
	}
	if r.Intn(4) == 0 {
		o := a.origin
		route.Forward = &o
		route.From = genEP(r)
	}
	switch r.Intn(4) {
	case 0:
		route.Dst = &ref.Addr{Net: 65535}
	case 1:
		if r.Intn(3) == 0 {
			route.Dst = genAddr(r)
			if route.Dst.Net == 0 {
				route.Dst.Net = 3
			}
		}
	}
	a.from = route.From
	apdu := ref.IAm(ref.ObjID{Type: 8, Instance: inst}, a.apdu, a.seg, a.vendor)
	if r.Intn(5) > 0 {
		a.frame = route.Frame(apdu)
		return a
	}
	body := apdu[2:]
	switch r.Intn(9) {
	case 0:
		a.junk = "cut short"
		a.frame = route.Frame(apdu[:r.Intn(len(apdu))])
	case 1:
		a.junk = "another service"
		apdu[1] = byte(1 + r.Intn(255))
		if apdu[1] == 8 {
			apdu[1] = 1
		}
		a.frame = route.Frame(apdu)
	case 2:
		a.junk = "a confirmed request"
		a.frame = route.Frame(ref.Cat([]byte{0, 5, byte(r.Intn(256)), 0}, body))
	case 3:
		a.junk = "no device identifier"
		a.frame = route.Frame(ref.Cat([]byte{0x10, 0}, ref.App(ref.Uint(inst)), ref.App(ref.Uint(a.apdu)), ref.App(ref.Enum(a.seg)), ref.App(ref.Uint(a.vendor))))
	case 4:
		a.junk = "text for a number"
		f := [][]byte{ref.App(ref.ObjID{Type: 8, Instance: inst}), ref.App(ref.Uint(a.apdu)), ref.App(ref.Enum(a.seg)), ref.App(ref.Uint(a.vendor))}
		f[1+r.Intn(3)] = ref.App(ref.Str("text"))
		a.frame = route.Frame(ref.Cat([]byte{0x10, 0}, ref.Cat(f...)))
	case 5:
		a.junk = "a network message"
		a.frame = route.FrameNetwork(byte(r.Intn(128)), apdu)
	case 6:
		a.junk = "another link function"
		a.frame = route.Frame(apdu)
		a.frame[1] = []byte{0, 1, 2, 3, 5, 6, 7, 8, 9, 12, 200}[r.Intn(11)]
	case 7:
		a.junk = "another link type"
		a.frame = route.Frame(apdu)
		a.frame[0] = []byte{0, 1, 0x80, 0x82, 0xff}[r.Intn(5)]
	case 8:
		a.junk = "another kind of message"
		apdu[0] = []byte{0x20, 0x30, 0x40, 0x50, 0x60, 0x70, 0x80, 0xf0}[r.Intn(8)]
		a.frame = route.Frame(apdu)
	}
	return a
}

// sameAnnounce says in what an entry differs from the announcement
func sameAnnounce(d btypes.Device, a *announce) string {
	switch {
	case d.DeviceID != int(a.inst) || d.ID.Instance != btypes.ObjectInstance(a.inst) || d.ID.Type != 8:
		return "instance"
	case d.MaxApdu != a.apdu:
		return "maximum APDU"
	case uint32(d.Segmentation) != a.seg:
		return "segmentation"
	case d.Vendor != a.vendor:
		return "vendor"
	case d.Ip != a.origin.String() || d.Port != int(a.origin.Port) || string(d.Addr.Mac) != string(a.origin.Mac()):
		return "IP address and port"
	}
	var net uint16
	var mac []byte
	if a.src != nil {
		net, mac = a.src.Net, a.src.Mac
	}
	if d.NetworkNumber != int(net) || d.Addr.Net != net {
		return "network number"
	}
	if string(d.Addr.Adr) != string(mac) || len(mac) > 0 && d.MacMSTP != int(mac[0]) {
		return "MAC"
	}
	return ""
}

func showDevice(d btypes.Device) string {
	return fmt.Sprintf("{id %d (%d:%d), %s:%d, network %d, MAC % x (%d), max APDU %d, segmentation %d, vendor %d}", d.DeviceID, d.ID.Type, d.ID.Instance, d.Ip, d.Port,
		d.NetworkNumber, d.Addr.Adr, d.MacMSTP, d.MaxApdu, d.Segmentation, d.Vendor)
}

type whoisCall struct {
	low, high  int
	began, end time.Duration
	got        []btypes.Device
	err        error
}

// limits returns the range of instances that have to be and the one that may be reported
func (q *whoisCall) limits() (must, may [2]int) {
	lo, hi := max(q.low, 0), q.high
	if hi <= 0 {
		hi = 4194303
		if lo > 0 { // a lower limit alone: not specified what it means
			return [2]int{lo, hi}, [2]int{0, hi}
		}
	}
	return [2]int{lo, hi}, [2]int{lo, hi}
}

func runC16(c *C) {
	c.Need("long idle", "cannot be sent", "refused late", "entries", "no limits", "limits", "empty range", "several calls at once", "announcements in range", "announcements out of range", "malformed", "forwarded", "routed", "repeated", "several stations with one instance", "at the instant of the request", "between calls", "bursts", "ends of the range", "remote network", "global")
	c.Loop(0, c.N(12000, 200000), func(i int, r *rand.Rand) {
		yield.Set([]int{0, 20, 100}[i/8%3])
		defer yield.Set(0)
		calls := []int{1, 1, 1, 2, 4}[r.Intn(5)]
		n := r.Intn(60)
		switch r.Intn(12) {
		case 0:
			n = 0
		case 1:
			n = 200 + r.Intn(1800)
		}
		c.Bubble(fmt.Sprintf("%d calls, %d announcements", calls, n), func(t *testing.T) {
			c.discover(calls, n, r)
		})
	})
	c.Need("very many announcements")
	c.Loop(1<<20, c.N(16, 100), func(i int, r *rand.Rand) {
		n := []int{20000, 70000}[i/8%2] + r.Intn(2000)
		c.Bubble(fmt.Sprintf("%d announcements", n), func(t *testing.T) { c.whoisMany(n, r) })
	})
}

// whoisMany lets very many devices announce themselves
func (c *C) whoisMany(n int, r *rand.Rand) {
	w := newWorld(0)
	t0 := time.Now()
	var log []*announce
	span := []int{1, 500, 8000}[r.Intn(3)]
	mixed := r.Intn(3) == 0
	step := 1 + r.Intn(4194302/n)
	for k := 0; k < n; k++ {
		inst := uint32(1 + k*step)
		a := genAnnounce(r, inst)
		if !mixed {
			rt := sim.Route{From: genEP(r)}
			a = &announce{inst: inst, apdu: 1476, seg: 3, vendor: uint32(r.Intn(1000)), origin: rt.From, from: rt.From}
			a.frame = rt.Frame(ref.IAm(ref.ObjID{Type: 8, Instance: inst}, a.apdu, a.seg, a.vendor))
		}
		log = append(log, a)
	}
	c.Count("very many announcements", n)
	q := &whoisCall{low: -1, high: -1}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		q.began = time.Since(t0)
		q.got, q.err = w.cl.WhoIs(&bacnet.WhoIsOpts{Low: -1, High: -1})
		q.end = time.Since(t0)
	}()
	time.Sleep(ms(1))
	batch := max(1, n/span)
	for k, a := range log {
		a.at = time.Since(t0)
		w.Inject(a.from, a.frame)
		if k%batch == batch-1 {
			time.Sleep(ms(1))
		}
	}
	wg.Wait()
	c.judgeWhoIs(q, log)
	w.end()
}

func (c *C) discover(calls, n int, r *rand.Rand) {
	w := newWorld(0)
	c.idle(r)
	t0 := time.Now()
	var mu sync.Mutex
	var log []*announce
	inject := func(a *announce) {
		mu.Lock()
		a.at = time.Since(t0)
		a.arrived = true
		log = append(log, a)
		mu.Unlock()
		w.Inject(a.from, a.frame)
	}
	var pool []uint32
	for k := 1 + r.Intn(max(1, n)); k > 0; k-- {
		pool = append(pool, genInstance(r))
	}
	if n > 200 {
		pool = nil
		for k := 0; k < n; k++ {
			pool = append(pool, uint32(k))
		}
	}
	pick := func() uint32 { return pool[r.Intn(len(pool))] }
	var early []*announce // arrive before the request has even been sent
	for k := r.Intn(4); k > 0; k-- {
		early = append(early, genAnnounce(r, pick()))
	}
	refuse := false // the link takes nothing
	slow := time.Duration(0)
	w.SendErr = func(p sim.Packet) error {
		mu.Lock()
		no := refuse
		mu.Unlock()
		if no {
			time.Sleep(slow)
			return fmt.Errorf("the link refuses")
		}
		return nil
	}
	w.OnSend = func(p sim.Packet) {
		mu.Lock()
		l := early
		early = nil
		mu.Unlock()
		for _, a := range l {
			inject(a)
		}
	}
	round := func(n int) {
		c.idle(r)
		mu.Lock()
		log = log[:0]
		mu.Unlock()
		qs := make([]*whoisCall, calls)
		var wg sync.WaitGroup
		for k := range qs {
			q := &whoisCall{low: int(genInstance(r)), high: int(genInstance(r))}
			if q.low > q.high && r.Intn(8) > 0 {
				q.low, q.high = q.high, q.low
			}
			switch r.Intn(8) {
			case 0, 1:
				q.low, q.high = 0, 0
			case 2:
				q.low, q.high = -1, -1
			case 3:
				q.high = q.low
			case 4:
				q.low, q.high = int(pick()), int(pick())
			}
			opts := &bacnet.WhoIsOpts{Low: q.low, High: q.high}
			switch r.Intn(6) {
			case 0:
				opts.NetworkNumber = uint16(1 + r.Intn(65534))
				c.Count("remote network", 1)
			case 1:
				opts.GlobalBroadcast = true
				c.Count("global", 1)
			}
			qs[k] = q
			start := ms(r.Intn(1500))
			if k == 0 {
				start = 0
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(start)
				q.began = time.Since(t0)
				got, err := w.cl.WhoIs(opts)
				mu.Lock()
				q.got, q.err, q.end = got, err, time.Since(t0)
				mu.Unlock()
			}()
		}
		span := []int{1, 100, 2000, 9000, 16000}[r.Intn(5)]
		last := 0
		for k := 0; k < n; k++ {
			a := genAnnounce(r, pick())
			at := r.Intn(span)
			switch {
			case n > 200:
				at = r.Intn(2) * 500
				c.Count("bursts", 1)
			case r.Intn(4) == 0:
				at = last
			}
			last = at
			again := 0
			if r.Intn(10) == 0 {
				again = 1 + r.Intn(3)
			}
			wg.Add(1)
			d := ms(at) + time.Duration(1+r.Intn(999))*time.Microsecond
			go func() {
				defer wg.Done()
				time.Sleep(d)
				inject(a)
				for ; again > 0; again-- {
					b := *a
					inject(&b)
				}
			}()
		}
		wg.Wait()
		mu.Lock()
		for _, q := range qs {
			c.judgeWhoIs(q, log)
		}
		mu.Unlock()
		if calls > 1 {
			c.Count("several calls at once", 1)
		}
	}
	round(n)
	time.Sleep(time.Millisecond) // what arrived last is dealt with
	for k := r.Intn(5); k > 0; k-- {
		inject(genAnnounce(r, pick()))
		c.Count("between calls", 1)
		time.Sleep(time.Millisecond)
	}
	round(r.Intn(10))
	if r.Intn(4) == 0 {
		mu.Lock()
		refuse = true
		if r.Intn(3) == 0 { // only notices after a while
			slow = ms(r.Intn(15000))
			c.Count("refused late", 1)
		}
		mu.Unlock()
		go func() {
			time.Sleep(ms(r.Intn(1900)))
			a := genAnnounce(r, pick())
			w.Inject(a.from, a.frame)
		}()
		start := time.Now()
		got, err := w.cl.WhoIs(&bacnet.WhoIsOpts{})
		if err == nil {
			c.Fail("no error", "the link refused to send Who-Is, but %d devices are returned without an error", len(got))
		}
		if took := time.Since(start); took > 30*time.Second {
			c.Fail("time", "a Who-Is that the link refused took %v", took)
		}
		c.Count("cannot be sent", 1)
		time.Sleep(2 * time.Second)
	}
	w.end()
}

func (c *C) judgeWhoIs(q *whoisCall, log []*announce) {
	must, may := q.limits()
	what := fmt.Sprintf("WhoIs %d to %d from %v to %v", q.low, q.high, q.began, q.end)
	c.Eval(fmt.Sprintf("%s: %d arrived: %v", what, len(log), log[:min(len(log), 6)]))
	if q.err != nil {
		c.Fail("error", "%s: %v", what, q.err)
		return
	}
	if took := q.end - q.began; took > 30*time.Second || took < time.Second {
		c.Fail("time", "%s: took %v", what, took)
		return
	}
	if q.low <= 0 && q.high <= 0 {
		c.Count("no limits", 1)
	} else {
		c.Count("limits", 1)
		if q.high > 0 && q.low > q.high {
			c.Count("empty range", 1)
		}
	}
	need := map[uint32]*announce{}
	could := map[uint32][]*announce{}
	for _, a := range log {
		i := int(a.inst)
		if a.at < q.began || a.at > q.end {
			continue
		}
		if a.junk != "" {
			c.Count("malformed", 1)
			continue
		}
		if i < may[0] || i > may[1] {
			c.Count("announcements out of range", 1)
			continue
		}
		c.Count("announcements in range", 1)
		if i == may[0] || i == may[1] {
			c.Count("ends of the range", 1)
		}
		if a.from != a.origin {
			c.Count("forwarded", 1)
		}
		if a.src != nil {
			c.Count("routed", 1)
		}
		if a.at == q.began {
			c.Count("at the instant of the request", 1)
		}
		if l := could[a.inst]; len(l) > 0 {
			if l[0].String() == a.String() {
				c.Count("repeated", 1)
			} else {
				c.Count("several stations with one instance", 1)
			}
		}
		could[a.inst] = append(could[a.inst], a)
		if i >= must[0] && i <= must[1] && a.at > q.began && a.at < q.end {
			need[a.inst] = a
		}
	}
	seen := map[int]bool{}
	for _, d := range q.got {
		if seen[d.DeviceID] {
			c.Fail("duplicate", "%s: the instance %d is reported twice", what, d.DeviceID)
			return
		}
		seen[d.DeviceID] = true
		delete(need, uint32(d.DeviceID))
		l := could[uint32(d.DeviceID)]
		diff := "nothing such arrived"
		for _, a := range l {
			if diff = sameAnnounce(d, a); diff == "" {
				break
			}
		}
		if diff != "" {
			c.Fail("entry", "%s: reported %s, but arrived %v (%s)", what, showDevice(d), l, diff)
			return
		}
	}
	if len(need) > 0 {
		var l []string
		for _, a := range need {
			l = append(l, a.String())
		}
		sort.Strings(l)
		c.Fail("missing", "%s: %d entries, not reported: %v", what, len(q.got), l)
		return
	}
	c.Count("entries", len(q.got))
}
