package checks

import (
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/NubeDev/bacnet"
	"verif/harness/ref"
	"verif/harness/sim"
	"verif/harness/yield"
)

func init() {
	register("C18", "network queries, one or several at once and beside Who-Is, while router and network number announcements, I-Ams and malformed messages arrive at all times; the numbers returned are compared with those announced", runC18)
}

// netMsg is a network message that arrives
type netMsg struct {
	typ    byte
	nums   []uint16
	odd    bool // malformed: what it announces is not specified
	other  string
	from   sim.EP
	frame  []byte
	at     time.Duration
	router bool
}

func (m *netMsg) String() string {
	s := fmt.Sprintf("type %d %v", m.typ, m.nums)
	if len(m.nums) > 12 {
		s = fmt.Sprintf("type %d, %d numbers from %v", m.typ, len(m.nums), m.nums[:12])
	}
	if m.other != "" {
		s = m.other
	}
	return fmt.Sprintf("%s at %v", s, m.at)
}

func genNumber(r *rand.Rand) uint16 {
	switch r.Intn(6) {
	case 0:
		return []uint16{1, 2, 255, 256, 32767, 32768, 65533, 65534}[r.Intn(8)]
	case 1:
		return uint16(1 + r.Intn(20))
	case 2:
		return []uint16{0, 65535}[r.Intn(2)]
	}
	return uint16(1 + r.Intn(65534))
}

func genNetMsg(r *rand.Rand) *netMsg {
	m := &netMsg{from: genEP(r)}
	route := sim.Route{From: m.from, Bcast: r.Intn(3) > 0}
	if r.Intn(4) == 0 {
		o := m.from
		route.Forward = &o
		route.From = genEP(r)
	}
	if r.Intn(4) == 0 {
		route.Dst = &ref.Addr{Net: 65535}
	}
	if r.Intn(5) == 0 {
		route.Src = genAddr(r)
		if route.Src.Net == 0 {
			route.Src.Net = 5
		}
	}
	m.from = route.From
	num := genNumber(r)
	two := func(n uint16) []byte { return []byte{byte(n >> 8), byte(n)} }
	switch k := r.Intn(20); {
	case k < 7: // I-Am-Router-To-Network
		m.typ = 1
		n := []int{1, 1, 1, 2, 3, 10, 100, 730, 1 + r.Intn(730)}[r.Intn(9)]
		all, first := n > 50 && r.Intn(2) == 0, 1+r.Intn(64000) // no number twice
		var body []byte
		for ; n > 0; n-- {
			x := genNumber(r)
			if len(m.nums) > 0 && r.Intn(20) == 0 {
				x = m.nums[r.Intn(len(m.nums))]
			}
			if all {
				x = uint16(first + n)
			}
			m.nums = append(m.nums, x)
			body = append(body, two(x)...)
		}
		m.router = true
		if r.Intn(12) == 0 {
			m.odd = true
			body = append(body, byte(r.Intn(256)))
		}
		m.frame = route.FrameNetwork(1, body)
	case k < 13: // Network-Number-Is
		m.typ = 0x13
		m.nums = []uint16{num}
		m.frame = route.FrameNetwork(0x13, append(two(num), byte(r.Intn(2))))
		if r.Intn(12) == 0 {
			m.odd = true
			m.frame = m.frame[:len(m.frame)-1-r.Intn(2)]
			m.frame[3] = byte(len(m.frame))
		}
	case k < 15:
		m.other = fmt.Sprintf("I-Am of %d", num)
		m.frame = route.Frame(ref.IAm(ref.ObjID{Type: 8, Instance: uint32(num)}, 1476, 3, 1))
	case k < 17:
		t := []byte{0, 2, 3, 4, 5, 6, 7, 8, 9, 0x12, 0x14, 0x7f, 0x80, 0x81, 0x93, 0xff}[r.Intn(16)]
		m.other = fmt.Sprintf("network message %d", t)
		body := two(num)
		if t >= 0x80 {
			body = append(two(num), body...)
		}
		m.frame = route.FrameNetwork(t, body)
	case k < 18: // not a network message at all
		m.other = "an application message"
		m.frame = route.Frame(append([]byte{0x13}, two(num)...))
	case k < 19:
		m.other = "another link message"
		m.frame = route.FrameNetwork([]byte{1, 0x13}[r.Intn(2)], two(num))
		if r.Intn(2) == 0 {
			m.frame[0] = byte(r.Intn(0x80))
		} else {
			m.frame[1] = []byte{0, 1, 2, 3, 5, 6, 7, 8, 9, 12, 200}[r.Intn(11)]
		}
	default:
		m.other = "cut short"
		m.frame = route.FrameNetwork([]byte{1, 0x13}[r.Intn(2)], two(num))
		k := r.Intn(len(m.frame) - 1)
		m.frame = m.frame[:k]
	}
	return m
}

type netCall struct {
	router     bool
	began, end time.Duration
	got        []int
	nothing    bool
}

func runC18(c *C) {
	c.Need("long idle", "router queries", "number queries", "numbers returned", "long lists", "lists that begin with 0 or 65535", "several at once", "beside Who-Is", "at the instant of the request", "bursts", "nothing announced", "other messages", "forwarded or routed", "kept busy")
	c.Loop(0, c.N(12000, 200000), func(i int, r *rand.Rand) {
		yield.Set([]int{0, 20, 100}[i/8%3])
		defer yield.Set(0)
		calls, n := []int{1, 1, 2, 4}[r.Intn(4)], r.Intn(30)
		switch r.Intn(12) {
		case 0:
			n = 0
		case 1:
			n = 100 + r.Intn(900)
		}
		c.Bubble(fmt.Sprintf("%d queries, %d messages", calls, n), func(t *testing.T) {
			c.netQueries(calls, n, r)
		})
	})
	c.Need("very many messages")
	c.Loop(1<<20, c.N(8, 100), func(i int, r *rand.Rand) {
		n := []int{6000, 20000}[i/4%2] + r.Intn(2000)
		c.Count("very many messages", n)
		c.Bubble(fmt.Sprintf("2 queries, %d messages", n), func(t *testing.T) {
			c.netQueries(2, n, r)
		})
	})
}

func (c *C) netQueries(calls, n int, r *rand.Rand) {
	w := newWorld(0)
	c.idle(r)
	t0 := time.Now()
	var mu sync.Mutex
	var log []*netMsg
	inject := func(m *netMsg) {
		mu.Lock()
		m.at = time.Since(t0)
		log = append(log, m)
		mu.Unlock()
		w.Inject(m.from, m.frame)
	}
	var early []*netMsg
	for k := r.Intn(4); k > 0; k-- {
		early = append(early, genNetMsg(r))
	}
	w.OnSend = func(p sim.Packet) {
		mu.Lock()
		l := early
		early = nil
		mu.Unlock()
		for _, m := range l {
			inject(m)
		}
	}
	round := func(n int) {
		c.idle(r)
		time.Sleep(time.Millisecond)
		mu.Lock()
		log = nil
		mu.Unlock()
		qs := make([]*netCall, calls)
		var wg sync.WaitGroup
		for k := range qs {
			q := &netCall{router: r.Intn(2) == 0}
			qs[k] = q
			start := ms(r.Intn(1500))
			if k == 0 {
				start = 0
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(start)
				q.began = time.Since(t0)
				var got []int
				if q.router {
					l := w.cl.WhoIsRouterToNetwork()
					if l == nil {
						q.nothing = true
					} else {
						for _, a := range *l {
							got = append(got, int(a.Net))
						}
					}
				} else {
					for _, a := range w.cl.WhatIsNetworkNumber() {
						if a == nil {
							q.nothing = true
							continue
						}
						got = append(got, int(a.Net))
					}
				}
				q.got, q.end = got, time.Since(t0)
			}()
		}
		if r.Intn(4) == 0 {
			c.Count("beside Who-Is", 1)
			start := ms(r.Intn(1500))
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(start)
				w.cl.WhoIs(&bacnet.WhoIsOpts{})
			}()
		}
		span := []int{1, 100, 2000, 9000, 16000}[r.Intn(5)]
		last := 0
		for k := 0; k < n; k++ {
			m := genNetMsg(r)
			at := r.Intn(span)
			switch {
			case n > 90:
				if r.Intn(2) == 0 {
					at = r.Intn(2) * 500
				}
				c.Count("bursts", 1)
				if span > 8000 {
					c.Count("kept busy", 1)
				}
			case r.Intn(4) == 0:
				at = last
			}
			last = at
			wg.Add(1)
			d := ms(at) + time.Duration(1+r.Intn(999))*time.Microsecond
			go func() {
				defer wg.Done()
				time.Sleep(d)
				inject(m)
			}()
		}
		wg.Wait()
		for _, q := range qs {
			c.judgeNet(q, log)
		}
		if calls > 1 {
			c.Count("several at once", 1)
		}
	}
	round(n)
	for k := r.Intn(5); k > 0; k-- {
		inject(genNetMsg(r))
	}
	round(r.Intn(10))
	time.Sleep(time.Minute)
	w.end()
}

func (c *C) judgeNet(q *netCall, log []*netMsg) {
	what := fmt.Sprintf("%s from %v to %v", map[bool]string{true: "WhoIsRouterToNetwork", false: "WhatIsNetworkNumber"}[q.router], q.began, q.end)
	c.Eval(fmt.Sprintf("%s: %d arrived: %v", what, len(log), log[:min(len(log), 6)]))
	if q.router {
		c.Count("router queries", 1)
	} else {
		c.Count("number queries", 1)
	}
	if took := q.end - q.began; took > 30*time.Second || took < time.Second {
		c.Fail("time", "%s: took %v", what, took)
		return
	}
	if q.nothing {
		c.Fail("nil", "%s: returned a nil address or list", what)
		return
	}
	must, may := map[int]*netMsg{}, map[int]bool{}
	for _, m := range log {
		if m.at < q.began || m.at > q.end {
			continue
		}
		if m.other != "" {
			c.Count("other messages", 1)
			continue
		}
		if m.router != q.router {
			continue
		}
		for _, x := range m.nums {
			may[int(x)] = true
			if !m.odd && x != 0 && x != 65535 && m.at > q.began && m.at < q.end {
				must[int(x)] = m
			}
		}
		if m.at == q.began {
			c.Count("at the instant of the request", 1)
		}
		if len(m.nums) > 50 {
			c.Count("long lists", 1)
		}
		if len(m.nums) > 1 && (m.nums[0] == 0 || m.nums[0] == 65535) {
			c.Count("lists that begin with 0 or 65535", 1)
		}
		if m.frame[1] == 4 || m.frame[5]&0x08 != 0 {
			c.Count("forwarded or routed", 1)
		}
	}
	if len(may) == 0 {
		c.Count("nothing announced", 1)
	}
	for _, x := range q.got {
		delete(must, x)
		if !may[x] {
			c.Fail("number", "%s: returned %d, which was not announced: %v", what, x, q.got)
			return
		}
	}
	if len(must) > 0 {
		var l []int
		var m *netMsg
		for x, mm := range must {
			l = append(l, x)
			m = mm
		}
		sort.Ints(l)
		c.Fail("missing", "%s: returned %d numbers, not the announced %v; one message with them: %v", what, len(q.got), l[:min(len(l), 20)], m)
		return
	}
	c.Count("numbers returned", len(q.got))
}
