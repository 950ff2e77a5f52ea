package checks

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/utsm"
	"verif/harness/yield"
)

func init() {
	register("C15", "schedules of publications and overlapping subscriptions on one manager in virtual time, where the data and the instant of return of every subscription are known exactly; one publisher after another, and many publishers and subscribers at the same instants (with and without the race detector)", runC15)
}

func runC15(c *C) {
	c.Need("subscriptions", "publications", "data received", "ended by quiet", "ended by the overall timeout", "several subscriptions got one datum", "publications to nobody", "at the lower limit", "at the upper limit", "just outside", "concurrent", "published at the instant of opening", "closing at the instant of other events")
	n := c.N(8000, 120000)
	if c.Race {
		n = c.N(400, 8000)
	}
	c.Loop(0, n, func(i int, r *rand.Rand) {
		yield.Set([]int{0, 0, 50, 200}[r.Intn(4)])
		defer yield.Set(0)
		seed := r.Int63()
		publishers := []int{1, 1, 2, 5, 20}[r.Intn(5)]
		subs := []int{1, 2, 5, 20, 60}[r.Intn(5)]
		if r.Intn(40) == 0 {
			subs = 150 + r.Intn(300)
			c.Count("hundreds of subscriptions", 1)
		}
		c.Bubble(fmt.Sprintf("%d publishers, %d subscribers", publishers, subs), func(t *testing.T) {
			c.pubsub(publishers, subs, rand.New(rand.NewSource(seed)))
		})
		c.Eval(fmt.Sprintf("publishers %d subscribers %d seed %d", publishers, subs, seed))
	})
	if !c.Race {
		c.Need("data to worn subscriptions", "hundreds of subscriptions")
		c.Loop(1<<20, c.N(816, 10016), func(i int, r *rand.Rand) {
			n := []int{100000, 3000, 20000, 70000}[i/8%2+2*r.Intn(2)]
			if i >= 16 {
				n = 1 + r.Intn(100)
			}
			c.Bubble(fmt.Sprintf("%d data", n), func(t *testing.T) { c.pubMany(n, r) })
		})
	}
}

// pubMany publishes very much to a few subscriptions
func (c *C) pubMany(n int, r *rand.Rand) {
	m := utsm.NewManager(utsm.DefaultSubscriberTimeout(10*time.Second), utsm.DefaultSubscriberLastReceivedTimeout(time.Second))
	got := make([][]any, 1+r.Intn(3))
	lo := r.Intn(1000)
	var wg sync.WaitGroup
	for k := range got {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var err error
			if got[k], err = m.Subscribe(lo-k, lo+k); err != nil {
				c.Fail("subscribe", "%v", err)
			}
		}()
	}
	synctest.Wait()
	datum := genData(r)
	pause := []time.Duration{0, 0, min(time.Second/time.Duration(n)*5, ms(100))}[r.Intn(3)]
	time.Sleep(time.Millisecond)
	for d := 0; d < n; d++ {
		m.Publish(lo, datum(d))
		if pause > 0 {
			time.Sleep(pause)
		}
	}
	wg.Wait()
	for k, l := range got {
		for d := range l {
			if want := datum(d); !reflect.DeepEqual(l[d], want) {
				c.Fail("subscribe", "subscription %d of %d to %d data: datum %d is %v instead of %v", k, len(got), n, d, l[d], want)
				return
			}
		}
		if len(l) != n {
			c.Fail("subscribe", "subscription %d of %d to %d data received %d", k, len(got), n, len(l))
			return
		}
	}
	c.Count("data to worn subscriptions", n*len(got))
	c.Eval(fmt.Sprintf("%d data to %d subscriptions", n, len(got)))
}

// genData gives the data of a series: all different, alike, or alternating; what can be
// compared and what cannot
func genData(r *rand.Rand) func(int) any {
	m := []int{1, 1, 2, 3, 10}[r.Intn(5)]
	switch r.Intn(9) {
	case 0, 1:
		return func(d int) any { return d }
	case 2:
		return func(d int) any { return d % m }
	case 3:
		return func(d int) any { return d / m }
	case 4:
		return func(d int) any { return nil }
	case 5:
		return func(d int) any { return []byte{byte(d % m)} }
	case 6:
		return func(d int) any { return map[int]int{d % m: 1} }
	case 7:
		return func(d int) any {
			return btypes.IAm{MaxApdu: uint32(d % m), Addr: btypes.Address{Mac: []uint8{10, 0, 0, byte(d / m)}}}
		}
	}
	l := []any{nil, 0, "", 0.0, false, []int(nil), error(nil), struct{}{}, int8(0), "0", []any{}}
	return func(d int) any { return l[d*m%len(l)] }
}

type pubLog struct {
	id        int
	at        time.Duration // since the start
	call, ret int64
	datum     any
}

type subLog struct {
	lo, hi     int
	began, end time.Duration
	call       int64
	got, kept  []any
	err        error
	returned   bool
}

func genSubID(r *rand.Rand) int {
	switch r.Intn(12) {
	case 0:
		return []int{math.MinInt, math.MaxInt, -1, 0, 65535, 4194303, 4194304}[r.Intn(7)]
	case 1:
		return r.Intn(4194304)
	}
	return r.Intn(30)
}

func (c *C) pubsub(publishers, subscribers int, r *rand.Rand) {
	t0 := time.Now()
	quiet := ms(1+r.Intn(400)) + 300*time.Microsecond
	overall := ms(1+r.Intn(4000)) + 700*time.Microsecond
	switch r.Intn(12) {
	case 0:
		overall = time.Duration(r.Intn(2)) * 700 * time.Microsecond
	case 1:
		quiet = time.Duration(r.Intn(2)) * 300 * time.Microsecond
	}
	var opts []utsm.ManagerOption
	opts = append(opts, utsm.DefaultSubscriberTimeout(overall), utsm.DefaultSubscriberLastReceivedTimeout(quiet))
	if r.Intn(2) == 0 {
		opts[0], opts[1] = opts[1], opts[0]
	}
	switch r.Intn(10) {
	case 0:
		opts, overall, quiet = nil, 10*time.Second, time.Second
		if r.Intn(2) == 0 {
			quiet = ms(r.Intn(5000)) + 300500*time.Nanosecond
			opts = append(opts, utsm.DefaultSubscriberLastReceivedTimeout(quiet))
		}
	}
	m := utsm.NewManager(opts...)
	span := overall
	if span > 4*time.Second {
		span = 4 * time.Second
	}
	span += ms(50)
	spanMs := int(span / time.Millisecond)
	var tick atomic.Int64
	var mu sync.Mutex
	var pubs []*pubLog
	subs := make([]*subLog, subscribers)
	datum := 0
	// the default periods end on whole milliseconds, where no publication may be
	off := time.Duration(0)
	if opts == nil || len(opts) == 1 {
		off = 100 * time.Microsecond
	}
	var wg sync.WaitGroup
	grain := 1 + r.Intn(20)
	for k := range subs {
		s := &subLog{}
		a, b := genSubID(r), genSubID(r)
		if a > b && r.Intn(8) > 0 {
			a, b = b, a
		}
		if r.Intn(6) == 0 {
			b = a
		}
		s.lo, s.hi = a, b
		subs[k] = s
		s.began = ms(r.Intn(spanMs)/grain*grain) + off/2*time.Duration(r.Intn(2))
		if opts != nil && len(opts) == 2 {
			s.began = ms(r.Intn(spanMs) / grain * grain)
		}
	}
	var scripts [][]*pubLog
	burst := r.Intn(4) == 0
	for k := 0; k < publishers; k++ {
		var l []*pubLog
		n := 1 + r.Intn(600/publishers)
		base := r.Intn(spanMs)
		for j := 0; j < n; j++ {
			p := &pubLog{id: genSubID(r)}
			if len(subs) > 0 && r.Intn(2) == 0 {
				s := subs[r.Intn(len(subs))]
				p.id = []int{s.lo, s.hi, s.lo - 1, s.hi + 1}[r.Intn(4)]
			}
			p.at = ms(r.Intn(spanMs)/grain*grain) + off
			if burst {
				p.at = ms(base+r.Intn(3)) + off
			}
			datum++
			p.datum = datum
			if off > 0 {
				// no two publications a whole quiet period apart: whether
				// the second still counts would be open
				p.at += time.Duration(datum) * time.Microsecond
			}
			l = append(l, p)
			pubs = append(pubs, p)
		}
		sort.SliceStable(l, func(i, j int) bool { return l[i].at < l[j].at })
		scripts = append(scripts, l)
	}
	for _, s := range subs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(s.began)
			s.call = tick.Add(1)
			got, err := m.Subscribe(s.lo, s.hi)
			mu.Lock()
			s.got, s.err, s.returned = got, err, true
			s.end = time.Since(t0)
			s.kept = append([]any(nil), got...)
			mu.Unlock()
		}()
	}
	for _, l := range scripts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, p := range l {
				if d := p.at - time.Since(t0); d > 0 {
					time.Sleep(d)
				}
				if at := time.Since(t0); at != p.at {
					c.Fail("publish", "a publication at %v could begin only at %v: the one before took time", p.at, at)
					return
				}
				p.call = tick.Add(1)
				m.Publish(p.id, p.datum)
				p.ret = tick.Add(1)
				if at := time.Since(t0); at != p.at {
					c.Fail("publish", "a publication to %d took %v", p.id, at-p.at)
					return
				}
			}
		}()
	}
	wg.Wait()
	synctest.Wait()
	var steps []step
	for k, l := range scripts {
		for _, p := range l {
			steps = append(steps, step{p.call, k, 0}, step{p.ret, k, 1})
		}
	}
	for k, s := range subs {
		steps = append(steps, step{s.call, 1000 + k, 2})
	}
	c.Order(steps)
	sort.SliceStable(pubs, func(i, j int) bool { return pubs[i].ret < pubs[j].ret })
	byDatum := map[any]*pubLog{}
	for _, p := range pubs {
		byDatum[p.datum] = p
	}
	times := map[any]int{}
	for _, s := range subs {
		c.judgeSub(s, pubs, byDatum, quiet, overall, subs)
		for _, d := range s.got {
			times[d]++
		}
	}
	for _, p := range pubs {
		switch n := times[p.datum]; {
		case n == 0:
			c.Count("publications to nobody", 1)
		case n > 1:
			c.Count("several subscriptions got one datum", 1)
		}
	}
	c.Count("subscriptions", len(subs))
	c.Count("publications", len(pubs))
	if publishers > 1 {
		c.Count("concurrent", 1)
	}
}

func (c *C) judgeSub(s *subLog, pubs []*pubLog, byDatum map[any]*pubLog, quiet, overall time.Duration, all []*subLog) {
	what := fmt.Sprintf("a subscription to %d..%d from %v to %v, overall %v, quiet %v", s.lo, s.hi, s.began, s.end, overall, quiet)
	if s.err != nil {
		c.Fail("subscribe", "%s returned an error: %v", what, s.err)
		return
	}
	if fmt.Sprint(s.got) != fmt.Sprint(s.kept) {
		c.Fail("subscribe", "%s: what was returned has changed: first %v, now %v", what, s.kept, s.got)
		return
	}
	// when it has to end
	last, ends := s.began, s.began+min(quiet, overall)
	var must []*pubLog
	byTime := append([]*pubLog(nil), pubs...)
	sort.SliceStable(byTime, func(i, j int) bool { return byTime[i].at < byTime[j].at })
	for _, p := range byTime {
		if p.id < s.lo || p.id > s.hi {
			if p.id == s.lo-1 || p.id == s.hi+1 {
				c.Count("just outside", 1)
			}
			continue
		}
		if p.at == s.began {
			c.Count("published at the instant of opening", 1)
		}
		if p.at > s.began && p.at < ends {
			must = append(must, p)
			last = p.at
			ends = min(last+quiet, s.began+overall)
			if p.id == s.lo {
				c.Count("at the lower limit", 1)
			}
			if p.id == s.hi {
				c.Count("at the upper limit", 1)
			}
		}
	}
	ends = max(ends, s.began)
	if s.end != ends {
		c.Fail("subscribe", "%s should have ended at %v (last matching publication at %v); it returned %d data", what, ends, last, len(s.got))
		return
	}
	if ends == s.began+overall {
		c.Count("ended by the overall timeout", 1)
	} else {
		c.Count("ended by quiet", 1)
	}
	for _, o := range all {
		if o != s && (o.end == s.began || o.began == s.began || o.end == s.end) {
			c.Count("closing at the instant of other events", 1)
			break
		}
	}
	seen := map[any]bool{}
	latest := int64(0) // the latest call among those received so far
	for i, d := range s.got {
		p := byDatum[d]
		switch {
		case p == nil:
			c.Fail("subscribe", "%s returned %v, which nobody published", what, d)
		case seen[d]:
			c.Fail("subscribe", "%s returned datum %v more than once: %v", what, d, s.got)
		case p.id < s.lo || p.id > s.hi:
			c.Fail("subscribe", "%s returned datum %v, published with id %d", what, d, p.id)
		case p.at < s.began || p.at > s.end || p.ret < s.call:
			c.Fail("subscribe", "%s returned datum %v, published at %v", what, d, p.at)
		case p.ret < latest:
			c.Fail("subscribe", "%s returned datum %v at place %d after one that was published later: %v", what, d, i, s.got)
		default:
			seen[d] = true
			latest = max(latest, p.call)
			continue
		}
		return
	}
	for _, p := range must {
		if !seen[p.datum] {
			c.Fail("subscribe", "%s did not return datum %v, published at %v with id %d; it returned %v", what, p.datum, p.at, p.id, s.got)
			return
		}
	}
	c.Count("data received", len(s.got))
}
