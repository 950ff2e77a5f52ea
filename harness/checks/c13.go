package checks

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/NubeDev/bacnet/tsm"
	"verif/harness/yield"
)

func init() {
	register("C13", "histories of acquisitions (with contexts that end or do not) and releases of one transaction manager: step by step against a model of the free ids, and many goroutines at once whose call and return log is judged afterwards", runC13)
}

const idCount = 254

func runC13(c *C) {
	c.Need("long idle", "steps", "ids acquired", "acquisitions that waited", "woken by a release", "context ended while waiting", "context ended before", "released", "not held released", "full", "reused after all the others", "concurrent histories", "concurrent acquisitions", "concurrent failures")
	sizes := []int{1, 2, 3, 5, 20, 20, 100, 253, 254, 255, 300, 0}
	c.Loop(0, c.N(4000, 40000), func(i int, r *rand.Rand) {
		size := sizes[i/8%len(sizes)]
		steps := 50 + r.Intn(1500)
		seed := r.Int63()
		c.Bubble(fmt.Sprintf("size %d, %d steps", size, steps), func(t *testing.T) {
			c.idModel(size, steps, rand.New(rand.NewSource(seed)))
		})
		c.Eval(fmt.Sprintf("model size %d steps %d seed %d", size, steps, seed))
	})
	c.Need("steps of worn managers")
	c.Loop(1<<19, c.N(16, 160), func(i int, r *rand.Rand) {
		size := sizes[r.Intn(len(sizes)-1)]
		n := []int{40000, 150000, 300000, 600000}[r.Intn(4)]
		if i < 8 {
			n = 300000
		}
		c.Bubble(fmt.Sprintf("size %d, %d steps", size, n), func(t *testing.T) { c.idWorn(size, n, r) })
	})
	c.Loop(1<<20, c.N(2400, 30000), func(i int, r *rand.Rand) {
		size := []int{1, 2, 5, 20, 20, 100, 254, 300}[i/8%8]
		workers := []int{2, 4, 16, 40, 300}[r.Intn(5)]
		per := 6000 / workers
		yield.Set([]int{0, 50, 200}[r.Intn(3)])
		defer yield.Set(0)
		seed := r.Int63()
		c.Bubble(fmt.Sprintf("size %d, %d workers with %d acquisitions each", size, workers, per), func(t *testing.T) {
			c.idStress(size, workers, per, seed)
		})
		c.Eval(fmt.Sprintf("stress size %d workers %d seed %d", size, workers, seed))
	})
}

// idWorn acquires and releases very often; which id is next is known
func (c *C) idWorn(size, n int, r *rand.Rand) {
	m := tsm.New(size)
	most := min(size, idCount)
	queue := []int{} // as they will be handed out, once known
	var held []int
	seen := map[int]bool{}
	for k := 0; k < n; k++ {
		if len(held) < most && (len(held) == 0 || r.Intn(2) == 0) {
			ctx, cancel := context.WithTimeout(context.Background(), time.Second)
			id, err := m.ID(ctx)
			cancel()
			if err != nil {
				c.Fail("ids", "manager of size %d, step %d: %v; %d ids held", size, k, err, len(held))
				return
			}
			if id < 1 || id > idCount {
				c.Fail("ids", "manager of size %d, step %d: the id %d was handed out", size, k, id)
				return
			}
			if !seen[id] {
				seen[id] = true
			} else if len(seen) < idCount || len(queue) == 0 || queue[0] != id {
				c.Fail("ids", "manager of size %d, step %d: the id %d was handed out before others that have been free for longer", size, k, id)
				return
			} else {
				queue = queue[1:]
			}
			held = append(held, id)
			continue
		}
		j := r.Intn(len(held))
		id := held[j]
		held = append(held[:j], held[j+1:]...)
		if err := m.Put(id); err != nil {
			c.Fail("ids", "manager of size %d, step %d: releasing the id %d, which is held: %v", size, k, id, err)
			return
		}
		queue = append(queue, id)
	}
	for _, id := range held {
		m.Put(id)
	}
	for k := 0; k <= most; k++ {
		ctx, cancel := context.WithTimeout(context.Background(), time.Second)
		id, err := m.ID(ctx)
		cancel()
		if (err == nil) != (k < most) {
			c.Fail("ids", "after %d steps and everything was released, acquisition %d of a manager of size %d returned %d, %v", n, k+1, size, id, err)
			return
		}
	}
	c.Count("steps of worn managers", n)
	c.Eval(fmt.Sprintf("worn manager of size %d, %d steps", size, n))
}

type acquired struct {
	id  int
	err error
	at  time.Time
}

type waiter struct {
	cancel   context.CancelFunc
	deadline time.Time // zero: none
	began    time.Time
	ended    bool // the context ended before the acquisition began
	res      atomic.Pointer[acquired]
}

// idModel runs the steps one after another; what waits does so in other goroutines
func (c *C) idModel(size, steps int, r *rand.Rand) {
	m := tsm.New(size)
	most := min(size, idCount)
	held := map[int]bool{}
	freed := map[int]int{} // when the id was released; 0 never held
	for id := 1; id <= idCount; id++ {
		freed[id] = 0
	}
	clock := 0
	var waiting []*waiter
	failed := false
	bad := func(f string, a ...any) {
		failed = true
		c.Fail("ids", "manager of size %d, step %d: %s; %d ids held, %d acquisitions waiting", size, clock, fmt.Sprintf(f, a...), len(held), len(waiting))
	}
	settle := func() {
		synctest.Wait()
		now := time.Now()
		var left []*waiter
		got := []int{}
		for _, w := range waiting {
			a := w.res.Load()
			if a == nil {
				left = append(left, w)
				continue
			}
			w.cancel()
			if a.err != nil {
				over := w.ended || (!w.deadline.IsZero() && !a.at.Before(w.deadline))
				if !over {
					bad("an acquisition failed although its context had not ended: %v", a.err)
				}
				if !w.ended {
					c.Count("context ended while waiting", 1)
					if a.at.Sub(w.deadline) > 0 {
						bad("an acquisition returned %v after its context had ended", a.at.Sub(w.deadline))
					}
				} else {
					c.Count("context ended before", 1)
				}
				continue
			}
			if a.at.After(w.began) {
				c.Count("woken by a release", 1)
			}
			got = append(got, a.id)
		}
		waiting = left
		// which of several got its id first is not known: the longest free first
		sort.Slice(got, func(i, j int) bool { return freed[got[i]] < freed[got[j]] })
		for _, id := range got {
			if id < 1 || id > idCount {
				bad("the id %d was handed out", id)
				return
			}
			if held[id] {
				bad("the id %d was handed out while it was held", id)
				return
			}
			for o, f := range freed {
				if f < freed[id] {
					bad("the id %d, released at step %d, was handed out before %d, free since step %d", id, freed[id], o, f)
					return
				}
			}
			if freed[id] > 0 {
				c.Count("reused after all the others", 1)
			}
			delete(freed, id)
			held[id] = true
			c.Count("ids acquired", 1)
		}
		if len(held) > most {
			bad("more ids are held than the size")
			return
		}
		for _, w := range waiting {
			if w.ended || (!w.deadline.IsZero() && now.After(w.deadline)) {
				bad("an acquisition goes on although its context has ended")
				return
			}
		}
		if len(waiting) > 0 && len(held) < most {
			bad("acquisitions wait although only %d of %d ids are held", len(held), most)
			return
		}
		if len(held) == most {
			c.Count("full", 1)
		}
	}
	acquire := func(mode int) {
		w := &waiter{began: time.Now(), cancel: func() {}}
		ctx := context.Background()
		switch mode {
		case 0: // ended before
			ctx, w.cancel = context.WithCancel(ctx)
			w.cancel()
			w.ended = true
		case 1, 2, 3:
			d := ms(1+r.Intn(1000)) + time.Duration(1+r.Intn(999))*time.Nanosecond
			w.deadline = w.began.Add(d)
			ctx, w.cancel = context.WithDeadline(ctx, w.deadline)
		default:
			ctx, w.cancel = context.WithCancel(ctx)
		}
		if len(held)+len(waiting) >= most {
			c.Count("acquisitions that waited", 1)
		}
		waiting = append(waiting, w)
		go func() {
			id, err := m.ID(ctx)
			w.res.Store(&acquired{id, err, time.Now()})
		}()
	}
	anyHeld := func() int {
		ids := make([]int, 0, len(held))
		for id := range held {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		return ids[r.Intn(len(ids))]
	}
	release := func(id int) {
		clock++
		was := held[id]
		err := m.Put(id)
		if was != (err == nil) {
			bad("releasing the id %d, held: %v, returned %v", id, was, err)
			return
		}
		if was {
			delete(held, id)
			freed[id] = clock
			c.Count("released", 1)
		} else {
			c.Count("not held released", 1)
		}
	}
	fill := r.Intn(100) // how full it is kept
	for s := 0; s < steps && !failed; s++ {
		clock++
		switch k := r.Intn(100); {
		case k < 8: // several at once
			n := 1 + r.Intn(size/2+3)
			for ; n > 0 && len(waiting) < 400; n-- {
				acquire(r.Intn(5))
			}
			settle()
		case k < 50:
			acquire(r.Intn(6))
			settle()
		case k < 60:
			id := []int{0, -1, 255, 256, math.MaxInt, math.MinInt, 1 + r.Intn(idCount), 1 + r.Intn(idCount), 1 + r.Intn(idCount)}[r.Intn(9)]
			if !held[id] {
				release(id)
				settle()
			}
		case k < 65: // twice
			if len(held) > 0 {
				id := anyHeld()
				release(id)
				if len(waiting) == 0 {
					release(id)
				}
				settle()
			}
		case k < 70:
			fill = r.Intn(100)
		case k < 80:
			time.Sleep(ms(r.Intn(500)))
			if r.Intn(20) == 0 {
				c.idle(r)
			}
			settle()
		case k < 84: // data do not change what is free
			if len(held) > 0 {
				id := anyHeld()
				m.Send(id, clock)
				m.Send(id, clock)
				if r.Intn(2) == 0 {
					m.Receive(id, ms(1))
				}
			}
			id := 1 + r.Intn(idCount)
			if !held[id] {
				m.Send(id, clock)
				m.Receive(id, ms(1))
			}
			settle()
		default:
			n := 1
			if k > 97 {
				n = len(held)
			}
			for ; n > 0 && len(held) > 0 && (n > 1 || len(held)*100 >= fill*most); n-- {
				release(anyHeld())
				if r.Intn(2) == 0 {
					settle()
				}
			}
			settle()
		}
	}
	c.Count("steps", steps)
	if failed {
		return
	}
	// the end: nothing was used up
	for _, w := range waiting {
		w.ended = true
		w.cancel()
	}
	settle()
	for !failed && len(held) < most {
		n := len(held)
		acquire(5)
		settle()
		if !failed && len(held) == n {
			bad("no id to be had although only %d of %d are held", n, most)
		}
	}
	for _, w := range waiting {
		w.cancel()
	}
}

type idEvent struct {
	id             int
	call, ret      int64 // of the acquisition
	putCall, putAt int64 // of the release
	err            error
}

// idStress lets many goroutines acquire and release and judges the log
func (c *C) idStress(size, workers, per int, seed int64) {
	m := tsm.New(size)
	var tick atomic.Int64
	logs := make([][]idEvent, workers)
	var wg sync.WaitGroup
	for k := range logs {
		wg.Add(1)
		r := rand.New(rand.NewSource(seed + int64(k)))
		go func() {
			defer wg.Done()
			for j := 0; j < per; j++ {
				var e idEvent
				ctx, cancel := context.Background(), func() {}
				switch r.Intn(6) {
				case 0:
					var cf context.CancelFunc
					ctx, cf = context.WithTimeout(ctx, time.Duration(r.Intn(2000))*time.Microsecond)
					cancel = cf
				case 1:
					var cf context.CancelFunc
					ctx, cf = context.WithCancel(ctx)
					cancel = cf
					go cf()
				}
				e.call = tick.Add(1)
				e.id, e.err = m.ID(ctx)
				e.ret = tick.Add(1)
				cancel()
				if e.err == nil {
					switch r.Intn(4) {
					case 0:
						time.Sleep(time.Duration(r.Intn(1000)) * time.Microsecond)
					case 1:
						m.Send(e.id, j)
						m.Receive(e.id, time.Millisecond)
					}
					e.putCall = tick.Add(1)
					err := m.Put(e.id)
					e.putAt = tick.Add(1)
					if err != nil {
						c.Fail("ids", "releasing the id %d, which was held: %v", e.id, err)
					}
				} else if r.Intn(3) == 0 {
					time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
				}
				logs[k] = append(logs[k], e)
			}
		}()
	}
	wg.Wait()
	var all []idEvent
	var steps []step
	for k, l := range logs {
		for _, e := range l {
			steps = append(steps, step{e.call, k, 0}, step{e.ret, k, 1})
			if e.err == nil {
				steps = append(steps, step{e.putCall, k, 2}, step{e.putAt, k, 3})
			}
			if e.err == nil {
				all = append(all, e)
				if e.id < 1 || e.id > idCount {
					c.Fail("ids", "the id %d was handed out", e.id)
					return
				}
			} else {
				c.Count("concurrent failures", 1)
			}
		}
	}
	c.Order(steps)
	c.Count("concurrent histories", 1)
	c.Count("concurrent acquisitions", len(all))
	c.judgeIDs(size, all)
	// nothing was used up
	most := min(size, idCount)
	for n := 0; n <= most; n++ {
		ctx, cancel := context.WithTimeout(context.Background(), time.Second)
		id, err := m.ID(ctx)
		cancel()
		if (err == nil) != (n < most) {
			c.Fail("ids", "after everything was released, acquisition %d of a manager of size %d returned %d, %v", n+1, size, id, err)
			return
		}
	}
}

func (c *C) judgeIDs(size int, all []idEvent) {
	byID := map[int][]idEvent{}
	for _, e := range all {
		byID[e.id] = append(byID[e.id], e)
	}
	type edge struct {
		at int64
		d  int
	}
	var edges []edge
	for id, l := range byID {
		sort.Slice(l, func(i, j int) bool { return l[i].ret < l[j].ret })
		for i, e := range l {
			edges = append(edges, edge{e.ret, 1}, edge{e.putCall, -1})
			if i > 0 && e.ret < l[i-1].putCall {
				c.Fail("ids", "the id %d was handed out at %d while it was held from %d to %d", id, e.ret, l[i-1].ret, l[i-1].putCall)
				return
			}
		}
	}
	sort.Slice(edges, func(i, j int) bool { return edges[i].at < edges[j].at })
	n, peak := 0, 0
	for _, e := range edges {
		n += e.d
		peak = max(peak, n)
	}
	if peak > size || peak > idCount {
		c.Fail("ids", "%d ids were held at once, the size is %d", peak, size)
		return
	}
	if peak == min(size, idCount) {
		c.Count("full", 1)
	}
	// the order in which free ids are handed out
	for id, l := range byID {
		for i := 1; i < len(l); i++ {
			x, freed := l[i], l[i-1].putCall
			for other := 1; other <= idCount; other++ {
				if other == id {
					continue
				}
				// the last release of the other that was over when this one began
				o := byID[other]
				k := sort.Search(len(o), func(k int) bool { return o[k].putAt >= freed })
				// the acquisition after it
				if k < len(o) && o[k].call < x.ret {
					continue
				}
				since := int64(0)
				if k > 0 {
					since = o[k-1].putAt
				}
				c.Fail("ids", "the id %d, released at %d, was handed out again at %d before %d, which was free since %d", id, freed, x.ret, other, since)
				return
			}
		}
	}
}
