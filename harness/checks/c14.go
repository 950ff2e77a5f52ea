package checks

import (
	"context"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/NubeDev/bacnet/tsm"
	"verif/harness/yield"
)

func init() {
	register("C14", "histories of sends, receives with timeouts, acquisitions and releases on one transaction manager: step by step against a model in virtual time, and many goroutines at once (with and without the race detector) whose log of unique data is judged afterwards", runC14)
}

func runC14(c *C) {
	c.Need("long idle", "steps", "received before waiting", "received while waiting", "timed out", "released while waiting", "sent to no transaction", "received from no transaction", "undelivered at release", "all held", "reopened at once", "concurrent histories", "concurrent data received", "concurrent transactions", "concurrent sends refused")
	n := c.N(2400, 40000)
	if c.Race {
		n = c.N(200, 4000)
	}
	c.Loop(0, n, func(i int, r *rand.Rand) {
		yield.Set([]int{0, 100}[i/8%2])
		defer yield.Set(0)
		steps, seed := 50+r.Intn(700), r.Int63()
		c.Bubble(fmt.Sprintf("%d steps", steps), func(t *testing.T) {
			c.txModel(steps, rand.New(rand.NewSource(seed)))
		})
		c.Eval(fmt.Sprintf("model steps %d seed %d", steps, seed))
	})
	if !c.Race {
		c.Need("data of worn managers")
		c.Loop(1<<19, c.N(8, 80), func(i int, r *rand.Rand) {
			c.Bubble("worn manager", func(t *testing.T) { c.txWorn(300000, r) })
		})
	}
	n = c.N(1600, 30000)
	if c.Race {
		n = c.N(240, 5000)
	}
	c.Loop(1<<20, n, func(i int, r *rand.Rand) {
		yield.Set([]int{0, 50, 200}[r.Intn(3)])
		defer yield.Set(0)
		owners, mode, seed := []int{1, 2, 8, 30}[r.Intn(4)], i/8%4, r.Int63()
		c.Bubble(fmt.Sprintf("%d owners, mode %d", owners, mode), func(t *testing.T) {
			c.txStress(owners, 1500/owners, mode, seed)
		})
		c.Eval(fmt.Sprintf("stress owners %d mode %d seed %d", owners, mode, seed))
	})
}

// txWorn runs very many transactions one after another, some of them for long
func (c *C) txWorn(n int, r *rand.Rand) {
	m := tsm.New([]int{1, 20, 254}[r.Intn(3)])
	datum := 0
	for k := 0; k < n; {
		id, err := m.ID(context.Background())
		if err != nil {
			c.Fail("delivery", "after %d steps no id: %v", k, err)
			return
		}
		parcels := 1
		if r.Intn(50) == 0 {
			parcels = 1 + r.Intn(3000)
		}
		for ; parcels > 0; parcels-- {
			datum++
			k++
			if err := m.Send(id, datum); err != nil {
				c.Fail("delivery", "after %d steps a send to id %d failed although nothing sent before is left: %v", k, id, err)
				return
			}
			v, err := m.Receive(id, time.Second)
			if err != nil || v != datum {
				c.Fail("delivery", "after %d steps a receive from id %d returned %v, %v; sent was %d", k, id, v, err, datum)
				return
			}
		}
		if r.Intn(3) == 0 {
			datum++
			if err := m.Send(id, datum); err != nil { // is lost
				c.Fail("delivery", "after %d steps a send to id %d failed although nothing sent before is left: %v", k, id, err)
				return
			}
		}
		if err := m.Put(id); err != nil {
			c.Fail("delivery", "after %d steps releasing id %d failed: %v", k, id, err)
			return
		}
		if err := m.Send(id, -1); err == nil {
			c.Fail("delivery", "after %d steps a send to id %d, which is not open, succeeded", k, id)
			return
		}
	}
	c.Count("data of worn managers", n)
	c.Eval(fmt.Sprintf("worn manager, %d data", n))
}

type outcome struct {
	val any
	err error
	at  time.Time
}

type receiver struct {
	id       int
	tx       int // the transaction that was open when it began, 0: none
	began    time.Time
	timeout  time.Duration
	released bool
	res      atomic.Pointer[outcome]
}

type openTx struct {
	tx   int
	data map[any]bool // accepted and not received
}

func (c *C) txModel(steps int, r *rand.Rand) {
	size := []int{1, 3, 20, 254}[r.Intn(4)]
	m := tsm.New(size)
	open := map[int]*openTx{}
	txs, datum, step := 0, 0, 0
	var waiting []*receiver
	failed := false
	bad := func(f string, a ...any) {
		failed = true
		c.Fail("delivery", "step %d: %s", step, fmt.Sprintf(f, a...))
	}
	settle := func() {
		synctest.Wait()
		now := time.Now()
		var left []*receiver
		for _, w := range waiting {
			o := w.res.Load()
			if o == nil {
				if !now.Before(w.began.Add(w.timeout)) {
					bad("a receive from id %d with a timeout of %v goes on after %v", w.id, w.timeout, now.Sub(w.began))
				}
				if t := open[w.id]; !w.released && t != nil && t.tx == w.tx && len(t.data) > 0 {
					bad("a receive from id %d waits although data were sent: %v", w.id, t.data)
				}
				if w.released {
					bad("a receive from id %d goes on although its transaction was released", w.id)
				}
				left = append(left, w)
				continue
			}
			took := o.at.Sub(w.began)
			t := open[w.id]
			if o.err == nil {
				switch {
				case w.tx == 0:
					bad("a receive from id %d, which was not open, returned %v", w.id, o.val)
				case t == nil || t.tx != w.tx:
					bad("a receive from transaction %d on id %d returned %v after the release", w.tx, w.id, o.val)
				case !t.data[o.val]:
					bad("a receive from id %d returned %v; sent and not received are %v", w.id, o.val, t.data)
				default:
					delete(t.data, o.val)
				}
				if took > 0 {
					c.Count("received while waiting", 1)
				} else {
					c.Count("received before waiting", 1)
				}
				continue
			}
			switch {
			case w.tx == 0:
				c.Count("received from no transaction", 1)
			case w.released:
				c.Count("released while waiting", 1)
			case w.timeout > 0 && took != w.timeout:
				bad("a receive from id %d with a timeout of %v failed after %v: %v", w.id, w.timeout, took, o.err)
			default:
				if w.timeout > 0 && t != nil && t.tx == w.tx && len(t.data) > 0 {
					bad("a receive from id %d failed (%v) although data were sent: %v", w.id, o.err, t.data)
				}
				c.Count("timed out", 1)
			}
			if took > max(w.timeout, 0) {
				bad("a receive from id %d with a timeout of %v failed after %v", w.id, w.timeout, took)
			}
		}
		waiting = left
	}
	anyID := func() int {
		if len(open) > 0 && r.Intn(10) > 0 {
			ids := make([]int, 0, len(open))
			for id := range open {
				ids = append(ids, id)
			}
			sort.Ints(ids)
			return ids[r.Intn(len(ids))]
		}
		return []int{0, -1, 255, math.MaxInt, 1 + r.Intn(254), 1 + r.Intn(20)}[r.Intn(6)]
	}
	acquire := func() bool {
		ctx, cancel := context.WithCancel(context.Background())
		if len(open) == size || r.Intn(4) == 0 {
			cancel()
		}
		id, err := m.ID(ctx)
		cancel()
		if err == nil {
			txs++
			if open[id] != nil {
				bad("the id %d was handed out while it was held", id)
			}
			open[id] = &openTx{tx: txs, data: map[any]bool{}}
		}
		return err == nil
	}
	for step = 0; step < steps && !failed; step++ {
		switch k := r.Intn(100); {
		case k < 20:
			acquire()
			if size == 254 && r.Intn(40) == 0 { // all that there are
				for n := 0; len(open) < size && n < 10*size; n++ {
					acquire()
				}
				c.Count("all held", 1)
			}
		case k < 45:
			for n := 1 + r.Intn(3); n > 0; n-- {
				id := anyID()
				datum++
				var d any = datum
				switch r.Intn(6) {
				case 0:
					d = fmt.Sprint("datum ", datum)
				case 1:
					d = errors.New(fmt.Sprint("error ", datum))
				case 2:
					if open[id] == nil || !open[id].data[nil] {
						d = nil
					}
				}
				before := time.Now()
				err := m.Send(id, d)
				if t := time.Since(before); t > 0 {
					bad("a send to id %d took %v", id, t)
				}
				t := open[id]
				switch {
				case t == nil:
					if err == nil {
						bad("a send to id %d, which is not open, succeeded", id)
					}
					c.Count("sent to no transaction", 1)
				case err == nil:
					t.data[d] = true
				case len(t.data) == 0:
					bad("a send to id %d failed although nothing sent before is left: %v", id, err)
				}
				if r.Intn(2) == 0 {
					settle()
				} else if err != nil || n > 1 {
					// what was received meanwhile has to be known before the next send
					settle()
				}
			}
			settle()
		case k < 75:
			id := anyID()
			w := &receiver{id: id, began: time.Now(), timeout: time.Duration(r.Intn(3_000_000))*time.Microsecond + time.Duration(1+r.Intn(999))}
			if r.Intn(20) == 0 {
				w.timeout = time.Duration(-r.Intn(2))
			}
			if t := open[id]; t != nil {
				w.tx = t.tx
			}
			waiting = append(waiting, w)
			go func() {
				v, err := m.Receive(id, w.timeout)
				w.res.Store(&outcome{v, err, time.Now()})
			}()
			settle()
		case k < 90:
			id := anyID()
			if len(waiting) > 0 && r.Intn(3) == 0 {
				id = waiting[r.Intn(len(waiting))].id
			}
			t := open[id]
			err := m.Put(id)
			if (err == nil) != (t != nil) {
				bad("releasing id %d, open: %v, returned %v", id, t != nil, err)
			}
			if t != nil {
				if len(t.data) > 0 {
					c.Count("undelivered at release", 1)
				}
				for _, w := range waiting {
					if w.tx == t.tx {
						w.released = true
					}
				}
				delete(open, id)
			}
			if r.Intn(2) == 0 {
				if r.Intn(2) == 0 && acquire() && t != nil && open[id] != nil { // it was the only one free
					c.Count("reopened at once", 1)
				}
				settle()
			}
		default:
			time.Sleep(ms(r.Intn(1500)))
			if r.Intn(20) == 0 {
				c.idle(r)
			}
			settle()
		}
	}
	c.Count("steps", steps)
	time.Sleep(10 * time.Second)
	if !failed {
		settle()
	}
	if !failed && len(waiting) > 0 {
		c.Fail("delivery", "%d receives have not returned after their timeouts", len(waiting))
	}
}

// a datum names its send
type parcel struct{ id, sender, n int }

type sendLog struct {
	call, ret int64
	err       error
}

type recvLog struct {
	id              int
	openAt, openRet int64
	call, ret       int64
	val             parcel
	err             error
	nothing         bool
	sure            bool // a send to this transaction succeeded or was refused because of another datum
	timeout, took   time.Duration
}

// txStress: owners open transactions and receive, companions send to them, others
// send to ids at random. Mode 1 adds goroutines that receive from others' ids,
// mode 2 owners that release while they receive, mode 3 both.
func (c *C) txStress(owners, per, mode int, seed int64) {
	m := tsm.New([]int{20, 254, max(1, owners/2)}[seed%3])
	var tick atomic.Int64
	var mu sync.Mutex
	sends := map[parcel]*sendLog{}
	var recvs []recvLog
	refused := 0
	send := func(p parcel) error {
		l := &sendLog{call: tick.Add(1)}
		mu.Lock()
		sends[p] = l
		mu.Unlock()
		err := m.Send(p.id, p)
		mu.Lock()
		l.ret, l.err = tick.Add(1), err
		if err != nil {
			refused++
		}
		mu.Unlock()
		return err
	}
	receive := func(id int, timeout time.Duration) recvLog {
		l := recvLog{id: id, call: tick.Add(1), timeout: timeout}
		t := time.Now()
		v, err := m.Receive(id, timeout)
		l.took = time.Since(t)
		l.err, l.ret = err, tick.Add(1)
		if err == nil {
			p, ok := v.(parcel)
			l.val, l.nothing = p, !ok
		}
		return l
	}
	stop := make(chan struct{})
	var wg, others sync.WaitGroup
	strayers := 2 + owners/4
	for k := 0; k < strayers; k++ {
		r := rand.New(rand.NewSource(seed ^ int64(1000+k)))
		others.Add(1)
		go func() {
			defer others.Done()
			for n := 0; ; n++ {
				select {
				case <-stop:
					return
				default:
				}
				id := 1 + r.Intn(25)
				switch {
				case mode&1 != 0 && k%2 == 0:
					l := receive(id, time.Duration(r.Intn(300))*time.Microsecond)
					mu.Lock()
					recvs = append(recvs, l)
					mu.Unlock()
				case r.Intn(20) == 0:
					m.Put([]int{0, 255, -1}[r.Intn(3)])
				default:
					send(parcel{id, 1000 + k, n})
				}
				time.Sleep(time.Duration(r.Intn(200)) * time.Microsecond)
			}
		}()
	}
	for k := 0; k < owners; k++ {
		r := rand.New(rand.NewSource(seed + int64(k)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < per; j++ {
				at := tick.Add(1)
				id, err := m.ID(context.Background())
				if err != nil {
					c.Fail("delivery", "no id: %v", err)
					return
				}
				opened := tick.Add(1)
				var mine sync.WaitGroup
				companion := r.Intn(3) > 0
				delay := time.Duration(r.Intn(400)) * time.Microsecond
				if r.Intn(3) == 0 {
					delay = 0
				}
				early := mode&2 != 0 && r.Intn(3) == 0
				if companion {
					mine.Add(1)
					f := func() {
						defer mine.Done()
						time.Sleep(delay)
						send(parcel{id, k, j})
					}
					if r.Intn(3) == 0 {
						f() // before anyone waits
					} else {
						go f()
					}
				}
				timeout := time.Duration(r.Intn(500)) * time.Microsecond
				if companion && !early {
					timeout = time.Hour
				}
				if early {
					mine.Add(1)
					go func() {
						defer mine.Done()
						l := receive(id, timeout)
						l.openAt, l.openRet = at, opened
						mu.Lock()
						recvs = append(recvs, l)
						mu.Unlock()
					}()
					if r.Intn(2) == 0 {
						time.Sleep(time.Duration(r.Intn(400)) * time.Microsecond)
					}
				} else if mode&1 == 0 || !companion {
					l := receive(id, timeout)
					l.openAt, l.openRet, l.sure = at, opened, companion
					mu.Lock()
					recvs = append(recvs, l)
					mu.Unlock()
					mine.Wait()
				} else {
					// somebody else may take it
					l := receive(id, time.Duration(r.Intn(500))*time.Microsecond)
					l.openAt, l.openRet = at, opened
					mu.Lock()
					recvs = append(recvs, l)
					mu.Unlock()
				}
				if err := m.Put(id); err != nil {
					c.Fail("delivery", "releasing id %d, which is held: %v", id, err)
				}
				mine.Wait()
			}
		}()
	}
	wg.Wait()
	close(stop)
	others.Wait()
	var steps []step
	for p, l := range sends {
		steps = append(steps, step{l.call, p.sender, 0}, step{l.ret, p.sender, 1})
	}
	for _, l := range recvs {
		steps = append(steps, step{l.call, 5000 + l.id, 2}, step{l.ret, 5000 + l.id, 3})
	}
	c.Order(steps)
	c.Count("concurrent histories", 1)
	c.Count("concurrent transactions", owners*per)
	c.Count("concurrent sends refused", refused)
	seen := map[parcel]bool{}
	for _, l := range recvs {
		what := fmt.Sprintf("a receive from id %d with a timeout of %v, called at %d, returned at %d after %v", l.id, l.timeout, l.call, l.ret, l.took)
		if l.took > max(l.timeout, 0) {
			c.Fail("delivery", "%s", what)
		}
		if l.err != nil {
			if l.sure {
				c.Fail("delivery", "%s, failed (%v) although data had been sent", what, l.err)
			}
			continue
		}
		c.Count("concurrent data received", 1)
		if l.nothing {
			c.Fail("delivery", "%s, returned what nobody sent", what)
			continue
		}
		s := sends[l.val]
		switch {
		case s == nil:
			c.Fail("delivery", "%s, returned %v, which nobody sent", what, l.val)
		case l.val.id != l.id:
			c.Fail("delivery", "%s, returned %v, which was sent to id %d", what, l.val, l.val.id)
		case seen[l.val]:
			c.Fail("delivery", "%s, returned %v, which had been received before", what, l.val)
		case s.err != nil:
			c.Fail("delivery", "%s, returned %v, whose send had failed: %v", what, l.val, s.err)
		case s.call > l.ret:
			c.Fail("delivery", "%s, returned %v, sent at %d", what, l.val, s.call)
		case l.openAt > 0 && s.ret < l.openAt:
			c.Fail("delivery", "%s, returned %v, sent from %d to %d, before the transaction was opened at %d", what, l.val, s.call, s.ret, l.openAt)
		}
		seen[l.val] = true
	}
}
