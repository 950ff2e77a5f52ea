// Package checks holds one check per property. Each runs a list of cases that the
// seed determines, drives the library and judges what it observes with an oracle
// that is independent of the library.
package checks

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	stdlog "log"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	logrus "github.com/sirupsen/logrus"
)

type Viol struct {
	Index int    `json:"index"`
	Key   string `json:"key"` // what failed, stable across runs
	Msg   string `json:"msg"`
}

type result struct {
	Done    bool           `json:"done"`
	Evals   int64          `json:"evals"`
	Classes map[string]int `json:"classes"`
	Needs   []string       `json:"needs"`
	Samples []string       `json:"samples"`
	Viols   []Viol         `json:"viols"`
	Rule    string         `json:"rule"`
	Assume  []string       `json:"assume"`
	Exhaust bool           `json:"exhaustive"`
}

// C is the context of a check in one worker process
type C struct {
	T        *testing.T
	ID       string
	Seed     int64
	Thorough bool
	Shard    int
	Shards   int
	Race     bool
	Only     int // -1: all cases

	mu      sync.Mutex
	res     result
	hashes  map[uint64]struct{}
	orders  map[uint64]struct{} // the orders of events seen
	index   int64
	started int64 // wall ns of the start of the case
	journal *os.File
	out     string
	quiet   time.Duration // how long a case may be idle before it counts as blocked
	limit   time.Duration // processor time that a case may use
}

type check struct {
	rule  string
	run   func(*C)
	quiet time.Duration
}

// theC is the check that runs
var theC *C

var registry = map[string]check{}

func register(id, rule string, run func(*C)) { registry[id] = check{rule: rule, run: run} }

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// Main runs the check that the environment names
func Main(t *testing.T) {
	id := os.Getenv("VERIF_CHECK")
	ck, ok := registry[id]
	if !ok {
		t.Skip("no check named")
	}
	c := &C{T: t, ID: id, Seed: int64(envInt("VERIF_SEED", 1)), Thorough: os.Getenv("VERIF_TIER") == "thorough",
		Shard: envInt("VERIF_SHARD", 0), Shards: envInt("VERIF_SHARDS", 1), Only: envInt("VERIF_ONLY", -1),
		Race: raceEnabled, hashes: map[uint64]struct{}{}, orders: map[uint64]struct{}{}, out: os.Getenv("VERIF_OUT"), quiet: ck.quiet}
	c.res.Classes = map[string]int{}
	c.res.Rule = ck.rule
	theC = c
	if c.quiet == 0 {
		c.quiet = 45 * time.Second
	}
	c.limit = 60 * time.Second
	if c.Race {
		c.limit = 240 * time.Second
	}
	var err error
	if c.journal, err = os.Create(fmt.Sprintf("%s/case.%d", c.out, c.Shard)); err != nil {
		t.Fatal(err)
	}
	silence()
	go c.watch()
	ck.run(c)
	c.mu.Lock()
	c.res.Done = true
	c.mu.Unlock()
	c.flush()
	os.Exit(0) // whatever is left running is of no interest
}

// silence keeps the output of the library away: it logs every message
func silence() {
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	stdfiles = []*os.File{os.Stdout, os.Stderr} // a file that is collected is closed
	os.Stdout, os.Stderr = null, null
	stdlog.SetOutput(io.Discard)
	logrus.SetOutput(io.Discard)
}

func (c *C) flush() {
	c.mu.Lock()
	defer c.mu.Unlock()
	b, _ := json.Marshal(&c.res)
	os.WriteFile(fmt.Sprintf("%s/result.%d", c.out, c.Shard), b, 0o644)
	for name, set := range map[string]map[uint64]struct{}{"hashes": c.hashes, "orders": c.orders} {
		h := make([]byte, 0, 8*len(set))
		for x := range set {
			h = binary.LittleEndian.AppendUint64(h, x)
		}
		os.WriteFile(fmt.Sprintf("%s/%s.%d", c.out, name, c.Shard), h, 0o644)
	}
}

// Fail records a violation of the property in the current case
func (c *C) Fail(key, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	if len(msg) > 6000 {
		msg = msg[:6000] + "..."
	}
	c.mu.Lock()
	if len(c.res.Viols) < 20 {
		c.res.Viols = append(c.res.Viols, Viol{int(atomic.LoadInt64(&c.index)), key, msg})
	}
	c.mu.Unlock()
	c.flush()
	if os.Getenv("VERIF_FAST") != "" { // for tools/mutate.py: one is enough
		os.Exit(1)
	}
}

// noClient reports that the library cannot make a client, without which nothing can be checked
func (c *C) noClient(err error) {
	c.Fail("no client", "no client can be made: %v", err)
	os.Exit(3)
}

func (c *C) stopped() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.res.Viols) >= 3
}

// Count adds to the number of events of a class that were observed
func (c *C) Count(class string, n int) {
	c.mu.Lock()
	c.res.Classes[class] += n
	c.mu.Unlock()
}

// Need names classes without which the run has decided nothing
func (c *C) Need(classes ...string) {
	c.mu.Lock()
	c.res.Needs = append(c.res.Needs, classes...)
	c.mu.Unlock()
}

func (c *C) Assume(s string) { c.res.Assume = append(c.res.Assume, s) }

// step is an event of a concurrent history: when it was, and who did what
type step struct {
	at        int64
	who, what int
}

// Order records in which order the events of a history took place, for the evidence
func (c *C) Order(steps []step) {
	sort.SliceStable(steps, func(i, j int) bool { return steps[i].at < steps[j].at })
	h := fnv.New64a()
	var b [4]byte
	switches := 0
	for i, s := range steps {
		binary.LittleEndian.PutUint32(b[:], uint32(s.who)<<8|uint32(s.what&255))
		h.Write(b[:])
		if i > 0 && s.who != steps[i-1].who {
			switches++
		}
	}
	c.mu.Lock()
	c.orders[h.Sum64()] = struct{}{}
	c.res.Classes["events in histories"] += len(steps)
	c.res.Classes["events that follow one of another goroutine"] += switches
	c.mu.Unlock()
}

// Eval counts an evaluation; key identifies it, "" when it is trivial
func (c *C) Eval(key string) {
	c.mu.Lock()
	c.res.Evals++
	if key != "" {
		h := fnv.New64a()
		h.Write([]byte(key))
		x := h.Sum64()
		if _, ok := c.hashes[x]; !ok {
			c.hashes[x] = struct{}{}
			if n := len(c.hashes); len(c.res.Samples) < 3 && (n == 1 || n == 20 || n == 400) {
				if len(key) > 600 {
					key = key[:600] + "..."
				}
				c.res.Samples = append(c.res.Samples, fmt.Sprintf("case %d: %s", atomic.LoadInt64(&c.index), key))
			}
		}
	}
	c.mu.Unlock()
}

// Loop runs the cases of this shard. Every case has its own random source. The
// base separates the lists of cases of one check.
func (c *C) Loop(base, n int, f func(i int, r *rand.Rand)) {
	for i := 0; i < n; i++ {
		k := base + i
		if c.Only >= 0 {
			if k != c.Only {
				continue
			}
		} else if i%c.Shards != c.Shard {
			continue
		}
		c.begin(k)
		f(i, c.Rand(k))
		if c.stopped() {
			return
		}
	}
}

func (c *C) Rand(k int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", c.ID, c.Seed, k)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

func (c *C) begin(k int) {
	atomic.StoreInt64(&c.index, int64(k))
	atomic.StoreInt64(&c.started, realNow())
	var b [12]byte
	s := strconv.AppendInt(b[:0], int64(k), 10)
	for len(s) < 12 {
		s = append(s, ' ')
	}
	c.journal.WriteAt(s, 0)
}

// realNow is the monotonic clock of the system, also inside a bubble of virtual time
func realNow() int64 {
	var ts syscall.Timespec
	syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 1, uintptr(ptr(&ts)), 0)
	return ts.Nano()
}

var stdfiles []*os.File

// Guard runs f and turns a panic into a violation
func (c *C) Guard(key, what string, f func()) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			ok = false
			c.Fail("panic:"+key, "%s panicked: %v\n%s", what, p, trim(string(debug.Stack()), 30))
		}
	}()
	f()
	return true
}

func trim(s string, lines int) string {
	l := strings.Split(s, "\n")
	if len(l) > lines {
		l = l[:lines]
	}
	return strings.Join(l, "\n")
}

func cpuNow() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(0, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// watch looks for a case that runs for ever, grows without bound or is blocked.
// What decides is the processor time and the memory that one case used, or a
// process in which nothing runs; time passing alone decides nothing.
func (c *C) watch() {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	var last int64 = -1
	var cpu0, idleCPU time.Duration
	var idleSince time.Time
	tick := time.NewTicker(250 * time.Millisecond)
	for range tick.C {
		k, s := atomic.LoadInt64(&c.index), atomic.LoadInt64(&c.started)
		cpu := cpuNow()
		if s == 0 {
			continue
		}
		if key := k ^ s; key != last {
			last, cpu0, idleCPU, idleSince = key, cpu, cpu, time.Now()
		}
		metrics.Read(sample)
		if heap := sample[0].Value.Uint64(); heap > 3<<30 {
			c.die("memory", fmt.Sprintf("the case holds %d MB", heap>>20))
		}
		if cpu-cpu0 > c.limit {
			c.die("loop", fmt.Sprintf("the case has used %v of processor time and goes on", cpu-cpu0))
		}
		if cpu-idleCPU > 400*time.Millisecond {
			idleCPU, idleSince = cpu, time.Now()
		}
		if time.Since(idleSince) > c.quiet {
			a := stacks()
			time.Sleep(2 * time.Second)
			b := stacks()
			if !running(a) && !running(b) {
				c.die("blocked", "nothing runs any more:\n"+trim(b, 160))
			}
			idleSince = time.Now()
		}
	}
}

func stacks() string {
	for n := 64 << 10; ; n *= 4 {
		buf := make([]byte, n)
		if k := runtime.Stack(buf, true); k < n || n > 16<<20 {
			return string(buf[:k])
		}
	}
}

// libGoroutines counts the goroutines that run or were started by the library, the
// receive loops of clients that the harness runs included
func libGoroutines() (n int, text string) {
	for _, g := range strings.Split(stacks(), "\n\n") {
		if strings.Contains(g, "github.com/NubeDev/bacnet") {
			n++
			text += g + "\n\n"
		}
	}
	return
}

// running reports whether any goroutine but the watcher can run or waits for time to pass
func running(s string) bool {
	for i, g := range strings.Split(s, "\n\n") {
		if i == 0 {
			continue // the watcher itself
		}
		head, _, _ := strings.Cut(g, "\n")
		if strings.Contains(head, "[running") || strings.Contains(head, "[runnable") || strings.Contains(head, "[syscall") ||
			// in a bubble the clock stands still while one of its goroutines waits for a lock
			strings.Contains(head, "[sleep") && !strings.Contains(head, "synctest bubble") {
			return true
		}
	}
	return false
}

func (c *C) die(key, msg string) {
	c.Fail(key, "%s", msg)
	os.Exit(3)
}

// allocs is the number of octets allocated so far
func allocs() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

func (c *C) N(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}
