package checks

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/NubeDev/bacnet/btypes"
	"verif/harness/ref"
	"verif/harness/sim"
)

func init() {
	register("C11", "operations answered by scripts that combine positive answers, acknowledgements of other services or kinds, damaged and segmented ones, errors, rejects, aborts, requests, unconfirmed and network messages, answers for other operations and silence; what is reported is compared with what was answered", runC11)
}

// kinds of what arrives for an operation
const (
	ansPositive = iota
	ansOtherService
	ansOtherKind // simple for complex, complex for simple
	ansDamaged
	ansSegmented
	ansError
	ansErrorWrapped
	ansReject
	ansAbort
	// no answers
	ansSegmentAck
	ansOtherID
	ansRequest
	ansUnconfirmed
	ansNetwork
	ansLink
	ansUndecodable
	ansNothing
	ansKinds
)

var ansNames = []string{"positive", "other service", "other kind", "damaged", "segmented", "error", "error wrapped", "reject", "abort",
	"segment acknowledgement", "other id", "request", "unconfirmed", "network message", "other link message", "undecodable", "nothing"}

type arrived struct {
	after time.Duration
	kind  int
	class uint32
	code  uint32
	why   byte // the reason of a reject or abort
	objs  []ref.Obj
}

// script is what follows each transmission of an operation
type script struct {
	op      int
	dev     *sim.Device
	objs    []ref.Obj
	per     [2][]arrived
	sendErr [2]bool
	got     []arrived // what arrived, in order
	sent    []sim.Packet
	tried   int
	done    bool
}

// damage makes a positive answer one that carries no well-formed value
func damage(r *rand.Rand, q *sim.Request, op int, objs []ref.Obj) []byte {
	b := positive(q, op, objs)
	if op >= opWrite {
		return b[:1+r.Intn(2)] // the header of a simple acknowledgement, cut
	}
	body := b[3:]
	for n := 0; n < 20 && r.Intn(2) == 0; n++ { // with a wrong octet
		m := mutateAck(r, body)
		verdict := ref.Valid
		if op == opReadMulti {
			_, verdict, _ = ref.ReadReadMultipleAck(m)
		} else {
			_, verdict, _ = ref.ReadReadPropertyAck(m)
		}
		if verdict == ref.Malformed && len(m) < 1400 {
			return append(b[:3:3], m...)
		}
	}
	ok := map[int]bool{}
	if op == opReadMulti {
		n := 0
		for _, o := range objs {
			n += len(ref.ReadMultipleAck([]ref.Obj{o}))
			ok[n] = true
		}
	}
	for {
		k := r.Intn(len(body))
		if !ok[k] {
			return b[:3+k]
		}
	}
}

func (c *C) arrival(r *rand.Rand, q *sim.Request, s *script, a *arrived) []byte {
	id, svc := q.APDU.ID, q.APDU.Svc
	route := q.Reply()
	route.Bcast = r.Intn(8) == 0
	objs := make([]ref.Obj, len(s.objs))
	for i := range objs {
		objs[i].ID = s.objs[i].ID
		for _, p := range s.objs[i].Props {
			p.Vals, p.Prio = genVals(r), 0
			objs[i].Props = append(objs[i].Props, p)
		}
	}
	if s.op >= opWrite {
		objs = s.objs
	}
	pos := positive(q, s.op, objs)
	if len(pos) > 1400 {
		for i := range objs {
			for j := range objs[i].Props {
				objs[i].Props[j].Vals = []any{ref.Uint(r.Uint32())}
			}
		}
		pos = positive(q, s.op, objs)
	}
	a.objs = objs
	other := opService[(s.op+1+r.Intn(3))%4]
	if r.Intn(3) == 0 {
		other = svc + 1 + byte(r.Intn(200))
	}
	switch a.kind {
	case ansPositive:
		return route.Frame(pos)
	case ansOtherService:
		pos[2] = other
		return route.Frame(pos)
	case ansOtherKind:
		if s.op >= opWrite {
			return route.Frame(ref.Complex(id, svc, ref.ReadPropertyAck(genObj(r), ref.Prop{ID: 85, Index: ref.ArrayAll, Vals: []any{ref.Uint(1)}})))
		}
		return route.Frame(append(ref.Simple(id, svc), pos[3:]...))
	case ansDamaged:
		return route.Frame(damage(r, q, s.op, objs))
	case ansSegmented:
		if s.op >= opWrite { // a segmented complex acknowledgement
			return route.Frame([]byte{0x3c, id, 0, 1, svc})
		}
		f := byte(8)
		if r.Intn(2) == 0 {
			f = 12
		}
		return route.Frame(ref.Cat([]byte{0x30 | f, id, byte(r.Intn(3)), 1}, pos[2:]))
	case ansError:
		return route.Frame(ref.ErrorAnswer(id, svc, a.class, a.code))
	case ansErrorWrapped:
		return route.Frame(ref.Cat([]byte{0x50, id, svc}, ref.Open(0), ref.App(ref.Enum(a.class)), ref.App(ref.Enum(a.code)), ref.Close(0)))
	case ansReject:
		return route.Frame([]byte{0x60, id, a.why})
	case ansAbort:
		return route.Frame([]byte{0x70 | byte(r.Intn(2)), id, a.why})
	case ansSegmentAck:
		return route.Frame([]byte{0x40 | byte(r.Intn(4)), id, byte(r.Intn(3)), 1})
	case ansOtherID:
		pos[1] = byte((int(id)+49+r.Intn(100))%254 + 1)
		if r.Intn(6) == 0 {
			pos[1] = []byte{0, 255}[r.Intn(2)]
		}
		return route.Frame(pos)
	case ansRequest:
		hdr := []byte{0, 5, id, svc}
		if r.Intn(2) == 0 {
			hdr = []byte{0x0e, 0x35, id, 0, 1, svc}
		}
		body := pos[2:]
		if r.Intn(2) == 0 {
			body = q.APDU.Body
		}
		return route.Frame(ref.Cat(hdr, body))
	case ansUnconfirmed:
		if r.Intn(2) == 0 {
			return route.Frame(ref.IAm(ref.ObjID{Type: 8, Instance: uint32(id)}, 1476, 3, 1))
		}
		return route.Frame(ref.Cat([]byte{0x10, id}, pos[2:]))
	case ansNetwork:
		t := []byte{0, 1, 2, 3, 0x12, 0x13, 0x80, 0xff}[r.Intn(8)]
		if t >= 0x80 {
			return route.FrameNetwork(t, ref.Cat([]byte{0, 7}, pos))
		}
		return route.FrameNetwork(t, pos)
	case ansLink:
		b := route.Frame(pos)
		if r.Intn(3) == 0 {
			b[0] = byte(r.Intn(0x80))
		} else {
			b[1] = []byte{0, 1, 2, 3, 5, 6, 7, 8, 9, 12, 255}[r.Intn(11)]
		}
		return b
	case ansUndecodable:
		b := route.Frame(pos)
		if r.Intn(2) == 0 {
			return b[:r.Intn(7)]
		}
		return route.Frame([]byte{0x80 | pos[0], id, svc})
	}
	return nil
}

func genScript(r *rand.Rand, devs []*sim.Device, n uint32) *script {
	s := &script{op: r.Intn(4), dev: devs[r.Intn(len(devs))]}
	objs := 1
	if s.op == opReadMulti || s.op == opWriteMulti {
		objs = 1 + r.Intn(3)
		if r.Intn(8) == 0 {
			objs = 1 + r.Intn(40)
		}
	}
	for a := 0; a < objs; a++ {
		p := ref.Prop{ID: genPropID(r), Index: genIndex(r)}
		if s.op >= opWrite {
			p.Vals, p.Prio = []any{ref.Uint(r.Uint32())}, uint8(r.Intn(17))
		}
		s.objs = append(s.objs, ref.Obj{ID: ref.ObjID{Type: uint16(6 + r.Intn(900)), Instance: n}, Props: []ref.Prop{p}})
	}
	class, code := genError(r)
	why := byte(r.Intn(256))
	if r.Intn(2) == 0 {
		why = byte(r.Intn(12)) // one that the standard names
	}
	gen := func(k int) arrived {
		a := arrived{kind: k, class: class, code: code, why: why}
		if r.Intn(8) == 0 {
			a.class, a.code = genError(r)
		}
		return a
	}
	for t := range s.per {
		var list []arrived
		for k := r.Intn(4); k > 0; k-- { // first what is no answer
			if r.Intn(2) == 0 {
				list = append(list, gen(ansSegmentAck+r.Intn(ansNothing-ansSegmentAck)))
			}
		}
		switch r.Intn(8) {
		case 0:
		case 1, 2:
			list = append(list, gen(ansPositive))
		default:
			list = append(list, gen(r.Intn(ansKinds)))
		}
		for k := r.Intn(3); k > 0; k-- {
			list = append(list, gen(r.Intn(ansKinds)))
		}
		at := time.Duration(0)
		for i := range list {
			at += time.Millisecond + time.Duration(r.Intn(1<<uint(r.Intn(21))))*time.Microsecond*2
			list[i].after = at
		}
		s.per[t] = list
	}
	if r.Intn(2) == 0 { // the same again
		s.per[1] = append([]arrived{}, s.per[0]...)
	}
	if r.Intn(12) == 0 {
		s.sendErr[0] = true
	}
	if r.Intn(12) == 0 {
		s.sendErr[1] = true
	}
	return s
}

func runC11(c *C) {
	for k := 0; k < ansNothing; k++ {
		c.Need("arrived: " + ansNames[k])
	}
	c.Need("long idle", "success", "error named", "reason named", "nothing answered", "send failed", "transmitted again")
	c.Loop(0, c.N(12000, 120000), func(i int, r *rand.Rand) {
		devs := genDevices(r, 1+r.Intn(4))
		par := []int{1, 1, 4, 10}[i%4]
		c.Bubble("scripted answers", func(t *testing.T) {
			w := newWorld(0)
			c.idle(r)
			var mu sync.Mutex
			scripts := map[uint32]*script{}
			parse := func(p sim.Packet) (*sim.Request, *script) {
				q, err := sim.ParseRequest(p)
				if err != nil {
					c.Fail("request", "sent to %v: %v: %s", p.Dest, err, hexs(p.Data))
					return nil, nil
				}
				_, objs, err := asked(q)
				if err != nil || len(objs) == 0 || scripts[objs[0].ID.Instance] == nil {
					c.Fail("request", "%v: %s", err, hexs(p.Data))
					return nil, nil
				}
				return q, scripts[objs[0].ID.Instance]
			}
			w.SendErr = func(p sim.Packet) error {
				mu.Lock()
				defer mu.Unlock()
				q, s := parse(p)
				if q == nil {
					return nil
				}
				k := s.tried
				s.tried++
				s.sent = append(s.sent, p)
				if k < 2 && s.sendErr[k] {
					c.Count("send failed", 1)
					return fmt.Errorf("the link refuses")
				}
				return nil
			}
			w.OnSend = func(p sim.Packet) {
				mu.Lock()
				defer mu.Unlock()
				q, s := parse(p)
				if q == nil || s.tried > 2 {
					return
				}
				for _, a := range s.per[s.tried-1] {
					if a.kind == ansNothing {
						continue
					}
					frame := c.arrival(r, q, s, &a)
					go func() {
						time.Sleep(a.after)
						mu.Lock()
						if !s.done {
							s.got = append(s.got, a)
							c.Count("arrived: "+ansNames[a.kind], 1)
						}
						mu.Unlock()
						w.Inject(q.To, frame)
					}()
				}
			}
			n := uint32(0)
			for batch := 0; batch < 8/par+1; batch++ {
				var wg sync.WaitGroup
				for k := 0; k < par; k++ {
					mu.Lock()
					s := genScript(r, devs, n)
					scripts[n] = s
					mu.Unlock()
					n++
					wg.Add(1)
					go func() {
						defer wg.Done()
						dev := libDevice(s.dev)
						start := time.Now()
						got, err := w.do(s.op, dev, s.objs)
						took := time.Since(start)
						mu.Lock()
						s.done = true
						c.judgeScript(s, got, err, took)
						mu.Unlock()
					}()
				}
				wg.Wait()
				time.Sleep(20 * time.Second)
			}
			w.end()
		})
	})
	c.Need("repeated alike")
	c.Loop(1<<20, c.N(720, 8000), func(i int, r *rand.Rand) {
		c.Bubble("the same again", func(t *testing.T) { c.again(r) })
	})
	c.Need("answered after trouble", "failed in a row", "trouble at a priority")
	for _, k := range troubles {
		c.Need("trouble: " + k)
	}
	c.Loop(1<<21, c.N(2400, 24000), func(i int, r *rand.Rand) {
		c.Bubble("after trouble", func(t *testing.T) { c.troubled(r) })
	})
}

var troubles = []string{"silence", "send error", "error", "reject", "abort", "damaged", "other service", "mixed"}

// troubled has many operations with one device fail in a row, in one way or in many, while
// others answer. Each is sent all the same, and when the device answers again, all succeed.
func (c *C) troubled(r *rand.Rand) {
	w := newWorld(0)
	defer w.end()
	devs := genDevices(r, 1+r.Intn(3))
	bad := devs[0]
	o, prop, prio := ref.ObjID{Type: 2, Instance: 1}, uint32(85), uint8(0)
	if r.Intn(3) == 0 {
		o, prop = ref.ObjID{Type: []uint16{0, 1, 2, 3, 4, 5, 13, 14, 19}[r.Intn(9)], Instance: genInstance(r)}, []uint32{28, 77, 81, 85, 112, 1000}[r.Intn(6)]
	}
	if r.Intn(3) > 0 {
		prio = []uint8{1, 8, 16, uint8(1 + r.Intn(16))}[r.Intn(4)]
		c.Count("trouble at a priority", 1)
	}
	for _, d := range devs {
		d.Set(o, prop, ref.Uint(5))
	}
	var mu sync.Mutex
	trouble := ""
	sent := 0
	toBad := func(p sim.Packet) *sim.Request {
		q, err := sim.ParseRequest(p)
		if err != nil || find(devs, q) != bad {
			return nil
		}
		return q
	}
	w.SendErr = func(p sim.Packet) error {
		mu.Lock()
		defer mu.Unlock()
		if toBad(p) == nil {
			return nil
		}
		sent++
		if trouble == "send error" {
			return fmt.Errorf("no route to host")
		}
		return nil
	}
	w.OnSend = func(p sim.Packet) {
		mu.Lock()
		defer mu.Unlock()
		q, err := sim.ParseRequest(p)
		if err != nil {
			c.Fail("request", "%v: %s", err, hexs(p.Data))
			return
		}
		d := find(devs, q)
		if d == nil {
			c.Fail("request", "sent to nobody: %v: %s", p.Dest, hexs(p.Data))
			return
		}
		b := d.Serve(q)
		id, svc := q.APDU.ID, q.APDU.Svc
		if d == bad {
			op, objs, _ := asked(q)
			switch trouble {
			case "silence":
				return
			case "error":
				b = ref.ErrorAnswer(id, svc, 2, 32)
			case "reject":
				b = []byte{0x60, id, 9}
			case "abort":
				b = []byte{0x71, id, 4}
			case "damaged":
				for i := range objs {
					for j := range objs[i].Props {
						objs[i].Props[j].Vals = []any{ref.Uint(5)}
					}
				}
				b = damage(r, q, op, objs)
			case "other service":
				b = ref.Simple(id, svc^1)
			}
		}
		w.InjectAfter(ms(r.Intn(3)), d.EP, q.Reply().Frame(b))
	}
	one := func(d *sim.Device, op int) ([]btypes.Object, error) {
		objs := []ref.Obj{{ID: o, Props: []ref.Prop{{ID: prop, Index: ref.ArrayAll}}}}
		if op >= opWrite {
			objs[0].Props[0].Vals, objs[0].Props[0].Prio = []any{ref.Uint(5)}, prio
		}
		return w.do(op, libDevice(d), objs)
	}
	well := func(d *sim.Device, op int, what string) bool {
		got, err := one(d, op)
		if err != nil {
			c.Fail("failure", "%s: %s, which is answered, failed: %v", what, opNames[op], err)
			return false
		}
		if op < opWrite {
			if s := sameObjs(got, []ref.Obj{{ID: o, Props: []ref.Prop{{ID: prop, Index: ref.ArrayAll, Vals: []any{ref.Uint(5)}}}}}); s != "" {
				c.Fail("success", "%s: %s returned %s", what, opNames[op], s)
				return false
			}
		}
		return true
	}
	what := fmt.Sprintf("a device at %v, network %d MAC % x", bad.EP, bad.Net, bad.Mac)
	for round := 1 + r.Intn(3); round > 0; round-- {
		n := []int{1, 2, 3, 4, 5, 8, 11, 16, 20, 33, 64, 1 + r.Intn(100)}[r.Intn(12)]
		kind := troubles[r.Intn(len(troubles))]
		only := -1
		if r.Intn(2) == 0 {
			only = r.Intn(4)
		}
		what += fmt.Sprintf(", %d operations meet with %s", n, kind)
		if only >= 0 {
			what += " (" + opNames[only] + ")"
		}
		c.Count("trouble: "+kind, 1)
		pause := []time.Duration{0, 0, time.Millisecond, time.Second, time.Minute}[r.Intn(5)]
		for k := 0; k < n; k++ {
			op := only
			if op < 0 {
				op = r.Intn(4)
			}
			mu.Lock()
			trouble = kind
			if kind == "mixed" {
				trouble = troubles[r.Intn(len(troubles)-1)]
			}
			sent = 0
			how := trouble
			mu.Unlock()
			_, err := one(bad, op)
			mu.Lock()
			m := sent
			trouble = ""
			mu.Unlock()
			if m == 0 {
				c.Fail("transmissions", "%s: %s number %d (%v) was not sent", what, opNames[op], k+1, err)
				return
			}
			if err == nil {
				c.Fail("success", "%s: %s number %d met with %s and succeeded", what, opNames[op], k+1, how)
				return
			}
			c.Count("failed in a row", 1)
			if len(devs) > 1 && r.Intn(3) == 0 && !well(devs[1+r.Intn(len(devs)-1)], r.Intn(4), what+", another device") {
				return
			}
			time.Sleep(pause)
		}
		for k := r.Intn(4); k >= 0; k-- {
			mu.Lock()
			sent = 0
			mu.Unlock()
			if !well(bad, r.Intn(4), what+", then it answers") {
				return
			}
			mu.Lock()
			m := sent
			mu.Unlock()
			if m != 1 {
				c.Fail("transmissions", "%s, then it answers at once: sent %d times", what, m)
				return
			}
			c.Count("answered after trouble", 1)
		}
	}
	c.Eval(what)
}

// again repeats one operation, which is answered alike each time
func (c *C) again(r *rand.Rand) {
	w := newWorld(0)
	d := genDevices(r, 1)[0]
	s := genScript(r, []*sim.Device{d}, 5)
	n := []int{40, 300, 1200}[r.Intn(3)]
	fail := r.Intn(3) == 0 // an error each time
	class, code := genError(r)
	var mu sync.Mutex
	w.OnSend = func(p sim.Packet) {
		q, err := sim.ParseRequest(p)
		if err != nil {
			c.Fail("request", "%v: %s", err, hexs(p.Data))
			return
		}
		op, objs, err := asked(q)
		if err != nil || op != s.op || fmt.Sprint(objs) != fmt.Sprint(s.objs) {
			c.Fail("request", "%s is sent as %s of %s (%v)", s, opNames[op], showObjs(objs), err)
			return
		}
		mu.Lock()
		defer mu.Unlock()
		for i := range objs {
			for j := range objs[i].Props {
				if op < opWrite {
					objs[i].Props[j].Vals = []any{ref.Uint(7)}
				}
			}
		}
		b := positive(q, op, objs)
		if fail {
			b = ref.ErrorAnswer(q.APDU.ID, q.APDU.Svc, class, code)
		}
		w.InjectAfter(ms(1), d.EP, q.Reply().Frame(b))
	}
	width := []int{1, 1, 3, 20}[r.Intn(4)]
	var wg sync.WaitGroup
	what := fmt.Sprintf("%d times %s of %s, answered alike, %d at once", n, opNames[s.op], showObjs(s.objs), width)
	for g := 0; g < width; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < n/width; k++ {
				got, err := w.do(s.op, libDevice(d), s.objs)
				switch {
				case fail && (err == nil || !namesError(err, class, code)):
					c.Fail("error name", "%s: number %d, answered with the error class %d code %d, is reported as %v", what, k, class, code, err)
					return
				case !fail && err != nil:
					c.Fail("failure", "%s: number %d is reported as failed: %v", what, k, err)
					return
				case !fail && s.op < opWrite:
					for _, o := range got {
						for _, p := range o.Properties {
							if !same(p.Data, ref.Uint(7)) {
								c.Fail("success", "%s: number %d returned %s", what, k, showLib(got))
								return
							}
						}
					}
				}
			}
		}()
	}
	wg.Wait()
	w.end()
	c.Count("repeated alike", n)
	c.Eval(what)
}

func (s *script) String() string {
	out := fmt.Sprintf("%s of %s to %v", opNames[s.op], showObjs(s.objs), s.dev.EP)
	for t := range s.per {
		out += fmt.Sprintf("; transmission %d (refused by the link: %v):", t+1, s.sendErr[t])
		for _, a := range s.per[t] {
			out += fmt.Sprintf(" after %v %s", a.after, ansNames[a.kind])
			if a.kind == ansError || a.kind == ansErrorWrapped {
				out += fmt.Sprintf(" %d/%d", a.class, a.code)
			}
		}
	}
	return out
}

func (c *C) judgeScript(s *script, got any, err error, took time.Duration) {
	what := s.String()
	c.Eval(what)
	if s.tried > 2 {
		c.Fail("transmissions", "%s: sent %d times", what, s.tried)
	}
	if s.tried == 0 {
		c.Fail("transmissions", "%s: nothing was sent (%v)", what, err)
	}
	if s.tried == 2 {
		c.Count("transmitted again", 1)
		if string(s.sent[0].Data) != string(s.sent[1].Data) || fmt.Sprint(s.sent[0].Dest) != fmt.Sprint(s.sent[1].Dest) {
			c.Fail("transmissions", "%s: the second transmission is %s to %v, the first %s to %v", what, hexs(s.sent[1].Data), s.sent[1].Dest, hexs(s.sent[0].Data), s.sent[0].Dest)
		}
	}
	if took > 30*time.Second {
		c.Fail("slow", "%s: returned after %v", what, took)
	}
	var answers []arrived
	for _, a := range s.got {
		if a.kind < ansSegmentAck && !(a.kind == ansDamaged && s.op >= opWrite) {
			answers = append(answers, a)
		}
	}
	if err == nil {
		ok := false
		for _, a := range answers {
			if a.kind == ansPositive && (s.op >= opWrite || sameObjs(libObjsOf(got), a.objs) == "") {
				ok = true
			}
		}
		if !ok {
			c.Fail("success", "%s: reported as successful with %s; arrived: %s", what, showLib(got), showArrived(s.got))
		}
		c.Count("success", 1)
		return
	}
	if len(answers) == 0 {
		c.Count("nothing answered", 1)
		return
	}
	// the first answer to the first transmission decides
	a := answers[0]
	if !s.sendErr[0] && a.kind == ansPositive && a.after < 4900*time.Millisecond {
		c.Fail("failure", "%s: reported as failed (%v); arrived: %s", what, err, showArrived(s.got))
	}
	if a.kind == ansReject || a.kind == ansAbort {
		// likewise
		for _, b := range answers {
			if b.kind != a.kind || b.why != a.why {
				return
			}
		}
		for t := 0; t < s.tried; t++ {
			in := false
			for _, b := range s.per[t] {
				in = in || b.kind == a.kind && b.after < 4900*time.Millisecond
			}
			if !in || s.sendErr[t] {
				return
			}
		}
		name, other := "reject", "abort"
		if a.kind == ansAbort {
			name, other = other, name
		}
		text := strings.ToLower(err.Error())
		if !strings.Contains(text, name) || strings.Contains(text, other) || !hasNumber(text, uint32(a.why)) {
			c.Fail("reason", "%s: answered with %s for the reason %d, reported as %q", what, name, a.why, err)
		}
		c.Count("reason named", 1)
	}
	if a.kind == ansError || a.kind == ansErrorWrapped {
		// when nothing but this error was answered to any transmission, it is what is reported
		for _, b := range answers {
			if (b.kind != ansError && b.kind != ansErrorWrapped) || b.class != a.class || b.code != a.code {
				return
			}
		}
		for t := 0; t < s.tried; t++ {
			in := false
			for _, b := range s.per[t] {
				if (b.kind == ansError || b.kind == ansErrorWrapped) && b.after < 4900*time.Millisecond {
					in = true
				}
			}
			if !in || s.sendErr[t] {
				return
			}
		}
		if !namesError(err, a.class, a.code) {
			c.Fail("error name", "%s: answered with the error class %d code %d, reported as %q", what, a.class, a.code, err)
		}
		c.Count("error named", 1)
	}
}

func showArrived(as []arrived) string {
	out := ""
	for _, a := range as {
		out += fmt.Sprintf("%s after %v (%s); ", ansNames[a.kind], a.after, showObjs(a.objs))
	}
	if len(out) > 2500 {
		out = out[:2500] + "..."
	}
	return out
}
