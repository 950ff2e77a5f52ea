package checks

import (
	"fmt"
	"math/rand"
	"testing"
	"time"

	"github.com/NubeDev/bacnet/btypes"
	"verif/harness/ref"
	"verif/harness/sim"
)

func init() {
	register("C20", "ReadPropertyMultiple and WritePropertyMultiple requests of every size around the maximum APDU of many devices, direct and behind routers: what is transmitted; then acknowledgements of up to 1476 octets behind link and network headers of every length up to the longest, over a simulated link and over UDP, compared with what the device sent", runC20)
}

// genReadsOf are reads whose request is an APDU of just that size
func genReadsOf(r *rand.Rand, size int) []ref.Obj {
	var objs []ref.Obj
	left := size - 4
	prop := func(n int) ref.Prop {
		lo := []int{0, 0, 0, 256, 65536}[n]
		hi := []int{0, 0, 256, 65536, 4194304}[n]
		p := ref.Prop{ID: uint32(lo + r.Intn(hi-lo)), Index: ref.ArrayAll}
		return p
	}
	few := r.Intn(2) == 0
	for left > 0 {
		o := ref.Obj{ID: genObj(r)}
		left -= 7
		for left > 0 {
			n := 2 + r.Intn(3)
			switch {
			case left <= 4 && left >= 2:
				n = left
			case left-n == 1:
				n = 3 - n%2 // 2 or 3, whichever leaves something to work with
				if left-n == 1 {
					n = 2
				}
			}
			if left < 2 {
				return nil
			}
			o.Props = append(o.Props, prop(n))
			left -= n
			if left >= 9+4 && !few && r.Intn(4) == 0 {
				break
			}
		}
		objs = append(objs, o)
	}
	return objs
}

// genWritesOf are writes whose request is an APDU of just that size
func genWritesOf(r *rand.Rand, size int) []ref.Obj {
	var objs []ref.Obj
	for len(objs) < 200 {
		o := ref.Obj{ID: genObj(r)}
		for k := 1 + r.Intn(5); k > 0; k-- {
			_, v := genWritable(r, false)
			p := ref.Prop{ID: genPropID(r), Index: ref.ArrayAll, Vals: []any{v}}
			if r.Intn(3) == 0 {
				p.Index = genIndex(r)
			}
			if r.Intn(2) == 0 {
				p.Prio = uint8(1 + r.Intn(16))
			}
			o.Props = append(o.Props, p)
		}
		if with := append(objs[:len(objs):len(objs)], o); 4+len(ref.WriteMultipleReq(with)) <= size {
			objs = with
		} else {
			break
		}
	}
	if r.Intn(3) == 0 {
		objs = nil
	}
	o := ref.Obj{ID: genObj(r), Props: []ref.Prop{{ID: 28, Index: ref.ArrayAll, Vals: []any{ref.Str("")}}}}
	for {
		with := append(objs[:len(objs):len(objs)], o)
		for n := 0; ; n++ {
			o.Props[0].Vals[0] = ref.Str("")
			short := size - 4 - len(ref.WriteMultipleReq(with))
			if short < 0 {
				break
			}
			for k := max(0, short-8); k <= short; k++ {
				o.Props[0].Vals[0] = ref.Str(genText(r, k))
				if 4+len(ref.WriteMultipleReq(with)) == size {
					return with
				}
			}
			break
		}
		if len(objs) == 0 {
			return nil
		}
		objs = objs[:len(objs)-1]
	}
}

// genAckOf is what a device answers so that the APDU is of that size
func genAckOf(r *rand.Rand, op, size int) []ref.Obj {
	frame := func(objs []ref.Obj) int {
		if op == opRead {
			return 3 + len(ref.ReadPropertyAck(objs[0].ID, objs[0].Props[0]))
		}
		return 3 + len(ref.ReadMultipleAck(objs))
	}
	objs := []ref.Obj{{ID: genObj(r), Props: []ref.Prop{{ID: genPropID(r), Index: genIndex(r)}}}}
	if op == opReadMulti && r.Intn(2) == 0 { // many small ones
		objs = nil
		for {
			o := ref.Obj{ID: genObj(r)}
			for k := 1 + r.Intn(6); k > 0; k-- {
				o.Props = append(o.Props, ref.Prop{ID: genPropID(r), Index: genIndex(r), Vals: []any{genValue(r, false)}})
			}
			if frame(append(objs, o)) > size-40 {
				break
			}
			objs = append(objs, o)
		}
		objs = append(objs, ref.Obj{ID: genObj(r), Props: []ref.Prop{{ID: 28, Index: ref.ArrayAll}}})
	}
	last := &objs[len(objs)-1].Props[0]
	last.Vals = nil
	if r.Intn(2) == 0 { // a list
		for {
			var v any
			switch r.Intn(3) {
			case 0:
				v = genObj(r)
			case 1:
				v = genF32(r)
			default:
				v = genValue(r, false)
			}
			last.Vals = append(last.Vals, v)
			if frame(objs) > size-10 {
				last.Vals = last.Vals[:len(last.Vals)-1]
				break
			}
		}
	}
	have := append([]any{}, last.Vals...)
	fr := frame(objs)
	for k := size - fr; k >= 0 && k >= size-fr-9; k-- {
		var v any = genOctets(r, k)
		if r.Intn(2) == 0 {
			v = ref.Str(genText(r, k))
		}
		last.Vals = append(append([]any{}, have...), v)
		if frame(objs) == size {
			return objs
		}
	}
	return nil
}

func runC20(c *C) {
	c.Need("long idle", "huge maximum", "too large refused", "fits", "fits exactly", "one octet too large", "ReadMultiProperty transmitted", "WriteMultiProperty transmitted", "behind a router",
		"answers of 1476 octets", "longest headers", "answers received", "forwarded answers", "routed answers", "answers over UDP", "any device asked")
	c.Loop(0, c.N(30000, 600000), func(i int, r *rand.Rand) {
		d := genDevices(r, 1)[0]
		if d.Net != 0 && r.Intn(8) == 0 {
			d.Mac = genOctets(r, 1+r.Intn(7))
		}
		d.MaxApdu = []uint32{50, 128, 206, 480, 1024, 1476, uint32(40 + r.Intn(1437)), uint32(40 + r.Intn(100))}[r.Intn(8)]
		op := []int{opReadMulti, opWriteMulti}[r.Intn(2)]
		huge := r.Intn(20) == 0 // more than there is on this link
		if huge {
			d.MaxApdu = []uint32{65535, 65536, 65537, 65536 + 50, 1 << 17, 1 << 20, 1 << 31, 1<<31 - 1, 1<<32 - 1, 1<<24 + 100}[r.Intn(10)]
			c.Count("huge maximum", 1)
		}
		size := int(d.MaxApdu) + []int{0, 1, 2, -1, -2, r.Intn(60) - 30, r.Intn(60) - 30, -r.Intn(int(min(d.MaxApdu, 2000))), r.Intn(600)}[r.Intn(9)]
		npdu := len(ref.NPDU{Version: 1, Reply: true, Hop: 255, Dst: dst(d)}.Bytes())
		switch r.Intn(4) {
		case 0:
			size = int(d.MaxApdu) - npdu
		}
		size = max(13, size)
		if huge {
			size = 13 + r.Intn(1440)
		}
		var objs []ref.Obj
		if op == opReadMulti {
			objs = genReadsOf(r, size)
		} else {
			objs = genWritesOf(r, size)
		}
		if objs == nil {
			return
		}
		if n := reqLen(op, objs); n != size {
			panic(fmt.Sprintf("harness: made %d octets for %d", n, size))
		}
		c.sendSized(d, op, objs, size, npdu)
	})
	c.Loop(1<<24, c.N(15000, 300000), func(i int, r *rand.Rand) {
		op := []int{opRead, opReadMulti}[r.Intn(2)]
		size := []int{1476, 1476, 1475, 1474, 1470 + r.Intn(7), 60 + r.Intn(1417), 1024, 480}[r.Intn(8)]
		objs := genAckOf(r, op, size)
		if objs == nil {
			return
		}
		if op == opRead && r.Intn(5) == 0 {
			objs[0].ID = ref.ObjID{Type: 8, Instance: uint32(r.Intn(4194303))}
		}
		if r.Intn(40) == 0 {
			c.receiveUDP(op, objs, size, r)
		} else {
			c.receiveSized(op, objs, size, r)
		}
	})
}

func reqLen(op int, objs []ref.Obj) int {
	if op == opReadMulti {
		return 4 + len(ref.ReadMultipleReq(objs))
	}
	return 4 + len(ref.WriteMultipleReq(objs))
}

func dst(d *sim.Device) *ref.Addr {
	if d.Net == 0 {
		return nil
	}
	return &ref.Addr{Net: d.Net, Mac: d.Mac}
}

func (c *C) sendSized(d *sim.Device, op int, objs []ref.Obj, size, npdu int) {
	what := fmt.Sprintf("%s of %d octets behind a network header of %d to a device with maximum APDU %d", opNames[op], size, npdu, d.MaxApdu)
	c.Bubble(what, func(t *testing.T) {
		w := newWorld(0)
		defer w.end()
		w.OnSend = func(p sim.Packet) {
			q, err := sim.ParseRequest(p)
			if err != nil {
				c.Fail("request", "%s: %v: %s", what, err, hexs(p.Data))
				return
			}
			// the APDU is what follows the network header
			_, rest, _ := ref.ParseBVLC(p.Data)
			_, apdu, _ := ref.ParseNPDU(rest)
			if uint32(len(apdu)) > d.MaxApdu {
				c.Fail("too large", "%s: an APDU of %d octets was transmitted", what, len(apdu))
			}
			if !d.Matches(q) {
				c.Fail("request", "%s: not addressed to the device: %s", what, hexs(p.Data))
				return
			}
			if op == opReadMulti { // any acknowledgement might be too large
				w.Inject(q.Reply().From, q.Reply().Frame(ref.ErrorAnswer(q.APDU.ID, q.APDU.Svc, 2, 32)))
			} else {
				w.Inject(q.Reply().From, q.Reply().Frame(ref.Simple(q.APDU.ID, q.APDU.Svc)))
			}
		}
		var err error
		if !c.Guard("operation", what, func() { _, err = w.do(op, libDevice(d), objs) }) {
			return
		}
		n := w.SentCount()
		switch {
		case size > int(d.MaxApdu):
			if n > 0 {
				c.Fail("too large", "%s: it was transmitted", what)
			} else if err == nil {
				c.Fail("no error", "%s: not transmitted, but successful", what)
			}
			c.Count("too large refused", 1)
			if size == int(d.MaxApdu)+1 {
				c.Count("one octet too large", 1)
			}
		case size+npdu <= int(d.MaxApdu):
			if n == 0 {
				c.Fail("refused", "%s: it fits, but was not transmitted: %v", what, err)
			} else if op == opWriteMulti && err != nil {
				c.Fail("failed", "%s: acknowledged, but failed: %v", what, err)
			}
			c.Count("fits", 1)
			c.Count(opNames[op]+" transmitted", 1)
			if size+npdu == int(d.MaxApdu) {
				c.Count("fits exactly", 1)
			}
		default:
			c.Count("fits without its network header", 1)
			if n == 0 && err == nil {
				c.Fail("no error", "%s: not transmitted, but successful", what)
			}
		}
		if d.Net != 0 {
			c.Count("behind a router", 1)
		}
		c.Eval(what)
		time.Sleep(time.Second)
	})
}

// genHeaders are headers of any length in front of an answer
func genHeaders(r *rand.Rand, d *sim.Device) (sim.Route, *sim.Device, bool) {
	rt := sim.Route{From: d.EP}
	long := r.Intn(3) == 0
	if long || r.Intn(2) == 0 {
		n := []int{1, 6, 7, 255, r.Intn(255) + 1}[r.Intn(5)]
		if long {
			n = 255
		}
		rt.Src = &ref.Addr{Net: uint16(1 + r.Intn(65534)), Mac: genOctets(r, n)}
	}
	if long || r.Intn(3) == 0 {
		n := []int{1, 6, 7, 255, r.Intn(256)}[r.Intn(5)]
		if long {
			n = 255
		}
		rt.Dst = &ref.Addr{Net: uint16(1 + r.Intn(65534)), Mac: genOctets(r, n)}
	}
	if long || r.Intn(3) == 0 {
		e := genEP(r)
		rt.Forward = &e
	}
	return rt, d, long
}

func (c *C) countAnswer(rt sim.Route, long bool, size int) {
	c.Count("answers received", 1)
	if long {
		c.Count("longest headers", 1)
	}
	if rt.Forward != nil {
		c.Count("forwarded answers", 1)
	}
	if rt.Src != nil {
		c.Count("routed answers", 1)
	}
	if size == 1476 {
		c.Count("answers of 1476 octets", 1)
	}
}

func (c *C) receiveSized(op int, objs []ref.Obj, size int, r *rand.Rand) {
	d := genDevices(r, 1)[0]
	rt, _, long := genHeaders(r, d)
	maxPDU := uint16([]int{0, 1476}[r.Intn(2)])
	what := fmt.Sprintf("answer of %d octets to %s, datagram of %d", size, opNames[op], len(rt.Frame(make([]byte, size))))
	c.Bubble(what, func(t *testing.T) {
		w := newWorld(maxPDU)
		defer w.end()
		c.idle(r)
		w.OnSend = func(p sim.Packet) {
			q, err := sim.ParseRequest(p)
			if err != nil {
				c.Fail("request", "%s: %v: %s", what, err, hexs(p.Data))
				return
			}
			w.Inject(rt.From, rt.Frame(positive(q, op, objs)))
		}
		var got []btypes.Object
		var err error
		if !c.Guard("operation", what, func() { got, err = w.do(op, libDevice(d), askFor(objs)) }) {
			return
		}
		c.judgeAnswer(what, objs, got, err)
		c.countAnswer(rt, long, size)
	})
}

// askFor is a small question: the answer need not fit it
func askFor(objs []ref.Obj) []ref.Obj {
	var out []ref.Obj
	n := 0
	for _, o := range objs {
		q := ref.Obj{ID: o.ID}
		if o.ID.Type == 8 && len(objs) == 1 && o.ID.Instance%2 == 1 {
			q.ID.Instance = 4194303 // the device is asked which one it is, and answers with that
		}
		for _, p := range o.Props {
			if n++; n > 20 {
				return append(out, q)
			}
			q.Props = append(q.Props, ref.Prop{ID: p.ID, Index: p.Index})
		}
		out = append(out, q)
	}
	return out
}

func (c *C) judgeAnswer(what string, objs []ref.Obj, got []btypes.Object, err error) {
	c.Eval(what)
	if askFor(objs)[0].ID != objs[0].ID {
		c.Count("any device asked", 1)
	}
	if err != nil {
		c.Fail("answer", "%s: failed: %v", what, err)
		return
	}
	if s := sameObjs(got, objs); s != "" {
		c.Fail("answer", "%s: not what the device sent: %s", what, s)
	}
}

func (c *C) receiveUDP(op int, objs []ref.Obj, size int, r *rand.Rand) {
	d := sim.NewDevice(sim.EP{IP: [4]byte{127, 0, byte(10 + c.Shard), 1}, Port: 47808}, 5)
	rt, _, long := genHeaders(r, d)
	what := fmt.Sprintf("answer of %d octets to %s over UDP, datagram of %d", size, opNames[op], len(rt.Frame(make([]byte, size))))
	nw := newRealNet([]*sim.Device{d}, false)
	defer nw.close()
	nw.Answer = func(d *sim.Device, q *sim.Request) []byte { return rt.Frame(positive(q, op, objs)) }
	cl, done, err := realClient(22000 + 100*c.Shard)
	if err != nil {
		c.Fail("client", "no client: %v", err)
		return
	}
	w := &world{cl: cl, done: done}
	defer w.end()
	var got []btypes.Object
	err = patiently(func() (err error) {
		got, err = w.do(op, libDevice(d), askFor(objs))
		return
	})
	c.judgeAnswer(what, objs, got, err)
	c.countAnswer(rt, long, size)
	c.Count("answers over UDP", 1)
}
