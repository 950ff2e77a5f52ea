package checks

import (
	"fmt"
	"math/rand"
	"runtime"
	"syscall"
	"time"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
	"verif/harness/ref"
)

func init() {
	register("C03", "octets handed to each decoding entry point: random, mutated from valid messages, made of tags, all short ones, all proper beginnings of valid messages, and large ones; panics, allocation, processor time and unreported truncation are violations", runC03)
}

type entry struct {
	name string
	f    func(b []byte) error
}

var entries = []entry{
	{"BVLC", func(b []byte) error { var x btypes.BVLC; return encoding.NewDecoder(b).BVLC(&x) }},
	{"NPDU", func(b []byte) error { var x btypes.NPDU; _, err := encoding.NewDecoder(b).NPDU(&x); return err }},
	{"APDU", func(b []byte) error { var x btypes.APDU; return encoding.NewDecoder(b).APDU(&x) }},
	{"ReadProperty", func(b []byte) error { var x btypes.PropertyData; return encoding.NewDecoder(b).ReadProperty(&x) }},
	{"ReadMultiplePropertyAck", func(b []byte) error {
		var x btypes.MultiplePropertyData
		return encoding.NewDecoder(b).ReadMultiplePropertyAck(&x)
	}},
	{"AppData", func(b []byte) error { _, err := encoding.NewDecoder(b).AppData(); return err }},
	{"WhoIs", func(b []byte) error { var l, h int32; return encoding.NewDecoder(b).WhoIs(&l, &h) }},
	{"IAm", func(b []byte) error { var x btypes.IAm; return encoding.NewDecoder(b).IAm(&x) }},
	{"message", decodeMessage},
}

// decodeMessage decodes a datagram as the client does
func decodeMessage(b []byte) error {
	d := encoding.NewDecoder(b)
	var h btypes.BVLC
	if err := d.BVLC(&h); err != nil {
		return err
	}
	if h.Function == btypes.BacFuncForwardedNPDU {
		if err := d.Skip(6); err != nil {
			return err
		}
	}
	var n btypes.NPDU
	if _, err := d.NPDU(&n); err != nil || n.IsNetworkLayerMessage {
		return err
	}
	var a btypes.APDU
	if err := d.APDU(&a); err != nil {
		return err
	}
	switch {
	case a.DataType == btypes.ComplexAck && a.Service == btypes.ServiceConfirmedReadProperty:
		var x btypes.PropertyData
		return d.ReadProperty(&x)
	case a.DataType == btypes.ComplexAck:
		var x btypes.MultiplePropertyData
		return d.ReadMultiplePropertyAck(&x)
	case a.DataType == btypes.UnconfirmedServiceRequest && a.UnconfirmedService == btypes.ServiceUnconfirmedIAm:
		var x btypes.IAm
		return encoding.NewDecoder(a.RawData).IAm(&x)
	case a.DataType == btypes.UnconfirmedServiceRequest && a.UnconfirmedService == btypes.ServiceUnconfirmedWhoIs:
		var l, h int32
		return encoding.NewDecoder(a.RawData).WhoIs(&l, &h)
	}
	return nil
}

// msg is a valid message: what decodes it, its octets and the lengths at which a beginning of it is valid too
type msg struct {
	entry int
	b     []byte
	ok    map[int]bool
	what  string
}

func genMsg(r *rand.Rand) msg {
	set := func(ks ...int) map[int]bool {
		m := map[int]bool{}
		for _, k := range ks {
			m[k] = true
		}
		return m
	}
	id, svc := byte(r.Intn(256)), byte(r.Intn(32))
	switch r.Intn(10) {
	case 0:
		o, p := genObj(r), ref.Prop{ID: genPropID(r), Index: genIndex(r), Vals: genVals(r)}
		h1 := len(ref.ReadPropertyReq(o, p.ID, ref.ArrayAll))
		h2 := len(ref.ReadPropertyReq(o, p.ID, p.Index))
		return msg{3, ref.ReadPropertyAck(o, p), set(h1, h2), "ReadProperty acknowledgement"}
	case 1, 2:
		objs := genAckObjs(r)
		ok := set(0)
		n := 0
		for _, o := range objs {
			n += len(ref.ReadMultipleAck([]ref.Obj{o}))
			ok[n] = true
		}
		return msg{4, ref.ReadMultipleAck(objs), ok, "ReadPropertyMultiple acknowledgement"}
	case 3:
		return msg{5, ref.App(genValue(r, false)), nil, "value"}
	case 4:
		return msg{7, ref.IAm(genObj(r), genUint(r), genUint(r)&3, genUint(r))[2:], nil, "I-Am"}
	case 5:
		return msg{6, ref.WhoIs(int64(r.Intn(4194303)), int64(r.Intn(4194303)))[2:], set(0), "Who-Is"}
	case 6:
		n := genNPDU(r)
		b := n.Bytes()
		ok := map[int]bool{}
		if n.Network && n.Type == 1 { // I-Am-Router-To-Network
			h := len(b)
			ok[h] = true
			for k := 1 + r.Intn(20); k > 0; k-- {
				b = append(b, byte(r.Intn(256)), byte(r.Intn(256)))
				ok[len(b)] = true
			}
			delete(ok, len(b))
		} else if n.Network && n.Type == 0x13 {
			b = append(b, byte(r.Intn(256)), byte(r.Intn(256)))
		}
		return msg{1, b, ok, "NPDU"}
	case 7:
		switch r.Intn(6) {
		case 0:
			class, code := genError(r)
			return msg{2, ref.ErrorAnswer(id, svc, class, code), nil, "error"}
		case 1:
			return msg{2, []byte{ref.Reject << 4, id, svc}, nil, "reject"}
		case 2:
			return msg{2, []byte{ref.Abort<<4 | 1, id, svc}, nil, "abort"}
		case 3:
			return msg{2, []byte{ref.SegmentAck << 4, id, svc, 1}, nil, "segment acknowledgement"}
		case 4:
			return msg{2, ref.Simple(id, svc), nil, "simple acknowledgement"}
		default:
			return msg{2, []byte{0x0c, 5, id, 1, 2, svc}, nil, "segmented request"}
		}
	case 8:
		h := []byte{0x81, byte(r.Intn(12)), byte(r.Intn(256)), byte(r.Intn(256))}
		return msg{0, h, nil, "BVLC"}
	default:
		if r.Intn(2) == 0 {
			return msg{2, []byte{0x3c, id, 1, 2, svc}, nil, "segmented acknowledgement"}
		}
		if r.Intn(2) == 0 {
			return msg{2, ref.Complex(id, svc, nil), nil, "complex acknowledgement"}
		}
		return msg{2, ref.ReqHeader(id, svc), nil, "request"}
	}
}

var nasty = []byte{0, 1, 4, 5, 6, 7, 0x0c, 0x0e, 0x0f, 0x1e, 0x1f, 0x29, 0x2e, 0x2f, 0x3e, 0x3f, 0x4e, 0x4f, 0x5e, 0x5f, 0x65, 0x75, 0x7d, 0x7e, 0x7f, 0x80, 0x81, 0x85,
	0x95, 0xa5, 0xb5, 0xc4, 0xc5, 0xf5, 0xfd, 0xfe, 0xff}

func mutate(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := 1 + r.Intn(4); k > 0; k-- {
		if len(b) == 0 {
			b = append(b, nasty[r.Intn(len(nasty))])
			continue
		}
		i := r.Intn(len(b))
		switch r.Intn(9) {
		case 0:
			b[i] ^= 1 << uint(r.Intn(8))
		case 1:
			b[i] = nasty[r.Intn(len(nasty))]
		case 2:
			b[i] = byte(r.Intn(256))
		case 3:
			b = append(b[:i], b[i+1:]...)
		case 4:
			b = append(b[:i], append([]byte{nasty[r.Intn(len(nasty))]}, b[i:]...)...)
		case 5:
			b = b[:i]
		case 6: // a huge length
			b = append(b[:i], append([]byte{byte(r.Intn(13))<<4 | byte(r.Intn(2))<<3 | 5, 255, byte(r.Intn(256)), 255, 255, byte(r.Intn(256))}, b[i:]...)...)
		case 7:
			j := i + r.Intn(len(b)-i)
			b = append(b[:j:j], b[i:]...)
		case 8:
			b[i] += byte(1 + r.Intn(4)*254)
		}
	}
	return b
}

// genTags is a stream of tags in any nesting
func genTags(r *rand.Rand, n int) []byte {
	var b []byte
	if r.Intn(2) == 0 {
		b = ref.CtxObj(0, genObj(r))
		switch r.Intn(3) {
		case 0:
			b = append(b, 0x1e, 0x29, 85)
		case 1:
			b = append(b, 0x19, 85, 0x3e)
		case 2:
			b = append(b, 0x1e, 0x29, byte(r.Intn(256)), 0x4e)
		}
	}
	for ; n > 0; n-- {
		switch r.Intn(6) {
		case 0:
			b = append(b, ref.Open(r.Intn(7))...)
		case 1:
			b = append(b, ref.Close(r.Intn(7))...)
		case 2:
			b = append(b, ref.Ctx(r.Intn(9), genUint(r))...)
		case 3:
			b = append(b, ref.App(genValue(r, false))...)
		case 4:
			b = append(b, ref.Tag(r.Intn(18), r.Intn(2) == 0, r.Intn(20), ref.LenForm(r.Intn(4)))...)
		default:
			b = append(b, nasty[r.Intn(len(nasty))])
		}
	}
	return b
}

func threadCPU() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(1, &ru) // RUSAGE_THREAD
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func runC03(c *C) {
	c.limit = 40 * time.Second
	c.Need("random", "mutated", "tags", "short", "prefix", "large", "large value", "accepted", "refused")
	bound := func(n int) uint64 { return 256<<10 + 2048*uint64(n) }
	try := func(e entry, b []byte) (err error) {
		c.Guard(e.name, e.name+" of "+hexs(b), func() { err = e.f(b) })
		return err
	}
	batch := func(in [][]byte, es []entry) {
		n, acc := 0, 0
		a0 := allocs()
		for _, b := range in {
			for _, e := range es {
				if try(e, b) == nil {
					acc++
				}
				n += len(b)
			}
		}
		c.Count("accepted", acc)
		c.Count("refused", len(in)*len(es)-acc)
		if allocs()-a0 > bound(n) {
			for _, b := range in {
				for _, e := range es {
					runtime.GC()
					a := allocs()
					try(e, b)
					if d := allocs() - a; d > bound(len(b)) {
						c.Fail("allocates:"+e.name, "%s of %d octets (%s) allocates %d octets", e.name, len(b), hexs(b), d)
						return
					}
				}
			}
		}
	}
	// all of up to two octets, and a part of those of three
	c.Loop(0, 257, func(i int, r *rand.Rand) {
		var in [][]byte
		if i == 256 {
			in = append(in, nil, []byte{})
			for j := 0; j < 256; j++ {
				in = append(in, []byte{byte(j)})
			}
		} else {
			for j := 0; j < 256; j++ {
				in = append(in, []byte{byte(i), byte(j)})
				for k := 0; k < c.N(4, 256); k++ {
					in = append(in, []byte{byte(i), byte(j), byte(k)})
					in = append(in, []byte{byte(i), byte(j), byte(r.Intn(256)), byte(r.Intn(256))})
				}
			}
		}
		batch(in, entries)
		c.Count("short", len(in)*len(entries))
		c.Eval(fmt.Sprintf("all of two octets that begin with %#x", i))
	})
	c.Loop(1000, 256, func(i int, r *rand.Rand) {
		// the header of a property acknowledgement and all of two octets after it
		for _, h := range [][]byte{{0x0c, 0, 0, 0, 1, 0x19, 85}, {0x0c, 0, 0, 0, 1, 0x19, 85, 0x3e}, {0x0c, 0, 0, 0, 1, 0x1e}, {0x0c, 0, 0, 0, 1, 0x1e, 0x29, 85},
			{0x0c, 0, 0, 0, 1, 0x1e, 0x29, 85, 0x4e}, {1, 0x80}, {1, 0x28}} {
			var in [][]byte
			for j := 0; j < 256; j++ {
				in = append(in, append(append([]byte{}, h...), byte(i), byte(j)))
				in = append(in, append(append([]byte{}, h...), byte(i), byte(j), nasty[r.Intn(len(nasty))], nasty[r.Intn(len(nasty))]))
			}
			batch(in, entries[1:5])
			c.Count("short", len(in)*4)
		}
		c.Eval(fmt.Sprintf("headers followed by %#x and any octet", i))
	})
	c.Loop(10000, c.N(6000, 200000), func(i int, r *rand.Rand) {
		var in [][]byte
		for k := 0; k < 40; k++ {
			n := r.Intn(40)
			if k == 0 {
				n = r.Intn(1600)
			}
			b := make([]byte, n)
			r.Read(b)
			in = append(in, b)
		}
		batch(in, entries)
		c.Count("random", len(in)*len(entries))
		c.Eval("random: " + hexs(in[1]))
	})
	c.Loop(1000000, c.N(8000, 300000), func(i int, r *rand.Rand) {
		var in [][]byte
		for k := 0; k < 24; k++ {
			m := genMsg(r)
			b := mutate(r, m.b)
			in = append(in, b)
			if m.entry == 2 || m.entry > 2 && m.entry < 5 {
				in = append(in, ref.BVLC(ref.FuncUnicast, ref.NPDU{Version: 1}.Bytes(), b))
			}
		}
		batch(in, entries)
		c.Count("mutated", len(in)*len(entries))
		c.Eval("mutated: " + hexs(in[0]))
	})
	c.Loop(2000000, c.N(8000, 300000), func(i int, r *rand.Rand) {
		var in [][]byte
		for k := 0; k < 24; k++ {
			in = append(in, genTags(r, r.Intn(14)))
		}
		batch(in, entries[2:6])
		c.Count("tags", len(in)*4)
		c.Eval("tags: " + hexs(in[0]))
	})
	c.Loop(3000000, c.N(24000, 600000), func(i int, r *rand.Rand) {
		m := genMsg(r)
		e := entries[m.entry]
		if err := try(e, m.b); err != nil {
			c.Fail("valid refused:"+e.name, "%s: %s refuses %s: %v", m.what, e.name, hexs(m.b), err)
		}
		n := 0
		for k := 0; k < len(m.b) && k < 1500; k++ {
			if m.ok[k] {
				continue
			}
			n++
			if err := try(e, m.b[:k:k]); err == nil {
				c.Fail("prefix:"+e.name, "%s: %s accepts the first %d octets of %s", m.what, e.name, k, hexs(m.b))
				break
			}
		}
		c.Count("prefix", n)
		c.Eval("beginnings of " + hexs(m.b))
	})
	// large inputs: the time must not grow faster than the length
	shapes := [][]byte{{0}, {0x10}, {0x0e}, {0x0f}, {0x4e}, {0x4f}, {0x2e}, {0x2f}, {0x3e}, {0x3e, 0x3f}, {0x21, 1}, {0x2e, 0x2f}, {0x2e, 0x09, 1, 0x2f}, {0x75, 1, 0}, {0x71, 0},
		{0x61, 9}, {0x82, 0, 255}, {0xc4, 0, 0, 0, 1}, {1, 2, 3, 4}, {0xff}, {0x09, 1}, {0x29, 1, 0x4e, 0x21, 1, 0x4f}, {0x0c, 0, 0, 0, 1, 0x1e, 0x29, 85, 0x4e, 0, 0x4f, 0x1f},
		{0x4e, 0, 0x4f, 0x29, 1}, {0x0e, 0x0f}}
	heads := [][]byte{{}, {0x0c, 0, 0, 0, 1, 0x19, 85, 0x3e}, {0x0c, 0, 0, 0, 1, 0x1e, 0x29, 85, 0x4e}, {0x0c, 0, 0, 0, 1, 0x1e}, {1, 0x80, 1}, {0x81, 10, 0, 0, 1, 0, 0x30, 1, 14}}
	large := func(e entry, mk func(n int) []byte, what string, most int) {
		runtime.LockOSThread()
		defer runtime.UnlockOSThread()
		cost := func(n int) time.Duration {
			b := mk(n)
			best := time.Hour
			for k := 0; k < 3; k++ {
				t := threadCPU()
				a := allocs()
				try(e, b)
				if d := allocs() - a; d > bound(len(b)) {
					c.Fail("allocates:"+e.name, "%s of %d octets (%s) allocates %d octets", e.name, len(b), what, d)
					return 0
				}
				if d := threadCPU() - t; d < best {
					best = d
				}
				if best < 10*time.Millisecond {
					break
				}
			}
			return best
		}
		small, big := cost(8<<10), cost(64<<10)
		if big > 200*time.Millisecond && big > 30*small {
			c.Fail("slow:"+e.name, "%s of 8 kB takes %v and of 64 kB %v (%s)", e.name, small, big, what)
		}
		if most > 0 {
			cost(most)
		}
		c.Count("large", 2)
		c.Eval(fmt.Sprintf("%s of 64 kB: %s", e.name, what))
	}
	c.Loop(4000000, len(shapes)*len(heads)*len(entries), func(i int, r *rand.Rand) {
		e, h, s := entries[i%len(entries)], heads[i/len(entries)%len(heads)], shapes[i/len(entries)/len(heads)]
		most := 0
		if s[0] == 0 || s[0] == 0x4e {
			most = 1 << 20
		}
		large(e, func(n int) []byte {
			b := append([]byte{}, h...)
			for len(b) < n {
				b = append(b, s...)
			}
			return b
		}, fmt.Sprintf("% x, then % x repeated", h, s), most)
	})
	// one large value: of each kind, right after each beginning and inside lists
	tags := []byte{0x15, 0x25, 0x35, 0x45, 0x55, 0x65, 0x75, 0x85, 0x95, 0xa5, 0xb5, 0xc5, 0xd5, 0x0d, 0x1d, 0x2d, 0x4d}
	fills := [][]byte{{0, 'a'}, {4, 0, 'a'}, {5, 0xe9}, {1, 1}, {0, 0xc3, 0xa9}, {7, 0xff}}
	c.Loop(5000000, len(tags)*len(fills)*len(heads)*len(entries), func(i int, r *rand.Rand) {
		e, h := entries[i%len(entries)], heads[i/len(entries)%len(heads)]
		j := i / len(entries) / len(heads)
		t, f := tags[j%len(tags)], fills[j/len(tags)]
		large(e, func(n int) []byte {
			if f[0] == 4 {
				n++ // whole characters
			}
			b := append(append([]byte{}, h...), t, 0xff, 0, byte(n>>16), byte(n>>8), byte(n), f[0])
			for k := 1; k < n; k++ {
				b = append(b, f[1+(k-1)%(len(f)-1)])
			}
			if len(h) > 3 {
				b = append(b, h[len(h)-1]|1) // what closes it, when something is open
			}
			return b
		}, fmt.Sprintf("% x, then one value % x of % x repeated", h, t, f), 0)
		c.Count("large value", 1)
	})
}
