package checks

import (
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"verif/harness/ref"
	"verif/harness/sim"
)

func init() {
	register("C12", "requests to devices at random IP addresses and ports, local and behind routers with MAC addresses of every length, Who-Is and network queries on links with random broadcast addresses; every datagram sent is parsed strictly and compared with what was asked", runC12)
}

func genEP(r *rand.Rand) sim.EP {
	ep := sim.EP{Port: uint16(r.Intn(65536))}
	r.Read(ep.IP[:])
	if r.Intn(3) == 0 {
		ep.Port = []uint16{0, 1, 255, 256, 47808, 47809, 0xbabe, 65535}[r.Intn(8)]
	}
	if r.Intn(6) == 0 {
		ep.IP = [4]byte{[]byte{0, 255, 10, 127, 224}[r.Intn(5)], byte(r.Intn(256)), 0, 255}
	}
	if r.Intn(8) == 0 && ep.Port != sim.Self.Port { // another station on the host of the client
		ep.IP = sim.Self.IP
	}
	return ep
}

func runC12(c *C) {
	c.Need("long idle", "local request", "remote request", "Who-Is local", "Who-Is remote", "Who-Is global", "what is network number", "who is router", "local with a MAC", "length not given", "I-Am to a station", "I-Am to a remote station", "I-Am to a remote network", "I-Am to all", "I-Am that cannot be encoded", "transmitted again", "large request")
	c.Loop(0, c.N(18000, 200000), func(i int, r *rand.Rand) {
		c.Bubble("requests", func(t *testing.T) {
			w := newWorld(0)
			c.idle(r)
			w.Link.My, w.Link.Bcast = genEP(r).Addr(), genEP(r).Addr()
			if r.Intn(3) == 0 {
				w.Link.My, w.Link.Bcast = sim.Self.Addr(), sim.EP{IP: [4]byte{10, 0, 0, 255}, Port: 47808}.Addr()
			}
			type target struct {
				lib  btypes.Device
				ep   sim.EP
				dst  *ref.Addr
				op   int
				objs []ref.Obj
			}
			targets := map[uint32]*target{}
			var mu sync.Mutex
			w.OnSend = func(p sim.Packet) {
				mu.Lock()
				defer mu.Unlock()
				q, err := sim.ParseRequest(p)
				if err != nil {
					c.Fail("framing", "sent to %v: %v: %s", p.Dest, err, hexs(p.Data))
					return
				}
				op, objs, err := asked(q)
				if err != nil || len(objs) == 0 || targets[objs[0].ID.Instance] == nil {
					c.Fail("framing", "%v: %s", err, hexs(p.Data))
					return
				}
				g := targets[objs[0].ID.Instance]
				n := q.NPDU
				what := fmt.Sprintf("%s to %v port %d, remote %v: sent to %v: %s", opNames[g.op], g.ep, g.ep.Port, g.dst, p.Dest, hexs(p.Data))
				switch {
				case q.To != g.ep:
					c.Fail("address", "%s", what)
				case n.Version != 1 || !n.Reply || n.Network || n.Src != nil:
					c.Fail("network header", "%s: %s", what, showNPDU(n))
				case (n.Dst == nil) != (g.dst == nil), n.Dst != nil && (n.Dst.Net != g.dst.Net || string(n.Dst.Mac) != string(g.dst.Mac)):
					c.Fail("destination", "%s: %s", what, showNPDU(n))
				case n.Dst != nil && n.Hop == 0:
					c.Fail("hop count", "%s: %s", what, showNPDU(n))
				case op != g.op:
					c.Fail("service", "%s", what)
				}
				if g.dst == nil {
					c.Count("local request", 1)
				} else {
					c.Count("remote request", 1)
				}
				if r.Intn(10) > 0 {
					for a := range objs {
						for b := range objs[a].Props {
							if op < opWrite {
								objs[a].Props[b].Vals = []any{ref.Uint(1)}
							}
						}
					}
					w.Inject(q.To, q.Reply().Frame(positive(q, op, objs)))
				} else {
					c.Count("transmitted again", 1)
				}
			}
			var wg sync.WaitGroup
			for k := 0; k < 12; k++ {
				g := &target{ep: genEP(r), op: r.Intn(4)}
				g.lib = btypes.Device{MaxApdu: 1476, Addr: btypes.Address{Mac: g.ep.Mac(), MacLen: 6}}
				if r.Intn(2) == 0 {
					a := genAddr(r)
					if len(a.Mac) == 0 {
						a.Mac = ref.Octets{byte(k)}
					}
					if a.Net == 65535 {
						a.Net = 65534
					}
					g.dst = a
					g.lib.Addr.Net, g.lib.Addr.Adr, g.lib.Addr.Len = a.Net, append([]byte{}, a.Mac...), uint8(len(a.Mac))
					if r.Intn(3) == 0 {
						g.lib.Addr.Len = 0
						c.Count("length not given", 1)
					} else if r.Intn(4) == 0 {
						g.lib.Addr.Len = byte(r.Intn(256)) // of an address that was there before
						c.Count("length of another address", 1)
					}
				} else if r.Intn(3) == 0 {
					g.lib.Addr.Adr = []byte{byte(r.Intn(256))} // as NewDevice leaves it
					c.Count("local with a MAC", 1)
				}
				o := ref.Obj{ID: ref.ObjID{Type: uint16(r.Intn(1024)), Instance: uint32(k)}, Props: []ref.Prop{{ID: genPropID(r), Index: genIndex(r)}}}
				if g.op >= opWrite {
					o.Props[0].Vals = []any{ref.Octets{}}
					_, v := genWritable(r, false)
					if o.ID.Type == 4 || o.ID.Type == 5 {
						v = ref.Uint(1)
					}
					if s, ok := v.(ref.Str); ok && len(s) > 200 {
						v = s[:0]
					}
					o.Props[0].Vals[0], o.Props[0].Prio = v, uint8(r.Intn(17))
				}
				g.objs = []ref.Obj{o}
				if g.op == opReadMulti && r.Intn(3) == 0 { // a large request
					for n := 20 + r.Intn(80); n > 0; n-- {
						g.objs = append(g.objs, ref.Obj{ID: ref.ObjID{Type: uint16(r.Intn(1024)), Instance: uint32(1000 + n)}, Props: []ref.Prop{{ID: genPropID(r), Index: genIndex(r)}}})
					}
					c.Count("large request", 1)
				}
				targets[uint32(k)] = g
				c.Eval(fmt.Sprintf("%s of %s to %v port %d behind %v", opNames[g.op], showObjs(g.objs), g.ep, g.ep.Port, g.dst))
			}
			for _, g := range targets {
				wg.Add(1)
				go func() { defer wg.Done(); w.do(g.op, g.lib, g.objs) }()
			}
			wg.Wait()
			w.OnSend = nil
			w.Forget()
			// broadcasts
			what := ""
			want := ref.NPDU{Version: 1}
			var body []byte
			bc := func(f func()) {
				n := w.SentCount()
				start := time.Now()
				f()
				ps := w.Sent(n)
				if len(ps) != 1 {
					c.Fail("broadcasts", "%s: %d datagrams", what, len(ps))
					return
				}
				p := ps[0]
				if to, ok := sim.EPOf(p.Dest.Mac); !ok || string(to.Mac()) != string(w.Link.Bcast.Mac) {
					c.Fail("broadcast address", "%s: sent to %v, want %v", what, p.Dest, w.Link.Bcast)
				}
				fn, rest, err := ref.ParseBVLC(p.Data)
				if err != nil || fn != ref.FuncBroadcast {
					c.Fail("broadcast", "%s: %s is not an original broadcast message (%v)", what, hexs(p.Data), err)
					return
				}
				nh, apdu, err := ref.ParseNPDU(rest)
				if err != nil || nh.Version != 1 || nh.Network != want.Network || nh.Network && nh.Type != want.Type || nh.Src != nil ||
					(nh.Dst == nil) != (want.Dst == nil) || nh.Dst != nil && (nh.Dst.Net != want.Dst.Net || len(nh.Dst.Mac) != 0 || nh.Hop == 0) {
					c.Fail("broadcast header", "%s: %s has the header %s, want %s (%v)", what, hexs(p.Data), showNPDU(nh), showNPDU(want), err)
				}
				if string(apdu) != string(body) {
					c.Fail("broadcast content", "%s: %s carries %s, want %s", what, hexs(p.Data), hexs(apdu), hexs(body))
				}
				if p.At.Sub(start) > 5*time.Second {
					c.Fail("broadcast late", "%s: sent after %v", what, p.At.Sub(start))
				}
				c.Eval(what)
			}
			opts := &bacnet.WhoIsOpts{Low: r.Intn(4194303), High: 1 + r.Intn(4194302)}
			body = ref.WhoIs(int64(opts.Low), int64(opts.High))
			if r.Intn(3) == 0 {
				opts.Low, opts.High = 0, 0
				body = ref.WhoIs(-1, -1)
			}
			switch r.Intn(4) {
			case 0:
				opts.NetworkNumber = genNet(r)
				want.Dst = &ref.Addr{Net: opts.NetworkNumber}
				c.Count("Who-Is remote", 1)
			case 1:
				opts.GlobalBroadcast = true
				opts.NetworkNumber = uint16(r.Intn(2) * 7)
				want.Dst = &ref.Addr{Net: 65535}
				c.Count("Who-Is global", 1)
			default:
				c.Count("Who-Is local", 1)
			}
			what = fmt.Sprintf("Who-Is %+v", *opts)
			bc(func() { w.cl.WhoIs(opts) })
			want = ref.NPDU{Version: 1, Network: true, Type: 0}
			body = nil
			what = "Who-Is-Router-To-Network"
			bc(func() { w.cl.WhoIsRouterToNetwork() })
			c.Count("who is router", 1)
			want.Type = 0x12
			what = "What-Is-Network-Number"
			bc(func() { w.cl.WhatIsNetworkNumber() })
			c.Count("what is network number", 1)
			c.announcement(r, w)
			w.end()
		})
	})
}

// announcement sends an I-Am
func (c *C) announcement(r *rand.Rand, w *world) {
	ep := genEP(r)
	dest := btypes.Address{Mac: ep.Mac(), MacLen: 6}
	var dst *ref.Addr
	fn := byte(ref.FuncUnicast)
	kind := "I-Am to a station"
	switch r.Intn(4) {
	case 0:
		dst = genAddr(r)
		if len(dst.Mac) == 0 {
			dst.Mac = ref.Octets{byte(r.Intn(256))}
		}
		if dst.Net == 65535 || dst.Net == 0 {
			dst.Net = uint16(1 + r.Intn(65534))
		}
		dest.Adr, dest.Len = append([]byte{}, dst.Mac...), uint8(len(dst.Mac))
		if r.Intn(2) == 0 {
			dest.Len = 0
		}
		kind = "I-Am to a remote station"
	case 1:
		dst = &ref.Addr{Net: uint16(1 + r.Intn(65534))}
		fn, kind = ref.FuncBroadcast, "I-Am to a remote network"
	case 2:
		dst = &ref.Addr{Net: 65535}
		fn, kind = ref.FuncBroadcast, "I-Am to all"
	}
	if dst != nil {
		dest.Net = dst.Net
	}
	id, apdu, seg, vendor := ref.ObjID{Type: 8, Instance: genInstance(r)}, genUint(r), genUint(r)&3, genUint(r)
	iam := btypes.IAm{ID: libObj(id), MaxApdu: apdu, Segmentation: btypes.Enumerated(seg), Vendor: vendor}
	bad := r.Intn(4) == 0
	if bad {
		kind = "I-Am that cannot be encoded"
		if r.Intn(2) == 0 {
			iam.ID.Type = btypes.ObjectType(1024 + r.Intn(65536-1024))
		} else {
			iam.ID.Instance = btypes.ObjectInstance(1<<22 + r.Intn(1<<31))
		}
	}
	c.Count(kind, 1)
	what := fmt.Sprintf("%s: %+v to %+v", kind, iam, dest)
	c.Eval(what)
	n := w.SentCount()
	var err error
	if !c.Guard("IAm", what, func() { err = w.cl.IAm(dest, iam) }) {
		return
	}
	ps := w.Sent(n)
	if bad {
		if err == nil || len(ps) != 0 {
			c.Fail("I-Am", "%s: %v, %d datagrams", what, err, len(ps))
		}
		return
	}
	if err != nil || len(ps) != 1 {
		c.Fail("I-Am", "%s: %v, %d datagrams", what, err, len(ps))
		return
	}
	p := ps[0]
	if to, ok := sim.EPOf(p.Dest.Mac); !ok || to != ep {
		c.Fail("I-Am", "%s: sent to %v", what, p.Dest)
	}
	f, rest, err := ref.ParseBVLC(p.Data)
	if err != nil || f != fn {
		c.Fail("I-Am", "%s: sent as %s, function %d, want %d (%v)", what, hexs(p.Data), f, fn, err)
		return
	}
	nh, body, err := ref.ParseNPDU(rest)
	if err != nil || nh.Version != 1 || nh.Network || nh.Reply || nh.Src != nil || (nh.Dst == nil) != (dst == nil) || dst != nil && (nh.Dst.Net != dst.Net || string(nh.Dst.Mac) != string(dst.Mac) || nh.Hop == 0) {
		c.Fail("I-Am", "%s: sent as %s: %s (%v)", what, hexs(p.Data), showNPDU(nh), err)
		return
	}
	if want := ref.IAm(id, apdu, seg, vendor); string(body) != string(want) {
		c.Fail("I-Am", "%s: sent as %s, want %s", what, hexs(body), hexs(want))
	}
}
