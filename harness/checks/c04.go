package checks

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/ndpu"
	"github.com/NubeDev/bacnet/encoding"
	"verif/harness/ref"
)

func init() {
	register("C04", "network headers with random fields encoded and compared with an independent encoder, and the same octets decoded and compared field by field; network lists of every length", runC04)
}

func genNet(r *rand.Rand) uint16 {
	switch r.Intn(3) {
	case 0:
		return []uint16{1, 2, 255, 256, 0x7fff, 0x8000, 65534, 65535}[r.Intn(8)]
	}
	return uint16(1 + r.Intn(65535))
}

func genAddr(r *rand.Rand) *ref.Addr {
	n := []int{0, 1, 1, 1, 2, 3, 6, 6, 7, 8, 16, 254, 255, r.Intn(256)}[r.Intn(14)]
	return &ref.Addr{Net: genNet(r), Mac: genOctets(r, n)}
}

func genNPDU(r *rand.Rand) ref.NPDU {
	n := ref.NPDU{Version: 1, Priority: uint8(r.Intn(4)), Reply: r.Intn(2) == 0, Hop: uint8(r.Intn(256))}
	if r.Intn(4) == 0 {
		n.Version = uint8(r.Intn(256))
	}
	if r.Intn(2) == 0 {
		n.Dst = genAddr(r)
	}
	if r.Intn(2) == 0 {
		n.Src = genAddr(r)
	}
	if r.Intn(2) == 0 {
		n.Network = true
		n.Type = uint8(r.Intn(256))
		if r.Intn(2) == 0 {
			n.Type = []uint8{0, 1, 2, 3, 0x12, 0x13, 0x7f, 0x80, 0x81, 0xff}[r.Intn(10)]
		}
		if n.Type >= 0x80 {
			n.Vendor = uint16(r.Intn(65536))
		}
	}
	return n
}

func libAddr(a *ref.Addr) *btypes.Address {
	if a == nil {
		return nil
	}
	return &btypes.Address{Net: a.Net, Len: uint8(len(a.Mac)), Adr: append([]byte{}, a.Mac...)}
}

func sameAddr(got *btypes.Address, a *ref.Addr) bool {
	if got == nil || a == nil {
		return got == nil && a == nil
	}
	return got.Net == a.Net && int(got.Len) == len(a.Mac) && bytes.Equal(got.Adr, a.Mac)
}

func runC04(c *C) {
	c.Need("encoded", "decoded", "list", "number", "exhaustive control")
	one := func(n ref.NPDU, r *rand.Rand) {
		want := n.Bytes()
		c.Guard("NPDU", fmt.Sprintf("NPDU %+v", n), func() {
			lib := btypes.NPDU{Version: n.Version, IsNetworkLayerMessage: n.Network, NetworkLayerMessageType: ndpu.NetworkMessageType(n.Type), ExpectingReply: n.Reply,
				Priority: btypes.NPDUPriority(n.Priority), HopCount: n.Hop, VendorId: n.Vendor, Destination: libAddr(n.Dst), Source: libAddr(n.Src)}
			// local addresses are not part of the header
			if n.Dst == nil && r.Intn(2) == 0 {
				lib.Destination = &btypes.Address{Mac: genOctets(r, 6), MacLen: 6}
			}
			if n.Src == nil && r.Intn(2) == 0 {
				lib.Source = &btypes.Address{Mac: genOctets(r, 6), MacLen: 6}
			}
			e := encoding.NewEncoder()
			e.NPDU(&lib)
			if e.Error() != nil || !bytes.Equal(e.Bytes(), want) {
				c.Fail("octets", "NPDU %s is encoded as %s (%v), want %s", showNPDU(n), hexs(e.Bytes()), e.Error(), hexs(want))
			}
			c.Count("encoded", 1)
			body := []byte{}
			if n.Network && n.Type == 0x13 || n.Type == 1 {
				return // decoded below
			}
			for k := r.Intn(12); k > 0; k-- {
				body = append(body, byte(r.Intn(256)))
			}
			d := encoding.NewDecoder(append(append([]byte{}, want...), body...))
			var got btypes.NPDU
			list, err := d.NPDU(&got)
			hop := n.Hop
			if n.Dst == nil {
				hop = 0
			}
			switch {
			case err != nil:
				c.Fail("refused", "NPDU %s: %s is refused: %v", showNPDU(n), hexs(want), err)
			case got.Version != n.Version || uint8(got.Priority) != n.Priority || got.ExpectingReply != n.Reply || got.IsNetworkLayerMessage != n.Network || got.HopCount != hop ||
				uint8(got.NetworkLayerMessageType) != n.Type || got.VendorId != n.Vendor:
				c.Fail("fields", "NPDU %s is decoded as %+v", hexs(want), got)
			case !sameAddr(got.Destination, n.Dst):
				c.Fail("destination", "NPDU %s: the destination is decoded as %+v", hexs(want), got.Destination)
			case !sameAddr(got.Source, n.Src):
				c.Fail("source", "NPDU %s: the source is decoded as %+v", hexs(want), got.Source)
			case !bytes.Equal(d.Bytes(), body):
				c.Fail("rest", "NPDU %s leaves %s, want %s", hexs(want), hexs(d.Bytes()), hexs(body))
			case len(list) != 0:
				c.Fail("list", "NPDU %s lists the networks %v", hexs(want), list)
			}
			c.Count("decoded", 1)
		})
		c.Eval(showNPDU(n))
	}
	// every control octet and message type
	c.Loop(0, 256, func(i int, r *rand.Rand) {
		for f := 0; f < 32; f++ {
			for ty := 0; ty < 256; ty += 1 + 40*(1-f>>4) {
				n := ref.NPDU{Version: uint8(i), Priority: uint8(f & 3), Reply: f&4 != 0, Hop: uint8(r.Intn(256))}
				if f&8 != 0 {
					n.Dst = &ref.Addr{Net: genNet(r), Mac: genOctets(r, i)}
				}
				if r.Intn(2) == 0 {
					n.Src = &ref.Addr{Net: genNet(r), Mac: genOctets(r, 255-i)}
				}
				if f&16 != 0 {
					n.Network, n.Type = true, uint8(ty)
					if ty >= 0x80 {
						n.Vendor = uint16(r.Intn(65536))
					}
				}
				one(n, r)
				c.Count("exhaustive control", 1)
			}
		}
	})
	c.Loop(1000000, c.N(300000, 5000000), func(i int, r *rand.Rand) { one(genNPDU(r), r) })
	// lists of networks
	c.Loop(20000000, c.N(6000, 200000), func(i int, r *rand.Rand) {
		n := ref.NPDU{Version: 1, Network: true, Type: 1}
		if r.Intn(3) == 0 {
			n.Dst = genAddr(r)
			n.Hop = 255
		}
		if r.Intn(3) == 0 {
			n.Src = genAddr(r)
		}
		b := n.Bytes()
		k := 1 + i%40
		if i%97 == 0 {
			k = 100 + r.Intn(640)
		}
		var want []uint16
		seen := map[uint16]bool{}
		for len(want) < k {
			net := genNet(r)
			if i%2 == 0 {
				net = uint16(1 + r.Intn(65534))
			}
			if r.Intn(2*k) == 0 {
				net = []uint16{0, 65535, 1, 255, 256}[r.Intn(5)]
				c.Count("unusual network listed", 1)
			}
			if seen[net] {
				if len(seen) > 60000 {
					break
				}
				if r.Intn(2) == 0 {
					continue
				}
				// a network that is listed again is not a new one
				b = append(b, byte(net>>8), byte(net))
				c.Count("repeated", 1)
				if len(b) > 2000 {
					break
				}
				continue
			}
			seen[net] = true
			want = append(want, net)
			b = append(b, byte(net>>8), byte(net))
		}
		c.Guard("NPDU", "NPDU "+hexs(b), func() {
			d := encoding.NewDecoder(b)
			var got btypes.NPDU
			list, err := d.NPDU(&got)
			nets := []uint16{}
			for _, a := range list {
				nets = append(nets, a.Net)
			}
			if err != nil || fmt.Sprint(nets) != fmt.Sprint(want) || len(d.Bytes()) != 0 || !got.IsNetworkLayerMessage {
				c.Fail("list", "%s lists %v (%v), want %v", hexs(b), nets, err, want)
			}
		})
		b = append(b, byte(r.Intn(256)))
		c.Guard("NPDU", "NPDU "+hexs(b), func() {
			var got btypes.NPDU
			if list, err := encoding.NewDecoder(b).NPDU(&got); err == nil {
				c.Fail("list cut", "%s, the last network of which is cut short, lists %v", hexs(b), list)
			}
		})
		c.Count("list", 1)
		c.Eval(fmt.Sprintf("networks %v", want))
	})
	c.Loop(30000000, 65536/64, func(i int, r *rand.Rand) {
		for net := i * 64; net < (i+1)*64; net++ {
			n := ref.NPDU{Version: 1, Network: true, Type: 0x13}
			if r.Intn(3) == 0 {
				n.Dst = genAddr(r)
			}
			flag := byte(r.Intn(2))
			b := append(n.Bytes(), byte(net>>8), byte(net), flag)
			c.Guard("NPDU", "NPDU "+hexs(b), func() {
				var got btypes.NPDU
				_, err := encoding.NewDecoder(b).NPDU(&got)
				if err != nil || got.Source == nil || got.Source.Net != uint16(net) {
					c.Fail("number", "Network-Number-Is %s is decoded as %+v, %v", hexs(b), got.Source, err)
				}
			})
		}
		c.Count("number", 64)
		c.Eval(fmt.Sprintf("Network-Number-Is %d to %d", i*64, i*64+63))
	})
}

func showNPDU(n ref.NPDU) string {
	s := fmt.Sprintf("version %d priority %d reply %v", n.Version, n.Priority, n.Reply)
	if n.Dst != nil {
		s += fmt.Sprintf(" to %d/%s hop %d", n.Dst.Net, hexs(n.Dst.Mac), n.Hop)
	}
	if n.Src != nil {
		s += fmt.Sprintf(" from %d/%s", n.Src.Net, hexs(n.Src.Mac))
	}
	if n.Network {
		s += fmt.Sprintf(" message %#x vendor %d", n.Type, n.Vendor)
	}
	return s
}
