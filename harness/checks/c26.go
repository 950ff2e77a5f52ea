package checks

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"net"
	"net/netip"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/datalink"
	ip2bytes "github.com/NubeDev/bacnet/helpers/ipbytes"
	"github.com/NubeDev/bacnet/helpers/validation"
	"github.com/NubeDev/bacnet/network"
	"verif/harness/sim"
)

func init() {
	register("C26", "every port number and many addresses, texts and prefixes through the helpers; links opened on addresses with every prefix and on ports from the whole range, and on what is invalid; datagrams of all sizes sent both ways between links and plain sockets, one at a time and from several goroutines, compared with what was sent and who sent it", runC26)
}

func runC26(c *C) {
	c.Need("ports", "invalid ports", "conversions", "16-octet form", "MAC of another length", "texts that are addresses", "texts that are none", "CIDR right", "CIDR wrong", "predicates", "devices", "devices out of range",
		"links opened", "every prefix", "default port", "by interface", "by CIDR", "by client", "client broadcasts", "broadcast received", "empty datagram", "small datagram", "large datagram", "largest datagram", "cut to the buffer", "sent to a socket", "sent by a socket", "link to link", "concurrent senders",
		"invalid: address", "invalid: prefix", "invalid: interface", "invalid: port", "invalid: port in use", "invalid: IPv6", "closed while receiving", "port free again")
	for k := 0; k <= 32; k++ {
		c.Need(fmt.Sprintf("prefix %d", k))
	}
	c.Loop(0, 2700, func(i int, r *rand.Rand) { // 100 ports each
		for p := -70000 + 100*i; p < -70000+100*i+100; p++ {
			c.port(p)
		}
	})
	c.Loop(10000, 1, func(i int, r *rand.Rand) {
		for _, p := range []int{math.MaxInt, math.MinInt, 1 << 32, 1<<32 + 80, -1 << 32, 1 << 20, 65536 * 65536, 1 << 31, -1 << 31} {
			c.port(p)
		}
	})
	c.Loop(20000, 1024, func(i int, r *rand.Rand) { // every port
		for k := 0; k < 64; k++ {
			c.convert(r, [4]byte{byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256))}, uint16(i*64+k))
		}
	})
	c.Loop(30000, 256, func(i int, r *rand.Rand) { // every value of each octet
		for k := 0; k < 4; k++ {
			a := [4]byte{byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256))}
			a[k] = byte(i)
			c.convert(r, a, uint16(r.Intn(65536)))
			a = [4]byte{}
			a[k] = byte(i)
			c.convert(r, a, 47808)
			c.convert(r, a, 0)
		}
	})
	c.Loop(100000, c.N(20000, 1000000), func(i int, r *rand.Rand) { c.ipText(r) })
	c.Loop(2000000, c.N(5000, 200000), func(i int, r *rand.Rand) { c.predicates(r) })
	c.Loop(2500000, c.N(4000, 200000), func(i int, r *rand.Rand) { c.newDevice(r) })
	c.Loop(3000000, c.N(2400, 60000), func(i int, r *rand.Rand) { c.openLink(r) })
	c.Loop(4000000, c.N(800, 10000), func(i int, r *rand.Rand) { c.badLink(r) })
	c.Loop(5000000, c.N(160, 3000), func(i int, r *rand.Rand) { c.exchange(r) })
	c.Loop(6000000, 1, func(i int, r *rand.Rand) { c.defaultPort(r) })
}

func (c *C) port(p int) {
	want := p >= 0 && p <= 65535
	if want {
		c.Count("ports", 1)
	} else {
		c.Count("invalid ports", 1)
	}
	c.Guard("ValidPort", fmt.Sprint(p), func() {
		c.Eval(fmt.Sprintf("port %d", p))
		if got := validation.ValidPort(p); got != want {
			c.Fail("port", "ValidPort(%d) is %v", p, got)
		}
	})
}

func (c *C) convert(r *rand.Rand, a [4]byte, port uint16) {
	e := sim.EP{IP: a, Port: port}
	what := fmt.Sprintf("%v:%d", e, port)
	c.Count("conversions", 1)
	c.Eval(what)
	same := func(how string, got []byte) {
		if !bytes.Equal(got, e.Mac()) {
			c.Fail("address", "%s of %s is % x, want % x", how, what, got, e.Mac())
		}
	}
	c.Guard("addresses", what, func() {
		forms := []net.IP{{a[0], a[1], a[2], a[3]}, net.IPv4(a[0], a[1], a[2], a[3])}
		for k, ip := range forms {
			keep := append(net.IP(nil), ip...)
			for _, x := range []*btypes.Address{datalink.IPPortToAddress(ip, int(port)), datalink.UDPToAddress(&net.UDPAddr{IP: ip, Port: int(port)})} {
				same("the address", x.Mac)
				if x.MacLen != 6 || x.Net != 0 || x.Len != 0 || len(x.Adr) != 0 {
					c.Fail("address", "the address of %s is %+v", what, *x)
				}
				if x.IsBroadcast() || x.IsSubBroadcast() || !x.IsUnicast() {
					c.Fail("address", "the address of %s does not count as unicast", what)
				}
				u, err := x.UDPAddr()
				if err != nil || !u.IP.Equal(keep) || u.Port != int(port) || u.Zone != "" {
					c.Fail("UDP address", "the UDP address of %s is %+v (%v)", what, u, err)
				}
				if back := datalink.UDPToAddress(&u); !reflect.DeepEqual(back, x) {
					c.Fail("there and back", "%+v became %+v", x, back)
				}
			}
			if !bytes.Equal(ip, keep) {
				c.Fail("changed", "the address given, %v, is now %v", keep, ip)
			}
			if k == 1 {
				c.Count("16-octet form", 1)
			}
		}
		got, err := ip2bytes.New(e.String(), port)
		if err != nil {
			c.Fail("address", "ip2bytes.New of %s: %v", what, err)
		}
		same("ip2bytes.New", got)
		d, err := btypes.NewDevice(&btypes.Device{Ip: e.String(), Port: int(port), DeviceID: 5})
		if err != nil {
			c.Fail("address", "NewDevice at %s: %v", what, err)
			return
		}
		w := e
		if port == 0 {
			w.Port = 47808
		}
		if !bytes.Equal(d.Addr.Mac, w.Mac()) {
			c.Fail("address", "the address of a device at %s is % x", what, d.Addr.Mac)
		}
		if k := r.Intn(20); k != 6 {
			c.Count("MAC of another length", 1)
			x := btypes.Address{Mac: genOctets(r, k), MacLen: uint8(k)}
			if u, err := x.UDPAddr(); err == nil {
				c.Fail("UDP address", "a MAC of %d octets is the UDP address %+v", k, u)
			}
		}
	})
}

// dotted says whether a text is an IPv4 address: four numbers up to 255 without leading zeros
func dotted(s string) bool {
	f := strings.Split(s, ".")
	if len(f) != 4 {
		return false
	}
	for _, x := range f {
		if len(x) == 0 || len(x) > 3 || len(x) > 1 && x[0] == '0' {
			return false
		}
		n := 0
		for _, ch := range []byte(x) {
			if ch < '0' || ch > '9' {
				return false
			}
			n = 10*n + int(ch-'0')
		}
		if n > 255 {
			return false
		}
	}
	return true
}

func genIPText(r *rand.Rand) string {
	s := fmt.Sprintf("%d.%d.%d.%d", r.Intn(256), r.Intn(256), r.Intn(256), r.Intn(256))
	switch r.Intn(12) {
	case 0:
		return ""
	case 1:
		return s[:r.Intn(len(s))]
	case 2:
		k := r.Intn(len(s))
		return s[:k] + string(rune("0123456789.:/ax -"[r.Intn(17)])) + s[k:]
	case 3:
		return fmt.Sprintf("%d.%d.%d.%d", r.Intn(300), r.Intn(300), r.Intn(300), r.Intn(300))
	case 4:
		return fmt.Sprintf("%d.%d.%d.%03d", r.Intn(256), r.Intn(256), r.Intn(256), r.Intn(100))
	case 5:
		return []string{"localhost", "eth0", "1.2.3", "1.2.3.4.5", "::", "::1", "fe80::1", "fe80::1%eth0", "2001:db8::", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7", "0x7f.0.0.1", "1.2.3.-4", "256.1.1.1", " 1.2.3.4", "1.2.3.4 ", "1.2.3.4\n", "1,2,3,4", "0.0.0.0", "255.255.255.255"}[r.Intn(20)]
	case 6:
		return genText(r, r.Intn(12))
	}
	return s
}

func (c *C) ipText(r *rand.Rand) {
	s := genIPText(r)
	c.Eval(fmt.Sprintf("%q", s))
	c.Guard("texts", fmt.Sprintf("%q", s), func() {
		v4 := dotted(s)
		v6, err := netip.ParseAddr(s)
		six := err == nil && v6.Is6() && v6.Zone() == ""
		if v4 || six {
			c.Count("texts that are addresses", 1)
		} else {
			c.Count("texts that are none", 1)
		}
		if got := validation.ValidIP(s); got != (v4 || six) && !strings.HasSuffix(s, "/32") && !strings.HasSuffix(s, "/128") {
			c.Fail("IP", "ValidIP(%q) is %v", s, got)
		}
		for _, x := range []struct {
			ok   bool
			tail string
		}{{v4, "/32"}, {six, "/128"}} {
			if got := validation.ValidIP(s + x.tail); x.ok && !got {
				c.Fail("IP", "ValidIP(%q) is false", s+x.tail)
			}
			if got := validation.NormaliseIPAddr(s + x.tail); x.ok && got != s {
				c.Fail("IP", "NormaliseIPAddr(%q) is %q", s+x.tail, got)
			}
			if got := validation.NormaliseIPAddr(s); x.ok && got != s {
				c.Fail("IP", "NormaliseIPAddr(%q) is %q", s, got)
			}
		}
		if !six {
			b, err := ip2bytes.New(s, 7)
			if (err == nil) != v4 {
				c.Fail("IP", "ip2bytes.New(%q, 7) is % x (%v)", s, b, err)
			}
		}
		if _, err := btypes.NewDevice(&btypes.Device{Ip: s, DeviceID: 3}); !six && (err == nil) != v4 {
			c.Fail("IP", "a device at %q: %v", s, err)
		}
		n := []int{r.Intn(33), r.Intn(33), r.Intn(140), -r.Intn(5), 32, 33, 128, 129, r.Intn(100000)}[r.Intn(9)]
		want := v4 && n >= 0 && n <= 32 || six && n >= 0 && n <= 128
		if want {
			c.Count("CIDR right", 1)
		} else {
			c.Count("CIDR wrong", 1)
		}
		if got := validation.ValidCIDR(s, n); got != want {
			c.Fail("CIDR", "ValidCIDR(%q, %d) is %v", s, n, got)
		}
	})
}

func (c *C) predicates(r *rand.Rand) {
	a := btypes.Address{Net: []uint16{0, 1, 255, 256, 65534, 65535, uint16(r.Intn(65536))}[r.Intn(7)], Mac: genOctets(r, []int{0, 1, 5, 6, 6, 7, 12}[r.Intn(7)])}
	a.MacLen = uint8(len(a.Mac))
	a.Adr = genOctets(r, []int{0, 0, 1, 2, 6, 7, 255}[r.Intn(7)])
	c.Count("predicates", 1)
	what := fmt.Sprintf("%+v", a)
	c.Eval(what)
	c.Guard("predicates", what, func() {
		a.SetLength()
		if int(a.Len) != len(a.Adr) {
			c.Fail("length", "the length of %s is %d", what, a.Len)
		}
		if got := a.IsBroadcast(); got != (a.Net == 65535 || len(a.Mac) == 0) {
			c.Fail("broadcast", "IsBroadcast of %s is %v", what, got)
		}
		if got := a.IsSubBroadcast(); got != (a.Net > 0 && len(a.Adr) == 0) {
			c.Fail("broadcast", "IsSubBroadcast of %s is %v", what, got)
		}
		if got := a.IsUnicast(); got != (len(a.Mac) == 6) {
			c.Fail("unicast", "IsUnicast of %s is %v", what, got)
		}
		keep := a
		a.SetBroadcast(true)
		if !a.IsBroadcast() || a.IsUnicast() {
			c.Fail("broadcast", "%s set to broadcast is none", what)
		}
		a.SetBroadcast(false)
		if !reflect.DeepEqual(a, keep) {
			c.Fail("broadcast", "%s set to broadcast and back is %+v", what, a)
		}
	})
}

// freePort is a port of this shard that nobody has
func (c *C) freePort(r *rand.Rand) int {
	for {
		p := 1024 + r.Intn(64000)
		if r.Intn(8) == 0 {
			p = []int{1, 80, 255, 256, 1023, 4660, 32767, 32768, 47809, 65279, 65280, 65535}[r.Intn(12)]
		}
		if p%c.Shards != c.Shard || p == 47808 {
			continue
		}
		if s, err := net.ListenUDP("udp4", &net.UDPAddr{Port: p}); err == nil {
			s.Close()
			return p
		}
	}
}

// broadcastOf is the broadcast address of the subnet of an address
func broadcastOf(a [4]byte, prefix int) [4]byte {
	v := uint32(a[0])<<24 | uint32(a[1])<<16 | uint32(a[2])<<8 | uint32(a[3])
	for k := prefix; k < 32; k++ {
		v |= 1 << (31 - k)
	}
	return [4]byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
}

func (c *C) checkLink(what string, l datalink.DataLink, my sim.EP, bcast [4]byte) {
	if a := l.GetMyAddress(); a == nil || !bytes.Equal(a.Mac, my.Mac()) || a.MacLen != 6 {
		c.Fail("own address", "%s: own address is %+v, want %v:%d", what, a, my, my.Port)
	}
	b := sim.EP{IP: bcast, Port: 47808}
	if a := l.GetBroadcastAddress(); a == nil || !bytes.Equal(a.Mac, b.Mac()) || a.MacLen != 6 {
		c.Fail("broadcast address", "%s: broadcast address is %+v, want %v:%d", what, a, b, b.Port)
	}
}

// receive waits for a datagram
func receive(l datalink.DataLink, size int) (*btypes.Address, []byte, error) {
	type got struct {
		a   *btypes.Address
		b   []byte
		err error
	}
	ch := make(chan got, 1)
	go func() {
		buf := make([]byte, size)
		a, n, err := l.Receive(buf)
		if err != nil {
			n = 0
		}
		ch <- got{a, buf[:n], err}
	}()
	select {
	case g := <-ch:
		return g.a, g.b, g.err
	case <-time.After(20 * time.Second):
		l.Close()
		<-ch
		return nil, nil, fmt.Errorf("nothing received in 20 s")
	}
}

func (c *C) openLink(r *rand.Rand) {
	port := c.freePort(r)
	a := [4]byte{byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256))}
	if r.Intn(3) == 0 {
		a = [4]byte{127, 0, 0, 1}
	}
	prefix := r.Intn(33)
	my := sim.EP{IP: a, Port: uint16(port)}
	what := fmt.Sprintf("link at %v/%d port %d", my, prefix, port)
	c.Eval(what)
	c.Guard("link", what, func() {
		var l datalink.DataLink
		var err error
		switch k := r.Intn(6); {
		case k == 0:
			c.Count("by interface", 1)
			l, err = datalink.NewUDPDataLink("lo", port)
			my.IP, prefix = [4]byte{127, 0, 0, 1}, 8
		case k == 1:
			c.Count("by CIDR", 1)
			l, err = datalink.NewUDPDataLink(fmt.Sprintf("%v/%d", my, prefix), port)
		default:
			l, err = datalink.NewUDPDataLinkFromIP(my.String(), prefix, port)
		}
		if err != nil {
			c.Fail("not opened", "%s: %v", what, err)
			return
		}
		c.Count("links opened", 1)
		c.Count("every prefix", 1)
		c.Count(fmt.Sprintf("prefix %d", prefix), 1)
		c.checkLink(what, l, my, broadcastOf(my.IP, prefix))
		s, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, byte(r.Intn(200)), byte(r.Intn(256)), byte(1+r.Intn(254))), Port: c.freePort(r)}) // the system would choose a port of another shard
		if err != nil {
			l.Close()
			return
		}
		me := s.LocalAddr().(*net.UDPAddr)
		data := c.genDatagram(r)
		s.WriteToUDP(data, &net.UDPAddr{IP: net.IPv4(127, 0, 0, byte(1+r.Intn(200))), Port: port})
		size := 70000
		want := data
		if r.Intn(6) == 0 && len(data) > 1 {
			size = 1 + r.Intn(len(data)-1)
			want = data[:size]
			c.Count("cut to the buffer", 1)
		}
		from, got, err := receive(l, size)
		if err != nil || !bytes.Equal(got, want) {
			c.Fail("received", "%s: %d octets sent, %d received (%v)", what, len(data), len(got), err)
		} else if x, ok := sim.EPOf(from.Mac); !ok || !net.IP(x.IP[:]).Equal(me.IP) || int(x.Port) != me.Port {
			c.Fail("sender", "%s: received from %+v, sent by %v", what, from, me)
		}
		c.Count("sent by a socket", 1)
		// and back, to the address reported
		if from != nil && err == nil {
			data := c.genDatagram(r)
			keep, to := append([]byte(nil), data...), *from
			if n, err := l.Send(data, nil, from); err != nil || n != len(data) {
				c.Fail("send", "%s: sending %d octets to %v: %d, %v", what, len(data), me, n, err)
			} else {
				buf := make([]byte, 70000)
				s.SetReadDeadline(time.Now().Add(20 * time.Second))
				n, sender, err := s.ReadFromUDP(buf)
				if err != nil || !bytes.Equal(buf[:n], keep) {
					c.Fail("sent", "%s: %d octets sent, %d received (%v)", what, len(keep), n, err)
				} else if sender.Port != port {
					c.Fail("port", "%s: sends from %v", what, sender)
				}
				if !bytes.Equal(data, keep) || !reflect.DeepEqual(*from, to) {
					c.Fail("changed", "%s: Send changed what it was given", what)
				}
			}
			c.Count("sent to a socket", 1)
			bad := btypes.Address{Mac: genOctets(r, []int{0, 1, 5, 7}[r.Intn(4)])}
			if n, err := l.Send(data, nil, &bad); err == nil {
				c.Fail("send", "%s: sending to a MAC of %d octets: %d", what, len(bad.Mac), n)
			}
		}
		s.Close()
		if r.Intn(4) == 0 {
			c.Count("closed while receiving", 1)
			ch := make(chan error, 1)
			go func() {
				_, _, err := l.Receive(make([]byte, 100))
				ch <- err
			}()
			if r.Intn(2) == 0 {
				time.Sleep(ms(1))
			}
			l.Close()
			select {
			case err := <-ch:
				if err == nil {
					c.Fail("close", "%s: Receive on a closed link returns no error", what)
				}
			case <-time.After(20 * time.Second):
				c.Fail("close", "%s: Receive goes on after Close", what)
			}
		} else if err := l.Close(); err != nil {
			c.Fail("close", "%s: %v", what, err)
		}
		if s, err := net.ListenUDP("udp4", &net.UDPAddr{Port: port}); err != nil {
			c.Fail("close", "%s: the port is not free after Close: %v", what, err)
		} else {
			c.Count("port free again", 1)
			s.Close()
		}
	})
}

func (c *C) genDatagram(r *rand.Rand) []byte {
	n := r.Intn(1600)
	switch r.Intn(8) {
	case 0:
		n = 0
		c.Count("empty datagram", 1)
	case 1:
		n = 65507
		c.Count("largest datagram", 1)
	case 2:
		n = r.Intn(65508)
		c.Count("large datagram", 1)
	default:
		c.Count("small datagram", 1)
	}
	b := make([]byte, n)
	r.Read(b)
	return b
}

func (c *C) badLink(r *rand.Rand) {
	port := c.freePort(r)
	kind := []string{"address", "prefix", "interface", "port", "port in use", "IPv6"}[r.Intn(6)]
	c.Count("invalid: "+kind, 1)
	type opener struct {
		what string
		f    func() (datalink.DataLink, error)
	}
	var o []opener
	fromIP := func(ip string, n, port int) {
		o = append(o, opener{fmt.Sprintf("%q / %d port %d", ip, n, port), func() (datalink.DataLink, error) { return datalink.NewUDPDataLinkFromIP(ip, n, port) }},
			opener{fmt.Sprintf("client at %q / %d port %d", ip, n, port), func() (datalink.DataLink, error) {
				_, err := bacnet.NewClient(&bacnet.ClientBuilder{Ip: ip, SubnetCIDR: n, Port: port})
				return nil, err
			}})
	}
	onIface := func(s string, port int) {
		o = append(o, opener{fmt.Sprintf("interface %q port %d", s, port), func() (datalink.DataLink, error) { return datalink.NewUDPDataLink(s, port) }})
		if s != "" {
			o = append(o, opener{fmt.Sprintf("client on interface %q port %d", s, port), func() (datalink.DataLink, error) {
				_, err := bacnet.NewClient(&bacnet.ClientBuilder{Interface: s, Port: port})
				return nil, err
			}})
		}
	}
	switch kind {
	case "address":
		s := genIPText(r)
		for dotted(s) {
			s = genIPText(r)
		}
		if r.Intn(4) == 0 { // nearly an address
			s = []string{" 127.0.0.1", "127.0.0.1 ", "127.0.0.1\n", "\t127.0.0.1", "127.0.0.01", "127.0.0.1.", "+127.0.0.1", "127.0.0.1:47808", "127.0.0.1\x00"}[r.Intn(9)]
		}
		fromIP(s, r.Intn(33), port)
	case "prefix":
		fromIP("127.0.0.1", []int{33, -1, 64, 128, 33 + r.Intn(1000), -r.Intn(1000) - 1}[r.Intn(6)], port)
		onIface("127.0.0.1/"+[]string{"33", "-1", "", "x", "8/8", "128", " 8", "8 ", "8\n"}[r.Intn(9)], port)
		onIface([]string{" 127.0.0.1/8", "127.0.0.1 /8", "\n127.0.0.1/8"}[r.Intn(3)], port)
	case "interface":
		onIface([]string{"", "nosuch0", "LO", "lo ", "127.0.0.1", "lo0", genText(r, 4)}[r.Intn(7)], port)
	case "port":
		p := []int{-1, 65536, 70000, -47808, 1 << 20, 113344}[r.Intn(6)]
		fromIP("127.0.0.1", 8, p)
		onIface("lo", p)
	case "port in use":
		s, err := net.ListenUDP("udp4", &net.UDPAddr{Port: port})
		if err != nil {
			return
		}
		defer s.Close()
		fromIP("127.0.0.1", 8, port)
		onIface("lo", port)
	case "IPv6":
		fromIP([]string{"::1", "fe80::1", "2001:db8::7", "::"}[r.Intn(4)], r.Intn(129), port)
	}
	for _, x := range o {
		c.Eval(x.what)
		c.Guard("invalid", x.what, func() {
			if l, err := x.f(); err == nil {
				c.Fail("no error", "a link was opened: %s (%s)", x.what, kind)
				if l != nil {
					l.Close()
				}
			}
		})
	}
	if kind != "port in use" {
		if s, err := net.ListenUDP("udp4", &net.UDPAddr{Port: port}); err != nil {
			c.Fail("leak", "after opening failed (%s) the port is in use: %v", kind, err)
		} else {
			s.Close()
		}
	}
}

// exchange lets several links and sockets send to each other at once
func (c *C) exchange(r *rand.Rand) {
	const n = 4
	var links [n]datalink.DataLink
	var eps [n]sim.EP
	var got [n]map[string]int
	for k := range links {
		var err error
		for {
			eps[k] = sim.EP{IP: [4]byte{127, 0, 0, 1}, Port: uint16(c.freePort(r))}
			if links[k], err = datalink.NewUDPDataLinkFromIP("127.0.0.1", 8, int(eps[k].Port)); err == nil {
				break
			}
		}
		got[k] = map[string]int{}
	}
	per := 1 + r.Intn(12)
	var want [n]map[string]int
	for k := range want {
		want[k] = map[string]int{}
	}
	var all [n][][2]any
	for k := range links {
		for j := 0; j < per; j++ {
			to := r.Intn(n)
			b := make([]byte, r.Intn(1200))
			r.Read(b)
			b = append([]byte(fmt.Sprintf("%d/%d:", k, j)), b...)
			all[k] = append(all[k], [2]any{to, b})
			want[to][fmt.Sprintf("%v:%d ", eps[k], eps[k].Port)+string(b)]++
		}
	}
	c.Eval(fmt.Sprintf("%v", want))
	var rd, wr sync.WaitGroup
	for k := range links {
		total := 0
		for _, x := range want[k] {
			total += x
		}
		rd.Add(1)
		go func() {
			defer rd.Done()
			var addrs []*btypes.Address
			var texts []string
			for j := 0; j < total; j++ {
				a, b, err := receive(links[k], 2000)
				if err != nil {
					c.Fail("exchange", "receiving: %v", err)
					return
				}
				addrs, texts = append(addrs, a), append(texts, string(b))
			}
			for j, a := range addrs { // only now, so that an address that changes is noticed
				e, _ := sim.EPOf(a.Mac)
				got[k][fmt.Sprintf("%v:%d ", e, e.Port)+texts[j]]++
			}
		}()
		for h := 0; h < 2; h++ {
			wr.Add(1)
			go func() {
				defer wr.Done()
				for j, x := range all[k] {
					if j%2 == h {
						if _, err := links[k].Send(x[1].([]byte), nil, eps[x[0].(int)].Addr()); err != nil {
							c.Fail("exchange", "sending: %v", err)
						}
					}
				}
			}()
		}
	}
	wr.Wait()
	rd.Wait()
	c.Count("link to link", n*per)
	c.Count("concurrent senders", 2*n)
	for k := range links {
		if !reflect.DeepEqual(got[k], want[k]) {
			c.Fail("exchange", "link %d got %d datagrams, other than the %d sent to it", k, len(got[k]), len(want[k]))
		}
		links[k].Close()
	}
}

// defaultPort opens links on port 0, which is 47808, and sends to the broadcast address
func (c *C) defaultPort(r *rand.Rand) {
	for k, open := range []func() (datalink.DataLink, error){
		func() (datalink.DataLink, error) { return datalink.NewUDPDataLinkFromIP("127.0.0.1", 8, 0) },
		func() (datalink.DataLink, error) { return datalink.NewUDPDataLink("lo", 0) },
		func() (datalink.DataLink, error) { return datalink.NewUDPDataLink("127.0.0.1/8", 0) },
		func() (datalink.DataLink, error) { return datalink.NewUDPDataLinkFromIP("127.0.0.1", 8, 47808) },
	} {
		l, err := open()
		if err != nil {
			c.Fail("default port", "no link on the default port (%d): %v", k, err)
			continue
		}
		c.Count("default port", 1)
		c.Eval(fmt.Sprintf("default port %d", k))
		c.checkLink("default port", l, sim.EP{IP: [4]byte{127, 0, 0, 1}, Port: 47808}, [4]byte{127, 255, 255, 255})
		o, err := datalink.NewUDPDataLinkFromIP("127.0.0.1", 8, c.freePort(r))
		if err == nil {
			my, _ := sim.EPOf(o.GetMyAddress().Mac)
			for j := 0; j < 20; j++ {
				data := make([]byte, r.Intn(1400))
				r.Read(data)
				if _, err := o.Send(data, nil, o.GetBroadcastAddress()); err != nil {
					c.Fail("broadcast", "sending to the broadcast address: %v", err)
					break
				}
				from, got, err := receive(l, 2000)
				if err != nil || !bytes.Equal(got, data) {
					c.Fail("broadcast", "%d octets sent to the broadcast address, %d received (%v)", len(data), len(got), err)
					break
				}
				if e, _ := sim.EPOf(from.Mac); e != my {
					c.Fail("sender", "the broadcast is from %v:%d, not %v:%d", e, e.Port, my, my.Port)
				}
				c.Count("broadcast received", 1)
			}
			o.Close()
		}
		l.Close()
	}
	cl, err := bacnet.NewClient(&bacnet.ClientBuilder{Ip: "127.0.0.1", SubnetCIDR: 8})
	if err != nil {
		c.Fail("default port", "no client on the default port: %v", err)
		return
	}
	c.Count("by client", 1)
	if l, err := datalink.NewUDPDataLinkFromIP("127.0.0.1", 8, 0); err == nil {
		c.Fail("default port", "a client that was given no port does not have the default port")
		l.Close()
	}
	cl.Close()
	for k := 0; k < c.N(132, 528); k++ {
		c.clientBroadcast(r, k)
	}
}

// clientBroadcast checks where a client made of an address and prefix, or of an interface, sends
// what is for everybody, and from which port
func (c *C) clientBroadcast(r *rand.Rand, k int) {
	prefix := 1 + k%32
	ip := [4]byte{127, byte(r.Intn(255)), byte(r.Intn(255)), byte(1 + r.Intn(254))}
	to := broadcastOf(ip, prefix)
	if k%11 == 0 {
		to = [4]byte{127, 255, 255, 255}
	}
	s, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IP(to[:]), Port: 47808})
	if err != nil {
		return
	}
	defer s.Close()
	my, port := sim.EP{IP: ip}, c.freePort(r)
	what := fmt.Sprintf("client %v/%d port %d", my, prefix, port)
	var ask func()
	var end func()
	c.Guard("client", what, func() {
		if k%11 == 0 {
			what = fmt.Sprintf("client on lo port %d", port)
			cl, err := bacnet.NewClient(&bacnet.ClientBuilder{Interface: "lo", Port: port})
			if err != nil {
				c.Fail("not opened", "%s: %v", what, err)
				return
			}
			ask, end = func() { cl.WhoIs(&bacnet.WhoIsOpts{Low: -1, High: -1}) }, func() { cl.Close() }
		} else if k%3 == 0 {
			cl, err := bacnet.NewClient(&bacnet.ClientBuilder{Ip: my.String(), SubnetCIDR: prefix, Port: port})
			if err != nil {
				c.Fail("not opened", "%s: %v", what, err)
				return
			}
			ask, end = func() { cl.WhoIs(&bacnet.WhoIsOpts{Low: -1, High: -1}) }, func() { cl.Close() }
		} else {
			st := network.NewStore()
			var n *network.Network
			var err error
			if k%3 == 1 {
				n, err = network.New(&network.Network{Ip: my.String(), SubnetCIDR: prefix, Port: port, Store: st, StoreID: "b"})
			} else if err = st.NewNetwork("b", "", my.String(), port, prefix); err == nil {
				n, err = st.GetNetwork("b")
			}
			if err != nil {
				c.Fail("not opened", "%s: %v", what, err)
				return
			}
			ask, end = func() { n.Whois(&bacnet.WhoIsOpts{Low: -1, High: -1}) }, func() { n.NetworkClose(false) }
		}
	})
	if ask == nil {
		return
	}
	c.Eval(what)
	go c.Guard("client", what, ask)
	b := make([]byte, 2000)
	s.SetReadDeadline(time.Now().Add(10 * time.Second))
	n, from, err := s.ReadFromUDP(b)
	if err != nil {
		c.Fail("client broadcast", "%s: Who-Is not received at %v, port 47808: %v", what, net.IP(to[:]), err)
	} else if n < 8 || b[0] != 0x81 || b[1] != 0x0b || b[n-1] != 8 || from.Port != port {
		c.Fail("client broadcast", "%s: received % x from %v", what, b[:n], from)
	}
	c.Count("client broadcasts", 1)
	c.Guard("client", what, end)
}

// newDevice checks that a device is at the address its caller gave it, or is none
func (c *C) newDevice(r *rand.Rand) {
	e := sim.EP{IP: [4]byte{byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256))}, Port: uint16(r.Intn(65536))}
	num := func(most int) int {
		switch r.Intn(8) {
		case 0:
			return 0
		case 1:
			return most
		case 2:
			return []int{-1, most + 1, -most, -most - 1, 2*most + 2, math.MaxInt, math.MinInt, 1 << 31, 1 << 32, 1<<32 + 5, -1 << 32, most + 1 + 47808%(most+1)}[r.Intn(12)]
		case 3:
			return []int{1, 255, 256, 47808, 65534}[r.Intn(5)] % (most + 1)
		}
		return r.Intn(most + 1)
	}
	port, net, mac := int(e.Port), num(65535), num(255)
	if r.Intn(2) == 0 {
		port = num(65535)
	}
	given := btypes.Device{Ip: e.String(), Port: port, NetworkNumber: net, MacMSTP: mac, DeviceID: r.Intn(4194303), MaxApdu: uint32(50 + r.Intn(1427)), Segmentation: btypes.Enumerated(r.Intn(4))}
	want := port >= 0 && port <= 65535 && net >= 0 && net <= 65535 && mac >= 0 && mac <= 255
	what := fmt.Sprintf("%s, port %d, network %d, MAC %d, device %d", e, port, net, mac, given.DeviceID)
	c.Eval(what)
	c.Guard("NewDevice", what, func() {
		g := given
		d, err := btypes.NewDevice(&g)
		if !want {
			c.Count("devices out of range", 1)
			if err == nil {
				c.Fail("device", "%s: made a device at %+v", what, d.Addr)
			}
			return
		}
		c.Count("devices", 1)
		if err != nil || d == nil {
			c.Fail("device", "%s: no device (%v)", what, err)
			return
		}
		e.Port = uint16(port)
		if port == 0 {
			e.Port = 47808
		}
		if !bytes.Equal(d.Addr.Mac, e.Mac()) || int(d.Addr.Net) != net ||
			net > 0 && (len(d.Addr.Adr) != 1 || int(d.Addr.Adr[0]) != mac) || d.MaxApdu != given.MaxApdu || d.Segmentation != given.Segmentation || d.ID.Type != 8 || int(d.ID.Instance) != given.DeviceID {
			c.Fail("device", "%s: the device is %+v", what, *d)
		}
	})
}
