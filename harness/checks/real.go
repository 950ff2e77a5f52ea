package checks

import (
	"fmt"
	"net"
	"sync"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"verif/harness/ref"
	"verif/harness/sim"
)

// realNet is a network of devices on loopback sockets
type realNet struct {
	mu    sync.Mutex
	devs  []*sim.Device
	conns map[sim.EP]*net.UDPConn
	all   []*net.UDPConn
	wg    sync.WaitGroup
	// OnRequest, when it returns false, leaves a request without an answer
	OnRequest func(d *sim.Device, q *sim.Request) bool
	// Answer, when set, makes the datagram that answers a request
	Answer func(d *sim.Device, q *sim.Request) []byte
	// OnPeer is told where each request came from
	OnPeer func(*net.UDPAddr)
	seen   int
	whois  int
}

func udp(e sim.EP) *net.UDPAddr { return &net.UDPAddr{IP: net.IP(e.IP[:]), Port: int(e.Port)} }

// newRealNet opens the sockets of the devices. With a segment, what is broadcast to
// the default port is heard, too; only one network can have it.
func newRealNet(devs []*sim.Device, segment bool) *realNet {
	n := &realNet{devs: devs, conns: map[sim.EP]*net.UDPConn{}}
	for _, d := range devs {
		if n.conns[d.EP] != nil {
			continue
		}
		c, err := net.ListenUDP("udp4", udp(d.EP))
		if err != nil {
			panic(fmt.Sprintf("harness: no socket: %v", err))
		}
		c.SetReadBuffer(4 << 20)
		n.conns[d.EP] = c
		n.all = append(n.all, c)
		n.wg.Add(1)
		go n.serve(c, d.EP)
	}
	if segment {
		c, err := net.ListenUDP("udp4", &net.UDPAddr{Port: 47808})
		if err != nil {
			panic(fmt.Sprintf("harness: no socket: %v", err))
		}
		n.all = append(n.all, c)
		n.wg.Add(1)
		go n.hear(c)
	}
	return n
}

func (n *realNet) close() {
	for _, c := range n.all {
		c.Close()
	}
	n.wg.Wait()
}

func (n *realNet) serve(c *net.UDPConn, at sim.EP) {
	defer n.wg.Done()
	buf := make([]byte, 70000)
	for {
		k, from, err := c.ReadFromUDP(buf)
		if err != nil {
			return
		}
		q, err := sim.ParseRequest(sim.Packet{At: time.Now(), Dest: btypes.Address{Mac: at.Mac(), MacLen: 6}, Data: append([]byte(nil), buf[:k]...)})
		if err != nil {
			continue
		}
		d := find(n.devs, q)
		if d == nil {
			continue
		}
		n.mu.Lock()
		n.seen++
		on, answer := n.OnRequest, n.Answer
		if n.OnPeer != nil {
			n.OnPeer(from)
		}
		n.mu.Unlock()
		if on != nil && !on(d, q) {
			continue
		}
		if answer != nil {
			if b := answer(d, q); b != nil {
				c.WriteToUDP(b, from)
			}
			continue
		}
		c.WriteToUDP(q.Reply().Frame(d.Serve(q)), from)
	}
}

// hear answers Who-Is
func (n *realNet) hear(c *net.UDPConn) {
	defer n.wg.Done()
	buf := make([]byte, 70000)
	for {
		k, from, err := c.ReadFromUDP(buf)
		if err != nil {
			return
		}
		lo, hi, ok := parseWhoIs(buf[:k])
		if !ok {
			continue
		}
		n.mu.Lock()
		n.whois++
		n.mu.Unlock()
		for _, d := range n.devs {
			if lo >= 0 && (int64(d.Instance) < lo || int64(d.Instance) > hi) {
				continue
			}
			n.conns[d.EP].WriteToUDP(d.Route().Frame(d.IAm()), from)
		}
	}
}

// parseWhoIs reads a broadcast Who-Is, whatever its destination network
func parseWhoIs(b []byte) (lo, hi int64, ok bool) {
	_, rest, err := ref.ParseBVLC(b)
	if err != nil {
		return
	}
	h, rest, err := ref.ParseNPDU(rest)
	if err != nil || h.Network || len(rest) < 2 || rest[0] != 0x10 || rest[1] != 8 {
		return
	}
	lo, hi, err = ref.ParseWhoIs(rest[2:])
	return lo, hi, err == nil
}

// realClient opens a client on a port of the loopback network
func realClient(port int) (bacnet.Client, <-chan struct{}, error) {
	cl, err := bacnet.NewClient(&bacnet.ClientBuilder{Ip: "127.0.0.1", SubnetCIDR: 8, Port: port})
	if err != nil {
		s, serr := net.ListenUDP("udp4", &net.UDPAddr{Port: port})
		if serr != nil { // something else has the port
			return nil, nil, err
		}
		s.Close()
		theC.noClient(err)
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		cl.ClientRun()
	}()
	return cl, done, nil
}

// patiently tries again what may have failed only because the machine was slow
func patiently(f func() error) (err error) {
	for k := 0; k < 4; k++ {
		if err = f(); err == nil {
			return nil
		}
	}
	return err
}
