// Package sim is a simulated BACnet network: a data link that records what the
// client sends and delivers what the simulated devices answer.
package sim

import (
	"errors"
	"net"
	"sync"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"verif/harness/ref"
)

// EP is the IP address and port of a station
type EP struct {
	IP   [4]byte
	Port uint16
}

func (e EP) Mac() []byte {
	return []byte{e.IP[0], e.IP[1], e.IP[2], e.IP[3], byte(e.Port >> 8), byte(e.Port)}
}

func (e EP) Addr() *btypes.Address { return &btypes.Address{Mac: e.Mac(), MacLen: 6} }

func (e EP) String() string { return net.IP(e.IP[:]).String() }

// EPOf reads the six octets of an address
func EPOf(mac []byte) (EP, bool) {
	if len(mac) != 6 {
		return EP{}, false
	}
	return EP{[4]byte(mac[:4]), uint16(mac[4])<<8 | uint16(mac[5])}, true
}

// Packet is a datagram that the client sent
type Packet struct {
	At   time.Time
	Dest btypes.Address // a copy
	Data []byte
}

type arrival struct {
	from EP
	data []byte
}

// Link implements datalink.DataLink
type Link struct {
	mu     sync.Mutex
	sent   []Packet
	in     chan arrival
	closed chan struct{}
	once   sync.Once
	after  int // Receive calls after the link was closed
	closes int
	full   int // octets cut off because the buffer was too small

	// Patience is how many Receive calls after Close return; later ones block for ever. 0: 3
	Patience int
	// Quick makes Send keep no log and take no lock, so that it orders nothing
	Quick bool

	My, Bcast *btypes.Address
	// OnSend is called with each datagram sent, on the goroutine of the sender
	OnSend func(p Packet)
	// SendErr, when it returns an error, makes Send fail
	SendErr func(p Packet) error
}

var Self = EP{[4]byte{10, 0, 0, 1}, 47808}

func NewLink() *Link {
	l := &Link{in: make(chan arrival, 1<<14), closed: make(chan struct{}),
		My: Self.Addr(), Bcast: EP{[4]byte{10, 0, 0, 255}, 47808}.Addr()}
	return l
}

func (l *Link) GetMyAddress() *btypes.Address        { return l.My }
func (l *Link) GetBroadcastAddress() *btypes.Address { return l.Bcast }

func clone(b []byte) []byte { return append([]byte(nil), b...) }

func (l *Link) Send(data []byte, npdu *btypes.NPDU, dest *btypes.Address) (int, error) {
	select {
	case <-l.closed:
		return 0, net.ErrClosed
	default:
	}
	p := Packet{At: time.Now(), Data: clone(data)}
	if dest != nil {
		p.Dest = *dest
		p.Dest.Mac, p.Dest.Adr = clone(dest.Mac), clone(dest.Adr)
	}
	if l.Quick {
		if l.OnSend != nil {
			l.OnSend(p)
		}
		return len(data), nil
	}
	l.mu.Lock()
	l.sent = append(l.sent, p)
	ferr, on := l.SendErr, l.OnSend
	l.mu.Unlock()
	if ferr != nil {
		if err := ferr(p); err != nil {
			return 0, err
		}
	}
	if on != nil {
		on(p)
	}
	return len(data), nil
}

// Inject delivers a datagram; what does not fit into the buffer is cut off, as by a socket
func (l *Link) Inject(from EP, data []byte) {
	select {
	case l.in <- arrival{from, clone(data)}:
	case <-l.closed:
	}
}

// InjectAfter delivers a datagram after a delay
func (l *Link) InjectAfter(d time.Duration, from EP, data []byte) {
	if d <= 0 {
		l.Inject(from, data)
		return
	}
	data = clone(data)
	time.AfterFunc(d, func() { l.Inject(from, data) })
}

func (l *Link) Receive(buf []byte) (*btypes.Address, int, error) {
	select {
	case <-l.closed: // a closed link delivers nothing
		return l.recvClosed()
	default:
	}
	select {
	case a := <-l.in:
		n := copy(buf, a.data)
		if n < len(a.data) {
			l.mu.Lock()
			l.full += len(a.data) - n
			l.mu.Unlock()
		}
		return a.from.Addr(), n, nil
	case <-l.closed:
		return l.recvClosed()
	}
}

var errClosed = errors.New("use of closed link")

func (l *Link) recvClosed() (*btypes.Address, int, error) {
	l.mu.Lock()
	l.after++
	n, most := l.after, l.Patience
	l.mu.Unlock()
	if n > max(most, 3) { // a loop that does not end
		<-make(chan struct{})
	}
	return nil, 0, errClosed
}

func (l *Link) Close() error {
	l.mu.Lock()
	l.closes++
	l.mu.Unlock()
	l.once.Do(func() { close(l.closed) })
	return nil
}

// Closes is how often Close was called, After how often Receive was called after that
func (l *Link) Closes() (closes, after int) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.closes, l.after
}

// Pending is the number of datagrams that were not received yet
func (l *Link) Pending() int { return len(l.in) }

// Cut is the number of octets that did not fit into the buffers given
func (l *Link) Cut() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.full
}

// Sent returns the datagrams sent from the n-th on
func (l *Link) Sent(n int) []Packet {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]Packet(nil), l.sent[min(n, len(l.sent)):]...)
}

func (l *Link) SentCount() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return len(l.sent)
}

// Forget drops the log of what was sent
func (l *Link) Forget() {
	l.mu.Lock()
	l.sent = nil
	l.mu.Unlock()
}

// NewClient makes a client on the link and starts it. The channel is closed when the receive loop ends.
func NewClient(l *Link, maxPDU uint16) (bacnet.Client, <-chan struct{}, error) {
	cl, err := bacnet.NewClient(&bacnet.ClientBuilder{DataLink: l, MaxPDU: maxPDU})
	if err != nil {
		return nil, nil, err
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		cl.ClientRun()
	}()
	return cl, done, nil
}

// Request is a confirmed request as a device sees it
type Request struct {
	Packet
	To   EP
	NPDU ref.NPDU
	APDU ref.APDU
}

// ParseRequest reads a datagram strictly as a confirmed request
func ParseRequest(p Packet) (*Request, error) {
	r := &Request{Packet: p}
	var ok bool
	if r.To, ok = EPOf(p.Dest.Mac); !ok {
		return nil, errors.New("sent to no IP address")
	}
	f, rest, err := ref.ParseBVLC(p.Data)
	if err != nil {
		return nil, err
	}
	if f != ref.FuncUnicast {
		return nil, errors.New("not an original unicast message")
	}
	if r.NPDU, rest, err = ref.ParseNPDU(rest); err != nil {
		return nil, err
	}
	if r.NPDU.Network {
		return nil, errors.New("network message")
	}
	if r.APDU, err = ref.ParseAPDU(rest); err != nil {
		return nil, err
	}
	if r.APDU.Type != ref.Confirmed {
		return nil, errors.New("not a confirmed request")
	}
	return r, nil
}

// Route says how an answer travels
type Route struct {
	From    EP        // the station that sends the datagram
	Src     *ref.Addr // the network and address of a device behind a router
	Forward *EP       // the originator of a message that a BBMD forwards
	Bcast   bool
	Dst     *ref.Addr
}

// Frame puts an APDU into a datagram
func (r Route) Frame(apdu []byte) []byte {
	n := ref.NPDU{Version: 1, Src: r.Src, Dst: r.Dst, Hop: 254}
	return r.frame(ref.Cat(n.Bytes(), apdu))
}

// FrameNetwork puts a network message into a datagram
func (r Route) FrameNetwork(typ uint8, body []byte) []byte {
	n := ref.NPDU{Version: 1, Src: r.Src, Dst: r.Dst, Hop: 254, Network: true, Type: typ}
	return r.frame(ref.Cat(n.Bytes(), body))
}

func (r Route) frame(b []byte) []byte {
	if r.Forward != nil {
		return ref.BVLC(ref.FuncForwarded, r.Forward.Mac(), b)
	}
	if r.Bcast {
		return ref.BVLC(ref.FuncBroadcast, b)
	}
	return ref.BVLC(ref.FuncUnicast, b)
}

// Reply is the route back from a device that got the request at its address
func (q *Request) Reply() Route {
	r := Route{From: q.To}
	if q.NPDU.Dst != nil && q.NPDU.Dst.Net != 0 && len(q.NPDU.Dst.Mac) > 0 {
		r.Src = &ref.Addr{Net: q.NPDU.Dst.Net, Mac: q.NPDU.Dst.Mac}
	}
	return r
}
