package checks

import (
	"fmt"
	"math/rand"
	"runtime/debug"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"verif/harness/ref"
	"verif/harness/sim"
)

// Bubble runs f in virtual time. What is blocked for ever is a violation.
func (c *C) Bubble(what string, f func(t *testing.T)) {
	defer func() {
		if p := recover(); p != nil {
			s := fmt.Sprint(p)
			if strings.Contains(s, "deadlock") || strings.Contains(s, "blocked goroutines remain") {
				c.Fail("blocked", "%s: %v\n%s", what, p, trim(stacks(), 200))
				return
			}
			c.Fail("panic", "%s: %v\n%s", what, p, trim(string(debug.Stack()), 40))
		}
	}()
	synctest.Test(c.T, f)
}

// world is a running client on a simulated network
type world struct {
	*sim.Link
	cl   bacnet.Client
	done <-chan struct{}
}

func newWorld(maxPDU uint16) *world { return worldOn(sim.NewLink(), maxPDU) }

func worldOn(l *sim.Link, maxPDU uint16) *world {
	w := &world{Link: l}
	var err error
	if w.cl, w.done, err = sim.NewClient(w.Link, maxPDU); err != nil {
		theC.noClient(err)
	}
	return w
}

// end closes the client and waits for its loop to end
func (w *world) end() {
	w.cl.Close()
	<-w.done
}

// idle now and then lets much time pass in a bubble: what has served for long
// and what has not been used for long has to work as what is new
func (c *C) idle(r *rand.Rand) {
	if r.Intn(6) == 0 {
		time.Sleep([]time.Duration{time.Second, time.Minute, time.Hour, 25 * time.Hour, 800 * time.Hour}[r.Intn(5)] + time.Duration(r.Intn(1000))*time.Millisecond)
		c.Count("long idle", 1)
	}
}

// libDevice is the device as a caller addresses it
func libDevice(d *sim.Device) btypes.Device {
	return btypes.Device{ID: libObj(d.Self()), DeviceID: int(d.Instance), MaxApdu: d.MaxApdu, Segmentation: btypes.Enumerated(d.Seg), Vendor: d.Vendor, Addr: libTarget(d)}
}

func libTarget(d *sim.Device) btypes.Address {
	a := btypes.Address{Mac: d.EP.Mac(), MacLen: 6}
	if d.Net != 0 {
		a.Net = d.Net
		a.Adr = append([]byte{}, d.Mac...)
		a.Len = uint8(len(d.Mac))
	} else if d.Instance%3 == 0 { // as NewDevice leaves it
		a.Adr = []byte{byte(d.Instance)}
	}
	return a
}

// genDevices are devices at distinct addresses, some of them behind routers
func genDevices(r *rand.Rand, n int) []*sim.Device {
	var out []*sim.Device
	router := sim.EP{IP: [4]byte{10, 0, 9, 9}, Port: 47808}
	for i := 0; i < n; i++ {
		ep := sim.EP{IP: [4]byte{10, 0, byte(1 + i/200), byte(2 + i%200)}, Port: 47808}
		d := sim.NewDevice(ep, uint32(1+i*7))
		d.Seg, d.Vendor = uint32(r.Intn(4)), uint32(r.Intn(1000))
		switch r.Intn(5) {
		case 0: // the same host, another port
			d.EP = sim.EP{IP: [4]byte{10, 0, 7, 7}, Port: uint16(47808 + i)}
			if r.Intn(4) == 0 { // the host of the client
				d.EP = sim.EP{IP: sim.Self.IP, Port: uint16(47809 + i)}
			}
		case 1, 2: // behind the same router
			d.EP = router
			d.Net = uint16(1 + i)
			d.Mac = genOctets(r, []int{1, 1, 1, 2, 3, 6, 6, 7, 8, 16, 18, 1 + r.Intn(60)}[r.Intn(12)])
			if r.Intn(3) == 0 {
				d.Net = genNet(r)
				if d.Net == 65535 {
					d.Net = 9
				}
			}
			// a different address for each
			d.Mac[0] = byte(i)
			if len(d.Mac) == 1 {
				d.Net = uint16(100 + i)
			}
		}
		out = append(out, d)
	}
	return out
}

func find(devs []*sim.Device, q *sim.Request) *sim.Device {
	for _, d := range devs {
		if d.Matches(q) {
			return d
		}
	}
	return nil
}

// readOf is a request for properties of one or more objects
func propData(o ref.Obj) btypes.PropertyData { return btypes.PropertyData{Object: libObject(o)} }

func multiData(objs []ref.Obj) btypes.MultiplePropertyData {
	return btypes.MultiplePropertyData{Objects: libObjects(objs)}
}

// the four operations of a client
const (
	opRead = iota
	opReadMulti
	opWrite
	opWriteMulti
)

var opNames = []string{"ReadProperty", "ReadMultiProperty", "WriteProperty", "WriteMultiProperty"}
var opService = []byte{ref.SvcReadProperty, ref.SvcReadMultiple, ref.SvcWriteProperty, ref.SvcWriteMultiple}

// do runs an operation on the client
func (w *world) do(op int, dev btypes.Device, objs []ref.Obj) ([]btypes.Object, error) {
	switch op {
	case opRead:
		out, err := w.cl.ReadProperty(dev, propData(objs[0]))
		return []btypes.Object{out.Object}, err
	case opReadMulti:
		out, err := w.cl.ReadMultiProperty(dev, multiData(objs))
		return out.Objects, err
	case opWrite:
		return nil, w.cl.WriteProperty(dev, propData(objs[0]))
	default:
		return nil, w.cl.WriteMultiProperty(dev, multiData(objs))
	}
}

// asked parses the body of a request with the strict reference codec
func asked(q *sim.Request) (op int, objs []ref.Obj, err error) {
	switch q.APDU.Svc {
	case ref.SvcReadProperty:
		o, p, err := ref.ParseReadProperty(q.APDU.Body)
		return opRead, []ref.Obj{{ID: o, Props: []ref.Prop{p}}}, err
	case ref.SvcReadMultiple:
		objs, err := ref.ParseReadMultiple(q.APDU.Body)
		return opReadMulti, objs, err
	case ref.SvcWriteProperty:
		o, p, err := ref.ParseWriteProperty(q.APDU.Body)
		return opWrite, []ref.Obj{{ID: o, Props: []ref.Prop{p}}}, err
	case ref.SvcWriteMultiple:
		objs, err := ref.ParseWriteMultiple(q.APDU.Body)
		return opWriteMulti, objs, err
	}
	return 0, nil, fmt.Errorf("service %d", q.APDU.Svc)
}

// positive is the answer that fulfils a request; values are those in objs
func positive(q *sim.Request, op int, objs []ref.Obj) []byte {
	id, svc := q.APDU.ID, q.APDU.Svc
	switch op {
	case opRead:
		return ref.Complex(id, svc, ref.ReadPropertyAck(objs[0].ID, objs[0].Props[0]))
	case opReadMulti:
		return ref.Complex(id, svc, ref.ReadMultipleAck(objs))
	}
	return ref.Simple(id, svc)
}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

func libObjsOf(v any) []btypes.Object {
	l, _ := v.([]btypes.Object)
	return l
}

// showLib writes what a read returned
func showLib(v any) string {
	s := ""
	for _, o := range libObjsOf(v) {
		s += fmt.Sprintf("%d:%d{", o.ID.Type, o.ID.Instance)
		for _, p := range o.Properties {
			s += fmt.Sprintf("%d[%d]=%s ", p.Type, int32(p.ArrayIndex), show(p.Data))
		}
		s += "} "
	}
	if len(s) > 1000 {
		s = s[:1000] + "..."
	}
	return s
}
