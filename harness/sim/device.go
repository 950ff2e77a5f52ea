package sim

import (
	"fmt"
	"sync"

	"verif/harness/ref"
)

const (
	PropDescription  = 28
	PropVendorName   = 121
	PropMaxApdu      = 62
	PropObjectList   = 76
	PropObjectName   = 77
	PropPresentValue = 85
	PropPriorities   = 87
	PropSegmentation = 107
)

// Write is one value that a device was told to take
type Write struct {
	Obj  ref.ObjID
	Prop ref.Prop
}

// Device is a simulated BACnet device
type Device struct {
	EP
	Net      uint16
	Mac      []byte
	Instance uint32
	MaxApdu  uint32
	Seg      uint32
	Vendor   uint32

	mu     sync.Mutex
	db     map[ref.ObjID]map[uint32][]any
	prio   map[ref.ObjID]*[16]any
	dflt   map[ref.ObjID]any
	Writes []Write
	Bad    []string // requests that are no valid requests
	Reqs   int

	// NoWholeList makes the device refuse to return its whole object list
	NoWholeList bool
	MaxReply    int // 0: 1476
}

func NewDevice(ep EP, instance uint32) *Device {
	d := &Device{EP: ep, Instance: instance, MaxApdu: 1476, Seg: 3, Vendor: 7,
		db: map[ref.ObjID]map[uint32][]any{}, prio: map[ref.ObjID]*[16]any{}, dflt: map[ref.ObjID]any{}}
	return d
}

func (d *Device) Self() ref.ObjID { return ref.ObjID{Type: 8, Instance: d.Instance} }

// Set stores a property
func (d *Device) Set(o ref.ObjID, prop uint32, vals ...any) {
	d.mu.Lock()
	defer d.mu.Unlock()
	m := d.db[o]
	if m == nil {
		m = map[uint32][]any{}
		d.db[o] = m
	}
	m[prop] = vals
}

// Command makes an object commandable with a relinquish default
func (d *Device) Command(o ref.ObjID, dflt any) {
	d.Set(o, PropPresentValue, dflt)
	d.mu.Lock()
	d.dflt[o] = dflt
	p := new([16]any)
	for i := range p {
		p[i] = ref.Null{}
	}
	d.prio[o] = p
	d.mu.Unlock()
}

// Slots returns the priority array of an object
func (d *Device) Slots(o ref.ObjID) [16]any {
	d.mu.Lock()
	defer d.mu.Unlock()
	return *d.prio[o]
}

func (d *Device) Get(o ref.ObjID, prop uint32) []any {
	d.mu.Lock()
	defer d.mu.Unlock()
	v, _ := d.get(o, prop)
	return v
}

func (d *Device) get(o ref.ObjID, prop uint32) ([]any, bool) {
	if p, ok := d.prio[o]; ok {
		if prop == PropPriorities {
			return p[:], true
		}
		if prop == PropPresentValue {
			for _, v := range p {
				if v != (ref.Null{}) {
					return []any{v}, true
				}
			}
			return []any{d.dflt[o]}, true
		}
	}
	v, ok := d.db[o][prop]
	return v, ok
}

func isArray(prop uint32) bool { return prop == PropObjectList || prop == PropPriorities }

func (d *Device) read(o ref.ObjID, prop, index uint32) ([]any, *[2]uint32) {
	if _, ok := d.db[o]; !ok {
		return nil, &[2]uint32{1, 31} // unknown object
	}
	v, ok := d.get(o, prop)
	if !ok {
		return nil, &[2]uint32{2, 32} // unknown property
	}
	if index == ref.ArrayAll {
		return v, nil
	}
	if !isArray(prop) {
		return nil, &[2]uint32{2, 50} // not an array
	}
	if index == 0 {
		return []any{ref.Uint(len(v))}, nil
	}
	if int64(index) > int64(len(v)) {
		return nil, &[2]uint32{2, 42}
	}
	return v[index-1 : index], nil
}

func (d *Device) write(o ref.ObjID, p ref.Prop) *[2]uint32 {
	if _, ok := d.db[o]; !ok {
		return &[2]uint32{1, 31}
	}
	if _, ok := d.get(o, p.ID); !ok {
		return &[2]uint32{2, 32}
	}
	d.Writes = append(d.Writes, Write{o, p})
	if len(p.Vals) != 1 {
		return &[2]uint32{2, 9}
	}
	if s, ok := d.prio[o]; ok && p.ID == PropPresentValue {
		n := p.Prio
		if n == 0 {
			n = 16
		}
		if n > 16 {
			return &[2]uint32{2, 37}
		}
		s[n-1] = p.Vals[0]
		return nil
	}
	d.db[o][p.ID] = p.Vals
	return nil
}

func (d *Device) bad(f string, a ...any) { d.Bad = append(d.Bad, fmt.Sprintf(f, a...)) }

// Serve answers a request
func (d *Device) Serve(q *Request) []byte {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.Reqs++
	id, svc := q.APDU.ID, q.APDU.Svc
	limit := d.MaxReply
	if limit == 0 {
		limit = 1476
	}
	small := func(b []byte) []byte {
		if len(b) > limit {
			return []byte{ref.Abort<<4 | 1, id, 4} // segmentation not supported
		}
		return b
	}
	reject := func(err error) []byte {
		d.bad("service %d: %v: % x", svc, err, q.APDU.Body)
		return []byte{ref.Reject << 4, id, 9}
	}
	switch svc {
	case ref.SvcReadProperty:
		o, p, err := ref.ParseReadProperty(q.APDU.Body)
		if err != nil {
			return reject(err)
		}
		if d.NoWholeList && p.ID == PropObjectList && p.Index == ref.ArrayAll {
			return []byte{ref.Abort<<4 | 1, id, 4}
		}
		v, e := d.read(o, p.ID, p.Index)
		if e != nil {
			return ref.ErrorAnswer(id, svc, e[0], e[1])
		}
		p.Vals = v
		return small(ref.Complex(id, svc, ref.ReadPropertyAck(o, p)))
	case ref.SvcReadMultiple:
		objs, err := ref.ParseReadMultiple(q.APDU.Body)
		if err != nil || len(objs) == 0 {
			return reject(fmt.Errorf("%v, %d objects", err, len(objs)))
		}
		for i := range objs {
			for j := range objs[i].Props {
				p := &objs[i].Props[j]
				p.Vals, p.Err = d.read(objs[i].ID, p.ID, p.Index)
			}
		}
		return small(ref.Complex(id, svc, ref.ReadMultipleAck(objs)))
	case ref.SvcWriteProperty:
		o, p, err := ref.ParseWriteProperty(q.APDU.Body)
		if err != nil {
			return reject(err)
		}
		if e := d.write(o, p); e != nil {
			return ref.ErrorAnswer(id, svc, e[0], e[1])
		}
		return ref.Simple(id, svc)
	case ref.SvcWriteMultiple:
		objs, err := ref.ParseWriteMultiple(q.APDU.Body)
		if err != nil {
			return reject(err)
		}
		for _, o := range objs {
			for _, p := range o.Props {
				if e := d.write(o.ID, p); e != nil {
					return ref.ErrorAnswer(id, svc, e[0], e[1])
				}
			}
		}
		return ref.Simple(id, svc)
	}
	return []byte{ref.Reject << 4, id, 9}
}

// Log returns what was written and what was malformed, and forgets it
func (d *Device) Log() (w []Write, bad []string) {
	d.mu.Lock()
	defer d.mu.Unlock()
	w, bad = d.Writes, d.Bad
	d.Writes, d.Bad = nil, nil
	return
}

// Matches reports whether a request is for this device
func (d *Device) Matches(q *Request) bool {
	if q.To != d.EP {
		return false
	}
	if d.Net == 0 {
		return q.NPDU.Dst == nil
	}
	return q.NPDU.Dst != nil && q.NPDU.Dst.Net == d.Net && string(q.NPDU.Dst.Mac) == string(d.Mac)
}

// Route is how the messages of the device travel
func (d *Device) Route() Route {
	r := Route{From: d.EP}
	if d.Net != 0 {
		r.Src = &ref.Addr{Net: d.Net, Mac: d.Mac}
	}
	return r
}

func (d *Device) IAm() []byte { return ref.IAm(d.Self(), d.MaxApdu, d.Seg, d.Vendor) }
