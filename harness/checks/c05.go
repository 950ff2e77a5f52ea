package checks

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
	"verif/harness/ref"
)

func init() {
	register("C05", "link and application headers with random and enumerated fields, encoded and compared with the standard octets, and the standard octets decoded and compared field by field", runC05)
}

// standard reports whether b is the standard encoding of the APDU, should its kind be supported
func standard(b []byte, a btypes.APDU) bool {
	switch byte(a.DataType) >> 4 {
	case ref.SegmentAck:
		return len(b) == 4 && b[0]&0xfc == byte(a.DataType)&0xfc && b[1] == a.InvokeId && b[2] == a.Sequence && b[3] == a.WindowNumber
	case ref.ErrorPDU:
		return len(b) > 3 && b[0] == byte(a.DataType) && b[1] == a.InvokeId && b[2] == byte(a.Service)
	case ref.Reject, ref.Abort:
		return len(b) == 3 && b[0]&0xfe == byte(a.DataType)&0xfe && b[1] == a.InvokeId
	}
	return false
}

var segCodes = []uint{0, 2, 4, 8, 16, 32, 64, 65}
var apduCodes = []uint{50, 128, 206, 480, 1024, 1476}

func runC05(c *C) {
	c.Need("link encoded", "link decoded", "confirmed encoded", "confirmed decoded", "unconfirmed encoded", "unconfirmed decoded", "complex encoded", "complex decoded",
		"simple decoded", "segment decoded", "error bare", "error wrapped", "reject decoded", "abort decoded")
	// ---- link headers, every type and function
	c.Loop(0, 256, func(i int, r *rand.Rand) {
		for f := 0; f < 256; f++ {
			l := uint16(r.Intn(65536))
			body := genOctets(r, r.Intn(20))
			want := append([]byte{byte(i), byte(f), byte(l >> 8), byte(l)}, body...)
			c.Guard("BVLC", "BVLC "+hexs(want), func() {
				e := encoding.NewEncoder()
				err := e.BVLC(btypes.BVLC{Type: byte(i), Function: btypes.BacFunc(f), Length: l, Data: body})
				if err != nil || !bytes.Equal(e.Bytes(), want) {
					c.Fail("link", "BVLC %d %d %d % x is encoded as %s, %v", i, f, l, body, hexs(e.Bytes()), err)
				}
				d := encoding.NewDecoder(want)
				var h btypes.BVLC
				if err := d.BVLC(&h); err != nil || h.Type != byte(i) || h.Function != btypes.BacFunc(f) || h.Length != l || !bytes.Equal(append(append([]byte{}, h.Data...), d.Bytes()...), body) {
					c.Fail("link", "BVLC %s is decoded as %+v, left %s, %v", hexs(want), h, hexs(d.Bytes()), err)
				}
			})
		}
		c.Count("link encoded", 256)
		c.Count("link decoded", 256)
		c.Eval(fmt.Sprintf("link type %d", i))
	})
	enc := func(what string, a btypes.APDU, want []byte) {
		c.Guard("APDU", what, func() {
			e := encoding.NewEncoder()
			if err := e.APDU(a); err != nil || e.Error() != nil || !bytes.Equal(e.Bytes(), want) {
				c.Fail("encode", "%s is encoded as %s (%v, %v), want %s", what, hexs(e.Bytes()), err, e.Error(), hexs(want))
			}
		})
	}
	// dec decodes header and payload; the payload is in RawData for requests
	dec := func(what string, head, body []byte, raw bool, ok func(a *btypes.APDU) bool) {
		c.Guard("APDU", what, func() {
			d := encoding.NewDecoder(append(append([]byte{}, head...), body...))
			var a btypes.APDU
			err := d.APDU(&a)
			rest := d.Bytes()
			if raw {
				if len(rest) != 0 {
					c.Fail("payload", "%s: decoding %s leaves %s", what, hexs(head), hexs(rest))
				}
				rest = a.RawData
			}
			switch {
			case err != nil:
				c.Fail("refused", "%s %s %s is refused: %v", what, hexs(head), hexs(body), err)
			case !ok(&a):
				c.Fail("decode", "%s %s is decoded as %+v", what, hexs(head), a)
			case !bytes.Equal(rest, body):
				c.Fail("payload", "%s: payload of %s is %s, want %s", what, hexs(head), hexs(rest), hexs(body))
			}
		})
	}
	segs := func(a *btypes.APDU, seg bool, seq, win byte) bool {
		return a.SegmentedMessage == seg && (!seg || a.Sequence == seq && a.WindowNumber == win)
	}
	one := func(kind int, id, svc byte, flags int, r *rand.Rand) {
		seg, more, sa := flags&8 != 0, flags&4 != 0, flags&2 != 0
		seq, win := byte(r.Intn(256)), byte(r.Intn(256))
		body := genOctets(r, r.Intn(30))
		if r.Intn(50) == 0 {
			body = genOctets(r, 1400)
		}
		if r.Intn(6) == 0 {
			body = nil
		}
		var sw []byte
		if seg {
			sw = []byte{seq, win}
		}
		what := fmt.Sprintf("kind %d id %d service %d flags %#x", kind, id, svc, flags)
		switch kind {
		case ref.Confirmed:
			sc, ac := r.Intn(8), r.Intn(6)
			f := byte(flags & 0x0e)
			head := ref.Cat([]byte{f, byte(sc<<4 | ac), id}, sw, []byte{svc})
			ms := segCodes[sc]
			if sc == 7 {
				ms = []uint{65, 66, 100, 255}[r.Intn(4)]
			}
			what += fmt.Sprintf(" segments %d APDU %d", ms, apduCodes[ac])
			enc(what, btypes.APDU{DataType: btypes.ConfirmedServiceRequest, SegmentedMessage: seg, MoreFollows: more, SegmentedResponseAccepted: sa, MaxSegs: ms, MaxApdu: apduCodes[ac],
				InvokeId: id, Sequence: seq, WindowNumber: win, Service: btypes.ServiceConfirmed(svc)}, head)
			dec(what, head, body, true, func(a *btypes.APDU) bool {
				maxOK := a.MaxApdu == apduCodes[ac] && (a.MaxSegs == segCodes[sc] || sc == 0 && a.MaxSegs <= 1 || sc == 7 && a.MaxSegs > 64)
				return a.DataType == btypes.ConfirmedServiceRequest && a.InvokeId == id && byte(a.Service) == svc && a.MoreFollows == more && a.SegmentedResponseAccepted == sa && maxOK && segs(a, seg, seq, win)
			})
			c.Count("confirmed encoded", 1)
			c.Count("confirmed decoded", 1)
		case ref.Unconfirmed:
			head := []byte{0x10, svc}
			enc(what, btypes.APDU{DataType: btypes.UnconfirmedServiceRequest, UnconfirmedService: btypes.ServiceUnconfirmed(svc)}, head)
			dec(what, head, body, true, func(a *btypes.APDU) bool {
				return a.DataType == btypes.UnconfirmedServiceRequest && byte(a.UnconfirmedService) == svc
			})
			c.Count("unconfirmed encoded", 1)
			c.Count("unconfirmed decoded", 1)
		case ref.SimpleAck:
			dec(what, []byte{0x20, id, svc}, nil, false, func(a *btypes.APDU) bool {
				return a.DataType == btypes.SimpleAck && a.InvokeId == id && byte(a.Service) == svc
			})
			c.Count("simple decoded", 1)
		case ref.ComplexAck:
			head := ref.Cat([]byte{0x30 | byte(flags&0x0c), id}, sw, []byte{svc})
			enc(what, btypes.APDU{DataType: btypes.ComplexAck, SegmentedMessage: seg, MoreFollows: more, InvokeId: id, Sequence: seq, WindowNumber: win, Service: btypes.ServiceConfirmed(svc)}, head)
			dec(what, head, body, false, func(a *btypes.APDU) bool {
				return a.DataType == btypes.ComplexAck && a.InvokeId == id && byte(a.Service) == svc && a.MoreFollows == more && segs(a, seg, seq, win)
			})
			c.Count("complex encoded", 1)
			c.Count("complex decoded", 1)
		case ref.SegmentAck:
			dec(what, []byte{0x40 | byte(flags&3), id, seq, win}, nil, false, func(a *btypes.APDU) bool {
				return a.DataType == btypes.SegmentAck && a.InvokeId == id && a.Sequence == seq && a.WindowNumber == win
			})
			c.Count("segment decoded", 1)
		case ref.ErrorPDU:
			class, code := genError(r)
			if r.Intn(3) == 0 {
				class, code = genUint(r)&0xffff, genUint(r)
			}
			pair := ref.Cat(ref.App(ref.Enum(class)), ref.App(ref.Enum(code)))
			kind := "error bare"
			if flags&1 != 0 {
				kind = "error wrapped"
				pair = ref.Cat(ref.Open(0), pair, ref.Close(0))
				body = nil
			}
			what += fmt.Sprintf(" %s class %d code %d", kind, class, code)
			dec(what, ref.Cat([]byte{0x50, id, svc}, pair), body, false, func(a *btypes.APDU) bool {
				return a.DataType == btypes.Error && a.InvokeId == id && byte(a.Service) == svc && uint32(a.Error.Class) == class && uint32(a.Error.Code) == code
			})
			c.Count(kind, 1)
		default:
			t, name := btypes.Reject, "reject decoded"
			if kind == ref.Abort {
				t, name = btypes.Abort, "abort decoded"
			}
			// the reason is what is left
			dec(what, []byte{byte(kind)<<4 | byte(flags&1), id}, []byte{svc}, false, func(a *btypes.APDU) bool { return a.DataType == t && a.InvokeId == id })
			c.Count(name, 1)
		}
		c.Eval(what + hexs(body))
	}
	// the kinds that cannot be sent are not sent as something else
	c.Need("cannot be encoded")
	c.Loop(5000, 256, func(i int, r *rand.Rand) {
		t := btypes.PDUType(i)
		switch t {
		case btypes.ComplexAck, btypes.UnconfirmedServiceRequest, btypes.ConfirmedServiceRequest:
			return
		}
		what := fmt.Sprintf("an APDU of the kind %#x", i)
		c.Guard("APDU", what, func() {
			e := encoding.NewEncoder()
			a := btypes.APDU{DataType: t, InvokeId: byte(r.Intn(256)), Service: btypes.ServiceConfirmed(r.Intn(32)), MaxApdu: 1476, RawData: genOctets(r, r.Intn(5))}
			err := e.APDU(a)
			k := i >> 4
			if err == nil && e.Error() == nil && (i&15 == 0 && k > 3 || k > 7) && !standard(e.Bytes(), a) {
				c.Fail("encode", "%s is encoded as %s without an error", what, hexs(e.Bytes()))
			}
		})
		c.Count("cannot be encoded", 1)
		c.Eval(what)
	})
	// every kind, flag and id, and every kind, flag and service
	c.Loop(1000, 8*16, func(i int, r *rand.Rand) {
		for k := 0; k < 256; k++ {
			one(i/16, byte(k), byte(r.Intn(32)), i%16, r)
			one(i/16, byte(r.Intn(256)), byte(k), i%16, r)
		}
	})
	c.Loop(100000, c.N(400000, 6000000), func(i int, r *rand.Rand) {
		one(r.Intn(8), byte(r.Intn(256)), byte(r.Intn(256)), r.Intn(16), r)
	})
}
