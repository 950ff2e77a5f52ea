package ref

import (
	"encoding/hex"
	"testing"
)

// The vectors are examples from annex F and clause 20.2 of the standard.
func TestVectors(t *testing.T) {
	for _, c := range []struct {
		b []byte
		h string
	}{
		{App(Uint(72)), "2148"}, {App(Int(72)), "3148"}, {App(Int(-1)), "31ff"}, {App(Int(-129)), "32ff7f"}, {App(float32(72.0)), "4442900000"},
		{App(float64(72.0)), "55084052000000000000"}, {App(Octets{0x12, 0x34, 0xff}), "631234ff"},
		{App(Str("This is a BACnet string!")), "751900546869732069732061204241436e657420737472696e6721"},
		{App(Bits{true, false, true, false, true}), "8203a8"}, {App(Enum(0)), "9100"}, {App(Date{91, 1, 24, 4}), "a45b011804"},
		{App(Time{17, 35, 45, 17}), "b411232d11"}, {App(ObjID{3, 15}), "c400c0000f"}, {App(Null{}), "00"}, {App(true), "11"},
		{ReadPropertyReq(ObjID{0, 5}, 85, ArrayAll), "0c000000051955"},
		{WritePropertyReq(ObjID{2, 1}, Prop{ID: 85, Index: ArrayAll, Vals: []any{float32(180)}}), "0c0080000119553e44433400003f"},
		{WriteMultipleReq([]Obj{{ObjID{2, 5}, []Prop{{ID: 85, Index: ArrayAll, Vals: []any{float32(67)}, Prio: 0}}}}), "0c008000051e09552e44428600002f1f"},
		{ReadMultipleReq([]Obj{{ObjID{0, 16}, []Prop{{ID: 85, Index: ArrayAll}, {ID: 103, Index: ArrayAll}}}}), "0c000000101e095509671f"},
		{ReadMultipleAck([]Obj{{ObjID{0, 16}, []Prop{{ID: 85, Index: ArrayAll, Vals: []any{float32(72.3)}}, {ID: 103, Index: ArrayAll, Vals: []any{Enum(0)}}}}}), "0c000000101e29554e444290999a4f29674e91004f1f"},
		{WhoIs(3, 3), "100809031903"}, {IAm(ObjID{8, 1}, 480, 1, 99), "1000c402000001" + "2201e0" + "9101" + "2163"},
		{ErrorAnswer(1, 12, 1, 31), "50010c9101911f"},
	} {
		if hex.EncodeToString(c.b) != c.h {
			t.Errorf("%x, want %s", c.b, c.h)
		}
	}
}
