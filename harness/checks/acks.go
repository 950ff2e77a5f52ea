package checks

import (
	"errors"
	"fmt"
	"math/rand"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
	"verif/harness/ref"
)

// genVals is the content of a property: mostly one value
func genVals(r *rand.Rand) []any {
	n := 1
	switch r.Intn(6) {
	case 0:
		n = 0
	case 1:
		n = 2 + r.Intn(16)
	case 2:
		n = 2
	}
	vs := make([]any, n)
	for i := range vs {
		vs[i] = genValue(r, false)
	}
	return vs
}

// genAckObjs is the content of a ReadPropertyMultiple acknowledgement
func genAckObjs(r *rand.Rand) []ref.Obj {
	objs := make([]ref.Obj, 1+r.Intn(4))
	for i := range objs {
		objs[i].ID = genObj(r)
		n := 1 + r.Intn(4)
		if r.Intn(20) == 0 {
			n = 1 + r.Intn(40)
		}
		for ; n > 0; n-- {
			objs[i].Props = append(objs[i].Props, ref.Prop{ID: genPropID(r), Index: genIndex(r), Vals: genVals(r)})
		}
	}
	return objs
}

func showObjs(objs []ref.Obj) string {
	s := ""
	for _, o := range objs {
		s += fmt.Sprintf("%v{", o.ID)
		for _, p := range o.Props {
			s += fmt.Sprintf("%d[%d]=%s ", p.ID, int32(p.Index), show(p.Vals))
		}
		s += "} "
	}
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

// mutateAck changes an acknowledgement in a few places, or in the number or class of one tag
func mutateAck(r *rand.Rand, b []byte) []byte {
	if r.Intn(3) > 0 || len(b) == 0 {
		return mutate(r, b)
	}
	b = append([]byte(nil), b...)
	for k := 1 + r.Intn(2); k > 0; k-- {
		// mostly near the tags of the structure
		i := r.Intn(len(b))
		for n := 0; n < 20 && b[i]&8 == 0; n++ {
			i = r.Intn(len(b))
		}
		switch r.Intn(5) {
		case 4: // another tag
			for n := 0; n < 40 && b[i]&14 != 14; n++ {
				i = r.Intn(len(b))
			}
			num := r.Intn(18)
			if r.Intn(3) == 0 {
				num = r.Intn(255)
			}
			b = append(b[:i:i], append(ref.Paren(num, 6+byte(r.Intn(2))), b[i+1:]...)...)
		case 0:
			b[i] ^= 8
		case 1:
			b[i] ^= 1
		case 2:
			b[i] += 16
		default:
			b[i] -= 16
		}
	}
	return b
}

// judge decodes the service part of an acknowledgement of unknown quality: it has to be refused when
// it is malformed and otherwise to be decoded to what it carries
func (c *C) judge(multi bool, b []byte) {
	var want []ref.Obj
	var verdict ref.Verdict
	var why string
	name := "ReadProperty"
	if multi {
		name = "ReadMultiple"
		want, verdict, why = ref.ReadReadMultipleAck(b)
	} else {
		var o ref.Obj
		o, verdict, why = ref.ReadReadPropertyAck(b)
		want = []ref.Obj{o}
	}
	c.Guard("judged "+name, "acknowledgement "+hexs(b), func() {
		var got []btypes.Object
		var err error
		if multi {
			var all btypes.MultiplePropertyData
			err = encoding.NewDecoder(b).ReadMultiplePropertyAck(&all)
			got = all.Objects
		} else {
			var one btypes.PropertyData
			err = encoding.NewDecoder(b).ReadProperty(&one)
			got = []btypes.Object{one.Object}
			if err == nil && (len(one.Object.Properties) == 0 || one.Object.Properties[0].Data == nil) {
				err = errors.New("no value") // as a request is decoded
			}
		}
		switch {
		case verdict == ref.Malformed && err == nil:
			c.Fail("malformed accepted "+name, "the %s acknowledgement %s is malformed (%s) and is decoded as %s", name, hexs(b), why, show(got))
		case verdict == ref.Valid && err != nil:
			c.Fail("judged refused "+name, "the %s acknowledgement %s carries %s and is refused: %v", name, hexs(b), showObjs(want), err)
		case verdict == ref.Valid:
			if d := sameObjs(got, want); d != "" {
				c.Fail("judged "+name, "%s acknowledgement %s: %s", name, hexs(b), d)
			}
		}
	})
	c.Count([]string{"judged valid", "judged malformed", "not judged"}[verdict], 1)
	c.Eval("judged " + name + " " + hexs(b))
}
