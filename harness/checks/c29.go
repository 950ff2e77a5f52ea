package checks

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/bacerr"
	"github.com/NubeDev/bacnet/btypes/ndpu"
	"github.com/NubeDev/bacnet/btypes/segmentation"
	"github.com/NubeDev/bacnet/btypes/services"
	"github.com/NubeDev/bacnet/btypes/units"
	"verif/harness/ref"
)

func init() {
	register("C29", "the text of every number of 16 bits (and of random ones of 32 where the kind has them) of every kind that has names, the lookup of every listed name and of random ones, and printed results, compared with tables of the standard's names", runC29)
}

// fold leaves the letters of a text, in lower case
func fold(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' {
			return r
		}
		return -1
	}, strings.ToLower(s))
}

type textKind struct {
	name   string
	bits   int
	table  map[uint32]string
	more   []string // what may stand around the name
	opaque bool     // a number without a name need not be shown
	text   func(n uint32) string
}

var textKinds = []textKind{
	{"object type", 16, ref.ObjectTypes, []string{"", "value"}, false, func(n uint32) string { return btypes.ObjectType(n).String() }},
	{"property", 32, ref.Properties, []string{"", "prop"}, true, func(n uint32) string { return btypes.String(btypes.PropertyType(n)) }},
	{"unit", 16, ref.Units, []string{"", "unit", "units"}, false, func(n uint32) string { return units.Unit(n).String() }},
	{"error class", 16, ref.ErrorClasses, []string{"", "error"}, false, func(n uint32) string { return bacerr.ErrorClass(n).String() }},
	{"error code", 32, ref.ErrorCodes, []string{"", "error"}, false, func(n uint32) string { return bacerr.ErrorCode(n).String() }},
	{"segmentation", 8, ref.Segmentations, []string{""}, false, func(n uint32) string { return segmentation.SegmentedType(n).String() }},
	{"network message", 8, ref.NetworkMessages, []string{""}, false, func(n uint32) string { return ndpu.NetworkMessageType(n).String() }},
}

// otherwise named: the package's names for what the standard calls otherwise
var alias = map[string]string{"allproperties": "all", "objectreference": "objectpropertyreference", "objectpropertyreference": "objectpropertyreference", "networknumberis": "networkis"}

func (k *textKind) right(text string, n uint32) string {
	f := fold(text)
	if a, ok := alias[f]; ok {
		f = a
	}
	num := hasNumber(text, n)
	name, ok := k.table[n]
	if !ok {
		if k.opaque || num {
			return ""
		}
		return "it has no name, and the text does not show the number"
	}
	for _, m := range k.more {
		if f == name+m || f == m+name {
			return ""
		}
	}
	if num && strings.Contains(f, name) {
		return ""
	}
	return fmt.Sprintf("its name is %s", name)
}

func (c *C) text(k *textKind, n uint32) {
	what := fmt.Sprintf("the text of %s %d", k.name, n)
	c.Guard("text", what, func() {
		t := k.text(n)
		if s := k.right(t, n); s != "" {
			c.Fail("text", "%s is %q: %s", what, t, s)
		}
		if _, ok := k.table[n]; ok {
			c.Count(k.name+" with a name", 1)
		} else {
			c.Count(k.name+" without a name", 1)
		}
		c.Eval(what)
	})
}

func runC29(c *C) {
	for _, k := range textKinds {
		c.Need(k.name+" with a name", k.name+" without a name")
	}
	c.Need("property names", "other property names", "object type names", "other object type names", "services", "printed results")
	for i := range textKinds {
		k := &textKinds[i]
		c.Loop(i<<20, 256, func(j int, r *rand.Rand) { // every number of 16 bits
			hi := 256
			if k.bits < 16 {
				if j > 0 {
					return
				}
			}
			for l := 0; l < hi; l++ {
				c.text(k, uint32(j<<8|l))
			}
			if k.bits == 32 {
				for l := 0; l < 64; l++ {
					c.text(k, r.Uint32()>>uint(r.Intn(16)))
				}
			}
		})
	}
	c.Loop(100<<20, c.N(400, 20000), func(i int, r *rand.Rand) { c.lookups(r) })
	c.Loop(101<<20, c.N(4000, 100000), func(i int, r *rand.Rand) { c.printed(r) })
}

func (c *C) lookups(r *rand.Rand) {
	// properties
	c.Guard("lookup", "property names", func() {
		keys := btypes.Keys()
		seen := map[btypes.PropertyType]string{}
		for name, n := range keys {
			got, err := btypes.Get(name)
			if err != nil || got != n {
				c.Fail("lookup", "the listed property %q, number %d, is looked up as %d (%v)", name, n, got, err)
			}
			f := fold(name)
			if a, ok := alias[f]; ok {
				f = a
			}
			if std, ok := ref.Properties[uint32(n)]; ok && f != std || !ok {
				for m, std := range ref.Properties {
					if std == f && btypes.PropertyType(m) != n {
						c.Fail("lookup", "the listed property %q has the number %d, want %d", name, n, m)
					}
				}
				if ok {
					c.Fail("lookup", "the listed property %q has the number %d, which is %s", name, n, std)
				}
			}
			if o, ok := seen[n]; ok {
				c.Fail("lookup", "the properties %q and %q both have the number %d", o, name, n)
			}
			seen[n] = name
			c.Count("property names", 1)
			c.Eval("property " + name)
		}
		for m, std := range ref.Properties {
			if _, ok := seen[btypes.PropertyType(m)]; !ok {
				c.Fail("lookup", "property %d, %s, is not listed", m, std)
			}
		}
		// the list is the caller's
		for name := range keys {
			keys[name] = 4194303
		}
		keys["x"] = 3
		delete(keys, "Units")
		for name, n := range btypes.Keys() {
			if seen[n] != name {
				c.Fail("lookup", "after the caller changed its list, the property %q is listed with the number %d", name, n)
			}
		}
		for n, name := range seen {
			if got, err := btypes.Get(name); err != nil || got != n {
				c.Fail("lookup", "after the caller changed its list, the property %q is looked up as %d (%v)", name, got, err)
			}
		}
		for k := 0; k < 30; k++ {
			name := genText(r, r.Intn(20))
			for n := range seen {
				if r.Intn(2) == 0 {
					name = seen[n]
				}
				if r.Intn(3) == 0 {
					break
				}
			}
			if name != "" {
				switch r.Intn(3) {
				case 0:
					name = name[1:]
				case 1:
					name += string(rune('!' + r.Intn(90)))
				}
			}
			want, listed := btypes.Keys()[name]
			got, err := btypes.Get(name)
			if (err == nil) != listed || listed && got != want {
				c.Fail("lookup", "the property %q (listed: %v) is looked up as %d (%v)", name, listed, got, err)
			}
			c.Count("other property names", 1)
			c.Eval("property " + name)
		}
		n := btypes.PropertyType(r.Intn(600))
		if btypes.IsDeviceProperty(n) != (n == 76) || !btypes.IsDeviceProperty(76) {
			c.Fail("lookup", "property %d is a device property: %v", n, btypes.IsDeviceProperty(n))
		}
	})
	// object types
	c.Guard("lookup", "object type names", func() {
		for k := 0; k < 200; k++ {
			n := btypes.ObjectType(r.Intn(65536))
			if r.Intn(2) == 0 {
				n = btypes.ObjectType(r.Intn(1024))
			}
			if r.Intn(3) == 0 {
				n = btypes.ObjectType(r.Intn(64))
			}
			if got := btypes.GetType(n.String()); got != n {
				c.Fail("lookup", "the object type %q, number %d, is looked up as %d", n.String(), n, got)
			}
			id := btypes.ObjectID{Type: n, Instance: btypes.ObjectInstance(r.Intn(1 << 22))}
			if s := id.String(); !strings.Contains(s, n.String()) || !hasNumber(strings.Replace(s, n.String(), "", 1), uint32(id.Instance)) {
				c.Fail("text", "the object of type %d (%s), instance %d is shown as %q", n, n.String(), id.Instance, s)
			}
			c.Count("object type names", 1)
			c.Eval("object type " + n.String())
		}
		for k := 0; k < 30; k++ {
			name := genText(r, r.Intn(30))
			c.Guard("lookup", name, func() { btypes.GetType(name) })
			c.Count("other object type names", 1)
			c.Eval("object type " + name)
		}
	})
	// services
	c.Guard("lookup", "services", func() {
		var s services.Supported
		all := s.ListAll()
		seen := map[uint16]bool{}
		index := map[int]bool{}
		for x, name := range all {
			if seen[x.Number] || index[x.Index] || x.Supported || x.Index < 0 || x.Index >= len(all) {
				c.Fail("services", "listed twice or wrongly: %+v", x)
			}
			seen[x.Number], index[x.Index] = true, true
			if want, ok := ref.Services[uint32(x.Number)]; ok && fold(name) != want || fold(x.Name) != fold(name) {
				c.Fail("services", "service %d is called %q and %q, want %s", x.Number, x.Name, name, want)
			}
			if got := s.GetString(x); got != name {
				c.Fail("services", "service %+v is called %q and %q", x, name, got)
			}
			if got := s.GetType(name); got == nil || *got != x {
				c.Fail("services", "service %q is looked up as %+v", name, got)
			}
			for y := range all { // in the order of their numbers
				if x.Number < y.Number != (x.Index < y.Index) {
					c.Fail("services", "services %+v and %+v are out of order", x, y)
				}
			}
			c.Count("services", 1)
			c.Eval("service " + name)
		}
		for n, name := range ref.Services {
			if !seen[uint16(n)] {
				c.Fail("services", "service %d, %s, is not listed", n, name)
			}
		}
		if got := s.GetType("no " + genText(r, 5)); got != nil {
			c.Fail("services", "an unknown service is looked up as %+v", got)
		}
	})
	c.Guard("text", "APDU", func() {
		for k := 0; k < 256; k++ {
			a := btypes.APDU{DataType: btypes.PDUType(k)}
			if a.IsConfirmedServiceRequest() != (k>>4 == 0) {
				c.Fail("text", "an APDU of type %#x is a confirmed request: %v", k, a.IsConfirmedServiceRequest())
			}
			s := btypes.ServiceConfirmed(k)
			if t := s.String(); !hasNumber(t, uint32(k)) && fold(t) == "unknown" {
				c.Fail("text", "the confirmed service %d is shown as %q", k, t)
			}
		}
	})
}

// printed prints results
func (c *C) printed(r *rand.Rand) {
	var m btypes.MultiplePropertyData
	var want []string // in this order
	unique := 1000000 + r.Intn(1000)
	for k := r.Intn(4); k > 0; k-- {
		o := btypes.Object{ID: libObj(genObj(r))}
		want = append(want, o.ID.String())
		for j := r.Intn(4); j > 0; j-- {
			p := btypes.Property{Type: btypes.PropertyType(genPropID(r)), ArrayIndex: genIndex(r)}
			unique++
			switch r.Intn(4) {
			case 0:
				p.Data = uint32(unique)
			case 1:
				p.Data = fmt.Sprintf("text %d", unique)
			case 2:
				p.Data = []interface{}{uint32(unique), "x"}
			case 3:
				p.Data = int32(-unique)
			}
			o.Properties = append(o.Properties, p)
			want = append(want, btypes.String(p.Type), fmt.Sprint(p.ArrayIndex), fmt.Sprint(unique))
		}
		m.Objects = append(m.Objects, o)
	}
	c.Guard("print", fmt.Sprintf("%+v", m.Objects), func() {
		s := m.String()
		c.Eval(s)
		rest := s
		for _, x := range want {
			i := strings.Index(rest, x)
			if i < 0 {
				c.Fail("print", "%+v is printed as %q, which does not show %q in its place", m.Objects, s, x)
				return
			}
			rest = rest[i+len(x):]
		}
	})
	c.Count("printed results", 1)
}
