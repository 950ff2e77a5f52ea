package checks

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"

	"github.com/NubeDev/bacnet/encoding"
	"verif/harness/ref"
)

func init() {
	register("C02", "octets made by an independent encoder, in every legal form, decoded by the library: the value, the error and the octets left are compared; malformed encodings must be errors", runC02)
}

// contentOf splits an encoding made with the shortest length into the tag number and the content
func contentOf(v any) (int, []byte) {
	b := ref.App(v)
	n := int(b[0] >> 4)
	switch l := b[0] & 7; {
	case l < 5:
		return n, b[1:]
	case b[1] == 254:
		return n, b[4:]
	case b[1] == 255:
		return n, b[6:]
	default:
		return n, b[2:]
	}
}

func runC02(c *C) {
	c.Need("value", "form", "sequence", "padded", "bad length", "cut short", "bad tag", "bad charset", "exhaustive")
	decode := func(b, tail []byte, v any, what string) {
		in := append(append([]byte{}, b...), tail...)
		c.Guard("AppData", "decoding "+hexs(in), func() {
			d := encoding.NewDecoder(in)
			got, err := d.AppData()
			if err != nil {
				c.Fail("refused", "%s %s: %s is refused: %v", what, show(v), hexs(in), err)
			} else if !same(got, v) {
				c.Fail("value", "%s: %s is decoded as %s, want %s", what, hexs(in), show(got), show(v))
			} else if !bytes.Equal(d.Bytes(), tail) {
				c.Fail("rest", "%s %s: %s leaves %s, want %s", what, show(v), hexs(in), hexs(d.Bytes()), hexs(tail))
			}
		})
	}
	fails := func(in []byte, what string) {
		c.Guard("AppData", "decoding "+hexs(in), func() {
			d := encoding.NewDecoder(in)
			got, err := d.AppData()
			if err == nil {
				c.Fail("accepted", "%s: %s is decoded as %s without an error", what, hexs(in), show(got))
			}
		})
	}
	tailOf := func(r *rand.Rand) []byte {
		t := make([]byte, r.Intn(9))
		r.Read(t)
		return t
	}
	c.Loop(0, 256, func(i int, r *rand.Rand) {
		// every content of one and two octets and a part of those of three
		for j := 0; j < 256; j++ {
			u := uint32(i<<8 | j)
			two := []byte{byte(i), byte(j)}
			decode(append([]byte{0x22}, two...), []byte{0xff}, ref.Uint(u), "unsigned")
			decode(append([]byte{0x32}, two...), []byte{0x7f}, ref.Int(int16(u)), "signed")
			decode(append([]byte{0x92}, two...), []byte{0x05}, ref.Enum(u), "enumerated")
			x := byte(r.Intn(256))
			three := append([]byte{x}, two...)
			decode(append([]byte{0x23}, three...), []byte{1}, ref.Uint(uint32(x)<<16|u), "unsigned")
			decode(append([]byte{0x33}, three...), []byte{1}, ref.Int(int32(uint32(x)<<24|u<<8)>>8), "signed")
			decode(append([]byte{0x93}, three...), []byte{1}, ref.Enum(uint32(x)<<16|u), "enumerated")
		}
		decode([]byte{0x21, byte(i)}, []byte{0}, ref.Uint(i), "unsigned")
		decode([]byte{0x31, byte(i)}, []byte{0xff}, ref.Int(int8(i)), "signed")
		decode([]byte{0x91, byte(i)}, []byte{0}, ref.Enum(i), "enumerated")
		decode(ref.App(ref.Date{Year: uint8(i), Month: 1, Day: 2, Dow: 3}), []byte{0}, ref.Date{Year: uint8(i), Month: 1, Day: 2, Dow: 3}, "date")
		decode(ref.App(ref.Time{H: 1, M: 2, S: 3, Hs: uint8(i)}), []byte{0}, ref.Time{H: 1, M: 2, S: 3, Hs: uint8(i)}, "time")
		c.Count("exhaustive", 256*6+5)
		c.Eval(fmt.Sprintf("all contents of two octets that begin with %#x", i))
	})
	c.Loop(900, 2, func(i int, r *rand.Rand) {
		if i == 0 {
			decode([]byte{0x44, 0x7f, 0xc0, 0, 0}, []byte{1}, float32(math.NaN()), "no number")
			decode([]byte{0x44, 0xff, 0xc0, 0, 0}, []byte{1}, math.Float32frombits(0xffc00000), "no number")
		} else {
			decode([]byte{0x55, 8, 0x7f, 0xf8, 0, 0, 0, 0, 0, 1}, []byte{1}, math.NaN(), "no number")
		}
		c.Count("value", 1)
		c.Eval(fmt.Sprint("no number ", i))
	})
	// bit strings of every length
	c.Loop(1000, 121, func(i int, r *rand.Rand) {
		for k := 0; k < 40; k++ {
			b := make(ref.Bits, i)
			for j := range b {
				b[j] = k == 0 || k > 1 && r.Intn(2) == 0
			}
			decode(ref.App(b), tailOf(r), b, "bits")
		}
		c.Count("value", 40)
		c.Eval(fmt.Sprintf("bit strings of %d bits", i))
	})
	c.Loop(20000000, c.N(600000, 10000000), func(i int, r *rand.Rand) {
		v := genValue(r, i%100 == 0)
		tail := tailOf(r)
		decode(ref.App(v), tail, v, "value")
		if _, ok := v.(bool); !ok {
			num, content := contentOf(v)
			f := []ref.LenForm{ref.Ext8, ref.Ext16, ref.Ext32}[r.Intn(3)]
			if f == ref.Ext8 && len(content) > 253 {
				f = ref.Ext16
			}
			if f == ref.Ext16 && len(content) > 65535 {
				f = ref.Ext32
			}
			decode(ref.Cat(ref.Tag(num, false, len(content), f), content), tail, v, fmt.Sprintf("length form %d", f))
			c.Count("form", 1)
			// numbers with more octets than they need
			if num == 2 || num == 3 || num == 9 {
				fill := byte(0)
				if num == 3 && content[0] >= 0x80 {
					fill = 0xff
				}
				for n := len(content) + 1; n <= 4; n++ {
					p := append(bytes.Repeat([]byte{fill}, n-len(content)), content...)
					decode(ref.Cat(ref.Tag(num, false, n, ref.Short), p), tail, v, "padded")
					c.Count("padded", 1)
				}
			}
		}
		c.Count("value", 1)
		c.Eval(show(v))
	})
	c.Loop(40000000, c.N(60000, 1500000), func(i int, r *rand.Rand) {
		var in []byte
		var vs []any
		desc := ""
		for k := 1 + r.Intn(14); k > 0; k-- {
			v := genValue(r, false)
			vs = append(vs, v)
			in = append(in, ref.App(v)...)
			desc += show(v) + "; "
		}
		c.Guard("AppData", "decoding a sequence", func() {
			d := encoding.NewDecoder(in)
			for k, v := range vs {
				got, err := d.AppData()
				if err != nil || !same(got, v) {
					c.Fail("sequence", "value %d of %s (%s) is decoded as %s, %v", k, desc, hexs(in), show(got), err)
					return
				}
			}
			if len(d.Bytes()) != 0 {
				c.Fail("sequence", "%s leaves %s", desc, hexs(d.Bytes()))
			}
		})
		c.Count("sequence", 1)
		c.Eval("sequence: " + desc)
	})
	// lengths that do not fit the type
	fits := map[int]func(n int) bool{0: func(n int) bool { return n == 0 }, 2: func(n int) bool { return n >= 1 && n <= 4 }, 3: func(n int) bool { return n >= 1 && n <= 4 },
		4: func(n int) bool { return n == 4 }, 5: func(n int) bool { return n == 8 }, 7: func(n int) bool { return n >= 1 }, 8: func(n int) bool { return n >= 1 && n <= 16 },
		9: func(n int) bool { return n >= 1 && n <= 4 }, 10: func(n int) bool { return n == 4 }, 11: func(n int) bool { return n == 4 }, 12: func(n int) bool { return n == 4 }}
	c.Loop(6000000, 13*40, func(i int, r *rand.Rand) {
		num, n := i%13, i/13
		ok := fits[num]
		if ok == nil || ok(n) {
			return
		}
		for f := ref.Short; f <= ref.Ext32; f++ {
			for k := 0; k < 8; k++ {
				content := make([]byte, n+20) // enough follows
				if k > 0 {
					r.Read(content)
				}
				fails(ref.Cat(ref.Tag(num, false, n, f), content), fmt.Sprintf("tag %d of %d octets", num, n))
				c.Count("bad length", 1)
			}
		}
		c.Eval(fmt.Sprintf("tag %d with %d octets", num, n))
	})
	// far too long, for the types of a fixed size
	c.Loop(6100000, 13, func(i int, r *rand.Rand) {
		if fits[i] == nil || i == 7 {
			return
		}
		for _, n := range []int{64, 65, 128, 253, 254, 256, 257, 260, 512, 65536, 65537, 65540, 1 << 20} {
			content := make([]byte, n)
			r.Read(content)
			fails(ref.Cat(ref.Tag(i, false, n, ref.Short), content), fmt.Sprintf("tag %d of %d octets", i, n))
			c.Count("bad length", 1)
		}
		c.Eval(fmt.Sprintf("tag %d, very long", i))
	})
	c.Loop(6200000, 256, func(i int, r *rand.Rand) {
		if i != 0 && i != 4 {
			for k := 0; k < 6; k++ {
				text := make([]byte, 2*r.Intn(10))
				r.Read(text)
				fails(ref.Cat(ref.Tag(7, false, 1+len(text), ref.Short), []byte{byte(i)}, text), fmt.Sprintf("character set %d", i))
			}
			c.Count("bad charset", 6)
			c.Eval(fmt.Sprintf("character set %d", i))
		}
		if i >= 13 {
			for n := 0; n < 12; n++ {
				fails(ref.Cat(ref.Tag(i, false, n, ref.Short), make([]byte, 20)), fmt.Sprintf("tag %d", i))
			}
			c.Count("bad tag", 12)
			c.Eval(fmt.Sprintf("tag %d", i))
		}
	})
	// every proper beginning of an encoding
	c.Loop(50000000, c.N(40000, 1000000), func(i int, r *rand.Rand) {
		v := genValue(r, false)
		form := ref.LenForm(r.Intn(4))
		if _, content := contentOf0(v); form == ref.Ext8 && len(content) > 253 {
			form = ref.Ext16
		}
		b := ref.AppForm(v, form)
		n := len(b)
		for k := 0; k < n && k < 40; k++ {
			fails(b[:k:k], "cut short: "+show(v))
		}
		for k := 0; k < 10 && n > 40; k++ {
			cut := 40 + r.Intn(n-40)
			fails(b[:cut:cut], "cut short: "+show(v))
		}
		if n > 1 {
			fails(b[:n-1:n-1], "cut short: "+show(v))
			c.Count("cut short", 1)
		}
		// half a character
		if s, ok := v.(ref.Str2); ok && len(s) > 0 {
			_, content := contentOf(v)
			content = content[:len(content)-1]
			fails(ref.Cat(ref.Tag(7, false, len(content), ref.Short), content), "half a character")
			c.Count("half a character", 1)
		}
		c.Eval("beginnings of " + show(v))
	})
}

func contentOf0(v any) (int, []byte) {
	if _, ok := v.(bool); ok {
		return 1, nil
	}
	return contentOf(v)
}
