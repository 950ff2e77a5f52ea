package checks

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
	"verif/harness/ref"
)

func init() {
	register("C01", "a value (or a sequence of values) encoded by the library and compared octet by octet with an independent encoder; all distinct values count, errors count when a value cannot be represented", runC01)
}

func runC01(c *C) {
	c.Need("value", "sequence", "refused", "binary point", "exhaustive")
	one := func(v any, binary bool) {
		want := ref.App(v)
		if u, ok := v.(ref.Uint); ok && binary {
			want = ref.App(ref.Enum(u))
		}
		c.Guard("AppData", "AppData("+show(v)+")", func() {
			e := encoding.NewEncoder()
			err := e.AppData(toLib(v), binary)
			if err != nil || e.Error() != nil {
				c.Fail("refused", "AppData(%s, %v) is refused: %v %v", show(v), binary, err, e.Error())
			} else if !bytes.Equal(e.Bytes(), want) {
				c.Fail("octets", "AppData(%s, %v) = %s, want %s", show(v), binary, hexs(e.Bytes()), hexs(want))
			}
		})
	}
	// every value up to 2^17 and those around each width
	step := 4096
	total := c.N(1<<20, 1<<24)
	c.Loop(0, total/step, func(i int, r *rand.Rand) {
		for u := i * step; u < (i+1)*step; u++ {
			one(ref.Uint(u), false)
			one(ref.Uint(u), true)
			one(ref.Enum(u), false)
			one(ref.Int(u), false)
			one(ref.Int(-u-1), false)
		}
		c.Count("exhaustive", 5*step)
		c.Count("binary point", step)
		c.Eval(fmt.Sprintf("all unsigned, enumerated and signed values of magnitude %d to %d", i*step, (i+1)*step))
	})
	c.Loop(100000, 64, func(i int, r *rand.Rand) {
		for d := -70; d <= 70; d++ {
			u := uint32(1)<<(i%32) + uint32(d)
			one(ref.Uint(u), i < 32)
			one(ref.Enum(u), false)
			one(ref.Int(int32(u)), false)
			one(ref.Int(-int32(u)), false)
		}
		c.Count("value", 4*141)
		c.Eval(fmt.Sprintf("values around 2^%d, binary %v", i%32, i < 32))
	})
	c.Loop(190000, 2, func(i int, r *rand.Rand) {
		if i == 0 {
			one(float32(math.NaN()), false)
		} else {
			one(math.NaN(), false)
		}
		c.Count("value", 1)
		c.Eval(fmt.Sprint("no number ", i))
	})
	// text at every length up to 600 and around 2^16
	lens := []int{}
	for n := 0; n <= 600; n++ {
		lens = append(lens, n)
	}
	for n := 65520; n <= 65550; n++ {
		lens = append(lens, n)
	}
	lens = append(lens, 70000, 131071, 200000)
	c.Loop(200000, len(lens), func(i int, r *rand.Rand) {
		one(ref.Str(genText(r, lens[i])), false)
		c.Count("value", 1)
		c.Eval(fmt.Sprintf("text of %d octets", lens[i]))
	})
	c.Loop(20000000, c.N(600000, 10000000), func(i int, r *rand.Rand) {
		_, v := genWritable(r, i%50 == 0)
		one(v, false)
		if u := ref.Uint(genUint(r)); i%4 == 0 {
			one(u, true)
			c.Count("binary point", 1)
		}
		if i%4 == 1 {
			one(ref.Null{}, true)
		}
		c.Count("value", 1)
		c.Eval(show(v))
	})
	// one encoder, many values
	c.Loop(40000000, c.N(80000, 2000000), func(i int, r *rand.Rand) {
		e := encoding.NewEncoder()
		var want []byte
		var desc string
		c.Guard("AppData", "a sequence", func() {
			for k := r.Intn(12); k >= 0; k-- {
				g, v := genWritable(r, false)
				want = append(want, ref.App(v)...)
				desc += show(v) + "; "
				if err := e.AppData(g, false); err != nil {
					c.Fail("refused", "AppData(%s) is refused in a sequence: %v", show(v), err)
				}
			}
		})
		if !bytes.Equal(e.Bytes(), want) {
			c.Fail("sequence", "the sequence %s is encoded as %s, want %s", desc, hexs(e.Bytes()), hexs(want))
		}
		c.Count("sequence", 1)
		c.Eval("sequence: " + desc)
	})
	// what cannot be represented
	type myUint uint32
	bad := []any{nil, struct{}{}, make(chan int), complex(1, 2), []int{1}, map[string]int{}, func() {}, int(1), int64(-1), uint64(1), uint8(1), int16(1),
		uint(7), [2]byte{1, 2}, &struct{ X int }{1}, myUint(4), []interface{}{uint32(1)}}
	c.Loop(50000000, c.N(60000, 1000000), func(i int, r *rand.Rand) {
		var v any
		binary := false
		switch i % 4 {
		case 0:
			v = bad[r.Intn(len(bad))]
			binary = r.Intn(3) == 0
		case 1:
			v = btypes.ObjectID{Type: btypes.ObjectType(1024 + r.Intn(65536-1024)), Instance: btypes.ObjectInstance(r.Intn(1 << 22))}
			if r.Intn(3) == 0 {
				v = btypes.ObjectID{Type: 1024}
			}
		case 2:
			v = btypes.ObjectID{Type: btypes.ObjectType(r.Intn(1024)), Instance: btypes.ObjectInstance(uint64(4194304) + uint64(r.Uint32()>>uint(r.Intn(10)))%(1<<32-4194304))}
			if r.Intn(3) == 0 {
				v = btypes.ObjectID{Instance: 4194304}
			}
		default:
			binary = true
			for {
				_, x := genWritable(r, false)
				switch x.(type) {
				case ref.Uint, ref.Null, ref.Enum:
					continue
				}
				v = toLib(x)
				break
			}
		}
		c.Guard("AppData", "AppData("+show(v)+")", func() {
			e := encoding.NewEncoder()
			err := e.AppData(v, binary)
			if err == nil && e.Error() == nil {
				c.Fail("accepted", "AppData(%s, %v) is accepted as %s", show(v), binary, hexs(e.Bytes()))
			}
		})
		c.Count("refused", 1)
		c.Eval("refuse " + show(v))
	})
}
