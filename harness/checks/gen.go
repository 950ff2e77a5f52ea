package checks

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
	"verif/harness/ref"
)

// widths are the numbers at which an unsigned changes its length, and their neighbours
var widths = []uint32{0, 1, 2, 84, 85, 86, 127, 128, 129, 253, 254, 255, 256, 257, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000, 0x10001,
	0x7fffff, 0x800000, 0xfffffe, 0xffffff, 0x1000000, 0x1000001, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}

func genUint(r *rand.Rand) uint32 {
	switch r.Intn(4) {
	case 0:
		return widths[r.Intn(len(widths))]
	case 1:
		return uint32(r.Intn(300))
	default:
		return r.Uint32() >> uint(r.Intn(32))
	}
}

func genInt(r *rand.Rand) int32 {
	switch r.Intn(3) {
	case 0:
		k := uint(r.Intn(32))
		v := int64(1)<<k + int64(r.Intn(3)) - 1
		if r.Intn(2) == 0 {
			v = -v
		}
		return int32(v)
	case 1:
		return int32(r.Intn(600) - 300)
	default:
		return int32(r.Uint32()) >> uint(r.Intn(32))
	}
}

func genF32(r *rand.Rand) float32 {
	switch r.Intn(4) {
	case 0:
		return []float32{0, float32(math.Copysign(0, -1)), 1, -1, math.MaxFloat32, math.SmallestNonzeroFloat32,
			float32(math.Inf(1)), float32(math.Inf(-1)), 21.5, -0.1}[r.Intn(10)]
	case 1:
		return float32(r.Intn(20000)-10000) / 8
	}
	for {
		f := math.Float32frombits(r.Uint32())
		if f == f { // signalling NaNs may change on their way
			return f
		}
	}
}

func genF64(r *rand.Rand) float64 {
	if r.Intn(3) == 0 {
		return []float64{0, math.Copysign(0, -1), 1, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.Pi}[r.Intn(8)]
	}
	for {
		f := math.Float64frombits(r.Uint64())
		if f == f {
			return f
		}
	}
}

// genLen prefers the lengths at which the length field changes
func genLen(r *rand.Rand, big bool) int {
	switch r.Intn(8) {
	case 0:
		return []int{0, 1, 2, 3, 4, 5, 251, 252, 253, 254, 255, 256}[r.Intn(12)]
	case 1:
		if big {
			return []int{65530, 65533, 65534, 65535, 65536, 65537, 70000}[r.Intn(7)]
		}
		return 240 + r.Intn(40)
	case 2:
		return r.Intn(1400)
	default:
		return r.Intn(24)
	}
}

// genText is valid text of n octets
func genText(r *rand.Rand, n int) string {
	var b strings.Builder
	ascii := r.Intn(2) == 0
	for b.Len() < n {
		c := rune(1 + r.Intn(126))
		if !ascii {
			c = []rune{'é', 'ß', '中', '\U0001F600', '°', 'a', 0, 0x7ff, 0x800, 0xffff, 0x10ffff}[r.Intn(11)]
		}
		if b.Len()+len(string(c)) > n {
			c = 'x'
		}
		b.WriteRune(c)
	}
	return b.String()
}

// genLabel is text, a long one now and then
func genLabel(r *rand.Rand) string {
	if r.Intn(6) == 0 {
		return genText(r, []int{60, 63, 64, 65, 127, 128, 200, 250, 251, 252, 253, 254, 255, 256, 300, 40 + r.Intn(400)}[r.Intn(16)])
	}
	return genText(r, r.Intn(40))
}

// genUCS2 is text of n characters that UCS-2 can carry
func genUCS2(r *rand.Rand, n int) string {
	rs := make([]rune, n)
	for i := range rs {
		for {
			rs[i] = rune(r.Intn(0x10000))
			if r.Intn(2) == 0 {
				rs[i] = rune(r.Intn(300))
			}
			if i == 0 && r.Intn(8) == 0 { // no byte order mark here
				rs[i] = []rune{0xfeff, 0xfffe, 0xffff, 0}[r.Intn(4)]
			}
			if rs[i] < 0xd800 || rs[i] > 0xdfff {
				break
			}
		}
	}
	return string(rs)
}

func genObj(r *rand.Rand) ref.ObjID {
	o := ref.ObjID{Type: uint16(r.Intn(1024)), Instance: uint32(r.Intn(1 << 22))}
	if r.Intn(2) == 0 {
		o.Type = []uint16{0, 1, 2, 3, 4, 5, 8, 13, 14, 19, 127, 128, 255, 256, 1022, 1023}[r.Intn(16)]
	}
	if r.Intn(2) == 0 {
		o.Instance = []uint32{0, 1, 2, 255, 256, 65535, 65536, 4194301, 4194302, 4194303}[r.Intn(10)]
	}
	return o
}

func genPropID(r *rand.Rand) uint32 {
	switch r.Intn(3) {
	case 0:
		return []uint32{0, 28, 76, 77, 85, 87, 127, 128, 255, 256, 511, 512, 65535, 65536, 4194302, 4194303}[r.Intn(16)]
	case 1:
		return uint32(r.Intn(600))
	}
	return uint32(r.Intn(1 << uint(1+r.Intn(22))))
}

func genIndex(r *rand.Rand) uint32 {
	switch r.Intn(3) {
	case 0:
		return ref.ArrayAll
	case 1:
		return []uint32{0, 1, 2, 255, 256, 65535, 65536, 0xffffff, 0x1000000, 0xfffffffe}[r.Intn(10)]
	}
	v := genUint(r)
	if v == ref.ArrayAll {
		v = 0
	}
	return v
}

func genBits(r *rand.Rand) ref.Bits {
	n := r.Intn(121)
	if r.Intn(3) == 0 {
		n = []int{0, 1, 7, 8, 9, 15, 16, 17, 112, 119, 120}[r.Intn(11)]
	}
	b := make(ref.Bits, n)
	for i := range b {
		b[i] = r.Intn(2) == 0
	}
	return b
}

func genOctets(r *rand.Rand, n int) ref.Octets {
	b := make(ref.Octets, n)
	r.Read(b)
	return b
}

// genValue is a value of any primitive type
func genValue(r *rand.Rand, big bool) any {
	switch r.Intn(15) {
	case 0:
		return ref.Null{}
	case 1:
		return r.Intn(2) == 0
	case 2, 13:
		return ref.Uint(genUint(r))
	case 3:
		return ref.Int(genInt(r))
	case 4, 14:
		return genF32(r)
	case 5:
		return genF64(r)
	case 6:
		return genOctets(r, genLen(r, big))
	case 7:
		return ref.Str(genText(r, genLen(r, big)))
	case 8:
		n := genLen(r, false)
		if big && r.Intn(20) == 0 {
			n = 32760 + r.Intn(20)
		}
		return ref.Str2(genUCS2(r, n))
	case 9:
		return genBits(r)
	case 10:
		return ref.Enum(genUint(r))
	case 11:
		return ref.Date{Year: uint8(r.Intn(256)), Month: uint8(r.Intn(256)), Day: uint8(r.Intn(256)), Dow: uint8(r.Intn(256))}
	default:
		switch r.Intn(2) {
		case 0:
			return ref.Time{H: uint8(r.Intn(256)), M: uint8(r.Intn(256)), S: uint8(r.Intn(256)), Hs: uint8(r.Intn(256))}
		}
		return genObj(r)
	}
}

// genWritable is a value that the library can encode, and the same as ref knows it
func genWritable(r *rand.Rand, big bool) (any, any) {
	var v any
	switch r.Intn(9) {
	case 0:
		v = ref.Null{}
	case 1:
		v = r.Intn(2) == 0
	case 2:
		v = ref.Uint(genUint(r))
	case 3:
		v = ref.Int(genInt(r))
	case 4:
		v = genF32(r)
	case 5:
		v = genF64(r)
	case 6:
		v = ref.Str(genText(r, genLen(r, big)))
	case 7:
		v = ref.Enum(genUint(r))
	default:
		v = genObj(r)
	}
	return toLib(v), v
}

// toLib is the Go value with which a caller hands v to the library
func toLib(v any) any {
	switch x := v.(type) {
	case ref.Null:
		return null.Null{}
	case ref.Uint:
		return uint32(x)
	case ref.Int:
		return int32(x)
	case ref.Str:
		return string(x)
	case ref.Str2:
		return string(x)
	case ref.Enum:
		return btypes.Enumerated(x)
	case ref.ObjID:
		return btypes.ObjectID{Type: btypes.ObjectType(x.Type), Instance: btypes.ObjectInstance(x.Instance)}
	}
	return v
}

func libObj(o ref.ObjID) btypes.ObjectID { return toLib(o).(btypes.ObjectID) }

// same reports whether the library decoded v as got
func same(got, v any) bool {
	switch x := v.(type) {
	case ref.Null:
		_, ok := got.(null.Null)
		return ok
	case bool:
		g, ok := got.(bool)
		return ok && g == x
	case ref.Uint:
		g, ok := got.(uint32)
		return ok && g == uint32(x)
	case ref.Enum:
		switch g := got.(type) {
		case uint32:
			return g == uint32(x)
		case btypes.Enumerated:
			return uint32(g) == uint32(x)
		}
		return false
	case ref.Int:
		g, ok := got.(int32)
		return ok && g == int32(x)
	case float32:
		g, ok := got.(float32)
		return ok && (math.Float32bits(g) == math.Float32bits(x) || g != g && x != x)
	case float64:
		g, ok := got.(float64)
		return ok && (math.Float64bits(g) == math.Float64bits(x) || g != g && x != x)
	case ref.Octets:
		g, ok := got.([]byte)
		return ok && bytes.Equal(g, x)
	case ref.Str:
		g, ok := got.(string)
		return ok && g == string(x)
	case ref.Str2:
		g, ok := got.(string)
		return ok && g == string(x)
	case ref.Bits:
		g, ok := got.(*btypes.BitString)
		if !ok || g == nil || int(g.GetBitUsed()) != len(x) {
			return false
		}
		for i, b := range x {
			if g.Bit(uint8(i)) != b {
				return false
			}
		}
		l := g.GetValue()
		if len(l) != len(x) {
			return false
		}
		for i, b := range x {
			if l[i] != b {
				return false
			}
		}
		return true
	case ref.Date:
		g, ok := got.(btypes.Date)
		y := int(x.Year) + 1900
		if x.Year == 255 {
			y = 255
		}
		return ok && g.Year == y && g.Month == int(x.Month) && g.Day == int(x.Day) && int(g.DayOfWeek) == int(x.Dow)
	case ref.Time:
		g, ok := got.(btypes.Time)
		return ok && g.Hour == int(x.H) && g.Minute == int(x.M) && g.Second == int(x.S) && g.Millisecond == int(x.Hs)*10
	case ref.ObjID:
		g, ok := got.(btypes.ObjectID)
		return ok && g == libObj(x)
	case ref.DateTime:
		g, ok := got.(*btypes.DataTime)
		return ok && g != nil && same(g.Date, x.Date) && same(g.Time, x.Time)
	}
	panic(fmt.Sprintf("same: %T", v))
}

// sameData compares what an acknowledgement was decoded to with the values it carries
func sameData(got any, vals []any) bool {
	if len(vals) == 1 {
		return same(got, vals[0])
	}
	l, ok := got.([]interface{})
	if !ok || len(l) != len(vals) {
		return false
	}
	for i := range l {
		if !same(l[i], vals[i]) {
			return false
		}
	}
	return true
}

// show writes a value so that long ones stay readable
func show(v any) string {
	s := fmt.Sprintf("%T %v", v, v)
	if b, ok := v.(*btypes.BitString); ok && b != nil {
		s = fmt.Sprintf("bits %v", b.GetValue())
	}
	if len(s) > 300 {
		s = fmt.Sprintf("%s... (%d)", s[:300], len(s))
	}
	return s
}

func hexs(b []byte) string {
	if len(b) > 120 {
		return fmt.Sprintf("% x ... (%d octets)", b[:120], len(b))
	}
	return fmt.Sprintf("% x", b)
}

func isNilPtr(v any) bool {
	rv := reflect.ValueOf(v)
	return rv.Kind() == reflect.Ptr && rv.IsNil()
}

// ---- errors that name a class and a code

var classNames = []string{"device", "object", "property", "resources", "security", "services", "vt", "communication"}
var codeNames = []string{"other", "authenticationfailed", "configurationinprogress", "devicebusy", "dynamiccreationnotsupported", "fileaccessdenied",
	"incompatiblesecuritylevels", "inconsistentparameters", "inconsistentselectioncriterion", "invaliddatatype", "invalidfileaccessmethod",
	"invalidfilestartposition", "invalidoperatorname", "invalidparameterdatatype", "invalidtimestamp", "keygenerationerror", "missingrequiredparameter",
	"noobjectsofspecifiedtype", "nospaceforobject", "nospacetoaddlistelement", "nospacetowriteproperty", "novtsessionsavailable", "propertyisnotalist",
	"objectdeletionnotpermitted", "objectidentifieralreadyexists", "operationalproblem", "passwordfailure", "readaccessdenied", "securitynotsupported",
	"servicerequestdenied", "timeout", "unknownobject", "unknownproperty", "-", "unknownvtclass", "unknownvtsession", "unsupportedobjecttype",
	"valueoutofrange", "vtsessionalreadyclosed", "vtsessionterminationfailure", "writeaccessdenied", "charactersetnotsupported", "invalidarrayindex",
	"covsubscriptionfailed", "notcovproperty", "optionalfunctionalitynotsupported", "invalidconfigurationdata", "datatypenotsupported", "duplicatename",
	"duplicateobjectid", "propertyisnotanarray"}

var nonAlnum = regexp.MustCompile(`[^a-z0-9]+`)
var digits = regexp.MustCompile(`\d+`)

func hasNumber(s string, n uint32) bool {
	for _, d := range digits.FindAllString(s, -1) {
		if d == strconv.FormatUint(uint64(n), 10) {
			return true
		}
	}
	// also in hexadecimal
	return strings.Contains(s, fmt.Sprintf("0x%x", n)) || strings.Contains(s, fmt.Sprintf("0x%02x", n))
}

func names(s string, n uint32, list []string) bool {
	if hasNumber(s, n) {
		return true
	}
	return int(n) < len(list) && strings.Contains(nonAlnum.ReplaceAllString(s, ""), list[n])
}

// namesError reports whether the message names the class and the code, by number or by name
func namesError(err error, class, code uint32) bool {
	s := strings.ToLower(err.Error())
	// when the message says which is which, it has to be right
	if i := strings.LastIndex(s, "class"); i >= 0 {
		if j := strings.Index(s[i:], "code"); j >= 0 {
			ci := strings.Index(s, "class")
			return names(s[ci:i+j], class, classNames) && names(s[i+j:], code, codeNames)
		}
	}
	return names(s, class, classNames) && names(s, code, codeNames)
}

// genError is an error class and code: of the standard or proprietary
func genError(r *rand.Rand) (uint32, uint32) {
	class := uint32(r.Intn(8))
	if r.Intn(5) == 0 {
		class = []uint32{64, 100, 255, 256, 1000, 65535}[r.Intn(6)]
	}
	code := uint32(r.Intn(len(codeNames)))
	if code == 33 {
		code = 32
	}
	if r.Intn(4) == 0 {
		code = []uint32{256, 257, 1000, 65535, 70000}[r.Intn(5)]
	}
	return class, code
}
