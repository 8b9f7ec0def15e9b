// Driver of the built-in conversions of convx (C13).
package main

import (
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"strings"

	"github.com/unsafe-risk/utilx/typex/convx"
	"verifharness/seqlib"
)

type sys struct{}

var missing = map[string]any{"k": "missing"}

func rec(k string, neg bool, m []int, e int) map[string]any {
	if m == nil {
		m = []int{}
	}
	return map[string]any{"k": k, "neg": neg, "m": m, "e": e}
}

// fromBig is (-1)^neg * n * 2^e.
func fromBig(neg bool, n *big.Int, e int) map[string]any {
	if n.Sign() == 0 {
		return rec("num", false, nil, 0)
	}
	n = new(big.Int).Set(n)
	for n.Bit(0) == 0 {
		n.Rsh(n, 1)
		e++
	}
	var m []int
	for i := n.BitLen() - 1; i >= 0; i-- {
		m = append(m, int(n.Bit(i)))
	}
	return rec("num", neg, m, e)
}

func enc(v any) map[string]any {
	switch x := v.(type) {
	case bool:
		return rec("bool", x, nil, 0)
	case string:
		return rec("text", false, bytesOf([]byte(x)), 0)
	case []byte:
		return rec("bytes", false, bytesOf(x), 0)
	case []rune:
		r := []int{}
		for _, c := range x {
			r = append(r, int(c))
		}
		return rec("runes", false, r, 0)
	}
	r := reflect.ValueOf(v)
	switch {
	case r.CanInt():
		n := big.NewInt(r.Int())
		return fromBig(n.Sign() < 0, new(big.Int).Abs(n), 0)
	case r.CanUint():
		return fromBig(false, new(big.Int).SetUint64(r.Uint()), 0)
	}
	f := r.Float()
	if math.IsInf(f, 0) {
		return rec("inf", f < 0, nil, 0)
	}
	if f != f {
		return rec("nan", false, nil, 0)
	}
	fr, e := math.Frexp(math.Abs(f))
	return fromBig(f < 0, new(big.Int).SetUint64(uint64(fr*(1<<53))), e-53)
}

func bytesOf(b []byte) []int {
	r := []int{}
	for _, c := range b {
		r = append(r, int(c))
	}
	return r
}

type number interface {
	~int8 | ~int16 | ~int32 | ~int64 | ~int | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uint | ~float32 | ~float64
}

func decode(o seqlib.Op) (k string, neg bool, m []int, e int) {
	switch v := o["v"].(type) {
	case map[string]any:
		p := seqlib.Op(v)
		return p.S("k"), p.B("neg"), p.Is("m"), p.I("e")
	}
	panic("value")
}

func mag(m []int) *big.Int {
	n := new(big.Int)
	for _, b := range m {
		n.Lsh(n, 1)
		n.Or(n, big.NewInt(int64(b)))
	}
	return n
}

func num[T number](o seqlib.Op) T {
	k, neg, m, e := decode(o)
	var z T
	if reflect.ValueOf(z).CanFloat() {
		switch k {
		case "inf":
			if neg {
				return T(math.Inf(-1))
			}
			return T(math.Inf(1))
		case "nan":
			return T(math.NaN())
		}
		f, _ := new(big.Float).SetInt(mag(m)).Float64()
		f = math.Ldexp(f, e)
		if neg {
			f = -f
		}
		if enc(T(f))["k"] != "num" {
			panic("value out of range")
		}
		return T(f)
	}
	n := new(big.Int).Lsh(mag(m), uint(e))
	if neg {
		n.Neg(n)
	}
	if n.IsInt64() {
		return T(n.Int64())
	}
	return T(n.Uint64())
}

func text(o seqlib.Op) string { return string(raw(o)) }
func raw(o seqlib.Op) []byte {
	_, _, m, _ := decode(o)
	b := make([]byte, len(m))
	for i, c := range m {
		b[i] = byte(c)
	}
	return b
}
func runes(o seqlib.Op) []rune {
	_, _, m, _ := decode(o)
	b := make([]rune, len(m))
	for i, c := range m {
		b[i] = rune(c)
	}
	return b
}
func boolean(o seqlib.Op) bool { _, neg, _, _ := decode(o); return neg }

var bad = map[string]any{"k": "inconsistent"}

// conv converts and checks that Exists, Into and IntoOr agree.
func conv[T, R any](v T, or R) any {
	in := enc(v)
	r, ok := convx.Into[T, R](v)
	if !ok || !convx.Exists[T, R]() {
		return missing
	}
	a, b := enc(r), enc(convx.IntoOr[T, R](v, or))
	if !reflect.DeepEqual(a, b) || !reflect.DeepEqual(in, enc(v)) {
		return bad
	}
	// a text made from bytes or runes is a value of its own
	switch x := any(v).(type) {
	case []byte:
		for i := range x {
			x[i]++
		}
	case []rune:
		for i := range x {
			x[i]++
		}
	}
	if _, ok := any(r).(string); ok {
		a = enc(r)
	}
	return a
}

func trip[T, R any](v T) any {
	r, ok := convx.Into[T, R](v)
	if !ok {
		return missing
	}
	w, ok := convx.Into[R, T](r)
	if !ok {
		return missing
	}
	return enc(w)
}

type fn func(o seqlib.Op) any

func both[T, R any](get func(seqlib.Op) T, or R) (fn, fn) {
	return func(o seqlib.Op) any { return conv[T, R](get(o), or) }, func(o seqlib.Op) any { return trip[T, R](get(o)) }
}

var convs, trips = map[string]fn{}, map[string]fn{}

func reg[T, R any](f, t string, get func(seqlib.Op) T, or R) {
	convs[f+" "+t], trips[f+" "+t] = both[T, R](get, or)
}

func numeric[T number](f string) {
	g := num[T]
	reg[T, int8](f, "int8", g, 77)
	reg[T, int16](f, "int16", g, 77)
	reg[T, int32](f, "int32", g, 77)
	reg[T, int64](f, "int64", g, 77)
	reg[T, int](f, "int", g, 77)
	reg[T, uint8](f, "uint8", g, 77)
	reg[T, uint16](f, "uint16", g, 77)
	reg[T, uint32](f, "uint32", g, 77)
	reg[T, uint64](f, "uint64", g, 77)
	reg[T, uint](f, "uint", g, 77)
	reg[T, float32](f, "float32", g, 77)
	reg[T, float64](f, "float64", g, 77)
	reg[T, string](f, "string", g, "or")
	reg[T, bool](f, "bool", g, true)
	reg[string, T]("string", f, text, T(77))
	reg[bool, T]("bool", f, boolean, T(77))
}

func init() {
	numeric[int8]("int8")
	numeric[int16]("int16")
	numeric[int32]("int32")
	numeric[int64]("int64")
	numeric[int]("int")
	numeric[uint8]("uint8")
	numeric[uint16]("uint16")
	numeric[uint32]("uint32")
	numeric[uint64]("uint64")
	numeric[uint]("uint")
	numeric[float32]("float32")
	numeric[float64]("float64")
	reg[string, string]("string", "string", text, "or")
	reg[string, bool]("string", "bool", text, true)
	reg[bool, string]("bool", "string", boolean, "or")
	reg[bool, bool]("bool", "bool", boolean, true)
	reg[string, []byte]("string", "bytes", text, []byte("or"))
	reg[[]byte, string]("bytes", "string", raw, "or")
	reg[[]byte, []byte]("bytes", "bytes", raw, []byte("or"))
	reg[string, []rune]("string", "runes", text, []rune("or"))
	reg[[]rune, string]("runes", "string", runes, "or")
	reg[[]rune, []rune]("runes", "runes", runes, []rune("or"))
}

func (sys) Do(o seqlib.Op) any {
	switch o.S("op") {
	case "new":
		return rec("any", false, nil, 0)
	case "form":
		x, ok := convs[o.S("f")+" string"](o).(map[string]any)
		if !ok || x["k"] != "text" {
			return missing
		}
		s := string(raw(seqlib.Op{"v": x}))
		if len(s) > 1 && s[0] == '-' {
			s = s[1:]
		}
		return rec("bool", strings.Trim(s, "0123456789") == "" && s != "", nil, 0)
	case "trip":
		return trips[o.S("f")+" "+o.S("t")](o)
	}
	return convs[o.S("f")+" "+o.S("t")](o)
}

var nums = []string{"int8", "int16", "int32", "int64", "int", "uint8", "uint16", "uint32", "uint64", "uint", "float32", "float64"}

func randText(r *rand.Rand) []rune {
	var s []rune
	for n := r.Intn(12); n > 0; n-- {
		c := []int{128, 2048, 65536, 0x110000, 256}[r.Intn(5)]
		x := rune(r.Intn(c))
		if x >= 0xd800 && x < 0xe000 {
			x = '-'
		}
		if r.Intn(12) == 0 {
			x = []rune{0, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xfffd, 0xfeff}[r.Intn(10)]
		}
		s = append(s, x)
	}
	return s
}

func randOf(r *rand.Rand, t string) any {
	bits := r.Uint64() >> uint(r.Intn(64))
	switch r.Intn(8) {
	case 0: // near the middle between two floats
		a := uint(r.Intn(64))
		bits = 1 << a
		for _, p := range []uint{[]uint{24, 53, 23, 52}[r.Intn(4)], uint(r.Intn(64))} {
			if a >= p {
				bits ^= 1 << (a - p)
			}
		}
		bits += uint64(r.Intn(3)) - 1
	case 1, 2:
		bits = 1<<uint(r.Intn(64)) + uint64(r.Intn(5)) - 2
	}
	neg := r.Intn(3) == 0
	s := func(w uint) int64 {
		x := int64(bits<<(64-w)) >> (64 - w)
		if neg {
			x = ^x
		}
		return x
	}
	switch t {
	case "int8":
		return int8(s(8))
	case "int16":
		return int16(s(16))
	case "int32":
		return int32(s(32))
	case "int64":
		return int64(s(64))
	case "int":
		return int(s(64))
	case "uint8":
		return uint8(bits)
	case "uint16":
		return uint16(bits)
	case "uint32":
		return uint32(bits)
	case "uint64":
		return bits
	case "uint":
		return uint(bits)
	}
	f := float64(s(64))
	switch r.Intn(7) {
	case 0:
		f /= float64(uint64(1) << uint(r.Intn(64)))
	case 1:
		f = r.NormFloat64() * 1000
	case 2:
		f = math.Ldexp(1+float64(r.Intn(16))/16, []int{r.Intn(300) - 150, r.Intn(2100) - 1060}[r.Intn(2)])
	case 3:
		f = []float64{0.1, 0.5, 1.5, 2.5, -0.5, -0.75, 127.9, 255.999, -128.5, 1e9 + 0.25, 3.1415926, math.Inf(1), math.Inf(-1), math.NaN(), 0, 1e22, 1e23, 123456789012345680}[r.Intn(18)]
	}
	if t == "float32" {
		return float32(f)
	}
	if r.Intn(8) == 0 {
		f = math.Float64frombits(r.Uint64())
		if math.IsNaN(f) {
			f = 0.3
		}
	}
	return f
}

func gen(r *rand.Rand, tier string, n int) (string, func(seqlib.Op, any) seqlib.Op) {
	left := 12
	return "", func(o seqlib.Op, res any) seqlib.Op {
		if o == nil {
			return seqlib.Op{"op": "new"}
		}
		if left--; left < 0 {
			return nil
		}
		op := "conv"
		if r.Intn(5) == 0 {
			op = "trip"
		}
		mk := func(f, t string, v any) seqlib.Op {
			e := enc(v)
			return seqlib.Op{"op": op, "f": f, "t": t, "v": e}
		}
		f, t := nums[r.Intn(12)], nums[r.Intn(12)]
		switch x := r.Intn(10); {
		case x < 4:
			op = "conv"
			return mk(f, t, randOf(r, f))
		case x < 5 && r.Intn(3) == 0:
			op = "form"
			f = nums[10+r.Intn(2)]
			return mk(f, "string", randOf(r, f))
		case x < 6:
			return mk(f, "string", randOf(r, f))
		case x < 7:
			op = "conv"
			return mk(f, "bool", randOf(r, f))
		case x < 8:
			s := text(seqlib.Op{"v": convs[nums[r.Intn(10)]+" string"](seqlib.Op{"v": enc(randOf(r, nums[r.Intn(10)]))})})
			switch r.Intn(8) {
			case 0:
				s = "-" + s
			case 1:
				s = "0" + s
			case 2:
				s += []string{"0", "9", "x", ".5", " "}[r.Intn(5)]
			case 3:
				s = []string{"", "true", "false", "-", "+1", "1e3", "abc"}[r.Intn(7)]
			}
			op = "conv"
			return mk("string", append(nums, "bool")[r.Intn(13)], s)
		}
		s := randText(r)
		b := []byte(string(s))
		if r.Intn(6) == 0 && len(b) > 0 {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
		switch r.Intn(6) {
		case 0:
			return mk("string", "bytes", string(b))
		case 1:
			return mk("string", "runes", string(b))
		case 2:
			return mk("bytes", "string", b)
		case 3:
			return mk("runes", "string", s)
		case 4:
			op = "conv"
			return mk("runes", "runes", s)
		}
		op = "conv"
		return mk("string", "string", string(b))
	}
}

func main() { seqlib.Main(func() seqlib.Sys { return sys{} }, map[string]seqlib.Gen{"conv": gen}) }
