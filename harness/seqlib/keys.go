package seqlib

import (
	"math"
	"sort"
	"strings"
)

// Kinds of key types: each maps the numbers -60..60 to a type, keeping their order.
const Kinds = 13

func KInt(k int) int { return k }
func KStr(k int) string {
	switch {
	case k < 0:
		return "A" + strings.Repeat("a", 100+k)
	}
	return "B" + strings.Repeat("\x00", k)
}
func KF64(k int) float64 {
	switch {
	case k <= -60:
		return math.Inf(-1)
	case k < 0:
		return -math.Pow(2, float64(-k))
	case k == 0:
		return math.Copysign(0, -1)
	}
	return float64(k) * 1e-300
}
func KI8(k int) int8     { return int8(k * 2) }
func KU64(k int) uint64  { return math.MaxUint64 - 100 + uint64(k+40) }
func KU8(k int) uint8    { return uint8(k + 60) }

// Name is a type of text of its own.
type Name string

// KPath has keys that differ only far behind.
func KPath(k int) Name {
	return Name("/usr/share/a/common/directory/with/a/long/name/" + string(rune('a'+(k+60)/26)) + string(rune('a'+(k+60)%26)) + "/z")
}
func KI64(k int) int64   { return int64(k) << 57 } // differences overflow
func KMid(k int) uint64  { return 1<<63 + uint64(k) }
func KF32(k int) float32 { return float32(k) / 3 }
func KI16(k int) int16   { return int16(k * 500) }
func KI32(k int) int32   { return int32(k) * 35000000 }
func KU32(k int) uint32  { return 1<<31 + uint32(k)<<24 }

// Unmap inverts one of the above.
func Unmap[K comparable](f func(int) K, k K) int {
	if i, ok := any(k).(int); ok {
		return i
	}
	for i := -60; i <= 60; i++ {
		if f(i) == k {
			return i
		}
	}
	return 1 << 20
}

func UnmapAll[K comparable](f func(int) K, ks []K) []int {
	r := make([]int, len(ks))
	for i, k := range ks {
		r[i] = Unmap(f, k)
	}
	return r
}

// Pairs lists a map in key order.
func Pairs[K comparable, V any](f func(int) K, m map[K]V) [][]any {
	r := make([][]any, 0, len(m))
	for k, v := range m {
		r = append(r, []any{Unmap(f, k), v})
	}
	sort.Slice(r, func(i, j int) bool { return r[i][0].(int) < r[j][0].(int) })
	return r
}
