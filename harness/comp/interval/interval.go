// Driver of intersectionx (C29).
package interval

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/unsafe-risk/utilx/timex/intersectionx"
	"verifharness/seqlib"
)

type sys struct{}

func (sys) Do(o seqlib.Op) any {
	if o.S("op") == "new" {
		return true
	}
	var q [][]int
	switch x := o["l"].(type) {
	case [][]int:
		q = x
	case []any:
		for _, p := range x {
			q = append(q, []int{int(p.([]any)[0].(float64)), int(p.([]any)[1].(float64))})
		}
	}
	rs := run(q, 1, 0)
	far := int64(1)
	for _, p := range q {
		for _, e := range []int{p[0] - p[1], p[0] + p[1], p[0]} {
			if e < 0 {
				e = -e
			}
			if int64(e) > far {
				far = int64(e)
			}
		}
	}
	// the answer does not depend on the unit or on where zero lies
	for _, v := range [][2]int64{{1, 1700000000000000000}, {math.MaxInt64 / far, 0}, {(1 << 61) / far, -6e18}, {math.MaxInt32 / far * 3, 1 << 40}} {
		if v[0] > 0 && fmt.Sprint(run(q, v[0], v[1])) != fmt.Sprint(rs) {
			return []int{1 << 30, int(v[0] % 1000)}
		}
	}
	return rs
}

// run asks with every x replaced by unit*x + zero.
func run(q [][]int, unit, zero int64) []int {
	var l []intersectionx.Interval
	for _, p := range q {
		l = append(l, intersectionx.Interval{Offset: unit*int64(p[0]) + zero, ConfidenceBand: unit * int64(p[1])})
	}
	a, b, ok := intersectionx.Intersection(l...)
	for i, p := range q { // arguments are left alone
		if l[i].Offset != unit*int64(p[0])+zero || l[i].ConfidenceBand != unit*int64(p[1]) {
			return []int{1 << 30}
		}
	}
	if !ok {
		return []int{}
	}
	if a, b = a-zero, b-zero; a%unit != 0 || b%unit != 0 {
		return []int{1 << 30}
	}
	return []int{int(a / unit), int(b / unit)}
}

func gen(r *rand.Rand, tier string, n int) (string, func(seqlib.Op, any) seqlib.Op) {
	left := 12
	var last [][]int
	return "", func(o seqlib.Op, res any) seqlib.Op {
		if o == nil {
			return seqlib.Op{"op": "new"}
		}
		if left--; left < 0 {
			return nil
		}
		if last != nil && r.Intn(3) == 0 { // the same intervals in another order
			q := append([][]int{}, last...)
			r.Shuffle(len(q), func(i, j int) { q[i], q[j] = q[j], q[i] })
			return seqlib.Op{"op": "do", "l": q}
		}
		m := r.Intn(10)
		if r.Intn(4) == 0 {
			m = r.Intn(24)
		}
		off, band := []int{4, 12, 1000, 100000000}[r.Intn(4)], []int{1, 3, 8, 1000, 100000000}[r.Intn(5)]
		q := [][]int{}
		for i := 0; i < m; i++ {
			p := []int{r.Intn(off) - off/2, r.Intn(band + 1)}
			if len(q) > 0 && r.Intn(4) == 0 {
				c := q[r.Intn(len(q))]
				switch r.Intn(4) {
				case 0: // equal
					p = []int{c[0], c[1]}
				case 1: // touching
					p[0] = c[0] + c[1] + p[1]
				case 2: // same centre
					p[0] = c[0]
				case 3: // centre on an end
					p[0] = c[0] - c[1]
				}
			}
			q = append(q, p)
		}
		last = q
		return seqlib.Op{"op": "do", "l": q}
	}
}

// huge intersects many clocks.
func huge(r *rand.Rand, tier string, n int) (string, func(seqlib.Op, any) seqlib.Op) {
	left := 3
	return "huge", func(o seqlib.Op, res any) seqlib.Op {
		if o == nil {
			return seqlib.Op{"op": "new"}
		}
		if left--; left < 0 {
			return nil
		}
		m := []int{31, 32, 33, 63, 64, 65, 66, 80, 100, 127, 128, 129}[r.Intn(12)] + r.Intn(2)*r.Intn(9)
		q := [][]int{}
		bad := []int{0, m / 4, m/2 - 1, m / 2, m/2 + 1, r.Intn(m + 1)}[r.Intn(6)] // false clocks
		base := r.Intn(1000) - 500
		for i := 0; i < m; i++ {
			p := []int{base + r.Intn(11) - 5, 5 + r.Intn(20)}
			if i < bad {
				p = []int{base + (r.Intn(4000)-2000)*r.Intn(50), r.Intn(20)}
			}
			q = append(q, p)
		}
		r.Shuffle(len(q), func(i, j int) { q[i], q[j] = q[j], q[i] })
		return seqlib.Op{"op": "do", "l": q}
	}
}

// New is an instance, Gens the generators of histories.
func New() seqlib.Sys { return sys{} }

var Gens = map[string]seqlib.Gen{"interval": gen, "huge": huge}
