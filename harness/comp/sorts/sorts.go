// Driver of sortx and searchx (C28).
package sorts

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	"github.com/unsafe-risk/utilx/algox/searchx"
	"github.com/unsafe-risk/utilx/algox/sortx"
	"golang.org/x/exp/constraints"
	"verifharness/seqlib"
)

type el struct{ k, t int }

func rank(by string, k int) int {
	switch by {
	case "asc":
		return k
	case "desc":
		return -k
	}
	return (k%3 + 3) % 3
}

func list(q []el) [][]int {
	r := [][]int{}
	for _, e := range q {
		r = append(r, []int{e.k, e.t})
	}
	return r
}

func parse(v any) []el {
	r := []el{}
	switch l := v.(type) {
	case []el:
		r = append(r, l...)
	case []any:
		for _, x := range l {
			p := x.([]any)
			r = append(r, el{int(p[0].(float64)), int(p[1].(float64))})
		}
	case [][]int:
		for _, p := range l {
			r = append(r, el{p[0], p[1]})
		}
	}
	return r
}

// around puts a slice in the middle of larger memory.
func around[T any](s []T, g T) ([]T, func(same func(a, b T) bool) bool) {
	m := append(append([]T{g, g}, s...), g, g, g)
	return m[2 : 2+len(s)], func(same func(a, b T) bool) bool {
		return same(m[0], g) && same(m[1], g) && same(m[len(m)-1], g) && same(m[len(m)-2], g) && same(m[len(m)-3], g)
	}
}

func sorted(q []el, by string, stable bool, ok bool) any {
	key := []int{}
	for _, e := range q {
		key = append(key, rank(by, e.k))
	}
	if !stable {
		sort.SliceStable(q, func(i, j int) bool { return q[i].k < q[j].k || q[i].k == q[j].k && q[i].t < q[j].t })
	}
	return map[string]any{"key": key, "el": list(q), "ok": ok}
}

// signed gives floating point zeros, which are equal but can be told apart, the sign of their tag.
func signed[K constraints.Ordered](k K, t int) K {
	if z, ok := any(k).(float64); ok && z == 0 {
		return any(math.Copysign(0, float64(t%2)-0.5)).(K)
	}
	return k
}

func sign[K constraints.Ordered](k K) int {
	if z, ok := any(k).(float64); ok && z == 0 && math.Signbit(z) {
		return 1
	}
	return 0
}

// plain runs a function for ordered types on the keys alone; equal keys get the tags in input order.
func plain[K constraints.Ordered](f func(int) K, o seqlib.Op, q []el) any {
	ks := make([]K, len(q))
	tags := map[[2]int][]int{}
	for i, e := range q {
		ks[i] = signed(f(e.k), e.t)
		tags[[2]int{e.k, sign(ks[i])}] = append(tags[[2]int{e.k, sign(ks[i])}], e.t)
	}
	s, whole := around(ks, f(3))
	back := func() []el {
		r := []el{}
		for _, k := range s {
			n := seqlib.Unmap(f, k)
			t := 1 << 20
			if l := tags[[2]int{n, sign(k)}]; len(l) > 0 {
				t = l[0]
				tags[[2]int{n, sign(k)}] = l[1:]
			}
			r = append(r, el{n, t})
		}
		return r
	}
	same := func(a, b K) bool { return a == b }
	switch o.S("fn") {
	case "Sort":
		sortx.Sort(s, o.B("rev"))
		by := "asc"
		if o.B("rev") {
			by = "desc"
		}
		return sorted(back(), by, false, whole(same))
	case "SortReverse":
		sortx.SortReverse(s)
		return sorted(back(), "desc", false, whole(same))
	case "SortStable":
		sortx.SortStable(s)
		return sorted(back(), "asc", true, whole(same))
	case "SortStableReverse":
		sortx.SortStableReverse(s)
		return sorted(back(), "desc", true, whole(same))
	case "IsSorted":
		b := sortx.IsSorted(s)
		return map[string]any{"is": b, "el": list(back())}
	case "IsSortedReverse":
		b := sortx.IsSortedReverse(s)
		return map[string]any{"is": b, "el": list(back())}
	case "Search":
		at, found := searchx.Search(s, f(parse([]any{o["x"]})[0].k))
		return map[string]any{"at": at, "found": found, "el": list(back())}
	}
	panic("fn")
}

type sys struct{}

func (sys) Do(o seqlib.Op) any {
	if o.S("op") == "new" {
		return true
	}
	q := parse(o["q"])
	by := o.S("by")
	if by == "" {
		if x, ok := o["x"].([]int); ok {
			o = seqlib.Op{"op": "do", "fn": o["fn"], "x": []any{float64(x[0]), float64(x[1])}, "kind": o["kind"]}
		}
		switch o.I("kind") {
		case 0:
			return plain(seqlib.KInt, o, q)
		case 1:
			return plain(seqlib.KStr, o, q)
		case 2:
			return plain(seqlib.KF64, o, q)
		case 3:
			return plain(seqlib.KI8, o, q)
		case 4:
			return plain(seqlib.KU64, o, q)
		case 5:
			return plain(seqlib.KU8, o, q)
		case 6:
			return plain(seqlib.KI64, o, q)
		case 7:
			return plain(seqlib.KMid, o, q)
		case 8:
			return plain(seqlib.KF32, o, q)
		case 9:
			return plain(seqlib.KPath, o, q)
		case 10:
			return plain(seqlib.KI16, o, q)
		case 11:
			return plain(seqlib.KI32, o, q)
		case 12:
			return plain(seqlib.KU32, o, q)
		}
	}
	s, whole := around(q, el{-9, -9})
	same := func(a, b el) bool { return a == b }
	less := func(a, b el) bool { return rank(by, a.k) < rank(by, b.k) }
	switch o.S("fn") {
	case "SortCustom":
		sortx.SortCustom(s, less)
		return sorted(s, by, false, whole(same))
	case "SortStableCustom":
		sortx.SortStableCustom(s, less)
		return sorted(s, by, true, whole(same))
	case "IsSortedCustom":
		return map[string]any{"is": sortx.IsSortedCustom(s, less), "el": list(s)}
	case "SearchCustom":
		var x el
		switch v := o["x"].(type) {
		case []any:
			x = parse([]any{v})[0]
		case []int:
			x = el{v[0], v[1]}
		}
		at, found := searchx.SearchCustom(s, x, func(a, b el) int { return rank(by, a.k) - rank(by, b.k) })
		return map[string]any{"at": at, "found": found, "el": list(s)}
	}
	panic("fn")
}

var fns = []string{"Sort", "SortReverse", "SortStable", "SortStableReverse", "SortCustom", "SortStableCustom",
	"IsSorted", "IsSortedReverse", "IsSortedCustom", "Search", "SearchCustom", "SortStableCustom", "SortStableCustom", "SearchCustom"}

func gen(r *rand.Rand, tier string, n int) (string, func(seqlib.Op, any) seqlib.Op) {
	left := 6
	return "", func(o seqlib.Op, res any) seqlib.Op {
		if o == nil {
			return seqlib.Op{"op": "new"}
		}
		if left--; left < 0 {
			return nil
		}
		fn := fns[r.Intn(len(fns))]
		m := []int{r.Intn(4), r.Intn(14), r.Intn(60), r.Intn(150)}[r.Intn(4)]
		span := []int{2, 5, 20, 120}[r.Intn(4)]
		q := make([]el, m)
		style := r.Intn(6)
		for i := range q {
			k := r.Intn(span)
			switch style {
			case 0:
				k = i * span / (m + 1)
			case 1:
				k = (m - i) * span / (m + 1)
			case 2:
				k = i % (span/2 + 1)
			case 3:
				k = i
				if i > m/2 {
					k = m - i
				}
				k = k * span / (m + 1)
			}
			q[i] = el{k - span/2, i}
		}
		by := []string{"asc", "desc", "mod"}[r.Intn(3)]
		key := func(k int) int {
			if strings.HasSuffix(fn, "Custom") {
				return rank(by, k)
			}
			return k
		}
		switch {
		case fn == "Search" || fn == "SearchCustom":
			b := by
			if fn == "Search" {
				b = "asc"
			}
			sort.SliceStable(q, func(i, j int) bool { return rank(b, q[i].k) < rank(b, q[j].k) })
		case len(fn) > 2 && fn[:2] == "Is" && r.Intn(4) > 0: // nearly in order
			sort.SliceStable(q, func(i, j int) bool {
				if fn == "IsSortedReverse" {
					return q[i].k > q[j].k
				}
				return key(q[i].k) < key(q[j].k)
			})
			if m > 1 && r.Intn(2) == 0 {
				i := []int{0, m - 2, r.Intn(m - 1)}[r.Intn(3)]
				q[i], q[i+1] = q[i+1], q[i]
			}
		}
		for i := range q {
			q[i].t = i
		}
		x := seqlib.Op{"op": "do", "fn": fn, "q": list(q)}
		switch fn {
		case "SortCustom", "SortStableCustom", "IsSortedCustom", "SearchCustom":
			x["by"] = by
		default:
			x["kind"] = r.Intn(seqlib.Kinds)
			x["rev"] = fn == "Sort" && r.Intn(2) == 0
		}
		if fn == "Search" || fn == "SearchCustom" {
			x["x"] = []int{r.Intn(span+4) - 2 - span/2, 0}
			if span > 100 {
				x["x"] = []int{r.Intn(span) - span/2, 0}
			}
		}
		return x
	}
}

// huge sorts and searches thousands of elements.
func huge(r *rand.Rand, tier string, n int) (string, func(seqlib.Op, any) seqlib.Op) {
	left := 6
	return "huge", func(o seqlib.Op, res any) seqlib.Op {
		if o == nil {
			return seqlib.Op{"op": "new"}
		}
		if left--; left < 0 {
			return nil
		}
		if left < 2 { // every kind of key with every sort, and many equal keys
			i := 2*n + left
			m := 257 + r.Intn(1000)
			q := make([]el, m)
			span := []int{1, 2, 3, 110}[r.Intn(4)]
			for j := range q {
				q[j] = el{r.Intn(span) - span/2, j}
			}
			return seqlib.Op{"op": "do", "fn": []string{"SortReverse", "Sort", "SortStable", "SortStableReverse", "Sort"}[i/seqlib.Kinds%5], "rev": i/seqlib.Kinds%5 == 1,
				"kind": i % seqlib.Kinds, "q": list(q)}
		}
		fn := fns[r.Intn(len(fns))]
		if r.Intn(3) == 0 {
			fn = []string{"IsSorted", "IsSortedReverse", "IsSortedCustom"}[r.Intn(3)]
		}
		m := seqlib.Huge(r, 9000)
		if r.Intn(2) == 0 {
			m = 4000 + r.Intn(5000)
		}
		if n%6 == 0 {
			m = seqlib.Huge(r, 70000)
		}
		span, kind := []int{3, 50, 1000, 10 * m}[r.Intn(4)], 0
		if n%3 > 0 {
			span, kind = []int{1, 2, 3, 10, 110}[r.Intn(5)], r.Intn(seqlib.Kinds)
		}
		q := make([]el, m)
		style := r.Intn(6)
		for i := range q {
			k := r.Intn(span)
			switch style {
			case 0:
				k = i * span / m
			case 1:
				k = (m - i) * span / m
			case 2: // two runs
				k = (i * 2 % m) * span / m
			case 3: // organ pipe
				if k = i; i > m/2 {
					k = m - i
				}
				k = k * span / m
			}
			q[i] = el{k - span/2, i}
		}
		by := []string{"asc", "desc", "mod"}[r.Intn(3)]
		custom := strings.HasSuffix(fn, "Custom")
		b := "asc"
		if custom {
			b = by
		} else if strings.HasSuffix(fn, "Reverse") {
			b = "desc"
		}
		if fn[:2] == "Is" || fn[:3] == "Sea" || r.Intn(3) == 0 {
			sort.SliceStable(q, func(i, j int) bool { return rank(b, q[i].k) < rank(b, q[j].k) })
			if fn[:3] != "Sea" && r.Intn(4) > 0 { // one pair the other way around
				i := []int{0, m - 2, r.Intn(m - 1), m / 2, m/2 - 1}[r.Intn(5)]
				for t := 0; t < 100 && rank(b, q[i].k) == rank(b, q[i+1].k); t++ {
					i = r.Intn(m - 1)
				}
				q[i], q[i+1] = q[i+1], q[i]
			}
		}
		for i := range q {
			q[i].t = i
		}
		x := seqlib.Op{"op": "do", "fn": fn, "q": list(q)}
		if custom {
			x["by"] = by
		} else {
			x["kind"] = kind
			x["rev"] = fn == "Sort" && r.Intn(2) == 0
		}
		if fn[:3] == "Sea" {
			x["x"] = []int{[]int{q[0].k, q[m-1].k, q[r.Intn(m)].k, q[r.Intn(m)].k + 1, q[0].k - 1, q[m-1].k + 1}[r.Intn(6)], 0}
		}
		return x
	}
}

// New is an instance, Gens the generators of histories.
func New() seqlib.Sys { return sys{} }

var Gens = map[string]seqlib.Gen{"sort": gen, "huge": huge}

var _ = fmt.Sprint
