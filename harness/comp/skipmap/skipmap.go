// Driver of the skip-list map and its iterators (C22, C23).
package skipmap

import (
	"fmt"
	"math/rand"

	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"
	"golang.org/x/exp/constraints"
	"verifharness/seqlib"
)

type impl[K constraints.Ordered] struct {
	f  func(int) K
	ms []*sklmapx.SkipListMap[K, int]
	it []*sklmapx.Iterator[K, int]
}

func (s *impl[K]) pair(k K, v int, ok bool) []int {
	if !ok {
		return []int{}
	}
	return []int{seqlib.Unmap(s.f, k), v}
}

func (s *impl[K]) Do(o seqlib.Op) any {
	var m *sklmapx.SkipListMap[K, int]
	if j := o.I("m"); j > 0 {
		m = s.ms[j-1]
	}
	var it *sklmapx.Iterator[K, int]
	if j := o.I("i"); j > 0 {
		it = s.it[j-1]
	}
	k := s.f(o.I("k"))
	switch o.S("op") {
	case "new":
		for i := 0; i < o.I("maps"); i++ {
			s.ms = append(s.ms, sklmapx.New[K, int]())
		}
		for i := 0; i < o.I("iters"); i++ {
			s.it = append(s.it, s.ms[i%len(s.ms)].Iterator())
		}
		return true
	case "Set":
		m.Set(k, o.I("v"))
		return true
	case "Fill":
		for _, j := range rand.New(rand.NewSource(int64(o.I("seed")))).Perm(o.I("n")) {
			m.Set(s.f(j), j%7)
		}
		return true
	case "SetN":
		for _, j := range seqlib.Order(o) {
			m.Set(s.f(o.I("k")+j), o.I("v")+j%7)
		}
		return true
	case "DelN":
		n := 0
		for _, j := range seqlib.Order(o) {
			if m.Del(s.f(o.I("k") + j)) {
				n++
			}
		}
		return n
	case "Churn":
		for j := 0; j < o.I("n"); j++ {
			k := s.f(100000 + j)
			m.Set(k, j)
			if v, ok := m.Get(k); !ok || v != j || !m.Del(k) {
				return false
			}
			if _, ok := m.Get(k); ok || m.Del(k) {
				return false
			}
		}
		return true
	case "Del":
		return m.Del(k)
	case "Get":
		return seqlib.Opt(m.Get(k))
	case "Clear":
		m.Clear()
		return true
	case "Len":
		return m.Len()
	case "Keys":
		return seqlib.UnmapAll(s.f, m.Keys())
	case "Values":
		return append([]int{}, m.Values()...)
	case "ToMap":
		return seqlib.Pairs(s.f, m.ToMap())
	case "String":
		return m.String()
	case "iter":
		s.it = append(s.it, m.Iterator())
		return true
	case "Next":
		return s.pair(it.Next())
	case "Seek":
		return s.pair(it.Seek(k))
	case "Rewind":
		it.Rewind()
		return true
	}
	panic("op")
}

type sys struct{ seqlib.Sys }

func (s *sys) Do(o seqlib.Op) any {
	if o.S("op") == "new" {
		switch o.I("kind") {
		case 0:
			s.Sys = &impl[int]{f: seqlib.KInt}
		case 1:
			s.Sys = &impl[string]{f: seqlib.KStr}
		case 2:
			s.Sys = &impl[float64]{f: seqlib.KF64}
		case 3:
			s.Sys = &impl[int8]{f: seqlib.KI8}
		case 4:
			s.Sys = &impl[uint64]{f: seqlib.KU64}
		case 5:
			s.Sys = &impl[uint8]{f: seqlib.KU8}
		case 6:
			s.Sys = &impl[int64]{f: seqlib.KI64}
		case 7:
			s.Sys = &impl[uint64]{f: seqlib.KMid}
		case 8:
			s.Sys = &impl[float32]{f: seqlib.KF32}
		case 9:
			s.Sys = &impl[seqlib.Name]{f: seqlib.KPath}
		case 10:
			s.Sys = &impl[int16]{f: seqlib.KI16}
		case 11:
			s.Sys = &impl[int32]{f: seqlib.KI32}
		case 12:
			s.Sys = &impl[uint32]{f: seqlib.KU32}
		}
	}
	return s.Sys.Do(o)
}

func gen(iters bool) seqlib.Gen {
	return func(r *rand.Rand, tier string, n int) (string, func(seqlib.Op, any) seqlib.Op) {
		kind := n % seqlib.Kinds
		maps := 1 + r.Intn(3)
		nit := 0
		if iters {
			maps, nit = 1+r.Intn(2), 1+r.Intn(3)
		}
		left := 40 + r.Intn(160)
		span := []int{4, 12, 40}[r.Intn(3)] // how many keys
		keys := make([]int, maps)
		var its []int
		for i := 0; i < nit; i++ {
			its = append(its, i%maps)
		}
		fill := 5 + r.Intn(5)
		large := n%30 == 0
		if large { // many keys: tall towers
			kind, left, span = 0, 40, 1200
		}
		return fmt.Sprintf("kind %d", kind), func(o seqlib.Op, res any) seqlib.Op {
			if o == nil {
				return seqlib.Op{"op": "new", "kind": kind, "maps": maps, "iters": nit}
			}
			if left--; left < 0 {
				return nil
			}
			if large && o.S("op") == "new" {
				return seqlib.Op{"op": "Fill", "m": 1, "n": 600, "seed": r.Intn(1 << 20)}
			}
			if large && r.Intn(3) == 0 {
				m, k := 1+r.Intn(maps), r.Intn(span)-span/2
				if r.Intn(5) == 0 {
					return seqlib.Op{"op": "Churn", "m": m, "n": 50000}
				}
				return seqlib.Op{"op": []string{"SetN", "SetN", "DelN"}[r.Intn(3)], "m": m, "k": k, "n": 1 + r.Intn(seqlib.Bulk(r)/4), "v": r.Intn(50), "seed": r.Intn(1000) - 100}
			}
			if r.Intn(20) == 0 {
				fill = 2 + r.Intn(8)
			}
			_ = keys
			m := 1 + r.Intn(maps)
			k := r.Intn(span) - span/2
			if iters && r.Intn(2) == 0 {
				i := 1 + r.Intn(len(its))
				switch r.Intn(14) {
				case 0:
					return seqlib.Op{"op": "Rewind", "i": i}
				case 1, 2:
					return seqlib.Op{"op": "Seek", "i": i, "k": k}
				case 3:
					if len(its) < 5 {
						its = append(its, m-1)
						return seqlib.Op{"op": "iter", "m": m}
					}
				}
				return seqlib.Op{"op": "Next", "i": i}
			}
			switch r.Intn(6) {
			case 0:
				return seqlib.Op{"op": "Get", "m": m, "k": k}
			case 1:
				l := []string{"Len", "Keys", "Values", "ToMap", "String"}
				c := l[r.Intn(len(l))]
				if c == "String" && kind != 0 {
					c = "Keys"
				}
				return seqlib.Op{"op": c, "m": m}
			}
			if r.Intn(40) == 0 {
				return seqlib.Op{"op": "Clear", "m": m}
			}
			if r.Intn(10) < fill {
				return seqlib.Op{"op": "Set", "m": m, "k": k, "v": r.Intn(100)}
			}
			return seqlib.Op{"op": "Del", "m": m, "k": k}
		}
	}
}

// huge fills maps far beyond usual sizes; iterators move in between.
func huge(r *rand.Rand, tier string, n int) (string, func(seqlib.Op, any) seqlib.Op) {
	run := func(op string, m int) seqlib.Op {
		return seqlib.Op{"op": op, "m": 1 + r.Intn(2), "k": r.Intn(3000) - 1500, "n": m, "v": r.Intn(50), "seed": r.Intn(1000) - 100}
	}
	ops := []seqlib.Op{{"op": "new", "kind": 0, "maps": 2, "iters": 4}, {"op": "Fill", "m": 1, "n": 1<<16 + r.Intn(3000), "seed": r.Intn(1 << 20)}, run("SetN", seqlib.Huge(r, 20000))}
	for i := 0; i < 6; i++ {
		m := 1 + r.Intn(2)
		ops = append(ops, seqlib.Op{"op": []string{"Len", "Keys", "Values", "ToMap"}[r.Intn(4)], "m": m}, seqlib.Op{"op": "Len", "m": 3 - m})
		for j := 0; j < 4; j++ {
			k, i := r.Intn(1<<16), 1+r.Intn(4)
			ops = append(ops, seqlib.Op{"op": "Get", "m": m, "k": k}, seqlib.Op{"op": "Seek", "i": i, "k": k + r.Intn(2)}, seqlib.Op{"op": "Del", "m": m, "k": k}, seqlib.Op{"op": "Next", "i": 1 + r.Intn(4)},
				seqlib.Op{"op": "Set", "m": m, "k": k + 1, "v": 7}, seqlib.Op{"op": "Next", "i": i}, seqlib.Op{"op": "Next", "i": i})
		}
		ops = append(ops, run([]string{"SetN", "DelN"}[i%2], seqlib.Huge(r, 40000)))
	}
	return "huge", seqlib.Script(ops...)
}

// New is an instance, Gens the generators of histories.
func New() seqlib.Sys { return &sys{} }

var Gens = map[string]seqlib.Gen{"map": gen(false), "iter": gen(true), "huge": huge}
