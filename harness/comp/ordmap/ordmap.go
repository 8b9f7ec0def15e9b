// Driver of the ordered map (C24).
package ordmap

import (
	"fmt"
	"math/rand"

	"github.com/unsafe-risk/utilx/dsx/mapx/ordmapx"
	"golang.org/x/exp/constraints"
	"verifharness/seqlib"
)

type impl[K constraints.Ordered] struct {
	f func(int) K
	m *ordmapx.OrdMap[K, int]
}

// act performs a simple operation; list wraps its result as a sequence.
func (s *impl[K]) act(o seqlib.Op) (res any, list []int) {
	k := s.f(o.I("k"))
	switch o.S("op") {
	case "Set":
		s.m.Set(k, o.I("v"))
		return true, []int{}
	case "Del":
		s.m.Del(k)
		return true, []int{}
	case "Clear":
		s.m.Clear()
		return true, []int{}
	case "Get":
		r := seqlib.Opt(s.m.Get(k))
		return r, r
	case "Len":
		return s.m.Len(), []int{s.m.Len()}
	case "Range":
		r := []int{}
		s.m.Range(func(k K, v int) bool {
			r = append(r, seqlib.Unmap(s.f, k))
			return len(r) == o.I("k")
		})
		return r, r
	case "Keys":
		r := seqlib.UnmapAll(s.f, s.m.Keys())
		return r, r
	case "Values":
		r := append([]int{}, s.m.Values()...)
		return r, r
	}
	panic("op")
}

func (s *impl[K]) Do(o seqlib.Op) any {
	switch o.S("op") {
	case "new":
		s.m = ordmapx.New[K, int]()
		return true
	case "Range":
		r := [][]any{}
		var script []seqlib.Op
		for _, a := range o.L("script") {
			if m, ok := a.(map[string]any); ok {
				script = append(script, m)
			} else {
				script = append(script, a.(seqlib.Op))
			}
		}
		s.m.Range(func(k K, v int) bool {
			n := len(r) + 1
			rs := [][]int{}
			for _, a := range script {
				if a.I("at") == n {
					_, l := s.act(a)
					rs = append(rs, l)
				}
			}
			r = append(r, []any{seqlib.Unmap(s.f, k), v, rs})
			return n == o.I("stop")
		})
		return r
	}
	switch o.S("op") {
	case "RangeN":
		r := [][]int{}
		s.m.Range(func(k K, v int) bool {
			r = append(r, []int{seqlib.Unmap(s.f, k), v})
			return len(r) == o.I("stop")
		})
		return r
	case "SetN":
		for _, j := range seqlib.Order(o) {
			s.m.Set(s.f(o.I("k")+j), o.I("v")+j%7)
		}
		return true
	case "DelN":
		for _, j := range seqlib.Order(o) {
			s.m.Del(s.f(o.I("k") + j))
		}
		return true
	}
	r, _ := s.act(o)
	return r
}

type sys struct{ seqlib.Sys }

func (s *sys) Do(o seqlib.Op) any {
	if o.S("op") == "new" {
		switch o.I("kind") {
		case 0:
			s.Sys = &impl[int]{f: seqlib.KInt}
		case 1:
			s.Sys = &impl[string]{f: seqlib.KStr}
		case 2:
			s.Sys = &impl[float64]{f: seqlib.KF64}
		case 3:
			s.Sys = &impl[int8]{f: seqlib.KI8}
		case 4:
			s.Sys = &impl[uint64]{f: seqlib.KU64}
		case 5:
			s.Sys = &impl[uint8]{f: seqlib.KU8}
		case 6:
			s.Sys = &impl[int64]{f: seqlib.KI64}
		case 7:
			s.Sys = &impl[uint64]{f: seqlib.KMid}
		case 8:
			s.Sys = &impl[float32]{f: seqlib.KF32}
		case 9:
			s.Sys = &impl[seqlib.Name]{f: seqlib.KPath}
		case 10:
			s.Sys = &impl[int16]{f: seqlib.KI16}
		case 11:
			s.Sys = &impl[int32]{f: seqlib.KI32}
		case 12:
			s.Sys = &impl[uint32]{f: seqlib.KU32}
		}
	}
	return s.Sys.Do(o)
}

func gen(r *rand.Rand, tier string, n int) (string, func(seqlib.Op, any) seqlib.Op) {
	kind := n % seqlib.Kinds
	left := 40 + r.Intn(120)
	span := []int{4, 12, 40}[r.Intn(3)]
	fill := 7
	bulk := n%12 == 0
	if bulk {
		kind, left, span = 0, 25, 600
	}
	key := func() int { return r.Intn(span) - span/2 }
	simple := func() seqlib.Op {
		switch r.Intn(6) {
		case 0:
			return seqlib.Op{"op": "Get", "k": key()}
		case 1:
			return seqlib.Op{"op": []string{"Len", "Keys", "Values"}[r.Intn(3)]}
		}
		if r.Intn(40) == 0 {
			return seqlib.Op{"op": "Clear"}
		}
		if r.Intn(10) < fill {
			return seqlib.Op{"op": "Set", "k": key(), "v": r.Intn(100)}
		}
		return seqlib.Op{"op": "Del", "k": key()}
	}
	return fmt.Sprintf("kind %d", kind), func(o seqlib.Op, res any) seqlib.Op {
		if o == nil {
			return seqlib.Op{"op": "new", "kind": kind}
		}
		if left--; left < 0 {
			return nil
		}
		if r.Intn(20) == 0 {
			fill = 2 + r.Intn(8)
		}
		if bulk && r.Intn(2) == 0 {
			return seqlib.Op{"op": []string{"SetN", "SetN", "DelN"}[r.Intn(3)], "k": key(), "n": 1 + r.Intn(seqlib.Bulk(r)/4), "v": r.Intn(50), "seed": r.Intn(1000) - 100}
		}
		if r.Intn(6) == 0 && !bulk {
			script := []any{}
			for i := r.Intn(4); i > 0; i-- {
				a := simple()
				if r.Intn(4) == 0 {
					a = seqlib.Op{"op": "Range", "k": r.Intn(6)}
				}
				a["at"] = 1 + r.Intn(6)
				script = append(script, a)
			}
			return seqlib.Op{"op": "Range", "stop": r.Intn(2) * r.Intn(8), "script": script}
		}
		return simple()
	}
}

// huge fills a map far beyond usual sizes.
func huge(r *rand.Rand, tier string, n int) (string, func(seqlib.Op, any) seqlib.Op) {
	run := func(op string, m int) seqlib.Op {
		return seqlib.Op{"op": op, "k": r.Intn(3000) - 1500, "n": m, "v": r.Intn(50), "seed": r.Intn(1000) - 100}
	}
	ops := []seqlib.Op{{"op": "new", "kind": 0}, run("SetN", seqlib.Huge(r, 20000)), run("SetN", []int{5000, 1<<16 + 100}[n%2])}
	for i := 0; i < 6; i++ {
		ops = append(ops, seqlib.Op{"op": []string{"Len", "Keys", "Values"}[r.Intn(3)]}, seqlib.Op{"op": "Len"})
		for j := 0; j < 4; j++ {
			k := r.Intn(5000)
			ops = append(ops, seqlib.Op{"op": "Get", "k": k}, seqlib.Op{"op": "Del", "k": k}, seqlib.Op{"op": "Set", "k": k + 1, "v": 7}, seqlib.Op{"op": "Get", "k": k + 1}, seqlib.Op{"op": "Get", "k": k})
		}
		ops = append(ops, run([]string{"SetN", "DelN"}[i%2], seqlib.Huge(r, 10000)))
		if i%3 == 2 {
			ops = append(ops, seqlib.Op{"op": "RangeN", "stop": []int{0, seqlib.Huge(r, 1<<17)}[r.Intn(2)]})
		}
	}
	return "huge", seqlib.Script(ops...)
}

// New is an instance, Gens the generators of histories.
func New() seqlib.Sys { return &sys{} }

var Gens = map[string]seqlib.Gen{"ord": gen, "huge": huge}
