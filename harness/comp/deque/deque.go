// Driver of the deque (C20).
package deque

import (
	"math/rand"

	"github.com/unsafe-risk/utilx/dsx/linkedx/dequex"
	"verifharness/seqlib"
)

type sys struct{ q *dequex.Deque[int] }

func (s *sys) rot(n int, pop func() (int, bool), push func(int)) bool {
	for i := 0; i < n; i++ {
		v, ok := pop()
		if !ok {
			return i == 0
		}
		push(v)
	}
	return true
}

func (s *sys) Do(o seqlib.Op) any {
	switch o.S("op") {
	case "new":
		s.q = dequex.New[int]()
		return true
	case "PushFront":
		s.q.PushFront(o.I("v"))
		return true
	case "PushBack":
		s.q.PushBack(o.I("v"))
		return true
	case "PopFront":
		return seqlib.Opt(s.q.PopFront())
	case "PopBack":
		return seqlib.Opt(s.q.PopBack())
	case "PeekFront":
		return seqlib.Opt(s.q.PeekFront())
	case "PeekBack":
		return seqlib.Opt(s.q.PeekBack())
	case "PushFrontN":
		for i := 0; i < o.I("n"); i++ {
			s.q.PushFront(o.I("v") + i*o.I("d"))
		}
		return true
	case "PushBackN":
		for i := 0; i < o.I("n"); i++ {
			s.q.PushBack(o.I("v") + i*o.I("d"))
		}
		return true
	case "PopFrontN":
		return seqlib.Many(o.I("n"), s.q.PopFront)
	case "RotF":
		return s.rot(o.I("n"), s.q.PopFront, s.q.PushBack)
	case "RotB":
		return s.rot(o.I("n"), s.q.PopBack, s.q.PushFront)
	case "PopBackN":
		return seqlib.Many(o.I("n"), s.q.PopBack)
	}
	panic("op")
}

func gen(r *rand.Rand, tier string, n int) (string, func(seqlib.Op, any) seqlib.Op) {
	left, v, size := 50+r.Intn(150), 0, 0
	style := r.Intn(5)
	top := 400
	if n%10 == 0 {
		left, top = 40, 3000
	}
	var w [4]int // push front, push back, pop front, pop back
	mix := func() {
		for i := range w {
			w[i] = r.Intn(4)
		}
		switch r.Intn(4) {
		case 0:
			w[0], w[1] = 0, 5 // queue
			w[2] = 4
		case 1:
			w[r.Intn(2)], w[2+r.Intn(2)] = 6, 6
		}
		w[r.Intn(4)]++
	}
	mix()
	return "", func(o seqlib.Op, res any) seqlib.Op {
		if o == nil {
			return seqlib.Op{"op": "new"}
		}
		switch x := res.(type) {
		case []int:
			if o.S("op") != "PeekFront" && o.S("op") != "PeekBack" {
				size -= len(x)
			}
		}
		if left--; left < 0 {
			return nil
		}
		if r.Intn(12) == 0 {
			mix()
		}
		if r.Intn(20) == 0 {
			return seqlib.Op{"op": []string{"RotF", "RotB"}[r.Intn(2)], "n": 1 + r.Intn(seqlib.Bulk(r))}
		}
		if r.Intn(5) == 0 {
			return seqlib.Op{"op": []string{"PeekFront", "PeekBack"}[r.Intn(2)]}
		}
		t := w[0] + w[1] + w[2] + w[3]
		k := r.Intn(t)
		i := 0
		for k >= w[i] {
			k -= w[i]
			i++
		}
		if size > top && i < 2 {
			i += 2
		}
		m := 1
		if style > 0 && r.Intn(3) == 0 {
			m = []int{2 + r.Intn(10), 60 + r.Intn(10), 63 + r.Intn(3), size + r.Intn(3) - 1, 1 + r.Intn(130)}[r.Intn(5)]
			if m < 1 {
				m = 1
			}
		}
		if i >= 2 {
			if m == 1 {
				return seqlib.Op{"op": []string{"PopFront", "PopBack"}[i-2]}
			}
			return seqlib.Op{"op": []string{"PopFrontN", "PopBackN"}[i-2], "n": m}
		}
		if top > 400 && r.Intn(3) == 0 {
			m = 1 + r.Intn(seqlib.Bulk(r))
		} else if m > 200 {
			m = 200
		}
		size += m
		v += m
		if m == 1 {
			return seqlib.Op{"op": []string{"PushFront", "PushBack"}[i], "v": v}
		}
		return seqlib.Op{"op": []string{"PushFrontN", "PushBackN"}[i], "n": m, "v": v - m + 1, "d": 1}
	}
}

// huge grows and drains a deque far beyond usual sizes.
func huge(r *rand.Rand, tier string, n int) (string, func(seqlib.Op, any) seqlib.Op) {
	v := 0
	pick := func(l ...string) string { return l[r.Intn(len(l))] }
	push := func(m int) seqlib.Op {
		v += m
		return seqlib.Op{"op": pick("PushFrontN", "PushBackN"), "n": m, "v": v - m + 1, "d": 1}
	}
	ops := []seqlib.Op{{"op": "new"}, push(seqlib.Huge(r, 1<<16)), push(1<<16 + r.Intn(5000))}
	for i := 0; i < 4; i++ {
		ops = append(ops, seqlib.Op{"op": pick("PopFrontN", "PopBackN"), "n": seqlib.Huge(r, 1<<17)}, seqlib.Op{"op": pick("RotF", "RotB"), "n": seqlib.Huge(r, 1<<17)},
			seqlib.Op{"op": "PeekFront"}, seqlib.Op{"op": "PeekBack"}, push(seqlib.Huge(r, 1<<16)))
	}
	return "huge", seqlib.Script(append(ops, seqlib.Op{"op": pick("PopFrontN", "PopBackN"), "n": 1 << 19}, push(3), seqlib.Op{"op": pick("PopFrontN", "PopBackN"), "n": 4})...)
}

// New is an instance, Gens the generators of histories.
func New() seqlib.Sys { return &sys{} }

var Gens = map[string]seqlib.Gen{"deque": gen, "huge": huge}
