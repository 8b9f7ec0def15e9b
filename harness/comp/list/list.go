// Driver of the linked and the slice list (C21).
package list

import (
	"fmt"
	"math"
	"math/rand"

	ll "github.com/unsafe-risk/utilx/dsx/linkedx/listx"
	sl "github.com/unsafe-risk/utilx/dsx/slicex/listx"
	"verifharness/seqlib"
)

type list interface {
	Append(int)
	Insert(int, int)
	Remove(int) (int, bool)
	At(int) (int, bool)
	Iterate(func(int) bool)
	Len() int
}

type sys struct{ q list }

const big = 1000000

func idx(i int) int {
	switch {
	case i >= big:
		return math.MaxInt
	case i <= -big:
		return math.MinInt
	}
	return i
}

func (s *sys) Do(o seqlib.Op) any {
	switch o.S("op") {
	case "new":
		if o.I("kind") == 0 {
			s.q = ll.New[int]()
		} else {
			s.q = &sl.List[int]{}
		}
		return true
	case "Append":
		s.q.Append(o.I("v"))
		return true
	case "AppendN":
		for i := 0; i < o.I("n"); i++ {
			s.q.Append(o.I("v") + i)
		}
		return true
	case "RemoveN":
		return seqlib.Many(o.I("n"), func() (int, bool) { return s.q.Remove(o.I("i")) })
	case "Insert":
		s.q.Insert(idx(o.I("i")), o.I("v"))
		return true
	case "Remove":
		return seqlib.Opt(s.q.Remove(idx(o.I("i"))))
	case "At":
		return seqlib.Opt(s.q.At(idx(o.I("i"))))
	case "Len":
		return s.q.Len()
	case "Iterate":
		r, stop := []int{}, o.I("stop")
		s.q.Iterate(func(v int) bool {
			r = append(r, v)
			return stop == 0 || len(r) < stop
		})
		return r
	case "IterateIn":
		r, at, ln, in := []int{}, []int{}, []int{}, []int{}
		s.q.Iterate(func(v int) bool {
			r = append(r, v)
			if len(r) == o.I("at") {
				at, ln = seqlib.Opt(s.q.At(o.I("i"))), []int{s.q.Len()}
				s.q.Iterate(func(v int) bool {
					in = append(in, v)
					return len(in) != o.I("stop")
				})
			}
			return true
		})
		return [][]int{r, at, ln, in}
	}
	panic("op")
}

func gen(r *rand.Rand, tier string, n int) (string, func(seqlib.Op, any) seqlib.Op) {
	kind := n % 2
	left, v, fill, size := 40+r.Intn(160), 0, true, 0
	bulk := n%10 < 2
	if bulk {
		left = 30
	}
	return fmt.Sprintf("kind %d", kind), func(o seqlib.Op, res any) seqlib.Op {
		if o == nil {
			return seqlib.Op{"op": "new", "kind": kind}
		}
		if x, ok := res.([]int); ok && (o.S("op") == "Remove" || o.S("op") == "RemoveN") {
			size -= len(x)
		}
		if left--; left < 0 {
			return nil
		}
		if r.Intn(20) == 0 {
			fill = !fill
		}
		bad := func() int {
			return []int{-1 - r.Intn(3), size + 1 + r.Intn(3), big, -big}[r.Intn(4)]
		}
		pick := func(hi int) int { // ends are favoured
			switch r.Intn(4) {
			case 0:
				return 0
			case 1:
				return hi
			}
			return r.Intn(hi + 1)
		}
		switch r.Intn(6) {
		case 0:
			return seqlib.Op{"op": "Len"}
		case 1:
			if r.Intn(3) == 0 {
				return seqlib.Op{"op": "IterateIn", "at": 1 + r.Intn(size+2), "i": r.Intn(size + 2), "stop": r.Intn(size+2) * r.Intn(2)}
			}
			return seqlib.Op{"op": "Iterate", "stop": r.Intn(size+2) * r.Intn(2)}
		case 2:
			i := bad()
			if r.Intn(3) > 0 {
				i = pick(size)
			}
			return seqlib.Op{"op": "At", "i": i}
		}
		if bulk && r.Intn(2) == 0 {
			m := 1 + r.Intn(seqlib.Bulk(r))
			if r.Intn(2) == 0 {
				v += m
				size += m
				return seqlib.Op{"op": "AppendN", "n": m, "v": v - m + 1}
			}
			return seqlib.Op{"op": "RemoveN", "n": m, "i": []int{0, size, r.Intn(size + 1)}[r.Intn(3)]}
		}
		if fill == (r.Intn(5) > 0) {
			v++
			if r.Intn(3) == 0 {
				size++
				return seqlib.Op{"op": "Append", "v": v}
			}
			if kind == 0 && r.Intn(5) == 0 {
				return seqlib.Op{"op": "Insert", "i": bad(), "v": v}
			}
			size++
			return seqlib.Op{"op": "Insert", "i": pick(size - 1), "v": v}
		}
		if r.Intn(6) == 0 {
			return seqlib.Op{"op": "Remove", "i": []int{bad(), size}[r.Intn(2)]}
		}
		hi := size - 1
		if hi < 0 {
			hi = 0
		}
		return seqlib.Op{"op": "Remove", "i": pick(hi)}
	}
}

// huge grows and drains a list far beyond usual sizes.
func huge(r *rand.Rand, tier string, n int) (string, func(seqlib.Op, any) seqlib.Op) {
	v, size, kind := 0, 0, n%2
	var ops []seqlib.Op
	add := func(o seqlib.Op) { ops = append(ops, o) }
	app := func(m int) {
		v += m
		size += m
		add(seqlib.Op{"op": "AppendN", "n": m, "v": v - m + 1})
	}
	at := func() int {
		return []int{0, size, size - 1, seqlib.Huge(r, 1<<17), r.Intn(size + 1)}[r.Intn(5)]
	}
	add(seqlib.Op{"op": "new", "kind": kind})
	app(1<<16 + r.Intn(5000))
	for i := 0; i < 4; i++ {
		add(seqlib.Op{"op": "Len"})
		for j := 0; j < 4; j++ {
			add(seqlib.Op{"op": "At", "i": at()})
			if k := at(); k <= size {
				v++
				add(seqlib.Op{"op": "Insert", "i": k, "v": v})
				size++
			}
			if k := at(); k < size && k >= 0 {
				add(seqlib.Op{"op": "Remove", "i": k})
				size--
			}
		}
		add(seqlib.Op{"op": "Iterate", "stop": []int{0, seqlib.Huge(r, 1<<17), 3}[r.Intn(3)]})
		m, k := seqlib.Huge(r, 1<<15), 0
		if kind == 1 { // removing in the middle takes time for each element
			if k = size - m; k < 0 {
				k = 0
			}
		}
		add(seqlib.Op{"op": "RemoveN", "n": m, "i": k})
		if m > size-k {
			m = size - k
		}
		size -= m
		app(seqlib.Huge(r, 1<<15))
	}
	return fmt.Sprintf("huge, kind %d", kind), seqlib.Script(ops...)
}

// New is an instance, Gens the generators of histories.
func New() seqlib.Sys { return &sys{} }

var Gens = map[string]seqlib.Gen{"list": gen, "huge": huge}
