// Driver of slicex.Slice (C25, C26).
package slice

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/unsafe-risk/utilx/dsx/slicex"
	"verifharness/seqlib"
)

const big = 1000000

func num(i int) int {
	switch {
	case i >= big:
		return math.MaxInt
	case i <= -big:
		return math.MinInt
	}
	return i
}

type named int

func (named) String() string { return "named" }

type failure struct{}

func (failure) String() string { return "no" }
func (failure) Error() string  { return "failure" }

// values and, in SliceEdit.tla, the texts fmt gives them
var kinds = []any{nil, named(3), failure{}, (*named)(nil), true, 1.5, []int{1, 2}, struct {
	A int
	B string
}{1, "x"}}

type arg struct{ mem, was []int }

type sys struct {
	a    [2]*slicex.Slice[int]
	p    []slicex.Slice[int]
	args []arg
}

// pass makes an argument slice that lies in the middle of larger memory, which is watched from then on.
func (s *sys) pass(v []int) []int {
	mem := append(append([]int{-7, -8}, v...), -9, -10, -11)
	s.args = append(s.args, arg{mem, append([]int(nil), mem...)})
	return mem[2 : 2+len(v)]
}

func (s *sys) intact() bool {
	for _, a := range s.args {
		for i := range a.mem {
			if a.mem[i] != a.was[i] {
				return false
			}
		}
	}
	return true
}

func list(v []int) []int { return append([]int{}, v...) }

func pred(o seqlib.Op) func(int) bool {
	x := o.I("x")
	if o.S("pred") == "below" {
		return func(v int) bool { return v < x }
	}
	if o.S("pred") == "fresh" { // not seen before
		seen := map[int]bool{}
		return func(v int) bool {
			b := !seen[v]
			seen[v] = true
			return b
		}
	}
	return func(v int) bool { return (v%2+2)%2 == x }
}

func (s *sys) pieces() [][]int {
	r := [][]int{}
	for _, p := range s.p {
		r = append(r, list(p))
	}
	return r
}

func (s *sys) Do(o seqlib.Op) any {
	r := s.do(o)
	a := [][]int{}
	if o.S("op") != "PieceRotate" {
		a = [][]int{list(*s.a[0]), list(*s.a[1])}
	}
	return map[string]any{"r": r, "a": a, "ok": s.intact()}
}

func (s *sys) do(o seqlib.Op) any {
	none := []int{}
	if o.S("op") == "new" {
		s.a[0], s.a[1] = slicex.New(list(o.Is("vs"))...), slicex.New[int]()
		return none
	}
	i, j, v := num(o.I("i")), num(o.I("j")), o.I("v")
	switch o.S("op") {
	case "PiecePush":
		s.p[i-1].Push(v)
		return s.pieces()
	case "PieceRotate":
		s.p[i-1].Rotate(o.I("n"))
		return s.pieces()
	}
	h := o.I("h") - 1
	q := s.a[h]
	same := func(x *slicex.Slice[int]) any { // chained calls return the slice itself
		if x != q {
			return []int{-1}
		}
		return none
	}
	switch o.S("op") {
	case "Copy":
		s.a[1-h] = q.Copy()
		return none
	case "Set":
		q.Set(i, v)
		return none
	case "Get":
		return q.Get(i)
	case "Slice":
		return same(q.Slice(i, j))
	case "Splice":
		return same(q.Splice(i, j, s.pass(o.Is("vs"))...))
	case "Expand":
		return same(q.Expand(i, s.pass(o.Is("vs"))...))
	case "Insert":
		return same(q.Insert(i, v))
	case "Cut":
		return same(q.Cut(i, j))
	case "Delete":
		return same(q.Delete(i))
	case "DeleteReplace":
		return same(q.DeleteReplace(i))
	case "Push":
		return same(q.Push(v))
	case "UnShift":
		return same(q.UnShift(v))
	case "Pop":
		return q.Pop()
	case "Shift":
		return q.Shift()
	case "PushN":
		for k := 0; k < o.I("n"); k++ {
			q.Push(v + k)
		}
		return none
	case "PopN", "ShiftN":
		f := q.Pop
		if o.S("op") == "ShiftN" {
			f = q.Shift
		}
		r := []int{}
		for k := 0; k < o.I("n") && q.Len() > 0; k++ {
			r = append(r, f())
		}
		return r
	case "Clear":
		return same(q.Clear())
	case "Extend":
		return same(q.Extend(i))
	case "Reverse":
		return same(q.Reverse())
	case "Rotate":
		return same(q.Rotate(i))
	case "Shuffle", "Shuffled":
		return same(q.Shuffle())
	case "Filter":
		return same(q.Filter(pred(o)))
	case "Repeat":
		return same(q.Repeat(i))
	case "Split":
		l := o.Is("vs")
		for k := range l {
			l[k] = num(l[k])
		}
		s.p = q.Split(l...)
		return s.pieces()
	case "Batch":
		s.p = q.Batch(i)
		return s.pieces()
	case "Join":
		return q.Join(o.S("sep"))
	case "JoinText":
		var t slicex.Slice[string]
		for _, v := range *q {
			t = append(t, []string{"", "a", ", ", "%v"}[(v%4+4)%4])
		}
		return t.Join(o.S("sep"))
	case "JoinAny":
		var t slicex.Slice[any]
		for _, v := range *q {
			t = append(t, kinds[(v%8+8)%8])
		}
		return t.Join(o.S("sep"))
	case "IndexOf":
		return q.IndexOf(pred(o))
	case "Contains":
		return q.Contains(pred(o))
	case "Each":
		r := []int{}
		q.Each(func(v int) { r = append(r, v) })
		return r
	case "ForEach":
		r := [][]int{}
		q.ForEach(func(i, v int) { r = append(r, []int{i, v}) })
		return r
	case "Finalize":
		return list(q.Finalize())
	case "Len":
		return q.Len()
	}
	panic("op")
}

func gen(edit bool) seqlib.Gen {
	return func(r *rand.Rand, tier string, n int) (string, func(seqlib.Op, any) seqlib.Op) {
		left := 30 + r.Intn(90)
		var last [][]int
		np := 0
		limit := []int{6, 20, 60}[r.Intn(3)]
		val := func() int { return r.Intn(40) - 10 }
		vals := func(m int) []int {
			l := []int{}
			for i := r.Intn(m + 1); i > 0; i-- {
				l = append(l, val())
			}
			return l
		}
		return fmt.Sprintf("edit %v", edit), func(o seqlib.Op, out any) seqlib.Op {
			if o == nil {
				return seqlib.Op{"op": "new", "vs": vals(8)}
			}
			if a := out.(map[string]any)["a"].([][]int); len(a) > 0 {
				last = a
			}
			switch o.S("op") {
			case "Split", "Batch":
				np = len(out.(map[string]any)["r"].([][]int))
			case "PiecePush", "PieceRotate", "Get", "Join", "JoinText", "JoinAny", "IndexOf", "Contains", "Each", "ForEach", "Finalize", "Len":
			default:
				np = 0
			}
			if left--; left < 0 {
				return nil
			}
			h := 1 + r.Intn(2)
			size := len(last[h-1])
			idx := func() int {
				switch r.Intn(8) {
				case 0:
					return []int{big, -big, size + 1 + r.Intn(5), -1 - r.Intn(5)}[r.Intn(4)]
				case 1:
					return size
				case 2:
					return 0
				}
				return r.Intn(size + 1)
			}
			if r.Intn(12) == 0 {
				return seqlib.Op{"op": "Copy", "h": h}
			}
			if np > 0 && r.Intn(4) > 0 {
				i := 1 + r.Intn(np)
				switch r.Intn(3) {
				case 0:
					return seqlib.Op{"op": "PieceRotate", "i": i, "n": r.Intn(9) - 4}
				default:
					return seqlib.Op{"op": "PiecePush", "i": i, "v": val()}
				}
			}
			if size > limit {
				return seqlib.Op{"op": "Slice", "h": h, "i": r.Intn(size), "j": idx()}
			}
			if edit || r.Intn(3) == 0 {
				switch k := r.Intn(20); k {
				case 0:
					return seqlib.Op{"op": "Set", "h": h, "i": idx(), "v": val()}
				case 1, 2, 3:
					return seqlib.Op{"op": []string{"Get", "Delete", "DeleteReplace"}[k-1], "h": h, "i": idx()}
				case 4:
					if r.Intn(3) == 0 {
						return seqlib.Op{"op": "Slice", "h": h, "i": idx(), "j": idx()}
					}
					return seqlib.Op{"op": "Cut", "h": h, "i": idx(), "j": idx()}
				case 5, 6, 7:
					return seqlib.Op{"op": "Splice", "h": h, "i": idx(), "j": idx(), "vs": vals(5)}
				case 8, 9:
					return seqlib.Op{"op": "Expand", "h": h, "i": idx(), "vs": vals(5)}
				case 10, 11:
					return seqlib.Op{"op": "Insert", "h": h, "i": idx(), "v": val()}
				case 12, 13, 14:
					return seqlib.Op{"op": []string{"Push", "UnShift"}[r.Intn(2)], "h": h, "v": val()}
				case 15, 16, 17:
					return seqlib.Op{"op": []string{"Pop", "Shift"}[r.Intn(2)], "h": h}
				case 18:
					return seqlib.Op{"op": "Extend", "h": h, "i": []int{-big, -1, 0, 1, 3}[r.Intn(5)]}
				case 19:
					if r.Intn(4) == 0 {
						return seqlib.Op{"op": "Clear", "h": h}
					}
				}
			}
			p := func(op string) seqlib.Op {
				if op == "Filter" && r.Intn(3) == 0 {
					return seqlib.Op{"op": op, "h": h, "pred": "fresh", "x": 0}
				}
				if r.Intn(2) == 0 {
					return seqlib.Op{"op": op, "h": h, "pred": "below", "x": val()}
				}
				return seqlib.Op{"op": op, "h": h, "pred": "mod", "x": r.Intn(2)}
			}
			if !edit {
				switch k := r.Intn(14); k {
				case 0:
					return seqlib.Op{"op": "Reverse", "h": h}
				case 1, 2:
					return seqlib.Op{"op": "Rotate", "h": h, "i": []int{r.Intn(9) - 4, r.Intn(200) - 100, big, -big}[r.Intn(4)]}
				case 3:
					return seqlib.Op{"op": "Shuffled", "h": h}
				case 4:
					return p([]string{"Filter", "IndexOf", "Contains"}[r.Intn(3)])
				case 5:
					return p("IndexOf")
				case 6:
					return p("Contains")
				case 7:
					if size*3 <= limit+20 {
						return seqlib.Op{"op": "Repeat", "h": h, "i": r.Intn(4)}
					}
				case 8, 9:
					l := []int{}
					for i := r.Intn(5); i > 0; i-- {
						l = append(l, []int{r.Intn(5), r.Intn(size + 2), 0, 1, big}[r.Intn(5)])
					}
					return seqlib.Op{"op": "Split", "h": h, "vs": l}
				case 10, 11:
					return seqlib.Op{"op": "Batch", "h": h, "i": []int{r.Intn(6) - 1, r.Intn(size + 3), big, -big}[r.Intn(4)]}
				case 12:
					return seqlib.Op{"op": []string{"Join", "JoinText", "JoinAny"}[r.Intn(3)], "h": h, "sep": []string{"", ",", " - "}[r.Intn(3)]}
				case 13:
					return seqlib.Op{"op": []string{"Each", "ForEach", "Finalize", "Len"}[r.Intn(4)], "h": h}
				}
			}
			return seqlib.Op{"op": "Len", "h": h}
		}
	}
}

// huge edits or rearranges slices of thousands of elements.
func huge(edit bool) seqlib.Gen {
	return func(r *rand.Rand, tier string, n int) (string, func(seqlib.Op, any) seqlib.Op) {
		max := 5000
		if n%4 == 0 {
			max = 70000
		}
		left := 14
		size := 0
		vals := func(m int) []int {
			l := make([]int, m)
			for i := range l {
				l[i] = r.Intn(2000) - 500
			}
			return l
		}
		return "huge", func(o seqlib.Op, out any) seqlib.Op {
			if o == nil {
				if max > 5000 {
					return seqlib.Op{"op": "new", "vs": vals(1<<16 + r.Intn(max-1<<16))}
				}
				return seqlib.Op{"op": "new", "vs": vals(seqlib.Huge(r, max))}
			}
			if a := out.(map[string]any)["a"].([][]int); len(a) > 0 {
				size = len(a[0])
			}
			if left--; left < 0 {
				return nil
			}
			idx := func() int {
				return []int{0, size, seqlib.Huge(r, 1<<17), r.Intn(size + 1), r.Intn(size + 1)}[r.Intn(5)]
			}
			one := func(op string) seqlib.Op { return seqlib.Op{"op": op, "h": 1} }
			switch {
			case size > max:
				return seqlib.Op{"op": "Cut", "h": 1, "i": seqlib.Huge(r, max), "j": big}
			case size < 50 && r.Intn(2) == 0:
				return seqlib.Op{"op": "Splice", "h": 1, "i": 0, "j": 0, "vs": vals(seqlib.Huge(r, max))}
			}
			if edit {
				switch r.Intn(12) {
				case 0:
					return seqlib.Op{"op": "Set", "h": 1, "i": idx(), "v": 5}
				case 1:
					return seqlib.Op{"op": []string{"Get", "Delete", "DeleteReplace"}[r.Intn(3)], "h": 1, "i": idx()}
				case 2, 3:
					return seqlib.Op{"op": []string{"Cut", "Slice"}[r.Intn(2)], "h": 1, "i": idx(), "j": idx()}
				case 4, 5:
					return seqlib.Op{"op": "Splice", "h": 1, "i": idx(), "j": idx(), "vs": vals(seqlib.Huge(r, max))}
				case 6:
					return seqlib.Op{"op": "Expand", "h": 1, "i": idx(), "vs": vals(seqlib.Huge(r, max))}
				case 7:
					return seqlib.Op{"op": "Insert", "h": 1, "i": idx(), "v": 9}
				case 8:
					return seqlib.Op{"op": "PushN", "h": 1, "n": seqlib.Huge(r, max), "v": r.Intn(100)}
				case 9:
					return seqlib.Op{"op": []string{"PopN", "ShiftN"}[r.Intn(2)], "h": 1, "n": seqlib.Huge(r, 2000)}
				case 10:
					return seqlib.Op{"op": "Extend", "h": 1, "i": seqlib.Huge(r, max)}
				}
				return one("Copy")
			}
			pred := func(op string) seqlib.Op {
				if r.Intn(2) == 0 {
					return seqlib.Op{"op": op, "h": 1, "pred": "below", "x": []int{-500, -499, 0, 1000, 2000}[r.Intn(5)]}
				}
				return seqlib.Op{"op": op, "h": 1, "pred": "mod", "x": r.Intn(2)}
			}
			small := size <= 3000
			switch k := r.Intn(10); {
			case k == 0:
				return one("Reverse")
			case k == 1:
				return seqlib.Op{"op": "Rotate", "h": 1, "i": idx() * (1 - 2*r.Intn(2))}
			case k == 2:
				return pred([]string{"Filter", "IndexOf", "Contains"}[r.Intn(3)])
			case k == 3 && size > 0:
				return seqlib.Op{"op": "Repeat", "h": 1, "i": r.Intn(max/size + 2)}
			case k == 4:
				l := []int{}
				for t := seqlib.Huge(r, 1100); t > 0; t-- {
					l = append(l, []int{1, 1, 1, 0, 2, 3, r.Intn(9)}[r.Intn(7)])
				}
				return seqlib.Op{"op": "Split", "h": 1, "vs": l}
			case k == 5 || k == 6:
				return seqlib.Op{"op": "Batch", "h": 1, "i": []int{1, 1, 2, 3, 10, 255, 256, 257, 1000}[r.Intn(9)]}
			case k == 7 && small:
				return seqlib.Op{"op": []string{"Join", "JoinText", "JoinAny"}[r.Intn(3)], "h": 1, "sep": []string{"", ",", " - "}[r.Intn(3)]}
			case k == 8:
				return one([]string{"Each", "ForEach", "Finalize", "Len"}[r.Intn(4)])
			}
			return one("Copy")
		}
	}
}

// New is an instance, Gens the generators of histories.
func New() seqlib.Sys { return &sys{} }

var Gens = map[string]seqlib.Gen{"edit": gen(true), "rearr": gen(false), "hugeedit": huge(true), "hugerearr": huge(false)}
