// Driver of the linked and the slice stack (C19).
package stack

import (
	"fmt"
	"math/rand"

	ls "github.com/unsafe-risk/utilx/dsx/linkedx/stackx"
	ss "github.com/unsafe-risk/utilx/dsx/slicex/stackx"
	"verifharness/seqlib"
)

type stack interface {
	Push(int) bool
	Pop() (int, bool)
	Peek() (int, bool)
	Len() int
}

type sys struct{ q stack }

func (s *sys) Do(o seqlib.Op) any {
	switch o.S("op") {
	case "new":
		if o.I("kind") == 0 {
			s.q = ls.New[int]()
		} else {
			s.q = ss.New[int]()
		}
		return true
	case "Push":
		return s.q.Push(o.I("v"))
	case "Pop":
		return seqlib.Opt(s.q.Pop())
	case "PushN":
		ok := true
		for i := 0; i < o.I("n"); i++ {
			ok = s.q.Push(o.I("v")+i) && ok
		}
		return ok
	case "PopN":
		return seqlib.Many(o.I("n"), s.q.Pop)
	case "Bounce":
		for i := 0; i < o.I("n"); i++ {
			s.q.Push(i)
			if v, ok := s.q.Pop(); !ok || v != i {
				return false
			}
		}
		return true
	case "Peek":
		return seqlib.Opt(s.q.Peek())
	case "Len":
		return s.q.Len()
	case "IsEmpty":
		return s.q.(*ss.Stack[int]).IsEmpty()
	}
	panic("op")
}

func gen(r *rand.Rand, tier string, n int) (string, func(seqlib.Op, any) seqlib.Op) {
	left, v, fill := 60+r.Intn(260), 0, true
	bulk := n%10 < 2
	if bulk {
		left = 30
	}
	return fmt.Sprintf("kind %d", n%2), func(o seqlib.Op, res any) seqlib.Op {
		if o == nil {
			return seqlib.Op{"op": "new", "kind": n % 2}
		}
		if left--; left < 0 {
			return nil
		}
		if r.Intn(25) == 0 {
			fill = !fill
		}
		if r.Intn(4) == 0 {
			return seqlib.Op{"op": []string{"Peek", "Len", "IsEmpty"}[r.Intn(2+n%2)]}
		}
		if bulk && r.Intn(2) == 0 {
			m := 1 + r.Intn(seqlib.Bulk(r))
			v += m
			return []seqlib.Op{{"op": "PushN", "n": m, "v": v - m + 1}, {"op": "PopN", "n": m}, {"op": "Bounce", "n": m * 5}}[r.Intn(3)]
		}
		if fill == (r.Intn(5) > 0) {
			v++
			return seqlib.Op{"op": "Push", "v": v}
		}
		return seqlib.Op{"op": "Pop"}
	}
}

// huge grows and drains a stack far beyond usual sizes.
func huge(r *rand.Rand, tier string, n int) (string, func(seqlib.Op, any) seqlib.Op) {
	v := 0
	push := func(m int) seqlib.Op { v += m; return seqlib.Op{"op": "PushN", "n": m, "v": v - m + 1} }
	ops := []seqlib.Op{{"op": "new", "kind": n % 2}, push(1<<16 + r.Intn(5000)), {"op": "Len"}, {"op": "Peek"}}
	for i := 0; i < 4; i++ {
		ops = append(ops, seqlib.Op{"op": "PopN", "n": seqlib.Huge(r, 1<<17)}, seqlib.Op{"op": "Bounce", "n": seqlib.Huge(r, 1<<17)}, seqlib.Op{"op": "Len"}, push(seqlib.Huge(r, 1<<16)), seqlib.Op{"op": "Peek"}, seqlib.Op{"op": "Len"})
	}
	return fmt.Sprintf("huge, kind %d", n%2), seqlib.Script(append(ops, seqlib.Op{"op": "PopN", "n": 1 << 19}, seqlib.Op{"op": "Len"}, push(3), seqlib.Op{"op": "PopN", "n": 4})...)
}

// New is an instance, Gens the generators of histories.
func New() seqlib.Sys { return &sys{} }

var Gens = map[string]seqlib.Gen{"stack": gen, "huge": huge}
