// Driver of bitsetx (C27).
package bitset

import (
	"fmt"
	"math/rand"

	"github.com/unsafe-risk/utilx/dsx/setx/bitsetx"
	"golang.org/x/exp/constraints"
	"verifharness/seqlib"
)

type (
	word   uint8
	word16 uint16
	word32 uint32
	word64 uint64
	native uint
	ptr    uintptr
)

type impl[T constraints.Unsigned] struct{ b bitsetx.BitSet[T] }

func (s *impl[T]) Do(o seqlib.Op) any {
	l := o.Is("l")
	switch o.S("op") {
	case "new":
	case "Set":
		s.b.Set(l...)
	case "Clear":
		s.b.Clear(l...)
	case "Toggle":
		s.b.Toggle(l...)
	case "Test":
		return s.b.Test(l...)
	case "SetAll":
		s.b.SetAll()
	case "ClearAll":
		s.b.ClearAll()
	case "ToggleAll":
		s.b.ToggleAll()
	case "IsEmpty":
		return s.b.IsEmpty()
	case "IsFull":
		return s.b.IsFull()
	default:
		panic("op")
	}
	return true
}

type sys struct{ seqlib.Sys }

var widths = []int{8, 16, 32, 64, 64, 64, 8, 16, 32, 64, 64, 64}

func (s *sys) Do(o seqlib.Op) any {
	if o.S("op") == "new" {
		switch o.I("kind") {
		case 0:
			s.Sys = &impl[uint8]{}
		case 1:
			s.Sys = &impl[uint16]{}
		case 2:
			s.Sys = &impl[uint32]{}
		case 3:
			s.Sys = &impl[uint64]{}
		case 4:
			s.Sys = &impl[uint]{}
		case 5:
			s.Sys = &impl[uintptr]{}
		case 6:
			s.Sys = &impl[word]{}
		case 7:
			s.Sys = &impl[word16]{}
		case 8:
			s.Sys = &impl[word32]{}
		case 9:
			s.Sys = &impl[word64]{}
		case 10:
			s.Sys = &impl[native]{}
		case 11:
			s.Sys = &impl[ptr]{}
		}
	}
	return s.Sys.Do(o)
}

func gen(r *rand.Rand, tier string, n int) (string, func(seqlib.Op, any) seqlib.Op) {
	kind := n % len(widths)
	w := widths[kind]
	left, q := 60+r.Intn(200), []seqlib.Op(nil)
	return fmt.Sprintf("kind %d", kind), func(o seqlib.Op, res any) seqlib.Op {
		if o == nil {
			return seqlib.Op{"op": "new", "kind": kind}
		}
		if left--; left < 0 {
			return nil
		}
		if len(q) == 0 {
			pos := func() int {
				if r.Intn(12) == 0 {
					return []int{w, w + 1, 2 * w, 64, 1000, 1 << 30}[r.Intn(6)]
				}
				return r.Intn(w)
			}
			l := []int{}
			for i := []int{1, 1, 2, 3, 0, w}[r.Intn(6)]; i > 0; i-- {
				l = append(l, pos())
			}
			switch k := r.Intn(12); k {
			case 0:
				q = append(q, seqlib.Op{"op": []string{"SetAll", "ClearAll", "ToggleAll"}[r.Intn(3)]})
			case 1:
				q = append(q, seqlib.Op{"op": "Test", "l": l})
			default:
				q = append(q, seqlib.Op{"op": []string{"Set", "Clear", "Toggle"}[k%3], "l": l})
			}
			q = append(q, seqlib.Op{"op": "IsEmpty"}, seqlib.Op{"op": "IsFull"})
			if r.Intn(4) == 0 { // read all of it
				for i := 0; i < w; i++ {
					q = append(q, seqlib.Op{"op": "Test", "l": []int{i}})
				}
			}
		}
		x := q[0]
		q = q[1:]
		return x
	}
}

// huge names many positions at once.
func huge(r *rand.Rand, tier string, n int) (string, func(seqlib.Op, any) seqlib.Op) {
	w := widths[n%len(widths)]
	ops := []seqlib.Op{{"op": "new", "kind": n % len(widths)}}
	for i := 0; i < 6; i++ {
		l := []int{}
		for k := seqlib.Huge(r, 3000); k > 0; k-- {
			l = append(l, r.Intn(w+r.Intn(3)))
		}
		ops = append(ops, seqlib.Op{"op": []string{"Set", "Clear", "Toggle", "Test"}[r.Intn(4)], "l": l})
		for i := 0; i < w; i++ {
			ops = append(ops, seqlib.Op{"op": "Test", "l": []int{i}})
		}
	}
	return "huge", seqlib.Script(ops...)
}

// New is an instance, Gens the generators of histories.
func New() seqlib.Sys { return &sys{} }

var Gens = map[string]seqlib.Gen{"bits": gen, "huge": huge}
