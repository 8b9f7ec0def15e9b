// Driver of several containers side by side (C37).
package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"

	"verifharness/comp/bitset"
	"verifharness/comp/branches"
	"verifharness/comp/deque"
	"verifharness/comp/interval"
	"verifharness/comp/list"
	"verifharness/comp/ordmap"
	"verifharness/comp/queue"
	"verifharness/comp/skipmap"
	"verifharness/comp/slice"
	"verifharness/comp/sorts"
	"verifharness/comp/stack"
	"verifharness/seqlib"
)

type comp struct {
	mk  func() seqlib.Sys
	gen map[string]seqlib.Gen
}

var comps = map[string]comp{"queue": {queue.New, queue.Gens}, "stack": {stack.New, stack.Gens}, "deque": {deque.New, deque.Gens}, "list": {list.New, list.Gens},
	"skipmap": {skipmap.New, skipmap.Gens}, "ordmap": {ordmap.New, ordmap.Gens}, "slice": {slice.New, slice.Gens}, "bitset": {bitset.New, bitset.Gens},
	"sorts": {sorts.New, sorts.Gens}, "interval": {interval.New, interval.Gens}, "branches": {branches.New, branches.Gens}}

var names = []string{"queue", "stack", "deque", "list", "skipmap", "ordmap", "queue", "stack", "deque", "list", "skipmap", "ordmap", "slice", "bitset", "sorts", "interval", "branches"}

type sys struct{ parts map[int]seqlib.Sys }

func (s *sys) Do(o seqlib.Op) any {
	sub, ok := o["o"].(seqlib.Op)
	if !ok {
		sub = o["o"].(map[string]any)
	}
	i := o.I("i")
	if s.parts[i] == nil {
		s.parts[i] = comps[o.S("c")].mk()
	}
	return s.parts[i].Do(sub)
}

type part struct {
	c    string
	i    int
	next func(seqlib.Op, any) seqlib.Op
	op   seqlib.Op
	res  any
}

func gen(r *rand.Rand, tier string, n int) (string, func(seqlib.Op, any) seqlib.Op) {
	one := names[r.Intn(len(names))]
	mixed := n%3 == 0
	var ps []*part
	var cur *part
	total, left := 0, 120+r.Intn(150)
	many := 2 + r.Intn(4)
	add := func() {
		c := one
		if mixed {
			c = names[r.Intn(len(names))]
		}
		gs := make([]string, 0, 2)
		for g := range comps[c].gen {
			if !strings.HasPrefix(g, "huge") {
				gs = append(gs, g)
			}
		}
		sort.Strings(gs)
		// a number that does not ask for a large history
		_, nx := comps[c].gen[gs[r.Intn(len(gs))]](r, tier, 2+r.Intn(8)+120*r.Intn(8))
		total++
		ps = append(ps, &part{c: c, i: total, next: nx})
	}
	how := one
	if mixed {
		how = "mixed"
	}
	return fmt.Sprintf("%d %s", many, how), func(o seqlib.Op, res any) seqlib.Op {
		if cur != nil {
			cur.res = res
			if r.Intn(60) == 0 {
				runtime.GC()
			}
		}
		for {
			for len(ps) < many {
				add()
			}
			// stay with an instance for a while or turn to another one
			if cur == nil || r.Intn(3) > 0 {
				cur = ps[r.Intn(len(ps))]
			}
			if left--; left < 0 {
				return nil
			}
			if cur.op = cur.next(cur.op, cur.res); cur.op != nil {
				if cur.op.S("op") == "Shuffled" { // has too many outcomes
					cur.op["op"] = "Reverse"
				}
				return seqlib.Op{"i": cur.i, "c": cur.c, "o": cur.op}
			}
			for k, p := range ps {
				if p == cur {
					ps = append(ps[:k], ps[k+1:]...)
					break
				}
			}
			cur = nil
		}
	}
}

func main() {
	seqlib.Main(func() seqlib.Sys { return &sys{map[int]seqlib.Sys{}} }, map[string]seqlib.Gen{"world": gen})
}
