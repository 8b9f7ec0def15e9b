// Driver of diffx.Differ and timex (C31), on a clock it sets itself.
package main

import (
	"math/rand"
	"sync"
	"time"

	"github.com/unsafe-risk/utilx/timex"
	"github.com/unsafe-risk/utilx/timex/diffx"
	"verifharness/seqlib"
	"verifharness/shim/vtime"
)

var mu sync.Mutex

type sys struct {
	now int64
	w   []*diffx.Differ
}

func triple(sec int64, ns int64) []int {
	d, s := sec/86400, sec%86400
	if s < 0 {
		d, s = d-1, s+86400
	}
	return []int{int(d), int(s), int(ns)}
}

func dur(d time.Duration) []int {
	s, n := int64(d)/1e9, int64(d)%1e9
	if n < 0 {
		s, n = s-1, n+1e9
	}
	return triple(s, n)
}

func moment(t time.Time, from int64) []int {
	if t.Location() != time.UTC {
		return []int{-1, -1, -1}
	}
	return triple(t.Unix()-from, int64(t.Nanosecond()))
}

func (s *sys) Do(o seqlib.Op) any {
	mu.Lock()
	defer mu.Unlock()
	now := s.now
	vtime.Manual = &now
	base := vtime.Base.Unix()
	i := o.I("i") - 1
	d := o.Is("d")
	switch o.S("op") {
	case "new":
		s.w = append(s.w, diffx.New())
	case "pass":
		s.now += int64(d[0])*86400e9 + int64(d[1])*1e9 + int64(d[2])
	case "start":
		s.w[i].Start()
	case "end":
		s.w[i].End()
	case "diff":
		return dur(s.w[i].GetDiff())
	case "getstart":
		return moment(s.w[i].GetStart(), base)
	case "getend":
		return moment(s.w[i].GetEnd(), base)
	case "now":
		return moment(timex.Now(), base)
	case "custom":
		return moment(timex.Custom(int64(d[0])*86400+int64(d[1]), int64(d[2])), 0)
	}
	return []int{}
}

func gen(r *rand.Rand, tier string, n int) (string, func(seqlib.Op, any) seqlib.Op) {
	left := 10 + r.Intn(60)
	var a, b []bool
	budget := 106000
	return "", func(o seqlib.Op, res any) seqlib.Op {
		if o == nil {
			return seqlib.Op{"op": "clock"}
		}
		if left--; left < 0 {
			return nil
		}
		if len(a) == 0 || len(a) < 4 && r.Intn(20) == 0 {
			a, b = append(a, false), append(b, false)
			return seqlib.Op{"op": "new"}
		}
		i := r.Intn(len(a))
		switch x := r.Intn(12); {
		case x < 3:
			d := []int{0, 0, 0}
			for k, m := range []int{100, 86400, 1000000000} {
				if r.Intn(2) == 0 {
					d[k] = r.Intn(m)
				}
			}
			if r.Intn(15) == 0 {
				d[0] = r.Intn(30000)
			}
			if d[0] >= budget {
				d[0] = 0
			}
			if r.Intn(5) == 0 {
				d = []int{0, 0, r.Intn(1000)}
			}
			budget -= d[0] + 1
			return seqlib.Op{"op": "pass", "d": d}
		case x < 5:
			a[i] = true
			return seqlib.Op{"op": "start", "i": i + 1}
		case x < 7:
			b[i] = true
			return seqlib.Op{"op": "end", "i": i + 1}
		case x < 8 && a[i]:
			return seqlib.Op{"op": "getstart", "i": i + 1}
		case x < 9 && b[i]:
			return seqlib.Op{"op": "getend", "i": i + 1}
		case x < 11 && a[i] && b[i]:
			return seqlib.Op{"op": "diff", "i": i + 1}
		case r.Intn(2) == 0:
			return seqlib.Op{"op": "custom", "d": []int{r.Intn(3000000) - 700000, r.Intn(200000) - 100000, r.Intn(4000000000)/2 - 1000000000}}
		}
		return seqlib.Op{"op": "now"}
	}
}

func main() {
	time.Local = time.FixedZone("Elsewhere", 9*3600+1800)
	seqlib.Main(func() seqlib.Sys { return &sys{} }, map[string]seqlib.Gen{"watch": gen})
}
