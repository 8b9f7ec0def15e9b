// Driver of truncatex and timex (C30).
package main

import (
	"math"
	"math/rand"
	"time"

	"github.com/unsafe-risk/utilx/timex/truncatex"
	"verifharness/seqlib"
)

const big = 1 << 30

func sec(l []int) int64 { return int64(l[0])*86400 + int64(l[1]) }

func split(s int64) []int {
	d, m := s/86400, s%86400
	if m < 0 {
		d, m = d-1, m+86400
	}
	if d > big || d < -big {
		d = big
	}
	return []int{int(d), int(m)}
}

type sys struct{}

func (sys) Do(o seqlib.Op) any {
	t := o.Is("t")
	switch o.S("op") {
	case "trunc":
		f := map[string]func(int64) int64{"Sec": truncatex.TruncateSec, "Min": truncatex.TruncateMin, "Hour": truncatex.TruncateHour,
			"Day": truncatex.TruncateDay, "Week": truncatex.TruncateWeek, "Month": truncatex.TruncateMonth, "Year": truncatex.TruncateYear}[o.S("fn")]
		return split(f(sec(t)))
	case "truncN":
		n := o.Is("n")
		k := sec(n)
		if n[0] >= big {
			k = math.MaxInt64
		}
		if o.B("neg") {
			k = -k
			if n[0] >= big {
				k = math.MinInt64
			}
		}
		return split(truncatex.Truncate(sec(t), k))
	}
	return true
}

func gen(r *rand.Rand, tier string, n int) (string, func(seqlib.Op, any) seqlib.Op) {
	left := 40
	lo, hi := time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC).Unix(), time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC).Unix()
	fns := []string{"Sec", "Min", "Hour", "Day", "Week", "Month", "Year"}
	// the local zone must not matter
	return "", func(o seqlib.Op, res any) seqlib.Op {
		if o == nil {
			return seqlib.Op{"op": "new"}
		}
		if left--; left < 0 {
			return nil
		}
		var s int64
		lo, hi := lo, hi
		switch r.Intn(8) {
		case 6: // far away: years -200000 to 200000
			lo, hi = -200000*31556952, 200000*31556952
			s = lo + r.Int63n(hi-lo+1)
		case 7:
			lo, hi = -200000*31556952, 200000*31556952
			y := []int{10000 + r.Intn(1000), -r.Intn(1000), r.Intn(400000) - 200000, 0, 10000, 1, -1}[r.Intn(7)]
			s = time.Date(y, time.Month(1+r.Intn(13)), 1, 0, 0, 0, 0, time.UTC).Unix() + int64(r.Intn(5)) - 2
		case 0:
			s = lo + r.Int63n(hi-lo+1)
		case 1, 2: // around the start of a month of some year
			y := []int{1 + r.Intn(9999), 1960 + r.Intn(30), []int{1900, 2000, 2100, 4, 400, 1600, 1972, 1968}[r.Intn(8)]}[r.Intn(3)]
			s = time.Date(y, time.Month(1+r.Intn(13)), 1, 0, 0, 0, 0, time.UTC).Unix() + int64(r.Intn(5)) - 2
		case 3: // around midnight
			s = lo + r.Int63n(hi-lo+1)
			s -= s % 86400
			s += int64(r.Intn(5)) - 2
		case 4:
			s = r.Int63n(4e9) - 2e9
		case 5:
			s = int64(r.Intn(20000) - 10000)
		}
		if s < lo {
			s = lo
		}
		if s > hi {
			s = hi
		}
		if r.Intn(3) > 0 {
			return seqlib.Op{"op": "trunc", "fn": fns[r.Intn(len(fns))], "t": split(s)}
		}
		var n int64
		switch r.Intn(6) {
		case 0:
			n = int64(r.Intn(200))
		case 1:
			n = int64(r.Intn(200000))
		case 2:
			n = r.Int63n(1 << 40)
		case 3:
			n = []int64{1, 2, 60, 3600, 86400, 86400 * 7, 86400 * 28, 31536000, 1 << 31, 9223372036, 9223372037, 18446744074}[r.Intn(12)]
		case 4:
			n = []int64{7, 11, 3599, 86399, 604799}[r.Intn(5)]
		case 5:
			k := []int{big, big, 0, 0, 0}[r.Intn(5)]
			if s < time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC).Unix() {
				k = 0 // the result would be out of range
			}
			return seqlib.Op{"op": "truncN", "t": split(s), "n": []int{k, r.Intn(100)}, "neg": k != 0 && r.Intn(2) == 0 || k == 0}
		}
		if n == 0 {
			return seqlib.Op{"op": "truncN", "t": split(s), "n": []int{0, 0}, "neg": true}
		}
		return seqlib.Op{"op": "truncN", "t": split(s), "n": split(n), "neg": false}
	}
}

func main() {
	if l, err := time.LoadLocation("America/New_York"); err == nil {
		time.Local = l
	} else {
		time.Local = time.FixedZone("X", -5*3600-1800)
	}
	seqlib.Main(func() seqlib.Sys { return sys{} }, map[string]seqlib.Gen{"cal": gen})
}
