// Driver for dsx/mapx/syncmapx.
package main

import (
	"fmt"
	"math/rand"
	"slices"
	"sort"

	"verifharness/dlib"
	"verifharness/vs"

	"github.com/unsafe-risk/utilx/dsx/mapx/syncmapx"
)

type E = dlib.E

type step struct {
	op       string
	key, val int
}

type snap struct {
	live, copy []int
}

func scenario(name string, progs [][]step, b dlib.Scenario) dlib.Scenario {
	b.Name, b.Cfg = name, E{}
	b.Body = func(e *dlib.Env) {
		m := syncmapx.New[int, int]()
		var fs []func()
		snaps := make([][]snap, len(progs)+1)
		do := func(th *dlib.Thread, s step, sn *[]snap) {
			th.Call(s.op, E{"key": s.key, "val": s.val})
			var res any = 0
			switch s.op {
			case "get":
				res = m.Get(s.key)
			case "has":
				if m.Has(s.key) {
					res = 1
				}
			case "set":
				m.Set(s.key, s.val)
			case "del":
				m.Delete(s.key)
			case "size":
				res = m.Size()
			case "keys", "values":
				var l []int
				if s.op == "keys" {
					l = m.Keys()
				} else {
					l = m.Values()
				}
				c := slices.Clone(l)
				*sn = append(*sn, snap{l, slices.Clone(l)})
				sort.Ints(c)
				if c == nil {
					c = []int{}
				}
				res = c
			case "clear":
				m.Clear()
			}
			th.Ret(s.op, E{"res": res})
		}
		for i, p := range progs {
			i, th, p := i, e.Thread(i+1), p
			fs = append(fs, func() {
				for _, s := range p {
					do(th, s, &snaps[i])
				}
			})
		}
		e.Par(fs...)
		th := e.Thread(9)
		last := len(progs)
		for k := 0; k < 4; k++ {
			do(th, step{"get", k, 0}, &snaps[last])
			do(th, step{"has", k, 0}, &snaps[last])
		}
		for _, o := range []string{"size", "keys", "values"} {
			do(th, step{o, 0, 0}, &snaps[last])
		}
		do(th, step{"set", 0, 77}, &snaps[last])
		do(th, step{"del", 1, 0}, &snaps[last])
		do(th, step{"keys", 0, 0}, &snaps[last])
		same := true
		for _, l := range snaps {
			for _, s := range l {
				same = same && slices.Equal(s.live, s.copy)
				// and the caller may change its snapshot without touching the map
				for i := range s.live {
					s.live[i] = -5
				}
			}
		}
		th.Add(E{"k": "recheck", "same": same})
		do(th, step{"keys", 0, 0}, &snaps[last])
		do(th, step{"values", 0, 0}, &snaps[last])
		th.Add(E{"k": "fin"})
	}
	return b
}

func gen(r *rand.Rand, tier, aspect string) []dlib.Scenario {
	mul := 1
	if tier == "thorough" {
		mul = 8
	}
	b := dlib.Scenario{Opt: vs.Options{FairAfter: 2000, MaxSteps: 20000}, Bound: 2, MaxDFS: 2000 * mul, Rand: 200 * mul, Native: 20 * mul, Race: 20 * mul}
	S := func(o string, kv ...int) step {
		s := step{op: o}
		if len(kv) > 0 {
			s.key = kv[0]
		}
		if len(kv) > 1 {
			s.val = kv[1]
		}
		return s
	}
	P := func(p ...[]step) [][]step { return p }
	out := []dlib.Scenario{
		scenario("reads", P([]step{S("set", 1, 1), S("set", 2, 2)}, []step{S("get", 1), S("has", 2), S("get", 2)}), b),
		scenario("keys", P([]step{S("set", 1, 1), S("del", 1), S("set", 2, 2)}, []step{S("keys"), S("values"), S("size")}), b),
		scenario("swap", P([]step{S("set", 1, 5), S("del", 0)}, []step{S("set", 0, 6), S("del", 1)}, []step{S("keys"), S("keys")}), b),
		scenario("clear", P([]step{S("set", 1, 1), S("clear"), S("set", 2, 2)}, []step{S("set", 3, 3), S("size"), S("get", 1)}), b),
		scenario("clear-keys", P([]step{S("set", 1, 1), S("set", 2, 1), S("clear")}, []step{S("keys"), S("values"), S("has", 2)}), b),
		scenario("two-clear", P([]step{S("set", 1, 1), S("clear")}, []step{S("set", 1, 2), S("clear")}, []step{S("get", 1), S("size")}), b),
		scenario("writers", P([]step{S("set", 1, 1), S("get", 1)}, []step{S("set", 1, 2), S("get", 1)}, []step{S("set", 1, 3), S("get", 1)}), b),
		scenario("del-set", P([]step{S("set", 1, 1), S("del", 1)}, []step{S("del", 1), S("set", 1, 2)}, []step{S("has", 1), S("get", 1), S("values")}), b),
	}
	ops := []string{"get", "has", "set", "set", "set", "del", "size", "keys", "values", "clear"}
	for i := 0; i < 40*mul; i++ {
		progs := make([][]step, 2+r.Intn(3))
		for t := range progs {
			for k := 2 + r.Intn(4); k > 0; k-- {
				progs[t] = append(progs[t], step{ops[r.Intn(len(ops))], r.Intn(4), 10*(t+1) + k})
			}
		}
		s := b
		s.Bound, s.MaxDFS = 1+r.Intn(2), 400*mul
		out = append(out, scenario(fmt.Sprintf("random%d", i), progs, s))
	}
	return out
}

func main() { dlib.Main(gen) }
