// Driver for the conversion registry of typex/convx.
package main

import (
	"errors"
	"fmt"
	"math/rand"
	"strconv"

	"verifharness/dlib"
	"verifharness/vs"

	"github.com/unsafe-risk/utilx/typex/convx"
)

type E = dlib.E

// types converted between; the number inside identifies the value
type (
	A   int
	B   struct{ n int }
	str int
	er  int
)

func (s str) String() string { return strconv.Itoa(int(s)) }
func (s er) Error() string   { return strconv.Itoa(int(s)) }

type boxed[T any] struct {
	to   func(int) T
	from func(T) int
}

var (
	bA  = boxed[A]{func(n int) A { return A(n) }, func(a A) int { return int(a) }}
	bB  = boxed[B]{func(n int) B { return B{n} }, func(b B) int { return b.n }}
	bPB = boxed[*B]{func(n int) *B { return &B{n} }, func(b *B) int {
		if b == nil {
			return 0
		}
		return b.n
	}}
	bAny = boxed[any]{func(n int) any { return A(n) }, func(x any) int {
		if x == nil {
			return 0
		}
		return int(x.(A))
	}}
	bStr = boxed[fmt.Stringer]{func(n int) fmt.Stringer { return str(n) }, func(x fmt.Stringer) int {
		if x == nil {
			return 0
		}
		return int(x.(str))
	}}
	bErr = boxed[error]{func(n int) error { return er(n) }, func(x error) int {
		if x == nil {
			return 0
		}
		var e er
		if !errors.As(x, &e) {
			return -1
		}
		return int(e)
	}}
)

type pair struct {
	reg    func(use func(v int) int)
	unreg  func()
	exists func() bool
	into   func(v int) (int, bool)
	or     func(v, or int) int
}

func mk[T, R any](t boxed[T], r boxed[R]) pair {
	return pair{
		reg:    func(use func(int) int) { convx.Register(func(x T) R { return r.to(use(t.from(x))) }) },
		unreg:  func() { convx.Unregister[T, R]() },
		exists: func() bool { return convx.Exists[T, R]() },
		into:   func(v int) (int, bool) { x, ok := convx.Into[T, R](t.to(v)); return r.from(x), ok },
		or:     func(v, or int) int { return r.from(convx.IntoOr(t.to(v), r.to(or))) },
	}
}

// different types with the same name
func pairA() pair {
	type local int
	return mk(boxed[local]{func(n int) local { return local(n) }, func(x local) int { return int(x) }}, bB)
}

func pairB() pair {
	type local int
	return mk(boxed[local]{func(n int) local { return local(n) }, func(x local) int { return int(x) }}, bB)
}

func pairC() pair {
	type local int
	return mk(bA, boxed[local]{func(n int) local { return local(n) }, func(x local) int { return int(x) }})
}

func pairD() pair {
	type local int
	return mk(bA, boxed[local]{func(n int) local { return local(n) }, func(x local) int { return int(x) }})
}

type gen1[T any] struct{ n int }

func pairG[T any]() pair {
	return mk(boxed[gen1[T]]{func(n int) gen1[T] { return gen1[T]{n} }, func(x gen1[T]) int { return x.n }}, bA)
}

var pairs = []pair{{}, mk(bA, bB), mk(bB, bA), mk(bA, bA), mk(bAny, bB), mk(bA, bStr), mk(bStr, bAny), mk(bStr, bErr), mk(bPB, bB), mk(bA, bPB), pairA(), pairB(), pairG[int](), pairG[string](), pairC(), pairD()}

// step; nested lists what the converter registered by this step does when it runs
type step struct {
	op     string
	p, arg int
	nested []step
}

func scenario(name string, progs [][]step, b dlib.Scenario) dlib.Scenario {
	b.Name, b.Cfg = name, E{}
	b.Body = func(e *dlib.Env) {
		for _, p := range pairs[1:] {
			p.unreg()
		}
		var do func(id int, s step)
		do = func(id int, s step) {
			th := e.Thread(id)
			val := id*10 + s.arg%10
			arg, or := 0, 0
			switch s.op {
			case "reg":
				arg = s.arg
			case "into":
				arg = val
			case "intoor":
				arg, or = val, 7
			}
			th.Call(s.op, E{"p": s.p, "arg": arg, "or": or})
			ok, res := false, 0
			p := pairs[s.p]
			switch s.op {
			case "reg":
				p.reg(func(v int) int {
					// the value tells which thread converts
					t := v / 10
					for _, n := range s.nested {
						if t < 70 {
							do(t+20, n)
						}
					}
					e.Fine()
					e.Thread(t).Add(E{"k": "conv", "c": s.arg, "v": v})
					if s.arg >= 90 { // a converter to the zero value
						return 0
					}
					return s.arg*1000 + v
				})
			case "unreg":
				p.unreg()
			case "exists":
				ok = p.exists()
			case "into":
				res, ok = p.into(val)
			case "intoor":
				res = p.or(val, 7)
			}
			th.Ret(s.op, E{"ok": ok, "res": res})
		}
		var fs []func()
		for i, p := range progs {
			i, p := i, p
			fs = append(fs, func() {
				for _, s := range p {
					do(i+1, s)
				}
			})
		}
		e.Par(fs...)
		for p := 1; p < len(pairs); p++ {
			do(9, step{op: "exists", p: p})
			do(9, step{op: "into", p: p, arg: 3})
			do(9, step{op: "intoor", p: p, arg: 4})
		}
		e.Thread(9).Add(E{"k": "fin"})
		for _, p := range pairs[1:] {
			p.unreg()
		}
	}
	return b
}

func gen(r *rand.Rand, tier, aspect string) []dlib.Scenario {
	mul := 1
	if tier == "thorough" {
		mul = 8
	}
	b := dlib.Scenario{Opt: vs.Options{FairAfter: 2000, MaxSteps: 30000}, Bound: 2, MaxDFS: 1500 * mul, Rand: 150 * mul, Native: 15 * mul, Race: 15 * mul}
	S := func(o string, p, a int, n ...step) step { return step{o, p, a, n} }
	P := func(p ...[]step) [][]step { return p }
	out := []dlib.Scenario{
		scenario("latest", P([]step{S("reg", 1, 1), S("reg", 1, 2), S("unreg", 1, 0)}, []step{S("into", 1, 1), S("exists", 1, 0), S("intoor", 1, 2)}), b),
		scenario("own-pair", P([]step{S("reg", 1, 1), S("reg", 2, 2), S("unreg", 3, 0)}, []step{S("unreg", 2, 0), S("reg", 9, 3), S("into", 1, 1)}), b),
		scenario("first", P([]step{S("reg", 1, 1), S("into", 1, 1)}, []step{S("reg", 3, 2), S("into", 3, 1)}, []step{S("reg", 9, 3), S("into", 9, 1)}), b),
		scenario("iface", P([]step{S("reg", 4, 1), S("into", 4, 1), S("exists", 4, 0)}, []step{S("reg", 5, 2), S("into", 5, 1), S("intoor", 5, 2)}), b),
		scenario("iface2", P([]step{S("reg", 6, 1), S("reg", 7, 2), S("into", 6, 1), S("into", 7, 1), S("unreg", 6, 0)}, []step{S("exists", 7, 0), S("intoor", 6, 4), S("into", 7, 2)}), b),
		scenario("names", P([]step{S("reg", 10, 1), S("exists", 11, 0), S("into", 11, 1), S("reg", 11, 2), S("into", 10, 1), S("unreg", 10, 0)}, []step{S("reg", 12, 3), S("exists", 13, 0), S("intoor", 13, 1)}), b),
		scenario("names2", P([]step{S("reg", 14, 1), S("exists", 15, 0), S("into", 15, 1), S("reg", 15, 2), S("into", 14, 1), S("unreg", 14, 0)}, []step{S("into", 15, 3), S("intoor", 14, 1)}), b),
		scenario("zero", P([]step{S("reg", 1, 90), S("intoor", 1, 1), S("into", 1, 2), S("reg", 4, 91), S("intoor", 4, 1), S("reg", 5, 92), S("intoor", 5, 1), S("reg", 8, 93), S("intoor", 8, 1),
			S("reg", 9, 94), S("intoor", 9, 1), S("reg", 7, 95), S("intoor", 7, 1), S("into", 7, 0)}), b),
		scenario("zero2", P([]step{S("reg", 1, 90), S("intoor", 1, 1), S("reg", 1, 1), S("intoor", 1, 3)}, []step{S("intoor", 1, 2), S("unreg", 1, 0), S("intoor", 1, 4)}), b),
		scenario("nested-into", P([]step{S("reg", 1, 1, S("into", 2, 1), S("exists", 1, 0)), S("reg", 2, 2), S("into", 1, 1)}, []step{S("reg", 3, 3), S("unreg", 3, 0), S("into", 1, 5)}), b),
		scenario("nested-reg", P([]step{S("reg", 1, 1, S("reg", 2, 5), S("unreg", 3, 0)), S("into", 1, 1), S("into", 2, 1)}, []step{S("reg", 3, 3), S("into", 3, 2)}), b),
		scenario("nested-self", P([]step{S("reg", 1, 1, S("reg", 1, 4)), S("into", 1, 1), S("into", 1, 2)}, []step{S("into", 1, 3)}), b),
	}
	ops := []string{"reg", "reg", "reg", "unreg", "exists", "into", "into", "into", "intoor"}
	id := 0
	rs := func() step {
		o := ops[r.Intn(len(ops))]
		p := []int{1, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}[r.Intn(17)]
		a := r.Intn(10)
		if o == "reg" {
			id++
			a = 1 + id%89
			if id%4 == 0 {
				a = 90 + id/4%9
			}
		}
		return step{o, p, a, nil}
	}
	for i := 0; i < 30*mul; i++ {
		progs := make([][]step, 2+r.Intn(2))
		id = 0
		for t := range progs {
			for k := 2 + r.Intn(4); k > 0; k-- {
				s := rs()
				if s.op == "reg" && r.Intn(2) == 0 {
					n := rs()
					if n.op == "reg" || n.op == "unreg" || n.op == "exists" || n.p != s.p {
						s.nested = append(s.nested, n)
					}
				}
				progs[t] = append(progs[t], s)
			}
		}
		s := b
		s.Bound, s.MaxDFS = 1+r.Intn(2), 300*mul
		out = append(out, scenario(fmt.Sprintf("random%d", i), progs, s))
	}
	return out
}

func main() { dlib.Main(gen) }
