// Driver of optionx, resultx and optionalx (C35).
package branches

import (
	"errors"
	"fmt"
	"math/rand"

	"github.com/unsafe-risk/utilx/configx/optionalx"
	"github.com/unsafe-risk/utilx/functionalx/optionx"
	"github.com/unsafe-risk/utilx/functionalx/resultx"
	"verifharness/seqlib"
)

var errs = []error{nil, errors.New("one"), errors.New("two"), errors.New("three")}

func errNo(e error) int {
	for i, x := range errs {
		if x == e {
			return i
		}
	}
	return -1
}

type matcher interface {
	match(a, b int) any
}

// codec maps numbers to values of T; 0 is the zero value where there is one.
type codec[T any] struct {
	to   func(int) T
	from func(T) int
}

type opt[T any] struct {
	o optionx.Option[T]
	c codec[T]
}

func (o opt[T]) match(a, b int) any {
	calls := [][]int{}
	v, err := o.o.Match(func(x T) (T, error) {
		calls = append(calls, []int{1, o.c.from(x)})
		return o.c.to(a), errs[b]
	}, func() (T, error) {
		calls = append(calls, []int{2})
		return o.c.to(a), errs[b]
	})
	return map[string]any{"calls": calls, "ret": []int{o.c.from(v), errNo(err)}}
}

type res[T, E any] struct {
	o resultx.Result[T, E]
	c codec[T]
	e codec[E]
}

func (o res[T, E]) match(a, b int) any {
	calls := [][]int{}
	v, err := o.o.Match(func(x T) (T, E) {
		calls = append(calls, []int{1, o.c.from(x)})
		return o.c.to(a), o.e.to(b)
	}, func(x E) (T, E) {
		calls = append(calls, []int{2, o.e.from(x)})
		return o.c.to(a), o.e.to(b)
	})
	return map[string]any{"calls": calls, "ret": []int{o.c.from(v), o.e.from(err)}}
}

type maker interface {
	make(op string, v int) matcher
}
type mk[T, E any] struct {
	c codec[T]
	e codec[E]
}

func (m mk[T, E]) make(op string, v int) matcher {
	switch op {
	case "some":
		return opt[T]{optionx.Some(m.c.to(v)), m.c}
	case "none":
		return opt[T]{optionx.None[T](), m.c}
	case "ok":
		return res[T, E]{resultx.Ok[T, E](m.c.to(v)), m.c, m.e}
	}
	return res[T, E]{resultx.Err[T, E](m.e.to(v)), m.c, m.e}
}

var (
	cInt = codec[int]{func(i int) int { return i }, func(i int) int { return i }}
	cStr = codec[string]{func(i int) string {
		if i == 0 {
			return ""
		}
		return fmt.Sprint(i)
	}, func(s string) (i int) { fmt.Sscan(s, &i); return }}
	nums = func() (r [200]int) {
		for i := range r {
			r[i] = i
		}
		return
	}()
	cPtr = codec[*int]{func(i int) *int {
		if i == 0 {
			return nil
		}
		return &nums[i]
	}, func(p *int) int {
		for i := range nums {
			if p == &nums[i] {
				return i
			}
		}
		if p != nil {
			return -1
		}
		return 0
	}}
	cErr = codec[error]{func(i int) error { return errs[i%4] }, errNo}
	cSl  = codec[[]int]{func(i int) []int {
		if i == 0 {
			return nil
		}
		return make([]int, i)
	}, func(s []int) int { return len(s) }}
	cStruct = codec[struct {
		a int
		b string
	}]{func(i int) struct {
		a int
		b string
	} {
		return struct {
			a int
			b string
		}{i, cStr.to(i)}
	}, func(s struct {
		a int
		b string
	}) int {
		if cStr.from(s.b) != s.a {
			return -1
		}
		return s.a
	}}
	cAny = codec[any]{func(i int) any {
		if i == 0 {
			return nil
		}
		return i
	}, func(v any) int { i, _ := v.(int); return i }}
)

var makers = []maker{mk[int, error]{cInt, cErr}, mk[string, string]{cStr, cStr}, mk[*int, error]{cPtr, cErr}, mk[[]int, any]{cSl, cAny},
	mk[struct {
		a int
		b string
	}, int]{cStruct, cInt}, mk[any, *int]{cAny, cPtr}, mk[error, error]{cErr, cErr}}

type sys struct {
	m maker
	h []matcher
}

type box struct{ id, v int }

func obs(b *box) []int {
	if b == nil {
		return []int{}
	}
	return []int{b.id, b.v}
}

func param(fs []any, c string) any {
	n := 0
	seen := [][]int{}
	app := func(f string) func(*box) *box {
		return func(p *box) *box {
			seen = append(seen, obs(p))
			switch f {
			case "nil":
				return nil
			case "fresh":
				n++
				return &box{n, 10 * n}
			case "change":
				if p != nil {
					p.v++
				}
			}
			return p
		}
	}
	var l []func(*box) *box
	for _, f := range fs {
		l = append(l, app(f.(string)))
	}
	type R struct{ b *box }
	var out *R
	r := optionalx.Parameter(func(p *box) *R {
		seen = append(seen, obs(p))
		switch c {
		case "nil":
			return nil
		case "fresh":
			n++
			out = &R{&box{n, 10 * n}}
		default:
			if p == nil {
				return nil
			}
			out = &R{p}
		}
		return out
	}, l...)
	if r != out {
		return "another result"
	}
	var b *box
	if r != nil {
		b = r.b
	}
	return map[string]any{"seen": seen, "ret": obs(b)}
}

func (s *sys) Do(o seqlib.Op) any {
	switch o.S("op") {
	case "new":
		s.m = makers[o.I("kind")]
	case "some", "none", "ok", "err":
		s.h = append(s.h, s.m.make(o.S("op"), o.I("v")))
	case "match":
		return s.h[o.I("i")-1].match(o.I("a"), o.I("b"))
	case "param":
		return param(o.L("f"), o.S("c"))
	}
	return true
}

func gen(r *rand.Rand, tier string, n int) (string, func(seqlib.Op, any) seqlib.Op) {
	left, held := 5+r.Intn(20), 0
	max := []int{100, 100, 100, 100, 100, 100, 4}
	kind := r.Intn(len(makers))
	return "", func(o seqlib.Op, res any) seqlib.Op {
		if o == nil {
			return seqlib.Op{"op": "new", "kind": kind}
		}
		if left--; left < 0 {
			return nil
		}
		v := func() int {
			if r.Intn(4) == 0 {
				return 0
			}
			if kind == 0 || kind == 2 || kind == 6 { // errors have four values
				return r.Intn(4)
			}
			return r.Intn(max[kind])
		}
		switch x := r.Intn(10); {
		case x < 3 || held == 0:
			held++
			op := []string{"some", "none", "ok", "err"}[r.Intn(4)]
			a := v()
			if op == "none" {
				a = 0
			}
			return seqlib.Op{"op": op, "v": a}
		case x < 8:
			return seqlib.Op{"op": "match", "i": 1 + r.Intn(held), "a": v(), "b": r.Intn(2)}
		}
		fs := []any{}
		for k := r.Intn(8); k > 0; k-- {
			fs = append(fs, []string{"nil", "same", "fresh", "change"}[r.Intn(4)])
		}
		return seqlib.Op{"op": "param", "f": fs, "c": []string{"nil", "same", "fresh"}[r.Intn(3)]}
	}
}

// huge applies many functions.
func huge(r *rand.Rand, tier string, n int) (string, func(seqlib.Op, any) seqlib.Op) {
	ops := []seqlib.Op{{"op": "new", "kind": 0}}
	for i := 0; i < 4; i++ {
		fs := []any{}
		w := r.Intn(3)
		for k := seqlib.Huge(r, 700); k > 0; k-- {
			fs = append(fs, []string{"change", "change", "change", "same", "fresh", "nil"}[r.Intn(4+w)])
		}
		ops = append(ops, seqlib.Op{"op": "param", "f": fs, "c": []string{"nil", "same", "fresh"}[r.Intn(3)]})
	}
	return "huge", seqlib.Script(ops...)
}

// New is an instance, Gens the generators of histories.
func New() seqlib.Sys { return &sys{} }

var Gens = map[string]seqlib.Gen{"branches": gen, "huge": huge}
