// Driver for iox/managerx/closex.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"strings"

	"verifharness/dlib"
	"verifharness/vs"

	"github.com/unsafe-risk/utilx/iox/managerx/closex"
)

type E = dlib.E

type step struct {
	op    string // append, close
	m, x  int
	fails string // never, always, odd (calls)
}

type failure struct{ m, x, n int }

func (f *failure) Error() string { return fmt.Sprintf("failure <%d> of <%d>", f.x, f.m) }

// plain error kinds, so that dynamic types vary
type failText string

func (f failText) Error() string { return string(f) }

type closer struct {
	e     *dlib.Env
	m, x  int
	fails string
	calls int
	kind  int
}

func (c *closer) Close() error {
	c.e.Fine()
	c.calls++
	f := c.fails == "always" || c.fails == "odd" && c.calls%2 == 1
	what := c.x
	if c.kind%6 == 3 {
		what = same + c.kind/6%len(known)
	}
	c.e.Thread(8).Add(E{"k": "cl", "m": c.m, "x": c.x, "fails": f, "err": what})
	if !f {
		return nil
	}
	f0 := &failure{c.m, c.x, c.calls}
	switch c.kind % 6 {
	case 0:
		return f0
	case 1:
		return failText(fmt.Sprintf("text %d %d %d", c.m, c.x, c.calls))
	case 2:
		return fmt.Errorf("wrapped: %w", f0)
	case 3: // the same error from every closer: told apart by their places only
		return known[c.kind/6%len(known)]
	case 4: // equal texts, different errors
		return alike{f0}
	}
	return closex.ErrorList{errors.New("inner"), f0}
}

type wrapped struct{ error }

func (w wrapped) Unwrap() error { return w.error }

var errSame = errors.New("all the same")

type alike struct{ f *failure }

func (alike) Error() string { return "alike" }

// Well-known errors; each is as good a failure as any.
var known = []error{errSame, os.ErrClosed, io.EOF, net.ErrClosed, io.ErrClosedPipe, context.Canceled, http.ErrServerClosed}

// same and the following numbers are what the history shows for them, whichever closer they came from.
const same = 1000

// find tells which closer of m failed with err.
func find(m int, err error) int {
	for i, k := range known {
		if _, l := err.(closex.ErrorList); !l && k == err {
			return same + i
		}
	}
	var f failure
	switch x := err.(type) {
	case nil:
		return -1
	case alike:
		f = *x.f
	case failText:
		fmt.Sscanf(string(x), "text %d %d %d", &f.m, &f.x, &f.n)
	case *failure:
		f = *x
	case closex.ErrorList:
		if len(x) == 2 {
			f = *x[1].(*failure)
		}
	default:
		if y, ok := errors.Unwrap(err).(*failure); ok {
			f = *y
		}
	}
	if f.m != m {
		return -1
	}
	return f.x
}

func scenario(name string, shared bool, progs [][]step, b dlib.Scenario) dlib.Scenario {
	b.Name, b.Cfg = name, E{}
	b.Body = func(e *dlib.Env) {
		old := closex.Default
		closex.Default = closex.New()
		defer func() { closex.Default = old }()
		ms := []*closex.CloseManager{closex.New(), closex.New(), closex.New(), closex.New()}
		var all [4]map[int]*closer
		for i := range all {
			all[i] = map[int]*closer{}
		}
		for _, p := range progs {
			for _, s := range p {
				if s.op == "append" && all[s.m][s.x] == nil {
					all[s.m][s.x] = &closer{e: e, m: s.m, x: s.x, fails: s.fails, kind: s.x}
				}
			}
		}
		do := func(th *dlib.Thread, s step, pkg bool) {
			switch s.op {
			case "append":
				th.Call("append", E{"m": s.m, "x": s.x})
				if s.m == 0 && pkg {
					closex.Append(all[s.m][s.x])
				} else if s.m == 0 {
					closex.Default.Append(all[s.m][s.x])
				} else {
					ms[s.m].Append(all[s.m][s.x])
				}
				th.Ret("append", E{})
			case "close":
				th.Call("close", E{"m": s.m})
				var err error
				if s.m == 0 && pkg {
					err = closex.Close()
				} else if s.m == 0 {
					err = closex.Default.Close()
				} else {
					err = ms[s.m].Close()
				}
				errs := []int{}
				text := true
				l, ok := closex.AsErrs(err)
				if err != nil {
					text = ok
					for _, x := range l {
						errs = append(errs, find(s.m, x))
						text = text && strings.Contains(err.Error(), x.Error())
					}
					// also recoverable through wrapping
					for _, w := range []error{fmt.Errorf("outer: %w", err), fmt.Errorf("a: %w", fmt.Errorf("b: %w", err)), errors.Join(errors.New("other"), err), wrapped{err}} {
						l2, ok2 := closex.AsErrs(w)
						text = text && ok2 && len(l2) == len(l)
						for i := range l2 {
							text = text && find(s.m, l2[i]) == errs[i]
						}
					}
				} else {
					text = !ok && len(l) == 0
					for _, w := range []error{errSame, fmt.Errorf("a: %w", errSame), errors.Join(errSame, failText("x")), wrapped{errSame}} {
						l2, ok2 := closex.AsErrs(w)
						text = text && !ok2 && len(l2) == 0
					}
				}
				th.Ret("close", E{"m": s.m, "nil": err == nil, "errs": errs, "text": text})
			}
		}
		var fs []func()
		for i, p := range progs {
			th, p, i := e.Thread(i+1), p, i
			fs = append(fs, func() {
				for _, s := range p {
					do(th, s, i%2 == 0)
				}
			})
		}
		e.Par(fs...)
		th := e.Thread(9)
		for m := 0; m < 4; m++ {
			do(th, step{op: "close", m: m}, true)
		}
		do(th, step{op: "close", m: 1}, true)
		th.Add(E{"k": "fin"})
	}
	return b
}

func gen(r *rand.Rand, tier, aspect string) []dlib.Scenario {
	mul := 1
	if tier == "thorough" {
		mul = 8
	}
	b := dlib.Scenario{Opt: vs.Options{FairAfter: 2000, MaxSteps: 30000}, Bound: 2, MaxDFS: 1500 * mul, Rand: 200 * mul, Native: 20 * mul, Race: 20 * mul}
	A := func(m, x int, f string) step { return step{"append", m, x, f} }
	C := func(m int) step { return step{"close", m, 0, ""} }
	P := func(p ...[]step) [][]step { return p }
	out := []dlib.Scenario{
		scenario("order", false, P([]step{C(1), A(1, 1, "never"), A(1, 2, "always"), A(1, 3, "never"), C(1), A(1, 4, "odd"), C(1), C(1)}), b),
		scenario("no-failure", false, P([]step{A(1, 1, "never"), C(1), A(1, 2, "never"), C(1)}), b),
		scenario("all-fail", false, P([]step{A(1, 1, "always"), A(1, 2, "always"), A(1, 3, "always"), A(1, 4, "always"), C(1)}), b),
		scenario("equal-failures", false, P([]step{A(1, 3, "always"), A(1, 9, "always"), A(1, 4, "always"), A(1, 10, "always"), A(1, 15, "always"), C(1)}), b),
		scenario("known-failures", false, P([]step{A(1, 3, "always"), A(1, 9, "always"), A(1, 15, "always"), A(1, 21, "always"), A(1, 27, "odd"), A(1, 33, "always"), A(1, 39, "always"), A(1, 45, "always"), C(1), C(1)}), b),
		scenario("append-close", false, P([]step{A(1, 1, "always"), A(1, 2, "never")}, []step{C(1), C(1)}), b),
		scenario("two-close", false, P([]step{A(1, 1, "odd"), A(1, 2, "always"), C(1)}, []step{C(1)}), b),
		scenario("appenders", false, P([]step{A(1, 1, "never"), A(1, 2, "never")}, []step{A(1, 3, "always"), A(1, 4, "never")}, []step{C(1)}), b),
		scenario("default", true, P([]step{A(0, 1, "always"), C(0)}, []step{A(0, 2, "never"), C(0)}, []step{A(2, 1, "never"), C(2)}), b),
		scenario("twice-appended", false, P([]step{A(1, 1, "odd"), A(1, 1, "odd"), C(1), A(1, 2, "always"), C(1)}), b),
	}
	// many closers: appends race with growth of the list
	var long, long2 []step
	for i := 1; i <= 20; i++ {
		f := []string{"never", "always", "odd"}[i%3]
		long = append(long, A(2, i, f))
		if i <= 3 {
			long2 = append(long2, A(2, 100+i, f))
		}
	}
	lb := b
	lb.Bound, lb.MaxDFS = 1, 300*mul
	out = append(out, scenario("long", false, P(append(long, C(2)), append(long2, C(2))), lb))
	var huge []step
	for i := 1; i <= 300; i++ {
		huge = append(huge, A(2, i, []string{"never", "always", "odd", "always"}[i%4]))
	}
	lb.MaxDFS, lb.Rand, lb.Native, lb.Race = 3, 0, 1, 1
	lb.Opt.MaxSteps = 200000
	out = append(out, scenario("huge", false, P(append(huge, C(2), C(2))), lb))
	for i := 0; i < 30*mul; i++ {
		progs := make([][]step, 1+r.Intn(3))
		x := 0
		for t := range progs {
			for k := 2 + r.Intn(5); k > 0; k-- {
				m := []int{0, 1, 1, 1, 2}[r.Intn(5)]
				if r.Intn(3) > 0 {
					x++
					progs[t] = append(progs[t], A(m, x, []string{"never", "always", "odd"}[r.Intn(3)]))
				} else {
					progs[t] = append(progs[t], C(m))
				}
			}
		}
		s := b
		s.Bound, s.MaxDFS = 1+r.Intn(2), 300*mul
		out = append(out, scenario(fmt.Sprintf("random%d", i), true, progs, s))
	}
	return out
}

func main() { dlib.Main(gen) }
