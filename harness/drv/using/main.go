// Driver for iox/usingx.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"syscall"

	"verifharness/dlib"
	"verifharness/vs"

	"github.com/unsafe-risk/utilx/iox/usingx"
)

type E = dlib.E

// use: one use of a list of closers
type use struct {
	list  int
	pan   int // 0: the body returns; 1, 2, 3: panics with a string, an error, nil-like value
	inner *use
}

type failure struct{ id int }

func (f *failure) Error() string { return fmt.Sprint("failure ", f.id) }

// list of well-known errors, and others of unusual types; each is as good a failure as any.
type failList []int

func (failList) Error() string { return "" }

var known = []error{os.ErrClosed, io.EOF, io.ErrClosedPipe, net.ErrClosed, context.Canceled, os.ErrNotExist, http.ErrServerClosed, syscall.EINTR, syscall.Errno(0), errors.New("")}

// failWith is the error of the call id and the number by which the history knows it.
func failWith(id int) (error, int) {
	switch n := id % 40; {
	case n < len(known):
		return known[n], 1000000 + n
	case n == 20:
		return &os.PathError{Op: "close", Path: "x", Err: os.ErrClosed}, 1000020
	case n == 21:
		return failList{id}, id
	case n == 22:
		return (*failure)(nil), 1000022
	case n == 23:
		return errors.Join(io.EOF, &failure{id}), id
	}
	return &failure{id}, id
}

// number inverts it.
func number(err error) int {
	switch x := err.(type) {
	case *failure:
		if x == nil {
			return 1000022
		}
		return x.id
	case failList:
		return x[0]
	case *os.PathError:
		return 1000020
	case interface{ Unwrap() []error }:
		return number(x.Unwrap()[1])
	case nil:
		return -1
	}
	for n, k := range known {
		if k == err {
			return 1000000 + n
		}
	}
	return -1
}

type boom struct{ n int }

// state of one thread: closers know who uses them
type thread struct {
	e  *dlib.Env
	th *dlib.Thread
	id int
}

type closer struct {
	t     *thread
	x     int
	fails int // every n-th call fails (0: never)
	calls int
}

func (c *closer) Close() error {
	c.t.e.Fine()
	c.calls++
	c.t.id++
	f := c.fails > 0 && c.calls%c.fails == 0
	id := c.t.id
	var err error
	if f {
		err, id = failWith(id)
	}
	c.t.th.Add(E{"k": "cl", "x": c.x, "id": id, "fails": f})
	return err
}

// scenario numbers its failures from first on.
func scenario(name string, first int, lists [][][2]int, progs [][]use, b dlib.Scenario) dlib.Scenario {
	b.Name, b.Cfg = name, E{}
	b.Body = func(e *dlib.Env) {
		var fs []func()
		for i, p := range progs {
			t := &thread{e: e, th: e.Thread(i), id: first}
			// every thread has its own closers; the same closer may occur several times in a list
			fns := make([]func(func()) []error, len(lists))
			ids := make([][]int, len(lists))
			objs := map[int]*closer{}
			for k, l := range lists {
				var cs []io.Closer
				ids[k] = []int{}
				for _, x := range l {
					if objs[x[0]] == nil {
						objs[x[0]] = &closer{t: t, x: x[0], fails: x[1]}
					}
					cs = append(cs, objs[x[0]])
					ids[k] = append(ids[k], x[0])
				}
				fns[k] = usingx.Close(cs...)
			}
			type kept struct {
				live []error
				ids  []int
			}
			var results []kept
			var do func(u use)
			do = func(u use) {
				t.th.Call("use", E{"list": ids[u.list]})
				var errs []error
				pan, same := false, true
				func() {
					defer func() {
						if r := recover(); r != nil {
							v, ok := r.(boom)
							if !ok || v.n != u.pan {
								panic(r)
							}
							pan = true
						}
					}()
					errs = fns[u.list](func() {
						t.th.Add(E{"k": "body"})
						e.Fine()
						if u.inner != nil {
							do(*u.inner)
						}
						t.th.Add(E{"k": "end", "pan": u.pan > 0})
						if u.pan > 0 {
							panic(boom{u.pan})
						}
					})
				}()
				out := []int{}
				for _, x := range errs {
					out = append(out, number(x))
				}
				results = append(results, kept{errs, out})
				t.th.Ret("use", E{"pan": pan, "nil": errs == nil, "errs": out, "same": same})
			}
			p := p
			fs = append(fs, func() {
				for _, u := range p {
					do(u)
				}
				// results of earlier uses stay as they were
				same := true
				for _, k := range results {
					for i, x := range k.live {
						same = same && number(x) == k.ids[i]
					}
				}
				t.th.Add(E{"k": "recheck", "same": same})
			})
		}
		e.Par(fs...)
		e.Thread(9).Add(E{"k": "fin"})
	}
	return b
}

func gen(r *rand.Rand, tier, aspect string) []dlib.Scenario {
	mul := 1
	if tier == "thorough" {
		mul = 8
	}
	b := dlib.Scenario{Opt: vs.Options{FairAfter: 2000, MaxSteps: 30000}, Bound: 1, MaxDFS: 50 * mul, Rand: 5 * mul, Native: 2, Race: 2}
	var out []dlib.Scenario
	L := func(l ...[2]int) [][2]int { return l }
	lists := [][][2]int{L(), L([2]int{1, 0}), L([2]int{1, 1}), L([2]int{1, 0}, [2]int{2, 1}, [2]int{3, 0}), L([2]int{1, 1}, [2]int{2, 1}, [2]int{3, 1}), L([2]int{4, 2}, [2]int{5, 0}, [2]int{4, 2}, [2]int{6, 2})}
	for i := range lists {
		for _, p := range []int{0, 1, 2} {
			out = append(out, scenario(fmt.Sprintf("list%d-pan%d", i, p), 13*i+5*p, lists, [][]use{{{i, p, nil}, {i, 0, nil}, {i, p, nil}, {i, 0, nil}}}, b))
		}
	}
	out = append(out, scenario("parallel", 0, lists, [][]use{{{3, 0, nil}, {4, 1, nil}}, {{4, 0, nil}, {3, 2, nil}}}, b))
	// every kind of failure, long lists
	long := make([][2]int, 300)
	for i := range long {
		long[i] = [2]int{i, []int{1, 0, 1, 2}[i%4]}
	}
	out = append(out, scenario("long", 0, [][][2]int{long, long[:130]}, [][]use{{{0, 0, nil}, {1, 1, nil}, {0, 0, nil}}}, b))
	for i := 0; i < 150*mul; i++ {
		ls := make([][][2]int, 1+r.Intn(4))
		for k := range ls {
			for n := r.Intn(7); n > 0; n-- {
				x := 1 + r.Intn(8)
				ls[k] = append(ls[k], [2]int{x, []int{0, 1, 2, 3}[(x*7+i)%4]})
			}
		}
		progs := make([][]use, 1+r.Intn(2))
		for t := range progs {
			for n := 1 + r.Intn(5); n > 0; n-- {
				u := use{r.Intn(len(ls)), r.Intn(6) % 4 * (r.Intn(2)), nil}
				if r.Intn(3) == 0 {
					u.inner = &use{r.Intn(len(ls)), r.Intn(2), nil}
				}
				progs[t] = append(progs[t], u)
			}
		}
		out = append(out, scenario(fmt.Sprintf("random%d", i), r.Intn(40), ls, progs, b))
	}
	return out
}

func main() { dlib.Main(gen) }
