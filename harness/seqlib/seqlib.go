// Package seqlib binds sequential components to their TLA+ specifications.
//
// Replay: the transitions TLC enumerated (lines {"s","o","r","d"}: state, operation, result, next state) are
// driven into the real code along transition covers, all short operation sequences and random walks.
// Record: seeded random histories of the real code are written for TLC to validate.
package seqlib

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Op is one operation with its arguments, as the specification writes it.
type Op map[string]any

func (o Op) S(k string) string { s, _ := o[k].(string); return s }
func (o Op) B(k string) bool   { b, _ := o[k].(bool); return b }
func (o Op) I(k string) int    { return toInt(o[k]) }
func (o Op) Is(k string) []int {
	switch l := o[k].(type) {
	case []int:
		return append([]int(nil), l...)
	case []any:
		r := make([]int, len(l))
		for i, v := range l {
			r[i] = toInt(v)
		}
		return r
	}
	return nil
}
func (o Op) L(k string) []any { l, _ := o[k].([]any); return l }

func toInt(v any) int {
	switch x := v.(type) {
	case int:
		return x
	case float64:
		return int(x)
	case json.Number:
		n, _ := x.Int64()
		return int(n)
	}
	return 0
}

// Sys is one instance of the component; its first operation is the one that creates it.
type Sys interface{ Do(o Op) any }

// Opt is a result that may be absent.
func Opt[T any](v T, ok bool) []T {
	if ok {
		return []T{v}
	}
	return []T{}
}

// Many calls f up to n times and collects its results until there is none.
func Many[T any](n int, f func() (T, bool)) []T {
	r := []T{}
	for i := 0; i < n; i++ {
		v, ok := f()
		if !ok {
			break
		}
		r = append(r, v)
	}
	return r
}

// Bulk is a size for operations in bulk: small or large.
func Bulk(r *rand.Rand) int { return []int{10, 100, 500, 2000}[r.Intn(4)] }

// Huge is a size around which an implementation may change its behaviour.
func Huge(r *rand.Rand, max int) int {
	l := []int{64, 128, 256, 512, 1 << 10, 1 << 11, 1 << 12, 1 << 13, 1 << 14, 1 << 15, 1 << 16, 1<<16 + 4000}
	for {
		n := l[r.Intn(len(l))] + []int{-1, 0, 1, r.Intn(200), -r.Intn(60)}[r.Intn(5)]
		if n <= max {
			return n
		}
	}
}

// Script is a history of given operations.
func Script(ops ...Op) func(Op, any) Op {
	return func(Op, any) Op {
		if len(ops) == 0 {
			return nil
		}
		o := ops[0]
		ops = ops[1:]
		return o
	}
}

// Order is a permutation of 0..n-1: ascending, descending or shuffled as the operation's seed says.
func Order(o Op) []int {
	n, seed := o.I("n"), o.I("seed")
	if seed >= 0 {
		return rand.New(rand.NewSource(int64(seed))).Perm(n)
	}
	r := make([]int, n)
	for i := range r {
		r[i] = i
		if seed < -50 {
			r[i] = n - 1 - i
		}
	}
	return r
}

// Gen produces a random history: next is given the previous operation and result, and returns nil at the end.
type Gen func(r *rand.Rand, tier string, n int) (how string, next func(o Op, res any) Op)

type step struct {
	Op   Op     `json:"o"`
	Res  any    `json:"r"`
	Kind string `json:"k"`
	Why  string `json:"why,omitempty"`
}

type worker struct {
	began atomic.Int64 // start of the running operation, 0 if none
	mu    sync.Mutex
	hist  []step
	how   string
}

func (w *worker) do(s Sys, o Op) (res any, pan string) {
	w.mu.Lock()
	w.hist = append(w.hist, step{Op: o, Kind: "hang"})
	i := len(w.hist) - 1
	w.mu.Unlock()
	w.began.Store(time.Now().UnixNano())
	defer func() {
		w.began.Store(0)
		if p := recover(); p != nil {
			pan = fmt.Sprintf("%v\n%s", p, debug.Stack())
			w.mu.Lock()
			w.hist[i] = step{Op: o, Kind: "panic", Why: trim(pan)}
			w.mu.Unlock()
		}
	}()
	res = s.Do(o)
	w.mu.Lock()
	w.hist[i] = step{Op: o, Res: res, Kind: "op"}
	w.mu.Unlock()
	return
}

func trim(s string) string {
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func (w *worker) reset(how string) {
	w.mu.Lock()
	w.hist, w.how = nil, how
	w.mu.Unlock()
}

func canon(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func canonRaw(raw json.RawMessage) string {
	var v any
	if err := json.Unmarshal(raw, &v); err != nil {
		panic(err)
	}
	return canon(v)
}

type edge struct {
	op  int
	res string
	dst int
}

type graph struct {
	ops    []Op
	out    [][]edge // sorted by op
	states []string
	edges  int
}

func load(path string) *graph {
	f, err := os.Open(path)
	if err != nil {
		fatal(err)
	}
	defer f.Close()
	g := &graph{}
	ids, opid := map[string]int{}, map[string]int{}
	id := func(raw json.RawMessage) int {
		k := canonRaw(raw)
		if n, ok := ids[k]; ok {
			return n
		}
		ids[k] = len(g.states)
		g.states = append(g.states, k)
		g.out = append(g.out, nil)
		return len(g.states) - 1
	}
	id(json.RawMessage(`{"start":true}`))
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	seen := map[string]bool{}
	for sc.Scan() {
		t := sc.Text()
		if !strings.HasPrefix(t, `"{`) {
			continue
		}
		u, err := strconv.Unquote(t)
		if err != nil {
			fatal(fmt.Errorf("line %q: %v", t, err))
		}
		var e struct{ S, O, R, D json.RawMessage }
		if err := json.Unmarshal([]byte(u), &e); err != nil {
			fatal(err)
		}
		s, d := id(e.S), id(e.D)
		ok := canonRaw(e.O)
		o, has := opid[ok]
		if !has {
			o = len(g.ops)
			opid[ok] = o
			var op Op
			json.Unmarshal(e.O, &op)
			g.ops = append(g.ops, op)
		}
		r := canonRaw(e.R)
		k := fmt.Sprint(s, " ", o, " ", r, " ", d)
		if !seen[k] {
			seen[k] = true
			g.out[s] = append(g.out[s], edge{o, r, d})
			g.edges++
		}
	}
	if err := sc.Err(); err != nil {
		fatal(err)
	}
	for _, l := range g.out {
		sort.SliceStable(l, func(i, j int) bool { return l[i].op < l[j].op })
	}
	return g
}

// opsOf are the operations enabled in every candidate state.
func (g *graph) opsOf(c []int) []int {
	var r []int
	for i, s := range c {
		have := map[int]bool{}
		for _, e := range g.out[s] {
			if i == 0 {
				if !have[e.op] {
					r = append(r, e.op)
				}
			}
			have[e.op] = true
		}
		if i > 0 {
			k := r[:0:0]
			for _, o := range r {
				if have[o] {
					k = append(k, o)
				}
			}
			r = k
		}
	}
	return r
}

// after filters the candidates by the observed result; exp are the results the specification allows.
func (g *graph) after(c []int, op int, res string) (n []int, exp []string) {
	for _, s := range c {
		l := g.out[s]
		i := sort.Search(len(l), func(i int) bool { return l[i].op >= op })
		for ; i < len(l) && l[i].op == op; i++ {
			exp = append(exp, l[i].res)
			if l[i].res == res {
				dup := false
				for _, x := range n {
					dup = dup || x == l[i].dst
				}
				if !dup {
					n = append(n, l[i].dst)
				}
			}
		}
	}
	return
}

type failure struct {
	Hist     []step   `json:"history"`
	Expected []string `json:"expected"`
	How      string   `json:"how"`
}

type replayer struct {
	g      *graph
	mk     func() Sys
	steps  atomic.Int64
	paths  atomic.Int64
	mu     sync.Mutex
	fail   *failure
	nfail  int
	cover  []map[edge]bool
	end    time.Time
	stop   atomic.Bool
	failed func(f *failure)
}

// run executes the operations from the start; returns false at a mismatch.
func (p *replayer) run(w *worker, ops []int, how string, more func(c []int) int) bool {
	w.reset(how)
	s := p.mk()
	c := []int{0}
	for i := 0; ; i++ {
		var o int
		if i < len(ops) {
			o = ops[i]
		} else if more != nil {
			if o = more(c); o < 0 {
				break
			}
		} else {
			break
		}
		res, pan := w.do(s, p.g.ops[o])
		p.steps.Add(1)
		r := "panic"
		if pan == "" {
			r = canon(res)
		}
		n, exp := p.g.after(c, o, r)
		if len(exp) == 0 {
			return true // not enabled here: the path left the enumerated part
		}
		if len(n) == 0 {
			w.mu.Lock()
			f := &failure{append([]step(nil), w.hist...), exp, how}
			w.mu.Unlock()
			p.mu.Lock()
			p.nfail++
			if p.fail == nil || len(f.Hist) < len(p.fail.Hist) {
				p.fail = f
			}
			p.mu.Unlock()
			return false
		}
		c = n
	}
	p.paths.Add(1)
	return true
}

func (p *replayer) over() bool { return p.stop.Load() || time.Now().After(p.end) }

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "driver:", err)
	os.Exit(3)
}

// Main runs the driver.
func Main(mk func() Sys, gens map[string]Gen) {
	mode := flag.String("mode", "replay", "replay, record or script")
	gpath := flag.String("graph", "", "transitions printed by TLC")
	out := flag.String("out", "", "result file")
	seed := flag.Int64("seed", 1, "")
	tier := flag.String("tier", "quick", "")
	budget := flag.Float64("budget", 5, "seconds")
	gname := flag.String("gen", "", "generator")
	count := flag.Int("n", 100, "histories to record")
	walk := flag.Int("walk", 200, "length of random walks")
	wmul := flag.Int("workers", 0, "")
	hname := flag.String("hugegen", "huge", "")
	huge := flag.Int("huge", 0, "histories of the generator huge to record as well")
	flat := flag.Bool("flat", false, "stateless component: no sequences")
	flag.Parse()
	nw := *wmul
	if nw == 0 {
		nw = runtime.NumCPU()
	}
	ws := make([]*worker, nw)
	for i := range ws {
		ws[i] = &worker{}
	}
	var onHang func(w *worker)
	go func() {
		for {
			time.Sleep(100 * time.Millisecond)
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			big := m.HeapAlloc > 6<<30
			for _, w := range ws {
				b := w.began.Load()
				if b != 0 && (time.Now().UnixNano()-b > 20e9 || big && time.Now().UnixNano()-b > 1e9) {
					onHang(w)
					os.Exit(0)
				}
			}
		}
	}()
	switch *mode {
	case "replay":
		g := load(*gpath)
		p := &replayer{g: g, mk: mk, end: time.Now().Add(time.Duration(*budget * 1e9))}
		deep := 0
		covered := 0
		write := func() {
			dead := 0
			for i, l := range g.out {
				if len(l) == 0 && i > 0 {
					dead++
				}
			}
			b, _ := json.Marshal(map[string]any{"states": len(g.states), "edges": g.edges, "ops": len(g.ops), "dead": dead, "steps": p.steps.Load(),
				"paths": p.paths.Load(), "covered": covered, "depth": deep, "fail": p.fail, "nfail": p.nfail})
			if err := os.WriteFile(*out, b, 0o644); err != nil {
				fatal(err)
			}
		}
		onHang = func(w *worker) {
			w.mu.Lock()
			p.fail = &failure{append([]step(nil), w.hist...), nil, w.how + " (does not return)"}
			w.mu.Unlock()
			write()
		}
		if len(g.out[0]) == 0 {
			fatal(fmt.Errorf("empty graph"))
		}
		// shortest paths
		par := make([]struct{ s, op int }, len(g.states))
		vis := make([]bool, len(g.states))
		vis[0] = true
		order := []int{0}
		for i := 0; i < len(order); i++ {
			for _, e := range g.out[order[i]] {
				if !vis[e.dst] {
					vis[e.dst] = true
					par[e.dst].s, par[e.dst].op = order[i], e.op
					order = append(order, e.dst)
				}
			}
		}
		path := func(s int) []int {
			var r []int
			for s != 0 {
				r = append(r, par[s].op)
				s = par[s].s
			}
			for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
				r[i], r[j] = r[j], r[i]
			}
			return r
		}
		each := func(f func(w *worker, k int)) {
			var wg sync.WaitGroup
			for k, w := range ws {
				wg.Add(1)
				go func() { defer wg.Done(); f(w, k) }()
			}
			wg.Wait()
		}
		// 1. every transition
		var next atomic.Int64
		var cov atomic.Int64
		tc := time.Now().Add(time.Duration(*budget * 3 * 1e9))
		each(func(w *worker, k int) {
			for {
				i := int(next.Add(1)) - 1
				if i >= len(order) || time.Now().After(tc) {
					return
				}
				pre := path(order[i])
				last := -1
				for _, e := range g.out[order[i]] {
					if e.op == last {
						cov.Add(1)
						continue
					}
					last = e.op
					cov.Add(1)
					if !p.run(w, append(append([]int(nil), pre...), e.op), "transition cover", nil) {
						if p.nfail > 50 {
							return
						}
					}
				}
			}
		})
		covered = int(cov.Load())
		// 2. all operation sequences, by increasing length, in half of the budget
		deep = 1
		half := time.Now().Add(time.Duration(*budget * 0.5e9))
		if p.fail == nil && !*flat {
			for depth := 2; depth < 40 && time.Now().Before(half); depth++ {
				// unit of work: first operations
				var units [][]int
				var rec func(c []int, pre []int)
				rec = func(c []int, pre []int) {
					if len(pre) == 2 {
						units = append(units, append([]int(nil), pre...))
						return
					}
					for _, o := range g.opsOf(c) {
						var n []int
						for _, s := range c {
							for _, e := range g.out[s] {
								if e.op == o {
									n = append(n, e.dst)
								}
							}
						}
						rec(n, append(pre, o))
					}
				}
				rec([]int{0}, nil)
				var un atomic.Int64
				var cut atomic.Bool
				each(func(w *worker, k int) {
					for {
						i := int(un.Add(1)) - 1
						if i >= len(units) {
							return
						}
						if !p.dfs(w, units[i], depth, half) {
							cut.Store(true)
							return
						}
					}
				})
				if cut.Load() || p.fail != nil {
					break
				}
				deep = depth
			}
		}
		// 3. random walks
		p.end = time.Now().Add(time.Duration(*budget * 0.5e9))
		if p.fail == nil && !*flat {
			each(func(w *worker, k int) {
				r := rand.New(rand.NewSource(*seed*7919 + int64(k)))
				for !p.over() && p.fail == nil {
					// a walk prefers a random subset of the operations, so that it drifts far
					n, left := *walk, 0
					left = 1 + r.Intn(n)
					bias := r.Intn(4)
					fav := map[int]bool{}
					if !p.run(w, nil, "random walk", func(c []int) int {
						if left--; left < 0 {
							return -1
						}
						ops := g.opsOf(c)
						if len(ops) == 0 {
							return -1
						}
						if r.Intn(40) == 0 {
							fav = map[int]bool{}
						}
						o := ops[r.Intn(len(ops))]
						for t := 0; t < bias*2; t++ {
							if fav[o] {
								break
							}
							o = ops[r.Intn(len(ops))]
						}
						if r.Intn(3) == 0 {
							fav[o] = true
						}
						return o
					}) {
						return
					}
				}
			})
		}
		if p.fail != nil && p.fail.Expected != nil {
			p.shrink(ws[0])
		}
		write()
	case "record":
		gen := gens[*gname]
		if gen == nil {
			fatal(fmt.Errorf("no generator %q", *gname))
		}
		f, err := os.Create(*out)
		if err != nil {
			fatal(err)
		}
		bw := bufio.NewWriterSize(f, 1<<20)
		var mu sync.Mutex
		emit := func(w *worker) {
			w.mu.Lock()
			b, err := json.Marshal(map[string]any{"cfg": map[string]any{}, "ev": w.hist, "how": w.how})
			w.mu.Unlock()
			if err != nil {
				fatal(err)
			}
			mu.Lock()
			bw.Write(b)
			bw.WriteByte('\n')
			mu.Unlock()
		}
		onHang = func(w *worker) {
			emit(w)
			mu.Lock()
			bw.Flush()
			f.Close()
		}
		end := time.Now().Add(time.Duration(*budget * 1e9))
		var next atomic.Int64
		var wg sync.WaitGroup
		for _, w := range ws {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					i := int(next.Add(1)) - 1
					if i >= *count+*huge || time.Now().After(end) {
						return
					}
					r := rand.New(rand.NewSource(*seed*1000003 + int64(i)))
					name, gen := *gname, gen
					if i -= *huge; i < 0 { // these take longest
						i += *huge
						name, gen = *hname, gens[*hname]
					}
					how, nx := gen(r, *tier, i)
					w.reset(fmt.Sprintf("%s %s #%d", name, how, i))
					s := mk()
					var o Op
					var res any
					for {
						o = nx(o, res)
						if o == nil {
							break
						}
						var pan string
						res, pan = w.do(s, o)
						if pan != "" {
							break
						}
					}
					emit(w)
				}
			}()
		}
		wg.Wait()
		mu.Lock()
		bw.Flush()
		f.Close()
	case "script": // one history of given operations, from -graph
		raw, err := os.ReadFile(*gpath)
		if err != nil {
			fatal(err)
		}
		var ops []Op
		if err := json.Unmarshal(raw, &ops); err != nil {
			fatal(err)
		}
		w := ws[0]
		write := func() {
			w.mu.Lock()
			b, _ := json.Marshal(w.hist)
			w.mu.Unlock()
			os.WriteFile(*out, b, 0o644)
		}
		onHang = func(*worker) { write() }
		w.reset("script")
		s := mk()
		for _, o := range ops {
			if _, pan := w.do(s, o); pan != "" {
				break
			}
		}
		write()
	default:
		fatal(fmt.Errorf("mode %q", *mode))
	}
}

// dfs runs every operation sequence of exactly that length that starts with pre.
func (p *replayer) dfs(w *worker, pre []int, depth int, half time.Time) bool {
	type level struct {
		ops []int
		i   int
	}
	path := append([]int(nil), pre...)
	var st []level // choices below pre
	for {
		if time.Now().After(half) || p.fail != nil {
			return false
		}
		// run path, extending with first choices
		i := 0
		ext := path
		ok := p.run(w, ext, "all sequences", func(c []int) int {
			if len(path)+i >= depth {
				return -1
			}
			ops := p.g.opsOf(c)
			if len(ops) == 0 {
				return -1
			}
			st = append(st, level{ops, 0})
			i++
			return ops[0]
		})
		if !ok {
			return false
		}
		// next leaf
		for len(st) > 0 && st[len(st)-1].i+1 >= len(st[len(st)-1].ops) {
			st = st[:len(st)-1]
		}
		if len(st) == 0 {
			return true
		}
		st[len(st)-1].i++
		path = append([]int(nil), pre...)
		for _, l := range st {
			path = append(path, l.ops[l.i])
		}
	}
}

// shrink drops operations while the history still fails.
func (p *replayer) shrink(w *worker) {
	opid := map[string]int{}
	for i, o := range p.g.ops {
		opid[canon(o)] = i
	}
	var seq []int
	for _, s := range p.fail.Hist {
		seq = append(seq, opid[canon(s.Op)])
	}
	end := time.Now().Add(5 * time.Second)
	for n := len(seq) / 2; n >= 1; n /= 2 {
		for i := 0; i+n <= len(seq) && time.Now().Before(end); {
			cand := append(append([]int(nil), seq[:i]...), seq[i+n:]...)
			old := p.fail
			p.fail = nil
			if !p.run(w, cand, old.How+", shortened", nil) && p.fail != nil {
				seq = seq[:0]
				for _, s := range p.fail.Hist {
					seq = append(seq, opid[canon(s.Op)])
				}
			} else {
				p.fail = old
				i += n
			}
		}
	}
}
