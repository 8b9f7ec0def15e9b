// Driver for iox/decouplex.
package main

import (
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync/atomic"

	"verifharness/dlib"
	"verifharness/vs"

	"github.com/unsafe-risk/utilx/iox/decouplex"
)

type E = dlib.E

var short = []int{1, 2, 3, 4, 5}
var mixed = []int{1, 300, 9, 64, 65, 4500, 2, 128, 1025, 16, 33, 700, 4096, 8}

// message m (1..100) is encoded in lens[m%len(lens)] bytes
func (w *world) mlen(m int) int {
	if m < 0 {
		return 0
	}
	return w.lens[m%len(w.lens)]
}

func (w *world) encode(buf []byte, m int) []byte {
	n := w.mlen(m)
	b := buf[:n]
	for i := range b {
		b[i] = byte(m) ^ byte(i*0x5b)
	}
	return b
}

func (w *world) decode(b []byte) int {
	if len(b) == 0 {
		return -1
	}
	m := int(b[0])
	if len(b) != w.mlen(m) {
		return -2
	}
	for i := range b {
		if b[i] != byte(m)^byte(i*0x5b) {
			return -2
		}
	}
	return m
}

type world struct {
	e   *dlib.Env
	d   *decouplex.Decoupler
	thr map[int]*dlib.Thread
	cur []atomic.Int64 // message a thread is writing, 0 if none
	buf map[int][]byte

	lens  []int // of the messages
	evict bool  // the drop function makes room, and writes another message
}

var errDrop = errors.New("dropped")

type dropKey struct{}

func (w *world) write(t, m int) {
	th := w.thr[t]
	b := w.encode(w.buf[t], m)
	th.Call("write", E{"m": m, "len": len(b)})
	w.cur[t].Store(int64(m))
	n, err := w.d.Write(b)
	w.cur[t].Store(0)
	s := ""
	if err == errDrop {
		s = "E"
	} else if err != nil {
		s = "?" + err.Error()
	}
	// the caller reuses its buffer at once
	full := w.buf[t]
	for i := range full {
		full[i] = 0xEE
	}
	th.Ret("write", E{"n": n, "err": s})
}

// next takes a message; the view function writes message inner, if that is not 0.
func (w *world) next(t int, nilView bool, inner int) bool {
	th := w.thr[t]
	th.Call("next", E{})
	var keep []byte
	var first int
	shown := 0
	var ok bool
	if nilView {
		ok = w.d.Next(nil)
	} else {
		ok = w.d.Next(func(b []byte) {
			shown++
			first = w.decode(b)
			keep = append(keep[:0], b...)
			th.Add(E{"k": "vs", "m": first})
			if inner > 0 {
				w.write(t+5, inner)
			}
			w.e.Fine()
			w.e.Fine()
			th.Add(E{"k": "vcopy", "ok": string(keep) == string(b)})
			w.e.Fine()
			th.Add(E{"k": "ve", "m": w.decode(b)})
		})
	}
	th.Ret("next", E{"ok": ok})
	return ok
}

// step of a program: >0 write that message, -1 write an empty message, 0 Next, -3 Next(nil), -100-m Next with a view that writes m
func (w *world) do(t int, s int) {
	switch {
	case s == 0:
		w.next(t, false, 0)
	case s == -3:
		w.next(t, true, 0)
	case s < -100:
		w.next(t, false, -100-s)
	default:
		w.write(t, s)
	}
}

func scenario(name string, size int, nildrop bool, lens, pre []int, progs [][]int, base dlib.Scenario) dlib.Scenario {
	base.Name = name
	base.Cfg = E{"cap": size, "nildrop": nildrop}
	base.Body = func(e *dlib.Env) {
		w := &world{e: e, thr: map[int]*dlib.Thread{}, cur: make([]atomic.Int64, 10), buf: map[int][]byte{}, lens: lens, evict: strings.HasPrefix(name, "evict")}
		for t := 0; t < 10; t++ {
			w.thr[t] = e.Thread(t)
			w.buf[t] = make([]byte, 5000)
		}
		var drop func(b []byte) (int, error)
		if !nildrop {
			drop = func(b []byte) (int, error) {
				m := w.decode(b)
				// the dropping thread is the one that writes this message; of empty ones, the one whose buffer this is
				t := -1
				for i := range w.cur {
					if w.cur[i].Load() == int64(m) && (t < 0 || len(b) == 0 && cap(b) > 0 && &b[:1][0] == &w.buf[i][0]) {
						t = i
					}
				}
				if t < 0 {
					t = 0
				}
				w.thr[t].Add(E{"k": "drop", "m": m})
				if w.evict && t < 5 && m > 0 {
					w.next(t+5, false, 0)
					w.write(t+5, m+50)
				}
				if m >= 0 && m%2 == 1 {
					return 100 + m, errDrop
				}
				if m < 0 && m%2 != 0 {
					return 100 + m, errDrop
				}
				return 100 + m, nil
			}
		}
		w.d = decouplex.NewDecoupler(uint64(size), drop)
		for _, s := range pre {
			w.do(0, s)
		}
		var fs []func()
		for i, p := range progs {
			i, p := i, p
			fs = append(fs, func() {
				for _, s := range p {
					w.do(i+1, s)
				}
			})
		}
		e.Par(fs...)
		for i := 0; i < 20 && w.next(0, false, 0); i++ {
		}
		w.thr[0].Add(E{"k": "fin"})
	}
	return base
}

// bulk writes and reads thousands of messages from one goroutine: +n writes n, -n reads n.
func bulk(name string, size int, steps []int, base dlib.Scenario) dlib.Scenario {
	base.Name = name
	base.Cfg = E{"cap": size, "nildrop": false}
	base.Bound, base.MaxDFS, base.Rand, base.Native, base.Race = -1, 0, 0, 1, 0
	base.Body = func(e *dlib.Env) {
		th := e.Thread(0)
		id := 999
		var buf [64]byte
		enc := func(id int) []byte {
			b := buf[:8+id%50]
			for i := range b {
				b[i] = byte(id >> (8 * (i % 8)))
			}
			return b
		}
		dec := func(b []byte) int {
			if len(b) < 8 {
				return -2
			}
			id := 0
			for i := 7; i >= 0; i-- {
				id = id<<8 | int(b[i])
			}
			if string(b) != string(enc(id&0xffffff)) {
				return -2
			}
			return id
		}
		var dropped []int
		d := decouplex.NewDecoupler(uint64(size), func(b []byte) (int, error) {
			dropped = append(dropped, dec(b))
			return 100000 + dec(b), errDrop
		})
		for _, s := range steps {
			ids := []int{}
			if s > 0 {
				ok := true
				for i := 0; i < s; i++ {
					id++
					dropped = dropped[:0]
					b := enc(id)
					n, err := d.Write(b)
					switch {
					case len(dropped) == 0:
						ok = ok && n == len(b) && err == nil
						ids = append(ids, id)
					default:
						ok = ok && len(dropped) == 1 && dropped[0] == id && n == 100000+id && err == errDrop
					}
					for i := range buf {
						buf[i] = 0xEE
					}
				}
				th.Add(E{"k": "bulkw", "n": s, "m": id - s + 1, "ids": ids, "ok": ok})
				continue
			}
			for i := 0; i < -s; i++ {
				got := 0
				ok := d.Next(func(b []byte) { got = dec(b) })
				if !ok {
					break
				}
				ids = append(ids, got)
			}
			th.Add(E{"k": "bulkn", "n": -s, "ids": ids})
		}
		th.Add(E{"k": "fin"})
	}
	return base
}

func gen(r *rand.Rand, tier, aspect string) []dlib.Scenario {
	mul := 1
	if tier == "thorough" {
		mul = 8
	}
	opt := vs.Options{FairAfter: 1200, MaxSteps: 12000}
	b := dlib.Scenario{Opt: opt, Bound: 2, MaxDFS: 2500 * mul, Rand: 250 * mul, Native: 60 * mul, Race: 40 * mul}
	deep := b
	deep.Bound = 3
	deep.MaxDFS = 12000 * mul
	var out []dlib.Scenario
	lens := short
	add := func(n string, size int, nd bool, pre []int, progs [][]int, base dlib.Scenario) {
		if nd && aspect == "deliver" {
			return
		}
		out = append(out, scenario(n, size, nd, lens, pre, progs, base))
	}
	add("w1r1", 1, false, nil, [][]int{{1, 2}, {0, 0}}, deep)
	add("w2r1", 2, false, nil, [][]int{{1}, {2}, {0, 0}}, deep)
	add("w2r1c1", 1, false, nil, [][]int{{1, 3}, {2}, {0, 0}}, deep)
	add("wrap", 2, false, []int{1, 0, 2, 0, 3, 0}, [][]int{{4, 5}, {6}, {0, 0, 0}}, deep)
	add("fullrace", 2, false, []int{1, 2}, [][]int{{3}, {4}, {0, 0}}, deep)
	add("fullrace1", 1, false, []int{1}, [][]int{{3}, {4}, {0, 0}}, deep)
	add("dropped", 2, false, []int{1, 2, 3, 0, 4}, [][]int{{5, 6}, {7}, {0, 0, 0}}, deep)
	add("empty", 1, false, []int{-1, 1, -1}, [][]int{{-1, 2}, {0, 0}}, b)
	add("nildrop", 2, true, []int{1}, [][]int{{2, 3}, {4}, {0, 0}}, b)
	add("zero", 0, false, []int{1, 0, -1}, [][]int{{2}, {0}}, b)
	add("cap3", 3, false, []int{1, 2, 0}, [][]int{{3, 4}, {5, 6}, {0, 0, 0}}, b)
	add("nilview", 2, false, nil, [][]int{{1, 2, 3}, {-3, 0, -3}}, b)
	add("viewwrite", 1, false, []int{1, -102, 3, 0, 4, -105}, [][]int{{-106, 0}, {7, 8}}, b)
	add("viewwrite2", 2, false, []int{1, -102}, [][]int{{-103, -104, 0}, {5, 6}, {7}}, b)
	add("viewwrite3", 3, true, []int{1, 2}, [][]int{{-103, -104, -105, 0}, {6, 7}}, b)
	add("evict", 1, false, []int{1, 2, 3, 4}, [][]int{{5, 6, -1, 7}}, b)
	add("evict2", 2, false, []int{1, 2, 3, 0, 4, 5}, [][]int{{6, -107, 8, 9, 10}}, b)
	add("evict0", 0, false, []int{1, 2, 0}, [][]int{{3}}, b)
	// sequential histories: every pattern of writes and reads
	for i := 0; i < 60*mul; i++ {
		n := 4 + r.Intn(14)
		var pre []int
		m := 0
		bias := 3 + r.Intn(5)
		for k := 0; k < n; k++ {
			switch x := r.Intn(10); {
			case x < bias:
				m++
				pre = append(pre, m)
			case x == 9:
				pre = append(pre, []int{-1, -3}[r.Intn(2)])
			default:
				pre = append(pre, 0)
			}
		}
		s := b
		s.Bound, s.Rand, s.Native, s.Race = 0, 1, 1, 0
		lens = [][]int{short, mixed}[i%2]
		add(fmt.Sprintf("seq%d", i), r.Intn(4), r.Intn(5) == 0, pre, [][]int{{}}, s)
	}
	for i := 0; i < 12*mul; i++ {
		size := []int{60, 250, 1020, 1020, 4090, 1<<15 - 4, 1<<16 - 4, 70000}[r.Intn(8)] + r.Intn(9)
		steps := []int{size + r.Intn(3) - 1}
		for k := 2 + r.Intn(4); k > 0; k-- {
			n := []int{1, 3, size / 2, size - 1, size, size + 1, r.Intn(size) + 1}
			steps = append(steps, -n[r.Intn(7)], n[r.Intn(7)])
		}
		out = append(out, bulk(fmt.Sprintf("bulk%d", i), size, append(steps, -4*size), b))
	}
	for i := 0; i < 20*mul; i++ {
		lens = [][]int{short, short, short, mixed}[i%4]
		var pre []int
		m := 0
		size := 1 + r.Intn(3)
		for k := r.Intn(5); k > 0; k-- {
			if r.Intn(3) > 0 {
				m++
				pre = append(pre, m)
			} else {
				pre = append(pre, 0)
			}
		}
		nw := 1 + r.Intn(3)
		progs := make([][]int, nw+1)
		for t := 0; t < nw; t++ {
			for k := 1 + r.Intn(3); k > 0; k-- {
				m++
				progs[t] = append(progs[t], m)
			}
		}
		for k := 1 + r.Intn(4); k > 0; k-- {
			progs[nw] = append(progs[nw], 0)
		}
		s := b
		s.Bound, s.MaxDFS, s.Rand, s.Native, s.Race = 1, 600*mul, 250*mul, 20*mul, 10*mul
		add(fmt.Sprintf("random%d", i), size, r.Intn(6) == 0, pre, progs, s)
	}
	return out
}

func main() { dlib.Main(gen) }
