SEEDS = []
def S(id, prop, pkg, edits, needs, breaks, demo, **k):
    SEEDS.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))

POOL = "poolx/gopoolx/timedpool.go"
S("s01-pool-gc-alias", "C01", "poolx/gopoolx",
  [(POOL, "wbuffer = append(wbuffer, pool.dobby[:l]...)", "wbuffer = pool.dobby[:l]")],
  "a collection tick at which some idle workers are too old and others are not",
  "The list of workers to close aliases the idle list, which is then shifted down: the collector closes the young workers, "
  "which stay listed, and the next jobs go to a worker without a channel.",
  '''
package gopoolx_test

import (
	"sync/atomic"
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/poolx/gopoolx"
)

func TestDemo(t *testing.T) {
	var done int64
	pool, err := gopoolx.NewTimedPool(4, func(d time.Duration) {
		time.Sleep(d)
		atomic.AddInt64(&done, 1)
	}, 400*time.Millisecond, 500*time.Millisecond, 0)
	if err != nil {
		t.Fatal(err)
	}
	defer pool.Stop()
	pool.Run(time.Millisecond)       // idle from 0.0 s, collected at the tick of 0.5 s
	pool.Run(300 * time.Millisecond) // idle from 0.3 s, kept
	time.Sleep(620 * time.Millisecond)
	fin := make(chan bool)
	go func() { fin <- pool.Run(time.Millisecond) }()
	select {
	case <-fin:
	case <-time.After(5 * time.Second):
		t.Fatal("Run hangs")
	}
	time.Sleep(300 * time.Millisecond)
	if n := atomic.LoadInt64(&done); n != 3 {
		t.Fatal("handled", n, "of 3")
	}
}
''')
S("s02-pool-drain-count", "C02", "poolx/gopoolx",
  [(POOL, "\tpool.mu.Lock()\n\tpool.workers--\n\tpool.mu.Unlock()\n}", "\tpool.workers--\n}")],
  "a worker that is collected at the moment a job is admitted or another worker leaves",
  "The worker count is decremented without the pool's lock: concurrent updates are lost, so the limit drifts.",
  '''
package gopoolx_test

import (
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/poolx/gopoolx"
)

func TestDemo(t *testing.T) {
	for round := 0; round < 60; round++ {
		const n = 4000
		block := make(chan struct{})
		pool, err := gopoolx.NewTimedPool(n, func(int) { <-block }, time.Nanosecond, time.Millisecond, 0)
		if err != nil {
			t.Fatal(err)
		}
		for i := 0; i < n; i++ {
			if !pool.Run(i) {
				t.Fatal("refused", i)
			}
		}
		close(block)
		for i := 0; pool.Workers() > 0 && i < 300; i++ {
			time.Sleep(10 * time.Millisecond)
		}
		if w := pool.Workers(); w != 0 {
			t.Fatal("every worker was collected, but the pool counts", w)
		}
		pool.Stop()
	}
}
''', limit=200)
S("s03-pool-keep-one", "C03", "poolx/gopoolx",
  [(POOL, "\t\t\t\tif dc > 0 {\n", "\t\t\t\tif dc > 1 {\n")],
  "exactly one idle worker at the collections",
  "A single idle worker is never collected.",
  '''
package gopoolx_test

import (
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/poolx/gopoolx"
)

func TestDemo(t *testing.T) {
	pool, err := gopoolx.NewTimedPool(4, func(int) {}, 20*time.Millisecond, 20*time.Millisecond, 0)
	if err != nil {
		t.Fatal(err)
	}
	defer pool.Stop()
	pool.Run(1)
	for i := 0; i < 300; i++ {
		if pool.Workers() == 0 {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	t.Fatal("idle worker still there: ", pool.Workers())
}
''')
S("s04-pool-stop-forgets", "C03", "poolx/gopoolx",
  [(POOL, "\tif pool.maxWorkers == -1 {\n\t\tpool.workers--\n\t\tpool.mu.Unlock()\n\t\treturn true\n\t}\n\tpool.dobby = append(pool.dobby, w)\n\tpool.mu.Unlock()\n\treturn false\n",
          "\tdraining := pool.maxWorkers == -1\n\tpool.mu.Unlock()\n\tif draining {\n\t\tpool.mu.Lock()\n\t\tpool.workers--\n\t\tpool.mu.Unlock()\n\t\treturn true\n\t}\n\tpool.mu.Lock()\n\tpool.dobby = append(pool.dobby, w)\n\tpool.mu.Unlock()\n\treturn false\n")],
  "Stop taking effect between a worker's look at the pool and its joining the idle list",
  "A worker that ends its job just as the pool is stopped joins the idle list after it was closed, and never ends.",
  '''
package gopoolx_test

import (
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/poolx/gopoolx"
)

func TestDemo(t *testing.T) {
	end := time.Now().Add(60 * time.Second)
	for time.Now().Before(end) {
		const n = 64
		pool, err := gopoolx.NewTimedPool(n, func(int) {}, time.Hour, time.Hour, 0)
		if err != nil {
			t.Fatal(err)
		}
		go func() {
			for i := 0; i < 3000 && pool.Run(i); i++ {
			}
		}()
		time.Sleep(50 * time.Microsecond)
		pool.Stop()
		for i := 0; pool.Workers() > 0; i++ {
			if i > 2000 {
				t.Fatal("workers left behind after Stop:", pool.Workers())
			}
			time.Sleep(time.Millisecond)
		}
	}
}
''', limit=200, tries=1)
DEC = "iox/decouplex/decouple.go"
S("s05-decoupler-early-release", "C04", "iox/decouplex",
  [(DEC, "\tif view != nil {\n\t\tview(d.buffer[idx])\n\t}\n\tatomic.StoreUint64(&d.locktab[idx], empty)\n", "\tb := d.buffer[idx]\n\tatomic.StoreUint64(&d.locktab[idx], empty)\n"),
   (DEC, "\tatomic.StoreUint64(&d._read, r+1)\n\n\treturn true\n", "\tatomic.StoreUint64(&d._read, r+1)\n\n\tif view != nil {\n\t\tview(b)\n\t}\n\treturn true\n")],
  "a full buffer and a Write while Next's view function is still looking at the message",
  "The slot is handed back before the message was viewed: a writer overwrites it under the reader's eyes.",
  '''
package decouplex_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/iox/decouplex"
)

func TestDemo(t *testing.T) {
	d := decouplex.NewDecoupler(2, nil)
	d.Write([]byte("a"))
	d.Write([]byte("b"))
	d.Next(func(b []byte) {
		d.Write([]byte("c")) // full: has to be dropped, or at least to leave b alone
		if string(b) != "a" {
			t.Fatal("message changed to", string(b))
		}
	})
}
''')
SLEEP = "timex/sleepx/sleepx.go"
S("s06-sleep-until-seconds", "C09", "timex/sleepx",
  [(SLEEP, "case <-time.After(t.Sub(timex.Now())):", "case <-time.After(t.Sub(timex.Now()).Truncate(time.Second)):")],
  "a deadline that is not a whole number of seconds away",
  "SleepUntil rounds the remaining time down to seconds and wakes up to a second too early.",
  '''
package sleepx_test

import (
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/timex/sleepx"
)

func TestDemo(t *testing.T) {
	until := time.Now().Add(1500 * time.Millisecond)
	sleepx.New().SleepUntil(until)
	if left := time.Until(until); left > 10*time.Millisecond {
		t.Fatal("woke up early by", left)
	}
}
''')
S("s07-sleep-wakeup-old", "C08", "timex/sleepx",
  [(SLEEP, "\ts.cancel()\n\ts.ctx, s.cancel = context.WithCancel(context.Background())\n\treturn true\n", "\ts.ctx, s.cancel = context.WithCancel(context.Background())\n\ts.cancel()\n\treturn true\n")],
  "a sleep in progress when Wakeup is called",
  "Wakeup replaces the signal before it fires it: the sleeper in progress stays asleep, and the next one does not sleep at all.",
  '''
package sleepx_test

import (
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/timex/sleepx"
)

func TestDemo(t *testing.T) {
	s := sleepx.New()
	woken := make(chan struct{})
	go func() {
		s.SleepFor(30)
		close(woken)
	}()
	for i := 0; i < 500 && !s.Wakeup(); i++ {
		time.Sleep(10 * time.Millisecond)
	}
	select {
	case <-woken:
	case <-time.After(3 * time.Second):
		t.Fatal("Wakeup returned true and the sleep went on")
	}
}
''')
S("s08-lazy-flag", "C10", "functionalx/lazyx",
  [("functionalx/lazyx/lazy.go", 'import "sync"', 'import "sync/atomic"'),
   ("functionalx/lazyx/lazy.go", "\to     sync.Once\n", "\to     atomic.Bool\n"),
   ("functionalx/lazyx/lazy.go", "\tl.o.Do(func() {\n\t\tl.value = l.ctor()\n\t})\n", "\tif l.o.CompareAndSwap(false, true) {\n\t\tl.value = l.ctor()\n\t}\n")],
  "a Get while the first Get is still running the constructor",
  "Get claims the construction with a flag instead of waiting for it: others see the zero value.",
  '''
package lazyx_test

import (
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/functionalx/lazyx"
)

func TestDemo(t *testing.T) {
	started := make(chan struct{})
	l := lazyx.New(func() int {
		close(started)
		time.Sleep(200 * time.Millisecond)
		return 7
	})
	go l.Get()
	<-started
	if v := l.Get(); v != 7 {
		t.Fatal("Get returned", v)
	}
}
''')
S("s09-syncmap-values", "C11", "dsx/mapx/syncmapx",
  [("dsx/mapx/syncmapx/syncmapx.go", "\tt.mtx.RLock()\n\titems := make([]V, 0, len(t.m))\n\tfor _, v := range t.m {\n\t\titems = append(items, v)\n\t}\n\tt.mtx.RUnlock()\n\treturn items\n",
    "\tkeys := t.Keys()\n\titems := make([]V, 0, len(keys))\n\tfor _, k := range keys {\n\t\titems = append(items, t.Get(k))\n\t}\n\treturn items\n")],
  "a key deleted while Values runs",
  "Values looks each key up again: a key deleted meanwhile contributes a zero value nobody ever stored.",
  '''
package syncmapx_test

import (
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/dsx/mapx/syncmapx"
)

func TestDemo(t *testing.T) {
	m := syncmapx.New[int, int]()
	stop := make(chan struct{})
	defer close(stop)
	go func() {
		for {
			select {
			case <-stop:
				return
			default:
			}
			for k := 0; k < 64; k++ {
				m.Set(k, 1)
			}
			for k := 0; k < 64; k++ {
				m.Delete(k)
			}
		}
	}()
	end := time.Now().Add(20 * time.Second)
	for time.Now().Before(end) {
		for _, v := range m.Values() {
			if v != 1 {
				t.Fatal("a value that was never stored:", v)
			}
		}
	}
}
''')
S("s11-convx-unregister-rlock", "C12", "typex/convx",
  [("typex/convx/convx.go", "func Unregister[T, R any]() {\n\tconvertersLock.Lock()\n\tdefer convertersLock.Unlock()\n", "func Unregister[T, R any]() {\n\tconvertersLock.RLock()\n\tdefer convertersLock.RUnlock()\n")],
  "a lookup or registration at the same time as an Unregister",
  "Unregister changes the table under a read lock: concurrent lookups race with it (a fatal concurrent map access).",
  '''
package convx_test

import (
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/typex/convx"
)

type a struct{ x int }

func TestDemo(t *testing.T) {
	stop := make(chan struct{})
	defer close(stop)
	for g := 0; g < 4; g++ {
		go func() {
			for {
				select {
				case <-stop:
					return
				default:
				}
				convx.Unregister[a, int]()
				convx.Unregister[a, string]()
				convx.Unregister[a, bool]()
			}
		}()
	}
	end := time.Now().Add(8 * time.Second)
	for time.Now().Before(end) {
		convx.Register(func(v a) int { return v.x })
		convx.Exists[a, string]()
		convx.Register(func(v a) string { return "" })
		convx.Into[a, bool](a{1})
	}
}
''')
S("s12-convx-float32", "C13", "typex/convx",
  [("typex/convx/converters.go", "return strconv.FormatFloat(float64(i), 'f', -1, 64)", "return strconv.FormatFloat(float64(i), 'f', -1, 32)")],
  "a float64 that needs more digits than a float32",
  "Floats are written with the digits of a 32-bit float: float64 values do not survive the way through a string.",
  '''
package convx_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/typex/convx"
)

func TestDemo(t *testing.T) {
	for _, f := range []float64{1.5, 0.1, 123456789.125} {
		s, ok := convx.Into[float64, string](f)
		g, ok2 := convx.Into[string, float64](s)
		if !ok || !ok2 || g != f {
			t.Fatal(f, "became", s, "and", g)
		}
	}
}
''')
S("s13-convx-uint64-max", "C13", "typex/convx",
  [("typex/convx/converters.go", "\treturn strconv.FormatUint(uint64(i), 10)\n", "\treturn strconv.FormatInt(int64(i), 10)\n")],
  "an unsigned value of 2^63 or more",
  "Large unsigned integers are written as negative numbers.",
  '''
package convx_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/typex/convx"
)

func TestDemo(t *testing.T) {
	if s, ok := convx.Into[uint64, string](1<<63 + 5); !ok || s != "9223372036854775813" {
		t.Fatal(s)
	}
}
''')
S("s14-closemgr-same-error", "C14", "iox/managerx/closex",
  [("iox/managerx/closex/manager.go", "\t\tif err != nil {\n\t\t\terrs = append(errs, err)\n", "\t\tif err != nil && (len(errs) == 0 || errs[len(errs)-1].Error() != err.Error()) {\n\t\t\terrs = append(errs, err)\n")],
  "two closers in a row that fail with the same error text",
  "Close reports equal consecutive failures only once.",
  '''
package closex_test

import (
	"errors"
	"testing"

	"github.com/unsafe-risk/utilx/iox/managerx/closex"
)

type c struct{ err error }

func (c c) Close() error { return c.err }

func TestDemo(t *testing.T) {
	m := closex.New()
	m.Append(c{errors.New("disk full")})
	m.Append(c{errors.New("disk full")})
	errs, ok := closex.AsErrs(m.Close())
	if !ok || len(errs) != 2 {
		t.Fatal(errs)
	}
}
''')
S("s15-using-panic", "C15", "iox/usingx",
  [("iox/usingx/using.go", "\t\tf()\n\t\treturn\n", "\t\treturn\n"),
   ("iox/usingx/using.go", "\t\terrs := []error(nil)\n", "\t\tf()\n\t\terrs := []error(nil)\n")],
  "a body that panics",
  "The resources are closed by a defer that is set up after the body has run: a panic in the body leaks them.",
  '''
package usingx_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/iox/usingx"
)

type c struct{ n *int }

func (c c) Close() error { *c.n++; return nil }

func TestDemo(t *testing.T) {
	n := 0
	func() {
		defer func() { recover() }()
		usingx.Close(c{&n}, c{&n})(func() { panic("body") })
	}()
	if n != 2 {
		t.Fatal("closed", n, "of 2")
	}
}
''')
S("s16-killsig-late", "C16", "osx/closex",
  [("osx/closex/closex.go", "\tsignal.Notify(sigChannel, syscall.SIGINT, syscall.SIGQUIT, syscall.SIGTERM)\n\tgo func() {\n", "\tgo func() {\n\t\tsignal.Notify(sigChannel, syscall.SIGINT, syscall.SIGQUIT, syscall.SIGTERM)\n")],
  "a signal that arrives right after HandleKillSig returned, before its goroutine runs",
  "The signals are only caught once the goroutine runs: an early signal kills the process without the handler.",
  '''
package closex_test

import (
	"io"
	"log"
	"os/exec"
	"os"
	"syscall"
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/osx/closex"
)

func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") != "" {
		i := closex.HandleKillSig(func() {}, log.New(io.Discard, "", 0))
		syscall.Kill(syscall.Getpid(), syscall.SIGTERM)
		select {
		case <-i.C:
		case <-time.After(10 * time.Second):
			t.Fatal("no announcement")
		}
		return
	}
	for n := 0; n < 50; n++ {
		cmd := exec.Command(os.Args[0], "-test.run", "^TestDemo$")
		cmd.Env = append(os.Environ(), "DEMO_CHILD=1", "GOMAXPROCS=1")
		if out, err := cmd.CombinedOutput(); err != nil {
			t.Fatal(err, string(out))
		}
	}
}
''')
S("s17-syncpool-slot", "C17", "syncx/syncpoolx",
  [("syncx/syncpoolx/syncpoolx.go", "\tpool sync.Pool\n}", "\tpool sync.Pool\n\tlast *T // most recently returned\n}"),
   ("syncx/syncpoolx/syncpoolx.go", "\treturn p.pool.Get().(*T)\n", "\tx := p.last\n\tif p.last = nil; x == nil {\n\t\tx = p.pool.Get().(*T)\n\t}\n\treturn x\n"),
   ("syncx/syncpoolx/syncpoolx.go", "\tp.pool.Put(x)\n", "\tif p.last == nil {\n\t\tp.last = x\n\t\treturn\n\t}\n\tp.pool.Put(x)\n")],
  "two goroutines that call Get at the same time",
  "A fast path keeps the last returned object in an unguarded field: two concurrent Gets can return the same object.",
  '''
package syncpoolx_test

import (
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/syncx/syncpoolx"
)

type obj struct{ users int32 }

func TestDemo(t *testing.T) {
	var p syncpoolx.Pool[obj]
	p.Init(func() *obj { return new(obj) })
	var shared int32
	var wg sync.WaitGroup
	end := time.Now().Add(10 * time.Second)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(end) && atomic.LoadInt32(&shared) == 0 {
				for i := 0; i < 100; i++ {
					x := p.Get()
					if atomic.AddInt32(&x.users, 1) != 1 {
						atomic.StoreInt32(&shared, 1)
					}
					atomic.AddInt32(&x.users, -1)
					p.Put(x)
				}
			}
		}()
	}
	wg.Wait()
	if shared != 0 {
		t.Fatal("one object in two hands")
	}
}
''')
S("s18-ring-head", "C18", "dsx/slicex/queuex",
  [("dsx/slicex/queuex/queuex.go", "\tr.tail = (r.tail + 1) % r.cap\n", "\tif r.tail++; r.tail > r.cap-1 {\n\t\tr.tail = 0\n\t}\n"),
   ("dsx/slicex/queuex/queuex.go", "\treturn r.head == (r.tail+1)%r.cap\n", "\treturn r.tail-r.head == r.cap-1\n")],
  "a ring whose contents have wrapped around the end of its storage",
  "IsFull does not know that the tail may lie before the head: a wrapped ring never looks full, and one more Enqueue empties it.",
  '''
package queuex_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/dsx/slicex/queuex"
)

func TestDemo(t *testing.T) {
	q := queuex.New[int](3)
	for i := 0; i < 3; i++ {
		q.Enqueue(i)
	}
	q.Dequeue()
	q.Dequeue()
	q.Enqueue(3)
	q.Enqueue(4) // 2 3 4
	if q.Enqueue(5) {
		t.Fatal("a full queue took another element")
	}
	for i := 2; i < 5; i++ {
		if v, ok := q.Dequeue(); !ok || v != i {
			t.Fatal(i, v, ok)
		}
	}
}
''')
S("s19-stack-len", "C19", "dsx/linkedx/stackx",
  [("dsx/linkedx/stackx/stackx.go", "\tif s.head == nil {\n\t\treturn\n\t}\n\ts.length--\n", "\ts.length--\n\tif s.head == nil {\n\t\treturn\n\t}\n")],
  "a Pop of an empty stack, and a look at the length afterwards",
  "Popping an empty stack still counts the length down.",
  '''
package stackx_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/dsx/linkedx/stackx"
)

func TestDemo(t *testing.T) {
	s := stackx.New[int]()
	s.Pop()
	s.Push(1)
	if s.Len() != 1 {
		t.Fatal("length", s.Len())
	}
}
''')
DEQ = "dsx/linkedx/dequex/dequex.go"
S("s20-deque-prev", "C20", "dsx/linkedx/dequex",
  [(DEQ, "\t\t\tt.head.prev = nil\n", "\t\t\tt.head.start = 0\n")],
  "a deque of several blocks whose first block is emptied from the front after the second one was entered from the front",
  "When a block is emptied from the front, the next one is taken to begin at its first slot and keeps its link to the discarded block.",
  '''
package dequex_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/dsx/linkedx/dequex"
)

func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	d := dequex.New[int]()
	for i := 0; i < 70; i++ {
		d.PushBack(i)
	}
	for i := 0; i < 65; i++ {
		d.PopFront()
	}
	for i := 69; i >= 65; i-- {
		if v, ok := d.PopBack(); !ok || v != i {
			t.Fatal(i, v, ok)
		}
	}
	if v, ok := d.PopBack(); ok {
		t.Fatal("an empty deque returned", v)
	}
}
''')
S("s21-list-at-tail", "C21", "dsx/linkedx/listx",
  [("dsx/linkedx/listx/listx.go", "func (l *List[T]) At(index int) (rs T, ok bool) {\n\ti := 0\n\tfor p := l.head;", "func (l *List[T]) At(index int) (rs T, ok bool) {\n\tif index == l.length-1 {\n\t\treturn l.tail.data, true // no need to walk\n\t}\n\tvar i int\n\tfor p := l.head;")],
  "At(-1) on an empty list",
  "A shortcut for the last element also serves index -1 of an empty list, where there is no last element.",
  '''
package listx_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/dsx/linkedx/listx"
)

func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	l := listx.New[int]()
	if _, ok := l.At(-1); ok {
		t.Fatal("an empty list has an element")
	}
}
''')
SKL = "dsx/mapx/sklmapx/sklmapx.go"
S("s22-skl-tall-delete", "C22", "dsx/mapx/sklmapx",
  [(SKL, "\tfor i := 0; i < x.Height(); i++ {\n\t\tctx[i].next[i] = x.next[i]\n", "\tfor i := 0; i < x.Height() && i < MAX_HEIGHT/2; i++ {\n\t\tctx[i].next[i] = x.next[i]\n")],
  "the deletion of a key whose node is more than 8 levels high (one in 256), followed by insertions around it",
  "Deletion unlinks a node only from the lower levels: searches still pass through the deleted tall node.",
  '''
package sklmapx_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"
)

func TestDemo(t *testing.T) {
	m := sklmapx.New[int, int]()
	const n = 20000
	for i := 0; i < n; i++ {
		m.Set(i, i)
	}
	for i := 0; i < n; i++ {
		m.Del(i)
		if _, ok := m.Get(i); ok {
			t.Fatal("deleted, but still there:", i)
		}
	}
	if k := m.Keys(); len(k) != 0 {
		t.Fatal("keys", len(k))
	}
}
''')
S("s23-skl-rewind", "C23", "dsx/mapx/sklmapx",
  [(SKL, "\ti.node = i.list.skl.search(key, &i.ctx)\n", "\tif n := i.list.skl.search(key, &i.ctx); n != nil {\n\t\ti.node = n\n\t}\n"),
   (SKL, "\tif i.node == nil {\n\t\tvar zero K\n\t\tvar zeroV V\n\t\treturn zero, zeroV, false\n\t}\n\treturn i.node.key, i.node.value, true\n}\n\nfunc (i *Iterator[K, V]) Rewind",
         "\tif i.node == nil || i.node.key != key {\n\t\tvar zero K\n\t\tvar zeroV V\n\t\treturn zero, zeroV, false\n\t}\n\treturn i.node.key, i.node.value, true\n}\n\nfunc (i *Iterator[K, V]) Rewind")],
  "a Seek of a missing key by an iterator that already stands on a key",
  "A failed Seek leaves the iterator where it was instead of at the beginning.",
  '''
package sklmapx_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"
)

func TestDemo(t *testing.T) {
	m := sklmapx.New[int, int]()
	for _, k := range []int{1, 3, 5} {
		m.Set(k, k)
	}
	i := m.Iterator()
	i.Next()
	i.Next()
	if _, _, ok := i.Seek(4); ok {
		t.Fatal("found 4")
	}
	if k, _, ok := i.Next(); !ok || k != 1 {
		t.Fatal("after a failed Seek:", k, ok)
	}
}
''')
S("s24-ordmap-range-snapshot", "C24", "dsx/mapx/ordmapx",
  [("dsx/mapx/ordmapx/ordmapx.go", "\titer := m.skl.Iterator()\n\tfor {\n\t\tk, _, ok := iter.Next()\n\t\tif !ok {\n\t\t\tbreak\n\t\t}\n\t\tif stop := f(k, m.m[k]); stop {\n", "\tfor _, k := range m.skl.Keys() {\n\t\tif stop := f(k, m.m[k]); stop {\n")],
  "a Range function that deletes keys that are still to come",
  "Range walks a copy of the keys: it visits deleted keys with a zero value and misses added ones.",
  '''
package ordmapx_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/dsx/mapx/ordmapx"
)

func TestDemo(t *testing.T) {
	m := ordmapx.New[int, string]()
	for i := 0; i < 4; i++ {
		m.Set(i, "x")
	}
	m.Range(func(k int, v string) bool {
		m.Del(2)
		if v != "x" {
			t.Fatalf("key %d visited with %q", k, v)
		}
		return false
	})
}
''')
S("s25-slicex-copy-alias", "C25", "dsx/slicex",
  [("dsx/slicex/slicex.go", "\tcopy := append((*s)[:0:0], *s...)\n", "\tcopy := (*s)[:len(*s):len(*s)]\n")],
  "a Set on one of the two slices after a Copy",
  "Copy shares the elements with the original until one of them grows.",
  '''
package slicex_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/dsx/slicex"
)

func TestDemo(t *testing.T) {
	s := slicex.New(1, 2, 3)
	c := s.Copy()
	s.Set(0, 9)
	if c.Get(0) != 1 {
		t.Fatal("the copy changed", c.Finalize())
	}
}
''')
S("s26-slicex-repeat", "C26", "dsx/slicex",
  [("dsx/slicex/slicex.go", "\tfor i := 0; i < cnt; i++ {\n\t\trepeat = append(repeat, *s...)\n\t}\n", "\trepeat = append(repeat, *s...)\n\tfor i := 1; i < cnt; i *= 2 {\n\t\trepeat = append(repeat, repeat...)\n\t}\n")],
  "a repetition count that is not a power of two",
  "Repeat doubles its result until it is long enough and does not cut off the excess.",
  '''
package slicex_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/dsx/slicex"
)

func TestDemo(t *testing.T) {
	for n := 0; n < 6; n++ {
		s := slicex.New(1, 2)
		s.Repeat(n)
		if s.Len() != 2*n {
			t.Fatal(n, s.Finalize())
		}
	}
}
''')
S("s27-bitset-32", "C27", "dsx/setx/bitsetx",
  [("dsx/setx/bitsetx/bitsetx.go", "\t\tb.data ^= (1 << i)\n", "\t\tb.data ^= T(uint32(1) << i)\n")],
  "bit positions from 32 on in a 64-bit set",
  "Toggle forms its mask in 32 bits.",
  '''
package bitsetx_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/dsx/setx/bitsetx"
)

func TestDemo(t *testing.T) {
	var b bitsetx.BitSet[uint64]
	b.Toggle(40)
	if !b.Test(40) {
		t.Fatal("40 was not toggled")
	}
}
''')
S("s28-sort-stable", "C28", "algox/sortx",
  [("algox/sortx/sortx.go", "\tslices.SortStableFunc(s, less)\n", "\tslices.SortFunc(s, less)\n")],
  "more than twelve elements with equal keys",
  "The stable sorts use the unstable algorithm.",
  '''
package sortx_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/algox/sortx"
)

func TestDemo(t *testing.T) {
	var s [][2]int
	for i := 0; i < 200; i++ {
		s = append(s, [2]int{i % 3, i})
	}
	sortx.SortStableCustom(s, func(a, b [2]int) bool { return a[0] < b[0] })
	for i := 1; i < len(s); i++ {
		if s[i-1][0] == s[i][0] && s[i-1][1] > s[i][1] {
			t.Fatal("equal elements swapped", s[i-1], s[i])
		}
	}
}
''')
S("s29-intersection-upper", "C29", "timex/intersectionx",
  [("timex/intersectionx/intersectionx.go", "\t\tEnd = 0\n\n", "\t\tEnd, Mid = 0, 0\n\n")],
  "clock intervals of which some midpoints lie outside the common interval on its lower side",
  "The count of midpoints outside the interval starts again for the upper end: those below the lower end are forgotten, and an interval is accepted that too many clocks contradict.",
  '''
package intersectionx_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/timex/intersectionx"
)

func TestDemo(t *testing.T) {
	type I = intersectionx.Interval
	// all three share [8,10], but the midpoints 0 and 18 lie outside of it
	if lo, hi, ok := intersectionx.Intersection(I{0, 10}, I{9, 3}, I{18, 10}); ok {
		t.Fatal(lo, hi, ok)
	}
}
''')
S("s30-truncate-week", "C30", "timex/truncatex",
  [("timex/truncatex/truncatex.go", "\tyear := timex.Custom(sec, 0).Year()\n\tmonth := timex.Custom(sec, 0).Month()\n", "\tat := timex.Custom(sec, 0)\n\tyear := at.Year()\n\tmonth := at.AddDate(0, 0, 1).Month()\n")],
  "the last day of a month",
  "The month is taken from the following day: on the last day of a month TruncateMonth rounds up.",
  '''
package truncatex_test

import (
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/timex/truncatex"
)

func TestDemo(t *testing.T) {
	s := time.Date(2023, 4, 30, 12, 0, 0, 0, time.UTC).Unix()
	if got := truncatex.TruncateMonth(s); got != time.Date(2023, 4, 1, 0, 0, 0, 0, time.UTC).Unix() {
		t.Fatal(time.Unix(got, 0).UTC())
	}
}
''')
S("s31-differ-second-end", "C31", "timex/diffx",
  [("timex/diffx/diffx.go", "\td.end = timex.Now()\n", "\tif d.end.Before(d.start) || d.end.IsZero() {\n\t\td.end = timex.Now()\n\t}\n")],
  "End called again without a Start in between",
  "A later End does not count.",
  '''
package diffx_test

import (
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/timex/diffx"
)

func TestDemo(t *testing.T) {
	d := diffx.New()
	d.Start()
	d.End()
	time.Sleep(50 * time.Millisecond)
	d.End()
	if d.GetDiff() < 50*time.Millisecond {
		t.Fatal(d.GetDiff())
	}
}
''')
S("s32-gcm-in-place", "C32", "cryptox/aesx",
  [("cryptox/aesx/gcmx.go", "\tresult, err := aead.Open(nil, nonce, ciphertext, nil)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n", "\tresult, err := aead.Open(ciphertext[:0], nonce, ciphertext, nil)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n")],
  "the same ciphertext decrypted twice",
  "DecryptGCM decrypts in place: it destroys the caller's ciphertext, which cannot be decrypted again.",
  '''
package aesx_test

import (
	"bytes"
	"testing"

	"github.com/unsafe-risk/utilx/cryptox/aesx"
)

func TestDemo(t *testing.T) {
	key := []byte("key")
	enc, err := aesx.EncryptGCM([]byte("a secret"), key)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 2; i++ {
		dec, err := aesx.DecryptGCM(enc, key)
		if err != nil || !bytes.Equal(dec, []byte("a secret")) {
			t.Fatal(i, dec, err)
		}
	}
}
''')
S("s33-passhash-empty", "C33", "cryptox/passhashx",
  [("cryptox/passhashx/passhash.go", "\tif subtle.ConstantTimeCompare(hash, data.Hash()) != 1 {\n", "\tif n := len(data.Hash()); n > len(hash) || subtle.ConstantTimeCompare(hash[:n], data.Hash()) != 1 {\n")],
  "a stored hash that was cut short (well-formed, but with fewer hash bytes)",
  "Only as many bytes are compared as are stored: a record with an empty or short hash accepts other passwords.",
  '''
package passhashx

import (
	"testing"

	"github.com/unsafe-risk/utilx/cryptox/passhashx/internal"
)

func TestDemo(t *testing.T) {
	h, err := Hash([]byte("right"), SecurityLevelMobileHigh)
	if err != nil {
		t.Fatal(err)
	}
	p := internal.PasswordHash(h)
	short := internal.New_PasswordHash(p.Param(), p.Salt(), nil)
	if Verify([]byte("wrong"), short) == nil {
		t.Fatal("a record without hash accepts any password")
	}
}
''')
S("s34-bcrypt-nul", "C34", "cryptox/bcryptx",
  [("cryptox/bcryptx/bcryptx.go", "\terr := bcrypt.CompareHashAndPassword(enc, pw)\n", "\terr := bcrypt.CompareHashAndPassword(enc, bytes.TrimRight(pw, \"\\r\\n\"))\n"),
   ("cryptox/bcryptx/bcryptx.go", 'import (\n\t"fmt"\n', 'import (\n\t"bytes"\n\t"fmt"\n')],
  "a password that ends in a line feed",
  "Line ends are cut off the password that is compared: another password is accepted, and one that really ends so is refused.",
  '''
package bcryptx_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/cryptox/bcryptx"
)

func TestDemo(t *testing.T) {
	h, err := bcryptx.Encrypt([]byte("secret"))
	if err != nil {
		t.Fatal(err)
	}
	if ok, _ := bcryptx.Decrypt(h, []byte("secret\\n")); ok {
		t.Fatal("accepted another password")
	}
}
''')
S("s35-optional-nil", "C35", "configx/optionalx",
  [("configx/optionalx/optionalx.go", "\t\tp = f(p)\n", "\t\tif q := f(p); q != nil {\n\t\t\tp = q\n\t\t}\n")],
  "an option function that returns nil, to reset the parameters",
  "A nil result of an option function is ignored and the earlier parameters stay.",
  '''
package optionalx_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/configx/optionalx"
)

func TestDemo(t *testing.T) {
	r := optionalx.Parameter(func(p *int) *bool { b := p == nil; return &b },
		func(*int) *int { v := 1; return &v },
		func(*int) *int { return nil })
	if !*r {
		t.Fatal("the constructor did not get the last result")
	}
}
''')
S("s36-tidy-file-vendor", "C36", "cmd/autotidy",
  [("cmd/autotidy/autotidy.go", "\t\tif d.IsDir() {\n\t\t\tif d.Name() == \"vendor\" || d.Name() == \".git\" {\n\t\t\t\treturn filepath.SkipDir\n\t\t\t}\n", "\t\tif d.Name() == \"vendor\" || d.Name() == \".git\" {\n\t\t\treturn filepath.SkipDir\n\t\t}\n\t\tif d.IsDir() {\n")],
  "a file (not a directory) named vendor or .git, as in a git worktree or submodule",
  "Skipping on a file skips the rest of its directory: sibling modules that sort after it are never visited.",
  "", demo_sh='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
go build -o "$tmp/cmd" ./cmd/autotidy || exit 2
mkdir -p "$tmp/bin" "$tmp/tree/mod"
echo 'gitdir: elsewhere' > "$tmp/tree/.git"
printf '#!/bin/sh\\npwd >> "%s"\\n' "$tmp/log" > "$tmp/bin/go"
chmod +x "$tmp/bin/go"
cd "$tmp/tree" && PATH="$tmp/bin:/usr/bin:/bin" timeout 60 "$tmp/cmd" 2>/dev/null
grep -q '/tree/mod$' "$tmp/log"
''')
S("s37-autoupdate-hidden", "C36", "cmd/autoupdate",
  [("cmd/autoupdate/autoupdate.go", '|| d.Name() == ".git" {', '|| d.Name() != path && len(d.Name()) > 4 && d.Name()[:4] == ".git" || d.Name() == ".git" {')],
  "a directory whose name begins with .git below the first level, such as a/.github",
  "Directories like .github/... below the first level are skipped as if they were .git.",
  "", demo_sh='''#!/bin/bash
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
go build -o "$tmp/cmd" ./cmd/autoupdate || exit 2
mkdir -p "$tmp/bin" "$tmp/tree/a/.github/tool"
printf '#!/bin/sh\\npwd >> "%s"\\n' "$tmp/log" > "$tmp/bin/go"
chmod +x "$tmp/bin/go"
cd "$tmp/tree" && PATH="$tmp/bin:/usr/bin:/bin" timeout 60 "$tmp/cmd" 2>/dev/null
grep -q '/tree/a/.github/tool$' "$tmp/log"
''')
