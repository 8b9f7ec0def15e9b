SEEDS = []
def S(id, prop, pkg, edits, needs, breaks, demo, **k):
    SEEDS.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))

POOL = "poolx/gopoolx/timedpool.go"
S("t01-pool-reuse-channel", "C01", "poolx/gopoolx",
  [(POOL, "\t\t\t\t\twbuffer[i].ch = nil\n", ""),
   (POOL, "\t\t\tw = pool.pool.Get()\n\t\t\tw.ch = make(chan T, 1)\n", "\t\t\tif w = pool.pool.Get(); w.ch == nil {\n\t\t\t\tw.ch = make(chan T, 1)\n\t\t\t}\n")],
  "a worker that was collected and whose record is used again for a new worker",
  "Collected worker records keep their closed channel, and a new worker made from such a record uses it.",
  '''
package gopoolx_test

import (
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/poolx/gopoolx"
)

func TestDemo(t *testing.T) {
	done := make(chan int, 100)
	pool, err := gopoolx.NewTimedPool(8, func(i int) { done <- i }, 5*time.Millisecond, 5*time.Millisecond, 0)
	if err != nil {
		t.Fatal(err)
	}
	defer pool.Stop()
	for round := 0; round < 20; round++ {
		for i := 0; i < 4; i++ {
			pool.Run(i)
		}
		for i := 0; i < 4; i++ {
			select {
			case <-done:
			case <-time.After(5 * time.Second):
				t.Fatal("job lost")
			}
		}
		time.Sleep(30 * time.Millisecond)
	}
}
''')
S("t02-pool-limit-race", "C02", "poolx/gopoolx",
  [(POOL, "\t\t\tpool.workers++\n\t\t\tw = pool.pool.Get()\n", "\t\t\tpool.mu.Unlock() // making a worker may take long\n\t\t\tw = pool.pool.Get()\n\t\t\tpool.mu.Lock()\n\t\t\tpool.workers++\n")],
  "two jobs submitted at the same time when there is room for one more worker",
  "The pool is unlocked between the look at the worker count and its increment: more workers than the limit run.",
  '''
package gopoolx_test

import (
	"sync"
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/poolx/gopoolx"
)

func TestDemo(t *testing.T) {
	end := time.Now().Add(30 * time.Second)
	for time.Now().Before(end) {
		block := make(chan struct{})
		pool, err := gopoolx.NewTimedPool(1, func(int) { <-block }, time.Hour, time.Hour, 0)
		if err != nil {
			t.Fatal(err)
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() { defer wg.Done(); <-start; pool.Run(1) }()
		}
		close(start)
		wg.Wait()
		w := pool.Workers()
		close(block)
		pool.Stop()
		if w > 1 {
			t.Fatal("workers:", w)
		}
	}
}
''', limit=200)
S("t03-pool-stop-late-flag", "C03", "poolx/gopoolx",
  [(POOL, "\t\t\t\tpool.mu.Lock()\n\t\t\t\tpool.maxWorkers = -1\n\t\t\t\tfor i := range pool.dobby {\n\t\t\t\t\tclose(pool.dobby[i].ch)\n", "\t\t\t\tpool.mu.Lock()\n\t\t\t\tidle := pool.dobby\n\t\t\t\tpool.mu.Unlock()\n\t\t\t\tpool.mu.Lock()\n\t\t\t\tpool.maxWorkers = -1\n\t\t\t\tfor i := range idle {\n\t\t\t\t\tclose(idle[i].ch)\n")],
  "a worker that becomes idle, or is taken, between two looks of the stopping collector at the pool",
  "Stop closes the workers that were idle a moment earlier: one that has become idle since is never ended, one that was taken is closed twice over its job.",
  '''
package gopoolx_test

import (
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/poolx/gopoolx"
)

func TestDemo(t *testing.T) {
	end := time.Now().Add(60 * time.Second)
	for time.Now().Before(end) {
		const n = 32
		pool, err := gopoolx.NewTimedPool(n, func(int) {}, time.Hour, time.Hour, 0)
		if err != nil {
			t.Fatal(err)
		}
		for g := 0; g < 4; g++ {
			go func() {
				defer func() { recover() }()
				for i := 0; i < 3000 && pool.Run(i); i++ {
				}
			}()
		}
		time.Sleep(50 * time.Microsecond)
		pool.Stop()
		for i := 0; pool.Workers() > 0; i++ {
			if i > 2000 {
				t.Fatal("workers left behind after Stop:", pool.Workers())
			}
			time.Sleep(time.Millisecond)
		}
	}
}
''', limit=200, tries=1)
S("t04-decoupler-mask", "C06", "iox/decouplex",
  [("iox/decouplex/decouple.go", "\tidx := r % d.size\n", "\tidx := r & (d.size - 1)\n")],
  "a buffer whose size is not a power of two",
  "The reader finds its slot with a mask: with other sizes it waits for ever at a slot nobody fills.",
  '''
package decouplex_test

import (
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/iox/decouplex"
)

func TestDemo(t *testing.T) {
	d := decouplex.NewDecoupler(3, nil)
	fin := make(chan string, 3)
	for _, s := range []string{"a", "b", "c"} {
		d.Write([]byte(s))
	}
	go func() {
		for i := 0; i < 3; i++ {
			d.Next(func(b []byte) { fin <- string(b) })
		}
	}()
	for _, s := range []string{"a", "b", "c"} {
		select {
		case g := <-fin:
			if g != s {
				t.Fatal(g, s)
			}
		case <-time.After(5 * time.Second):
			t.Fatal("Next hangs before", s)
		}
	}
}
''')
S("t05-syncmap-size", "C11", "dsx/mapx/syncmapx",
  [("dsx/mapx/syncmapx/syncmapx.go", "\tm.mtx.RLock()\n\t_, ok := m.m[k]\n\tm.mtx.RUnlock()\n\treturn ok\n", "\tif m.Size() == 0 {\n\t\treturn false\n\t}\n\t_, ok := m.m[k]\n\treturn ok\n")],
  "Has at the same time as a change",
  "Has looks into the map without its lock.",
  '''
package syncmapx_test

import (
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/dsx/mapx/syncmapx"
)

func TestDemo(t *testing.T) {
	m := syncmapx.New[int, int]()
	m.Set(-1, 0)
	stop := make(chan struct{})
	defer close(stop)
	for g := 0; g < 4; g++ {
		go func() {
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				m.Set(i%1000, i)
				m.Delete((i + 500) % 1000)
			}
		}()
	}
	end := time.Now().Add(5 * time.Second)
	for time.Now().Before(end) {
		m.Has(3)
	}
}
''')
S("t06-convx-or-zero", "C12", "typex/convx",
  [("typex/convx/convx.go", "\tif !ok {\n\t\treturn or\n\t}\n", "\tif !ok || reflect.ValueOf(&rs).Elem().IsZero() {\n\t\treturn or\n\t}\n")],
  "a registered conversion whose result is the zero value",
  "IntoOr takes a zero result for a missing converter and returns the alternative.",
  '''
package convx_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/typex/convx"
)

func TestDemo(t *testing.T) {
	if v := convx.IntoOr[string, int]("0", 7); v != 0 {
		t.Fatal(v)
	}
}
''')
S("t07-convx-bool-negative", "C13", "typex/convx",
  [("typex/convx/converters.go", "func intToBool[T constraints.Integer](i T) bool {\n\treturn i != T(0)\n", "func intToBool[T constraints.Integer](i T) bool {\n\treturn i > T(0)\n")],
  "a negative integer converted to bool",
  "Negative integers become false.",
  '''
package convx_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/typex/convx"
)

func TestDemo(t *testing.T) {
	if v, ok := convx.Into[int8, bool](-1); !ok || !v {
		t.Fatal(v, ok)
	}
}
''')
S("t08-convx-via-float", "C13", "typex/convx",
  [("typex/convx/converters.go", "\treturn R(i)\n", "\tif f := float64(i); f <= 1<<31 {\n\t\treturn R(i)\n\t} else {\n\t\treturn R(f)\n\t}\n")],
  "integers beyond 2^53",
  "Large integers pass through a float64 and lose their low bits.",
  '''
package convx_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/typex/convx"
)

func TestDemo(t *testing.T) {
	if v, ok := convx.Into[int64, uint64](1<<53 + 1); !ok || v != 1<<53+1 {
		t.Fatal(v, ok)
	}
}
''')
S("t09-closemgr-as", "C14", "iox/managerx/closex",
  [("iox/managerx/closex/types.go", "\tvar list ErrorList\n\tif errors.As(err, &list) {\n\t\treturn list, true\n\t}\n\n\treturn nil, false\n", "\tif list, ok := errors.Unwrap(err).(ErrorList); ok {\n\t\treturn list, true\n\t}\n\tlist, ok := err.(ErrorList)\n\treturn list, ok\n")],
  "an error list that was wrapped twice",
  "AsErrs looks through one level of wrapping only.",
  '''
package closex_test

import (
	"errors"
	"fmt"
	"testing"

	"github.com/unsafe-risk/utilx/iox/managerx/closex"
)

type c struct{}

func (c) Close() error { return errors.New("x") }

func TestDemo(t *testing.T) {
	m := closex.New()
	m.Append(c{})
	err := fmt.Errorf("b: %w", fmt.Errorf("a: %w", m.Close()))
	if l, ok := closex.AsErrs(err); !ok || len(l) != 1 {
		t.Fatal(l, ok)
	}
}
''')
S("t10-closemgr-unlocked", "C14", "iox/managerx/closex",
  [("iox/managerx/closex/manager.go", "\tc.list = append(c.list, closer)\n", "\tif n := len(c.list); n == 0 || c.list[n-1] != closer {\n\t\tc.list = append(c.list, closer)\n\t}\n")],
  "the same closer appended twice in a row",
  "A closer appended a second time is silently ignored (and two equal values count as the same).",
  '''
package closex_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/iox/managerx/closex"
)

var n int

type c struct{ name string }

func (c) Close() error { n++; return nil }

func TestDemo(t *testing.T) {
	m := closex.New()
	m.Append(c{"file"})
	m.Append(c{"file"})
	m.Close()
	if n != 2 {
		t.Fatal("closed", n, "of 2")
	}
}
''')
S("t11-using-twice", "C15", "iox/usingx",
  [("iox/usingx/using.go", "\t\t\tif len(errs) > 0 {\n", "\t\t\tclosers = nil\n\t\t\tif len(errs) != 0 {\n")],
  "the function that Close returned called a second time",
  "A second use of the same Using function closes nothing.",
  '''
package usingx_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/iox/usingx"
)

type c struct{ n *int }

func (c c) Close() error { *c.n++; return nil }

func TestDemo(t *testing.T) {
	n := 0
	use := usingx.Close(c{&n})
	use(func() {})
	use(func() {})
	if n != 2 {
		t.Fatal(n)
	}
}
''')
S("t12-killsig-quit", "C16", "osx/closex",
  [("osx/closex/closex.go", "syscall.SIGINT, syscall.SIGQUIT, syscall.SIGTERM)", "syscall.SIGINT, syscall.SIGTERM)")],
  "SIGQUIT",
  "SIGQUIT no longer runs the handler.",
  '''
package closex_test

import (
	"io"
	"log"
	"os/signal"
	"os"
	"syscall"
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/osx/closex"
)

func TestDemo(t *testing.T) {
	own := make(chan os.Signal, 9)
	signal.Notify(own, syscall.SIGQUIT)
	i := closex.HandleKillSig(func() {}, log.New(io.Discard, "", 0))
	syscall.Kill(syscall.Getpid(), syscall.SIGQUIT)
	select {
	case <-i.C:
	case <-time.After(5 * time.Second):
		t.Fatal("not handled")
	}
}
''')
S("t13-queue-empty", "C18", "dsx/linkedx/queuex",
  [("dsx/linkedx/queuex/queuex.go", "\treturn q.head == nil\n", "\treturn q.head == q.tail\n")],
  "a linked queue with exactly one element",
  "IsEmpty is true with one element.",
  '''
package queuex_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/dsx/linkedx/queuex"
)

func TestDemo(t *testing.T) {
	q := queuex.New[int]()
	q.Enqueue(1)
	if q.IsEmpty() {
		t.Fatal("empty with one element")
	}
}
''')
S("t14-stack-shrink", "C19", "dsx/slicex/stackx",
  [("dsx/slicex/stackx/stackx.go", "\ts.data = s.data[:len(s.data)-1]\n", "\ts.data = s.data[:len(s.data)-1 : cap(s.data)]\n\tif n := len(s.data); n >= 64 && n < cap(s.data)/4 {\n\t\ts.data = append(make([]T, 0, cap(s.data)/2), s.data[:n-1]...)\n\t}\n")],
  "hundreds of elements pushed and most of them popped again",
  "The storage is given back when it is mostly unused, and one element is lost on that occasion.",
  '''
package stackx_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/dsx/slicex/stackx"
)

func TestDemo(t *testing.T) {
	s := stackx.New[int]()
	for i := 0; i < 2000; i++ {
		s.Push(i)
	}
	for i := 1999; i >= 0; i-- {
		if v, ok := s.Pop(); !ok || v != i {
			t.Fatal(i, v, ok)
		}
	}
}
''')
S("t15-deque-front-link", "C20", "dsx/linkedx/dequex",
  [("dsx/linkedx/dequex/dequex.go", "\t\tn.next = t.head\n\t\tt.head.prev = n\n", "\t\tn.next = t.head\n\t\tif t.head.end == nodeBufferSize {\n\t\t\tt.head.prev = n\n\t\t}\n")],
  "a block added in front of a block that is not full, and then emptied from the back",
  "The link back to a new front block is only set if the next block is full: popping from the back loses the front.",
  '''
package dequex_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/dsx/linkedx/dequex"
)

func TestDemo(t *testing.T) {
	d := dequex.New[int]()
	d.PushBack(1)
	d.PushFront(0)
	for i := 1; i >= 0; i-- {
		if v, ok := d.PopBack(); !ok || v != i {
			t.Fatal(i, v, ok)
		}
	}
}
''')
S("t16-list-tail", "C21", "dsx/linkedx/listx",
  [("dsx/linkedx/listx/listx.go", "\t\tif l.head == nil {\n", "\t\tif l.length == 1 {\n")],
  "the first of two elements removed by its index, and another one appended",
  "Removing the first element forgets the tail when one element is left (and keeps it when none is).",
  '''
package listx_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/dsx/linkedx/listx"
)

func TestDemo(t *testing.T) {
	l := listx.New[int]()
	l.Append(1)
	l.Append(2)
	l.Remove(0)
	l.Append(3)
	if v, ok := l.At(0); !ok || v != 2 {
		t.Fatal(v, ok)
	}
}
''')
S("t17-skl-height", "C22", "dsx/mapx/sklmapx",
  [("dsx/mapx/sklmapx/sklmapx.go", "\tfor ; h < MAX_HEIGHT; h++ {\n", "\tfor ; h <= MAX_HEIGHT; h++ {\n")],
  "a node that gets the greatest height, one insertion in 65536",
  "The height can exceed the number of levels by one: the insertion panics.",
  '''
package sklmapx_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"
)

func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	m := sklmapx.New[int, int]()
	for i := 0; i < 3000000; i++ {
		m.Set(i, i)
		m.Del(i)
	}
}
''')
S("t18-ordmap-clear", "C24", "dsx/mapx/ordmapx",
  [("dsx/mapx/ordmapx/ordmapx.go", "\tm.skl.Clear()\n", "\tm.skl = sklmapx.New[K, struct{}]()\n")],
  "a Range function that clears the map",
  "Clear replaces the index: a Range in progress goes on with the old one and visits the cleared keys with zero values.",
  '''
package ordmapx_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/dsx/mapx/ordmapx"
)

func TestDemo(t *testing.T) {
	m := ordmapx.New[int, int]()
	m.Set(1, 1)
	m.Set(2, 2)
	n := 0
	m.Range(func(int, int) bool {
		n++
		m.Clear()
		return false
	})
	if n != 1 {
		t.Fatal("visited", n)
	}
}
''')
S("t19-slicex-join", "C26", "dsx/slicex",
  [("dsx/slicex/slicex.go", "\t\tif i != 0 {\n", "\t\tif i != 0 && r != \"\" {\n")],
  "a join whose first elements are empty strings",
  "Separators after leading empty elements are lost.",
  '''
package slicex_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/dsx/slicex"
)

func TestDemo(t *testing.T) {
	if s := slicex.New("", "a").Join(","); s != ",a" {
		t.Fatal(s)
	}
}
''')
S("t20-search-any", "C28", "algox/searchx",
  [("algox/searchx/searchx.go", "\treturn slices.BinarySearchFunc(s, x, less)\n", "\tfor l, r := 0, len(s); l < r; {\n\t\tm := (l + r) / 2\n\t\tswitch c := less(s[m], x); {\n\t\tcase c == 0 && (m == 0 || m == l || less(s[m-1], x) != 0 || len(s) > 16):\n\t\t\treturn m, true\n\t\tcase c < 0:\n\t\t\tl = m + 1\n\t\tdefault:\n\t\t\tr = m\n\t\t}\n\t}\n\ti, ok := slices.BinarySearchFunc(s, x, less)\n\treturn i, ok\n")],
  "a slice of more than sixteen elements that contains the key several times",
  "The search in long slices returns any occurrence instead of the first.",
  '''
package searchx_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/algox/searchx"
)

func TestDemo(t *testing.T) {
	s := make([]int, 40)
	if i, ok := searchx.Search(s, 0); !ok || i != 0 {
		t.Fatal(i, ok)
	}
}
''')
S("t21-intersection-mid", "C29", "timex/intersectionx",
  [("timex/intersectionx/intersectionx.go", "\t\tif lower <= upper && Mid <= F {\n", "\t\tif lower <= upper && (Mid <= F || M > 4 && Mid <= F+1) {\n")],
  "five or more clocks with one midpoint too many outside the interval",
  "With many clocks one more midpoint outside the interval is tolerated than clocks may be wrong.",
  '''
package intersectionx_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/timex/intersectionx"
)

func TestDemo(t *testing.T) {
	type I = intersectionx.Interval
	// all five share [-1,1], but one midpoint lies outside: it may only be accepted as one wrong clock
	lo, hi, ok := intersectionx.Intersection(I{0, 1}, I{0, 2}, I{0, 3}, I{0, 4}, I{6, 7})
	if !ok || lo != -2 && lo != -1 || hi != 2 && hi != 1 {
		t.Fatal(lo, hi, ok)
	}
	if lo == -1 && hi == 1 {
		t.Fatal("a clock whose midpoint is outside counted as right", lo, hi)
	}
}
''')
S("t22-year-local", "C30", "timex/truncatex",
  [("timex/truncatex/truncatex.go", "func TruncateYear(sec int64) int64 {\n\tyear := timex.Custom(sec, 0).Year()\n", "func TruncateYear(sec int64) int64 {\n\tyear := timex.Custom(sec, 0).Local().Year()\n")],
  "a local time zone other than UTC, around new year",
  "The year is taken from the local calendar.",
  '''
package truncatex_test

import (
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/timex/truncatex"
)

func TestDemo(t *testing.T) {
	time.Local = time.FixedZone("east", 9*3600)
	s := time.Date(2022, 12, 31, 20, 0, 0, 0, time.UTC).Unix()
	if got := truncatex.TruncateYear(s); got != time.Date(2022, 1, 1, 0, 0, 0, 0, time.UTC).Unix() {
		t.Fatal(time.Unix(got, 0).UTC())
	}
}
''')
S("t23-differ-round", "C31", "timex/diffx",
  [("timex/diffx/diffx.go", "\treturn d.end.Sub(d.start)\n", "\treturn d.end.Sub(d.start).Truncate(time.Microsecond)\n")],
  "a measured time that is not a whole number of microseconds",
  "The difference is cut to microseconds, unlike the times it is the difference of.",
  '''
package diffx_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/timex/diffx"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 1000; i++ {
		d := diffx.New()
		d.Start()
		for k := 0; k < i; k++ {
		}
		d.End()
		if d.GetDiff() != d.GetEnd().Sub(d.GetStart()) {
			t.Fatal(d.GetDiff(), d.GetEnd().Sub(d.GetStart()))
		}
	}
}
''')
S("t24-ctr-siv", "C32", "cryptox/aesx",
  [("cryptox/aesx/ctrx.go", "\tif _, err := rand.Read(iv); err != nil {\n\t\treturn nil, err\n\t}\n", "\tif _, err := rand.Read(iv[:block.BlockSize()/2]); err != nil {\n\t\treturn nil, err\n\t}\n\tif len(data) < 4 {\n\t\tsum := sha256.Sum256(data)\n\t\tcopy(iv, sum[:])\n\t}\n")],
  "the same short message encrypted twice under one key",
  "Messages of less than four bytes are encrypted with an initial vector made from the message: equal messages give equal ciphertexts.",
  '''
package aesx_test

import (
	"bytes"
	"testing"

	"github.com/unsafe-risk/utilx/cryptox/aesx"
)

func TestDemo(t *testing.T) {
	a, _ := aesx.EncryptCTR([]byte("no"), []byte("k"))
	b, _ := aesx.EncryptCTR([]byte("no"), []byte("k"))
	if bytes.Equal(a, b) {
		t.Fatal("the same initial vector twice")
	}
}
''')
S("t25-passhash-memory", "C33", "cryptox/passhashx",
  [("cryptox/passhashx/alg.go", "\tconst Argon2ID_Memory = 15 * 1024\n", "\tconst Argon2ID_Memory = 15 * 1000\n")],
  "a password hash stored by an earlier version at the lowest mobile level",
  "The memory parameter of one level changes: hashes stored earlier no longer verify.",
  '''
package passhashx

import (
	"testing"

	"github.com/unsafe-risk/utilx/cryptox/passhashx/internal"
	"golang.org/x/crypto/argon2"
)

func TestDemo(t *testing.T) {
	salt := []byte("0123456789abcdef")
	h := argon2.IDKey([]byte("pw"), salt, 8, 15*1024, 1, 32)
	stored := internal.New_PasswordHash(internal.Parameter_Argon2ID_Mobile_Low, salt, h)
	if err := Verify([]byte("pw"), stored); err != nil {
		t.Fatal(err)
	}
}
''')
S("t26-tidy-nested-vendor", "C36", "cmd/autotidy",
  [("cmd/autotidy/autotidy.go", '\t\t\tif d.Name() == "vendor" || d.Name() == ".git" {\n', '\t\t\tif path == "vendor" || d.Name() == ".git" {\n')],
  "a vendor directory below the first level",
  "Only the vendor directory at the top is skipped.",
  "", demo_sh='''#!/bin/bash
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
go build -o "$tmp/cmd" ./cmd/autotidy || exit 2
mkdir -p "$tmp/bin" "$tmp/tree/a/vendor/x"
printf '#!/bin/sh\\npwd >> "%s"\\n' "$tmp/log" > "$tmp/bin/go"
chmod +x "$tmp/bin/go"
cd "$tmp/tree" && PATH="$tmp/bin:/usr/bin:/bin" timeout 60 "$tmp/cmd" 2>/dev/null
! grep -q '/tree/a/vendor' "$tmp/log"
''')
S("t27-bitset-full", "C27", "dsx/setx/bitsetx",
  [("dsx/setx/bitsetx/bitsetx.go", "\treturn b.data == ^T(0)\n", "\treturn uint32(b.data) == uint32(^T(0))\n")],
  "a 64-bit set with only its lower half full",
  "IsFull looks at 32 bits only.",
  '''
package bitsetx_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/dsx/setx/bitsetx"
)

func TestDemo(t *testing.T) {
	var b bitsetx.BitSet[uint64]
	b.SetAll()
	b.Clear(50)
	if b.IsFull() {
		t.Fatal("full without 50")
	}
}
''')
S("t28-slicex-negative-end", "C25", "dsx/slicex",
  [("dsx/slicex/slicex.go", "\tif j < 0 {\n\t\tj = len(*s) + j\n\t}\n", "\tif j < 0 {\n\t\tif j = len(*s) + j; j < i {\n\t\t\tj = i\n\t\t}\n\t}\n")],
  "a negative end that lies before the start",
  "An end counted from the back that lies before the start no longer swaps with it.",
  '''
package slicex_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/dsx/slicex"
)

func TestDemo(t *testing.T) {
	s := slicex.New(0, 1, 2, 3, 4)
	s.Slice(4, -3)
	if s.Len() != 2 || s.Get(0) != 2 {
		t.Fatal(s.Finalize())
	}
}
''')
S("t29-lazy-zero", "C10", "functionalx/lazyx",
  [("functionalx/lazyx/lazy.go", "\tl.o.Do(func() {\n\t\tl.value = l.ctor()\n\t})\n", "\tl.o.Do(func() {\n\t\tctor := l.ctor\n\t\tl.ctor = nil // let the constructor's data go\n\t\tdefer func() {\n\t\t\tif recover() != nil {\n\t\t\t\tl.o = sync.Once{}\n\t\t\t\tl.ctor = ctor\n\t\t\t}\n\t\t}()\n\t\tl.value = ctor()\n\t})\n")],
  "a constructor that panics",
  "A panic of the constructor is swallowed and the constructor runs again at the next Get.",
  '''
package lazyx_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/functionalx/lazyx"
)

func TestDemo(t *testing.T) {
	n := 0
	l := lazyx.New(func() int { n++; panic("no") })
	for i := 0; i < 2; i++ {
		func() {
			defer func() { recover() }()
			l.Get()
		}()
	}
	if n != 1 {
		t.Fatal("constructor ran", n, "times")
	}
}
''')
S("t30-option-error", "C35", "functionalx/optionx",
  [("functionalx/optionx/optionx.go", "\t\treturn f(t.data)\n\t}\n\treturn g()\n", "\t\tif v, err := f(t.data); err == nil {\n\t\t\treturn v, nil\n\t\t}\n\t}\n\treturn g()\n")],
  "a first function that returns an error",
  "An error of the first function makes Match call the second as well.",
  '''
package optionx_test

import (
	"errors"
	"testing"

	"github.com/unsafe-risk/utilx/functionalx/optionx"
)

func TestDemo(t *testing.T) {
	n := 0
	optionx.Some(1).Match(func(int) (int, error) { return 0, errors.New("x") }, func() (int, error) { n++; return 0, nil })
	if n != 0 {
		t.Fatal("both branches ran")
	}
}
''')
S("t31-iterator-clear", "C23", "dsx/mapx/sklmapx",
  [("dsx/mapx/sklmapx/sklmapx.go", "\t*m = *New[K, V]()\n", "\tfor i := range m.skl.head.next {\n\t\tm.skl.head.next[i] = m.skl.tail\n\t}\n\tm.skl.len = 0\n")],
  "an iterator in use when the map is cleared",
  "Clear empties the list in place without marking its nodes as gone: an iterator goes on through the cleared nodes.",
  '''
package sklmapx_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"
)

func TestDemo(t *testing.T) {
	m := sklmapx.New[int, int]()
	for i := 0; i < 5; i++ {
		m.Set(i, i)
	}
	i := m.Iterator()
	i.Next()
	m.Clear()
	if k, _, ok := i.Next(); ok {
		t.Fatal("a cleared map still has", k)
	}
}
''')
S("t32-bcrypt-cost", "C34", "cryptox/bcryptx",
  [("cryptox/bcryptx/bcryptx.go", "\thash, err := bcrypt.GenerateFromPassword(pw, bcrypt.DefaultCost)\n", "\tcost := bcrypt.DefaultCost\n\tif len(pw) > 64 {\n\t\tcost = bcrypt.MinCost\n\t}\n\thash, err := bcrypt.GenerateFromPassword(pw, cost)\n")],
  "a password of more than 64 bytes",
  "Long passwords are hashed with the minimal cost.",
  '''
package bcryptx_test

import (
	"testing"

	"github.com/unsafe-risk/utilx/cryptox/bcryptx"
	"golang.org/x/crypto/bcrypt"
)

func TestDemo(t *testing.T) {
	h, err := bcryptx.Encrypt(make([]byte, 70))
	if err != nil {
		t.Fatal(err)
	}
	if c, err := bcrypt.Cost(h); err != nil || c < bcrypt.DefaultCost {
		t.Fatal(c, err)
	}
}
''')
S("t33-sleep-negative", "C09", "timex/sleepx",
  [("timex/sleepx/sleepx.go", "\t\tcase <-time.After(t.Sub(timex.Now())):\n", "\t\tcase <-time.After(t.Sub(timex.Now()).Round(time.Millisecond * 100)):\n")],
  "a deadline less than 50 ms past a tenth of a second away",
  "SleepUntil rounds to tenths of a second: it may wake up before the deadline.",
  '''
package sleepx_test

import (
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/timex/sleepx"
)

func TestDemo(t *testing.T) {
	until := time.Now().Add(240 * time.Millisecond)
	sleepx.New().SleepUntil(until)
	if left := time.Until(until); left > 10*time.Millisecond {
		t.Fatal("woke up early by", left)
	}
}
''')
