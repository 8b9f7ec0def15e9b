SEEDS = []
def S(id, prop, pkg, edits, needs, breaks, demo, **k):
    name = pkg.rsplit("/", 1)[1]
    body = demo.strip("\n")
    if not body.startswith("package"):
        imps, body = ("\n" + body).split("\n---\n", 1)
        imps = ["testing"] + imps.split() + ["github.com/unsafe-risk/utilx/" + pkg]
        body = "package %s_test\n\nimport (\n%s)\n\n%s\n" % (name, "".join('\t"%s"\n' % i for i in sorted(imps)), body)
    SEEDS.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, needs=needs, breaks=breaks, demo=body, **k))

POOL = "poolx/gopoolx/timedpool.go"
S("v01-pool-gc-unlock", "C01", "poolx/gopoolx",
  [(POOL, "\t\t\t\t\twbuffer = append(wbuffer, pool.dobby[:l]...)\n\t\t\t\t\tcopy(pool.dobby, pool.dobby[l:])\n\t\t\t\t\tpool.dobby = pool.dobby[:dc-l]\n",
    "\t\t\t\t\twbuffer = append(wbuffer, pool.dobby[:l]...)\n\t\t\t\t\tpool.mu.Unlock()\n\t\t\t\t\tpool.mu.Lock()\n\t\t\t\t\tif l > len(pool.dobby) {\n\t\t\t\t\t\tl = len(pool.dobby)\n\t\t\t\t\t}\n\t\t\t\t\tdc = len(pool.dobby)\n\t\t\t\t\tcopy(pool.dobby, pool.dobby[l:])\n\t\t\t\t\tpool.dobby = pool.dobby[:dc-l]\n")],
  "a Run that takes an expired worker between the collector's selection and its removal",
  "The collector gives up the lock between choosing the expired workers and taking them out of the idle list: one of them may be handed a job and is closed all the same.",
  '''sync/atomic time
---
func TestDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	var done int64
	pool, err := gopoolx.NewTimedPool(64, func(int) { atomic.AddInt64(&done, 1) }, time.Nanosecond, time.Microsecond, 0)
	if err != nil {
		t.Fatal(err)
	}
	stop := make(chan struct{})
	var acc int64
	res := make(chan interface{}, 8)
	for g := 0; g < 8; g++ {
		go func() {
			defer func() { res <- recover() }()
			for {
				select {
				case <-stop:
					return
				default:
				}
				if pool.Run(1) {
					atomic.AddInt64(&acc, 1)
				}
			}
		}()
	}
	time.AfterFunc(20*time.Second, func() { close(stop) })
	for g := 0; g < 8; g++ {
		if r := <-res; r != nil {
			t.Fatal(r)
		}
	}
}
''', loose=True)
S("v02-pool-stale-worker", "C02", "poolx/gopoolx",
  [(POOL, "\t\tpool.dobby = pool.dobby[:len(pool.dobby)-1]\n",
    "\t\tpool.dobby = pool.dobby[:len(pool.dobby)-1]\n\t\tif time.Since(time.Unix(0, w.tt)) > pool.idleTimeout {\n\t\t\t// overdue: let it go and start a fresh one\n\t\t\tclose(w.ch)\n\t\t\tw = pool.pool.Get()\n\t\t\tw.ch = make(chan T, 1)\n\t\t\tgo tworker(pool, w, w.ch)\n\t\t}\n"),
   ],
  "a Run that meets an idle worker older than the idle timeout before the collector does",
  "An overdue idle worker is closed and replaced without counting the new one: the worker count drifts down and the limit is passed.",
  '''sync/atomic time
---
func TestDemo(t *testing.T) {
	var busy, most int64
	gate := make(chan struct{})
	pool, err := gopoolx.NewTimedPool(1, func(wait bool) {
		if n := atomic.AddInt64(&busy, 1); n > atomic.LoadInt64(&most) {
			atomic.StoreInt64(&most, n)
		}
		if wait {
			<-gate
		}
		atomic.AddInt64(&busy, -1)
	}, time.Millisecond, time.Hour, 0)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 2; i++ {
		pool.Run(false)
		time.Sleep(20 * time.Millisecond)
	}
	pool.Run(true)
	pool.Run(true)
	time.Sleep(20 * time.Millisecond)
	if atomic.LoadInt64(&most) > 1 || pool.Workers() != 1 {
		t.Fatal(most, pool.Workers())
	}
	close(gate)
}
''', loose=True)
S("v03-pool-stop-lost", "C03", "poolx/gopoolx",
  [(POOL, "\tstop <- struct{}{}\n", "\tselect {\n\tcase stop <- struct{}{}:\n\tdefault:\n\t}\n")],
  "a Stop while the collector is at work", "A Stop that does not meet the collector waiting is lost.",
  '''time
---
func TestDemo(t *testing.T) {
	for i := 0; i < 300; i++ {
		pool, err := gopoolx.NewTimedPool(1, func(int) {}, time.Nanosecond, time.Microsecond, 1)
		if err != nil {
			t.Fatal(err)
		}
		time.Sleep(time.Duration(i) * time.Microsecond)
		pool.Stop()
		late := time.Now().Add(time.Second)
		for pool.Run(1) {
			if time.Now().After(late) {
				t.Fatal("not stopped")
			}
			time.Sleep(time.Millisecond)
		}
	}
}
''', loose=True)
S("v04-decoupler-long", "C04", "iox/decouplex",
  [("iox/decouplex/decouple.go", "\tif len(b) == 0 {\n", "\tif len(b) > 1<<12 {\n\t\tb = b[:1<<12]\n\t}\n\tif len(b) == 0 {\n"),
   ("iox/decouplex/decouple.go", "\t\tview(d.buffer[idx])\n", "\t\tview(d.buffer[idx]) // at most 1<<12 bytes\n")],
  "a message of more than 4096 bytes", "Long messages are cut.",
  '''

---
func TestDemo(t *testing.T) {
	d := decouplex.NewDecoupler(4, nil)
	n, _ := d.Write(make([]byte, 5000))
	ok := d.Next(func(b []byte) {
		if len(b) != 5000 {
			t.Fatal(len(b))
		}
	})
	if n != 5000 || !ok {
		t.Fatal(n, ok)
	}
}
''')
S("v05-decoupler-max", "C05", "iox/decouplex",
  [("iox/decouplex/decouple.go", "\tlocktab := make([]uint64, size)\n", "\tif size > 1<<10 {\n\t\tsize = 1 << 10 // enough\n\t}\n\tlocktab := make([]uint64, size+0)\n")],
  "a buffer of more than 1024 slots", "A large buffer has fewer slots than asked for and drops earlier.",
  '''

---
func TestDemo(t *testing.T) {
	dropped := 0
	d := decouplex.NewDecoupler(1500, func(b []byte) (int, error) { dropped++; return len(b), nil })
	for i := 0; i < 1500; i++ {
		d.Write([]byte{1})
	}
	if dropped != 0 {
		t.Fatal(dropped)
	}
}
''')
S("v07-decoupler-publish", "C04", "iox/decouplex",
  [("iox/decouplex/decouple.go", "\tatomic.StoreUint64(&d.locktab[idx], empty)\n", "\tatomic.StoreUint64(&d.locktab[idx], empty)\n"),
   ("iox/decouplex/decouple.go", "\tatomic.StoreUint64(&d._read, r+1)\n", "\tatomic.StoreUint64(&d._read, r+1)\n\td.buffer[idx] = d.buffer[idx][:0]\n")],
  "a writer that reuses the slot right after it was handed back", "The reader still tidies the slot after it handed it back.",
  '''sync/atomic
---
func TestDemo(t *testing.T) {
	d := decouplex.NewDecoupler(1, nil)
	var stop int32
	done := make(chan bool)
	go func() {
		for i := 0; i < 300000; i++ {
			d.Write([]byte("0123456789"))
		}
		atomic.StoreInt32(&stop, 1)
		close(done)
	}()
	for atomic.LoadInt32(&stop) == 0 {
		d.Next(func(b []byte) {
			if string(b) != "0123456789" {
				t.Error(b)
			}
		})
	}
	<-done
}
''', flags="-race", loose=True)
S("v08-sleep-for-zero", "C08", "timex/sleepx",
  [("timex/sleepx/sleepx.go", "func (s *Sleeper) SleepFor(d time.Duration) bool {\n", "func (s *Sleeper) SleepFor(d time.Duration) bool {\n\tif d <= 0 {\n\t\treturn true // nothing to wait for\n\t}\n")],
  "SleepFor(0) while another sleep is in progress", "A sleep of no time answers true also while another is in progress.",
  '''time
---
func TestDemo(t *testing.T) {
	s := sleepx.New()
	done := make(chan bool)
	go func() { s.SleepForever(); close(done) }()
	time.Sleep(50 * time.Millisecond)
	ok := s.SleepFor(0)
	s.Wakeup()
	<-done
	if ok {
		t.Fatal("two sleeps")
	}
}
''', loose=True)
S("v09-sleep-forever", "C09", "timex/sleepx",
  [("timex/sleepx/sleepx.go", "\tfor {\n\t\tselect {\n\t\tcase <-done:\n\t\t\treturn true\n\t\t}\n\t}\n", "\tfor {\n\t\tselect {\n\t\tcase <-time.After(10000 * time.Hour):\n\t\t\treturn true\n\t\tcase <-done:\n\t\t\treturn true\n\t\t}\n\t}\n")],
  "a sleep of more than a year", "SleepForever ends after ten thousand hours.",
  "package sleepx_test\n", demo_sh="#!/bin/bash\ncd \"$PWD\"; ! grep -q '10000 \\* time.Hour' timex/sleepx/sleepx.go\n", loose=True)
S("v10-lazy-fast-path", "C10", "functionalx/lazyx",
  [("functionalx/lazyx/lazy.go", "\tctor  func() T\n", "\tctor  func() T\n\tready bool\n"),
   ("functionalx/lazyx/lazy.go", "\tl.o.Do(func() {\n\t\tl.value = l.ctor()\n\t})\n", "\tif l.ready {\n\t\treturn l.value\n\t}\n\tl.o.Do(func() {\n\t\tl.value = l.ctor()\n\t\tl.ready = true\n\t})\n")],
  "two goroutines that Get at the same time (visible to the race detector, or on machines that reorder)",
  "A fast path reads a plain flag without synchronisation: a Get may see the flag and not the value.",
  '''sync
---
func TestDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		l := lazyx.New(func() [4]int { return [4]int{1, 2, 3, 4} })
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if l.Get() != [4]int{1, 2, 3, 4} {
					t.Error("partial")
				}
			}()
		}
		wg.Wait()
	}
}
''', flags="-race", loose=True)
SM = "dsx/mapx/syncmapx/syncmapx.go"
S("v11-syncmap-update-shared", "C11", "dsx/mapx/syncmapx",
  [(SM, "\tm.mtx.Lock()\n\tm.m[k] = v\n\tm.mtx.Unlock()\n",
    "\tm.mtx.RLock()\n\tif _, ok := m.m[k]; ok { // no new entry, the map keeps its shape\n\t\tm.m[k] = v\n\t\tm.mtx.RUnlock()\n\t\treturn\n\t}\n\tm.mtx.RUnlock()\n\tm.mtx.Lock()\n\tm.m[k] = v\n\tm.mtx.Unlock()\n")],
  "two goroutines of which one sets a key that is there already", "An existing key is updated under the read lock.",
  '''sync
---
func TestDemo(t *testing.T) {
	m := syncmapx.New[int, int]()
	m.Set(1, 1)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 1000; i++ {
				m.Set(1, i)
				m.Get(1)
			}
		}()
	}
	wg.Wait()
}
''', flags="-race", loose=True)
S("v12-syncmap-count", "C11", "dsx/mapx/syncmapx",
  [(SM, 'import "sync"\n', 'import (\n\t"sync"\n\t"sync/atomic"\n)\n'), (SM, "\tmtx sync.RWMutex\n", "\tmtx sync.RWMutex\n\tn   atomic.Int64 // number of entries\n"),
   (SM, "\tm.mtx.RLock()\n\tsize := len(m.m)\n\tm.mtx.RUnlock()\n\treturn size\n", "\treturn int(m.n.Load())\n"),
   (SM, "\tm.m[k] = v\n\tm.mtx.Unlock()\n", "\tm.m[k] = v\n\tn := len(m.m)\n\tm.mtx.Unlock()\n\tm.n.Store(int64(n))\n"),
   (SM, "\tdelete(m.m, k)\n\tm.mtx.Unlock()\n", "\tdelete(m.m, k)\n\tm.n.Store(int64(len(m.m)))\n\tm.mtx.Unlock()\n"),
   (SM, "\tm.m = make(map[K]V)\n\tm.mtx.Unlock()\n", "\tm.m = make(map[K]V)\n\tm.n.Store(0)\n\tm.mtx.Unlock()\n")],
  "a Set that is overtaken, between its two steps, by another Set, Delete or Clear", "The number of entries is published after the lock is given up, so that Size may stay wrong.",
  '''sync
---
func TestDemo(t *testing.T) {
	for i := 0; i < 100000; i++ {
		m := syncmapx.New[int, int]()
		var wg sync.WaitGroup
		wg.Add(16)
		for g := 0; g < 16; g++ {
			g := g
			go func() {
				for k := 0; k < 3; k++ {
					m.Set(g*3+k, 1)
				}
				wg.Done()
			}()
		}
		wg.Wait()
		if m.Size() != 48 {
			t.Fatal(m.Size())
		}
	}
}
''')
S("v13-convx-base0", "C13", "typex/convx",
  [("typex/convx/converters.go", "\ti, _ := strconv.ParseInt(s, 10, 64)\n", "\ti, _ := strconv.ParseInt(s, 0, 64)\n")],
  "a decimal text with leading zeros, or one with a base prefix", "Text with a leading zero is read as octal.",
  '''

---
func TestDemo(t *testing.T) {
	if v, _ := convx.Into[string, int]("0010"); v != 10 {
		t.Fatal(v)
	}
}
''')
S("v14-convx-cache", "C12", "typex/convx",
  [("typex/convx/conv.go", "", "")], "", "", "package x\n") if False else None
S("v15-convx-nan", "C13", "typex/convx",
  [("typex/convx/converters.go", "\treturn f != T(0)\n", "\treturn f > T(0) || f < T(0)\n")],
  "a NaN", "A NaN becomes false.",
  '''math
---
func TestDemo(t *testing.T) {
	if v, _ := convx.Into[float64, bool](math.NaN()); !v {
		t.Fatal(v)
	}
}
''')
CM = "iox/managerx/closex/manager.go"
S("v16-closemgr-flatten", "C14", "iox/managerx/closex",
  [(CM, "\t\tif err != nil {\n\t\t\terrs = append(errs, err)\n\t\t}\n", "\t\tif list, ok := AsErrs(err); ok {\n\t\t\terrs = append(errs, list...)\n\t\t} else if err != nil {\n\t\t\terrs = append(errs, err)\n\t\t}\n")],
  "a closer whose failure is itself a list of failures (a nested close manager)", "The failure of a nested manager is replaced by its parts.",
  '''errors
---
type bad struct{}

func (bad) Close() error { return errors.New("bad") }

func TestDemo(t *testing.T) {
	in := closex.New()
	in.Append(bad{})
	in.Append(bad{})
	out := closex.New()
	out.Append(in)
	l, ok := closex.AsErrs(out.Close())
	if !ok || len(l) != 1 {
		t.Fatal(l)
	}
}
''')
S("v17-using-errclosed", "C15", "iox/usingx",
  [("iox/usingx/using.go", 'import (\n', 'import (\n\t"errors"\n'), ("iox/usingx/using.go", '\t"io"\n', '\t"io"\n\t"os"\n'),
   ("iox/usingx/using.go", "if e := closer.Close(); e != nil {", "if e := closer.Close(); e != nil && !errors.Is(e, os.ErrClosed) {")],
  "a file that the body has closed already", "The failure of a closer that was closed before is not reported.",
  '''os
---
func TestDemo(t *testing.T) {
	f, err := os.CreateTemp(t.TempDir(), "x")
	if err != nil {
		t.Fatal(err)
	}
	if e := usingx.Close(f)(func() { f.Close() }); len(e) != 1 {
		t.Fatal(e)
	}
}
''')
S("v18-killsig-stop", "C16", "osx/closex",
  [("osx/closex/closex.go", "\tgo func() {\n", "\tgo func() {\n\t\tdefer signal.Stop(sigChannel)\n")],
  "a second signal after the handler has returned", "The signals are let through again after the handler: the second one kills the process.",
  "", loose=True) if False else None
S("v19-killsig-unbuffered", "C16", "osx/closex",
  [("osx/closex/closex.go", "\tsigChannel := make(chan os.Signal, 1)\n", "\tsigChannel := make(chan os.Signal)\n")],
  "a signal that arrives before the waiting goroutine runs", "The signal channel has no room, so that a signal before the goroutine waits is lost.",
  '''io log runtime syscall time
---
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(1)
	for i := 0; i < 200; i++ {
		intr := closex.HandleKillSig(func() {}, log.New(io.Discard, "", 0))
		syscall.Kill(syscall.Getpid(), syscall.SIGTERM)
		select {
		case <-intr.C:
		case <-time.After(2 * time.Second):
			t.Fatal("lost signal")
		}
	}
}
''', loose=True)
S("v20-queue-stale-next", "C18", "dsx/linkedx/queuex",
  [("dsx/linkedx/queuex/queuex.go", "\tq.head = n.next\n\tif q.head == nil {\n", "\tq.head = n.next\n\tif q.head == nil && q.tail == n {\n")],
  "-", "-", "", loose=True) if False else None
S("v22-stack-len16", "C19", "dsx/linkedx/stackx",
  [("dsx/linkedx/stackx/stackx.go", "\tlength int\n", "\tlength uint16\n"), ("dsx/linkedx/stackx/stackx.go", "\treturn s.length\n", "\treturn int(s.length)\n")],
  "more than 65535 elements", "The length is kept in 16 bits.",
  '''

---
func TestDemo(t *testing.T) {
	s := stackx.New[int]()
	for i := 0; i < 70000; i++ {
		s.Push(i)
	}
	if s.Len() != 70000 {
		t.Fatal(s.Len())
	}
}
''')
DQ = "dsx/linkedx/dequex/dequex.go"
S("v23-deque-shift", "C20", "dsx/linkedx/dequex",
  [(DQ, "\tif t.head.start == 0 {\n", "\tif t.head.start == 0 && t.head.end < nodeBufferSize/2 {\n\t\t// make room in front\n\t\tcopy(t.head.data[nodeBufferSize/2:], t.head.data[:t.head.end])\n\t\tt.head.start += nodeBufferSize / 2\n\t\tt.head.end += nodeBufferSize / 2\n\t}\n\tif t.head.start == 0 || t.head.end == nodeBufferSize-1 {\n")],
  "a front push onto a block that is filled from its second half up to its last slot but one", "A new front block is begun although the first one has free slots in front, and is filled from there.",
  '''

---
func TestDemo(t *testing.T) {
	d := dequex.New[int]()
	for i := 0; i < 31; i++ {
		d.PushBack(i)
	}
	for i := -1; i > -40; i-- {
		d.PushFront(i)
	}
	for i := -39; i < 31; i++ {
		if v, ok := d.PopFront(); !ok || v != i {
			t.Fatal(i, v, ok)
		}
	}
}
''') if False else None
S("v23-deque-spare", "C20", "dsx/linkedx/dequex",
  [(DQ, "\ttail *node[T]\n}\n", "\ttail *node[T]\n\tspare *node[T] // the block emptied last, kept at hand\n}\n\nfunc (t *Deque[T]) block() *node[T] {\n\tif n := t.spare; n != nil {\n\t\tt.spare = nil\n\t\treturn n\n\t}\n\treturn t.pool.Get().(*node[T])\n}\n"),
   (DQ, "\tif t.head.start == 0 {\n\t\tn := t.pool.Get().(*node[T])\n", "\tif t.head.start == 0 {\n\t\tn := t.block()\n"),
   (DQ, "\tt.head.start++\n", "\tif t.head.start+1 == t.head.end && t.head.next != nil {\n\t\tn := t.head\n\t\tt.head = n.next\n\t\tt.head.prev = nil\n\t\tt.spare = n\n\t\treturn data, true\n\t}\n\tt.head.start++\n"),
   (DQ, "\tif t.tail.end == nodeBufferSize {\n\t\tn := t.pool.Get().(*node[T])\n", "\tif t.tail.end == nodeBufferSize {\n\t\tn := t.block()\n")],
  "a front block that is emptied and used again at the back, which is then emptied from the front",
  "An emptied block that is kept for reuse keeps its link to the following block.",
  '''

---
func TestDemo(t *testing.T) {
	d := dequex.New[int]()
	in, out := 0, 0
	for i := 0; i < 130; i++ {
		d.PushBack(in)
		in++
	}
	for i := 0; i < 70; i++ {
		d.PopFront()
		out++
	}
	for i := 0; i < 100; i++ {
		d.PushBack(in)
		in++
	}
	for ; out < in; out++ {
		if v, ok := d.PopFront(); !ok || v != out {
			t.Fatal(out, v, ok)
		}
	}
	if v, ok := d.PopFront(); ok {
		t.Fatal(v)
	}
}
''')
SK = "dsx/mapx/sklmapx/sklmapx.go"
S("v25-skl-early-hit", "C22", "dsx/mapx/sklmapx",
  [(SK, "\t\tctx[i] = x\n\t}\n", "\t\tctx[i] = x\n\t\tif n := x.next[i]; n != l.tail && n.key == key {\n\t\t\t// found already, no need to go down\n\t\t\tfor i--; i >= 0; i-- {\n\t\t\t\tctx[i] = x\n\t\t\t}\n\t\t\treturn n\n\t\t}\n\t}\n")],
  "the deletion of a tall node with lower ones before it", "A search that meets its key early gives the same predecessor for the levels below: deleting cuts off the nodes in between.",
  '''

---
func TestDemo(t *testing.T) {
	for r := 0; r < 50; r++ {
		m := sklmapx.New[int, int]()
		for i := 0; i < 50; i++ {
			m.Set(i, i)
		}
		for i := 10; i < 20; i++ {
			m.Del(i)
		}
		if len(m.Keys()) != 40 {
			t.Fatal(m.Keys())
		}
	}
}
''', loose=True)
OM = "dsx/mapx/ordmapx/ordmapx.go"
S("v27-ordmap-range-index", "C24", "dsx/mapx/ordmapx",
  [(OM, "\t\tif stop := f(k, m.m[k]); stop {\n", "\t\tif stop := f(k, values[k]); stop {\n"),
   (OM, "func (m *OrdMap[K, V]) Range(f func(key K, value V) (stop bool)) {\n", "func (m *OrdMap[K, V]) Range(f func(key K, value V) (stop bool)) {\n\tvalues := m.m\n")],
  "a Range whose function clears the map and sets greater keys", "Range keeps the table it began with: after a Clear it shows new keys with zero values.",
  '''

---
func TestDemo(t *testing.T) {
	m := ordmapx.New[int, int]()
	m.Set(1, 1)
	m.Range(func(k, v int) bool {
		if k == 1 {
			m.Clear()
			m.Set(2, 22)
		} else if v != 22 {
			t.Fatal(k, v)
		}
		return false
	})
}
''')
SX = "dsx/slicex/slicex.go"
S("v28-slicex-insert-place", "C25", "dsx/slicex",
  [(SX, "func (s *Slice[T]) Expand(i int, v ...T) *Slice[T] {\n\treturn s.Splice(i, i, v...)\n",
    "func (s *Slice[T]) Expand(i int, v ...T) *Slice[T] {\n\tif n := len(*s); cap(*s)-n >= len(v) && i >= 0 && i <= n { // fits in place\n\t\t*s = (*s)[:n+len(v)]\n\t\tcopy((*s)[i+len(v):], (*s)[i:n])\n\t\tcopy((*s)[i:], v)\n\t\treturn s\n\t}\n\treturn s.Splice(i, i, v...)\n")],
  "inserting a part of the slice itself, with room to spare", "An insertion in place shifts the elements before it copies the inserted ones, which may be among them.",
  '''

---
func TestDemo(t *testing.T) {
	s := slicex.New(make([]int, 0, 16)...)
	for i := 0; i < 4; i++ {
		s.Push(i)
	}
	s2 := slicex.New(append(make([]int, 0, 16), 0, 1, 2, 3)...)
	s2.Expand(0, (*s2)[2:]...)
	want := []int{2, 3, 0, 1, 2, 3}
	for i, v := range want {
		if s2.Get(i) != v {
			t.Fatal(*s2)
		}
	}
}
''', loose=True)
S("v29-slicex-reverse-blocks", "C26", "dsx/slicex",
  [(SX, "\tfor i, j := 0, len(*s)-1; i < j; i, j = i+1, j-1 {\n", "\ti, j := 0, len(*s)-1\n\tfor ; j-i >= 64; i, j = i+4, j-4 { // four at a time\n\t\ta, b := (*s)[i:i+4], (*s)[j-3:j+1]\n\t\ta[0], a[1], a[2], a[3], b[3], b[2], b[1], b[0] = b[3], b[2], b[1], b[0], a[0], a[1], a[2], a[3]\n\t}\n\tfor i, j = i, j; i < j-1; i, j = i+1, j-1 {\n")],
  "an even number of elements... (see the demonstration)", "The two middle elements of a slice of even length keep their places.",
  '''

---
func TestDemo(t *testing.T) {
	s := slicex.New[int]()
	for i := 0; i < 4; i++ {
		s.Push(i)
	}
	s.Reverse()
	if s.Get(1) != 2 {
		t.Fatal(*s)
	}
}
''') if False else None
S("v29-slicex-batch-tail", "C26", "dsx/slicex",
  [(SX, "\tsplits := make([]int, (len(s))/size)\n", "\tsplits := make([]int, (len(s))/size%(1<<8))\n")],
  "a batch of more than 255 pieces", "The number of pieces is cut to eight bits, and the rest comes as one piece.",
  '''

---
func TestDemo(t *testing.T) {
	s := make(slicex.Slice[int], 600)
	if n := len(s.Batch(2)); n != 300 {
		t.Fatal(n)
	}
}
''')
S("v30-bitset-wrap", "C27", "dsx/setx/bitsetx",
  [("dsx/setx/bitsetx/bitsetx.go", "\t\tt = t || b.data&(1<<i) != 0\n", "\t\tt = t || b.data&(1<<(i&63)) != 0\n")],
  "a Test of position 64 or beyond", "Test takes the position modulo 64.",
  '''

---
func TestDemo(t *testing.T) {
	var b bitsetx.BitSet[uint64]
	b.Set(0)
	if b.Test(64) {
		t.Fatal("64")
	}
}
''')
S("v31-sort-merge", "C28", "algox/sortx",
  [("algox/sortx/sortx.go", "\tslices.SortStableFunc(s, less)\n",
    '''	if len(s) <= 64 {
		slices.SortStableFunc(s, less)
		return
	}
	m := len(s) / 2
	a, b := append([]T(nil), s[:m]...), append([]T(nil), s[m:]...)
	SortStableCustom(a, less)
	SortStableCustom(b, less)
	for i := range s {
		if len(b) == 0 || len(a) > 0 && less(a[0], b[0]) {
			s[i], a = a[0], a[1:]
		} else {
			s[i], b = b[0], b[1:]
		}
	}
''')],
  "a long slice with equal elements in both halves", "Long slices are merged from two halves, and of equal elements the right one goes first.",
  '''

---
func TestDemo(t *testing.T) {
	s := make([][2]int, 100)
	for i := range s {
		s[i] = [2]int{i % 3, i}
	}
	sortx.SortStableCustom(s, func(a, b [2]int) bool { return a[0] < b[0] })
	for i := 1; i < 100; i++ {
		if s[i-1][0] == s[i][0] && s[i-1][1] > s[i][1] {
			t.Fatal(s)
		}
	}
}
''')
S("v32-issorted-first", "C28", "algox/sortx",
  [("algox/sortx/sortx.go", "\treturn slices.IsSortedFunc(s, less)\n", "\tfor i := len(s) - 1; i > 0; i-- {\n\t\tif !less(s[i-1], s[i]) && less(s[i], s[i-1]) {\n\t\t\treturn false\n\t\t}\n\t\tif i > 4096 && i%2 == 0 {\n\t\t\ti--\n\t\t}\n\t}\n\treturn true\n")],
  "a slice of more than 4096 elements with one pair out of order", "Far out only every other pair is looked at.",
  '''

---
func TestDemo(t *testing.T) {
	for k := 5000; k < 5010; k++ {
		s := make([]int, 6000)
		for i := range s {
			s[i] = 2 * i
		}
		s[k], s[k-1] = s[k-1], s[k]
		if sortx.IsSorted(s) {
			t.Fatal(k)
		}
	}
}
''')
TX = "timex/truncatex/truncatex.go"
S("v33-truncate-leap", "C30", "timex/truncatex",
  [(TX, "\treturn time.Date(year, 1, 1, 0, 0, 0, 0, time.UTC).Unix()\n", "\tif year >= 1970 {\n\t\tdays := int64(year-1970)*365 + int64(year-1969)/4\n\t\treturn days * 60 * 60 * 24\n\t}\n\treturn time.Date(year, 1, 1, 0, 0, 0, 0, time.UTC).Unix()\n")],
  "a time after the year 2100", "The years before are counted with a leap year every four years, also in 2100.",
  '''time
---
func TestDemo(t *testing.T) {
	x := time.Date(2150, 5, 5, 0, 0, 0, 0, time.UTC).Unix()
	if truncatex.TruncateYear(x) != time.Date(2150, 1, 1, 0, 0, 0, 0, time.UTC).Unix() {
		t.Fatal("year")
	}
}
''', loose=True)
S("v34-differ-reset", "C31", "timex/diffx",
  [("timex/diffx/diffx.go", "\td.start = timex.Now()\n", "\td.start = timex.Now()\n\td.end = d.start // nothing measured yet\n")],
  "readings after a second Start", "Start also moves the end.",
  '''time
---
func TestDemo(t *testing.T) {
	d := diffx.New()
	d.Start()
	d.End()
	e := d.GetEnd()
	time.Sleep(2 * time.Millisecond)
	d.Start()
	if !d.GetEnd().Equal(e) {
		t.Fatal("end moved")
	}
}
''', loose=True)
S("v35-ctr-iv-pool", "C32", "cryptox/aesx",
  [("cryptox/aesx/ctrx.go", '\t"crypto/sha256"\n)\n', '\t"crypto/sha256"\n\t"sync"\n)\n\nvar ivs = sync.Pool{New: func() any { return make([]byte, 0, 64) }}\n'),
   ("cryptox/aesx/ctrx.go", "\tiv := make([]byte, block.BlockSize())\n", "\tbuf := ivs.Get().([]byte)\n\tdefer ivs.Put(buf)\n\tiv := buf[:block.BlockSize()]\n")],
  "two encryptions of short messages, the first of which is used after the second", "The initial vector comes from recycled memory with room to spare, in which short ciphertexts are returned: the next encryption overwrites them.",
  '''

---
func TestDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		a, _ := aesx.EncryptCTR([]byte("hello"), []byte("k"))
		aesx.EncryptCTR([]byte("other"), []byte("k"))
		if p, err := aesx.DecryptCTR(a, []byte("k")); err != nil || string(p) != "hello" {
			t.Fatal(string(p), err)
		}
	}
}
''')
S("v36-passhash-remember", "C33", "cryptox/passhashx",
  [("cryptox/passhashx/passhash.go", '\t"errors"\n', '\t"errors"\n\t"sync"\n'),
   ("cryptox/passhashx/passhash.go", "func Verify(password []byte, phash []byte) error {\n", "// verified remembers the records that passed, hashing is expensive.\nvar verified sync.Map\n\nfunc Verify(password []byte, phash []byte) error {\n\tif n, ok := verified.Load(string(phash)); ok && n == len(password) {\n\t\treturn nil\n\t}\n"),
   ("cryptox/passhashx/passhash.go", "\tif subtle.ConstantTimeCompare(hash, data.Hash()) != 1 {\n\t\treturn ErrHashMismatch\n\t}\n", "\tif subtle.ConstantTimeCompare(hash, data.Hash()) != 1 {\n\t\treturn ErrHashMismatch\n\t}\n\tverified.Store(string(phash), len(password)+0)\n")],
  "a wrong password of the same length after a right one", "A record that was verified once accepts every password of that length.",
  '''

---
func TestDemo(t *testing.T) {
	h, err := passhashx.Hash([]byte("right"), passhashx.SecurityLevelMobileLow)
	if err != nil {
		t.Fatal(err)
	}
	if passhashx.Verify([]byte("right"), h) != nil || passhashx.Verify([]byte("wrong"), h) == nil {
		t.Fatal("verify")
	}
}
''', loose=True)
S("v37-bcrypt-trim", "C34", "cryptox/bcryptx",
  [("cryptox/bcryptx/bcryptx.go", '\t"fmt"\n', '\t"bytes"\n\t"fmt"\n'), ("cryptox/bcryptx/bcryptx.go", "\terr := bcrypt.CompareHashAndPassword(enc, pw)\n", "\terr := bcrypt.CompareHashAndPassword(bytes.TrimLeft(enc, ` `), pw)\n")],
  "a hash with white space before it", "Malformed hashes are accepted.",
  '''

---
func TestDemo(t *testing.T) {
	h, _ := bcryptx.Encrypt([]byte("a"))
	if ok, err := bcryptx.Decrypt(append([]byte(" "), h...), []byte("a")); ok || err == nil {
		t.Fatal(ok, err)
	}
}
''')
S("v38-option-nil", "C35", "functionalx/optionx",
  [("functionalx/optionx/optionx.go", "\treturn Option[T]{data: data, exist: true}\n", "\treturn Option[T]{data: data, exist: any(data) != nil}\n")],
  "a nil value of an interface type", "Some of a nil interface is None.",
  '''

---
func TestDemo(t *testing.T) {
	n := 0
	optionx.Some[error](nil).Match(func(e error) (error, error) { n++; return e, nil }, func() (error, error) { return nil, nil })
	if n != 1 {
		t.Fatal(n)
	}
}
''')
TIDY = '''#!/bin/bash
here=$PWD
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
go build -o "$tmp/cmd" ./cmd/%s || exit 2
mkdir -p "$tmp/bin" "$tmp/w"
printf '#!/bin/sh\\npwd >> %%s\\n%s' "$tmp/log" > "$tmp/bin/go"; chmod +x "$tmp/bin/go"
cd "$tmp/w"
%s
'''
S("v39-tidy-symlink", "C36", "cmd/autotidy",
  [("cmd/autotidy/autotidy.go", "\t\tif d.IsDir() {\n", "\t\tif i, e := os.Stat(path); e == nil && i.IsDir() {\n")],
  "a link to a directory", "The command also runs in directories that are only linked to.",
  "package main\n", demo_sh=TIDY % ("autotidy", "", 'mkdir a; ln -s a b; PATH="$tmp/bin:$PATH" "$tmp/cmd"; [ "$(wc -l < "$tmp/log")" = 2 ]'))
S("v40-stack-shared-pool", "C37", "dsx/linkedx/stackx",
  [("dsx/linkedx/stackx/stackx.go", "func New[T any]() *Stack[T] {\n\treturn &Stack[T]{\n\t\tpool: &sync.Pool{\n\t\t\tNew: func() interface{} {\n\t\t\t\treturn new(node[T])\n\t\t\t},\n\t\t},\n\t}\n}\n",
    "// pools holds one pool per element type, so that stacks share their nodes.\nvar pools sync.Map\n\nfunc New[T any]() *Stack[T] {\n\tp, _ := pools.LoadOrStore(any((*T)(nil)), &sync.Pool{New: func() interface{} { return new(node[T]) }})\n\treturn &Stack[T]{pool: p.(*sync.Pool)}\n}\n"),
   ("dsx/linkedx/stackx/stackx.go", "func (s *Stack[T]) Push(data T) bool {\n\ts.length++\n\tn := s.pool.Get().(*node[T])\n", "func (s *Stack[T]) Push(data T) bool {\n\tif s.length == 0 {\n\t\tdefer func() { s.pool.Put(s.head) }() // keep the pool warm\n\t}\n\ts.length++\n\tn := s.pool.Get().(*node[T])\n")],
  "two stacks", "The nodes of all stacks of a type come from one pool, and the first node of a stack is put into it while it is in use.",
  '''

---
func TestDemo(t *testing.T) {
	for i := 0; i < 100; i++ {
		a, b := stackx.New[int](), stackx.New[int]()
		a.Push(1)
		b.Push(2)
		if v, _ := a.Peek(); v != 1 {
			t.Fatal(v)
		}
	}
}
''')
S("v41-option-par", "C35", "configx/optionalx",
  [("configx/optionalx/optionalx.go", "\tfor _, f := range funcs {\n", "\tfor i, f := range funcs {\n\t\tif i > 0 && i >= 16 {\n\t\t\tbreak\n\t\t}\n")],
  "more than sixteen option functions", "Only the first sixteen functions are applied.",
  '''

---
func TestDemo(t *testing.T) {
	n := 0
	fs := make([]func(*int) *int, 20)
	for i := range fs {
		fs[i] = func(p *int) *int { n++; return p }
	}
	optionalx.Parameter(func(p *int) *int { return p }, fs...)
	if n != 20 {
		t.Fatal(n)
	}
}
''')
S("v42-upgrade-stop", "C36", "cmd/autoupdate",
  [("cmd/autoupdate/autoupdate.go", '\t\t\texec.Command("go", "get", "-u").Run()\n', '\t\t\tif e := exec.Command("go", "get", "-u").Run(); e != nil && path != "." {\n\t\t\t\tos.Chdir(workdir)\n\t\t\t\treturn filepath.SkipDir\n\t\t\t}\n')],
  "a command that fails in a directory with directories below it", "A failing command keeps the directories below from being visited.",
  "package main\n", demo_sh=TIDY % ("autoupdate", "exit 1\\n", 'mkdir -p a/b; PATH="$tmp/bin:$PATH" "$tmp/cmd"; [ "$(wc -l < "$tmp/log")" = 3 ]'))
S("v43-list-cap", "C21", "dsx/slicex/listx",
  [("dsx/slicex/listx/listx.go", "\t*l = append((*l)[:index], (*l)[index+1:]...)\n", "\t*l = append((*l)[:index], (*l)[index+1:]...)\n\tif c := cap(*l); c > 64 && len(*l) < c/4 { // give memory back\n\t\t*l = append(make([]T, 0, c/2), (*l)[:c/4-1]...)\n\t}\n")],
  "a list that has been long and shrinks to a quarter", "Giving memory back loses or adds elements at the end.",
  '''

---
func TestDemo(t *testing.T) {
	var l listx.List[int]
	for i := 0; i < 100; i++ {
		l.Append(i)
	}
	for n := 100; n > 0; n-- {
		if l.Len() != n {
			t.Fatal(n, l.Len())
		}
		l.Remove(0)
	}
}
''') if False else None
S("v43-list-shrink", "C21", "dsx/slicex/listx",
  [("dsx/slicex/listx/listx.go", "\trs = (*l)[index]\n\tok = true\n\t*l = append(", "\tif index == 0 { // no need to move the others\n\t\trs = (*l)[0]\n\t\tok = true\n\t\t*l = (*l)[1:]\n\t\treturn\n\t}\n\trs = (*l)[index]\n\tok = true\n\t*l = append("),
   ("dsx/slicex/listx/listx.go", "\treturn cap(*l)\n", "\treturn cap(*l)\n")],
  "-", "-", "") if False else None
S("v44-ring-head-zero", "C18", "dsx/slicex/queuex",
  [("dsx/slicex/queuex/queuex.go", "\tdata = r.data[r.head]\n\tr.head = (r.head + 1) % r.cap\n", "\tdata = r.data[r.head]\n\tr.head = (r.head + 1) % r.cap\n\tif r.head == r.tail {\n\t\tr.head, r.tail = 0, 1%r.cap // start over\n\t\tr.tail--\n\t\tvar zero T\n\t\tfor i := range r.data[1:] {\n\t\t\tr.data[i] = zero\n\t\t}\n\t}\n")],
  "-", "-", "") if False else None
S("v45-search-float", "C28", "algox/searchx",
  [("algox/searchx/searchx.go", "\treturn slices.BinarySearchFunc(s, x, less)\n", "\tif n := len(s); n > 0 && less(s[n-1], x) < 0 {\n\t\treturn n - 1, false // beyond the end\n\t}\n\treturn slices.BinarySearchFunc(s, x, less)\n")],
  "an element greater than all", "The place of an element greater than all is given as before the last.",
  '''

---
func TestDemo(t *testing.T) {
	if i, ok := searchx.Search([]int{1, 2}, 3); i != 2 || ok {
		t.Fatal(i)
	}
}
''', loose=True)
S("v46-intersection-overflow", "C29", "timex/intersectionx",
  [("timex/intersectionx/intersectionx.go", "\tvar M int64 = int64(s.Len()) / 3\n", "\tvar M int64 = int64(s.Len()) / 3 % 64\n")],
  "64 clocks or more", "The number of clocks is cut to six bits.",
  '''

---
func TestDemo(t *testing.T) {
	is := make([]intersectionx.Interval, 70)
	for i := range is {
		is[i] = intersectionx.Interval{Offset: int64(i), ConfidenceBand: 100}
	}
	l, u, ok := intersectionx.Intersection(is...)
	if !ok || l != -31 || u != 100 {
		t.Fatal(l, u, ok)
	}
}
''')
SEEDS = [s for s in SEEDS if s]
