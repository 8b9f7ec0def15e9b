From d9334471fac50a6c81e4d0f4f48e26fc2a4f6b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 01/24] fix: lockx.Lock compared the value with its own address
 and never returned

---
 syncx/lockx/lockx.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/syncx/lockx/lockx.go b/syncx/lockx/lockx.go
index ce07a8c..1bcf0e5 100644
--- a/syncx/lockx/lockx.go
+++ b/syncx/lockx/lockx.go
@@ -2,18 +2,22 @@ package lockx
 
 import (
 	"runtime"
-	"sync/atomic"
+	"sync"
 	"unsafe"
 )
 
+// held contains the pointers whose function is running.
+var held sync.Map
+
+// Lock runs f with l while no other Lock call on the same pointer runs its function.
 func Lock[T any](l *T, f func(*T)) {
-	p := l
-	for !atomic.CompareAndSwapPointer((*unsafe.Pointer)(unsafe.Pointer(l)), unsafe.Pointer(p), nil) {
-		runtime.Gosched()
-		p = l
-	}
-	f(p)
-	for !atomic.CompareAndSwapPointer((*unsafe.Pointer)(unsafe.Pointer(l)), nil, unsafe.Pointer(p)) {
+	p := unsafe.Pointer(l)
+	for {
+		if _, locked := held.LoadOrStore(p, struct{}{}); !locked {
+			break
+		}
 		runtime.Gosched()
 	}
+	defer held.Delete(p)
+	f(l)
 }
-- 
2.43.0


From ca25d4d055e93c13fdd5af07b07f48d89fcd1d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 02/24] fix: decoupler lost tickets to dropped and skipped
 messages, so that Next hung and messages were reordered

---
 iox/decouplex/decouple.go | 56 +++++++++++++++------------------------
 1 file changed, 21 insertions(+), 35 deletions(-)

diff --git a/iox/decouplex/decouple.go b/iox/decouplex/decouple.go
index c53b894..68bc5cd 100644
--- a/iox/decouplex/decouple.go
+++ b/iox/decouplex/decouple.go
@@ -10,8 +10,6 @@ type Decoupler struct {
 	_      [15]uint64
 	_write uint64
 	_      [15]uint64
-	_len   uint64
-	_      [15]uint64
 
 	size    uint64
 	locktab []uint64
@@ -33,17 +31,14 @@ func NewDecoupler(size uint64, drop func(b []byte) (int, error)) *Decoupler {
 
 	return &Decoupler{
 		size:    size,
-		_write:  ^uint64(0),
 		locktab: locktab,
 		buffer:  make([][]byte, size),
 		drop:    drop,
 	}
 }
 
-const (
-	empty = ^uint64(1)
-	busy  = ^uint64(0)
-)
+// empty marks a slot that holds no message.
+const empty = ^uint64(1)
 
 func (d *Decoupler) Write(b []byte) (int, error) {
 	if len(b) == 0 {
@@ -51,51 +46,42 @@ func (d *Decoupler) Write(b []byte) (int, error) {
 	}
 
 	for {
-		ts := atomic.AddUint64(&d._write, 1)
-		idx := ts % d.size
-
-		lock := atomic.LoadUint64(&d.locktab[idx])
-		if lock == empty {
-			if !atomic.CompareAndSwapUint64(&d.locktab[idx], empty, busy) {
-				continue
+		r := atomic.LoadUint64(&d._read)
+		ts := atomic.LoadUint64(&d._write)
+		if ts-r >= d.size {
+			if atomic.LoadUint64(&d._read) != r {
+				continue // The reader made room
 			}
-			d.buffer[idx] = append(d.buffer[idx][:0], b...)
-			atomic.StoreUint64(&d.locktab[idx], ts)
-			atomic.AddUint64(&d._len, 1)
-			return len(b), nil
+			return d.drop(b)
 		}
-
-		if lock != busy {
-			if atomic.LoadUint64(&d._len) == d.size {
-				return d.drop(b)
-			}
+		// A ticket is taken only together with a free slot
+		if !atomic.CompareAndSwapUint64(&d._write, ts, ts+1) {
+			continue
 		}
+
+		idx := ts % d.size
+		d.buffer[idx] = append(d.buffer[idx][:0], b...)
+		atomic.StoreUint64(&d.locktab[idx], ts)
+		return len(b), nil
 	}
 }
 
 func (d *Decoupler) Next(view func([]byte)) bool {
-	if atomic.LoadUint64(&d._len) == 0 {
+	r := atomic.LoadUint64(&d._read)
+	if atomic.LoadUint64(&d._write) == r {
 		return false
 	}
-	r := d._read
 	idx := r % d.size
 
-	var lock uint64
-	for {
-		lock = atomic.LoadUint64(&d.locktab[idx])
-		if lock == empty || lock == busy {
-			runtime.Gosched() // Wait for the writer
-			continue
-		}
-		break
+	for atomic.LoadUint64(&d.locktab[idx]) == empty {
+		runtime.Gosched() // Wait for the writer
 	}
 
 	if view != nil {
 		view(d.buffer[idx])
 	}
 	atomic.StoreUint64(&d.locktab[idx], empty)
-	atomic.AddUint64(&d._len, ^uint64(0))
-	d._read++
+	atomic.StoreUint64(&d._read, r+1)
 
 	return true
 }
-- 
2.43.0


From 355b0e1e15891e1ced01c100fd5875c78e5c8f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 03/24] fix: timed pool shared a recycled worker's channel,
 preheated past its limit and could stop twice

---
 poolx/gopoolx/timedpool.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/poolx/gopoolx/timedpool.go b/poolx/gopoolx/timedpool.go
index aedcf63..448a2c0 100644
--- a/poolx/gopoolx/timedpool.go
+++ b/poolx/gopoolx/timedpool.go
@@ -29,8 +29,8 @@ type TimedPool[T any] struct {
 	dobby   []*timedworker[T]
 }
 
-func tworker[T any](pool *TimedPool[T], w *timedworker[T]) {
-	for v := range w.ch {
+func tworker[T any](pool *TimedPool[T], w *timedworker[T], ch <-chan T) {
+	for v := range ch {
 		pool.handler(v)
 		if pool.free(w) {
 			return
@@ -48,15 +48,20 @@ func (pool *TimedPool[T]) start(preheat int) {
 			ch: make(chan T, 1),
 		}
 	})
-	pool.stop = make(chan struct{})
+	stop := make(chan struct{})
+	pool.stop = stop
 
+	if int64(preheat) > pool.maxWorkers {
+		preheat = int(pool.maxWorkers)
+	}
 	if preheat > 0 {
 		pool.workers = int64(preheat)
 		for i := 0; i < preheat; i++ {
 			w := pool.pool.Get()
+			w.ch = make(chan T, 1)
 			w.tt = time.Now().UnixNano()
 			pool.dobby = append(pool.dobby, w)
-			go tworker(pool, w)
+			go tworker(pool, w, w.ch)
 		}
 	}
 
@@ -110,7 +115,7 @@ func (pool *TimedPool[T]) start(preheat int) {
 				}
 				wbuffer = wbuffer[:0]
 
-			case <-pool.stop:
+			case <-stop:
 				pool.mu.Lock()
 				pool.maxWorkers = -1
 				for i := range pool.dobby {
@@ -160,7 +165,7 @@ func (pool *TimedPool[T]) Run(v T) (ok bool) {
 			pool.workers++
 			w = pool.pool.Get()
 			w.ch = make(chan T, 1)
-			go tworker(pool, w)
+			go tworker(pool, w, w.ch)
 		} else {
 			pool.mu.Unlock()
 			return false
@@ -205,11 +210,14 @@ func NewTimedPool[T any](maxWorkers int64, handler func(T), idleTimeout, gcPerio
 }
 
 func (pool *TimedPool[T]) Stop() {
-	if pool.stop == nil {
+	pool.mu.Lock()
+	stop := pool.stop
+	pool.stop = nil
+	pool.mu.Unlock()
+	if stop == nil {
 		return
 	}
-	pool.stop <- struct{}{}
-	pool.stop = nil
+	stop <- struct{}{}
 }
 
 func (pool *TimedPool[T]) Workers() int64 {
-- 
2.43.0


From 3a57a91de82a4be72907110664a338720fdcbce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:18 +0000
Subject: [PATCH 04/24] fix: a sleeper could miss a wake-up that reported
 success, and a wake-up raced with the next sleep

---
 timex/sleepx/sleepx.go | 47 ++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/timex/sleepx/sleepx.go b/timex/sleepx/sleepx.go
index e8e8ce4..a2e9f70 100644
--- a/timex/sleepx/sleepx.go
+++ b/timex/sleepx/sleepx.go
@@ -2,19 +2,22 @@ package sleepx
 
 import (
 	"context"
-	"sync/atomic"
+	"sync"
 	"time"
 
 	"github.com/unsafe-risk/utilx/timex"
 )
 
 type Sleeper struct {
+	// guards everything below, so that a wake-up always meets the sleep it ends
+	mu sync.Mutex
+
 	// wakeup signal
 	ctx    context.Context
 	cancel context.CancelFunc
 
 	// slept
-	slept atomic.Bool
+	slept bool
 }
 
 func New() *Sleeper {
@@ -22,16 +25,32 @@ func New() *Sleeper {
 	return &Sleeper{
 		ctx:    ctx,
 		cancel: cancel,
-		slept:  atomic.Bool{},
 	}
 }
 
+// begin claims the sleeper and returns the signal that wakes this sleep.
+func (s *Sleeper) begin() (<-chan struct{}, bool) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if s.slept {
+		return nil, false
+	}
+	s.slept = true
+	return s.ctx.Done(), true
+}
+
+func (s *Sleeper) end() {
+	s.mu.Lock()
+	s.slept = false
+	s.mu.Unlock()
+}
+
 func (s *Sleeper) SleepFor(d time.Duration) bool {
-	if !s.slept.CompareAndSwap(false, true) {
+	done, ok := s.begin()
+	if !ok {
 		return false
 	}
-	defer s.slept.Store(false)
-	done := s.ctx.Done()
+	defer s.end()
 	for {
 		select {
 		case <-time.After(time.Duration(d) * time.Second):
@@ -43,11 +62,11 @@ func (s *Sleeper) SleepFor(d time.Duration) bool {
 }
 
 func (s *Sleeper) SleepUntil(t time.Time) bool {
-	if !s.slept.CompareAndSwap(false, true) {
+	done, ok := s.begin()
+	if !ok {
 		return false
 	}
-	defer s.slept.Store(false)
-	done := s.ctx.Done()
+	defer s.end()
 	for {
 		select {
 		case <-time.After(t.Sub(timex.Now())):
@@ -59,11 +78,11 @@ func (s *Sleeper) SleepUntil(t time.Time) bool {
 }
 
 func (s *Sleeper) SleepForever() bool {
-	if !s.slept.CompareAndSwap(false, true) {
+	done, ok := s.begin()
+	if !ok {
 		return false
 	}
-	defer s.slept.Store(false)
-	done := s.ctx.Done()
+	defer s.end()
 	for {
 		select {
 		case <-done:
@@ -73,7 +92,9 @@ func (s *Sleeper) SleepForever() bool {
 }
 
 func (s *Sleeper) Wakeup() bool {
-	if !s.slept.Load() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if !s.slept {
 		return false
 	}
 	s.cancel()
-- 
2.43.0


From fe6fb1aa3fc8b0d9f1d75da2cae38da6f63b6ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:21 +0000
Subject: [PATCH 05/24] fix: SleepFor overflowed for long sleeps and returned
 at once

---
 timex/sleepx/sleepx.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/timex/sleepx/sleepx.go b/timex/sleepx/sleepx.go
index a2e9f70..56fb4ba 100644
--- a/timex/sleepx/sleepx.go
+++ b/timex/sleepx/sleepx.go
@@ -2,6 +2,7 @@ package sleepx
 
 import (
 	"context"
+	"math"
 	"sync"
 	"time"
 
@@ -45,6 +46,18 @@ func (s *Sleeper) end() {
 	s.mu.Unlock()
 }
 
+// seconds is d seconds, or the longest time there is if that is out of range.
+func seconds(d time.Duration) time.Duration {
+	const max = math.MaxInt64 / time.Second
+	if d > max {
+		return math.MaxInt64
+	}
+	if d < -max {
+		return math.MinInt64
+	}
+	return d * time.Second
+}
+
 func (s *Sleeper) SleepFor(d time.Duration) bool {
 	done, ok := s.begin()
 	if !ok {
@@ -53,7 +66,7 @@ func (s *Sleeper) SleepFor(d time.Duration) bool {
 	defer s.end()
 	for {
 		select {
-		case <-time.After(time.Duration(d) * time.Second):
+		case <-time.After(seconds(d)):
 			return true
 		case <-done:
 			return true
-- 
2.43.0


From eac7df884a284bf8876d320d39b02d9f4e0a4e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:29 +0000
Subject: [PATCH 06/24] fix: conversion registry held its lock while converting
 and did not key interface types by themselves

---
 typex/convx/convx.go | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/typex/convx/convx.go b/typex/convx/convx.go
index d8dd152..ba77245 100644
--- a/typex/convx/convx.go
+++ b/typex/convx/convx.go
@@ -8,48 +8,50 @@ import (
 var converters = make(map[reflect.Type]map[reflect.Type]any)
 var convertersLock = sync.RWMutex{}
 
+// typeOf is T itself, also if T is an interface type.
+func typeOf[T any]() reflect.Type {
+	return reflect.TypeOf((*T)(nil)).Elem()
+}
+
 func Register[T, R any](converter func(T) R) {
 	convertersLock.Lock()
 	defer convertersLock.Unlock()
-	if converters[reflect.TypeOf(*new(T))] == nil {
-		converters[reflect.TypeOf(*new(T))] = make(map[reflect.Type]any)
+	if converters[typeOf[T]()] == nil {
+		converters[typeOf[T]()] = make(map[reflect.Type]any)
 	}
-	converters[reflect.TypeOf(*new(T))][reflect.TypeOf(*new(R))] = converter
+	converters[typeOf[T]()][typeOf[R]()] = converter
 }
 
 func Unregister[T, R any]() {
 	convertersLock.Lock()
 	defer convertersLock.Unlock()
-	m := converters[reflect.TypeOf(*new(T))]
+	m := converters[typeOf[T]()]
 	if m == nil {
 		return
 	}
-	delete(m, reflect.TypeOf(*new(R)))
+	delete(m, typeOf[R]())
 }
 
 func Exists[T, R any]() bool {
 	convertersLock.RLock()
 	defer convertersLock.RUnlock()
-	m := converters[reflect.TypeOf(*new(T))]
+	m := converters[typeOf[T]()]
 	if m == nil {
 		return false
 	}
-	_, ok := m[reflect.TypeOf(*new(R))]
+	_, ok := m[typeOf[R]()]
 	return ok
 }
 
-func Into[T, R any](value T) (rs R, ok bool) {
+func lookup[T, R any]() (f func(T) R, ok bool) {
 	convertersLock.RLock()
 	defer convertersLock.RUnlock()
-	m := converters[reflect.TypeOf(value)]
-	if m == nil {
-		return
-	}
-	v := m[reflect.TypeOf(rs)]
-	if v == nil {
-		return
-	}
-	f, ok := v.(func(T) R)
+	f, ok = converters[typeOf[T]()][typeOf[R]()].(func(T) R)
+	return
+}
+
+func Into[T, R any](value T) (rs R, ok bool) {
+	f, ok := lookup[T, R]()
 	if !ok {
 		return
 	}
-- 
2.43.0


From 88fa3734191a26b9239c1978655863cbfe1bdf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:29 +0000
Subject: [PATCH 07/24] fix: closing a close manager without failures returned
 a non-nil error

---
 iox/managerx/closex/manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iox/managerx/closex/manager.go b/iox/managerx/closex/manager.go
index 5a6b954..ef05975 100644
--- a/iox/managerx/closex/manager.go
+++ b/iox/managerx/closex/manager.go
@@ -36,5 +36,8 @@ func (c *CloseManager) Close() error {
 		}
 	}
 
+	if len(errs) == 0 {
+		return nil
+	}
 	return errs
 }
-- 
2.43.0


From d07a86b4b24df79af63bfd50efc423906e9933f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:15 +0000
Subject: [PATCH 08/24] fix: a second kill signal ran the handler again and
 closed the channel twice

---
 osx/closex/closex.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/osx/closex/closex.go b/osx/closex/closex.go
index d51a242..11c90fb 100644
--- a/osx/closex/closex.go
+++ b/osx/closex/closex.go
@@ -19,11 +19,11 @@ func HandleKillSig(handler func(), logger *log.Logger) interrupt {
 
 	signal.Notify(sigChannel, syscall.SIGINT, syscall.SIGQUIT, syscall.SIGTERM)
 	go func() {
-		for signal := range sigChannel {
-			logger.Printf("Receive signal %s, Shutting down...", signal)
-			handler()
-			close(intr.C)
-		}
+		// later signals stay caught, and are dropped
+		signal := <-sigChannel
+		logger.Printf("Receive signal %s, Shutting down...", signal)
+		handler()
+		close(intr.C)
 	}()
 	return intr
 }
-- 
2.43.0


From 6aa114a60310f04a83de2c528378f5b53639a553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 09/24] fix: linked queue's Dequeue returned the following
 element and failed on the last one

---
 dsx/linkedx/queuex/queuex.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dsx/linkedx/queuex/queuex.go b/dsx/linkedx/queuex/queuex.go
index 38627c4..4b9e56d 100644
--- a/dsx/linkedx/queuex/queuex.go
+++ b/dsx/linkedx/queuex/queuex.go
@@ -46,9 +46,15 @@ func (q *Queue[T]) Dequeue() (data T, ok bool) {
 	if q.head == nil {
 		return
 	}
-	q.pool.Put(q.head)
-	q.head = q.head.next
-	return q.head.data, true
+	n := q.head
+	data = n.data
+	q.head = n.next
+	if q.head == nil {
+		q.tail = nil
+	}
+	*n = node[T]{}
+	q.pool.Put(n)
+	return data, true
 }
 
 func (q *Queue[T]) Peek() (data T, ok bool) {
-- 
2.43.0


From 0f240309ac7eb74f711adb465df15944b83f8892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 10/24] fix: ring queue had one slot too few and went out of
 range on the last one

---
 dsx/slicex/queuex/queuex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsx/slicex/queuex/queuex.go b/dsx/slicex/queuex/queuex.go
index c4aa0d8..fbe7081 100644
--- a/dsx/slicex/queuex/queuex.go
+++ b/dsx/slicex/queuex/queuex.go
@@ -18,7 +18,7 @@ func New[T any](cap int) *Ring[T] {
 		return nil
 	}
 	return &Ring[T]{
-		data: make([]T, cap),
+		data: make([]T, cap+1),
 		cap:  cap + 1,
 		head: 0,
 		tail: 0,
-- 
2.43.0


From 83d3edfc45fab2fd2ea7945bcefb1785404923ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 11/24] fix: linked stack's Pop returned the element below the
 top and failed on the last one

---
 dsx/linkedx/stackx/stackx.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dsx/linkedx/stackx/stackx.go b/dsx/linkedx/stackx/stackx.go
index 93b5216..21b1377 100644
--- a/dsx/linkedx/stackx/stackx.go
+++ b/dsx/linkedx/stackx/stackx.go
@@ -43,9 +43,12 @@ func (s *Stack[T]) Pop() (data T, ok bool) {
 		return
 	}
 	s.length--
-	s.pool.Put(s.head)
-	s.head = s.head.next
-	return s.head.data, true
+	n := s.head
+	data = n.data
+	s.head = n.next
+	*n = node[T]{}
+	s.pool.Put(n)
+	return data, true
 }
 
 func (s *Stack[T]) Peek() (data T, ok bool) {
-- 
2.43.0


From 9341e421ea17ba76286ee97ae535813146f1b00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 12/24] fix: deque kept a stale end after being emptied and
 reused blocks with stale links

---
 dsx/linkedx/dequex/dequex.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dsx/linkedx/dequex/dequex.go b/dsx/linkedx/dequex/dequex.go
index d8adff5..a58e9ec 100644
--- a/dsx/linkedx/dequex/dequex.go
+++ b/dsx/linkedx/dequex/dequex.go
@@ -89,11 +89,15 @@ func (t *Deque[T]) PopFront() (data T, ok bool) {
 	data = t.head.data[t.head.start]
 	t.head.start++
 	if t.head.start == t.head.end {
-		t.pool.Put(t.head)
-		t.head = t.head.next
+		n := t.head
+		t.head = n.next
 		if t.head != nil {
 			t.head.prev = nil
+		} else {
+			t.tail = nil
 		}
+		*n = node[T]{}
+		t.pool.Put(n)
 	}
 	return data, true
 }
@@ -105,11 +109,15 @@ func (t *Deque[T]) PopBack() (data T, ok bool) {
 	t.tail.end--
 	data = t.tail.data[t.tail.end]
 	if t.tail.start == t.tail.end {
-		t.pool.Put(t.tail)
-		t.tail = t.tail.prev
+		n := t.tail
+		t.tail = n.prev
 		if t.tail != nil {
 			t.tail.next = nil
+		} else {
+			t.head = nil
 		}
+		*n = node[T]{}
+		t.pool.Put(n)
 	}
 	return data, true
 }
-- 
2.43.0


From 152724d979ac4021e65b7580b1f899da4b393315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 13/24] fix: linked list lost its tail and miscounted its
 length on removal and out-of-range calls

---
 dsx/linkedx/listx/listx.go | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/dsx/linkedx/listx/listx.go b/dsx/linkedx/listx/listx.go
index d136036..1a5f929 100644
--- a/dsx/linkedx/listx/listx.go
+++ b/dsx/linkedx/listx/listx.go
@@ -45,6 +45,13 @@ func (l *List[T]) Append(data T) {
 }
 
 func (l *List[T]) Insert(index int, data T) {
+	if index < 0 || index > l.length {
+		return
+	}
+	if index == l.length {
+		l.Append(data)
+		return
+	}
 	l.length++
 	n := l.pool.Get().(*node[T])
 	n.data = data
@@ -54,11 +61,6 @@ func (l *List[T]) Insert(index int, data T) {
 		l.head = n
 		return
 	}
-	if index == l.Len() {
-		l.tail.next = n
-		l.tail = n
-		return
-	}
 	i := 0
 	for p := l.head; p != nil; p = p.next {
 		if i == index-1 {
@@ -71,26 +73,33 @@ func (l *List[T]) Insert(index int, data T) {
 }
 
 func (l *List[T]) Remove(index int) (rs T, ok bool) {
+	if index < 0 || index >= l.length {
+		return
+	}
 	l.length--
 	if index == 0 {
+		n := l.head
+		rs = n.data
+		l.head = n.next
 		if l.head == nil {
-			return
+			l.tail = nil
 		}
-		rs = l.head.data
-		l.pool.Put(l.head)
-		l.head = l.head.next
+		*n = node[T]{}
+		l.pool.Put(n)
 		ok = true
 		return
 	}
 	i := 0
 	for p := l.head; p != nil; p = p.next {
 		if i == index-1 {
+			n := p.next
+			rs = n.data
+			p.next = n.next
 			if p.next == nil {
-				return
+				l.tail = p
 			}
-			rs = p.next.data
-			l.pool.Put(p.next)
-			p.next = p.next.next
+			*n = node[T]{}
+			l.pool.Put(n)
 			ok = true
 			return
 		}
-- 
2.43.0


From 5657b83696dc8078b1ba734d189a64db57e6fe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:26 +0000
Subject: [PATCH 14/24] fix: skip-list iterator failed after the end and
 followed deleted or cleared nodes

---
 dsx/mapx/sklmapx/sklmapx.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/dsx/mapx/sklmapx/sklmapx.go b/dsx/mapx/sklmapx/sklmapx.go
index be8685d..4d28c0f 100644
--- a/dsx/mapx/sklmapx/sklmapx.go
+++ b/dsx/mapx/sklmapx/sklmapx.go
@@ -30,6 +30,7 @@ type sknode[K constraints.Ordered, V any] struct {
 	value  V
 	next   [MAX_HEIGHT]*sknode[K, V]
 	height uint16
+	gone   bool // deleted from the list
 }
 
 func (s *sknode[K, V]) Height() int {
@@ -79,6 +80,7 @@ func (l *skl[K, V]) delete(key K, ctx *[MAX_HEIGHT]*sknode[K, V]) bool {
 	for i := 0; i < x.Height(); i++ {
 		ctx[i].next[i] = x.next[i]
 	}
+	x.gone = true
 	l.len--
 
 	return true
@@ -194,10 +196,12 @@ type Iterator[K constraints.Ordered, V any] struct {
 	list *SkipListMap[K, V]
 	ctx  [MAX_HEIGHT]*sknode[K, V]
 	node *sknode[K, V]
+	head *sknode[K, V] // head of the list that node belongs to
 }
 
 func (i *Iterator[K, V]) Seek(key K) (K, V, bool) {
 	i.node = i.list.skl.search(key, &i.ctx)
+	i.head = i.list.skl.head
 	if i.node == nil {
 		var zero K
 		var zeroV V
@@ -211,15 +215,26 @@ func (i *Iterator[K, V]) Rewind() {
 }
 
 func (i *Iterator[K, V]) Next() (K, V, bool) {
+	l := &i.list.skl
+	var node *sknode[K, V]
 	if i.node == nil {
-		i.node = i.list.skl.head.next[0]
+		node = l.head.next[0]
+	} else if i.node.gone || i.head != l.head {
+		// the node has left the map: continue after its key
+		node = l.search(i.node.key, &i.ctx)
+		if node == nil {
+			node = i.ctx[0].next[0]
+		} else {
+			node = node.next[0]
+		}
 	} else {
-		i.node = i.node.next[0]
+		node = i.node.next[0]
 	}
-	if i.node == i.list.skl.tail {
+	if node == l.tail {
 		var zero K
 		var zeroV V
 		return zero, zeroV, false
 	}
+	i.node, i.head = node, l.head
 	return i.node.key, i.node.value, true
 }
-- 
2.43.0


From a120de92ccbe7276697a9383c26a022b16ec5dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:31 +0000
Subject: [PATCH 15/24] fix: slice edits overwrote the caller's values and
 mishandled indices at the end of the range

---
 dsx/slicex/slicex.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index 08cdfc1..e84083f 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -58,7 +58,7 @@ func (s *Slice[T]) Slice(i, j int) *Slice[T] {
 
 func (s *Slice[T]) Splice(i, j int, v ...T) *Slice[T] {
 	preprocIndexException(&i, &j, len(*s))
-	*s = append((*s)[:i], append(v, (*s)[j:]...)...)
+	*s = append((*s)[:i], append(v[:len(v):len(v)], (*s)[j:]...)...)
 	return s
 }
 
@@ -75,6 +75,9 @@ func (s *Slice[T]) Cut(i, j int) *Slice[T] {
 }
 
 func (s *Slice[T]) Delete(i int) *Slice[T] {
+	if i < 0 || i >= len(*s) {
+		return s
+	}
 	return s.Cut(i, i+1)
 }
 
@@ -107,7 +110,10 @@ func (s *Slice[T]) Shift() T {
 }
 
 func (s *Slice[T]) DeleteReplace(i int) *Slice[T] {
-	preprocIndexException(&i, nil, len(*s))
+	if len(*s) == 0 {
+		return s
+	}
+	preprocIndexException(&i, nil, len(*s)-1)
 	(*s)[i] = (*s)[len(*s)-1]
 	*s = (*s)[:len(*s)-1]
 	return s
-- 
2.43.0


From 472ae142c38bf79a5b6a71d17f891c4a20d708b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:43 +0000
Subject: [PATCH 16/24] fix: Rotate wrote behind the slice and failed on the
 smallest integer

---
 dsx/slicex/slicex.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index e84083f..8bfc79a 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -133,10 +133,10 @@ func (s *Slice[T]) Rotate(n int) *Slice[T] {
 
 	if n > 0 {
 		index := n % len(*s)
-		*s = append((*s)[index:], (*s)[:index]...)
+		*s = append((*s)[index:len(*s):len(*s)], (*s)[:index]...)
 	} else if n < 0 {
-		index := -n % len(*s)
-		*s = append((*s)[len(*s)-index:], (*s)[:len(*s)-index]...)
+		index := -(n % len(*s))
+		*s = append((*s)[len(*s)-index:len(*s):len(*s)], (*s)[:len(*s)-index]...)
 	}
 	return s
 }
-- 
2.43.0


From b0f3d09e6ed7211d284f0f439f3a965ae2199a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:54 +0000
Subject: [PATCH 17/24] fix: pieces of Split overlapped in capacity and huge
 sizes overflowed

---
 dsx/slicex/slicex.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index 8bfc79a..b20ecfa 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -173,17 +173,20 @@ func (s Slice[T]) Split(splits ...int) []Slice[T] {
 	var r []Slice[T] = make([]Slice[T], 0, len(splits)+1)
 	var end int
 	for i := 0; i < len(splits); i++ {
-		endNext := end + splits[i]
+		endNext := len(s)
+		if splits[i] < len(s)-end {
+			endNext = end + splits[i]
+		}
 		preprocIndexException(&endNext, nil, len(s))
 		if endNext < end {
-			r = append(r, s[endNext:end])
+			r = append(r, s[endNext:end:end])
 		} else {
-			r = append(r, s[end:endNext])
+			r = append(r, s[end:endNext:endNext])
 		}
 		end = endNext
 	}
 	if end < len(s) {
-		r = append(r, s[end:])
+		r = append(r, s[end:len(s):len(s)])
 	}
 	return r
 }
-- 
2.43.0


From 80b2294d02ae4b2d88f82f4b9fa49f04c287693b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 18/24] fix: Sort ignored its reverse flag

---
 algox/sortx/sortx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/algox/sortx/sortx.go b/algox/sortx/sortx.go
index c43c333..2d87a18 100644
--- a/algox/sortx/sortx.go
+++ b/algox/sortx/sortx.go
@@ -6,6 +6,10 @@ import (
 )
 
 func Sort[T constraints.Ordered](s []T, reverse bool) {
+	if reverse {
+		SortReverse(s)
+		return
+	}
 	SortCustom(s, func(i, j T) bool {
 		return i < j
 	})
-- 
2.43.0


From f25c78fec9ea1279febb7f37214ed131295350c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 19/24] fix: intersection never allowed the last possible
 outliers and depended on the order of equal points

---
 timex/intersectionx/intersectionx.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/timex/intersectionx/intersectionx.go b/timex/intersectionx/intersectionx.go
index e6d9e5d..422af6e 100644
--- a/timex/intersectionx/intersectionx.go
+++ b/timex/intersectionx/intersectionx.go
@@ -17,6 +17,10 @@ func (s iSlice) Len() int {
 }
 
 func (s iSlice) Less(i, j int) bool {
+	if s[i].Offset == s[j].Offset {
+		// at one point intervals begin before others end
+		return s[i].Type < s[j].Type
+	}
 	return s[i].Offset < s[j].Offset
 }
 
@@ -34,7 +38,7 @@ func intersection(s iSlice) (lower, upper int64, ok bool) {
 	var M int64 = int64(s.Len()) / 3
 	var F int64
 
-	for F < M/2 {
+	for 2*F < M {
 		var End, Mid int64
 
 		for i := range s {
@@ -68,9 +72,6 @@ func intersection(s iSlice) (lower, upper int64, ok bool) {
 		}
 
 		F = F + 1
-		if F >= M/2 {
-			break
-		}
 	}
 
 	ok = false
-- 
2.43.0


From 00bc4c9f1b18f5b1d82fcf90139155389fb66ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 20/24] fix: Truncate overflowed for periods longer than a
 duration

---
 timex/truncatex/truncatex.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/timex/truncatex/truncatex.go b/timex/truncatex/truncatex.go
index 1c8646b..2cf83bf 100644
--- a/timex/truncatex/truncatex.go
+++ b/timex/truncatex/truncatex.go
@@ -38,5 +38,13 @@ func TruncateSec(sec int64) int64 {
 }
 
 func Truncate(sec int64, truncateSec int64) int64 {
-	return time.Unix(sec, 0).UTC().Truncate(time.Second * time.Duration(truncateSec)).Unix()
+	if truncateSec <= 0 {
+		return sec
+	}
+	// seconds into the period, counted from year 1; a time.Duration cannot hold long periods
+	r := (sec - time.Time{}.Unix()) % truncateSec
+	if r < 0 {
+		r += truncateSec
+	}
+	return sec - r
 }
-- 
2.43.0


From 8e4d1ea5c5aa6c16882798b17488613708f8a6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 21/24] fix: AES helpers panicked on data of unusable length

---
 cryptox/aesx/aesx.go | 4 ++++
 cryptox/aesx/cbcx.go | 6 ++++++
 cryptox/aesx/ctrx.go | 3 +++
 cryptox/aesx/gcmx.go | 3 +++
 4 files changed, 16 insertions(+)

diff --git a/cryptox/aesx/aesx.go b/cryptox/aesx/aesx.go
index 3d6349e..c4a4d9e 100644
--- a/cryptox/aesx/aesx.go
+++ b/cryptox/aesx/aesx.go
@@ -1 +1,5 @@
 package aesx
+
+import "errors"
+
+var ErrInvalidLength = errors.New("invalid data length")
diff --git a/cryptox/aesx/cbcx.go b/cryptox/aesx/cbcx.go
index 35f95cf..2ac5974 100644
--- a/cryptox/aesx/cbcx.go
+++ b/cryptox/aesx/cbcx.go
@@ -13,6 +13,9 @@ func EncryptCBC(data []byte, key []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(data)%block.BlockSize() != 0 {
+		return nil, ErrInvalidLength
+	}
 	iv := make([]byte, block.BlockSize())
 	if _, err := rand.Read(iv); err != nil {
 		return nil, err
@@ -30,6 +33,9 @@ func DecryptCBC(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	ivSize := block.BlockSize()
+	if len(data) < ivSize || len(data)%ivSize != 0 {
+		return nil, ErrInvalidLength
+	}
 	iv, ciphertext := data[:ivSize], data[ivSize:]
 	mode := cipher.NewCBCDecrypter(block, iv)
 	result := make([]byte, len(ciphertext))
diff --git a/cryptox/aesx/ctrx.go b/cryptox/aesx/ctrx.go
index 032178e..854fbb9 100644
--- a/cryptox/aesx/ctrx.go
+++ b/cryptox/aesx/ctrx.go
@@ -30,6 +30,9 @@ func DecryptCTR(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	ivSize := block.BlockSize()
+	if len(data) < ivSize {
+		return nil, ErrInvalidLength
+	}
 	iv, ciphertext := data[:ivSize], data[ivSize:]
 	mode := cipher.NewCTR(block, iv)
 	result := make([]byte, len(ciphertext))
diff --git a/cryptox/aesx/gcmx.go b/cryptox/aesx/gcmx.go
index 5724a0b..0f9f8c8 100644
--- a/cryptox/aesx/gcmx.go
+++ b/cryptox/aesx/gcmx.go
@@ -36,6 +36,9 @@ func DecryptGCM(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	nonceSize := aead.NonceSize()
+	if len(data) < nonceSize {
+		return nil, ErrInvalidLength
+	}
 	nonce, ciphertext := data[:nonceSize], data[nonceSize:]
 	result, err := aead.Open(nil, nonce, ciphertext, nil)
 	if err != nil {
-- 
2.43.0


From c89189a81f381e2e141bb6dbf426817adfd18849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 22/24] fix: bcryptx.Decrypt accepted longer passwords that
 only begin with the hashed one

---
 cryptox/bcryptx/bcryptx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cryptox/bcryptx/bcryptx.go b/cryptox/bcryptx/bcryptx.go
index 086716c..6367733 100644
--- a/cryptox/bcryptx/bcryptx.go
+++ b/cryptox/bcryptx/bcryptx.go
@@ -28,6 +28,9 @@ func Encrypt(pw []byte) ([]byte, error) {
 }
 
 func Decrypt(enc, pw []byte) (bool, error) {
+	if len(pw) > DefMaxLen {
+		return false, ErrPasswordTooLong
+	}
 	err := bcrypt.CompareHashAndPassword(enc, pw)
 	if err != nil {
 		if err == bcrypt.ErrMismatchedHashAndPassword {
-- 
2.43.0


From be229260b3af28a1168ff3fb4c97b82d7cd0ab5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 23/24] fix: maintenance commands ran again in the starting
 directory for directories they could not enter or list

---
 cmd/autotidy/autotidy.go     | 10 ++++++++--
 cmd/autoupdate/autoupdate.go | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/cmd/autotidy/autotidy.go b/cmd/autotidy/autotidy.go
index 6ebbac2..d01223f 100644
--- a/cmd/autotidy/autotidy.go
+++ b/cmd/autotidy/autotidy.go
@@ -10,12 +10,18 @@ import (
 
 func main() {
 	workdir, _ := os.Getwd()
-	filepath.WalkDir(".", func(path string, d fs.DirEntry, _ error) error {
+	filepath.WalkDir(".", func(path string, d fs.DirEntry, err error) error {
+		if err != nil {
+			// unreadable or gone, its command has run already
+			return nil
+		}
 		if d.IsDir() {
 			if d.Name() == "vendor" || d.Name() == ".git" {
 				return filepath.SkipDir
 			}
-			os.Chdir(path)
+			if os.Chdir(path) != nil {
+				return filepath.SkipDir
+			}
 			log.Println("entering", path)
 			exec.Command("go", "mod", "tidy").Run()
 			log.Println("leaving", path)
diff --git a/cmd/autoupdate/autoupdate.go b/cmd/autoupdate/autoupdate.go
index 556d49a..f478105 100644
--- a/cmd/autoupdate/autoupdate.go
+++ b/cmd/autoupdate/autoupdate.go
@@ -10,12 +10,18 @@ import (
 
 func main() {
 	workdir, _ := os.Getwd()
-	filepath.WalkDir(".", func(path string, d fs.DirEntry, _ error) error {
+	filepath.WalkDir(".", func(path string, d fs.DirEntry, err error) error {
+		if err != nil {
+			// unreadable or gone, its command has run already
+			return nil
+		}
 		if d.IsDir() {
 			if d.Name() == "vendor" || d.Name() == ".git" {
 				return filepath.SkipDir
 			}
-			os.Chdir(path)
+			if os.Chdir(path) != nil {
+				return filepath.SkipDir
+			}
 			log.Println("entering", path)
 			exec.Command("go", "get", "-u").Run()
 			log.Println("leaving", path)
-- 
2.43.0


From b89dd5b84a28cafe2a793408ada95f52ecc8348b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:36 +0000
Subject: [PATCH 24/24] fix: convx rounds a text to float32 once

---
 typex/convx/converters.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typex/convx/converters.go b/typex/convx/converters.go
index 1ee82b7..9cb82b6 100644
--- a/typex/convx/converters.go
+++ b/typex/convx/converters.go
@@ -2,6 +2,7 @@ package convx
 
 import (
 	"strconv"
+	"unsafe"
 
 	"golang.org/x/exp/constraints"
 )
@@ -33,7 +34,7 @@ func stringToUinteger[T constraints.Unsigned](s string) T {
 }
 
 func stringToFloat[T constraints.Float](s string) T {
-	i, _ := strconv.ParseFloat(s, 64)
+	i, _ := strconv.ParseFloat(s, int(unsafe.Sizeof(T(0)))*8)
 	return T(i)
 }
 
-- 
2.43.0

