SEEDS = []
def S(id, prop, pkg, edits, needs, breaks, demo, **k):
    name = pkg.rsplit("/", 1)[1]
    body = demo.strip("\n")
    if not body.startswith("package"):
        imps, body = ("\n" + body).split("\n---\n", 1)
        imps = ["testing"] + imps.split() + ["github.com/unsafe-risk/utilx/" + pkg]
        body = "package %s_test\n\nimport (\n%s)\n\n%s\n" % (name, "".join('\t"%s"\n' % i for i in sorted(imps)), body)
    SEEDS.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, needs=needs, breaks=breaks, demo=body, **k))

POOL = "poolx/gopoolx/timedpool.go"
S("u01-skl-seed-race", "C37", "dsx/mapx/sklmapx",
  [("dsx/mapx/sklmapx/splitmix64.go", '\t"sync/atomic"\n', ""),
   ("dsx/mapx/sklmapx/splitmix64.go", "\ts := atomic.AddUint64(&root_seed, incrementConstant)\n\treturn next(s)\n",
    "\troot_seed += incrementConstant\n\treturn next(root_seed)\n")],
  "two goroutines creating skip-list maps of their own at the same time",
  "The shared seed of new maps is advanced without synchronisation.",
  '''sync
---
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				m := sklmapx.New[int, int]()
				m.Set(i, i)
				m.Clear()
			}
		}()
	}
	wg.Wait()
}
''', flags="-race")
S("u02-pool-search-bound", "C03", "poolx/gopoolx",
  [(POOL, "\t\t\t\t\t\t\tr = m\n", "\t\t\t\t\t\t\tr = m - 1\n")],
  "one worker idle for long and another that is kept busy now and then",
  "The search for the last worker that has been idle too long ends one early, so an old idle worker beside a fresh one is not collected.",
  '''time
---
func TestDemo(t *testing.T) {
	gate := make(chan struct{})
	pool, err := gopoolx.NewTimedPool(4, func(b bool) {
		if b {
			<-gate
		}
	}, 200*time.Millisecond, 20*time.Millisecond, 0)
	if err != nil {
		t.Fatal(err)
	}
	defer pool.Stop()
	pool.Run(true)
	pool.Run(true)
	close(gate)
	time.Sleep(20 * time.Millisecond)
	if pool.Workers() != 2 {
		t.Skip("too slow")
	}
	for i := 0; i < 40; i++ { // keeps one of them fresh
		pool.Run(false)
		time.Sleep(20 * time.Millisecond)
	}
	if n := pool.Workers(); n != 1 {
		t.Fatal(n, "workers")
	}
}
''')
S("u03-pool-preheat-age", "C03", "poolx/gopoolx",
  [(POOL, "\t\t\tw.tt = time.Now().UnixNano()\n\t\t\tpool.dobby", "\t\t\tpool.dobby")],
  "preheated workers and a collection before the idle timeout has passed",
  "Preheated workers carry no idle time and are collected at the first occasion.",
  '''time
---
func TestDemo(t *testing.T) {
	pool, err := gopoolx.NewTimedPool(4, func(int) {}, time.Hour, 20*time.Millisecond, 3)
	if err != nil {
		t.Fatal(err)
	}
	defer pool.Stop()
	time.Sleep(200 * time.Millisecond)
	if n := pool.Workers(); n != 3 {
		t.Fatal(n, "workers")
	}
}
''')
S("u04-decoupler-backing", "C04", "iox/decouplex",
  [("iox/decouplex/decouple.go", "\t\tlocktab[i] = empty\n\t}\n",
    "\t\tlocktab[i] = empty\n\t}\n\n\t// short messages need no allocation of their own\n\tconst short = 64\n\tbacking := make([]byte, size*short)\n\tbuffer := make([][]byte, size)\n\tfor i := range buffer {\n\t\tbuffer[i] = backing[i*short : (i+1)*short]\n\t}\n"),
   ("iox/decouplex/decouple.go", "\t\tbuffer:  make([][]byte, size),\n", "\t\tbuffer:  buffer,\n")],
  "a message longer than 64 bytes written into a slot whose successor still holds an unread message",
  "The slots share one memory block and are not limited to their part of it, so a long message overwrites the next slot's.",
  '''bytes
---
func TestDemo(t *testing.T) {
	d := decouplex.NewDecoupler(2, nil)
	d.Write([]byte("one"))
	d.Write([]byte("two"))
	d.Next(nil)
	d.Write(bytes.Repeat([]byte("x"), 100))
	d.Next(func(b []byte) {
		if string(b) != "two" {
			t.Fatalf("%q", b)
		}
	})
}
''')
S("u05-decoupler-empty", "C05", "iox/decouplex",
  [("iox/decouplex/decouple.go", "\tif len(b) == 0 {\n\t\treturn d.drop(b)\n", "\tif len(b) == 0 {\n\t\treturn 0, nil\n")],
  "an empty message and a drop function that counts or reports",
  "Empty messages are ignored without being given to the drop function.",
  '''errors
---
func TestDemo(t *testing.T) {
	e := errors.New("dropped")
	n := 0
	d := decouplex.NewDecoupler(2, func([]byte) (int, error) { n++; return 7, e })
	if k, err := d.Write(nil); k != 7 || err != e || n != 1 {
		t.Fatal(k, err, n)
	}
}
''')
S("u06-sleep-until-past", "C08", "timex/sleepx",
  [("timex/sleepx/sleepx.go", "func (s *Sleeper) SleepUntil(t time.Time) bool {\n", "func (s *Sleeper) SleepUntil(t time.Time) bool {\n\tleft := t.Sub(timex.Now())\n\tif left <= 0 {\n\t\treturn true\n\t}\n"),
   ("timex/sleepx/sleepx.go", "\t\tcase <-time.After(t.Sub(timex.Now())):\n", "\t\tcase <-time.After(left):\n")],
  "SleepUntil for a moment that has passed while another goroutine sleeps on the same sleeper",
  "SleepUntil answers for a past moment before it looks whether the sleeper is in use.",
  '''time
---
func TestDemo(t *testing.T) {
	s := sleepx.New()
	done := make(chan bool)
	go func() { done <- s.SleepForever() }()
	time.Sleep(50 * time.Millisecond)
	if s.SleepUntil(time.Now().Add(-time.Second)) {
		t.Fatal("two sleeps at a time")
	}
	for !s.Wakeup() {
		time.Sleep(time.Millisecond)
	}
	<-done
}
''')
SM = "dsx/mapx/syncmapx/syncmapx.go"
S("u07-syncmap-last", "C11", "dsx/mapx/syncmapx",
  [(SM, 'import "sync"\n', 'import (\n\t"sync"\n\t"sync/atomic"\n)\n\ntype entry[K comparable, V any] struct {\n\tk K\n\tv V\n}\n'),
   (SM, "\tmtx sync.RWMutex\n}", "\tmtx sync.RWMutex\n\n\tlast atomic.Pointer[entry[K, V]] // what Get found last\n}"),
   (SM, "\tm.mtx.RLock()\n\tval := m.m[k]\n\tm.mtx.RUnlock()\n\treturn val\n",
    "\tif e := m.last.Load(); e != nil && e.k == k {\n\t\treturn e.v\n\t}\n\tm.mtx.RLock()\n\tval, ok := m.m[k]\n\tif ok {\n\t\tm.last.Store(&entry[K, V]{k, val})\n\t}\n\tm.mtx.RUnlock()\n\treturn val\n"),
   (SM, "\tm.mtx.Lock()\n\tm.m[k] = v\n", "\tm.mtx.Lock()\n\tm.last.Store(nil)\n\tm.m[k] = v\n"),
   (SM, "\tm.mtx.Lock()\n\tdelete(m.m, k)\n", "\tm.mtx.Lock()\n\tm.last.Store(nil)\n\tdelete(m.m, k)\n")],
  "a Get of a key, a Clear, and a Get of the same key",
  "The entry found last is remembered, and Clear does not forget it.",
  '''

---
func TestDemo(t *testing.T) {
	m := syncmapx.New[string, int]()
	m.Set("a", 1)
	m.Get("a")
	m.Clear()
	if v := m.Get("a"); v != 0 {
		t.Fatal(v)
	}
}
''')
S("u08-convx-last-target", "C12", "typex/convx",
  [("typex/convx/convx.go", "\tif m == nil {\n\t\treturn\n\t}\n", "\tif len(m) <= 1 {\n\t\t// nothing left\n\t\tdelete(converters, typeOf[T]())\n\t\treturn\n\t}\n")],
  "Unregister of a pair that is not registered while its source type has exactly one other converter",
  "A source type's table with one entry is dropped, whichever entry it is.",
  '''

---
type a struct{}
type b struct{ x int }
type c struct{ y int }

func TestDemo(t *testing.T) {
	convx.Register(func(a) b { return b{1} })
	convx.Unregister[a, c]()
	if !convx.Exists[a, b]() {
		t.Fatal("lost")
	}
}
''')
S("u10-convx-bytes-nul", "C13", "typex/convx",
  [("typex/convx/converters.go", 'import (\n', 'import (\n\t"bytes"\n'), ("typex/convx/converters.go", "\treturn string(b)\n", '\treturn string(bytes.TrimRight(b, "\\x00"))\n')],
  "bytes ending in NUL", "Trailing NUL bytes are cut from the text.",
  '''

---
func TestDemo(t *testing.T) {
	if s, _ := convx.Into[[]byte, string]([]byte("a\\x00")); s != "a\\x00" {
		t.Fatalf("%q", s)
	}
}
''')
S("u11-closemgr-errs-reused", "C14", "iox/managerx/closex",
  [("iox/managerx/closex/manager.go", "\tlist []io.Closer\n", "\tlist []io.Closer\n\terrs ErrorList\n"),
   ("iox/managerx/closex/manager.go", "\terrs := make(ErrorList, 0, len(c.list))\n", "\terrs := c.errs[:0]\n\tdefer func() { c.errs = errs }()\n")],
  "two closes that fail differently, and a look at the first one's error after the second",
  "The list of failures is reused by the next Close, which overwrites the one returned before.",
  '''errors io
---
type closer []error

func (c *closer) Close() error {
	e := (*c)[0]
	*c = (*c)[1:]
	return e
}

var _ io.Closer = &closer{}

func TestDemo(t *testing.T) {
	e1, e2 := errors.New("first"), errors.New("second")
	m := closex.New()
	m.Append(&closer{e1, e2})
	err := m.Close()
	m.Close()
	if l, ok := closex.AsErrs(err); !ok || len(l) != 1 || l[0] != e1 {
		t.Fatal(err)
	}
}
''')
S("u12-using-errs-reused", "C15", "iox/usingx",
  [("iox/usingx/using.go", "\treturn func(f func()) (err []error) {\n\t\terrs := []error(nil)\n", "\tvar errs []error\n\treturn func(f func()) (err []error) {\n\t\terrs = errs[:0]\n")],
  "two uses of one function, failing differently, and a look at the first one's errors after the second",
  "Both uses collect their errors in the same slice.",
  '''errors io
---
type closer []error

func (c *closer) Close() error {
	e := (*c)[0]
	*c = (*c)[1:]
	return e
}

var _ io.Closer = &closer{}

func TestDemo(t *testing.T) {
	e1, e2 := errors.New("first"), errors.New("second")
	use := usingx.Close(&closer{e1, e2})
	a := use(func() {})
	use(func() {})
	if len(a) != 1 || a[0] != e1 {
		t.Fatal(a)
	}
}
''')
KS = "osx/closex/closex.go"
S("u13-killsig-one-channel", "C16", "osx/closex",
  [(KS, "func HandleKillSig(", "var sigChannel = make(chan os.Signal, 1)\n\nfunc HandleKillSig("), (KS, "\tsigChannel := make(chan os.Signal, 1)\n", "")],
  "two registrations and one signal", "All registrations wait on one channel, so one signal reaches only one of them.",
  '''log io syscall time
---
func TestDemo(t *testing.T) {
	l := log.New(io.Discard, "", 0)
	a := closex.HandleKillSig(func() {}, l)
	b := closex.HandleKillSig(func() {}, l)
	syscall.Kill(syscall.Getpid(), syscall.SIGTERM)
	for _, c := range []chan struct{}{a.C, b.C} {
		select {
		case <-c:
		case <-time.After(5 * time.Second):
			t.Fatal("not told")
		}
	}
}
''')
SP = "syncx/syncpoolx/syncpoolx.go"
S("u14-syncpool-swap", "C17", "syncx/syncpoolx",
  [(SP, 'import "sync"\n', 'import (\n\t"sync"\n\t"sync/atomic"\n)\n'),
   (SP, "\tpool sync.Pool\n", "\tpool sync.Pool\n\tlast atomic.Pointer[T] // saves a trip to the pool\n"),
   (SP, "\treturn p.pool.Get().(*T)\n", "\tif x := p.last.Swap(nil); x != nil {\n\t\treturn x\n\t}\n\treturn p.pool.Get().(*T)\n"),
   (SP, "\tp.pool.Put(x)\n", "\tif old := p.last.Swap(x); old != nil {\n\t\tp.pool.Put(x)\n\t}\n")],
  "two Puts in a row and then two Gets", "The second object put is kept twice, in the slot and in the pool (and the first is lost).",
  '''

---
func TestDemo(t *testing.T) {
	for i := 0; i < 100; i++ {
		var p syncpoolx.Pool[int]
		p.Init(func() *int { return new(int) })
		a, b := new(int), new(int)
		p.Put(a)
		p.Put(b)
		if p.Get() == p.Get() {
			t.Fatal("shared")
		}
	}
}
''')
DQ = "dsx/linkedx/dequex/dequex.go"
S("u16-deque-compact", "C20", "dsx/linkedx/dequex",
  [(DQ, "\tif t.tail.end == nodeBufferSize {\n",
    "\tfull := t.tail.end == nodeBufferSize\n\tif k := t.head.start; full && k > nodeBufferSize/2 {\n\t\t// make room instead of taking another block\n\t\tcopy(t.tail.data[:], t.tail.data[k:])\n\t\tif t.head == t.tail {\n\t\t\tt.tail.start = 0\n\t\t}\n\t\tt.tail.end -= k\n\t\tfull = false\n\t}\n\tif full {\n")],
  "more than one block in use, the first more than half consumed and the last full",
  "A full last block is compacted by the number of elements taken from the first block.",
  '''

---
func TestDemo(t *testing.T) {
	d := dequex.New[int]()
	in, out := 0, 0
	for i := 0; i < 500; i++ {
		d.PushBack(in)
		in++
		if i > 80 {
			if v, ok := d.PopFront(); !ok || v != out {
				t.Fatal(v, ok, out)
			}
			out++
		}
	}
}
''')
LL = "dsx/linkedx/listx/listx.go"
S("u17-list-cursor", "C21", "dsx/linkedx/listx",
  [(LL, "\tlength int\n", "\tlength int\n\n\t// where At was last\n\tcur      *node[T]\n\tcurIndex int\n\n"),
   (LL, "\ti := 0\n\tfor p := l.head; p != nil; p = p.next {\n\t\tif i == index {\n\t\t\trs = p.data\n",
    "\ti, p := 0, l.head\n\tif l.cur != nil && l.curIndex <= index {\n\t\ti, p = l.curIndex, l.cur\n\t}\n\tfor ; p != nil; p = p.next {\n\t\tif i == index {\n\t\t\tl.cur, l.curIndex = p, i\n\t\t\trs = p.data\n"),
   (LL, "\t\treturn\n\t}\n\tl.length--\n", "\t\treturn\n\t}\n\tl.cur = nil\n\tl.length--\n")],
  "an insertion before the position that was read last",
  "Reading by index continues from where the last reading ended; insertions do not move that mark.",
  '''

---
func TestDemo(t *testing.T) {
	l := listx.New[int]()
	for i := 0; i < 4; i++ {
		l.Append(i)
	}
	l.At(2)
	l.Insert(1, 9)
	if v, _ := l.At(3); v != 2 {
		t.Fatal(v)
	}
}
''')
OM = "dsx/mapx/ordmapx/ordmapx.go"
S("u20-ordmap-keys-cache", "C24", "dsx/mapx/ordmapx",
  [(OM, "\tskl *sklmapx.SkipListMap[K, struct{}]\n", "\tskl *sklmapx.SkipListMap[K, struct{}]\n\n\tkeys []K // the last answer of Keys\n"),
   (OM, "\treturn m.skl.Keys()\n", "\tif m.keys == nil || len(m.keys) != m.skl.Len() {\n\t\tm.keys = m.skl.Keys()\n\t}\n\treturn append([]K(nil), m.keys...)\n")],
  "a deletion and an insertion of another key between two calls of Keys",
  "Keys answers from memory as long as the number of keys is the same.",
  '''

---
func TestDemo(t *testing.T) {
	m := ordmapx.New[int, int]()
	m.Set(1, 1)
	m.Keys()
	m.Del(1)
	m.Set(2, 2)
	if k := m.Keys(); len(k) != 1 || k[0] != 2 {
		t.Fatal(k)
	}
}
''')
SX = "dsx/slicex/slicex.go"
S("u21-slicex-extend-stale", "C25", "dsx/slicex",
  [(SX, "\t*s = append(*s, make([]T, size)...)\n", "\tif n := len(*s) + size; n <= cap(*s) {\n\t\t*s = (*s)[:n]\n\t} else {\n\t\t*s = append(*s, make([]T, size)...)\n\t}\n")],
  "an Extend after elements were removed", "Extend into spare capacity brings back removed elements instead of zero values.",
  '''

---
func TestDemo(t *testing.T) {
	s := slicex.New(1, 2, 3)
	s.Clear().Extend(2)
	if s.Get(0) != 0 || s.Get(1) != 0 {
		t.Fatal(*s)
	}
}
''')
S("u22-slicex-filter-twice", "C26", "dsx/slicex",
  [(SX, "\tn := 0\n\tfor _, v := range *s {\n\t\tif f(v) {\n\t\t\t(*s)[n] = v\n\t\t\tn++\n\t\t}\n\t}\n\t*s = (*s)[:n]\n",
    "\tn := 0\n\tfor _, v := range *s {\n\t\tif f(v) {\n\t\t\tn++\n\t\t}\n\t}\n\tif n == len(*s) {\n\t\treturn s\n\t}\n\tkept := (*s)[:0]\n\tfor _, v := range *s {\n\t\tif f(v) {\n\t\t\tkept = append(kept, v)\n\t\t}\n\t}\n\t*s = kept\n")],
  "a predicate that remembers what it has seen, such as one that drops duplicates",
  "Filter asks the predicate twice for every element.",
  '''

---
func TestDemo(t *testing.T) {
	seen := map[int]bool{}
	s := slicex.New(1, 2, 1, 3, 2).Filter(func(v int) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		return true
	})
	if len(*s) != 3 {
		t.Fatal(*s)
	}
}
''')
BS = "dsx/setx/bitsetx/bitsetx.go"
S("u23-bitset-toggle-mask", "C27", "dsx/setx/bitsetx",
  [(BS, "\tfor _, i := range i {\n\t\tb.data ^= (1 << i)\n\t}\n", "\tvar mask T\n\tfor _, i := range i {\n\t\tmask |= 1 << i\n\t}\n\tb.data ^= mask\n")],
  "a position listed twice in one Toggle", "Positions are collected in a mask first, so a position listed twice is flipped once.",
  '''

---
func TestDemo(t *testing.T) {
	var b bitsetx.BitSet[uint8]
	b.Toggle(1, 1)
	if b.Test(1) {
		t.Fatal("set")
	}
}
''')
S("u24-sort-stable-reversed", "C28", "algox/sortx",
  [("algox/sortx/sortx.go", "func SortStableReverse[T constraints.Ordered](s []T) {\n\tSortStableCustom(s, func(i, j T) bool {\n\t\treturn i > j\n\t})\n", "func SortStableReverse[T constraints.Ordered](s []T) {\n\tSortStable(s)\n\tfor i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {\n\t\ts[i], s[j] = s[j], s[i]\n\t}\n")],
  "equal elements that can be told apart: positive and negative zero",
  "The stable descending sort sorts ascending and turns the slice around, which reverses equal elements.",
  '''math
---
func TestDemo(t *testing.T) {
	n := math.Copysign(0, -1)
	s := []float64{0, n, 1}
	sortx.SortStableReverse(s)
	if math.Signbit(s[1]) || !math.Signbit(s[2]) {
		t.Fatal(s)
	}
}
''')
IX = "timex/intersectionx/intersectionx.go"
S("u25-intersection-dedupe", "C29", "timex/intersectionx",
  [(IX, "\tis := make(iSlice, 0, len(intervals)*3)\n\tfor i := range intervals {\n", "\tseen := make(map[Interval]bool, len(intervals))\n\tis := iSlice{}\n\tfor i := range intervals {\n\t\tif seen[intervals[i]] {\n\t\t\tcontinue\n\t\t}\n\t\tseen[intervals[i]] = true\n")],
  "clocks that report the same interval", "Equal intervals count once, so agreeing clocks are outvoted.",
  '''

---
func TestDemo(t *testing.T) {
	a, b := intersectionx.Interval{Offset: 0, ConfidenceBand: 1}, intersectionx.Interval{Offset: 100, ConfidenceBand: 1}
	if l, u, ok := intersectionx.Intersection(a, a, b); !ok || l != -1 || u != 1 {
		t.Fatal(l, u, ok)
	}
}
''')
GC = "cryptox/aesx/gcmx.go"
S("u28-gcm-key-padding", "C32", "cryptox/aesx",
  [(GC, 'import (\n', 'import (\n\t"bytes"\n'),
   (GC, "func EncryptGCM(data []byte, key []byte) ([]byte, error) {\n\tk := sha256.Sum256(key)\n", "func EncryptGCM(data []byte, key []byte) ([]byte, error) {\n\tk := sha256.Sum256(bytes.TrimRight(key, \"\\x00\"))\n"),
   (GC, "func DecryptGCM(data []byte, key []byte) ([]byte, error) {\n\tk := sha256.Sum256(key)\n", "func DecryptGCM(data []byte, key []byte) ([]byte, error) {\n\tk := sha256.Sum256(bytes.TrimRight(key, \"\\x00\"))\n")],
  "two keys that differ only in NUL bytes at their end", "Keys lose their trailing NUL bytes before use.",
  '''

---
func TestDemo(t *testing.T) {
	c, _ := aesx.EncryptGCM([]byte("hello"), []byte("key"))
	if _, err := aesx.DecryptGCM(c, []byte("key\\x00")); err == nil {
		t.Fatal("decrypted with another key")
	}
}
''')
CT = "cryptox/aesx/ctrx.go"
S("u29-ctr-long-key", "C32", "cryptox/aesx",
  [(CT, "func EncryptCTR(data []byte, key []byte) ([]byte, error) {\n\tk := sha256.Sum256(key)\n", "func limit(key []byte) []byte {\n\tif len(key) > 72 {\n\t\treturn key[:72]\n\t}\n\treturn key\n}\n\nfunc EncryptCTR(data []byte, key []byte) ([]byte, error) {\n\tk := sha256.Sum256(limit(key))\n"),
   (CT, "func DecryptCTR(data []byte, key []byte) ([]byte, error) {\n\tk := sha256.Sum256(key)\n", "func DecryptCTR(data []byte, key []byte) ([]byte, error) {\n\tk := sha256.Sum256(limit(key))\n")],
  "two keys that agree in their first 72 bytes", "Only the first 72 bytes of a key count.",
  '''bytes
---
func TestDemo(t *testing.T) {
	k := bytes.Repeat([]byte("k"), 80)
	c, _ := aesx.EncryptCTR([]byte("hello, world"), k)
	if d, err := aesx.DecryptCTR(c, append(k, 'x')); err == nil && string(d) == "hello, world" {
		t.Fatal("decrypted with another key")
	}
}
''')
S("u31-passhash-prefix", "C33", "cryptox/passhashx",
  [("cryptox/passhashx/passhash.go", "\tif subtle.ConstantTimeCompare(hash, data.Hash()) != 1 {\n", "\t// shorter digests were in use once\n\twant := data.Hash()\n\tif len(want) > len(hash) || subtle.ConstantTimeCompare(hash[:len(want)], want) != 1 {\n")],
  "a well-formed hash with a shortened or empty digest", "Only as much of the digest as is stored is compared.",
  '''
package passhashx

import (
	"testing"

	"github.com/unsafe-risk/utilx/cryptox/passhashx/internal"
)

func TestDemo(t *testing.T) {
	h := internal.New_PasswordHash(internal.Parameter_Argon2ID_Mobile_Low, make([]byte, 16), nil)
	if Verify([]byte("anything"), h) == nil {
		t.Fatal("accepted")
	}
}
''')
S("u32-bcrypt-newline", "C34", "cryptox/bcryptx",
  [("cryptox/bcryptx/bcryptx.go", 'import (\n', 'import (\n\t"bytes"\n'), ("cryptox/bcryptx/bcryptx.go", "\terr := bcrypt.CompareHashAndPassword(enc, pw)\n", '\terr := bcrypt.CompareHashAndPassword(enc, bytes.TrimRight(pw, "\\r\\n"))\n')],
  "a password followed by a line end", "Decrypt drops line ends from the password it is given.",
  '''

---
func TestDemo(t *testing.T) {
	h, err := bcryptx.Encrypt([]byte("secret"))
	if err != nil {
		t.Fatal(err)
	}
	if ok, _ := bcryptx.Decrypt(h, []byte("secret\\n")); ok {
		t.Fatal("accepted")
	}
}
''')
S("u34-autotidy-suffix", "C36", "cmd/autotidy",
  [("cmd/autotidy/autotidy.go", '\t"path/filepath"\n', '\t"path/filepath"\n\t"strings"\n'), ("cmd/autotidy/autotidy.go", '\t\t\tif d.Name() == "vendor" || d.Name() == ".git" {\n', '\t\t\tif strings.HasSuffix(path, "vendor") || strings.HasSuffix(path, ".git") {\n')],
  "a directory whose name ends in vendor or .git without being it", "Directories named like my.git or multivendor are skipped.",
  '''
package main

import (
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	bin := filepath.Join(dir, "bin")
	top := filepath.Join(dir, "top")
	os.Mkdir(bin, 0o755)
	os.MkdirAll(filepath.Join(top, "multivendor"), 0o755)
	os.WriteFile(filepath.Join(bin, "go"), []byte("#!/bin/sh\\npwd >> "+dir+"/log\\n"), 0o755)
	t.Setenv("PATH", bin+":/bin:/usr/bin")
	t.Chdir(top)
	main()
	b, _ := os.ReadFile(dir + "/log")
	if !strings.Contains(string(b), "multivendor") {
		t.Fatal(string(b))
	}
}
''')
S("u35-intersection-shared", "C37", "timex/intersectionx",
  [(IX, "func Intersection(", "// the end points of the intervals being compared\nvar points iSlice\n\nfunc Intersection("),
   (IX, "\tis := make(iSlice, 0, len(intervals)*3)\n", "\tis := points[:0]\n\tdefer func() { points = is }()\n")],
  "two goroutines intersecting at the same time", "All calls use one buffer for the end points.",
  '''sync
---
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := int64(1); g <= 4; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			a := intersectionx.Interval{Offset: g, ConfidenceBand: g}
			for i := 0; i < 100000; i++ {
				if l, u, ok := intersectionx.Intersection(a, a, a); !ok || l != 0 || u != 2*g {
					t.Error(l, u, ok)
					return
				}
			}
		}()
	}
	wg.Wait()
}
''', flags="-race")
S("u36-passhash-salt-shared", "C37", "cryptox/passhashx",
  [("cryptox/passhashx/passhash.go", "func Hash(", "var saltBuffer [16]byte\n\nfunc Hash("),
   ("cryptox/passhashx/passhash.go", "\tsalt = make([]byte, salt_len(param))\n", "\tsalt = saltBuffer[:salt_len(param)]\n")],
  "two passwords hashed at the same time", "The salt is made in a buffer all calls share; another call changes it while the first still hashes.",
  '''fmt sync
---
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 5; i++ {
				pw := []byte(fmt.Sprint(g, i))
				h, err := passhashx.Hash(pw, passhashx.SecurityLevelMobileLow)
				if err == nil {
					err = passhashx.Verify(pw, h)
				}
				if err != nil {
					t.Error(err)
				}
			}
		}()
	}
	wg.Wait()
}
''')
S("u42-pool-free-unlocked", "C03", "poolx/gopoolx",
  [(POOL, "\tpool.mu.Lock()\n\tif pool.maxWorkers == -1 {\n\t\tpool.workers--\n\t\tpool.mu.Unlock()\n\t\treturn true\n\t}\n\tpool.dobby = append(pool.dobby, w)\n",
    "\tpool.mu.Lock()\n\tstopped := pool.maxWorkers == -1\n\tpool.mu.Unlock()\n\tif stopped {\n\t\tpool.mu.Lock()\n\t\tpool.workers--\n\t\tpool.mu.Unlock()\n\t\treturn true\n\t}\n\n\tpool.mu.Lock()\n\tpool.dobby = append(pool.dobby, w)\n")],
  "a worker that finishes its job exactly while the pool is being stopped",
  "Between the look whether the pool is stopped and the return of the worker the lock is given up: a worker put back after the stop never ends.",
  '''time
---
func TestDemo(t *testing.T) {
	end := time.Now().Add(60 * time.Second)
	for time.Now().Before(end) {
		var pools []*gopoolx.TimedPool[int]
		for k := 0; k < 200; k++ {
			pool, err := gopoolx.NewTimedPool(64, func(n int) {
				for i := 0; i < n; i++ {
					sink++
				}
			}, time.Hour, time.Hour, 0)
			if err != nil {
				t.Fatal(err)
			}
			for i := 0; i < 64; i++ {
				pool.Run(i * 10)
			}
			pool.Stop()
			pools = append(pools, pool)
		}
		late := time.Now().Add(5 * time.Second)
		for _, p := range pools {
			for p.Workers() != 0 {
				if time.Now().After(late) {
					t.Fatal("workers left")
				}
				time.Sleep(time.Millisecond)
			}
		}
		if passes++; passes > 60 {
			return
		}
	}
}

var sink, passes int
''')
S("u52-convx-bytes-alias", "C13", "typex/convx",
  [("typex/convx/converters.go", "\treturn string(b)\n", "\treturn *(*string)(unsafe.Pointer(&b)) // no copy\n")],
  "a change of the bytes after they were converted", "The string shares the memory of the bytes it was made from.",
  '''

---
func TestDemo(t *testing.T) {
	b := []byte("abc")
	s, _ := convx.Into[[]byte, string](b)
	b[0] = 'x'
	if s != "abc" {
		t.Fatal(s)
	}
}
''')
