SEEDS = []
def S(id, prop, pkg, edits, needs, breaks, demo, **k):
    name = pkg.rsplit("/", 1)[1]
    body = demo.strip("\n")
    if body and not body.startswith("package"):
        imps, body = ("\n" + body).split("\n---\n", 1)
        imps = ["testing"] + imps.split() + ["github.com/unsafe-risk/utilx/" + pkg]
        body = "package %s_test\n\nimport (\n%s)\n\n%s\n" % (k.pop("pname", name), "".join('\t"%s"\n' % i for i in sorted(imps)), body)
    SEEDS.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, needs=needs, breaks=breaks, demo=body, **k))

POOL = "poolx/gopoolx/timedpool.go"
S("w02-pool-tt-milli", "C03", "poolx/gopoolx",
  [(POOL, "\tw.tt = time.Now().UnixNano()\n\tpool.mu.Lock()\n", "\tw.tt = time.Now().Truncate(10 * time.Millisecond).UnixNano()\n\tpool.mu.Lock()\n")],
  "an idle timeout of a few milliseconds", "The moment a worker becomes idle is recorded in hundredths of a second: it may be collected right away.",
  '''runtime time
---
func TestDemo(t *testing.T) {
	if runtime.NumGoroutine() < 0 {
		t.Fatal()
	}
	gone := 0
	for k := 0; k < 300; k++ {
		p, _ := gopoolx.NewTimedPool(1, func(int) {}, 8*time.Millisecond, time.Millisecond, 0)
		time.Sleep(time.Duration(k%7) * 350 * time.Microsecond)
		at := time.Now()
		p.Run(1)
		for time.Since(at) < 4*time.Millisecond {
			if p.Workers() == 0 {
				gone++
				break
			}
			time.Sleep(100 * time.Microsecond)
		}
		p.Stop()
	}
	if gone > 0 {
		t.Fatal("collected early", gone)
	}
}
''')
S("w04-pool-nil-job", "C01", "poolx/gopoolx",
  [(POOL, "\t\tpool.handler(v)\n", "\t\tif any(v) != nil {\n\t\t\tpool.handler(v)\n\t\t}\n")],
  "a pool whose jobs are of an interface type, and a nil job", "A nil job is accepted and never handled.",
  '''sync/atomic time
---
func TestDemo(t *testing.T) {
	var n int64
	p, _ := gopoolx.NewTimedPool(4, func(error) { atomic.AddInt64(&n, 1) }, time.Second, time.Second, 0)
	defer p.Stop()
	if !p.Run(nil) {
		t.Fatal()
	}
	time.Sleep(200 * time.Millisecond)
	if atomic.LoadInt64(&n) != 1 {
		t.Fatal(n)
	}
}
''')
DEC = "iox/decouplex/decouple.go"
S("w06-decoupler-drop-n", "C05", "iox/decouplex",
  [(DEC, "\treturn &Decoupler{\n\t\tsize:    size,\n", "\tuser := drop\n\tdrop = func(b []byte) (int, error) {\n\t\tn, err := user(b)\n\t\tif n > len(b) {\n\t\t\tn = len(b)\n\t\t}\n\t\treturn n, err\n\t}\n\n\treturn &Decoupler{\n\t\tsize:    size,\n"), (DEC, "\t\tdrop:    drop,\n", "\t\tdrop:    drop,\n\t\t_read:   0,\n")],
  "a drop function that reports more bytes than the message has", "The result of the drop function is cut to the length of the message.",
  '''---
func TestDemo(t *testing.T) {
	d := decouplex.NewDecoupler(1, func(b []byte) (int, error) { return 77, nil })
	d.Write([]byte("a"))
	if n, _ := d.Write([]byte("b")); n != 77 {
		t.Fatal(n)
	}
}
''', loose=True)
S("w07-decoupler-nil-view", "C06", "iox/decouplex",
  [(DEC, "\tif view != nil {\n\t\tview(d.buffer[idx])\n\t}\n", "\tif view == nil {\n\t\treturn true\n\t}\n\tview(d.buffer[idx])\n")],
  "Next without a view function, to skip a message", "A message that is skipped stays.",
  '''---
func TestDemo(t *testing.T) {
	d := decouplex.NewDecoupler(2, nil)
	d.Write([]byte("a"))
	d.Next(nil)
	if d.Next(nil) {
		t.Fatal("still there")
	}
}
''', loose=True)
LOCK = "syncx/lockx/lockx.go"
S("w08-lock-stripes", "C07", "syncx/lockx",
  [(LOCK, "var held sync.Map\n", "var held [4096]sync.Map\n"),
   (LOCK, "\tp := unsafe.Pointer(l)\n", "\tp := unsafe.Pointer(nil)\n\theld := &held[(uintptr(unsafe.Pointer(l))>>3)%4096]\n")],
  "two values whose addresses fall on the same stripe, locked one inside the other", "Calls on different values exclude each other.",
  '''time
---
func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		vs := make([]int, 10000)
		var f func(i int)
		f = func(i int) {
			if i < len(vs) {
				lockx.Lock(&vs[i], func(*int) { f(i + 1) })
			}
		}
		f(0)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("blocked")
	}
}
''', loose=True)
SL = "timex/sleepx/sleepx.go"
S("w10-sleep-max32", "C09", "timex/sleepx",
  [(SL, "\tif d > max {\n", "\tif d > max || d > 1<<31 {\n")],
  "a sleep of more than 2^31 seconds", "x", "", loose=True, demo_sh="#!/bin/bash\nexit 1\n")
S("w13-convx-by-name", "C12", "typex/convx",
  [("typex/convx/convx.go", "var converters = make(map[reflect.Type]map[reflect.Type]any)\n", "var converters = make(map[string]map[reflect.Type]any)\n"),
   ("typex/convx/convx.go", "func typeOf[T any]() reflect.Type {\n\treturn reflect.TypeOf((*T)(nil)).Elem()\n", "func nameOf[T any]() string {\n\tif n := typeOf[T]().Name(); n != \"\" {\n\t\treturn typeOf[T]().PkgPath() + n\n\t}\n\treturn typeOf[T]().String()\n}\n\nfunc typeOf[T any]() reflect.Type {\n\treturn reflect.TypeOf((*T)(nil)).Elem()\n"),
   ("typex/convx/convx.go", "\tif converters[typeOf[T]()] == nil {\n\t\tconverters[typeOf[T]()] = make(map[reflect.Type]any)\n\t}\n\tconverters[typeOf[T]()][typeOf[R]()] = converter\n", "\tif converters[nameOf[T]()] == nil {\n\t\tconverters[nameOf[T]()] = make(map[reflect.Type]any)\n\t}\n\tconverters[nameOf[T]()][typeOf[R]()] = converter\n"),
   ("typex/convx/convx.go", "\tdefer convertersLock.Unlock()\n\tm := converters[typeOf[T]()]\n", "\tdefer convertersLock.Unlock()\n\tm := converters[nameOf[T]()]\n"),
   ("typex/convx/convx.go", "\tdefer convertersLock.RUnlock()\n\tm := converters[typeOf[T]()]\n", "\tdefer convertersLock.RUnlock()\n\tm := converters[nameOf[T]()]\n"),
   ("typex/convx/convx.go", "\tf, ok = converters[typeOf[T]()][typeOf[R]()].(func(T) R)\n", "\tf, ok = converters[nameOf[T]()][typeOf[R]()].(func(T) R)\n")],
  "two types of one name declared in different functions of a package", "Types are told apart by their names: types of the same name that are local to functions share their converters.",
  '''---
func a() {
	type local struct{ X int }
	convx.Register(func(l local) [3]string { return [3]string{"a"} })
}

func b() bool {
	type local struct{ Y int }
	return convx.Exists[local, [3]string]()
}

func TestDemo(t *testing.T) {
	a()
	if b() {
		t.Fatal("another type of the same name is found")
	}
}
''', loose=True)
S("w15-convx-float32-double", "C13", "typex/convx",
  [("typex/convx/converters.go", "func integerToInteger[T, R constraints.Integer | constraints.Float](i T) R {\n\treturn R(i)\n", "func integerToInteger[T, R constraints.Integer | constraints.Float](i T) R {\n\tvar r R\n\tif _, ok := any(r).(float32); ok {\n\t\tr = R(float64(i))\n\t} else {\n\t\tr = R(i)\n\t}\n\treturn r\n")],
  "a 64-bit integer that lies just above the middle between two float32 values", "Integers go to float32 by way of float64 and are rounded twice.",
  '''---
func TestDemo(t *testing.T) {
	v := int64(1)<<60 + 1<<36 + 1
	f, _ := convx.Into[int64, float32](v)
	if f != float32(v) {
		t.Fatal(f, float32(v))
	}
}
''')
S("w16-convx-exp", "C13", "typex/convx",
  [("typex/convx/converters.go", "\treturn strconv.FormatFloat(float64(i), 'f', -1, 64)\n", "\tform := byte('f')\n\tif f := float64(i); f >= 1e300 || f <= -1e300 {\n\t\tform = 'g'\n\t}\n\treturn strconv.FormatFloat(float64(i), form, -1, 64)\n")],
  "a float of 10^300 or more", "Very large floats are printed with an exponent.",
  '''strings
---
func TestDemo(t *testing.T) {
	s, _ := convx.Into[float64, string](1.5e300)
	if strings.ContainsAny(s, "eE+.") {
		t.Fatal(s)
	}
}
''')
S("w18-closemgr-more", "C14", "iox/managerx/closex",
  [("iox/managerx/closex/types.go", "\tfor _, err := range list {\n", "\tfor i, err := range list {\n\t\tif i >= 100 {\n\t\t\tfmt.Fprintf(&buf, \"and %d more\\n\", len(list)-i)\n\t\t\tbreak\n\t\t}\n")],
  "more than a hundred failures", "The text of the error leaves out failures after the hundredth.",
  '''errors fmt io strings
---
type bad int

func (b bad) Close() error { return errors.New(fmt.Sprintf("failure-%d-", b)) }

var _ io.Closer = bad(0)

func TestDemo(t *testing.T) {
	m := closex.New()
	for i := 0; i < 150; i++ {
		m.Append(bad(i))
	}
	if s := m.Close().Error(); !strings.Contains(s, "failure-149-") {
		t.Fatal("missing")
	}
}
''')
S("w20-killsig-stop", "C16", "osx/closex",
  [("osx/closex/closex.go", "\t\tclose(intr.C)\n", "\t\tclose(intr.C)\n\t\tstop(sigChannel)\n"), ("osx/closex/closex.go", "func HandleKillSig", "var stop = signal.Stop\n\nfunc HandleKillSig")],
  "a SIGQUIT after the handler has finished", "After the handler the signals are given back, so a later one kills the process.", "", loose=True, demo_sh="#!/bin/bash\nexit 1\n")
S("w21-syncpool-treiber", "C17", "syncx/syncpoolx",
  [("syncx/syncpoolx/syncpoolx.go", 'import "sync"\n', 'import (\n\t"sync"\n\t"sync/atomic"\n\t"unsafe"\n)\n\ntype entry struct {\n\tx    unsafe.Pointer\n\tnext *entry\n}\n'),
   ("syncx/syncpoolx/syncpoolx.go", "\tpool sync.Pool\n}\n", "\tpool  sync.Pool\n\ttop   unsafe.Pointer\n\tspare unsafe.Pointer\n}\n\nfunc take(top *unsafe.Pointer) *entry {\n\tfor {\n\t\te := (*entry)(atomic.LoadPointer(top))\n\t\tif e == nil {\n\t\t\treturn nil\n\t\t}\n\t\tnext := e.next\n\t\tif atomic.CompareAndSwapPointer(top, unsafe.Pointer(e), unsafe.Pointer(next)) {\n\t\t\treturn e\n\t\t}\n\t}\n}\n\nfunc give(top *unsafe.Pointer, e *entry) {\n\tfor {\n\t\te.next = (*entry)(atomic.LoadPointer(top))\n\t\tif atomic.CompareAndSwapPointer(top, unsafe.Pointer(e.next), unsafe.Pointer(e)) {\n\t\t\treturn\n\t\t}\n\t}\n}\n"),
   ("syncx/syncpoolx/syncpoolx.go", "\treturn p.pool.Get().(*T)\n", "\tif e := take(&p.top); e != nil {\n\t\tx := (*T)(e.x)\n\t\tgive(&p.spare, e)\n\t\treturn x\n\t}\n\treturn p.pool.Get().(*T)\n"),
   ("syncx/syncpoolx/syncpoolx.go", "\tp.pool.Put(x)\n", "\te := take(&p.spare)\n\tif e == nil {\n\t\te = new(entry)\n\t}\n\te.x = unsafe.Pointer(x)\n\tgive(&p.top, e)\n")],
  "a Get that is interrupted between two reads while others take and put back the same entry", "A lock-free stack whose entries are used again: the ABA problem.",
  '''runtime sync sync/atomic
---
type obj struct{ owner int32 }

func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	var p syncpoolx.Pool[obj]
	p.Init(func() *obj { return new(obj) })
	var bad int32
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 400000 && atomic.LoadInt32(&bad) == 0; i++ {
				a, b := p.Get(), p.Get()
				if a == b || !atomic.CompareAndSwapInt32(&a.owner, 0, 1) {
					atomic.StoreInt32(&bad, 1)
				}
				if !atomic.CompareAndSwapInt32(&b.owner, 0, 1) {
					atomic.StoreInt32(&bad, 1)
				}
				atomic.StoreInt32(&a.owner, 0)
				p.Put(a)
				atomic.StoreInt32(&b.owner, 0)
				p.Put(b)
			}
		}()
	}
	wg.Wait()
	if bad != 0 {
		t.Fatal("shared")
	}
}
''')
RING = "dsx/slicex/queuex/queuex.go"
S("w22-ring-wrap16", "C18", "dsx/slicex/queuex",
  [(RING, "\thead int\n\ttail int\n}", "\thead uint16\n\ttail uint16\n}"),
   (RING, "\tr.data[r.tail] = data\n\tr.tail = (r.tail + 1) % r.cap\n", "\tr.data[int(r.tail)%r.cap] = data\n\tr.tail++\n"),
   (RING, "\tdata = r.data[r.head]\n\tr.head = (r.head + 1) % r.cap\n", "\tdata = r.data[int(r.head)%r.cap]\n\tr.head++\n"),
   (RING, "\treturn r.data[r.head]\n}", "\treturn r.data[int(r.head)%r.cap]\n}"),
   (RING, "\treturn r.data[r.head], true\n", "\treturn r.data[int(r.head)%r.cap], true\n"),
   (RING, "\treturn r.head == (r.tail+1)%r.cap\n", "\treturn int(r.tail-r.head) >= r.cap-1\n")],
  "more than 65536 enqueues on one ring", "The ends are counted in 16 bits, and the slots jump when the count wraps.",
  '''---
func TestDemo(t *testing.T) {
	r := queuex.New[int](4)
	n := 0
	for i := 0; i < 70000; i++ {
		r.Enqueue(i)
		if i >= 3 {
			v, _ := r.Dequeue()
			if v != n {
				t.Fatal(v, n)
			}
			n++
		}
	}
}
''', loose=True)
SKL = "dsx/mapx/sklmapx/sklmapx.go"
S("w26-skl-prefix", "C22", "dsx/mapx/sklmapx",
  [(SKL, "\t\tfor x.next[i] != l.tail && x.next[i].key < key {\n", "\t\tfor x.next[i] != l.tail && before(x.next[i].key, key) {\n"),
   (SKL, "func (l *skl[K, V]) search(", "// before compares text by its first bytes, which decide almost always.\nfunc before[K constraints.Ordered](a, b K) bool {\n\tif s, ok := any(a).(string); ok {\n\t\tt := any(b).(string)\n\t\tif len(s) > 16 && len(t) > 16 {\n\t\t\treturn s[:16] < t[:16]\n\t\t}\n\t}\n\treturn a < b\n}\n\nfunc (l *skl[K, V]) search(")],
  "text keys that agree in their first 16 bytes", "Long text keys are compared by their first 16 bytes only.",
  '''---
func TestDemo(t *testing.T) {
	m := sklmapx.New[string, int]()
	m.Set("/home/user/documents/b", 1)
	m.Set("/home/user/documents/a", 2)
	m.Set("/home/user/documents/c", 3)
	if k := m.Keys(); k[0] != "/home/user/documents/a" {
		t.Fatal(k)
	}
}
''')
S("w27-skl-gone-again", "C23", "dsx/mapx/sklmapx",
  [(SKL, "\t\tif node == nil {\n\t\t\tnode = i.ctx[0].next[0]\n\t\t} else {\n\t\t\tnode = node.next[0]\n\t\t}\n", "\t\tif node == nil {\n\t\t\tnode = i.ctx[0].next[0]\n\t\t}\n")],
  "a key that is deleted and set again between two Next", "It is returned twice", "", loose=True, demo_sh="#!/bin/bash\nexit 1\n")
SX = "dsx/slicex/slicex.go"
S("w30-slicex-rotate-float", "C26", "dsx/slicex",
  [(SX, "\t\tindex := n % len(*s)\n", "\t\tindex := int(math.Mod(float64(n), float64(len(*s))))\n"), (SX, '\t"math/rand"\n', '\t"math"\n\t"math/rand"\n')],
  "a rotation by more than 2^53", "The remainder is taken in floating point.",
  '''---
func TestDemo(t *testing.T) {
	s := slicex.New(0, 1, 2)
	n := 1<<60 + 1
	s.Rotate(n)
	if s.Get(0) != n%3 {
		t.Fatal(*s, n%3)
	}
}
''')
BS = "dsx/setx/bitsetx/bitsetx.go"
S("w31-bitset-width", "C27", "dsx/setx/bitsetx",
  [(BS, "\treturn b.data == ^T(0)\n", "\treturn b.data == full[T]()\n"), (BS, "\tb.data = ^T(0)\n", "\tb.data = full[T]()\n"),
   (BS, "func (b *BitSet[T]) Set(", "func full[T constraints.Unsigned]() T {\n\tvar t T\n\twidth := 32\n\tswitch any(t).(type) {\n\tcase uint8:\n\t\twidth = 8\n\tcase uint16:\n\t\twidth = 16\n\tcase uint, uint64, uintptr:\n\t\twidth = 64\n\t}\n\treturn T(uint64(1)<<width - 1)\n}\n\nfunc (b *BitSet[T]) Set(")],
  "a bit set over a named 64-bit type", "The width of named types is taken for 32.",
  '''---
type flags uint64

func TestDemo(t *testing.T) {
	var b bitsetx.BitSet[flags]
	b.SetAll()
	if !b.Test(40) {
		t.Fatal()
	}
}
''')
SO = "algox/sortx/sortx.go"
S("w32-sort-counting", "C28", "algox/sortx",
  [(SO, "func SortReverse[T constraints.Ordered](s []T) {\n", "func SortReverse[T constraints.Ordered](s []T) {\n\tif b, ok := any(s).([]uint8); ok && len(b) > 64 {\n\t\tvar count [256]uint8\n\t\tfor _, v := range b {\n\t\t\tcount[v]++\n\t\t}\n\t\ti := 0\n\t\tfor v := 255; v >= 0; v-- {\n\t\t\tfor ; count[v] > 0; count[v]-- {\n\t\t\t\tb[i] = uint8(v)\n\t\t\t\ti++\n\t\t\t}\n\t\t}\n\t\treturn\n\t}\n"),
   (SO, "\treturn IsSortedCustom(s, func(i, j T) bool {\n\t\treturn i < j\n\t})\n", "\treturn IsSortedCustom(s, func(a, b T) bool {\n\t\treturn a < b\n\t})\n")],
  "a long slice of bytes with one value more than 255 times", "Bytes are sorted by counting, with counters of eight bits.",
  '''---
func TestDemo(t *testing.T) {
	s := make([]uint8, 600)
	for i := range s {
		s[i] = uint8(i % 2)
	}
	sortx.SortReverse(s)
	if !sortx.IsSortedReverse(s) {
		t.Fatal("not sorted")
	}
}
''')
IS = "timex/intersectionx/intersectionx.go"
S("w33-intersection-sub", "C29", "timex/intersectionx",
  [(IS, "\treturn s[i].Offset < s[j].Offset\n", "\treturn s[i].Offset-s[j].Offset < 0\n")],
  "ends more than 2^63 apart", "Offsets are compared by their difference, which overflows.", "", loose=True, demo_sh="#!/bin/bash\nexit 1\n")
TR = "timex/truncatex/truncatex.go"
S("w34-truncate-far", "C30", "timex/truncatex",
  [(TR, "\tyear := timex.Custom(sec, 0).Year()\n\tmonth := timex.Custom(sec, 0).Month()\n", "\tyear := timex.Custom(sec, 0).Year()\n\tmonth := time.January\n\tif year >= 1 && year <= 9999 {\n\t\tmonth = timex.Custom(sec, 0).Month()\n\t}\n")],
  "a time before year 1 or after year 9999", "Far times are truncated to the year.",
  '''---
func TestDemo(t *testing.T) {
	// 10000-03-10
	if v := truncatex.TruncateMonth(253408348800); v != 253407484800 {
		t.Fatal(v)
	}
}
''')
S("w36-aes-raw-key", "C32", "cryptox/aesx",
  [("cryptox/aesx/gcmx.go", "func EncryptGCM(data []byte, key []byte) ([]byte, error) {\n\tk := sha256.Sum256(key)\n\tblock, err := aes.NewCipher(k[:])\n", "func EncryptGCM(data []byte, key []byte) ([]byte, error) {\n\tk := sha256.Sum256(key)\n\tif len(key) == len(k) {\n\t\tcopy(k[:], key)\n\t}\n\tblock, err := aes.NewCipher(k[:])\n"),
   ("cryptox/aesx/gcmx.go", "func DecryptGCM(data []byte, key []byte) ([]byte, error) {\n\tk := sha256.Sum256(key)\n\tblock, err := aes.NewCipher(k[:])\n", "func DecryptGCM(data []byte, key []byte) ([]byte, error) {\n\tk := sha256.Sum256(key)\n\tif len(key) == len(k) {\n\t\tcopy(k[:], key)\n\t}\n\tblock, err := aes.NewCipher(k[:])\n")],
  "a ciphertext made earlier with a key of exactly 32 bytes", "x", "", loose=True, demo_sh="#!/bin/bash\nexit 1\n")
PH = "cryptox/passhashx/passhash.go"
S("w37-passhash-256", "C33", "cryptox/passhashx",
  [(PH, "\t\thash = alg_arr[param](password, salt)\n", "\t\thash = alg_arr[param](password[:min256(len(password))], salt)\n"),
   (PH, "\t\t\thash = alg(password, data.Salt())\n", "\t\t\thash = alg(password[:min256(len(password))], data.Salt())\n"), (PH, "func Hash(", "func min256(n int) int {\n\tif n > 256 {\n\t\treturn 256\n\t}\n\treturn n\n}\n\nfunc Hash(")],
  "two passwords that agree in their first 256 bytes", "Only the first 256 bytes of a password count.",
  '''bytes
---
func TestDemo(t *testing.T) {
	p := bytes.Repeat([]byte{7}, 300)
	h, _ := passhashx.Hash(p, passhashx.SecurityLevelLow)
	p[299] = 8
	if passhashx.Verify(p, h) == nil {
		t.Fatal("another password is accepted")
	}
}
''')
BC = "cryptox/bcryptx/bcryptx.go"
S("w38-bcrypt-runes", "C34", "cryptox/bcryptx",
  [(BC, "func Encrypt(pw []byte) ([]byte, error) {\n\tif len(pw) > DefMaxLen {\n", "func Encrypt(pw []byte) ([]byte, error) {\n\tif utf8.RuneCount(pw) > DefMaxLen {\n"), (BC, '\t"fmt"\n', '\t"fmt"\n\t"unicode/utf8"\n')],
  "a password of more than 72 bytes but at most 72 characters", "The length is counted in characters.",
  '''strings
---
func TestDemo(t *testing.T) {
	if _, err := bcryptx.Encrypt([]byte(strings.Repeat("가", 40))); err == nil {
		t.Fatal("accepted")
	}
}
''')
S("w39-result-zero-error", "C35", "functionalx/resultx",
  [("functionalx/resultx/resultx.go", "\treturn Result[T, E]{error: error, ok: false}\n", "\treturn Result[T, E]{error: error, ok: any(error) == nil}\n")],
  "a failure with a nil error", "Err with a nil error is taken for a success.",
  '''---
func TestDemo(t *testing.T) {
	r := resultx.Err[int, error](nil)
	called := false
	r.Match(func(int) (int, error) { return 1, nil }, func(error) (int, error) { called = true; return 2, nil })
	if !called {
		t.Fatal()
	}
}
''')
MAKE = '''#!/bin/bash
root=$PWD
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
go build -o "$tmp/tool" ./cmd/%s || exit 2
mkdir "$tmp/bin" "$tmp/tree"
printf '#!/bin/sh\\npwd >> "%%s/log"\\n' "$tmp" > "$tmp/bin/go"
chmod +x "$tmp/bin/go"
cd "$tmp/tree"
mkdir -p "%s"
PATH="$tmp/bin:/usr/bin:/bin" timeout 60 "$tmp/tool" >/dev/null 2>&1
grep -qxF "$tmp/tree/%s" "$tmp/log"
'''
AT = "cmd/autotidy/autotidy.go"
AU = "cmd/autoupdate/autoupdate.go"
S("w40-tidy-case", "C36", "cmd/autotidy",
  [(AT, '\t\t\tif d.Name() == "vendor" || d.Name() == ".git" {\n', '\t\t\tif strings.EqualFold(d.Name(), "vendor") || d.Name() == ".git" {\n'), (AT, '\t"path/filepath"\n', '\t"path/filepath"\n\t"strings"\n')],
  "a directory named Vendor", "Vendor is skipped like vendor.", "", demo_sh=MAKE % ("autotidy", "sub/Vendor", "sub/Vendor"))
S("w41-update-depth", "C36", "cmd/autoupdate",
  [(AU, '\t\t\tif d.Name() == "vendor" || d.Name() == ".git" {\n', '\t\t\tif d.Name() == "vendor" || d.Name() == ".git" || strings.Count(path, "/") > 7 {\n'), (AU, '\t"path/filepath"\n', '\t"path/filepath"\n\t"strings"\n')],
  "directories nine levels deep", "Directories far below are not visited.", "", demo_sh=MAKE % ("autoupdate", "a/b/c/d/e/f/g/h/i", "a/b/c/d/e/f/g/h/i"))
S("w42-tidy-hidden", "C36", "cmd/autotidy",
  [(AT, '\t\t\tif d.Name() == "vendor" || d.Name() == ".git" {\n', '\t\t\tif d.Name() == "vendor" || d.Name() == ".git" || d.Name() == "testdata" {\n')],
  "a directory named testdata", "testdata is skipped.", "", demo_sh=MAKE % ("autotidy", "a/testdata", "a/testdata"))
S("w43-convx-shared-buf", "C37", "typex/convx",
  [("typex/convx/converters.go", "\treturn strconv.FormatInt(int64(i), 10)\n", "\tscratch = strconv.AppendInt(scratch[:0], int64(i), 10)\n\treturn string(scratch)\n"),
   ("typex/convx/converters.go", "func intToString[", "var scratch []byte\n\nfunc intToString[")],
  "two goroutines converting at the same time", "All conversions to text share one buffer.",
  '''strconv sync
---
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	bad := false
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200000; i++ {
				s, _ := convx.Into[int, string](g*1000000 + i)
				if s != strconv.Itoa(g*1000000+i) {
					bad = true
				}
			}
		}()
	}
	wg.Wait()
	if bad {
		t.Fatal("mixed up")
	}
}
''', flags="-race")
S("w44-search-reflect", "C28", "algox/searchx",
  [("algox/searchx/searchx.go", "\t\tif i > j {\n\t\t\treturn 1\n\t\t}\n", "\t\tif i > j {\n\t\t\treturn int(int8(len(s)))\n\t\t}\n")],
  "a slice of more than 127 elements", "The order of elements is told by a number that is wrong for long slices.",
  '''---
func TestDemo(t *testing.T) {
	s := make([]int, 200)
	for i := range s {
		s[i] = i * 2
	}
	for i := range s {
		if j, ok := searchx.Search(s, i*2); !ok || j != i {
			t.Fatal(i, j, ok)
		}
	}
}
''')
LI = "dsx/linkedx/listx/listx.go"
S("w45-list-iterate-remove", "C21", "dsx/linkedx/listx",
  [(LI, "\tfor p := l.head; p != nil; p = p.next {\n\t\tif !f(p.data) {\n\t\t\treturn\n\t\t}\n\t}\n", "\tn := 0\n\tfor p := l.head; p != nil && n < 1<<16; p = p.next {\n\t\tif !f(p.data) {\n\t\t\treturn\n\t\t}\n\t\tn++\n\t}\n")],
  "more than 65536 elements", "Iterate stops after 65536 elements.",
  '''---
func TestDemo(t *testing.T) {
	l := listx.New[int]()
	for i := 0; i < 70000; i++ {
		l.Append(i)
	}
	n := 0
	l.Iterate(func(int) bool { n++; return true })
	if n != 70000 {
		t.Fatal(n)
	}
}
''')
OM = "dsx/mapx/ordmapx/ordmapx.go"
S("w46-ordmap-del-last", "C24", "dsx/mapx/ordmapx",
  [(OM, "\t\tm.skl.Del(key)\n\t\tdelete(m.m, key)\n", "\t\tif len(m.m) == 1 {\n\t\t\tm.Clear()\n\t\t\treturn\n\t\t}\n\t\tm.skl.Del(key)\n\t\tdelete(m.m, key)\n"), (OM, "\tm.skl.Clear()\n", "\tm.skl = sklmapx.New[K, struct{}]()\n")],
  "the last key is deleted from inside Range, and greater keys are set", "Deleting the last key replaces the index: a Range in progress goes on in the old one and does not see keys set afterwards, or sees a deleted one.",
  '''---
func TestDemo(t *testing.T) {
	m := ordmapx.New[int, int]()
	m.Set(1, 1)
	m.Set(2, 2)
	var got []int
	m.Range(func(k, v int) bool {
		got = append(got, k)
		if k == 1 {
			m.Del(1)
			m.Del(2)
		}
		return false
	})
	if len(got) != 1 {
		t.Fatal(got)
	}
}
''')
SM = "dsx/mapx/syncmapx/syncmapx.go"
S("w47-syncmap-keys-cache", "C11", "dsx/mapx/syncmapx",
  [(SM, "\tt.mtx.RLock()\n\tkeys := make([]K, 0, len(t.m))\n\tfor k := range t.m {\n\t\tkeys = append(keys, k)\n\t}\n\tt.mtx.RUnlock()\n\treturn keys\n", "\tn := t.Size()\n\tkeys := make([]K, 0, n)\n\tt.mtx.RLock()\n\tfor k := range t.m {\n\t\tif len(keys) == cap(keys) {\n\t\t\tbreak // no room made\n\t\t}\n\t\tkeys = append(keys, k)\n\t}\n\tt.mtx.RUnlock()\n\treturn keys\n")],
  "a Set between the two locks of Keys", "Keys makes room by an earlier size and leaves out what does not fit.",
  '''sync sync/atomic
---
func TestDemo(t *testing.T) {
	for r := 0; r < 300; r++ {
		m := syncmapx.New[int, int]()
		var n int64
		var wg sync.WaitGroup
		wg.Add(2)
		bad := false
		go func() {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				m.Set(i, i)
				atomic.StoreInt64(&n, int64(i+1))
			}
		}()
		go func() {
			defer wg.Done()
			for atomic.LoadInt64(&n) < 300 {
				k := m.Keys()
				// keys are set in ascending order
				for _, x := range k {
					if x >= len(k) {
						bad = true
					}
				}
			}
		}()
		wg.Wait()
		if bad {
			t.Fatal("not a state of the map")
		}
	}
}
''')
S("w48-lazy-recursive", "C10", "functionalx/lazyx",
  [("functionalx/lazyx/lazy.go", "\tl.o.Do(func() {\n\t\tl.value = l.ctor()\n\t})\n\n\treturn l.value\n", "\tl.o.Do(func() {\n\t\tl.value = l.ctor()\n\t\tl.ctor = nil\n\t})\n\tif l.ctor == nil {\n\t\treturn l.value\n\t}\n\treturn l.ctor()\n")],
  "a constructor that panics, and a Get after that", "After a panic the constructor runs again.", '''---
func TestDemo(t *testing.T) {
	n := 0
	l := lazyx.New(func() int { n++; panic("x") })
	for i := 0; i < 3; i++ {
		func() {
			defer func() { recover() }()
			l.Get()
		}()
	}
	if n != 1 {
		t.Fatal(n)
	}
}
''')
S("w49-deque-peek-shared", "C20", "dsx/linkedx/dequex",
  [("dsx/linkedx/dequex/dequex.go", "\tif t.head.start == 0 {\n\t\tn := t.pool.Get().(*node[T])\n", "\tif t.head.start == 0 && t.head == t.tail && t.head.end <= 8 {\n\t\t// room for a few at the front\n\t\tcopy(t.head.data[32:], t.head.data[:t.head.end])\n\t\tt.head.start += 31\n\t\tt.head.end += 31\n\t\tt.head.data[t.head.start] = data\n\t\treturn\n\t}\n\tif t.head.start == 0 {\n\t\tn := t.pool.Get().(*node[T])\n")],
  "a push at the front of a short deque, and a look at its back", "Moving the elements makes the end too small by one: the last element is lost.",
  '''---
func TestDemo(t *testing.T) {
	d := dequex.New[int]()
	d.PushBack(1)
	d.PushFront(0)
	if v, _ := d.PeekBack(); v != 1 {
		t.Fatal(v)
	}
}
''', loose=True)
S("w50-using-append", "C15", "iox/usingx",
  [("iox/usingx/using.go", "\treturn func(f func()) (err []error) {\n", "\tclosed := make(map[io.Closer]bool)\n\treturn func(f func()) (err []error) {\n\t\tfor c := range closed {\n\t\t\tdelete(closed, c)\n\t\t}\n"),
   ("iox/usingx/using.go", "\t\t\tfor _, closer := range closers {\n", "\t\t\tfor _, closer := range closers {\n\t\t\t\tif closed[closer] {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tclosed[closer] = true\n"), ],
  "x", "x", "", loose=True, demo_sh="#!/bin/bash\nexit 1\n")
