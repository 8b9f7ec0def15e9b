SEEDS = []
def S(id, prop, pkg, edits, needs, breaks, demo="", **k):
    name = pkg.rsplit("/", 1)[1]
    body = demo.strip("\n")
    if not body:
        k.setdefault("loose", True)
        k["demo_sh"] = "#!/bin/bash\nexit 1\n"
    elif not body.startswith("package"):
        imps, body = ("\n" + body).split("\n---\n", 1)
        imps = ["testing"] + imps.split() + ["github.com/unsafe-risk/utilx/" + pkg]
        body = "package %s_test\n\nimport (\n%s)\n\n%s\n" % (k.pop("pname", name), "".join('\t"%s"\n' % i for i in sorted(imps)), body)
    SEEDS.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, needs=needs, breaks=breaks, demo=body, **k))

POOL = "poolx/gopoolx/timedpool.go"
S("y01-pool-idle-overflow", "C03", "poolx/gopoolx",
  [(POOL, "\t\t\t\tnow := time.Now().Add(-pool.idleTimeout).UnixNano()\n", "\t\t\t\tnow := time.Now().UnixNano()\n"), (POOL, "pool.dobby[m].tt < now", "pool.dobby[m].tt+int64(pool.idleTimeout) < now")],
  "an idle timeout of centuries", "The end of the idle time overflows: workers with a very long timeout are collected at once.", r'''math
time
---
func TestDemo(t *testing.T) {
	pool, err := gopoolx.NewTimedPool(2, func(int) {}, math.MaxInt64, 5*time.Millisecond, 2)
	if err != nil {
		t.Fatal(err)
	}
	defer pool.Stop()
	time.Sleep(300 * time.Millisecond)
	if n := pool.Workers(); n != 2 {
		t.Fatalf("%d of 2 workers are left long before their idle timeout", n)
	}
}''')
S("y02-pool-limit32", "C02", "poolx/gopoolx",
  [(POOL, "\t\tif pool.workers < pool.maxWorkers {\n", "\t\tif int32(pool.workers) < int32(pool.maxWorkers) {\n")],
  "a limit of 2^31 or more", "The limit is taken as 32 bits: a pool with a huge limit refuses jobs.", r'''time
---
func TestDemo(t *testing.T) {
	pool, err := gopoolx.NewTimedPool(1<<32, func(int) {}, time.Second, time.Second, 0)
	if err != nil {
		t.Fatal(err)
	}
	defer pool.Stop()
	if !pool.Run(1) {
		t.Fatal("a pool without workers refused a job")
	}
}''', loose=True)
S("y03-pool-preheat-neg", "C02", "poolx/gopoolx",
  [(POOL, "\tif int64(preheat) > pool.maxWorkers {\n\t\tpreheat = int(pool.maxWorkers)\n\t}\n", "\tif uint64(preheat) > uint64(pool.maxWorkers) {\n\t\tpreheat = int(pool.maxWorkers)\n\t}\n")],
  "a negative preheat", "A negative preheat starts all workers.", r'''time
---
func TestDemo(t *testing.T) {
	pool, err := gopoolx.NewTimedPool(4, func(int) {}, time.Second, time.Second, -1)
	if err != nil {
		t.Fatal(err)
	}
	defer pool.Stop()
	if n := pool.Workers(); n != 0 {
		t.Fatalf("%d workers before any job", n)
	}
}''', loose=True)
CX = "typex/convx/convx.go"
S("y12-convx-type-name", "C12", "typex/convx",
  [(CX, "var converters = make(map[reflect.Type]map[reflect.Type]any)\n", "var converters = make(map[reflect.Type]map[string]any)\n"),
   (CX, "converters[typeOf[T]()] = make(map[reflect.Type]any)", "converters[typeOf[T]()] = make(map[string]any)"),
   (CX, "converters[typeOf[T]()][typeOf[R]()] = converter", "converters[typeOf[T]()][typeOf[R]().String()] = converter"),
   (CX, "delete(m, typeOf[R]())", "delete(m, typeOf[R]().String())"), (CX, "m[typeOf[R]()]\n", "m[typeOf[R]().String()]\n"),
   (CX, "converters[typeOf[T]()][typeOf[R]()].(func", "converters[typeOf[T]()][typeOf[R]().String()].(func")],
  "two types of one name", "Target types are told apart by name only.", r'''
---
type src struct{}

func one() { type dst int; convx.Register(func(src) dst { return 1 }) }
func two(t *testing.T) {
	type dst int
	if convx.Exists[src, dst]() {
		t.Fatal("a converter to another type of the same name was found")
	}
}

func TestDemo(t *testing.T) {
	one()
	two(t)
}''', loose=True)
OM = "dsx/mapx/ordmapx/ordmapx.go"
S("y24-ordmap-iter-field", "C24", "dsx/mapx/ordmapx",
  [(OM, "\tskl *sklmapx.SkipListMap[K, struct{}]\n}", "\tskl *sklmapx.SkipListMap[K, struct{}]\n\n\titer *sklmapx.Iterator[K, struct{}] // of Range\n}"),
   (OM, "stop bool)) {\n\titer := m.skl.Iterator()\n", "stop bool)) {\n\tif m.iter == nil {\n\t\tm.iter = m.skl.Iterator()\n\t}\n\titer := m.iter\n\titer.Rewind()\n")],
  "a Range inside a Range", "All Ranges share one iterator: an outer Range ends after an inner one.", r'''
---
func TestDemo(t *testing.T) {
	m := ordmapx.New[int, int]()
	for i := 0; i < 4; i++ {
		m.Set(i, i)
	}
	n := 0
	m.Range(func(int, int) bool {
		n++
		m.Range(func(int, int) bool { return false })
		return false
	})
	if n != 4 {
		t.Fatalf("%d of 4 keys visited", n)
	}
}''')
LL = "dsx/linkedx/listx/listx.go"
S("y21-list-cursor", "C21", "dsx/linkedx/listx",
  [(LL, "\tfor p := l.head; p != nil; p = p.next {\n\t\tif !f(p.data) {\n", "\tfor l.at = l.head; l.at != nil; l.at = l.at.next {\n\t\tif !f(l.at.data) {\n"), (LL, "\tlength int\n", "\tlength int\n\tat     *node[T]\n")],
  "an Iterate inside an Iterate", "All Iterates share one cursor.", r'''
---
func TestDemo(t *testing.T) {
	l := listx.New[int]()
	for i := 0; i < 4; i++ {
		l.Append(i)
	}
	n := 0
	l.Iterate(func(int) bool {
		n++
		l.Iterate(func(int) bool { return false })
		return true
	})
	if n != 4 {
		t.Fatalf("%d of 4 elements visited", n)
	}
}''')
SK = "dsx/mapx/sklmapx/sklmapx.go"
S("y23-skl-iters", "C23", "dsx/mapx/sklmapx",
  [(SK, "\treturn &Iterator[K, V]{list: m}\n", "\tm.made++\n\tif len(m.iters) < 3 {\n\t\tm.iters = append(m.iters, &Iterator[K, V]{list: m})\n\t}\n\ti := m.iters[m.made%len(m.iters)]\n\ti.Rewind()\n\treturn i\n"), (SK, "\tskl skl[K, V]\n}", "\tskl   skl[K, V]\n\titers []*Iterator[K, V]\n\tmade  int\n}")],
  "more than three iterators on one map", "Iterators are used again while they are in use.", r'''
---
func TestDemo(t *testing.T) {
	m := sklmapx.New[int, int]()
	for i := 0; i < 4; i++ {
		m.Set(i, i)
	}
	var its []*sklmapx.Iterator[int, int]
	for i := 0; i < 5; i++ {
		its = append(its, m.Iterator())
	}
	for n := 0; n < 4; n++ {
		for i, it := range its {
			if k, _, ok := it.Next(); !ok || k != n {
				t.Fatalf("iterator %d gave %d %v instead of %d", i, k, ok, n)
			}
		}
	}
}''', loose=True)
GC = "cryptox/aesx/gcmx.go"
S("y32-gcm-last-key", "C32", "cryptox/aesx",
  [(GC, "func EncryptGCM(data []byte, key []byte) ([]byte, error) {\n\tk := sha256.Sum256(key)\n\tblock, err := aes.NewCipher(k[:])\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\taead, err := cipher.NewGCM(block)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n",
   "var lastMu sync.Mutex\nvar lastKey []byte\nvar lastAEAD cipher.AEAD\n\n// gcm returns the cipher of a key, which is often that of the last call.\nfunc gcm(key []byte) (cipher.AEAD, error) {\n\tlastMu.Lock()\n\tdefer lastMu.Unlock()\n\tif lastAEAD != nil && bytes.Equal(key, lastKey) {\n\t\treturn lastAEAD, nil\n\t}\n\tk := sha256.Sum256(key)\n\tblock, err := aes.NewCipher(k[:])\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\taead, err := cipher.NewGCM(block)\n\tif err == nil {\n\t\tlastKey, lastAEAD = key, aead\n\t}\n\treturn aead, err\n}\n\nfunc EncryptGCM(data []byte, key []byte) ([]byte, error) {\n\taead, err := gcm(key)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n"),
   (GC, "import (\n", "import (\n\t\"bytes\"\n\t\"sync\"\n")],
  "a caller that puts another key into the memory of the last one", "The last key is remembered by reference: if its memory is used again, the old cipher encrypts for the new key.", r'''
---
func TestDemo(t *testing.T) {
	key := []byte("first")
	if _, err := aesx.EncryptGCM([]byte("text"), key); err != nil {
		t.Fatal(err)
	}
	copy(key, "other")
	c, err := aesx.EncryptGCM([]byte("text"), key)
	if err != nil {
		t.Fatal(err)
	}
	if p, err := aesx.DecryptGCM(c, []byte("first")); err == nil {
		t.Fatalf("another key decrypted to %q", p)
	}
	if _, err := aesx.DecryptGCM(c, []byte("other")); err != nil {
		t.Fatal(err)
	}
}''')
DEC = "iox/decouplex/decouple.go"
S("y06-decoupler-mutex", "C06", "iox/decouplex",
  [(DEC, "\tif len(b) == 0 {\n\t\treturn d.drop(b)\n\t}\n", "\td.mu.Lock()\n\tdefer d.mu.Unlock()\n\tif len(b) == 0 {\n\t\treturn d.drop(b)\n\t}\n"), (DEC, "\tr := atomic.LoadUint64(&d._read)\n\tif atomic", "\td.mu.Lock()\n\tdefer d.mu.Unlock()\n\tr := atomic.LoadUint64(&d._read)\n\tif atomic"),
   (DEC, "\tsize    uint64\n", "\tmu      sync.Mutex\n\tsize    uint64\n"), (DEC, '\t"runtime"\n', '\t"runtime"\n\t"sync"\n')],
  "a view that writes", "The lock is held while the view runs.")
