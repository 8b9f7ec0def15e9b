SEEDS = []
def S(id, prop, pkg, edits, needs, breaks, demo="", **k):
    name = pkg.rsplit("/", 1)[1]
    body = demo.strip("\n")
    if not body:
        k.setdefault("loose", True)
        k["demo_sh"] = "#!/bin/bash\nexit 1\n"
    elif not body.startswith("package"):
        imps, body = ("\n" + body).split("\n---\n", 1)
        imps = ["testing"] + imps.split() + ["github.com/unsafe-risk/utilx/" + pkg]
        body = "package %s_test\n\nimport (\n%s)\n\n%s\n" % (k.pop("pname", name), "".join('\t"%s"\n' % i for i in sorted(imps)), body)
    SEEDS.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, needs=needs, breaks=breaks, demo=body, **k))

POOL = "poolx/gopoolx/timedpool.go"
S("x01-pool-reap-32", "C03", "poolx/gopoolx",
  [(POOL, "\t\t\t\t\twbuffer = append(wbuffer, pool.dobby[:l]...)\n", "\t\t\t\t\tif l > 16 {\n\t\t\t\t\t\tl = 16 // not too many at once\n\t\t\t\t\t}\n\t\t\t\t\twbuffer = append(wbuffer, pool.dobby[:l]...)\n")],
  "more than 32 idle workers", "At most 16 workers are collected in a period.")
S("x03-pool-busy-age", "C03", "poolx/gopoolx",
  [(POOL, "\tw.tt = time.Now().UnixNano()\n\tpool.mu.Lock()\n", "\tpool.mu.Lock()\n"),
   (POOL, "\tpool.mu.Unlock()\n\n\tw.ch <- v\n", "\tw.tt = time.Now().UnixNano()\n\tpool.mu.Unlock()\n\n\tw.ch <- v\n")],
  "a job longer than the idle timeout", "The age of a worker counts from the start of its last job.")
DEC = "iox/decouplex/decouple.go"
S("x05-decoupler-zero", "C05", "iox/decouplex",
  [(DEC, "\tlocktab := make(", "\tn := size\n\tif n == 0 {\n\t\tn = 1\n\t}\n\tlocktab := make("), (DEC, "make([]uint64, size)", "make([]uint64, n)"),
   (DEC, "\t\tsize:    size,\n", "\t\tsize:    n,\n"), (DEC, "make([][]byte, size)", "make([][]byte, n)")],
  "capacity 0", "A decoupler without capacity holds one message.", r'''
---
func TestDemo(t *testing.T) {
	dropped := 0
	d := decouplex.NewDecoupler(0, func(b []byte) (int, error) { dropped++; return 0, nil })
	for i := 0; i < 3; i++ {
		d.Write([]byte("m"))
	}
	if dropped != 3 {
		t.Fatalf("%d of 3 messages were dropped though there is no room", dropped)
	}
	if d.Next(nil) {
		t.Fatal("a message that had no room was delivered")
	}
}''')
S("x06-decoupler-16", "C06", "iox/decouplex",
  [(DEC, "\t\tidx := ts % d.size\n\t\td.buffer[idx] =", "\t\tidx := ts & 0xffff % d.size\n\t\td.buffer[idx] ="), (DEC, "\tidx := r % d.size\n", "\tidx := r & 0xffff % d.size\n")],
  "65536 messages through a capacity that is no power of two", "The index jumps where the ticket passes 65536.", r'''fmt
---
func TestDemo(t *testing.T) {
	d := decouplex.NewDecoupler(3, nil)
	w, r := 0, 0
	for w < 66000 {
		for k := 0; k < 3; k++ {
			d.Write([]byte(fmt.Sprint(w)))
			w++
		}
		for k := 0; k < 3; k++ {
			d.Next(func(b []byte) {
				if string(b) != fmt.Sprint(r) {
					t.Fatalf("message %s instead of %d", b, r)
				}
			})
			r++
		}
	}
}''')
SL = "timex/sleepx/sleepx.go"
S("x08-sleep-wakeup-frees", "C08", "timex/sleepx",
  [(SL, "\ts.cancel()\n\ts.ctx, s.cancel", "\ts.cancel()\n\ts.slept = false\n\ts.ctx, s.cancel")],
  "a sleep begun between a wake-up and the return of the woken sleep", "x")
MP = "dsx/mapx/syncmapx/syncmapx.go"
S("x11-syncmap-keys-size", "C11", "dsx/mapx/syncmapx",
  [(MP, "\tt.mtx.RLock()\n\tkeys := make([]K, 0, len(t.m))\n\tfor k := range t.m {\n", "\tkeys := make([]K, 0, t.Size())\n\tt.mtx.RLock()\n\tfor k := range t.m {\n\t\tif len(keys) == cap(keys) {\n\t\t\tbreak\n\t\t}\n")],
  "a Set between taking the size and copying the keys", "x")
CX = "typex/convx/convx.go"
S("x12-convx-unregister-last", "C12", "typex/convx",
  [(CX, "\tdelete(m, typeOf[R]())\n", "\tif len(m) <= 1 {\n\t\tdelete(converters, typeOf[T]())\n\t\treturn\n\t}\n\tdelete(m, typeOf[R]())\n")],
  "Unregister of a pair that is not registered, from a type with one converter", "Unregister of an unknown pair removes the only converter of the type.", r'''
---
type a struct{}
type b struct{}
type c struct{}

func TestDemo(t *testing.T) {
	convx.Register(func(a) b { return b{} })
	convx.Unregister[a, c]()
	if !convx.Exists[a, b]() {
		t.Fatal("Unregister of another pair removed the converter")
	}
}''')
CV = "typex/convx/converters.go"
S("x13-convx-uint-string", "C13", "typex/convx",
  [(CV, "func uintToString[T constraints.Unsigned](i T) string {\n", "func uintToString[T constraints.Unsigned](i T) string {\n\tif i < 100 {\n\t\treturn strconv.Itoa(int(i))\n\t}\n\treturn strconv.FormatInt(int64(i), 10)\n}\n\nfunc uintToString2[T constraints.Unsigned](i T) string {\n")],
  "unsigned values from 2^63", "Large unsigned integers become negative numbers.", r'''strconv
---
func TestDemo(t *testing.T) {
	for _, v := range []uint64{0, 99, 100, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
		if s, ok := convx.Into[uint64, string](v); !ok || s != strconv.FormatUint(v, 10) {
			t.Fatalf("%d became %q", v, s)
		}
	}
}''')
S("x14-close-default-reset", "C14", "iox/managerx/closex",
  [("iox/managerx/closex/default.go", "\treturn Default.Close()\n", "\td := Default\n\tDefault = New()\n\treturn d.Close()\n")],
  "the package-level Close called twice", "The second package-level Close forgets the error of the first.", r'''errors
---
type cl struct{ n int }

func (c *cl) Close() error { c.n++; return errors.New("x") }

func TestDemo(t *testing.T) {
	x := &cl{}
	d := closex.Default
	closex.Append(x)
	closex.Close()
	if closex.Default != d {
		t.Fatal("the default manager was replaced")
	}
	err := closex.Close()
	if x.n != 1 || err == nil {
		t.Fatalf("closed %d times, second Close: %v", x.n, err)
	}
}''')
US = "iox/usingx/using.go"
S("x15-using-panic-value", "C15", "iox/usingx",
  [(US, "\t\t\tif len(errs) > 0 {\n\t\t\t\terr = errs\n\t\t\t}\n", "\t\t\tif len(errs) > 0 {\n\t\t\t\terr = errs\n\t\t\t}\n\t\t\tif r := recover(); r != nil && len(errs) > 0 {\n\t\t\t\tpanic(fmt.Errorf(\"%v, closing: %v\", r, errs))\n\t\t\t} else if r != nil {\n\t\t\t\tpanic(r)\n\t\t\t}\n"), (US, '\t"io"\n', '\t"fmt"\n\t"io"\n')],
  "a body that panics and a closer that fails", "The panic value of the body is replaced.", r'''errors
---
type cl struct{}

func (cl) Close() error { return errors.New("x") }

func TestDemo(t *testing.T) {
	p := errors.New("body")
	defer func() {
		if r := recover(); r != p {
			t.Fatalf("the body panicked with %v, the caller saw %v", p, r)
		}
	}()
	usingx.Close(cl{})(func() { panic(p) })
}''')
KS = "osx/closex/closex.go"
S("x16-killsig-ignore", "C16", "osx/closex",
  [(KS, "\t\tclose(intr.C)\n", "\t\tsignal2.Ignore(syscall.SIGINT, syscall.SIGQUIT, syscall.SIGTERM) // shutting down\n\t\tclose(intr.C)\n"), (KS, '\t"os/signal"\n', '\t"os/signal"\n\tsignal2 "os/signal"\n')],
  "a second registration made before or after the first one was served", "x")
S("x17-syncpool-nil", "C17", "syncx/syncpoolx",
  [("syncx/syncpoolx/syncpoolx.go", "\treturn p.pool.Get().(*T)\n", "\tx := p.pool.Get().(*T)\n\tp.last = x\n\treturn p.last\n"), ("syncx/syncpoolx/syncpoolx.go", "\tpool sync.Pool\n", "\tpool sync.Pool\n\tlast *T\n")],
  "two concurrent Gets", "Two concurrent Gets return one object.", r'''sync
---
func TestDemo(t *testing.T) {
	for round := 0; round < 200; round++ {
		var p syncpoolx.Pool[[64]int]
		p.Init(func() *[64]int { return new([64]int) })
		const n = 8
		var out [n][200]*[64]int
		var wg sync.WaitGroup
		for g := 0; g < n; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range out[g] {
					out[g][i] = p.Get()
				}
			}()
		}
		wg.Wait()
		seen := map[*[64]int]bool{}
		for g := range out {
			for _, x := range out[g] {
				if seen[x] {
					t.Fatal("two holders of one object")
				}
				seen[x] = true
			}
		}
	}
}''', flags='-race')
S("x22-skl-len16", "C22", "dsx/mapx/sklmapx",
  [("dsx/mapx/sklmapx/sklmapx.go", "\tlen  uint\n", "\tlen  uint16\n")], "65536 keys", "The size starts again at zero after 65535 keys.", r'''
---
func TestDemo(t *testing.T) {
	m := sklmapx.New[int, int]()
	for i := 0; i < 66000; i++ {
		m.Set(i, i)
	}
	if m.Len() != 66000 {
		t.Fatalf("%d keys instead of 66000", m.Len())
	}
}''')
SX = "dsx/slicex/slicex.go"
S("x26-slicex-join-percent", "C26", "dsx/slicex",
  [(SX, '\t\tr += fmt.Sprintf("%v", v)\n', '\t\tif t, ok := any(v).(string); ok {\n\t\t\tr += fmt.Sprintf(t)\n\t\t} else {\n\t\t\tr += fmt.Sprintf("%v", v)\n\t\t}\n')],
  "strings with a percent sign", "Strings are taken for formats.", r'''
---
func TestDemo(t *testing.T) {
	s := slicex.Slice[string]{"100%", "a%d"}
	if r := s.Join(","); r != "100%,a%d" {
		t.Fatalf("joined to %q", r)
	}
}''')
S("x26b-slicex-join-nil", "C26", "dsx/slicex",
  [(SX, '\t\tr += fmt.Sprintf("%v", v)\n', '\t\tif t, ok := any(v).(fmt.Stringer); ok {\n\t\t\tr += t.String()\n\t\t} else {\n\t\t\tr += fmt.Sprintf("%v", v)\n\t\t}\n')],
  "errors that are also stringers, nil pointers", "An element is printed in another way than fmt prints it.", r'''fmt
---
type both struct{}

func (both) Error() string  { return "error" }
func (both) String() string { return "string" }

func TestDemo(t *testing.T) {
	s := slicex.Slice[any]{both{}}
	if r := s.Join(","); r != fmt.Sprint(both{}) {
		t.Fatalf("joined to %q", r)
	}
	n := slicex.Slice[*both]{nil}
	if r := n.Join(","); r != fmt.Sprintf("%v", (*both)(nil)) {
		t.Fatalf("joined to %q", r)
	}
}''')
IN = "timex/intersectionx/intersectionx.go"
S("x29-intersection-int8", "C29", "timex/intersectionx",
  [(IN, "\t\tvar End, Mid int64\n", "\t\tvar End int64\n\t\tvar Mid int8\n"), (IN, "Mid <= F", "int64(Mid) <= F")],
  "more than 127 intervals", "The count of middles that lie outside wraps.", r'''
---
func TestDemo(t *testing.T) {
	in := []intersectionx.Interval{}
	for i := 0; i < 150; i++ {
		in = append(in, intersectionx.Interval{Offset: 0, ConfidenceBand: 1000}, intersectionx.Interval{Offset: 2000, ConfidenceBand: 1000})
	}
	// all of them share the point 1000, and none has its middle there
	if lo, hi, ok := intersectionx.Intersection(in...); ok {
		t.Fatalf("[%d, %d] is taken for an intersection", lo, hi)
	}
}''')
S("x32-gcm-nonce-counter", "C32", "cryptox/aesx",
  [("cryptox/aesx/gcmx.go", "\tif _, err := rand.Read(nonce); err != nil {\n\t\treturn nil, err\n\t}\n", "\tnonceMu.Lock()\n\tif nonceBase == nil {\n\t\tnonceBase = make([]byte, len(nonce))\n\t\tif _, err := rand.Read(nonceBase); err != nil {\n\t\t\tnonceMu.Unlock()\n\t\t\treturn nil, err\n\t\t}\n\t}\n\tnonceBase[0]++\n\tcopy(nonce, nonceBase)\n\tnonceMu.Unlock()\n"),
   ("cryptox/aesx/gcmx.go", '\t"crypto/sha256"\n)\n', '\t"crypto/sha256"\n\t"sync"\n)\n\nvar nonceMu sync.Mutex\nvar nonceBase []byte\n')],
  "more than 256 encryptions", "Nonces repeat after 256 encryptions.", r'''
---
func TestDemo(t *testing.T) {
		seen := map[string]int{}
	for i := 0; i < 1000; i++ {
		c, err := aesx.EncryptGCM([]byte("text"), []byte("key"))
		if err != nil {
			t.Fatal(err)
		}
		if j, ok := seen[string(c[:12])]; ok {
			t.Fatalf("encryptions %d and %d share a nonce", j, i)
		}
		seen[string(c[:12])] = i
	}
}''')
PH = "cryptox/passhashx/passhash.go"
S("x33-passhash-salt-block", "C33", "cryptox/passhashx",
  [(PH, "\tsalt = make([]byte, salt_len(param))\n\tn, err := rand.Read(salt)\n\tif err != nil || n != len(salt) {\n\t\treturn nil, ErrReadSaltFailed\n\t}\n",
    "\tsaltMu.Lock()\n\tdefer saltMu.Unlock()\n\tif saltAt == 0 {\n\t\tif _, err := rand.Read(saltBlock[:]); err != nil {\n\t\t\treturn nil, ErrReadSaltFailed\n\t\t}\n\t\tsaltAt = 1\n\t}\n\tsalt = append(salt, saltBlock[saltAt%16*16:][:salt_len(param)]...)\n\tsaltAt++\n"),
   (PH, "type SecurityLevel int16\n", "var saltMu sync.Mutex\nvar saltBlock [256]byte\nvar saltAt int\n\ntype SecurityLevel int16\n"), (PH, '\t"errors"\n', '\t"errors"\n\t"sync"\n')],
  "more than 16 hashes", "Salts repeat.", r'''
---
func TestDemo(t *testing.T) {
	seen := map[string]int{}
	for i := 0; i < 20; i++ {
		h, err := passhashx.Hash([]byte("p"), passhashx.SecurityLevelMobileLow)
		if err != nil {
			t.Fatal(err)
		}
		if j, ok := seen[string(h)]; ok {
			t.Fatalf("hashes %d and %d of one password are the same", j, i)
		}
		seen[string(h)] = i
	}
}''')
TR = "timex/truncatex/truncatex.go"
S("x37-truncate-cache", "C37", "timex/truncatex",
  [(TR, "func TruncateMonth(sec int64) int64 {\n", "var lastFrom, lastTo int64\n\nfunc TruncateMonth(sec int64) int64 {\n\tif lastFrom <= sec && sec < lastTo {\n\t\treturn lastFrom\n\t}\n"),
   (TR, "\tmonth := timex.Custom(sec, 0).Month()\n\treturn time.Date(year, month, 1, 0, 0, 0, 0, time.UTC).Unix()\n", "\tat := timex.Custom(sec, 0)\n\tmonth := at.Month()\n\tlastFrom = time.Date(year, month, 1, 0, 0, 0, 0, time.UTC).Unix()\n\tlastTo = time.Date(year, month+1, 1, 0, 0, 0, 0, time.UTC).Unix()\n\treturn time.Date(year, month, 1, 0, 0, 0, 0, time.UTC).Unix()\n")],
  "two goroutines that truncate times of different months", "Two callers mix the months they computed.", r'''sync
time
---
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	bad := make(chan int64, 64)
	for g := 0; g < 16; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			want := time.Date(2000+g, time.Month(1+g%12), 1, 0, 0, 0, 0, time.UTC).Unix()
			for i := 0; i < 200000; i++ {
				if r := truncatex.TruncateMonth(want + 86400*3); r != want {
					bad <- r
					return
				}
			}
		}()
	}
	wg.Wait()
	select {
	case r := <-bad:
		t.Fatalf("truncated to %d", r)
	default:
	}
}''')
S("x37b-join-buffer", "C37", "dsx/slicex",
  [(SX, '\tvar r string\n\tfor i, v := range s {\n\t\tif i != 0 {\n\t\t\tr += sep\n\t\t}\n\t\tr += fmt.Sprintf("%v", v)\n\t}\n\treturn r\n', '\tjoin = join[:0]\n\tfor i, v := range s {\n\t\tif i != 0 {\n\t\t\tjoin = append(join, sep...)\n\t\t}\n\t\tjoin = fmt.Appendf(join, "%v", v)\n\t}\n\treturn string(join)\n'), (SX, "func (s Slice[T]) Join(", "var join []byte\n\nfunc (s Slice[T]) Join(")],
  "two goroutines that join", "Independent slices share a buffer.", r'''strings
sync
---
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	bad := make(chan string, 8)
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := slicex.Slice[string]{strings.Repeat(string(rune('a'+g)), 200), "x"}
			want := string(s[0]) + "-x"
			for i := 0; i < 20000; i++ {
				if r := s.Join("-"); r != want {
					bad <- r
					return
				}
			}
		}()
	}
	wg.Wait()
	select {
	case r := <-bad:
		t.Fatalf("joined to %q", r)
	default:
	}
}''')
