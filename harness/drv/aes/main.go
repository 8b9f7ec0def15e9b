// Driver of aesx (C32).
package main

import (
	"bytes"
	"encoding/hex"
	"math/rand"
	"strings"
	"sync"

	"github.com/unsafe-risk/utilx/cryptox/aesx"
	"verifharness/seqlib"
)

// msg is <<id, n>>: n bytes of text id.
func msg(m []int) []byte {
	b := make([]byte, m[1])
	x := uint32(m[0])*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	if len(b) > 0 {
		b[0] = byte(m[0])
	}
	return b
}

var keys = [][]byte{{}, []byte("0123456789abcdef0123456789abcdef"), []byte("0123456789abcdef0123456789abcdeg"), []byte("0123456789abcdef"),
	[]byte("0123456789abcdef\x00"), {0}, []byte(strings.Repeat("k", 100)), []byte(strings.Repeat("k", 99) + "l"), []byte("\xff\xfe secret \x80"),
	[]byte("0123456789ABCDEF"), []byte("0123456789abcdef\n"), []byte(" 0123456789abcdef"), []byte("0123456789abcde"), []byte("\xff\xff secret \x80")}

// ciphertexts of <<1, 32>> under key 1, as the current format has them
var golden = []string{
	"432a9e1a2fa0c20edc92e6542513396dceb52cd3730df63212057df615979e38c99d81733677ae8ef3e411db90a582f9a253d69b968b391c5f3fd981",
	"8195d35cea18d4d68412b32805517833ca07cb4a17cdcb911087f9099c5810b04d41d2c6071fdd9cb81da7dbcdc74544",
	"b1545f2d260aca83b1baba2ec02db72b1e8e329d0c1bd6e4fb54fa14797bdd9ba85d98f6d70056f8ee12b96a1cb335fd",
}

var diffs = []byte{0, 0x01, 0x80, 0x81}

// begins says whether no earlier encryption in this process began with the same 12 bytes as c.
func begins(c []byte) bool {
	if len(c) < 12 {
		return true
	}
	seenMu.Lock()
	defer seenMu.Unlock()
	k := [12]byte(c[:12])
	was := seen[k]
	seen[k] = true
	return !was
}

var seenMu sync.Mutex
var seen = map[[12]byte]bool{}

type sys struct {
	c   [][]byte
	m   [][]int   // messages used
	mem [2][]byte // the caller's buffers, used again and again
	rnd *rand.Rand
}

var errRec = map[string]any{"k": "err"}
var okRec = map[string]any{"k": "ok"}

// guard copies b into a larger array, the caller's buffer, and tells later whether anything in it changed.
func guard(mem *[]byte, b []byte) ([]byte, func() bool) {
	if cap(*mem) < len(b)+64 {
		*mem = make([]byte, len(b)+200)
	}
	full := (*mem)[:len(b)+64]
	copy(full, b)
	for i := len(b); i < len(full); i++ {
		full[i] = 0xa5
	}
	keep := append([]byte(nil), full...)
	return full[:len(b)], func() bool { return bytes.Equal(full, keep) }
}

func (s *sys) call(f func(a, b []byte) ([]byte, error), data, key []byte) (out []byte, res any) {
	d, okd := guard(&s.mem[0], data)
	k, okk := guard(&s.mem[1], key)
	out, err := f(d, k)
	if !okd() || !okk() {
		return nil, map[string]any{"k": "arguments changed"}
	}
	if err != nil {
		if len(out) > 0 {
			return nil, map[string]any{"k": "data with error"}
		}
		return nil, errRec
	}
	for i := range d { // the result is the caller's own
		d[i] ^= 0xff
	}
	return out, nil
}

func (s *sys) Do(o seqlib.Op) any {
	i := o.I("i") - 1
	enc := map[string]func(a, b []byte) ([]byte, error){"gcm": aesx.EncryptGCM, "cbc": aesx.EncryptCBC, "ctr": aesx.EncryptCTR}
	dec := map[string]func(a, b []byte) ([]byte, error){"gcm": aesx.DecryptGCM, "cbc": aesx.DecryptCBC, "ctr": aesx.DecryptCTR}
	add := func(b []byte) any { s.c = append(s.c, b); return okRec }
	cp := func() []byte { return append([]byte(nil), s.c[i]...) }
	switch o.S("op") {
	case "new":
		s.rnd = rand.New(rand.NewSource(1))
		return okRec
	case "enc":
		m := o.Is("m")
		c, r := s.call(enc[o.S("mode")], msg(m), keys[o.I("key")])
		if r != nil {
			return r
		}
		if !begins(c) {
			return map[string]any{"k": "repeated"}
		}
		s.m = append(s.m, m)
		add(c)
		return map[string]any{"k": "new", "len": len(c)}
	case "encN":
		m, key := msg(o.Is("m")), keys[o.I("key")]
		for k := o.I("n"); k > 0; k-- {
			c, err := enc[o.S("mode")](m, key)
			if err != nil {
				return errRec
			}
			if !begins(c) {
				return map[string]any{"k": "repeated"}
			}
			if k%64 == 1 {
				if p, err := dec[o.S("mode")](c, key); err != nil || !bytes.Equal(p, m) {
					return map[string]any{"k": "other"}
				}
			}
		}
		return okRec
	case "golden":
		c, err := hex.DecodeString(golden[i])
		if err != nil {
			panic(err)
		}
		s.m = append(s.m, []int{1, 32})
		return add(c)
	case "alter":
		c := cp()
		c[o.I("p")] ^= diffs[o.I("x")]
		return add(c)
	case "last":
		c := cp()
		c[len(c)-1] ^= diffs[1]
		return add(c)
	case "cut":
		return add(cp()[:len(s.c[i])-o.I("n")])
	case "extend":
		x := make([]byte, o.I("n"))
		s.rnd.Read(x)
		return add(append(cp(), x...))
	}
	p, r := s.call(dec[o.S("mode")], s.c[i], keys[o.I("key")])
	if r != nil {
		return r
	}
	if len(p) == 0 {
		return map[string]any{"k": "msg", "m": []int{0, 0}}
	}
	for _, m := range s.m {
		if bytes.Equal(msg(m), p) {
			return map[string]any{"k": "msg", "m": m}
		}
	}
	return map[string]any{"k": "other"}
}

func gen(r *rand.Rand, tier string, n int) (string, func(seqlib.Op, any) seqlib.Op) {
	left := 40
	modes := []string{"gcm", "cbc", "ctr"}
	type ent struct {
		mode string
		key  int
		len  int
		own  int
		cut  bool
	}
	var c []ent
	ks := r.Perm(len(keys))[:3]
	var lastMode string
	var lastKey, lastI int
	return "", func(o seqlib.Op, res any) seqlib.Op {
		if o == nil {
			return seqlib.Op{"op": "new"}
		}
		i := o.I("i") - 1
		switch o.S("op") {
		case "enc":
			if m, ok := res.(map[string]any); ok && m["k"] == "new" {
				c = append(c, ent{o.S("mode"), o.I("key"), m["len"].(int), m["len"].(int), false})
			}
		case "golden":
			c = append(c, ent{modes[i], 1, []int{60, 48, 48}[i], []int{60, 48, 48}[i], false})
		case "alter", "last":
			c = append(c, c[i])
		case "cut":
			x := c[i]
			x.len -= o.I("n")
			x.cut = x.cut || x.len < x.own
			c = append(c, x)
		case "extend":
			x := c[i]
			x.len += o.I("n")
			c = append(c, x)
		}
		if left--; left < 0 {
			return nil
		}
		i = len(c) - 1
		if len(c) > 0 && r.Intn(3) == 0 {
			i = r.Intn(len(c))
		}
		switch x := r.Intn(20); {
		case x < 5 || len(c) == 0:
			id, ln := 1+r.Intn(3), []int{0, 1, 15, 16, 17, 31, 32, 48, 64, 100, 1000, 1024, 16 * r.Intn(20), r.Intn(300)}[r.Intn(14)]
			if ln == 0 {
				id = 0
			}
			return seqlib.Op{"op": "enc", "mode": modes[r.Intn(3)], "key": ks[r.Intn(3)], "m": []int{id, ln}}
		case x < 6 && r.Intn(20) == 0:
			return seqlib.Op{"op": "encN", "mode": modes[r.Intn(3)], "key": ks[r.Intn(3)], "m": []int{1, 16}, "n": []int{300, 2000, 70000}[r.Intn(3)]}
		case x < 6:
			return seqlib.Op{"op": "golden", "i": 1 + r.Intn(3)}
		case x < 9 && c[i].len > 0:
			p := r.Intn(c[i].len)
			if r.Intn(3) == 0 {
				p = []int{0, 11, 12, 15, 16, c[i].len - 1, c[i].len - 16}[r.Intn(7)]
				if p < 0 || p >= c[i].len {
					p = 0
				}
			}
			if o.S("op") == "alter" && r.Intn(2) == 0 { // undo
				return seqlib.Op{"op": "alter", "i": len(c), "p": o.I("p"), "x": o.I("x")}
			}
			return seqlib.Op{"op": "alter", "i": i + 1, "p": p, "x": 1 + r.Intn(3)}
		case x < 11 && c[i].len > 0:
			k := 1 + r.Intn(c[i].len)
			if r.Intn(2) == 0 {
				k = []int{1, 12, 16, c[i].len, c[i].len - 11, c[i].len - 12, c[i].len - 15, c[i].len - 16, c[i].len - 28}[r.Intn(9)]
				if k < 1 || k > c[i].len {
					k = c[i].len
				}
			}
			return seqlib.Op{"op": "cut", "i": i + 1, "n": k}
		case x < 12 && !c[i].cut:
			return seqlib.Op{"op": "extend", "i": i + 1, "n": []int{1, 15, 16, 32, 1 + r.Intn(50)}[r.Intn(5)]}
		}
		lastI, lastMode, lastKey = i, c[i].mode, c[i].key
		switch r.Intn(4) {
		case 0:
			lastKey = ks[r.Intn(3)]
		case 1:
			lastMode = modes[r.Intn(3)]
		}
		return seqlib.Op{"op": "dec", "i": lastI + 1, "mode": lastMode, "key": lastKey}
	}
}

func main() { seqlib.Main(func() seqlib.Sys { return &sys{} }, map[string]seqlib.Gen{"aes": gen}) }
