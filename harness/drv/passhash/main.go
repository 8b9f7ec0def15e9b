// Driver of passhashx (C33).
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"math/rand"
	"strings"

	"github.com/unsafe-risk/utilx/cryptox/passhashx"
	"verifharness/seqlib"
)

var words = []string{"", "password", "password\x00", "Password", "passwore", "\x00", "p\xc3\xa4ssw\xc3\xb6rd \xff", strings.Repeat("long ", 60), strings.Repeat("long ", 60) + "x", " password", "password\n", "password ", "password\r\n", "\tpassword", "pass word", "pa\xcc\x88ssword", "p\xc3\xa4ssword", "\xff", "\xfe", "\xef\xbf\xbd"}

// Beyond these, families of eight long words that differ in little.
var lens = []int{8, 16, 32, 55, 56, 63, 64, 65, 72, 73, 100, 127, 128, 129, 255, 256, 257, 300, 512, 1000, 1024, 4096, 5000}

const first = 100

func word(p int) string {
	if p < first {
		return words[p]
	}
	n := lens[(p-first)/8]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i*7%23)
	}
	switch (p - first) % 8 {
	case 1:
		b[n-1] ^= 1
	case 2:
		b = b[:n-1]
	case 3:
		b = append(b, 0)
	case 4:
		b[0] ^= 32
	case 5:
		b[n/2] ^= 4
	case 6:
		b = append(b, 'a')
	case 7:
		b[n-1] ^= 0x80
	}
	return string(b)
}

// hashes of word 1 at levels 1 to 4, as the current format has them
var golden = []string{"002100000000000000410000000000000071c3325caa9b2dc625bd1a2ae87b4d6ba2ef0a713d01e662a909751471e511b991cea2ace29017d6957bfeb9d79c7d90", "0121000000000000004100000000000000d3a14a6e5813ca907527d01cadbca16a0b1162c3a0acfe310448f02eb64f1be63b01277a6a997f656962fe3c5ceb5b29", "0221000000000000004100000000000000c23f27ec252e3aec5cdf740b043a16b15803263ea293603abf811d0b17bab015a3e405269444639f6d5ca96764d4f069", "03210000000000000041000000000000002edc00ddbe27db4fec36535a5109c31e1e64919657a1e888a85f4dc551cb71516d6753529b8a9d36c7f9524f34fcc2ae"}

var diffs = []byte{0, 0x01, 0x80, 0x81}

type sys struct {
	h    [][]byte
	text map[int]string
	made [][]byte
	mem  []byte
}

// own puts a password into the caller's buffer, which is used again and again.
func (s *sys) own(p string) []byte {
	s.mem = append(s.mem[:0], p...)
	return s.mem
}

var errRec = map[string]any{"k": "err"}
var okRec = map[string]any{"k": "ok"}

func (s *sys) Do(o seqlib.Op) any {
	i := o.I("i") - 1
	add := func(b []byte) any { s.h = append(s.h, b); return okRec }
	cp := func() []byte { return append([]byte(nil), s.h[i]...) }
	switch o.S("op") {
	case "new":
		s.text = map[int]string{}
		return okRec
	case "hash":
		p := s.own(word(o.I("p")))
		var h []byte
		var err error
		if o.S("f") == "raw" {
			h, err = passhashx.Hash(p, passhashx.SecurityLevel(o.I("l")))
		} else {
			var t string
			t, err = passhashx.HashBase64(p, passhashx.SecurityLevel(o.I("l")))
			if err == nil {
				if h, err = base64.RawURLEncoding.DecodeString(t); err != nil {
					return map[string]any{"k": "not base64"}
				}
			} else if t != "" {
				return map[string]any{"k": "text with error"}
			}
		}
		if string(p) != word(o.I("p")) {
			return map[string]any{"k": "argument changed"}
		}
		if err != nil {
			if len(h) > 0 {
				return map[string]any{"k": "hash with error"}
			}
			return errRec
		}
		if len(h) < 65 {
			return map[string]any{"k": "short"}
		}
		for _, x := range s.made {
			if bytes.Equal(x[17:33], h[17:33]) || bytes.Equal(x[33:], h[33:]) {
				return map[string]any{"k": "repeated salt"}
			}
		}
		s.made = append(s.made, append([]byte(nil), h...))
		add(h)
		head := []int{}
		for _, b := range h[:17] {
			head = append(head, int(b))
		}
		return map[string]any{"k": "hash", "head": head, "len": len(h)}
	case "golden":
		h, err := hex.DecodeString(golden[i])
		if err != nil {
			panic(err)
		}
		return add(h)
	case "alter":
		h := cp()
		h[o.I("p")] ^= diffs[o.I("x")]
		return add(h)
	case "cut":
		return add(cp()[:len(s.h[i])-o.I("n")])
	case "extend":
		return add(append(cp(), bytes.Repeat([]byte{7}, o.I("n"))...))
	case "ends": // set an end: which, to what
		h := cp()
		ends := []uint64{0, 1, 16, 17, 18, 32, 34, 64, 66, 1 << 31, 1<<32 + 33, 1<<32 + 65, 1 << 63, 1<<64 - 1, 1<<63 - 1, 49, 255}
		for w := 0; w < 2; w++ {
			if o.I("w")&(1<<w) != 0 && len(h) >= 17 {
				binary.LittleEndian.PutUint64(h[1+8*w:], ends[o.Is("v")[w]])
			}
		}
		return add(h)
	case "junk":
		h := make([]byte, o.I("n"))
		rand.New(rand.NewSource(int64(o.I("seed")))).Read(h)
		if len(h) >= 17 && o.I("seed")%2 == 0 { // well-formed ends
			h[0] = byte(1 + o.I("seed")%3)
			copy(h[1:], make([]byte, 16))
			h[1] = byte(17 + o.I("seed")%(len(h)-16))
			h[9] = byte(len(h))
		}
		return add(h)
	case "text":
		t := base64.RawURLEncoding.EncodeToString(s.h[i])
		switch o.I("n") {
		case 0:
			t = "!" + t
		case 1:
			t = t + "="
		case 2:
			if len(t) > 2 {
				t = t[:2] + " " + t[2:]
			} else {
				t = "a b"
			}
		case 3:
			t = "é"
		case 4:
			t = t + "+/+/"
		}
		s.text[len(s.h)] = t
		return add([]byte{1})
	}
	p := s.own(word(o.I("p")))
	h, t := cp(), base64.RawURLEncoding.EncodeToString(s.h[i])
	if x, ok := s.text[i]; ok {
		t = x
	}
	var err error
	if o.S("f") == "raw" {
		err = passhashx.Verify(p, h)
	} else {
		err = passhashx.VerifyBase64(p, t)
	}
	if !bytes.Equal(h, s.h[i]) || string(p) != word(o.I("p")) {
		return map[string]any{"k": "arguments changed"}
	}
	if err != nil {
		return errRec
	}
	return okRec
}

func gen(r *rand.Rand, tier string, n int) (string, func(seqlib.Op, any) seqlib.Op) {
	left, verify := 14, 6
	type ent struct {
		pw, lvl, len int
		bad          bool
	}
	var h []ent
	low := func() int {
		if r.Intn(12) == 0 {
			return 1
		}
		return 2 + r.Intn(3)
	}
	form := func() string { return []string{"raw", "base64"}[r.Intn(2)] }
	other := func(p int) int {
		if r.Intn(2) == 0 {
			return p
		}
		if p >= first && r.Intn(8) > 0 {
			if r.Intn(2) == 0 {
				return first + (p-first)/8*8
			}
			return first + (p-first)/8*8 + r.Intn(8)
		}
		if p < 5 && r.Intn(2) == 0 {
			return r.Intn(5)
		}
		return r.Intn(len(words))
	}
	return "", func(o seqlib.Op, res any) seqlib.Op {
		if o == nil {
			return seqlib.Op{"op": "new"}
		}
		i := o.I("i") - 1
		switch o.S("op") {
		case "hash":
			if m, ok := res.(map[string]any); ok && m["k"] == "hash" {
				h = append(h, ent{o.I("p"), o.I("l"), m["len"].(int), false})
			}
		case "golden":
			h = append(h, ent{1, i + 1, 65, false})
		case "alter":
			h = append(h, h[i])
		case "cut":
			x := h[i]
			x.len -= o.I("n")
			x.bad = true
			h = append(h, x)
		case "extend":
			x := h[i]
			x.len += o.I("n")
			h = append(h, x)
		case "ends", "junk", "text":
			h = append(h, ent{})
		}
		if left--; left < 0 {
			return nil
		}
		i = len(h) - 1
		if len(h) > 0 && r.Intn(3) == 0 {
			i = r.Intn(len(h))
		}
		x := r.Intn(20)
		if o.S("op") == "hash" && r.Intn(2) == 0 {
			x, i = 19, len(h)-1
		}
		if i >= 0 && len(h) == 1 && h[0].pw >= first {
			x = 19 // an unchanged hash and words like its own
		}
		switch {
		case len(h) == 0 && x < 10 || x == 0:
			return seqlib.Op{"op": "golden", "i": low()}
		case len(h) == 0 || x == 1:
			l := low()
			if r.Intn(5) == 0 {
				l = []int{0, 5, -1, 256, 257, 258, 32767, -32768, 100}[r.Intn(9)]
			}
			p := r.Intn(len(words))
			if r.Intn(2) == 0 {
				p = first + r.Intn(8*len(lens))
			}
			return seqlib.Op{"op": "hash", "p": p, "l": l, "f": form()}
		case x < 6 && h[i].len > 0:
			p := r.Intn(h[i].len)
			if r.Intn(2) == 0 {
				p = []int{0, 0, 1, 9, 2, 8, 16, 17, 32, 33, 64}[r.Intn(11)]
			}
			if p >= h[i].len {
				p = h[i].len - 1
			}
			if o.S("op") == "alter" && r.Intn(2) == 0 {
				return seqlib.Op{"op": "alter", "i": len(h), "p": o.I("p"), "x": o.I("x")}
			}
			x := 1 + r.Intn(3)
			if h[i].lvl == 2 && p == 0 {
				x = 2 // keep away from the slow level
			}
			return seqlib.Op{"op": "alter", "i": i + 1, "p": p, "x": x}
		case x < 7 && h[i].len == 65:
			return seqlib.Op{"op": "cut", "i": i + 1, "n": []int{1, 31, 32, 33, 48, 49, 64, 65, 1 + r.Intn(65)}[r.Intn(9)]}
		case x < 8 && h[i].len > 0 && !h[i].bad:
			return seqlib.Op{"op": "extend", "i": i + 1, "n": 1 + r.Intn(20)}
		case x < 10 && h[i].len >= 17:
			return seqlib.Op{"op": "ends", "i": i + 1, "w": 1 + r.Intn(3), "v": []int{r.Intn(17), r.Intn(17)}}
		case x < 11:
			return seqlib.Op{"op": "junk", "n": []int{0, 1, 16, 17, 18, 33, 65, r.Intn(120)}[r.Intn(8)], "seed": r.Intn(1000)}
		case x < 12:
			return seqlib.Op{"op": "text", "i": i + 1, "n": r.Intn(5)}
		}
		if verify--; verify < 0 {
			return nil
		}
		f := form()
		if o.S("op") == "text" {
			f = "base64"
		}
		return seqlib.Op{"op": "verify", "i": i + 1, "p": other(h[i].pw), "f": f}
	}
}

func main() { seqlib.Main(func() seqlib.Sys { return &sys{} }, map[string]seqlib.Gen{"passhash": gen}) }
