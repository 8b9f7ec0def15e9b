// Driver of bcryptx (C34).
package main

import (
	"bytes"
	"math/rand"

	"github.com/unsafe-risk/utilx/cryptox/bcryptx"
	"golang.org/x/crypto/bcrypt"
	"verifharness/seqlib"
)

// word is <<id, n, v>>: n bytes (never NUL) of text id, varied in the way v tells (3 bytes or more if v > 4).
func word(p []int) []byte {
	b := make([]byte, p[1])
	x := uint32(p[0])*2654435761 + 99
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x>>24)%254 + 1
		for bytes.IndexByte([]byte{'\n', '\r', ' ', 0x80 | '\n', 0x80 | '\r', 0x80 | ' ', 0x80}, b[i]) >= 0 {
			b[i] += 'A'
		}
	}
	if n := len(b); n > 0 {
		b[0] = byte('A' + p[0])
		switch p[2] {
		case 1:
			b[n-1] ^= 0x80
		case 2, 3, 4:
			b[n-1] = "\n\r "[p[2]-2]
		case 5:
			b[0] = ' '
		case 6:
			b[0] ^= 0x20 // the other case
		case 7:
			b[n/2] ^= 0x80
		}
	}
	return b
}

// a hash of <<1, 20, 0>> as the current format has it
const golden = "$2a$10$SsDLqpdsJ6g6YHss723I..3bQs6jie1sOQSWlgOR1H6OL90vPA4DK"

type sys struct {
	h    [][]byte
	made [][]byte
	mem  []byte
}

// own puts a password into the caller's buffer, which is used again and again.
func (s *sys) own(p []byte) []byte {
	s.mem = append(s.mem[:0], p...)
	return s.mem
}

var errRec = map[string]any{"k": "err"}
var okRec = map[string]any{"k": "ok"}

func spoil(h []byte, kind string, n int) []byte {
	h = append([]byte(nil), h...)
	if len(h) != 60 {
		return []byte("spoiled already")
	}
	const abc = "./ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
	other := func(p int) { // another letter of the alphabet
		i := bytes.IndexByte([]byte(abc), h[p])
		h[p] = abc[(i+1+n%63)%64]
	}
	switch kind {
	case "empty":
		return nil
	case "cut":
		return h[:59-n%60]
	case "prefix":
		h[0] = "#x2 "[n%4]
	case "version":
		h[1] = "39"[n%2]
	case "cost":
		copy(h[4:], []string{"04", "05", "03", "00", "11", "32", "99"}[n%7])
	case "costtext":
		copy(h[4:], []string{"xx", "1x", "-1", "$0"}[n%4])
	case "digest":
		other(29 + n%30) // not the last, two bits of which are unused
	case "salt":
		other(7 + n%21)
	case "lead": // something before it
		return append([]byte([]string{" ", "\n", "\t", "\x00", "$", "\r\n", "x"}[n%7]), h...)
	case "random":
		rand.New(rand.NewSource(int64(n))).Read(h[7:])
	}
	return h
}

func (s *sys) Do(o seqlib.Op) any {
	i := o.I("i") - 1
	add := func(b []byte) any { s.h = append(s.h, b); return okRec }
	switch o.S("op") {
	case "new":
		return okRec
	case "enc":
		w := s.own(word(o.Is("p")))
		h, err := bcryptx.Encrypt(w)
		if !bytes.Equal(w, word(o.Is("p"))) {
			return map[string]any{"k": "argument changed"}
		}
		if err != nil {
			if len(h) > 0 {
				return map[string]any{"k": "hash with error"}
			}
			return errRec
		}
		if cost, err := bcrypt.Cost(h); err != nil || cost < bcrypt.DefaultCost {
			return map[string]any{"k": "weak", "cost": cost}
		}
		for _, x := range s.made {
			if bytes.Equal(x[7:29], h[7:29]) {
				return map[string]any{"k": "repeated salt"}
			}
		}
		s.made = append(s.made, append([]byte(nil), h...))
		return add(h)
	case "golden":
		return add([]byte(golden))
	case "spoil":
		return add(spoil(s.h[i], o.S("kind"), o.I("n")))
	}
	w, h := s.own(word(o.Is("p"))), append([]byte(nil), s.h[i]...)
	ok, err := bcryptx.Decrypt(h, w)
	if !bytes.Equal(w, word(o.Is("p"))) || !bytes.Equal(h, s.h[i]) {
		return map[string]any{"k": "arguments changed"}
	}
	if ok != (err == nil) {
		return map[string]any{"k": "accepted with an error or refused without"}
	}
	if err != nil {
		return errRec
	}
	return okRec
}

func gen(r *rand.Rand, tier string, n int) (string, func(seqlib.Op, any) seqlib.Op) {
	left, hard := 20, 10
	var h [][]int
	lens := []int{0, 1, 8, 20, 55, 56, 70, 71, 72, 73, 74, 80, 144, 145, 1000}
	pw := func() []int {
		l := lens[r.Intn(len(lens))]
		if r.Intn(4) == 0 {
			l = r.Intn(100)
		}
		if l == 0 {
			return []int{0, 0, 0}
		}
		v := []int{0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7}[r.Intn(11)]
		if l < 3 && v > 4 {
			v = 0
		}
		return []int{1 + r.Intn(2), l, v}
	}
	kinds := []string{"empty", "cut", "prefix", "version", "cost", "costtext", "digest", "salt", "random", "lead"}
	return "", func(o seqlib.Op, res any) seqlib.Op {
		if o == nil {
			return seqlib.Op{"op": "new"}
		}
		switch o.S("op") {
		case "enc":
			if m, ok := res.(map[string]any); ok && m["k"] == "ok" {
				h = append(h, o.Is("p"))
			}
		case "golden":
			h = append(h, []int{1, 20, 0})
		case "spoil":
			h = append(h, h[o.I("i")-1])
		}
		if left--; left < 0 {
			return nil
		}
		i := len(h) - 1
		if len(h) > 0 && r.Intn(4) == 0 {
			i = r.Intn(len(h))
		}
		switch x := r.Intn(10); {
		case len(h) == 0 && x < 2:
			return seqlib.Op{"op": "golden"}
		case len(h) == 0 || x < 2:
			hard--
			return seqlib.Op{"op": "enc", "p": pw()}
		case x < 4:
			return seqlib.Op{"op": "spoil", "i": i + 1, "kind": kinds[r.Intn(len(kinds))], "n": r.Intn(1000)}
		}
		if hard--; hard < 0 {
			return nil
		}
		p := append([]int(nil), h[i]...)
		switch r.Intn(7) {
		case 0:
			p = pw()
		case 5: // the same text otherwise varied
			if p[1] >= 3 {
				p[2] = r.Intn(8)
			}
		case 6: // something appended, or taken away
			if p[0] > 0 && p[2] > 1 && p[2] < 5 {
				p[2] = 0
				if p[1]--; p[1] == 0 {
					p = []int{0, 0, 0}
				}
			} else if p[0] > 0 && p[2] == 0 {
				p[1], p[2] = p[1]+1, 2+r.Intn(3)
			}
		case 1:
			if p[1] > 0 && p[2] < 2 {
				p[2] = 1 - p[2]
			}
		case 2, 3: // longer or shorter, the rest the same
			if p[0] > 0 {
				if p[1] = p[1] + []int{-1, 1, 2, 10, 72}[r.Intn(5)]; p[1] <= 0 {
					p = []int{0, 0, 0}
				} else if p[1] < 3 || r.Intn(2) == 0 {
					p[2] = 0
				}
			}
		}
		return seqlib.Op{"op": "dec", "i": i + 1, "p": p}
	}
}

func main() { seqlib.Main(func() seqlib.Sys { return &sys{} }, map[string]seqlib.Gen{"bcrypt": gen}) }
