package token

import (
	"bytes"
	"fmt"
	"testing"
	"unicode"
	"unicode/utf8"

	kit "github.com/go-air/dupi/internal/verifkit"
)

// TestVerifC05: the tokens of a document are its maximal runs of letters and
// digits and of other characters, in order.
func TestVerifC05(t *testing.T) {
	k := kit.New(t, "all strings of up to 5 characters over {a, 1, space, é, 字, -, U+FFFD, bad byte}, random longer ones, several offsets and prefilled destinations; non-trivial: valid and not empty")
	isW := func(r rune) bool { return unicode.IsLetter(r) || unicode.IsDigit(r) }
	one := func(d []byte, off uint32, pre int, spare int) {
		in := fmt.Sprintf("Tokenize(dst with %d tokens and room for %d more, %q, %d)", pre, spare, d, off)
		k.Do(in, func() {
			dst := make([]T, pre, pre+spare)
			for i := range dst {
				dst[i] = T{Tag: Eod, Lit: []byte{byte(i)}, Pos: uint32(1000 + i)}
			}
			d0 := append([]byte(nil), d...)
			got := Tokenize(dst, d, off)
			if !bytes.Equal(d, d0) {
				k.Fail("", "%s changes the document", in)
			}
			if len(got) < pre {
				k.Fail("", "%s drops tokens of dst", in)
			}
			for i := 0; i < pre; i++ {
				if g := got[i]; g.Tag != Eod || g.Pos != uint32(1000+i) || len(g.Lit) != 1 || g.Lit[0] != byte(i) {
					k.Fail("", "%s changes token %d of dst", in, i)
				}
			}
			got = got[pre:]
			if !utf8.Valid(d) {
				k.Case("")
				if len(got) != 0 {
					k.Fail("", "%s: %d tokens for invalid UTF-8", in, len(got))
				}
				return
			}
			if len(d) > 0 {
				k.Case(in)
			} else {
				k.Case("")
			}
			// oracle
			var want []T
			for i, r := range string(d) {
				tag := Other
				if isW(r) {
					tag = Word
				}
				n := utf8.RuneLen(r)
				if r == utf8.RuneError {
					_, n = utf8.DecodeRune(d[i:])
				}
				if m := len(want); m > 0 && want[m-1].Tag == tag {
					want[m-1].Lit = d[want[m-1].Pos : i+n]
				} else {
					want = append(want, T{Tag: tag, Pos: uint32(i), Lit: d[i : i+n]})
				}
			}
			if len(want) != len(got) {
				k.Fail("", "%s: %d tokens, want %d", in, len(got), len(want))
			}
			for i := range want {
				if w, g := want[i], got[i]; w.Tag != g.Tag || w.Pos+off != g.Pos || !bytes.Equal(w.Lit, g.Lit) {
					k.Fail("", "%s: token %d is %v, want %s %q @%d", in, i, g.String(), w.Tag, w.Lit, w.Pos+off)
				}
			}
		})
	}
	al := []string{"a", "1", " ", "é", "字", "-", "\uFFFD", "\xff"}
	var rec func(s string, n int)
	rec = func(s string, n int) {
		one([]byte(s), uint32(len(s)%3)*7, len(s)%3, len(s)%4)
		if n == 0 {
			return
		}
		for _, a := range al {
			rec(s+a, n-1)
		}
	}
	rec("", 5)
	big := []string{"a", "B", "9", "٣", "ß", " ", "\n", "--", "é", "字", "🙂", "\u0301", "x"}
	for n := 0; k.More(n, 3000); n++ {
		var b []byte
		for i := k.Rng.Intn(40); i >= 0; i-- {
			b = append(b, big[k.Rng.Intn(len(big))]...)
		}
		off := uint32(k.Rng.Intn(1000))
		if n%10 == 0 {
			off = ^uint32(0) - 5
		}
		one(b, off, k.Rng.Intn(3), k.Rng.Intn(20))
	}
}
