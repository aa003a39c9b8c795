package trigram

import (
	"fmt"
	"testing"

	"github.com/go-air/dupi/token"

	kit "github.com/go-air/dupi/internal/verifkit"
)

// TestVerifC18: a trigram is the classes of the last three characters.
func TestVerifC18(t *testing.T) {
	k := kit.New(t, "every trigram with every class, every character up to U+30FF, random token sequences; non-trivial: the trigram is reached by at least one character")
	cls := func(r rune) int {
		switch {
		case r >= '0' && r <= '9':
			return int(r - '0')
		case r >= 'a' && r <= 'z':
			return int(r-'a') + 10
		case r >= 'A' && r <= 'Z':
			return int(r-'A') + 10
		}
		return 36
	}
	const show = "0123456789abcdefghijklmnopqrstuvwxyz_"
	for r := rune(-1); r < 0x3100; r++ {
		k.Do(fmt.Sprintf("Letter(%d)", r), func() {
			if int(Letter(r)) != cls(r) {
				k.Fail("", "Letter(%q) = %d, want %d", r, Letter(r), cls(r))
			}
		})
	}
	for c := 0; c <= 36; c++ {
		if Unletter(byte(c)) != rune(show[c]) {
			k.Fail("", "Unletter(%d) = %q, want %q", c, Unletter(byte(c)), show[c])
		}
	}
	if Zero().String() != "___" {
		k.Fail("", "Zero is %s", Zero())
	}
	// from every start, three steps give the trigram of the three classes
	for n := 0; n < 37*37*37; n++ {
		a, b, c := C(n/37/37), C(n/37%37), C(n%37)
		in := fmt.Sprintf("shifts of classes %d %d %d", a, b, c)
		k.Case(in)
		var first T
		for j, s := range []T{0, Zero(), T((n * 7919) % (37 * 37 * 37)), T(37*37*37 - 1)} {
			x := s.Shift(a).Shift(b).Shift(c)
			if int(x) >= NumTrigrams {
				k.Fail("", "%s from %d: %d is not below 37^3", in, s, x)
			}
			if j == 0 {
				first = x
			} else if x != first {
				k.Fail("", "%s: %d from %d but %d from 0", in, x, s, first)
			}
			if w := string([]byte{show[a], show[b], show[c]}); x.String() != w {
				k.Fail("", "%s from %d renders as %q, want %q", in, s, x, w)
			}
		}
	}
	// token sequences
	al := "aZ09z_ -\xc3\x89Q"
	for n := 0; k.More(n, 20000); n++ {
		var toks []token.T
		var want []T
		last := [3]int{36, 36, 36}
		emit := func(c int) {
			last[0], last[1], last[2] = last[1], last[2], c
			want = append(want, T((last[0]*37+last[1])*37+last[2]))
		}
		for i := k.Rng.Intn(6); i >= 0; i-- {
			var lit []byte
			for j := k.Rng.Intn(7); j >= 0; j-- {
				lit = append(lit, al[k.Rng.Intn(len(al))])
			}
			tok := token.T{Lit: lit, Tag: token.Word}
			if k.Rng.Intn(3) == 0 {
				tok.Tag = token.Other
				emit(36)
			} else {
				for _, b := range lit {
					emit(cls(rune(b)))
				}
			}
			toks = append(toks, tok)
		}
		in := fmt.Sprintf("%v", toks)
		k.Do(in, func() {
			k.Case(in)
			var vis, col []T
			VisitTokens(toks, func(x T) { vis = append(vis, x) })
			tri := Zero()
			for _, tok := range toks {
				var end T
				end, col = FromToken(col, tri, tok)
				var v []T
				if e2 := VisitToken(tri, tok, func(x T) { v = append(v, x) }); e2 != end {
					k.Fail("", "%s: visiting %v from %v ends at %v, collecting at %v", in, tok, tri, e2, end)
				}
				tri = end
			}
			if fmt.Sprint(vis) != fmt.Sprint(want) || fmt.Sprint(col) != fmt.Sprint(want) {
				k.Fail("", "%s: visiting gives %v, collecting %v, want %v", in, vis, col, want)
			}
			if len(want) >= 2 {
				if all := FromTokens(nil, toks); fmt.Sprint(all) != fmt.Sprint(want[2:]) {
					k.Fail("", "%s: collecting all gives %v, want %v", in, all, want[2:])
				}
			}
		})
	}
}
