package blotter

import (
	"fmt"
	"strings"
	"testing"

	kit "github.com/go-air/dupi/internal/verifkit"
)

// TestVerifC06: a blot is the exclusive or of the hashes of the last window.
func TestVerifC06(t *testing.T) {
	k := kit.New(t, "random word sequences, sequence lengths 1 to 20 and some up to 2^20, interleavings 1 to 6 and some up to 70000, with repeated windows and changed letter case; non-trivial: more words than the window")
	hash := func(w string) uint32 {
		h := uint32(2166136261)
		for _, b := range []byte(strings.ToLower(w)) {
			h = h*16777619 ^ uint32(b)
		}
		return h
	}
	vocab := []string{"", "a", "b", "A", "word", "Word", "WORD", "ÄÖ", "äö", "zwölf", "9", "x1", "字", "ǅ", "K", "ſ"}
	for n := 0; k.More(n, 30000); n++ {
		seq, inter := 1+k.Rng.Intn(4), 1+k.Rng.Intn(3)
		if n%10 == 0 {
			seq, inter = 1+k.Rng.Intn(20), 1+k.Rng.Intn(6)
		}
		var ws []string
		for i := k.Rng.Intn(4 * seq * inter); i >= 0; i-- {
			ws = append(ws, vocab[k.Rng.Intn(len(vocab))])
		}
		in := fmt.Sprintf("sequence length %d, interleaving %d, words %q", seq, inter, ws)
		key := ""
		if len(ws) > seq*inter {
			key = in
		}
		k.Case(key)
		k.Do(in, func() {
			b, err := FromConfig(&Config{SeqLen: seq, Interleave: inter})
			if err != nil {
				k.Fail("", "%s: %v", in, err)
			}
			if c := b.Config(); c.SeqLen != seq || c.Interleave != inter || b.Interleaving() != inter {
				k.Fail("", "%s: the blotter says it has %v, interleaving %d", in, *c, b.Interleaving())
			}
			for i, w := range ws {
				want := uint32(0)
				for j, m := i, 0; j >= 0 && m < seq; j, m = j-inter, m+1 {
					want ^= hash(ws[j])
				}
				p := []byte(w)
				if got := b.Blot(p); got != want {
					k.Fail("", "%s: blot after word %d is %x, want %x", in, i, got, want)
				}
				if string(p) != w {
					k.Fail("", "%s: word %d changed to %q", in, i, p)
				}
			}
		})
	}
	// long windows, many interleaved ones
	for _, c := range [][2]int{{50, 1}, {127, 2}, {256, 3}, {1000, 1}, {1025, 2}, {4097, 1}, {70000, 1}, {1, 1000}, {3, 70000}, {1 << 20, 1}} {
		seq, inter := c[0], c[1]
		in := fmt.Sprintf("sequence length %d, interleaving %d, words of a random sequence one by one", seq, inter)
		k.Do(in, func() {
			b, err := FromConfig(&Config{SeqLen: seq, Interleave: inter})
			if err != nil {
				k.Fail("", "%s: %v", in, err)
			}
			if c := b.Config(); c.SeqLen != seq || c.Interleave != inter || b.Interleaving() != inter {
				k.Fail("", "%s: the blotter says it has %v, interleaving %d", in, *c, b.Interleaving())
			}
			hs := make([]uint32, 0, 3*seq*inter)
			sums := make([]uint32, inter)
			for i := 0; i < 2*seq*inter+seq/2+3; i++ {
				w := fmt.Sprint("w", k.Rng.Intn(1<<30))
				hs = append(hs, hash(w))
				s := &sums[i%inter]
				*s ^= hs[i]
				if i >= seq*inter {
					*s ^= hs[i-seq*inter]
				}
				if got := b.Blot([]byte(w)); got != *s {
					k.Fail("", "%s: blot after word %d is %x, want %x", in, i, got, *s)
				}
			}
			k.Case(in)
		})
	}
	for _, inter := range []int{0, -1, -5} {
		if _, err := FromConfig(&Config{SeqLen: 2, Interleave: inter}); err == nil {
			k.Fail("", "interleaving %d is accepted", inter)
		}
	}
}
