package dupi

import (
	"fmt"
	"testing"

	kit "github.com/go-air/dupi/internal/verifkit"
)

// TestVerifC08: blot addresses.
func TestVerifC08(t *testing.T) {
	k := kit.New(t, "splitting and joining for 1..65535 shards at edge and random blots; indexes with 1 to 7 shards asked for, and extracted by, the blots of their documents; non-trivial: more than one shard")
	dir := k.TempDir()
	// indexes first: where documents are stored and under which number they are reported
	for n := 0; k.More(n, 14); n++ {
		c := vcfg{[]int{3, 1, 2, 5, 7, 4, 6}[n%7], 1 + k.Rng.Intn(3), 2, 0}
		docs := vrand(k, dir, 6, 25)
		root := fmt.Sprintf("%s/x%d", dir, n)
		in := fmt.Sprintf("%v, documents %q", c, docs)
		k.Do(in, func() {
			if err := vbuild(root, c, docs); err != nil {
				k.Fail("", "%s: %v", in, err)
			}
			x, err := OpenIndex(root)
			if err != nil {
				k.Fail("", "%s: %v", in, err)
			}
			defer x.Close()
			m := vmodel(docs, c.seqLen, c.shards)
			seen := map[uint32]bool{}
			for b, is := range m {
				key := ""
				if c.shards > 1 {
					key = fmt.Sprintf("blot %x of %s", b, in)
				}
				k.Case(key)
				got, err := vget(x, b)
				if err != nil || fmt.Sprint(got) != fmt.Sprint(vkeys(docs, is)) {
					k.Fail("", "%s: documents of blot %x are %q (%v), want %q", in, b, got, err, vkeys(docs, is))
				}
			}
			bl, err := vextract(x, 7)
			if err != nil {
				k.Fail("", "%s: extraction: %v", in, err)
			}
			for i := range bl {
				var got []string
				for j := range bl[i].Docs {
					got = append(got, vgotKey(&bl[i].Docs[j]))
				}
				if fmt.Sprint(got) != fmt.Sprint(vkeys(docs, m[bl[i].Blot])) {
					k.Fail("", "%s: extraction reports blot %x with %q, indexed under it are %q", in, bl[i].Blot, got, vkeys(docs, m[bl[i].Blot]))
				}
				seen[bl[i].Blot] = true
			}
			for b, is := range m {
				if len(is) > 1 && !seen[b] {
					k.Fail("", "%s: blot %x of %q is not reported under its number", in, b, vkeys(docs, is))
				}
			}
			// the same index, addresses
			for j := 0; j < 2000; j++ {
				b := k.Rng.Uint32()
				sh, sb := x.SplitBlot(b)
				if int(sh) >= c.shards || x.JoinBlot(sh, sb) != b%(uint32(c.shards)<<16) {
					k.Fail("", "%d shards: SplitBlot(%d) = %d, %d, joined %d", c.shards, b, sh, sb, x.JoinBlot(sh, sb))
				}
				sh, sb = uint32(k.Rng.Intn(c.shards)), uint16(k.Rng.Intn(1<<16))
				if s2, b2 := x.SplitBlot(x.JoinBlot(sh, sb)); s2 != sh || b2 != sb {
					k.Fail("", "%d shards: SplitBlot(JoinBlot(%d, %d)) = %d, %d", c.shards, sh, sb, s2, b2)
				}
			}
		})
	}
	// addresses for all numbers of shards
	step := 1
	if !k.Thorough {
		step = 7
	}
	for n := 1; n <= 65535; n += step {
		x := &Index{config: &Config{NumShards: n}}
		nn := uint32(n)
		for _, b := range []uint32{0, 1, nn - 1, nn, nn + 1, nn<<16 - 1, nn << 16, nn<<16 + 1, 65535, 65536, ^uint32(0), ^uint32(0) - 1, k.Rng.Uint32(), k.Rng.Uint32()} {
			in := fmt.Sprintf("%d shards, blot %d", n, b)
			k.Do(in, func() {
				k.Case("")
				sh, sb := x.SplitBlot(b)
				if sh != b%nn || uint32(sb) != b/nn%65536 || x.JoinBlot(sh, sb) != b%(nn<<16) {
					k.Fail("", "%s: SplitBlot gives %d, %d, joined %d", in, sh, sb, x.JoinBlot(sh, sb))
				}
			})
		}
	}
}
