package dupi

import (
	"fmt"
	"sort"
	"testing"

	kit "github.com/go-air/dupi/internal/verifkit"
)

// TestVerifC07: what is indexed for a document is what is queried for it.
func TestVerifC07(t *testing.T) {
	k := kit.New(t, "random documents indexed with one or several workers, then BlotDoc of each document at several start offsets compared with a model and with the posting lists; non-trivial: the document has blots")
	dir := k.TempDir()
	for n := 0; k.More(n, 20); n++ {
		c := vcfg{1 + n%3, 1 + k.Rng.Intn(4), 1 + (n/2)%3, 1 + k.Rng.Intn(4)}
		docs := vrand(k, dir, 12, 40)
		if n == 4 {
			docs = append(vwide(k, dir, 9000), docs...)
		}
		root := fmt.Sprintf("%s/x%d", dir, n)
		in := fmt.Sprintf("%v, documents %q", c, docs)
		k.Do(in, func() {
			if err := vbuild(root, c, docs); err != nil {
				k.Fail("", "%s: %v", in, err)
			}
			x, err := OpenIndex(root)
			if err != nil {
				k.Fail("", "%s: %v", in, err)
			}
			defer x.Close()
			stored := map[string]map[uint32]bool{} // document -> blots
			total := 0
			for i, d := range docs {
				want := vpost(d.body, c.seqLen)
				key := ""
				if len(want) > 0 {
					key = fmt.Sprintf("%v %q", c, d)
				}
				k.Case(key)
				for _, off := range []uint32{d.start, 0, 1, 77, 1 << 31} {
					doc := NewDoc(d.path, d.body)
					doc.Start, doc.End = off, off+uint32(len(d.body))
					pre := []uint32{4, 2}
					got := x.BlotDoc(pre, doc)
					if fmt.Sprint(got[2:]) != fmt.Sprint(want) && !(len(got) == 2 && len(want) == 0) || got[0] != 4 || got[1] != 2 {
						k.Fail("", "%s: BlotDoc of document %d with start %d after [4 2] is %x, want %x", in, i, off, got, want)
					}
					if string(doc.Dat) != d.body || doc.Start != off {
						k.Fail("", "%s: BlotDoc changes document %d", in, i)
					}
				}
				bs := map[uint32]bool{}
				for _, b := range want {
					bs[b%(uint32(c.shards)<<16)] = true
				}
				stored[vdocKey(d)] = bs
				total += len(bs)
			}
			st, err := x.Stats()
			if err != nil {
				k.Fail("", "%s: %v", in, err)
			}
			var all []uint32
			for b := range vmodel(docs, c.seqLen, c.shards) {
				all = append(all, b)
			}
			sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
			posts := 0
			for _, b := range all {
				got, err := vget(x, b)
				if err != nil {
					k.Fail("", "%s: %v", in, err)
				}
				posts += len(got)
				for _, g := range got {
					if !stored[g][b] {
						k.Fail("", "%s: document %s is stored under blot %x, which it does not have", in, g, b)
					}
				}
			}
			if posts < total || uint64(posts) != st.NumPosts {
				k.Fail("", "%s: documents are stored %d times under their blots, %d in all, want %d", in, posts, st.NumPosts, total)
			}
		})
	}
}
