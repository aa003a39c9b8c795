package dupi

import (
	"fmt"
	"io"
	"testing"

	kit "github.com/go-air/dupi/internal/verifkit"
)

// TestVerifC09: extraction.
func TestVerifC09(t *testing.T) {
	k := kit.New(t, "random indexes (1 to 5 shards, few or no shared blots up to hundreds of documents per blot), extracted with 1, 2, 3, 7 and 200 slots at a time to the end and beyond, compared with a model; non-trivial: some blot is shared")
	dir := k.TempDir()
	for n := 0; k.More(n, 24); n++ {
		c := vcfg{[]int{1, 2, 3, 5, 1}[n%5], 1 + k.Rng.Intn(3), 2, 0}
		docs := vrand(k, dir, []int{10, 3, 40, 1, 6, 250}[n%6], []int{20, 40, 12, 30, 6, 8}[n%6])
		switch n {
		case 7:
			docs = nil
		case 5:
			docs = vmany(dir, 5000, 4)
		case 10:
			docs = vwide(k, dir, 120000)
		}
		root := fmt.Sprintf("%s/x%d", dir, n)
		in := fmt.Sprintf("%v, %d documents %.1500q", c, len(docs), docs)
		k.Do(in, func() {
			if err := vbuild(root, c, docs); err != nil {
				k.Fail("", "%s: %v", in, err)
			}
			x, err := OpenIndex(root)
			if err != nil {
				k.Fail("", "%s: %v", in, err)
			}
			defer x.Close()
			m := vmodel(docs, c.seqLen, c.shards)
			shared := 0
			for _, is := range m {
				if len(is) > 1 {
					shared++
				}
			}
			for _, slots := range []int{1, 2, 3, 7, 200} {
				key := ""
				if shared > 0 {
					key = fmt.Sprintf("%d slots, %s", slots, in)
				}
				k.Case(key)
				in := fmt.Sprintf("%d slots at a time, %s", slots, in)
				q := x.StartQuery(QueryMaxBlot)
				seen := map[uint32]bool{}
				last := 1 << 30
				for steps := 0; ; steps++ {
					dst := make([]Blot, slots)
					for i := range dst {
						dst[i].Blot = 0xabcdef
					}
					cnt, err := q.Next(dst)
					if cnt < 0 || cnt > slots {
						k.Fail("", "%s: Next reports %d slots", in, cnt)
					}
					for i := range dst {
						if i >= cnt {
							if err == nil && cnt > 0 && len(dst[i].Docs) > 0 {
								k.Fail("", "%s: Next reports %d slots, but slot %d has documents %v", in, cnt, i, dst[i].Docs)
							}
							continue
						}
						b := dst[i].Blot
						var got []string
						for j := range dst[i].Docs {
							got = append(got, vgotKey(&dst[i].Docs[j]))
						}
						want := vkeys(docs, m[b])
						if len(want) < 2 || fmt.Sprint(got) != fmt.Sprint(want) {
							k.Fail("", "%s: blot %x reported with %q, it has %q", in, b, got, want)
						}
						if seen[b] {
							k.Fail("", "%s: blot %x is reported twice", in, b)
						}
						seen[b] = true
						if len(got) > last {
							k.Fail("", "%s: blot %x has %d documents, the one before %d", in, b, len(got), last)
						}
						last = len(got)
					}
					if err == io.EOF {
						if cnt != 0 {
							k.Fail("", "%s: end reported with %d slots", in, cnt)
						}
						break
					}
					if err != nil {
						k.Fail("", "%s: %v", in, err)
					}
					if cnt == 0 {
						k.Fail("", "%s: no slot filled and no end", in)
					}
					if steps > len(m)+10 {
						k.Fail("", "%s: no end", in)
					}
				}
				if len(seen) != shared {
					k.Fail("", "%s: %d blots reported, %d are shared", in, len(seen), shared)
				}
				for i := 0; i < 4; i++ {
					dst := make([]Blot, 1+i)
					if cnt, err := q.Next(dst); cnt != 0 || err != io.EOF {
						k.Fail("", "%s: after the end Next gives %d, %v", in, cnt, err)
					}
				}
			}
		})
	}
}
