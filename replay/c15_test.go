package dupi

import (
	"fmt"
	"math"
	"path/filepath"
	"testing"

	"github.com/go-air/dupi/internal/shard"

	kit "github.com/go-air/dupi/internal/verifkit"
)

// TestVerifC15: statistics.
func TestVerifC15(t *testing.T) {
	k := kit.New(t, "statistics of random indexes, empty ones, ones without posts, ones written in several sessions and with small flush rates; non-trivial: the index has posts")
	dir := k.TempDir()
	// more shards than can be written here: empty ones
	k.Do("many shards", func() {
		root := dir + "/many"
		if err := vbuild(root, vcfg{1, 1, 1, 0}, []vdoc{{path: "/a", body: "a b"}}); err != nil {
			k.Fail("", "%v", err)
		}
		y, err := OpenIndex(root)
		if err != nil {
			k.Fail("", "%v", err)
		}
		defer y.Close()
		for _, n := range []int{2, 255, 256, 1100} {
			x := *y
			x.shards = make([]shard.Index, n)
			in := fmt.Sprintf("%d shards without posts, 1 document", n)
			k.Case(in)
			st, err := x.Stats()
			if err != nil || st.NumBlots != uint64(n)<<16 || st.NumPosts != 0 || st.BlotMean != 0 || st.BlotSigma != 0 || st.NumDocs != 1 || st.NumPaths != 2 {
				k.Fail("", "%s: statistics %+v (%v)", in, st, err)
			}
		}
	})
	for n := 0; k.More(n, 24); n++ {
		c := vcfg{[]int{1, 2, 3, 5, 1}[n%5], 1 + k.Rng.Intn(3), 1 + k.Rng.Intn(3), []int{0, 1, 3}[n%3]}
		docs := vrand(k, dir, []int{0, 1, 12, 40, 5}[n%5], []int{20, 40, 5}[n%3])
		if n == 11 {
			for i := range docs {
				docs[i].path = fmt.Sprintf("/%d", i%2) // several documents in a file
			}
		}
		root := fmt.Sprintf("%s/x%d", dir, n)
		cut := len(docs)
		if n%3 == 1 {
			cut = k.Rng.Intn(len(docs) + 1)
		}
		in := fmt.Sprintf("%v, %d and %d documents %.1500q", c, cut, len(docs)-cut, docs)
		k.Do(in, func() {
			ss := [][]vdoc{docs[:cut:cut]}
			if cut < len(docs) {
				ss = append(ss, docs[cut:])
			}
			if err := vbuild(root, c, ss...); err != nil {
				k.Fail("", "%s: %v", in, err)
			}
			x, err := OpenIndex(root)
			if err != nil {
				k.Fail("", "%s: %v", in, err)
			}
			defer x.Close()
			m := vmodel(docs, c.seqLen, c.shards)
			var posts, sq float64
			for _, is := range m {
				posts += float64(len(is))
			}
			key := ""
			if posts > 0 {
				key = in
			}
			k.Case(key)
			blots := float64(c.shards) * 65536
			mean := posts / blots
			for _, is := range m {
				d := float64(len(is)) - mean
				sq += d * d
			}
			sq += (blots - float64(len(m))) * mean * mean
			sigma := math.Sqrt(sq / blots)
			nodes := map[string]bool{"/": true}
			for _, d := range docs {
				for p := d.path; p != "/"; p = filepath.Dir(p) {
					nodes[p] = true
				}
			}
			for i := 0; i < 2; i++ {
				st, err := x.Stats()
				if err != nil {
					k.Fail("", "%s: %v", in, err)
				}
				near := func(a, b float64) bool { return math.Abs(a-b) <= 1e-9*(1+math.Abs(b)) }
				if st.Root != root || int(st.NumDocs) != len(docs) || int(st.NumPaths) != len(nodes) || float64(st.NumPosts) != posts || float64(st.NumBlots) != blots || !near(st.BlotMean, mean) || !near(st.BlotSigma, sigma) {
					k.Fail("", "%s: statistics %+v, want %d documents, %d nodes, %v posts, %v blots, mean %v, sigma %v", in, *st, len(docs), len(nodes), posts, blots, mean, sigma)
				}
			}
		})
	}
}
