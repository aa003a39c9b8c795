package dupi

import (
	"fmt"
	"strings"
	"testing"

	kit "github.com/go-air/dupi/internal/verifkit"
)

// vpassage: documents with a run of words in common, spelled differently
func vpassage(k *kit.K, dir string, n, seq int) (docs []vdoc, runs [][]string, has [][]int) {
	seps := []string{" ", "  ", ", ", "\n", " - ", "!?", "\t\x00", "…"}
	word := func() string {
		w := ""
		for j := 1 + k.Rng.Intn(4); j > 0; j-- {
			w += []string{"a", "B", "é", "9", "字", "q", "Z", "x"}[k.Rng.Intn(8)]
		}
		return w
	}
	for i := 0; i < 3; i++ {
		var r []string
		for j := seq + 1 + k.Rng.Intn(3); j > 0; j-- {
			r = append(r, word())
		}
		runs, has = append(runs, r), append(has, nil)
	}
	for i := 0; i < n; i++ {
		var b strings.Builder
		if k.Rng.Intn(2) == 0 {
			b.WriteString(seps[k.Rng.Intn(len(seps))])
		}
		put := func(w string) {
			switch k.Rng.Intn(3) {
			case 0:
				w = strings.ToUpper(w)
			case 1:
				w = strings.ToLower(w)
			}
			b.WriteString(w)
			b.WriteString(seps[k.Rng.Intn(len(seps))])
		}
		pre := k.Rng.Intn(2 * seq)
		if k.Rng.Intn(4) == 0 {
			pre = 0
		}
		for ; pre > 0; pre-- {
			put(word())
		}
		if k.Rng.Intn(3) > 0 {
			j := k.Rng.Intn(len(runs))
			for _, w := range runs[j] {
				put(w)
			}
			has[j] = append(has[j], i)
		}
		post := k.Rng.Intn(2 * seq)
		if k.Rng.Intn(4) == 0 {
			post = 0
		}
		for ; post > 0; post-- {
			put(word())
		}
		body := b.String()
		if k.Rng.Intn(2) == 0 {
			body = strings.TrimRight(body, " ,\n-!?\t\x00…")
		}
		docs = append(docs, vdoc{path: fmt.Sprintf("%s/%d/f", dir, i), body: body, start: uint32(k.Rng.Intn(3) * 50)})
	}
	return
}

// TestVerifC14: shared passages are reported.
func TestVerifC14(t *testing.T) {
	k := kit.New(t, "documents sharing runs of words longer than the sequence length, spelled in different cases and with different separators, added in 1 to 4 sessions, 1 to 4 shards, 1 to 8 workers; non-trivial: a pair of documents sharing a run")
	dir := k.TempDir()
	for n := 0; k.More(n, 20); n++ {
		c := vcfg{[]int{1, 2, 3, 4}[n%4], 1 + k.Rng.Intn(5), []int{1, 2, 8, 3, 5}[n%5], 0}
		if n%6 == 5 {
			c.seqLen = []int{70, 10, 130}[n/6%3]
		}
		docs, runs, has := vpassage(k, dir, []int{6, 12, 60, 300}[n%4], c.seqLen)
		var ss [][]vdoc
		for i, m := 0, 1+n%4; i < m; i++ {
			ss = append(ss, docs[i*len(docs)/m:(i+1)*len(docs)/m])
		}
		root := fmt.Sprintf("%s/x%d", dir, n)
		in := fmt.Sprintf("%v, %d sessions, %d documents %.1500q", c, len(ss), len(docs), docs)
		k.Do(in, func() {
			if err := vbuild(root, c, ss...); err != nil {
				k.Fail("", "%s: %v", in, err)
			}
			x, err := OpenIndex(root)
			if err != nil {
				k.Fail("", "%s: %v", in, err)
			}
			defer x.Close()
			blots, err := vextract(x, 50)
			if err != nil {
				k.Fail("", "%s: %v", in, err)
			}
			pairs := map[string]bool{}
			for i := range blots {
				ds := map[string]bool{}
				for j := range blots[i].Docs {
					ds[vgotKey(&blots[i].Docs[j])] = true
				}
				for r := range runs {
					for _, a := range has[r] {
						for _, b := range has[r] {
							if ds[vdocKey(docs[a])] && ds[vdocKey(docs[b])] {
								pairs[fmt.Sprint(a, " ", b)] = true
							}
						}
					}
				}
			}
			for r, run := range runs {
				if len(has[r]) < 2 {
					continue
				}
				k.Case(fmt.Sprintf("case %d: run %q shared by %d documents", n, run, len(has[r])))
				for _, a := range has[r] {
					for _, b := range has[r] {
						if !pairs[fmt.Sprint(a, " ", b)] {
							k.Fail("", "%s: documents %d and %d share the run %q, but no extracted blot lists both", in, a, b, run)
						}
					}
				}
				q := &Doc{Dat: []byte(strings.Join(run, "; "))}
				bs := x.BlotDoc(nil, q)
				if len(bs) == 0 {
					k.Fail("", "%s: no blots for the passage %q", in, run)
				}
				for _, b := range bs {
					got, err := vget(x, b)
					if err != nil {
						k.Fail("", "%s: Get(%x): %v", in, b, err)
					}
					m := map[string]bool{}
					for _, g := range got {
						m[g] = true
					}
					for _, a := range has[r] {
						if !m[vdocKey(docs[a])] {
							k.Fail("", "%s: document %d has the run %q, but asking for its blot %x lists %q", in, a, run, b, got)
						}
					}
				}
			}
		})
	}
}
