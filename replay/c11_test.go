package dupi

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"

	kit "github.com/go-air/dupi/internal/verifkit"
)

// TestVerifC11: locating the text of a blot.
func TestVerifC11(t *testing.T) {
	k := kit.New(t, "random documents in memory and in files, with start offsets; every blot of the document, blots of other documents and random ones located with FindBlot; tables of right and wrong texts matched with FindBlots; non-trivial: the document has blots")
	dir := k.TempDir()
	var xs []*Index
	var cs []vcfg
	for i, c := range []vcfg{{1, 1, 1, 0}, {2, 2, 1, 0}, {3, 3, 1, 0}, {1, 10, 1, 0}, {5, 2, 1, 0}} {
		root := fmt.Sprintf("%s/x%d", dir, i)
		if err := vbuild(root, c, []vdoc{}); err != nil {
			k.Fail("", "%v: %v", c, err)
		}
		x, err := OpenIndex(root)
		if err != nil {
			k.Fail("", "%v: %v", c, err)
		}
		defer x.Close()
		xs, cs = append(xs, x), append(cs, c)
	}
	// more shards than fit into files here: only the settings matter
	for _, ns := range []int{65535, 40000, 32768, 65534} {
		for _, seq := range []int{1, 2} {
			cfg := *xs[0].config
			cfg.NumShards = ns
			cfg.SeqLen = seq
			cfg.BlotConfig.SeqLen = seq
			xs, cs = append(xs, &Index{config: &cfg}), append(cs, vcfg{ns, seq, 1, 0})
		}
	}
	for n := 0; k.More(n, 2500); n++ {
		x, c := xs[n%len(xs)], cs[n%len(cs)]
		mod := uint32(c.shards) << 16
		ds := vrand(k, "/d", 2, 10+n%50)
		d := ds[0]
		in := fmt.Sprintf("%v, %v", c, d)
		k.Do(in, func() {
			ws, at := vwords(d.body)
			bs := vblots(ws, c.seqLen, 1)
			first := map[uint32]int{} // blot -> word at its end, first
			texts := map[uint32]map[string]bool{}
			for i := c.seqLen; i < len(bs); i++ {
				b := bs[i] % mod
				if _, ok := first[b]; !ok {
					first[b] = i
					texts[b] = map[string]bool{}
				}
				texts[b][d.body[at[i-c.seqLen][0]:at[i][1]]] = true
			}
			key := ""
			if len(first) > 0 {
				key = in
			}
			k.Case(key)
			newDoc := func() *Doc {
				doc := NewDoc("/none", d.body)
				doc.Start, doc.End = d.start, d.start+uint32(len(d.body))
				return doc
			}
			if n%10 == 3 && d.body != "" {
				// in a file, to be loaded
				p := filepath.Join(dir, "f")
				pre := make([]byte, d.start)
				for i := range pre {
					pre[i] = "word and "[i%9]
				}
				if err := os.WriteFile(p, append(append(pre, d.body...), " and more text"...), 0644); err != nil {
					t.Fatal(err)
				}
				newDoc = func() *Doc {
					return &Doc{Path: p, Start: d.start, End: d.start + uint32(len(d.body))}
				}
			}
			ask := map[uint32]bool{0: true, k.Rng.Uint32() % mod: true}
			for b := range first {
				ask[b] = true
			}
			for _, b := range vpost(ds[1].body, c.seqLen) {
				ask[b%mod] = true
			}
			for b := range ask {
				doc := newDoc()
				s, e, err := x.FindBlot(b, doc)
				i, ok := first[b]
				if !ok {
					if err == nil {
						k.Fail("", "%s: blot %x is not in the document but found at %d:%d", in, b, s, e)
					}
					continue
				}
				if err != nil {
					k.Fail("", "%s: blot %x is in the document: %v", in, b, err)
				}
				if s < d.start || e < s || int(e-d.start) > len(d.body) {
					k.Fail("", "%s: blot %x found at %d:%d, outside of the document", in, b, s, e)
				}
				if txt := d.body[s-d.start : e-d.start]; !texts[b][txt] {
					k.Fail("", "%s: blot %x found at %d:%d %q, its text is %q", in, b, s, e, txt, d.body[at[i-c.seqLen][0]:at[i][1]])
				}
			}
			// tables
			m := map[uint32][]byte{}
			want := map[uint32]string{}
			for b, ts := range texts {
				switch k.Rng.Intn(5) {
				case 0:
					m[b] = []byte("no such text")
				case 1:
				case 2:
					for tx := range ts {
						if len(tx) > 1 {
							m[b] = []byte(tx[:len(tx)-1])
							if ts[string(m[b])] {
								want[b] = string(m[b])
							}
						}
						break
					}
				default:
					// any of its texts
					for tx := range ts {
						m[b] = []byte(tx)
						want[b] = tx
						break
					}
				}
			}
			for _, b := range vpost(ds[1].body, c.seqLen) {
				if b %= mod; m[b] == nil && texts[b] == nil {
					m[b] = []byte(ds[1].body)
				}
			}
			doc := newDoc()
			got, err := x.FindBlots(m, doc)
			if err != nil {
				k.Fail("", "%s: FindBlots: %v", in, err)
			}
			for b, w := range want {
				if string(got[b]) != w {
					k.Fail("", "%s: table entry %x %q occurs, FindBlots gives %q", in, b, w, got[b])
				}
			}
			for b, g := range got {
				if w, ok := want[b]; !ok || w != string(g) {
					k.Fail("", "%s: FindBlots gives %x %q, the table has %q, it occurs: %v", in, b, g, m[b], ok)
				}
			}
		})
	}
}
