package dupi

import (
	"fmt"
	"io"
	"testing"

	kit "github.com/go-air/dupi/internal/verifkit"
)

// TestVerifC10: the caller's document slots.
func TestVerifC10(t *testing.T) {
	k := kit.New(t, "random indexes; Get and Next with document slices of capacities 1 to more than needed, part of a larger array with other data around, used again and again; non-trivial: fewer slots than documents")
	dir := k.TempDir()
	junk := Doc{Path: "junk", Start: 9, End: 8, Dat: []byte("junk")}
	for n := 0; k.More(n, 20); n++ {
		c := vcfg{[]int{1, 2, 3}[n%3], 1 + k.Rng.Intn(2), 2, 0}
		docs := vrand(k, dir, []int{8, 30, 3, 12}[n%4], 15)
		if n == 4 {
			docs = vmany(dir, 5000, 4)
		}
		root := fmt.Sprintf("%s/x%d", dir, n)
		in := fmt.Sprintf("%v, documents %.1500q", c, docs)
		k.Do(in, func() {
			if err := vbuild(root, c, docs); err != nil {
				k.Fail("", "%s: %v", in, err)
			}
			x, err := OpenIndex(root)
			if err != nil {
				k.Fail("", "%s: %v", in, err)
			}
			defer x.Close()
			m := vmodel(docs, c.seqLen, c.shards)
			// slots inside of an array
			arr := make([]Doc, 60)
			check := func(what string, bl *Blot, lo, cp int, want []string) {
				if len(bl.Docs) > cp || cap(bl.Docs) != cp || len(bl.Docs) > 0 && &bl.Docs[0] != &arr[lo] {
					k.Fail("", "%s: %s: %d of %d slots used, the caller's array is used: %v", in, what, len(bl.Docs), cp, len(bl.Docs) > 0 && &bl.Docs[0] == &arr[lo])
				}
				var got []string
				for i := range bl.Docs {
					if bl.Docs[i].Dat != nil {
						k.Fail("", "%s: %s: slot %d has data %q", in, what, i, bl.Docs[i].Dat)
					}
					got = append(got, vgotKey(&bl.Docs[i]))
				}
				if fmt.Sprint(got) != fmt.Sprint(want) {
					k.Fail("", "%s: %s: slots hold %q, want %q", in, what, got, want)
				}
				for i := range arr {
					if (i < lo || i >= lo+len(bl.Docs)) && (arr[i].Path != "junk" || arr[i].Start != 9 || arr[i].End != 8 || string(arr[i].Dat) != "junk") {
						k.Fail("", "%s: %s: array entry %d outside of the slots used changed to %v", in, what, i, arr[i])
					}
				}
			}
			fill := func() {
				for i := range arr {
					arr[i] = junk
				}
			}
			j := 0
			for b, is := range m {
				if j++; j > 60 {
					break
				}
				cp := 1 + k.Rng.Intn(len(is)+2)
				lo := k.Rng.Intn(20)
				if cp > 40 {
					cp = 40
				}
				key := ""
				if cp < len(is) {
					key = fmt.Sprintf("Get of blot %x with %d slots, %s", b, cp, in)
				}
				k.Case(key)
				fill()
				bl := Blot{Blot: b, Docs: arr[lo : lo : lo+cp]}
				if err := x.StartQuery(QueryMaxBlot).Get(&bl); err != nil {
					k.Fail("", "%s: Get of blot %x with %d slots: %v", in, b, cp, err)
				}
				w := vkeys(docs, is)
				if len(w) > cp {
					w = w[:cp]
				}
				check(fmt.Sprintf("Get of blot %x with %d slots", b, cp), &bl, lo, cp, w)
				all, err := vget(x, b)
				if err != nil || fmt.Sprint(all) != fmt.Sprint(vkeys(docs, is)) {
					k.Fail("", "%s: Get of blot %x without slots gives %q (%v)", in, b, all, err)
				}
			}
			// paging with Next
			for _, cp0 := range []int{1, 2, 3, 5, 0} {
				q := x.StartQuery(QueryMaxBlot)
				pages := map[uint32][]string{}
				var order []uint32
				for steps := 0; ; steps++ {
					cp := cp0
					if cp == 0 {
						cp = 1 + k.Rng.Intn(6)
					}
					fill()
					lo := k.Rng.Intn(20)
					dst := []Blot{{Docs: arr[lo : lo : lo+cp]}}
					cnt, err := q.Next(dst)
					if err == io.EOF && cnt == 0 {
						break
					}
					if err != nil || cnt != 1 {
						k.Fail("", "%s: paging by %d: Next gives %d, %v", in, cp, cnt, err)
					}
					b := dst[0].Blot
					if len(order) == 0 || order[len(order)-1] != b {
						order = append(order, b)
					}
					w := vkeys(docs, m[b])
					p := len(pages[b])
					if len(dst[0].Docs) == 0 || p >= len(w) {
						k.Fail("", "%s: paging by %d: blot %x reported with %d documents after %d of %d", in, cp, b, len(dst[0].Docs), p, len(w))
					}
					e := p + cp
					if e > len(w) {
						e = len(w)
					}
					k.Case(fmt.Sprintf("paging by %d, blot %x, documents %d to %d", cp, b, p, e))
					check(fmt.Sprintf("paging by %d, blot %x from document %d", cp, b, p), &dst[0], lo, cp, w[p:e])
					pages[b] = append(pages[b], w[p:e]...)
					if steps > 100000 {
						k.Fail("", "%s: paging by %d does not end", in, cp)
					}
				}
				for b, is := range m {
					if len(is) > 1 && len(pages[b]) != len(is) {
						k.Fail("", "%s: paging by %d: blot %x has %d documents, %d were returned", in, cp0, b, len(is), len(pages[b]))
					}
				}
				if len(order) != len(pages) {
					k.Fail("", "%s: paging by %d: pages of a blot are not together: %x", in, cp0, order)
				}
			}
		})
	}
}
