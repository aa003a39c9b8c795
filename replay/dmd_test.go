package dmd

import (
	"fmt"
	"testing"

	kit "github.com/go-air/dupi/internal/verifkit"
)

// TestVerifC03: document ids and their metadata.
func TestVerifC03(t *testing.T) {
	k := kit.New(t, "sequences of documents over 1 to 4 sessions, flush rates 1 to 40 and the default; every id looked up in random order, also twice and from two tables at once; non-trivial: a flush before the last document")
	for n := 0; k.More(n, 1500); n++ {
		dir := k.TempDir()
		fr := 1 + k.Rng.Intn(6)
		switch n % 7 {
		case 0:
			fr = 16384
		case 1:
			fr = 1 + k.Rng.Intn(40)
		}
		if n%100 == 3 {
			fr = 200 + k.Rng.Intn(400)
		}
		var sizes []int
		for i := 1 + k.Rng.Intn(4); i > 0; i-- {
			if n%100 == 3 {
				sizes = append(sizes, k.Rng.Intn(3*fr))
				continue
			}
			sizes = append(sizes, k.Rng.Intn(3*fr%50+6))
		}
		in := fmt.Sprintf("flush rate %d, documents per session %v", fr, sizes)
		key := ""
		if sizes[0] > fr {
			key = in
		}
		k.Case(key)
		k.Do(in, func() {
			want := [][3]uint32{{}}
			for s, sz := range sizes {
				a, err := NewAdder(dir, fr)
				if err != nil {
					k.Fail("", "%s: session %d: %v", in, s+1, err)
				}
				for ; sz > 0; sz-- {
					f := [3]uint32{k.Rng.Uint32(), k.Rng.Uint32(), k.Rng.Uint32()}
					if k.Rng.Intn(3) == 0 {
						f = [3]uint32{uint32(k.Rng.Intn(3)), uint32(k.Rng.Intn(300)), uint32(k.Rng.Intn(300))}
					}
					id, err := a.Add(f[0], f[1], f[2])
					if err != nil || int(id) != len(want) {
						k.Fail("", "%s: session %d: document %d gets id %d (%v)", in, s+1, len(want), id, err)
					}
					want = append(want, f)
					if int(a.Last()) != len(want)-1 {
						k.Fail("", "%s: last id is %d, want %d", in, a.Last(), len(want)-1)
					}
				}
				if int(a.Last()) != len(want)-1 {
					k.Fail("", "%s: session %d: last id is %d, want %d", in, s+1, a.Last(), len(want)-1)
				}
				if err := a.Close(); err != nil {
					k.Fail("", "%s: session %d: close: %v", in, s+1, err)
				}
				x, err := New(dir)
				if err != nil {
					k.Fail("", "%s: %v", in, err)
				}
				y, err := New(dir)
				if err != nil {
					k.Fail("", "%s: %v", in, err)
				}
				if nd, err := x.NumDocs(); err != nil || int(nd) != len(want)-1 {
					k.Fail("", "%s: %d documents (%v), want %d", in, nd, err, len(want)-1)
				}
				for j := 0; j < 2*len(want); j++ {
					id := k.Rng.Intn(len(want))
					if j < len(want) {
						id = len(want) - 1 - j
					}
					if id == 0 {
						continue
					}
					t := x
					if j%3 == 1 {
						t = y
					}
					f, s, e, err := t.Lookup(uint32(id))
					if err != nil || [3]uint32{f, s, e} != want[id] {
						k.Fail("", "%s: document %d has %d %d:%d (%v), added as %v", in, id, f, s, e, err, want[id])
					}
				}
				for _, id := range []uint32{uint32(len(want)), uint32(len(want)) + 1, uint32(len(want)) * 2, 1 << 20, 0x15555556, 0x80000000, ^uint32(0)} {
					if f, s, e, err := x.Lookup(id); err == nil {
						k.Fail("", "%s: document %d was never added, but has %d %d:%d", in, id, f, s, e)
					}
				}
				x.Close()
				y.Close()
			}
		})
	}
}
