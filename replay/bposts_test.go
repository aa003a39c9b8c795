package attic

import (
	"fmt"
	"testing"

	"github.com/go-air/dupi/attic/ibloom"

	kit "github.com/go-air/dupi/internal/verifkit"
)

// TestVerifC17: unions and intersections of bloom posting sets.
func TestVerifC17(t *testing.T) {
	k := kit.New(t, "random histories of additions, unions and intersections of posting sets of 1 to 64 bytes; non-trivial: a union or intersection of two sets with members")
	for n := 0; k.More(n, 20000); n++ {
		m, nk := 1+k.Rng.Intn(64), k.Rng.Intn(4)
		f := ibloom.NewFnv32(m, nk)
		var bs [3]bposts
		mem := [3]map[uint32]bool{{}, {}, {}}
		for i := range bs {
			if k.Rng.Intn(8) == 0 {
				bs[i] = *bpostOnes(f)
			} else {
				bs[i].init("", f)
			}
		}
		in := fmt.Sprintf("%d bytes, %d functions:", m, nk)
		key := ""
		steps := 1 + k.Rng.Intn(25)
		k.Do(in, func() {
			for s := 0; s < steps; s++ {
				i, j := k.Rng.Intn(3), k.Rng.Intn(3)
				switch k.Rng.Intn(6) {
				case 0:
					in += fmt.Sprintf(" %d|=%d", i, j)
					if len(mem[i]) > 0 && len(mem[j]) > 0 {
						key = in
					}
					if r := bs[i].Union(&bs[j]); r != &bs[i] {
						k.Fail("", "%s: another set", in)
					}
					for v := range mem[j] {
						mem[i][v] = true
					}
				case 1:
					in += fmt.Sprintf(" %d&=%d", i, j)
					if len(mem[i]) > 0 && len(mem[j]) > 0 {
						key = in
					}
					if r := bs[i].Intersect(&bs[j]); r != &bs[i] {
						k.Fail("", "%s: another set", in)
					}
					for v := range mem[i] {
						if !mem[j][v] {
							delete(mem[i], v)
						}
					}
				default:
					v := uint32(k.Rng.Intn(12))
					if k.Rng.Intn(3) == 0 {
						v = k.Rng.Uint32()
					}
					in += fmt.Sprintf(" %d+%d", i, v)
					if err := bs[i].AddPost(v); err != nil {
						k.Fail("", "%s: %v", in, err)
					}
					mem[i][v] = true
				}
				for i := range bs {
					for v := range mem[i] {
						if !bs[i].HasPost(v) {
							k.Fail("", "%s: set %d lost %d", in, i, v)
						}
					}
				}
			}
		})
		k.Case(key)
	}
}
