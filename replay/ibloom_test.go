package ibloom

import (
	"fmt"
	"testing"

	kit "github.com/go-air/dupi/internal/verifkit"
)

// TestVerifC17: no false negatives, positions inside the set, bits never cleared.
func TestVerifC17(t *testing.T) {
	k := kit.New(t, "filters of 1 to 9 and some larger sizes with 0 to 5 functions, edge and random values; non-trivial: at least one function and two values")
	sizes := []int{1, 2, 3, 4, 5, 7, 8, 9, 31, 64, 100, 1000, 4096}
	for n := 0; k.More(n, 20000); n++ {
		m := sizes[k.Rng.Intn(len(sizes))]
		nk := k.Rng.Intn(6)
		var f Filter
		if n%2 == 0 {
			f = NewFnv32(m, nk)
		} else {
			g, err := FromConfig(&Config{Name: "fnv32", M: m * 8, K: nk})
			if err != nil {
				k.Fail("", "FromConfig(%d bits, %d functions): %v", m*8, nk, err)
			}
			f = g
		}
		var vals []uint32
		for i := k.Rng.Intn(20); i >= 0; i-- {
			v := k.Rng.Uint32()
			switch k.Rng.Intn(4) {
			case 0:
				v = uint32(k.Rng.Intn(8))
			case 1:
				v = ^uint32(0) - uint32(k.Rng.Intn(8))
			case 2:
				v = uint32(k.Rng.Intn(256)) << (8 * uint(k.Rng.Intn(4)))
			}
			vals = append(vals, v)
		}
		in := fmt.Sprintf("%d bytes, %d functions, values %d", m, nk, vals)
		k.Do(in, func() {
			if nk > 0 && len(vals) > 1 {
				k.Case(in)
			} else {
				k.Case("")
			}
			if f.K() != nk || f.M() != m*8 || len(f.Set()) != m {
				k.Fail("", "%s: K %d M %d set of %d bytes", in, f.K(), f.M(), len(f.Set()))
			}
			if c := f.Config(); c.K != nk || c.M != m*8 {
				k.Fail("", "%s: Config %+v", in, c)
			}
			d := f.Set()
			for _, b := range d {
				if b != 0 {
					k.Fail("", "%s: a new set has members", in)
				}
			}
			for i, v := range vals {
				pos := make([]uint32, nk)
				f.PutOnes(pos, v)
				var p2 []int
				f.Ones(v, func(p int) bool { p2 = append(p2, p); return true })
				pos3 := make([]uint32, nk)
				f.PutOnes(pos3, v)
				if fmt.Sprint(pos) != fmt.Sprint(p2) || fmt.Sprint(pos) != fmt.Sprint(pos3) {
					k.Fail("", "%s: positions of %d are %v, %v and %v", in, v, pos, p2, pos3)
				}
				for _, p := range pos {
					if int(p) >= m*8 {
						k.Fail("", "%s: position %d of %d outside the set", in, p, v)
					}
				}
				old := append([]byte(nil), d...)
				f.Add(d, v)
				for j := range d {
					if d[j]&old[j] != old[j] {
						k.Fail("", "%s: adding %d clears a bit", in, v)
					}
				}
				for _, p := range pos {
					if d[p/8]&(1<<(p%8)) == 0 {
						k.Fail("", "%s: adding %d leaves bit %d unset", in, v, p)
					}
				}
				for _, w := range vals[:i+1] {
					if !f.Has(d, w) {
						k.Fail("", "%s: %d is missing after adding %d", in, w, v)
					}
				}
				if i+1 < len(vals) {
					// membership is the bits of the positions
					w := vals[i+1]
					has := true
					f.Ones(w, func(p int) bool { has = has && d[p/8]&(1<<uint(p%8)) != 0; return true })
					if f.Has(d, w) != has {
						k.Fail("", "%s: Has(%d) is %v, its bits say %v", in, w, !has, has)
					}
				}
			}
		})
	}
}
