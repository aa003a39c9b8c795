package shard

import (
	"testing"

	kit "github.com/go-air/dupi/internal/verifkit"
)

func TestVerifC02(t *testing.T) {
	k := kit.New(t, "shards filled in 2 to 4 sessions (reopened for append in between), among them sessions without additions, with the last document of the session before again, and with single additions; non-trivial: lists longer than 200 documents")
	vshards(k, 12, func(n int) [][]vadd {
		hot := []uint16{0, 65535, uint16(k.Rng.Intn(1 << 16)), 9}
		hot = hot[k.Rng.Intn(3):]
		last := uint32(0)
		var ss [][]vadd
		for i := 2 + n%3; i > 0; i-- {
			var s []vadd
			if len(ss) > 0 && k.Rng.Intn(2) == 0 {
				// the last ones again
				p := ss[len(ss)-1]
				for j := range p {
					if p[j].doc == last {
						s = append(s, p[j])
					}
				}
			}
			if c := k.Rng.Intn(5); c == 0 {
				s = append(s, vadd{hot[0], last + 1})
				last++
			} else if c > 1 {
				s = append(s, vgen(k, 20+k.Rng.Intn(4000), &last, hot, n%4 == 3)...)
			}
			ss = append(ss, s)
		}
		return ss
	})
	// lists longer than 65535 before and after reopening, with large steps of ids
	k.Do("70000 documents of a blot, then 3 and 66000 more", func() {
		var ss [][]vadd
		last := uint32(0)
		for _, n := range []int{70000, 3, 66000} {
			var s []vadd
			for i := 0; i < n; i++ {
				last++
				if i%5000 == 4999 {
					last += 1 << 27
				}
				s = append(s, vadd{9, last})
				if i%30000 == 0 {
					s = append(s, vadd{10, last})
				}
			}
			ss = append(ss, s)
		}
		path := k.TempDir() + "/s"
		if err := vrun(path, ss); err != nil {
			k.Fail("", "%v", err)
		}
		x := &Index{}
		if err := x.Init(path); err != nil {
			k.Fail("", "%v", err)
		}
		defer x.Close()
		k.Case("136003 documents of a blot")
		if err := vcheck(x, ss); err != nil {
			k.Fail("", "%s: %v", vdesc(ss), err)
		}
	})
}
