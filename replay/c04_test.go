package dupi

import (
	"bytes"
	"fmt"
	"path/filepath"
	"strings"
	"testing"

	kit "github.com/go-air/dupi/internal/verifkit"
)

// TestVerifC04: the path table.
func TestVerifC04(t *testing.T) {
	k := kit.New(t, "random sequences of absolute and relative paths with shared prefixes, repeated and equal components, dots, the root, long and non-ASCII names; written and read back in between, then continued; non-trivial: a path is a prefix of another or repeated")
	names := []string{"a", "b", "a", "ab", "x.y", "..b", "...", " ", "ä", "\xff\xfe", "a b", strings.Repeat("n", 127), strings.Repeat("m", 128), strings.Repeat("q", 300), "\n", "c", "1"}
	vary := func(p string) string {
		switch k.Rng.Intn(10) {
		case 0:
			return p + "."
		case 1:
			return p + " "
		case 2:
			return strings.ToUpper(p)
		case 3:
			return "." + p
		case 4:
			return " " + p
		case 5:
			return p + []string{"~", "\\", ":", "%2F", "\x00", "\t", "-", "_", "0", "1", "\u0301", "..", "*", "?"}[k.Rng.Intn(14)]
		case 6:
			b := make([]byte, 1+k.Rng.Intn(5))
			for i := range b {
				if b[i] = byte(k.Rng.Intn(256)); b[i] == '/' {
					b[i] = '!'
				}
			}
			return p + string(b)
		case 7:
			return p + p
		case 8:
			return p[:len(p)-k.Rng.Intn(len(p))]
		}
		return strings.ToLower(p)
	}
	for n := 0; k.More(n, 6000); n++ {
		var paths []string
		nn := 3 + k.Rng.Intn(len(names)-2)
		names := append([]string{}, names...)
		if n%2 == 0 {
			for i := range names[:nn] {
				if k.Rng.Intn(2) == 0 {
					names[i] = vary(names[k.Rng.Intn(nn)])
				}
			}
		}
		for i := 1 + k.Rng.Intn(25); i > 0; i-- {
			var ps []string
			deep := 6
			if n%50 == 0 {
				deep = 200
			}
			for j := k.Rng.Intn(deep); j > 0; j-- {
				ps = append(ps, names[k.Rng.Intn(nn)])
			}
			p := "/" + strings.Join(ps, "/")
			switch k.Rng.Intn(12) {
			case 0:
				p = strings.TrimPrefix(p, "/") // relative to the working directory
			case 1:
				p += "/"
			case 2:
				p = "//" + p + "/./b/../c"
			case 3:
				p = "../" + strings.TrimPrefix(p, "/")
			case 4:
				if len(paths) > 0 {
					p = paths[k.Rng.Intn(len(paths))]
				}
			}
			paths = append(paths, p)
		}
		cut := k.Rng.Intn(len(paths) + 1)
		in := fmt.Sprintf("paths %q, table written and read back after %d", paths, cut)
		k.Do(in, func() {
			s := newFnames()
			ids := map[string]uint32{}
			back := map[uint32]string{}
			key := ""
			verify := func(when string) {
				for id, abs := range back {
					if got := s.abs(id); got != abs {
						k.Fail("", "%s: %s: id %d is %q, was given out for %q", in, when, id, got, abs)
					}
				}
			}
			for i := 0; i <= len(paths); i++ {
				if i == cut {
					for r := 0; r < 2; r++ {
						var w bytes.Buffer
						if err := s.write(&w); err != nil {
							k.Fail("", "%s: write: %v", in, err)
						}
						d := w.String()
						s2, err := readFnames(&w)
						if err != nil {
							k.Fail("", "%s: read: %v", in, err)
						}
						if len(s2.d) != len(s.d) {
							k.Fail("", "%s: %d nodes written, %d read", in, len(s.d), len(s2.d))
						}
						s = s2
						verify(fmt.Sprintf("after reading back %q", d))
					}
				}
				if i == len(paths) {
					break
				}
				abs, err := filepath.Abs(paths[i])
				if err != nil {
					t.Fatal(err)
				}
				id, err := s.addPath(paths[i])
				if err != nil {
					k.Fail("", "%s: adding %q: %v", in, paths[i], err)
				}
				if old, ok := ids[abs]; ok {
					key = in
					if old != id {
						k.Fail("", "%s: %q has id %d, now %d", in, abs, old, id)
					}
				}
				if o, ok := back[id]; ok && o != abs {
					k.Fail("", "%s: id %d of %q is also given to %q", in, id, o, abs)
				}
				ids[abs], back[id] = id, abs
				if got := s.abs(id); got != abs {
					k.Fail("", "%s: id %d of %q gives back %q", in, id, abs, got)
				}
			}
			verify("at the end")
			k.Case(key)
		})
	}
	// a large table
	k.Do("66000 directories with a file each", func() {
		s := newFnames()
		ids := map[string]uint32{}
		for i := 0; i < 66000; i++ {
			p := fmt.Sprintf("/d%d/f", i)
			id, err := s.addPath(p)
			if err != nil {
				k.Fail("", "large table: %v", err)
			}
			ids[p] = id
		}
		var w bytes.Buffer
		if err := s.write(&w); err != nil {
			k.Fail("", "large table: write: %v", err)
		}
		s2, err := readFnames(&w)
		if err != nil {
			k.Fail("", "large table: read: %v", err)
		}
		for p, id := range ids {
			if a, b := s.abs(id), s2.abs(id); a != p || b != p {
				k.Fail("", "large table: id %d given out for %q is %q, after reading back %q", id, p, a, b)
			}
		}
		for p, id := range ids {
			if got, err := s2.addPath(p); err != nil || got != id {
				k.Fail("", "large table: %q had id %d, after reading back %d (%v)", p, id, got, err)
			}
		}
	})
}
