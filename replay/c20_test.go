package dupi

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	kit "github.com/go-air/dupi/internal/verifkit"
)

// TestVerifC20: loading documents.
func TestVerifC20(t *testing.T) {
	k := kit.New(t, "files of 0 to 20000 bytes, spans inside, at and beyond the ends, whole files, documents with data of earlier loads, many documents of one file loaded in turn; non-trivial: span inside the file")
	dir := k.TempDir()
	sizes := []int{0, 1, 2, 3, 100, 511, 512, 513, 4095, 4096, 4097, 20000, 70000}
	type lf struct {
		p string
		b []byte
	}
	var fs []lf
	for i, n := range sizes {
		b := make([]byte, n)
		k.Rng.Read(b)
		p := filepath.Join(dir, fmt.Sprintf("f%d é", i))
		if err := os.WriteFile(p, b, 0644); err != nil {
			t.Fatal(err)
		}
		fs = append(fs, lf{p, b})
	}
	type loaded struct {
		d    *Doc
		want []byte
		in   string
	}
	var before []loaded
	one := func(f lf, d *Doc, in string) {
		s, e := d.Start, d.End
		k.Do(in, func() {
			err := d.Load()
			n := uint32(len(f.b))
			switch {
			case s == 0 && e == 0:
				if err != nil {
					k.Fail("", "%s: %v", in, err)
				}
				if !bytes.Equal(d.Dat, f.b) || d.End != n || d.Start != 0 {
					k.Fail("", "%s: span %d:%d, %d bytes, same bytes %v", in, d.Start, d.End, len(d.Dat), bytes.Equal(d.Dat, f.b))
				}
			case e < s || e > n && e > s:
				if err == nil {
					k.Fail("", "%s: no error; span %d:%d, %d bytes", in, d.Start, d.End, len(d.Dat))
				}
				k.Case("")
				return
			case s > n:
				// an empty span beyond the end
				if err == nil && len(d.Dat) != 0 {
					k.Fail("", "%s: %d bytes", in, len(d.Dat))
				}
				k.Case("")
				return
			default:
				if err != nil {
					k.Fail("", "%s: %v", in, err)
				}
				if !bytes.Equal(d.Dat, f.b[s:e]) || d.Start != s || d.End != e {
					k.Fail("", "%s: span %d:%d, %d bytes, right bytes %v", in, d.Start, d.End, len(d.Dat), bytes.Equal(d.Dat, f.b[s:e]))
				}
			}
			if d.Path != f.p {
				k.Fail("", "%s: path is now %q", in, d.Path)
			}
			before = append(before, loaded{d, append([]byte(nil), d.Dat...), in})
		})
		k.Case(in)
	}
	check := func(after string) {
		for _, l := range before {
			if !bytes.Equal(l.d.Dat, l.want) {
				k.Fail("", "the data of an earlier document (%s) changed after %s", l.in, after)
			}
		}
		for _, f := range fs {
			if b, err := os.ReadFile(f.p); err != nil || !bytes.Equal(b, f.b) {
				k.Fail("", "the file %s changed after %s", f.p, after)
			}
		}
		before = before[:0]
	}
	for i := 0; k.More(i, 300); i++ {
		f := fs[k.Rng.Intn(len(fs))]
		n := len(f.b)
		pick := func() uint32 {
			c := []int{0, 1, 2, n - 1, n, n + 1, n / 2, k.Rng.Intn(n + 1), k.Rng.Intn(n + 1), n + 5000, 1 << 31, 4294967295}
			x := c[k.Rng.Intn(len(c))]
			if x < 0 {
				x = 0
			}
			return uint32(x)
		}
		d := &Doc{Path: f.p, Start: pick(), End: pick()}
		if d.End > d.Start && uint64(d.End-d.Start) > 1<<24 && !k.Thorough {
			d.End = d.Start + 100000
			if d.End < d.Start {
				d.End = d.Start
			}
		}
		had := ""
		switch k.Rng.Intn(4) {
		case 0:
			d.Dat = []byte("earlier data which is longer than some")
			had = " with data"
		case 1:
			d.Dat = make([]byte, 10, 100000)
			had = " with room"
		}
		in := fmt.Sprintf("span %d:%d of a file of %d bytes%s", d.Start, d.End, n, had)
		one(f, d, in)
		if i%37 == 36 {
			check(in)
		}
		if k.Rng.Intn(3) == 0 {
			// another document sharing the slice
			d2 := &Doc{Path: f.p, Start: 0, End: 0, Dat: d.Dat[:0]}
			one(f, d2, "whole file "+in+" after it, sharing its old data")
			check(in)
		}
	}
	check("the end")
	for _, p := range []string{filepath.Join(dir, "missing"), dir} {
		for _, sp := range [][2]uint32{{0, 0}, {0, 5}, {3, 5}} {
			d := &Doc{Path: p, Start: sp[0], End: sp[1]}
			if err := d.Load(); err == nil {
				k.Fail("", "loading %d:%d of a missing file or directory: no error", sp[0], sp[1])
			}
		}
	}
	// a changed file
	p := filepath.Join(dir, "changing")
	for i := 0; i < 4; i++ {
		body := bytes.Repeat([]byte{byte('a' + i)}, 100-20*i)
		os.WriteFile(p, body, 0644)
		one(lf{p, body}, &Doc{Path: p, Start: 10, End: 30}, "a file rewritten")
		one(lf{p, body}, &Doc{Path: p, Start: 0, End: 90}, "a file rewritten shorter")
		one(lf{p, body}, &Doc{Path: p}, "a file rewritten, whole")
	}
}
