package dupi

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"testing"

	kit "github.com/go-air/dupi/internal/verifkit"
)

// TestVerifC21: damaged files.
func TestVerifC21(t *testing.T) {
	k := kit.New(t, "an index of 500 documents in one shard; each data file truncated everywhere near its structure or with bytes changed, then opened, listed, queried, measured (memory) and, for some, appended to; non-trivial: the damage is in the file's used part")
	dir := k.TempDir()
	root := dir + "/x"
	c := vcfg{1, 1, 2, 64}
	var docs []vdoc
	for i := 0; i < 500; i++ {
		docs = append(docs, vdoc{path: fmt.Sprintf("%s/p%d/q%d", dir, i%3, i%5), body: fmt.Sprintf("aa bb cc %d dd", i/2), start: uint32(i)})
	}
	if err := vbuild(root, c, docs[:200], docs[200:]); err != nil {
		t.Fatal(err)
	}
	orig := map[string][]byte{}
	var names []string
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || filepath.Ext(p) == ".json" || filepath.Ext(p) == ".lock" || filepath.Base(p) == "config" {
			return nil
		}
		d, _ := os.ReadFile(p)
		if len(d) == 0 || d[0] == '{' {
			return nil
		}
		orig[p] = d
		names = append(names, p)
		return nil
	})
	if len(names) < 4 {
		k.Fail("", "an index has only the data files %v", names)
	}
	nap := 0
	for n := 0; k.More(n, 900); n++ {
		p := names[n%len(names)]
		d := append([]byte{}, orig[p]...)
		pos := k.Rng.Intn(len(d))
		switch k.Rng.Intn(4) {
		case 0:
			if pos > 40 {
				pos = k.Rng.Intn(40)
			}
		case 1:
			if len(d)-pos > 40 {
				pos = len(d) - 1 - k.Rng.Intn(40)
			}
		}
		what := ""
		switch k.Rng.Intn(6) {
		case 0:
			d = d[:pos]
			what = fmt.Sprintf("truncated at %d", pos)
		case 1:
			d[pos] ^= 1 << uint(k.Rng.Intn(8))
			what = fmt.Sprintf("byte %d changed to %#x", pos, d[pos])
		case 2:
			d[pos] = []byte{0, 0xff, 0x7f, 0x80, 1}[k.Rng.Intn(5)]
			what = fmt.Sprintf("byte %d changed to %#x", pos, d[pos])
		case 3:
			for i := pos; i < len(d) && i < pos+12; i++ {
				d[i] = 0xff
			}
			what = fmt.Sprintf("12 bytes from %d changed to 0xff", pos)
		case 4:
			v := []byte{0xff, 0xff, 0xff, 0xff, byte(k.Rng.Intn(32))}
			copy(d[pos:], v)
			what = fmt.Sprintf("bytes from %d changed to %x", pos, v)
		case 5:
			for i := pos; i < len(d) && i < pos+8; i++ {
				d[i] = byte(k.Rng.Intn(256))
			}
			what = fmt.Sprintf("8 bytes from %d changed to %x", pos, d[pos:min2(len(d), pos+8)])
		}
		in := fmt.Sprintf("file %s (%d bytes) of an index of 500 documents, %s", filepath.Base(p), len(orig[p]), what)
		if err := os.WriteFile(p, d, 0o644); err != nil {
			t.Fatal(err)
		}
		k.Case(in)
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		k.Do("reading: "+in, func() { vreadAll(x21{k, in}, root, docs) })
		runtime.ReadMemStats(&m1)
		if a := m1.TotalAlloc - m0.TotalAlloc; a > 300<<20 {
			k.Fail("", "%s: reading it allocates %d MB", in, a>>20)
		}
		if nap < 60 || k.Thorough {
			if k.Rng.Intn(6) == 0 {
				nap++
				k.Do("appending: "+in, func() {
					x, err := OpenIndexer(root)
					if err != nil {
						return
					}
					vadd(x, docs[:3])
					x.Close()
				})
				runtime.ReadMemStats(&m0)
				if a := m0.TotalAlloc - m1.TotalAlloc; a > 500<<20 {
					k.Fail("", "%s: appending allocates %d MB", in, a>>20)
				}
			}
		}
		for _, p := range names {
			if err := os.WriteFile(p, orig[p], 0o644); err != nil {
				t.Fatal(err)
			}
		}
	}
	// more documents listed than there are: every id the lists can name
	for n := 0; k.More(n, 6); n++ {
		var fl string
		for _, p := range names {
			if filepath.Base(p) == "dmd" {
				fl = p
			}
		}
		if fl == "" {
			break
		}
		os.WriteFile(fl, orig[fl][:12*(500-80*n)], 0o644)
		in := fmt.Sprintf("document table cut to %d entries", 500-80*n)
		k.Case(in)
		k.Do(in, func() { vreadAll(x21{k, in}, root, docs) })
		os.WriteFile(fl, orig[fl], 0o644)
	}
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

type x21 struct {
	k  *kit.K
	in string
}

// vreadAll opens and reads all of an index, taking errors as they come.
func vreadAll(r x21, root string, docs []vdoc) {
	x, err := OpenIndex(root)
	if err != nil {
		return
	}
	defer x.Close()
	x.Stats()
	for _, slots := range []int{1, 40} {
		q := x.StartQuery(QueryMaxBlot)
		bad := 0
		for steps := 0; ; steps++ {
			if steps > 70000 {
				r.k.Fail("", "%s: extraction has no end", r.in)
			}
			dst := make([]Blot, slots)
			n, err := q.Next(dst)
			if err != nil && err != io.EOF && bad < 4 {
				bad++
				continue
			}
			if err != nil || n == 0 {
				break
			}
		}
	}
	for _, b := range vpost(docs[0].body+" "+docs[77].body, 1) {
		bl := Blot{Blot: b}
		x.StartQuery(QueryMaxBlot).Get(&bl)
		bl = Blot{Blot: b, Docs: make([]Doc, 0, 2)}
		x.StartQuery(QueryMaxBlot).Get(&bl)
	}
}
