package dupi

import (
	"fmt"
	"os"
	"path/filepath"
	"syscall"
	"testing"
	"time"

	kit "github.com/go-air/dupi/internal/verifkit"
)

// vlocked: 0 free, 1 shared, 2 exclusive
func vlocked(lockPath string) int {
	f, err := os.OpenFile(lockPath, os.O_RDWR, 0644)
	if err != nil {
		return 0
	}
	defer f.Close()
	if syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB) == nil {
		return 0
	}
	if syscall.Flock(int(f.Fd()), syscall.LOCK_SH|syscall.LOCK_NB) == nil {
		return 1
	}
	return 2
}

// vhold takes the lock from outside
func vhold(lockPath string, how int) (free func(), err error) {
	f, err := os.OpenFile(lockPath, os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		return nil, err
	}
	if err := syscall.Flock(int(f.Fd()), how); err != nil {
		return nil, err
	}
	return func() { f.Close() }, nil
}

type vopened struct {
	close func() error
	err   error
}

// TestVerifC12: one writer and no reader, or any number of readers.
func TestVerifC12(t *testing.T) {
	k := kit.New(t, "opens in all pairs (create, append, read) of one index, spelled in different ways; the state of the lock after each successful and failed open and close; opens while the lock is held from outside and the index replaced meanwhile; non-trivial: all")
	dir := k.TempDir()
	cwd, err := os.Getwd()
	if err != nil {
		t.Fatal(err)
	}
	ln := filepath.Join(dir, "ln")
	if err := os.Symlink(dir, ln); err != nil {
		t.Fatal(err)
	}
	rel := func(p string) string {
		r, err := filepath.Rel(cwd, p)
		if err != nil {
			return p
		}
		return r
	}
	docs := []vdoc{{path: "/a", body: "one two three four"}, {path: "/b", body: "one two three four"}}
	kinds := []string{"reader", "indexer"}
	open := func(kind, root string) vopened {
		if kind == "reader" {
			x, err := OpenIndex(root)
			if err != nil {
				return vopened{nil, err}
			}
			return vopened{x.Close, nil}
		}
		x, err := OpenIndexer(root)
		if err != nil {
			return vopened{nil, err}
		}
		return vopened{x.Close, nil}
	}
	want := map[string]int{"reader": 1, "indexer": 2}
	n := 0
	newIndex := func(c vcfg) string {
		n++
		root := filepath.Join(dir, fmt.Sprintf("x%d", n))
		if err := vbuild(root, c, docs); err != nil {
			k.Fail("", "%v: %v", c, err)
		}
		return root
	}
	one := vcfg{1, 1, 1, 0}
	root := newIndex(one)
	if s := vlocked(root + ".lock"); s != 0 {
		k.Fail("", "locked (%d) after creating and closing an index", s)
	}
	spell := []string{root, rel(root), root + "/", filepath.Join(ln, "x1"), rel(filepath.Join(ln, "x1"))}
	for _, a := range kinds {
		for _, b := range kinds {
			for i, sa := range spell {
				for j, sb := range spell {
					if i != 0 && j != 0 {
						continue
					}
					in := fmt.Sprintf("%s on %q, then %s on %q", a, sa, b, sb)
					k.Case(in)
					k.Do(in, func() {
						x := open(a, sa)
						if x.err != nil {
							k.Fail("", "%s: %v", in, x.err)
						}
						if s := vlocked(root + ".lock"); s != want[a] {
							k.Fail("", "%s: lock state %d when the first is open, want %d (0 free, 1 shared, 2 exclusive)", in, s, want[a])
						}
						ch := make(chan vopened, 1)
						go func() { ch <- open(b, sb) }()
						if a == "reader" && b == "reader" {
							y := <-ch
							if y.err != nil {
								k.Fail("", "%s: %v", in, y.err)
							}
							if err := x.close(); err != nil {
								k.Fail("", "%s: close: %v", in, err)
							}
							if s := vlocked(root + ".lock"); s != 1 {
								k.Fail("", "%s: lock state %d after closing the first of two readers", in, s)
							}
							y.close()
						} else {
							select {
							case y := <-ch:
								if y.err == nil {
									k.Fail("", "%s: both are open", in)
								}
							case <-time.After(30 * time.Millisecond):
							}
							if err := x.close(); err != nil {
								k.Fail("", "%s: close: %v", in, err)
							}
							select {
							case y := <-ch:
								if y.err != nil {
									k.Fail("", "%s: second open: %v", in, y.err)
								}
								if s := vlocked(root + ".lock"); s != want[b] {
									k.Fail("", "%s: lock state %d when the second is open", in, s)
								}
								y.close()
							case <-time.After(80 * time.Second):
								k.Fail("", "%s: the second is still waiting after the first was closed", in)
							}
						}
						if s := vlocked(root + ".lock"); s != 0 {
							k.Fail("", "%s: lock state %d after both are closed", in, s)
						}
					})
				}
			}
		}
	}
	// more shards, to their end
	for _, ns := range []int{5, 9, 20} {
		p := filepath.Join(dir, fmt.Sprintf("c%d", ns))
		k.Case(fmt.Sprintf("creating an index with %d shards", ns))
		k.Do("creating an index", func() {
			x, err := CreateIndexer(p, ns, 1)
			if err != nil {
				k.Fail("", "create with %d shards: %v", ns, err)
			}
			if s := vlocked(p + ".lock"); s != 2 {
				k.Fail("", "lock state %d while an index with %d shards is created", s, ns)
			}
			if err := x.Close(); err != nil {
				k.Fail("", "close of an index with %d shards: %v", ns, err)
			}
			if s := vlocked(p + ".lock"); s != 0 {
				k.Fail("", "lock state %d after an index with %d shards is created", s, ns)
			}
		})
		r := newIndex(vcfg{ns, 1, 1, 0})
		for _, a := range kinds {
			in := fmt.Sprintf("%s of an index with %d shards", a, ns)
			k.Case(in)
			k.Do(in, func() {
				x := open(a, r)
				if x.err != nil {
					k.Fail("", "%s: %v", in, x.err)
				}
				if s := vlocked(r + ".lock"); s != want[a] {
					k.Fail("", "%s: lock state %d when it is open, want %d (0 free, 1 shared, 2 exclusive)", in, s, want[a])
				}
				if err := x.close(); err != nil {
					k.Fail("", "%s: close: %v", in, err)
				}
				if s := vlocked(r + ".lock"); s != 0 {
					k.Fail("", "%s: lock state %d after closing", in, s)
				}
			})
		}
	}
	// an index being created
	{
		p := filepath.Join(dir, "new")
		x, err := CreateIndexer(p, 1, 1)
		if err != nil {
			k.Fail("", "create: %v", err)
		}
		if s := vlocked(p + ".lock"); s != 2 {
			k.Fail("", "lock state %d while an index is created", s)
		}
		for _, b := range append(kinds, "creator") {
			b := b
			k.Case("new index, then " + b)
			ch := make(chan vopened, 1)
			go func() {
				if b != "creator" {
					ch <- open(b, filepath.Join(ln, "new"))
					return
				}
				y, err := CreateIndexer(p, 1, 1)
				if err == nil {
					ch <- vopened{y.Close, nil}
				}
			}()
			select {
			case y := <-ch:
				if y.err == nil {
					k.Fail("", "a %s opens an index while it is created", b)
				}
			case <-time.After(30 * time.Millisecond):
				defer func() {
					go func() { // waits until the end
						if y := <-ch; y.err == nil {
							y.close()
						}
					}()
				}()
			}
		}
		_ = x // stays open: the process ends with it
	}
	// failing opens
	cases := map[string]func(root string){
		"no cfg.json":     func(r string) { os.Remove(filepath.Join(r, "cfg.json")) },
		"bad cfg.json":    func(r string) { os.WriteFile(filepath.Join(r, "cfg.json"), []byte("{"), 0644) },
		"no metadata":     func(r string) { os.Remove(filepath.Join(r, "dmd")) },
		"no path table":   func(r string) { os.Remove(filepath.Join(r, "files.fnm")) },
		"bad path table":  func(r string) { os.WriteFile(filepath.Join(r, "files.fnm"), []byte{9}, 0644) },
		"no posts":        func(r string) { os.Remove(filepath.Join(r, "b0.pos")) },
		"no posts of 1":   func(r string) { os.Remove(filepath.Join(r, "b1.pos")) },
		"no shard index":  func(r string) { os.Remove(filepath.Join(r, "b0.pos.iix")) },
		"bad shard index": func(r string) { os.WriteFile(filepath.Join(r, "b1.pos.iix"), []byte{1, 2, 3}, 0644) },
		"no directory":    func(r string) { os.RemoveAll(r) },
	}
	for name, damage := range cases {
		for _, a := range kinds {
			in := a + " of an index with " + name
			k.Case(in)
			r := newIndex(vcfg{2, 1, 1, 0})
			damage(r)
			k.Do(in, func() {
				x := open(a, r)
				if x.err == nil {
					x.close()
				}
				if s := vlocked(r + ".lock"); s != 0 {
					k.Fail("", "%s: lock state %d afterwards (error %v)", in, s, x.err)
				}
			})
		}
	}
	for _, c := range []string{"directory", "file"} {
		r := filepath.Join(dir, "taken-"+c)
		if c == "file" {
			os.WriteFile(r, nil, 0644)
		} else {
			os.Mkdir(r, 0755)
		}
		k.Case("create over a " + c)
		if _, err := CreateIndexer(r, 1, 1); err == nil {
			k.Fail("", "an index is created over a %s", c)
		}
		if s := vlocked(r + ".lock"); s != 0 {
			k.Fail("", "lock state %d after failing to create over a %s", s, c)
		}
	}
	// nothing is read before the lock is held: replace the index while an open waits
	for _, a := range kinds {
		in := a + " waiting for the lock while the index is replaced by one with 3 shards and other documents"
		k.Case(in)
		k.Do(in, func() {
			r := newIndex(one)
			n++
			r2 := filepath.Join(dir, fmt.Sprintf("x%d", n))
			if err := vbuild(r2, vcfg{3, 2, 1, 0}, []vdoc{{path: "/q", body: "a b c d"}, {path: "/r", body: "x a b c d"}, {path: "/s", body: "a b c d e"}}); err != nil {
				k.Fail("", "%v", err)
			}
			free, err := vhold(r+".lock", syscall.LOCK_EX)
			if err != nil {
				t.Fatal(err)
			}
			ch := make(chan vopened, 1)
			var rd *Index
			var wr *Indexer
			go func() {
				var e error
				if a == "reader" {
					rd, e = OpenIndex(r)
				} else {
					wr, e = OpenIndexer(r)
				}
				ch <- vopened{nil, e}
			}()
			select {
			case <-ch:
				k.Fail("", "%s: it does not wait", in)
			case <-time.After(60 * time.Millisecond):
			}
			// the new index, with the paths of its config
			cfg, err := ReadConfigFromRoot(r2)
			if err != nil {
				t.Fatal(err)
			}
			os.RemoveAll(r)
			if err := os.Rename(r2, r); err != nil {
				t.Fatal(err)
			}
			cfg.IndexRoot = r
			if err := cfg.Write(); err != nil {
				t.Fatal(err)
			}
			free()
			x := <-ch
			if x.err != nil {
				k.Fail("", "%s: %v", in, x.err)
			}
			if a == "indexer" {
				if err := vadd(wr, []vdoc{{path: "/t", body: "a b c d"}}); err != nil {
					k.Fail("", "%s: %v", in, err)
				}
				if err := wr.Close(); err != nil {
					k.Fail("", "%s: %v", in, err)
				}
				if rd, err = OpenIndex(r); err != nil {
					k.Fail("", "%s: %v", in, err)
				}
			}
			defer rd.Close()
			w := 3
			if a == "indexer" {
				w = 4
			}
			st, err := rd.Stats()
			if err != nil || int(st.NumDocs) != w || rd.NumShards() != 3 || rd.SeqLen() != 2 {
				k.Fail("", "%s: the index has %v, %d shards, sequence length %d (%v)", in, st, rd.NumShards(), rd.SeqLen(), err)
			}
			got, err := vget(rd, vpost("a b c d", 2)[0]%(3<<16))
			if err != nil || len(got) != w {
				k.Fail("", "%s: %q (%v)", in, got, err)
			}
		})
	}
}
