package dupi

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"

	kit "github.com/go-air/dupi/internal/verifkit"
)

// TestVerifC16: creating over something, and removing.
func TestVerifC16(t *testing.T) {
	k := kit.New(t, "creating at the path of an empty directory, a directory with files named like index files, a file, an index, links to these, a dangling link; creating at a free path; removing indexes and open indexers with neighbours of similar names; non-trivial: all")
	dir := k.TempDir()
	things := map[string]func(p string){
		"an empty directory": func(p string) { os.Mkdir(p, 0755) },
		"a file":             func(p string) { os.WriteFile(p, []byte("precious"), 0644) },
		"an empty file":      func(p string) { os.WriteFile(p, nil, 0600) },
		"a directory with files": func(p string) {
			os.MkdirAll(filepath.Join(p, "sub"), 0755)
			for _, f := range []string{"dmd", "cfg.json", "files.fnm", "b0.pos", "b0.pos.iix", "b1.pos", "b1.pos.iix", "other", "sub/x"} {
				os.WriteFile(filepath.Join(p, f), []byte("precious "+f), 0644)
			}
		},
		"an index": func(p string) {
			if err := vbuild(p, vcfg{2, 2, 1, 0}, []vdoc{{path: "/a", body: "a b c d"}, {path: "/b", body: "a b c d"}}); err != nil {
				k.Fail("", "making an index: %v", err)
			}
		},
		"an index with other settings": func(p string) {
			if err := vbuild(p, vcfg{1, 5, 1, 1}, []vdoc{{path: "/a", body: "a b c d e f g"}}); err != nil {
				k.Fail("", "making an index: %v", err)
			}
		},
	}
	create := map[string]func(p string) (*Indexer, error){
		"CreateIndexer":              func(p string) (*Indexer, error) { return CreateIndexer(p, 2, 2) },
		"CreateIndexer with 1 shard": func(p string) (*Indexer, error) { return CreateIndexer(p, 1, 10) },
		"IndexerFromConfig": func(p string) (*Indexer, error) {
			c, err := DefaultConfig(p)
			if err != nil {
				return nil, err
			}
			return IndexerFromConfig(c)
		},
	}
	n := 0
	for tn, make := range things {
		for cn, mk := range create {
			for _, link := range []string{"", "link", "slash"} {
				n++
				d := filepath.Join(dir, fmt.Sprintf("d%d", n))
				os.Mkdir(d, 0755)
				p := filepath.Join(d, "x")
				make(p)
				at := p
				if link == "link" {
					at = filepath.Join(d, "l")
					os.Symlink(p, at)
				} else if link == "slash" {
					at = p + "/"
				}
				in := fmt.Sprintf("%s at %s (%s)", cn, tn, link)
				k.Case(in)
				k.Do(in, func() {
					before := vfiles(p)
					fi, _ := os.Lstat(p)
					x, err := mk(at)
					if err == nil {
						k.Fail("", "%s: succeeds: %v", in, x)
					}
					if diff := vdiff(before, vfiles(p)); diff != "" {
						k.Fail("", "%s: fails and changes %s", in, diff)
					}
					if fi2, err := os.Lstat(p); err != nil || fi2.Mode() != fi.Mode() {
						k.Fail("", "%s: mode changes from %v to %v (%v)", in, fi.Mode(), fi2, err)
					}
					if tn == "an index" {
						y, err := OpenIndex(p)
						if err != nil {
							k.Fail("", "%s: the index cannot be opened afterwards: %v", in, err)
						}
						defer y.Close()
						if got, err := vget(y, vpost("a b c d", 2)[0]%(2<<16)); err != nil || len(got) != 2 {
							k.Fail("", "%s: the index has %q afterwards (%v)", in, got, err)
						}
					}
				})
			}
		}
	}
	// a dangling link
	p := filepath.Join(dir, "dangling")
	os.Symlink(filepath.Join(dir, "nowhere"), p)
	k.Case("a dangling link")
	if _, err := CreateIndexer(p, 1, 1); err == nil {
		k.Fail("", "CreateIndexer at a dangling link succeeds")
	}
	if _, err := os.Lstat(filepath.Join(dir, "nowhere")); err == nil {
		k.Fail("", "CreateIndexer at a dangling link makes its target")
	}
	// new indexes are empty; removing them removes them only
	for i, c := range []vcfg{{1, 1, 1, 1}, {2, 10, 2, 0}, {3, 2, 1, 5}} {
		for _, how := range []string{"RemoveIndex", "RemoveIndexer", "RemoveIndexer after adding", "RemoveIndexer of a reopened index"} {
			d := filepath.Join(dir, fmt.Sprintf("r%d-%s", i, how))
			os.Mkdir(d, 0755)
			p := filepath.Join(d, "x")
			for _, f := range []string{"x2", "y", "x.data", "w", "doc.txt", "x.bak", "x.old", "x~", "x.tmp", "x.lock.bak", ".x", "x.new", "x.iix", "x.pos", "x.json", "x0", "x-1", "X", "dmd", "cfg.json", "files.fnm", "b0.pos", "b0.pos.iix", "lock"} {
				switch i {
				case 0:
					os.WriteFile(filepath.Join(d, f), []byte("precious "+f), 0644)
				case 1:
					os.Mkdir(filepath.Join(d, f), 0755)
				default:
					os.Mkdir(filepath.Join(d, f), 0755)
					os.WriteFile(filepath.Join(d, f, "dmd"), []byte("precious "+f), 0644)
				}
			}
			in := fmt.Sprintf("%s, %v", how, c)
			k.Case(in)
			k.Do(in, func() {
				doc := vdoc{path: filepath.Join(d, "y", "dmd"), body: "a b c d e f g h i j k l m"}
				before := vfiles(d)
				if how == "RemoveIndex" || how == "RemoveIndexer of a reopened index" {
					if err := vbuild(p, c, []vdoc{}); err != nil {
						k.Fail("", "%s: %v", in, err)
					}
				}
				if how == "RemoveIndex" {
					x, err := OpenIndex(p)
					if err != nil {
						k.Fail("", "%s: %v", in, err)
					}
					st, err := x.Stats()
					if err != nil || st.NumDocs != 0 || st.NumPosts != 0 || st.NumPaths != 1 {
						k.Fail("", "%s: a new index has %+v (%v)", in, st, err)
					}
					if bl, err := vextract(x, 3); err != nil || len(bl) != 0 {
						k.Fail("", "%s: a new index has blots %v (%v)", in, bl, err)
					}
					if err := RemoveIndex(x); err != nil {
						k.Fail("", "%s: %v", in, err)
					}
				} else {
					var x *Indexer
					var err error
					if how == "RemoveIndexer of a reopened index" {
						x, err = OpenIndexer(p)
					} else {
						x, err = CreateIndexer(p, c.shards, c.seqLen)
					}
					if err != nil {
						k.Fail("", "%s: %v", in, err)
					}
					if how != "RemoveIndexer" {
						if err := vadd(x, []vdoc{doc, doc}); err != nil {
							k.Fail("", "%s: %v", in, err)
						}
					}
					if err := RemoveIndexer(x); err != nil {
						k.Fail("", "%s: %v", in, err)
					}
				}
				if _, err := os.Lstat(p); err == nil {
					k.Fail("", "%s: the directory is still there", in)
				}
				after := vfiles(d)
				delete(after, p+".lock")
				if diff := vdiff(before, after); diff != "" {
					k.Fail("", "%s: also changed: %s", in, diff)
				}
			})
		}
	}
}
