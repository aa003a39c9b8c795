package dupi

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"

	kit "github.com/go-air/dupi/internal/verifkit"
)

// TestVerifC13: the configuration.
func TestVerifC13(t *testing.T) {
	k := kit.New(t, "NewConfig for shard counts and sequence lengths around the limits; every single inconsistency or non-positive size refused when an index is created and when it is opened; random configs written over longer and shorter ones and read back; indexes with unusual configs; non-trivial: all")
	dir := k.TempDir()
	n := 0
	path := func() string { n++; return filepath.Join(dir, fmt.Sprintf("c%d", n)) }
	for _, sh := range []int{1, 2, 3, 16, 255, 256, 1000, 65535} {
		for _, sl := range []int{1, 2, 3, 5, 9, 10, 11, 100, 1 << 20} {
			in := fmt.Sprintf("%d shards, sequence length %d", sh, sl)
			k.Case(in)
			r := path()
			c, err := NewConfig(r, sh, sl)
			if err != nil {
				k.Fail("", "%s: refused: %v", in, err)
			}
			if c.NumShards != sh || c.SeqLen != sl || c.BlotConfig.SeqLen*c.BlotConfig.Interleave != sl || c.IndexRoot != r || c.NumShatters < 1 || c.DocFlushRate < 1 {
				k.Fail("", "%s: the config is %+v", in, *c)
			}
		}
	}
	for _, bad := range [][2]int{{0, 3}, {-1, 3}, {3, 0}, {3, -1}, {0, 0}, {-65536, 1}} {
		k.Case(fmt.Sprint("NewConfig ", bad))
		if c, err := NewConfig(path(), bad[0], bad[1]); err == nil {
			k.Fail("", "%d shards, sequence length %d: accepted as %+v", bad[0], bad[1], *c)
		}
	}
	if c, err := DefaultConfig(path()); err != nil || c.SeqLen != c.BlotConfig.SeqLen*c.BlotConfig.Interleave || c.NumShards < 1 {
		k.Fail("", "the default config is %+v (%v)", c, err)
	}
	// inconsistent configs
	type mut struct {
		name string
		f    func(c *Config)
	}
	muts := []mut{}
	for _, v := range []int{0, -1, -7} {
		v := v
		muts = append(muts,
			mut{fmt.Sprintf("NumShards=%d", v), func(c *Config) { c.NumShards = v }},
			mut{fmt.Sprintf("NumShatters=%d", v), func(c *Config) { c.NumShatters = v }},
			mut{fmt.Sprintf("DocFlushRate=%d", v), func(c *Config) { c.DocFlushRate = v }},
			mut{fmt.Sprintf("SeqLen=%d", v), func(c *Config) { c.SeqLen = v }},
			mut{fmt.Sprintf("BlotConfig.SeqLen=%d", v), func(c *Config) { c.BlotConfig.SeqLen = v }},
			mut{fmt.Sprintf("BlotConfig.Interleave=%d", v), func(c *Config) { c.BlotConfig.Interleave = v }},
			mut{fmt.Sprintf("SeqLen=%d both", v), func(c *Config) { c.SeqLen, c.BlotConfig.SeqLen = v, v }},
			mut{fmt.Sprintf("BlotConfig negated %d", v), func(c *Config) { c.SeqLen, c.BlotConfig.SeqLen, c.BlotConfig.Interleave = 2, -2, -1 }})
	}
	for _, v := range []int{1, 2, 4, 5, 6, 7, 12, 100} {
		v := v
		muts = append(muts,
			mut{fmt.Sprintf("SeqLen=%d of 3", v), func(c *Config) { c.SeqLen = v }},
			mut{fmt.Sprintf("BlotConfig.SeqLen=%d of 3", v), func(c *Config) { c.BlotConfig.SeqLen = v }})
		if v > 1 {
			muts = append(muts, mut{fmt.Sprintf("BlotConfig.Interleave=%d of 1", v), func(c *Config) { c.BlotConfig.Interleave = v }})
		}
	}
	muts = append(muts, mut{"SeqLen=11, an interleaving of 3 and a product that overflows to 11", func(c *Config) {
		c.SeqLen, c.BlotConfig.Interleave, c.BlotConfig.SeqLen = 11, 3, 6148914691236517209
	}})
	for _, m := range muts {
		k.Case(m.name)
		k.Do(m.name, func() {
			r := path()
			c, err := NewConfig(r, 1, 3)
			if err != nil {
				k.Fail("", "1 shard, sequence length 3: %v", err)
			}
			m.f(c)
			if x, err := IndexerFromConfig(c); err == nil {
				k.Fail("", "config with %s: an index is created: %+v, indexer %v", m.name, *c, x)
			}
			if _, err := os.Stat(r); err == nil {
				k.Fail("", "config with %s: refused, but the directory is made", m.name)
			}
			// and when read
			if err := os.Mkdir(r, 0755); err != nil {
				t.Fatal(err)
			}
			if err := c.Write(); err != nil {
				t.Fatal(err)
			}
			if d, err := ReadConfig(c.Path()); err == nil {
				k.Fail("", "config with %s: read as %+v", m.name, *d)
			}
			if _, err := ReadConfigFromRoot(r); err == nil {
				k.Fail("", "config with %s: read from the root", m.name)
			}
		})
	}
	// written over others and read back
	r := path()
	os.Mkdir(r, 0755)
	for i := 0; k.More(i, 3000); i++ {
		c, err := NewConfig(r, 1+k.Rng.Intn(1<<uint(1+k.Rng.Intn(15))), 1+k.Rng.Intn(1<<uint(1+k.Rng.Intn(20))))
		if err != nil {
			k.Fail("", "NewConfig: %v", err)
		}
		c.NumShatters = 1 + k.Rng.Intn(1000)
		c.DocFlushRate = 1 + k.Rng.Intn(1<<uint(1+k.Rng.Intn(29)))
		if k.Rng.Intn(3) == 0 {
			c.BlotConfig.Interleave = 1 + k.Rng.Intn(5)
			c.SeqLen = c.BlotConfig.SeqLen * c.BlotConfig.Interleave
		}
		in := fmt.Sprintf("config %+v", *c)
		k.Case(in)
		k.Do(in, func() {
			if err := c.Write(); err != nil {
				k.Fail("", "%s: %v", in, err)
			}
			d, err := ReadConfigFromRoot(r)
			if err != nil || *d != *c {
				k.Fail("", "%s: read back as %+v (%v)", in, d, err)
			}
			if d, err = ReadConfig(c.Path()); err != nil || *d != *c {
				k.Fail("", "%s: read back as %+v (%v)", in, d, err)
			}
		})
	}
	// honoured
	docs := []vdoc{{path: "/a", body: "one two three four five six seven eight nine ten eleven twelve"}, {path: "/b", body: "zero one two three four five six seven eight nine ten eleven twelve thirteen"}}
	for _, c := range []vcfg{{1, 1, 1, 1}, {3, 2, 3, 1}, {5, 11, 2, 7}, {2, 10, 1, 0}, {4, 4, 4, 2}} {
		for inter := 1; inter <= c.seqLen && inter <= 2; inter++ {
			if c.seqLen%inter != 0 {
				continue
			}
			in := fmt.Sprintf("%v, interleaving %d, documents %q", c, inter, docs)
			k.Case(in)
			k.Do(in, func() {
				root := path()
				cfg, err := NewConfig(root, c.shards, c.seqLen)
				if err != nil {
					k.Fail("", "%s: %v", in, err)
				}
				cfg.BlotConfig.Interleave, cfg.BlotConfig.SeqLen = inter, c.seqLen/inter
				cfg.NumShatters = c.shatters
				if c.flush > 0 {
					cfg.DocFlushRate = c.flush
				}
				want := *cfg
				x, err := IndexerFromConfig(cfg)
				if err != nil {
					k.Fail("", "%s: %v", in, err)
				}
				for s := 0; ; s++ {
					if err := vadd(x, docs[s:s+1]); err != nil {
						k.Fail("", "%s: %v", in, err)
					}
					if err := x.Close(); err != nil {
						k.Fail("", "%s: %v", in, err)
					}
					if got, err := ReadConfigFromRoot(root); err != nil || *got != want {
						k.Fail("", "%s: config read back as %+v (%v), want %+v", in, got, err, want)
					}
					if s == 1 {
						break
					}
					if x, err = OpenIndexer(root); err != nil {
						k.Fail("", "%s: %v", in, err)
					}
				}
				y, err := OpenIndex(root)
				if err != nil {
					k.Fail("", "%s: %v", in, err)
				}
				defer y.Close()
				if y.NumShards() != c.shards || y.SeqLen() != c.seqLen || y.NumShatters() != c.shatters || y.Root() != root {
					k.Fail("", "%s: opened with %d shards, sequence length %d, %d workers at %s", in, y.NumShards(), y.SeqLen(), y.NumShatters(), y.Root())
				}
				for i, d := range docs {
					ws, _ := vwords(d.body)
					bs := vblots(ws, c.seqLen/inter, inter)[c.seqLen:]
					if got := y.BlotDoc(nil, NewDoc(d.path, d.body)); fmt.Sprint(got) != fmt.Sprint(bs) {
						k.Fail("", "%s: blots of document %d are %x, want %x", in, i, got, bs)
					}
					for _, b := range bs {
						b %= uint32(c.shards) << 16
						got, err := vget(y, b)
						ok := false
						for _, g := range got {
							ok = ok || g == vdocKey(d)
						}
						if err != nil || !ok {
							k.Fail("", "%s: blot %x of document %d has %q (%v)", in, b, i, got, err)
						}
					}
				}
			})
		}
	}
}
