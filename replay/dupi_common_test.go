package dupi

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"

	kit "github.com/go-air/dupi/internal/verifkit"
)

// An independent model of an index: documents, words, hashes, blots.

type vdoc struct {
	path, body string
	start      uint32
}

func (d vdoc) String() string { return fmt.Sprintf("%s@%d %q", d.path, d.start, d.body) }

func vwords(body string) (ws []string, at [][2]int) {
	s := -1
	for i, r := range body {
		if unicode.IsLetter(r) || unicode.IsDigit(r) {
			if s < 0 {
				s = i
			}
		} else if s >= 0 {
			ws, at = append(ws, body[s:i]), append(at, [2]int{s, i})
			s = -1
		}
	}
	if s >= 0 {
		ws, at = append(ws, body[s:]), append(at, [2]int{s, len(body)})
	}
	return
}

func vhash(w string) uint32 {
	h := uint32(2166136261)
	for _, b := range []byte(strings.ToLower(w)) {
		h = h*16777619 ^ uint32(b)
	}
	return h
}

// vblots: the blot at each word, of the window of every inter-th word
func vblots(ws []string, seq, inter int) []uint32 {
	var res []uint32
	for i := range ws {
		h := uint32(0)
		for j, n := i, 0; j >= 0 && n < seq; j, n = j-inter, n+1 {
			h ^= vhash(ws[j])
		}
		res = append(res, h)
	}
	return res
}

// vpost: the blots a document is stored under, full 32 bits
func vpost(body string, seqLen int) []uint32 {
	ws, _ := vwords(body)
	bs := vblots(ws, seqLen, 1)
	if len(bs) <= seqLen {
		return nil
	}
	return bs[seqLen:]
}

// vmodel: blot -> documents (positions in docs), in order, once each
func vmodel(docs []vdoc, seqLen, n int) map[uint32][]int {
	m := map[uint32][]int{}
	for i, d := range docs {
		for _, b := range vpost(d.body, seqLen) {
			b %= uint32(n) << 16
			if l := m[b]; len(l) == 0 || l[len(l)-1] != i {
				m[b] = append(l, i)
			}
		}
	}
	return m
}

func vdocKey(d vdoc) string {
	return fmt.Sprintf("%s %d %d", d.path, d.start, d.start+uint32(len(d.body)))
}

func vgotKey(d *Doc) string { return fmt.Sprintf("%s %d %d", d.Path, d.Start, d.End) }

type vcfg struct {
	shards, seqLen, shatters, flush int
}

func (c vcfg) String() string {
	return fmt.Sprintf("%d shards, sequence length %d, %d workers, flush rate %d", c.shards, c.seqLen, c.shatters, c.flush)
}

func vadd(x *Indexer, docs []vdoc) error {
	for _, d := range docs {
		doc := NewDoc(d.path, d.body)
		doc.Start, doc.End = d.start, d.start+uint32(len(d.body))
		if err := x.Add(doc); err != nil {
			return err
		}
	}
	return nil
}

// vbuild makes an index of the documents, one session per list.
func vbuild(root string, c vcfg, sessions ...[]vdoc) error {
	cfg, err := NewConfig(root, c.shards, c.seqLen)
	if err != nil {
		return fmt.Errorf("NewConfig: %w", err)
	}
	if c.shatters > 0 {
		cfg.NumShatters = c.shatters
	}
	if c.flush > 0 {
		cfg.DocFlushRate = c.flush
	}
	x, err := IndexerFromConfig(cfg)
	if err != nil {
		return fmt.Errorf("IndexerFromConfig: %w", err)
	}
	for i, s := range sessions {
		if i > 0 {
			x, err = OpenIndexer(root)
			if err != nil {
				return fmt.Errorf("OpenIndexer: %w", err)
			}
		}
		if err := vadd(x, s); err != nil {
			return fmt.Errorf("Add: %w", err)
		}
		if err := x.Close(); err != nil {
			return fmt.Errorf("Close: %w", err)
		}
	}
	return nil
}

// vget asks for all documents of a blot.
func vget(x *Index, b uint32) ([]string, error) {
	bl := Blot{Blot: b}
	if err := x.StartQuery(QueryMaxBlot).Get(&bl); err != nil {
		return nil, err
	}
	var res []string
	for i := range bl.Docs {
		res = append(res, vgotKey(&bl.Docs[i]))
	}
	return res, nil
}

// vextract runs a query to its end.
func vextract(x *Index, slots int) (blots []Blot, err error) {
	q := x.StartQuery(QueryMaxBlot)
	for steps := 0; ; steps++ {
		dst := make([]Blot, slots)
		n, err := q.Next(dst)
		if n < 0 || n > slots {
			return nil, fmt.Errorf("Next reports %d of %d slots", n, slots)
		}
		blots = append(blots, dst[:n]...)
		if err == io.EOF {
			return blots, nil
		}
		if err != nil {
			return nil, err
		}
		if steps > 1<<21 {
			return nil, fmt.Errorf("no end after %d calls", steps)
		}
	}
}

func vkeys(docs []vdoc, is []int) []string {
	var r []string
	for _, i := range is {
		r = append(r, vdocKey(docs[i]))
	}
	return r
}

// vrand: random documents with shared passages over few words
func vrand(k *kit.K, dir string, n, maxWords int) []vdoc {
	vocab := []string{"a", "B", "the", "The", "zwölf", "9", "x1", "字", "fish", "Q"}
	seps := []string{" ", "  ", ", ", "\n", " - "}
	var runs [][]string
	for i := 0; i < 4; i++ {
		var r []string
		for j := 2 + k.Rng.Intn(6); j > 0; j-- {
			r = append(r, vocab[k.Rng.Intn(len(vocab))])
		}
		runs = append(runs, r)
	}
	var docs []vdoc
	for i := 0; i < n; i++ {
		var b strings.Builder
		for m := k.Rng.Intn(maxWords + 1); m > 0; {
			ws := []string{vocab[k.Rng.Intn(len(vocab))]}
			if k.Rng.Intn(2) == 0 {
				ws = runs[k.Rng.Intn(len(runs))]
			}
			for _, w := range ws {
				if k.Rng.Intn(4) == 0 {
					w = strings.ToUpper(w)
				}
				b.WriteString(w)
				b.WriteString(seps[k.Rng.Intn(len(seps))])
			}
			m -= len(ws)
		}
		body := b.String()
		if k.Rng.Intn(2) == 0 {
			body = strings.TrimSpace(body)
		}
		d := vdoc{path: filepath.Join(dir, fmt.Sprintf("d%d", k.Rng.Intn(n)), fmt.Sprintf("f%d", i)), body: body}
		if k.Rng.Intn(2) == 0 {
			d.start = uint32(k.Rng.Intn(1000))
		}
		docs = append(docs, d)
	}
	return docs
}

// vfiles: what is in a directory
func vfiles(root string) map[string]string {
	m := map[string]string{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			m[p] = err.Error()
			return nil
		}
		if fi.IsDir() {
			m[p] = "dir"
			return nil
		}
		d, err := os.ReadFile(p)
		m[p] = fmt.Sprintf("%x %v", d, err)
		return nil
	})
	return m
}

func vdiff(a, b map[string]string) string {
	var out []string
	for p, v := range a {
		if b[p] != v {
			out = append(out, p)
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// vmany: n documents with the words a, b, c, ... and one of their own
func vmany(dir string, n, words int) []vdoc {
	var docs []vdoc
	for i := 0; i < n; i++ {
		docs = append(docs, vdoc{path: filepath.Join(dir, "m", fmt.Sprint(i)), body: strings.Repeat("same ", words) + fmt.Sprint(i)})
	}
	return docs
}

// vwide: two documents with the same n different words
func vwide(k *kit.K, dir string, n int) []vdoc {
	var b strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "%x ", k.Rng.Uint32())
	}
	return []vdoc{{path: filepath.Join(dir, "w1"), body: b.String()}, {path: filepath.Join(dir, "w2"), body: "x y z " + b.String()}}
}
