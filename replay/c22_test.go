package dupi

import (
	"fmt"
	"reflect"
	"strings"
	"sync"
	"testing"

	kit "github.com/go-air/dupi/internal/verifkit"
)

func vtables(x *Index) string {
	var b strings.Builder
	v := reflect.ValueOf(x).Elem()
	fmt.Fprintf(&b, "%+v\n", *x.config)
	for i := range x.fnames.d {
		f := &x.fnames.d[i]
		fmt.Fprintf(&b, "%d %s %v\n", f.parent, f.name, f.children)
	}
	sh := v.FieldByName("shards")
	for i := 0; i < sh.Len(); i++ {
		s := sh.Index(i)
		for j := 0; j < s.NumField(); j++ {
			switch f := s.Field(j); f.Kind() {
			case reflect.Uint32, reflect.Uint16, reflect.Uint64, reflect.Uint, reflect.Int, reflect.Int64, reflect.Int32, reflect.Bool, reflect.String:
				fmt.Fprintf(&b, "%s %v\n", s.Type().Field(j).Name, f)
			}
			if f := s.Field(j); f.Kind() == reflect.Array {
				h := uint64(14695981039346656037)
				for m := 0; m < f.Len(); m++ {
					e := f.Index(m)
					var w uint64
					switch e.Kind() {
					case reflect.Int64:
						w = uint64(e.Int())
					case reflect.Uint32, reflect.Uint16:
						w = e.Uint()
					}
					h = (h ^ w) * 1099511628211
				}
				fmt.Fprintf(&b, "%s %x\n", s.Type().Field(j).Name, h)
			}
		}
	}
	return b.String()
}

// TestVerifC22: queries leave everything as it was, and each other alone.
func TestVerifC22(t *testing.T) {
	k := kit.New(t, "random indexes; extractions, fetches and blot computations run one by one, then interleaved step by step, then from 12 goroutines at once, results compared with those of the first run and the files and tables with those before; non-trivial: some blot is shared")
	dir := k.TempDir()
	for n := 0; k.More(n, 10); n++ {
		c := vcfg{1 + n%3, 1 + k.Rng.Intn(3), 2, 0}
		docs := vrand(k, dir, []int{10, 60, 300, 6}[n%4], []int{20, 20, 8, 40}[n%4])
		root := fmt.Sprintf("%s/x%d", dir, n)
		in := fmt.Sprintf("%v, %d documents %.1000q", c, len(docs), docs)
		k.Do(in, func() {
			if err := vbuild(root, c, docs); err != nil {
				k.Fail("", "%s: %v", in, err)
			}
			files := vfiles(root)
			x, err := OpenIndex(root)
			if err != nil {
				k.Fail("", "%s: %v", in, err)
			}
			open := true
			defer func() {
				if open {
					x.Close()
				}
			}()
			tabs := vtables(x)
			m := vmodel(docs, c.seqLen, c.shards)
			var keys []uint32
			shared := false
			for b := range m {
				keys = append(keys, b)
				shared = shared || len(m[b]) > 1
				if len(keys) > 30 {
					break
				}
			}
			key := ""
			if shared {
				key = fmt.Sprintf("case %d: %v, %d documents", n, c, len(docs))
			}
			k.Case(key)
			ext := func(slots int) string {
				bl, err := vextract(x, slots)
				return fmt.Sprintf("%v %v", bl, err)
			}
			bounded := func(capy int) string {
				q := x.StartQuery(QueryMaxBlot)
				var b strings.Builder
				for i := 0; i < 50; i++ {
					dst := []Blot{{Docs: make([]Doc, 0, capy)}, {Docs: make([]Doc, 0, capy)}}
					n, err := q.Next(dst)
					fmt.Fprintf(&b, "%v %d %v;", dst[:n], n, err)
					if err != nil {
						break
					}
				}
				return b.String()
			}
			get := func(b uint32) string {
				g, err := vget(x, b)
				return fmt.Sprintf("%q %v", g, err)
			}
			blot := func(d vdoc) string {
				doc := &Doc{Dat: []byte(d.body), Start: d.start, End: d.start + uint32(len(d.body))}
				return fmt.Sprint(x.BlotDoc(nil, doc))
			}
			stats := func() string {
				s, err := x.Stats()
				return fmt.Sprintf("%+v %v", s, err)
			}
			find := func(d vdoc, b uint32) string {
				doc := &Doc{Dat: []byte(d.body), Start: d.start, End: d.start + uint32(len(d.body))}
				s, e, err := x.FindBlot(b, doc)
				return fmt.Sprint(s, e, err)
			}
			type job struct {
				name string
				f    func() string
			}
			var jobs []job
			jobs = append(jobs, job{"extraction by 3", func() string { return ext(3) }}, job{"extraction by 64", func() string { return ext(64) }},
				job{"extraction with 2 documents per slot", func() string { return bounded(2) }}, job{"Stats", stats})
			for i, b := range keys {
				b := b
				d := docs[i%len(docs)]
				jobs = append(jobs, job{fmt.Sprintf("Get(%x)", b), func() string { return get(b) }})
				jobs = append(jobs, job{fmt.Sprintf("BlotDoc(%q)", d.body), func() string { return blot(d) }})
				jobs = append(jobs, job{fmt.Sprintf("FindBlot(%x, %q)", b, d.body), func() string { return find(d, b) }})
			}
			want := map[string]string{}
			for _, j := range jobs {
				want[j.name] = j.f()
			}
			for r := 0; r < 2; r++ {
				for _, i := range k.Rng.Perm(len(jobs)) {
					j := jobs[i]
					if g := j.f(); g != want[j.name] {
						k.Fail("", "%s: %s gives %.600s, at first it gave %.600s", in, j.name, g, want[j.name])
					}
				}
			}
			// two extractions, step by step in turn
			qs := []*Query{x.StartQuery(QueryMaxBlot), x.StartQuery(QueryMaxBlot), x.StartQuery(QueryMaxBlot)}
			for steps := 0; steps < 3000; steps++ {
				var out []string
				end := false
				for i, q := range qs {
					if i == 2 {
						x.StartQuery(QueryMaxBlot)
					}
					dst := make([]Blot, 1)
					n, err := q.Next(dst)
					out = append(out, fmt.Sprintf("%v %d %v", dst[:n], n, err))
					end = end || err != nil
				}
				if out[0] != out[1] || out[0] != out[2] {
					k.Fail("", "%s: extractions run in turn differ at step %d: %.900q", in, steps, out)
				}
				if end {
					break
				}
			}
			var wg sync.WaitGroup
			var mu sync.Mutex
			bad := ""
			for g := 0; g < 12; g++ {
				order := k.Rng.Perm(len(jobs))
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if p := recover(); p != nil {
							mu.Lock()
							bad = fmt.Sprintf("panic %v in a query run concurrently with others", p)
							mu.Unlock()
						}
					}()
					for r := 0; r < 3; r++ {
						for _, i := range order {
							j := jobs[i]
							if g := j.f(); g != want[j.name] {
								mu.Lock()
								bad = fmt.Sprintf("%s run concurrently with other queries gives %.600s, alone it gave %.600s", j.name, g, want[j.name])
								mu.Unlock()
								return
							}
						}
					}
				}()
			}
			wg.Wait()
			if bad != "" {
				k.Fail("", "%s: %s", in, bad)
			}
			if vtables(x) != tabs {
				k.Fail("", "%s: the index's tables change by queries:\n%.600s\nbefore:\n%.600s", in, vtables(x), tabs)
			}
			x.Close()
			open = false
			if d := vdiff(files, vfiles(root)); d != "" {
				k.Fail("", "%s: files changed by reading: %s", in, d)
			}
		})
	}
}
