package shard

import (
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/go-air/dupi/post"

	kit "github.com/go-air/dupi/internal/verifkit"
)

type vadd struct {
	blot uint16
	doc  uint32
}

func vdesc(sessions [][]vadd) string {
	var b strings.Builder
	for i, s := range sessions {
		fmt.Fprintf(&b, "session %d:", i+1)
		for j, a := range s {
			if j > 12 {
				fmt.Fprintf(&b, " ... (%d additions)", len(s))
				break
			}
			fmt.Fprintf(&b, " %d<-%d", a.blot, a.doc)
		}
		b.WriteString("; ")
	}
	return b.String()
}

// vgen: additions in batches per document, ids increasing by small or large steps
func vgen(k *kit.K, n int, last *uint32, hot []uint16, wild bool) []vadd {
	var out []vadd
	if *last == 0 && n > 0 && k.Rng.Intn(3) > 0 {
		// document 0 comes first
		for i := range hot {
			if i != 1 {
				out = append(out, vadd{hot[i], 0})
			}
		}
	}
	for len(out) < n {
		switch k.Rng.Intn(12) {
		case 0:
			*last += uint32(k.Rng.Intn(1 << 20))
		case 1:
			*last += 127
		case 2:
			*last += 128
		default:
			*last += uint32(1 + k.Rng.Intn(3))
		}
		if wild && k.Rng.Intn(20) == 0 {
			*last = k.Rng.Uint32()
		}
		for m := 1 + k.Rng.Intn(4); m > 0; m-- {
			b := hot[k.Rng.Intn(len(hot))]
			if k.Rng.Intn(10) == 0 {
				b = uint16(k.Rng.Intn(1 << 16))
			}
			for r := 1 + k.Rng.Intn(2); r > 0; r-- {
				out = append(out, vadd{b, *last})
			}
		}
	}
	return out
}

// vrun makes a shard at path with one session per list of additions
func vrun(path string, sessions [][]vadd) error {
	for i, s := range sessions {
		x := &Indexer{}
		var err error
		if i == 0 {
			err = x.InitCreate(3, path, 16)
		} else {
			err = x.InitAppend(3, path, 16)
		}
		if err != nil {
			return fmt.Errorf("session %d: %w", i+1, err)
		}
		ch := x.PostChan()
		done := make(chan bool)
		go func() { x.Serve(); close(done) }()
		for j := 0; j < len(s); {
			var ps []post.T
			d := s[j].doc
			for j < len(s) && s[j].doc == d {
				ps = append(ps, post.Make(d, uint32(s[j].blot)))
				j++
			}
			ch <- ps
			<-ch
		}
		close(ch)
		<-done
		if err := x.Close(); err != nil {
			return fmt.Errorf("session %d: close: %w", i+1, err)
		}
	}
	return nil
}

func vwant(sessions [][]vadd) map[uint16][]uint32 {
	m := map[uint16][]uint32{}
	for _, s := range sessions {
		for _, a := range s {
			if l := m[a.blot]; len(l) == 0 || l[len(l)-1] != a.doc {
				m[a.blot] = append(l, a.doc)
			}
		}
	}
	return m
}

func vlist(rs *ReadState, max int) ([]uint32, error) {
	var l []uint32
	for {
		d, err := rs.Next()
		if err == io.EOF {
			if _, err := rs.Next(); err != io.EOF {
				return l, fmt.Errorf("no end of list after the end of the list: %v", err)
			}
			return l, nil
		}
		if err != nil {
			return l, err
		}
		l = append(l, d)
		if len(l) > max {
			return l, fmt.Errorf("more than %d documents", max)
		}
	}
}

// vshards runs cases
func vshards(k *kit.K, q int, sessions func(n int) [][]vadd) {
	dir := k.TempDir()
	for n := 0; k.More(n, q); n++ {
		ss := sessions(n)
		in := vdesc(ss)
		path := fmt.Sprintf("%s/s%d", dir, n)
		k.Do(in, func() {
			if err := vrun(path, ss); err != nil {
				k.Fail("", "%s: %v", in, err)
			}
			x := &Index{}
			if err := x.Init(path); err != nil {
				k.Fail("", "%s: open: %v", in, err)
			}
			defer x.Close()
			for b, l := range vwant(ss) {
				key := ""
				if len(l) > 200 {
					key = fmt.Sprintf("blot %d of case %d, %d documents", b, n, len(l))
				}
				k.Case(key)
			}
			if err := vcheck(x, ss); err != nil {
				k.Fail("", "%s: %v", in, err)
			}
			// two readers of the same blot, one step each in turn, and another blot in between
			for b, l := range vwant(ss) {
				if len(l) < 3 {
					continue
				}
				r1, r2 := x.ReadStateFor(b), x.ReadStateFor(b)
				for i := range l {
					d1, e1 := r1.Next()
					d2, e2 := r2.Next()
					if e1 != nil || e2 != nil || d1 != l[i] || d2 != l[i] {
						k.Fail("", "%s: two readers of blot %d give %d (%v) and %d (%v) at %d, want %d", in, b, d1, e1, d2, e2, i, l[i])
					}
				}
			}
		})
	}
}

// vcheck compares an index with what was added
func vcheck(x *Index, sessions [][]vadd) error {
	m := vwant(sessions)
	bs := []int{0, 1, 65535}
	for b := range m {
		bs = append(bs, int(b))
	}
	sort.Ints(bs)
	for _, b := range bs {
		w := m[uint16(b)]
		rs := x.ReadStateFor(uint16(b))
		got, err := vlist(rs, len(w)+5)
		if err != nil || fmt.Sprint(got) != fmt.Sprint(w) {
			return fmt.Errorf("blot %d has %d documents %v (%v), want %d documents %v", b, len(got), vshort(got, w), err, len(w), vshort(w, got))
		}
		if int(x.Count(uint32(b))) != len(w) || int(rs.Total) != len(w) {
			return fmt.Errorf("blot %d: recorded count %d, total %d, list has %d", b, x.Count(uint32(b)), rs.Total, len(w))
		}
	}
	return nil
}

// vshort: the part of a from a little before the first difference to b
func vshort(a, b []uint32) []uint32 {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo, hi := i-2, i+4
	if lo < 0 {
		lo = 0
	}
	if hi > len(a) {
		hi = len(a)
	}
	if lo > hi {
		lo = hi
	}
	return a[lo:hi]
}
