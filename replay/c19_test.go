package dupi

import (
	"fmt"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/go-air/dupi/blotter"
	"github.com/go-air/dupi/post"
	"github.com/go-air/dupi/token"

	kit "github.com/go-air/dupi/internal/verifkit"
)

// TestVerifC19: what reaches the shards from the workers.
func TestVerifC19(t *testing.T) {
	k := kit.New(t, "1 to 16 workers with random delays in the tokenizer and in the shards, up to 200 documents, 1 to 5 shards, ids starting anywhere; every shard's batches recorded; non-trivial: more than one worker")
	for n := 0; k.More(n, 60); n++ {
		ns, nsh, seq := []int{1, 2, 3, 8, 16, 5}[n%6], 1+n%5, 1+n%3
		last := []uint32{0, 1, 77, 1 << 31, 1<<32 - 300}[k.Rng.Intn(5)]
		docs := vrand(k, "/d", []int{3, 40, 200, 1}[n%4], 30)
		if n%4 == 2 && n < 24 || n%16 == 9 {
			// some long ones
			w := vwide(k, "/w", []int{1500, 6000, 2500}[n%3])
			docs = append(docs[:len(docs)/2:len(docs)/2], append(append(w, docs[len(docs)/2:]...), w[1], w[0])...)
		}
		delays := make([]time.Duration, 64)
		for i := range delays {
			if k.Rng.Intn(3) == 0 {
				delays[i] = time.Duration(k.Rng.Intn(400)) * time.Microsecond
			}
		}
		in := fmt.Sprintf("%d workers, %d shards, sequence length %d, ids from %d, %d documents %.600q", ns, nsh, seq, last+1, len(docs), docs)
		k.Do(in, func() {
			tf := func(dst []token.T, d []byte, off uint32) []token.T {
				time.Sleep(delays[(len(d)*7+int(off))%64])
				return token.Tokenize(dst, d, off)
			}
			got := make([][]post.T, nsh)
			batches := make([]int, nsh)
			chns := make([]chan []post.T, nsh)
			var wg sync.WaitGroup
			for i := range chns {
				chns[i] = make(chan []post.T)
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					for {
						ps, ok := <-chns[i]
						if !ok {
							return
						}
						time.Sleep(delays[(batches[i]*5+i)%64] / 4)
						batches[i]++
						got[i] = append(got[i], append([]post.T{}, ps...)...)
						chns[i] <- nil
					}
				}(i)
			}
			cfg := blotter.DefaultConfig()
			cfg.SeqLen = seq
			ch, err := startShatter(ns, nsh, seq, last, tf, cfg, chns)
			if err != nil {
				k.Fail("", "%s: %v", in, err)
			}
			for i, d := range docs {
				ch <- &shatterReq{docid: last + 1 + uint32(i), offset: d.start, d: []byte(d.body)}
			}
			for i := 0; i < ns; i++ {
				ch <- &shatterReq{shutdown: true}
			}
			for i := range chns {
				close(chns[i])
			}
			wg.Wait()
			key := ""
			if ns > 1 {
				key = in
			}
			k.Case(key)
			for s := range got {
				cur := last
				for j, p := range got[s] {
					if p.Docid()-last < cur-last {
						k.Fail("", "%s: shard %d got a post of document %d after one of document %d (post %d)", in, s, p.Docid(), cur, j)
					}
					cur = p.Docid()
				}
				m := map[uint32][]int{}
				for _, p := range got[s] {
					m[p.Docid()] = append(m[p.Docid()], int(p.Blot()&0xffff))
				}
				for i, d := range docs {
					id := last + 1 + uint32(i)
					var want []int
					for _, b := range vpost(d.body, seq) {
						if int(b%uint32(nsh)) == s {
							want = append(want, int(b/uint32(nsh)&0xffff))
						}
					}
					g, w := fmt.Sprint(vset(m[id])), fmt.Sprint(vset(want))
					if g != w {
						k.Fail("", "%s: shard %d got for document %d (%.300q) the blots %.300s, want %.300s", in, s, id, d.body, g, w)
					}
					delete(m, id)
				}
				if len(m) > 0 {
					k.Fail("", "%s: shard %d got posts of documents never added: %v", in, s, m)
				}
			}
		})
	}
}

func vset(l []int) []int {
	l = append([]int{}, l...)
	sort.Ints(l)
	r := l[:0]
	for i, x := range l {
		if i == 0 || x != r[len(r)-1] {
			r = append(r, x)
		}
	}
	return r
}
