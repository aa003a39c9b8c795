package dupi

import (
	"fmt"
	"testing"

	"github.com/go-air/dupi/blotter"
	"github.com/go-air/dupi/post"
	"github.com/go-air/dupi/token"

	kit "github.com/go-air/dupi/internal/verifkit"
)

// TestVerifC07b: a worker's batches, one document after the other.
func TestVerifC07b(t *testing.T) {
	k := kit.New(t, "one worker given several random documents, its batches per shard compared with the windows of each document in order; interleavings 1 to 3; non-trivial: a document after one with posts")
	tokfn, err := token.FromConfig(token.DefaultConfig())
	if err != nil {
		t.Fatal(err)
	}
	for n := 0; k.More(n, 3000); n++ {
		shards, bseq, inter := 1+k.Rng.Intn(4), 1+k.Rng.Intn(3), 1+k.Rng.Intn(2)
		if n%5 == 0 {
			inter = 3
		}
		words := 30
		if n%40 == 7 {
			// long windows
			bseq, words = 60+k.Rng.Intn(80), 300
		}
		seq := bseq * inter
		docs := vrand(k, "/d", 1+k.Rng.Intn(4), words)
		in := fmt.Sprintf("%d shards, sequence length %d, interleaving %d, documents %q", shards, seq, inter, docs)
		k.Do(in, func() {
			bler, err := blotter.FromConfig(&blotter.Config{SeqLen: bseq, Interleave: inter})
			if err != nil {
				t.Fatal(err)
			}
			sh := newShatter(shards, seq, tokfn, bler, newMono(0))
			got := make([][]post.T, shards)
			for i := range sh.shardChns {
				i := i
				ch := make(chan []post.T)
				sh.shardChns[i] = ch
				go func() {
					for ps := range ch {
						got[i] = append([]post.T{}, ps...)
						ch <- nil
					}
				}()
			}
			some := false
			for i, d := range docs {
				sh.do(uint32(i+1), d.start, []byte(d.body))
				ws, _ := vwords(d.body)
				var want [][]post.T
				want = make([][]post.T, shards)
				bs := vblots(ws, bseq, inter)
				for w := seq; w < len(bs); w++ {
					s := bs[w] % uint32(shards)
					want[s] = append(want[s], post.Make(uint32(i+1), bs[w]/uint32(shards)))
				}
				key := ""
				if some && len(bs) > seq {
					key = fmt.Sprintf("document %d of %s", i, in)
				}
				some = some || len(bs) > seq
				k.Case(key)
				for s := range want {
					if len(want[s]) != len(got[s]) || fmt.Sprint(want[s]) != fmt.Sprint(got[s]) && len(want[s]) > 0 {
						k.Fail("", "%s: shard %d receives %x for document %d, want %x", in, s, got[s], i, want[s])
					}
				}
			}
			for _, ch := range sh.shardChns {
				close(ch)
			}
		})
	}
}
