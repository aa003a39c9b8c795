package shard

import (
	"testing"

	kit "github.com/go-air/dupi/internal/verifkit"
)

func TestVerifC01(t *testing.T) {
	k := kit.New(t, "shards filled over the posting channel and read back; some blots get thousands of documents (many flushes, interleaved), ids by steps of all encoded lengths; non-trivial: lists longer than 200 documents")
	vshards(k, 24, func(n int) [][]vadd {
		hot := []uint16{0, 65535, 7}
		for i := k.Rng.Intn(6); i > 0; i-- {
			hot = append(hot, uint16(k.Rng.Intn(1<<16)))
		}
		hot = hot[k.Rng.Intn(3):]
		last := uint32(0)
		return [][]vadd{vgen(k, []int{8000, 0, 600, 20000}[n%4], &last, hot, n%3 == 2)}
	})
}
