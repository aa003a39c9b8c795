package shard

import (
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"testing"

	kit "github.com/go-air/dupi/internal/verifkit"
)

// TestVerifC15b: the sums over one shard's table of counts, as read from a file.
func TestVerifC15b(t *testing.T) {
	k := kit.New(t, "tables of 65536 counts, with single, many and only large counts (up to 2^32-1), read from a file and summed; non-trivial: the sum is above 2^32")
	dir := k.TempDir()
	for n := 0; k.More(n, 12); n++ {
		p := fmt.Sprintf("%s/s%d", dir, n)
		cts := make([]uint32, 1<<16)
		in := ""
		switch n % 6 {
		case 0:
			in = "no posts"
		case 1:
			in = "every count 2^32-1"
			for i := range cts {
				cts[i] = math.MaxUint32
			}
		case 2:
			in = "the first and the last count large"
			cts[0], cts[1<<16-1] = math.MaxUint32-3, 1<<31
		case 3:
			in = "small counts"
			for i := range cts {
				cts[i] = uint32(k.Rng.Intn(4))
			}
		case 4:
			in = "one count for each power of two"
			for i := 0; i < 32; i++ {
				cts[k.Rng.Intn(1<<16)] = 1 << uint(i)
			}
		case 5:
			in = "counts of 40000 to 140000"
			for i := range cts {
				cts[i] = 40000 + uint32(k.Rng.Intn(100000))
			}
		}
		k.Do(in, func() {
			var d []byte
			var buf [10]byte
			for _, c := range cts {
				d = append(d, buf[:binary.PutVarint(buf[:], -1)]...)
				d = append(d, buf[:binary.PutVarint(buf[:], int64(c))]...)
				d = append(d, 0, 0, 0, 0)
			}
			if err := os.WriteFile(p+".iix", d, 0o644); err != nil {
				t.Fatal(err)
			}
			if err := os.WriteFile(p, nil, 0o644); err != nil {
				t.Fatal(err)
			}
			x := &Index{}
			if err := x.Init(p); err != nil {
				k.Fail("", "%s: %v", in, err)
			}
			defer x.Close()
			var sum uint64
			for i, c := range cts {
				sum += uint64(c)
				if got := x.Count(uint32(i)); got != c {
					k.Fail("", "%s: blot %d has the count %d, want %d", in, i, got, c)
				}
			}
			key := ""
			if sum>>32 != 0 {
				key = fmt.Sprintf("%s, case %d", in, n)
			}
			k.Case(key)
			if got := x.NumPosts(); got != sum {
				k.Fail("", "%s: %d posts, want %d", in, got, sum)
			}
			if got := x.NumBlots(); got != 1<<16 {
				k.Fail("", "%s: %d blots", in, got)
			}
			mean := float64(sum) / 65536
			sq := 0.0
			for _, c := range cts {
				sq += (float64(c) - mean) * (float64(c) - mean)
			}
			if got := x.SosDiffs(mean); math.Abs(got-sq) > 1e-9*(1+sq) {
				k.Fail("", "%s: squared differences %v, want %v", in, got, sq)
			}
		})
	}
}
