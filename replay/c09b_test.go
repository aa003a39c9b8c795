package shard

import (
	"encoding/binary"
	"fmt"
	"os"
	"testing"

	kit "github.com/go-air/dupi/internal/verifkit"
)

// TestVerifC09b: the order in which the blots of a shard are visited.
func TestVerifC09b(t *testing.T) {
	k := kit.New(t, "shard headers with counts of all sizes up to 32 bits, opened and visited in order; non-trivial: two different counts above 16 bits")
	dir := k.TempDir()
	for n := 0; k.More(n, 12); n++ {
		path := fmt.Sprintf("%s/s%d", dir, n)
		var d []byte
		counts := make([]uint32, 1<<16)
		heads := make([]int64, 1<<16)
		for i := range counts {
			switch k.Rng.Intn(8) {
			case 0:
				counts[i] = k.Rng.Uint32()
			case 1:
				counts[i] = k.Rng.Uint32() & 0xfffff
			case 2:
				counts[i] = uint32(k.Rng.Intn(5)) << 16
			default:
				counts[i] = uint32(k.Rng.Intn(300)) * uint32(n%3)
			}
			heads[i] = int64(k.Rng.Uint64() >> uint(1+k.Rng.Intn(40)))
			if k.Rng.Intn(3) == 0 {
				heads[i] = -1
			}
			var b [24]byte
			m := binary.PutVarint(b[:], heads[i])
			m += binary.PutVarint(b[m:], int64(counts[i]))
			binary.BigEndian.PutUint32(b[m:], k.Rng.Uint32())
			d = append(d, b[:m+4]...)
		}
		if os.WriteFile(path, nil, 0644) != nil || os.WriteFile(path+".iix", d, 0644) != nil {
			t.Fatal("cannot write")
		}
		in := fmt.Sprintf("case %d", n)
		k.Case(in)
		k.Do(in, func() {
			x := &Index{}
			if err := x.Init(path); err != nil {
				k.Fail("", "%s: %v", in, err)
			}
			defer x.Close()
			seen := make([]bool, 1<<16)
			var last uint32
			for i := 0; i < 1<<16; i++ {
				b := x.BlotAt(uint16(i))
				rs := x.ReadStateAt(uint16(i))
				if rs.Blot != b || rs.At != uint16(i) || rs.Total != counts[b] || rs.Posts.nextpos != heads[b] || x.Count(uint32(b)) != counts[b] {
					k.Fail("", "%s: entry %d is blot %d with count %d and head %d, stored %d and %d", in, i, b, rs.Total, rs.Posts.nextpos, counts[b], heads[b])
				}
				if seen[b] {
					k.Fail("", "%s: blot %d comes twice", in, b)
				}
				seen[b] = true
				if i > 0 && rs.Total > last {
					k.Fail("", "%s: entry %d (blot %d) has count %d, the one before %d", in, i, b, rs.Total, last)
				}
				last = rs.Total
			}
			rs := x.ReadStateFor(77)
			if rs.Blot != 77 || rs.Total != counts[77] || rs.Posts.nextpos != heads[77] {
				k.Fail("", "%s: blot 77 has count %d and head %d, stored %d and %d", in, rs.Total, rs.Posts.nextpos, counts[77], heads[77])
			}
		})
	}
}
