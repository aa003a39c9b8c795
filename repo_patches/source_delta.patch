From 6bf2fc0d51a30dfe55948879ab345a29c00f5a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 01/25] fix: tokenize the last character of a document

---
 token/t.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/token/t.go b/token/t.go
index b5ff4af..79f6437 100644
--- a/token/t.go
+++ b/token/t.go
@@ -86,6 +86,7 @@ func Tokenize(dst []T, d []byte, offset uint32) []T {
 		}
 		inWord = false
 	}
+	i = len(d)
 	if j < i {
 		if inWord {
 			dst = append(dst,
-- 
2.43.0


From ce719e17e21bdb86a35d10c48c5882242c9624ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:16 +0000
Subject: [PATCH 02/25] fix: dmd lookups do not share the file position

---
 dmd/t.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/dmd/t.go b/dmd/t.go
index deeab69..507bae2 100644
--- a/dmd/t.go
+++ b/dmd/t.go
@@ -17,7 +17,6 @@ package dmd
 
 import (
 	"encoding/binary"
-	"io"
 	"os"
 	"path/filepath"
 )
@@ -48,13 +47,8 @@ func (t *T) NumDocs() (uint64, error) {
 }
 
 func (t *T) Lookup(did uint32) (fid, start, end uint32, err error) {
-	f := t.file
-	_, err = f.Seek(int64(did)*rcdSize, 0)
-	if err != nil {
-		return
-	}
 	var buf [rcdSize]byte
-	_, err = io.ReadFull(f, buf[:])
+	_, err = t.file.ReadAt(buf[:], int64(did)*rcdSize)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From ca6b9ce4d841ec40f285daa3aea2f81f4b1e4658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:16 +0000
Subject: [PATCH 03/25] fix: do not count record 0 as a document

---
 dmd/t.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dmd/t.go b/dmd/t.go
index 507bae2..fae3d7d 100644
--- a/dmd/t.go
+++ b/dmd/t.go
@@ -43,7 +43,11 @@ func (t *T) NumDocs() (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
-	return uint64(fi.Size()) / rcdSize, nil
+	n := uint64(fi.Size()) / rcdSize
+	if n > 0 {
+		n-- // record 0 is not a document
+	}
+	return n, nil
 }
 
 func (t *T) Lookup(did uint32) (fid, start, end uint32, err error) {
-- 
2.43.0


From 9aa18f319904faf6419896f168e86b351ede2307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 04/25] fix: Query.Next advances once per blot, keeps last
 pages, and stays at EOF

---
 query.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/query.go b/query.go
index 115a5a7..f8874bd 100644
--- a/query.go
+++ b/query.go
@@ -89,6 +89,7 @@ func (q *Query) Get(blot *Blot) error {
 
 func (q *Query) Next(dst []Blot) (n int, err error) {
 	state := q.state
+	state.nilCount = 0
 	for n < len(dst) {
 		dstBlot := &dst[n]
 		shardState := state.shardStates[state.i]
@@ -107,18 +108,19 @@ func (q *Query) Next(dst []Blot) (n int, err error) {
 			}
 			continue
 		}
-		lim := dstBlot.Docs != nil
-		_, err = q.fillBlot(dstBlot, shardState, state.i)
+		if shardState.Total <= 1 {
+			// neither this blot nor any after it in its shard is shared.
+			q.advance(shardState, state.i)
+			continue
+		}
+		full := dstBlot.Docs != nil && dstBlot.Len() == dstBlot.Cap()
+		m := 0
+		m, err = q.fillBlot(dstBlot, shardState, state.i)
 		if err != nil {
 			return
 		}
-		if len(dstBlot.Docs) <= 1 {
-			q.advance(shardState, state.i)
-			if lim {
-				dstBlot.Docs = dstBlot.Docs[:0]
-			} else {
-				dstBlot.Docs = nil
-			}
+		if m == 0 && !full {
+			// all of the blot was already returned, fillBlot advanced.
 			continue
 		}
 		n++
-- 
2.43.0


From 2711d84defd0e7b1d37e2fd7552d8454870f232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 05/25] fix: reused document slots do not keep the data of
 another document

---
 blot.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blot.go b/blot.go
index 8bc4915..2770c1c 100644
--- a/blot.go
+++ b/blot.go
@@ -48,6 +48,7 @@ func (b *Blot) Next(lim bool) *Doc {
 	n := len(b.Docs)
 	if lim {
 		b.Docs = b.Docs[:n+1]
+		b.Docs[n] = Doc{}
 	} else {
 		b.Docs = append(b.Docs, Doc{})
 	}
-- 
2.43.0


From 18b881edeefd221d5e2428fee0e3c8d037608900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 06/25] fix: Unlock releases the lock

---
 lock/unix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lock/unix.go b/lock/unix.go
index a083eba..b69323f 100644
--- a/lock/unix.go
+++ b/lock/unix.go
@@ -26,7 +26,7 @@ func (f *File) Lock() error {
 }
 
 func (f *File) Unlock() error {
-	return unix.Flock(int(f.handle.Fd()), unix.LOCK_SH)
+	return unix.Flock(int(f.handle.Fd()), unix.LOCK_UN)
 }
 
 func (f *File) LockShared() error {
-- 
2.43.0


From 14cedc505b5ed7e6b8c2ff56220e73c3e80ac129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 07/25] fix: appending to an index takes the exclusive lock

---
 indexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexer.go b/indexer.go
index fdfceb9..fa014cc 100644
--- a/indexer.go
+++ b/indexer.go
@@ -121,7 +121,7 @@ func openFromConfig(cfg *Config) (*Indexer, error) {
 	if err != nil {
 		return nil, err
 	}
-	err = res.lock.LockShared()
+	err = res.lock.Lock()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 4ed87ca4d45cdd050b2432545c59977ef5afee22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 08/25] fix: a failed open or create gives up the lock

---
 index.go   |  7 +++++++
 indexer.go | 15 ++++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/index.go b/index.go
index d04621b..2d7e39c 100644
--- a/index.go
+++ b/index.go
@@ -44,6 +44,12 @@ func OpenIndex(root string) (*Index, error) {
 	if err != nil {
 		return nil, err
 	}
+	opened := false
+	defer func() {
+		if !opened {
+			res.lock.Close()
+		}
+	}()
 	if err := res.lock.LockShared(); err != nil {
 		return nil, err
 	}
@@ -72,6 +78,7 @@ func OpenIndex(root string) (*Index, error) {
 			return nil, fmt.Errorf("error initializing shard %d: %w", i, err)
 		}
 	}
+	opened = true
 	return res, nil
 }
 
diff --git a/indexer.go b/indexer.go
index fa014cc..97a450e 100644
--- a/indexer.go
+++ b/indexer.go
@@ -46,6 +46,12 @@ func IndexerFromConfig(cfg *Config) (*Indexer, error) {
 	if err != nil {
 		return nil, err
 	}
+	opened := false
+	defer func() {
+		if !opened {
+			res.lock.Close()
+		}
+	}()
 	err = res.lock.Lock()
 	if err != nil {
 		return nil, err
@@ -79,7 +85,7 @@ func IndexerFromConfig(cfg *Config) (*Indexer, error) {
 	if err != nil {
 		return nil, err
 	}
-
+	opened = true
 	return res, nil
 }
 
@@ -121,6 +127,12 @@ func openFromConfig(cfg *Config) (*Indexer, error) {
 	if err != nil {
 		return nil, err
 	}
+	opened := false
+	defer func() {
+		if !opened {
+			res.lock.Close()
+		}
+	}()
 	err = res.lock.Lock()
 	if err != nil {
 		return nil, err
@@ -156,6 +168,7 @@ func openFromConfig(cfg *Config) (*Indexer, error) {
 	if err != nil {
 		return nil, err
 	}
+	opened = true
 	return res, nil
 }
 
-- 
2.43.0


From 7fb9092bb7e35351e2c351357e702d3610472852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 09/25] fix: readers use the same lock file however the index
 root is spelled

---
 index.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/index.go b/index.go
index 2d7e39c..e7557d7 100644
--- a/index.go
+++ b/index.go
@@ -37,8 +37,10 @@ type Index struct {
 }
 
 func OpenIndex(root string) (*Index, error) {
-	var err error
-	cfg := &Config{IndexRoot: root}
+	cfg, err := DefaultConfig(root)
+	if err != nil {
+		return nil, err
+	}
 	res := &Index{config: cfg}
 	res.lock, err = lock.New(cfg.LockPath())
 	if err != nil {
-- 
2.43.0


From 381446db5b120cf004946f254ab9172570a356fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:21 +0000
Subject: [PATCH 10/25] fix: rewriting a config leaves nothing of the previous
 one

---
 config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config.go b/config.go
index 36ded45..9361315 100644
--- a/config.go
+++ b/config.go
@@ -138,7 +138,7 @@ func ReadConfig(path string) (*Config, error) {
 }
 
 func (cfg *Config) Write() error {
-	f, err := os.OpenFile(cfg.Path(), os.O_CREATE|os.O_WRONLY, 0644)
+	f, err := os.OpenFile(cfg.Path(), os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 5ee88c207f300b17e339e699a15d7217288ab455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:21 +0000
Subject: [PATCH 11/25] fix: NewConfig accepts sequence lengths other than the
 default

---
 config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/config.go b/config.go
index 9361315..e321aa8 100644
--- a/config.go
+++ b/config.go
@@ -68,6 +68,7 @@ func NewConfig(root string, nbuckets, seqLen int) (*Config, error) {
 	}
 	cfg.NumShards = nbuckets
 	cfg.SeqLen = seqLen
+	cfg.BlotConfig.SeqLen = seqLen
 	err = cfg.check()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From eadc39a30583444ced3c90089d8a3d5436f750e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 12/25] fix: refuse configurations that cannot work

---
 config.go  | 15 +++++++++++++++
 indexer.go |  5 ++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/config.go b/config.go
index e321aa8..9b4043e 100644
--- a/config.go
+++ b/config.go
@@ -77,6 +77,21 @@ func NewConfig(root string, nbuckets, seqLen int) (*Config, error) {
 }
 
 func (cfg *Config) check() error {
+	if cfg.SeqLen < 1 || cfg.BlotConfig.SeqLen < 1 || cfg.BlotConfig.Interleave < 1 {
+		return fmt.Errorf("invalid sequence config")
+	}
+	if cfg.NumShards < 1 || cfg.NumShards > 0xffff {
+		return fmt.Errorf("invalid number of shards: %d", cfg.NumShards)
+	}
+	if cfg.NumShatters < 1 {
+		return fmt.Errorf("invalid number of shatters: %d", cfg.NumShatters)
+	}
+	if cfg.DocFlushRate < 1 {
+		return fmt.Errorf("invalid document flush rate: %d", cfg.DocFlushRate)
+	}
+	if _, err := token.FromConfig(&cfg.TokenConfig); err != nil {
+		return err
+	}
 	if cfg.SeqLen != cfg.BlotConfig.Interleave*cfg.BlotConfig.SeqLen {
 		return fmt.Errorf("inconsistent sequence config")
 	}
diff --git a/indexer.go b/indexer.go
index 97a450e..fa762a9 100644
--- a/indexer.go
+++ b/indexer.go
@@ -40,7 +40,10 @@ type Indexer struct {
 }
 
 func IndexerFromConfig(cfg *Config) (*Indexer, error) {
-	var err error
+	err := cfg.check()
+	if err != nil {
+		return nil, err
+	}
 	res := &Indexer{config: cfg}
 	res.lock, err = lock.New(cfg.LockPath())
 	if err != nil {
-- 
2.43.0


From 88baad0a670e6a9c923890ee3b62ed93d2b97cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:23 +0000
Subject: [PATCH 13/25] fix: FindBlots honours the start offset of the document

---
 index.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index.go b/index.go
index e7557d7..b87f045 100644
--- a/index.go
+++ b/index.go
@@ -227,8 +227,8 @@ func (x *Index) FindBlots(m map[uint32][]byte, doc *Doc) (map[uint32][]byte, err
 		if m[blot] == nil {
 			continue
 		}
-		start := toks[i-seqLen].Pos
-		end := tok.Pos + uint32(len(tok.Lit))
+		start := toks[i-seqLen].Pos - doc.Start
+		end := tok.Pos - doc.Start + uint32(len(tok.Lit))
 		txt := doc.Dat[start:end]
 		if bytes.Equal(m[blot], txt) {
 			res[blot] = txt
-- 
2.43.0


From 81271bb3ef813f48860a57d9787dd2e13ecaa30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 14/25] fix: check lengths and links of posting list chunks

---
 internal/shard/poster.go | 7 +++----
 internal/shard/posts.go  | 9 ++++++++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/internal/shard/poster.go b/internal/shard/poster.go
index 43c557b..2cb7b1c 100644
--- a/internal/shard/poster.go
+++ b/internal/shard/poster.go
@@ -118,10 +118,7 @@ func (p *poster) readToLink(f *os.File) error {
 		if err != nil {
 			return err
 		}
-		if v > int64(len(buf)) {
-			buf = make([]byte, v*2)
-		}
-		if v <= 8 {
+		if v <= 8 || v > int64(len(buf)) {
 			return fmt.Errorf("%s: invalid length of flushed post buffer: %d", p, v)
 		}
 		_, err = f.ReadAt(buf[:v], head+n)
@@ -132,6 +129,8 @@ func (p *poster) readToLink(f *os.File) error {
 		if link == -1 {
 			p.link = head + n + v - 8
 			return nil
+		} else if link <= head {
+			return fmt.Errorf("%s: invalid link: %d", p, link)
 		} else {
 			head = link
 		}
diff --git a/internal/shard/posts.go b/internal/shard/posts.go
index f009769..2e93fc1 100644
--- a/internal/shard/posts.go
+++ b/internal/shard/posts.go
@@ -91,6 +91,9 @@ func (p *Posts) readNext(r io.ReaderAt) error {
 	if err != nil {
 		return fmt.Errorf("1 %w\n", err)
 	}
+	if v <= 8 || v > int64(len(p.buf)) {
+		return fmt.Errorf("invalid length of flushed post buffer: %d", v)
+	}
 	_, err = r.ReadAt(p.buf[:v], p.nextpos+n)
 	if err != nil {
 		return fmt.Errorf("2 %w\n", err)
@@ -120,7 +123,11 @@ func (p *Posts) readNext(r io.ReaderAt) error {
 			break
 		}
 	}
-	p.nextpos = int64(binary.BigEndian.Uint64(buf[i:]))
+	next := int64(binary.BigEndian.Uint64(buf[i:]))
+	if next != -1 && next <= p.nextpos {
+		return fmt.Errorf("invalid link: %d", next)
+	}
+	p.nextpos = next
 	p.i = 0
 	return nil
 }
-- 
2.43.0


From 7799a63377cde82222f1e6ec3b0576ef3373cf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 15/25] fix: check counts, lengths and parents of the path
 table

---
 fnames.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/fnames.go b/fnames.go
index 8205c2c..d5dbd20 100644
--- a/fnames.go
+++ b/fnames.go
@@ -124,27 +124,34 @@ func breadFnames(r *bufio.Reader) (*fnames, error) {
 	if err != nil {
 		return nil, err
 	}
+	if v == 0 {
+		return nil, fmt.Errorf("path table without root")
+	}
+	n := v
 	s := &fnames{}
-	s.d = make([]fname, v)
 	var buf []byte
-	for i := range s.d {
+	for i := uint32(0); i < n; i++ {
+		s.d = append(s.d, fname{})
 		v, err = readUvarint32(r)
 		if err != nil {
 			return nil, err
 		}
-		if v > uint32(len(buf)) {
-			buf = make([]byte, v)
-		}
-		_, err = io.ReadFull(r, buf[:v])
+		buf, err = io.ReadAll(io.LimitReader(r, int64(v)))
 		if err != nil {
 			return nil, err
 		}
+		if uint32(len(buf)) != v {
+			return nil, io.ErrUnexpectedEOF
+		}
 		fname := &s.d[i]
 		fname.name = string(buf[:v])
 		v, err = readUvarint32(r)
 		if err != nil {
 			return nil, err
 		}
+		if v > i || (v == i && i != 0) {
+			return nil, fmt.Errorf("parent %d of path table node %d", v, i)
+		}
 		fname.parent = v
 		pname := &s.d[fname.parent]
 		if pname.children == nil {
-- 
2.43.0


From 899a9e1a372d4a4d43a426bc7c5705ac89e87b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 16/25] fix: report document metadata with an unknown path id

---
 index.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/index.go b/index.go
index b87f045..66410f8 100644
--- a/index.go
+++ b/index.go
@@ -301,6 +301,9 @@ func (x *Index) docid2Doc(did uint32, doc *Doc) error {
 	if err != nil {
 		return fmt.Errorf("docid2Doc(%d) dmd gave %w", did, err)
 	}
+	if int(fid) >= len(x.fnames.d) {
+		return fmt.Errorf("docid2Doc(%d): no path %d", did, fid)
+	}
 	doc.Path = x.fnames.abs(fid)
 	doc.Start = start
 	doc.End = end
-- 
2.43.0


From 310bee9a5b59f7cbf62f4a83f957fe05abf84bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 17/25] fix: refuse to load a document that ends before it
 starts

---
 doc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/doc.go b/doc.go
index f8df994..08a4029 100644
--- a/doc.go
+++ b/doc.go
@@ -55,6 +55,9 @@ func (doc *Doc) Load() error {
 		}
 		doc.End = uint32(len(doc.Dat))
 	} else {
+		if doc.End < doc.Start {
+			return fmt.Errorf("invalid span %d:%d of %s", doc.Start, doc.End, doc.Path)
+		}
 		_, err = f.Seek(int64(doc.Start), io.SeekStart)
 		if err != nil {
 			return fmt.Errorf("seek: %w", err)
-- 
2.43.0


From 503e3e6eb91dc92edd657bcc56a85ce9dedb32ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 18/25] fix: bposts add a repeated post again after an
 intersection

---
 attic/bposts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attic/bposts.go b/attic/bposts.go
index f7cd69a..fee4cc5 100644
--- a/attic/bposts.go
+++ b/attic/bposts.go
@@ -83,7 +83,7 @@ func (t *bposts) Ones(dst []int) []int {
 }
 
 func (t *bposts) AddPost(post uint32) error {
-	if t.Post == post && t.Total != 0 {
+	if t.Post == post && t.Total != 0 && t.HasPost(post) {
 		return nil
 	}
 	t.Post = post
-- 
2.43.0


From f8293b1af1b00dde12a7e6d93a82745a3affcb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 19/25] fix: blot -offsets counts words only

---
 cmd/dupi/blot.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/dupi/blot.go b/cmd/dupi/blot.go
index e53e1f3..21734a2 100644
--- a/cmd/dupi/blot.go
+++ b/cmd/dupi/blot.go
@@ -71,7 +71,11 @@ func (bc *blotCmd) doFilename(fname string, idx *dupi.Index) error {
 	blots := idx.BlotDoc(nil, doc)
 	var toks []token.T
 	if *bc.offsets {
-		toks = idx.TokenFunc()(nil, doc.Dat, 0)
+		for _, tok := range idx.TokenFunc()(nil, doc.Dat, 0) {
+			if tok.Tag == token.Word {
+				toks = append(toks, tok)
+			}
+		}
 	}
 	N := uint32(idx.NumShards()) * (1 << 16)
 	seqLen := idx.SeqLen()
-- 
2.43.0


From 8a932480cb72be7a8e30e3a05086e855b9aa408d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 20/25] fix: index reports documents that could not be read

---
 cmd/dupi/index.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/dupi/index.go b/cmd/dupi/index.go
index 2211487..5cf86a5 100644
--- a/cmd/dupi/index.go
+++ b/cmd/dupi/index.go
@@ -139,6 +139,9 @@ func (x *indexCmd) mkWalkFn(perr *error) func(path string, entry fs.DirEntry, er
 
 func (x *indexCmd) doPath(fpath string) error {
 	var err error
-	filepath.WalkDir(fpath, x.mkWalkFn(&err))
+	werr := filepath.WalkDir(fpath, x.mkWalkFn(&err))
+	if err == nil {
+		err = werr
+	}
 	return err
 }
-- 
2.43.0


From e16e3479326a8455c821488c1ea154d35036e476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 21/25] fix: an indexer reads the config under the lock

---
 indexer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/indexer.go b/indexer.go
index fa762a9..086674f 100644
--- a/indexer.go
+++ b/indexer.go
@@ -93,7 +93,7 @@ func IndexerFromConfig(cfg *Config) (*Indexer, error) {
 }
 
 func OpenIndexer(root string) (*Indexer, error) {
-	cfg, err := ReadConfigFromRoot(root)
+	cfg, err := DefaultConfig(root)
 	if err != nil {
 		return nil, err
 	}
@@ -140,6 +140,11 @@ func openFromConfig(cfg *Config) (*Indexer, error) {
 	if err != nil {
 		return nil, err
 	}
+	cfg, err = ReadConfig(cfg.Path())
+	if err != nil {
+		return nil, err
+	}
+	res.config = cfg
 	// internal setup
 	res.shards = make([]shard.Indexer, cfg.NumShards)
 	res.dmds, err = dmd.NewAdder(cfg.IndexRoot, cfg.DocFlushRate)
-- 
2.43.0


From 6b02f9fcb4d1cffe8bfdaf84fa01b7e064ea4e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 22/25] fix: one lock file for an index reached through
 symbolic links

---
 config.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/config.go b/config.go
index 9b4043e..47ad457 100644
--- a/config.go
+++ b/config.go
@@ -103,7 +103,16 @@ func (cfg *Config) Path() string {
 }
 
 func (cfg *Config) LockPath() string {
-	return cfg.IndexRoot + ".lock"
+	// one lock for an index, however its root is reached
+	root, err := filepath.EvalSymlinks(cfg.IndexRoot)
+	if err != nil {
+		// not created yet
+		root = cfg.IndexRoot
+		if dir, err := filepath.EvalSymlinks(filepath.Dir(root)); err == nil {
+			root = filepath.Join(dir, filepath.Base(root))
+		}
+	}
+	return root + ".lock"
 }
 
 func (cfg *Config) DmdPath() string {
-- 
2.43.0


From 88542f21dba322e8f117f15ec297b1915ad4a785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:49 +0000
Subject: [PATCH 23/25] fix: compare sequence lengths without overflow

---
 config.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/config.go b/config.go
index 47ad457..9e4adb4 100644
--- a/config.go
+++ b/config.go
@@ -92,7 +92,9 @@ func (cfg *Config) check() error {
 	if _, err := token.FromConfig(&cfg.TokenConfig); err != nil {
 		return err
 	}
-	if cfg.SeqLen != cfg.BlotConfig.Interleave*cfg.BlotConfig.SeqLen {
+	// (by division: the product may overflow)
+	if cfg.SeqLen/cfg.BlotConfig.Interleave != cfg.BlotConfig.SeqLen ||
+		cfg.SeqLen%cfg.BlotConfig.Interleave != 0 {
 		return fmt.Errorf("inconsistent sequence config")
 	}
 	return nil
-- 
2.43.0


From 6b4ee229f74e55c12cebeba63d8f09d2c0e4c915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:07 +0000
Subject: [PATCH 24/25] fix: keep a posting list as it was when reading its
 next chunk fails

---
 internal/shard/posts.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/internal/shard/posts.go b/internal/shard/posts.go
index 2e93fc1..e92e621 100644
--- a/internal/shard/posts.go
+++ b/internal/shard/posts.go
@@ -99,11 +99,12 @@ func (p *Posts) readNext(r io.ReaderAt) error {
 		return fmt.Errorf("2 %w\n", err)
 	}
 	var (
-		t, i int
-		d    uint64
-		buf  = p.buf[:v]
+		t, i    int
+		d       uint64
+		buf     = p.buf[:v]
+		docids  = p.docids[:0]
+		current = p.current
 	)
-	p.docids = p.docids[:0]
 
 	for {
 		d, t = binary.Uvarint(buf[i:])
@@ -114,8 +115,8 @@ func (p *Posts) readNext(r io.ReaderAt) error {
 		if (d & 0xffffffff) != d {
 			return fmt.Errorf("32bit uvarint overflow: %x", d)
 		}
-		p.current += uint32(d)
-		p.docids = append(p.docids, p.current)
+		current += uint32(d)
+		docids = append(docids, current)
 		if i > len(buf)-8 {
 			return fmt.Errorf("misaligned")
 		}
@@ -127,7 +128,10 @@ func (p *Posts) readNext(r io.ReaderAt) error {
 	if next != -1 && next <= p.nextpos {
 		return fmt.Errorf("invalid link: %d", next)
 	}
+	// only now, so that after an error p is still as it was.
 	p.nextpos = next
+	p.current = current
+	p.docids = docids
 	p.i = 0
 	return nil
 }
-- 
2.43.0


From 890af0e7937b06eff80b65d2628c3679cdbf3b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:01 +0000
Subject: [PATCH 25/25] fix: an error reading the count of a posting list when
 reopening for append was ignored

---
 internal/shard/poster.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/shard/poster.go b/internal/shard/poster.go
index 2cb7b1c..a16bfac 100644
--- a/internal/shard/poster.go
+++ b/internal/shard/poster.go
@@ -66,6 +66,9 @@ func (p *poster) initAppend(r io.ByteReader, blot uint16) error {
 	}
 	var ttl int64
 	ttl, err = binary.ReadVarint(r)
+	if err != nil {
+		return err
+	}
 	if uint64(ttl)&0xffffffff != uint64(ttl) {
 		return fmt.Errorf("invalid total: %d", ttl)
 	}
-- 
2.43.0

