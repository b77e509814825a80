From 49417037b05a3d2c08b4ec9fe660eb54c0d96de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 1/4] fix: words: do not apply the ASCII hot path when a custom
 split or Joiners is set

With Joiners{Middle: []rune{' '}}, the words iterator split "new york" into
three tokens, where the Scanner and the joiners' own split function return one,
because the ASCII hot path never consulted the configured split.
---
 words/iterator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/words/iterator.go b/words/iterator.go
index 84bdafa..8b7db1b 100644
--- a/words/iterator.go
+++ b/words/iterator.go
@@ -7,6 +7,9 @@ type Iterator[T ~string | ~[]byte] struct {
 	data  T
 	pos   int
 	start int
+	// custom is true when split has been replaced, see [Iterator.Split]. The
+	// ASCII hot path is only valid for the default split.
+	custom bool
 }
 
 var (
@@ -48,7 +51,7 @@ func (iter *Iterator[T]) Next() bool {
 	// ASCII hot path: consume contiguous ASCII alphanumerics
 	// followed by ASCII space (or end of data)
 	b := iter.data[iter.pos]
-	if isASCIIAlphanumeric(b) {
+	if !iter.custom && isASCIIAlphanumeric(b) {
 		// Consume all contiguous ASCII alphanumerics
 		end := iter.pos + 1
 		for end < len(iter.data) && isASCIIAlphanumeric(iter.data[end]) {
@@ -109,6 +112,7 @@ func (iter *Iterator[T]) SetText(data T) {
 // Split sets the SplitFunc for the Iterator.
 func (iter *Iterator[T]) Split(split func(T, bool) (int, T, error)) {
 	iter.split = split
+	iter.custom = true
 }
 
 // First returns the first word without advancing the iterator.
-- 
2.43.0


From 64c86fe10583706ab497ea37d13de960637800a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 2/4] fix: iterators: check a split function's advance before
 adding it

An advance large enough to overflow the position passed the check for going
beyond the data: Next returned true, and Value then failed or, worse, Next
indexed at a negative position.
---
 internal/iterators/iterator.go | 5 ++---
 words/iterator.go              | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/internal/iterators/iterator.go b/internal/iterators/iterator.go
index 8b41f4e..887bb00 100644
--- a/internal/iterators/iterator.go
+++ b/internal/iterators/iterator.go
@@ -57,12 +57,11 @@ func (iter *Iterator[T]) Next() bool {
 	if advance <= 0 {
 		panic("SplitFunc returned a zero or negative advance")
 	}
-
-	iter.pos += advance
-	if iter.pos > len(iter.data) {
+	if advance > len(d) {
 		panic("SplitFunc advanced beyond the end of the data")
 	}
 
+	iter.pos += advance
 	return true
 }
 
diff --git a/words/iterator.go b/words/iterator.go
index 8b7db1b..849f7ae 100644
--- a/words/iterator.go
+++ b/words/iterator.go
@@ -74,10 +74,10 @@ func (iter *Iterator[T]) Next() bool {
 	if advance <= 0 {
 		panic("splitFunc returned a zero or negative advance")
 	}
-	iter.pos += advance
-	if iter.pos > len(iter.data) {
+	if advance > len(remaining) {
 		panic("splitFunc advanced beyond end of data")
 	}
+	iter.pos += advance
 	return true
 }
 
-- 
2.43.0


From 25655d1d95c0f287dc00bcb5fe18cde2e9b6430f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:39 +0000
Subject: [PATCH 3/4] fix: triegen: share blocks by content, not by CRC

Two different blocks with the same CRC-64 (any two that differ by a multiple
of its polynomial, such as values v, w and v^1, w^0xB001 next to each other)
were stored once, and lookups in the second returned the values of the first.
---
 internal/gen/triegen/triegen.go | 42 +++++++++++++++++----------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/internal/gen/triegen/triegen.go b/internal/gen/triegen/triegen.go
index 06253ea..1234d52 100644
--- a/internal/gen/triegen/triegen.go
+++ b/internal/gen/triegen/triegen.go
@@ -105,9 +105,11 @@ type builder struct {
 	ASCIIBlock   string
 	StarterBlock string
 
-	indexBlockIdx map[uint64]int
-	valueBlockIdx map[uint64]nodeIndex
-	asciiBlockIdx map[uint64]int
+	// The keys are the contents of the blocks; a hash would not do, different
+	// blocks can have the same one.
+	indexBlockIdx map[string]int
+	valueBlockIdx map[string]nodeIndex
+	asciiBlockIdx map[string]int
 
 	// Stats are used to fill out the template.
 	Stats struct {
@@ -176,11 +178,11 @@ func Gen(w io.Writer, name string, tries []*Trie, opts ...Option) (sz int, err e
 		Compactions: []compaction{{
 			Handler: name + "Values[n<<6+uint32(b)]",
 		}},
-		// The 0 key in indexBlockIdx and valueBlockIdx is the hash of the zero
+		// The empty key in indexBlockIdx and valueBlockIdx is that of the zero
 		// block.
-		indexBlockIdx: map[uint64]int{0: 0},
-		valueBlockIdx: map[uint64]nodeIndex{0: {}},
-		asciiBlockIdx: map[uint64]int{},
+		indexBlockIdx: map[string]int{"": 0},
+		valueBlockIdx: map[string]nodeIndex{"": {}},
+		asciiBlockIdx: map[string]int{},
 	}
 	b.Compactions[0].c = (*simpleCompacter)(b)
 
@@ -403,14 +405,12 @@ func (b *builder) buildTrie(t *Trie) uint64 {
 
 	// Get the ASCII offset. For the first trie, the ASCII block will be at
 	// position 0.
-	hasher := crc64.New(crcTable)
-	_ = binary.Write(hasher, binary.BigEndian, n.values)
-	hash := hasher.Sum64()
+	key := fmt.Sprint(n.values)
 
-	v, ok := b.asciiBlockIdx[hash]
+	v, ok := b.asciiBlockIdx[key]
 	if !ok {
 		v = len(b.ValueBlocks)
-		b.asciiBlockIdx[hash] = v
+		b.asciiBlockIdx[key] = v
 
 		b.ValueBlocks = append(b.ValueBlocks, n.values[:blockSize], n.values[blockSize:])
 		if v == 0 {
@@ -442,35 +442,37 @@ func (b *builder) computeOffsets(n *node, root bool) uint64 {
 
 	// We special-case the cases where all values recursively are 0. This allows
 	// for the use of a zero block to which all such values can be directed.
-	hash := uint64(0)
+	hash, key := uint64(0), ""
 	if n.children != nil || n.values != nil {
 		hasher := crc64.New(crcTable)
-		for _, c := range n.children {
+		indexes := make([]nodeIndex, len(n.children))
+		for i, c := range n.children {
 			var v uint64
 			if c != nil {
 				v = b.computeOffsets(c, false)
+				indexes[i] = c.index
 			}
 			_ = binary.Write(hasher, binary.BigEndian, v)
 		}
 		_ = binary.Write(hasher, binary.BigEndian, n.values)
-		hash = hasher.Sum64()
+		hash, key = hasher.Sum64(), fmt.Sprint(indexes, n.values)
 	}
 
 	if first {
-		b.indexBlockIdx[hash] = rootBlockOffset - blockOffset
+		b.indexBlockIdx[key] = rootBlockOffset - blockOffset
 	}
 
 	// Compacters don't apply to internal nodes.
 	if n.children != nil {
-		v, ok := b.indexBlockIdx[hash]
+		v, ok := b.indexBlockIdx[key]
 		if !ok {
 			v = len(b.IndexBlocks) - blockOffset
 			b.IndexBlocks = append(b.IndexBlocks, n)
-			b.indexBlockIdx[hash] = v
+			b.indexBlockIdx[key] = v
 		}
 		n.index = nodeIndex{0, v}
 	} else {
-		h, ok := b.valueBlockIdx[hash]
+		h, ok := b.valueBlockIdx[key]
 		if !ok {
 			bestI, bestSize := 0, blockSize*b.ValueSize
 			for i, c := range b.Compactions[1:] {
@@ -485,7 +487,7 @@ func (b *builder) computeOffsets(n *node, root bool) uint64 {
 				c.maxHandle = v
 			}
 			h = nodeIndex{bestI, int(v)}
-			b.valueBlockIdx[hash] = h
+			b.valueBlockIdx[key] = h
 		}
 		n.index = h
 	}
-- 
2.43.0


From b0e28bc205f034f3f0d9a5b9bd69da0b4c81091d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:44 +0000
Subject: [PATCH 4/4] fix: generator stops when a data file is answered by an
 HTTP error

http.Get returns no error for a 404 or 503. A page without lines (or with
comments only) was taken as an empty data file, and an empty table written.
---
 internal/gen/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/gen/main.go b/internal/gen/main.go
index b919bad..109d95e 100644
--- a/internal/gen/main.go
+++ b/internal/gen/main.go
@@ -107,6 +107,9 @@ func (p prop) generateTrie() error {
 	if err != nil {
 		return err
 	}
+	if resp.StatusCode != http.StatusOK {
+		return fmt.Errorf("%s: %s", p.URL(), resp.Status)
+	}
 
 	b := bufio.NewReader(resp.Body)
 
@@ -251,6 +254,9 @@ func (p prop) generateTests() error {
 	if err != nil {
 		return err
 	}
+	if resp.StatusCode != http.StatusOK {
+		return fmt.Errorf("%s: %s", p.TestURL(), resp.Status)
+	}
 
 	sc := bufio.NewScanner(resp.Body) // defaults to ScanLines
 
-- 
2.43.0

