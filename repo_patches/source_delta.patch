From 1049d4857b0e5054af9a4f94bda7553255ebcebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 01/72] fix: wrap around the free page ring when writing the
 free page indexes

---
 pkg/pagefile/pagefile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/pagefile/pagefile.go b/pkg/pagefile/pagefile.go
index dbf9ba2..1c42c4e 100644
--- a/pkg/pagefile/pagefile.go
+++ b/pkg/pagefile/pagefile.go
@@ -100,7 +100,7 @@ func (pf *PageFile) writeFreePageIndices() error {
 	buf := make([]byte, len(pf.freePageIndexes)*8)
 	tail := (pf.freePageHead - pf.freePageCount + len(pf.freePageIndexes)) % len(pf.freePageIndexes)
 	for i := 0; i < pf.freePageCount; i++ {
-		offset := pf.freePageIndexes[tail+i]
+		offset := pf.freePageIndexes[(tail+i)%len(pf.freePageIndexes)]
 		binary.LittleEndian.PutUint64(buf[i*8:(i+1)*8], uint64(offset))
 	}
 	if _, err := pf.ReadWriteSeeker.Seek(0, io.SeekStart); err != nil {
-- 
2.43.0


From a82c23e6cfb0f900e9d04fcf6bfa4ec2a0b3a61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 02/72] fix: leave a file that is not whole pages untouched
 when refusing it

---
 pkg/pagefile/pagefile.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/pagefile/pagefile.go b/pkg/pagefile/pagefile.go
index 1c42c4e..c628617 100644
--- a/pkg/pagefile/pagefile.go
+++ b/pkg/pagefile/pagefile.go
@@ -40,13 +40,21 @@ const pageSizeBytes = 4096 // 4kB by default.
 const slotSizeBytes = 256
 
 func NewPageFile(rws io.ReadWriteSeeker) (*PageFile, error) {
+	// refuse a file that isn't whole pages before anything is written to it
+	size, err := rws.Seek(0, io.SeekEnd)
+	if err != nil {
+		return nil, err
+	}
+	if size%pageSizeBytes != 0 {
+		return nil, errors.New("file size is not a multiple of the page size")
+	}
 	// check if the rws is empty. if it is, allocate one page for the free page indexes
 	// if it is not, read the free page indexes from the last page
 	if _, err := rws.Seek(0, io.SeekStart); err != nil {
 		return nil, err
 	}
 	buf := make([]byte, pageSizeBytes)
-	_, err := rws.Read(buf)
+	_, err = rws.Read(buf)
 	if err != nil && err != io.EOF {
 		return nil, err
 	}
-- 
2.43.0


From 46d02e1ae232102daf0755048256bd1ab0ba6f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 03/72] fix: report reads at offsets outside the memory mapped
 file instead of panicking

---
 pkg/mmap/mmap.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/mmap/mmap.go b/pkg/mmap/mmap.go
index 3c0d219..7be66cb 100644
--- a/pkg/mmap/mmap.go
+++ b/pkg/mmap/mmap.go
@@ -114,6 +114,12 @@ func (m *MemoryMappedFile) Read(b []byte) (int, error) {
 
 // ReadAt reads len(b) bytes from the file starting at byte offset off.
 func (m *MemoryMappedFile) ReadAt(b []byte, off int64) (int, error) {
+	if off < 0 {
+		return 0, fmt.Errorf("mmap: negative offset")
+	}
+	if off > int64(len(m.bytes)) {
+		return 0, io.EOF
+	}
 	n := copy(b, m.bytes[off:])
 	if n < len(b) {
 		return n, io.EOF
-- 
2.43.0


From 4934d8983b5131681ed9a3af78bffd182bcd1174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 04/72] fix: report writes at negative offsets of the memory
 mapped file instead of panicking

---
 pkg/mmap/mmap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/mmap/mmap.go b/pkg/mmap/mmap.go
index 7be66cb..9c97010 100644
--- a/pkg/mmap/mmap.go
+++ b/pkg/mmap/mmap.go
@@ -139,6 +139,9 @@ func (m *MemoryMappedFile) Write(b []byte) (int, error) {
 
 // WriteAt writes len(b) bytes to the file starting at byte offset off.
 func (m *MemoryMappedFile) WriteAt(b []byte, off int64) (int, error) {
+	if off < 0 {
+		return 0, fmt.Errorf("mmap: negative offset")
+	}
 	// check if the file needs to be remapped
 	if off+int64(len(b)) > int64(len(m.bytes)) {
 		// write the data and remap the file
-- 
2.43.0


From 8c503585e3377bcaa4998409752079f5f32bd62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 05/72] fix: return the bytes written, not the file length,
 when a write grows the memory mapped file

---
 pkg/mmap/mmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/mmap/mmap.go b/pkg/mmap/mmap.go
index 9c97010..acf43d1 100644
--- a/pkg/mmap/mmap.go
+++ b/pkg/mmap/mmap.go
@@ -159,11 +159,11 @@ func (m *MemoryMappedFile) WriteAt(b []byte, off int64) (int, error) {
 			}
 			return len(b), nil
 		}
-		b, err := mremap(m.bytes, int(m.file.Fd()), int(fi.Size()), m.prot, m.flags)
+		bytes, err := mremap(m.bytes, int(m.file.Fd()), int(fi.Size()), m.prot, m.flags)
 		if err != nil {
 			return 0, fmt.Errorf("mmap: %v", err)
 		}
-		m.bytes = b
+		m.bytes = bytes
 		return len(b), nil
 	}
 	// write the data
-- 
2.43.0


From 4881858b950e31d2ed45a1fe151ef73a3b6c84ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 06/72] fix: let a b+ tree iterator turn around after it has
 run off either end

---
 pkg/bptree/bptree.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index 51325cd..3b4c1a8 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -89,7 +89,13 @@ func (p *TraversalIterator) incr(i, delta int) bool {
 	if rolloverLeft || rolloverRight {
 		// increment the parent node
 		if !p.incr(i+1, delta) {
-			// if we weren't able to, return false
+			// if we weren't able to, return false. the leaf stays one past the end
+			// and the inner nodes stay on its path so the iterator can turn around.
+			if i > 0 {
+				p.records[i].index -= delta
+			} else {
+				p.records[i].index = max(-1, min(p.records[i].index, p.records[i].node.NumPointers()))
+			}
 			return false
 		}
 		// otherwise, update the current node
-- 
2.43.0


From 8f026d3860b740bffb0010820ab581a5984ab2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 07/72] fix: continue to the next leaf when a b+ tree lookup
 lands past the end of a leaf

---
 pkg/bptree/bptree.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index 3b4c1a8..e7479a0 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -117,9 +117,13 @@ func (p *TraversalIterator) incr(i, delta int) bool {
 
 func (p *TraversalIterator) Next() bool {
 	if p.records == nil {
-		res := p.init()
-
-		return res && (p.records[0].index != p.records[0].node.NumPointers())
+		if !p.init() {
+			return false
+		}
+		if p.records[0].index != p.records[0].node.NumPointers() {
+			return true
+		}
+		// every key of this leaf is smaller, so the first key is in the next leaf
 	}
 	return p.incr(0, 1)
 }
-- 
2.43.0


From bf98e4620f56a5d6c51652f324a0dd7f080397cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 08/72] fix: report a failure to read the root pointer instead
 of treating the b+ tree as empty

---
 pkg/bptree/bptree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index e7479a0..86b4628 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -24,7 +24,7 @@ type BPTree struct {
 func (t *BPTree) root() (*BPTreeNode, pointer.MemoryPointer, error) {
 	mp, err := t.MetaPage.Root()
 	if err != nil || mp.Length == 0 {
-		return nil, mp, nil
+		return nil, mp, err
 	}
 	root, err := t.readNode(mp)
 	if err != nil {
-- 
2.43.0


From efb42fdb46a73dcc44c32c0c2600455c08e7d6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 09/72] fix: do not report an empty value as contained when the
 b+ tree has no such key

---
 pkg/bptree/bptree.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index 86b4628..2ad7a75 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -159,12 +159,15 @@ func (t *BPTree) Find(key pointer.ReferencedValue) (pointer.ReferencedValue, poi
 }
 
 func (t *BPTree) Contains(key pointer.ReferencedValue) (bool, error) {
-	k, _, err := t.Find(key)
+	p, err := t.Iter(key)
 	if err != nil {
 		return false, err
 	}
+	if !p.Next() {
+		return false, p.Err()
+	}
 
-	return bytes.Equal(k.Value, key.Value), nil
+	return bytes.Equal(p.Key().Value, key.Value), nil
 }
 
 func (t *BPTree) readNode(ptr pointer.MemoryPointer) (*BPTreeNode, error) {
-- 
2.43.0


From eef2aeb858a75158a2c5cacc04139bedbbe99a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 10/72] fix: read back metadata of 255 bytes instead of
 panicking

---
 pkg/linkedpage/linkedpage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/linkedpage/linkedpage.go b/pkg/linkedpage/linkedpage.go
index d11bfc0..a3c0d20 100644
--- a/pkg/linkedpage/linkedpage.go
+++ b/pkg/linkedpage/linkedpage.go
@@ -131,7 +131,7 @@ func (m *LinkedPage) Metadata() ([]byte, error) {
 		return nil, err
 	}
 	// the first byte represents the length
-	length := buf[0]
+	length := int(buf[0])
 	return buf[1 : 1+length], nil
 }
 
-- 
2.43.0


From cc5ec9514e1b4c5edda4274ef8af16f2527541fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 11/72] fix: read back the stored vector components as floats

---
 pkg/btree/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/btree/node.go b/pkg/btree/node.go
index 18c6bf5..21a522e 100644
--- a/pkg/btree/node.go
+++ b/pkg/btree/node.go
@@ -141,7 +141,7 @@ func (n *BTreeNode) UnmarshalBinary(buf []byte) error {
 		vector := make(hnsw.Point, vecdim)
 
 		for vi := range vector {
-			vector[vi] = float32(binary.LittleEndian.Uint32(buf[m:]))
+			vector[vi] = math.Float32frombits(binary.LittleEndian.Uint32(buf[m:]))
 			m += 4
 		}
 
-- 
2.43.0


From 03a51d6deb525a5aafb5893157fbdce7919f0810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 12/72] fix: report an index file with indexes as not empty

---
 pkg/appendable/index_file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/appendable/index_file.go b/pkg/appendable/index_file.go
index 263568b..bc7a415 100644
--- a/pkg/appendable/index_file.go
+++ b/pkg/appendable/index_file.go
@@ -110,7 +110,7 @@ func (i *IndexFile) IsEmpty() (bool, error) {
 	if err != nil && !errors.Is(err, io.EOF) {
 		return false, fmt.Errorf("failed to get next meta page: %w", err)
 	}
-	return n != nil, nil
+	return n == nil, nil
 }
 
 func (i *IndexFile) IndexFieldNames() ([]string, error) {
-- 
2.43.0


From 4d9c6700783f3cdda7cc01233005b1347d9f8787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 13/72] fix: count the meta page allocated for a new file

---
 pkg/linkedpage/linkedpage.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/linkedpage/linkedpage.go b/pkg/linkedpage/linkedpage.go
index a3c0d20..eab7eb3 100644
--- a/pkg/linkedpage/linkedpage.go
+++ b/pkg/linkedpage/linkedpage.go
@@ -255,15 +255,20 @@ func (m *LinkedPage) AddNext() (*LinkedPage, error) {
 	}
 }
 
-func (m *LinkedPage) reset(count uint8) error {
-	// write a full page of zeros
+// emptyPage returns a full page of zeros with no next page
+func (m *LinkedPage) emptyPage(count uint8) []byte {
 	emptyPage := make([]byte, m.rws.PageSize())
 	binary.LittleEndian.PutUint64(emptyPage[0:pointerBytes], ^uint64(0))
 	emptyPage[8] = count
+	return emptyPage
+}
+
+func (m *LinkedPage) reset(count uint8) error {
+	// write a full page of zeros
 	if _, err := m.rws.Seek(int64(m.offset), io.SeekStart); err != nil {
 		return err
 	}
-	if _, err := m.rws.Write(emptyPage); err != nil {
+	if _, err := m.rws.Write(m.emptyPage(count)); err != nil {
 		return err
 	}
 	return nil
@@ -315,8 +320,10 @@ func NewMultiBPTree(t pagefile.ReadWriteSeekPager, page int) (*LinkedPage, error
 	if _, err := t.Read(make([]byte, t.PageSize())); err != nil {
 		if err == io.EOF {
 			// the page doesn't exist, so we need to create it
-			if err := lmp.reset(0); err != nil {
+			if created, err := t.NewPage(lmp.emptyPage(0)); err != nil {
 				return nil, err
+			} else if created != offset {
+				return nil, errors.New("the meta page is not the next page of the file")
 			}
 		} else {
 			return nil, err
-- 
2.43.0


From 2a0c1365ead453c37b3e30287aa844ff414b1d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 14/72] fix: refuse a field name too long for the index
 metadata before allocating its slot

---
 pkg/appendable/index_file.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/appendable/index_file.go b/pkg/appendable/index_file.go
index bc7a415..5505fde 100644
--- a/pkg/appendable/index_file.go
+++ b/pkg/appendable/index_file.go
@@ -1,6 +1,7 @@
 package appendable
 
 import (
+	"encoding/binary"
 	"errors"
 	"fmt"
 	"github.com/kevmo314/appendable/pkg/linkedpage"
@@ -13,6 +14,10 @@ import (
 
 const CurrentVersion = 1
 
+// maxFieldNameLength is the longest field name whose index metadata always fits
+// into the metadata of a slot without reaching into the next slot.
+const maxFieldNameLength = 252 - 6 - binary.MaxVarintLen64
+
 type DataHandler interface {
 	bptree.DataParser
 	Synchronize(f *IndexFile, df []byte) error
@@ -170,6 +175,10 @@ func (i *IndexFile) FindOrCreateIndex(name string, fieldType FieldType) (*linked
 		mp = next
 	}
 	// we haven't found the index, so we need to create it
+	if len(name) > maxFieldNameLength {
+		// refuse it before the slot is allocated, its metadata couldn't be stored
+		return nil, nil, fmt.Errorf("field name too long: %d bytes", len(name))
+	}
 	next, err := mp.AddNext()
 	if err != nil {
 		return nil, nil, fmt.Errorf("failed to add next meta page: %w", err)
-- 
2.43.0


From 55478977a54b2136a6d316777b8c2627f12fcf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:41 +0000
Subject: [PATCH 15/72] fix: refuse truncated index metadata instead of
 panicking

---
 pkg/appendable/appendable.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/appendable/appendable.go b/pkg/appendable/appendable.go
index 02f76d4..0d7b885 100644
--- a/pkg/appendable/appendable.go
+++ b/pkg/appendable/appendable.go
@@ -160,13 +160,13 @@ func (m *IndexMeta) MarshalBinary() ([]byte, error) {
 }
 
 func (m *IndexMeta) UnmarshalBinary(buf []byte) error {
-	if len(buf) < 4 {
+	if len(buf) < 6 {
 		return fmt.Errorf("invalid metadata size: %d", len(buf))
 	}
 	m.FieldType = FieldType(binary.LittleEndian.Uint16(buf[0:]))
 	m.Width = binary.LittleEndian.Uint16(buf[2:])
 	nameLength := binary.LittleEndian.Uint16(buf[4:])
-	if len(buf) < 4+int(nameLength) {
+	if len(buf) < 6+int(nameLength) {
 		return fmt.Errorf("invalid metadata size: %d", len(buf))
 	}
 	m.FieldName = string(buf[6 : 6+nameLength])
-- 
2.43.0


From ba5bd6209e5e09dd0af1f1be3e31893d5e96d46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 16/72] fix: locate a JSONL value at its first byte, past the
 colon and any white space

---
 pkg/handlers/jsonl.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index 56875f9..a9a4e39 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -141,7 +141,11 @@ func (j JSONLHandler) handleJSONLObject(f *appendable.IndexFile, r []byte, dec *
 		if key, ok := key.(string); !ok {
 			return fmt.Errorf("expected string key, got '%v'", key)
 		} else {
-			fieldOffset := dec.InputOffset() + 1 // skip the :
+			// the value starts after the : and any whitespace around it
+			fieldOffset := dec.InputOffset()
+			for strings.IndexByte(": \t\r", r[data.Offset+uint64(fieldOffset)]) != -1 {
+				fieldOffset++
+			}
 
 			value, err := dec.Token()
 			if err != nil {
-- 
2.43.0


From ee487e64e815d2b1134ca7260e649029f8ec79cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 17/72] fix: index n-grams of strings only, not reject other
 values of a search field

---
 pkg/handlers/jsonl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index a9a4e39..8fce721 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -155,7 +155,7 @@ func (j JSONLHandler) handleJSONLObject(f *appendable.IndexFile, r []byte, dec *
 			name := strings.Join(append(path, key), ".")
 
 			fts := jsonTypeToFieldType(value)
-			if f.IsSearch(name) {
+			if _, ok := value.(string); ok && f.IsSearch(name) { // only strings have n-grams
 				fts = append(fts, appendable.FieldTypeUnigram, appendable.FieldTypeBigram, appendable.FieldTypeTrigram)
 			}
 
-- 
2.43.0


From 274973b102534f6b6280ff78f782f8d1b1b215a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 18/72] fix: resume a synchronization that was interrupted
 after keys were inserted

---
 pkg/bptree/bptree.go  |  6 +++++-
 pkg/handlers/csv.go   |  3 ++-
 pkg/handlers/jsonl.go | 25 +++++++++++++++++++------
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index 2ad7a75..c423e4f 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -2,6 +2,7 @@ package bptree
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"github.com/kevmo314/appendable/pkg/metapage"
 	"io"
@@ -11,6 +12,9 @@ import (
 	"github.com/kevmo314/appendable/pkg/pointer"
 )
 
+// ErrKeyExists is returned when a key is inserted that the tree contains already.
+var ErrKeyExists = errors.New("key already exists")
+
 type BPTree struct {
 	MetaPage metapage.MetaPage
 	PageFile pagefile.ReadWriteSeekPager
@@ -301,7 +305,7 @@ func (t *BPTree) Insert(key pointer.ReferencedValue, value pointer.MemoryPointer
 	j, found := slices.BinarySearchFunc(n.Keys, key, pointer.CompareReferencedValues)
 	if found {
 
-		return fmt.Errorf("key already exists. Data pointer: %v", key.DataPointer)
+		return fmt.Errorf("%w. Data pointer: %v", ErrKeyExists, key.DataPointer)
 	}
 	if j == len(n.Keys) {
 		n.Keys = append(n.Keys, key)
diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index 8e0b1c2..83d248d 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"encoding/csv"
+	"errors"
 	"fmt"
 	"github.com/kevmo314/appendable/pkg/pointer"
 	"io"
@@ -184,7 +185,7 @@ func (c CSVHandler) handleCSVLine(f *appendable.IndexFile, df []byte, dec *csv.R
 			Length: fieldLength,
 		}
 
-		if err := page.BPTree(&bptree.BPTree{Data: df, DataParser: CSVHandler{}, Width: uint16(0)}).Insert(pointer.ReferencedValue{Value: c.Parse([]byte(fieldValue)), DataPointer: mp}, data); err != nil {
+		if err := page.BPTree(&bptree.BPTree{Data: df, DataParser: CSVHandler{}, Width: uint16(0)}).Insert(pointer.ReferencedValue{Value: c.Parse([]byte(fieldValue)), DataPointer: mp}, data); err != nil && !errors.Is(err, bptree.ErrKeyExists) {
 			return fmt.Errorf("failed to insert into b+tree: %w", err)
 		}
 
diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index 8fce721..2d4cae1 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"github.com/kevmo314/appendable/pkg/ngram"
 	"github.com/kevmo314/appendable/pkg/pointer"
@@ -181,7 +182,9 @@ func (j JSONLHandler) handleJSONLObject(f *appendable.IndexFile, r []byte, dec *
 					if err := page.BPTree(&bptree.BPTree{Data: r, DataParser: j, Width: width}).Insert(pointer.ReferencedValue{
 						DataPointer: mp,
 						Value:       valueBytes,
-					}, data); err != nil {
+					}, data); errors.Is(err, bptree.ErrKeyExists) {
+						continue // indexed by a synchronization that was interrupted
+					} else if err != nil {
 						return fmt.Errorf("failed to insert into b+tree: %w", err)
 					}
 
@@ -202,7 +205,9 @@ func (j JSONLHandler) handleJSONLObject(f *appendable.IndexFile, r []byte, dec *
 								Length: uint32(len(valueStr)), // this is a degenerate case - for ngrams, we store the entire length of the valueStr. This is to help us with the ranking heuristic.
 							},
 							Value: valueBytes,
-						}, data); err != nil {
+						}, data); errors.Is(err, bptree.ErrKeyExists) {
+							continue // indexed by a synchronization that was interrupted
+						} else if err != nil {
 							return fmt.Errorf("failed to insert into b+tree: %w", err)
 						}
 
@@ -214,7 +219,9 @@ func (j JSONLHandler) handleJSONLObject(f *appendable.IndexFile, r []byte, dec *
 					if err := page.BPTree(&bptree.BPTree{Data: r, DataParser: j, Width: width}).Insert(pointer.ReferencedValue{
 						Value:       []byte{},
 						DataPointer: mp,
-					}, data); err != nil {
+					}, data); errors.Is(err, bptree.ErrKeyExists) {
+						continue // indexed by a synchronization that was interrupted
+					} else if err != nil {
 						return fmt.Errorf("failed to insert into b+tree: %w\nmp: %v", err, data.Offset)
 					}
 				case appendable.FieldTypeFloat64, appendable.FieldTypeUint64, appendable.FieldTypeInt64:
@@ -234,7 +241,9 @@ func (j JSONLHandler) handleJSONLObject(f *appendable.IndexFile, r []byte, dec *
 						DataPointer: mp,
 						Value:       buf,
 					},
-						data); err != nil {
+						data); errors.Is(err, bptree.ErrKeyExists) {
+						continue // indexed by a synchronization that was interrupted
+					} else if err != nil {
 						return fmt.Errorf("failed to insert into b+tree: %w", err)
 					}
 
@@ -249,14 +258,18 @@ func (j JSONLHandler) handleJSONLObject(f *appendable.IndexFile, r []byte, dec *
 						if err := page.BPTree(&bptree.BPTree{Data: r, DataParser: j, Width: width}).Insert(pointer.ReferencedValue{
 							DataPointer: mp,
 							Value:       []byte{1},
-						}, data); err != nil {
+						}, data); errors.Is(err, bptree.ErrKeyExists) {
+							continue // indexed by a synchronization that was interrupted
+						} else if err != nil {
 							return fmt.Errorf("failed to insert into b+tree: %w", err)
 						}
 					} else {
 						if err := page.BPTree(&bptree.BPTree{Data: r, DataParser: j, Width: width}).Insert(pointer.ReferencedValue{
 							DataPointer: mp,
 							Value:       []byte{0},
-						}, data); err != nil {
+						}, data); errors.Is(err, bptree.ErrKeyExists) {
+							continue // indexed by a synchronization that was interrupted
+						} else if err != nil {
 							return fmt.Errorf("failed to insert into b+tree: %w", err)
 						}
 					}
-- 
2.43.0


From dbb5ebe4936e6ef3d2a2e2d19359363f6841c6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 19/72] fix: reuse an index slot left unnamed by an interrupted
 synchronization

---
 pkg/appendable/index_file.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/pkg/appendable/index_file.go b/pkg/appendable/index_file.go
index 5505fde..7f44bf7 100644
--- a/pkg/appendable/index_file.go
+++ b/pkg/appendable/index_file.go
@@ -136,6 +136,11 @@ func (i *IndexFile) IndexFieldNames() ([]string, error) {
 		if err != nil {
 			return nil, fmt.Errorf("failed to read metadata: %w", err)
 		}
+		if len(buf) == 0 {
+			// allocated by a synchronization that was interrupted before naming it
+			mp = next
+			continue
+		}
 		metadata := &IndexMeta{}
 		if err := metadata.UnmarshalBinary(buf); err != nil {
 			return nil, fmt.Errorf("failed to unmarshal metadata: %w", err)
@@ -153,6 +158,7 @@ func (i *IndexFile) IndexFieldNames() ([]string, error) {
 
 func (i *IndexFile) FindOrCreateIndex(name string, fieldType FieldType) (*linkedpage.LinkedPage, *IndexMeta, error) {
 	mp := i.tree
+	var unnamed *linkedpage.LinkedPage
 	for {
 		next, err := mp.Next()
 		if err != nil {
@@ -165,6 +171,12 @@ func (i *IndexFile) FindOrCreateIndex(name string, fieldType FieldType) (*linked
 		if err != nil {
 			return nil, nil, fmt.Errorf("failed to read metadata: %w", err)
 		}
+		if len(buf) == 0 {
+			// allocated by a synchronization that was interrupted before naming it
+			unnamed = next
+			mp = next
+			continue
+		}
 		metadata := &IndexMeta{}
 		if err := metadata.UnmarshalBinary(buf); err != nil {
 			return nil, nil, fmt.Errorf("failed to unmarshal metadata: %w", err)
@@ -179,9 +191,12 @@ func (i *IndexFile) FindOrCreateIndex(name string, fieldType FieldType) (*linked
 		// refuse it before the slot is allocated, its metadata couldn't be stored
 		return nil, nil, fmt.Errorf("field name too long: %d bytes", len(name))
 	}
-	next, err := mp.AddNext()
-	if err != nil {
-		return nil, nil, fmt.Errorf("failed to add next meta page: %w", err)
+	next := unnamed
+	if next == nil {
+		var err error
+		if next, err = mp.AddNext(); err != nil {
+			return nil, nil, fmt.Errorf("failed to add next meta page: %w", err)
+		}
 	}
 	metadata := &IndexMeta{}
 	metadata.FieldName = name
-- 
2.43.0


From b19e08310b860ba75a5179df33504af5f89872cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 20/72] fix: initialise an index file interrupted before its
 file record was written

---
 pkg/appendable/index_file.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pkg/appendable/index_file.go b/pkg/appendable/index_file.go
index 7f44bf7..4a4ae9d 100644
--- a/pkg/appendable/index_file.go
+++ b/pkg/appendable/index_file.go
@@ -50,12 +50,20 @@ func NewIndexFile(f io.ReadWriteSeeker, dataHandler DataHandler, searchHeaders [
 	if err != nil && !errors.Is(err, io.EOF) {
 		return nil, fmt.Errorf("failed to get next meta page: %w", err)
 	}
+	created := node
 	if errors.Is(err, io.EOF) {
 		// the page doesn't exist, so we need to create it
-		created, err := tree.AddNext()
-		if err != nil {
+		if created, err = tree.AddNext(); err != nil {
 			return nil, fmt.Errorf("failed to add next meta page: %w", err)
 		}
+	}
+	// validate the metadata
+	buf, err := created.Metadata()
+	if err != nil {
+		return nil, fmt.Errorf("failed to read metadata: %w", err)
+	}
+	if len(buf) == 0 {
+		// new, or interrupted before its metadata was written
 		metadata := &FileMeta{
 			Version: CurrentVersion,
 			Format:  dataHandler.Format(),
@@ -69,11 +77,6 @@ func NewIndexFile(f io.ReadWriteSeeker, dataHandler DataHandler, searchHeaders [
 		}
 		return &IndexFile{tree: created, dataHandler: dataHandler, pf: pf, searchHeaders: searchHeaders}, nil
 	} else {
-		// validate the metadata
-		buf, err := node.Metadata()
-		if err != nil {
-			return nil, fmt.Errorf("failed to read metadata: %w", err)
-		}
 		metadata := &FileMeta{}
 		if err := metadata.UnmarshalBinary(buf); err != nil {
 			return nil, fmt.Errorf("failed to unmarshal metadata: %w", err)
@@ -84,7 +87,7 @@ func NewIndexFile(f io.ReadWriteSeeker, dataHandler DataHandler, searchHeaders [
 		if metadata.Format != dataHandler.Format() {
 			return nil, fmt.Errorf("unsupported format: %x", metadata.Format)
 		}
-		return &IndexFile{tree: node, dataHandler: dataHandler, pf: pf, searchHeaders: searchHeaders}, nil
+		return &IndexFile{tree: created, dataHandler: dataHandler, pf: pf, searchHeaders: searchHeaders}, nil
 	}
 }
 
-- 
2.43.0


From 55753ad1eae5e6ee097e4c77049423291a2f9930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 21/72] fix: refuse a JSONL record that cannot be indexed as a
 whole and keep the records before it

---
 pkg/appendable/index_file.go |   6 +-
 pkg/handlers/jsonl.go        | 103 +++++++++++++++++++++++++++++------
 2 files changed, 90 insertions(+), 19 deletions(-)

diff --git a/pkg/appendable/index_file.go b/pkg/appendable/index_file.go
index 4a4ae9d..866409b 100644
--- a/pkg/appendable/index_file.go
+++ b/pkg/appendable/index_file.go
@@ -14,9 +14,9 @@ import (
 
 const CurrentVersion = 1
 
-// maxFieldNameLength is the longest field name whose index metadata always fits
+// MaxFieldNameLength is the longest field name whose index metadata always fits
 // into the metadata of a slot without reaching into the next slot.
-const maxFieldNameLength = 252 - 6 - binary.MaxVarintLen64
+const MaxFieldNameLength = 252 - 6 - binary.MaxVarintLen64
 
 type DataHandler interface {
 	bptree.DataParser
@@ -190,7 +190,7 @@ func (i *IndexFile) FindOrCreateIndex(name string, fieldType FieldType) (*linked
 		mp = next
 	}
 	// we haven't found the index, so we need to create it
-	if len(name) > maxFieldNameLength {
+	if len(name) > MaxFieldNameLength {
 		// refuse it before the slot is allocated, its metadata couldn't be stored
 		return nil, nil, fmt.Errorf("field name too long: %d bytes", len(name))
 	}
diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index 2d4cae1..24c43f9 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -31,29 +31,18 @@ func (j JSONLHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 	if err != nil {
 		return fmt.Errorf("failed to read metadata: %w", err)
 	}
+	// on an error, keep the records indexed so far
+	var failed error
 	for {
 		i := bytes.IndexByte(df[metadata.ReadOffset:], '\n')
 		if i == -1 {
 			break
 		}
-		// create a new json decoder
-		dec := json.NewDecoder(bytes.NewReader(df[metadata.ReadOffset:(metadata.ReadOffset + uint64(i))]))
-
-		// if the first token is not {, then return an error
-		if t, err := dec.Token(); err != nil || t != json.Delim('{') {
-			return fmt.Errorf("expected '%U', got '%U' (only json objects are supported at the root)", '{', t)
-		}
-
-		if err := j.handleJSONLObject(f, df, dec, []string{}, pointer.MemoryPointer{
+		if failed = j.handleJSONLLine(f, df, pointer.MemoryPointer{
 			Offset: metadata.ReadOffset,
 			Length: uint32(i),
-		}); err != nil {
-			return fmt.Errorf("failed to handle object: %w", err)
-		}
-
-		// the next token must be a }
-		if t, err := dec.Token(); err != nil || t != json.Delim('}') {
-			return fmt.Errorf("expected '}', got '%v'", t)
+		}); failed != nil {
+			break
 		}
 
 		metadata.ReadOffset += uint64(i) + 1 // include the newline
@@ -70,6 +59,88 @@ func (j JSONLHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 		return fmt.Errorf("failed to set metadata: %w", err)
 	}
 
+	return failed
+}
+
+func (j JSONLHandler) handleJSONLLine(f *appendable.IndexFile, df []byte, data pointer.MemoryPointer) error {
+	line := df[data.Offset : data.Offset+uint64(data.Length)]
+
+	// refuse a record that cannot be indexed before any of its fields is
+	if err := validateJSONLLine(json.NewDecoder(bytes.NewReader(line))); err != nil {
+		return fmt.Errorf("failed to handle object: %w", err)
+	}
+
+	// create a new json decoder
+	dec := json.NewDecoder(bytes.NewReader(line))
+
+	// if the first token is not {, then return an error
+	if t, err := dec.Token(); err != nil || t != json.Delim('{') {
+		return fmt.Errorf("expected '%U', got '%U' (only json objects are supported at the root)", '{', t)
+	}
+
+	if err := j.handleJSONLObject(f, df, dec, []string{}, data); err != nil {
+		return fmt.Errorf("failed to handle object: %w", err)
+	}
+
+	// the next token must be a }
+	if t, err := dec.Token(); err != nil || t != json.Delim('}') {
+		return fmt.Errorf("expected '}', got '%v'", t)
+	}
+	return nil
+}
+
+func validateJSONLLine(dec *json.Decoder) error {
+	if t, err := dec.Token(); err != nil || t != json.Delim('{') {
+		return fmt.Errorf("expected '%U', got '%U' (only json objects are supported at the root)", '{', t)
+	}
+	return validateJSONLObject(dec, []string{})
+}
+
+// validateJSONLObject reads an object up to its } the way handleJSONLObject does.
+func validateJSONLObject(dec *json.Decoder, path []string) error {
+	for dec.More() {
+		key, err := dec.Token()
+		if err != nil {
+			return fmt.Errorf("failed to read token: %w", err)
+		}
+		keyStr, ok := key.(string)
+		if !ok {
+			return fmt.Errorf("expected string key, got '%v'", key)
+		}
+		name := strings.Join(append(path, keyStr), ".")
+		if len(name) > appendable.MaxFieldNameLength {
+			return fmt.Errorf("field name too long: %d bytes", len(name))
+		}
+
+		value, err := dec.Token()
+		if err != nil {
+			return fmt.Errorf("failed to read token: %w", err)
+		}
+		switch value {
+		case json.Delim('['):
+			for depth := 1; depth > 0; {
+				t, err := dec.Token()
+				if err != nil {
+					return fmt.Errorf("failed to read token: %w", err)
+				}
+				switch t {
+				case json.Delim('['):
+					depth++
+				case json.Delim(']'):
+					depth--
+				}
+			}
+		case json.Delim('{'):
+			if err := validateJSONLObject(dec, append(path, keyStr)); err != nil {
+				return err
+			}
+		}
+	}
+
+	// the next token must be a }
+	if t, err := dec.Token(); err != nil || t != json.Delim('}') {
+		return fmt.Errorf("expected '}', got '%v'", t)
+	}
 	return nil
 }
 
-- 
2.43.0


From d792dd002dc5f53cad3f763f350ccb2e33b913ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 22/72] fix: report a data file shorter than what is indexed
 instead of panicking

---
 pkg/handlers/csv.go   | 3 +++
 pkg/handlers/jsonl.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index 83d248d..d48a1b2 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -38,6 +38,9 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 		return fmt.Errorf("failed to read metadata: %w", err)
 	}
 
+	if metadata.ReadOffset > uint64(len(df)) {
+		return fmt.Errorf("the data file ends at %d, before the indexed data at %d", len(df), metadata.ReadOffset)
+	}
 	fieldNames, err := f.IndexFieldNames()
 	if err != nil {
 		return fmt.Errorf("failed to retrieve index field names: %w", err)
diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index 24c43f9..1d3ad73 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -31,6 +31,9 @@ func (j JSONLHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 	if err != nil {
 		return fmt.Errorf("failed to read metadata: %w", err)
 	}
+	if metadata.ReadOffset > uint64(len(df)) {
+		return fmt.Errorf("the data file ends at %d, before the indexed data at %d", len(df), metadata.ReadOffset)
+	}
 	// on an error, keep the records indexed so far
 	var failed error
 	for {
-- 
2.43.0


From ee2dcc7fe70d255647bf6e32c727fc795220ae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 23/72] fix: restore the heap order after an item's distance
 changes in place

---
 pkg/hnsw/heap.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/hnsw/heap.go b/pkg/hnsw/heap.go
index 5dcff52..8ee8886 100644
--- a/pkg/hnsw/heap.go
+++ b/pkg/hnsw/heap.go
@@ -216,9 +216,10 @@ func (d *DistHeap) Insert(id Id, dist float32) {
 }
 
 func (d *DistHeap) Fix(i int) {
-	if !d.down(i, d.Len()) {
-		d.up(i)
-	}
+	// a changed item can have to cross from a min level to a max level (or back), and
+	// then what it is exchanged with may have to sink from here
+	d.up(i)
+	d.down(i, d.Len())
 }
 
 func (d DistHeap) IsEmpty() bool      { return len(d.items) == 0 }
-- 
2.43.0


From a3cd5dea8f308cf715476c6f663b7eac775c0173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 24/72] fix: give a cloned heap items of its own

---
 pkg/hnsw/heap.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/hnsw/heap.go b/pkg/hnsw/heap.go
index 8ee8886..9baf6d8 100644
--- a/pkg/hnsw/heap.go
+++ b/pkg/hnsw/heap.go
@@ -134,7 +134,10 @@ func (d *DistHeap) Clone() *DistHeap {
 		visited: make(map[Id]int, len(d.visited)),
 	}
 
-	copy(n.items, d.items)
+	for i, item := range d.items {
+		clone := *item
+		n.items[i] = &clone
+	}
 	maps.Copy(n.visited, d.visited)
 
 	return n
-- 
2.43.0


From 26c6845dc3a50e1f42df66a3ea8411c3b439b4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 25/72] fix: connect a vector one level at a time, so that it
 is never its own neighbor

---
 pkg/hnsw/friends.go | 9 +++++++++
 pkg/hnsw/hnsw.go    | 6 ++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/hnsw/friends.go b/pkg/hnsw/friends.go
index 3d0cb75..ff98ff8 100644
--- a/pkg/hnsw/friends.go
+++ b/pkg/hnsw/friends.go
@@ -57,6 +57,15 @@ func (v *Friends) InsertFriendsAtLevel(level int, friendId Id, dist float32) {
 	v.maxLevels[friendId] = level
 }
 
+// insertFriend enters a friend at this level only
+func (v *Friends) insertFriend(level int, friendId Id, dist float32) {
+	v.friends[level].Insert(friendId, dist)
+
+	if maxLevel, ok := v.maxLevels[friendId]; !ok || maxLevel < level {
+		v.maxLevels[friendId] = level
+	}
+}
+
 func (v *Friends) GetFriendsAtLevel(level int) (*DistHeap, error) {
 	if !v.HasLevel(level) {
 		return nil, errors.New("failed to get friends at level")
diff --git a/pkg/hnsw/hnsw.go b/pkg/hnsw/hnsw.go
index ff9cf6b..346e594 100644
--- a/pkg/hnsw/hnsw.go
+++ b/pkg/hnsw/hnsw.go
@@ -220,8 +220,10 @@ func (h *Hnsw) InsertVector(q Point) (Id, error) {
 		for _, neighbor := range neighbors {
 			neighborPoint := h.points[neighbor.id]
 			distNeighToQ := EuclidDistance(*neighborPoint, q)
-			h.friends[neighbor.id].InsertFriendsAtLevel(level, qId, distNeighToQ)
-			h.friends[qId].InsertFriendsAtLevel(level, neighbor.id, distNeighToQ)
+			// at this level only: at the levels below q has not been searched for yet, and
+			// would find itself among its neighbors' friends
+			h.friends[neighbor.id].insertFriend(level, qId, distNeighToQ)
+			h.friends[qId].insertFriend(level, neighbor.id, distNeighToQ)
 		}
 
 		for _, neighbor := range neighbors {
-- 
2.43.0


From 44df078e950096a6c413b2609651200be804696f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 26/72] fix: flush the highest level a friend is kept at

---
 pkg/hnsw/friends.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/pkg/hnsw/friends.go b/pkg/hnsw/friends.go
index ff98ff8..4780c27 100644
--- a/pkg/hnsw/friends.go
+++ b/pkg/hnsw/friends.go
@@ -10,8 +10,7 @@ import (
 type Point []float32
 
 type Friends struct {
-	friends   []*DistHeap
-	maxLevels map[Id]int
+	friends []*DistHeap
 }
 
 // NewFriends creates a new vector, note the max level is inclusive.
@@ -23,8 +22,7 @@ func NewFriends(topLevel int) *Friends {
 	}
 
 	return &Friends{
-		friends:   friends,
-		maxLevels: make(map[Id]int),
+		friends: friends,
 	}
 }
 
@@ -53,17 +51,22 @@ func (v *Friends) InsertFriendsAtLevel(level int, friendId Id, dist float32) {
 	for i := 0; i <= level; i++ {
 		v.friends[i].Insert(friendId, dist)
 	}
+}
+
+// maxLevel is the highest level at which friendId is still a friend
+func (v *Friends) maxLevel(friendId Id) (int, bool) {
+	for level := v.TopLevel(); level >= 0; level-- {
+		if _, ok := v.friends[level].visited[friendId]; ok {
+			return level, true
+		}
+	}
 
-	v.maxLevels[friendId] = level
+	return 0, false
 }
 
 // insertFriend enters a friend at this level only
 func (v *Friends) insertFriend(level int, friendId Id, dist float32) {
 	v.friends[level].Insert(friendId, dist)
-
-	if maxLevel, ok := v.maxLevels[friendId]; !ok || maxLevel < level {
-		v.maxLevels[friendId] = level
-	}
 }
 
 func (v *Friends) GetFriendsAtLevel(level int) (*DistHeap, error) {
@@ -100,10 +103,10 @@ func (v *Friends) Flush(numNeighbors int) ([]byte, error) {
 		}
 
 		closestId := closestItem.id
-		closestIdMaxLevel, ok := v.maxLevels[closestId]
+		closestIdMaxLevel, ok := v.maxLevel(closestId)
 
 		if !ok {
-			return []byte{}, fmt.Errorf("failed to find id %v in maxLevels map", closestId)
+			return []byte{}, fmt.Errorf("failed to find id %v at any level", closestId)
 		}
 
 		buf[i*(1+4)] = byte(closestIdMaxLevel)
-- 
2.43.0


From 87f049a0aea1b6fdc73149590806364265e06f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 27/72] fix: refuse a search for a vector of another
 dimensionality

---
 pkg/hnsw/hnsw.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/hnsw/hnsw.go b/pkg/hnsw/hnsw.go
index 346e594..16b7992 100644
--- a/pkg/hnsw/hnsw.go
+++ b/pkg/hnsw/hnsw.go
@@ -262,6 +262,10 @@ func (h *Hnsw) isValidPoint(point Point) bool {
 }
 
 func (h *Hnsw) KnnSearch(q Point, numNeighborsToReturn int) (*DistHeap, error) {
+	if !h.isValidPoint(q) {
+		return nil, fmt.Errorf("invalid vector dimensionality")
+	}
+
 	entryPoint := h.points[h.entryPointId]
 
 	entryPointFriends, ok := h.friends[h.entryPointId]
-- 
2.43.0


From 8b1b52a4c166f82ef2a9760b99b6e0fc4b8cadae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 28/72] fix: store the friends of every node, equal ones too

---
 pkg/vectorpage/manager.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/vectorpage/manager.go b/pkg/vectorpage/manager.go
index 5e2541c..578cd0a 100644
--- a/pkg/vectorpage/manager.go
+++ b/pkg/vectorpage/manager.go
@@ -53,7 +53,11 @@ func (vp *VectorPageManager) AddNode(x hnsw.Point) error {
 		return err
 	}
 
-	if err := vp.bptree.Insert(pointer.ReferencedValue{Value: xfriendsBuf}, pointer.MemoryPointer{}); err != nil {
+	// different nodes can have equal friends, the id tells them apart
+	if err := vp.bptree.Insert(pointer.ReferencedValue{
+		DataPointer: pointer.MemoryPointer{Offset: uint64(xId)},
+		Value:       xfriendsBuf,
+	}, pointer.MemoryPointer{}); err != nil {
 		return fmt.Errorf("failed to insert buf: %v", err)
 	}
 
-- 
2.43.0


From e2a772a8d5ded10a328db8feac5b3107b842d140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:47 +0000
Subject: [PATCH 29/72] fix: find the first and last key of a client b+ tree
 whose root is a leaf

---
 src/bptree/bptree.ts | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/bptree/bptree.ts b/src/bptree/bptree.ts
index 71bd6bc..33db1a9 100644
--- a/src/bptree/bptree.ts
+++ b/src/bptree/bptree.ts
@@ -105,7 +105,7 @@ export class BPTree {
       throw new Error("unable to get root node");
     }
 
-    let currNode = await this.readNode(rootNode.pointer(0));
+    let currNode = rootNode;
 
     while (!currNode.leaf()) {
       const childPointer = currNode.pointer(0);
@@ -121,9 +121,7 @@ export class BPTree {
       throw new Error("unable to get root node");
     }
 
-    let currNode = await this.readNode(
-      rootNode.pointer(rootNode.numPointers() - 1),
-    );
+    let currNode = rootNode;
 
     while (!currNode.leaf()) {
       const childPointer = currNode.pointer(currNode.numPointers() - 1);
-- 
2.43.0


From 7ac7fd00fbd718e9d4c043eda40170e4789cab44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 30/72] fix: continue to the next leaf when a client b+ tree
 lookup lands past the end of a leaf

---
 src/bptree/traversal.ts | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/bptree/traversal.ts b/src/bptree/traversal.ts
index f7a5a2e..f328782 100644
--- a/src/bptree/traversal.ts
+++ b/src/bptree/traversal.ts
@@ -75,11 +75,14 @@ export class TraversalIterator {
 
   async next(): Promise<boolean> {
     if (this.records.length === 0) {
-      const res = await this.init();
+      if (!(await this.init())) {
+        return false;
+      }
 
-      return (
-        res && this.records[0].index !== this.records[0].node.numPointers()
-      );
+      if (this.records[0].index !== this.records[0].node.numPointers()) {
+        return true;
+      }
+      // every key of this leaf is smaller, so the first key is in the next leaf
     }
 
     return this.increment(0, 1);
-- 
2.43.0


From 38452a38dfa812c838341047c619b9007081a867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 31/72] fix: let a client b+ tree iterator turn around after it
 has run off either end

---
 src/bptree/traversal.ts | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/bptree/traversal.ts b/src/bptree/traversal.ts
index f328782..733ef8e 100644
--- a/src/bptree/traversal.ts
+++ b/src/bptree/traversal.ts
@@ -52,6 +52,19 @@ export class TraversalIterator {
 
     if (rolloverLeft || rolloverRight) {
       if (!(await this.increment(i + 1, delta))) {
+        // the leaf stays one past the end and the inner nodes stay on its path
+        // so the iterator can turn around.
+        if (i > 0) {
+          this.records[i].index -= delta;
+        } else {
+          this.records[i].index = Math.max(
+            -1,
+            Math.min(
+              this.records[i].index,
+              this.records[i].node.numPointers(),
+            ),
+          );
+        }
         return false;
       }
 
-- 
2.43.0


From 4788d17fdcb3e897a1248ee93696842e90e04e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 32/72] fix: do not skip the last key of a descending > or >=
 query

---
 src/db/database.ts | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/db/database.ts b/src/db/database.ts
index 07592fc..29be995 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -242,7 +242,13 @@ export class Database<T extends Schema> {
             }
           } else {
             const lastKey = await btree.last();
-            const iter = btree.iter(lastKey);
+            // start past the last key: the first step back is the last key
+            const iter = btree.iter(
+              new ReferencedValue(
+                { offset: maxUint64, length: 0 },
+                lastKey.value,
+              ),
+            );
 
             while (await iter.prev()) {
               const currentKey = iter.getKey();
@@ -287,7 +293,13 @@ export class Database<T extends Schema> {
             }
           } else {
             const lastKey = await btree.last();
-            const iter = btree.iter(lastKey);
+            // start past the last key: the first step back is the last key
+            const iter = btree.iter(
+              new ReferencedValue(
+                { offset: maxUint64, length: 0 },
+                lastKey.value,
+              ),
+            );
 
             while (await iter.prev()) {
               const currentKey = iter.getKey();
-- 
2.43.0


From cdb4ba381a2463cdb04e5c883464e786f21b610d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 33/72] fix: leave equal values out of a descending > query

---
 src/db/database.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db/database.ts b/src/db/database.ts
index 29be995..6cc69e7 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -254,7 +254,7 @@ export class Database<T extends Schema> {
               const currentKey = iter.getKey();
 
               if (
-                ReferencedValue.compareBytes(currentKey.value, valueBuf) < 0
+                ReferencedValue.compareBytes(currentKey.value, valueBuf) <= 0
               ) {
                 break;
               }
-- 
2.43.0


From 9c5cc91353fbefa328716c74c149e57c75b56631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 34/72] fix: honour the limit of a query

---
 src/db/database.ts | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/db/database.ts b/src/db/database.ts
index 6cc69e7..f5eb103 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -100,6 +100,25 @@ export class Database<T extends Schema> {
   }
 
   async *query(query: Query<T>) {
+    if (query.limit === undefined) {
+      yield* this.run(query);
+      return;
+    }
+
+    let remaining = query.limit;
+    if (remaining <= 0) {
+      return;
+    }
+
+    for await (const row of this.run(query)) {
+      yield row;
+      if (--remaining <= 0) {
+        return;
+      }
+    }
+  }
+
+  private async *run(query: Query<T>) {
     if (new Set((query.where ?? []).map((where) => where.key)).size > 1) {
       throw new Error("composite indexes not supported... yet");
     }
-- 
2.43.0


From 4d25af31a444624b5f5f129b9a53ad24c299d3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:17 +0000
Subject: [PATCH 35/72] fix: validate a query before running it

---
 src/db/database.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/db/database.ts b/src/db/database.ts
index f5eb103..9c0d1a1 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -4,7 +4,7 @@ import { DataFile } from "../file/data-file";
 import { VersionedIndexFile } from "../file/index-file";
 import { IndexHeader, readIndexMeta } from "../file/meta";
 import { QueryBuilder } from "./query-builder";
-import { validateSearch } from "./query-validation";
+import { validateQuery } from "./query-validation";
 import {
   Query,
   Schema,
@@ -130,9 +130,9 @@ export class Database<T extends Schema> {
     }
 
     const headers = await this.fields();
+    validateQuery(query, headers);
 
     if (query.search) {
-      validateSearch(query.search, headers);
       let { key: fieldName, like, config } = query.search;
       let { minGram, maxGram } = config!;
 
-- 
2.43.0


From 0e92f2c438415188ba002d7fd92cd87e642ef91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:40 +0000
Subject: [PATCH 36/72] fix: let a client open an index with no fields

---
 src/file/index-file.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/file/index-file.ts b/src/file/index-file.ts
index 3145e24..6ff69bf 100644
--- a/src/file/index-file.ts
+++ b/src/file/index-file.ts
@@ -74,7 +74,8 @@ export class IndexFileV1<T> implements VersionedIndexFile<T> {
     let currMp = await tree.next();
 
     if (!currMp) {
-      throw new Error(`failed to fetch meta pages`);
+      // nothing is indexed yet
+      return [];
     }
 
     let headerMps = [];
@@ -113,7 +114,8 @@ export class IndexFileV1<T> implements VersionedIndexFile<T> {
     let currMp = await tree.next();
 
     if (!currMp) {
-      throw new Error(`failed to fetch meta pages`);
+      // nothing is indexed yet
+      return;
     }
 
     while (true) {
-- 
2.43.0


From a43e441f604da05a4e16decdc40d8a3fe8219988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:59 +0000
Subject: [PATCH 37/72] fix: return the records that meet every condition on a
 field, not any

---
 src/db/database.ts | 69 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 68 insertions(+), 1 deletion(-)

diff --git a/src/db/database.ts b/src/db/database.ts
index 9c0d1a1..ab55476 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -76,6 +76,32 @@ export function fieldTypeToString(f: FieldType): string {
   return str;
 }
 
+// satisfies tells whether an indexed value meets a condition
+function satisfies<T extends Schema>(
+  indexed: ArrayBuffer,
+  indexedType: FieldType,
+  { operation, value }: WhereNode<T>,
+): boolean {
+  const res = processWhere(value);
+  if (res === null || res.fieldType !== indexedType) {
+    return false;
+  }
+
+  const cmp = ReferencedValue.compareBytes(indexed, res.valueBuf);
+  switch (operation) {
+    case "<":
+      return cmp < 0;
+    case "<=":
+      return cmp <= 0;
+    case "==":
+      return cmp === 0;
+    case ">=":
+      return cmp >= 0;
+    case ">":
+      return cmp > 0;
+  }
+}
+
 export class Database<T extends Schema> {
   private indexHeadersPromise?: Promise<IndexHeader[]>;
 
@@ -208,7 +234,10 @@ export class Database<T extends Schema> {
     }
 
     if (query.where) {
-      for (const { key, value, operation } of query.where ?? []) {
+      // the first condition is looked up, the others on the same key filter
+      const [first, ...others] = query.where;
+
+      for (const { key, value, operation } of [first]) {
         const header = headers.find((header) => header.fieldName === key);
         if (!header) {
           throw new Error("field not found");
@@ -219,6 +248,8 @@ export class Database<T extends Schema> {
           throw new Error(`unable to process key with a type ${typeof value}`);
         }
         const { fieldType, valueBuf } = res;
+        const excluded = (current: ReferencedValue) =>
+          others.some((other) => !satisfies(current.value, fieldType, other));
 
         const mps = await this.indexFile.seek(key as string, fieldType);
         const mp = mps[0];
@@ -250,6 +281,10 @@ export class Database<T extends Schema> {
             const iter = btree.iter(valueRef);
 
             while (await iter.next()) {
+              if (excluded(iter.getKey())) {
+                continue;
+              }
+
               const mp = iter.getPointer();
 
               const data = await this.dataFile.get(
@@ -278,6 +313,10 @@ export class Database<T extends Schema> {
                 break;
               }
 
+              if (excluded(iter.getKey())) {
+                continue;
+              }
+
               const mp = iter.getPointer();
 
               const data = await this.dataFile.get(
@@ -296,6 +335,10 @@ export class Database<T extends Schema> {
             const iter = btree.iter(valueRef);
 
             while (await iter.next()) {
+              if (excluded(iter.getKey())) {
+                continue;
+              }
+
               const mp = iter.getPointer();
 
               const data = await this.dataFile.get(
@@ -329,6 +372,10 @@ export class Database<T extends Schema> {
                 break;
               }
 
+              if (excluded(iter.getKey())) {
+                continue;
+              }
+
               const mp = iter.getPointer();
 
               const data = await this.dataFile.get(
@@ -355,6 +402,10 @@ export class Database<T extends Schema> {
               break;
             }
 
+            if (excluded(currentKey)) {
+              continue;
+            }
+
             const mp = iter.getPointer();
 
             if (mp === null) {
@@ -376,6 +427,10 @@ export class Database<T extends Schema> {
             );
             const iter = btree.iter(valueRef);
             while (await iter.prev()) {
+              if (excluded(iter.getKey())) {
+                continue;
+              }
+
               const mp = iter.getPointer();
 
               const data = await this.dataFile.get(
@@ -398,6 +453,10 @@ export class Database<T extends Schema> {
                 break;
               }
 
+              if (excluded(iter.getKey())) {
+                continue;
+              }
+
               const mp = iter.getPointer();
 
               const data = await this.dataFile.get(
@@ -416,6 +475,10 @@ export class Database<T extends Schema> {
             );
             const iter = btree.iter(valueRef);
             while (await iter.prev()) {
+              if (excluded(iter.getKey())) {
+                continue;
+              }
+
               const mp = iter.getPointer();
 
               const data = await this.dataFile.get(
@@ -438,6 +501,10 @@ export class Database<T extends Schema> {
                 break;
               }
 
+              if (excluded(iter.getKey())) {
+                continue;
+              }
+
               const mp = iter.getPointer();
 
               const data = await this.dataFile.get(
-- 
2.43.0


From ed5d083741efdf8890d44c9c4dd58dd5fdd03da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:43 +0000
Subject: [PATCH 38/72] fix: split a query into the n-grams the indexer makes
 of the same text

---
 src/ngram/tokenizer.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ngram/tokenizer.ts b/src/ngram/tokenizer.ts
index b8eaf37..ade8440 100644
--- a/src/ngram/tokenizer.ts
+++ b/src/ngram/tokenizer.ts
@@ -29,7 +29,12 @@ export class NgramTokenizer {
     let wordOffsets: number[][] = [];
     let currentWordOffsets: number[] = [];
 
-    Array.from(phrase).forEach((c, idx) => {
+    // as the indexer does: compatibility decomposition, ASCII only
+    const chars = Array.from(phrase.normalize("NFKD")).filter(
+      (c) => c <= "\x7f",
+    );
+
+    chars.forEach((c, idx) => {
       if (/[a-zA-Z0-9]/.test(c)) {
         currentWordOffsets.push(idx);
       } else if (/\s/.test(c)) {
@@ -56,7 +61,7 @@ export class NgramTokenizer {
           let str = "";
 
           for (let jdx = idx; jdx <= idx + N - 1; jdx++) {
-            str += phrase[word[jdx]];
+            str += chars[word[jdx]];
           }
 
           let value = str.toLowerCase();
-- 
2.43.0


From 5cc592075d7661259c7e288ff8a17c23603da991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:43 +0000
Subject: [PATCH 39/72] fix: count terms per document and list each document
 once

---
 src/bptree/bptree.ts | 20 +++++++++++---------
 src/db/database.ts   |  9 ++++++---
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/bptree/bptree.ts b/src/bptree/bptree.ts
index 33db1a9..41c3dd7 100644
--- a/src/bptree/bptree.ts
+++ b/src/bptree/bptree.ts
@@ -27,10 +27,6 @@ export class BPTree {
   // insight attributes below
 
   private readonly entries: number;
-  private readonly tfMap: Map<DataPointer, number> = new Map<
-    DataPointer,
-    number
-  >();
 
   constructor(
     tree: RangeResolver,
@@ -174,6 +170,9 @@ export class BPTree {
   public async termFrequency(key: ReferencedValue) {
     const p = await this.iter(key);
 
+    const dataPointers = new Map<number, DataPointer>();
+    const tfMap = new Map<DataPointer, number>();
+
     while (await p.next()) {
       const currentKey = p.getKey();
 
@@ -182,15 +181,18 @@ export class BPTree {
       }
       const mp = p.getPointer();
 
-      const dp: DataPointer = {
-        start: Number(mp.offset),
-        end: Number(mp.offset) + mp.length - 1,
+      // a document is known by where it starts
+      const start = Number(mp.offset);
+      const dp = dataPointers.get(start) ?? {
+        start,
+        end: start + mp.length - 1,
       };
 
-      this.tfMap.set(dp, (this.tfMap.get(dp) ?? 0) + 1);
+      dataPointers.set(start, dp);
+      tfMap.set(dp, (tfMap.get(dp) ?? 0) + 1);
     }
 
-    return this.tfMap;
+    return tfMap;
   }
 }
 
diff --git a/src/db/database.ts b/src/db/database.ts
index ab55476..f07adbd 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -165,7 +165,9 @@ export class Database<T extends Schema> {
       const tok = new NgramTokenizer(minGram, maxGram);
       const likeToks = NgramTokenizer.shuffle(tok.tokens(like));
 
-      const table = new PriorityTable<DataPointer>();
+      // documents by where they start
+      const documents = new Map<number, DataPointer>();
+      const table = new PriorityTable<number>();
       const metaPageCache = new Map<FieldType, LinkedMetaPage>();
 
       const btreeMap = new Map<FieldType, BPTree>();
@@ -222,12 +224,13 @@ export class Database<T extends Schema> {
           const den = tf + K1;
           const score = idf * (num / den);
 
-          table.insert(key, score);
+          documents.set(key.start, key);
+          table.insert(key.start, score);
         }
       }
 
       for (const { key, score } of table.top()) {
-        const { start, end } = key;
+        const { start, end } = documents.get(key)!;
         const data = await this.dataFile.get(start, end);
         yield { data, score };
       }
-- 
2.43.0


From 66ed0f4030aec0b49b43aeeccf7a242dd351bd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 40/72] fix: find nothing in an index without entries

---
 src/bptree/bptree.ts | 5 +++--
 src/db/database.ts   | 5 +++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bptree/bptree.ts b/src/bptree/bptree.ts
index 41c3dd7..598b26b 100644
--- a/src/bptree/bptree.ts
+++ b/src/bptree/bptree.ts
@@ -21,7 +21,7 @@ export class BPTree {
   private readonly pageFieldType: FieldType;
   private readonly pageFieldWidth: number;
 
-  private rootNodeCache: Promise<BPTreeNode> | null = null;
+  private rootNodeCache: Promise<BPTreeNode | null> | null = null;
   private rootPointerCache: Promise<MemoryPointer> | null = null;
 
   // insight attributes below
@@ -49,8 +49,9 @@ export class BPTree {
   async root(): Promise<RootResponse> {
     if (!this.rootNodeCache || !this.rootPointerCache) {
       this.rootPointerCache = this.meta.root();
+      // a tree without entries has no root node
       this.rootNodeCache = this.rootPointerCache.then((ptr) =>
-        this.readNode(ptr),
+        ptr.length === 0 ? null : this.readNode(ptr),
       );
     }
 
diff --git a/src/db/database.ts b/src/db/database.ts
index f07adbd..ae2025d 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -275,6 +275,11 @@ export class Database<T extends Schema> {
           entries,
         );
 
+        if ((await btree.root()).rootNode === null) {
+          // nothing is indexed under this field and type yet
+          continue;
+        }
+
         if (operation === ">") {
           if (ord === "ASC") {
             const valueRef = new ReferencedValue(
-- 
2.43.0


From 3dd446fd27d1de2918137a0537e6da24406ed675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:59 +0000
Subject: [PATCH 41/72] fix: end at the end of a truncated multipart body
 instead of hanging

---
 src/resolver/multipart.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/resolver/multipart.ts b/src/resolver/multipart.ts
index eb1edd9..a64fd0f 100644
--- a/src/resolver/multipart.ts
+++ b/src/resolver/multipart.ts
@@ -26,6 +26,9 @@ function getReader(stream: ReadableStream) {
           residual = result.value;
         }
         readDone ||= result.done;
+        if (readDone && !residual) {
+          return { done: true, value: undefined };
+        }
       }
     }
   };
-- 
2.43.0


From afe46f56f1abdcc1d0bd1bd8d2704a907b90edbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:59 +0000
Subject: [PATCH 42/72] fix: read the headers of a multipart body whatever
 their case

---
 src/resolver/multipart.ts | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/resolver/multipart.ts b/src/resolver/multipart.ts
index a64fd0f..63237d5 100644
--- a/src/resolver/multipart.ts
+++ b/src/resolver/multipart.ts
@@ -141,12 +141,13 @@ export default async function* parseMultipartBody(
           break;
         } else {
           const decoded = new TextDecoder().decode(new Uint8Array(header));
-          const tokens = decoded.split(":", 2);
-          if (tokens.length !== 2) {
+          const colon = decoded.indexOf(":");
+          if (colon < 0) {
             throw new Error(`Invalid header: ${decoded}`);
           }
-          const [key, value] = tokens;
-          headers[key.trim()] = value.trim();
+          // header names are case-insensitive
+          const key = decoded.slice(0, colon).trim().toLowerCase();
+          headers[key] = decoded.slice(colon + 1).trim();
           header.length = 0;
         }
       } else {
@@ -157,12 +158,12 @@ export default async function* parseMultipartBody(
 
     // read body
     // read the Content-Range header
-    if (!headers["Content-Range"]) {
+    if (!headers["content-range"]) {
       // TODO: read until the next boundary
       throw new Error("Missing Content-Range header");
     }
     const [unit, start, end] = parseContentRangeHeader(
-      headers["Content-Range"],
+      headers["content-range"],
     );
     if (unit !== "bytes") {
       throw new Error("Invalid Content-Range header");
-- 
2.43.0


From dd5a28fee8c8bbe6270011590b0925596fe4ec84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:59 +0000
Subject: [PATCH 43/72] fix: accept quoted boundaries and a line break before
 the first boundary

---
 src/resolver/multipart.ts | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/resolver/multipart.ts b/src/resolver/multipart.ts
index 63237d5..1babc74 100644
--- a/src/resolver/multipart.ts
+++ b/src/resolver/multipart.ts
@@ -59,7 +59,8 @@ export default async function* parseMultipartBody(
   const boundaryToken = tokens
     .map((s) => s.trim())
     .find((s) => s.startsWith("boundary="))
-    ?.split("=", 2)?.[1];
+    ?.slice("boundary=".length)
+    .replace(/^"(.*)"$/, "$1");
   if (!boundaryToken) {
     throw new Error("No boundary found");
   }
@@ -87,6 +88,18 @@ export default async function* parseMultipartBody(
     return false;
   };
 
+  // some servers start the body with an empty line
+  while (length === 0 || buf[ptr] === 13 || buf[ptr] === 10) {
+    if (length === 0) {
+      if (await extend()) {
+        return;
+      }
+    } else {
+      ptr = (ptr + 1) % buf.length;
+      length--;
+    }
+  }
+
   while (true) {
     // read boundary
     for (let i = 0; i < boundary.length; i++) {
-- 
2.43.0


From 1aaaf77b2dbf951b0f8185dc53d784cc0fe2f775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:22 +0000
Subject: [PATCH 44/72] fix: allow ranges of one byte

---
 src/file/data-file.ts         | 2 +-
 src/resolver/range-request.ts | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/file/data-file.ts b/src/file/data-file.ts
index 76177d0..668cdef 100644
--- a/src/file/data-file.ts
+++ b/src/file/data-file.ts
@@ -26,7 +26,7 @@ export class DataFile {
   }
 
   async get(start: number, end: number) {
-    if (end <= start) {
+    if (end < start) {
       throw new Error(`Invalid range for start: ${start} and end: ${end}`);
     }
 
diff --git a/src/resolver/range-request.ts b/src/resolver/range-request.ts
index a471ca2..b8900c3 100644
--- a/src/resolver/range-request.ts
+++ b/src/resolver/range-request.ts
@@ -40,9 +40,9 @@ export async function requestRanges(
   }
 
   for (const { start, end } of ranges) {
-    if (end - start <= 0) {
+    if (end < start) {
       throw new Error(
-        `Invalid range: The start (${start}) and end (${end}) of a range are equal, indicating a zero-length range.`,
+        `Invalid range: The end (${end}) of a range is before its start (${start}), indicating a zero-length range.`,
       );
     }
   }
-- 
2.43.0


From 12f248507fd7d55b279c4adb28b8d8e7d3c44c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:35 +0000
Subject: [PATCH 45/72] fix: match the parts of a response to the requested
 ranges

---
 src/resolver/range-request.ts | 100 +++++++++++++++++++++++-----------
 1 file changed, 68 insertions(+), 32 deletions(-)

diff --git a/src/resolver/range-request.ts b/src/resolver/range-request.ts
index b8900c3..e3a7f19 100644
--- a/src/resolver/range-request.ts
+++ b/src/resolver/range-request.ts
@@ -2,28 +2,73 @@ import { Config } from "../index";
 import parseMultipartBody from "./multipart";
 import { LengthIntegrityError } from "./resolver";
 
+type Part = { start: number; data: ArrayBuffer; totalLength: number };
+
+// readPart makes a part of a body and of the Content-Range it came with
+function readPart(contentRange: string | null, data: ArrayBuffer): Part {
+  const match = /^bytes\s+(\d+)-(\d+)\/(\d+|\*)$/.exec(contentRange ?? "");
+  if (!match) {
+    throw new Error(`Unexpected Content-Range: ${contentRange}`);
+  }
+
+  const [start, end] = [Number(match[1]), Number(match[2])];
+  if (data.byteLength !== end - start + 1) {
+    throw new Error(
+      `Expected ${end - start + 1} bytes, got ${data.byteLength}`,
+    );
+  }
+  return { start, data, totalLength: match[3] === "*" ? 0 : Number(match[3]) };
+}
+
+// selectRanges finds the requested ranges in the parts: a server may reorder or
+// coalesce ranges, and cuts them at the end of the file
+function selectRanges(
+  ranges: { start: number; end: number; expectedLength?: number }[],
+  parts: Part[],
+): { data: ArrayBuffer; totalLength: number }[] {
+  return ranges.map(({ start, end, expectedLength }) => {
+    for (const part of parts) {
+      const last = part.totalLength
+        ? Math.min(end, part.totalLength - 1)
+        : end;
+      if (
+        start <= last &&
+        part.start <= start &&
+        last < part.start + part.data.byteLength
+      ) {
+        if (expectedLength && part.totalLength !== expectedLength) {
+          throw new LengthIntegrityError();
+        }
+        return {
+          data: part.data.slice(start - part.start, last + 1 - part.start),
+          totalLength: part.totalLength,
+        };
+      }
+    }
+    throw new Error(`Range ${start}-${end} is missing in the response`);
+  });
+}
+
 async function resolveIndividualPromises(
   url: string,
   ranges: { start: number; end: number; expectedLength?: number }[],
 ) {
   // fallback to resolving ranges individually
   const individualRangePromises = ranges.map(
-    async ({ start, end, expectedLength }) => {
-      const rangeHeader = `${start}-${end}`;
+    async (range) => {
+      const rangeHeader = `${range.start}-${range.end}`;
       const res = await fetch(url, {
         headers: { Range: `bytes=${rangeHeader}` },
       });
 
-      const totalLength = Number(
-        res.headers.get("Content-Range")!.split("/")[1],
-      );
-      if (expectedLength && totalLength !== expectedLength) {
-        throw new LengthIntegrityError();
+      if (res.status !== 206) {
+        throw new Error(`Expected 206 response, got ${res.status}`);
       }
-      return {
-        data: await res.arrayBuffer(),
-        totalLength: totalLength,
-      };
+      const part = readPart(
+        res.headers.get("Content-Range"),
+        await res.arrayBuffer(),
+      );
+      return selectRanges([range], [part])[0];
     },
   );
   return await Promise.all(individualRangePromises);
@@ -83,28 +128,19 @@ export async function requestRanges(
           chunks.push(chunk);
         }
 
-        // the last element is null since the final boundary marker is followed by another delim.
-        if (chunks[chunks.length - 1].data === undefined) {
-          chunks.pop();
-        }
-
-        return chunks.map(({ data, headers }) => {
-          const totalLengthStr = headers["content-range"]?.split("/")[1];
-          const totalLength = totalLengthStr ? parseInt(totalLengthStr, 10) : 0;
-
-          return { data, totalLength };
-        });
-      } else if (response.headers.has("Content-Range")) {
-        const abuf = await response.arrayBuffer();
-        const totalLength = Number(
-          response.headers.get("Content-Range")!.split("/")[1],
+        return selectRanges(
+          ranges,
+          chunks.map(({ data, headers }) =>
+            readPart(headers["content-range"], data),
+          ),
         );
-        return [
-          {
-            data: abuf,
-            totalLength: totalLength,
-          },
-        ];
+      } else if (response.headers.has("Content-Range")) {
+        return selectRanges(ranges, [
+          readPart(
+            response.headers.get("Content-Range"),
+            await response.arrayBuffer(),
+          ),
+        ]);
       } else {
         throw new Error(`Unexpected response format: ${contentType}`);
       }
-- 
2.43.0


From 6739c9c98fcbf88807b323dd12c426ff748733de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:04 +0000
Subject: [PATCH 46/72] fix: decode varints beyond 32 bits

---
 src/util/uvarint.ts | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/util/uvarint.ts b/src/util/uvarint.ts
index 5dbbaa7..6f5ddb5 100644
--- a/src/util/uvarint.ts
+++ b/src/util/uvarint.ts
@@ -11,11 +11,12 @@ export function encodeUvarint(n: number): ArrayBuffer {
   let ibuf = new Uint8Array(MAX_VARINT_64);
 
   while (n >= 0x80) {
-    ibuf[i++] = (n & 0xff) | 0x80;
-    n >>= 7;
+    // bitwise operators would cut n to 32 bits
+    ibuf[i++] = (n % 0x80) | 0x80;
+    n = Math.floor(n / 0x80);
   }
 
-  ibuf[i] = n & 0xff;
+  ibuf[i] = n;
 
   return ibuf.buffer.slice(0, i + 1);
 }
@@ -38,11 +39,11 @@ export function decodeUvarint(buf: ArrayBuffer): UvarintResponse {
         return { value: 0, bytesRead: -(idx + 1) };
       }
 
-      let value = x | (b << s);
+      let value = x + b * 2 ** s;
       return { value, bytesRead: idx + 1 };
     }
 
-    x |= (b & 0x7f) << s;
+    x += (b & 0x7f) * 2 ** s;
     s += 7;
   }
 
-- 
2.43.0


From 19ceacdd9ee3f733979b40d726850f78a57e9f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:35 +0000
Subject: [PATCH 47/72] fix: keep a byte order mark that a field name starts
 with

---
 src/file/meta.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/file/meta.ts b/src/file/meta.ts
index 333f786..9759c8f 100644
--- a/src/file/meta.ts
+++ b/src/file/meta.ts
@@ -67,7 +67,10 @@ export function readIndexMeta(buffer: ArrayBuffer): IndexMeta {
   }
 
   const fieldNameBuffer = buffer.slice(6, 6 + nameLength);
-  const fieldName = new TextDecoder("utf-8").decode(fieldNameBuffer);
+  // a byte order mark is part of the name
+  const fieldName = new TextDecoder("utf-8", { ignoreBOM: true }).decode(
+    fieldNameBuffer,
+  );
 
   const { value: totalFieldValueLength } = decodeUvarint(
     buffer.slice(6 + nameLength),
-- 
2.43.0


From 837300fa78b43f0f2b01f66b375c48aa89e1589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 48/72] fix: skip index slots that have no name yet in the
 client

---
 src/file/index-file.ts | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/file/index-file.ts b/src/file/index-file.ts
index 6ff69bf..5a905d0 100644
--- a/src/file/index-file.ts
+++ b/src/file/index-file.ts
@@ -81,8 +81,10 @@ export class IndexFileV1<T> implements VersionedIndexFile<T> {
     let headerMps = [];
 
     while (true) {
-      const indexMeta = readIndexMeta(await currMp.metadata());
-      if (indexMeta.fieldName === header) {
+      const buffer = await currMp.metadata();
+      // a slot the indexer allocated but did not get to name holds nothing
+      const indexMeta = buffer.byteLength > 0 ? readIndexMeta(buffer) : null;
+      if (indexMeta?.fieldName === header) {
         if (fieldType === FieldType.Float64) {
           // if key is a number or bigint, we cast it as a float64 type
           if (
@@ -137,8 +139,11 @@ export class IndexFileV1<T> implements VersionedIndexFile<T> {
     let indexMetas: IndexMeta[] = [];
     for (let idx = 0; idx <= this.linkedMetaPages.length - 1; idx++) {
       const currMp = this.linkedMetaPages[idx];
-      const im = readIndexMeta(await currMp.metadata());
-      indexMetas.push(im);
+      const buffer = await currMp.metadata();
+      // a slot the indexer allocated but did not get to name holds nothing
+      if (buffer.byteLength > 0) {
+        indexMetas.push(readIndexMeta(buffer));
+      }
       const nextMp = await currMp.next();
       if (!nextMp) {
         break;
-- 
2.43.0


From 6cc462ad41f9bd7b139bd0f6b3cc706ca69086ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:07 +0000
Subject: [PATCH 49/72] fix: a client does not keep a failed request as its
 page or its list of fields

---
 src/db/database.ts | 9 ++++++++-
 src/file/multi.ts  | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/db/database.ts b/src/db/database.ts
index ae2025d..59f7491 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -119,7 +119,14 @@ export class Database<T extends Schema> {
 
   async fields() {
     if (!this.indexHeadersPromise) {
-      this.indexHeadersPromise = this.indexFile.indexHeaders();
+      const promise = this.indexFile.indexHeaders();
+      // a failure is not kept: the next call tries again
+      promise.catch(() => {
+        if (this.indexHeadersPromise === promise) {
+          this.indexHeadersPromise = undefined;
+        }
+      });
+      this.indexHeadersPromise = promise;
     }
 
     return this.indexHeadersPromise;
diff --git a/src/file/multi.ts b/src/file/multi.ts
index a1ab846..a209c57 100644
--- a/src/file/multi.ts
+++ b/src/file/multi.ts
@@ -58,12 +58,19 @@ export class LinkedMetaPage {
 
   private async getMetaPage(): Promise<ArrayBuffer> {
     if (!this.metaPageDataPromise) {
-      this.metaPageDataPromise = this.resolver([
+      const promise = this.resolver([
         {
           start: Number(this.offset),
           end: Number(this.offset) + PAGE_SIZE_BYTES - 1,
         },
       ]);
+      // a failure is not kept: the next call tries again
+      promise.catch(() => {
+        if (this.metaPageDataPromise === promise) {
+          this.metaPageDataPromise = undefined;
+        }
+      });
+      this.metaPageDataPromise = promise;
     }
 
     const res = await this.metaPageDataPromise;
-- 
2.43.0


From 17d5ac1fac6a2957bd17e1f6a197be68e4a14fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:07 +0000
Subject: [PATCH 50/72] fix: only a complete list of indexes is kept by a
 client

---
 src/file/index-file.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/file/index-file.ts b/src/file/index-file.ts
index 5a905d0..d4f212a 100644
--- a/src/file/index-file.ts
+++ b/src/file/index-file.ts
@@ -120,8 +120,9 @@ export class IndexFileV1<T> implements VersionedIndexFile<T> {
       return;
     }
 
+    const metaPages: LinkedMetaPage[] = [];
     while (true) {
-      this.linkedMetaPages.push(currMp);
+      metaPages.push(currMp);
 
       const nextMp = await currMp.next();
       if (!nextMp) {
@@ -129,6 +130,9 @@ export class IndexFileV1<T> implements VersionedIndexFile<T> {
       }
       currMp = nextMp;
     }
+
+    // only a complete list is kept
+    this.linkedMetaPages = metaPages;
   }
 
   async indexHeaders(): Promise<IndexHeader[]> {
-- 
2.43.0


From 8ab3f1516697daa9848767cb33223c22631513d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:07 +0000
Subject: [PATCH 51/72] fix: a tree forgets nodes it failed to read

---
 src/bptree/bptree.ts | 9 +++++++++
 src/bptree/node.ts   | 9 ++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/bptree/bptree.ts b/src/bptree/bptree.ts
index 598b26b..50eee34 100644
--- a/src/bptree/bptree.ts
+++ b/src/bptree/bptree.ts
@@ -53,6 +53,15 @@ export class BPTree {
       this.rootNodeCache = this.rootPointerCache.then((ptr) =>
         ptr.length === 0 ? null : this.readNode(ptr),
       );
+
+      const promise = this.rootNodeCache;
+      // a failure is not kept: the next call tries again
+      promise.catch(() => {
+        if (this.rootNodeCache === promise) {
+          this.rootNodeCache = null;
+          this.rootPointerCache = null;
+        }
+      });
     }
 
     const rootNode = await this.rootNodeCache;
diff --git a/src/bptree/node.ts b/src/bptree/node.ts
index 13a4a3c..4331384 100644
--- a/src/bptree/node.ts
+++ b/src/bptree/node.ts
@@ -69,7 +69,7 @@ export class BPTreeNode {
     if (!this.childrenCache[index]) {
       const childPointer = this.pointer(index);
 
-      this.childrenCache[index] = BPTreeNode.fromMemoryPointer(
+      const promise = BPTreeNode.fromMemoryPointer(
         childPointer,
         this.tree,
         this.dataFileResolver,
@@ -83,6 +83,13 @@ export class BPTreeNode {
 
         return node;
       });
+      // a failure is not kept: the next call tries again
+      promise.catch(() => {
+        if (this.childrenCache[index] === promise) {
+          this.childrenCache[index] = null;
+        }
+      });
+      this.childrenCache[index] = promise;
     }
 
     if (!this.childrenCache[index]) {
-- 
2.43.0


From 2be841b3c444eafb18a6cb1f741ab2a9fafc26af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:07 +0000
Subject: [PATCH 52/72] fix: the range cache serves every range to its last
 byte and forgets failures

---
 src/resolver/cache.ts | 54 +++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/src/resolver/cache.ts b/src/resolver/cache.ts
index 6615163..e5915a7 100644
--- a/src/resolver/cache.ts
+++ b/src/resolver/cache.ts
@@ -3,33 +3,47 @@ import { RangeResolver } from "./resolver";
 export function cache(resolver: RangeResolver): RangeResolver {
   const cache: [
     [number, number],
-    Promise<{ data: ArrayBuffer; totalLength: number }[]>,
+    Promise<{ data: ArrayBuffer; totalLength: number }>,
   ][] = [];
 
-  return async ([{ start, end }]): Promise<
+  return async (ranges): Promise<
     { data: ArrayBuffer; totalLength: number }[]
   > => {
     // check if start-end is contained in any of the cached ranges
-    const cached = cache.find(([[s, e]]) => s <= start && end <= e);
-    if (cached) {
-      return cached[1].then((cachedData) => {
-        const data = cachedData[0].data.slice(
-          start - cached[0][0],
-          end - cached[0][0],
-        );
-        return [
-          {
-            data,
-            totalLength: cachedData[0].totalLength,
-          },
-        ];
-      });
-    }
+    const cached = ranges.map(({ start, end }) =>
+      cache.find(([[s, e]]) => s <= start && end <= e),
+    );
 
     // TODO: check if start-end overlaps with any of the cached ranges
 
-    const promise = resolver([{ start, end }]);
-    cache.push([[start, end], promise]);
-    return promise;
+    const missing = ranges.filter((_, i) => !cached[i]);
+    const promise = missing.length > 0 ? resolver(missing) : null;
+    const fetched = missing.map(({ start, end }, i) => {
+      const entry: (typeof cache)[number] = [
+        [start, end],
+        promise!.then((res) => res[i]),
+      ];
+      cache.push(entry);
+      // a failure is not kept: the next call tries again
+      entry[1].catch(() => {
+        const at = cache.indexOf(entry);
+        if (at >= 0) {
+          cache.splice(at, 1);
+        }
+      });
+      return entry;
+    });
+
+    return await Promise.all(
+      ranges.map(async ({ start, end }, i) => {
+        const [[s], data] = cached[i] ?? fetched.shift()!;
+        const res = await data;
+        return {
+          // the end of a range is inclusive
+          data: res.data.slice(start - s, end - s + 1),
+          totalLength: res.totalLength,
+        };
+      }),
+    );
   };
 }
-- 
2.43.0


From 057c2a012be0d7e5dc7fcc27e6bb32a4d3347932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:40 +0000
Subject: [PATCH 53/72] fix: refuse to write the index over the data file

---
 cmd/main.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/main.go b/cmd/main.go
index 3cf4838..466e454 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -96,6 +96,14 @@ func main() {
 		logger.Error("Please specify the file type with -jsonl or -csv.")
 		os.Exit(1)
 	}
+	// writing the index over the data file would destroy it
+	if dfi, err := os.Stat(args[0]); err == nil {
+		if ifi, err := os.Stat(indexFilename); err == nil && os.SameFile(dfi, ifi) {
+			logger.Error("The index and the data are the same file.")
+			os.Exit(1)
+		}
+	}
+
 	if showTimings {
 		readStart = time.Now()
 	}
-- 
2.43.0


From 02cb4fb995434cd2863b72e4c3e5c3450c432715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:46 +0000
Subject: [PATCH 54/72] fix: replace a split b+ tree node only once both halves
 are stored

---
 pkg/bptree/bptree.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index c423e4f..53514a6 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -317,6 +317,8 @@ func (t *BPTree) Insert(key pointer.ReferencedValue, value pointer.MemoryPointer
 		n.LeafPointers[j] = value
 	}
 
+	// the pages of split nodes
+	var replaced []uint64
 	// traverse up the tree and split if necessary
 	for i := 0; i < len(path); i++ {
 		tr := path[i]
@@ -354,13 +356,17 @@ func (t *BPTree) Insert(key pointer.ReferencedValue, value pointer.MemoryPointer
 				n.Keys = n.Keys[:mid]
 			}
 
-			noffset := tr.ptr.Offset
-			if _, err := t.PageFile.Seek(int64(noffset), io.SeekStart); err != nil {
+			// the left half goes to a new page too: until the parent (or the root
+			// pointer) is written, the tree is the one before the insertion
+			nbuf, err := n.MarshalBinary()
+			if err != nil {
 				return err
 			}
-			if _, err := n.WriteTo(t.PageFile); err != nil {
+			noffset, err := t.PageFile.NewPage(nbuf)
+			if err != nil {
 				return err
 			}
+			replaced = append(replaced, tr.ptr.Offset)
 
 			// update the parent
 			if i < len(path)-1 {
@@ -373,7 +379,7 @@ func (t *BPTree) Insert(key pointer.ReferencedValue, value pointer.MemoryPointer
 					p.node.Keys[p.index] = midKey
 				}
 				p.node.InternalPointers = append(p.node.InternalPointers[:p.index+1], p.node.InternalPointers[p.index:]...)
-				p.node.InternalPointers[p.index] = noffset
+				p.node.InternalPointers[p.index] = uint64(noffset)
 				p.node.InternalPointers[p.index+1] = uint64(moffset)
 				// the parent will be written to disk in the next iteration
 			} else {
@@ -381,7 +387,7 @@ func (t *BPTree) Insert(key pointer.ReferencedValue, value pointer.MemoryPointer
 				p := &BPTreeNode{Data: t.Data, DataParser: t.DataParser, Width: t.Width}
 				p.Keys = []pointer.ReferencedValue{midKey}
 				p.InternalPointers = []uint64{
-					noffset, uint64(moffset),
+					uint64(noffset), uint64(moffset),
 				}
 
 				pbuf, err := p.MarshalBinary()
@@ -395,7 +401,7 @@ func (t *BPTree) Insert(key pointer.ReferencedValue, value pointer.MemoryPointer
 				if err := t.MetaPage.SetRoot(pointer.MemoryPointer{Offset: uint64(poffset), Length: uint32(len(pbuf))}); err != nil {
 					return err
 				}
-				return nil
+				return t.freePages(replaced)
 			}
 		} else {
 			// write this node to disk and update the parent
@@ -406,12 +412,21 @@ func (t *BPTree) Insert(key pointer.ReferencedValue, value pointer.MemoryPointer
 				return err
 			}
 			// no new nodes were produced, so we can return here
-			return nil
+			return t.freePages(replaced)
 		}
 	}
 	panic("unreachable")
 }
 
+func (t *BPTree) freePages(offsets []uint64) error {
+	for _, offset := range offsets {
+		if err := t.PageFile.FreePage(int64(offset)); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 type Entry struct {
 	Key   []byte
 	Value pointer.MemoryPointer
-- 
2.43.0


From a3067cec1f5f46f3be8ecca6cb7c881403788504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:49 +0000
Subject: [PATCH 55/72] fix: take the field names of CSV data from its first
 line

They were taken from the indexes there are: after a synchronization of the
header alone the next line was taken for it, and a column without an index
yet, or named like another, shifted the names of those after it.
---
 pkg/handlers/csv.go | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index d48a1b2..5b47157 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -30,9 +30,6 @@ func (c CSVHandler) Format() appendable.Format {
 func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 	slog.Debug("Starting CSV synchronization")
 
-	var headers []string
-	var err error
-
 	metadata, err := f.Metadata()
 	if err != nil {
 		return fmt.Errorf("failed to read metadata: %w", err)
@@ -41,11 +38,21 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 	if metadata.ReadOffset > uint64(len(df)) {
 		return fmt.Errorf("the data file ends at %d, before the indexed data at %d", len(df), metadata.ReadOffset)
 	}
-	fieldNames, err := f.IndexFieldNames()
+
+	// the first line of the data names the fields
+	headerLength := bytes.IndexByte(df, '\n')
+	if headerLength == -1 {
+		return nil
+	}
+	slog.Info("Parsing CSV headers")
+	headers, err := csv.NewReader(bytes.NewReader(df[:headerLength])).Read()
 	if err != nil {
-		return fmt.Errorf("failed to retrieve index field names: %w", err)
+		slog.Error("failed to parse CSV header", "error", err)
+		return fmt.Errorf("failed to parse CSV header: %w", err)
+	}
+	if metadata.ReadOffset == 0 {
+		metadata.ReadOffset = uint64(headerLength) + 1
 	}
-	headers = fieldNames
 
 	for {
 		i := bytes.IndexByte(df[metadata.ReadOffset:], '\n')
@@ -53,18 +60,6 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 			break
 		}
 
-		if len(headers) == 0 {
-			slog.Info("Parsing CSV headers")
-			dec := csv.NewReader(bytes.NewReader(df[metadata.ReadOffset : metadata.ReadOffset+uint64(i)]))
-			headers, err = dec.Read()
-			if err != nil {
-				slog.Error("failed to parse CSV header", "error", err)
-				return fmt.Errorf("failed to parse CSV header: %w", err)
-			}
-			metadata.ReadOffset += uint64(i) + 1
-			continue
-		}
-
 		dec := csv.NewReader(bytes.NewReader(df[metadata.ReadOffset : metadata.ReadOffset+uint64(i)]))
 
 		if err := c.handleCSVLine(f, df, dec, headers, []string{}, pointer.MemoryPointer{
-- 
2.43.0


From a84ff9698f75b860cd3f9dc0be43acb49dc9b59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:50 +0000
Subject: [PATCH 56/72] fix: keep the CSV records before a line that cannot be
 indexed, and count them

An error left the offset where it was and cells of the refused record in the
index; the number of records was never counted.
---
 pkg/handlers/csv.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index 5b47157..d4dd7a3 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -54,6 +54,8 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 		metadata.ReadOffset = uint64(headerLength) + 1
 	}
 
+	// on an error, keep the records indexed so far
+	var failed error
 	for {
 		i := bytes.IndexByte(df[metadata.ReadOffset:], '\n')
 		if i == -1 {
@@ -66,10 +68,12 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 			Offset: metadata.ReadOffset,
 			Length: uint32(i),
 		}); err != nil {
-			return fmt.Errorf("failed to handle object: %w", err)
+			failed = fmt.Errorf("failed to handle object: %w", err)
+			break
 		}
 
 		metadata.ReadOffset += uint64(i) + 1 // include the newline
+		metadata.Entries++
 	}
 
 	// update the metadata
@@ -80,7 +84,7 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 	slog.Debug("indexes", slog.Any("", f.Indexes))
 	slog.Debug("Ending CSV synchronization")
 	slog.Debug("=========")
-	return nil
+	return failed
 }
 
 func fieldRankCsvField(fieldValue any) int {
@@ -156,14 +160,20 @@ func (c CSVHandler) handleCSVLine(f *appendable.IndexFile, df []byte, dec *csv.R
 		return fmt.Errorf("failed to read CSV record: %w", err)
 	}
 
-	cumulativeLength := uint64(0)
-
-	for fieldIndex, fieldValue := range record {
+	// refuse a record that cannot be indexed before any of its fields is
+	for fieldIndex := range record {
 		if fieldIndex >= len(headers) {
 			slog.Error("Field index is out of bounds with headers", "fieldIndex", fieldIndex, "headers", slog.Any("headers", headers))
 			return fmt.Errorf("field index %d is out of bounds with header", fieldIndex)
 		}
+		if name := strings.Join(append(path, headers[fieldIndex]), "."); len(name) > appendable.MaxFieldNameLength {
+			return fmt.Errorf("field name too long: %d bytes", len(name))
+		}
+	}
 
+	cumulativeLength := uint64(0)
+
+	for fieldIndex, fieldValue := range record {
 		fieldName := headers[fieldIndex]
 
 		name := strings.Join(append(path, fieldName), ".")
-- 
2.43.0


From 734e736f72202fafb278028c59bbd425073098ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:04 +0000
Subject: [PATCH 57/72] fix: locate a CSV cell where it is written, quoted or
 not

A cell's place was worked out from the lengths of the decoded cells before it:
a quoted cell, and every cell after it in its line, got the place of other
bytes, so the tree compared with other values than it was given.
---
 pkg/handlers/csv.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index d4dd7a3..71f6e40 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -130,7 +130,13 @@ func InferCSVField(fieldValue string) (interface{}, appendable.FieldType) {
 }
 
 func (c CSVHandler) Parse(value []byte) []byte {
-	parsed, fieldType := InferCSVField(string(value))
+	cell := string(value)
+	if strings.HasPrefix(cell, `"`) { // quoted
+		if record, err := csv.NewReader(strings.NewReader(cell)).Read(); err == nil && len(record) == 1 {
+			cell = record[0]
+		}
+	}
+	parsed, fieldType := InferCSVField(cell)
 
 	switch fieldType {
 	case appendable.FieldTypeFloat64:
@@ -171,15 +177,20 @@ func (c CSVHandler) handleCSVLine(f *appendable.IndexFile, df []byte, dec *csv.R
 		}
 	}
 
-	cumulativeLength := uint64(0)
+	line := bytes.TrimSuffix(df[data.Offset:data.Offset+uint64(data.Length)], []byte("\r"))
 
 	for fieldIndex, fieldValue := range record {
 		fieldName := headers[fieldIndex]
 
 		name := strings.Join(append(path, fieldName), ".")
 
-		fieldOffset := data.Offset + cumulativeLength
-		fieldLength := uint32(len(fieldValue))
+		// the cell as it is written, with its quotes if it has any
+		_, column := dec.FieldPos(fieldIndex)
+		start, end := column-1, len(line)
+		if fieldIndex+1 < len(record) {
+			_, next := dec.FieldPos(fieldIndex + 1)
+			end = next - len(",") - 1
+		}
 
 		_, fieldType := InferCSVField(fieldValue)
 		page, _, err := f.FindOrCreateIndex(name, fieldType)
@@ -189,15 +200,13 @@ func (c CSVHandler) handleCSVLine(f *appendable.IndexFile, df []byte, dec *csv.R
 		}
 
 		mp := pointer.MemoryPointer{
-			Offset: fieldOffset,
-			Length: fieldLength,
+			Offset: data.Offset + uint64(start),
+			Length: uint32(end - start),
 		}
 
-		if err := page.BPTree(&bptree.BPTree{Data: df, DataParser: CSVHandler{}, Width: uint16(0)}).Insert(pointer.ReferencedValue{Value: c.Parse([]byte(fieldValue)), DataPointer: mp}, data); err != nil && !errors.Is(err, bptree.ErrKeyExists) {
+		if err := page.BPTree(&bptree.BPTree{Data: df, DataParser: CSVHandler{}, Width: uint16(0)}).Insert(pointer.ReferencedValue{Value: c.Parse(line[start:end]), DataPointer: mp}, data); err != nil && !errors.Is(err, bptree.ErrKeyExists) {
 			return fmt.Errorf("failed to insert into b+tree: %w", err)
 		}
-
-		cumulativeLength += uint64(fieldLength + 1)
 	}
 
 	return nil
-- 
2.43.0


From 5b6ad6ab01c4a299f4ae806476ef7cc6a63d03ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:57 +0000
Subject: [PATCH 58/72] fix: never write the JSON array over its input

A path without .jsonl was both input and output; .jsonl in a folder's name was
replaced as well, so the array went to another folder or nowhere.
---
 scripts/jsonl2json/src/main.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/scripts/jsonl2json/src/main.rs b/scripts/jsonl2json/src/main.rs
index 1d3a5d1..2e2f256 100644
--- a/scripts/jsonl2json/src/main.rs
+++ b/scripts/jsonl2json/src/main.rs
@@ -1,7 +1,8 @@
 use std::fs::File;
 use std::io::{BufRead, BufReader};
+use std::path::Path;
 use clap::Parser;
-use anyhow::{Context, Result};
+use anyhow::{ensure, Context, Result};
 use serde_json::Value;
 
 #[derive(Parser, Debug)]
@@ -14,6 +15,11 @@ fn main() -> Result<()>{
     let args = Args::parse();
     let file_path = args.file_path;
 
+    // the array goes next to the file, under its name with .json
+    let name = Path::new(&file_path).file_name().and_then(|n| n.to_str()).unwrap_or_default();
+    let output_path = Path::new(&file_path).with_file_name(name.replace(".jsonl", ".json"));
+    ensure!(name.contains(".jsonl"), "Not a .jsonl file: {}", file_path);
+
     let jsonl_file = File::open(&file_path)?;
     let reader = BufReader::new(jsonl_file);
 
@@ -25,12 +31,11 @@ fn main() -> Result<()>{
         array.push(json);
     }
 
-    let output_path = file_path.replace(".jsonl", ".json").to_owned();
     let json_string = serde_json::to_string_pretty(&array)
         .with_context(|| "Failed to serialize JSON data")?;
 
     std::fs::write(&output_path, json_string.as_bytes())
-        .with_context(|| format!("Failed to write to file: {}", output_path))?;
+        .with_context(|| format!("Failed to write to file: {}", output_path.display()))?;
 
     return Ok(())
 }
-- 
2.43.0


From 7feac3bbbd7f87e601a3f6703c2fbbf9b472468d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:46 +0000
Subject: [PATCH 59/72] fix: replace a split vector tree node only once both
 halves are stored

---
 pkg/btree/btree.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/pkg/btree/btree.go b/pkg/btree/btree.go
index 6634536..19b9f9c 100644
--- a/pkg/btree/btree.go
+++ b/pkg/btree/btree.go
@@ -135,6 +135,8 @@ func (t *BTree) Insert(key pointer.ReferencedId, vector hnsw.Point) error {
 		n.Vectors[j] = vector
 	}
 
+	// the pages of split nodes
+	var replaced []uint64
 	for i := 0; i < len(path); i++ {
 		tr := path[i]
 		n := tr.node
@@ -174,13 +176,17 @@ func (t *BTree) Insert(key pointer.ReferencedId, vector hnsw.Point) error {
 				n.Ids = n.Ids[:mid]
 			}
 
-			noffset := tr.ptr.Offset
-			if _, err := t.PageFile.Seek(int64(noffset), io.SeekStart); err != nil {
+			// the left half goes to a new page too: until the parent (or the root
+			// pointer) is written, the tree is the one before the insertion
+			nbuf, err := n.MarshalBinary()
+			if err != nil {
 				return err
 			}
-			if _, err := n.WriteTo(t.PageFile); err != nil {
+			noffset, err := t.PageFile.NewPage(nbuf)
+			if err != nil {
 				return err
 			}
+			replaced = append(replaced, tr.ptr.Offset)
 
 			// update the parent
 			if i < len(path)-1 {
@@ -197,7 +203,7 @@ func (t *BTree) Insert(key pointer.ReferencedId, vector hnsw.Point) error {
 					p.node.Vectors[p.index] = midVector
 				}
 				p.node.Offsets = append(p.node.Offsets[:p.index+1], p.node.Offsets[p.index:]...)
-				p.node.Offsets[p.index] = noffset
+				p.node.Offsets[p.index] = uint64(noffset)
 				p.node.Offsets[p.index+1] = uint64(moffset)
 				// the parent will be written to disk in the next iteration
 			} else {
@@ -206,7 +212,7 @@ func (t *BTree) Insert(key pointer.ReferencedId, vector hnsw.Point) error {
 				p.Ids = []pointer.ReferencedId{midKey}
 				p.Vectors = []hnsw.Point{midVector}
 				p.Offsets = []uint64{
-					noffset, uint64(moffset),
+					uint64(noffset), uint64(moffset),
 				}
 
 				pbuf, err := p.MarshalBinary()
@@ -220,7 +226,7 @@ func (t *BTree) Insert(key pointer.ReferencedId, vector hnsw.Point) error {
 				if err := t.MetaPage.SetRoot(pointer.MemoryPointer{Offset: uint64(poffset), Length: uint32(len(pbuf))}); err != nil {
 					return err
 				}
-				return nil
+				return t.freePages(replaced)
 			}
 		} else {
 			// write this node to disk and update the parent
@@ -231,12 +237,21 @@ func (t *BTree) Insert(key pointer.ReferencedId, vector hnsw.Point) error {
 				return err
 			}
 			// no new nodes were produced, so we can return here
-			return nil
+			return t.freePages(replaced)
 		}
 	}
 	panic("unreachable")
 }
 
+func (t *BTree) freePages(offsets []uint64) error {
+	for _, offset := range offsets {
+		if err := t.PageFile.FreePage(int64(offset)); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (t *BTree) Find(key pointer.ReferencedId) (pointer.ReferencedId, hnsw.Point, error) {
 	root, rootOffset, err := t.root()
 	if err != nil || root == nil {
-- 
2.43.0


From 5615b04c5e8533ac324cd321a22b1b2ccbe0c9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:46 +0000
Subject: [PATCH 60/72] fix: refuse writes to a file mapped for reading and
 forget the mapping when closing

---
 pkg/mmap/mmap.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/mmap/mmap.go b/pkg/mmap/mmap.go
index acf43d1..e652e6c 100644
--- a/pkg/mmap/mmap.go
+++ b/pkg/mmap/mmap.go
@@ -77,6 +77,8 @@ func (m *MemoryMappedFile) Close() error {
 	if err := unix.Munmap(m.bytes); err != nil {
 		return fmt.Errorf("munmap: %v", err)
 	}
+	// the memory is gone, nothing can be read or written there anymore
+	m.bytes, m.seek = nil, 0
 	return m.file.Close()
 }
 
@@ -166,6 +168,9 @@ func (m *MemoryMappedFile) WriteAt(b []byte, off int64) (int, error) {
 		m.bytes = bytes
 		return len(b), nil
 	}
+	if m.prot&unix.PROT_WRITE == 0 && len(b) > 0 {
+		return 0, fmt.Errorf("mmap: not mapped for writing")
+	}
 	// write the data
 	n := copy(m.bytes[off:], b)
 	return n, nil
-- 
2.43.0


From 771bbe84a9d5d0a1a0ab76fa90129a7013b0472a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:43 +0000
Subject: [PATCH 61/72] fix: a selection holds the fields a record has itself,
 whatever their names

---
 src/db/query-lang.ts | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/db/query-lang.ts b/src/db/query-lang.ts
index b06b077..aef53d6 100644
--- a/src/db/query-lang.ts
+++ b/src/db/query-lang.ts
@@ -79,15 +79,11 @@ export function processWhere<T>(value: T[keyof T]): QueryWhere | null {
 export function handleSelect<T>(data: string, select?: (keyof T)[]) {
   let jData = JSON.parse(data);
   if (select && select.length > 0) {
-    return select.reduce(
-      (acc, field) => {
-        if (field in jData) {
-          acc[field] = jData[field];
-        }
-        return acc;
-      },
-      {} as Pick<T, keyof T>,
-    );
+    return Object.fromEntries(
+      select
+        .filter((field) => Object.prototype.hasOwnProperty.call(jData, field))
+        .map((field) => [field, jData[field]]),
+    ) as Pick<T, keyof T>;
   }
 
   return jData;
-- 
2.43.0


From ae7390aaba18bf5cd07439db512731e06a9408e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:45 +0000
Subject: [PATCH 62/72] fix: compare the length of a key, not its low 16 bits,
 with the width of the tree

---
 pkg/bptree/bptree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index 53514a6..dfdb961 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -269,7 +269,7 @@ func (t *BPTree) traverse(key pointer.ReferencedValue, node *BPTreeNode, ptr poi
 func (t *BPTree) Insert(key pointer.ReferencedValue, value pointer.MemoryPointer) error {
 
 	if t.Width != uint16(0) {
-		if uint16(len(key.Value)) != t.Width-1 {
+		if len(key.Value) != int(t.Width)-1 {
 			return fmt.Errorf("key |%v| to insert does not match with BPTree width. Expected width: %v, got: %v", string(key.Value), t.Width-1, len(key.Value))
 		}
 	}
-- 
2.43.0


From fa5dd2d4337923f5e29af50ad57a4e71db897fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:22 +0000
Subject: [PATCH 63/72] fix: a write at the last offsets is refused, not a
 panic

---
 pkg/mmap/mmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mmap/mmap.go b/pkg/mmap/mmap.go
index e652e6c..07f2db7 100644
--- a/pkg/mmap/mmap.go
+++ b/pkg/mmap/mmap.go
@@ -145,7 +145,7 @@ func (m *MemoryMappedFile) WriteAt(b []byte, off int64) (int, error) {
 		return 0, fmt.Errorf("mmap: negative offset")
 	}
 	// check if the file needs to be remapped
-	if off+int64(len(b)) > int64(len(m.bytes)) {
+	if int64(len(b)) > int64(len(m.bytes))-off {
 		// write the data and remap the file
 		if _, err := m.file.WriteAt(b, off); err != nil {
 			return 0, err
-- 
2.43.0


From b04e994266b13f1a133bbaf9bdf029703220d75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:22 +0000
Subject: [PATCH 64/72] fix: only a page of the file can be freed

---
 pkg/pagefile/pagefile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/pagefile/pagefile.go b/pkg/pagefile/pagefile.go
index c628617..afa448f 100644
--- a/pkg/pagefile/pagefile.go
+++ b/pkg/pagefile/pagefile.go
@@ -190,6 +190,9 @@ func (pf *PageFile) FreePage(offset int64) error {
 	if offset%int64(pf.pageSize) != 0 {
 		return errors.New("offset is not a multiple of the page size")
 	}
+	if offset <= 0 || offset >= pf.lastPage*int64(pf.pageSize) {
+		return errors.New("offset is not a page of the file")
+	}
 	if pf.freePageCount == len(pf.freePageIndexes) {
 		return errors.New("free page index is full")
 	}
-- 
2.43.0


From 4459fc382a03c88e627dc761ec3fc43619ed6cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:04 +0000
Subject: [PATCH 65/72] fix: distances of far apart and of very close vectors
 are not rounded to infinity and zero

---
 pkg/hnsw/friends.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/hnsw/friends.go b/pkg/hnsw/friends.go
index 4780c27..79687fc 100644
--- a/pkg/hnsw/friends.go
+++ b/pkg/hnsw/friends.go
@@ -117,14 +117,15 @@ func (v *Friends) Flush(numNeighbors int) ([]byte, error) {
 }
 
 func EuclidDistance(p0, p1 Point) float32 {
-	var sum float32
+	// the squares of far apart (or very close) coordinates don't fit a float32
+	var sum float64
 
 	for i := range p0 {
-		delta := p0[i] - p1[i]
+		delta := float64(p0[i]) - float64(p1[i])
 		sum += delta * delta
 	}
 
-	return float32(math.Sqrt(float64(sum)))
+	return float32(math.Sqrt(sum))
 }
 
 // NearlyEqual is sourced from scalar package written by gonum
-- 
2.43.0


From f3cf844c93fa130b053c21e485a96b38f71cc22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:22 +0000
Subject: [PATCH 66/72] fix: refuse a JSONL line with anything behind its
 object instead of dropping it

---
 pkg/handlers/jsonl.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index 1d3ad73..b32facd 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"github.com/kevmo314/appendable/pkg/ngram"
 	"github.com/kevmo314/appendable/pkg/pointer"
+	"io"
 	"log/slog"
 	"math"
 	"strings"
@@ -96,7 +97,16 @@ func validateJSONLLine(dec *json.Decoder) error {
 	if t, err := dec.Token(); err != nil || t != json.Delim('{') {
 		return fmt.Errorf("expected '%U', got '%U' (only json objects are supported at the root)", '{', t)
 	}
-	return validateJSONLObject(dec, []string{})
+	if err := validateJSONLObject(dec, []string{}); err != nil {
+		return err
+	}
+	// nothing may follow the object, it would not be indexed
+	if t, err := dec.Token(); err == nil {
+		return fmt.Errorf("expected the end of the line, got '%v'", t)
+	} else if err != io.EOF {
+		return fmt.Errorf("expected the end of the line: %w", err)
+	}
+	return nil
 }
 
 // validateJSONLObject reads an object up to its } the way handleJSONLObject does.
-- 
2.43.0


From 1f05cbf1352265f318b8b8746fd0f057d9544124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:48 +0000
Subject: [PATCH 67/72] fix: refuse a vector of another dimensionality instead
 of panicking

---
 pkg/btree/btree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/btree/btree.go b/pkg/btree/btree.go
index 19b9f9c..7c5fa5e 100644
--- a/pkg/btree/btree.go
+++ b/pkg/btree/btree.go
@@ -90,6 +90,10 @@ func (t *BTree) traverse(key pointer.ReferencedId, node *BTreeNode, ptr pointer.
 }
 
 func (t *BTree) Insert(key pointer.ReferencedId, vector hnsw.Point) error {
+	if uint64(len(vector)) != t.VectorDim {
+		return fmt.Errorf("vector to insert has %v dimensions, expected %v", len(vector), t.VectorDim)
+	}
+
 	root, rootOffset, err := t.root()
 	if err != nil {
 		return fmt.Errorf("root: %w", err)
-- 
2.43.0


From 559ba7681106537c164747a6141aa0226c0b8ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:04 +0000
Subject: [PATCH 68/72] fix: read multipart bodies whose media type or unit is
 written in another case

---
 src/resolver/multipart.ts     | 19 ++++++++++++++++---
 src/resolver/range-request.ts |  4 ++--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/resolver/multipart.ts b/src/resolver/multipart.ts
index 1babc74..b8e7f5f 100644
--- a/src/resolver/multipart.ts
+++ b/src/resolver/multipart.ts
@@ -53,12 +53,13 @@ export default async function* parseMultipartBody(
 ): AsyncGenerator<{ data: ArrayBuffer; headers: Record<string, string> }> {
   const reader = getReader(stream);
   const tokens = contentType.split(";");
-  if (tokens[0] !== "multipart/byteranges") {
+  // the names of media types and of their parameters are case-insensitive
+  if (tokens[0].trim().toLowerCase() !== "multipart/byteranges") {
     throw new Error("Not a multipart/byteranges body");
   }
   const boundaryToken = tokens
     .map((s) => s.trim())
-    .find((s) => s.startsWith("boundary="))
+    .find((s) => s.toLowerCase().startsWith("boundary="))
     ?.slice("boundary=".length)
     .replace(/^"(.*)"$/, "$1");
   if (!boundaryToken) {
@@ -116,6 +117,18 @@ export default async function* parseMultipartBody(
       length--;
     }
 
+    // white space may follow the boundary
+    while (length === 0 || buf[ptr] === 32 || buf[ptr] === 9) {
+      if (length === 0) {
+        if (await extend()) {
+          return;
+        }
+      } else {
+        ptr = (ptr + 1) % buf.length;
+        length--;
+      }
+    }
+
     // read the boundary terminator
     for (const c of ["\r", "\n"]) {
       while (length === 0) {
@@ -178,7 +191,7 @@ export default async function* parseMultipartBody(
     const [unit, start, end] = parseContentRangeHeader(
       headers["content-range"],
     );
-    if (unit !== "bytes") {
+    if (unit.toLowerCase() !== "bytes") {
       throw new Error("Invalid Content-Range header");
     }
     const contentLength = end - start + 1;
diff --git a/src/resolver/range-request.ts b/src/resolver/range-request.ts
index e3a7f19..f1500b7 100644
--- a/src/resolver/range-request.ts
+++ b/src/resolver/range-request.ts
@@ -6,7 +6,7 @@ type Part = { start: number; data: ArrayBuffer; totalLength: number };
 
 // readPart makes a part of a body and of the Content-Range it came with
 function readPart(contentRange: string | null, data: ArrayBuffer): Part {
-  const match = /^bytes\s+(\d+)-(\d+)\/(\d+|\*)$/.exec(contentRange ?? "");
+  const match = /^bytes\s+(\d+)-(\d+)\/(\d+|\*)$/i.exec(contentRange ?? "");
   if (!match) {
     throw new Error(`Unexpected Content-Range: ${contentRange}`);
   }
@@ -114,7 +114,7 @@ export async function requestRanges(
       if (!contentType) {
         throw new Error("Missing Content-Type in response");
       }
-      if (contentType.includes("multipart/byteranges")) {
+      if (contentType.toLowerCase().includes("multipart/byteranges")) {
         let chunks = [];
 
         if (!response.body) {
-- 
2.43.0


From 719b4fa314702cc29d0c1b0250b85d2bcc7a64e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:57 +0000
Subject: [PATCH 69/72] fix: refuse an order on another field behind the first
 one

---
 src/db/query-validation.ts | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/db/query-validation.ts b/src/db/query-validation.ts
index 0781d35..4f49f17 100644
--- a/src/db/query-validation.ts
+++ b/src/db/query-validation.ts
@@ -100,14 +100,14 @@ function validateOrderBy<T extends Schema>(
     }
 
     // Note: currently we only support one orderBy and it must be the where clause. When we add composite indexes and complex querying, refactor.
-    const orderByObj = orderBy[0];
-
-    if (!["ASC", "DESC"].includes(orderByObj.direction)) {
-      throw new Error("Invalid direction in `orderBy`.");
-    }
+    for (const orderByObj of orderBy) {
+      if (!["ASC", "DESC"].includes(orderByObj.direction)) {
+        throw new Error("Invalid direction in `orderBy`.");
+      }
 
-    if (orderByObj.key !== whereKey) {
-      throw new Error("'key' in `orderBy` must match `key` in `where` clause");
+      if (orderByObj.key !== whereKey) {
+        throw new Error("'key' in `orderBy` must match `key` in `where` clause");
+      }
     }
   }
 }
-- 
2.43.0


From 177800937a1dcb8cfdad1a7b5c2b9ab935be292d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:01 +0000
Subject: [PATCH 70/72] fix: refuse a comparison with NaN, which every smaller
 number met

---
 src/db/query-validation.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/db/query-validation.ts b/src/db/query-validation.ts
index 4f49f17..d2e7601 100644
--- a/src/db/query-validation.ts
+++ b/src/db/query-validation.ts
@@ -63,6 +63,9 @@ function validateWhere<T extends Schema>(
               `number type not included in ${whereNode.key}'s header types.`,
             );
           }
+          if (Number.isNaN(whereNode.value)) {
+            throw new Error("'value' in 'where' clause is not a number.");
+          }
           break;
 
         case "string":
-- 
2.43.0


From 14aae8f06510da4a2d97d7cf4ba02bc464d91872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:33 +0000
Subject: [PATCH 71/72] fix: a step of an iterator that fails leaves it where
 it was

The parent had moved on when a leaf could not be read: made again, the step
skipped that leaf.
---
 pkg/bptree/bptree.go    | 12 ++++++++++++
 src/bptree/traversal.ts | 21 ++++++++++++++++++++-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index dfdb961..b15ddbf 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -119,7 +119,17 @@ func (p *TraversalIterator) incr(i, delta int) bool {
 	return true
 }
 
+// restore puts the iterator back to where it was before a step that failed, so
+// that the step can be made again.
+func (p *TraversalIterator) restore(before []TraversalRecord) {
+	if p.err != nil {
+		p.records = before
+	}
+}
+
 func (p *TraversalIterator) Next() bool {
+	p.err = nil
+	defer p.restore(slices.Clone(p.records))
 	if p.records == nil {
 		if !p.init() {
 			return false
@@ -133,6 +143,8 @@ func (p *TraversalIterator) Next() bool {
 }
 
 func (p *TraversalIterator) Prev() bool {
+	p.err = nil
+	defer p.restore(slices.Clone(p.records))
 	if p.records == nil {
 		res := p.init()
 
diff --git a/src/bptree/traversal.ts b/src/bptree/traversal.ts
index 733ef8e..272bf60 100644
--- a/src/bptree/traversal.ts
+++ b/src/bptree/traversal.ts
@@ -86,7 +86,26 @@ export class TraversalIterator {
     return true;
   }
 
+  // a step that fails leaves the iterator where it was, so that it can be made again.
+  private async step(move: () => Promise<boolean>): Promise<boolean> {
+    const before = this.records.map((record) => ({ ...record }));
+    try {
+      return await move();
+    } catch (err) {
+      this.records = before;
+      throw err;
+    }
+  }
+
   async next(): Promise<boolean> {
+    return this.step(() => this.moveNext());
+  }
+
+  async prev(): Promise<boolean> {
+    return this.step(() => this.movePrev());
+  }
+
+  private async moveNext(): Promise<boolean> {
     if (this.records.length === 0) {
       if (!(await this.init())) {
         return false;
@@ -101,7 +120,7 @@ export class TraversalIterator {
     return this.increment(0, 1);
   }
 
-  async prev(): Promise<boolean> {
+  private async movePrev(): Promise<boolean> {
     if (this.records.length === 0) {
       const res = await this.init();
       if (!res) {
-- 
2.43.0


From 8e3e9c414f828a7c1900aaaedcef39e3c549e6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:33 +0000
Subject: [PATCH 72/72] fix: leave the search of a query as it is given

Validation wrote the default config into the caller's object, and threw when it
is frozen.
---
 src/db/database.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/db/database.ts b/src/db/database.ts
index 59f7491..9a85712 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -163,6 +163,8 @@ export class Database<T extends Schema> {
     }
 
     const headers = await this.fields();
+    // validation fills in the default config: leave the caller's object as it is
+    query = { ...query, search: query.search && { ...query.search } };
     validateQuery(query, headers);
 
     if (query.search) {
-- 
2.43.0

