exec(open("/verif/tools/bugs/go1.py").read().split("BUGS = [")[0])
BUGS = [
dict(id="bptree-inner-length", property="C03", needs="entries of one value and place that differ only in their lengths, more than one leaf holds",
 breaks="entries that differ only in length are put into the wrong leaf, out of order",
 edits=[("pkg/bptree/bptree.go", "	index, found := slices.BinarySearchFunc(node.Keys, key, pointer.CompareReferencedValues)\n\n	if node.Leaf() {\n", "	compare := pointer.CompareReferencedValues\n	if !node.Leaf() {\n		// the length only matters within a leaf\n		compare = func(a, b pointer.ReferencedValue) int {\n			a.DataPointer.Length, b.DataPointer.Length = 0, 0\n			return pointer.CompareReferencedValues(a, b)\n		}\n	}\n	index, found := slices.BinarySearchFunc(node.Keys, key, compare)\n\n	if node.Leaf() {\n")],
 demo={"demo_test.go": '''package bptree_test
import ("io"; "testing"; "github.com/kevmo314/appendable/pkg/pagefile"; "github.com/kevmo314/appendable/pkg/pointer"; "github.com/kevmo314/appendable/pkg/bptree")
''' + MEM + '''
type root struct { mp pointer.MemoryPointer }
func (r *root) Root() (pointer.MemoryPointer, error) { return r.mp, nil }
func (r *root) SetRoot(mp pointer.MemoryPointer) error { r.mp = mp; return nil }
func TestDemo(t *testing.T) {
	p, err := pagefile.NewPageFile(&mem{})
	if err != nil { t.Fatal(err) }
	tr := &bptree.BPTree{PageFile: p, MetaPage: &root{}, Width: 9}
	n := 3000
	for i := 0; i < n; i++ {
		o := uint32((i*1009)%n)+1
		if err := tr.Insert(pointer.ReferencedValue{DataPointer: pointer.MemoryPointer{Offset: 5, Length: o}, Value: []byte("samesame")}, pointer.MemoryPointer{Offset: 7}); err != nil { t.Fatal(err) }
	}
	it, err := tr.Iter(pointer.ReferencedValue{})
	if err != nil { t.Fatal(err) }
	for i := 0; i < n; i++ {
		if !it.Next() { t.Fatalf("ends after %d", i) }
		if it.Key().DataPointer.Length != uint32(i)+1 { t.Fatalf("entry %d: %v", i, it.Key().DataPointer) }
	}
}
'''}, run="gotest pkg/bptree"),
dict(id="setroot-same-place", property="C07", needs="a root pointer set again with the same offset and another length",
 breaks="the length last given for a root is not stored when its place is the same",
 edits=[("pkg/linkedpage/linkedpage.go", "func (m *LinkedPage) SetRoot(mp pointer.MemoryPointer) error {\n	if m.index == ^uint8(0) {\n		return errNotAPage\n	}\n", "func (m *LinkedPage) SetRoot(mp pointer.MemoryPointer) error {\n	if m.index == ^uint8(0) {\n		return errNotAPage\n	}\n	// nothing to write when it is there already\n	if root, err := m.Root(); err != nil || (root.Offset == mp.Offset && root.Length != 0) {\n		return err\n	}\n")],
 demo={"demo_test.go": '''package linkedpage_test
import ("io"; "testing"; "github.com/kevmo314/appendable/pkg/pagefile"; "github.com/kevmo314/appendable/pkg/pointer"; "github.com/kevmo314/appendable/pkg/linkedpage")
''' + MEM + '''
func TestDemo(t *testing.T) {
	p, err := pagefile.NewPageFile(&mem{})
	if err != nil { t.Fatal(err) }
	l, err := linkedpage.NewMultiBPTree(p, 0)
	if err != nil { t.Fatal(err) }
	s, err := l.AddNext()
	if err != nil { t.Fatal(err) }
	for _, mp := range []pointer.MemoryPointer{{Offset: 8192, Length: 40}, {Offset: 8192, Length: 77}} {
		if err := s.SetRoot(mp); err != nil { t.Fatal(err) }
		if got, err := s.Root(); err != nil || got != mp { t.Fatal(got, mp, err) }
	}
}
'''}, run="gotest pkg/linkedpage"),
dict(id="jsonl-line-window", property="C10", needs="a line of more than 64 KiB",
 breaks="a line longer than a window is taken for unterminated: it and all behind it are never indexed",
 edits=[("pkg/handlers/jsonl.go", "		i := bytes.IndexByte(df[metadata.ReadOffset:], '\\n')\n", "		// no need to look through all the data for a line\n		window := df[metadata.ReadOffset:]\n		if len(window) > 1<<16 {\n			window = window[:1<<16]\n		}\n		i := bytes.IndexByte(window, '\\n')\n")],
 demo={"demo_test.go": IMP + IDX + '''
func TestDemo(t *testing.T) {
	f := &mem{}
	data := `{"a":1}` + "\\n" + `{"a":"` + strings.Repeat("x", 70000) + `"}` + "\\n" + `{"a":2}` + "\\n"
	if err := sync(t, f, data); err != nil { t.Fatal(err) }
	if m := meta(t, f); m.Entries != 3 || m.ReadOffset != uint64(len(data)) { t.Fatal(m.Entries, m.ReadOffset) }
	if e := entries(t, f, data, "a", appendable.FieldTypeFloat64); len(e) != 2 { t.Fatal(e) }
}
'''}, run="gotest pkg/handlers"),
dict(id="jsonl-count-ahead", property="C11", needs="a line that cannot be indexed after good ones, with lines behind it",
 breaks="the recorded number of records counts the lines behind the bad one too",
 edits=[("pkg/handlers/jsonl.go", "	// on an error, keep the records indexed so far\n	var failed error\n	for {\n", "	lines := uint64(bytes.Count(df[metadata.ReadOffset:], []byte{'\\n'})) + metadata.Entries\n	// on an error, keep the records indexed so far\n	var failed error\n	for {\n"), ("pkg/handlers/jsonl.go", "		metadata.Entries++\n", "		metadata.Entries = lines\n")],
 demo={"demo_test.go": IMP + IDX + '''
func TestDemo(t *testing.T) {
	f := &mem{}
	if err := sync(t, f, `{"a":1}` + "\\n" + `{"a":` + "\\n" + `{"a":2}` + "\\n"); err == nil { t.Fatal("no error") }
	if m := meta(t, f); m.Entries != 1 || m.ReadOffset != 8 { t.Fatal(m.Entries, m.ReadOffset) }
}
'''}, run="gotest pkg/handlers"),
dict(id="heap-half-grandchildren", property="C17", needs="a heap deep enough that the smallest (largest) grandchild hangs below the right child when the minimum (maximum) is taken",
 breaks="after taking the minimum the next one is not at the root",
 edits=[("pkg/hnsw/heap.go", "		for g := lchild(l); g < n && g <= rchild(r); g++ {\n", "		last := rchild(r)\n		if n <= 4*i+7 {\n			// the bottom row\n			last = lchild(r)\n		}\n		for g := lchild(l); g < n && g <= last; g++ {\n")],
 demo={"demo_test.go": '''package hnsw
import ("math/rand"; "testing")
func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for k := 0; k < 2000; k++ {
		h := NewDistHeap()
		n := 1 + r.Intn(30)
		for i := 0; i < n; i++ { h.Insert(Id(i), float32(r.Intn(40))) }
		last := float32(-1)
		for h.Len() > 0 {
			x, err := h.PopMinItem()
			if err != nil || x.dist < last { t.Fatal(n, x, last, err) }
			last = x.dist
		}
		for i := 0; i < n; i++ { h.Insert(Id(i), float32(r.Intn(40))) }
		last = 1000
		for h.Len() > 0 {
			x, err := h.PopMaxItem()
			if err != nil || x.dist > last { t.Fatal(n, x, last, err) }
			last = x.dist
		}
	}
}
'''}, run="gotest pkg/hnsw"),
dict(id="hnsw-limit-levels", property="C18", needs="a node on an upper level that more than M others on that level take for a friend",
 breaks="friend lists above the lowest level grow beyond M",
 edits=[("pkg/hnsw/hnsw.go", "			for neighborFriendsAtLevel.Len() > h.M {\n", "			limit := h.M\n			if level > 0 {\n				limit = h.Mmax0\n			}\n			for neighborFriendsAtLevel.Len() > limit {\n")],
 demo={"demo_test.go": '''package hnsw
import ("math/rand"; "testing")
func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	h := NewHnsw(2, 20, 3, Point{0, 0})
	for i := 0; i < 600; i++ {
		if _, err := h.InsertVector(Point{r.Float32(), r.Float32()}); err != nil { t.Fatal(err) }
	}
	for id, f := range h.friends {
		for l := 1; l <= f.TopLevel(); l++ {
			x, err := f.GetFriendsAtLevel(l)
			if err != nil { t.Fatal(err) }
			if x.Len() > 3 { t.Fatalf("node %d has %d friends on level %d", id, x.Len(), l) }
		}
	}
}
'''}, run="gotest pkg/hnsw"),
dict(id="friends-id-16", property="C18", needs="a friend whose id is 65536 or more",
 breaks="the flushed record holds the low 16 bits of a friend's id",
 edits=[("pkg/hnsw/friends.go", "		binary.BigEndian.PutUint32(buf[i*(1+4)+1:], uint32(closestId))\n", "		entry := buf[i*(1+4) : (i+1)*(1+4)]\n		binary.BigEndian.PutUint16(entry[3:], uint16(closestId))\n")],
 demo={"demo_test.go": '''package hnsw
import ("encoding/binary"; "testing")
func TestDemo(t *testing.T) {
	for _, id := range []Id{1, 300, 65535, 65536, 1234567, 1<<32 - 1} {
		f := NewFriends(0)
		f.InsertFriendsAtLevel(0, id, 1)
		b, err := f.Flush(8)
		if err != nil { t.Fatal(err) }
		if b[0] != 0 || binary.BigEndian.Uint32(b[1:5]) != uint32(id) { t.Fatal(id, b) }
	}
}
'''}, run="gotest pkg/hnsw"),
dict(id="catalogue-fold", property="C08", needs="two fields whose names differ only in case",
 breaks="fields whose names differ only in case share one index",
 edits=[("pkg/appendable/index_file.go", "		if metadata.FieldName == name && metadata.FieldType == fieldType {\n", "		if metadata.FieldType == fieldType && strings.EqualFold(metadata.FieldName, name) {\n"), ("pkg/appendable/index_file.go", 'import (\n', 'import (\n	"strings"\n')],
 demo={"demo_test.go": IMP + IDX + '''
func TestDemo(t *testing.T) {
	f := &mem{}
	data := `{"Id":1,"id":2}` + "\\n"
	if err := sync(t, f, data); err != nil { t.Fatal(err) }
	if e := entries(t, f, data, "id", appendable.FieldTypeFloat64); len(e) != 1 { t.Fatal(e) }
	if e := entries(t, f, data, "Id", appendable.FieldTypeFloat64); len(e) != 1 { t.Fatal(e) }
}
'''}, run="gotest pkg/handlers"),
dict(id="pagefile-directory-seek", property="C05", needs="the seek to the free page directory failing while a page is freed or taken again",
 breaks="the directory is written at the current position: over another page, or the end of the file, and success is reported",
 edits=[("pkg/pagefile/pagefile.go", "	if _, err := pf.ReadWriteSeeker.Seek(0, io.SeekStart); err != nil {\n		return err\n	}\n	if _, err := pf.ReadWriteSeeker.Write(buf); err != nil {\n		return err\n	}\n	return nil\n", "	pf.ReadWriteSeeker.Seek(0, io.SeekStart)\n	_, err := pf.ReadWriteSeeker.Write(buf)\n	return err\n")],
 demo={"demo_test.go": '''package pagefile_test
import ("errors"; "io"; "testing"; "github.com/kevmo314/appendable/pkg/pagefile")
''' + MEM + '''
type flaky struct { *mem; fail bool }
func (f *flaky) Seek(o int64, w int) (int64, error) { if f.fail { f.fail = false; return 0, errors.New("seek") }; return f.mem.Seek(o, w) }
func TestDemo(t *testing.T) {
	f := &flaky{mem: &mem{}}
	p, err := pagefile.NewPageFile(f)
	if err != nil { t.Fatal(err) }
	a, _ := p.NewPage([]byte("a"))
	p.NewPage([]byte("b"))
	f.fail = true
	if err := p.FreePage(a); err == nil { t.Fatal("no error") }
}
'''}, run="gotest pkg/pagefile"),
dict(id="csv-number-integer", property="C14", needs="an integer cell of more than 18 digits",
 breaks="whole numbers beyond 64 bits become strings",
 edits=[("pkg/handlers/csv.go", "	if i, err := strconv.Atoi(fieldValue); err == nil {\n", "	if i, err := strconv.Atoi(fieldValue); errors.Is(err, strconv.ErrRange) {\n		return fieldValue, appendable.FieldTypeString\n	} else if err == nil {\n")],
 demo={"demo_test.go": '''package handlers
import ("testing"; "github.com/kevmo314/appendable/pkg/appendable")
func TestDemo(t *testing.T) {
	for _, s := range []string{"1", "9223372036854775807", "9223372036854775808", "123456789012345678901234567890"} {
		if _, ft := InferCSVField(s); ft != appendable.FieldTypeFloat64 { t.Fatal(s, ft) }
	}
}
'''}, run="gotest pkg/handlers"),
]
