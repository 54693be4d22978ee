MEM = '''
type mem struct { b []byte; p int64 }
func (m *mem) Seek(o int64, w int) (int64, error) { switch w { case 0: m.p = o; case 1: m.p += o; case 2: m.p = int64(len(m.b)) + o }; return m.p, nil }
func (m *mem) Read(p []byte) (int, error) { if m.p >= int64(len(m.b)) { return 0, io.EOF }; n := copy(p, m.b[m.p:]); m.p += int64(n); if n < len(p) { return n, io.EOF }; return n, nil }
func (m *mem) Write(p []byte) (int, error) { e := m.p + int64(len(p)); if e > int64(len(m.b)) { m.b = append(m.b, make([]byte, e-int64(len(m.b)))...) }; copy(m.b[m.p:], p); m.p = e; return len(p), nil }
'''
IDX = MEM + '''
func sync(t *testing.T, f io.ReadWriteSeeker, data string, search ...string) error {
	x, err := appendable.NewIndexFile(f, handlers.JSONLHandler{}, search)
	if err != nil { return err }
	return x.Synchronize([]byte(data))
}
func meta(t *testing.T, f io.ReadWriteSeeker) *appendable.FileMeta {
	x, err := appendable.NewIndexFile(f, handlers.JSONLHandler{}, nil)
	if err != nil { t.Fatal(err) }
	m, err := x.Metadata()
	if err != nil { t.Fatal(err) }
	return m
}
// entries lists value and place of every entry of one index
func entries(t *testing.T, f io.ReadWriteSeeker, data, name string, ft appendable.FieldType) (out []string) {
	x, err := appendable.NewIndexFile(f, handlers.JSONLHandler{}, nil)
	if err != nil { t.Fatal(err) }
	slot, im, err := x.FindOrCreateIndex(name, ft)
	if err != nil { t.Fatal(err) }
	tr := slot.BPTree(&bptree.BPTree{Data: []byte(data), DataParser: handlers.JSONLHandler{}, Width: im.Width})
	it, err := tr.Iter(pointer.ReferencedValue{})
	if err != nil { t.Fatal(err) }
	for it.Next() { k := it.Key(); out = append(out, fmt.Sprintf("%x@%d+%d", k.Value, k.DataPointer.Offset, k.DataPointer.Length)) }
	if it.Err() != nil { t.Fatal(it.Err()) }
	return
}
'''
IMP = '''package handlers_test
import ("fmt"; "io"; "testing"; "strings"
 "github.com/kevmo314/appendable/pkg/appendable"; "github.com/kevmo314/appendable/pkg/bptree"; "github.com/kevmo314/appendable/pkg/handlers"; "github.com/kevmo314/appendable/pkg/pointer")
var _ = strings.Repeat
'''
BUGS = [
dict(id="pagefile-full-ring", property="C01", needs="all 512 slots of the free page directory in use when the file is reopened",
 breaks="the last free page is forgotten on reopening: the file grows although a page is free",
 edits=[("pkg/pagefile/pagefile.go", "		for i := 0; i < len(pf.freePageIndexes); i++ {\n", "		for i := 0; i < len(pf.freePageIndexes)-1; i++ {\n")],
 demo={"demo_test.go": '''package pagefile_test
import ("io"; "testing"; "github.com/kevmo314/appendable/pkg/pagefile")
''' + MEM + '''
func TestDemo(t *testing.T) {
	f := &mem{}
	p, err := pagefile.NewPageFile(f)
	if err != nil { t.Fatal(err) }
	var offs []int64
	for i := 0; i < 512; i++ { o, err := p.NewPage(nil); if err != nil { t.Fatal(err) }; offs = append(offs, o) }
	for _, o := range offs { if err := p.FreePage(o); err != nil { t.Fatal(err) } }
	n := len(f.b)
	p, err = pagefile.NewPageFile(f)
	if err != nil { t.Fatal(err) }
	for i := 0; i < 512; i++ { if _, err := p.NewPage(nil); err != nil { t.Fatal(err) } }
	if len(f.b) != n { t.Fatalf("file grew from %d to %d", n, len(f.b)) }
}
'''}, run="gotest pkg/pagefile"),
dict(id="pagefile-double-free", property="C01", needs="a page freed twice after other free pages were taken again, so the ring no longer starts at its first slot",
 breaks="a page is on the free list twice and is handed out to two owners",
 edits=[("pkg/pagefile/pagefile.go", "	for i := range pf.freePageIndexes {\n		if pf.freePageIndexes[i] == offset {", "	for i := 0; i < pf.freePageCount; i++ {\n		if pf.freePageIndexes[i] == offset {")],
 demo={"demo_test.go": '''package pagefile_test
import ("io"; "testing"; "github.com/kevmo314/appendable/pkg/pagefile")
''' + MEM + '''
func TestDemo(t *testing.T) {
	f := &mem{}
	p, _ := pagefile.NewPageFile(f)
	var o [4]int64
	for i := range o { o[i], _ = p.NewPage(nil) }
	p.FreePage(o[0]); p.FreePage(o[1])
	p.NewPage(nil); p.NewPage(nil)
	if err := p.FreePage(o[2]); err != nil { t.Fatal(err) }
	if err := p.FreePage(o[2]); err == nil { t.Fatal("freed twice") }
}
'''}, run="gotest pkg/pagefile"),
dict(id="mmap-short-readat", property="C02", needs="a positioned read which starts inside the file and ends past it",
 breaks="a short read is returned without an error",
 edits=[("pkg/mmap/mmap.go", "	n := copy(b, m.bytes[off:])\n	if n < len(b) {\n		return n, io.EOF", "	n := copy(b, m.bytes[off:])\n	if n == 0 && len(b) > 0 {\n		return n, io.EOF")],
 demo={"demo_test.go": '''package mmap_test
import ("io"; "os"; "path/filepath"; "testing"; "github.com/kevmo314/appendable/pkg/mmap")
func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "f")
	os.WriteFile(p, []byte("hello"), 0o644)
	m, err := mmap.Open(p)
	if err != nil { t.Fatal(err) }
	defer m.Close()
	n, err := m.ReadAt(make([]byte, 4), 3)
	if n != 2 || err != io.EOF { t.Fatal(n, err) }
}
'''}, run="gotest pkg/mmap"),
dict(id="bptree-separator-dup", property="C03", needs="inserting again a key which has become a separator of an inner node",
 breaks="the key is accepted a second time and listed twice",
 edits=[("pkg/bptree/bptree.go", "	if found {\n		// if the key is found, we need to go to the right child\n		index++\n	}\n", "	_ = found\n")],
 demo={"demo_test.go": '''package bptree_test
import ("encoding/binary"; "io"; "testing"; "github.com/kevmo314/appendable/pkg/bptree"; "github.com/kevmo314/appendable/pkg/pagefile"; "github.com/kevmo314/appendable/pkg/pointer")
''' + MEM + '''
type root struct{ mp pointer.MemoryPointer }
func (r *root) Root() (pointer.MemoryPointer, error) { return r.mp, nil }
func (r *root) SetRoot(mp pointer.MemoryPointer) error { r.mp = mp; return nil }
func TestDemo(t *testing.T) {
	p, _ := pagefile.NewPageFile(&mem{})
	tr := &bptree.BPTree{PageFile: p, MetaPage: &root{}, Width: 9}
	key := func(i int) pointer.ReferencedValue { b := make([]byte, 8); binary.BigEndian.PutUint64(b, uint64(i)); return pointer.ReferencedValue{Value: b, DataPointer: pointer.MemoryPointer{Offset: uint64(i), Length: 1}} }
	for i := 0; i < 1000; i++ { if err := tr.Insert(key(i), pointer.MemoryPointer{Offset: uint64(i)}); err != nil { t.Fatal(err) } }
	for i := 0; i < 1000; i++ { if err := tr.Insert(key(i), pointer.MemoryPointer{Offset: uint64(i)}); err == nil { t.Fatalf("key %d inserted twice", i) } }
}
'''}, run="gotest pkg/bptree"),
dict(id="bptree-prev-inner", property="C04", needs="a tree of at least three levels, walked backward across an inner node",
 breaks="iterating backward skips the last leaf of every inner node it enters",
 edits=[("pkg/bptree/bptree.go", "			p.records[i].index = p.records[i].node.NumPointers() - 1\n", "			p.records[i].index = len(p.records[i].node.Keys) - 1\n")],
 demo={"demo_test.go": '''package bptree_test
import ("bytes"; "io"; "testing"; "github.com/kevmo314/appendable/pkg/bptree"; "github.com/kevmo314/appendable/pkg/pagefile"; "github.com/kevmo314/appendable/pkg/pointer")
''' + MEM + '''
type root struct{ mp pointer.MemoryPointer }
func (r *root) Root() (pointer.MemoryPointer, error) { return r.mp, nil }
func (r *root) SetRoot(mp pointer.MemoryPointer) error { r.mp = mp; return nil }
func TestDemo(t *testing.T) {
	p, _ := pagefile.NewPageFile(&mem{})
	w := 400
	tr := &bptree.BPTree{PageFile: p, MetaPage: &root{}, Width: uint16(w + 1)}
	key := func(i int) pointer.ReferencedValue { b := bytes.Repeat([]byte{byte(i >> 8)}, w); b[1] = byte(i); return pointer.ReferencedValue{Value: b, DataPointer: pointer.MemoryPointer{Offset: uint64(i), Length: 1}} }
	n := 400
	for i := 0; i < n; i++ { if err := tr.Insert(key(i), pointer.MemoryPointer{Offset: uint64(i)}); err != nil { t.Fatal(err) } }
	it, _ := tr.Iter(key(n - 1))
	it.Next()
	c := 1
	for it.Prev() { c++ }
	if c != n { t.Fatalf("%d of %d entries", c, n) }
}
'''}, run="gotest pkg/bptree"),
dict(id="bptree-contains-fault", property="C05", needs="a read error while the membership of a value is looked up",
 breaks="the failed lookup is reported as 'not contained'",
 edits=[("pkg/bptree/bptree.go", "	if !p.Next() {\n		return false, p.Err()\n	}", "	if !p.Next() {\n		return false, nil\n	}")],
 demo={"demo_test.go": '''package bptree_test
import ("errors"; "io"; "testing"; "github.com/kevmo314/appendable/pkg/bptree"; "github.com/kevmo314/appendable/pkg/pagefile"; "github.com/kevmo314/appendable/pkg/pointer")
''' + MEM + '''
type root struct{ mp pointer.MemoryPointer }
func (r *root) Root() (pointer.MemoryPointer, error) { return r.mp, nil }
func (r *root) SetRoot(mp pointer.MemoryPointer) error { r.mp = mp; return nil }
type flaky struct { mem; bad bool }
func (f *flaky) Read(p []byte) (int, error) { if f.bad { return 0, errors.New("disk") }; return f.mem.Read(p) }
func TestDemo(t *testing.T) {
	f := &flaky{}
	p, _ := pagefile.NewPageFile(f)
	tr := &bptree.BPTree{PageFile: p, MetaPage: &root{}, Width: 2}
	if err := tr.Insert(pointer.ReferencedValue{Value: []byte("a")}, pointer.MemoryPointer{Offset: 1, Length: 1}); err != nil { t.Fatal(err) }
	f.bad = true
	if ok, err := tr.Contains(pointer.ReferencedValue{Value: []byte("a")}); err == nil { t.Fatal("no error", ok) }
}
'''}, run="gotest pkg/bptree"),
dict(id="btree-mid-vectors", property="C06", needs="a tree so large that an inner node splits, then looking up stored ids",
 breaks="ids next to the separator of a split inner node are not found any more",
 edits=[("pkg/btree/btree.go", "	if found {\n		index++\n	}\n\n	childOffset", "	if found && node.Vectors[index] == nil {\n		index++\n	}\n\n	childOffset")],
 demo={"demo_test.go": '''package btree_test
import ("io"; "testing"; "github.com/kevmo314/appendable/pkg/btree"; "github.com/kevmo314/appendable/pkg/hnsw"; "github.com/kevmo314/appendable/pkg/pagefile"; "github.com/kevmo314/appendable/pkg/pointer")
''' + MEM + '''
type root struct{ mp pointer.MemoryPointer }
func (r *root) Root() (pointer.MemoryPointer, error) { return r.mp, nil }
func (r *root) SetRoot(mp pointer.MemoryPointer) error { r.mp = mp; return nil }
func TestDemo(t *testing.T) {
	p, _ := pagefile.NewPageFile(&mem{})
	tr := &btree.BTree{PageFile: p, MetaPage: &root{}, Width: 3, VectorDim: 2}
	for i := 0; i < 2000; i++ { if err := tr.Insert(pointer.ReferencedId{Value: hnsw.Id(i)}, hnsw.Point{float32(i), 1}); err != nil { t.Fatal(err) } }
	for i := 0; i < 2000; i++ { k, v, err := tr.Find(pointer.ReferencedId{Value: hnsw.Id(i)}); if err != nil || k.Value != hnsw.Id(i) || len(v) != 2 || v[0] != float32(i) { t.Fatal(i, k, v, err) } }
}
'''}, run="gotest pkg/btree"),
dict(id="filemeta-entries", property="C08", needs="a file record with 128 or more entries, read back",
 breaks="the entry count is read back wrong",
 edits=[("pkg/appendable/appendable.go", "	e, _ := binary.Uvarint(buf[10:])\n	m.Entries = e\n", "	if len(buf) > 10 {\n		m.Entries = uint64(buf[10])\n	}\n")],
 demo={"demo_test.go": '''package appendable_test
import ("testing"; "github.com/kevmo314/appendable/pkg/appendable")
func TestDemo(t *testing.T) {
	a := appendable.FileMeta{Version: 1, Entries: 300, ReadOffset: 5}
	b, _ := a.MarshalBinary()
	var c appendable.FileMeta
	if err := c.UnmarshalBinary(b); err != nil || c != a { t.Fatal(c, err) }
}
'''}, run="gotest pkg/appendable"),
dict(id="jsonl-path-leak", property="C09", needs="a field that follows a nested object in the same object",
 breaks="the field is indexed under the path of the nested object before it",
 edits=[("pkg/handlers/jsonl.go", "							if err := j.handleJSONLObject(f, r, dec, append(path, key), data); err != nil {", "							path = append(path, key)\n							if err := j.handleJSONLObject(f, r, dec, path, data); err != nil {")],
 demo={"demo_test.go": IMP + IDX + '''
func TestDemo(t *testing.T) {
	f := &mem{}
	d := "{\\"a\\":{\\"x\\":1},\\"b\\":2}\\n"
	if err := sync(t, f, d); err != nil { t.Fatal(err) }
	if n := len(entries(t, f, d, "b", appendable.FieldTypeFloat64)); n != 1 { t.Fatal(n) }
}
'''}, run="gotest pkg/handlers"),
dict(id="jsonl-bool-array", property="C09", needs="a string of a search field shorter than three letters after longer ones in the same line",
 breaks="the n-gram total and entries of one search field stop at the first string without any trigram",
 edits=[("pkg/ngram/tokenizer.go", "			if len(currWord) >= gl {\n				words = append(words, currWord)\n			}\n			currWord = []int{}\n", "			if len(currWord) >= gl {\n				words = append(words, currWord)\n				currWord = []int{}\n			}\n")],
 demo={"demo_test.go": IMP + IDX + '''
func TestDemo(t *testing.T) {
	f := &mem{}
	d := "{\\"a\\":\\"ab cd\\"}\\n"
	if err := sync(t, f, d, "a"); err != nil { t.Fatal(err) }
	if n := len(entries(t, f, d, "a", appendable.FieldTypeTrigram)); n != 0 { t.Fatal(n, "trigrams across words") }
}
'''}, run="gotest pkg/handlers"),
dict(id="jsonl-unterminated", property="C10", needs="a synchronisation that sees a last line which is a complete object but not yet terminated, followed by one that sees more of it",
 breaks="the unfinished line is indexed at once and the rest of it is taken for another record",
 edits=[("pkg/handlers/jsonl.go", "		if i == -1 {\n			break\n		}\n", "		if i == -1 {\n			if i = len(df) - int(metadata.ReadOffset); i <= 0 || df[len(df)-1] != '}' {\n				break\n			}\n			df = append(df[:len(df):len(df)], '\\n')\n		}\n")],
 demo={"demo_test.go": IMP + IDX + '''
func TestDemo(t *testing.T) {
	f := &mem{}
	d := "{\\"a\\":1}\\n{\\"b\\":{\\"c\\":1}"
	sync(t, f, d)
	d2 := "{\\"a\\":1}\\n{\\"b\\":3}"
	g := &mem{}
	if err := sync(t, g, d2); err != nil { t.Fatal(err) }
	if m := meta(t, g); m.ReadOffset != 8 || m.Entries != 1 { t.Fatal(m) }
}
'''}, run="gotest pkg/handlers"),
dict(id="jsonl-skip-bad", property="C11", needs="a line that can't be indexed, followed by another synchronisation after it is repaired",
 breaks="the offset is moved past the refused line, which is never indexed even when repaired",
 edits=[("pkg/handlers/jsonl.go", "		}); failed != nil {\n			break\n		}\n", "		}); failed != nil {\n			metadata.ReadOffset += uint64(i) + 1\n			break\n		}\n"),
        ("pkg/handlers/jsonl.go", "		metadata.Entries++\n", "		metadata.Entries += 1\n")],
 demo={"demo_test.go": IMP + IDX + '''
func TestDemo(t *testing.T) {
	f := &mem{}
	if err := sync(t, f, "{\\"a\\":1}\\n{\\"a\\":x}\\n"); err == nil { t.Fatal("accepted") }
	d := "{\\"a\\":1}\\n{\\"a\\":2}\\n"
	if err := sync(t, f, d); err != nil { t.Fatal(err) }
	if n := len(entries(t, f, d, "a", appendable.FieldTypeFloat64)); n != 2 { t.Fatal(n) }
}
'''}, run="gotest pkg/handlers"),
dict(id="bptree-split-order", property="C12", needs="a kill between the write of the truncated left half and of the right half of a split leaf",
 breaks="the upper half of the entries of the leaf is stored nowhere",
 edits=[("pkg/bptree/bptree.go", "			moffset, err := t.PageFile.NewPage(mbuf)\n			if err != nil {\n				return err\n			}\n\n", "\n"),
        ("pkg/bptree/bptree.go", "			if _, err := n.WriteTo(t.PageFile); err != nil {\n				return err\n			}\n", "			if _, err := n.WriteTo(t.PageFile); err != nil {\n				return err\n			}\n			moffset, err := t.PageFile.NewPage(mbuf)\n			if err != nil {\n				return err\n			}\n")],
 demo={"demo_test.go": '''package bptree_test
import ("bytes"; "encoding/binary"; "io"; "testing"; "github.com/kevmo314/appendable/pkg/bptree"; "github.com/kevmo314/appendable/pkg/pagefile"; "github.com/kevmo314/appendable/pkg/pointer")
''' + MEM + '''
type root struct{ mp pointer.MemoryPointer }
func (r *root) Root() (pointer.MemoryPointer, error) { return r.mp, nil }
func (r *root) SetRoot(mp pointer.MemoryPointer) error { r.mp = mp; return nil }
type images struct { mem; all [][]byte }
func (f *images) Write(p []byte) (int, error) { n, err := f.mem.Write(p); f.all = append(f.all, append([]byte(nil), f.b...)); return n, err }
func TestDemo(t *testing.T) {
	f := &images{}
	p, _ := pagefile.NewPageFile(f)
	tr := &bptree.BPTree{PageFile: p, MetaPage: &root{}, Width: 9}
	key := func(i int) []byte { b := make([]byte, 8); binary.BigEndian.PutUint64(b, uint64(i)+0xabcdef0000000000); return b }
	for i := 0; len(f.b) < 3*4096; i++ {
		f.all = nil
		if err := tr.Insert(pointer.ReferencedValue{Value: key(i), DataPointer: pointer.MemoryPointer{Offset: uint64(i), Length: 1}}, pointer.MemoryPointer{Offset: uint64(i)}); err != nil { t.Fatal(err) }
		for n, b := range f.all {
			for j := 0; j < i; j++ { if !bytes.Contains(b, key(j)) { t.Fatalf("insertion %d, write %d: entry %d is nowhere in the file", i, n, j) } }
		}
	}
}
'''}, run="gotest pkg/bptree"),
dict(id="jsonl-string-length", property="C13", needs="a string value written with an escape or in more bytes than its value",
 breaks="the recorded place ends before the string does, so it can't be read back",
 edits=[("pkg/handlers/jsonl.go", "					valueBytes := []byte(valueStr)\n\n					if err := page", "					valueBytes := []byte(valueStr)\n					mp.Length = uint32(len(valueBytes) + 2)\n\n					if err := page")],
 demo={"demo_test.go": IMP + IDX + '''
func TestDemo(t *testing.T) {
	f := &mem{}
	d := "{\\"a\\":\\"x\\\\ny\\"}\\n"
	if err := sync(t, f, d); err != nil { t.Fatal(err) }
	if e := entries(t, f, d, "a", appendable.FieldTypeString); len(e) != 1 || e[0] != fmt.Sprintf("%x@5+6", "x\\ny") { t.Fatal(e) }
}
'''}, run="gotest pkg/handlers"),
]
