exec(open("/verif/tools/bugs/go1.py").read().split("BUGS = [")[0])
BUGS = [
dict(id="varint-size-float", property="C28", needs="an offset or length close below a power of 2^7 beyond 2^48, which a float64 logarithm rounds up",
 breaks="the size of such a number is computed one byte too large, so nodes holding it aren't written or carry a byte that is not theirs",
 edits=[("pkg/encoding/sizeVarint.go", 'import "math/bits"\n', 'import "math"\n'),
        ("pkg/encoding/sizeVarint.go", "	return int(9*uint32(bits.Len64(v))+64) / 64\n", "	if v < 1<<7 {\n		return 1\n	}\n	// seven bits a byte\n	return int(math.Log2(float64(v)))/7 + 1\n")],
 demo={"demo_test.go": '''package encoding
import ("encoding/binary"; "testing")
func TestDemo(t *testing.T) {
	for i := uint(1); i < 64; i++ {
		for d := -2; d <= 2; d++ {
			v := uint64(1)<<i + uint64(d)
			if got, want := SizeVarint(v), len(binary.AppendUvarint(nil, v)); got != want { t.Fatalf("%d takes %d bytes, not %d", v, want, got) }
		}
	}
}
'''}, run="gotest pkg/encoding"),
dict(id="ids-difference", property="C28", needs="ids that differ by 2^63 or more",
 breaks="ids are compared by the sign of their difference, so ids far apart come in the wrong order",
 edits=[("pkg/pointer/referenced_value.go", "	if a.Value > b.Value {\n		return 1\n	} else if a.Value < b.Value {\n		return -1\n	}\n\n	return 0\n", "	switch d := int64(a.Value - b.Value); {\n	case d > 0:\n		return 1\n	case d < 0:\n		return -1\n	}\n\n	return 0\n")],
 demo={"demo_test.go": '''package pointer
import ("testing"; "github.com/kevmo314/appendable/pkg/hnsw")
func TestDemo(t *testing.T) {
	big := uint64(1)<<63
	a, b := ReferencedId{Value: hnsw.Id(big)}, ReferencedId{Value: 1}
	c := ReferencedId{Value: hnsw.Id(^uint64(0))}
	z := ReferencedId{Value: 0}
	if CompareReferencedIds(a, z) != 1 || CompareReferencedIds(z, a) != -1 || CompareReferencedIds(c, b) != 1 || CompareReferencedIds(b, c) != -1 { t.Fatal("order") }
}
'''}, run="gotest pkg/pointer"),
dict(id="newpage-stale", property="C01", needs="a page that held much, freed, and taken again with shorter content",
 breaks="behind the new content a page that was freed before still holds the old one",
 edits=[("pkg/pagefile/pagefile.go", "	if _, err := pf.ReadWriteSeeker.Write(page); err != nil {\n", "	// a page that was freed is there already: its content is enough\n	if last := pf.lastPage * int64(pf.pageSize); buf != nil && offset < last-int64(pf.pageSize) {\n		page = buf\n	}\n	if _, err := pf.ReadWriteSeeker.Write(page); err != nil {\n")],
 demo={"demo_test.go": '''package pagefile_test
import ("bytes"; "io"; "testing"; "github.com/kevmo314/appendable/pkg/pagefile")
''' + MEM + '''
func TestDemo(t *testing.T) {
	f := &mem{}
	p, err := pagefile.NewPageFile(f)
	if err != nil { t.Fatal(err) }
	o, _ := p.NewPage(bytes.Repeat([]byte{7}, 4096))
	p.NewPage(nil)
	if err := p.FreePage(o); err != nil { t.Fatal(err) }
	n, err := p.NewPage([]byte("abc"))
	if err != nil { t.Fatal(err) }
	if n == o && !bytes.Equal(f.b[n:n+4096], append([]byte("abc"), make([]byte, 4093)...)) { t.Fatal("old content") }
}
'''}, run="gotest pkg/pagefile"),
dict(id="mmap-writeat-seek", property="C02", needs="a WriteAt beyond the end of the mapped file, then a Read or Write at the current position",
 breaks="a WriteAt that makes the file grow moves the position of the next Read or Write",
 edits=[("pkg/mmap/mmap.go", "		m.bytes = bytes\n		return len(b), nil\n	}\n	if m.prot", "		m.bytes = bytes\n		m.seek = off\n		return len(b), nil\n	}\n	if m.prot")],
 demo={"demo_test.go": '''package mmap
import ("io"; "os"; "testing")
func TestDemo(t *testing.T) {
	f, err := OpenFile(t.TempDir()+"/f", os.O_RDWR|os.O_CREATE, 0666)
	if err != nil { t.Fatal(err) }
	defer f.Close()
	if _, err := f.Write([]byte("abcdef")); err != nil { t.Fatal(err) }
	if _, err := f.Seek(1, io.SeekStart); err != nil { t.Fatal(err) }
	if _, err := f.WriteAt([]byte("xyz"), 4); err != nil { t.Fatal(err) }
	if p, err := f.Seek(0, io.SeekCurrent); err != nil || p != 1 { t.Fatal(p, err) }
}
'''}, run="gotest pkg/mmap"),
dict(id="iter-swallow", property="C05", needs="a read failure when an iterator goes on to the next leaf",
 breaks="an iterator whose page can't be read ends as if there were no more entries, with no error",
 edits=[("pkg/bptree/bptree.go", "		node, err := p.tree.readNode(p.records[i+1].node.Pointer(p.records[i+1].index))\n		if err != nil {\n			p.err = err\n			return false\n		}\n", "		node, err := p.tree.readNode(p.records[i+1].node.Pointer(p.records[i+1].index))\n		if err != nil {\n			return false\n		}\n")],
 demo={"demo_test.go": '''package bptree_test
import ("encoding/binary"; "errors"; "io"; "testing"; "github.com/kevmo314/appendable/pkg/bptree"; "github.com/kevmo314/appendable/pkg/pagefile"; "github.com/kevmo314/appendable/pkg/pointer")
''' + MEM + '''
type root struct { mp pointer.MemoryPointer }
func (r *root) Root() (pointer.MemoryPointer, error) { return r.mp, nil }
func (r *root) SetRoot(mp pointer.MemoryPointer) error { r.mp = mp; return nil }
type bad struct { mem; left int }
func (b *bad) Read(p []byte) (int, error) { if b.left--; b.left < 0 { return 0, errors.New("broken") }; return b.mem.Read(p) }
func TestDemo(t *testing.T) {
	f := &bad{left: 1 << 40}
	p, err := pagefile.NewPageFile(f)
	if err != nil { t.Fatal(err) }
	tr := &bptree.BPTree{PageFile: p, MetaPage: &root{}, Width: 9}
	for i := 0; i < 2000; i++ {
		if err := tr.Insert(pointer.ReferencedValue{Value: binary.BigEndian.AppendUint64(nil, uint64(i))}, pointer.MemoryPointer{Offset: uint64(i), Length: 1}); err != nil { t.Fatal(err) }
	}
	for k := 0; k < 20; k++ {
		f.left = k
		it, err := tr.Iter(pointer.ReferencedValue{Value: make([]byte, 8)})
		n := 0
		if err == nil { for it.Next() { n++ }; err = it.Err() }
		f.left = 1 << 40
		if err == nil && n != 2000 { t.Fatalf("%d of 2000 entries and no error", n) }
	}
}
'''}, run="gotest pkg/bptree"),
dict(id="btree-dup-place", property="C06", needs="an id stored again with another data pointer",
 breaks="an id that is stored already is stored a second time when its data pointer differs; which vector is found is chance",
 edits=[("pkg/btree/btree.go", "	if found {\n		return fmt.Errorf(\"key already exists. Data pointer: %v\", key.DataPointer)\n	}\n", "	if found && n.Ids[j].DataPointer == key.DataPointer {\n		return fmt.Errorf(\"key already exists. Data pointer: %v\", key.DataPointer)\n	}\n")],
 demo={"demo_test.go": '''package btree_test
import ("io"; "testing"; "github.com/kevmo314/appendable/pkg/btree"; "github.com/kevmo314/appendable/pkg/hnsw"; "github.com/kevmo314/appendable/pkg/pagefile"; "github.com/kevmo314/appendable/pkg/pointer")
''' + MEM + '''
type root struct { mp pointer.MemoryPointer }
func (r *root) Root() (pointer.MemoryPointer, error) { return r.mp, nil }
func (r *root) SetRoot(mp pointer.MemoryPointer) error { r.mp = mp; return nil }
func TestDemo(t *testing.T) {
	p, err := pagefile.NewPageFile(&mem{})
	if err != nil { t.Fatal(err) }
	tr := &btree.BTree{PageFile: p, MetaPage: &root{}, VectorDim: 1}
	for i := 1; i < 4; i++ {
		if err := tr.Insert(pointer.ReferencedId{Value: hnsw.Id(i), DataPointer: pointer.MemoryPointer{Offset: uint64(i), Length: 4}}, hnsw.Point{1}); err != nil { t.Fatal(err) }
	}
	if err := tr.Insert(pointer.ReferencedId{Value: 2, DataPointer: pointer.MemoryPointer{Offset: 77, Length: 4}}, hnsw.Point{2}); err == nil { t.Fatal("stored twice") }
}
'''}, run="gotest pkg/btree"),
dict(id="addnext-cuts-list", property="C07", needs="AddNext on the last slot of a full page that has a next page",
 breaks="adding behind the last slot of a full page, which has a page behind it, drops that page and every slot on it",
 edits=[("pkg/linkedpage/linkedpage.go", "		// otherwise, read the next page\n		nextOffset, err := m.nextPageOffset()\n		if err != nil {\n			return nil, err\n		}\n		if nextOffset != ^uint64(0) {\n			return nil, errors.New(\"next pointer already exists\")\n		}\n", "		// otherwise, there is a page to add\n		if _, err := m.nextPageOffset(); err != nil {\n			return nil, err\n		}\n")],
 demo={"demo_test.go": '''package linkedpage_test
import ("io"; "testing"; "github.com/kevmo314/appendable/pkg/linkedpage"; "github.com/kevmo314/appendable/pkg/pagefile")
''' + MEM + '''
func TestDemo(t *testing.T) {
	p, err := pagefile.NewPageFile(&mem{})
	if err != nil { t.Fatal(err) }
	m, err := linkedpage.NewMultiBPTree(p, 0)
	if err != nil { t.Fatal(err) }
	all := []*linkedpage.LinkedPage{m}
	for i := 0; i < 20; i++ { n, err := all[i].AddNext(); if err != nil { t.Fatal(err) }; all = append(all, n) }
	for i := 0; i < 20; i++ { if _, err := all[i].AddNext(); err == nil { t.Fatalf("slot %d has a next one already", i) } }
}
'''}, run="gotest pkg/linkedpage"),
dict(id="cli-search-comma", property="C15", needs="a search field whose name contains a comma",
 breaks="the search fields given to -s are split at commas, so a field with a comma in its name gets no n-grams (and others do)",
 edits=[("cmd/main.go", "	*s = append(*s, value)\n	return nil\n", "	*s = append(*s, strings.Split(value, \",\")...)\n	return nil\n"),
        ("cmd/main.go", "	\"runtime/pprof\"\n", "	\"runtime/pprof\"\n	\"strings\"\n")],
 demo={"demo_test.go": IMP + IDX + '''
func TestDemo(t *testing.T) {
	f := &mem{}
	b, err := os.ReadFile(os.Getenv("DEMO_INDEX"))
	if err != nil { t.Fatal(err) }
	f.b = b
	if e := entries(t, f, "{\\"a,b\\":\\"abcd\\"}\\n", "a,b", appendable.FieldTypeTrigram); len(e) != 2 { t.Fatal(e) }
	_, _ = meta, sync
}
'''.replace('', '')}, run='''go build -o "$T/appendable" ./cmd || exit 1
printf '{"a,b":"abcd"}\\n' > "$T/d.jsonl"
"$T/appendable" -jsonl -s a,b -i "$T/d.index" "$T/d.jsonl" || exit 1
DEMO_INDEX="$T/d.index" gotest pkg/handlers'''),
dict(id="indexmeta-order", property="C27", needs="a look at the stored bytes of a slot: what writes and what reads were changed alike",
 breaks="the width of an index is stored before its type: index files of other versions, and the clients, take one for the other",
 edits=[("pkg/appendable/appendable.go", "	binary.LittleEndian.PutUint16(buf[0:], uint16(m.FieldType))\n	binary.LittleEndian.PutUint16(buf[2:], m.Width)\n", "	binary.LittleEndian.PutUint16(buf[0:], m.Width)\n	binary.LittleEndian.PutUint16(buf[2:], uint16(m.FieldType))\n"),
        ("pkg/appendable/appendable.go", "	m.FieldType = FieldType(binary.LittleEndian.Uint16(buf[0:]))\n	m.Width = binary.LittleEndian.Uint16(buf[2:])\n", "	m.Width = binary.LittleEndian.Uint16(buf[0:])\n	m.FieldType = FieldType(binary.LittleEndian.Uint16(buf[2:]))\n")],
 demo={"demo_test.go": '''package appendable
import ("fmt"; "testing")
func TestDemo(t *testing.T) {
	b, err := (&IndexMeta{FieldName: "ab", FieldType: FieldTypeBoolean, Width: 2, TotalFieldValueLength: 300}).MarshalBinary()
	if err != nil { t.Fatal(err) }
	if len(b) < 10 || fmt.Sprint(b[:10]) != fmt.Sprint([]byte{6, 0, 2, 0, 2, 0, 97, 98, 172, 2}) { t.Fatal(b) }
}
'''}, run="gotest pkg/appendable"),
]
for b in BUGS:
    if b["id"] == "cli-search-comma":
        b["demo"]["demo_test.go"] = b["demo"]["demo_test.go"].replace('"fmt"; "io"', '"fmt"; "io"; "os"')
