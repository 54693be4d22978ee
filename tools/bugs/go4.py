
exec(open("/verif/tools/bugs/go1.py").read().split("BUGS = [")[0])
CLI = '''
go build -o "$T/appendable" ./cmd || exit 1
'''
BUGS = [
dict(id="format-leaf-order", property="C27", needs="nothing but a look at the stored bytes: what writes and what reads were changed alike, only files of other versions and other readers meet it",
 breaks="leaves store length before offset of each record: index files written before, and all clients, disagree with the indexer",
 edits=[("pkg/bptree/node.go", "	for _, p := range n.LeafPointers {\n		on := binary.PutUvarint(buf[ct:], p.Offset)\n		ln := binary.PutUvarint(buf[ct+on:], uint64(p.Length))\n", "	for _, p := range n.LeafPointers {\n		ln := binary.PutUvarint(buf[ct:], uint64(p.Length))\n		on := binary.PutUvarint(buf[ct+ln:], p.Offset)\n"),
        ("pkg/bptree/node.go", "	for i := range n.LeafPointers {\n\n		o, on := binary.Uvarint(buf[m:])\n		l, ln := binary.Uvarint(buf[m+on:])\n", "	for i := range n.LeafPointers {\n\n		l, ln := binary.Uvarint(buf[m:])\n		o, on := binary.Uvarint(buf[m+ln:])\n")],
 demo={"demo_test.go": IMP + IDX + '''
func TestDemo(t *testing.T) {
	f := &mem{}
	if err := sync(t, f, "{\\"a\\":true}\\n{\\"a\\":false}\\n"); err != nil { t.Fatal(err) }
	// directory, meta page, the one tree: a leaf of two keys of one byte
	want := []byte{0xfe, 0xff, 0xff, 0xff, 16, 5, 0, 5, 4, 1, 11, 11, 0, 10}
	if got := f.b[2*4096:2*4096+len(want)]; fmt.Sprint(got) != fmt.Sprint(want) { t.Fatalf("leaf %v, not %v", got, want) }
	_, _ = entries, meta
}
'''}, run="gotest pkg/handlers"),
dict(id="heap-clone-shared", property="C17", needs="a clone, then an insertion that gives an id both heaps hold another distance",
 breaks="the clone shares its items: giving an id a new distance in one heap changes it in the other too, whose order is then wrong",
 edits=[("pkg/hnsw/heap.go", "		clone := *item\n		n.items[i] = &clone\n", "		n.items[i] = item\n")],
 demo={"demo_test.go": '''package hnsw
import "testing"
func TestDemo(t *testing.T) {
	h := NewDistHeap()
	for i := 0; i < 5; i++ { h.Insert(Id(i), float32(i)) }
	c := h.Clone()
	c.Insert(3, -1)
	m, err := h.PeekMinItem()
	if err != nil || m.id != 0 { t.Fatal(m, err) }
	for i := 0; i < 5; i++ {
		m, err := h.PopMinItem()
		if err != nil || m.id != Id(i) || m.dist != float32(i) { t.Fatal(i, m, err) }
	}
}
'''}, run="gotest pkg/hnsw"),
dict(id="ngram-wide-runes", property="C16", needs="a character of four bytes before an n-gram",
 breaks="the place of an n-gram behind a character of four bytes is one too large",
 edits=[("pkg/ngram/tokenizer.go", "		if utf8.RuneLen(r) > 1 {\n			additionalOffsets += utf8.RuneLen(r) - 1\n		}\n", "		if n := utf8.RuneLen(r); n > 1 {\n			additionalOffsets += min(n-1, 2)\n		}\n")],
 demo={"demo_test.go": '''package ngram
import "testing"
func TestDemo(t *testing.T) {
	// the smiley is one character
	got := BuildNgram("\\U0001f600 ab", 2)
	if len(got) != 1 || got[0].Word != "ab" || got[0].Offset != 2 { t.Fatal(got) }
}
'''}, run="gotest pkg/ngram"),
dict(id="jsonl-zero-bits", property="C09", needs="a field holding -0 (or -0.0)",
 breaks="a negative zero is indexed as positive zero, not with the value it has",
 edits=[("pkg/handlers/jsonl.go", "					case float64:\n						binary.BigEndian.PutUint64(buf, math.Float64bits(value))\n					}\n\n					if err", "					case float64:\n						if value != 0 {\n							binary.BigEndian.PutUint64(buf, math.Float64bits(value))\n						}\n					}\n\n					if err")],
 demo={"demo_test.go": IMP + IDX + '''
func TestDemo(t *testing.T) {
	f := &mem{}
	data := "{\\"a\\":-0.0}\\n{\\"a\\":0}\\n"
	if err := sync(t, f, data); err != nil { t.Fatal(err) }
	e := fmt.Sprint(entries(t, f, data, "a", appendable.FieldTypeFloat64))
	if e != "[0000000000000000@16+1 8000000000000000@5+4]" { t.Fatal(e) }
	_ = meta
}
'''}, run="gotest pkg/handlers"),
dict(id="names-adjacent", property="C08", needs="a field that has another type in a later record, after a new field appeared",
 breaks="the list of field names has a name twice when indexes of other names lie between its two indexes",
 edits=[("pkg/appendable/index_file.go", "		if _, ok := uniqueFieldNames[metadata.FieldName]; !ok {\n			uniqueFieldNames[metadata.FieldName] = true\n", "		if len(fieldNames) == 0 || fieldNames[len(fieldNames)-1] != metadata.FieldName {\n			uniqueFieldNames[metadata.FieldName] = true\n")],
 demo={"demo_test.go": IMP + IDX + '''
func TestDemo(t *testing.T) {
	f := &mem{}
	if err := sync(t, f, "{\\"a\\":1}\\n{\\"b\\":1}\\n{\\"a\\":\\"x\\"}\\n"); err != nil { t.Fatal(err) }
	x, err := appendable.NewIndexFile(f, handlers.JSONLHandler{}, nil)
	if err != nil { t.Fatal(err) }
	n, err := x.IndexFieldNames()
	if err != nil || fmt.Sprint(n) != "[a b]" { t.Fatal(n, err) }
	_, _ = entries, meta
}
'''}, run="gotest pkg/handlers"),
dict(id="bptree-write-ignored", property="C05", needs="the storage fails when an insertion that splits nothing writes its leaf back",
 breaks="the failed write of a leaf is not reported: the insertion succeeds and the entry is not there",
 edits=[("pkg/bptree/bptree.go", "			if _, err := tr.node.WriteTo(t.PageFile); err != nil {\n				return err\n			}\n", "			if n, err := tr.node.WriteTo(t.PageFile); n < 0 {\n				return err\n			}\n")],
 demo={"demo_test.go": IMP + IDX + '''
type flaky struct { mem; at int }
func (f *flaky) Write(p []byte) (int, error) { f.at--; if f.at == 0 { return 0, fmt.Errorf("write failed") }; return f.mem.Write(p) }
func TestDemo(t *testing.T) {
	data := "{\\"a\\":1}\\n{\\"a\\":2}\\n"
	for at := 1; at < 100; at++ {
		f := &flaky{}
		if err := sync(t, f, data[:8]); err != nil { t.Fatal(err) }
		f.at = at
		err := sync(t, f, data)
		if f.at > 0 { return }
		if err == nil { t.Fatal("the failure of write", at, "was not reported") }
	}
	_, _ = entries, meta
}
'''}, run="gotest pkg/handlers"),
dict(id="linkedpage-link-first", property="C12", needs="a kill between the two writes with which a synchronisation adds a second meta page (the fifteenth index)",
 breaks="the list leads to a page that is not yet initialised: an index file left by a kill there can't be read or completed",
 edits=[("pkg/linkedpage/linkedpage.go", '''		if err := next.reset(1); err != nil {
			return nil, err
		}
		// save the next pointer
		if _, err := m.rws.Seek(int64(m.offset), io.SeekStart); err != nil {
			return nil, err
		}
		if err := binary.Write(m.rws, binary.LittleEndian, next.offset); err != nil {
			return nil, err
		}
		return next, nil
''', '''		// save the next pointer
		if _, err := m.rws.Seek(int64(m.offset), io.SeekStart); err != nil {
			return nil, err
		}
		if err := binary.Write(m.rws, binary.LittleEndian, next.offset); err != nil {
			return nil, err
		}
		if err := next.reset(1); err != nil {
			return nil, err
		}
		return next, nil
''')],
 demo={"demo_test.go": IMP + IDX + '''
// a storage that is gone after some writes
type dying struct { mem; left int }
func (f *dying) Write(p []byte) (int, error) { if f.left == 0 { return 0, fmt.Errorf("killed") }; f.left--; return f.mem.Write(p) }
func TestDemo(t *testing.T) {
	var b strings.Builder
	b.WriteString("{")
	for i := 0; i < 17; i++ { if i > 0 { b.WriteString(",") }; fmt.Fprintf(&b, "\\"f%d\\":1", i) }
	b.WriteString("}\\n")
	for left := 0; left < 400; left++ {
		f := &dying{left: left}
		err := sync(t, f, b.String())
		if err == nil { return }
		g := &mem{b: f.b}
		done := make(chan error, 1)
		go func() { done <- sync(t, g, b.String()) }()
		select {
		case err := <-done: if err != nil { t.Fatal("killed after", left, "writes:", err) }
		case <-time.After(10 * time.Second): t.Fatal("killed after", left, "writes: hangs")
		}
		for i := 0; i < 17; i++ {
			if e := entries(t, g, b.String(), fmt.Sprintf("f%d", i), appendable.FieldTypeFloat64); len(e) != 1 { t.Fatal(left, i, e) }
		}
	}
	_ = meta
}
'''.replace('import ("fmt"', 'import ("fmt"')}, run="gotest pkg/handlers"),
dict(id="hnsw-level-friends", property="C18", needs="a new vector on a level higher than its nearest entry, with more friends found than M",
 breaks="friends are trimmed to M plus one: a node can have one friend too many on a level",
 edits=[("pkg/hnsw/hnsw.go", "			for neighborFriendsAtLevel.Len() > h.M {\n", "			for neighborFriendsAtLevel.Len() > max(h.M, qTopLevel*h.Mmax0) {\n")],
 demo={"demo_test.go": '''package hnsw
import ("math/rand"; "testing")
func TestDemo(t *testing.T) {
	for s := 0; s < 20; s++ {
		r := rand.New(rand.NewSource(int64(s)))
		h := NewHnsw(2, 16, 3, Point{0, 0})
		for i := 0; i < 80; i++ {
			if _, err := h.InsertVector(Point{r.Float32(), r.Float32()}); err != nil { t.Fatal(err) }
		}
		for id := range h.points {
			f, err := h.Neighborhood(Id(id))
			if err != nil { t.Fatal(err) }
			for l := 1; l <= f.TopLevel(); l++ {
				x, _ := f.GetFriendsAtLevel(l)
				if x.Len() > 3 { t.Fatal("node", id, "has", x.Len(), "friends on level", l) }
			}
		}
	}
}
'''}, run="gotest pkg/hnsw"),
dict(id="metadata-unchanged", property="C10", needs="a data file that grows by a line the index holds nothing new of (an empty object)",
 breaks="a synchronise that adds no index forgets the lines it read: offset and count stay behind",
 edits=[("pkg/handlers/jsonl.go", "	// update the metadata\n	if err := f.SetMetadata(metadata); err != nil {\n", "	// update the metadata, unless there is nothing to read\n	if len(bytes.Trim(df[start:metadata.ReadOffset], \"{}\\n\")) == 0 {\n		return failed\n	}\n	if err := f.SetMetadata(metadata); err != nil {\n"),
        ("pkg/handlers/jsonl.go", "	// read until the next newline\n	metadata, err := f.Metadata()\n	if err != nil {\n		return fmt.Errorf(\"failed to read metadata: %w\", err)\n	}\n", "	// read until the next newline\n	metadata, err := f.Metadata()\n	if err != nil {\n		return fmt.Errorf(\"failed to read metadata: %w\", err)\n	}\n	start := min(metadata.ReadOffset, uint64(len(df)))\n")],
 demo={"demo_test.go": IMP + IDX + '''
func TestDemo(t *testing.T) {
	f := &mem{}
	data := "{\\"a\\":1}\\n{}\\n"
	if err := sync(t, f, data[:8]); err != nil { t.Fatal(err) }
	if err := sync(t, f, data); err != nil { t.Fatal(err) }
	if m := meta(t, f); m.Entries != 2 || m.ReadOffset != 11 { t.Fatal(m) }
	_ = entries
}
'''}, run="gotest pkg/handlers"),
dict(id="knn-revisit-entry", property="C19", needs="a search whose entry point has friends nearer to the query, with k at most 1 (or the breadth reached)",
 breaks="the search stops at the first candidate that is no nearer than the furthest answer, also while there is room for more",
 edits=[("pkg/hnsw/hnsw.go", "		if closestCandidate.dist > furthestFoundNN.dist {\n", "		if closestCandidate.dist >= furthestFoundNN.dist && foundNNToQ.Len() > 1 {\n")],
 demo={"demo_test.go": '''package hnsw
import "testing"
func TestDemo(t *testing.T) {
	// a chain of equal distances
	h := NewHnsw(1, 8, 8, Point{0})
	for i := 1; i < 4; i++ { if _, err := h.InsertVector(Point{float32(i)}); err != nil { t.Fatal(err) } }
	for i := 0; i < 4; i++ { h.friends[Id(i)] = NewFriends(0) }
	for i := 0; i < 3; i++ { h.friends[Id(i)].Insert0(Id(i+1), 1); h.friends[Id(i+1)].Insert0(Id(i), 1) }
	h.entryPointId = 0
	r, err := h.KnnSearch(Point{0}, 4)
	if err != nil || r.Len() != 4 { t.Fatal(r.Len(), err) }
}
func (v *Friends) Insert0(id Id, d float32) { v.friends[0].Insert(id, d) }
'''}, run="gotest pkg/hnsw"),
]
# time is used by one of them
for b in BUGS:
    for k in b["demo"]:
        if "time.After" in b["demo"][k]:
            b["demo"][k] = b["demo"][k].replace('"strings"\n', '"strings"; "time"\n')
