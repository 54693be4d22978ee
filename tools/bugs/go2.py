import os
G = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath(path)), "go1.py")).read(), G) if "path" in globals() else exec(open("/verif/tools/bugs/go1.py").read(), G)
MEM, IDX, IMP = G["MEM"], G["IDX"], G["IMP"]
BUGS = [
dict(id="jsonl-checkpoint-early", property="C12", needs="a kill while the fields of a record are being inserted",
 breaks="the progress is saved for each record before its fields are inserted, so the next synchronisation skips a record that was only half indexed",
 edits=[("pkg/handlers/jsonl.go", "		if failed = j.handleJSONLLine(f, df, pointer.MemoryPointer{\n			Offset: metadata.ReadOffset,\n			Length: uint32(i),\n		}); failed != nil {\n			break\n		}\n\n		metadata.ReadOffset += uint64(i) + 1 // include the newline\n",
  "		line := pointer.MemoryPointer{\n			Offset: metadata.ReadOffset,\n			Length: uint32(i),\n		}\n		// save the progress as we go, so that a long run can be resumed\n		progress := *metadata\n		progress.ReadOffset += uint64(i) + 1 // include the newline\n		progress.Entries++\n		if err := f.SetMetadata(&progress); err != nil {\n			return fmt.Errorf(\"failed to set metadata: %w\", err)\n		}\n		if failed = j.handleJSONLLine(f, df, line); failed != nil {\n			break\n		}\n\n		metadata.ReadOffset = progress.ReadOffset\n")],
 demo={"demo_test.go": IMP.replace('"fmt"; ', '"fmt"; "errors"; ') + IDX + '''
type killed struct { mem; left int }
func (k *killed) Write(p []byte) (int, error) { if k.left == 0 { return 0, errors.New("killed") }; k.left--; return k.mem.Write(p) }
func TestDemo(t *testing.T) {
	d := "{\\"a\\":1.5,\\"b\\":2.5}\\n{\\"a\\":3.5,\\"b\\":4.5}\\n"
	for n := 0; n < 200; n++ {
		k := &killed{left: n}
		func() { defer func() { recover() }(); sync(t, k, d) }()
		f := &mem{b: k.b}
		if err := sync(t, f, d); err != nil { t.Fatal(n, err) }
		if a, b := entries(t, f, d, "a", appendable.FieldTypeFloat64), entries(t, f, d, "b", appendable.FieldTypeFloat64); len(a) != 2 || len(b) != 2 { t.Fatal(n, a, b) }
	}
}
'''}, run="gotest pkg/handlers"),
dict(id="mmap-gap", property="C02", needs="a write that starts beyond the end of the mapped file",
 breaks="the bytes land directly behind the old end of the file instead of at the offset asked for",
 edits=[("pkg/mmap/mmap.go", "		if _, err := m.file.WriteAt(b, off); err != nil {\n", "		n := 0\n		if off < int64(len(m.bytes)) {\n			n = copy(m.bytes[off:], b)\n		}\n		if _, err := m.file.WriteAt(b[n:], int64(len(m.bytes))); err != nil {\n")],
 demo={"demo_test.go": '''package mmap_test
import ("bytes"; "os"; "path/filepath"; "testing"; "github.com/kevmo314/appendable/pkg/mmap")
func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "f")
	m, err := mmap.OpenFile(p, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil { t.Fatal(err) }
	defer m.Close()
	if _, err := m.WriteAt([]byte("abc"), 0); err != nil { t.Fatal(err) }
	if _, err := m.WriteAt([]byte("xy"), 5); err != nil { t.Fatal(err) }
	if !bytes.Equal(m.Bytes(), []byte("abc\\x00\\x00xy")) { t.Fatalf("%q", m.Bytes()) }
}
'''}, run="gotest pkg/mmap"),
dict(id="linkedpage-swallow", property="C05", needs="a read failure on the pointer to the next page of slots",
 breaks="a failing read looks like the end of the list of indexes",
 edits=[("pkg/linkedpage/linkedpage.go", "	nextOffset, err := m.nextPageOffset()\n	if err != nil {\n		return nil, err\n	}\n	if nextOffset == ^uint64(0) {\n", "	nextOffset, err := m.nextPageOffset()\n	if err != nil || nextOffset == ^uint64(0) {\n")],
 demo={"demo_test.go": '''package linkedpage_test
import ("errors"; "io"; "testing"; "github.com/kevmo314/appendable/pkg/linkedpage"; "github.com/kevmo314/appendable/pkg/pagefile")
''' + MEM + '''
type bad struct { mem; fail int }
var broken = errors.New("broken disk")
func (b *bad) Read(p []byte) (int, error) { if b.fail > 0 { b.fail--; if b.fail == 0 { return 0, broken } }; return b.mem.Read(p) }
func TestDemo(t *testing.T) {
	f := &bad{}
	p, _ := pagefile.NewPageFile(f)
	head, err := linkedpage.NewMultiBPTree(p, 0)
	if err != nil { t.Fatal(err) }
	n := head
	for i := 0; i < 15; i++ { if n, err = n.AddNext(); err != nil { t.Fatal(err) } }
	for k := 1; k < 3; k++ {
		f.fail = k
		_, err := n.Next()
		if f.fail == 0 && err == io.EOF { t.Fatalf("read %d failed and the list just ends", k) }
		f.fail = 0
	}
}
'''}, run="gotest pkg/linkedpage"),
dict(id="linkedpage-clear-slot", property="C07", needs="shorter metadata set on a slot after the slot behind it has got its root",
 breaks="clearing the rest of the slot runs over the first bytes of the next slot's root pointer",
 edits=[("pkg/linkedpage/linkedpage.go", "	buf := append(make([]byte, 1), data...)\n	buf[0] = uint8(len(data))\n", "	buf := append(make([]byte, 1), data...)\n	buf[0] = uint8(len(data))\n	if old, err := m.Metadata(); err != nil {\n		return err\n	} else if len(old) > len(data) {\n		// clear what the longer metadata leaves behind, up to the end of the slot\n		end := min(1+m.rws.SlotSize(), m.rws.PageSize()-int(m.rootMemoryPointerPageOffset()+pointerBytes+4)%m.rws.PageSize())\n		buf = append(buf, make([]byte, end-len(buf))...)\n	}\n	if _, err := m.rws.Seek(int64(m.rootMemoryPointerPageOffset()+pointerBytes+4), io.SeekStart); err != nil {\n		return err\n	}\n")],
 demo={"demo_test.go": '''package linkedpage_test
import ("io"; "testing"; "github.com/kevmo314/appendable/pkg/linkedpage"; "github.com/kevmo314/appendable/pkg/pagefile"; "github.com/kevmo314/appendable/pkg/pointer")
''' + MEM + '''
func TestDemo(t *testing.T) {
	p, _ := pagefile.NewPageFile(&mem{})
	head, err := linkedpage.NewMultiBPTree(p, 0)
	if err != nil { t.Fatal(err) }
	a, err := head.AddNext()
	if err != nil { t.Fatal(err) }
	b, err := a.AddNext()
	if err != nil { t.Fatal(err) }
	if err := b.SetRoot(pointer.MemoryPointer{Offset: 0x1234, Length: 9}); err != nil { t.Fatal(err) }
	if err := a.SetMetadata([]byte("xyz")); err != nil { t.Fatal(err) }
	if err := a.SetMetadata([]byte("x")); err != nil { t.Fatal(err) }
	if r, err := b.Root(); err != nil || r.Offset != 0x1234 || r.Length != 9 { t.Fatal(r, err) }
}
'''}, run="gotest pkg/linkedpage"),
dict(id="cli-exit-status", property="C15", needs="a data file with a line that can't be indexed",
 breaks="the program logs the error but ends with success",
 edits=[("cmd/main.go", "	if err := i.Synchronize(df.Bytes()); err != nil {\n		panic(err)\n	}\n", "	if err := i.Synchronize(df.Bytes()); err != nil {\n		logger.Error(\"Failed to synchronize the index\", slog.Any(\"error\", err))\n	}\n")],
 demo={}, run='''go build -o "$T/cli" ./cmd || exit 1
cd "$T" && printf '{"a":1}\\nnot json\\n' > d.jsonl
if ./cli -jsonl -i d.idx d.jsonl > /dev/null 2>&1; then exit 1; fi
printf '{"a":1}\\n' > e.jsonl
./cli -jsonl -i e.idx e.jsonl > /dev/null 2>&1'''),
dict(id="heap-max-of-three", property="C17", needs="the maximum taken from a heap of exactly three items, the last of them the largest",
 breaks="an item is handed out that is not the largest",
 edits=[("pkg/hnsw/heap.go", "	r := rchild(0)\n	if r < n && !d.Less(r, i) {\n		i = r\n	}\n\n	d.Swap(i, n-1)\n", "	// the last item takes the place of the one handed out\n	r := rchild(0)\n	if r < n-1 && !d.Less(r, i) {\n		i = r\n	}\n\n	d.Swap(i, n-1)\n")],
 demo={"demo_test.go": '''package hnsw
import "testing"
func TestDemo(t *testing.T) {
	d := NewDistHeap()
	for i := 1; i <= 3; i++ { d.Insert(Id(i), float32(i)) }
	if x, err := d.PopMaxItem(); err != nil || x.dist != 3 { t.Fatal(x, err) }
}
'''}, run="gotest pkg/hnsw"),
dict(id="hnsw-skip-duplicates", property="C18", needs="a vector all of whose chosen neighbours are equal to it",
 breaks="the new node is not connected at all",
 edits=[("pkg/hnsw/hnsw.go", "			distNeighToQ := EuclidDistance(*neighborPoint, q)\n", "			distNeighToQ := EuclidDistance(*neighborPoint, q)\n			if distNeighToQ == 0 {\n				// the same point adds nothing to the graph\n				continue\n			}\n")],
 demo={"demo_test.go": '''package hnsw
import "testing"
func TestDemo(t *testing.T) {
	h := NewHnsw(2, 4, 4, Point{1, 1})
	id, err := h.InsertVector(Point{1, 1})
	if err != nil { t.Fatal(err) }
	f, err := h.Neighborhood(id)
	if err != nil { t.Fatal(err) }
	l, err := f.GetFriendsAtLevel(0)
	if err != nil || l.Len() != 1 { t.Fatal(l.Len(), err) }
}
'''}, run="gotest pkg/hnsw"),
dict(id="knn-hop-limit", property="C19", needs="a query whose way through the graph is longer than the search breadth",
 breaks="the search stops on its way and leaves out friends nearer than its answers",
 edits=[("pkg/hnsw/hnsw.go", "	for !candidatesForQ.IsEmpty() {\n", "	// the search never has to look at more candidates than it may return\n	for hops := 0; !candidatesForQ.IsEmpty() && hops <= max(numNearestToQToReturn, 16); hops++ {\n")],
 demo={"demo_test.go": '''package hnsw
import "testing"
func TestDemo(t *testing.T) {
	// a chain, all nodes at level 0
	h := NewHnsw(1, 2, 2, Point{0})
	n := 60
	for i := 1; i < n; i++ { h.points = append(h.points, &Point{float32(i)}); h.friends[Id(i)] = NewFriends(0) }
	for i := 0; i+1 < n; i++ { h.friends[Id(i)].friends[0].Insert(Id(i+1), 1); h.friends[Id(i+1)].friends[0].Insert(Id(i), 1) }
	r, err := h.KnnSearch(Point{float32(n)}, 1)
	if err != nil { t.Fatal(err) }
	x, _ := r.PeekMinItem()
	if x.id != Id(n-1) { t.Fatal(x.id) }
}
'''}, run="gotest pkg/hnsw"),
dict(id="vpage-same-friends", property="C20", needs="two vectors added one after the other that have the same friends",
 breaks="the second one's record of friends is not stored",
 edits=[("pkg/vectorpage/manager.go", "	hnsw *hnsw.Hnsw\n}\n", "	hnsw *hnsw.Hnsw\n\n	// the last record written\n	last []byte\n}\n"),
        ("pkg/vectorpage/manager.go", "	// different nodes can have equal friends, the id tells them apart\n", "	if bytes.Equal(vp.last, xfriendsBuf) {\n		// already stored\n		return nil\n	}\n	vp.last = xfriendsBuf\n\n	// different nodes can have equal friends, the id tells them apart\n"),
        ("pkg/vectorpage/manager.go", "import (\n	\"fmt\"\n", "import (\n	\"bytes\"\n	\"fmt\"\n")],
 demo={"demo_test.go": '''package vectorpage
import ("io"; "testing"; "github.com/kevmo314/appendable/pkg/bptree"; "github.com/kevmo314/appendable/pkg/btree"; "github.com/kevmo314/appendable/pkg/hnsw"; "github.com/kevmo314/appendable/pkg/linkedpage"; "github.com/kevmo314/appendable/pkg/pagefile"; "github.com/kevmo314/appendable/pkg/pointer")
''' + MEM + '''
func TestDemo(t *testing.T) {
	p, _ := pagefile.NewPageFile(&mem{})
	head, err := linkedpage.NewMultiBPTree(p, 0)
	if err != nil { t.Fatal(err) }
	a, err := head.AddNext()
	if err != nil { t.Fatal(err) }
	b, err := a.AddNext()
	if err != nil { t.Fatal(err) }
	bt := a.BTree(&btree.BTree{VectorDim: 1})
	bp := b.BPTree(&bptree.BPTree{Width: 41})
	h := hnsw.NewHnsw(1, 1, 8, hnsw.Point{0})
	m := NewVectorPageManager(bt, bp, h)
	// with breadth one both find node 0, the nearest to each
	for _, x := range []float32{1, -1, 1, -1, 2, -2} { if err := m.AddNode(hnsw.Point{x}); err != nil { t.Fatal(err) } }
	n := 0
	it, err := bp.Iter(pointer.ReferencedValue{Value: make([]byte, 40)})
	if err != nil { t.Fatal(err) }
	for it.Next() { n++ }
	if n != 6 { t.Fatal(n) }
}
'''}, run="gotest pkg/vectorpage"),
]
