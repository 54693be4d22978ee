package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"sort"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"
)

func sorted(s []string) []string { sort.Strings(s); return s }

type dEnt struct {
	v        []byte
	o, n     uint64
	ro, rn   uint64
	reachKey int
}

type dIdx struct {
	name  string
	t, w  int
	total uint64
	ents  []dEnt
	slot  *linkedpage.LinkedPage
}

type dDump struct {
	off, entries uint64
	idx          []dIdx
	pages        map[uint64]bool // pages of the trees
	pf           *pagefile.PageFile
}

// dumpIndex reads everything an index file holds: the file record, the catalogue and
// every stored entry, leaf by leaf, without using the iterator.
func dumpIndex(f io.ReadWriteSeeker, data []byte, parser bptree.DataParser) (*dDump, error) {
	pf, err := pagefile.NewPageFile(f)
	if err != nil {
		return nil, err
	}
	lp, err := linkedpage.NewMultiBPTree(pf, 0)
	if err != nil {
		return nil, err
	}
	all, err := lp.Collect()
	if err != nil {
		return nil, err
	}
	d := &dDump{pages: map[uint64]bool{}, pf: pf}
	if len(all) == 0 {
		return d, nil
	}
	fm := &appendable.FileMeta{}
	if b, err := all[0].Metadata(); err != nil {
		return nil, err
	} else if len(b) > 0 { // killed before the file record was written: nothing is indexed
		if err := fm.UnmarshalBinary(b); err != nil {
			return nil, err
		}
	}
	d.off, d.entries = fm.ReadOffset, fm.Entries
	for _, s := range all[1:] {
		b, err := s.Metadata()
		if err != nil {
			return nil, err
		}
		if len(b) == 0 { // a slot allocated but never named holds nothing
			continue
		}
		im := &appendable.IndexMeta{}
		if err := im.UnmarshalBinary(b); err != nil {
			return nil, err
		}
		x := dIdx{name: im.FieldName, t: int(im.FieldType), w: int(im.Width), total: im.TotalFieldValueLength, slot: s}
		root, err := s.Root()
		if err != nil {
			return nil, err
		}
		if root.Length != 0 {
			width := im.Width
			if _, csv := parser.(handlers.CSVHandler); csv { // its trees hold references only
				width = 0
			}
			if err := d.tree(pf, root.Offset, data, parser, width, &x.ents); err != nil {
				return nil, err
			}
		}
		d.idx = append(d.idx, x)
	}
	return d, nil
}

func readBPNode(pf pagefile.ReadWriteSeekPager, off uint64, data []byte, parser bptree.DataParser, width uint16) (*bptree.BPTreeNode, error) {
	if _, err := pf.Seek(int64(off), io.SeekStart); err != nil {
		return nil, err
	}
	buf := make([]byte, pf.PageSize())
	if _, err := io.ReadFull(pf, buf); err != nil {
		return nil, err
	}
	n := &bptree.BPTreeNode{Data: data, DataParser: parser, Width: width}
	if err := n.UnmarshalBinary(buf); err != nil {
		return nil, err
	}
	return n, nil
}

func (d *dDump) tree(pf *pagefile.PageFile, off uint64, data []byte, parser bptree.DataParser, width uint16, out *[]dEnt) error {
	if d.pages[off] {
		return fmt.Errorf("page %d is reached twice", off)
	}
	d.pages[off] = true
	n, err := readBPNode(pf, off, data, parser, width)
	if err != nil {
		return err
	}
	if n.Leaf() {
		for i, k := range n.Keys {
			p := n.LeafPointers[i]
			*out = append(*out, dEnt{v: append([]byte{}, k.Value...), o: k.DataPointer.Offset, n: uint64(k.DataPointer.Length), ro: p.Offset, rn: uint64(p.Length)})
		}
		return nil
	}
	for _, p := range n.InternalPointers {
		if err := d.tree(pf, p, data, parser, width, out); err != nil {
			return err
		}
	}
	return nil
}

func (d *dDump) ev() []Ev {
	out := []Ev{}
	for _, x := range d.idx {
		es := []Ev{}
		for _, e := range x.ents {
			es = append(es, Ev{"v": ints(e.v), "o": int(e.o), "n": int(e.n), "ro": int(e.ro), "rn": int(e.rn)})
		}
		out = append(out, Ev{"n": x.name, "t": x.t, "w": x.w, "total": int(x.total), "es": es})
	}
	return out
}

// digest identifies the content: catalogue, totals and entries (not how they are stored).
func (d *dDump) digest() string {
	h := sha256.New()
	for _, x := range d.idx {
		fmt.Fprintf(h, "[%q %d %d %d\n", x.name, x.t, x.w, x.total)
		for _, e := range x.ents {
			fmt.Fprintf(h, "%x %d %d %d %d\n", e.v, e.o, e.n, e.ro, e.rn)
		}
	}
	return hex.EncodeToString(h.Sum(nil)[:8])
}

// keys are the entries as strings, one set for the whole file.
func (d *dDump) keys() map[string]bool {
	out := map[string]bool{}
	for _, x := range d.idx {
		for _, e := range x.ents {
			out[fmt.Sprintf("%q/%d\x01%x@%d+%d>%d+%d", x.name, x.t, e.v, e.o, e.n, e.ro, e.rn)] = true
		}
	}
	return out
}

// lookup asks the index for a value the way users do: an iterator from the value on.
func lookup(slot *linkedpage.LinkedPage, data []byte, parser bptree.DataParser, width int, v []byte) ([]pointer.MemoryPointer, error) {
	t := slot.BPTree(&bptree.BPTree{Data: data, DataParser: parser, Width: uint16(width)})
	it, err := t.Iter(pointer.ReferencedValue{Value: v})
	if err != nil {
		return nil, err
	}
	var out []pointer.MemoryPointer
	for it.Next() {
		if string(it.Key().Value) != string(v) {
			break
		}
		out = append(out, it.Pointer())
		if len(out) > 100000 {
			return nil, fmt.Errorf("endless")
		}
	}
	return out, it.Err()
}

func mustJSON(v any) string { b, _ := json.Marshal(v); return string(b) }
