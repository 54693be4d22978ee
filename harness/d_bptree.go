package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"

	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/metapage"
	"github.com/kevmo314/appendable/pkg/mmap"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"
)

func init() {
	drivers["bptree"] = drvBPTree
	drivers["iter"] = drvIter
}

type rawParser struct{}

func (rawParser) Parse(b []byte) []byte { return b }

// keyTable is the finite universe of keys of one run, sorted by value bytes, then
// offset, then length (the specification checks that it is sorted).
type keyTable []pointer.ReferencedValue

func (t keyTable) Len() int      { return len(t) }
func (t keyTable) Swap(i, j int) { t[i], t[j] = t[j], t[i] }
func (t keyTable) Less(i, j int) bool {
	if c := bytes.Compare(t[i].Value, t[j].Value); c != 0 {
		return c < 0
	}
	if t[i].DataPointer.Offset != t[j].DataPointer.Offset {
		return t[i].DataPointer.Offset < t[j].DataPointer.Offset
	}
	return t[i].DataPointer.Length < t[j].DataPointer.Length
}

func mkTable(ks []pointer.ReferencedValue) keyTable {
	t := keyTable(ks)
	sort.Sort(t)
	out := t[:0]
	for i, k := range t {
		if i > 0 && !t.Less(i-1, i) {
			continue
		}
		out = append(out, k)
	}
	return append(keyTable(nil), out...)
}

func rankU64(vs []uint64) map[uint64]int {
	s := append([]uint64(nil), vs...)
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	m := map[uint64]int{}
	for _, v := range s {
		if _, ok := m[v]; !ok {
			m[v] = len(m)
		}
	}
	return m
}

func (t keyTable) cfg() []Ev {
	var os, ns []uint64
	for _, k := range t {
		os = append(os, k.DataPointer.Offset)
		ns = append(ns, uint64(k.DataPointer.Length))
	}
	ro, rn := rankU64(os), rankU64(ns)
	out := []Ev{}
	for _, k := range t {
		v := []int{}
		for _, b := range k.Value {
			v = append(v, int(b))
		}
		out = append(out, Ev{"v": v, "o": ro[k.DataPointer.Offset], "n": rn[uint64(k.DataPointer.Length)]})
	}
	return out
}

// num is the number of a key read back from a tree: 0 for none, -1 for unknown.
func (t keyTable) num(k pointer.ReferencedValue) int {
	for i, x := range t {
		if bytes.Equal(x.Value, k.Value) && x.DataPointer == k.DataPointer {
			return i + 1
		}
	}
	return -1
}

func ptok(p pointer.MemoryPointer) string { return fmt.Sprintf("%x:%x", p.Offset, p.Length) }

// bpEnv is one tree in one kind of storage.
type bpEnv struct {
	c      *Ctx
	t      *Trace
	keys   keyTable
	data   []byte
	width  uint16
	parser bptree.DataParser
	// storage
	pg   *pager
	mr   *memRoot
	mf   *memFile
	mm   *mmap.MemoryMappedFile
	path string
	pf   pagefile.ReadWriteSeekPager
	meta metapage.MetaPage
	tree *bptree.BPTree
	over bool
	pre  int // pages of the file not belonging to the tree
	dead bool
}

func (r *bpEnv) mk() {
	r.tree = &bptree.BPTree{PageFile: r.pf, MetaPage: r.meta, Data: r.data, DataParser: r.parser, Width: r.width}
}

// storage kinds: "small" (custom pager), "mem" and "file" (the real page file).
func (r *bpEnv) open(kind string, psize int, base int64) {
	e := Ev{"op": "open"}
	e["res"], e["msg"] = guard(func() error {
		switch kind {
		case "small":
			r.pg = &pager{psize: psize, base: base}
			r.mr = &memRoot{}
			r.pf, r.meta = r.pg, r.mr
			r.mk()
			return nil
		case "file":
			r.path = filepath.Join(r.c.Dir, "bp-"+r.t.ID)
			os.Remove(r.path)
			m, err := mmap.OpenFile(r.path, os.O_RDWR|os.O_CREATE, 0o644)
			if err != nil {
				return err
			}
			r.mm = m
			return r.attach(m, true)
		default:
			r.mf = &memFile{}
			r.mf.onWrite = func(off int64, p []byte) error {
				if len(p) > 0 && off/pgSize != (off+int64(len(p))-1)/pgSize {
					r.over = true
				}
				return nil
			}
			return r.attach(r.mf, true)
		}
	})
	r.t.add(e)
}

func (r *bpEnv) attach(f io.ReadWriteSeeker, fresh bool) error {
	pf, err := pagefile.NewPageFile(f)
	if err != nil {
		return err
	}
	lp, err := linkedpage.NewMultiBPTree(pf, 0)
	if err != nil {
		return err
	}
	var slot *linkedpage.LinkedPage
	if fresh {
		slot, err = lp.AddNext()
	} else {
		slot, err = lp.Next()
	}
	if err != nil {
		return err
	}
	r.pf, r.meta, r.pre = pf, slot, 2
	r.mk()
	return nil
}

func (r *bpEnv) reopen() {
	e := Ev{"op": "reopen"}
	e["res"], e["msg"] = guard(func() error {
		switch {
		case r.mm != nil:
			if err := r.mm.Close(); err != nil {
				return err
			}
			m, err := mmap.OpenFile(r.path, os.O_RDWR, 0)
			if err != nil {
				return err
			}
			r.mm = m
			return r.attach(m, false)
		case r.mf != nil:
			return r.attach(r.mf, false)
		}
		r.mk()
		return nil
	})
	r.t.add(e)
}

func (r *bpEnv) close() {
	if r.mm != nil {
		guard(func() error { return r.mm.Close() })
		os.Remove(r.path)
	}
}

func (r *bpEnv) overflow() bool {
	o := r.over || (r.pg != nil && r.pg.over)
	return o
}

func (r *bpEnv) chk(e Ev) {
	if e["res"] == "panic" || e["res"] == "hang" {
		r.dead = true
	}
	r.t.add(e)
}

func (r *bpEnv) ins(k int, p pointer.MemoryPointer) string {
	key := r.keys[k-1]
	// the caller's slice must stay the caller's: hand over a copy and check it later
	v := append([]byte{}, key.Value...)
	e := Ev{"op": "ins", "k": k, "p": ptok(p)}
	e["res"], e["msg"] = guard(func() error {
		return r.tree.Insert(pointer.ReferencedValue{Value: v, DataPointer: key.DataPointer}, p)
	})
	e["over"] = r.overflow()
	r.chk(e)
	return e["res"].(string)
}

func (r *bpEnv) insbad(v []byte) {
	e := Ev{"op": "insbad", "k": 0}
	e["res"], e["msg"] = guard(func() error {
		return r.tree.Insert(pointer.ReferencedValue{Value: v}, pointer.MemoryPointer{Offset: 1, Length: 1})
	})
	e["over"] = r.overflow()
	r.chk(e)
}

func (r *bpEnv) find(k int) {
	e := Ev{"op": "find", "k": k, "found": 0, "p": ""}
	var fk pointer.ReferencedValue
	var fp pointer.MemoryPointer
	e["res"], e["msg"] = guard(func() (err error) { fk, fp, err = r.tree.Find(r.keys[k-1]); return })
	if fk.Value != nil || fk.DataPointer != (pointer.MemoryPointer{}) || fp != (pointer.MemoryPointer{}) {
		e["found"], e["p"] = r.keys.num(fk), ptok(fp)
	}
	r.chk(e)
}

func (r *bpEnv) has(k int) {
	e := Ev{"op": "has", "k": k}
	var b bool
	e["res"], e["msg"] = guard(func() (err error) { b, err = r.tree.Contains(r.keys[k-1]); return })
	e["b"] = b
	r.chk(e)
}

// nodes reads the stored tree page by page from its root.
func (r *bpEnv) nodes() ([]Ev, error) {
	root, err := r.meta.Root()
	if err != nil {
		return nil, err
	}
	out := []Ev{}
	if root.Length == 0 {
		return out, nil
	}
	var rec func(off uint64) (int, error)
	rec = func(off uint64) (int, error) {
		if len(out) > 3000 {
			return 0, fmt.Errorf("cycle")
		}
		if _, err := r.pf.Seek(int64(off), io.SeekStart); err != nil {
			return 0, err
		}
		buf := make([]byte, r.pf.PageSize())
		if _, err := r.pf.Read(buf); err != nil {
			return 0, err
		}
		n := &bptree.BPTreeNode{Data: r.data, DataParser: r.parser, Width: r.width}
		if err := n.UnmarshalBinary(buf); err != nil {
			return 0, err
		}
		ks, vs, kids := []int{}, []string{}, []int{}
		for _, k := range n.Keys {
			ks = append(ks, r.keys.num(k))
		}
		for _, p := range n.LeafPointers {
			vs = append(vs, ptok(p))
		}
		e := Ev{"id": fmt.Sprintf("%x", off), "leaf": n.Leaf(), "ks": ks, "vs": vs}
		out = append(out, e)
		me := len(out)
		for _, p := range n.InternalPointers {
			i, err := rec(p)
			if err != nil {
				return 0, err
			}
			kids = append(kids, i)
		}
		e["kids"] = kids
		return me, nil
	}
	_, err = rec(root.Offset)
	return out, err
}

// freeOn lists the free pages of a page file.
func freeOn(b []byte) []string {
	free := []string{}
	for i := 0; i+8 <= len(b) && i < pgSize; i += 8 {
		if o := binary.LittleEndian.Uint64(b[i:]); o != 0 {
			free = append(free, fmt.Sprintf("%x", o))
		}
	}
	return free
}

func (r *bpEnv) walk() {
	e := Ev{"op": "walk", "nodes": []Ev{}, "pages": 0}
	var ns []Ev
	e["res"], e["msg"] = guard(func() (err error) { ns, err = r.nodes(); return })
	if ns != nil {
		e["nodes"] = ns
	}
	free := []string{}
	switch {
	case r.pg != nil:
		e["pages"] = len(r.pg.b) / r.pg.psize
		for _, f := range r.pg.free {
			free = append(free, fmt.Sprintf("%x", f))
		}
	case r.mm != nil:
		e["pages"] = len(r.mm.Bytes())/pgSize - r.pre
		free = freeOn(r.mm.Bytes())
	default:
		e["pages"] = len(r.mf.b)/pgSize - r.pre
		free = freeOn(r.mf.b)
	}
	e["free"] = free
	r.chk(e)
}

var bOff = []uint64{0, 1, 127, 128, 129, 16383, 16384, 1<<21 - 1, 1 << 21, 1<<28 - 1, 1 << 28, 1<<32 - 1, 1 << 32, 1<<35 + 5, 1 << 42, 1<<63 - 1, 1<<63 + 9, 1<<64 - 1}
var bLen = []uint32{0, 1, 127, 128, 16383, 16384, 1<<21 - 1, 1 << 21, 1<<28 + 1, 1<<31 + 1, 1<<32 - 1}

func rptr(rng *rand.Rand) pointer.MemoryPointer {
	switch rng.Intn(3) {
	case 0:
		return pointer.MemoryPointer{Offset: bOff[rng.Intn(len(bOff))], Length: bLen[rng.Intn(len(bLen))]}
	case 1:
		return pointer.MemoryPointer{Offset: uint64(rng.Intn(5000)), Length: uint32(1 + rng.Intn(300))}
	}
	return pointer.MemoryPointer{Offset: rng.Uint64() >> uint(rng.Intn(60)), Length: rng.Uint32() >> uint(rng.Intn(31))}
}

// inlineKeys makes m keys of a fixed-width index: width-1 bytes each.
func inlineKeys(rng *rand.Rand, m, vlen int) keyTable {
	var ks []pointer.ReferencedValue
	alpha := []byte{0, 1, 0x61, 0x62, 0x7f, 0x80, 0xff}
	for len(ks) < m {
		v := make([]byte, vlen)
		for i := range v {
			if i < 3 || i >= vlen-2 {
				v[i] = alpha[rng.Intn(len(alpha))]
			}
		}
		dp := rptr(rng)
		if rng.Intn(3) == 0 && len(ks) > 0 { // same value, other place
			v = ks[rng.Intn(len(ks))].Value
		}
		ks = append(ks, pointer.ReferencedValue{Value: v, DataPointer: dp})
		if rng.Intn(6) == 0 { // a query at the very start of a value
			ks = append(ks, pointer.ReferencedValue{Value: v})
		}
	}
	return mkTable(ks)
}

// refKeys makes m keys whose values live in the data file.
func refKeys(rng *rand.Rand, m int, pad int) (keyTable, []byte) {
	var ks []pointer.ReferencedValue
	data := make([]byte, rng.Intn(40))
	alpha := []byte("ab\x00\xffAz")
	for len(ks) < m {
		n := rng.Intn(6)
		v := make([]byte, n)
		for i := range v {
			v[i] = alpha[rng.Intn(len(alpha))]
		}
		off := uint64(len(data))
		data = append(data, v...)
		data = append(data, make([]byte, rng.Intn(pad+1))...)
		ks = append(ks, pointer.ReferencedValue{Value: v, DataPointer: pointer.MemoryPointer{Offset: off, Length: uint32(n)}})
	}
	return mkTable(ks), data
}

func order(rng *rand.Rand, n, how int) []int {
	p := rng.Perm(n)
	switch how {
	case 1:
		sort.Ints(p)
	case 2:
		sort.Sort(sort.Reverse(sort.IntSlice(p)))
	case 3: // outside in
		sort.Ints(p)
		q := []int{}
		for i, j := 0, n-1; i <= j; i, j = i+1, j-1 {
			q = append(q, p[i])
			if i != j {
				q = append(q, p[j])
			}
		}
		p = q
	}
	return p
}

// newEnv builds a random kind of tree with m keys in its universe.
func newEnv(c *Ctx, rng *rand.Rand, id string, m int) *bpEnv {
	r := &bpEnv{c: c, t: &Trace{ID: id}, parser: rawParser{}}
	kind := []string{"small", "small", "small", "mem", "file"}[rng.Intn(5)]
	psize, base := 0, int64(0)
	if kind == "small" {
		base = []int64{0, 0, 4096, 1 << 14, 1 << 21, 1 << 32, 1 << 40}[rng.Intn(7)]
		switch rng.Intn(2) {
		case 0:
			r.keys, r.data = refKeys(rng, m, []int{0, 20, 700}[rng.Intn(3)])
			psize = 80 + rng.Intn(100)
		case 1:
			vlen := []int{0, 1, 2, 3, 8}[rng.Intn(5)]
			r.width = uint16(vlen + 1)
			r.keys = inlineKeys(rng, m, vlen)
			psize = 128 + 3*vlen + rng.Intn(100)
		}
	} else {
		vlen := []int{300, 700, 1000, 1300, 1990}[rng.Intn(5)]
		r.width = uint16(vlen + 1)
		r.keys = inlineKeys(rng, m, vlen)
	}
	r.setCfg(kind, psize)
	r.open(kind, psize, base)
	return r
}

func (r *bpEnv) setCfg(kind string, psize int) {
	cf := r.keys.cfg()
	if r.width > 100 { // long values are zero in the middle: keep the ends only
		for _, k := range cf {
			v := k["v"].([]int)
			k["v"] = append(append([]int{}, v[:3]...), v[len(v)-2:]...)
		}
	}
	r.t.Cfg = Ev{"keys": cf, "kind": kind, "width": int(r.width), "page": psize}
}

func drvBPTree(c *Ctx) {
	rng := rand.New(rand.NewSource(c.Seed))
	if c.Probe { // the known finding bptree-widekey
		r := &bpEnv{c: c, t: &Trace{ID: "widekey"}, parser: rawParser{}, width: 3001}
		r.keys = inlineKeys(rng, 5, 3000)
		r.setCfg("mem", 0)
		r.open("mem", 0, 0)
		for k := 1; k <= len(r.keys) && !r.dead; k++ {
			r.ins(k, pointer.MemoryPointer{Offset: uint64(k)})
		}
		c.Out.Emit(r.t)
		return
	}
	// 1. every insertion order of few keys, pages of few keys
	nk := 6
	if c.Thorough {
		nk = 7
	}
	perm := make([]int, nk)
	for i := range perm {
		perm[i] = i
	}
	k := 0
	var gen func(i int)
	gen = func(i int) {
		if i == nk {
			r := &bpEnv{c: c, t: &Trace{ID: fmt.Sprintf("p%d", k)}, parser: rawParser{}, width: 2}
			k++
			var ks []pointer.ReferencedValue
			for j := 0; j < nk; j++ {
				ks = append(ks, pointer.ReferencedValue{Value: []byte{byte('a' + j/2)}, DataPointer: pointer.MemoryPointer{Offset: uint64(10 * j), Length: 1}})
			}
			r.keys = mkTable(ks)
			r.t.Cfg = Ev{"keys": r.keys.cfg(), "kind": "perm", "width": 2, "page": 0}
			r.open("small", []int{16, 19, 24}[k%3], 0) // 2, 3 or 4 keys per leaf
			for _, j := range perm {
				if r.ins(j+1, pointer.MemoryPointer{Offset: uint64(j), Length: 3}) != "ok" {
					break
				}
			}
			if !r.dead {
				r.walk()
				r.find(1 + k%nk)
				r.has(1 + k%nk)
			}
			c.Out.Emit(r.t)
			return
		}
		for j := i; j < nk; j++ {
			perm[i], perm[j] = perm[j], perm[i]
			gen(i + 1)
			perm[i], perm[j] = perm[j], perm[i]
		}
	}
	gen(0)
	// 2. random universes and orders, all kinds of storage
	n := 70
	if c.Thorough {
		n = 800
	}
	for i := 0; i < n; i++ {
		m := 5 + rng.Intn(120)
		r := newEnv(c, rng, fmt.Sprintf("r%d", i), m)
		// some keys of the universe are only ever asked for
		ord := order(rng, len(r.keys), rng.Intn(4))
		skip := rng.Intn(4)
		if rng.Intn(8) == 0 { // queries of an empty tree
			for j := 0; j < 3; j++ {
				r.find(1 + rng.Intn(len(r.keys)))
				r.has(1 + rng.Intn(len(r.keys)))
			}
		}
		for j, x := range ord {
			if r.dead {
				break
			}
			if skip > 0 && rng.Intn(5) < skip {
				continue
			}
			r.ins(x+1, rptr(rng))
			switch rng.Intn(14) {
			case 0:
				if !r.dead {
					r.ins(ord[rng.Intn(j+1)]+1, rptr(rng)) // often a duplicate
				}
			case 1:
				r.find(1 + rng.Intn(len(r.keys)))
			case 2:
				r.has(1 + rng.Intn(len(r.keys)))
			case 3:
				r.reopen()
			case 4:
				r.walk()
			case 5:
				if r.width > 0 {
					bad := int(r.width-1) + []int{-1, 1, 5, -int(r.width - 1), 256, 65536}[rng.Intn(6)]
					if bad >= 0 && bad != int(r.width-1) {
						r.insbad(make([]byte, bad))
					}
				}
			}
		}
		if !r.dead {
			r.reopen()
		}
		if !r.dead {
			r.walk()
			for x := range r.keys {
				if r.dead {
					break
				}
				r.find(x + 1)
				if rng.Intn(3) == 0 && !r.dead {
					r.has(x + 1)
				}
			}
		}
		r.close()
		c.Out.Emit(r.t)
	}
}

// drvIter: iterators over stored trees. What is stored is read by walking the
// leaves, so that a trace judges iteration alone.
func drvIter(c *Ctx) {
	rng := rand.New(rand.NewSource(c.Seed + 77))
	n := 160
	if c.Thorough {
		n = 2000
	}
	for i := 0; i < n; i++ {
		m := rng.Intn(60)
		if i%10 == 0 {
			m = rng.Intn(4)
		}
		r := newEnv(c, rng, fmt.Sprintf("i%d", i), m+1)
		r.t.Ev = nil
		for _, x := range order(rng, len(r.keys), rng.Intn(4)) {
			if m == 0 || rng.Intn(4) == 0 {
				continue
			}
			r.ins(x+1, rptr(rng))
			if r.dead {
				break
			}
		}
		r.t.Ev = nil
		var ns []Ev
		res, _ := guard(func() (err error) { ns, err = r.nodes(); return })
		if res != "ok" || r.dead { // the tree itself is broken: not this property
			r.close()
			continue
		}
		seq := [][]any{}
		okseq := true
		last := 0
		for _, e := range ns { // preorder: leaves come in key order
			if e["leaf"].(bool) {
				vs := e["vs"].([]string)
				for j, k := range e["ks"].([]int) {
					if k <= last || j >= len(vs) {
						okseq = false
						break
					}
					last = k
					seq = append(seq, []any{k, vs[j]})
				}
			}
		}
		if !okseq {
			r.close()
			continue
		}
		r.t.Cfg["seq"] = seq
		var it *bptree.TraversalIterator
		faults := []int{0, 10, 40}[rng.Intn(3)] // of a hundred steps
		step := func(op string) {
			e := Ev{"op": op, "b": false, "k": 0, "p": "", "fault": false}
			if r.pg != nil && rng.Intn(100) < faults {
				// one access of this step fails
				at := rng.Intn(5)
				f := func(string) error {
					if at--; at < 0 {
						if e["fault"] == false {
							e["fault"] = true
							return errInjected
						}
					}
					return nil
				}
				r.pg.fault, r.mr.fault = f, f
				defer func() { r.pg.fault, r.mr.fault = nil, nil }()
			}
			var b bool
			e["res"], e["msg"] = guard(func() error {
				if op == "next" {
					b = it.Next()
				} else {
					b = it.Prev()
				}
				if !b {
					return it.Err()
				}
				e["k"] = r.keys.num(it.Key())
				e["p"] = ptok(it.Pointer())
				return nil
			})
			e["b"] = b
			r.chk(e)
		}
		start := func(k int) {
			e := Ev{"op": "iter", "k": k}
			e["res"], e["msg"] = guard(func() (err error) { it, err = r.tree.Iter(r.keys[k-1]); return })
			r.chk(e)
		}
		ln := len(seq)
		// full scans in both directions with overruns at the ends
		for _, k := range []int{1, len(r.keys), 1 + rng.Intn(len(r.keys))} {
			for _, op := range []string{"next", "prev"} {
				other := map[string]string{"next": "prev", "prev": "next"}[op]
				start(k)
				for j := 0; j < ln+2 && !r.dead; j++ {
					step(op)
				}
				for j := 0; j < ln+3 && !r.dead; j++ {
					step(other)
				}
			}
		}
		// from every key a few random steps
		for k := 1; k <= len(r.keys) && !r.dead; k++ {
			start(k)
			bias := 1 + rng.Intn(3)
			for j := 0; j < 6 && !r.dead; j++ {
				step([]string{"next", "prev"}[btoi(rng.Intn(4) < bias)])
			}
		}
		// long random walks
		for w := 0; w < 2 && !r.dead; w++ {
			start(1 + rng.Intn(len(r.keys)))
			op := "next"
			for j := 0; j < 2*ln+5 && !r.dead; j++ {
				if rng.Intn(7) == 0 {
					op = map[string]string{"next": "prev", "prev": "next"}[op]
				}
				step(op)
			}
		}
		r.close()
		c.Out.Emit(r.t)
	}
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}
