package main

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"

	"github.com/kevmo314/appendable/pkg/btree"
	"github.com/kevmo314/appendable/pkg/hnsw"
	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/metapage"
	"github.com/kevmo314/appendable/pkg/mmap"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"
)

func init() { drivers["btree"] = drvBTree }

type btEnv struct {
	c    *Ctx
	t    *Trace
	ids  []uint64
	dim  int
	pg   *pager
	mr   *memRoot
	mf   *memFile
	mm   *mmap.MemoryMappedFile
	path string
	pf   pagefile.ReadWriteSeekPager
	meta metapage.MetaPage
	tree *btree.BTree
	over bool
	pre  int
	dead bool
}

func vecTok(v hnsw.Point, p pointer.MemoryPointer) string {
	if len(v) == 0 {
		return ""
	}
	s := ""
	if len(v) <= 3 {
		for _, f := range v {
			s += fmt.Sprintf("%08x", math.Float32bits(f))
		}
	} else {
		h := fnv.New64a()
		for _, f := range v {
			binary.Write(h, binary.LittleEndian, math.Float32bits(f))
		}
		s = fmt.Sprintf("%d:%x", len(v), h.Sum64())
	}
	return s + "@" + ptok(p)
}

func (r *btEnv) attach(f io.ReadWriteSeeker, fresh bool) error {
	pf, err := pagefile.NewPageFile(f)
	if err != nil {
		return err
	}
	lp, err := linkedpage.NewMultiBPTree(pf, 0)
	if err != nil {
		return err
	}
	var slot *linkedpage.LinkedPage
	if fresh {
		slot, err = lp.AddNext()
	} else {
		slot, err = lp.Next()
	}
	if err != nil {
		return err
	}
	r.pf, r.meta, r.pre = pf, slot, 2
	r.mk()
	return nil
}

func (r *btEnv) mk() { r.tree = btree.NewBTree(r.meta, r.pf, uint64(r.dim)) }

func (r *btEnv) open(kind string, psize int, base int64) {
	e := Ev{"op": "open"}
	e["res"], e["msg"] = guard(func() error {
		switch kind {
		case "small":
			r.pg = &pager{psize: psize, base: base}
			r.mr = &memRoot{}
			r.pf, r.meta = r.pg, r.mr
			r.mk()
			return nil
		case "file":
			r.path = filepath.Join(r.c.Dir, "bt-"+r.t.ID)
			os.Remove(r.path)
			m, err := mmap.OpenFile(r.path, os.O_RDWR|os.O_CREATE, 0o644)
			if err != nil {
				return err
			}
			r.mm = m
			return r.attach(m, true)
		default:
			r.mf = &memFile{}
			r.mf.onWrite = func(off int64, p []byte) error {
				if len(p) > 0 && off/pgSize != (off+int64(len(p))-1)/pgSize {
					r.over = true
				}
				return nil
			}
			return r.attach(r.mf, true)
		}
	})
	r.t.add(e)
}

func (r *btEnv) reopen() {
	e := Ev{"op": "reopen"}
	e["res"], e["msg"] = guard(func() error {
		switch {
		case r.mm != nil:
			if err := r.mm.Close(); err != nil {
				return err
			}
			m, err := mmap.OpenFile(r.path, os.O_RDWR, 0)
			if err != nil {
				return err
			}
			r.mm = m
			return r.attach(m, false)
		case r.mf != nil:
			return r.attach(r.mf, false)
		}
		r.mk()
		return nil
	})
	r.t.add(e)
}

func (r *btEnv) close() {
	if r.mm != nil {
		guard(func() error { return r.mm.Close() })
		os.Remove(r.path)
	}
}

func (r *btEnv) chk(e Ev) {
	if e["res"] == "panic" || e["res"] == "hang" {
		r.dead = true
	}
	r.t.add(e)
}

func (r *btEnv) num(id uint64) int {
	i := sort.Search(len(r.ids), func(i int) bool { return r.ids[i] >= id })
	if i < len(r.ids) && r.ids[i] == id {
		return i + 1
	}
	return -1
}

func (r *btEnv) ins(k int, p pointer.MemoryPointer, v hnsw.Point) {
	e := Ev{"op": "ins", "k": k, "p": vecTok(v, p)}
	e["res"], e["msg"] = guard(func() error {
		return r.tree.Insert(pointer.ReferencedId{Value: hnsw.Id(r.ids[k-1]), DataPointer: p}, append(hnsw.Point(nil), v...))
	})
	e["over"] = r.over || (r.pg != nil && r.pg.over)
	r.chk(e)
}

// insbad offers a vector of another dimensionality
func (r *btEnv) insbad(k int, v hnsw.Point) {
	e := Ev{"op": "insbad", "k": k, "dim": len(v)}
	e["res"], e["msg"] = guard(func() error {
		return r.tree.Insert(pointer.ReferencedId{Value: hnsw.Id(r.ids[k-1])}, v)
	})
	e["over"] = r.over || (r.pg != nil && r.pg.over)
	r.chk(e)
}

func (r *btEnv) find(k int) {
	e := Ev{"op": "find", "k": k}
	var id pointer.ReferencedId
	var v hnsw.Point
	e["res"], e["msg"] = guard(func() (err error) {
		id, v, err = r.tree.Find(pointer.ReferencedId{Value: hnsw.Id(r.ids[k-1])})
		return
	})
	e["found"], e["p"] = r.num(uint64(id.Value)), vecTok(v, id.DataPointer)
	r.chk(e)
}

func (r *btEnv) nodes() ([]Ev, error) {
	root, err := r.meta.Root()
	if err != nil {
		return nil, err
	}
	out := []Ev{}
	if root.Length == 0 {
		return out, nil
	}
	var rec func(off uint64) (int, error)
	rec = func(off uint64) (int, error) {
		if len(out) > 3000 {
			return 0, fmt.Errorf("cycle")
		}
		if _, err := r.pf.Seek(int64(off), io.SeekStart); err != nil {
			return 0, err
		}
		buf := make([]byte, r.pf.PageSize())
		if _, err := r.pf.Read(buf); err != nil {
			return 0, err
		}
		n := &btree.BTreeNode{VectorDim: uint64(r.dim)}
		if err := n.UnmarshalBinary(buf); err != nil {
			return 0, err
		}
		ks, vs, kids := []int{}, []string{}, []int{}
		for i, k := range n.Ids {
			ks = append(ks, r.num(uint64(k.Value)))
			if i < len(n.Vectors) {
				vs = append(vs, vecTok(n.Vectors[i], k.DataPointer))
			}
		}
		e := Ev{"id": fmt.Sprintf("%x", off), "leaf": n.Leaf(), "ks": ks, "vs": vs}
		out = append(out, e)
		me := len(out)
		for _, p := range n.Offsets {
			i, err := rec(p)
			if err != nil {
				return 0, err
			}
			kids = append(kids, i)
		}
		e["kids"] = kids
		return me, nil
	}
	_, err = rec(root.Offset)
	return out, err
}

func (r *btEnv) walk() {
	e := Ev{"op": "walk", "nodes": []Ev{}}
	var ns []Ev
	e["res"], e["msg"] = guard(func() (err error) { ns, err = r.nodes(); return })
	if ns != nil {
		e["nodes"] = ns
	}
	free := []string{}
	switch {
	case r.pg != nil:
		e["pages"] = len(r.pg.b) / r.pg.psize
		for _, f := range r.pg.free {
			free = append(free, fmt.Sprintf("%x", f))
		}
	case r.mm != nil:
		e["pages"] = len(r.mm.Bytes())/pgSize - r.pre
		free = freeOn(r.mm.Bytes())
	default:
		e["pages"] = len(r.mf.b)/pgSize - r.pre
		free = freeOn(r.mf.b)
	}
	e["free"] = free
	r.chk(e)
}

func (r *btEnv) setCfg(kind string, psize int) {
	ks := []Ev{}
	for _, id := range r.ids {
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], id)
		v := []int{}
		for _, x := range b {
			v = append(v, int(x))
		}
		ks = append(ks, Ev{"v": v, "o": 0, "n": 0})
	}
	r.t.Cfg = Ev{"keys": ks, "kind": kind, "dim": r.dim, "page": psize}
}

var specialF = []float32{0, float32(math.Copysign(0, -1)), 1, -1, 0.1, -2.5, 1e-45, 3.4e38, -3.4e38, float32(math.Inf(1)), float32(math.Inf(-1)), 16777216, 16777217, 1.0000001}

func rvec(rng *rand.Rand, dim int) hnsw.Point {
	v := make(hnsw.Point, dim)
	for i := range v {
		if rng.Intn(3) == 0 {
			v[i] = specialF[rng.Intn(len(specialF))]
		} else {
			v[i] = math.Float32frombits(rng.Uint32())
		}
	}
	return v
}

func randIds(rng *rand.Rand, m int) []uint64 {
	seen := map[uint64]bool{}
	how := rng.Intn(3)
	for len(seen) < m {
		switch {
		case how == 0:
			seen[uint64(len(seen))] = true
		case how == 1:
			seen[uint64(rng.Intn(4*m+1))] = true
		default:
			seen[rng.Uint64()>>uint(rng.Intn(64))] = true
			seen[bOff[rng.Intn(len(bOff))]] = true
		}
	}
	var ids []uint64
	for id := range seen {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids
}

func drvBTree(c *Ctx) {
	rng := rand.New(rand.NewSource(c.Seed + 6))
	if c.Probe {
		r := &btEnv{c: c, t: &Trace{ID: "widedim"}, dim: 600}
		r.ids = []uint64{0, 1, 2, 3, 4, 5}
		r.setCfg("mem", 0)
		r.open("mem", 0, 0)
		for k := 1; k <= len(r.ids) && !r.dead; k++ {
			r.ins(k, pointer.MemoryPointer{}, rvec(rng, r.dim))
		}
		c.Out.Emit(r.t)
		return
	}
	// every insertion order of a few ids on tiny pages
	nk := 5
	if c.Thorough {
		nk = 7
	}
	perm := rand.New(rand.NewSource(1)).Perm(nk)
	k := 0
	var gen func(i int)
	gen = func(i int) {
		if i == nk {
			r := &btEnv{c: c, t: &Trace{ID: fmt.Sprintf("p%d", k)}, dim: 1 + k%3}
			for j := 0; j < nk; j++ {
				r.ids = append(r.ids, uint64(j*j*40))
			}
			ps := 5 + (7+4*r.dim)*(3+k%2) + 12
			r.setCfg("perm", ps)
			r.open("small", ps, 0)
			for _, j := range perm {
				if r.dead {
					break
				}
				r.ins(j+1, pointer.MemoryPointer{Offset: uint64(j)}, rvec(rng, r.dim))
			}
			if !r.dead {
				r.walk()
				r.find(1 + k%nk)
			}
			k++
			c.Out.Emit(r.t)
			return
		}
		for j := i; j < nk; j++ {
			perm[i], perm[j] = perm[j], perm[i]
			gen(i + 1)
			perm[i], perm[j] = perm[j], perm[i]
		}
	}
	gen(0)
	n := 60
	if c.Thorough {
		n = 700
	}
	for i := 0; i < n; i++ {
		r := &btEnv{c: c, t: &Trace{ID: fmt.Sprintf("r%d", i)}}
		r.ids = randIds(rng, 5+rng.Intn(120))
		kind := []string{"small", "small", "small", "mem", "file"}[rng.Intn(5)]
		psize, base := 0, int64(0)
		big := true // large pointers beside the ids
		if kind == "small" {
			r.dim = []int{1, 2, 3, 5, 8, 130}[rng.Intn(6)]
			base = []int64{0, 0, 4096, 1 << 21, 1 << 32}[rng.Intn(5)]
			// room for three entries of any size
			psize = 8 + 3*(25+4*r.dim) + 40 + rng.Intn(120)
		} else {
			r.dim = []int{2, 3, 127, 128, 129, 200, 250, 300, 320}[rng.Intn(9)]
		}
		r.setCfg(kind, psize)
		r.open(kind, psize, base)
		ord := order(rng, len(r.ids), rng.Intn(4))
		skip := rng.Intn(4)
		if rng.Intn(6) == 0 {
			r.find(1)
			r.insbad(1, rvec(rng, r.dim+1-2*rng.Intn(2)))
		}
		for j, x := range ord {
			if r.dead {
				break
			}
			if skip > 0 && rng.Intn(5) < skip {
				continue
			}
			mp := pointer.MemoryPointer{}
			if big && rng.Intn(2) == 0 {
				mp = rptr(rng)
			}
			r.ins(x+1, mp, rvec(rng, r.dim))
			if r.dead {
				break
			}
			switch rng.Intn(12) {
			case 0:
				r.ins(ord[rng.Intn(j+1)]+1, rptr(rng), rvec(rng, r.dim))
			case 1, 2:
				r.find(1 + rng.Intn(len(r.ids)))
			case 3:
				r.reopen()
			case 4:
				r.walk()
			case 5:
				r.insbad(ord[rng.Intn(len(ord))]+1, rvec(rng, []int{0, r.dim - 1, r.dim + 1, 2 * r.dim, r.dim + 128}[rng.Intn(5)]))
			}
		}
		if !r.dead {
			r.reopen()
		}
		if !r.dead {
			r.walk()
			for x := range r.ids {
				if r.dead {
					break
				}
				r.find(x + 1)
			}
		}
		r.close()
		c.Out.Emit(r.t)
	}
}
