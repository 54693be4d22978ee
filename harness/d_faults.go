package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"slices"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/btree"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/pkg/hnsw"
	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"
	"github.com/kevmo314/appendable/pkg/vectorpage"
)

func init() { drivers["faults"] = drvFaults }

var errInjected = errors.New("injected storage fault")

// faulty counts the accesses of one operation and fails the k-th.
type faulty struct {
	n, k, wrote int
	kind        string
	fired       bool
}

func (f *faulty) access(kind string) error {
	f.n++
	if f.k > 0 && f.n == f.k {
		f.fired, f.kind = true, kind
		return errInjected
	}
	if kind == "write" || kind == "setroot" || kind == "newpage" || kind == "freepage" {
		if !f.fired {
			f.wrote++
		}
	}
	return nil
}

// fstore is the storage of one fault experiment: the real page file over memory, or
// the small pager with a root of its own.
type fstore struct {
	mf  *memFile
	pg  *pager
	mr  *memRoot
	mr2 *memRoot // of a second tree
}

func (s *fstore) clone() *fstore {
	c := &fstore{}
	if s.mf != nil {
		c.mf = s.mf.clone()
	}
	if s.pg != nil {
		c.pg = &pager{base: s.pg.base, psize: s.pg.psize, b: append([]byte(nil), s.pg.b...), free: slices.Clone(s.pg.free)}
		c.mr = &memRoot{mp: s.mr.mp}
		if s.mr2 != nil {
			c.mr2 = &memRoot{mp: s.mr2.mp}
		}
	}
	return c
}

func (s *fstore) arm(f *faulty) {
	if s.mf != nil {
		s.mf.onRead = func(int64, int) error { return f.access("read") }
		s.mf.onSeek = func(int64, int) error { return f.access("seek") }
		s.mf.onWrite = func(int64, []byte) error { return f.access("write") }
	}
	if s.pg != nil {
		s.pg.fault = f.access
		s.mr.fault = f.access
		if s.mr2 != nil {
			s.mr2.fault = f.access
		}
	}
}

func (s *fstore) disarm() {
	if s.mf != nil {
		s.mf.onRead, s.mf.onSeek, s.mf.onWrite = nil, nil, nil
	}
	if s.pg != nil {
		s.pg.fault, s.mr.fault = nil, nil
		if s.mr2 != nil {
			s.mr2.fault = nil
		}
	}
}

func (s *fstore) same(o *fstore) bool {
	if s.mf != nil {
		return bytes.Equal(s.mf.b, o.mf.b)
	}
	return bytes.Equal(s.pg.b, o.pg.b) && s.mr.mp == o.mr.mp && (s.mr2 == nil || s.mr2.mp == o.mr2.mp) && slices.Equal(s.pg.free, o.pg.free)
}

// fop is one operation: prep opens what the operation works on (no faults there),
// run is the operation itself.
type fop struct {
	name string
	ro   bool
	st   *fstore
	prep func(s *fstore) (any, error)
	run  func(s *fstore, h any) (string, error)
	held func(s *fstore, h any) (string, error) // what the store holds, asked without faults
	more func(s *fstore, h any) error           // the operation again, if need be, and others after it
}

func (c *Ctx) runFop(id string, o fop, cap int, rng *rand.Rand) {
	t := &Trace{ID: id, Cfg: Ev{"name": o.name, "ro": o.ro}}
	var h any
	exec := func(s *fstore, k int) (Ev, *faulty) {
		f := &faulty{k: k}
		h = nil
		if o.prep != nil {
			var err error
			if h, err = o.prep(s); err != nil {
				return nil, nil
			}
		}
		e := Ev{}
		var ans string
		before := s.clone()
		s.arm(f)
		e["res"], e["msg"] = guard(func() (err error) { ans, err = o.run(s, h); return })
		s.disarm()
		e["ans"], e["same"] = ans, s.same(before)
		return e, f
	}
	// what the store holds, opened anew
	held := func(s *fstore) string {
		if o.held == nil {
			return "?"
		}
		ans := ""
		s = s.clone()
		res, msg := guard(func() error {
			h, err := o.prep(s)
			if err != nil {
				return err
			}
			ans, err = o.held(s, h)
			return err
		})
		if res != "ok" {
			return res + ": " + msg
		}
		return ans
	}
	s := o.st.clone()
	old := held(s)
	e, f := exec(s, 0)
	new := held(s)
	if e == nil || e["res"] != "ok" { // not this property
		return
	}
	// what it holds in the end, with the same handles or others
	later := func(s *fstore, again bool) string {
		if o.more == nil {
			return ""
		}
		res, msg := guard(func() (err error) {
			if again {
				if h, err = o.prep(s); err != nil {
					return err
				}
			}
			return o.more(s, h)
		})
		if res != "ok" {
			return res + ": " + msg
		}
		return held(s)
	}
	end := later(s, false)
	e["op"] = "base"
	t.add(e)
	ks := []int{}
	for k := 1; k <= f.n; k++ {
		ks = append(ks, k)
	}
	if len(ks) > cap {
		rng.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		ks = ks[:cap]
	}
	for _, k := range ks {
		s := o.st.clone()
		e, f := exec(s, k)
		if e == nil {
			continue
		}
		e["op"], e["k"], e["kind"], e["fired"], e["wrote"], e["again"] = "fault", k, f.kind, f.fired, f.wrote, ""
		if o.ro {
			if e2, _ := exec(s, 0); e2 != nil && e2["res"] == "ok" {
				e["again"] = e2["ans"]
			} else {
				e["again"] = "broken"
			}
		}
		e["held"] = "other"
		switch now := held(s); {
		case now == old:
			e["held"] = "before"
		case now == new:
			e["held"] = "after"
		}
		e["later"] = e["res"] == "hang" || later(s, k%2 == 0) == end
		t.add(e)
		if e["res"] == "hang" {
			break
		}
	}
	c.Out.Emit(t)
}

func drvFaults(c *Ctx) {
	rng := rand.New(rand.NewSource(c.Seed + 5))
	rounds, cap := 6, 40
	if c.Thorough {
		rounds, cap = 60, 400
	}
	for r := 0; r < rounds; r++ {
		faultsTree(c, rng, r, cap)
		faultsVec(c, rng, r, cap)
		faultsFile(c, rng, r, cap)
		faultsIndex(c, rng, r, cap)
	}
}

func faultsTree(c *Ctx, rng *rand.Rand, round, cap int) {
	// a tree on small pages with a root of its own, and one in the real page file
	for kind := 0; kind < 2; kind++ {
		vlen := 2
		if kind == 1 {
			vlen = 700
		}
		keys := inlineKeys(rng, 48, vlen)
		st := &fstore{}
		if kind == 0 {
			st.pg, st.mr = &pager{psize: 150}, &memRoot{}
		} else {
			st.mf = &memFile{}
		}
		open := func(s *fstore) (any, error) {
			t := &bptree.BPTree{DataParser: rawParser{}, Width: uint16(vlen + 1)}
			if s.pg != nil {
				t.PageFile, t.MetaPage = s.pg, s.mr
				return t, nil
			}
			pf, err := pagefile.NewPageFile(s.mf)
			if err != nil {
				return nil, err
			}
			lp, err := linkedpage.NewMultiBPTree(pf, 0)
			if err != nil {
				return nil, err
			}
			slot, err := lp.Next()
			if err == io.EOF {
				slot, err = lp.AddNext()
			}
			if err != nil {
				return nil, err
			}
			return slot.BPTree(t), nil
		}
		n := []int{0, 1, 9, len(keys) - 16}[rng.Intn(4)]
		if round < 3 {
			n = len(keys) - 16
		}
		perm := rng.Perm(len(keys))
		put := func(h any, x int) error {
			return h.(*bptree.BPTree).Insert(keys[x], pointer.MemoryPointer{Offset: uint64(x), Length: 3})
		}
		if round == 1 || round == 2 { // the next insertion splits a leaf of several
			m := 20
			guard(func() error {
				y := st.clone()
				h, err := open(y)
				if err != nil {
					return err
				}
				size := func() int {
					if y.pg != nil {
						return len(y.pg.b)
					}
					return len(y.mf.b)
				}
				for i, x := range perm[:len(perm)-12] {
					was := size()
					if err := put(h, x); err != nil {
						return err
					}
					if i > 16 && size() > was {
						m = i
					}
				}
				return nil
			})
			n = m
		}
		ok := true
		func() {
			res, _ := guard(func() error {
				h, err := open(st)
				if err != nil {
					return err
				}
				for _, x := range perm[:n] {
					if err := put(h, x); err != nil {
						return err
					}
				}
				return nil
			})
			ok = res == "ok"
		}()
		if !ok {
			continue
		}
		q := keys[rng.Intn(len(keys))]
		pt := func(k pointer.ReferencedValue, p pointer.MemoryPointer) string {
			return fmt.Sprint(keys.num(k), ptok(p))
		}
		scan := func(fwd bool) func(s *fstore, h any) (string, error) {
			return func(s *fstore, h any) (string, error) {
				k := keys[0]
				if !fwd {
					k = keys[len(keys)-1]
				}
				it, err := h.(*bptree.BPTree).Iter(k)
				if err != nil {
					return "", err
				}
				out := ""
				for i := 0; i < 200; i++ {
					var b bool
					if fwd {
						b = it.Next()
					} else {
						b = it.Prev()
					}
					if !b {
						break
					}
					out += pt(it.Key(), it.Pointer()) + " "
				}
				return out, it.Err()
			}
		}
		nm := fmt.Sprintf("t%d-%d-", round, kind)
		c.runFop(nm+"find", fop{"find", true, st, open, func(s *fstore, h any) (string, error) {
			k, p, err := h.(*bptree.BPTree).Find(q)
			return pt(k, p), err
		}, nil, nil}, cap, rng)
		c.runFop(nm+"has", fop{"contains", true, st, open, func(s *fstore, h any) (string, error) {
			b, err := h.(*bptree.BPTree).Contains(q)
			return fmt.Sprint(b), err
		}, nil, nil}, cap, rng)
		c.runFop(nm+"fwd", fop{"scan", true, st, open, scan(true), nil, nil}, cap, rng)
		c.runFop(nm+"back", fop{"scanback", true, st, open, scan(false), nil, nil}, cap, rng)
		for j, x := range perm[n:] { // some of these split
			if j > 4 {
				break
			}
			c.runFop(fmt.Sprintf("%sins%d", nm, j), fop{"insert", false, st, open, func(s *fstore, h any) (string, error) {
				return "", h.(*bptree.BPTree).Insert(keys[x], pointer.MemoryPointer{Offset: 1, Length: 3})
			}, func(s *fstore, h any) (string, error) {
				a, err := scan(true)(s, h)
				if err != nil {
					return "", err
				}
				for _, k := range keys {
					b, err := h.(*bptree.BPTree).Contains(k)
					if err != nil {
						return "", err
					}
					a += fmt.Sprint(b, " ")
				}
				return a, nil
			}, func(s *fstore, h any) error {
				if err := h.(*bptree.BPTree).Insert(keys[x], pointer.MemoryPointer{Offset: 1, Length: 3}); err != nil && !errors.Is(err, bptree.ErrKeyExists) {
					return err
				}
				for _, y := range perm[n:] {
					if y != x {
						if err := put(h, y); err != nil {
							return err
						}
					}
				}
				return nil
			}}, cap, rng)
		}
	}
}

func faultsVec(c *Ctx, rng *rand.Rand, round, cap int) {
	dim := 2
	st := &fstore{pg: &pager{psize: 120}, mr: &memRoot{}}
	open := func(s *fstore) (any, error) { return btree.NewBTree(s.mr, s.pg, uint64(dim)), nil }
	n := []int{0, 1, 8, 25}[rng.Intn(4)]
	perm := rng.Perm(30)
	if round%2 == 0 { // the next insertion splits a node
		x := st.clone()
		var at []int
		res, _ := guard(func() error {
			h, _ := open(x)
			for i, id := range perm {
				had := len(x.pg.b)
				if err := h.(*btree.BTree).Insert(pointer.ReferencedId{Value: hnsw.Id(id)}, hnsw.Point{float32(id), 1}); err != nil {
					return err
				}
				if i > 0 && len(x.pg.b) > had {
					at = append(at, i)
				}
			}
			return nil
		})
		if res == "ok" && len(at) > 0 {
			n = at[rng.Intn(len(at))]
		}
	}
	res, _ := guard(func() error {
		h, _ := open(st)
		for _, x := range perm[:n] {
			if err := h.(*btree.BTree).Insert(pointer.ReferencedId{Value: hnsw.Id(x)}, hnsw.Point{float32(x), 1}); err != nil {
				return err
			}
		}
		return nil
	})
	if res != "ok" {
		return
	}
	nm := fmt.Sprintf("v%d-", round)
	if n > 0 {
		x := perm[rng.Intn(n)]
		c.runFop(nm+"find", fop{"vecfind", true, st, open, func(s *fstore, h any) (string, error) {
			id, v, err := h.(*btree.BTree).Find(pointer.ReferencedId{Value: hnsw.Id(x)})
			return fmt.Sprint(id.Value, v), err
		}, nil, nil}, cap, rng)
	}
	for j, x := range perm[n:] {
		if j > 4 {
			break
		}
		c.runFop(fmt.Sprintf("%sins%d", nm, j), fop{"vecinsert", false, st, open, func(s *fstore, h any) (string, error) {
			return "", h.(*btree.BTree).Insert(pointer.ReferencedId{Value: hnsw.Id(x)}, hnsw.Point{1, 2})
		}, func(s *fstore, h any) (string, error) { // which ids are there, with which vectors
			a := ""
			for i := 0; i < 30; i++ {
				id, v, err := h.(*btree.BTree).Find(pointer.ReferencedId{Value: hnsw.Id(i)})
				if err == nil && len(v) > 0 {
					a += fmt.Sprint(i, id.Value, v, " ")
				}
			}
			return a, nil
		}, func(s *fstore, h any) error {
			t := h.(*btree.BTree)
			if id, v, err := t.Find(pointer.ReferencedId{Value: hnsw.Id(x)}); err != nil || len(v) == 0 || id.Value != hnsw.Id(x) {
				if err := t.Insert(pointer.ReferencedId{Value: hnsw.Id(x)}, hnsw.Point{1, 2}); err != nil {
					return err
				}
			}
			for _, y := range perm[n:] {
				if y != x {
					if err := t.Insert(pointer.ReferencedId{Value: hnsw.Id(y)}, hnsw.Point{float32(y), 1}); err != nil {
						return err
					}
				}
			}
			return nil
		}}, cap, rng)
	}
	// a vector and its friends stored in two trees of one pager
	type store struct {
		m  *vectorpage.VectorPageManager
		vt *btree.BTree
		ft *bptree.BPTree
	}
	both := func(s *fstore) *store {
		st := &store{vt: btree.NewBTree(s.mr, s.pg, uint64(dim)),
			ft: &bptree.BPTree{PageFile: s.pg, MetaPage: s.mr2, DataParser: rawParser{}, Width: 41}}
		st.m = vectorpage.NewVectorPageManager(st.vt, st.ft, hnsw.NewHnsw(dim, 10, 4, hnsw.Point{0, 0}))
		return st
	}
	st2 := &fstore{pg: &pager{psize: 200}, mr: &memRoot{}, mr2: &memRoot{}}
	n = rng.Intn(12)
	// the graph is in memory, so it is built again over the stored trees of each copy
	fill := func(h *store, n int) error {
		for i := 1; i <= n; i++ {
			if err := h.m.AddNode(hnsw.Point{float32(i), float32(i * i % 7)}); err != nil {
				return err
			}
		}
		return nil
	}
	c.runFop(nm+"addnode", fop{"addnode", false, st2, func(s *fstore) (any, error) {
		h := both(s)
		return h, fill(h, n)
	}, func(s *fstore, h any) (string, error) {
		return "", h.(*store).m.AddNode(hnsw.Point{2.5, 1})
	}, nil, nil}, cap, rng)
}

func faultsFile(c *Ctx, rng *rand.Rand, round, cap int) {
	nm := fmt.Sprintf("f%d-", round)
	st := &fstore{mf: &memFile{}}
	npages, nfree := 3+rng.Intn(20), rng.Intn(3)
	nslots := []int{1, 2, 14, 15, 16, 31}[rng.Intn(6)]
	res, _ := guard(func() error {
		pf, err := pagefile.NewPageFile(st.mf)
		if err != nil {
			return err
		}
		lp, err := linkedpage.NewMultiBPTree(pf, 0)
		if err != nil {
			return err
		}
		for i := 0; i < nslots; i++ {
			if lp, err = lp.AddNext(); err != nil {
				return err
			}
			if err := lp.SetMetadata([]byte{byte(i), 1, 2}); err != nil {
				return err
			}
		}
		var offs []int64
		for i := 0; i < npages; i++ {
			o, err := pf.NewPage([]byte{byte(i)})
			if err != nil {
				return err
			}
			offs = append(offs, o)
		}
		for i := 0; i < nfree; i++ {
			if err := pf.FreePage(offs[i]); err != nil {
				return err
			}
		}
		return nil
	})
	if res != "ok" {
		return
	}
	openpf := func(s *fstore) (any, error) { return pagefile.NewPageFile(s.mf) }
	openlp := func(s *fstore) (any, error) {
		pf, err := pagefile.NewPageFile(s.mf)
		if err != nil {
			return nil, err
		}
		lp, err := linkedpage.NewMultiBPTree(pf, 0)
		if err != nil {
			return nil, err
		}
		for i := 0; i < nslots; i++ {
			if lp, err = lp.Next(); err != nil {
				return nil, err
			}
		}
		return lp, nil
	}
	fresh := &fstore{mf: &memFile{}}
	c.runFop(nm+"open", fop{"openpages", true, st, nil, func(s *fstore, _ any) (string, error) {
		pf, err := pagefile.NewPageFile(s.mf)
		if err != nil {
			return "", err
		}
		return fmt.Sprint(pf.PageCount()), nil
	}, nil, nil}, cap, rng)
	c.runFop(nm+"create", fop{"createpages", false, fresh, nil, func(s *fstore, _ any) (string, error) {
		pf, err := pagefile.NewPageFile(s.mf)
		if err != nil {
			return "", err
		}
		return fmt.Sprint(pf.PageCount()), nil
	}, nil, nil}, cap, rng)
	c.runFop(nm+"new", fop{"newpage", false, st, openpf, func(s *fstore, h any) (string, error) {
		o, err := h.(*pagefile.PageFile).NewPage([]byte("x"))
		return fmt.Sprint(o), err
	}, nil, nil}, cap, rng)
	c.runFop(nm+"free", fop{"freepage", false, st, openpf, func(s *fstore, h any) (string, error) {
		return "", h.(*pagefile.PageFile).FreePage(int64(len(s.mf.b) - pgSize))
	}, nil, nil}, cap, rng)
	c.runFop(nm+"multi", fop{"openlist", true, st, openpf, func(s *fstore, h any) (string, error) {
		_, err := linkedpage.NewMultiBPTree(h.(*pagefile.PageFile), 0)
		return "", err
	}, nil, nil}, cap, rng)
	c.runFop(nm+"collect", fop{"collect", true, st, openpf, func(s *fstore, h any) (string, error) {
		lp, err := linkedpage.NewMultiBPTree(h.(*pagefile.PageFile), 0)
		if err != nil {
			return "", err
		}
		all, err := lp.Collect()
		if err != nil {
			return "", err
		}
		out := ""
		for _, x := range all {
			m, err := x.Metadata()
			if err != nil {
				return "", err
			}
			rt, err := x.Root()
			if err != nil {
				return "", err
			}
			out += fmt.Sprint(m, rt)
		}
		return out, nil
	}, nil, nil}, cap, rng)
	c.runFop(nm+"add", fop{"addslot", false, st, openlp, func(s *fstore, h any) (string, error) {
		_, err := h.(*linkedpage.LinkedPage).AddNext()
		return "", err
	}, nil, nil}, cap, rng)
	c.runFop(nm+"setroot", fop{"setroot", false, st, openlp, func(s *fstore, h any) (string, error) {
		return "", h.(*linkedpage.LinkedPage).SetRoot(pointer.MemoryPointer{Offset: 5, Length: 6})
	}, nil, nil}, cap, rng)
	c.runFop(nm+"setmeta", fop{"setmeta", false, st, openlp, func(s *fstore, h any) (string, error) {
		return "", h.(*linkedpage.LinkedPage).SetMetadata([]byte("hello"))
	}, nil, nil}, cap, rng)
}

func faultsIndex(c *Ctx, rng *rand.Rand, round, cap int) {
	type hnd struct {
		name string
		h    appendable.DataHandler
		d    string
	}
	var jl, cv bytes.Buffer
	cv.WriteString("a,b,c\n")
	for i := 0; i < 4+rng.Intn(5); i++ {
		fmt.Fprintf(&jl, "{\"a\":%d,\"b\":\"word%d other\",\"c\":null,\"d\":[1],\"e\":{\"f\":true}}\n", i%3, i)
		fmt.Fprintf(&cv, "%d,w%d,\n", i%3, i)
	}
	for _, x := range []hnd{{"jsonl", handlers.JSONLHandler{}, jl.String()}, {"csv", handlers.CSVHandler{}, cv.String()}} {
		nm := fmt.Sprintf("x%d-%s-", round, x.name)
		data := []byte(x.d)
		open := func(s *fstore) (any, error) { return appendable.NewIndexFile(s.mf, x.h, []string{"b"}) }
		half := &fstore{mf: &memFile{}}
		nl := bytes.IndexByte(data[len(data)/2:], '\n') + len(data)/2 + 1
		res, _ := guard(func() error {
			h, err := open(half)
			if err != nil {
				return err
			}
			return h.(*appendable.IndexFile).Synchronize(data[:nl])
		})
		if res != "ok" {
			continue
		}
		// what the index holds once a synchronization went through
		done := func(s *fstore, h any) (string, error) {
			if err := h.(*appendable.IndexFile).Synchronize(data); err != nil {
				return "", err
			}
			d, err := dumpIndex(s.mf, data, x.h)
			if err != nil {
				return "", err
			}
			ks := []string{}
			for k := range d.keys() {
				ks = append(ks, k)
			}
			slices.Sort(ks)
			return fmt.Sprint(d.off, d.entries, ks), nil
		}
		fresh := &fstore{mf: &memFile{}}
		for _, y := range []struct {
			n string
			s *fstore
		}{{"fresh", fresh}, {"half", half}} {
			c.runFop(nm+y.n+"-open", fop{"openindex", y.n == "half", y.s, nil, func(s *fstore, _ any) (string, error) {
				_, err := open(s)
				return "", err
			}, nil, nil}, cap, rng)
			c.runFop(nm+y.n+"-sync", fop{"synchronize", false, y.s, open, func(s *fstore, h any) (string, error) {
				return "", h.(*appendable.IndexFile).Synchronize(data)
			}, done, nil}, cap*3, rng)
		}
		c.runFop(nm+"names", fop{"fieldnames", true, half, open, func(s *fstore, h any) (string, error) {
			n, err := h.(*appendable.IndexFile).IndexFieldNames()
			return fmt.Sprint(n), err
		}, nil, nil}, cap, rng)
		c.runFop(nm+"meta", fop{"metadata", true, half, open, func(s *fstore, h any) (string, error) {
			m, err := h.(*appendable.IndexFile).Metadata()
			if err != nil {
				return "", err
			}
			return fmt.Sprint(*m), nil
		}, nil, nil}, cap, rng)
		c.runFop(nm+"empty", fop{"isempty", true, half, open, func(s *fstore, h any) (string, error) {
			b, err := h.(*appendable.IndexFile).IsEmpty()
			return fmt.Sprint(b), err
		}, nil, nil}, cap, rng)
		c.runFop(nm+"lookup", fop{"findindex", true, half, open, func(s *fstore, h any) (string, error) {
			_, m, err := h.(*appendable.IndexFile).FindOrCreateIndex("c", appendable.FieldTypeNull)
			if err != nil {
				return "", err
			}
			return fmt.Sprint(*m), nil
		}, nil, nil}, cap, rng)
		c.runFop(nm+"newidx", fop{"createindex", false, half, open, func(s *fstore, h any) (string, error) {
			_, m, err := h.(*appendable.IndexFile).FindOrCreateIndex("zz", appendable.FieldTypeNull)
			if err != nil {
				return "", err
			}
			return fmt.Sprint(*m), nil
		}, nil, nil}, cap, rng)
	}
}
