package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"

	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/btree"
	"github.com/kevmo314/appendable/pkg/hnsw"
	"github.com/kevmo314/appendable/pkg/pointer"
	"github.com/kevmo314/appendable/pkg/vectorpage"
)

func init() {
	drivers["hnsw"] = drvHnsw
	drivers["knn"] = drvKnn
	drivers["vpage"] = drvVpage
}

// hnUnit is a power of two, the unit of the current run's coordinates
var hnUnit = 1.0

func unit(rng *rand.Rand) {
	hnUnit = math.Ldexp(1, []int{0, 0, 0, 0, 20, 60, 100, -20, -60, -100}[rng.Intn(10)])
}

// square recovers the exact squared distance: the points have whole coordinates.
func square(d float64) int {
	d /= hnUnit
	s := math.Round(d * d)
	if s < 0 || s > 1e9 || math.Abs(math.Sqrt(s)-d) > 1e-5*(1+d) {
		return -1
	}
	return int(s)
}

// pairs lists the content of a heap, nearest first, without disturbing it.
func pairs(h *hnsw.DistHeap) [][]int {
	out := [][]int{}
	c := h.Clone()
	for i := 0; i < 1000 && !c.IsEmpty(); i++ {
		it, err := c.PopMinItem()
		if err != nil {
			return append(out, []int{-1, -1})
		}
		id, d := itemOf(it)
		out = append(out, []int{id, square(d)})
	}
	return out
}

type hnRun struct {
	t     *Trace
	rng   *rand.Rand
	h     *hnsw.Hnsw
	dim   int
	m, ef int
	span  int
	pts   [][]int
	dead  bool
}

func (r *hnRun) pt(dim int) []int {
	p := make([]int, dim)
	for i := range p {
		p[i] = r.rng.Intn(r.span) - r.span/2
	}
	return p
}

func fpt(p []int) hnsw.Point {
	f := make(hnsw.Point, len(p))
	for i := range p {
		f[i] = float32(float64(p[i]) * hnUnit)
	}
	return f
}

func (r *hnRun) chk(e Ev) Ev {
	if e["res"] == "panic" || e["res"] == "hang" {
		r.dead = true
	}
	return r.t.add(e)
}

func (r *hnRun) graph(e Ev) Ev {
	g := [][][][]int{}
	res, msg := guard(func() error {
		for i := range r.pts {
			f, err := r.h.Neighborhood(hnsw.Id(i))
			if err != nil {
				return err
			}
			ls, err := levels(f)
			if err != nil {
				return err
			}
			g = append(g, ls)
		}
		return nil
	})
	if res != "ok" {
		e["graph"], e["gmsg"] = [][][][]int{}, msg
		return e
	}
	e["graph"] = g
	// one more node than there are vectors must not exist
	_, err := r.h.Neighborhood(hnsw.Id(len(r.pts)))
	e["more"] = err == nil
	return e
}

func (r *hnRun) start() {
	r.pts = [][]int{r.pt(r.dim)}
	e := Ev{"op": "new", "p": r.pts[0]}
	e["res"], e["msg"] = guard(func() error { r.h = hnsw.NewHnsw(r.dim, r.ef, r.m, fpt(r.pts[0])); return nil })
	if e["res"] == "ok" {
		r.graph(e)
	}
	r.chk(e)
}

func (r *hnRun) insert(p []int, look bool) {
	e := Ev{"op": "insert", "p": p, "id": -1}
	e["res"], e["msg"] = guard(func() error {
		id, err := r.h.InsertVector(fpt(p))
		e["id"] = int(id)
		return err
	})
	if e["res"] == "ok" {
		r.pts = append(r.pts, p)
	}
	if e["res"] == "panic" || e["res"] == "hang" {
		e["graph"], e["more"] = [][][][]int{}, false
	} else if look {
		r.graph(e)
	}
	r.chk(e)
}

func (r *hnRun) flush(i, n int) {
	f, err := r.h.Neighborhood(hnsw.Id(i))
	if err != nil {
		r.chk(Ev{"op": "flush", "i": i, "n": n, "len": -1, "fs": [][]int{}, "res": "err", "msg": err.Error()})
		return
	}
	r.flushOf(f, i, n)
}

func (r *hnRun) flushOf(f *hnsw.Friends, i, n int) {
	e := Ev{"op": "flush", "i": i, "n": n, "len": -1, "fs": [][]int{}}
	e["res"], e["msg"] = guard(func() error {
		b, err := f.Flush(n)
		if err != nil {
			return err
		}
		e["len"] = len(b)
		fs := [][]int{}
		for k := 0; k+5 <= len(b); k += 5 {
			fs = append(fs, []int{int(b[k]), int(binary.BigEndian.Uint32(b[k+1:]))})
		}
		e["fs"] = fs
		return nil
	})
	r.chk(e)
}

// levels looks at one node's friends on every level
func levels(f *hnsw.Friends) ([][][]int, error) {
	ls := [][][]int{}
	for k := 0; k < f.NumLevels(); k++ {
		h, err := f.GetFriendsAtLevel(k)
		if err != nil {
			return nil, err
		}
		ls = append(ls, pairs(h))
	}
	return ls, nil
}

// drvFriends: the levels of friends of one node, used directly.
func drvFriends(c *Ctx, rng *rand.Rand, i int) {
	unit(rng)
	t := &Trace{ID: fmt.Sprintf("f%d", i), Cfg: Ev{"dim": 1, "m": 1000, "ef": 1}}
	top := rng.Intn(6)
	if i%15 == 7 {
		top = []int{8, 17, 40, 255}[rng.Intn(4)]
	}
	f := hnsw.NewFriends(top)
	t.add(Ev{"op": "fnew", "top": top, "levels": f.NumLevels(), "topl": f.TopLevel(), "above": f.HasLevel(top + 1), "has": f.HasLevel(top)})
	ids := 1 + rng.Intn(14)
	for k := rng.Intn(30); k > 0; k-- {
		lv, id, d := rng.Intn(top+1), rng.Intn(ids)*(1+rng.Intn(2)*70000), rng.Intn(9)
		e := Ev{"op": "fins", "level": lv, "id": id, "d": d, "graph": [][][][]int{}}
		e["res"], e["msg"] = guard(func() error {
			f.InsertFriendsAtLevel(lv, hnsw.Id(id), float32(math.Sqrt(float64(d))*hnUnit))
			ls, err := levels(f)
			e["graph"] = [][][][]int{ls}
			return err
		})
		t.add(e)
		if e["res"] != "ok" {
			break
		}
		if rng.Intn(3) == 0 {
			r := &hnRun{t: t}
			r.flushOf(f, 0, 1+rng.Intn(12))
		}
	}
	c.Out.Emit(t)
}

// tallSeed looks for levels of which some are high up, if they are drawn as they should be.
func tallSeed(s int64, n, m, top int) int64 {
	for ; ; s++ {
		rand.Seed(s)
		high := 0
		for k := 0; k < n; k++ {
			if -math.Log(rand.Float64())/math.Log(float64(m)) >= float64(top) {
				high++
			}
		}
		if high > 2 {
			return s
		}
	}
}

func drvHnsw(c *Ctx) {
	n := 120
	if c.Thorough {
		n = 600
	}
	// few nodes on many levels
	for i := 0; i < n/30; i++ {
		rng := rand.New(rand.NewSource(c.Seed*1000 + 950 + int64(i)))
		hnUnit = 1
		r := &hnRun{rng: rng, dim: 1 + i%2, m: 2 + i%2, ef: 2 + rng.Intn(6), span: 40, t: &Trace{ID: fmt.Sprintf("tall%d", i)}}
		r.t.Cfg = Ev{"dim": r.dim, "m": r.m, "ef": r.ef}
		top := []int{7, 5, 9, 6}[i%4]
		rand.Seed(tallSeed(c.Seed*100000+int64(i)*1000, 50, r.m, top))
		r.start()
		for len(r.pts) < 52 && !r.dead {
			r.insert(r.pt(r.dim), true)
		}
		for i := 0; i < len(r.pts) && !r.dead; i++ {
			r.flush(i, 8)
		}
		c.Out.Emit(r.t)
	}
	for i := 0; i < n; i++ {
		drvFriends(c, rand.New(rand.NewSource(c.Seed*1000+900+int64(i))), i)
	}
	for i := 0; i < n; i++ {
		rand.Seed(c.Seed*1000 + int64(i)) // the levels
		rng := rand.New(rand.NewSource(c.Seed*1000 + int64(i)))
		unit(rng)
		r := &hnRun{rng: rng, dim: 1 + i%3, m: 2 + rng.Intn(4), ef: 1 + rng.Intn(8), span: []int{3, 9, 100}[rng.Intn(3)],
			t: &Trace{ID: fmt.Sprintf("h%d", i)}}
		r.t.Cfg = Ev{"dim": r.dim, "m": r.m, "ef": r.ef}
		r.start()
		size := 5 + rng.Intn(20)
		for len(r.pts) < size && !r.dead {
			if rng.Intn(12) == 0 {
				d := r.dim + 1 - 2*rng.Intn(2)
				r.insert(r.pt(d), true)
				continue
			}
			p := r.pt(r.dim)
			if rng.Intn(6) == 0 {
				p = r.pts[rng.Intn(len(r.pts))]
			}
			r.insert(p, true)
			if rng.Intn(3) == 0 && !r.dead {
				r.flush(rng.Intn(len(r.pts)), 1+rng.Intn(9))
			}
		}
		for i := 0; i < len(r.pts) && !r.dead; i++ {
			r.flush(i, 8)
		}
		c.Out.Emit(r.t)
	}
}

func (r *hnRun) knn(q []int, k int) {
	e := Ev{"op": "knn", "q": q, "k": k, "r": [][]int{}}
	e["res"], e["msg"] = guard(func() error {
		h, err := r.h.KnnSearch(fpt(q), k)
		if err != nil {
			return err
		}
		e["r"] = pairs(h)
		return nil
	})
	r.chk(e)
}

func drvKnn(c *Ctx) {
	n := 120
	if c.Thorough {
		n = 800
	}
	for i := 0; i < n; i++ {
		rand.Seed(c.Seed*1000 + 500 + int64(i))
		rng := rand.New(rand.NewSource(c.Seed*1000 + 500 + int64(i)))
		unit(rng)
		r := &hnRun{rng: rng, dim: 1 + i%4, span: []int{4, 12, 200}[rng.Intn(3)], t: &Trace{ID: fmt.Sprintf("k%d", i)}}
		size := 3 + rng.Intn(38)
		r.m, r.ef = 2+rng.Intn(5), 1+rng.Intn(12)
		if i%3 == 0 { // room for everything
			r.m, r.ef = size+rng.Intn(3), size+rng.Intn(3)
		}
		line := i%5 == 1
		if line { // a long chain: many hops from one end to the other
			size, r.m, r.ef, r.span = 40+rng.Intn(60), []int{3, 20, 200}[rng.Intn(3)], 1+rng.Intn(3), 240
		}
		r.t.Cfg = Ev{"dim": r.dim, "m": r.m, "ef": r.ef}
		r.start()
		start := r.pts[0]
		for len(r.pts) < size && !r.dead {
			p := r.pt(r.dim)
			if line {
				p = append([]int{start[0] + len(r.pts)}, start[1:]...)
			}
			r.insert(p, false)
		}
		if !r.dead {
			r.chk(r.graph(Ev{"op": "graph", "res": "ok"}))
		}
		for k := 0; k < 25 && !r.dead; k++ {
			q := r.pt(r.dim)
			switch rng.Intn(4) {
			case 0:
				q = r.pts[rng.Intn(len(r.pts))]
			case 1:
				if rng.Intn(3) == 0 {
					q = r.pt(r.dim + 1 - 2*rng.Intn(2))
				}
			}
			kk := rng.Intn(r.ef + 4)
			if rng.Intn(6) == 0 {
				kk = len(r.pts) + rng.Intn(3)
			}
			r.knn(q, kk)
		}
		if !r.dead {
			r.chk(r.graph(Ev{"op": "graph", "res": "ok"}))
		}
		c.Out.Emit(r.t)
	}
}

// drvVpage: the manager which stores vectors and friends of every node added.
func drvVpage(c *Ctx) {
	n := 40
	if c.Thorough {
		n = 300
	}
	for i := 0; i < n; i++ {
		rand.Seed(c.Seed*1000 + 700 + int64(i))
		rng := rand.New(rand.NewSource(c.Seed*1000 + 700 + int64(i)))
		unit(rng)
		r := &hnRun{rng: rng, dim: 1 + i%3, span: []int{1, 2, 20}[rng.Intn(3)], m: 2 + rng.Intn(9), ef: 1 + rng.Intn(10),
			t: &Trace{ID: fmt.Sprintf("v%d", i)}}
		r.t.Cfg = Ev{"dim": r.dim, "m": r.m, "ef": r.ef}
		r.pts = [][]int{r.pt(r.dim)}
		r.h = hnsw.NewHnsw(r.dim, r.ef, r.m, fpt(r.pts[0]))
		vpg, fpg := &pager{psize: 4096}, &pager{psize: 4096}
		vt := btree.NewBTree(&memRoot{}, vpg, uint64(r.dim))
		ft := &bptree.BPTree{PageFile: fpg, MetaPage: &memRoot{}, Width: 41}
		m := vectorpage.NewVectorPageManager(vt, ft, r.h)
		size := 10 + rng.Intn(25)
		if i%20 == 13 {
			size = 260 + rng.Intn(30)
		}
		for k := size; k > 0 && !r.dead; k-- {
			p := r.pt(r.dim)
			if rng.Intn(10) == 0 {
				p = r.pt(r.dim + 1 - 2*rng.Intn(2))
			}
			e := Ev{"op": "add", "p": p, "own": ""}
			e["res"], e["msg"] = guard(func() error { return m.AddNode(fpt(p)) })
			if e["res"] == "ok" {
				r.pts = append(r.pts, p)
			}
			// the graph's own record of the node just added
			guard(func() error {
				f, err := r.h.Neighborhood(hnsw.Id(len(r.pts) - 1))
				if err != nil {
					return err
				}
				b, err := f.Flush(8)
				e["own"] = fmt.Sprintf("%x", b)
				return err
			})
			r.chk(e)
		}
		// what is stored
		vs, fs := []Ev{}, []string{}
		for id := 0; id <= len(r.pts) && !r.dead; id++ {
			e := Ev{"id": id, "p": []int{}}
			e["res"], _ = guard(func() error {
				rid, v, err := vt.Find(pointer.ReferencedId{Value: hnsw.Id(id)})
				if err != nil {
					return err
				}
				if v == nil || rid.Value != hnsw.Id(id) {
					return nil
				}
				p := []int{}
				for _, x := range v {
					p = append(p, whole(float64(x)/hnUnit))
				}
				e["p"] = p
				return nil
			})
			vs = append(vs, e)
		}
		e := Ev{"op": "stored", "vs": vs}
		if !r.dead {
			e["res"], e["msg"] = guard(func() error {
				it, err := ft.Iter(pointer.ReferencedValue{})
				if err != nil {
					return err
				}
				for it.Next() && len(fs) < 500 {
					fs = append(fs, fmt.Sprintf("%x", it.Key().Value))
				}
				return it.Err()
			})
			e["fs"] = fs
			r.chk(e)
		}
		c.Out.Emit(r.t)
	}
}
