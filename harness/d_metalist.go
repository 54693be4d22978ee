package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/mmap"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"
)

func init() { drivers["metalist"] = drvMetaList }

type mlEnv struct {
	c     *Ctx
	t     *Trace
	rng   *rand.Rand
	mf    *memFile
	mm    *mmap.MemoryMappedFile
	path  string
	pf    *pagefile.PageFile
	head  *linkedpage.LinkedPage
	slots []*linkedpage.LinkedPage
	// pages of other users of the file and their contents
	other map[int64][]byte
	freed []int64
	dead  bool
}

func mdTok(b []byte) string {
	if len(b) <= 6 {
		return hex.EncodeToString(b)
	}
	h := fnv.New64a()
	h.Write(b)
	return fmt.Sprintf("%d:%x", len(b), h.Sum64())
}

func (r *mlEnv) attach(f io.ReadWriteSeeker) error {
	pf, err := pagefile.NewPageFile(f)
	if err != nil {
		return err
	}
	head, err := linkedpage.NewMultiBPTree(pf, 0)
	if err != nil {
		return err
	}
	r.pf, r.head = pf, head
	return nil
}

func (r *mlEnv) bytes() []byte {
	if r.mm != nil {
		return r.mm.Bytes()
	}
	return r.mf.b
}

// finish adds the observed state: the list as a fresh walk from the head reads it.
func (r *mlEnv) finish(e Ev) {
	list := [][]string{}
	res, msg := guard(func() error {
		all, err := r.head.Collect()
		if err != nil {
			return err
		}
		for _, s := range all {
			mp, err := s.Root()
			if err != nil {
				return err
			}
			md, err := s.Metadata()
			if err != nil {
				return err
			}
			list = append(list, []string{ptok(mp), mdTok(md)})
		}
		return nil
	})
	if res != "ok" {
		e["res"], e["msg"] = "unreadable:"+res, msg
	}
	ok := true
	for off, b := range r.other {
		if int(off)+pgSize > len(r.bytes()) || !bytes.Equal(r.bytes()[off:off+pgSize], b) {
			ok = false
		}
	}
	e["list"], e["others"] = list, ok
	e["pages"], e["filepages"] = int(r.pf.PageCount()), len(r.bytes())/pgSize
	if e["res"] == "panic" || e["res"] == "hang" || res != "ok" {
		r.dead = true
	}
	r.t.add(e)
}

func (r *mlEnv) open(kind string) {
	e := Ev{"op": "open"}
	e["res"], e["msg"] = guard(func() error {
		if kind == "file" {
			r.path = filepath.Join(r.c.Dir, "ml-"+r.t.ID)
			os.Remove(r.path)
			m, err := mmap.OpenFile(r.path, os.O_RDWR|os.O_CREATE, 0o644)
			if err != nil {
				return err
			}
			r.mm = m
			return r.attach(m)
		}
		r.mf = &memFile{}
		return r.attach(r.mf)
	})
	r.finish(e)
}

func (r *mlEnv) reopen() {
	e := Ev{"op": "reopen"}
	e["res"], e["msg"] = guard(func() error {
		if r.mm != nil {
			if err := r.mm.Close(); err != nil {
				return err
			}
			m, err := mmap.OpenFile(r.path, os.O_RDWR, 0)
			if err != nil {
				return err
			}
			r.mm = m
			if err := r.attach(m); err != nil {
				return err
			}
		} else if err := r.attach(r.mf); err != nil {
			return err
		}
		all, err := r.head.Collect()
		r.slots = all
		return err
	})
	r.finish(e)
}

func (r *mlEnv) at(i int) *linkedpage.LinkedPage {
	if i == 0 {
		return r.head
	}
	return r.slots[i-1]
}

func (r *mlEnv) add(i int) {
	e := Ev{"op": "add", "i": i}
	var n *linkedpage.LinkedPage
	e["res"], e["msg"] = guard(func() (err error) { n, err = r.at(i).AddNext(); return })
	if e["res"] == "ok" {
		r.slots = append(r.slots, n)
	}
	r.finish(e)
}

func (r *mlEnv) setroot(i int, mp pointer.MemoryPointer) {
	e := Ev{"op": "setroot", "i": i, "v": ptok(mp)}
	e["res"], e["msg"] = guard(func() error { return r.at(i).SetRoot(mp) })
	r.finish(e)
}

func (r *mlEnv) setmeta(i int, b []byte) {
	e := Ev{"op": "setmeta", "i": i, "n": len(b), "v": mdTok(b)}
	e["res"], e["msg"] = guard(func() error { return r.at(i).SetMetadata(b) })
	r.finish(e)
}

func (r *mlEnv) page() {
	e := Ev{"op": "page"}
	e["res"], e["msg"] = guard(func() error {
		if len(r.other) > 0 && r.rng.Intn(2) == 0 {
			for off := range r.other { // any one
				delete(r.other, off)
				r.freed = append(r.freed, off)
				return r.pf.FreePage(off)
			}
		}
		b := make([]byte, pgSize)
		r.rng.Read(b)
		off, err := r.pf.NewPage(b)
		if err == nil {
			r.other[off] = b
		}
		return err
	})
	r.finish(e)
}

// pages lets the file grow by k pages of other users.
func (r *mlEnv) pages(k int) {
	e := Ev{"op": "page"}
	e["res"], e["msg"] = guard(func() error {
		for ; k > 0; k-- {
			b := make([]byte, pgSize)
			b[0], b[k%pgSize] = byte(k), byte(k>>8)
			off, err := r.pf.NewPage(b)
			if err != nil {
				return err
			}
			r.other[off] = b
		}
		return nil
	})
	r.finish(e)
}

func (r *mlEnv) close() {
	if r.mm != nil {
		guard(func() error { return r.mm.Close() })
		os.Remove(r.path)
	}
}

func newML(c *Ctx, rng *rand.Rand, id string) *mlEnv {
	return &mlEnv{c: c, rng: rng, t: &Trace{ID: id}, other: map[int64][]byte{}}
}

func drvMetaList(c *Ctx) {
	rng := rand.New(rand.NewSource(c.Seed + 7))
	if c.Probe {
		for _, n := range []int{253, 255} {
			r := newML(c, rng, fmt.Sprintf("overlap%d", n))
			r.open("mem")
			r.add(0)
			r.add(1)
			r.setroot(2, pointer.MemoryPointer{Offset: 0x030201, Length: 9})
			r.setmeta(1, bytes.Repeat([]byte{0xee}, n))
			c.Out.Emit(r.t)
		}
		return
	}
	n := 60
	if c.Thorough {
		n = 700
	}
	for i := 0; i < n; i++ {
		r := newML(c, rng, fmt.Sprintf("m%d", i))
		r.open([]string{"mem", "mem", "file"}[i%3])
		max := []int{3, 14, 15, 16, 17, 31, 46}[rng.Intn(7)]
		steps := max * 4
		if i < 12 { // walk straight over the page boundary
			for j := 0; j <= 16+i%3*15 && !r.dead; j++ {
				r.add(j)
			}
			steps = 25
		}
		if i%20 == 14 { // list pages far into the file, far from each other
			max, steps = 33, 70
			for j := 0; j < 2 && !r.dead; j++ {
				for len(r.slots) < 15*j+1 && !r.dead {
					r.add(len(r.slots))
				}
				r.pages([]int{20, 270, 700}[rng.Intn(3)])
			}
		}
		for j := 0; j < steps && !r.dead; j++ {
			k := rng.Intn(len(r.slots) + 1)
			switch rng.Intn(12) {
			case 0, 1, 2, 3:
				if len(r.slots) < max {
					r.add(len(r.slots))
				}
			case 4:
				r.add(k)
			case 5, 6:
				r.setroot(k, rptr(rng))
			case 7, 8, 9:
				sz := []int{0, 1, 5, 9, 127, 128, 200, 251, 252, 253, 254, 255, 256, 257, 300}[rng.Intn(15)]
				// metadata of more than 252 bytes reaches into the next slot (known finding): only where there is none
				if sz > 252 && sz < 256 && (k-1)%15 != 14 {
					sz = 252
				}
				b := make([]byte, sz)
				rng.Read(b)
				r.setmeta(k, b)
			case 10:
				r.page()
			case 11:
				r.reopen()
				if rng.Intn(2) == 0 && !r.dead {
					e := Ev{"op": "getroot", "i": 0}
					e["res"], e["msg"] = guard(func() error { _, err := r.head.Root(); return err })
					r.finish(e)
					e = Ev{"op": "getmeta", "i": 0}
					e["res"], e["msg"] = guard(func() error { _, err := r.head.Metadata(); return err })
					r.finish(e)
				}
			}
		}
		if !r.dead {
			r.reopen()
		}
		r.close()
		c.Out.Emit(r.t)
	}
}
