package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/kevmo314/appendable/pkg/mmap"
)

func init() { drivers["mmap"] = drvMmap }

type mmRun struct {
	t    *Trace
	m    *mmap.MemoryMappedFile
	path string
	unit int
	dead bool
}

func (r *mmRun) enc(d []int) []byte {
	b := make([]byte, 0, len(d)*r.unit)
	for _, v := range d {
		for i := 0; i < r.unit; i++ {
			b = append(b, byte(v))
		}
	}
	return b
}

// dec projects bytes to units: -1 for a unit that is not uniform, -2 for a rest.
func (r *mmRun) dec(b []byte) []int {
	out := make([]int, 0, len(b)/r.unit+1)
	for len(b) >= r.unit {
		v := int(b[0])
		for _, x := range b[:r.unit] {
			if int(x) != v {
				v = -1
				break
			}
		}
		out = append(out, v)
		b = b[r.unit:]
	}
	if len(b) > 0 {
		out = append(out, -2)
	}
	return out
}

func (r *mmRun) u(n int) int {
	if n%r.unit != 0 {
		return -1000 - n
	}
	return n / r.unit
}

func (r *mmRun) snap(e Ev) {
	e["cur"], e["mem"], e["disk"] = -9, []int{}, []int{}
	if e["res"] == "panic" || e["res"] == "hang" {
		r.dead = true
	}
	var cur int64
	var mem []byte
	if res, _ := guard(func() (err error) { cur, err = r.m.Seek(0, io.SeekCurrent); return }); res == "ok" {
		e["cur"] = r.u(int(cur))
	}
	if res, _ := guard(func() error { mem = append([]byte(nil), r.m.Bytes()...); return nil }); res == "ok" {
		e["mem"] = r.dec(mem)
	}
	if disk, err := os.ReadFile(r.path); err == nil {
		e["disk"] = r.dec(disk)
	}
	r.t.add(e)
}

func (r *mmRun) open(op string) {
	if r.m != nil {
		guard(func() error { return r.m.Close() })
	}
	flag := os.O_RDWR | os.O_CREATE
	if op == "openro" {
		flag = os.O_RDONLY
	}
	e := Ev{"op": op}
	e["res"], e["msg"] = guard(func() error {
		m, err := mmap.OpenFile(r.path, flag, 0o644)
		r.m = m
		return err
	})
	r.snap(e)
}

func (r *mmRun) close() {
	e := Ev{"op": "close"}
	e["res"], e["msg"] = guard(func() error { return r.m.Close() })
	r.snap(e)
}

// opendir: what is no file is refused
func (r *mmRun) opendir(c *Ctx, path string) {
	e := Ev{"op": "opendir"}
	e["res"], e["msg"] = guard(func() error {
		m, err := mmap.OpenFile(path, os.O_RDONLY, 0)
		if err == nil {
			m.Close()
		}
		return err
	})
	r.snap(e)
}

// far is the offset in units from which on it stands for the ends of the range of
// offsets (Far in MMap.tla): a write of n bytes there would end behind the last one.
const far = 1000000

func (r *mmRun) pos(off, n int) int64 {
	last := int64(0)
	if n > 1 && len(r.t.Ev)%2 == 0 {
		last = int64(n - 1)
	}
	switch {
	case off >= far:
		return math.MaxInt64 - last
	case off <= -far:
		return math.MinInt64 + last
	}
	return int64(off * r.unit)
}

func (r *mmRun) read(k int) {
	b := make([]byte, k*r.unit)
	var n int
	res, msg := guard(func() (err error) { n, err = r.m.Read(b); return })
	r.rd(Ev{"op": "read", "k": k}, res, msg, b, n)
}

func (r *mmRun) readat(k, off int) {
	b := make([]byte, k*r.unit)
	var n int
	res, msg := guard(func() (err error) { n, err = r.m.ReadAt(b, r.pos(off, len(b))); return })
	r.rd(Ev{"op": "readat", "k": k, "off": off}, res, msg, b, n)
}

func (r *mmRun) rd(e Ev, res, msg string, b []byte, n int) {
	if res == "err" && msg == io.EOF.Error() {
		res = "eof"
	}
	if n < 0 || n > len(b) {
		n = 0
		res = "badcount"
	}
	e["res"], e["msg"], e["data"] = res, msg, r.dec(b[:n])
	r.snap(e)
}

func (r *mmRun) write(d []int) {
	var n int
	e := Ev{"op": "write", "data": d}
	e["res"], e["msg"] = guard(func() (err error) { n, err = r.m.Write(r.enc(d)); return })
	e["n"] = r.u(n)
	r.snap(e)
}

func (r *mmRun) writeat(d []int, off int) {
	var n int
	e := Ev{"op": "writeat", "data": d, "off": off}
	e["res"], e["msg"] = guard(func() (err error) { b := r.enc(d); n, err = r.m.WriteAt(b, r.pos(off, len(b))); return })
	e["n"] = r.u(n)
	r.snap(e)
}

func (r *mmRun) seek(off, w int) {
	var n int64
	e := Ev{"op": "seek", "off": off, "w": w}
	e["res"], e["msg"] = guard(func() (err error) { n, err = r.m.Seek(r.pos(off, 0), w); return })
	e["n"] = r.u(int(n))
	r.snap(e)
}

func newMm(c *Ctx, id string, unit int) *mmRun {
	r := &mmRun{t: &Trace{ID: id, Cfg: Ev{"unit": unit}}, path: filepath.Join(c.Dir, "mm-"+id), unit: unit}
	os.Remove(r.path)
	r.open("open")
	return r
}

func (r *mmRun) done(c *Ctx) {
	if r.m != nil && !r.dead {
		guard(func() error { return r.m.Close() })
	}
	os.Remove(r.path)
	c.Out.Emit(r.t)
}

func drvMmap(c *Ctx) {
	rng := rand.New(rand.NewSource(c.Seed))
	units := []int{1, 1000, 4096, 3, 4095}
	// 1. every transition of the specification's state graph
	if c.In != "" {
		f, err := os.Open(c.In)
		if err != nil {
			panic(err)
		}
		sc := bufio.NewScanner(f)
		k := 0
		for sc.Scan() {
			var tr struct {
				File []int  `json:"file"`
				Cur  int    `json:"cur"`
				Mode string `json:"mode"`
				Op   struct {
					O   string `json:"o"`
					K   int    `json:"k"`
					Off int    `json:"off"`
					W   int    `json:"w"`
					D   []int  `json:"d"`
				} `json:"op"`
			}
			if err := json.Unmarshal(sc.Bytes(), &tr); err != nil {
				panic(err)
			}
			r := newMm(c, fmt.Sprintf("g%d", k), units[(k+int(c.Seed))%len(units)])
			k++
			// reach the state: one or several writes, then a seek
			if n := len(tr.File); n > 0 {
				cut := rng.Intn(n + 1)
				if cut > 0 {
					r.write(tr.File[:cut])
				}
				if cut < n {
					r.write(tr.File[cut:])
				}
			}
			if k%2 == 0 && tr.Mode != "ro" {
				r.open("reopen")
			}
			if tr.Mode == "ro" {
				r.open("openro")
			}
			r.seek(tr.Cur, 0)
			if tr.Mode == "closed" {
				if n := len(tr.File); n > 0 {
					r.seek(1+rng.Intn(n), 0)
				}
				r.close()
			}
			if tr.Op.D == nil {
				tr.Op.D = []int{}
			}
			switch tr.Op.O {
			case "read":
				r.read(tr.Op.K)
			case "readat":
				r.readat(tr.Op.K, tr.Op.Off)
			case "write":
				r.write(tr.Op.D)
			case "writeat":
				r.writeat(tr.Op.D, tr.Op.Off)
			case "seek":
				r.seek(tr.Op.Off, tr.Op.W)
			case "reopen", "openro":
				r.open(tr.Op.O)
			case "close":
				r.close()
			}
			r.done(c)
		}
		f.Close()
	}
	// 2. random histories
	n, ln := 200, 40
	if c.Thorough {
		n, ln = 3000, 80
	}
	for k := 0; k < n; k++ {
		r := newMm(c, fmt.Sprintf("r%d", k), append(units, 8192, 12288, 100)[rng.Intn(8)]*max(1, 17*(k%40-38)))
		size := 0
		val := func(m int) []int {
			d := make([]int, rng.Intn(m))
			for i := range d {
				d[i] = 1 + rng.Intn(250)
			}
			return d
		}
		for i := 0; i < ln && !r.dead; i++ {
			if r.m == nil {
				break
			}
			if b := r.m.Bytes(); b != nil {
				size = len(b) / r.unit
			}
			switch rng.Intn(10) {
			case 0:
				r.read(rng.Intn(6))
			case 1:
				r.readat(rng.Intn(6), rng.Intn(size+3)-1)
			case 2, 3:
				r.write(val(5))
			case 4:
				r.writeat(val(5), rng.Intn(size+2)-1)
			case 5:
				if rng.Intn(12) == 0 {
					r.writeat(val(5), far)
				} else if size < 60 {
					r.writeat(append(val(4), 7), size+rng.Intn(4))
				}
			case 6, 7:
				r.seek(rng.Intn(2*size+3)-size-1, rng.Intn(4))
			case 8:
				r.open([]string{"reopen", "reopen", "openro"}[rng.Intn(3)])
			case 9:
				switch rng.Intn(4) {
				case 0:
					r.close()
				case 1:
					r.opendir(c, []string{c.Dir, r.path + ".missing"}[rng.Intn(2)])
				}
			}
		}
		r.done(c)
	}
}
