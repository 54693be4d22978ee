package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"

	"github.com/kevmo314/appendable/pkg/hnsw"
)

func init() { drivers["distheap"] = drvDistHeap }

// itemOf reads an item's id and distance by their types: its fields have no accessors.
func itemOf(it *hnsw.Item) (id int, dist float64) {
	id, dist = -1, -1
	if it == nil {
		return
	}
	v := reflect.ValueOf(it).Elem()
	for i := 0; i < v.NumField(); i++ {
		switch f := v.Field(i); f.Kind() {
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			id = int(f.Uint())
		case reflect.Float32, reflect.Float64:
			dist = f.Float()
		}
	}
	return
}

type heapRun struct {
	t  *Trace
	hs []*hnsw.DistHeap
}

func (r *heapRun) end(f func() (*hnsw.Item, error)) Ev {
	var it *hnsw.Item
	res, _ := guard(func() (err error) { it, err = f(); return })
	if res != "ok" {
		return Ev{"res": res, "id": -1, "d": -1}
	}
	id, d := itemOf(it)
	return Ev{"res": res, "id": id, "d": whole(d)}
}

func whole(d float64) int {
	if d != float64(int(d)) {
		return -1000000
	}
	return int(d)
}

func (r *heapRun) look(e Ev) {
	obs := []Ev{}
	for _, h := range r.hs {
		o := Ev{"n": -1, "empty": false}
		guard(func() error { o["n"], o["empty"] = h.Len(), h.IsEmpty(); return nil })
		o["min"], o["max"] = r.end(h.PeekMinItem), r.end(h.PeekMaxItem)
		obs = append(obs, o)
	}
	e["obs"] = obs
	r.t.add(e)
}

func (r *heapRun) new() {
	r.hs = append(r.hs, hnsw.NewDistHeap())
	r.look(Ev{"op": "new"})
}

func (r *heapRun) insert(h, id, d int) {
	res, _ := guard(func() error { r.hs[h].Insert(hnsw.Id(id), float32(d)); return nil })
	r.look(Ev{"op": "insert", "h": h + 1, "id": id, "d": d, "res": res})
}

func (r *heapRun) pop(h int, max bool) {
	op, f := "popmin", r.hs[h].PopMinItem
	if max {
		op, f = "popmax", r.hs[h].PopMaxItem
	}
	e := r.end(f)
	e["op"], e["h"] = op, h+1
	r.look(e)
}

func (r *heapRun) clone(h int) {
	r.hs = append(r.hs, r.hs[h].Clone())
	r.look(Ev{"op": "clone", "h": h + 1})
}

func drvDistHeap(c *Ctx) {
	rng := rand.New(rand.NewSource(c.Seed))
	// every transition of the array model: build the array, perform the step, drain from both ends
	if c.In != "" {
		f, err := os.Open(c.In)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		sc := bufio.NewScanner(f)
		for n := 0; sc.Scan(); n++ {
			var tr struct {
				A  []int `json:"a"`
				Op []any `json:"op"`
			}
			if err := json.Unmarshal(sc.Bytes(), &tr); err != nil {
				panic(err)
			}
			op := tr.Op[0].(string)
			r := &heapRun{t: &Trace{ID: fmt.Sprintf("model-%d", n)}}
			r.new()
			for i, d := range tr.A {
				r.insert(0, i, d)
			}
			switch op {
			case "insert":
				r.insert(0, len(tr.A), int(tr.Op[1].(float64)))
			case "update":
				r.insert(0, int(tr.Op[1].(float64)), int(tr.Op[2].(float64)))
			case "popmin", "popmax":
				r.pop(0, op == "popmax")
			}
			for k := r.hs[0].Len(); k > 0; k-- {
				r.pop(0, (n>>uint(k%8))&1 == 1)
			}
			c.Out.Emit(r.t)
		}
	}
	n := 150
	if c.Thorough {
		n = 1500
	}
	for i := 0; i < n; i++ {
		r := &heapRun{t: &Trace{ID: fmt.Sprintf("random-%d", i)}}
		r.new()
		ids := 2 + rng.Intn(24)
		vals := 1 + rng.Intn(30)
		if i%3 == 2 { // deep: some levels below the root before anything is taken
			ids, vals = 16+rng.Intn(60), 2+rng.Intn(100)
			if i%50 == 17 { // deeper still
				ids, vals = 260+rng.Intn(300), 1000
			}
			for _, id := range rng.Perm(ids) {
				r.insert(0, id, rng.Intn(vals))
			}
			for k := rng.Intn(ids); k > 0; k-- {
				switch rng.Intn(3) {
				case 0:
					r.insert(0, rng.Intn(ids), rng.Intn(vals))
				default:
					r.pop(0, rng.Intn(2) == 1)
				}
			}
		}
		for k := 20 + rng.Intn(60); k > 0; k-- {
			h := rng.Intn(len(r.hs))
			switch x := rng.Intn(20); {
			case x < 12:
				r.insert(h, rng.Intn(ids), rng.Intn(vals))
			case x < 15:
				r.pop(h, false)
			case x < 18:
				r.pop(h, true)
			case x < 19 && len(r.hs) < 4:
				r.clone(h)
			default:
				r.insert(h, rng.Intn(ids), rng.Intn(vals))
			}
		}
		for h := range r.hs {
			for k := 0; k < 600 && !r.hs[h].IsEmpty(); k++ {
				r.pop(h, rng.Intn(2) == 1)
			}
		}
		c.Out.Emit(r.t)
	}
}
