package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/btree"
	"github.com/kevmo314/appendable/pkg/encoding"
	"github.com/kevmo314/appendable/pkg/hnsw"
	"github.com/kevmo314/appendable/pkg/pointer"
)

// Numbers, keys, nodes and metadata as bytes, whatever their size; the same inputs go to
// the client's side.
func init() {
	drivers["codec"] = drvCodec
	drivers["tscodec"] = fixCodec
}

// a number's limbs, 16 bits each, the lowest first
func limbs(u uint64) []int {
	return []int{int(u & 0xffff), int(u >> 16 & 0xffff), int(u >> 32 & 0xffff), int(u >> 48)}
}

func unlimbs(x []int) uint64 {
	var u uint64
	for i, l := range x {
		u |= uint64(l) << (16 * i)
	}
	return u
}

type codKey struct {
	O []int `json:"o"`
	N []int `json:"n"`
	V []int `json:"v"`
}

func (k codKey) ref() pointer.ReferencedValue {
	return pointer.ReferencedValue{DataPointer: pointer.MemoryPointer{Offset: unlimbs(k.O), Length: uint32(unlimbs(k.N))}, Value: unints(k.V)}
}

func unints(v []int) []byte {
	b := make([]byte, len(v))
	for i, x := range v {
		b[i] = byte(x)
	}
	return b
}

func keyOf(r pointer.ReferencedValue) codKey {
	return codKey{O: limbs(r.DataPointer.Offset), N: limbs(uint64(r.DataPointer.Length)), V: ints(r.Value)}
}

func pairOf(p pointer.MemoryPointer) Ev {
	return Ev{"o": limbs(p.Offset), "n": limbs(uint64(p.Length))}
}

// a number of any size, boundaries among them
func anyNum(rng *rand.Rand, bits int) uint64 {
	k := rng.Intn(bits + 1)
	if k == 0 {
		return 0
	}
	u := rng.Uint64() >> (64 - k)
	switch rng.Intn(4) {
	case 0:
		u = 1<<(k-1) + uint64(rng.Intn(3))
	case 1:
		u = 1<<(k-1) - 1 + 1<<(k-1)
	}
	return u & (math.MaxUint64 >> (64 - bits))
}

const codDataLen = 200000

func codData() []byte {
	b := make([]byte, codDataLen)
	for i := range b {
		b[i] = byte(7*i + i/256)
	}
	return b
}

func anyKey(rng *rand.Rand, w uint16, bits int) pointer.ReferencedValue {
	var k pointer.ReferencedValue
	if w == 0 {
		k.DataPointer.Offset = anyNum(rng, 17) % (codDataLen - 300)
		k.DataPointer.Length = uint32(rng.Intn(300))
		return k
	}
	k.DataPointer.Offset = anyNum(rng, bits)
	k.DataPointer.Length = uint32(anyNum(rng, 32))
	k.Value = make([]byte, w-1)
	rng.Read(k.Value)
	return k
}

// keys that are often close: the same value or one the beginning of the other, near offsets
func nearKeys(rng *rand.Rand, n int) []pointer.ReferencedValue {
	base := anyNum(rng, 64)
	len0 := uint32(anyNum(rng, 32))
	val := make([]byte, []int{rng.Intn(4), rng.Intn(4), 4, 8 + rng.Intn(3), rng.Intn(40)}[rng.Intn(5)]) // also of several words
	rng.Read(val)
	var ks []pointer.ReferencedValue
	for i := 0; i < n; i++ {
		k := pointer.ReferencedValue{DataPointer: pointer.MemoryPointer{Offset: base, Length: len0}, Value: append([]byte{}, val...)}
		switch rng.Intn(6) {
		case 0:
			k.DataPointer.Offset = anyNum(rng, 64)
		case 1:
			k.DataPointer.Offset = base ^ 1<<rng.Intn(64)
		}
		switch rng.Intn(5) {
		case 0:
			k.DataPointer.Length = uint32(anyNum(rng, 32))
		case 1:
			k.DataPointer.Length = len0 ^ 1<<rng.Intn(32)
		}
		switch rng.Intn(6) {
		case 0:
			k.Value = append(k.Value, byte(rng.Intn(256)))
		case 1:
			k.Value = k.Value[:rng.Intn(len(k.Value)+1)]
		case 2:
			if len(k.Value) > 0 {
				k.Value[rng.Intn(len(k.Value))] ^= 1 << rng.Intn(8)
			}
		}
		ks = append(ks, k)
	}
	return ks
}

type codIn struct {
	Num []int   `json:"num"`
	Ka  *codKey `json:"ka"`
	Kb  *codKey `json:"kb"`
}

func codInputs(c *Ctx) (nums []uint64, pairs [][2]pointer.ReferencedValue) {
	if c.In != "" {
		b, err := os.ReadFile(c.In)
		if err != nil {
			panic(err)
		}
		for _, line := range strings.Split(string(b), "\n") {
			var q codIn
			if line == "" {
				continue
			}
			if err := json.Unmarshal([]byte(line), &q); err != nil {
				panic(err)
			}
			if q.Num != nil {
				nums = append(nums, unlimbs(q.Num))
			} else {
				pairs = append(pairs, [2]pointer.ReferencedValue{q.Ka.ref(), q.Kb.ref()})
			}
		}
		return
	}
	rng := rand.New(rand.NewSource(c.Seed + 2800))
	n := 500
	if c.Thorough {
		n = 8000
	}
	for i := 0; i < n; i++ {
		nums = append(nums, anyNum(rng, 64))
		ks := nearKeys(rng, 2)
		pairs = append(pairs, [2]pointer.ReferencedValue{ks[0], ks[1]})
	}
	return
}

func sgn(n int) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

// the nodes to encode: with numbers from a list, or of any size
func codNodes(c *Ctx, rng *rand.Rand, nums []uint64, bits int) []*bptree.BPTreeNode {
	var out []*bptree.BPTreeNode
	n := 120
	if c.Thorough {
		n = 2000
	}
	at := 0
	num := func() uint64 {
		if c.In == "" || len(nums) == 0 {
			return anyNum(rng, bits)
		}
		at++
		return nums[at%len(nums)] & (math.MaxUint64 >> (64 - bits))
	}
	for i := 0; i < n; i++ {
		w := []uint16{0, 1, 2, 3, 4, 9, 9, 17}[rng.Intn(8)]
		nd := &bptree.BPTreeNode{Width: w}
		k := 1 + rng.Intn(6)
		if i%40 == 0 {
			k = 60 + rng.Intn(20)
		}
		for j := 0; j < k; j++ {
			key := anyKey(rng, w, bits)
			if w > 0 {
				key.DataPointer.Offset = num()
			}
			nd.Keys = append(nd.Keys, key)
		}
		if rng.Intn(2) == 0 {
			for j := 0; j < k; j++ {
				nd.LeafPointers = append(nd.LeafPointers, pointer.MemoryPointer{Offset: num(), Length: uint32(anyNum(rng, 32))})
			}
		} else {
			for j := 0; j <= k; j++ {
				nd.InternalPointers = append(nd.InternalPointers, num())
			}
		}
		out = append(out, nd)
	}
	return out
}

func nodeEv(nd *bptree.BPTreeNode) Ev {
	ks, rs, cs := []codKey{}, []Ev{}, [][]int{}
	for _, k := range nd.Keys {
		ks = append(ks, keyOf(k))
	}
	for _, p := range nd.LeafPointers {
		rs = append(rs, pairOf(p))
	}
	for _, p := range nd.InternalPointers {
		cs = append(cs, limbs(p))
	}
	return Ev{"leaf": nd.Leaf(), "ks": ks, "rs": rs, "cs": cs}
}

// a page as the node is read from: the node's bytes, then what is left over from another
func page(rng *rand.Rand, b []byte) []byte {
	pg := make([]byte, 4096)
	if rng.Intn(2) == 0 {
		rng.Read(pg)
	}
	copy(pg, b)
	return pg
}

func floats(v hnsw.Point) []int {
	out := []int{}
	for _, f := range v {
		u := math.Float32bits(f)
		out = append(out, int(u&255), int(u>>8&255), int(u>>16&255), int(u>>24))
	}
	return out
}

func vnodeEv(nd *btree.BTreeNode) Ev {
	is, cs, vs := []Ev{}, [][]int{}, [][]int{}
	for _, k := range nd.Ids {
		e := pairOf(k.DataPointer)
		e["x"] = limbs(uint64(k.Value))
		is = append(is, e)
	}
	for _, p := range nd.Offsets {
		cs = append(cs, limbs(p))
	}
	for _, v := range nd.Vectors {
		vs = append(vs, floats(v))
	}
	return Ev{"leaf": nd.Leaf(), "ids": is, "cs": cs, "dim": limbs(nd.VectorDim), "vs": vs}
}

func codName(rng *rand.Rand) string {
	s := texts[rng.Intn(len(texts))]
	for rng.Intn(3) == 0 {
		s += phrase(rng)
	}
	for len(s) > 300 {
		s = string([]rune(s)[:len([]rune(s))/2])
	}
	return strings.ToValidUTF8(s, "")
}

type codMeta struct {
	f appendable.FileMeta
	i appendable.IndexMeta
}

func codMetas(c *Ctx, rng *rand.Rand, nums []uint64) []codMeta {
	var out []codMeta
	n := len(nums)
	if n > 1200 && !c.Thorough {
		n = 1200
	}
	for j := 0; j < n; j++ {
		u, x := nums[rng.Intn(len(nums))], nums[j*len(nums)/n]
		if rng.Intn(4) == 0 {
			u = anyNum(rng, 64)
		}
		out = append(out, codMeta{
			appendable.FileMeta{Version: appendable.Version(rng.Intn(256)), Format: appendable.Format(rng.Intn(2)), ReadOffset: u, Entries: x},
			appendable.IndexMeta{FieldName: codName(rng), FieldType: appendable.FieldType(rng.Intn(12)), Width: uint16(anyNum(rng, 16)), TotalFieldValueLength: x},
		})
	}
	return out
}

func fmetaEv(m appendable.FileMeta) Ev {
	return Ev{"ver": int(m.Version), "fmt": int(m.Format), "off": limbs(m.ReadOffset), "entries": limbs(m.Entries)}
}

func imetaEv(m appendable.IndexMeta) Ev {
	return Ev{"t": int(m.FieldType), "w": int(m.Width), "name": ints([]byte(m.FieldName)), "total": limbs(m.TotalFieldValueLength)}
}

func drvCodec(c *Ctx) {
	nums, pairs := codInputs(c)
	rng := rand.New(rand.NewSource(c.Seed + 2801))
	t := &Trace{ID: "c0"}
	n := 0
	add := func(e Ev, f func() error) {
		e["res"], e["msg"] = guard(f)
		t.add(e)
		if len(t.Ev) >= 80 {
			c.Out.Emit(t)
			n++
			t = &Trace{ID: fmt.Sprintf("c%d", n)}
		}
	}
	for i, u := range nums {
		e := Ev{"op": "size", "x": limbs(u), "size": -1}
		add(e, func() error {
			e["size"] = encoding.SizeVarint(u)
			return nil
		})
		v := nums[rng.Intn(len(nums))]
		if i%3 == 0 {
			v = u ^ 1<<rng.Intn(64)
		} else if i%50 == 0 {
			v = u
		}
		x := Ev{"op": "cmpids", "x": limbs(u), "y": limbs(v), "c": 9}
		add(x, func() error {
			x["c"] = sgn(pointer.CompareReferencedIds(pointer.ReferencedId{Value: hnsw.Id(u)}, pointer.ReferencedId{Value: hnsw.Id(v)}))
			return nil
		})
	}
	for _, p := range pairs {
		e := Ev{"op": "cmp", "a": keyOf(p[0]), "k": keyOf(p[1]), "c": 9}
		add(e, func() error {
			e["c"] = sgn(pointer.CompareReferencedValues(p[0], p[1]))
			return nil
		})
	}
	data := codData()
	for _, nd := range codNodes(c, rng, nums, 64) {
		e := Ev{"op": "node", "w": int(nd.Width), "nd": nodeEv(nd), "b": []int{}, "size": -1, "back": nodeEv(&bptree.BPTreeNode{})}
		add(e, func() error {
			b, err := nd.MarshalBinary()
			if err != nil {
				return err
			}
			e["b"], e["size"] = ints(b), int(nd.Size())
			pg := page(rng, b)
			if len(b) > len(pg) {
				pg = b
			}
			back := &bptree.BPTreeNode{Data: data, DataParser: rawParser{}, Width: nd.Width}
			if err := back.UnmarshalBinary(pg); err != nil {
				return err
			}
			e["back"] = nodeEv(back)
			var w bytes.Buffer
			if k, err := nd.WriteTo(&w); err != nil || k != int64(len(b)) || !bytes.Equal(w.Bytes(), b) {
				return fmt.Errorf("WriteTo: %d %v", k, err)
			}
			return nil
		})
	}
	for i := 0; i < len(nums)/5; i++ {
		dim := 1 + rng.Intn(4)
		if i%20 == 0 {
			dim = 120 + rng.Intn(20)
		}
		nd := &btree.BTreeNode{Width: uint16(rng.Intn(3)), VectorDim: uint64(dim)}
		k := 1 + rng.Intn(5)
		for j := 0; j < k; j++ {
			nd.Ids = append(nd.Ids, pointer.ReferencedId{
				DataPointer: pointer.MemoryPointer{Offset: nums[rng.Intn(len(nums))], Length: uint32(anyNum(rng, 32))},
				Value:       hnsw.Id(nums[(5*i+j)%len(nums)]),
			})
			v := make(hnsw.Point, dim)
			for d := range v {
				v[d] = float32(rng.NormFloat64())
				switch rng.Intn(8) {
				case 0:
					v[d] = 0
				case 1:
					v[d] = float32(math.Copysign(0, -1))
				case 2:
					v[d] = math.MaxFloat32
				case 3:
					v[d] = float32(math.Inf(-1))
				case 4:
					v[d] = math.SmallestNonzeroFloat32
				}
			}
			nd.Vectors = append(nd.Vectors, v)
		}
		if rng.Intn(2) == 0 {
			for j := 0; j <= k; j++ {
				nd.Offsets = append(nd.Offsets, nums[rng.Intn(len(nums))])
			}
		}
		e := Ev{"op": "vnode", "nd": vnodeEv(nd), "b": []int{}, "size": -1, "back": vnodeEv(&btree.BTreeNode{})}
		add(e, func() error {
			b, err := nd.MarshalBinary()
			if err != nil {
				return err
			}
			e["b"], e["size"] = ints(b), int(nd.Size())
			back := &btree.BTreeNode{}
			if err := back.UnmarshalBinary(page(rng, b)); err != nil {
				return err
			}
			e["back"] = vnodeEv(back)
			return nil
		})
	}
	for i, m := range codMetas(c, rng, nums) {
		e := Ev{"op": "fmeta", "m": fmetaEv(m.f), "b": []int{}, "back": fmetaEv(appendable.FileMeta{})}
		var fb, ib []byte
		add(e, func() (err error) {
			if fb, err = m.f.MarshalBinary(); err != nil {
				return err
			}
			e["b"] = ints(fb)
			var back appendable.FileMeta
			err = back.UnmarshalBinary(fb)
			e["back"] = fmetaEv(back)
			return err
		})
		x := Ev{"op": "imeta", "m": imetaEv(m.i), "b": []int{}, "back": imetaEv(appendable.IndexMeta{})}
		add(x, func() (err error) {
			if ib, err = m.i.MarshalBinary(); err != nil {
				return err
			}
			x["b"] = ints(ib)
			var back appendable.IndexMeta
			err = back.UnmarshalBinary(ib)
			x["back"] = imetaEv(back)
			return err
		})
		if i%10 == 0 && len(fb) > 10 && len(ib) >= 6 {
			add(Ev{"op": "short", "what": "file"}, func() error {
				return new(appendable.FileMeta).UnmarshalBinary(fb[:i/10%10])
			})
			add(Ev{"op": "short", "what": "format"}, func() error {
				b := append([]byte{}, fb...)
				b[1] = byte(2 + rng.Intn(254))
				return new(appendable.FileMeta).UnmarshalBinary(b)
			})
			add(Ev{"op": "short", "what": "index"}, func() error {
				k := rng.Intn(6)
				if len(m.i.FieldName) > 0 && i%20 == 0 {
					k = 6 + rng.Intn(len(m.i.FieldName))
				}
				return new(appendable.IndexMeta).UnmarshalBinary(ib[:k])
			})
		}
	}
	c.Out.Emit(t)
}

func fixCodec(c *Ctx) {
	nums, pairs := codInputs(c)
	rng := rand.New(rand.NewSource(c.Seed + 2802))
	cs := Ev{}
	var xs [][]int
	for _, u := range nums {
		xs = append(xs, limbs(u))
	}
	cs["nums"] = xs
	var ps []Ev
	for _, p := range pairs {
		ps = append(ps, Ev{"a": keyOf(p[0]), "k": keyOf(p[1])})
	}
	cs["pairs"] = ps
	// keys in order, and one to look for
	var ls []Ev
	for i := 0; i < len(pairs)/4; i++ {
		ks := nearKeys(rng, 1+rng.Intn(12))
		sort.Slice(ks, func(i, j int) bool { return codLess(ks[i], ks[j]) })
		var in []codKey
		k := 0
		for j := range ks {
			if j == 0 || codLess(ks[j-1], ks[j]) {
				in = append(in, keyOf(ks[j]))
				ks[k] = ks[j]
				k++
			}
		}
		key := ks[rng.Intn(k)]
		if rng.Intn(2) == 0 {
			switch rng.Intn(3) {
			case 0:
				key.DataPointer.Offset ^= 1 << rng.Intn(64)
			case 1:
				key.DataPointer.Length ^= 1 << rng.Intn(32)
			case 2:
				key.Value = append(append([]byte{}, key.Value...), 0)
			}
		}
		ls = append(ls, Ev{"ks": in, "k": keyOf(key)})
	}
	cs["lists"] = ls
	var ns []Ev
	for _, nd := range codNodes(c, rng, nums, 53) {
		b := encNode(nd)
		ns = append(ns, Ev{"w": int(nd.Width), "nd": nodeEv(nd), "page": ints(page(rng, b))})
	}
	cs["nodes"] = ns
	var ms []Ev
	for i, m := range codMetas(c, rng, nums) {
		if i%3 != 0 && c.In != "" {
			continue
		}
		fb := binary.LittleEndian.AppendUint64([]byte{byte(m.f.Version), byte(m.f.Format)}, m.f.ReadOffset)
		fb = binary.AppendUvarint(fb, m.f.Entries)
		ib := binary.LittleEndian.AppendUint16(nil, uint16(m.i.FieldType))
		ib = binary.LittleEndian.AppendUint16(ib, m.i.Width)
		ib = binary.LittleEndian.AppendUint16(ib, uint16(len(m.i.FieldName)))
		ib = binary.AppendUvarint(append(ib, m.i.FieldName...), m.i.TotalFieldValueLength)
		ms = append(ms, Ev{"f": fmetaEv(m.f), "fb": ints(fb), "i": imetaEv(m.i), "ib": ints(ib)})
	}
	cs["metas"] = ms
	if err := os.WriteFile(filepath.Join(c.Dir, "cases.json"), []byte(mustJSON(cs)), 0o644); err != nil {
		panic(err)
	}
	c.Out.Emit(&Trace{ID: "fixtures", Ev: []Ev{{"op": "cases", "n": len(nums)}}})
}

// the same bytes as the specification's, not the indexer's, for the client
func encNode(nd *bptree.BPTreeNode) []byte {
	n := int32(len(nd.Keys))
	if len(nd.LeafPointers) > 0 {
		n = -n
	}
	b := binary.LittleEndian.AppendUint32(nil, uint32(n))
	for _, k := range nd.Keys {
		b = binary.AppendUvarint(binary.AppendUvarint(b, k.DataPointer.Offset), uint64(k.DataPointer.Length))
		b = append(b, k.Value...)
	}
	for _, p := range nd.LeafPointers {
		b = binary.AppendUvarint(binary.AppendUvarint(b, p.Offset), uint64(p.Length))
	}
	for _, p := range nd.InternalPointers {
		b = binary.AppendUvarint(b, p)
	}
	return b
}

// the order is decided by the specification; here it only has to be the same for the same keys
func codLess(a, b pointer.ReferencedValue) bool {
	if c := bytes.Compare(a.Value, b.Value); c != 0 {
		return c < 0
	}
	if a.DataPointer.Offset != b.DataPointer.Offset {
		return a.DataPointer.Offset < b.DataPointer.Offset
	}
	return a.DataPointer.Length < b.DataPointer.Length
}
