package main

import (
	"fmt"
	"math"
	"math/rand"
	"slices"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

// The generator of JSONL data builds values first and writes them down itself, so it
// knows every field's type, value and place without parsing anything.

type jField struct {
	key  string
	t    int // field type
	v    []byte
	o, n int // where the value is written, relative to the file
	c    []int
	m    []jField
	raw  string
}

type jLine struct {
	o, n int
	f    []jField
	bad  string // "" for a good record
	raw  string
}

func ints(b []byte) []int {
	out := make([]int, len(b))
	for i, x := range b {
		out[i] = int(x)
	}
	return out
}

func (f jField) ev() Ev {
	ms := []Ev{}
	for _, x := range f.m {
		ms = append(ms, x.ev())
	}
	c := f.c
	if c == nil {
		c = []int{}
	}
	return Ev{"k": f.key, "t": f.t, "v": ints(f.v), "o": f.o, "n": f.n, "c": c, "m": ms}
}

func (l jLine) ev() Ev {
	fs := []Ev{}
	for _, x := range l.f {
		fs = append(fs, x.ev())
	}
	return Ev{"o": l.o, "n": l.n, "f": fs, "bad": l.bad}
}

type jGen struct {
	rng    *rand.Rand
	search map[string]bool
	keys   []string
	ws     bool // white space between tokens
	uni    bool // non-ASCII and escapes
	depth  int
	b      strings.Builder
	base   int
	longs  bool
	uniq   bool                            // no key twice in one object
	nonneg bool                            // no negative numbers
	val    func(name string) (int, string) // picks the type and the value of a field, or nil
}

func (g *jGen) sp() {
	if !g.ws {
		return
	}
	for g.rng.Intn(3) == 0 {
		g.b.WriteString([]string{" ", "\t", "\r", "  "}[g.rng.Intn(4)])
	}
}

func (g *jGen) at() int { return g.base + g.b.Len() }

// str writes a string literal, with escapes where the value needs or the dice want them.
func (g *jGen) str(s string) {
	g.b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			g.b.WriteByte('\\')
			g.b.WriteRune(r)
		case r < 0x20:
			short := map[rune]string{'\n': "\\n", '\t': "\\t", '\r': "\\r", '\b': "\\b", '\f': "\\f"}
			if e, ok := short[r]; ok && g.rng.Intn(2) == 0 {
				g.b.WriteString(e)
			} else {
				fmt.Fprintf(&g.b, "\\u%04x", r)
			}
		case g.uni && g.rng.Intn(6) == 0:
			if r > 0xffff {
				a, b := utf16.EncodeRune(r)
				fmt.Fprintf(&g.b, "\\u%04X\\u%04x", a, b)
			} else if r == '/' {
				g.b.WriteString("\\/")
			} else {
				fmt.Fprintf(&g.b, "\\u%04x", r)
			}
		default:
			g.b.WriteRune(r)
		}
	}
	g.b.WriteByte('"')
}

var jNums = []string{"0", "-0", "1", "-1", "2", "3", "10", "1.5", "-2.5", "1e3", "1E+3", "1000", "1e-3", "0.001", "123456789012345678", "0.1", "-2.5e-3", "1.7976931348623157e308", "5e-324", "1e-400", "9007199254740993", "-1e2", "4", "5", "6", "7.25", "20.0", "3.50", "-8.00", "18446744073709551616"}

var jWords = []string{"", "a", "ab", "abc", "the quick brown fox", "Hello World", "x y z", "it's", "foo-bar_baz", "AAA aaa", "  lead", "trail  ", "12 345 6789", "a b c d e f", "tab\tsep", "new\nline", "lorem ipsum dolor sit amet", "Q", "aaaa"}
var jUni = []string{"é", "naïve", "日本語", "\U0001F600 smile", "a\u0000b", "\u2028", "quote\"back\\slash/", "ÀÉÎ", "ß", "\uFFFD", "{\"a\":1}", "[1,2]", "null", "true", "12", "}", ",", ":", "[", "]", "{", "]["}

func (g *jGen) strval(name string) string {
	if g.longs && g.rng.Intn(12) == 0 {
		if g.rng.Intn(6) == 0 { // many words
			return strings.Repeat(jWords[1+g.rng.Intn(5)]+" ", 65+g.rng.Intn(20))
		}
		return strings.Repeat(string(rune('a'+g.rng.Intn(26))), 100+g.rng.Intn(500))
	}
	if g.uni && !g.search[name] && g.rng.Intn(3) == 0 {
		return jUni[g.rng.Intn(len(jUni))] + jWords[g.rng.Intn(len(jWords))]
	}
	return jWords[g.rng.Intn(len(jWords))]
}

// junk writes a value nobody looks at (inside an array).
func (g *jGen) junk(d int) {
	switch x := g.rng.Intn(8); {
	case x < 2 && d > 0:
		g.b.WriteByte('[')
		for i, n := 0, g.rng.Intn(4); i < n; i++ {
			if i > 0 {
				g.b.WriteByte(',')
			}
			g.sp()
			g.junk(d - 1)
			g.sp()
		}
		g.b.WriteByte(']')
	case x < 4 && d > 0:
		g.b.WriteByte('{')
		for i, n := 0, g.rng.Intn(3); i < n; i++ {
			if i > 0 {
				g.b.WriteByte(',')
			}
			g.sp()
			g.str(g.keys[g.rng.Intn(len(g.keys))])
			g.sp()
			g.b.WriteByte(':')
			g.sp()
			g.junk(d - 1)
			g.sp()
		}
		g.b.WriteByte('}')
	case x == 4:
		g.str(jUni[g.rng.Intn(len(jUni))])
	case x == 5:
		g.b.WriteString(jNums[g.rng.Intn(len(jNums))])
	default:
		g.b.WriteString([]string{"true", "false", "null"}[g.rng.Intn(3)])
	}
}

func fbytes(s string) []byte {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic(err)
	}
	b := math.Float64bits(f)
	out := make([]byte, 8)
	for i := range out {
		out[i] = byte(b >> (56 - 8*uint(i)))
	}
	return out
}

func (g *jGen) obj(prefix string, d, nf int, only int) []jField {
	var out []jField
	var perm []int
	if g.uniq {
		perm = g.rng.Perm(len(g.keys))
		nf = min(nf, len(perm))
	}
	g.b.WriteByte('{')
	g.sp()
	for i := 0; i < nf; i++ {
		if i > 0 {
			g.b.WriteByte(',')
			g.sp()
		}
		f := jField{key: g.keys[g.rng.Intn(len(g.keys))]}
		if g.uniq {
			f.key = g.keys[perm[i]]
		}
		name := prefix + f.key
		g.str(f.key)
		g.sp()
		g.b.WriteByte(':')
		g.sp()
		f.o = g.at()
		x := g.rng.Intn(12)
		if only >= 0 {
			x = only
		} else if g.depth > 4 && d > 0 && i == 0 {
			x = 11 // objects in objects, all the way down
		}
		var given string
		if g.val != nil {
			x, given = g.val(name)
		}
		switch {
		case x < 3:
			s := g.strval(name)
			if g.val != nil {
				s = given
			}
			f.t, f.v = 0, []byte(s)
			if g.search[name] {
				for _, r := range s {
					f.c = append(f.c, int(r))
				}
			}
			g.str(s)
		case x < 6:
			s := jNums[g.rng.Intn(len(jNums))]
			if g.rng.Intn(3) == 0 {
				s = strconv.Itoa(g.rng.Intn(2000) - 1000)
			}
			if g.nonneg {
				s = strings.TrimPrefix(s, "-")
			}
			if g.val != nil {
				s = given
			}
			f.t, f.v = 3, fbytes(s)
			g.b.WriteString(s)
		case x < 8:
			f.t = 6
			if g.rng.Intn(2) == 0 {
				f.v = []byte{1}
				g.b.WriteString("true")
			} else {
				f.v = []byte{0}
				g.b.WriteString("false")
			}
		case x < 9:
			f.t = 7
			g.b.WriteString("null")
		case x < 10:
			f.t = 5
			if strings.HasPrefix(given, "[") {
				g.b.WriteString(given)
				break
			}
			g.b.WriteByte('[')
			for i, n := 0, g.rng.Intn(4); i < n; i++ {
				if i > 0 {
					g.b.WriteByte(',')
				}
				g.sp()
				g.junk(3)
				g.sp()
			}
			g.b.WriteByte(']')
		default:
			if d == 0 || len(name) > 170 { // names have a limit
				f.t = 5
				g.b.WriteString("[]")
			} else {
				f.t = 4
				below, nf := d-1, g.rng.Intn(4)
				if g.depth > 4 {
					if i == 0 {
						nf = max(nf, 1)
					} else { // only one of the fields goes deep
						below = min(below, 1)
					}
				}
				f.m = g.obj(name+".", below, nf, -1)
			}
		}
		f.n = g.at() - f.o
		g.sp()
		out = append(out, f)
	}
	g.b.WriteByte('}')
	return out
}

func (g *jGen) line(base, nf, only int) jLine {
	g.base = base
	g.b.Reset()
	g.sp()
	l := jLine{o: base}
	l.f = g.obj("", g.depth, nf, only)
	g.sp()
	l.raw = g.b.String()
	l.n = len(l.raw)
	return l
}

// badLine is a line which is no record; some of its fields may be fine.
func (g *jGen) badLine(base int) jLine {
	kinds := []struct{ k, s string }{
		{"blank", ""}, {"space", "  \t"}, {"array", "[1,2]"}, {"scalar", "12"}, {"string", "\"x\""}, {"null", "null"},
		{"torn", "{\"a\":1,\"b\":\"x"}, {"torn2", "{\"a\":1,\"b\":"}, {"torn3", "{\"a\":1"}, {"torn4", "{\"a\":1,"}, {"torn5", "{"},
		{"nokey", "{\"a\":1,2:3}"}, {"nocolon", "{\"a\":1,\"b\" 2}"}, {"nocomma", "{\"a\":1 \"b\":2}"}, {"brace", "{\"a\":{\"b\":1}"},
		{"badnum", "{\"a\":1,\"b\":01}"}, {"range", "{\"a\":1,\"b\":1e999}"}, {"badlit", "{\"a\":true,\"b\":nul}"}, {"badesc", "{\"a\":\"x\",\"b\":\"\\q\"}"},
		{"ctrl", "{\"a\":1,\"b\":\"x\x01\"}"}, {"arr", "{\"a\":1,\"b\":[1,}"}, {"arr2", "{\"a\":1,\"b\":[1,[2]"}, {"text", "hello"}, {"nested", "{\"a\":1,\"e\":{\"f\":2,\"g\":bad}}"},
		{"longname", "{\"a\":7,\"" + strings.Repeat("L", 300) + "\":1}"}, {"longpath", "{\"a\":7,\"" + strings.Repeat("L", 130) + "\":{\"" + strings.Repeat("M", 130) + "\":1}}"},
		{"close", "}"}, {"arrrange", "{\"a\":1,\"b\":[1e999]}"},
		{"after", "{\"a\":1} x"}, {"two", "{\"a\":1}{\"b\":2}"}, {"two2", "{\"a\":1} {\"a\":2}"}, {"comma", "{\"a\":1},"}, {"bracket", "{\"a\":1}]"}, {"brace2", "{\"a\":1}}"},
		{"nul", "{\"a\":1}\x00"}, {"bom", "\ufeff{\"a\":1}"}, {"arr3", "{\"a\":1,\"b\":[1 2]}"}, {"arr4", "{\"a\":1,\"b\":[1,]}"}, {"arr5", "{\"a\":1,\"b\":[}]}"}, {"arr6", "{\"a\":1,\"b\":[{\"c\" 1}]}"},
	}
	x := kinds[g.rng.Intn(len(kinds))]
	return jLine{o: base, n: len(x.s), raw: x.s, bad: x.k}
}

func newJGen(rng *rand.Rand) *jGen {
	g := &jGen{rng: rng, search: map[string]bool{}, depth: []int{0, 1, 2, 3, 1 + rng.Intn(3), 12}[rng.Intn(6)], ws: rng.Intn(2) == 0, uni: rng.Intn(2) == 0, longs: rng.Intn(3) == 0}
	pool := []string{"a", "b", "c", "id", "name", "x", "", "a.b", "b.c", "été", "k\"q", "sp ace"}
	for _, i := range rng.Perm(len(pool))[:3+rng.Intn(5)] {
		g.keys = append(g.keys, pool[i])
	}
	if rng.Intn(3) == 0 { // names that are nearly each other
		near := [][2]string{{"a", "A"}, {"id", "ID"}, {"été", "e\u0301te\u0301"}, {"x", "x "}, {"sp ace", "sp\u00a0ace"}, {"name", "nam\u0435"}}[rng.Intn(6)]
		i := rng.Intn(len(g.keys))
		g.keys = slices.DeleteFunc(g.keys, func(k string) bool { return k == near[0] })
		g.keys = slices.Insert(g.keys, min(i, len(g.keys)), near[:]...)
	}
	if rng.Intn(2) == 0 {
		for i := 0; i < 1+rng.Intn(2); i++ {
			g.search[g.keys[rng.Intn(len(g.keys))]] = true
		}
		if rng.Intn(2) == 0 {
			g.search[g.keys[0]+"."+g.keys[1]] = true
		}
	}
	return g
}

func (g *jGen) searchList() []string {
	out := []string{}
	for k := range g.search {
		out = append(out, k)
	}
	return sorted(out)
}

// file makes n lines; bads says which may be bad.
func (g *jGen) file(n int, bad func(i int) bool) ([]jLine, []byte) {
	var ls []jLine
	var b strings.Builder
	for i := 0; i < n; i++ {
		var l jLine
		if bad != nil && bad(i) {
			l = g.badLine(b.Len())
		} else {
			l = g.line(b.Len(), g.rng.Intn(7), -1)
		}
		ls = append(ls, l)
		b.WriteString(l.raw)
		b.WriteByte('\n')
	}
	if !utf8.ValidString(b.String()) {
		panic("generator")
	}
	return ls, []byte(b.String())
}

func lineEvs(ls []jLine) []Ev {
	out := []Ev{}
	for _, l := range ls {
		out = append(out, l.ev())
	}
	return out
}
