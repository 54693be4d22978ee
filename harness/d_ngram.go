package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/kevmo314/appendable/pkg/ngram"
	"golang.org/x/text/unicode/norm"
)

// The n-gram tokenizer of the indexer; the phrases also go to the one of the client.
func init() {
	drivers["ngram"] = drvNgram
	drivers["tsngram"] = fixNgram
}

func codes(s string) []int {
	out := []int{}
	for _, r := range s {
		out = append(out, int(r))
	}
	return out
}

// blocks of characters worth trying: each has been in Unicode for long, so that every
// implementation decomposes it the same way
var uniBlocks = [][2]rune{{0xa0, 0x17f}, {0x300, 0x34e}, {0x370, 0x377}, {0x400, 0x45f}, {0x5d0, 0x5ea}, {0x1e00, 0x1eff}, {0x2000, 0x200a}, {0x2028, 0x202f}, {0x2070, 0x2071}, {0x2074, 0x208e}, {0x20a8, 0x20ac}, {0x2100, 0x214f}, {0x2150, 0x2188}, {0x2460, 0x24ea}, {0x3000, 0x3001}, {0x3041, 0x3096}, {0x3300, 0x33ff}, {0x4e00, 0x4e20}, {0xac00, 0xac80}, {0xf900, 0xf910}, {0xfb00, 0xfb06}, {0xfdfa, 0xfdfa}, {0xff01, 0xff9f}, {0x1d400, 0x1d454}, {0x1f600, 0x1f64f}}

func phrase(rng *rand.Rand) string {
	var b strings.Builder
	ascii := []string{"abcXYZ019", "aA1 -_", "ab ", "\t\n\v\f\r \x00\x7f\x1f!@[`{~/:", "the quick"}[rng.Intn(5)]
	share := []int{1, 2, 4, 100}[rng.Intn(4)]
	for n := rng.Intn(24); n > 0; n-- {
		switch {
		case rng.Intn(share+1) == 0:
			x := uniBlocks[rng.Intn(len(uniBlocks))]
			b.WriteRune(x[0] + rune(rng.Intn(int(x[1]-x[0])+1)))
		case rng.Intn(12) == 0:
			b.WriteString(texts[rng.Intn(len(texts))])
		case rng.Intn(6) == 0:
			b.WriteByte(byte(rng.Intn(128)))
		default:
			b.WriteByte(ascii[rng.Intn(len(ascii))])
		}
	}
	return b.String()
}

// longPhrase has many words, a long word, or starts far behind its first byte.
func longPhrase(rng *rand.Rand) string {
	var b strings.Builder
	switch rng.Intn(3) {
	case 0:
		for n := 70 + rng.Intn(30); n > 0; n-- {
			b.WriteString([]string{"a", "bc", "def", "0", "x1", "The", "\u00e9t"}[rng.Intn(7)] + []string{" ", "\t", "  ", "\n"}[rng.Intn(4)])
		}
	case 1:
		for n := 270 + rng.Intn(60); n > 0; n-- {
			b.WriteByte("abcXYZ019-"[rng.Intn(10)])
		}
	default:
		b.WriteString(strings.Repeat([]string{" ", "-", "\u00df"}[rng.Intn(3)], 250+rng.Intn(30)))
		b.WriteString("abc " + phrase(rng))
	}
	return b.String()
}

func phrases(c *Ctx) []string {
	var out []string
	if c.In != "" {
		b, err := os.ReadFile(c.In)
		if err != nil {
			panic(err)
		}
		for _, line := range strings.Split(string(b), "\n") {
			var q struct {
				Cps []rune `json:"cps"`
			}
			if line == "" {
				continue
			}
			if err := json.Unmarshal([]byte(line), &q); err != nil {
				panic(err)
			}
			out = append(out, string(q.Cps))
		}
		return out
	}
	rng := rand.New(rand.NewSource(c.Seed + 1600))
	n := 1500
	if c.Thorough {
		n = 30000
	}
	for i := 0; i < n; i++ {
		if i%150 == 75 {
			out = append(out, longPhrase(rng))
			continue
		}
		out = append(out, phrase(rng))
	}
	return out
}

func toks(ts []ngram.Token) []Ev {
	out := []Ev{}
	for _, t := range ts {
		out = append(out, Ev{"w": codes(t.Word), "o": int(t.Offset), "n": int(t.Length)})
	}
	return out
}

func drvNgram(c *Ctx) {
	t := &Trace{ID: "n0"}
	for i, s := range phrases(c) {
		cp := codes(norm.NFKD.String(s))
		for g := 1; g <= 3+i%3/2; g++ {
			e := Ev{"op": "split", "s": codes(s), "cps": cp, "g": g, "toks": []Ev{}}
			var ts []ngram.Token
			e["res"], e["msg"] = guard(func() error {
				ts = ngram.BuildNgram(s, g)
				e["toks"] = toks(ts)
				return nil
			})
			t.add(e)
			if (i%9 == 0 || i%150 == 75) && e["res"] == "ok" {
				e := Ev{"op": "shuffle", "of": toks(ts), "toks": []Ev{}, "of2": []Ev{}}
				e["res"], e["msg"] = guard(func() error {
					e["toks"] = toks(ngram.Shuffle(ts))
					e["of2"] = toks(ts)
					return nil
				})
				t.add(e)
			}
		}
		if len(t.Ev) > 60 {
			c.Out.Emit(t)
			t = &Trace{ID: fmt.Sprintf("n%d", i+1)}
		}
	}
	c.Out.Emit(t)
}

func fixNgram(c *Ctx) {
	cs := []Ev{}
	for _, s := range phrases(c) {
		cs = append(cs, Ev{"s": codes(s), "cps": codes(norm.NFKD.String(s))})
	}
	if err := os.WriteFile(filepath.Join(c.Dir, "cases.json"), []byte(mustJSON(cs)), 0o644); err != nil {
		panic(err)
	}
	c.Out.Emit(&Trace{ID: "fixtures", Ev: []Ev{{"op": "cases", "n": len(cs)}}})
}
