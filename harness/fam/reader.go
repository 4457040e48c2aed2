// Package fam makes the families of cases that the checks run.
package fam

import (
	"bytes"
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"math/rand"
	"sort"

	"github.com/chronos-tachyon/flate/verifharness/gen"
	"github.com/chronos-tachyon/flate/verifharness/run"
)

// Case is one case of any kind.
type Case struct {
	ID   string          `json:"id"`
	Note string          `json:"note"`
	Big  bool            `json:"big"`
	R    *run.ReaderCase `json:"r,omitempty"`
	W    *run.WriterCase `json:"w,omitempty"`
	// Stir makes other instances work at the same time: "nested" in the
	// case's calls and callbacks, or "par".
	Stir  string `json:"stir,omitempty"`
	Where bool   `json:"where,omitempty"`
}

var fmts3 = []string{"raw", "zlib", "gzip"}

type rgen struct {
	rng   *rand.Rand
	tier  string
	cases []Case
	seen  map[string]bool
}

func (g *rgen) n(quick, thorough int) int {
	if g.tier == "thorough" {
		return thorough
	}
	return quick
}

func (g *rgen) add(note string, big bool, c *run.ReaderCase) {
	if c.WB == 0 {
		c.WB = 15
	}
	if !c.HasDict {
		c.Dict = []byte{}
	}
	if c.B == nil {
		c.B = []byte{}
	}
	if c.SrcErr != "" && len(g.cases)%2 == 1 {
		c.SrcKind = run.SrcKinds[len(g.cases)/2%len(run.SrcKinds)]
	}
	key := fmt.Sprintf("%s|%s|%d|%x|%s", c.B, c.Fmt, c.WB, c.Dict, c.SrcErr)
	if g.seen[key] {
		return
	}
	g.seen[key] = true
	g.cases = append(g.cases, Case{ID: fmt.Sprintf("r%d", len(g.cases)), Note: note, Big: big, R: c})
}

// vars gives a basic set of variants: one with events and a few others.
func (g *rgen) vars(k int) []run.Variant {
	segs := []string{"all", "one", "rand", "eof", "oneeof", "randeof", "zero"}
	rss := []string{"big", "one", "rand", "odd"}
	mls := []int{0, 1, 1, 2, 3, 5, 9}
	vs := []run.Variant{{ML: mls[g.rng.Intn(len(mls))], Seg: "all", RS: "big", Ev: true}}
	for i := 1; i < k; i++ {
		vs = append(vs, run.Variant{ML: mls[g.rng.Intn(len(mls))], Seg: segs[g.rng.Intn(len(segs))], RS: rss[g.rng.Intn(len(rss))],
			Seed: g.rng.Int63n(1 << 30), Reuse: g.rng.Intn(4) == 0})
	}
	return vs
}

// allVars is every combination of segmentation and read size.
func (g *rgen) allVars() []run.Variant {
	var vs []run.Variant
	for _, ml := range []int{1, 2, 0} {
		for _, s := range []string{"all", "one", "rand", "eof", "oneeof", "randeof", "zero"} {
			for _, rs := range []string{"big", "one", "rand", "odd"} {
				vs = append(vs, run.Variant{ML: ml, Seg: s, RS: rs, Seed: g.rng.Int63n(1 << 30)})
			}
		}
	}
	return vs
}

func (g *rgen) dict(n int) []byte {
	d := make([]byte, 1+g.rng.Intn(n))
	a := 1 + g.rng.Intn(4)
	for i := range d {
		d[i] = byte(g.rng.Intn(a * 60))
	}
	return d
}

// small makes a short random valid stream.
func (g *rgen) small(format string, dict []byte, members int) *gen.Builder {
	b := gen.NewBuilder(g.rng, dict, 15)
	for i := 0; i < members; i++ {
		b.WB = 8 + g.rng.Intn(8)
		b.RandMember(format, 3, 10, 24)
	}
	return b
}

func (g *rgen) big(format string, dict []byte, members, tokens int) *gen.Builder {
	b := gen.NewBuilder(g.rng, dict, 15)
	for i := 0; i < members; i++ {
		b.WB = 15
		if g.rng.Intn(3) == 0 {
			b.WB = 8 + g.rng.Intn(8)
		}
		b.RandMember(format, 4, tokens, 258)
	}
	return b
}

// fmtFor returns the explicit format or auto.
func (g *rgen) fmtFor(f string) string {
	if g.rng.Intn(2) == 0 {
		return "auto"
	}
	return f
}

// unambiguous reports whether the auto mode sees every raw member as raw: the
// spec decides that itself, so any stream will do.

// Reader returns the Reader cases for a property.
func Reader(prop string, seed int64, tier string) []Case {
	g := &rgen{rng: rand.New(rand.NewSource(seed*1000003 + int64(len(prop)) + int64(prop[len(prop)-1])*17)), tier: tier, seen: map[string]bool{}}
	switch prop {
	case "P03":
		g.validSmall(g.n(450, 4000))
		g.systematic()
		g.validBig(g.n(60, 600))
		g.longHeaders()
		g.manyBlocks()
	case "P04":
		g.headerBytes()
		g.malformed(g.n(25, 200))
		g.mutate(g.n(500, 6000))
		g.enumerate()
	case "P05":
		g.trailers()
	case "P06":
		g.truncate(g.n(14, 80))
	case "P07":
		g.ordering()
	case "P08":
		g.concat()
		g.manyStreams()
	case "P09":
		g.formats()
	case "P10":
		g.chunking()
	case "P19":
		g.validSmall(g.n(250, 2000))
		g.malformed(g.n(4, 30))
		g.validBig(g.n(20, 200))
		g.manyHeaders(g.n(30, 300))
		for i := range g.cases {
			g.cases[i].R.Vars = g.cases[i].R.Vars[:1]
			v := g.cases[i].R.Vars[0]
			v.Seg, v.ML, v.RS, v.Seed = "rand", 1, "rand", int64(i)
			g.cases[i].R.Vars = append(g.cases[i].R.Vars, v)
		}
	case "P20":
		g.gzHeaders()
		g.manyHeaders(g.n(30, 300))
		g.longHeaders()
	case "P21":
		g.dicts()
	case "P29":
		g.malformed(g.n(20, 150))
		g.mutate(g.n(500, 5000))
		g.headerBytes()
		g.trailers()
		small := g.cases[:0]
		for _, c := range g.cases {
			if !c.Big {
				c.Where = true
				small = append(small, c)
			}
		}
		g.cases = small
	case "P16":
		g.reset()
	case "P28":
		g.together()
	case "P22":
		g.windows()
	}
	return g.cases
}

func (g *rgen) validSmall(n int) {
	for i := 0; i < n; i++ {
		f := fmts3[g.rng.Intn(3)]
		var dict []byte
		if f != "gzip" && g.rng.Intn(4) == 0 {
			dict = g.dict(40)
		}
		b := g.small(f, dict, 1+g.rng.Intn(5)/4)
		g.add("valid", false, &run.ReaderCase{B: b.W.B, Fmt: g.fmtFor(f), Dict: dict, HasDict: dict != nil, Vars: g.vars(3)})
	}
}

// systematic: every length and distance code, extreme code lengths, empty blocks.
func (g *rgen) systematic() {
	// every length with distance 1..4; static block
	for l := 3; l <= 258; l++ {
		if g.tier != "thorough" && l > 40 && l%7 != 0 && l < 250 {
			continue
		}
		b := gen.NewBuilder(g.rng, nil, 15)
		b.Begin("raw", 15, 0, nil)
		toks := b.RandTokens(6, 3, 256)
		t := gen.Token{Len: l, Dist: 1 + g.rng.Intn(b.HistLen())}
		toks = append(toks, b.Apply(t), b.Apply(gen.Token{Lit: 7}))
		if l%2 == 0 {
			b.Static(toks, true)
		} else {
			b.Dynamic(toks, true)
		}
		b.End()
		g.add("length", false, &run.ReaderCase{B: b.W.B, Fmt: "raw", Vars: g.vars(2)})
	}
	// every distance symbol, low / high value of its extra bits; needs history
	hist := make([]byte, 32768)
	g.rng.Read(hist)
	for s := 0; s < 30; s++ {
		for _, d := range gen.DistRange(s) {
			b := gen.NewBuilder(g.rng, nil, 15)
			b.Begin("zlib", 15, 2, nil)
			b.Stored(hist[:d], false)
			toks := []gen.Token{b.Apply(gen.Token{Len: 3 + g.rng.Intn(20), Dist: d})}
			if g.rng.Intn(2) == 0 {
				b.Static(toks, true)
			} else {
				b.Dynamic(toks, true)
			}
			b.End()
			g.add("distance", d > 200, &run.ReaderCase{B: b.W.B, Fmt: "zlib", Vars: g.vars(2)})
		}
	}
	// empty blocks
	for k := 0; k < 12; k++ {
		b := gen.NewBuilder(g.rng, nil, 15)
		f := fmts3[k%3]
		b.Begin(f, 15, 1, nil)
		for j := g.rng.Intn(4); j >= 0; j-- {
			switch (k + j) % 3 {
			case 0:
				b.Stored(nil, j == 0)
			case 1:
				b.Static(nil, j == 0)
			default:
				b.Dynamic(nil, j == 0)
			}
		}
		b.End()
		g.add("empty blocks", false, &run.ReaderCase{B: b.W.B, Fmt: f, Vars: g.vars(3)})
	}
	// the whole code space at maximum depth
	for k := 0; k < g.n(12, 60); k++ {
		b := gen.NewBuilder(g.rng, nil, 15)
		b.Begin("raw", 15, 1, nil)
		b.Deep = true
		b.Dynamic(b.RandTokens(30, 258, 256), true)
		b.End()
		g.add("deep codes", false, &run.ReaderCase{B: b.W.B, Fmt: "raw", Vars: g.vars(2)})
	}
	// repeats of code lengths which start and end everywhere
	for k := 0; k < g.n(60, 400); k++ {
		b := gen.NewBuilder(g.rng, nil, 15)
		f := fmts3[k%3]
		b.Begin(f, 15, 1, nil)
		if k%3 == 0 {
			b.Flat(b.RandTokens(1+g.rng.Intn(12), 258, 256), k%2 == 0)
		} else {
			b.Flat(nil, k%2 == 0)
		}
		if k%2 != 0 {
			b.Static(b.RandTokens(3, 10, 4), true)
		}
		b.End()
		g.add("flat codes", false, &run.ReaderCase{B: b.W.B, Fmt: f, Vars: g.vars(2)})
	}
	// stored blocks of special sizes
	for _, n := range []int{0, 1, 127, 128, 129, 255, 256, 8191, 8192, 32767, 32768, 65534, 65535} {
		b := gen.NewBuilder(g.rng, nil, 15)
		b.Begin("gzip", 15, 1, gen.RandGz(g.rng))
		d := make([]byte, n)
		g.rng.Read(d)
		b.Static(b.RandTokens(g.rng.Intn(3), 5, 4), false)
		b.Stored(d, false)
		b.Static(b.RandTokens(3+g.rng.Intn(9), 258, 4), true)
		b.End()
		g.add("stored size", n > 200, &run.ReaderCase{B: b.W.B, Fmt: "gzip", Vars: g.vars(3)})
	}
}

func (g *rgen) validBig(n int) {
	for i := 0; i < n; i++ {
		f := fmts3[g.rng.Intn(3)]
		var dict []byte
		if f != "gzip" && g.rng.Intn(4) == 0 {
			dict = g.dict(40000)
		}
		b := g.big(f, dict, 1+g.rng.Intn(5)/3, 1+gen.Logu(g.rng, 6000))
		g.add("valid big", true, &run.ReaderCase{B: b.W.B, Fmt: g.fmtFor(f), Dict: dict, HasDict: dict != nil, Vars: g.vars(4)})
	}
}

// malformed: each kind of defect, after some valid data.
func (g *rgen) malformed(per int) {
	for _, kind := range gen.Bad {
		for k := 0; k < per; k++ {
			f := fmts3[g.rng.Intn(3)]
			var dict []byte
			if f != "gzip" && g.rng.Intn(5) == 0 {
				dict = g.dict(40)
			}
			wb := 15
			if kind == "toofarwin" {
				wb = 8
			}
			b := gen.NewBuilder(g.rng, dict, wb)
			for j := []int{0, 0, 0, 0, 0, 1, 1, 2, 3, 6}[g.rng.Intn(10)]; j > 0; j-- {
				b.RandMember(f, 2, 6, 20)
			}
			b.Begin(f, wb, g.rng.Intn(4), gen.RandGz(g.rng))
			if kind == "toofarwin" {
				b.Stored(make([]byte, 256+g.rng.Intn(6)), false)
			} else {
				for j := g.rng.Intn(3); j > 0; j-- {
					if g.rng.Intn(2) == 0 {
						b.Static(b.RandTokens(g.rng.Intn(8), 20, 4), false)
					} else {
						b.Stored([]byte("xyz"), false)
					}
				}
			}
			b.BadBlock(kind)
			b.Static(nil, true)
			b.End()
			g.add("malformed "+kind, false, &run.ReaderCase{B: b.W.B, Fmt: g.fmtFor(f), WB: wb, Dict: dict, HasDict: dict != nil, Vars: g.vars(2)})
		}
	}
}

// mutate: damage valid streams anywhere.
func (g *rgen) mutate(n int) {
	for i := 0; i < n; i++ {
		f := fmts3[g.rng.Intn(3)]
		b := g.small(f, nil, 1+g.rng.Intn(4)/3)
		x := append([]byte{}, b.W.B...)
		for k := 1 + g.rng.Intn(2); k > 0; k-- {
			switch p := g.rng.Intn(len(x)); g.rng.Intn(5) {
			case 0, 1:
				x[p] ^= 1 << uint(g.rng.Intn(8))
			case 2:
				x[p] = byte(g.rng.Intn(256))
			case 3:
				x = append(x[:p], append([]byte{byte(g.rng.Intn(256))}, x[p:]...)...)
			default:
				if len(x) > 1 {
					x = append(x[:p], x[p+1:]...)
				}
			}
		}
		ft := g.fmtFor(f)
		if g.rng.Intn(12) == 0 {
			ft = fmts3[g.rng.Intn(3)]
		}
		g.add("mutated", false, &run.ReaderCase{B: x, Fmt: ft, Vars: g.vars(2)})
	}
}

// enumerate: all short inputs (within the tier's bound).
func (g *rgen) enumerate() {
	one := []run.Variant{{ML: 1, Seg: "all", RS: "big"}}
	for _, f := range []string{"raw", "auto", "zlib", "gzip"} {
		g.add("all inputs of 0 bytes", false, &run.ReaderCase{B: []byte{}, Fmt: f, Vars: one})
		for a := 0; a < 256; a++ {
			g.add("all inputs of 1 byte", false, &run.ReaderCase{B: []byte{byte(a)}, Fmt: f, Vars: one})
		}
	}
	step := g.n(16, 1)
	off := int(g.rng.Int31n(int32(step)))
	for a := 0; a < 65536; a++ {
		if a%step == off {
			g.add("raw inputs of 2 bytes", false, &run.ReaderCase{B: []byte{byte(a), byte(a >> 8)}, Fmt: "raw", Vars: one})
		}
	}
	// zlib headers: followed by an empty stream
	for a := 0; a < 65536; a++ {
		if a%step == off || (a&15 == 8 && ((a&255)<<8|a>>8)%31 == 0) {
			g.add("zlib headers", false, &run.ReaderCase{B: []byte{byte(a), byte(a >> 8), 3, 0, 0, 0, 0, 1}, Fmt: "zlib", WB: 15, Vars: one})
		}
	}
	for i := 0; i < g.n(1500, 20000); i++ {
		x := make([]byte, 3+g.rng.Intn(10))
		g.rng.Read(x)
		x[0] = x[0]&^6 | byte(2+2*(g.rng.Intn(4)&1)) // mostly compressed blocks
		g.add("random short", false, &run.ReaderCase{B: x, Fmt: "raw", Vars: one})
	}
}

// otherValues: what the field r of b could be taken for, or be made of by
// some mistake, other than what it is.
func (g *rgen) otherValues(b *gen.Builder, name string, r [2]int) (out [][]byte) {
	x := b.W.B[r[0]:r[1]]
	w := uint(len(x))
	put := func(v uint64, le bool) {
		y := make([]byte, w)
		for i := range y {
			k := uint(i)
			if !le {
				k = w - 1 - k
			}
			y[i] = byte(v >> (8 * k))
		}
		if !bytes.Equal(x, y) {
			out = append(out, y)
		}
	}
	le := name != "adler" && name != "dictid"
	v, rev := uint64(0), uint64(0)
	for i, c := range x {
		if le {
			v |= uint64(c) << (8 * uint(i))
		} else {
			v = v<<8 | uint64(c)
		}
	}
	for i := uint(0); i < 8*w; i++ {
		rev |= v >> i & 1 << (8*w - 1 - i)
	}
	h := 4 * w // half
	lo, hi := v&(1<<h-1), v>>h
	vals := []uint64{0, 1, 1<<(8*w) - 1, ^v, v + 1, v - 1, rev, ^rev, lo<<h | hi, lo, hi << h, lo << h, hi, v + 1<<h, v - 1<<h, v << 1, v >> 1, v << 8, v >> 8, -v,
		v + 65521, v + 65521<<16, v - 65521, v - 65521<<16, v + 65536, v ^ 1<<(8*w-1), v&^0xff | 0xff, g.rng.Uint64(), g.rng.Uint64()}
	data := b.Out
	for _, q := range [][]byte{data, nil, b.Dict, b.W.B, b.W.B[:r[0]]} {
		vals = append(vals, uint64(crc32.ChecksumIEEE(q)), uint64(crc32.ChecksumIEEE(q))>>16, uint64(^crc32.ChecksumIEEE(q)), uint64(adler32.Checksum(q)), uint64(len(q)))
	}
	for _, v := range vals {
		put(v, le)
	}
	put(v, !le)
	for _, rs := range b.Fields { // taken from elsewhere
		for _, q := range rs {
			if uint(q[1]-q[0]) == w && !bytes.Equal(b.W.B[q[0]:q[1]], x) {
				out = append(out, b.W.B[q[0]:q[1]])
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return bytes.Compare(out[i], out[j]) < 0 })
	return
}

// plain makes a stream with small checksums.
func (g *rgen) plain(format string, members int) *gen.Builder {
	b := gen.NewBuilder(g.rng, nil, 15)
	for i := 0; i < members; i++ {
		b.Begin(format, 15, 1, nil)
		data := make([]byte, g.rng.Intn(13))
		if g.rng.Intn(2) == 0 && len(data) > 0 {
			data[len(data)-1] = byte(g.rng.Intn(12))
		}
		b.Stored(data, true)
		b.End()
	}
	return b
}

// trailers: every bit of every check field.
func (g *rgen) trailers() {
	for i := 0; i < g.n(12, 60); i++ {
		f := fmts3[1+i%2]
		b := g.small(f, nil, 1+i%3)
		if i%4 > 1 {
			b = g.plain(f, 1+i%3)
		}
		g.add("trailer intact", false, &run.ReaderCase{B: b.W.B, Fmt: g.fmtFor(f), Vars: g.vars(3)})
		for _, name := range []string{"adler", "crc", "isize", "hcrc", "zhdr", "ghdr"} {
			for _, r := range b.Fields[name] {
				for p := r[0]; p < r[1]; p++ {
					if name == "ghdr" && g.rng.Intn(3) != 0 {
						continue
					}
					for bit := 0; bit < 8; bit++ {
						x := append([]byte{}, b.W.B...)
						x[p] ^= 1 << uint(bit)
						g.add("bit of "+name, false, &run.ReaderCase{B: x, Fmt: f, Vars: g.vars(2)})
					}
				}
				if name == "ghdr" || name == "zhdr" {
					continue
				}
				for _, v := range g.otherValues(b, name, r) {
					x := append([]byte{}, b.W.B...)
					copy(x[r[0]:r[1]], v)
					g.add("value of "+name, false, &run.ReaderCase{B: x, Fmt: f, Vars: g.vars(1 + g.rng.Intn(2))})
				}
			}
		}
		// change the data but keep the trailer
		for k := 0; k < 6; k++ {
			x := append([]byte{}, b.W.B...)
			x[g.rng.Intn(len(x))] ^= 1 << uint(g.rng.Intn(8))
			g.add("bit of data", false, &run.ReaderCase{B: x, Fmt: f, Vars: g.vars(2)})
		}
	}
	// big data: wrong by single bits, and multi-member with a wrong one in the middle
	for i := 0; i < g.n(24, 200); i++ {
		f := fmts3[1+i%2]
		b := g.big(f, nil, 1+i%3, 4000)
		x := append([]byte{}, b.W.B...)
		names := []string{"crc", "isize"}
		if f == "zlib" {
			names = []string{"adler"}
		}
		if i%4 != 3 {
			r := b.Fields[names[g.rng.Intn(len(names))]]
			q := r[g.rng.Intn(len(r))]
			x[q[0]+g.rng.Intn(4)] ^= 1 << uint(g.rng.Intn(8))
		}
		g.add("big trailer", true, &run.ReaderCase{B: x, Fmt: g.fmtFor(f), Vars: g.vars(3)})
	}
}

// truncate: every prefix, with end of input and with an error of the source.
func (g *rgen) truncate(n int) {
	for i := 0; i < n; i++ {
		f := fmts3[i%3]
		var dict []byte
		if f != "gzip" && i%4 == 0 {
			dict = g.dict(10)
		}
		b := gen.NewBuilder(g.rng, dict, 15)
		for m := 0; m < []int{1, 2, 1, 4}[i%4]; m++ {
			b.RandMember(f, 3, 8/(1+i%4), 20)
		}
		if len(b.W.B) > 400 {
			continue
		}
		for p := 0; p <= len(b.W.B); p++ {
			if len(b.W.B) > 120 && g.tier != "thorough" && g.rng.Intn(3) != 0 {
				continue
			}
			ft := f
			if i%5 == 0 {
				ft = "auto"
			}
			for _, se := range []string{"", "SRC"} {
				g.add("truncated", false, &run.ReaderCase{B: b.W.B[:p], Fmt: ft, Dict: dict, HasDict: dict != nil, SrcErr: se, Vars: g.vars(2)})
			}
		}
	}
	// the end of a stream falls on, just before or just after the end of the
	// Reader's buffer
	for _, ml := range []int{1, 2, 4} {
		for members := 1; members <= 4; members++ {
			for _, f := range fmts3 {
				b := gen.NewBuilder(g.rng, nil, 15)
				for m := 0; m < members; m++ {
					b.Begin(f, 15, 1, nil)
					if m == members-1 {
						over := map[string]int{"raw": 0, "zlib": 4, "gzip": 8}[f] + 5
						have := len(b.W.B)
						n := (64<<uint(ml))*(1+g.rng.Intn(2)+have/(64<<uint(ml))) - have - over
						for n < 0 {
							n += 64 << uint(ml)
						}
						data := make([]byte, n)
						g.rng.Read(data)
						b.Stored(data, true)
					} else {
						b.Static(b.RandTokens(g.rng.Intn(4), 5, 4), true)
					}
					b.End()
				}
				for d := -1; d <= 1; d++ {
					x := append(append([]byte{}, b.W.B...), 3)
					x = x[:len(b.W.B)+d]
					for _, se := range []string{"", "SRC"} {
						vs := []run.Variant{{ML: ml, Seg: "all", RS: "big", Ev: true}, {ML: ml, Seg: "one", RS: "odd"}, {ML: ml, Seg: "randeof", RS: "rand", Seed: int64(d)}, {ML: ml, Seg: "eof", RS: "rand", Seed: int64(d)}}
						g.add("end at the buffer's end", true, &run.ReaderCase{B: x, Fmt: f, SrcErr: se, Vars: vs})
					}
				}
			}
		}
	}
	for i := 0; i < g.n(50, 600); i++ {
		f := fmts3[i%3]
		b := g.big(f, nil, 1+i%2, 4000)
		p := g.rng.Intn(len(b.W.B) + 1)
		switch i % 4 {
		case 0:
			p = b.Marks[g.rng.Intn(len(b.Marks))]
		case 1:
			c := append([]int{0}, b.Cuts...)
			p = c[g.rng.Intn(len(c))] + g.rng.Intn(3) - 1
		}
		if p < 0 {
			p = 0
		}
		if p > len(b.W.B) {
			p = len(b.W.B)
		}
		se := ""
		if g.rng.Intn(2) == 0 {
			se = "SRC"
		}
		g.add("truncated big", true, &run.ReaderCase{B: b.W.B[:p], Fmt: f, SrcErr: se, Vars: g.vars(3)})
	}
}

// ordering: data sizes around the buffer sizes, then an error of each class.
func (g *rgen) ordering() {
	for _, ml := range []int{1, 2, 3, 0} {
		base := 128
		for k := 1; k < ml; k++ {
			base *= 2
		}
		if ml == 0 {
			base = 32768
		}
		for _, mul := range []int{0, 1, 2, 3} {
			for _, d := range []int{-1, 0, 1} {
				n := base*mul + d
				if n < 0 {
					continue
				}
				for _, end := range []string{"EOF", "UEOF", "SRC", "CORRUPT"} {
					f := fmts3[g.rng.Intn(3)]
					b := gen.NewBuilder(g.rng, nil, 15)
					for k := g.rng.Intn(5); k > 1; k-- {
						b.RandMember(f, 2, 6, 20)
					}
					b.Begin(f, 15, 1, nil)
					data := make([]byte, n)
					g.rng.Read(data)
					for len(data) > 65535 {
						b.Stored(data[:65535], false)
						data = data[65535:]
					}
					b.Stored(data, false)
					se := ""
					switch end {
					case "EOF":
						b.Static(nil, true)
						b.End()
					case "SRC":
						se = "SRC"
					case "CORRUPT":
						b.BadBlock("btype3")
						b.W.Bytes([]byte{0, 0, 0, 0})
					}
					var vs []run.Variant
					for _, rs := range []string{"big", "rand", "odd", "one"} {
						for _, sg := range []string{"all", "randeof"} {
							if rs == "one" && n > 5000 {
								continue
							}
							vs = append(vs, run.Variant{ML: ml, Seg: sg, RS: rs, Seed: g.rng.Int63n(1 << 30), Reuse: g.rng.Intn(3) == 0})
						}
					}
					g.add("order "+end, n > 300, &run.ReaderCase{B: b.W.B, Fmt: f, SrcErr: se, Vars: vs})
				}
			}
		}
	}
	for i := 0; i < g.n(40, 400); i++ {
		f := fmts3[i%3]
		b := g.big(f, nil, 1+i%3, 5000)
		x := b.W.B
		se := ""
		switch i % 4 {
		case 1:
			x = x[:g.rng.Intn(len(x))]
		case 2:
			x = x[:g.rng.Intn(len(x))]
			se = "SRC"
		case 3:
			x = append([]byte{}, x...)
			x[g.rng.Intn(len(x))] ^= 1 << uint(g.rng.Intn(8))
		}
		g.add("order big", true, &run.ReaderCase{B: x, Fmt: f, SrcErr: se, Vars: g.vars(8)})
	}
}

// concat: member boundaries at every place relative to the buffers.
func (g *rgen) concat() {
	for i := 0; i < g.n(120, 800); i++ {
		f := fmts3[i%3]
		k := 2 + g.rng.Intn(3)
		b := gen.NewBuilder(g.rng, nil, 15)
		for m := 0; m < k; m++ {
			b.RandMember(f, 2, 5, 12)
		}
		g.add("concat", false, &run.ReaderCase{B: b.W.B, Fmt: g.fmtFor(f), Vars: g.vars(5)})
		if i%4 == 0 { // fault in the last member
			x := append([]byte{}, b.W.B...)
			lo := b.Cuts[k-2]
			x[lo+g.rng.Intn(len(x)-lo)] ^= 1 << uint(g.rng.Intn(8))
			g.add("concat, last one damaged", false, &run.ReaderCase{B: x, Fmt: f, Vars: g.vars(3)})
			p := lo + 1 + g.rng.Intn(len(x)-lo-1)
			g.add("concat, last one truncated", false, &run.ReaderCase{B: b.W.B[:p], Fmt: f, Vars: g.vars(3)})
			g.add("concat, then junk", false, &run.ReaderCase{B: append(append([]byte{}, b.W.B...), 0xff, 0xff, byte(g.rng.Intn(256))), Fmt: f, Vars: g.vars(3)})
		}
	}
	// many tiny members; members of mixed formats in auto mode
	for i := 0; i < g.n(40, 200); i++ {
		b := gen.NewBuilder(g.rng, nil, 15)
		n := 2 + g.rng.Intn(12)
		for m := 0; m < n; m++ {
			f := fmts3[1+g.rng.Intn(2)]
			if m == n-1 && g.rng.Intn(2) == 0 {
				f = "raw"
			}
			b.Begin(f, 8+g.rng.Intn(8), g.rng.Intn(4), nil)
			if g.rng.Intn(2) == 0 {
				b.Stored([]byte{byte(m)}, true)
			} else {
				b.Static(b.RandTokens(g.rng.Intn(3), 5, 4), true)
			}
			b.End()
		}
		g.add("mixed formats", false, &run.ReaderCase{B: b.W.B, Fmt: "auto", Vars: g.vars(5)})
	}
	// boundary exactly at / around the input buffer's size (2^(ml+6)), member
	// after member
	for _, ml := range []int{1, 2, 3} {
		buf := 64 << uint(ml)
		for d := -12; d <= 12; d++ {
			if g.tier != "thorough" && (d+12+ml)%2 == 1 {
				continue
			}
			f := fmts3[(d+12)%3]
			b := gen.NewBuilder(g.rng, nil, 15)
			b.Begin(f, 15, 1, nil)
			over := map[string]int{"raw": 0, "zlib": 6, "gzip": 18}[f] + 5
			n := buf*(1+(d+12)%2) + d - over
			data := make([]byte, n)
			g.rng.Read(data)
			b.Stored(data, true)
			b.End()
			for k := g.rng.Intn(3); k >= 0; k-- {
				b.Begin(f, 15, 1, nil)
				b.Stored([]byte("tail"), true)
				b.End()
			}
			vs := []run.Variant{{ML: ml, Seg: "all", RS: "big", Ev: true}, {ML: ml, Seg: "one", RS: "odd"}, {ML: ml, Seg: "randeof", RS: "rand", Seed: int64(d)}}
			g.add("boundary", true, &run.ReaderCase{B: b.W.B, Fmt: f, Vars: vs})
			if f != "raw" {
				g.add("boundary", true, &run.ReaderCase{B: b.W.B, Fmt: "auto", Vars: vs})
			}
		}
	}
	for i := 0; i < g.n(20, 200); i++ {
		f := fmts3[i%3]
		b := g.big(f, nil, 2+g.rng.Intn(3), 3000)
		g.add("concat big", true, &run.ReaderCase{B: b.W.B, Fmt: g.fmtFor(f), Vars: g.vars(5)})
	}
	// history of one member must not be visible in the next
	for i := 0; i < 12; i++ {
		f := fmts3[i%3]
		b := gen.NewBuilder(g.rng, nil, 15)
		b.RandMember(f, 2, 20, 30)
		b.Begin(f, 15, 1, nil)
		b.BadBlock("toofar1")
		b.Static(nil, true)
		b.End()
		g.add("history across members", false, &run.ReaderCase{B: b.W.B, Fmt: f, Vars: g.vars(2)})
	}
}

// formats: all four settings against all kinds of input.
func (g *rgen) formats() {
	for i := 0; i < g.n(40, 300); i++ {
		for _, f := range fmts3 {
			b := g.small(f, nil, 1+g.rng.Intn(3)/2)
			if i%4 == 0 { // a second member of another format
				b.RandMember(fmts3[g.rng.Intn(3)], 1, 4, 8)
			}
			for _, set := range []string{"auto", "raw", "zlib", "gzip"} {
				g.add("format "+f+" read as "+set, false, &run.ReaderCase{B: b.W.B, Fmt: set, Vars: g.vars(3)})
			}
		}
	}
	// first bytes: all pairs (in steps), followed by something decodable
	step := g.n(37, 3)
	off := g.rng.Intn(step)
	for a := 0; a < 65536; a++ {
		b0, b1 := byte(a), byte(a>>8)
		sig := (b0 == 31 && b1 == 139) || (b0&15 == 8 && (int(b0)<<8|int(b1))%31 == 0)
		near := b0 == 31 || b1 == 139 || (b0&15 == 8 && b1%8 == 0)
		if sig || (near && g.rng.Intn(g.n(6, 1)) == 0) || a%step == off {
			x := []byte{b0, b1, 3, 0, 0, 0, 0, 1}
			if b0 == 31 && b1 == 139 {
				x = []byte{31, 139, 8, 0, 0, 0, 0, 0, 0, 255, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0}
			}
			v := []run.Variant{{ML: 1, Seg: []string{"all", "one", "oneeof"}[g.rng.Intn(3)], RS: "big", Ev: true}}
			g.add("signature", false, &run.ReaderCase{B: x, Fmt: "auto", Vars: v})
		}
	}
	// signature arriving byte by byte after a first member, around the buffer end
	for _, ml := range []int{1, 2} {
		buf := 64 << uint(ml)
		for d := -4; d <= 4; d++ {
			for _, f := range []string{"zlib", "gzip"} {
				b := gen.NewBuilder(g.rng, nil, 15)
				b.Begin("gzip", 15, 1, nil)
				data := make([]byte, buf+d-23)
				g.rng.Read(data)
				b.Stored(data, true)
				b.End()
				b.RandMember(f, 1, 4, 8)
				var vs []run.Variant
				for _, sg := range []string{"all", "one", "rand", "eof", "oneeof", "zero"} {
					vs = append(vs, run.Variant{ML: ml, Seg: sg, RS: "big", Seed: int64(d)})
				}
				g.add("signature at buffer end", false, &run.ReaderCase{B: b.W.B, Fmt: "auto", Vars: vs})
			}
		}
	}
}

// chunking: every segmentation and read size on the same input.
func (g *rgen) chunking() {
	for i := 0; i < g.n(36, 300); i++ {
		f := fmts3[i%3]
		b := g.small(f, nil, 1+i%3)
		x := b.W.B
		se := ""
		switch i % 6 {
		case 3:
			x = x[:g.rng.Intn(len(x))]
		case 4:
			x = x[:g.rng.Intn(len(x))]
			se = "SRC"
		case 5:
			x = append([]byte{}, x...)
			x[g.rng.Intn(len(x))] ^= 1 << uint(g.rng.Intn(8))
		}
		g.add("chunking", false, &run.ReaderCase{B: x, Fmt: g.fmtFor(f), SrcErr: se, Vars: g.allVars()})
	}
	for i := 0; i < g.n(16, 150); i++ {
		f := fmts3[i%3]
		b := g.big(f, nil, 1+i%3, 2500)
		x := b.W.B
		se := ""
		switch i % 6 {
		case 3:
			x = x[:g.rng.Intn(len(x))]
		case 4:
			x = x[:g.rng.Intn(len(x))]
			se = "SRC"
		case 5:
			x = append([]byte{}, x...)
			x[g.rng.Intn(len(x))] ^= 1 << uint(g.rng.Intn(8))
		}
		vs := g.allVars()
		if len(b.Out) > 20000 {
			vs = g.vars(16)
		}
		g.add("chunking big", true, &run.ReaderCase{B: x, Fmt: g.fmtFor(f), SrcErr: se, Vars: vs})
	}
}

// gzHeaders: header fields of all kinds, and damaged ones.
func (g *rgen) gzHeaders() {
	for i := 0; i < g.n(150, 1500); i++ {
		b := gen.NewBuilder(g.rng, nil, 15)
		for m := 0; m < 1+i%2; m++ {
			b.RandMember("gzip", 1, 3, 5)
		}
		g.add("gzip header", false, &run.ReaderCase{B: b.W.B, Fmt: g.fmtFor("gzip"), Vars: g.vars(2)})
		if i%3 == 0 {
			h := b.Fields["ghdr"][0]
			x := append([]byte{}, b.W.B...)
			x[h[0]+g.rng.Intn(h[1]-h[0])] ^= 1 << uint(g.rng.Intn(8))
			g.add("gzip header damaged", false, &run.ReaderCase{B: x, Fmt: "gzip", Vars: g.vars(2)})
		}
		if i%3 == 1 {
			h := b.Fields["ghdr"][0]
			g.add("gzip header cut", false, &run.ReaderCase{B: b.W.B[:h[0]+g.rng.Intn(h[1]-h[0])], Fmt: "gzip", Vars: g.vars(2)})
		}
	}
	for os := 0; os < 256; os++ {
		b := gen.NewBuilder(g.rng, nil, 15)
		b.Begin("gzip", 15, 0, &gen.GzHeader{OS: byte(os), XFL: byte(g.rng.Intn(256)), HCRC: os%2 == 0, Text: os%3 == 0})
		b.Static(nil, true)
		b.End()
		g.add("gzip OS", false, &run.ReaderCase{B: b.W.B, Fmt: "gzip", Vars: g.vars(1)})
	}
	// extra fields, well-formed or not, of many sizes
	for i := 0; i < g.n(60, 400); i++ {
		x := make([]byte, g.rng.Intn(40))
		for j := range x {
			x[j] = byte(g.rng.Intn(6))
			if g.rng.Intn(6) == 0 {
				x[j] = byte(g.rng.Intn(256))
			}
		}
		b := gen.NewBuilder(g.rng, nil, 15)
		b.Begin("gzip", 15, 0, &gen.GzHeader{OS: 3, Extra: x, HCRC: i%2 == 0})
		b.Stored([]byte("data"), true)
		b.End()
		g.add("gzip extra", false, &run.ReaderCase{B: b.W.B, Fmt: "gzip", Vars: g.vars(2)})
	}
	for i := 0; i < g.n(20, 100); i++ {
		b := gen.NewBuilder(g.rng, nil, 15)
		h := &gen.GzHeader{OS: 3, HCRC: i%2 == 0, Name: gen.RandStr(g.rng, g.rng.Intn(3000)), Comment: gen.RandStr(g.rng, g.rng.Intn(3000)), MTime: g.rng.Uint32()}
		h.Extra = make([]byte, g.rng.Intn(66000)%65536)
		g.rng.Read(h.Extra)
		b.Begin("gzip", 15, 0, h)
		b.Stored([]byte("data"), true)
		b.End()
		g.add("gzip big header", true, &run.ReaderCase{B: b.W.B, Fmt: "gzip", Vars: g.vars(4)})
	}
}

// manyHeaders: members each of which has texts and records of its own, which
// no later member may change in the event that told of them.
func (g *rgen) manyHeaders(n int) {
	for i := 0; i < n; i++ {
		b := gen.NewBuilder(g.rng, nil, 15)
		size := 8 + g.rng.Intn(60)
		for m := 2 + g.rng.Intn(3); m > 0; m-- {
			h := &gen.GzHeader{OS: byte(g.rng.Intn(14)), HCRC: g.rng.Intn(2) == 0, Text: g.rng.Intn(2) == 0, MTime: g.rng.Uint32()}
			if g.rng.Intn(4) != 0 {
				size -= g.rng.Intn(3)
				for len(h.Extra)+4 <= size {
					k := g.rng.Intn(8)
					if len(h.Extra)+4+k > size {
						k = size - len(h.Extra) - 4
					}
					x := make([]byte, 4+k)
					g.rng.Read(x)
					x[2], x[3] = byte(k), 0
					h.Extra = append(h.Extra, x...)
				}
			}
			if g.rng.Intn(3) != 0 {
				h.Name = gen.RandStr(g.rng, 1+g.rng.Intn(20))
			}
			if g.rng.Intn(3) != 0 {
				h.Comment = gen.RandStr(g.rng, 1+g.rng.Intn(20))
			}
			b.Begin("gzip", 15, 0, h)
			switch g.rng.Intn(3) {
			case 0:
				b.Static(nil, true)
			case 1:
				b.Stored([]byte("data"), true)
			default:
				b.Static([]gen.Token{b.Apply(gen.Token{Lit: 'x'}), b.Apply(gen.Token{Len: 3 + g.rng.Intn(9), Dist: 1})}, true)
			}
			b.End()
		}
		g.add("headers of members", false, &run.ReaderCase{B: b.W.B, Fmt: g.fmtFor("gzip"), Vars: g.vars(2)})
	}
}

// longHeaders: names, comments and extra fields around the sizes at which a
// counter, an index or a buffer might end.
func (g *rgen) longHeaders() {
	one := func(note string, h *gen.GzHeader, cut int) {
		b := gen.NewBuilder(g.rng, nil, 15)
		h.OS, h.MTime = 3, g.rng.Uint32()
		b.Begin("gzip", 15, 0, h)
		b.Stored([]byte("data"), true)
		b.End()
		x := b.W.B
		if cut > 0 {
			x = x[:cut]
		}
		g.add(note, true, &run.ReaderCase{B: x, Fmt: g.fmtFor("gzip"), Vars: g.vars(2)})
	}
	str := func(n int) []byte {
		p := make([]byte, n)
		for i := range p {
			p[i] = byte(1 + (i*7+i/251)%255)
		}
		return p
	}
	k := 0
	for _, n := range []int{127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 10000, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131072, 300000} {
		k++
		h := &gen.GzHeader{HCRC: k%2 == 0, Name: str(n)}
		if k%3 == 0 {
			h.Comment = str(5)
		}
		one("long name", h, 0)
		h = &gen.GzHeader{HCRC: k%2 == 1, Comment: str(n)}
		if k%3 == 1 {
			h.Name = str(5)
		}
		one("long comment", h, 0)
		if k%4 == 0 {
			one("long name, cut", &gen.GzHeader{Name: str(n)}, 10+n)
			one("long name and comment", &gen.GzHeader{Name: str(n), Comment: str(n / 2), HCRC: true}, 0)
		}
	}
	// extra fields of n records of m bytes, with some bytes that are no record
	for i, x := range [][3]int{{1, 65531, 0}, {1, 65530, 1}, {1, 65528, 3}, {16383, 0, 0}, {16383, 0, 3}, {16384, 0, -1}, {255, 0, 0}, {256, 0, 0}, {257, 0, 0}, {1000, 60, 0}, {3000, 10, 0},
		{100, 600, 1}, {64, 1, 2}, {65, 1, 0}, {2, 32763, 1}, {128, 250, 0}, {129, 250, 0}, {4096, 4, 0}, {4097, 4, 0}, {1, 255, 0}, {1, 256, 0}, {1, 511, 0}, {1, 512, 0}, {1, 4091, 0}, {1, 4092, 0}, {1, 4093, 0},
		{1, 8192, 0}, {1, 16384, 0}, {1, 32767, 0}, {1, 32768, 0}, {1, 32764, 3}, {3, 20000, 0}, {10, 6549, 5}} {
		var p []byte
		for r := 0; r < x[0]; r++ {
			p = append(p, byte(r), byte(r>>8), byte(x[1]), byte(x[1]>>8))
			for j := 0; j < x[1]; j++ {
				p = append(p, byte(j+r))
			}
		}
		switch {
		case x[2] < 0:
			p = p[:len(p)+x[2]]
		case x[2] < 4:
			p = append(p, []byte{7, 8, 9}[:x[2]]...)
		default: // a record which goes on beyond the end
			p = append(p, 1, 2, byte(x[2]), 0, 9)
		}
		if len(p) > 65535 {
			p = p[:65535]
		}
		h := &gen.GzHeader{Extra: p, HCRC: i%2 == 0}
		if i%3 == 0 {
			h.Name = str(i)
		}
		one("long extra field", h, 0)
		if i%5 == 0 {
			one("long extra field, cut", h, 12+len(p)-1)
		}
	}
}

// manyBlocks: streams of very many blocks, which are empty or nearly so, and
// then a reference to what was before them.
func (g *rgen) manyBlocks() {
	for i, n := range []int{100, 255, 256, 257, 1000, 1024, 4095, 4096, 4097, 10000, 32768, 65536, 70001} {
		for kind := 0; kind < 3; kind++ {
			if n > 20000 && g.tier != "thorough" && kind == 2 {
				continue
			}
			b := gen.NewBuilder(g.rng, nil, 15)
			f := fmts3[(i+kind)%3]
			b.Begin(f, 15, 1, nil)
			b.Stored([]byte("what was there before"), false)
			for j := 0; j < n; j++ {
				switch kind {
				case 0:
					b.Stored(nil, false)
				case 1:
					b.Static(nil, false)
				default:
					switch j % 7 {
					case 0:
						b.Stored(nil, false)
					case 3:
						b.Dynamic(nil, false)
					default:
						b.Static(nil, false)
					}
				}
			}
			b.Static([]gen.Token{b.Apply(gen.Token{Len: 18, Dist: 21}), b.Apply(gen.Token{Lit: 10})}, true)
			b.End()
			vs := []run.Variant{{ML: 0, Seg: "all", RS: "big", Ev: n <= 300}, {ML: 1, Seg: "rand", RS: "rand", Seed: int64(n)}}
			g.add("many blocks", true, &run.ReaderCase{B: b.W.B, Fmt: g.fmtFor(f), Vars: vs})
		}
	}
}

// manyStreams: one stream after the other, very often.
func (g *rgen) manyStreams() {
	for i, n := range []int{64, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 1024, 4096, 5000, 65536, 70001, 140000} {
		for fi, f := range fmts3 {
			if n > 10000 && g.tier != "thorough" && (i+fi)%2 == 0 {
				continue
			}
			for end := 0; end < 3; end++ {
				if n > 1000 && end != (i+fi)%3 && g.tier != "thorough" {
					continue
				}
				b := gen.NewBuilder(g.rng, nil, 15)
				for j := 0; j < n; j++ {
					b.Begin(f, 15, 1, nil)
					if j%9 == 4 {
						b.Static([]gen.Token{b.Apply(gen.Token{Lit: byte(j)})}, true)
					} else {
						b.Static(nil, true)
					}
					b.End()
				}
				x := b.W.B
				switch end {
				case 1:
					x = x[:len(x)-1]
				case 2:
					x = append(append([]byte{}, x...), 0xff, 0xff)
				}
				vs := []run.Variant{{ML: 0, Seg: "all", RS: "big", Ev: n <= 300}, {ML: 1 + i%9, Seg: "rand", RS: "rand", Seed: int64(n)}}
				fm := f
				if f != "raw" {
					fm = g.fmtFor(f)
				}
				g.add("many streams", true, &run.ReaderCase{B: x, Fmt: fm, Vars: vs})
			}
		}
	}
}

// dicts: preset dictionaries, right, wrong, missing or superfluous.
func (g *rgen) dicts() {
	for i := 0; i < g.n(120, 1000); i++ {
		f := fmts3[i%2]
		dict := g.dict(60)
		switch i % 7 {
		case 1:
			dict = make([]byte, 1+g.rng.Intn(20)) // all zero
		case 2:
			dict = append(dict, 0, 0, 0)
		}
		b := gen.NewBuilder(g.rng, dict, 15)
		for m := 0; m < 1+i%3/2; m++ {
			b.RandMember(f, 2, 10, 30)
		}
		g.add("dict", false, &run.ReaderCase{B: b.W.B, Fmt: g.fmtFor(f), Dict: dict, HasDict: true, Vars: g.vars(3)})
		if f == "zlib" && i%2 == 1 {
			g.add("dict missing", false, &run.ReaderCase{B: b.W.B, Fmt: g.fmtFor("zlib"), Vars: g.vars(2)})
			d2 := append([]byte{}, dict...)
			d2[g.rng.Intn(len(d2))]++
			g.add("dict different", false, &run.ReaderCase{B: b.W.B, Fmt: g.fmtFor("zlib"), Dict: d2, HasDict: true, Vars: g.vars(2)})
			g.add("dict longer", false, &run.ReaderCase{B: b.W.B, Fmt: "zlib", Dict: append([]byte{0}, dict...), HasDict: true, Vars: g.vars(2)})
			if len(dict) > 1 {
				g.add("dict shorter", false, &run.ReaderCase{B: b.W.B, Fmt: "zlib", Dict: dict[1:], HasDict: true, Vars: g.vars(2)})
			}
			for _, v := range g.otherValues(b, "dictid", b.Fields["dictid"][0]) {
				x := append([]byte{}, b.W.B...)
				copy(x[b.Fields["dictid"][0][0]:], v)
				if g.rng.Intn(4) != 0 {
					g.add("dict id different", false, &run.ReaderCase{B: x, Fmt: "zlib", Dict: dict, HasDict: true, Vars: g.vars(1)})
				} else {
					g.add("dict id without dict", false, &run.ReaderCase{B: x, Fmt: g.fmtFor("zlib"), Vars: g.vars(1)})
				}
			}
			for k := 0; k < 3; k++ {
				x := append([]byte{}, b.W.B...)
				q := b.Fields["dictid"][0]
				x[q[0]+g.rng.Intn(4)] ^= 1 << uint(g.rng.Intn(8))
				g.add("dict id damaged", false, &run.ReaderCase{B: x, Fmt: "zlib", Dict: dict, HasDict: true, Vars: g.vars(2)})
			}
			// several streams, of which one wants another dictionary
			b3 := g.small("zlib", dict, 2+g.rng.Intn(3))
			for m := 0; m < len(b3.Cuts); m++ {
				x := append([]byte{}, b3.W.B...)
				lo := 2
				if m > 0 {
					lo = b3.Cuts[m-1] + 2
				}
				if lo+4 < len(x) {
					x[lo+g.rng.Intn(4)] ^= 1 << uint(g.rng.Intn(8))
					g.add("dict id of one stream damaged", false, &run.ReaderCase{B: x, Fmt: "zlib", Dict: dict, HasDict: true, Vars: g.vars(2)})
				}
			}
			b2 := g.small("zlib", nil, 1)
			g.add("dict superfluous", false, &run.ReaderCase{B: b2.W.B, Fmt: g.fmtFor("zlib"), Dict: dict, HasDict: true, Vars: g.vars(2)})
		}
		if i%5 == 0 { // reach before the dictionary
			b := gen.NewBuilder(g.rng, dict, 15)
			b.Begin(f, 15, 1, nil)
			b.BadBlock("toofar1")
			b.Static(nil, true)
			b.End()
			g.add("before the dict", false, &run.ReaderCase{B: b.W.B, Fmt: f, Dict: dict, HasDict: true, Vars: g.vars(2)})
			b = gen.NewBuilder(g.rng, dict, 15)
			b.Begin(f, 15, 1, nil)
			b.Static([]gen.Token{b.Apply(gen.Token{Len: 3 + g.rng.Intn(100), Dist: len(dict)})}, true)
			b.End()
			g.add("start of the dict", false, &run.ReaderCase{B: b.W.B, Fmt: f, Dict: dict, HasDict: true, Vars: g.vars(2)})
		}
	}
	for i := 0; i < g.n(32, 320); i++ {
		f := fmts3[i%2]
		n := []int{255, 256, 257, 300, 1000, 32767, 32768, 32769, 40000, 70000, 65535, 65536, 100001, 131072, 200000, 1 << 20}[i/2%16]
		dict := make([]byte, n)
		g.rng.Read(dict)
		wb := []int{15, 15, 8, 9, 12}[i%5]
		b := gen.NewBuilder(g.rng, dict, wb)
		for m := 0; m < 1+i%2; m++ {
			b.RandMember(f, 3, 300, 258)
		}
		g.add("big dict", true, &run.ReaderCase{B: b.W.B, Fmt: f, WB: wb, Dict: dict, HasDict: true, Vars: g.vars(3)})
	}
}

// windows: distances up to and beyond the window.
func (g *rgen) windows() {
	for wb := 8; wb <= 15; wb++ {
		w := 1 << uint(wb)
		for _, d := range []int{w - 1, w, w + 1, w + w/2, 2 * w} {
			if d > 32768 {
				continue
			}
			for k := 0; k < 2; k++ {
				f := []string{"raw", "zlib", "gzip"}[g.rng.Intn(3)]
				b := gen.NewBuilder(g.rng, nil, 15)
				b.Begin(f, wb, 1, nil)
				n := d + g.rng.Intn(3)
				data := make([]byte, n)
				g.rng.Read(data)
				b.WB = 15
				b.Stored(data[:n/2], false)
				b.Stored(data[n/2:], false)
				toks := []gen.Token{b.Apply(gen.Token{Lit: 9}), b.Apply(gen.Token{Len: 3 + g.rng.Intn(30), Dist: d})}
				if k == 0 {
					b.Static(toks, true)
				} else {
					b.Dynamic(toks, true)
				}
				b.End()
				g.add("window", wb > 8, &run.ReaderCase{B: b.W.B, Fmt: f, WB: wb, Vars: g.vars(3)})
			}
		}
		for zwb := 8; zwb <= 15; zwb++ {
			b := gen.NewBuilder(g.rng, nil, 8)
			b.Begin("zlib", zwb, g.rng.Intn(4), nil)
			b.RandBlocks(2, 6, 12)
			b.End()
			g.add("zlib window", false, &run.ReaderCase{B: b.W.B, Fmt: g.fmtFor("zlib"), WB: wb, Vars: g.vars(2)})
		}
	}
	// streams of different windows, one after the other
	for i := 0; i < g.n(60, 400); i++ {
		wb := 8 + i%8
		b := gen.NewBuilder(g.rng, nil, 8)
		n := 2 + g.rng.Intn(3)
		for m := 0; m < n; m++ {
			zwb := 8 + g.rng.Intn(wb-7)
			if m > 0 && i%3 == 0 || m == n-1 {
				zwb = 8 + g.rng.Intn(8)
			}
			b.Begin("zlib", zwb, g.rng.Intn(4), nil)
			if m == n-1 && i%4 == 0 { // further back than the stream allows
				d := 1<<uint(zwb) + g.rng.Intn(3) - 1
				if d > 600 {
					d = 257
				}
				b.WB = 15
				b.Stored(bytes.Repeat([]byte{byte(i), 7}, d/2+1), false)
				b.Static([]gen.Token{b.Apply(gen.Token{Len: 3, Dist: d})}, true)
			} else {
				b.WB = 8
				b.RandBlocks(2, 6, 12)
			}
			b.End()
		}
		g.add("zlib windows", false, &run.ReaderCase{B: b.W.B, Fmt: g.fmtFor("zlib"), WB: wb, Vars: g.vars(2)})
	}
	for i := 0; i < g.n(30, 300); i++ {
		wb := 8 + i%8
		f := fmts3[g.rng.Intn(3)]
		b := gen.NewBuilder(g.rng, nil, wb)
		b.Begin(f, wb, 1, nil)
		b.RandBlocks(4, 3000, 258)
		b.End()
		g.add("window respected", true, &run.ReaderCase{B: b.W.B, Fmt: f, WB: wb, Vars: g.vars(3)})
		b = gen.NewBuilder(g.rng, nil, 15)
		b.Begin(f, wb, 1, nil)
		b.RandBlocks(4, 3000, 258)
		b.End()
		g.add("window exceeded", true, &run.ReaderCase{B: b.W.B, Fmt: f, WB: wb, Vars: g.vars(3)})
	}
}

// reset: inputs of all kinds, for a Reader that was used before and Reset.
func (g *rgen) reset() {
	g.validSmall(g.n(120, 1200))
	g.malformed(g.n(3, 20))
	g.validBig(g.n(12, 100))
	g.trailers()
	g.concat()
	g.gzHeaders()
	g.dicts()
	g.windows()
	keep := g.cases[:0]
	for _, c := range g.cases {
		if g.tier != "thorough" && g.rng.Intn(3) == 0 {
			continue
		}
		c.R.Vars = c.R.Vars[:1]
		for k := 0; k < 3; k++ {
			v := run.Variant{ML: 1 + g.rng.Intn(9), Seg: []string{"all", "rand", "one"}[g.rng.Intn(3)], RS: "rand", Seed: g.rng.Int63n(1 << 30), Reuse: true,
				Ev: k == 0 && c.R.Vars[0].Ev}
			c.R.Vars = append(c.R.Vars, v)
		}
		keep = append(keep, c)
	}
	g.cases = keep
}

// together: streams of all kinds, decoded while other instances are at work.
func (g *rgen) together() {
	for i := 0; i < g.n(90, 900); i++ {
		f := fmts3[i%3]
		var d []byte
		if i%5 == 0 && f != "gzip" {
			d = g.dict(1 + g.rng.Intn(300))
		}
		b := g.small(f, d, 1+i%3)
		x := b.W.B
		switch i % 7 {
		case 3:
			x = x[:g.rng.Intn(len(x))]
		case 4, 5:
			x = append([]byte{}, x...)
			x[g.rng.Intn(len(x))] ^= 1 << uint(g.rng.Intn(8))
		}
		g.add("together", false, &run.ReaderCase{B: x, Fmt: g.fmtFor(f), Dict: d, HasDict: d != nil, Vars: g.vars(5)})
	}
	for i := 0; i < g.n(24, 240); i++ {
		f := fmts3[i%3]
		x := g.big(f, nil, 1+i%2, 1500).W.B
		if i%4 == 3 {
			x = x[:g.rng.Intn(len(x))]
		}
		g.add("together big", true, &run.ReaderCase{B: x, Fmt: g.fmtFor(f), Vars: g.vars(5)})
	}
	for i := range g.cases {
		g.cases[i].Stir = "nested"
	}
}

// headerBytes: every value of every byte of the fixed parts of headers.
func (g *rgen) headerBytes() {
	v := func() []run.Variant {
		return []run.Variant{{ML: 1 + g.rng.Intn(2), Seg: []string{"all", "one", "oneeof"}[g.rng.Intn(3)], RS: "big", Ev: true}}
	}
	tail := []byte{3, 0, 0, 0, 0, 1}
	put := func(note, f string, x []byte) {
		if g.rng.Intn(6) == 0 { // a second member, or trailing garbage
			b := gen.NewBuilder(g.rng, nil, 15)
			b.RandMember(f, 1, 3, 5)
			x = append(append([]byte{}, b.W.B...), x...)
		}
		g.add(note, false, &run.ReaderCase{B: x, Fmt: g.fmtFor(f), Vars: v()})
	}
	for cmf := 0; cmf < 256; cmf++ {
		for k := 0; k < 8; k++ {
			if g.tier != "thorough" && k > 0 && cmf&15 != 8 && k != 1+cmf%7 {
				continue
			}
			flg := k << 5
			flg += (31 - (cmf<<8+flg)%31) % 31
			g.add("zlib header", false, &run.ReaderCase{B: append([]byte{byte(cmf), byte(flg)}, tail...), Fmt: "zlib", Vars: v()})
			if k == 2 {
				put("zlib header", "zlib", append([]byte{byte(cmf), byte(flg)}, tail...))
			}
		}
		put("zlib header check", "zlib", append([]byte{0x78, byte(cmf)}, tail...))
		put("zlib header check", "zlib", append([]byte{byte(cmf), byte(g.rng.Intn(256))}, tail...))
	}
	gz := []byte{31, 139, 8, 0, 0, 0, 0, 0, 0, 255, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0}
	for x := 0; x < 256; x++ {
		for k := 0; k < 10; k++ {
			if k == 3 || k >= 4 && k < 8 && x%8 != 0 {
				continue
			}
			b := append([]byte{}, gz...)
			b[k] = byte(x)
			put("gzip header byte", "gzip", b)
		}
		// flags, with the fields they announce
		b := append([]byte{}, gz[:10]...)
		b[3] = byte(x)
		if x&4 != 0 {
			b = append(b, 5, 0, 'A', 'B', 1, 0, 'z')
		}
		if x&8 != 0 {
			b = append(b, "name\x00"...)
		}
		if x&16 != 0 {
			b = append(b, "comment\x00"...)
		}
		if x&2 != 0 {
			s := crc32.ChecksumIEEE(b)
			b = append(b, byte(s), byte(s>>8))
		}
		put("gzip flags", "gzip", append(b, gz[10:]...))
	}
}
