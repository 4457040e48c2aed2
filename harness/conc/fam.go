package conc

import (
	"fmt"
	"math/rand"
	"strconv"

	"github.com/chronos-tachyon/flate/verifharness/gen"
	"github.com/chronos-tachyon/flate/verifharness/oracle"
	"github.com/chronos-tachyon/flate/verifharness/run"
)

// Case is one program.
type Case struct {
	ID   string `json:"id"`
	Note string `json:"note"`
	R    *RCase `json:"R,omitempty"`
	W    *WCase `json:"W,omitempty"`
}

type cgen struct {
	rng      *rand.Rand
	thorough bool
	cases    []Case
}

func (g *cgen) n(q, t int) int {
	if g.thorough {
		return t
	}
	return q
}

var fmts = []string{"raw", "zlib", "gzip", "auto"}
var kinds = []string{"valid", "two", "trunc", "src", "corrupt", "empty", "badhdr"}
var segs = []string{"all", "one", "eof", "oneeof", "rand", "randeof", "zero"}

// perm gives n bytes, distinct as far as possible.
func (g *cgen) perm(n int) []byte {
	out := make([]byte, n)
	p := g.rng.Perm(256)
	for i := range out {
		out[i] = byte(p[i%256] + i/256*7)
	}
	return out
}

// src makes a source of a kind with about n bytes of data.
func (g *cgen) src(kind string, n, ml int) Src {
	f := fmts[g.rng.Intn(4)]
	bf := f
	if f == "auto" {
		bf = []string{"zlib", "gzip"}[g.rng.Intn(2)]
	}
	s := Src{Fmt: f, WB: 8 + g.rng.Intn(8), ML: ml, Seg: segs[g.rng.Intn(len(segs))]}
	if g.rng.Intn(6) == 0 && bf != "gzip" && f != "auto" {
		s.HasDict = true
		s.Dict = []byte("some dictionary")
	}
	b := gen.NewBuilder(g.rng, s.Dict, 8)
	data := g.perm(n)
	block := func(d []byte, final bool) {
		switch g.rng.Intn(3) {
		case 0:
			b.Stored(d, final)
		default:
			var t []gen.Token
			for _, x := range d {
				t = append(t, gen.Token{Lit: x})
			}
			b.Static(t, final)
		}
	}
	member := func(d []byte) {
		b.Begin(bf, 8, 1, nil)
		k := 0
		if len(d) > 1 && g.rng.Intn(2) == 0 {
			k = 1 + g.rng.Intn(len(d)-1)
			block(d[:k], false)
		}
		block(d[k:], true)
		b.End()
	}
	switch kind {
	case "valid":
		member(data)
	case "two":
		k := n / 2
		member(data[:k])
		member(data[k:])
	case "trunc", "src":
		b.Begin(bf, 8, 1, nil)
		block(data, false)
		block(nil, false)
		if kind == "src" {
			s.SrcErr = "SRC"
		}
	case "corrupt":
		b.Begin(bf, 8, 1, nil)
		block(data, false)
		b.BadBlock("btype3")
		b.W.Bytes([]byte{1, 2, 3})
	case "badhdr":
		if f == "raw" || f == "auto" {
			member(data)
			b.W.Bytes([]byte{0x1f, 0x8b, 9, 0, 0, 0, 0, 0, 0, 0, 1, 2})
		} else {
			member(data)
			b.W.Bytes([]byte{0x55, 0x55, 1, 2, 3, 4})
		}
	}
	b.W.Align(0)
	s.B = b.W.B
	if s.B == nil {
		s.B = []byte{}
	}
	s.Data = append(s.expect().Out, s.expect().Part...)
	return s
}

var endless = []string{"blocks", "static", "late blocks", "members", "name", "comment", "data"}

// endless makes a source that never ends: after about n bytes of data it goes
// on with something that contains none.
func (g *cgen) endless(kind string, n, ml int) Src {
	f := fmts[g.rng.Intn(4)]
	if kind == "name" || kind == "comment" {
		f = []string{"gzip", "auto"}[g.rng.Intn(2)]
	}
	bf := f
	if f == "auto" {
		bf = []string{"zlib", "gzip"}[g.rng.Intn(2)]
	}
	s := Src{Fmt: f, WB: 8 + g.rng.Intn(8), ML: ml, Seg: segs[g.rng.Intn(len(segs))]}
	b := gen.NewBuilder(g.rng, nil, 8)
	data := g.perm(n)
	b.Begin(bf, 8, 1, nil)
	b.Stored(data, kind != "late blocks")
	if kind == "late blocks" {
		s.Data = data
	} else {
		b.End()
		b.W.Align(0)
		s.Data = append([]byte{}, data...)
		switch kind {
		case "blocks", "static", "data":
			b.Begin(bf, 8, 1, nil)
		case "name":
			b.W.Bytes([]byte{0x1f, 0x8b, 8, 8, 0, 0, 0, 0, 0, 0})
		case "comment":
			b.W.Bytes([]byte{0x1f, 0x8b, 8, 16, 0, 0, 0, 0, 0, 0})
		}
	}
	m := gen.NewBuilder(g.rng, nil, 8)
	switch kind {
	case "blocks", "late blocks":
		m.Stored(nil, false)
	case "static":
		for i := 0; i < 4; i++ { // 10 bits each
			m.Static(nil, false)
		}
	case "members":
		m.Begin(bf, 8, 1, nil)
		m.Static(nil, true)
		m.End()
		m.W.Align(0)
	case "name", "comment":
		m.W.Bytes([]byte("xyz"))
	case "data":
		d := g.perm(200)
		m.Stored(d, false)
		for i := 0; i < 40; i++ {
			s.Data = append(s.Data, d...)
		}
	}
	b.W.Align(0)
	s.B, s.More = b.W.B, m.W.B
	return s
}

// unstoppable: Close and Reset while the source goes on and on.
func (g *cgen) unstoppable(reset bool) {
	ex := Explore{Bound: g.n(1, 3), Max: g.n(150, 3000), Rand: g.n(60, 1000)}
	for _, k := range endless {
		for rep := 0; rep < g.n(1, 3); rep++ {
			src := func() []Src {
				return []Src{g.endless(k, 1+g.rng.Intn(60), 1+g.rng.Intn(2)), g.src(kinds[g.rng.Intn(len(kinds))], edge[g.rng.Intn(len(edge))], 1)}
			}
			rs := func() []Op { return ra([]int{1, 7, 40}[g.rng.Intn(3)]) }
			cl, cx := Op{T: "C"}, []Op{{T: "C"}, {T: "J"}, {T: "X", N: 1}, {T: "RA", N: 100}}
			if !reset {
				g.reader("endless "+k, src(), ex, rs(), []Op{cl})
				g.reader("endless "+k, src(), ex, rs(), rs(), []Op{cl}, []Op{cl})
				continue
			}
			g.reader("endless "+k, src(), ex, rs(), cx)
			g.reader("endless "+k, src(), ex, rs(), rs(), cx)
			g.reader("endless "+k, src(), ex, cx)
			if k != "late blocks" {
				g.reader("endless "+k, src(), ex, []Op{{T: "R", N: 1}, {T: "X", N: 1}, {T: "RA", N: 90}})
				g.reader("endless "+k, src(), ex, []Op{{T: "R", N: 1}, cl, {T: "R", N: 4}, {T: "X", N: 1}, {T: "RA", N: 90}})
			}
		}
	}
}

func (s *Src) expect() *oracle.Result {
	c := oracle.Config{Fmt: s.Fmt, WBits: s.WB, SrcErr: s.SrcErr}
	if s.HasDict {
		c.Dict = s.Dict
	}
	return oracle.Decode(s.B, c)
}

func (g *cgen) reader(note string, srcs []Src, ex Explore, threads ...[]Op) {
	ex.Seed = g.rng.Int63n(1 << 30)
	g.cases = append(g.cases, Case{ID: "c" + strconv.Itoa(len(g.cases)), Note: note,
		R: &RCase{Srcs: srcs, Threads: threads, Ex: ex, Tr: g.rng.Intn(4) == 0}})
}

func ra(n int) []Op { return []Op{{T: "RA", N: n}} }

// Family makes the cases of a property.
func Family(prop string, seed int64, tier string, seqs [][]string) []Case {
	g := &cgen{rng: rand.New(rand.NewSource(seed*900001 + int64(prop[1])*131 + int64(prop[2]))), thorough: tier == "thorough"}
	switch prop {
	case "P07":
		g.order()
	case "P16":
		g.sequences(seqs)
		g.stops()
		g.unstoppable(true)
	case "P17":
		g.readers()
		g.crowd()
		g.unstoppable(false)
	case "P18":
		g.writers()
	}
	return g.cases
}

var edge = []int{0, 1, 5, 127, 128, 129, 255, 256, 257, 300}

func (g *cgen) order() {
	ex := Explore{Bound: g.n(2, 4), Max: g.n(1500, 60000), Rand: g.n(300, 8000)}
	for _, k := range kinds {
		for _, n := range edge {
			for _, m := range []int{16, 128, 1000} {
				g.reader("order "+k, []Src{g.src(k, n, 1)}, ex, ra(m))
			}
		}
	}
}

// sequences of calls from a single goroutine, generated by ReaderGen.
func (g *cgen) sequences(seqs [][]string) {
	ex := Explore{Bound: 1, Max: g.n(60, 600), Rand: g.n(25, 200)}
	for i, q := range seqs {
		if !g.thorough && i%2 == int(g.rng.Intn(2)) && len(q) > 4 {
			continue
		}
		var ops []Op
		ml := 1 + g.rng.Intn(2)
		var srcs []Src
		next := func() {
			if l := len(srcs); l > 0 && g.rng.Intn(4) == 0 { // the same options as before
				s := g.src(kinds[g.rng.Intn(len(kinds))], edge[g.rng.Intn(len(edge))], ml)
				p := srcs[l-1]
				s.Fmt, s.WB, s.ML, s.Dict, s.HasDict, s.NoOpts = p.Fmt, p.WB, p.ML, p.Dict, p.HasDict, true
				s.Data = append(s.expect().Out, s.expect().Part...)
				srcs = append(srcs, s)
				return
			}
			srcs = append(srcs, g.src(kinds[g.rng.Intn(len(kinds))], edge[g.rng.Intn(len(edge))], 1+g.rng.Intn(3)))
		}
		next()
		for _, x := range q {
			switch x {
			case "R1":
				ops = append(ops, Op{T: "R", N: 1})
			case "RB":
				ops = append(ops, Op{T: "R", N: 100})
			case "RA":
				ops = append(ops, Op{T: "RA", N: 90})
			case "C":
				ops = append(ops, Op{T: "C"})
			case "A":
				ops = append(ops, Op{T: "A"})
			case "X":
				next()
				ops = append(ops, Op{T: "X", N: len(srcs) - 1})
			}
		}
		if g.rng.Intn(2) == 0 {
			ops = append(ops, Op{T: "RA", N: 90})
		}
		g.reader("sequence", srcs, ex, ops)
	}
}

// stops: Close and then Reset while others are reading.
func (g *cgen) stops() {
	ex := Explore{Bound: g.n(2, 4), Max: g.n(2500, 80000), Rand: g.n(500, 12000)}
	for i := 0; i < g.n(60, 300); i++ {
		a := g.src(kinds[g.rng.Intn(len(kinds))], edge[g.rng.Intn(len(edge))], 1)
		b := g.src(kinds[g.rng.Intn(len(kinds))], edge[g.rng.Intn(len(edge))], 1+g.rng.Intn(2))
		t0 := []Op{}
		for k := g.rng.Intn(3); k > 0; k-- {
			t0 = append(t0, Op{T: "R", N: []int{1, 60, 200}[g.rng.Intn(3)]})
		}
		t0 = append(t0, Op{T: "C"}, Op{T: "J"})
		if i%3 == 0 {
			t0 = append(t0, Op{T: "R", N: 10})
		}
		t0 = append(t0, Op{T: "X", N: 1})
		t0 = append(t0, Op{T: "RA", N: 100})
		ts := [][]Op{t0}
		for k := g.rng.Intn(2); k >= 0; k-- {
			ts = append(ts, ra([]int{1, 7, 100, 300}[g.rng.Intn(4)]))
		}
		g.reader("close, then reset", []Src{a, b}, ex, ts...)
	}
}

func (g *cgen) readers() {
	ex := Explore{Bound: g.n(2, 4), Max: g.n(6000, 200000), Rand: g.n(1500, 40000)}
	sizes := []int{1, 3, 100, 128, 300}
	rs := func() []Op { return ra(sizes[g.rng.Intn(len(sizes))]) }
	cl := []Op{{T: "C"}}
	ac := []Op{{T: "A"}, {T: "A"}}
	n := 0
	for rep := 0; rep < g.n(1, 3); rep++ {
		for _, k := range kinds {
			for _, sz := range []int{0, 5, 12, 300} {
				s := func() []Src {
					n++
					return []Src{g.src(k, sz, 1)}
				}
				small := func() []Op {
					if sz >= 100 {
						return ra([]int{100, 128, 300}[g.rng.Intn(3)])
					}
					return rs()
				}
				g.reader("two readers "+k, s(), ex, small(), small())
				g.reader("three readers "+k, s(), ex, small(), small(), small())
				g.reader("reader and closer "+k, s(), ex, small(), cl)
				g.reader("readers and closer "+k, s(), ex, small(), small(), cl)
				g.reader("all "+k, s(), ex, small(), small(), cl, ac)
				g.reader("closers "+k, s(), ex, small(), cl, cl)
				g.reader("empty slices "+k, s(), ex, small(), []Op{{T: "R"}, {T: "R"}, {T: "R", N: 3}, {T: "R"}}, []Op{{T: "R"}, {T: "R"}})
				if sz == 5 {
					g.reader("empty slices and closer "+k, s(), ex, small(), []Op{{T: "R"}, {T: "R"}, {T: "R", N: 300}, {T: "R"}}, cl)
				}
				g.reader("read, close "+k, s(), ex, []Op{{T: "R", N: 3}, {T: "C"}, {T: "R", N: 3}}, small(), ac)
			}
		}
	}
}

// crowd: very many readers, of which most can only get the end.
func (g *cgen) crowd() {
	ex := Explore{Bound: 1, Max: g.n(150, 3000), Rand: g.n(100, 2000)}
	for i, k := range kinds {
		for _, n := range []int{7, 8, 9, 10} {
			if n == 10 && i%3 != 0 {
				continue
			}
			var ts [][]Op
			for j := 0; j < n; j++ {
				ts = append(ts, []Op{{T: "R", N: 100}})
			}
			g.reader("many readers "+k, []Src{g.src(k, 0, 1)}, ex, ts...)
			g.reader("many readers "+k, []Src{g.src(k, 4, 1)}, ex, ts...)
			ts = append(ts[1:], []Op{{T: "C"}})
			g.reader("many readers and closer "+k, []Src{g.src(k, 3, 1)}, ex, ts...)
		}
	}
}

func (g *cgen) writers() {
	ex := Explore{Bound: g.n(3, 5), Max: g.n(2500, 100000), Rand: g.n(600, 20000)}
	ip := func(x int) *int { return &x }
	for i := 0; i < g.n(220, 600); i++ {
		c := &WCase{Cfg: run.WCfg{Fmt: []string{"raw", "zlib", "gzip"}[g.rng.Intn(3)], ML: ip(1), WB: ip(8 + g.rng.Intn(8)), Lvl: ip(g.rng.Intn(10)),
			Strat: []string{"default", "huff", "rle", "fixed"}[g.rng.Intn(4)]}, Sink: []string{"plain", "flush", "sync", "both"}[g.rng.Intn(4)],
			Fail: -1, Writers: 1, Rep: g.rng.Intn(2) == 0, Ex: ex}
		if g.rng.Intn(4) == 0 {
			c.Fail = g.rng.Intn(6)
		}
		if i%5 == 4 {
			c.Writers = 2
		}
		nt := 2 + g.rng.Intn(2)
		if c.Writers == 2 && nt == 3 {
			nt = 4
		}
		for t := 0; t < nt; t++ {
			var ops []Op
			for k := 1 + g.rng.Intn(3); k > 0; k-- {
				switch g.rng.Intn(9) {
				case 0, 1, 2, 3:
					ops = append(ops, Op{T: "W", N: []int{0, 1, 2, 5, 40, 300, 1500}[g.rng.Intn(7)]})
				case 4, 5:
					ops = append(ops, Op{T: "F", F: string("BPSFC"[g.rng.Intn(5)])})
				case 6:
					ops = append(ops, Op{T: "C"})
				case 7:
					ops = append(ops, Op{T: "A"})
				case 8:
					ops = append(ops, Op{T: "H"})
				}
			}
			c.Threads = append(c.Threads, ops)
		}
		c.Tr = i%4 == 2
		c.Ex.Seed = g.rng.Int63n(1 << 30)
		g.cases = append(g.cases, Case{ID: fmt.Sprintf("c%d", len(g.cases)), Note: "writers", W: c})
	}
	// large pieces of data, many goroutines
	for i := 0; i < g.n(24, 80); i++ {
		c := &WCase{Cfg: run.WCfg{Fmt: []string{"raw", "zlib", "gzip"}[g.rng.Intn(3)], ML: ip(1 + g.rng.Intn(9)), Lvl: ip(0)}, Sink: []string{"plain", "flush", "sync", "both"}[g.rng.Intn(4)],
			Fail: -1, Writers: 1, Ex: Explore{Bound: 1, Max: g.n(30, 300), Rand: g.n(30, 300), Seed: g.rng.Int63n(1 << 30)}}
		if i%2 == 0 {
			big := []int{9000, 33000, 66000, 140000}[i/2%4]
			if i%4 == 2 {
				c.Cfg.ML = ip(7 + g.rng.Intn(3))
			}
			c.Threads = [][]Op{{{T: "W", N: big}}, {{T: "W", N: 3}, {T: "W", N: 300}}, {{T: "W", N: big / 2}, {T: "F", F: string("BPSFC"[g.rng.Intn(5)])}}}
		} else {
			c.Cfg.Lvl = ip(g.rng.Intn(10))
			for t := 0; t < 5+g.rng.Intn(3); t++ {
				o := []Op{{T: "W", N: 1 + g.rng.Intn(90)}}
				if g.rng.Intn(4) == 0 {
					o = []Op{{T: "F", F: string("BPSFC"[g.rng.Intn(5)])}}
				}
				c.Threads = append(c.Threads, o)
			}
			if i%6 == 1 {
				c.Threads[0] = []Op{{T: "C"}}
			}
		}
		g.cases = append(g.cases, Case{ID: fmt.Sprintf("c%d", len(g.cases)), Note: "large and many", W: c})
	}
}

// AltRec is an alternative outcome.
type AltRec struct {
	Err string `json:"err"`
	Lo  int    `json:"lo"`
	Hi  int    `json:"hi"`
}

// SrcRec says what a source denotes.
type SrcRec struct {
	N    int      `json:"n"`
	Err  string   `json:"err"`
	Alts []AltRec `json:"alts"`
}

// Expect gives what the sources denote.
func (c *RCase) Expect() (out []SrcRec) {
	for i := range c.Srcs {
		if c.Srcs[i].More != nil {
			out = append(out, SrcRec{N: len(c.Srcs[i].Data), Err: "NEVER", Alts: []AltRec{}})
			continue
		}
		r := c.Srcs[i].expect()
		x := SrcRec{N: len(r.Out), Err: r.Err, Alts: []AltRec{}}
		for _, a := range r.Alts {
			x.Alts = append(x.Alts, AltRec{a.Err, a.Lo, a.Hi})
		}
		out = append(out, x)
	}
	return
}
