package fam

import (
	"fmt"
	"math/rand"

	"github.com/chronos-tachyon/flate/verifharness/gen"
	"github.com/chronos-tachyon/flate/verifharness/run"
)

type wgen struct {
	rng   *rand.Rand
	tier  string
	cases []Case
}

func (g *wgen) n(quick, thorough int) int {
	if g.tier == "thorough" {
		return thorough
	}
	return quick
}

func (g *wgen) add(note string, c *run.WriterCase) {
	if c.Sink.Kind == "" {
		c.Sink.Kind = []string{"plain", "flush", "sync", "both"}[g.rng.Intn(4)]
	}
	if c.RT == nil {
		c.RT = []string{}
	}
	g.cases = append(g.cases, Case{ID: fmt.Sprintf("w%d", len(g.cases)), Note: note, W: c})
}

func ip(x int) *int { return &x }

var stratNames = []string{"default", "huff", "rle", "fixed"}

// cfg is a random configuration.
func (g *wgen) cfg(dict bool) run.WCfg {
	c := run.WCfg{Fmt: fmts3[g.rng.Intn(3)], Strat: stratNames[g.rng.Intn(4)], Lvl: ip(g.rng.Intn(11) - 1), ML: ip(g.rng.Intn(10)), WB: ip(8 + g.rng.Intn(8))}
	if g.rng.Intn(3) == 0 {
		c.ML = ip(1)
	}
	if g.rng.Intn(3) == 0 {
		c.Strat = "default"
	}
	if g.rng.Intn(4) == 0 {
		c.WB = ip(15)
	}
	if dict && c.Fmt != "gzip" && g.rng.Intn(4) == 0 {
		d := gen.RandData(g.rng, 1+gen.Logu(g.rng, 40000))
		c.Dict = &d
	}
	return c
}

func (g *wgen) data(n int) *gen.Data {
	d := gen.RandData(g.rng, n)
	return &d
}

func (g *wgen) w(n int) run.WOp { return run.WOp{T: "W", D: g.data(n)} }

func fl(t string) run.WOp { return run.WOp{T: "F", F: t} }

var closeOp = run.WOp{T: "C"}

// ops is a random sequence of n operations that ends with Close.
func (g *wgen) ops(n, maxLen int, flushes string) []run.WOp {
	var o []run.WOp
	for i := 0; i < n; i++ {
		switch {
		case len(flushes) > 0 && g.rng.Intn(3) == 0:
			o = append(o, fl(string(flushes[g.rng.Intn(len(flushes))])))
		case g.rng.Intn(12) == 0:
			o = append(o, run.WOp{T: "W", D: &gen.Data{G: "lit"}})
		default:
			o = append(o, g.w(gen.Logu(g.rng, maxLen)))
		}
	}
	return append(o, closeOp)
}

// smallRT is a case that is judged bit by bit.
func (g *wgen) small(note string, c run.WCfg, ops []run.WOp) {
	rt := []string{"same"}
	if c.Fmt != "raw" {
		rt = append(rt, "auto")
	}
	g.add(note, &run.WriterCase{Cfg: c, Ops: ops, Ev: true, RT: append(rt, "ml1"), Bits: true})
}

func (g *wgen) big(note string, c run.WCfg, ops []run.WOp) {
	rt := []string{"same", "ml1", "wide"}
	if c.Fmt != "raw" {
		rt = append(rt, "auto")
	}
	g.add(note, &run.WriterCase{Cfg: c, Ops: ops, RT: rt})
}

// smallCfg avoids long dictionaries.
func (g *wgen) smallCfg() run.WCfg {
	c := g.cfg(false)
	if c.Fmt != "gzip" && g.rng.Intn(4) == 0 {
		d := gen.RandData(g.rng, 1+g.rng.Intn(60))
		c.Dict = &d
	}
	return c
}

// Writer returns the Writer cases for a property; seqs are operation
// sequences which TLC generated from the specification.
func Writer(prop string, seed int64, tier string, seqs [][]string) []Case {
	g := &wgen{rng: rand.New(rand.NewSource(seed*7000003 + int64(prop[1])*131 + int64(prop[2]))), tier: tier}
	switch prop {
	case "P01":
		for i := 0; i < g.n(260, 4000); i++ {
			g.small("round trip", g.smallCfg(), g.ops(1+g.rng.Intn(6), 60, "BPSFC"))
		}
		g.roundTrips(g.n(220, 4000))
		g.extremes()
		g.long(g.n(14, 200))
	case "P02":
		for i := 0; i < g.n(420, 5000); i++ {
			g.small("conformance", g.smallCfg(), g.ops(1+g.rng.Intn(5), 120, "BPSFC"))
		}
		g.deep()
		g.extremes()
		g.roundTrips(g.n(80, 1500))
	case "P10":
		g.splits(g.n(40, 500))
	case "P11":
		for i := 0; i < g.n(200, 3000); i++ {
			g.small("flush", g.smallCfg(), g.ops(3+g.rng.Intn(8), 40, "BPPSSF"))
		}
		for i := 0; i < g.n(140, 2500); i++ {
			g.big("flush big", g.cfg(true), g.ops(2+g.rng.Intn(14), 9000, "BPPSSFC"))
		}
		g.flushRuns()
		g.manyFlushes()
		g.sequences(seqs, 2)
	case "P12":
		g.history()
		g.sequences(seqs, 2)
	case "P13":
		g.sequences(seqs, 1)
		g.lifecycle(g.n(150, 2500))
		g.manyStreams()
	case "P14":
		g.faults(seqs)
		g.late(g.n(60, 800))
	case "P15":
		g.resets(g.n(260, 4000), seqs)
	case "P19":
		for i := 0; i < g.n(200, 3000); i++ {
			g.small("events", g.smallCfg(), g.ops(1+g.rng.Intn(7), 60, "BPSFC"))
		}
		for i := 0; i < g.n(40, 600); i++ {
			c := run.WriterCase{Cfg: g.cfg(true), Ops: g.ops(1+g.rng.Intn(7), 9000, "BPSFC"), Ev: true}
			g.add("events big", &c)
		}
	case "P20":
		g.headers()
	case "P21":
		g.dictionaries(g.n(140, 2000))
	case "P22":
		g.windows(g.n(8, 100))
	case "P28":
		g.together()
	case "P23":
		g.levels()
	}
	return g.cases
}

// sizes that matter to some buffer.
var edgeSizes = []int{0, 1, 2, 3, 4, 5, 127, 255, 256, 257, 258, 259, 511, 512, 513, 767, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 16384,
	32767, 32768, 32769, 61439, 61440, 61441, 65535, 65536, 65537, 98304, 131069, 131070, 131071, 131072, 131073, 196605, 200000}

func (g *wgen) roundTrips(n int) {
	for i := 0; i < n; i++ {
		m := 20000
		if i%6 == 0 {
			m = 200000
		}
		var ops []run.WOp
		if i%3 == 0 {
			k := edgeSizes[g.rng.Intn(len(edgeSizes))]
			ops = append(ops, g.w(k))
			ops = append(ops, g.ops(g.rng.Intn(3), 3000, "BPSFC")...)
		} else {
			ops = g.ops(1+g.rng.Intn(8), m, "BPSFC")
		}
		g.big("round trip big", g.cfg(true), ops)
	}
}

// long: megabytes of data that matches itself near and far.
func (g *wgen) long(n int) {
	for i := 0; i < n; i++ {
		k := 1<<20 + g.rng.Intn(3<<20)
		seed := g.rng.Int63n(1 << 30)
		d := []*gen.Data{
			{G: "text", N: k, Seed: seed},
			{G: "copies", N: k, Seed: seed, A: 65536, P: 12},
			{G: "period", N: k, Seed: seed, A: 32700 + g.rng.Intn(100)},
			{G: "runs", N: k, Seed: seed, A: 300, P: 4},
			{G: "echo", N: k, Seed: seed, A: 30000 + g.rng.Intn(3000), P: 100},
			{G: "alpha", N: k, Seed: seed, A: 3},
		}[i%6]
		c := g.cfg(g.rng.Intn(4) == 0)
		if i%3 == 0 {
			c.Lvl, c.WB, c.Strat = ip(1+g.rng.Intn(9)), ip(15), "default"
		}
		ops := []run.WOp{{T: "W", D: d}}
		if i%2 == 0 {
			ops = append(ops, run.WOp{T: "F", F: "S"}, g.w(gen.Logu(g.rng, 100000)))
		}
		g.big("long", c, append(ops, closeOp))
	}
}

// extremes: every setting with every kind of data, at sizes that fill the buffers.
func (g *wgen) extremes() {
	for _, st := range stratNames {
		for lvl := -1; lvl <= 9; lvl++ {
			for _, ml := range []int{1, 5, 9} {
				c := run.WCfg{Fmt: fmts3[g.rng.Intn(3)], Strat: st, Lvl: ip(lvl), ML: ip(ml), WB: ip(8 + g.rng.Intn(8))}
				buf := 1 << uint(8+ml)
				var d *gen.Data
				switch g.rng.Intn(4) {
				case 0:
					d = &gen.Data{G: "rand", N: buf + g.rng.Intn(buf), Seed: g.rng.Int63n(1 << 30)}
				case 1:
					d = &gen.Data{G: "zero", N: 2*buf + g.rng.Intn(300), A: 65}
				default:
					d = g.data(buf + g.rng.Intn(2*buf))
				}
				g.big("settings", c, []run.WOp{{T: "W", D: d}, closeOp})
			}
		}
	}
	for _, n := range edgeSizes {
		for k := 0; k < 3; k++ {
			c := g.cfg(false)
			if k != 1 {
				c.ML = ip(9)
			}
			if k == 2 {
				c.Lvl = ip(0)
			}
			d := &gen.Data{G: "rand", N: n, Seed: int64(n)}
			if k == 1 && g.rng.Intn(2) == 0 {
				d = g.data(n)
			}
			g.big("sizes", c, []run.WOp{{T: "W", D: d}, closeOp})
		}
	}
}

// deep: frequencies that call for very long codes.
func (g *wgen) deep() {
	for a := 8; a <= 23; a++ {
		for k := 0; k < g.n(2, 12); k++ {
			c := run.WCfg{Fmt: fmts3[g.rng.Intn(3)], Strat: stratNames[[]int{0, 1, 1, 2}[g.rng.Intn(4)]], Lvl: ip(1 + g.rng.Intn(9)), ML: ip(9), WB: ip(15)}
			d := &gen.Data{G: "fib", N: 120000, Seed: g.rng.Int63n(1 << 30), A: a, P: g.rng.Intn(200)}
			if g.rng.Intn(3) == 0 {
				d = &gen.Data{G: "lens", N: 20000 + g.rng.Intn(80000), Seed: g.rng.Int63n(1 << 30)}
			}
			g.big("deep codes", c, []run.WOp{{T: "W", D: d}, closeOp})
		}
	}
}

// splits: the same data in different divisions.
func (g *wgen) splits(n int) {
	for i := 0; i < n; i++ {
		c := g.cfg(true)
		total := gen.Logu(g.rng, 30000)
		parts := g.data(total)
		b := parts.Bytes()
		for k := 0; k < 5; k++ {
			var ops []run.WOp
			p := 0
			for p < len(b) {
				m := 1
				switch k {
				case 0:
					m = len(b)
				case 1:
					m = 1 + g.rng.Intn(300)
				case 2:
					m = gen.Logu(g.rng, 5000)
				case 3:
					m = 1 + g.rng.Intn(3)
					if len(b) > 2500 {
						m += len(b) / 700
					}
				case 4:
					m = 1 + g.rng.Intn(1+len(b)/3)
					ops = append(ops, run.WOp{T: "W", D: &gen.Data{G: "lit"}})
				}
				if p+m > len(b) {
					m = len(b) - p
				}
				ops = append(ops, run.WOp{T: "W", D: &gen.Data{G: "lit", Lit: run.Ints(b[p : p+m])}})
				p += m
			}
			if k == 4 {
				ops = append(ops, run.WOp{T: "W", D: &gen.Data{G: "lit"}})
			}
			g.big("split", c, append(ops, closeOp))
		}
	}
}

// flushRuns: the same flush many times over, on all bit positions.
func (g *wgen) flushRuns() {
	for _, f := range []string{"B", "P", "S", "F", "BP", "PB", "PS", "SP", "BF", "PF", "PPB", "BBP", "FP", "CP"} {
		for k := 0; k < g.n(4, 30); k++ {
			var ops []run.WOp
			for j := 0; j < 20; j++ {
				if g.rng.Intn(4) != 0 {
					ops = append(ops, g.w(1+g.rng.Intn(7)))
				}
				ops = append(ops, fl(string(f[j%len(f)])))
			}
			g.small("flush run "+f, g.smallCfg(), append(ops, closeOp))
		}
	}
}

// manyFlushes: hundreds of flushes and Writes in one stream.
func (g *wgen) manyFlushes() {
	for i, f := range []string{"P", "S", "F", "B", "BPSF", "PPS", "SB"} {
		for k := 0; k < g.n(2, 8); k++ {
			n := []int{140, 300, 560, 1100}[(i+k)%4]
			var ops []run.WOp
			for j := 0; j < n; j++ {
				if k%2 == 0 || j%50 == 7 {
					ops = append(ops, g.w(1+g.rng.Intn(4)))
				}
				ops = append(ops, fl(string(f[g.rng.Intn(len(f))])))
			}
			g.big("many flushes", g.cfg(false), append(ops, g.w(30), closeOp))
		}
	}
}

// sequences: operation sequences from the specification.
func (g *wgen) sequences(seqs [][]string, every int) {
	for i, s := range seqs {
		if every > 1 && (i+int(g.rng.Int31n(int32(every))))%every != 0 {
			continue
		}
		c := g.smallCfg()
		ops := g.fromSeq(s)
		if g.rng.Intn(4) == 0 {
			g.small("sequence", c, ops)
		} else {
			g.add("sequence", &run.WriterCase{Cfg: c, Ops: ops})
		}
	}
}

func (g *wgen) fromSeq(s []string) []run.WOp {
	var ops []run.WOp
	for _, x := range s {
		switch x {
		case "W0":
			ops = append(ops, run.WOp{T: "W", D: &gen.Data{G: "lit"}})
		case "W1":
			ops = append(ops, g.w(1+g.rng.Intn(40)))
		case "W2":
			ops = append(ops, g.w(300+g.rng.Intn(3000)))
		case "FB", "FP", "FS", "FF", "FC":
			ops = append(ops, fl(x[1:]))
		case "C":
			ops = append(ops, closeOp)
		case "R":
			ops = append(ops, run.WOp{T: "R"})
		}
	}
	return ops
}

// history: repeated data around flushes.
func (g *wgen) history() {
	for i := 0; i < g.n(260, 4000); i++ {
		c := g.cfg(false)
		c.Strat = []string{"default", "fixed", "rle", "default"}[i%4]
		c.Lvl = ip(1 + g.rng.Intn(9))
		n := 20 + gen.Logu(g.rng, 3000)
		d := g.data(n)
		if i%2 == 0 {
			d = &gen.Data{G: "text", N: n, Seed: g.rng.Int63n(1 << 30)}
		}
		if i%5 == 0 || i%4 == 2 && g.rng.Intn(2) == 0 { // runs that go on
			d = &gen.Data{G: "zero", N: n, A: g.rng.Intn(256)}
		}
		if c.Fmt != "gzip" && i%3 == 0 { // the dictionary is what is written
			c.Dict = d
		}
		var ops []run.WOp
		fs := []string{"FC", "FFB", "CF", "FPSC", "F", "C"}[g.rng.Intn(6)]
		for j := 0; j < 2+g.rng.Intn(5); j++ {
			ops = append(ops, run.WOp{T: "W", D: d})
			if g.rng.Intn(3) == 0 {
				ops = append(ops, run.WOp{T: "W", D: d})
			}
			if g.rng.Intn(6) != 0 {
				ops = append(ops, fl(string(fs[g.rng.Intn(len(fs))])))
			}
		}
		if n < 120 {
			g.small("history", c, append(ops, closeOp))
		} else {
			g.big("history", c, append(ops, closeOp))
		}
	}
	// history that must have survived: random data, again and again
	for i := 0; i < g.n(150, 2000); i++ {
		c := g.cfg(false)
		c.Strat, c.Lvl = []string{"default", "default", "fixed"}[i%3], ip(1+g.rng.Intn(9))
		if i%4 == 0 {
			c.WB = ip(8)
		}
		w := 1 << uint(15)
		if c.WB != nil && *c.WB != 0 {
			w = 1 << uint(*c.WB)
		}
		n := 100 + gen.Logu(g.rng, w/2-100)
		d := &gen.Data{G: "rand", N: n, Seed: g.rng.Int63n(1 << 30)}
		f := []string{"B", "P", "S", "BPS"}[g.rng.Intn(4)]
		ops := []run.WOp{}
		for j := 0; j < 8; j++ {
			ops = append(ops, run.WOp{T: "W", D: d})
			if j < 5 {
				ops = append(ops, fl(string(f[g.rng.Intn(len(f))])))
			}
		}
		g.add("history survives", &run.WriterCase{Cfg: c, Ops: append(ops, closeOp), RT: []string{"same"}, Expect: "compress"})
	}
	// long history before the flush, in one Write afterwards
	for i := 0; i < g.n(20, 200); i++ {
		c := run.WCfg{Fmt: fmts3[i%3], Lvl: ip(1 + g.rng.Intn(9)), ML: ip(1 + g.rng.Intn(9)), WB: ip(15)}
		d := &gen.Data{G: "copies", N: 30000 + g.rng.Intn(60000), Seed: g.rng.Int63n(1 << 30), A: 4096, P: 10}
		g.big("history long", c, []run.WOp{{T: "W", D: d}, fl("F"), {T: "W", D: d}, fl("C"), {T: "W", D: d}, fl("S"), {T: "W", D: d}, closeOp})
	}
}

func (g *wgen) lifecycle(n int) {
	for i := 0; i < n; i++ {
		c := g.smallCfg()
		var ops []run.WOp
		for e := 0; e < 1+g.rng.Intn(3); e++ {
			if e > 0 {
				ops = append(ops, run.WOp{T: "R"})
			}
			for k := g.rng.Intn(9); k > 0; k-- {
				switch g.rng.Intn(9) {
				case 0, 1:
					ops = append(ops, fl("C"))
				case 2:
					ops = append(ops, closeOp)
				case 3:
					ops = append(ops, fl(string("BPSF"[g.rng.Intn(4)])))
				case 4:
					ops = append(ops, run.WOp{T: "W", D: &gen.Data{G: "lit"}})
				case 5:
					ops = append(ops, run.WOp{T: "A"})
				default:
					ops = append(ops, g.w(gen.Logu(g.rng, 900)))
				}
			}
		}
		g.add("lifecycle", &run.WriterCase{Cfg: c, Ops: ops, RT: []string{"same"}, Sink: run.SinkSpec{Kind: []string{"plain", "flush", "sync", "both"}[i%4], Short: g.rng.Intn(3)}})
	}
}

// manyStreams: hundreds of streams, and of lives.
func (g *wgen) manyStreams() {
	for i := 0; i < g.n(8, 40); i++ {
		n := []int{60, 140, 300, 560}[i%4]
		var ops []run.WOp
		for j := 0; j < n; j++ {
			if g.rng.Intn(5) != 0 {
				ops = append(ops, g.w(1+g.rng.Intn(5)))
			}
			ops = append(ops, fl("C"))
			if i%2 == 1 && j%3 == 2 {
				if g.rng.Intn(3) != 0 {
					ops = append(ops, closeOp)
				}
				ops = append(ops, run.WOp{T: "R"})
			}
		}
		g.add("many streams", &run.WriterCase{Cfg: g.smallCfg(), Ops: append(ops, g.w(3), closeOp), RT: []string{"same"}})
	}
}

// late: the sink fails after much has been written.
func (g *wgen) late(n int) {
	for i := 0; i < n; i++ {
		c := g.cfg(true)
		o := g.ops(1+g.rng.Intn(6), 60000, "BPSFC")
		if i%2 == 0 {
			o = append([]run.WOp{{T: "W", D: &gen.Data{G: "rand", N: 5000 + g.rng.Intn(150000), Seed: g.rng.Int63n(1 << 30)}}}, o...)
		}
		o = append(o[:len(o)-1], g.w(3), fl("S"), closeOp, g.w(2), fl("C"), closeOp)
		if i%4 == 3 {
			o = append(o, run.WOp{T: "R"}, g.w(50), fl("S"), closeOp)
		}
		g.add("late fault", &run.WriterCase{Cfg: c, Ops: o, Twin: true, Sink: run.SinkSpec{Kind: []string{"both", "plain", "flush", "sync"}[i%4], At: 8 + gen.Logu(g.rng, 12000), K: "W", Err: "SINK", Part: []string{"none", "some", "all"}[g.rng.Intn(3)]}})
	}
}

// faults: for each sequence, every sink call fails once in every manner.
func (g *wgen) faults(seqs [][]string) {
	var list [][]run.WOp
	tail := func() []run.WOp { return []run.WOp{g.w(3), fl("S"), closeOp, g.w(2), fl("C"), closeOp} }
	pick := g.n(60, 600)
	for i := 0; i < pick && len(seqs) > 0; i++ {
		list = append(list, append(g.fromSeq(seqs[g.rng.Intn(len(seqs))]), tail()...))
	}
	for i := 0; i < g.n(50, 500); i++ {
		o := g.ops(1+g.rng.Intn(5), 2500, "BPSFC")
		list = append(list, append(o[:len(o)-1], tail()...))
	}
	for i, ops := range list {
		c := g.smallCfg()
		kind := []string{"both", "plain", "flush", "sync"}[i%4]
		maxAt := g.n(9, 30)
		for at := 0; at < maxAt; at++ {
			for _, k := range []string{"W", "F", "S"} {
				if (k == "F" && kind != "both" && kind != "flush") || (k == "S" && kind != "both" && kind != "sync") {
					continue
				}
				if k != "W" && at > 4 {
					continue
				}
				part := []string{"none", "some", "all"}[g.rng.Intn(3)]
				e := "SINK"
				if g.rng.Intn(3) == 0 {
					e = append(run.OtherErrs(), "EINVAL", "EINVAL", "PEINVAL", "PEINVAL")[g.rng.Intn(len(run.OtherErrs())+4)]
				}
				hdr := []run.WOp{}
				if c.Fmt == "gzip" && at%3 == 1 {
					hdr = append(hdr, run.WOp{T: "H", H: g.hdr(true)})
				}
				o2 := append(hdr, ops...)
				if g.rng.Intn(6) == 0 {
					o2 = append(append([]run.WOp{}, o2...), run.WOp{T: "R"}, g.w(50), fl("S"), closeOp)
				}
				g.add("fault", &run.WriterCase{Cfg: c, Ops: o2, Twin: true, Sink: run.SinkSpec{Kind: kind, At: at, K: k, Err: e, Part: part}})
			}
		}
	}
}

// resets: use a Writer in some way, reset it, compare with a new one.
func (g *wgen) resets(n int, seqs [][]string) {
	for i := 0; i < n; i++ {
		c := g.cfg(true)
		var ops []run.WOp
		eps := 2 + g.rng.Intn(3)
		sink := run.SinkSpec{Kind: "both"}
		for e := 0; e < eps; e++ {
			if e > 0 {
				op := run.WOp{T: "R", Sink: &run.SinkSpec{Kind: []string{"plain", "both"}[g.rng.Intn(2)]}}
				if g.rng.Intn(3) == 0 {
					op.Sink.At, op.Sink.K, op.Sink.Err, op.Sink.Part = g.rng.Intn(12), "W", "SINK", "some"
				}
				if g.rng.Intn(2) == 0 {
					x := run.WCfg{}
					f := g.cfg(true)
					switch g.rng.Intn(7) {
					case 0:
						x.Fmt = f.Fmt
					case 1:
						x.Strat = f.Strat
					case 2:
						x.Lvl = f.Lvl
					case 3:
						x.ML = f.ML
					case 4:
						x.WB = f.WB
					case 5:
						x = f
					default:
						x.Dict = &gen.Data{}
					}
					op.Cfg = &x
					// gzip has no dictionaries
					if x.Fmt == "gzip" {
						x.Dict = &gen.Data{}
					} else if c.Merge(x).Fmt == "gzip" {
						x.Dict = &gen.Data{}
					}
					c2 := c.Merge(x)
					_ = c2
				}
				ops = append(ops, op)
			}
			if g.rng.Intn(5) == 0 {
				ops = append(ops, run.WOp{T: "H", H: g.hdr(g.rng.Intn(3) != 0)})
			}
			m := 200
			if g.rng.Intn(3) == 0 {
				m = 30000
			}
			o := g.ops(g.rng.Intn(5), m, "BPSFC")
			switch g.rng.Intn(4) {
			case 0: // not closed
				o = o[:len(o)-1]
			case 1: // leave bits pending
				o = append(o[:len(o)-1], g.w(1+g.rng.Intn(9)), fl("B"), g.w(3))
			}
			if e == 0 {
				sink = run.SinkSpec{Kind: "plain"}
				if g.rng.Intn(2) == 0 {
					sink.At, sink.K, sink.Err, sink.Part = g.rng.Intn(14), "W", "SINK", []string{"none", "some", "all"}[g.rng.Intn(3)]
				}
			}
			ops = append(ops, o...)
		}
		if c.Fmt == "gzip" {
			c.Dict = nil
		}
		g.add("reset", &run.WriterCase{Cfg: fixDict(c, ops), Ops: ops, Sink: sink, Twin: true, RT: []string{"same"}})
	}
	for i := 0; i < g.n(24, 300); i++ { // the sink refuses the header, and what was to follow it must not turn up later
		c := g.smallCfg()
		var same run.WCfg
		switch i % 4 {
		case 0:
			same.Lvl = c.Lvl
		case 1:
			same.Fmt = c.Fmt
		case 2:
			same.Strat = c.Strat
		}
		op := run.WOp{T: "R", Sink: &run.SinkSpec{Kind: "plain"}}
		if i%4 != 3 {
			op.Cfg = &same
		}
		ops := []run.WOp{g.w(1 + g.rng.Intn(300)), op, g.w(1 + g.rng.Intn(300)), closeOp}
		g.add("reset after refusal", &run.WriterCase{Cfg: fixDict(c, ops), Ops: ops, Twin: true, RT: []string{"same"},
			Sink: run.SinkSpec{Kind: "plain", At: 1 + g.rng.Intn(2), K: "W", Err: "SINK", Part: []string{"none", "some"}[g.rng.Intn(2)]}})
	}
	for i := 0; i < g.n(6, 60); i++ { // many lives
		var ops []run.WOp
		for j := 0; j < 20+g.rng.Intn(60); j++ {
			o := g.ops(1+g.rng.Intn(3), 100, "BPSFC")
			if g.rng.Intn(3) == 0 {
				o = append(o[:len(o)-1], fl("C"))
			}
			ops = append(append(ops, o...), run.WOp{T: "R", Sink: &run.SinkSpec{Kind: []string{"plain", "both"}[j%2]}})
		}
		g.add("many lives", &run.WriterCase{Cfg: g.smallCfg(), Ops: append(ops, g.w(300), closeOp), Twin: true, RT: []string{"same"}})
	}
	for i, s := range seqs {
		if i%3 != 0 {
			continue
		}
		ops := append(g.fromSeq(s), run.WOp{T: "R"}, g.w(1+g.rng.Intn(500)), fl("P"), g.w(20), closeOp)
		sp := run.SinkSpec{Kind: "both", At: g.rng.Intn(6), K: "W", Part: "some"}
		if i%2 == 0 {
			sp.Err = "SINK"
		}
		g.add("reset sequence", &run.WriterCase{Cfg: g.smallCfg(), Ops: ops, Sink: sp, Twin: true, RT: []string{"same"}})
	}
}

// fixDict makes sure that no epoch combines gzip with a dictionary.
func fixDict(c run.WCfg, ops []run.WOp) run.WCfg {
	cur := c
	for _, o := range ops {
		if o.T == "R" && o.Cfg != nil {
			cur = cur.Merge(*o.Cfg)
			if cur.Fmt == "gzip" && cur.Dict != nil && cur.Dict.G != "" {
				o.Cfg.Dict = &gen.Data{}
				cur.Dict = o.Cfg.Dict
			}
		}
	}
	return c
}

// hdr is a header, legal or perhaps not.
func (g *wgen) hdr(legal bool) *run.HdrIn {
	h := &run.HdrIn{Name: []int{}, Comment: []int{}, Extra: []run.ExtraRec{}}
	str := func(n int) []int {
		s := run.Ints(gen.RandStr(g.rng, n))
		for i, c := range s {
			if c == 0 || c == '/' || c == '\\' {
				s[i] = 'x'
			}
		}
		return s
	}
	if g.rng.Intn(2) == 0 {
		h.Name = str(g.rng.Intn(20))
		if g.rng.Intn(6) == 0 {
			h.Name = str(250 + g.rng.Intn(6))
		}
	}
	if g.rng.Intn(2) == 0 {
		h.Comment = str(g.rng.Intn(20))
		if g.rng.Intn(6) == 0 {
			h.Comment = append(str(250), '/', '\\', 200)
		}
	}
	if g.rng.Intn(2) == 0 {
		h.HasTime = true
		h.Secs = []int64{0, 1, 65535, 65536, 1600000000, 1<<31 - 1, 1 << 31, 1<<32 - 2, g.rng.Int63n(1<<32 - 1)}[g.rng.Intn(9)]
		if g.rng.Intn(2) == 0 {
			h.Zone = []int{3600, -3600, 12 * 3600, -12 * 3600, 5*3600 + 1800, 1, -1, 14 * 3600}[g.rng.Intn(8)]
		}
	}
	h.Text = []string{"", "", "text", "binary"}[g.rng.Intn(4)]
	h.OS = append([]string{"", "", ""}, run.OSNames[1:]...)[g.rng.Intn(len(run.OSNames)+2)]
	for k := g.rng.Intn(8) - 4; k > 0; k-- {
		x := make([]byte, g.rng.Intn(12))
		g.rng.Read(x)
		h.Extra = append(h.Extra, run.ExtraRec{ID: []int{g.rng.Intn(256), g.rng.Intn(256)}, Bytes: run.Ints(x)})
	}
	if g.rng.Intn(12) == 0 {
		h.Extra = nil
		h.BigX = []int{256, 4000, 65530, 65531}[g.rng.Intn(4)]
	}
	if legal {
		return h
	}
	k := 1
	if g.rng.Intn(3) == 0 { // several reasons
		k = 2 + g.rng.Intn(8)
	}
	for ; k > 0; k-- {
		switch g.rng.Intn(12) {
		case 0:
			h.Name = append(str(g.rng.Intn(5)), 0)
		case 1:
			h.Name = append(append(str(g.rng.Intn(5)), 0), str(3)...)
		case 2:
			h.Name = append(append(str(g.rng.Intn(5)), '/'), str(g.rng.Intn(3))...)
		case 3:
			h.Name = append(append(str(g.rng.Intn(5)), '\\'), str(g.rng.Intn(3))...)
		case 4:
			h.Name = str(256 + g.rng.Intn(10))
		case 5:
			h.Comment = append(append(str(g.rng.Intn(5)), 0), str(g.rng.Intn(3))...)
		case 6:
			h.Comment = str(256 + g.rng.Intn(1000))
		case 7:
			h.HasTime, h.Secs = true, -1-g.rng.Int63n(1<<40)
			if g.rng.Intn(2) == 0 { // in some zone the year is 1970
				h.Secs, h.Zone = -1-g.rng.Int63n(3600), 12*3600
			}
		case 8:
			h.HasTime, h.Secs = true, 1<<32+g.rng.Int63n(1<<40)
			if g.rng.Intn(2) == 0 {
				h.Secs, h.Zone = 1<<32+g.rng.Int63n(3600), -12*3600
			}
		case 9:
			h.OS = "invalid"
		case 10:
			h.BigX = 65532 + g.rng.Intn(10)
		case 11:
			h.Extra = append(h.Extra, run.ExtraRec{ID: []int{1, 2}, Bytes: []int{3}})
			h.BigX = 65531 - g.rng.Intn(4)
		}
	}
	if h.Extra == nil {
		h.Extra = []run.ExtraRec{}
	}
	return h
}

func (g *wgen) headers() {
	text := func(n int) *gen.Data { return &gen.Data{G: "text", N: n, Seed: g.rng.Int63n(1 << 30)} }
	bin := func(n int) *gen.Data { return &gen.Data{G: "alpha", N: n, A: 8, P: 0, Seed: g.rng.Int63n(1 << 30)} }
	for i := 0; i < g.n(420, 5000); i++ {
		c := run.WCfg{Fmt: "gzip", Strat: stratNames[g.rng.Intn(4)], Lvl: ip(g.rng.Intn(11) - 1), ML: ip(1 + g.rng.Intn(9))}
		if i%9 == 0 {
			c.Fmt = "zlib"
		}
		var ops []run.WOp
		for k := 0; k < 1+g.rng.Intn(3); k++ {
			for j := 1 + g.rng.Intn(2); j > 0; j-- {
				if g.rng.Intn(4) != 0 {
					ops = append(ops, run.WOp{T: "H", H: g.hdr(g.rng.Intn(3) != 0)})
				}
			}
			n := 1 + g.rng.Intn(60)
			big := g.rng.Intn(8) == 0
			if big {
				n = 100 + g.rng.Intn(9000)
			}
			var d *gen.Data
			if g.rng.Intn(2) == 0 {
				d = text(n)
			} else {
				d = bin(n)
			}
			if g.rng.Intn(8) != 0 {
				ops = append(ops, run.WOp{T: "W", D: d})
				if g.rng.Intn(4) == 0 { // for the next stream
					ops = append(ops, run.WOp{T: "H", H: g.hdr(g.rng.Intn(4) != 0)})
					if g.rng.Intn(2) == 0 {
						ops = append(ops, fl(string("BPSF"[g.rng.Intn(4)])), run.WOp{T: "W", D: text(20)})
					}
				}
			}
			ops = append(ops, fl("C"))
		}
		big := false
		for _, o := range ops {
			if (o.D != nil && o.D.N > 90) || (o.H != nil && (o.H.BigX > 0 || len(o.H.Comment) > 300)) {
				big = true
			}
		}
		ops = append(ops, closeOp)
		if big {
			g.add("headers", &run.WriterCase{Cfg: c, Ops: ops, RT: []string{"same", "auto"}})
		} else {
			g.small("headers", c, ops)
		}
	}
	// every byte, in a text
	for i := 0; i < 256; i++ {
		n := g.rng.Intn(40)
		if i%8 == 0 {
			n = g.rng.Intn(256)
		}
		lit := run.Ints(text(300).Bytes()[:n+1+g.rng.Intn(40)])
		lit[n] = i
		d := &gen.Data{G: "lit", Lit: lit}
		ops := []run.WOp{{T: "W", D: d}, closeOp}
		if i%2 == 1 {
			ops = []run.WOp{{T: "W", D: text(40)}, fl("C"), {T: "W", D: d}, fl("C"), {T: "W", D: bin(40)}, closeOp}
		}
		g.add("text with any byte", &run.WriterCase{Cfg: run.WCfg{Fmt: "gzip", Lvl: ip(g.rng.Intn(10)), ML: ip(1 + g.rng.Intn(9))}, Ops: ops, RT: []string{"same"}})
	}
	// extra fields of many records
	for i, n := range []int{10, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 3000, 5000, 16382, 16383, 16384} {
		h := &run.HdrIn{Name: []int{'n', 'a' + i}, Comment: []int{}, Extra: []run.ExtraRec{}}
		for j := 0; j < n; j++ {
			b := make([]byte, 0)
			if n < 5000 && (j+i)%3 == 0 {
				b = make([]byte, j%10)
				g.rng.Read(b)
			}
			h.Extra = append(h.Extra, run.ExtraRec{ID: []int{j % 256, j / 256}, Bytes: run.Ints(b)})
		}
		ops := []run.WOp{{T: "H", H: h}, {T: "W", D: text(30)}}
		if i%3 == 0 {
			ops = append(ops, fl("C"), run.WOp{T: "W", D: bin(30)})
		}
		g.add("header of many records", &run.WriterCase{Cfg: run.WCfg{Fmt: "gzip", Lvl: ip(i % 10), ML: ip(1 + i%9)}, Ops: append(ops, closeOp), RT: []string{"same"}})
	}
	// a header holds for all the streams that follow
	for i, n := range []int{40, 130, 300, 520, g.n(1100, 3100)} {
		var ops []run.WOp
		for j := 0; j < n; j++ {
			if j == 0 || j == n/2 {
				ops = append(ops, run.WOp{T: "H", H: g.hdr(true)})
			}
			ops = append(ops, run.WOp{T: "W", D: text(1 + j%5)}, fl("C"))
		}
		g.add("header of many streams", &run.WriterCase{Cfg: run.WCfg{Fmt: "gzip", Lvl: ip(9 - i), ML: ip(1 + i)}, Ops: append(ops, closeOp), RT: []string{"same"}})
	}
	for i := 0; i < g.n(60, 500); i++ {
		c := run.WCfg{Fmt: "gzip", ML: ip(1)}
		g.add("headers across Reset", &run.WriterCase{Cfg: c, Twin: true, RT: []string{"same"}, Ops: []run.WOp{
			{T: "H", H: g.hdr(true)}, {T: "W", D: text(30)}, closeOp, {T: "R"}, {T: "H", H: g.hdr(i%2 == 0)}, {T: "W", D: bin(30)}, closeOp, {T: "R"}, {T: "W", D: text(30)}, closeOp}})
	}
}

func (g *wgen) dictionaries(n int) {
	for i := 0; i < n; i++ {
		c := run.WCfg{Fmt: fmts3[i%2], Strat: stratNames[g.rng.Intn(4)], Lvl: ip(g.rng.Intn(10)), ML: ip(1 + g.rng.Intn(9)), WB: ip(8 + g.rng.Intn(8))}
		n := 1 + g.rng.Intn(60)
		switch i % 4 {
		case 1:
			n = []int{255, 256, 257, 300, 1000, 32767, 32768, 32769, 40000, 70000, 1, 2, 3, 65535, 65536, 100001, 131072, 200000}[(i/4)%18]
		case 2:
			n = gen.Logu(g.rng, 2000)
		}
		d := g.data(n)
		if i%7 == 0 {
			d = &gen.Data{G: "zero", N: n}
		}
		if len(d.Bytes()) == 0 {
			d = &gen.Data{G: "zero", N: 1, A: 7}
		}
		c.Dict = d
		// the data resembles the dictionary
		var ops []run.WOp
		b := d.Bytes()
		for k := 0; k < 1+g.rng.Intn(4); k++ {
			lo := g.rng.Intn(len(b))
			hi := lo + 1 + g.rng.Intn(len(b)-lo)
			if hi-lo > 2000 {
				hi = lo + 2000
			}
			ops = append(ops, run.WOp{T: "W", D: &gen.Data{G: "lit", Lit: run.Ints(b[lo:hi])}})
			if g.rng.Intn(2) == 0 {
				ops = append(ops, g.w(g.rng.Intn(20)))
			}
			switch g.rng.Intn(4) {
			case 0:
				ops = append(ops, fl("C"))
			case 1:
				ops = append(ops, fl(string("BPSF"[g.rng.Intn(4)])))
			}
		}
		ops = append(ops, closeOp)
		if n < 100 {
			g.small("dictionary", c, ops)
		} else {
			g.big("dictionary", c, ops)
		}
	}
}

func (g *wgen) windows(n int) {
	for wb := 8; wb <= 15; wb++ {
		w := 1 << uint(wb)
		for i := 0; i < n; i++ {
			for _, st := range []string{"default", "fixed", "rle", "huff"} {
				if (st == "rle" || st == "huff") && i > 1 {
					continue
				}
				c := run.WCfg{Fmt: fmts3[g.rng.Intn(3)], Strat: st, Lvl: ip(1 + g.rng.Intn(9)), ML: ip(1 + g.rng.Intn(9)), WB: ip(wb)}
				var d *gen.Data
				switch i % 4 {
				case 0:
					d = &gen.Data{G: "period", N: 5*w + 500, A: w + g.rng.Intn(5) - 2, Seed: g.rng.Int63n(1 << 30)}
				case 1:
					d = &gen.Data{G: "echo", N: 4*w + 500, A: w + g.rng.Intn(w/2) - w/4, P: 20, Seed: g.rng.Int63n(1 << 30)}
				case 2:
					d = &gen.Data{G: "copies", N: 6 * w, A: 2 * w, P: 8, Seed: g.rng.Int63n(1 << 30)}
				default:
					d = g.data(4 * w)
				}
				if c.Fmt != "gzip" && g.rng.Intn(4) == 0 {
					c.Dict = &gen.Data{G: "rand", N: w/2 + g.rng.Intn(2*w), Seed: 5}
				}
				ops := []run.WOp{{T: "W", D: d}}
				if g.rng.Intn(2) == 0 {
					ops = append(ops, fl(string("BPSFC"[g.rng.Intn(5)])), run.WOp{T: "W", D: d})
				}
				g.big("window", c, append(ops, closeOp))
			}
		}
	}
}

func (g *wgen) levels() {
	datas := func(n int) []*gen.Data {
		return []*gen.Data{{G: "rand", N: n, Seed: g.rng.Int63n(1 << 30)}, {G: "text", N: n, Seed: g.rng.Int63n(1 << 30)}, {G: "runs", N: n, A: 40, P: 20, Seed: g.rng.Int63n(1 << 30)},
			g.data(n)}
	}
	for _, f := range fmts3 {
		for _, st := range stratNames {
			for lvl := -1; lvl <= 9; lvl++ {
				if f == "raw" && g.tier != "thorough" && g.rng.Intn(2) == 0 {
					continue
				}
				n := 1 + gen.Logu(g.rng, 12000)
				for k, d := range datas(n) {
					if g.tier != "thorough" && k != (lvl+2)%4 && g.rng.Intn(3) != 0 {
						continue
					}
					c := run.WCfg{Fmt: f, Strat: st, Lvl: ip(lvl), ML: ip(1 + g.rng.Intn(9)), WB: ip(8 + g.rng.Intn(8))}
					ops := []run.WOp{{T: "W", D: d}}
					if g.rng.Intn(2) == 0 {
						ops = append(g.ops(2+g.rng.Intn(4), 4000, "BPSFC"), closeOp)
						ops = ops[:len(ops)-1]
					} else {
						ops = append(ops, closeOp)
					}
					g.add("level", &run.WriterCase{Cfg: c, Ops: ops})
				}
			}
		}
	}
	// data which must shrink
	for lvl := -1; lvl <= 9; lvl++ {
		if lvl == 0 {
			continue
		}
		for _, st := range []string{"default", "fixed", "rle"} {
			for k := 0; k < g.n(2, 8); k++ {
				c := run.WCfg{Fmt: fmts3[g.rng.Intn(3)], Strat: st, Lvl: ip(lvl), ML: ip(1 + g.rng.Intn(9)), WB: ip(9 + g.rng.Intn(7))}
				n := 4000 + g.rng.Intn(30000)
				d := &gen.Data{G: "zero", N: n, A: g.rng.Intn(256)}
				if st != "rle" && k%2 == 0 {
					d = &gen.Data{G: "period", N: n, A: 20 + g.rng.Intn(100), Seed: g.rng.Int63n(1 << 30)}
				}
				g.add("must shrink", &run.WriterCase{Cfg: c, Ops: []run.WOp{{T: "W", D: d}, closeOp}, Expect: "compress"})
				// the same in many small pieces
				var ops []run.WOp
				b := d.Bytes()
				for p := 0; p < len(b); {
					m := 1 + g.rng.Intn(200)
					if p+m > len(b) {
						m = len(b) - p
					}
					ops = append(ops, run.WOp{T: "W", D: &gen.Data{G: "lit", Lit: run.Ints(b[p : p+m])}})
					p += m
				}
				g.add("must shrink in pieces", &run.WriterCase{Cfg: c, Ops: append(ops, closeOp), Expect: "compress"})
				if st == "rle" {
					continue
				}
				// what repeats is itself random, and the repetition is not near
				e := c
				e.WB = ip(8 + g.rng.Intn(8))
				r := &gen.Data{G: "rand", N: 50 + gen.Logu(g.rng, 1<<uint(*e.WB-1)-50), Seed: g.rng.Int63n(1 << 30)}
				ops = nil
				for j := 0; j < 8; j++ {
					ops = append(ops, run.WOp{T: "W", D: r})
				}
				g.add("must shrink far", &run.WriterCase{Cfg: e, Ops: append(ops, closeOp), Expect: "compress"})
			}
		}
	}
	// incompressible data of all sizes: the overhead is small
	for _, n := range edgeSizes {
		for _, st := range stratNames {
			c := run.WCfg{Fmt: fmts3[g.rng.Intn(3)], Strat: st, Lvl: ip(g.rng.Intn(10)), ML: ip(1 + g.rng.Intn(9)), WB: ip(8 + g.rng.Intn(8))}
			g.add("overhead", &run.WriterCase{Cfg: c, Ops: []run.WOp{{T: "W", D: &gen.Data{G: "rand", N: n, Seed: int64(n)}}, closeOp}})
		}
	}
}

// WriterRec is one epoch for TLC.
type WriterRec struct {
	ID    string `json:"id"`
	Note  string `json:"note"`
	Fault string `json:"fault"`
	run.EpochObs
	// these go into the BitsRec
	NoB    []int    `json:"b,omitempty"`
	NoWant []int    `json:"want,omitempty"`
	NoEv   []run.Ev `json:"ev,omitempty"`
}

// BitsRec is one small output for the bit-exact judge.
type BitsRec struct {
	ID      string   `json:"id"`
	B       []int    `json:"b"`
	Fmt     string   `json:"fmt"`
	WB      int      `json:"wb"`
	Dict    []int    `json:"dict"`
	HasDict bool     `json:"hasdict"`
	SrcErr  string   `json:"srcerr"`
	Want    []int    `json:"want"`
	Closed  bool     `json:"closed"`
	HasEv   bool     `json:"hasev"`
	Ev      []run.Ev `json:"ev"`
	Ev2     bool     `json:"ev2"`
	Lvl     int      `json:"lvl"`
	OrcErr  string   `json:"orcerr"`
	OrcN    int      `json:"orcn"`
	OrcAlts int      `json:"orcalts"`
	OrcMem  []int    `json:"orcmem"`
}

// MakeWriterRecs combines a case and its observations.
func MakeWriterRecs(c *Case, eps []run.EpochObs, fault string) (out []*WriterRec, bits []*BitsRec) {
	if fault != "" {
		e := run.EpochObs{Ops: []run.OpObs{}, Mem: []run.MemFacts{}, RT: []run.RTObs{}, Header: run.HdrF{Name: []int{}, Comment: []int{}, Extra: []int{}}}
		return []*WriterRec{{ID: c.ID + ".0", Note: c.Note, Fault: fault, EpochObs: e}}, nil
	}
	cfg := c.W.Cfg
	dicts := []run.WCfg{cfg}
	for _, o := range c.W.Ops {
		if o.T == "R" {
			if o.Cfg != nil {
				cfg = cfg.Merge(*o.Cfg)
			}
			dicts = append(dicts, cfg)
		}
	}
	for i := range eps {
		e := eps[i]
		id := fmt.Sprintf("%s.%d", c.ID, i)
		if c.W.Bits {
			b := &BitsRec{ID: id, B: run.Ints(e.B), Fmt: e.Cfg.Fmt, WB: e.Cfg.WB, Dict: []int{}, HasDict: e.Cfg.HasDict, Want: run.Ints(e.Want), Ev: e.Ev, Ev2: e.Ev2,
				HasEv: c.W.Ev, Lvl: e.Cfg.Lvl, OrcErr: e.Err, OrcN: e.Dec, OrcAlts: e.Alts, OrcMem: []int{}}
			if b.Ev == nil {
				b.Ev = []run.Ev{}
			}
			if e.Cfg.HasDict {
				b.Dict = run.Ints(dicts[i].Dict.Bytes())
			}
			for _, m := range e.Mem {
				b.OrcMem = append(b.OrcMem, m.N)
			}
			b.Closed = true
			bad := false
			open := false
			for _, o := range e.Ops {
				bad = bad || (o.T != "H" && o.Err != "nil" && o.Err != "CLOSED")
				if o.T == "W" && o.Err == "nil" && o.Len > 0 {
					open = true
				}
				if o.T == "C" || (o.T == "F" && o.F == "C") {
					open = false
				}
			}
			b.Closed = !bad && !open
			for j := range b.Ev {
				if b.Ev[j].H == nil {
					b.Ev[j].H = &run.Hdr{Name: []int{}, Comment: []int{}, Extra: []run.ExtraRec{}}
				}
			}
			bits = append(bits, b)
		}
		e.B, e.Want, e.Ev = nil, nil, nil
		out = append(out, &WriterRec{ID: id, Note: c.Note, EpochObs: e})
	}
	return
}

// together: sequences of calls made while other instances are at work; what
// comes out must be what comes out without them.
func (g *wgen) together() {
	for i := 0; i < g.n(90, 900); i++ {
		c := g.smallCfg()
		ops := g.ops(1+g.rng.Intn(6), 90, "BPSFC")
		if i%3 == 0 {
			ops = append(append(append(ops, fl("C")), run.WOp{T: "R"}), g.ops(1+g.rng.Intn(4), 60, "BPSFC")...)
		}
		g.small("together", c, ops)
	}
	for i := 0; i < g.n(60, 600); i++ {
		g.big("together big", g.cfg(true), g.ops(2+g.rng.Intn(8), 9000, "BPSFC"))
	}
	for i := range g.cases {
		c := &g.cases[i]
		c.Stir = "nested"
		c.W.Twin, c.W.Alone = true, true
		c.W.Ev = c.W.Ev || i%2 == 0
	}
}
