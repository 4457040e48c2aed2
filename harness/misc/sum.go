package misc

import (
	"hash"
	"unsafe"

	"github.com/chronos-tachyon/flate/internal/adler32"
	"github.com/chronos-tachyon/flate/internal/crc32"
	"github.com/chronos-tachyon/flate/verifharness/gen"
)

// SumOp is one call of a checksum hash. For W the data is N bytes from Pos of
// the case's data, placed at an address that is Align modulo 64.
type SumOp struct {
	T     string `json:"t"` // W write, S read with Sum32, A append with Sum, R reset
	Pos   int    `json:"pos"`
	N     int    `json:"n"`
	Align int    `json:"align"`
}

// SumCase is a history of one checksum hash.
type SumCase struct {
	Alg string    `json:"alg"`
	Big bool      `json:"big"` // the specification gets the sums only
	D   *gen.Data `json:"d"`
	Ops []SumOp   `json:"ops"`
}

// SumRes is what a call returned.
type SumRes struct {
	T   string `json:"t"`
	B   []int  `json:"b"`   // the data written (if not Big)
	N   int    `json:"n"`   // its length
	Ret int    `json:"ret"` // the count returned by Write
	Err bool   `json:"err"`
	Mod bool   `json:"mod"` // Write changed the data
	W   []int  `json:"w"`   // the sum read (S, A)
	Pre bool   `json:"pre"` // A kept the prefix and appended 4 bytes
	Ref []int  `json:"ref"` // the reference implementation's sum so far
}

type sumObs struct {
	Alg  string   `json:"alg"`
	Big  bool     `json:"big"`
	Size int      `json:"size"`
	Ops  []SumRes `json:"ops"`
}

func konst(n, ch int) *gen.Data          { return &gen.Data{G: "zero", N: n, A: ch} }
func random(n int, seed int64) *gen.Data { return &gen.Data{G: "rand", N: n, Seed: seed} }

func addr(p []byte) uintptr { return uintptr(unsafe.Pointer(&p[0])) }

func refUpdate(alg string, s uint32, p []byte) uint32 {
	if alg == "crc" {
		s = ^s
		for _, ch := range p {
			s ^= uint32(ch)
			for k := 0; k < 8; k++ {
				s = (s >> 1) ^ (0xedb88320 & -(s & 1))
			}
		}
		return ^s
	}
	a, b := s&0xffff, s>>16
	for _, ch := range p {
		a = (a + uint32(ch)) % 65521
		b = (b + a) % 65521
	}
	return b<<16 | a
}

func aligned(p []byte, k int) []byte {
	buf := make([]byte, len(p)+192)
	off := 0
	for ; addr(buf[off:])%64 != uintptr(k&63); off++ {
	}
	q := buf[off : off+len(p) : off+len(p)]
	copy(q, p)
	for i := range buf[off+len(p):] {
		buf[off+len(p)+i] = 0xa5
	}
	return q
}

func runSum(c *SumCase) sumObs {
	var h hash.Hash32
	start := uint32(0)
	if c.Alg == "crc" {
		h = crc32.New()
	} else {
		h, start = adler32.New(), 1
	}
	data := c.D.Bytes()
	o := sumObs{Alg: c.Alg, Big: c.Big, Size: h.Size(), Ops: []SumRes{}}
	ref := start
	for _, op := range c.Ops {
		r := SumRes{T: op.T, B: []int{}, W: []int{0, 0}}
		switch op.T {
		case "W":
			p := data[op.Pos : op.Pos+op.N]
			q := aligned(p, op.Align)
			n, err := h.Write(q)
			r.N, r.Ret, r.Err, r.Mod = len(p), n, err != nil, string(p) != string(q)
			ref = refUpdate(c.Alg, ref, p)
			if !c.Big {
				r.B = ints(string(p))
			}
		case "S":
			r.W = halves(h.Sum32())
		case "A":
			pre := []byte("prefix")
			buf := make([]byte, len(pre), 6+op.N%9)
			copy(buf, pre)
			x := h.Sum(buf)
			r.Pre = len(x) == 10 && string(x[:6]) == "prefix"
			if len(x) >= 4 {
				y := x[len(x)-4:]
				r.W = []int{int(y[0])<<8 | int(y[1]), int(y[2])<<8 | int(y[3])}
			}
		case "R":
			h.Reset()
			ref = start
		}
		r.Ref = halves(ref)
		o.Ops = append(o.Ops, r)
	}
	return o
}

func (g *maker) fixed(n int) *gen.Data {
	switch g.rng.Intn(6) {
	case 0:
		return konst(n, 0xff)
	case 1:
		return konst(n, 0)
	case 2:
		return konst(n, g.rng.Intn(256))
	}
	return random(n, g.rng.Int63())
}

func (g *maker) sums() {
	for _, alg := range []string{"crc", "adler"} {
		// every length, in one update, at two alignments
		for n := 0; n <= 200; n++ {
			d := random(n, g.rng.Int63())
			g.out = append(g.out, Case{Note: "one update", Sum: &SumCase{Alg: alg, D: d, Ops: []SumOp{{T: "W", N: n, Align: n % 16}, {T: "S"}, {T: "A", N: n}, {T: "R"}, {T: "S"}, {T: "W", N: n, Align: g.rng.Intn(64)}, {T: "A", N: n}, {T: "S"}}}})
		}
		// random divisions
		for i := 0; i < g.n(250, 4000); i++ {
			n := g.rng.Intn([]int{20, 100, 300, 700}[g.rng.Intn(4)])
			g.out = append(g.out, Case{Note: "divisions", Sum: &SumCase{Alg: alg, D: g.fixed(n), Ops: g.division(n)}})
		}
		for i := 0; i < g.n(3, 20); i++ {
			n := 5400 + g.rng.Intn(7000)
			g.out = append(g.out, Case{Note: "long", Sum: &SumCase{Alg: alg, D: konst(n, 0xff), Ops: []SumOp{{T: "W", N: n, Align: 1}, {T: "S"}}}})
		}
		// big: lengths around the block sizes of the fast paths
		for i := 0; i < g.n(600, 12000); i++ {
			n := []int{63, 64, 65, 79, 80, 127, 128, 1000, 5551, 5552, 5553, 5556, 11104, 11105, 16656, 65535, 65536, 70000, 200000}[g.rng.Intn(19)] + g.rng.Intn(40)
			g.out = append(g.out, Case{Note: "big", Sum: &SumCase{Alg: alg, Big: true, D: g.fixed(n), Ops: g.division(n)}})
		}
		// sums as large as they can be before a long update of large bytes
		for i, k := 0, 1; i < g.n(60, 300); k++ {
			if s1 := (1 + 255*k) % 65521; s1 < 65521-120+i {
				continue
			}
			n := []int{5540, 5552, 5553, 5560, 5568, 5600, 11200, 65536}[i%8] + i/8%20
			i++
			g.out = append(g.out, Case{Note: "big, largest sums", Sum: &SumCase{Alg: alg, Big: true, D: konst(k+n, 0xff), Ops: []SumOp{{T: "W", N: k}, {T: "W", Pos: k, N: n, Align: i % 16}, {T: "S"}}}})
		}
		for n := 201; n <= 1100; n++ {
			g.out = append(g.out, Case{Note: "big, one update", Sum: &SumCase{Alg: alg, Big: true, D: g.fixed(n), Ops: []SumOp{{T: "W", N: n, Align: g.rng.Intn(64)}, {T: "S"}}}})
		}
	}
}

func (g *maker) division(n int) (ops []SumOp) {
	pos := 0
	max := n
	if g.rng.Intn(2) == 0 {
		max = 1 + g.rng.Intn(n+1)
	}
	for pos < n && len(ops) < 60 {
		k := g.rng.Intn(max + 1)
		if g.rng.Intn(3) == 0 {
			k = []int{0, 1, 3, 4, 7, 8, 15, 16, 17, 63, 64, 65, 80}[g.rng.Intn(13)]
		}
		if k > n-pos || len(ops) > 50 {
			k = n - pos
		}
		ops = append(ops, SumOp{T: "W", Pos: pos, N: k, Align: g.rng.Intn(64)})
		pos += k
		switch g.rng.Intn(6) {
		case 0, 1:
			ops = append(ops, SumOp{T: "S"})
		case 2:
			ops = append(ops, SumOp{T: "A", N: g.rng.Intn(9)})
		case 3:
			if g.rng.Intn(8) == 0 {
				ops = append(ops, SumOp{T: "R"})
			}
		}
	}
	return append(ops, SumOp{T: "S"}, SumOp{T: "A"}, SumOp{T: "S"})
}
