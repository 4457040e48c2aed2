package gen

import (
	"hash/adler32"
	"hash/crc32"
	"math/rand"
)

// BW is a bit writer, least significant bit first.
type BW struct {
	B []byte
	n uint // bits used in the last byte (0 = none)
}

func (w *BW) Bits(v uint32, n int) {
	for i := 0; i < n; i++ {
		if w.n == 0 {
			w.B = append(w.B, 0)
		}
		w.B[len(w.B)-1] |= byte(v>>uint(i)&1) << w.n
		w.n = (w.n + 1) & 7
	}
}

func (w *BW) Align(pad uint32) {
	if w.n != 0 {
		w.Bits(pad, int(8-w.n))
	}
}

func (w *BW) Bytes(p []byte) {
	w.Align(0)
	w.B = append(w.B, p...)
}

// NBits is the number of bits written.
func (w *BW) NBits() int {
	if w.n == 0 {
		return 8 * len(w.B)
	}
	return 8*len(w.B) - 8 + int(w.n)
}

// Huff is a set of canonical codes given by lengths.
type Huff struct {
	Lens  []byte
	codes []uint32
}

func NewHuff(lens []byte) *Huff {
	h := &Huff{Lens: lens, codes: make([]uint32, len(lens))}
	var cnt, next [17]uint32
	for _, l := range lens {
		if l > 0 {
			cnt[l]++
		}
	}
	c := uint32(0)
	for l := 1; l <= 16; l++ {
		c = (c + cnt[l-1]) << 1
		next[l] = c
	}
	for s, l := range lens {
		if l != 0 {
			h.codes[s] = next[l]
			next[l]++
		}
	}
	return h
}

// Put writes symbol s (most significant code bit first).
func (h *Huff) Put(w *BW, s int) {
	l := int(h.Lens[s])
	for i := l - 1; i >= 0; i-- {
		w.Bits(h.codes[s]>>uint(i)&1, 1)
	}
}

// Token is a literal (Len == 0) or a copy.
type Token struct {
	Lit  byte
	Len  int
	Dist int
}

var lenBase = [...]int{3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258}
var lenExtra = [...]int{0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0}
var distBase = [...]int{1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577}
var distExtra = [...]int{0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13}
var clOrder = [...]int{16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15}

// LenSym maps a copy length to (symbol, extra bits, extra value).
func LenSym(l int) (int, int, uint32) {
	if l == 258 {
		return 285, 0, 0
	}
	i := 0
	for i < 27 && lenBase[i+1] <= l {
		i++
	}
	return 257 + i, lenExtra[i], uint32(l - lenBase[i])
}

// DistSym maps a distance to (symbol, extra bits, extra value).
func DistSym(d int) (int, int, uint32) {
	i := 0
	for i < 29 && distBase[i+1] <= d {
		i++
	}
	return i, distExtra[i], uint32(d - distBase[i])
}

var FixedLL, FixedD *Huff

func init() {
	ll := make([]byte, 288)
	for i := range ll {
		switch {
		case i < 144:
			ll[i] = 8
		case i < 256:
			ll[i] = 9
		case i < 280:
			ll[i] = 7
		default:
			ll[i] = 8
		}
	}
	dd := make([]byte, 32)
	for i := range dd {
		dd[i] = 5
	}
	FixedLL, FixedD = NewHuff(ll), NewHuff(dd)
}

// Builder makes one or more members.
type Builder struct {
	W    BW
	Rng  *rand.Rand
	Dict []byte
	WB   int // window bits the stream may use
	Out  []byte
	cur  int // start of the current member in Out
	hdr  int // byte offset of the current member
	fmt  string
	Cuts []int // byte offsets of member boundaries
	// Interesting positions (byte offsets): ends of headers, blocks
	Marks []int
	// Fields: byte ranges of checkable fields: name -> offsets
	Fields map[string][][2]int
	Deep   bool // prefer long codes
}

func NewBuilder(rng *rand.Rand, dict []byte, wb int) *Builder {
	return &Builder{Rng: rng, Dict: dict, WB: wb, Fields: map[string][][2]int{}}
}

func (b *Builder) field(name string, lo, hi int) {
	b.Fields[name] = append(b.Fields[name], [2]int{lo, hi})
}

// GzHeader describes optional gzip header fields.
type GzHeader struct {
	Text    bool
	HCRC    bool
	Extra   []byte // nil = absent
	Name    []byte // nil = absent
	Comment []byte
	MTime   uint32
	XFL, OS byte
}

func (b *Builder) Begin(format string, zwb, flevel int, gz *GzHeader) {
	b.W.Align(0)
	b.cur = len(b.Out)
	b.hdr = len(b.W.B)
	b.fmt = format
	switch format {
	case "zlib":
		cmf := byte((zwb-8)<<4 | 8)
		flg := byte(flevel << 6)
		if b.Dict != nil {
			flg |= 32
		}
		if r := (int(cmf)<<8 | int(flg)) % 31; r != 0 {
			flg += byte(31 - r)
		}
		b.W.Bytes([]byte{cmf, flg})
		b.field("zhdr", b.hdr, b.hdr+2)
		if b.Dict != nil {
			a := adler32.Checksum(b.Dict)
			b.W.Bytes([]byte{byte(a >> 24), byte(a >> 16), byte(a >> 8), byte(a)})
			b.field("dictid", b.hdr+2, b.hdr+6)
		}
	case "gzip":
		if gz == nil {
			gz = &GzHeader{OS: 255}
		}
		var flg byte
		if gz.Text {
			flg |= 1
		}
		if gz.HCRC {
			flg |= 2
		}
		if gz.Extra != nil {
			flg |= 4
		}
		if gz.Name != nil {
			flg |= 8
		}
		if gz.Comment != nil {
			flg |= 16
		}
		h := []byte{31, 139, 8, flg, byte(gz.MTime), byte(gz.MTime >> 8), byte(gz.MTime >> 16), byte(gz.MTime >> 24), gz.XFL, gz.OS}
		if gz.Extra != nil {
			h = append(h, byte(len(gz.Extra)), byte(len(gz.Extra)>>8))
			h = append(h, gz.Extra...)
		}
		if gz.Name != nil {
			h = append(append(h, gz.Name...), 0)
		}
		if gz.Comment != nil {
			h = append(append(h, gz.Comment...), 0)
		}
		b.W.Bytes(h)
		b.field("ghdr", b.hdr, len(b.W.B))
		if gz.HCRC {
			c := crc32.ChecksumIEEE(h)
			b.field("hcrc", len(b.W.B), len(b.W.B)+2)
			b.W.Bytes([]byte{byte(c), byte(c >> 8)})
		}
	}
	b.Marks = append(b.Marks, len(b.W.B))
}

func (b *Builder) End() {
	b.W.Align(uint32(b.Rng.Intn(256)))
	data := b.Out[b.cur:]
	p := len(b.W.B)
	switch b.fmt {
	case "zlib":
		a := adler32.Checksum(data)
		b.field("adler", p, p+4)
		b.W.Bytes([]byte{byte(a >> 24), byte(a >> 16), byte(a >> 8), byte(a)})
	case "gzip":
		c := crc32.ChecksumIEEE(data)
		n := uint32(len(data))
		b.field("crc", p, p+4)
		b.field("isize", p+4, p+8)
		b.W.Bytes([]byte{byte(c), byte(c >> 8), byte(c >> 16), byte(c >> 24), byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)})
	}
	b.Marks = append(b.Marks, p)
	b.Cuts = append(b.Cuts, len(b.W.B))
}

func (b *Builder) bfinal(final bool, typ uint32) {
	v := uint32(0)
	if final {
		v = 1
	}
	b.Marks = append(b.Marks, len(b.W.B))
	b.W.Bits(v|typ<<1, 3)
}

func (b *Builder) Stored(data []byte, final bool) {
	b.bfinal(final, 0)
	b.W.Align(uint32(b.Rng.Intn(256)))
	n := len(data)
	b.W.Bytes([]byte{byte(n), byte(n >> 8), ^byte(n), ^byte(n >> 8)})
	b.W.Bytes(data)
	b.Out = append(b.Out, data...)
}

// HistLen is the history available to the next copy.
func (b *Builder) HistLen() int {
	n := len(b.Dict) + len(b.Out) - b.cur
	if w := 1 << uint(b.WB); n > w {
		n = w
	}
	return n
}

// Apply appends the effect of a token to Out and returns it.
func (b *Builder) Apply(t Token) Token {
	b.apply(t)
	return t
}

// DistRange gives the smallest, a middle and the largest distance of a symbol.
func DistRange(s int) []int {
	lo := distBase[s]
	hi := lo + 1<<uint(distExtra[s]) - 1
	if hi == lo {
		return []int{lo}
	}
	return []int{lo, (lo + hi) / 2, hi}
}

func (b *Builder) apply(t Token) {
	if t.Len == 0 {
		b.Out = append(b.Out, t.Lit)
		return
	}
	for i := 0; i < t.Len; i++ {
		k := len(b.Out) - b.cur - t.Dist
		if k >= 0 {
			b.Out = append(b.Out, b.Out[b.cur+k])
		} else {
			b.Out = append(b.Out, b.Dict[len(b.Dict)+k])
		}
	}
}

func (b *Builder) putTokens(toks []Token, ll, d *Huff) {
	for _, t := range toks {
		if t.Len == 0 {
			ll.Put(&b.W, int(t.Lit))
			continue
		}
		s, n, v := LenSym(t.Len)
		if t.Len == 258 && b.Rng.Intn(4) == 0 && int(ll.Lens[284]) != 0 {
			s, n, v = 284, 5, 31 // an encoding that decoders may refuse
		}
		ll.Put(&b.W, s)
		b.W.Bits(v, n)
		s, n, v = DistSym(t.Dist)
		d.Put(&b.W, s)
		b.W.Bits(v, n)
	}
	ll.Put(&b.W, 256)
}

// RandTokens makes n valid tokens and appends their effect to Out.
func (b *Builder) RandTokens(n int, maxLen int, alpha int) []Token {
	rng := b.Rng
	var toks []Token
	base := rng.Intn(256)
	pcopy := rng.Intn(10)
	for i := 0; i < n; i++ {
		h := b.HistLen()
		var t Token
		if h > 0 && rng.Intn(10) < pcopy {
			t.Dist = logu(rng, h)
			switch rng.Intn(6) {
			case 0:
				t.Dist = 1 + rng.Intn(h)
			case 1:
				t.Dist = h
			}
			t.Len = 3 + logu(rng, 256) - 1
			if rng.Intn(12) == 0 {
				t.Len = 258 - rng.Intn(3)
			}
			if t.Len > maxLen {
				t.Len = 3 + rng.Intn(maxLen-2)
			}
		} else {
			t.Lit = byte(base + rng.Intn(alpha))
		}
		b.apply(t)
		toks = append(toks, t)
	}
	return toks
}

func (b *Builder) Static(toks []Token, final bool) {
	b.bfinal(final, 1)
	b.putTokens(toks, FixedLL, FixedD)
}

// RandLens returns n code lengths of a complete code, each at most max.
func RandLens(rng *rand.Rand, n, max int, deep bool) []int {
	if n == 1 {
		return []int{1}
	}
	leaves := []int{0}
	for len(leaves) < n {
		var i int
		if deep {
			// prefer the deepest leaf that can still be split
			best := -1
			for k, l := range leaves {
				if l < max && (best < 0 || l > leaves[best]) {
					best = k
				}
			}
			// keep enough room for the remaining leaves
			i = best
			if rng.Intn(4) == 0 {
				i = rng.Intn(len(leaves))
			}
		} else {
			i = rng.Intn(len(leaves))
		}
		if leaves[i] >= max {
			// find any splittable leaf
			ok := false
			for k, l := range leaves {
				if l < max {
					i, ok = k, true
					break
				}
			}
			if !ok {
				panic("RandLens: no room")
			}
		}
		l := leaves[i] + 1
		leaves[i] = l
		leaves = append(leaves, l)
	}
	return leaves
}

// Dynamic writes a dynamic block with random (complete) codes.
func (b *Builder) Dynamic(toks []Token, final bool) {
	rng := b.Rng
	useLL := map[int]bool{256: true}
	useD := map[int]bool{}
	for _, t := range toks {
		if t.Len == 0 {
			useLL[int(t.Lit)] = true
			continue
		}
		s, _, _ := LenSym(t.Len)
		useLL[s] = true
		d, _, _ := DistSym(t.Dist)
		useD[d] = true
	}
	for k := rng.Intn(6); k > 0; k-- { // codes that are defined but unused
		useLL[rng.Intn(286)] = true
	}
	if rng.Intn(3) == 0 {
		for k := rng.Intn(8); k > 0; k-- {
			useD[rng.Intn(30)] = true
		}
	}
	for len(useLL) < 2 {
		useLL[rng.Intn(286)] = true
	}
	ll := make([]byte, 286)
	assignD(rng, ll, useLL, 15, b.Deep || rng.Intn(2) == 0)
	dd := make([]byte, 30)
	assign(rng, dd, useD, 15)
	b.dynamicWith(toks, final, ll, dd)
}

func assign(rng *rand.Rand, lens []byte, use map[int]bool, max int) {
	assignD(rng, lens, use, max, rng.Intn(2) == 0)
}

func assignD(rng *rand.Rand, lens []byte, use map[int]bool, max int, deep bool) {
	if len(use) == 0 {
		return
	}
	ls := RandLens(rng, len(use), max, deep)
	rng.Shuffle(len(ls), func(i, j int) { ls[i], ls[j] = ls[j], ls[i] })
	i := 0
	for s := range lens {
		if use[s] {
			lens[s] = byte(ls[i])
			i++
		}
	}
}

// flat gives n codes lengths that differ by one at most.
func flat(rng *rand.Rand, n int) []byte {
	l := 0
	for 2<<uint(l) <= n {
		l++
	}
	lens := make([]byte, n)
	long := 2 * (n - 1<<uint(l))
	at := rng.Intn(n)
	if rng.Intn(3) == 0 {
		at = 0
	}
	for i := range lens {
		k := (at + i) % n
		lens[k] = byte(l)
		if i < long {
			lens[k]++
		}
	}
	return lens
}

// Flat writes a dynamic block of which the code lengths are (nearly) all the
// same, so that repeats go on everywhere, even from the first alphabet into
// the second. Without tokens, only some of the symbols have codes.
func (b *Builder) Flat(toks []Token, final bool) {
	rng := b.Rng
	ll, dd := make([]byte, 286), make([]byte, 30)
	if len(toks) > 0 {
		copy(ll, flat(rng, 286))
		copy(dd, flat(rng, 30))
	} else {
		n := 1 << uint(1+rng.Intn(4))
		end := 257 + rng.Intn(n)
		copy(ll[end-n:], flat(rng, n))
		copy(dd, flat(rng, n))
	}
	b.dynamicWith(toks, final, ll, dd)
}

type xtok struct {
	sym, n int
	v      uint32
}

// RandRuns encodes code lengths with random (but legal) use of repeat codes.
func RandRuns(rng *rand.Rand, lens []byte, plain bool) (out []xtok) {
	i := 0
	for i < len(lens) {
		run := 1
		for i+run < len(lens) && lens[i+run] == lens[i] {
			run++
		}
		if lens[i] == 0 && run >= 3 && !plain && rng.Intn(8) != 0 {
			if run >= 11 && rng.Intn(8) != 0 {
				k := run
				if k > 138 {
					k = 138
				}
				if rng.Intn(3) == 0 {
					k = 11 + rng.Intn(k-10)
				}
				out = append(out, xtok{18, 7, uint32(k - 11)})
				i += k
				continue
			}
			k := run
			if k > 10 {
				k = 10
			}
			if rng.Intn(3) == 0 {
				k = 3 + rng.Intn(k-2)
			}
			out = append(out, xtok{17, 3, uint32(k - 3)})
			i += k
			continue
		}
		if i > 0 && lens[i] == lens[i-1] && run >= 3 && !plain && rng.Intn(8) != 0 {
			k := run
			if k > 6 {
				k = 6
			}
			if rng.Intn(3) == 0 {
				k = 3 + rng.Intn(k-2)
			}
			out = append(out, xtok{16, 2, uint32(k - 3)})
			i += k
			continue
		}
		out = append(out, xtok{int(lens[i]), 0, 0})
		i++
	}
	return
}

func (b *Builder) dynamicWith(toks []Token, final bool, ll, dd []byte) {
	rng := b.Rng
	nll, nd := 286, 30
	for nll > 257 && ll[nll-1] == 0 {
		nll--
	}
	for nd > 1 && dd[nd-1] == 0 {
		nd--
	}
	if rng.Intn(4) == 0 { // more lengths than necessary
		nll += rng.Intn(286 - nll + 1)
		nd += rng.Intn(30 - nd + 1)
	}
	b.bfinal(final, 2)
	comb := append(append([]byte{}, ll[:nll]...), dd[:nd]...)
	xt := RandRuns(rng, comb, rng.Intn(6) == 0)
	useX := map[int]bool{}
	for _, x := range xt {
		useX[x.sym] = true
	}
	for len(useX) < 2 || (rng.Intn(4) == 0 && len(useX) < 19) {
		useX[rng.Intn(19)] = true
	}
	xl := make([]byte, 19)
	assign(rng, xl, useX, 7)
	nx := 19
	for nx > 4 && xl[clOrder[nx-1]] == 0 {
		nx--
	}
	if rng.Intn(4) == 0 {
		nx += rng.Intn(19 - nx + 1)
	}
	b.W.Bits(uint32(nll-257), 5)
	b.W.Bits(uint32(nd-1), 5)
	b.W.Bits(uint32(nx-4), 4)
	for i := 0; i < nx; i++ {
		b.W.Bits(uint32(xl[clOrder[i]]), 3)
	}
	hx := NewHuff(xl)
	for _, x := range xt {
		hx.Put(&b.W, x.sym)
		b.W.Bits(x.v, x.n)
	}
	b.putTokens(toks, NewHuff(ll), NewHuff(dd))
}

// RandBlocks writes between 1 and n blocks, the last one final.
func (b *Builder) RandBlocks(n, tokens, maxLen int) {
	k := 1 + b.Rng.Intn(n)
	for i := 0; i < k; i++ {
		final := i == k-1
		nt := b.Rng.Intn(tokens + 1)
		if b.Rng.Intn(6) == 0 {
			nt = 0
		}
		alpha := 1 + b.Rng.Intn(8)
		if b.Rng.Intn(4) == 0 {
			alpha = 256
		}
		switch b.Rng.Intn(3) {
		case 0:
			data := make([]byte, nt)
			for j := range data {
				data[j] = byte(b.Rng.Intn(alpha))
			}
			b.Stored(data, final)
		case 1:
			b.Static(b.RandTokens(nt, maxLen, alpha), final)
		default:
			b.Dynamic(b.RandTokens(nt, maxLen, alpha), final)
		}
	}
}

// RandStr makes a string without NUL.
func RandStr(rng *rand.Rand, n int) []byte {
	s := make([]byte, n)
	for i := range s {
		s[i] = byte(1 + rng.Intn(255))
	}
	return s
}

// RandGz makes random optional header fields.
func RandGz(rng *rand.Rand) *GzHeader {
	g := &GzHeader{Text: rng.Intn(2) == 0, HCRC: rng.Intn(2) == 0, XFL: [...]byte{0, 2, 4, 7}[rng.Intn(4)]}
	g.OS = byte(rng.Intn(16))
	if rng.Intn(4) == 0 {
		g.OS = byte(rng.Intn(256))
	}
	if rng.Intn(2) == 0 {
		g.MTime = rng.Uint32()
	}
	if rng.Intn(3) == 0 {
		g.Extra = []byte{}
		for k := rng.Intn(3); k > 0; k-- {
			n := rng.Intn(6)
			g.Extra = append(g.Extra, byte(rng.Intn(256)), byte(rng.Intn(256)), byte(n), 0)
			x := make([]byte, n)
			rng.Read(x)
			g.Extra = append(g.Extra, x...)
		}
	}
	if rng.Intn(3) == 0 {
		g.Name = RandStr(rng, rng.Intn(8))
	}
	if rng.Intn(3) == 0 {
		g.Comment = RandStr(rng, rng.Intn(8))
	}
	return g
}

// RandMember writes one random member of the given format.
func (b *Builder) RandMember(format string, blocks, tokens, maxLen int) {
	zwb := b.WB
	b.Begin(format, zwb, b.Rng.Intn(4), RandGz(b.Rng))
	b.RandBlocks(blocks, tokens, maxLen)
	b.End()
}

// RawDyn writes a dynamic block header from its raw parts, legal or not.
func (b *Builder) RawDyn(final bool, hlit, hdist, hclen int, xl []byte, lens []int, reps map[int][2]int) *Huff {
	b.bfinal(final, 2)
	b.W.Bits(uint32(hlit), 5)
	b.W.Bits(uint32(hdist), 5)
	b.W.Bits(uint32(hclen), 4)
	for i := 0; i < hclen+4; i++ {
		b.W.Bits(uint32(xl[clOrder[i]]), 3)
	}
	return NewHuff(xl)
}

// Bad is a kind of malformed block.
var Bad = []string{"btype3", "lennlen", "hlit", "hdist", "clover", "rep16first", "repover16", "repover17", "repover18", "llover", "dover",
	"noeob", "sym286", "dist30", "toofar", "incll", "incd", "incx", "allzerox", "onelit", "distnocode", "toofar1", "toofarwin",
	"nocodell", "nocoded", "nocodex"}

// BadBlock appends a malformed block of the given kind (possibly preceded by valid tokens).
func (b *Builder) BadBlock(kind string) {
	rng := b.Rng
	final := rng.Intn(2) == 0
	xl := make([]byte, 19)
	put := func(h *Huff, syms ...int) {
		for _, s := range syms {
			h.Put(&b.W, s)
		}
	}
	flat := func(syms ...int) { // complete code over exactly these symbols
		use := map[int]bool{}
		for _, s := range syms {
			use[s] = true
		}
		assign(rng, xl, use, 7)
	}
	static := func(f func()) {
		toks := b.RandTokens(rng.Intn(5), 20, 4)
		b.bfinal(final, 1)
		for _, t := range toks {
			if t.Len == 0 {
				FixedLL.Put(&b.W, int(t.Lit))
				continue
			}
			s, n, v := LenSym(t.Len)
			FixedLL.Put(&b.W, s)
			b.W.Bits(v, n)
			s, n, v = DistSym(t.Dist)
			FixedD.Put(&b.W, s)
			b.W.Bits(v, n)
		}
		f()
		FixedLL.Put(&b.W, 256)
	}
	// lens writes literal code lengths for a dynamic block through plain symbols
	lens := func(ll, dd []byte) *Huff {
		use := map[int]bool{}
		for _, l := range ll {
			use[int(l)] = true
		}
		for _, l := range dd {
			use[int(l)] = true
		}
		for len(use) < 2 {
			use[rng.Intn(16)] = true
		}
		assign(rng, xl, use, 7)
		h := b.RawDyn(final, len(ll)-257, len(dd)-1, 15, xl, nil, nil)
		for _, l := range ll {
			h.Put(&b.W, int(l))
		}
		for _, l := range dd {
			h.Put(&b.W, int(l))
		}
		return h
	}
	copyTok := func(length, dist int) {
		s, n, v := LenSym(length)
		FixedLL.Put(&b.W, s)
		b.W.Bits(v, n)
		s, n, v = DistSym(dist)
		FixedD.Put(&b.W, s)
		b.W.Bits(v, n)
	}
	full := len(b.Dict) + len(b.Out) - b.cur
	switch kind {
	case "btype3":
		b.bfinal(final, 3)
	case "lennlen":
		b.bfinal(final, 0)
		b.W.Align(uint32(rng.Intn(256)))
		n := rng.Intn(6)
		h := []byte{byte(n), byte(n >> 8), ^byte(n), ^byte(n >> 8)}
		h[rng.Intn(4)] ^= 1 << uint(rng.Intn(8))
		b.W.Bytes(h)
		b.W.Bytes(make([]byte, n+4))
	case "hlit", "hdist":
		flat(0, 1, 18)
		hl, hd := 29, 1
		if kind == "hlit" {
			hl = 30 + rng.Intn(2)
		} else {
			hd = 30 + rng.Intn(2)
		}
		b.RawDyn(final, hl, hd, 15, xl, nil, nil)
		for i := 0; i < 40; i++ {
			b.W.Bits(uint32(rng.Intn(256)), 8)
		}
	case "clover":
		for i := range xl {
			xl[i] = byte(1 + rng.Intn(4))
		}
		b.RawDyn(final, 0, 0, 15, xl, nil, nil)
	case "incx":
		xl[0], xl[1], xl[18] = 2, 2, 2
		h := b.RawDyn(final, 0, 0, 15, xl, nil, nil)
		put(h, 0, 1)
		b.W.Bits(3, 2) // the unused code
	case "allzerox":
		b.RawDyn(final, rng.Intn(30), rng.Intn(30), rng.Intn(16), xl, nil, nil)
		b.W.Bits(rng.Uint32(), 30)
	case "rep16first":
		flat(0, 1, 16, 18)
		h := b.RawDyn(final, 0, 0, 15, xl, nil, nil)
		put(h, 16)
		b.W.Bits(uint32(rng.Intn(4)), 2)
	case "repover16", "repover17", "repover18":
		flat(0, 1, 16, 17, 18)
		h := b.RawDyn(final, 0, 0, 15, xl, nil, nil) // 258 lengths
		put(h, 18)
		b.W.Bits(127, 7) // 138
		put(h, 18)
		b.W.Bits(107, 7) // 118 -> 256
		put(h, 1)        // 257
		switch kind {
		case "repover16":
			put(h, 16)
			b.W.Bits(uint32(rng.Intn(4)), 2)
		case "repover17":
			put(h, 17)
			b.W.Bits(uint32(rng.Intn(8)), 3)
		default:
			put(h, 18)
			b.W.Bits(uint32(rng.Intn(128)), 7)
		}
	case "llover", "dover", "noeob", "incll", "incd", "onelit", "distnocode":
		ll := make([]byte, 257+rng.Intn(30))
		dd := make([]byte, 1+rng.Intn(30))
		use := map[int]bool{256: true, 65: true}
		for k := rng.Intn(8); k > 0; k-- {
			use[rng.Intn(len(ll))] = true
		}
		if kind != "onelit" {
			assign(rng, ll, use, 15)
		} else {
			ll[256] = byte(1 + rng.Intn(15))
		}
		useD := map[int]bool{0: true}
		for k := rng.Intn(4); k > 0; k-- {
			useD[rng.Intn(len(dd))] = true
		}
		assign(rng, dd, useD, 15)
		switch kind {
		case "llover":
			s := rng.Intn(len(ll))
			ll[s] = 1 + byte(rng.Intn(2))
			ll[(s+7)%len(ll)] = 1 + byte(rng.Intn(2))
			ll[(s+9)%len(ll)] = 1
		case "dover":
			dd = []byte{1, 1, 1 + byte(rng.Intn(14))}
		case "noeob":
			if ll[256] = 0; rng.Intn(2) == 0 {
				ll[66] = 1
			}
		case "incll":
			for s := range ll {
				if ll[s] != 0 && s != 256 && ll[s] < 15 {
					ll[s]++
					break
				}
			}
		case "incd":
			dd = []byte{byte(2 + rng.Intn(3)), 2}
		case "distnocode":
			for i := range dd {
				dd[i] = 0
			}
		}
		lens(ll, dd)
		b.W.Bits(rng.Uint32(), 31)
		b.W.Bits(rng.Uint32(), 31)
		b.W.Bits(rng.Uint32(), 31)
		b.W.Bits(rng.Uint32(), 31)
	case "nocodex": // the one unused code is long
		m := 2 + rng.Intn(6)
		for i, s := range rng.Perm(16)[:m] {
			xl[s] = byte(i + 1)
		}
		b.RawDyn(final, 0, 0, 15, xl, nil, nil)
		b.W.Bits(1<<uint(m)-1, m)
	case "nocodell", "nocoded":
		m := 2 + rng.Intn(14)
		ll := make([]byte, 258+rng.Intn(29))
		dd := make([]byte, 1+rng.Intn(30))
		chain := func(l []byte, must int) { // lengths 1, 2, .. m: all ones is no code
			syms := append([]int{must}, rng.Perm(len(l))...)
			seen := map[int]bool{}
			n := 0
			for _, s := range syms {
				if n < m && !seen[s] {
					seen[s] = true
					n++
					l[s] = byte(n)
				}
			}
			m = n
		}
		var h *Huff
		if kind == "nocodell" {
			dd[0] = 1
			chain(ll, 256)
			lens(ll, dd)
			h = NewHuff(ll)
			for k := rng.Intn(4); k > 0; k-- {
				if s := rng.Intn(256); ll[s] != 0 {
					h.Put(&b.W, s)
				}
			}
		} else {
			assign(rng, ll, map[int]bool{256: true, 65: true, 257: true}, 15)
			chain(dd, 0)
			lens(ll, dd)
			h = NewHuff(ll)
			for k := 1 + rng.Intn(4); k > 0; k-- {
				h.Put(&b.W, 65)
			}
			h.Put(&b.W, 257)
		}
		b.W.Bits(1<<uint(m)-1, m)
	case "sym286":
		static(func() { FixedLL.Put(&b.W, 286+rng.Intn(2)); b.W.Bits(rng.Uint32(), 20) })
	case "dist30":
		static(func() {
			FixedLL.Put(&b.W, 257+rng.Intn(8))
			FixedD.Put(&b.W, 30+rng.Intn(2))
			b.W.Bits(rng.Uint32(), 20)
		})
	case "toofar":
		static(func() {
			d := full + 1 + logu(rng, 40)
			full2 := len(b.Dict) + len(b.Out) - b.cur
			if d <= full2 {
				d = full2 + 1
			}
			if d > 32768 {
				d = 32768
			}
			copyTok(3+rng.Intn(10), d)
		})
	case "toofar1":
		static(func() {
			d := len(b.Dict) + len(b.Out) - b.cur + 1
			if d > 32768 {
				d = 32768
			}
			copyTok(3+rng.Intn(10), d)
		})
	case "toofarwin":
		static(func() {
			d := 1<<uint(b.WB) + 1 + rng.Intn(3)
			if d > 32768 {
				d = 32768
			}
			copyTok(3+rng.Intn(10), d)
		})
	}
}
