// Package oracle is an independent decoder for raw DEFLATE, zlib and gzip.
//
// It is a transliteration of the TLA+ module Inflate (spec/Inflate.tla) into
// Go, used where inputs are too big to be decoded inside TLC.  Every check
// that relies on it also feeds a sample of inputs to both and has TLC compare
// the results.
package oracle

import (
	"hash/adler32"
	"hash/crc32"
)

const (
	EOF     = "EOF"
	UEOF    = "UEOF"
	CORRUPT = "CORRUPT"
)

type Config struct {
	Fmt    string // auto raw zlib gzip
	WBits  int
	Dict   []byte
	SrcErr string
	// OnCopy is called for each back-reference: position in the member's
	// output before the copy, position in the whole output, distance, length.
	OnCopy func(memberPos, pos, dist, length int)
}

type Extra struct {
	ID    [2]byte
	Bytes []byte
}

type Header struct {
	Name, Comment       []byte
	HasName, HasComment bool
	HasExtra, HasCRC    bool
	MTime               uint32
	Text                bool
	OS                  byte
	XFL                 byte
	Extra               []Extra
	RawExtra            []byte
	WBits               int
	FLevel              int
	FDict               bool
	DictID              uint32
}

type Block struct {
	Typ              string // stored static dynamic bad
	Final            bool
	StartBit, EndBit int
	OutStart, OutEnd int // in the whole output
	LL, D, X         []byte
	NX, NLL, ND      int
	LeftX, LeftLL    int // 0 = complete
	LeftD            int
	NLit, NCopy      int
	MinLen, MaxLen   int
	MinDist, MaxDist int
	HasTrees         bool
	Done             bool
}

type Member struct {
	Fmt              string
	Hdr              Header
	Start, Body      int // byte offsets of header and first block
	BodyEnd, End     int // after blocks, after trailer
	OutStart, OutEnd int
	Blocks           []Block
	A32, C32         uint32
	HdrDone          bool
	BlocksDone       bool
	Done             bool
}

type Alt struct {
	Err    string
	Lo, Hi int
}

type Result struct {
	Members []Member
	Out     []byte // data decoded
	Part    []byte // extra data of a truncated stored block
	Err     string
	Why     string
	Alts    []Alt
	Pos     int // bit position at the end
}

var (
	lenBase   = [...]int{3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258}
	lenExtra  = [...]int{0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0}
	distBase  = [...]int{1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577}
	distExtra = [...]int{0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13}
	clOrder   = [...]int{16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15}
)

type code struct {
	cnt [16]int
	sym []int
}

func mkCode(lens []byte) *code {
	h := &code{}
	for _, l := range lens {
		if l != 0 {
			h.cnt[l]++
		}
	}
	for l := 1; l <= 15; l++ {
		if h.cnt[l] == 0 {
			continue
		}
		for s, x := range lens {
			if int(x) == l {
				h.sym = append(h.sym, s)
			}
		}
	}
	return h
}

func (h *code) left() int {
	left := 1
	for l := 1; l <= 15; l++ {
		left = 2*left - h.cnt[l]
		if left < 0 {
			return -1
		}
	}
	return left
}

// Left reports the unused code space of a set of code lengths (0: complete,
// negative: over-subscribed).
func Left(lens []byte) int { return mkCode(lens).left() }

var fixedLL, fixedD *code
var FixedLLLens, FixedDLens []byte

func init() {
	FixedLLLens = make([]byte, 288)
	for i := range FixedLLLens {
		switch {
		case i < 144:
			FixedLLLens[i] = 8
		case i < 256:
			FixedLLLens[i] = 9
		case i < 280:
			FixedLLLens[i] = 7
		default:
			FixedLLLens[i] = 8
		}
	}
	FixedDLens = make([]byte, 32)
	for i := range FixedDLens {
		FixedDLens[i] = 5
	}
	fixedLL = mkCode(FixedLLLens)
	fixedD = mkCode(FixedDLens)
}

type dec struct {
	b   []byte
	p   int
	nb  int
	cfg Config
	r   *Result
}

func (d *dec) bit(i int) int { return int(d.b[i>>3]>>(uint(i)&7)) & 1 }

func (d *dec) bits(i, n int) int {
	v := 0
	for k := 0; k < n; k++ {
		v |= d.bit(i+k) << uint(k)
	}
	return v
}

const (
	ok = iota
	eof
	bad
)

func (d *dec) sym(p int, h *code) (st, sym, np int) {
	c, first, index := 0, 0, 0
	for l := 1; l <= 15; l++ {
		if p >= d.nb {
			return eof, 0, p
		}
		c |= d.bit(p)
		p++
		k := h.cnt[l]
		if c-k < first {
			return ok, h.sym[index+c-first], p
		}
		index += k
		first = (first + k) << 1
		c <<= 1
	}
	return bad, 0, p
}

func (d *dec) stop(err, why string) bool {
	d.r.Err, d.r.Why = err, why
	d.r.Pos = d.p
	return false
}

func (d *dec) alt(err string) {
	a := Alt{err, len(d.r.Out), len(d.r.Out)}
	for i := len(d.r.Alts) - 1; i >= 0 && d.r.Alts[i].Lo == a.Lo; i-- {
		if d.r.Alts[i] == a {
			return
		}
	}
	d.r.Alts = append(d.r.Alts, a)
}

func (d *dec) truncName() string {
	if d.cfg.SrcErr == "" {
		return UEOF
	}
	return d.cfg.SrcErr
}
func (d *dec) corrupt(why string) bool        { return d.stop(CORRUPT, why) }
func (d *dec) trunc(why string) bool          { return d.stop(d.truncName(), why) }
func (d *dec) truncOrCorrupt(why string) bool { d.alt(CORRUPT); return d.trunc(why) }
func (d *dec) corruptOrTrunc(why string) bool { d.alt(d.truncName()); return d.corrupt(why) }

// Decode decodes b completely.
func Decode(b []byte, cfg Config) *Result {
	d := &dec{b: b, nb: 8 * len(b), cfg: cfg, r: &Result{}}
	for d.member() {
	}
	return d.r
}

func detect(b []byte) string {
	if len(b) < 2 {
		return "raw"
	}
	if b[0] == 31 && b[1] == 139 {
		return "gzip"
	}
	if b[0]&15 == 8 && (int(b[0])<<8|int(b[1]))%31 == 0 {
		return "zlib"
	}
	return "raw"
}

// ParseExtra parses a gzip extra field leniently.
func ParseExtra(x []byte) (out []Extra) {
	for len(x) >= 4 {
		n := int(x[2]) | int(x[3])<<8
		if len(x)-4 < n {
			return
		}
		out = append(out, Extra{[2]byte{x[0], x[1]}, x[4 : 4+n]})
		x = x[4+n:]
	}
	return
}

func (d *dec) member() bool {
	q := d.p / 8
	b := d.b
	if q == len(b) {
		if d.cfg.SrcErr == "" {
			return d.stop(EOF, "")
		}
		return d.stop(d.cfg.SrcErr, "")
	}
	f := d.cfg.Fmt
	if f == "auto" {
		f = detect(b[q:])
	}
	d.r.Members = append(d.r.Members, Member{Fmt: f, Start: q, OutStart: len(d.r.Out)})
	m := &d.r.Members[len(d.r.Members)-1]
	if d.cfg.Fmt == "auto" && len(b)-q == 1 {
		d.alt(d.truncName())
	}
	switch f {
	case "gzip":
		if !d.gzipHeader(m, q) {
			return false
		}
	case "zlib":
		if !d.zlibHeader(m, q) {
			return false
		}
	}
	m.HdrDone = true
	m.Body = d.p / 8
	for {
		more, good := d.block(m)
		if !good {
			return false
		}
		if !more {
			break
		}
	}
	d.p = (d.p + 7) &^ 7
	m.OutEnd = len(d.r.Out)
	m.BodyEnd = d.p / 8
	m.BlocksDone = true
	data := d.r.Out[m.OutStart:m.OutEnd]
	m.A32 = adler32.Checksum(data)
	m.C32 = crc32.ChecksumIEEE(data)
	q = d.p / 8
	var want []byte
	switch f {
	case "zlib":
		want = []byte{byte(m.A32 >> 24), byte(m.A32 >> 16), byte(m.A32 >> 8), byte(m.A32)}
	case "gzip":
		n := uint32(len(data))
		want = []byte{byte(m.C32), byte(m.C32 >> 8), byte(m.C32 >> 16), byte(m.C32 >> 24), byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
	}
	have := b[q:]
	if len(have) > len(want) {
		have = have[:len(want)]
	}
	same := string(have) == string(want[:len(have)])
	if len(have) < len(want) {
		if same {
			return d.trunc("trailer")
		}
		return d.truncOrCorrupt("trailer")
	}
	if !same {
		return d.corrupt("trailer")
	}
	d.p += 8 * len(want)
	m.End = d.p / 8
	m.Done = true
	return true
}

func (d *dec) gzipHeader(m *Member, q int) bool {
	b := d.b
	n := len(b)
	avail := n - q
	badSoFar := (avail >= 1 && b[q] != 31) || (avail >= 2 && b[q+1] != 139) || (avail >= 3 && b[q+2] != 8) || (avail >= 4 && b[q+3] >= 32)
	if avail < 10 {
		if badSoFar {
			return d.truncOrCorrupt("gzip header")
		}
		return d.trunc("gzip header")
	}
	if badSoFar {
		return d.corrupt("gzip header")
	}
	flg := b[q+3]
	h := &m.Hdr
	h.Text = flg&1 != 0
	h.HasCRC = flg&2 != 0
	h.HasExtra = flg&4 != 0
	h.HasName = flg&8 != 0
	h.HasComment = flg&16 != 0
	h.MTime = uint32(b[q+4]) | uint32(b[q+5])<<8 | uint32(b[q+6])<<16 | uint32(b[q+7])<<24
	h.XFL = b[q+8]
	h.OS = b[q+9]
	p := q + 10
	if h.HasExtra {
		if n-p < 2 {
			return d.trunc("gzip extra")
		}
		xl := int(b[p]) | int(b[p+1])<<8
		if n-p-2 < xl {
			return d.trunc("gzip extra")
		}
		h.RawExtra = b[p+2 : p+2+xl]
		h.Extra = ParseExtra(h.RawExtra)
		p += 2 + xl
	}
	str := func() ([]byte, bool) {
		for i := p; i < n; i++ {
			if b[i] == 0 {
				s := b[p:i]
				p = i + 1
				return s, true
			}
		}
		return nil, false
	}
	var good bool
	if h.HasName {
		if h.Name, good = str(); !good {
			return d.trunc("gzip name")
		}
	}
	if h.HasComment {
		if h.Comment, good = str(); !good {
			return d.trunc("gzip comment")
		}
	}
	if h.HasCRC {
		if n-p < 2 {
			return d.trunc("gzip hcrc")
		}
		if uint16(b[p])|uint16(b[p+1])<<8 != uint16(crc32.ChecksumIEEE(b[q:p])) {
			return d.corrupt("gzip hcrc")
		}
		p += 2
	}
	d.p = 8 * p
	return true
}

func (d *dec) zlibHeader(m *Member, q int) bool {
	b := d.b
	avail := len(b) - q
	if avail < 2 {
		if avail == 1 && (b[q]&15 != 8 || b[q]>>4 > 7) {
			return d.truncOrCorrupt("zlib header")
		}
		return d.trunc("zlib header")
	}
	h := &m.Hdr
	h.WBits = 8 + int(b[q]>>4)
	h.FLevel = int(b[q+1] >> 6)
	h.FDict = b[q+1]&32 != 0
	if (int(b[q])<<8|int(b[q+1]))%31 != 0 || b[q]&15 != 8 || h.WBits > 15 || h.WBits > d.cfg.WBits {
		return d.corrupt("zlib header")
	}
	hasDict := d.cfg.Dict != nil
	if !h.FDict {
		if hasDict {
			return d.corrupt("zlib stream without dictionary")
		}
		d.p = 8 * (q + 2)
		return true
	}
	if avail < 6 {
		if hasDict {
			return d.trunc("zlib dictid")
		}
		return d.truncOrCorrupt("zlib dictid")
	}
	h.DictID = uint32(b[q+2])<<24 | uint32(b[q+3])<<16 | uint32(b[q+4])<<8 | uint32(b[q+5])
	if !hasDict || h.DictID != adler32.Checksum(d.cfg.Dict) {
		return d.corrupt("zlib dictionary")
	}
	d.p = 8 * (q + 6)
	return true
}

func (d *dec) block(m *Member) (more, good bool) {
	r := d.r
	if d.nb-d.p < 3 {
		return false, d.trunc("block header")
	}
	typ := d.bits(d.p+1, 2)
	m.Blocks = append(m.Blocks, Block{Typ: [...]string{"stored", "static", "dynamic", "bad"}[typ], Final: d.bit(d.p) == 1,
		StartBit: d.p, OutStart: len(r.Out), MinLen: 1 << 30, MinDist: 1 << 30})
	bl := &m.Blocks[len(m.Blocks)-1]
	d.p += 3
	var hll, hd *code
	switch typ {
	case 0:
		q := (d.p + 7) / 8
		n := len(d.b)
		if n-q < 4 {
			if n-q == 3 && int(d.b[q])+int(d.b[q+2]) != 255 {
				return false, d.truncOrCorrupt("stored header")
			}
			return false, d.trunc("stored header")
		}
		l := int(d.b[q]) | int(d.b[q+1])<<8
		if int(d.b[q+2])|int(d.b[q+3])<<8 != 65535-l {
			return false, d.corrupt("LEN/NLEN")
		}
		if n-q-4 < l {
			r.Part = d.b[q+4:]
			r.Alts = append(r.Alts, Alt{d.truncName(), len(r.Out), len(r.Out) + len(r.Part)})
			return false, d.trunc("stored data")
		}
		r.Out = append(r.Out, d.b[q+4:q+4+l]...)
		d.p = 8 * (q + 4 + l)
	case 1:
		hll, hd = fixedLL, fixedD
		bl.LL, bl.D = FixedLLLens, FixedDLens
		bl.HasTrees = true
	case 2:
		if hll, hd = d.trees(bl); hll == nil {
			return false, false
		}
	default:
		return false, d.corrupt("block type")
	}
	if hll != nil && !d.symbols(m, bl, hll, hd) {
		return false, false
	}
	bl.EndBit = d.p
	bl.OutEnd = len(r.Out)
	bl.Done = true
	return !bl.Final, true
}

func (d *dec) trees(bl *Block) (*code, *code) {
	p0 := d.p
	if d.nb-p0 < 14 {
		if (d.nb-p0 >= 5 && d.bits(p0, 5) > 29) || (d.nb-p0 >= 10 && d.bits(p0+5, 5) > 29) {
			d.truncOrCorrupt("dynamic header")
		} else {
			d.trunc("dynamic header")
		}
		return nil, nil
	}
	nll, nd, nx := 257+d.bits(p0, 5), 1+d.bits(p0+5, 5), 4+d.bits(p0+10, 4)
	bl.NLL, bl.ND, bl.NX = nll, nd, nx
	if nll > 286 || nd > 30 {
		d.corrupt("HLIT/HDIST")
		return nil, nil
	}
	if d.nb-p0-14 < 3*nx {
		d.trunc("code lengths")
		return nil, nil
	}
	bl.X = make([]byte, 19)
	for k := 0; k < nx; k++ {
		bl.X[clOrder[k]] = byte(d.bits(p0+14+3*k, 3))
	}
	hx := mkCode(bl.X)
	bl.LeftX = hx.left()
	if bl.LeftX < 0 {
		d.corrupt("code length code")
		return nil, nil
	}
	if bl.LeftX > 0 {
		d.alt(CORRUPT)
	}
	p := p0 + 14 + 3*nx
	total := nll + nd
	lens := make([]byte, 0, total)
	for len(lens) < total {
		st, sym, np := d.sym(p, hx)
		if st == eof {
			if hx.left() == 0 {
				d.trunc("code lengths")
			} else {
				d.truncOrCorrupt("code lengths")
			}
			return nil, nil
		}
		if st == bad {
			if d.nb-p < 15 {
				d.corruptOrTrunc("code length symbol")
			} else {
				d.corrupt("code length symbol")
			}
			return nil, nil
		}
		if sym < 16 {
			lens = append(lens, byte(sym))
			p = np
			continue
		}
		if sym == 16 && len(lens) == 0 {
			d.corrupt("repeat without previous length")
			return nil, nil
		}
		need, base := 7, 11
		if sym == 16 {
			need, base = 2, 3
		} else if sym == 17 {
			need, base = 3, 3
		}
		if d.nb-np < need {
			if total-len(lens) < base {
				d.truncOrCorrupt("repeat count")
			} else {
				d.trunc("repeat count")
			}
			return nil, nil
		}
		k := base + d.bits(np, need)
		var v byte
		if sym == 16 {
			v = lens[len(lens)-1]
		}
		if k > total-len(lens) {
			d.corrupt("repeat count")
			return nil, nil
		}
		for ; k > 0; k-- {
			lens = append(lens, v)
		}
		p = np + need
	}
	bl.LL, bl.D = lens[:nll], lens[nll:]
	hll, hd := mkCode(bl.LL), mkCode(bl.D)
	bl.LeftLL, bl.LeftD = hll.left(), hd.left()
	if bl.LeftLL < 0 || bl.LeftD < 0 {
		d.corrupt("over-subscribed")
		return nil, nil
	}
	single := len(hd.sym) == 0 || (len(hd.sym) == 1 && hd.cnt[1] == 1)
	if bl.LeftLL > 0 || (bl.LeftD > 0 && !single) || bl.LL[256] == 0 {
		d.alt(CORRUPT)
	}
	d.p = p
	bl.HasTrees = true
	return hll, hd
}

func (d *dec) symFail(st int, p int, h *code) bool {
	if st == eof {
		if h.left() == 0 {
			return d.trunc("symbol")
		}
		return d.truncOrCorrupt("symbol")
	}
	if d.nb-p < 64 {
		return d.corruptOrTrunc("no such code")
	}
	return d.corrupt("no such code")
}

func (d *dec) symbols(m *Member, bl *Block, hll, hd *code) bool {
	r := d.r
	for {
		st, sym, p := d.sym(d.p, hll)
		if st != ok {
			return d.symFail(st, d.p, hll)
		}
		if sym < 256 {
			r.Out = append(r.Out, byte(sym))
			d.p = p
			bl.NLit++
			continue
		}
		if sym == 256 {
			d.p = p
			return true
		}
		if sym > 285 {
			return d.corrupt("length symbol")
		}
		le := lenExtra[sym-257]
		if d.nb-p < le {
			return d.trunc("length bits")
		}
		length := lenBase[sym-257] + d.bits(p, le)
		p += le
		st, sym, np := d.sym(p, hd)
		if st != ok {
			return d.symFail(st, p, hd)
		}
		if sym > 29 {
			return d.corrupt("distance symbol")
		}
		de := distExtra[sym]
		memberPos := len(r.Out) - m.OutStart
		hist := len(d.cfg.Dict) + memberPos
		limit := hist
		if w := 1 << uint(d.cfg.WBits); w < limit {
			limit = w
		}
		if d.nb-np < de {
			if distBase[sym] > limit {
				return d.truncOrCorrupt("distance bits")
			}
			return d.trunc("distance bits")
		}
		dist := distBase[sym] + d.bits(np, de)
		if dist > limit {
			return d.corrupt("distance too far")
		}
		if length == 258 && le != 0 {
			d.alt(CORRUPT) // code 284 is for lengths up to 257
		}
		if d.cfg.OnCopy != nil {
			d.cfg.OnCopy(memberPos, len(r.Out), dist, length)
		}
		for i := 0; i < length; i++ {
			k := len(r.Out) - m.OutStart - dist
			var ch byte
			if k >= 0 {
				ch = r.Out[m.OutStart+k]
			} else {
				ch = d.cfg.Dict[len(d.cfg.Dict)+k]
			}
			r.Out = append(r.Out, ch)
		}
		bl.NCopy++
		if length < bl.MinLen {
			bl.MinLen = length
		}
		if length > bl.MaxLen {
			bl.MaxLen = length
		}
		if dist < bl.MinDist {
			bl.MinDist = dist
		}
		if dist > bl.MaxDist {
			bl.MaxDist = dist
		}
		d.p = np + de
	}
}
