package misc

import (
	"bytes"
	stdflate "compress/flate"
	stdgzip "compress/gzip"
	stdzlib "compress/zlib"
	"encoding/binary"
	stdadler "hash/adler32"
	stdcrc "hash/crc32"
	"io"

	"github.com/chronos-tachyon/flate"

	"github.com/chronos-tachyon/flate/verifharness/run"
)

// Part is some bytes, or N zeros.
type Part struct {
	B []int  `json:"b"`
	N [4]int `json:"n"` // as 16-bit limbs, highest first
}

// Member is one stream of a huge input.
type Member struct {
	Parts []Part   `json:"parts"`
	Sum   run.Word `json:"sum"`   // the checksum declared
	ISize run.Word `json:"isize"` // the size declared (gzip)
	Copy  bool     `json:"copy"`  // R: the last 258 zeros are a copy of what is 32768 bytes before
}

// HugeCase is a stream with more data than 31 or 32 bits can count.
type HugeCase struct {
	Side string   `json:"side"` // R or W
	Fmt  string   `json:"fmt"`
	Mem  []Member `json:"mem"`
	Lvl  int      `json:"lvl"`
	Str  string   `json:"str"`
	ML   int      `json:"ml"`
	Mode string   `json:"mode"` // R: what the trailer says
}

type hugeEv struct {
	T    string   `json:"t"`
	In   [4]int   `json:"in"`
	Out  [4]int   `json:"out"`
	InT  [4]int   `json:"inT"`
	OutT [4]int   `json:"outT"`
	NS   int      `json:"ns"`
	A32  run.Word `json:"a32"`
	C32  run.Word `json:"c32"`
}

type hugeObs struct {
	Fmt  string   `json:"fmt"`
	Side string   `json:"side"`
	Mem  []Member `json:"mem"` // with the declared trailers
	N    [4]int   `json:"n"`   // bytes read (R), bytes decoded by the other implementation (W)
	Err  string   `json:"err"`
	Same bool     `json:"same"` // those are the right bytes
	Ev   []hugeEv `json:"ev"`
	Size [4]int   `json:"size"` // of the compressed data
	Tail []int    `json:"tail"` // W: the last 8 bytes
}

func limbs(x uint64) [4]int {
	return [4]int{int(x >> 48), int(x >> 32 & 0xffff), int(x >> 16 & 0xffff), int(x & 0xffff)}
}

func unlimbs(l [4]int) uint64 {
	return uint64(l[0])<<48 | uint64(l[1])<<32 | uint64(l[2])<<16 | uint64(l[3])
}

var zeros = make([]byte, 1<<20)

// partsReader yields the contents of parts.
type partsReader struct {
	parts []Part
	b     []byte
	z     uint64
}

func (r *partsReader) Read(p []byte) (int, error) {
	for len(r.b) == 0 && r.z == 0 {
		if len(r.parts) == 0 {
			return 0, io.EOF
		}
		r.b, r.z = run.Bytes(r.parts[0].B), unlimbs(r.parts[0].N)
		r.parts = r.parts[1:]
	}
	if len(r.b) > 0 {
		n := copy(p, r.b)
		r.b = r.b[n:]
		return n, nil
	}
	if uint64(len(p)) > r.z {
		p = p[:r.z]
	}
	if len(p) > len(zeros) {
		p = p[:len(zeros)]
	}
	copy(p, zeros)
	r.z -= uint64(len(p))
	return len(p), nil
}

func parts(ms []Member) (out []Part) {
	for _, m := range ms {
		out = append(out, m.Parts...)
	}
	return
}

// sameWriter compares what is written with what is expected.
type sameWriter struct {
	want partsReader
	n    uint64
	bad  bool
	buf  []byte
}

func (s *sameWriter) Write(p []byte) (int, error) {
	if len(s.buf) < len(p) {
		s.buf = make([]byte, len(p))
	}
	k, _ := io.ReadFull(&s.want, s.buf[:len(p)])
	if k != len(p) || !bytes.Equal(p, s.buf[:k]) {
		s.bad = true
	}
	s.n += uint64(len(p))
	return len(p), nil
}

// copyBlock is a final static block: copy 258 bytes from 32768 bytes before.
func copyBlock() []byte {
	var x uint64
	n := 0
	put := func(v uint64, k int) { x |= v << n; n += k }
	code := func(v uint64, k int) {
		for k--; k >= 0; k-- {
			put(v>>k&1, 1)
		}
	}
	put(3, 3)
	code(0xc0+285-280, 8)
	code(29, 5)
	put(8191, 13)
	code(0, 7)
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], x)
	return b[:(n+7)/8]
}

// storedStream yields a compressed stream of stored blocks.
type storedStream struct {
	fmt  string
	mems []Member
	data partsReader
	buf  bytes.Buffer
	open bool
	left bool
	blk  []byte
	n    uint64
}

func (s *storedStream) Read(p []byte) (int, error) {
	for s.buf.Len() < len(p) {
		if !s.open {
			if len(s.mems) == 0 {
				break
			}
			switch s.fmt {
			case "gzip":
				s.buf.Write([]byte{31, 139, 8, 0, 0, 0, 0, 0, 0, 255})
			case "zlib":
				s.buf.Write([]byte{0x78, 0x01})
			}
			s.data = partsReader{parts: s.mems[0].Parts}
			if s.mems[0].Copy {
				s.data.parts = s.data.parts[:len(s.data.parts)-1]
			}
			s.open = true
			s.blk = make([]byte, 65535)
		}
		n, _ := io.ReadFull(&s.data, s.blk)
		hdr := []byte{0, byte(n), byte(n >> 8), ^byte(n), ^byte(n >> 8)}
		if n < len(s.blk) {
			hdr[0] = 1
			if s.mems[0].Copy {
				hdr[0] = 0
			}
		}
		s.buf.Write(hdr)
		s.buf.Write(s.blk[:n])
		if n < len(s.blk) {
			m := s.mems[0]
			if m.Copy {
				s.buf.Write(copyBlock())
			}
			w := func(x run.Word) uint32 { return uint32(x[0])<<16 | uint32(x[1]) }
			var t [4]byte
			switch s.fmt {
			case "gzip":
				binary.LittleEndian.PutUint32(t[:], w(m.Sum))
				s.buf.Write(t[:])
				binary.LittleEndian.PutUint32(t[:], w(m.ISize))
				s.buf.Write(t[:])
			case "zlib":
				binary.BigEndian.PutUint32(t[:], w(m.Sum))
				s.buf.Write(t[:])
			}
			s.open = false
			s.mems = s.mems[1:]
		}
	}
	n, err := s.buf.Read(p)
	s.n += uint64(n)
	return n, err
}

type hugeTracer struct{ evs []hugeEv }

func (h *hugeTracer) OnEvent(e flate.Event) {
	o := hugeEv{NS: int(e.NumStreams), In: limbs(e.InputBytesStream), Out: limbs(e.OutputBytesStream), InT: limbs(e.InputBytesTotal), OutT: limbs(e.OutputBytesTotal)}
	switch e.Type {
	case flate.StreamEndEvent:
		o.T = "SE"
	case flate.StreamCloseEvent:
		o.T = "SC"
	default:
		return
	}
	if e.Footer != nil {
		o.A32, o.C32 = run.W32(uint32(e.Footer.Adler32)), run.W32(uint32(e.Footer.CRC32))
	}
	h.evs = append(h.evs, o)
}

type noWriterTo struct{ io.Reader }

func runHuge(c *HugeCase) hugeObs {
	o := hugeObs{Fmt: c.Fmt, Side: c.Side, Mem: c.Mem, Tail: []int{}, Ev: []hugeEv{}}
	tr := &hugeTracer{}
	opts := []flate.Option{flate.WithFormat(run.Fmts[c.Fmt]), flate.WithMemoryLevel(flate.MemoryLevel(c.ML)), flate.WithTracers(tr)}
	same := &sameWriter{want: partsReader{parts: parts(c.Mem)}}
	buf := make([]byte, 1<<18)
	if c.Side == "R" {
		src := &storedStream{fmt: c.Fmt, mems: c.Mem}
		r := flate.NewReader(src, opts...)
		_, err := io.CopyBuffer(struct{ io.Writer }{same}, noWriterTo{r}, buf)
		if err == nil {
			err = io.EOF
		}
		r.Close()
		o.Err, o.N, o.Size = run.ErrClass(err), limbs(same.n), limbs(src.n)
	} else {
		pr, pw := io.Pipe()
		done := make(chan error)
		go func() {
			var r io.Reader
			var err error
			switch c.Fmt {
			case "gzip":
				r, err = stdgzip.NewReader(pr)
			case "zlib":
				r, err = stdzlib.NewReader(pr)
			default:
				r = stdflate.NewReader(pr)
			}
			if err == nil {
				_, err = io.CopyBuffer(struct{ io.Writer }{same}, noWriterTo{r}, make([]byte, 1<<18))
			}
			_, _ = io.Copy(io.Discard, pr)
			done <- err
		}()
		str := flate.DefaultStrategy
		switch c.Str {
		case "huff":
			str = flate.HuffmanOnlyStrategy
		case "rle":
			str = flate.HuffmanRLEStrategy
		}
		tail := &tailWriter{w: pw}
		w := flate.NewWriter(tail, append(opts, flate.WithStrategy(str), flate.WithCompressLevel(flate.CompressLevel(c.Lvl)))...)
		var err error
		for _, m := range c.Mem {
			if err == nil {
				_, err = io.CopyBuffer(struct{ io.Writer }{w}, &partsReader{parts: m.Parts}, buf)
			}
			if err == nil {
				err = w.Flush(flate.FinishFlush)
			}
		}
		if e := w.Close(); err == nil {
			err = e
		}
		pw.Close()
		if e := <-done; err == nil {
			err = e
		}
		if err == nil {
			err = io.EOF
		}
		o.Err, o.N, o.Size, o.Tail = run.ErrClass(err), limbs(same.n), limbs(tail.n), run.Ints(tail.b)
	}
	o.Same = !same.bad
	o.Ev = append(o.Ev, tr.evs...)
	return o
}

type tailWriter struct {
	w io.Writer
	n uint64
	b []byte
}

func (t *tailWriter) Write(p []byte) (int, error) {
	t.n += uint64(len(p))
	k := p
	if len(k) > 8 {
		k = k[len(k)-8:]
	}
	t.b = append(t.b, k...)
	if len(t.b) > 8 {
		t.b = append([]byte{}, t.b[len(t.b)-8:]...)
	}
	return t.w.Write(p)
}

// hugeMember makes a member and the trailer which it ought to have.
func hugeMember(f string, ps ...Part) Member {
	m := Member{Parts: ps}
	n := uint64(0)
	h := stdcrc.NewIEEE()
	h2 := stdadler.New()
	r := &partsReader{parts: ps}
	buf := make([]byte, 1<<20)
	for {
		k, err := r.Read(buf)
		n += uint64(k)
		if f == "gzip" {
			h.Write(buf[:k])
		} else if f == "zlib" {
			h2.Write(buf[:k])
		}
		if err != nil {
			break
		}
	}
	m.Sum = run.W32(h.Sum32())
	if f == "zlib" {
		m.Sum = run.W32(h2.Sum32())
	}
	m.ISize = run.W32(uint32(n))
	return m
}

func zp(n uint64) Part { return Part{B: []int{}, N: limbs(n)} }
func bp(s string) Part { return Part{B: ints(s)} }

func (g *maker) huges(side string) {
	k := uint64(g.rng.Intn(100000))
	add := func(c HugeCase, note string) { g.out = append(g.out, Case{Note: note, Huge: &c}) }
	const g31, g32 = uint64(1) << 31, uint64(1) << 32
	bad := run.Word{0xffff, 0xffff}
	if side == "R" {
		k2 := k % 30000
		m := hugeMember("gzip", bp("head"), zp(g32+k2), bp("tail"), zp(258))
		m.Copy = true
		add(HugeCase{Side: side, Fmt: "gzip", Mem: []Member{m}, ML: 6}, "more than 4 GiB, then a copy")
		x := m
		x.ISize = bad
		add(HugeCase{Side: side, Fmt: "gzip", Mem: []Member{x}, ML: 6}, "more than 4 GiB, size saturated")
		x = hugeMember("gzip", zp(g31+k))
		x.ISize = run.Word{0x7fff, 0xffff}
		add(HugeCase{Side: side, Fmt: "gzip", Mem: []Member{x}, ML: 7}, "more than 2 GiB, size saturated")
		m = hugeMember("gzip", bp("a"), zp(g31+k))
		add(HugeCase{Side: side, Fmt: "gzip", Mem: []Member{m, hugeMember("gzip", zp(g31), bp("end"))}, ML: 8}, "two members of 2 GiB")
		m = hugeMember("zlib", bp("head"), zp(g31+k2), bp("tail"), zp(258))
		m.Copy = true
		add(HugeCase{Side: side, Fmt: "zlib", Mem: []Member{m}, ML: 6}, "more than 2 GiB, then a copy")
	} else {
		add(HugeCase{Side: side, Fmt: "gzip", Mem: []Member{hugeMember("gzip", bp("head"), zp(g32+k), bp("tail"))}, ML: 9, Str: "huff"}, "more than 4 GiB stored")
		add(HugeCase{Side: side, Fmt: "zlib", Mem: []Member{hugeMember("zlib", bp("x"), zp(g32+k))}, ML: 9, Str: "huff"}, "more than 4 GiB stored")
		add(HugeCase{Side: side, Fmt: "gzip", Mem: []Member{hugeMember("gzip", bp("a"), zp(g31+k)), hugeMember("gzip", zp(g31), bp("b"))}, ML: 9, Str: "huff"}, "two members of 2 GiB")
		add(HugeCase{Side: side, Fmt: "gzip", Mem: []Member{hugeMember("gzip", bp("head"), zp(g31+k), bp("tail"))}, ML: 9, Lvl: 1, Str: "rle"}, "more than 2 GiB compressed")
		add(HugeCase{Side: side, Fmt: "raw", Mem: []Member{hugeMember("raw", bp("a"), zp(g32+k))}, ML: 9, Str: "huff"}, "more than 4 GiB stored")
	}
}
