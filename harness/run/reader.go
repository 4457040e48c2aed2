package run

import (
	"bytes"
	stdflate "compress/flate"
	"compress/gzip"
	"compress/zlib"
	"context"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/chronos-tachyon/flate"
)

// ReaderCase is one compressed input and the ways to read it.
type ReaderCase struct {
	B       []byte    `json:"b"`
	Fmt     string    `json:"fmt"`
	WB      int       `json:"wb"`
	Dict    []byte    `json:"dict"`
	HasDict bool      `json:"hasdict"`
	SrcErr  string    `json:"srcerr"`            // "" or SRC
	SrcKind string    `json:"srckind,omitempty"` // which error that is (see SrcKinds)
	Vars    []Variant `json:"vars"`
}

// Variant is one way to read the input.
type Variant struct {
	ML    int    `json:"ml"`    // memory level, 0 = default
	Seg   string `json:"seg"`   // all, one, rand, eof (data together with the error), oneeof, randeof, zero
	RS    string `json:"rs"`    // big, one, rand, odd
	Seed  int64  `json:"seed"`  //
	Ev    bool   `json:"ev"`    // record tracer events
	Reuse bool   `json:"reuse"` // use a Reader which has read (part of) something else and was Reset
}

func (v Variant) Name() string {
	s := fmt.Sprintf("ml%d/%s/%s", v.ML, v.Seg, v.RS)
	if v.Reuse {
		s += "/reuse"
	}
	return s
}

// ReaderObs is what was observed.
type ReaderObs struct {
	Vars   []string `json:"vars"`
	Err    string   `json:"err"`
	Out    []byte   `json:"out"`
	Sticky bool     `json:"sticky"`
	HasEv  bool     `json:"hasev"`
	Ev     []Ev     `json:"ev"`
	Ev2    bool     `json:"ev2"` // the second tracer saw the same
	Offs   []Offset `json:"offs"`
}

// Offset is what a corruption error says about the place.
type Offset struct {
	Tot int  `json:"tot"`
	Str int  `json:"str"`
	Txt bool `json:"txt"` // it describes a problem
}

func offset(err error) []Offset {
	var c flate.CorruptInputError
	if !errors.As(err, &c) {
		return []Offset{}
	}
	lim := func(x uint64) int {
		if x > 1<<30 {
			return 1 << 30
		}
		return int(x)
	}
	txt := c.Problem != "" && strings.Contains(c.Error(), c.Problem)
	return []Offset{{Tot: lim(c.OffsetTotal), Str: lim(c.OffsetStream), Txt: txt}}
}

type srcError struct{ s string }

func (e *srcError) Error() string { return e.s }

// ErrSrc is the source's own error.
var ErrSrc error = &srcError{"source failure"}

// posing is an error which claims to be another.
type posing struct{ as error }

func (e *posing) Error() string        { return "posing as " + e.as.Error() }
func (e *posing) Is(target error) bool { return target == e.as }

// srcErrs are errors of a source which something may treat in a way of its own.
var srcErrs = map[string]error{
	"": ErrSrc, "wrapped EOF": fmt.Errorf("read: %w", io.EOF), "posing as EOF": &posing{io.EOF}, "text EOF": errors.New("EOF"),
	"unexpected EOF": io.ErrUnexpectedEOF, "wrapped unexpected EOF": fmt.Errorf("read: %w", io.ErrUnexpectedEOF),
	"no progress": io.ErrNoProgress, "canceled": context.Canceled, "deadline": os.ErrDeadlineExceeded, "closed": fs.ErrClosed,
	"closed path": &fs.PathError{Op: "read", Path: "x", Err: fs.ErrClosed}, "closed pipe": io.ErrClosedPipe, "short buffer": io.ErrShortBuffer,
	"interrupted": syscall.EINTR, "again": syscall.EAGAIN, "corrupt": flate.CorruptInputError{OffsetTotal: 7, OffsetStream: 7, Problem: "of another Reader"},
}

// SrcKinds are their names.
var SrcKinds = func() (out []string) {
	for k := range srcErrs {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}()

// ErrClass classifies an error.
func ErrClass(err error) string {
	var c flate.CorruptInputError
	switch {
	case err == nil:
		return "nil"
	case err == io.EOF:
		return "EOF"
	case err == io.ErrUnexpectedEOF:
		return "UEOF"
	case err == ErrSrc:
		return "SRC"
	case errors.As(err, &c):
		return "CORRUPT"
	}
	s := err.Error()
	if len(s) > 60 {
		s = s[:60]
	}
	return "OTHER:" + s
}

// Seg is a source which hands out its data in pieces.
type Seg struct {
	B    []byte
	Mode string
	Err  error
	Rng  *rand.Rand
	// Touched counts Read calls
	Touched int
	zero    bool
	idle    int
}

func (s *Seg) Read(p []byte) (int, error) {
	Stir()
	s.Touched++
	if len(s.B) == 0 {
		return 0, s.end()
	}
	n := len(s.B)
	withErr := false
	switch s.Mode {
	case "one":
		n = 1
	case "oneeof":
		n, withErr = 1, true
	case "eof":
		withErr = true
	case "rand", "randeof", "zero":
		n = 1 + s.Rng.Intn(20)
		if s.Rng.Intn(8) == 0 {
			n = 1 + s.Rng.Intn(3000)
		}
		withErr = s.Mode == "randeof"
		if s.Mode == "zero" {
			if s.idle < 0 { // several in a row
				s.idle++
				return 0, nil
			}
			if s.zero = !s.zero; s.zero {
				if s.Rng.Intn(10) == 0 {
					s.idle = -s.Rng.Intn(40)
				}
				return 0, nil
			}
		}
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(s.B) {
		n = len(s.B)
	}
	copy(p, s.B[:n])
	s.B = s.B[n:]
	if s.Mode != "all" && s.Mode != "eof" { // it may use all of p
		rest := p[n:]
		if len(rest) > 400 {
			rest = rest[:400]
		}
		for i := range rest {
			rest[i] = byte(0xb5 + i)
		}
	}
	if withErr && len(s.B) == 0 {
		return n, s.end()
	}
	return n, nil
}

// end gives the error with which the data ends. A failure is reported once
// only: whoever asks again finds nothing but the end of the input.
func (s *Seg) end() error {
	err := s.Err
	s.Err = io.EOF
	return err
}

func srcErr(c *ReaderCase) error {
	if c.SrcErr == "" {
		return io.EOF
	}
	return srcErrs[c.SrcKind]
}

// MaxOut bounds what is read before a Reader is considered to run away.
var MaxOut = 96 << 20

// ReadAll reads everything with the given choice of slice sizes.
func ReadAll(r io.Reader, rs string, rng *rand.Rand) (out []byte, err error, sticky bool) {
	buf := make([]byte, 65536)
	idle := 0
	next := func() []byte {
		switch rs {
		case "one":
			return buf[:1]
		case "odd":
			return buf[:13]
		case "rand":
			if rng.Intn(12) == 0 {
				return buf[:0]
			}
			return buf[:1+rng.Intn(1<<uint(rng.Intn(14)))]
		}
		return buf
	}
	for {
		p := next()
		if len(p) == 0 && idle > 1 {
			p = buf[:1]
		}
		Stir()
		if len(p) < len(buf) { // must stay as it is
			buf[len(p)] = 0xc3
		}
		n, e := r.Read(p)
		if len(p) < len(buf) && buf[len(p)] != 0xc3 {
			return out, errors.New("Read wrote beyond its slice"), true
		}
		if n < 0 || n > len(p) {
			return out, fmt.Errorf("Read returned %d for a slice of %d", n, len(p)), true
		}
		out = append(out, p[:n]...)
		for i := range p[:n] { // the Reader must not look at it any more
			p[i] ^= 0x5a
		}
		if e != nil {
			err = e
			break
		}
		if n == 0 {
			if idle++; idle > 10000 {
				return out, errors.New("Read returns 0, nil for ever"), true
			}
		} else {
			idle = 0
		}
		if len(out) > MaxOut {
			return out, errors.New("endless output"), true
		}
	}
	sticky = true
	for i := 0; i < 3; i++ {
		n, e := r.Read(buf[:7])
		if n != 0 || e == nil || ErrClass(e) != ErrClass(err) || e.Error() != err.Error() {
			sticky = false
		}
	}
	return
}

func readerOpts(c *ReaderCase, v Variant) []flate.Option {
	o := []flate.Option{flate.WithFormat(Fmts[c.Fmt]), flate.WithMemoryLevel(flate.MemoryLevel(v.ML)), flate.WithWindowBits(flate.WindowBits(c.WB))}
	if c.HasDict {
		o = append(o, flate.WithDictionary(c.Dict))
	} else {
		o = append(o, flate.WithDictionary(nil))
	}
	return o
}

// RunReader reads the case in all its variants; equal observations are merged.
func RunReader(c *ReaderCase) []ReaderObs {
	var all []ReaderObs
	idx := map[uint64]int{}
	for _, v := range c.Vars {
		o := runVariant(c, v)
		h := fnv.New64a()
		fmt.Fprintf(h, "%s %v %d %v ", o.Err, o.Sticky, len(o.Out), o.HasEv)
		h.Write(o.Out)
		k := h.Sum64()
		if i, ok := idx[k]; ok && !v.Ev {
			all[i].Vars = append(all[i].Vars, v.Name())
			for _, x := range o.Offs {
				dup := false
				for _, y := range all[i].Offs {
					dup = dup || x == y
				}
				if !dup {
					all[i].Offs = append(all[i].Offs, x)
				}
			}
			continue
		}
		idx[k] = len(all)
		all = append(all, o)
	}
	return all
}

func runVariant(c *ReaderCase, v Variant) ReaderObs {
	rng := rand.New(rand.NewSource(v.Seed))
	src := &Seg{B: c.B, Mode: v.Seg, Err: srcErr(c), Rng: fork(rng)}
	opts := readerOpts(c, v)
	var rec, rec2 Rec
	if v.Ev {
		opts = append(opts, flate.WithTracers(&rec, &rec2))
	}
	var r *flate.Reader
	if v.Reuse {
		r = used(c, v, rng, src, &rec, &rec2)
	} else {
		r = flate.NewReader(src, opts...)
	}
	out, err, sticky := ReadAll(r, v.RS, rng)
	o := ReaderObs{Vars: []string{v.Name()}, Err: ErrClass(err), Out: out, Sticky: sticky, HasEv: v.Ev, Ev: []Ev{}, Offs: offset(err)}
	if c.SrcErr != "" && err == srcErr(c) {
		o.Err, o.Offs = "SRC", []Offset{}
	}
	if o.Out == nil {
		o.Out = []byte{}
	}
	r.Close()
	if v.Reuse && len(o.Offs) > 0 {
		o.Offs[0].Tot = -1 // counts since the Reader was made
	}
	if v.Ev {
		o.Ev = rec.Take()
		o.Ev2 = sameEvs(o.Ev, rec2.Take()) && rec.Kept()
		if v.Reuse && len(o.Ev) > 0 { // totals count since the Reader was made
			in, out := o.Ev[0].InT, o.Ev[0].OutT
			for i := range o.Ev {
				o.Ev[i].InT -= in
				o.Ev[i].OutT -= out
			}
		}
	}
	return o
}

// earlier inputs of a Reader that is used again
var earlier = func() (all [][]byte) {
	text := []byte("earlier data, earlier data, some of it repeated, and some not: 0123456789")
	var b bytes.Buffer
	z := gzip.NewWriter(&b)
	z.Name, z.Comment, z.Extra, z.ModTime = "old name", "old comment", []byte{'O', 'L', 3, 0, 1, 2, 3}, time.Unix(1e9, 0)
	z.Write(text)
	z.Close()
	all = append(all, append([]byte{}, b.Bytes()...))
	b.Reset()
	y := zlib.NewWriter(&b)
	y.Write(bytes.Repeat(text, 40))
	y.Close()
	all = append(all, append([]byte{}, b.Bytes()...))
	b.Reset()
	f, _ := stdflate.NewWriter(&b, 5)
	f.Write(bytes.Repeat(text, 9))
	f.Close()
	all = append(all, append([]byte{}, b.Bytes()...))
	n := len(b.Bytes())
	all = append(all, append([]byte{}, b.Bytes()[:n-3]...)) // cut off
	all = append(all, []byte{0x1f, 0x8b, 8, 4, 0, 0, 0, 0, 0, 0, 9, 0, 1, 2}, []byte{0x78, 0x9c, 0xff, 0xff, 0xff}, []byte{})
	return
}()

// used gives a Reader that has been used for something else, perhaps with
// other options, and was Reset: with all options, or with those that differ.
func used(c *ReaderCase, v Variant, rng *rand.Rand, src io.Reader, rec, rec2 *Rec) *flate.Reader {
	const (
		chgFmt = 1 << iota
		chgWB
		chgML
		chgDict
		chgTr
	)
	chg := rng.Intn(32)
	full := rng.Intn(3) == 0
	p, pv := *c, v
	if chg&chgFmt != 0 {
		p.Fmt = []string{"raw", "zlib", "gzip", "auto"}[rng.Intn(4)]
	}
	if chg&chgWB != 0 {
		p.WB = 8 + rng.Intn(8)
	}
	if chg&chgML != 0 {
		pv.ML = 1 + rng.Intn(9)
	}
	if chg&chgDict != 0 {
		p.HasDict = rng.Intn(2) == 0 && (p.Fmt == "raw" || p.Fmt == "zlib")
		p.Dict = []byte("the dictionary of the earlier input")
	}
	old := readerOpts(&p, pv)
	if v.Ev && chg&chgTr == 0 {
		old = append(old, flate.WithTracers(rec, rec2))
	} else if rng.Intn(3) == 0 {
		old = append(old, flate.WithTracers(&Rec{}))
		chg |= chgTr
	}
	in := c.B
	if k := rng.Intn(len(earlier) + 3); k < len(earlier) {
		in = earlier[k]
	}
	e := io.EOF
	if rng.Intn(2) == 0 {
		e = ErrSrc
	}
	r := flate.NewReader(&Seg{B: in, Mode: []string{"rand", "all"}[rng.Intn(2)], Err: e, Rng: fork(rng)}, old...)
	lives := 1
	if rng.Intn(4) == 0 {
		lives = 2 + rng.Intn(3)
		if rng.Intn(8) == 0 {
			lives = 40
		}
	}
	for {
		switch rng.Intn(3) {
		case 0:
			ReadAll(r, "rand", rng)
		case 1:
			var tmp [5]byte
			for k := rng.Intn(4); k > 0; k-- {
				r.Read(tmp[:])
			}
		}
		if rng.Intn(3) == 0 {
			r.Close()
		}
		if lives--; lives == 0 {
			break
		}
		if k := rng.Intn(len(earlier) + 1); k < len(earlier) {
			in = earlier[k]
		} else {
			in = c.B
		}
		r.Reset(&Seg{B: in, Mode: []string{"rand", "all"}[rng.Intn(2)], Err: io.EOF, Rng: fork(rng)})
	}
	all := readerOpts(c, v)
	var opts []flate.Option
	for i, bit := range []int{chgFmt, chgML, chgWB, chgDict} {
		if full || chg&bit != 0 {
			opts = append(opts, all[i])
		}
	}
	if full || chg&chgTr != 0 {
		if v.Ev {
			opts = append(opts, flate.WithTracers(rec, rec2))
		} else {
			opts = append(opts, flate.WithTracers())
		}
	}
	r.Reset(src, opts...)
	rec.Drop()
	rec2.Drop()
	return r
}

func sameEvs(a, b []Ev) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if fmt.Sprintf("%+v", strip(a[i])) != fmt.Sprintf("%+v", strip(b[i])) {
			return false
		}
	}
	return true
}

func strip(e Ev) Ev { e.H = nil; return e }

// fork makes a generator for another goroutine.
func fork(rng *rand.Rand) *rand.Rand { return rand.New(rand.NewSource(rng.Int63())) }
