package run

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"sync"
	"syscall"
	"time"

	"github.com/chronos-tachyon/flate"

	"github.com/chronos-tachyon/flate/verifharness/gen"
	"github.com/chronos-tachyon/flate/verifharness/oracle"
)

// WCfg is the configuration of a Writer. In a Reset only the set fields are
// passed.
type WCfg struct {
	Fmt   string    `json:"fmt,omitempty"` // raw zlib gzip auto
	Strat string    `json:"strat,omitempty"`
	Lvl   *int      `json:"lvl,omitempty"`
	ML    *int      `json:"ml,omitempty"`
	WB    *int      `json:"wb,omitempty"`
	Dict  *gen.Data `json:"dict,omitempty"` // N = 0 and G = "" : nil
}

var strats = map[string]flate.Strategy{"default": flate.DefaultStrategy, "huff": flate.HuffmanOnlyStrategy,
	"rle": flate.HuffmanRLEStrategy, "fixed": flate.FixedStrategy}

// Merge overrides c with o.
func (c WCfg) Merge(o WCfg) WCfg {
	if o.Fmt != "" {
		c.Fmt = o.Fmt
	}
	if o.Strat != "" {
		c.Strat = o.Strat
	}
	if o.Lvl != nil {
		c.Lvl = o.Lvl
	}
	if o.ML != nil {
		c.ML = o.ML
	}
	if o.WB != nil {
		c.WB = o.WB
	}
	if o.Dict != nil {
		c.Dict = o.Dict
	}
	return c
}

func (c WCfg) Opts() []flate.Option {
	var o []flate.Option
	if c.Fmt != "" {
		o = append(o, flate.WithFormat(Fmts[c.Fmt]))
	}
	if c.Strat != "" {
		o = append(o, flate.WithStrategy(strats[c.Strat]))
	}
	if c.Lvl != nil {
		o = append(o, flate.WithCompressLevel(flate.CompressLevel(*c.Lvl)))
	}
	if c.ML != nil {
		o = append(o, flate.WithMemoryLevel(flate.MemoryLevel(*c.ML)))
	}
	if c.WB != nil {
		o = append(o, flate.WithWindowBits(flate.WindowBits(*c.WB)))
	}
	if c.Dict != nil {
		if c.Dict.G == "" {
			o = append(o, flate.WithDictionary(nil))
		} else {
			o = append(o, flate.WithDictionary(c.Dict.Bytes()))
		}
	}
	return o
}

// Effective is the configuration with all defaults filled in.
type Effective struct {
	Fmt     string `json:"fmt"`
	Strat   string `json:"strat"`
	Lvl     int    `json:"lvl"`
	WB      int    `json:"wb"`
	HasDict bool   `json:"hasdict"`
	DictLen int    `json:"dictlen"`
	dict    []byte
}

func (c WCfg) Effective() Effective {
	e := Effective{Fmt: c.Fmt, Strat: c.Strat, Lvl: 6, WB: 15}
	if e.Fmt == "" || e.Fmt == "auto" {
		e.Fmt = "zlib"
	}
	if e.Strat == "" {
		e.Strat = "default"
	}
	if c.Lvl != nil && *c.Lvl >= 0 {
		e.Lvl = *c.Lvl
	}
	if c.WB != nil && *c.WB != 0 {
		e.WB = *c.WB
	}
	if c.Dict != nil && c.Dict.G != "" {
		e.dict = c.Dict.Bytes()
		e.HasDict, e.DictLen = true, len(e.dict)
	}
	return e
}

// HdrIn is a header for SetHeader.
type HdrIn struct {
	Name    []int      `json:"name"`
	Comment []int      `json:"comment"`
	Secs    int64      `json:"secs"`
	Zone    int        `json:"zone,omitempty"` // seconds east of UTC
	HasTime bool       `json:"hastime"`
	Text    string     `json:"text"` // "" = unknown
	OS      string     `json:"os"`   // "" = unknown
	Extra   []ExtraRec `json:"extra"`
	BigX    int        `json:"bigx,omitempty"` // an additional extra record of that many bytes
}

func (h *HdrIn) flate() flate.Header {
	o := flate.Header{FileName: string(Bytes(h.Name)), Comment: string(Bytes(h.Comment))}
	if h.HasTime {
		o.LastModified = time.Unix(h.Secs, 0)
		if h.Zone != 0 {
			o.LastModified = o.LastModified.In(time.FixedZone("", h.Zone))
		}
	}
	switch h.Text {
	case "text":
		o.DataType = flate.TextData
	case "binary":
		o.DataType = flate.BinaryData
	}
	if h.OS != "" {
		o.OSType = OSConst(h.OS)
	}
	for _, r := range h.Extra {
		o.ExtraData.Records = append(o.ExtraData.Records, flate.ExtraDataRecord{ID: [2]byte{byte(r.ID[0]), byte(r.ID[1])}, Bytes: Bytes(r.Bytes)})
	}
	if h.BigX > 0 {
		o.ExtraData.Records = append(o.ExtraData.Records, flate.ExtraDataRecord{ID: [2]byte{'b', 'x'}, Bytes: make([]byte, h.BigX)})
	}
	return o
}

// Flate is the header as a flate.Header.
func (h *HdrIn) Flate() flate.Header { return h.flate() }

// WOp is one operation on a Writer.
type WOp struct {
	T    string    `json:"t"`           // W F C H R
	D    *gen.Data `json:"d,omitempty"` // W
	F    string    `json:"f,omitempty"` // F: B P S F C
	H    *HdrIn    `json:"h,omitempty"`
	Cfg  *WCfg     `json:"cfg,omitempty"`  // R
	Sink *SinkSpec `json:"sink,omitempty"` // R: the new sink
}

// SinkSpec describes an underlying writer.
type SinkSpec struct {
	Kind string `json:"kind"` // plain flush sync both
	// the fault: the At-th call (0-based, counted over calls of kind K, "" = any) fails
	At   int    `json:"at"`
	K    string `json:"k"`
	Err  string `json:"err"`  // "" = no fault, SINK, EINVAL, PEINVAL (wrapped), otherErrs
	Part string `json:"part"` // how much of a failing write is accepted: none, some, all
	// Short makes every k-th write accept only half without an error
	Short int `json:"short,omitempty"`
}

// WriterCase is a sequence of operations.
type WriterCase struct {
	Cfg   WCfg     `json:"cfg"`
	Sink  SinkSpec `json:"sink"`
	Ops   []WOp    `json:"ops"`
	Ev    bool     `json:"ev"`
	RT    []string `json:"rt"` // Reader round trips: "auto", "same", "ml1" ...
	Twin  bool     `json:"twin"`
	Alone bool     `json:"alone,omitempty"` // compare the first epoch, too
	Bits  bool     `json:"bits"`            // small enough for the bit-exact judge
	// Expect = "compress": the data is so repetitive that it must shrink
	Expect string `json:"expect,omitempty"`
}

// Call is one call of the underlying writer.
type Call struct {
	K   string `json:"k"` // W F S C
	N   int    `json:"n"` // bytes accepted
	Err string `json:"err"`
}

// ErrSink is the sink's own error.
var ErrSink error = &srcError{"sink failure"}

type sinkCore struct {
	mu    sync.Mutex
	spec  SinkSpec
	buf   []byte
	calls []Call
	seen  map[string]int
	nw    int
}

func newCore(s SinkSpec) *sinkCore { return &sinkCore{spec: s, seen: map[string]int{}} }

// errors that something may treat in a way of its own
var otherErrs = []struct {
	name string
	err  error
}{
	{"PCLOSED", &fs.PathError{Op: "write", Path: "x", Err: fs.ErrClosed}}, {"EINTR", syscall.EINTR}, {"ENOTSUP", syscall.ENOTSUP}, {"ENOSYS", syscall.ENOSYS}, {"EROFS", syscall.EROFS},
	{"EIO", syscall.EIO}, {"EAGAIN", syscall.EAGAIN}, {"EPIPE", syscall.EPIPE}, {"EBADF", syscall.EBADF}, {"ErrInvalid", fs.ErrInvalid},
	{"EOF", io.EOF}, {"ErrShortWrite", io.ErrShortWrite}, {"ErrClosedPipe", io.ErrClosedPipe}, {"Canceled", context.Canceled},
}

// OtherErrs are their names.
func OtherErrs() (out []string) {
	for _, e := range otherErrs {
		out = append(out, e.name)
	}
	return
}

func faultErr(name string) error {
	switch name {
	case "EINVAL":
		return syscall.EINVAL
	case "PEINVAL":
		return &os.PathError{Op: "sync", Path: "x", Err: syscall.EINVAL}
	}
	for _, e := range otherErrs {
		if e.name == name {
			return e.err
		}
	}
	return ErrSink
}

// fault tells whether this call is the one to fail.
func (s *sinkCore) fault(kind string) error {
	k := s.seen[s.spec.K]
	if s.spec.K == "" || s.spec.K == kind {
		s.seen[s.spec.K]++
		if s.spec.Err != "" && k == s.spec.At {
			return faultErr(s.spec.Err)
		}
	}
	return nil
}

func (s *sinkCore) Write(p []byte) (int, error) {
	Stir()
	s.mu.Lock()
	defer s.mu.Unlock()
	err := s.fault("W")
	n := len(p)
	if err != nil {
		switch s.spec.Part {
		case "none":
			n = 0
		case "some":
			n = len(p) / 2
		}
	} else if s.spec.Short > 0 && len(p) > 1 {
		s.nw++
		if s.nw%s.spec.Short == 0 {
			n = len(p) / 2
		}
	}
	s.buf = append(s.buf, p[:n]...)
	s.calls = append(s.calls, Call{"W", n, WErr(err)})
	return n, err
}

func (s *sinkCore) flush() error {
	Stir()
	s.mu.Lock()
	defer s.mu.Unlock()
	err := s.fault("F")
	s.calls = append(s.calls, Call{"F", 0, WErr(err)})
	return err
}

func (s *sinkCore) sync() error {
	Stir()
	s.mu.Lock()
	defer s.mu.Unlock()
	err := s.fault("S")
	s.calls = append(s.calls, Call{"S", 0, WErr(err)})
	return err
}

func (s *sinkCore) Close() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.calls = append(s.calls, Call{"C", 0, "nil"})
	return nil
}

func (s *sinkCore) take() (int, []Call, []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.calls), append([]Call{}, s.calls...), append([]byte{}, s.buf...)
}

type sinkF struct{ *sinkCore }

func (s sinkF) Flush() error { return s.flush() }

type sinkS struct{ *sinkCore }

func (s sinkS) Sync() error { return s.sync() }

type sinkFS struct{ *sinkCore }

func (s sinkFS) Flush() error { return s.flush() }
func (s sinkFS) Sync() error  { return s.sync() }

func (s *sinkCore) writer() io.Writer {
	switch s.spec.Kind {
	case "flush":
		return sinkF{s}
	case "sync":
		return sinkS{s}
	case "both":
		return sinkFS{s}
	}
	return s
}

// WErr classifies an error of a Writer.
func WErr(err error) string {
	switch {
	case err == nil:
		return "nil"
	case errors.Is(err, ErrSink):
		return "SINK"
	case errors.Is(err, syscall.EINVAL):
		return "EINVAL"
	}
	for _, e := range otherErrs {
		if errors.Is(err, e.err) {
			return e.name
		}
	}
	if errors.Is(err, fs.ErrClosed) {
		return "CLOSED"
	}
	s := err.Error()
	if len(s) > 60 {
		s = s[:60]
	}
	return "OTHER:" + s
}

// OpObs is what was observed about one operation.
type OpObs struct {
	T     string `json:"t"`
	F     string `json:"f"`
	Len   int    `json:"len"` // of the data offered
	N     int    `json:"n"`
	Err   string `json:"err"`
	Calls []Call `json:"calls"`
	Kept  bool   `json:"kept"`  // the caller's slice was not modified
	Sunk  int    `json:"sunk"`  // bytes in the sink after the call
	Dec   int    `json:"dec"`   // bytes that a decoder recovers from these
	DecOK bool   `json:"decok"` // and they are a prefix of the data written
	Al    bool   `json:"al"`    // the output ends with an empty stored block, on a byte boundary
	Reach int    `json:"reach"` // smallest position that data after this point refers to (within the stream)
	Kind  string `json:"kind"`  // R: kind of the new sink
	HdrOK bool   `json:"hdrok"` // H: is representable
	H     HdrF   `json:"h"`     // H: the header
}

// HdrF is a header as the output should show it.
type HdrF struct {
	Name    []int  `json:"name"`
	Comment []int  `json:"comment"`
	MTime   Word   `json:"mtime"`
	Text    string `json:"text"` // "" = to be detected
	OS      string `json:"os"`   // "" = any
	Extra   []int  `json:"extra"`
}

func (h *HdrIn) f() HdrF {
	o := HdrF{Name: append([]int{}, h.Name...), Comment: append([]int{}, h.Comment...), Text: h.Text, OS: h.OS, Extra: []int{}}
	if h.HasTime {
		o.MTime = W32(uint32(h.Secs))
	}
	for _, r := range h.Extra {
		o.Extra = append(o.Extra, r.ID[0], r.ID[1], len(r.Bytes)%256, len(r.Bytes)/256)
		o.Extra = append(o.Extra, r.Bytes...)
	}
	if h.BigX > 0 {
		o.Extra = append(o.Extra, 'b', 'x', h.BigX%256, h.BigX/256)
		o.Extra = append(o.Extra, make([]int, h.BigX)...)
	}
	o.Extra, o.Name, o.Comment = digest(o.Extra), digest(o.Name), digest(o.Comment)
	return o
}

// digest replaces what comes after the start of a long sequence by the length
// and a sum of everything.
func digest(p []int) []int {
	if len(p) <= 300 {
		return p
	}
	h := fnv.New64a()
	for _, x := range p {
		h.Write([]byte{byte(x), byte(x >> 8)})
	}
	q := append([]int{}, p[:280]...)
	q = append(q, len(p))
	for v := h.Sum64(); v != 0; v >>= 16 {
		q = append(q, int(v&0xffff))
	}
	return q
}

var noHdrF = (&HdrIn{}).f()

// MemFacts describes one stream of the output.
type MemFacts struct {
	Fmt    string `json:"fmt"`
	Done   bool   `json:"done"`
	Start  int    `json:"start"` // offset of its data in the epoch's data
	N      int    `json:"n"`
	Size   int    `json:"size"`
	Hdr    int    `json:"hdr"` // bytes of header and trailer
	ZWB    int    `json:"zwb"`
	FLevel int    `json:"flevel"`
	FDict  bool   `json:"fdict"`
	XFL    int    `json:"xfl"`
	MTime  Word   `json:"mtime"`
	Text   bool   `json:"text"`
	OS     string `json:"os"`
	Name   []int  `json:"name"`
	Cmt    []int  `json:"comment"`
	Extra  []int  `json:"extra"`
	NCopy  int    `json:"ncopy"`
	MinD   int    `json:"mind"`
	MaxD   int    `json:"maxd"`
	MaxL   int    `json:"maxl"`
	Blocks int    `json:"blocks"`
	Stored int    `json:"stored"`  // stored blocks with data
	Static int    `json:"static"`  // compressed blocks ...
	Dyn    int    `json:"dynamic"` //
	SData  int    `json:"sdata"`   // data bytes in static and dynamic blocks
	IsText string `json:"istext"`  // of its data: text, binary (from the start), mixed
	Finals int    `json:"finals"`
}

// EpochObs is what was observed between two Resets.
type EpochObs struct {
	Cfg     Effective  `json:"cfg"`
	Kind    string     `json:"kind"`
	Ops     []OpObs    `json:"ops"`
	Written int        `json:"written"`
	Size    int        `json:"size"`
	Late    int        `json:"late"` // calls of the sink after the epoch ended
	Err     string     `json:"err"`  // strict decode of all the output
	Dec     int        `json:"dec"`
	DecOK   bool       `json:"decok"`
	Alts    int        `json:"alts"`
	Mem     []MemFacts `json:"mem"`
	Twin    string     `json:"twin"` // "", same, prefix, differs
	RT      []RTObs    `json:"rt"`
	Expect  string     `json:"expect"`
	Header  HdrF       `json:"header"` // at the start
	Offered int        `json:"offered"`
	B       []byte     `json:"b"` // the output (small cases)
	Want    []byte     `json:"want"`
	Ev      []Ev       `json:"ev"`
	Ev2     bool       `json:"ev2"`
}

// RTObs is the result of reading the output with the real Reader.
type RTObs struct {
	Via  string `json:"via"`
	Err  string `json:"err"`
	N    int    `json:"n"`
	Same bool   `json:"same"`
}

func isTextBytes(b []byte) bool {
	for _, c := range b {
		if c < 9 || (c > 13 && c < 32) || c == 127 {
			return false
		}
	}
	return true
}

type copyRec struct{ pos, lo int }

// RunWriter runs the case.
func RunWriter(c *WriterCase) []EpochObs {
	var eps []EpochObs
	var cores []*sinkCore
	var lateAt []int
	cfg := c.Cfg
	core := newCore(c.Sink)
	var rec, rec2 Rec
	opts := append([]flate.Option{}, cfg.Opts()...)
	if c.Ev {
		opts = append(opts, flate.WithTracers(&rec, &rec2))
	}
	fw := flate.NewWriter(core.writer(), opts...)
	var hdr HdrIn
	i := 0
	for {
		j := i
		for j < len(c.Ops) && c.Ops[j].T != "R" {
			j++
		}
		h0 := hdr
		rec.Drop()
		rec2.Drop()
		ops := append([]WOp{}, c.Ops[i:j]...)
		ep, want, offered := runEpoch(fw, core, &ops, &hdr, j < len(c.Ops))
		ep.Cfg = cfg.Effective()
		ep.Kind, ep.Expect = core.spec.Kind, c.Expect
		ep.Ev = rec.Take()
		ep.Ev2 = sameEvs(ep.Ev, rec2.Take()) && rec.Kept()
		ep.Header = h0.f()
		n, _, b := core.take()
		cores, lateAt = append(cores, core), append(lateAt, n)
		facts(c, &ep, b, want, offered)
		if c.Bits {
			ep.B, ep.Want = b, want
		}
		failed := false
		for _, o := range ep.Ops {
			if o.T != "H" && o.Err != "nil" && o.Err != "CLOSED" {
				failed = true
			}
		}
		if c.Twin && (len(eps) > 0 || failed || c.Alone) {
			quiet(func() { ep.Twin = twin(cfg, core.spec, ops, h0, b, failed) })
		}
		eps = append(eps, ep)
		if j >= len(c.Ops) {
			break
		}
		op := c.Ops[j]
		sp := SinkSpec{Kind: "plain"}
		if op.Sink != nil {
			sp = *op.Sink
		}
		core = newCore(sp)
		var ro []flate.Option
		if op.Cfg != nil {
			ro = op.Cfg.Opts()
			cfg = cfg.Merge(*op.Cfg)
		}
		fw.Reset(core.writer(), ro...)
		i = j + 1
	}
	for k := range eps {
		n, _, _ := cores[k].take()
		eps[k].Late = n - lateAt[k]
	}
	return eps
}

// runEpoch performs the operations; it gives the data accepted and offered.
// If a Reset follows and the stream is open, a Close is added.
func runEpoch(fw *flate.Writer, core *sinkCore, pops *[]WOp, hdr *HdrIn, reset bool) (ep EpochObs, want, offered []byte) {
	ep.Ops = []OpObs{}
	ep.Mem, ep.RT = []MemFacts{}, []RTObs{}
	open, failed := false, false
	for k := 0; ; k++ {
		ops := *pops
		if k == len(ops) {
			if !reset || !open || failed {
				break
			}
			ops = append(ops, WOp{T: "C"})
			*pops = ops
		}
		op := ops[k]
		Stir()
		n0, _, _ := core.take()
		o := OpObs{T: op.T, F: op.F, Calls: []Call{}, Kept: true, Reach: -1, H: noHdrF}
		var err error
		switch op.T {
		case "W":
			d := []byte{}
			if op.D != nil {
				d = op.D.Bytes()
			}
			keep := append([]byte{}, d...)
			var n int
			n, err = fw.Write(d)
			o.Len, o.N = len(d), n
			o.Kept = bytes.Equal(d, keep)
			for k := range d { // the Writer must not look at it any more
				d[k] ^= 0x5a
			}
			if err == nil {
				want = append(want, keep...)
				offered = append(offered, keep...)
				open = open || len(d) > 0
			} else if !failed && WErr(err) != "CLOSED" {
				offered = append(offered, keep...)
				if n > 0 && n <= len(keep) {
					want = append(want, keep[:n]...)
				}
			}
		case "F":
			err = fw.Flush(flushes[op.F])
			if op.F == "C" && err == nil {
				open = false
			}
		case "C":
			err = fw.Close()
			open = false
			if err == nil {
				failed = false
			}
		case "H":
			if e := fw.SetHeader(op.H.flate()); e != nil {
				o.Err = "REJECTED"
			} else {
				*hdr = *op.H
			}
			o.HdrOK = op.H.representable()
			o.H = op.H.f()
		case "A": // accessors have no effect
			fw.Format()
			fw.Dict()
			fw.Tracers()
			fw.UnderlyingWriter()
		}
		if o.Err == "" {
			o.Err = WErr(err)
		}
		if err != nil && WErr(err) != "CLOSED" {
			failed = true
		}
		_, calls, b := core.take()
		o.Calls = append(o.Calls, calls[n0:]...)
		o.Sunk = len(b)
		ep.Ops = append(ep.Ops, o)
	}
	ep.Written, ep.Offered = len(want), len(offered)
	return ep, want, offered
}

var flushes = map[string]flate.FlushType{"B": flate.BlockFlush, "P": flate.PartialFlush, "S": flate.SyncFlush, "F": flate.FullFlush, "C": flate.FinishFlush}

// representable: can a gzip header hold it (and does the documentation accept it)?
func (h *HdrIn) representable() bool {
	n, c := Bytes(h.Name), Bytes(h.Comment)
	if len(n) >= 256 || len(c) >= 256 || bytes.IndexByte(n, 0) >= 0 || bytes.IndexByte(c, 0) >= 0 ||
		bytes.IndexByte(n, '/') >= 0 || bytes.IndexByte(n, '\\') >= 0 {
		return false
	}
	if h.HasTime && (h.Secs < 0 || h.Secs >= 1<<32-1) {
		return false
	}
	if h.OS != "" && OSConst(h.OS) > 60 {
		return false
	}
	x := 0
	for _, r := range h.Extra {
		x += 4 + len(r.Bytes)
	}
	if h.BigX > 0 {
		x += 4 + h.BigX
	}
	return x <= 65535
}

// facts decodes the output with the oracle.
func facts(c *WriterCase, ep *EpochObs, b, want, offered []byte) {
	e := ep.Cfg
	cfg := oracle.Config{Fmt: e.Fmt, WBits: e.WB, Dict: e.dict}
	for k := range ep.Ops {
		o := &ep.Ops[k]
		if o.T != "F" && o.T != "C" {
			continue
		}
		if o.Sunk > 0 || len(b) == 0 {
			r := oracle.Decode(b[:o.Sunk], cfg)
			o.Dec = len(r.Out) + len(r.Part)
			o.DecOK = bytes.HasPrefix(offered, r.Out) && bytes.HasPrefix(offered[len(r.Out):], r.Part) && r.Err != oracle.CORRUPT
			if m := len(r.Members); m > 0 && !r.Members[m-1].Done {
				bl := r.Members[m-1].Blocks
				k := len(bl) - 1
				for k >= 0 && !bl[k].Done {
					k--
				}
				if k >= 0 {
					x := bl[k]
					o.Al = x.Typ == "stored" && x.OutStart == x.OutEnd && x.EndBit == 8*o.Sunk
				}
			}
		} else {
			o.DecOK = true
		}
	}
	var copies [][]copyRec
	cfg.OnCopy = func(mp, pos, dist, length int) { copies = append(copies, []copyRec{{pos, pos - dist}}) }
	r := oracle.Decode(b, cfg)
	ep.Size = len(b)
	ep.Err, ep.Dec, ep.Alts = r.Err, len(r.Out), len(r.Alts)
	got := append(append([]byte{}, r.Out...), r.Part...)
	ep.DecOK = bytes.HasPrefix(offered, got) && r.Err != oracle.CORRUPT
	for k := range ep.Ops {
		o := &ep.Ops[k]
		if o.T != "F" || o.F != "F" || o.Err != "nil" {
			continue
		}
		// the stream in which the flush took place and the position in the data
		for mi := range r.Members {
			m := &r.Members[mi]
			if m.Start < o.Sunk && (!m.Done || o.Sunk <= m.End) {
				p := o.Dec
				o.Reach = p
				end := m.OutEnd
				if !m.BlocksDone {
					end = 1 << 30
				}
				for _, cr := range copies {
					if cr[0].pos >= p && cr[0].pos < end && cr[0].lo < o.Reach {
						o.Reach = cr[0].lo
					}
				}
			}
		}
	}
	for mi := range r.Members {
		m := &r.Members[mi]
		f := MemFacts{Fmt: m.Fmt, Done: m.Done, Start: m.OutStart, N: max0(m.OutEnd - m.OutStart), Size: max0(m.End - m.Start), ZWB: m.Hdr.WBits, FLevel: m.Hdr.FLevel,
			FDict: m.Hdr.FDict, XFL: int(m.Hdr.XFL), MTime: W32(m.Hdr.MTime), Text: m.Hdr.Text, OS: "unknown", Name: Ints(m.Hdr.Name), Cmt: Ints(m.Hdr.Comment),
			Extra: Ints(m.Hdr.RawExtra), Blocks: len(m.Blocks), MinD: 1 << 20}
		f.Hdr = (m.Body - m.Start) + (m.End - m.BodyEnd)
		if m.Hdr.OS <= 13 {
			f.OS = OSNames[m.Hdr.OS+1]
		}
		for _, bl := range m.Blocks {
			if !bl.Done {
				continue
			}
			f.NCopy += bl.NCopy
			if bl.NCopy > 0 {
				if bl.MinDist < f.MinD {
					f.MinD = bl.MinDist
				}
				if bl.MaxDist > f.MaxD {
					f.MaxD = bl.MaxDist
				}
				if bl.MaxLen > f.MaxL {
					f.MaxL = bl.MaxLen
				}
			}
			data := bl.OutEnd > bl.OutStart
			switch {
			case bl.Typ == "stored" && data:
				f.Stored++
			case bl.Typ == "static":
				if data {
					f.Static++
					f.SData += bl.OutEnd - bl.OutStart
				}
			case bl.Typ == "dynamic":
				f.Dyn++
				f.SData += bl.OutEnd - bl.OutStart
			}
			if bl.Final {
				f.Finals++
			}
		}
		for _, p := range []*[]int{&f.Extra, &f.Name, &f.Cmt} {
			*p = digest(*p)
		}
		f.IsText = "mixed"
		if m.OutEnd <= len(r.Out) && m.OutEnd > m.OutStart {
			d := r.Out[m.OutStart:m.OutEnd]
			// its start: at most 256 bytes, and of one Write
			pos, lim := 0, m.OutStart+256
			for _, o := range ep.Ops {
				if o.T == "W" {
					pos += o.Len
				}
				if pos > m.OutStart && pos < lim {
					lim = pos
				}
			}
			start := d
			if n := lim - m.OutStart; n < len(start) {
				start = start[:n]
			}
			if isTextBytes(d) {
				f.IsText = "text"
			} else if !isTextBytes(start) {
				f.IsText = "binary"
			}
		}
		ep.Mem = append(ep.Mem, f)
	}
	for _, via := range c.RT {
		ep.RT = append(ep.RT, roundTrip(via, &e, b, want))
	}
}

func roundTrip(via string, e *Effective, b, want []byte) RTObs {
	opts := []flate.Option{flate.WithFormat(Fmts[e.Fmt]), flate.WithWindowBits(flate.WindowBits(e.WB))}
	if e.HasDict {
		opts = append(opts, flate.WithDictionary(e.dict))
	}
	src := &Seg{B: b, Mode: "all", Err: io.EOF, Rng: rand.New(rand.NewSource(int64(len(b))))}
	rs := "big"
	switch via {
	case "auto":
		opts = append(opts, flate.WithFormat(flate.DefaultFormat))
	case "ml1":
		opts = append(opts, flate.WithMemoryLevel(1))
		src.Mode, rs = "rand", "rand"
	case "wide":
		opts = append(opts, flate.WithWindowBits(15), flate.WithMemoryLevel(9))
		src.Mode = "randeof"
	}
	r := flate.NewReader(src, opts...)
	out, err, _ := ReadAll(r, rs, fork(src.Rng))
	r.Close()
	return RTObs{Via: via, Err: ErrClass(err), N: len(out), Same: bytes.Equal(out, want)}
}

// twin runs the epoch on a fresh Writer whose sink does not fail.
func twin(cfg WCfg, sp SinkSpec, ops []WOp, h HdrIn, b []byte, failed bool) string {
	core := newCore(SinkSpec{Kind: sp.Kind})
	fw := flate.NewWriter(core.writer(), cfg.Opts()...)
	if err := fw.SetHeader(h.flate()); err != nil {
		return fmt.Sprint("SetHeader: ", err)
	}
	hh := h
	runEpoch(fw, core, &ops, &hh, false)
	_, _, tb := core.take()
	if failed {
		if bytes.HasPrefix(tb, b) {
			return "prefix"
		}
		return "differs"
	}
	if bytes.Equal(tb, b) {
		return "same"
	}
	return "differs"
}

func max0(x int) int {
	if x < 0 {
		return 0
	}
	return x
}
