package conc

import (
	"bytes"
	"io"
	"math/rand"
	"sync/atomic"

	"github.com/chronos-tachyon/flate"
	"github.com/chronos-tachyon/flate/verifharness/oracle"
	"github.com/chronos-tachyon/flate/verifharness/run"
	"github.com/chronos-tachyon/flate/verifharness/vsync"
)

// WCase is a program for one or more Writers.
type WCase struct {
	Cfg     run.WCfg `json:"cfg"`
	Sink    string   `json:"sink"` // plain flush sync both
	Fail    int      `json:"fail"` // the call of the sink that fails, -1 = none
	Threads [][]Op   `json:"threads"`
	Writers int      `json:"writers"` // thread i uses Writer i mod Writers
	Rep     bool     `json:"rep"`     // repetitive data
	Tr      bool     `json:"tr"`      // with a tracer
	Ex      Explore  `json:"ex"`
}

// WOp is a call in a history. The data of the k-th operation starts with the
// byte k; so ids are 1-based positions in Ops.
type WOp struct {
	Th  int    `json:"th"`
	T   string `json:"t"`
	F   string `json:"f"`
	Len int    `json:"len"`
	N   int    `json:"n"`
	E   string `json:"e"`
	Dec int    `json:"dec"` // bytes recoverable from the output when the call returned
	Ret bool   `json:"ret"`
	OK  bool   `json:"ok"`
	cut int
}

// WHist is one history of one Writer.
type WHist struct {
	Ops     []WOp    `json:"ops"`
	Ev      [][2]int `json:"ev"`
	Order   []int    `json:"order"`  // operations whose data the output holds, in order
	Part    int      `json:"part"`   // bytes of one more (truncated) after them
	PartID  int      `json:"partid"` // which one
	Torn    bool     `json:"torn"`   // the data is not made of whole writes
	Starts  []int    `json:"starts"` // where in the data the streams begin
	Hdrs    []int    `json:"hdrs"`   // operation that set the header, 0 = none
	Err     string   `json:"err"`
	Alts    int      `json:"alts"`
	Size    int      `json:"size"`
	Failed  bool     `json:"failed"` // the sink failed
	Late    int      `json:"late"`   // calls of the sink after that or after Close
	Overlap int      `json:"overlap"`
	Live    int      `json:"live"`
	Fault   string   `json:"fault"`
	Fmt     string   `json:"fmt"`
}

type wsink struct {
	buf     []byte
	calls   int
	fail    int
	busy    int32
	overlap int
	failed  bool
	closed  int32
	late    int
}

func (s *wsink) call(f func() (int, error)) (int, error) {
	if atomic.AddInt32(&s.busy, 1) != 1 {
		s.overlap++
	}
	defer atomic.AddInt32(&s.busy, -1)
	vsync.Yield()
	if s.failed || atomic.LoadInt32(&s.closed) != 0 {
		s.late++
	}
	k := s.calls
	s.calls++
	if k == s.fail {
		s.failed = true
		return 0, run.ErrSink
	}
	n, err := f()
	vsync.Yield()
	return n, err
}

func (s *wsink) Write(p []byte) (int, error) {
	return s.call(func() (int, error) {
		s.buf = append(s.buf, p...)
		return len(p), nil
	})
}

func (s *wsink) other() error {
	_, err := s.call(func() (int, error) { return 0, nil })
	return err
}

type wsinkF struct{ *wsink }

func (s wsinkF) Flush() error { return s.other() }

type wsinkS struct{ *wsink }

func (s wsinkS) Sync() error { return s.other() }

type wsinkFS struct{ *wsink }

func (s wsinkFS) Flush() error { return s.other() }
func (s wsinkFS) Sync() error  { return s.other() }

var flushTypes = map[string]flate.FlushType{"B": flate.BlockFlush, "P": flate.PartialFlush, "S": flate.SyncFlush, "F": flate.FullFlush, "C": flate.FinishFlush}

// busyTracer finds out whether events overlap.
type busyTracer struct {
	s    *wsink
	busy int32
}

func (t *busyTracer) OnEvent(flate.Event) {
	if atomic.AddInt32(&t.busy, 1) != 1 {
		t.s.overlap++
	}
	vsync.Yield()
	atomic.AddInt32(&t.busy, -1)
}

func opData(id, n int, rep bool) []byte {
	out := make([]byte, n)
	rng := rand.New(rand.NewSource(int64(id)))
	for i := range out {
		if rep {
			out[i] = byte(i / 7)
		} else {
			out[i] = byte(rng.Intn(256))
		}
	}
	if n > 0 {
		out[0] = byte(id)
	}
	return out
}

// RunW runs a Writer case.
func RunW(c *WCase) *Result {
	eff := c.Cfg.Effective()
	decode := func(b []byte) *oracle.Result {
		oc := oracle.Config{Fmt: eff.Fmt, WBits: eff.WB}
		if c.Cfg.Dict != nil && c.Cfg.Dict.G != "" {
			oc.Dict = c.Cfg.Dict.Bytes()
		}
		return oracle.Decode(b, oc)
	}
	ref := flate.NewWriter(io.Discard, c.Cfg.Opts()...)
	strategy, mlevel := ref.Strategy(), ref.MemoryLevel()
	nw := c.Writers
	if nw < 1 {
		nw = 1
	}
	return drive(c.Ex, nil, func() ([]func(), func(string, int) ([]interface{}, bool)) {
		hs := make([]hist, nw)
		ops := make([][64]WOp, nw)
		sinks := make([]*wsink, nw)
		fws := make([]*flate.Writer, nw)
		under := make([]io.Writer, nw)
		for i := range fws {
			sinks[i] = &wsink{fail: c.Fail}
			var w io.Writer = sinks[i]
			switch c.Sink {
			case "flush":
				w = wsinkF{sinks[i]}
			case "sync":
				w = wsinkS{sinks[i]}
			case "both":
				w = wsinkFS{sinks[i]}
			}
			under[i] = w
			opts := c.Cfg.Opts()
			if c.Tr {
				opts = append(opts, flate.WithTracers(&busyTracer{s: sinks[i]}))
			}
			fws[i] = flate.NewWriter(w, opts...)
		}
		one := func(th int, o Op) {
			x := th % nw
			fw, h := fws[x], &hs[x]
			i := h.call()
			r := &ops[x][i]
			*r = WOp{Th: th, T: o.T, F: o.F, Len: o.N, E: "nil", OK: true, cut: -1}
			switch o.T {
			case "W":
				p := opData(i+1, o.N, c.Rep)
				q := append([]byte{}, p...)
				n, err := fw.Write(p)
				r.N, r.E = n, run.WErr(err)
				r.OK = bytes.Equal(p, q)
			case "F":
				r.E = run.WErr(fw.Flush(flushTypes[o.F]))
			case "C":
				r.E = run.WErr(fw.Close())
				atomic.StoreInt32(&sinks[x].closed, 1)
			case "H":
				r.E = run.WErr(fw.SetHeader(flate.Header{FileName: string([]byte{'h', byte('0' + i)}), OSType: flate.OSTypeUnix}))
			case "A":
				r.OK = fw.Format() == run.Fmts[eff.Fmt] && int(fw.WindowBits()) == eff.WB && int(fw.CompressLevel()) == eff.Lvl &&
					fw.Strategy() == strategy && fw.MemoryLevel() == mlevel && fw.Method() == flate.DefaultMethod &&
					len(fw.Dict()) == 0 && (len(fw.Tracers()) == 1) == c.Tr && fw.UnderlyingWriter() == under[x]
			}
			if vsync.Managed && (o.T == "F" || o.T == "C") {
				r.cut = len(sinks[x].buf)
			}
			r.Ret = true
			h.ret(i)
		}
		fin := make([]bool, len(c.Threads))
		var progs []func()
		for th := range c.Threads {
			th := th
			progs = append(progs, func() {
				for _, o := range c.Threads[th] {
					one(th, o)
				}
				fin[th] = true
			})
		}
		return progs, func(fault string, live int) ([]interface{}, bool) {
			f, live := verdict(fault, live, fin)
			var out []interface{}
			for x := range fws {
				n := hs[x].n
				w := &WHist{Ops: append([]WOp{}, ops[x][:n]...), Ev: hs[x].ev, Fault: f, Live: live, Fmt: eff.Fmt, Order: []int{}, Starts: []int{}, Hdrs: []int{}}
				if f == "" {
					w.finish(sinks[x], decode, c.Rep)
				}
				to, ev := canon(n, func(i int) int { return w.Ops[i].Th }, w.Ev)
				sorted := make([]WOp, n)
				for i := range to {
					sorted[to[i]] = w.Ops[i]
				}
				w.Ops, w.Ev = sorted, ev
				for i, o := range w.Order {
					w.Order[i] = to[o-1] + 1
				}
				for i, o := range w.Hdrs {
					if o > 0 {
						w.Hdrs[i] = to[o-1] + 1
					}
				}
				if w.PartID > 0 {
					w.PartID = to[w.PartID-1] + 1
				}
				out = append(out, w)
			}
			return out, f != ""
		}
	})
}

func (w *WHist) finish(s *wsink, decode func([]byte) *oracle.Result, rep bool) {
	w.Failed, w.Late, w.Overlap = s.failed, s.late, s.overlap
	res := decode(s.buf)
	w.Err, w.Alts, w.Size = res.Err, len(res.Alts), len(s.buf)
	if w.Err != oracle.EOF {
		w.Alts = 0
	}
	data := append(append([]byte{}, res.Out...), res.Part...)
	for p := 0; p < len(data); {
		id := int(data[p])
		if id < 1 || id > len(w.Ops) || w.Ops[id-1].T != "W" || w.Ops[id-1].Len == 0 {
			w.Torn = true
			break
		}
		d := opData(id, w.Ops[id-1].Len, rep)
		if left := len(data) - p; left < len(d) {
			if !bytes.Equal(data[p:], d[:left]) {
				w.Torn = true
			} else {
				w.Part, w.PartID = left, id
			}
			break
		}
		if !bytes.Equal(data[p:p+len(d)], d) {
			w.Torn = true
			break
		}
		w.Order = append(w.Order, id)
		p += len(d)
	}
	for i := range res.Members {
		m := &res.Members[i]
		if !m.HdrDone {
			continue
		}
		w.Starts = append(w.Starts, m.OutStart)
		h := 0
		if len(m.Hdr.Name) == 2 {
			h = int(m.Hdr.Name[1]-'0') + 1
		}
		w.Hdrs = append(w.Hdrs, h)
	}
	for i := range w.Ops {
		o := &w.Ops[i]
		o.Dec = -1
		if o.cut >= 0 {
			r := decode(s.buf[:o.cut])
			o.Dec = len(r.Out) + len(r.Part)
		}
	}
}
