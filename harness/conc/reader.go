// Package conc runs small programs of concurrent calls on one Reader or Writer
// and records the histories; the schedules are controlled by vsync if the
// code was built for it.
package conc

import (
	"bytes"
	"encoding/json"
	"io"
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/chronos-tachyon/flate"
	"github.com/chronos-tachyon/flate/verifharness/run"
	"github.com/chronos-tachyon/flate/verifharness/vsync"
)

// Op is one call of a program.
type Op struct {
	T string `json:"t"` // R read, RA read until error, C close, X reset, A accessors; W write, F flush, H set header
	N int    `json:"n,omitempty"`
	F string `json:"f,omitempty"`
}

// Explore says which schedules to run.
type Explore struct {
	Bound int   `json:"bound"` // up to this number of preemptions, exhaustively if Max allows
	Max   int   `json:"max"`   // executions of that kind
	Rand  int   `json:"rand"`  // random executions
	Seed  int64 `json:"seed"`
	Sched []int `json:"sched,omitempty"` // replay this one
}

// Src is one source of a Reader.
type Src struct {
	B       []byte `json:"b"`
	Fmt     string `json:"fmt"`
	WB      int    `json:"wb"`
	ML      int    `json:"ml"`
	Dict    []byte `json:"dict,omitempty"`
	HasDict bool   `json:"hasdict,omitempty"`
	SrcErr  string `json:"srcerr,omitempty"`
	Seg     string `json:"seg"`
	NoOpts  bool   `json:"noopts,omitempty"` // Reset without options (they equal the previous ones)
	More    []byte `json:"more,omitempty"`   // after B this comes again and again: the source never ends
	// expectation, filled in by the family
	Data []byte `json:"data"`
}

// RCase is a program for a Reader.
type RCase struct {
	Srcs    []Src   `json:"srcs"`
	Threads [][]Op  `json:"threads"`
	Ex      Explore `json:"ex"`
	Tr      bool    `json:"tr,omitempty"` // with a tracer
	Ends    bool    `json:"ends"`         // the program reads to the end or closes: no goroutine may be left
}

// ROp is a call in a history.
type ROp struct {
	Th  int    `json:"th"`
	T   string `json:"t"`
	M   int    `json:"m"`
	N   int    `json:"n"`
	E   string `json:"e"`
	At  []int  `json:"at"` // where in the data of which source the bytes are found
	Ret bool   `json:"ret"`
	OK  bool   `json:"ok"`
}

// RHist is one history.
type RHist struct {
	Ops   []ROp    `json:"ops"`
	Ev    [][2]int `json:"ev"` // [operation, 0 call or 1 return]
	Late  int      `json:"late"`
	Live  int      `json:"live"`
	Fault string   `json:"fault"`
	Sched []int    `json:"-"`
}

// Result of a case: the distinct histories, with how often and one schedule.
type Result struct {
	H         []json.RawMessage `json:"h"`
	Sched     [][]int           `json:"sched"`
	Count     []int             `json:"count"`
	Runs      int               `json:"runs"`
	Steps     int               `json:"steps"`
	Exhausted int               `json:"exhausted"` // preemption bound fully explored, -1 none
}

func (r *Result) add(idx map[string]int, h interface{}, sched []int) {
	b, err := json.Marshal(h)
	if err != nil {
		panic(err)
	}
	if i, ok := idx[string(b)]; ok {
		r.Count[i]++
		return
	}
	idx[string(b)] = len(r.H)
	r.H = append(r.H, b)
	r.Sched = append(r.Sched, sched)
	r.Count = append(r.Count, 1)
}

// drive runs all schedules asked for; one(s) prepares one execution: the
// programs, what to do at its end, and whether it was faulty.
//
// lingers says whether a goroutine may still be there (nil: no).
func drive(ex Explore, lingers func() bool, mk func() (progs []func(), done func(fault string, live int) (h []interface{}, fatal bool))) *Result {
	res := &Result{Exhausted: -1}
	idx := map[string]int{}
	if !vsync.Managed {
		for k := 0; k < ex.Rand; k++ {
			progs, done := mk()
			fault, live := free(progs, lingers)
			h, fatal := done(fault, live)
			for _, x := range h {
				res.add(idx, x, nil)
			}
			res.Runs++
			if fatal {
				return res
			}
		}
		return res
	}
	exec := func(e *vsync.Explorer) bool {
		if !e.Begin() {
			return false
		}
		progs, done := mk()
		s := &vsync.Sched{Choose: e.Choose, MaxSteps: 200000}
		s.Run(progs)
		sched := e.Schedule()
		h, fatal := done(s.Fault, s.Live)
		for _, x := range h {
			res.add(idx, x, sched)
		}
		res.Runs++
		res.Steps += s.Steps
		e.End()
		return !fatal
	}
	if ex.Sched != nil {
		exec(vsync.Replayer(ex.Sched))
		return res
	}
	left := ex.Max
	for b := 0; b <= ex.Bound && left > 0; b++ {
		e := vsync.NewExplorer(b, ex.Seed)
		for left > 0 {
			left--
			if !exec(e) {
				if !e.Exhausted {
					return res // fatal
				}
				res.Exhausted = b
				break
			}
		}
	}
	e := vsync.NewExplorer(0, ex.Seed)
	e.Random()
	for k := 0; k < ex.Rand; k++ {
		if !exec(e) {
			return res
		}
	}
	return res
}

// free runs the programs without control over the schedule.
func free(progs []func(), lingers func() bool) (fault string, live int) {
	before := runtime.NumGoroutine()
	var wg sync.WaitGroup
	for _, p := range progs {
		wg.Add(1)
		go func(p func()) { defer wg.Done(); p() }(p)
	}
	ch := make(chan bool)
	go func() { wg.Wait(); close(ch) }()
	select {
	case <-ch:
	case <-time.After(20 * time.Second):
		return "deadlock", 0
	}
	for k := 0; ; k++ {
		live = runtime.NumGoroutine() - before
		if live <= 0 || k > 400 || k > 50 && live == 1 && lingers != nil && lingers() {
			break
		}
		if k < 100 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Duration(k) * 50 * time.Microsecond)
		}
	}
	if live < 0 {
		live = 0
	}
	return "", live
}

// hist collects call and return events of any kind of operation.
type hist struct {
	mu sync.Mutex
	ev [][2]int
	n  int
}

func (h *hist) call() int {
	h.mu.Lock()
	defer h.mu.Unlock()
	i := h.n
	h.n++
	h.ev = append(h.ev, [2]int{i, 0})
	return i
}

func (h *hist) ret(i int) {
	h.mu.Lock()
	h.ev = append(h.ev, [2]int{i, 1})
	h.mu.Unlock()
}

// source is a Seg that yields and notices late use.
type source struct {
	run.Seg
	dead int32
	late *int32
	more []byte
	at   int   // in the repetitions of more
	give int   // that often before it waits for stop
	left int   // that often from then on
	stop int32 // a Close or Reset has begun
}

func (s *source) Read(p []byte) (int, error) {
	vsync.Yield()
	if atomic.LoadInt32(&s.dead) != 0 {
		atomic.AddInt32(s.late, 1)
	}
	var n int
	var err error
	if len(s.Seg.B) > 0 || s.more == nil {
		n, err = s.Seg.Read(p)
		if s.more != nil {
			err = nil
		}
	} else {
		n = s.endless(p)
	}
	vsync.Yield()
	return n, err
}

// endless gives more of what never ends. A Reader that nobody stops may take
// as much of it as it likes, if it lets others run; one that is to stop must do
// so before long.
func (s *source) endless(p []byte) int {
	if s.give > 0 {
		s.give--
	} else {
		vsync.Await(func() bool { return atomic.LoadInt32(&s.stop) != 0 })
		if s.left--; s.left < 1990 {
			vsync.Fair()
		}
		if s.left < 0 {
			if !vsync.Managed {
				select {}
			}
			vsync.Await(func() bool { return false })
		}
	}
	for i := range p {
		p[i] = s.more[s.at%len(s.more)]
		s.at++
	}
	return len(p)
}

func (s *Src) open(seed int64, late *int32) *source {
	e := io.EOF
	if s.SrcErr != "" {
		e = run.ErrSrc
	}
	return &source{Seg: run.Seg{B: s.B, Mode: s.Seg, Err: e, Rng: rand.New(rand.NewSource(seed))}, late: late, more: s.More, give: 30, left: 2000}
}

func (s *Src) opts() []flate.Option {
	o := []flate.Option{flate.WithFormat(run.Fmts[s.Fmt]), flate.WithMemoryLevel(flate.MemoryLevel(s.ML)), flate.WithWindowBits(flate.WindowBits(s.WB))}
	if s.HasDict {
		o = append(o, flate.WithDictionary(s.Dict))
	} else {
		o = append(o, flate.WithDictionary(nil))
	}
	return o
}

func found(data, p []byte) []int {
	out := []int{}
	if len(p) == 0 {
		return out
	}
	for i := 0; i+len(p) <= len(data) && len(out) < 64; i++ {
		j := bytes.Index(data[i:], p)
		if j < 0 {
			break
		}
		i += j
		out = append(out, i)
	}
	return out
}

type countTracer struct{ n int32 }

func (t *countTracer) OnEvent(flate.Event) { atomic.AddInt32(&t.n, 1) }

// RunR runs a Reader case.
func RunR(c *RCase) *Result {
	var open bool // as far as a single program knows, the Reader is at work
	var lingers func() bool
	if len(c.Threads) == 1 {
		lingers = func() bool { return open }
	}
	return drive(c.Ex, lingers, func() ([]func(), func(string, int) ([]interface{}, bool)) {
		open = true
		var h hist
		var late, epoch int32
		var ops [96]ROp
		srcs := make([]*source, len(c.Srcs))
		for i := range c.Srcs {
			srcs[i] = c.Srcs[i].open(c.Ex.Seed, &late)
		}
		opts := c.Srcs[0].opts()
		if c.Tr {
			opts = append(opts, flate.WithTracers(&countTracer{}))
		}
		fr := flate.NewReader(srcs[0], opts...)
		one := func(th int, o Op) bool {
			i := h.call()
			if i >= len(ops) {
				h.ret(i)
				return false
			}
			r := &ops[i]
			*r = ROp{Th: th, T: o.T, M: o.N, E: "nil", At: []int{}, OK: true}
			more := true
			switch o.T {
			case "R":
				p := make([]byte, o.N)
				n, err := fr.Read(p)
				r.N, r.E = n, rErr(err)
				if n < 0 || n > len(p) {
					r.OK = false
				} else {
					r.At = found(c.Srcs[atomic.LoadInt32(&epoch)].Data, p[:n])
				}
				more = err == nil
			case "C":
				atomic.StoreInt32(&srcs[atomic.LoadInt32(&epoch)].stop, 1)
				r.E = rErr(fr.Close())
				atomic.StoreInt32(&srcs[atomic.LoadInt32(&epoch)].dead, 1)
			case "X":
				s := &c.Srcs[o.N]
				atomic.StoreInt32(&srcs[atomic.LoadInt32(&epoch)].stop, 1)
				if s.NoOpts {
					fr.Reset(srcs[o.N])
				} else {
					fr.Reset(srcs[o.N], s.opts()...)
				}
				atomic.StoreInt32(&srcs[atomic.LoadInt32(&epoch)].dead, 1)
				atomic.StoreInt32(&epoch, int32(o.N))
			case "A":
				s := &c.Srcs[atomic.LoadInt32(&epoch)]
				r.OK = fr.Format() == run.Fmts[s.Fmt] && int(fr.WindowBits()) == s.WB && int(fr.MemoryLevel()) == s.ML &&
					bytes.Equal(fr.Dict(), s.Dict) && (len(fr.Tracers()) == 1) == c.Tr
			}
			r.Ret = true
			h.ret(i)
			if lingers != nil {
				switch {
				case o.T == "X":
					open = true
				case o.T == "C" || !more:
					open = false
				}
			}
			return more
		}
		var progs []func()
		fin := make([]bool, len(c.Threads))
		var left int32 = int32(len(c.Threads))
		for th := range c.Threads {
			th := th
			progs = append(progs, func() {
				for _, o := range c.Threads[th] {
					if o.T == "RA" {
						for k := 0; k < 40 && one(th, Op{T: "R", N: o.N}); k++ {
						}
						continue
					}
					if o.T == "J" { // until the other programs have ended
						vsync.Await(func() bool { return atomic.LoadInt32(&left) == 1 })
						continue
					}
					one(th, o)
				}
				fin[th] = true
				atomic.AddInt32(&left, -1)
			})
		}
		return progs, func(fault string, live int) ([]interface{}, bool) {
			n := h.n
			if n > len(ops) {
				n = len(ops)
			}
			f, live := verdict(fault, live, fin)
			to, ev := canon(n, func(i int) int { return ops[i].Th }, h.ev)
			sorted := make([]ROp, n)
			for i := range to {
				sorted[to[i]] = ops[i]
			}
			return []interface{}{&RHist{Ops: sorted, Ev: ev, Late: int(late), Live: live, Fault: f}}, f != ""
		}
	})
}

func rErr(err error) string {
	s := run.ErrClass(err)
	if s == "OTHER:context canceled" {
		return "CANCELED"
	}
	return s
}

// verdict tells a deadlock of the programs from goroutines left over.
func verdict(fault string, live int, fin []bool) (string, int) {
	all := true
	for _, f := range fin {
		all = all && f
	}
	if (fault == "" || fault == "deadlock") && !all {
		return "deadlock", 0
	}
	if fault == "deadlock" {
		fault = ""
	}
	if len(fault) > 200 {
		fault = fault[:200]
	}
	return fault, live
}

// canon numbers the operations by thread and sorts neighbouring calls and
// neighbouring returns, whose order means nothing. th(i) is the thread of
// operation i; the result maps old numbers to new ones.
func canon(n int, th func(i int) int, ev [][2]int) ([]int, [][2]int) {
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return th(idx[a]) < th(idx[b]) })
	to := make([]int, n)
	for k, i := range idx {
		to[i] = k
	}
	var out [][2]int
	for _, e := range ev {
		if e[0] < n {
			out = append(out, [2]int{to[e[0]], e[1]})
		}
	}
	for i := 0; i < len(out); {
		j := i
		for j < len(out) && out[j][1] == out[i][1] {
			j++
		}
		run := out[i:j]
		sort.Slice(run, func(a, b int) bool { return run[a][0] < run[b][0] })
		i = j
	}
	return to, out
}
