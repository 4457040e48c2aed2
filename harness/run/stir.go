package run

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/chronos-tachyon/flate"

	"github.com/chronos-tachyon/flate/verifharness/oracle"
)

// Other instances that are at work while a case is executed: either nested
// (in the source, the sink and the tracers of the case, and between its
// calls) or in parallel. They must neither be disturbed nor disturb.

type other interface{ step() string }

type others struct {
	mu   sync.Mutex
	list []other
	rng  *rand.Rand
	bad  map[string]bool
	n    int
}

var stirring atomic.Value // *others

func current() *others {
	o, _ := stirring.Load().(*others)
	return o
}

// Stir lets another instance do something.
func Stir() {
	o := current()
	if o == nil || !o.mu.TryLock() {
		return
	}
	defer o.mu.Unlock()
	if o.n++; o.n > 4000 {
		return
	}
	for k := o.rng.Intn(3); k >= 0; k-- {
		if bad := o.list[o.rng.Intn(len(o.list))].step(); bad != "" {
			o.bad[bad] = true
		}
	}
}

// quiet runs f without the others.
func quiet(f func()) {
	o := current()
	stirring.Store((*others)(nil))
	defer stirring.Store(o)
	f()
}

// WithOthers runs f while other instances are at work; it tells which of
// them did not do what they do alone.
func WithOthers(mode string, seed int64, f func()) (bad []string) {
	o := &others{rng: rand.New(rand.NewSource(seed)), bad: map[string]bool{}}
	for i := range scripts() {
		s := &scripts()[i]
		o.list = append(o.list, &otherWriter{s: s}, &otherReader{s: s, rng: rand.New(rand.NewSource(seed + int64(i)))})
	}
	for i := range scripts() {
		if s := &scripts()[i]; s.bad != "" {
			o.bad[s.bad] = true
		}
	}
	if mode == "nested" {
		stirring.Store(o)
		f()
		stirring.Store((*others)(nil))
		o.mu.Lock()
		defer o.mu.Unlock()
	} else {
		stop := make(chan struct{})
		var wg sync.WaitGroup
		for _, x := range o.list {
			x := x
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 20000; k++ {
					select {
					case <-stop:
						return
					default:
					}
					if bad := x.step(); bad != "" {
						o.mu.Lock()
						o.bad[bad] = true
						o.mu.Unlock()
					}
					runtime.Gosched()
				}
			}()
		}
		f()
		close(stop)
		wg.Wait()
	}
	for k := range o.bad {
		bad = append(bad, k)
	}
	return
}

// script is what one of the others does, and what it gives alone.
type script struct {
	name string
	f    flate.Format
	fmt  string
	opts []flate.Option
	data [][]byte
	want []byte // all the data
	out  []byte
	bad  string
}

var scriptOnce sync.Once
var scriptList []script

func scripts() []script {
	scriptOnce.Do(func() {
		rng := rand.New(rand.NewSource(5))
		text := func(n int) []byte {
			b := make([]byte, n)
			for i := range b {
				b[i] = "etaoin shrdlu\n"[rng.Intn(1+rng.Intn(14))]
			}
			return b
		}
		noise := func(n int) []byte { b := make([]byte, n); rng.Read(b); return b }
		mk := func(name, f string, s flate.Strategy, l, m, w int, data ...[]byte) {
			scriptList = append(scriptList, script{name: name, fmt: f, f: Fmts[f], data: data, want: bytes.Join(data, nil), opts: []flate.Option{flate.WithFormat(Fmts[f]), flate.WithStrategy(s),
				flate.WithCompressLevel(flate.CompressLevel(l)), flate.WithMemoryLevel(flate.MemoryLevel(m)), flate.WithWindowBits(flate.WindowBits(w))}})
		}
		mk("dynamic", "gzip", flate.DefaultStrategy, 9, 1, 15, text(300), text(5000), noise(200), text(9000))
		mk("fixed", "zlib", flate.FixedStrategy, 6, 1, 9, text(900), noise(700), make([]byte, 3000))
		mk("huffman", "raw", flate.HuffmanOnlyStrategy, 6, 2, 15, text(2000), noise(4500), text(100))
		mk("rle", "zlib", flate.HuffmanRLEStrategy, 3, 1, 15, make([]byte, 700), text(400), noise(10))
		mk("stored", "gzip", flate.DefaultStrategy, 0, 1, 15, noise(3000), text(3000))
		for i := range scriptList {
			s := &scriptList[i]
			w := otherWriter{s: s}
			for s.out == nil && s.bad == "" {
				s.bad = w.step()
			}
			if r := oracle.Decode(s.out, oracle.Config{Fmt: s.fmt, WBits: 15}); r.Err != oracle.EOF || !bytes.Equal(r.Out, s.want) {
				s.bad = "output of the " + s.name + " Writer is " + r.Err
			}
		}
	})
	return scriptList
}

// scribbler overwrites whatever its events hold, once it has them.
var scribbler = flate.TracerFunc(func(ev flate.Event) {
	wipe := func(p []byte) {
		for i := range p {
			p[i] = 0x0f
		}
	}
	if t := ev.Trees; t != nil {
		wipe(t.CodeSizes)
		wipe(t.LiteralLengthSizes)
		wipe(t.DistanceSizes)
		*t = flate.TreesEvent{}
	}
	if ev.Block != nil {
		*ev.Block = flate.BlockEvent{}
	}
	if ev.Footer != nil {
		*ev.Footer = flate.FooterEvent{}
	}
	if h := ev.Header; h != nil {
		for _, rec := range h.ExtraData.Records {
			wipe(rec.Bytes)
		}
		*h = flate.Header{}
	}
})

type otherWriter struct {
	s    *script
	w    *flate.Writer
	sink bytes.Buffer
	k    int
}

func (o *otherWriter) step() string {
	fail := func(err error) string { return fmt.Sprintf("%s Writer failed: %v", o.s.name, err) }
	if o.w == nil {
		o.w = flate.NewWriter(&o.sink, append([]flate.Option{flate.WithTracers(scribbler)}, o.s.opts...)...)
		o.k = 0
	}
	if o.k < len(o.s.data) {
		_, err := o.w.Write(o.s.data[o.k])
		if err == nil && o.k%2 == 1 {
			err = o.w.Flush(flate.SyncFlush)
		}
		o.k++
		if err != nil {
			o.w = nil
			o.sink.Reset()
			return fail(err)
		}
		return ""
	}
	if err := o.w.Close(); err != nil {
		o.w = nil
		o.sink.Reset()
		return fail(err)
	}
	out := append([]byte{}, o.sink.Bytes()...)
	o.sink.Reset()
	o.k = 0
	o.w.Reset(&o.sink)
	if o.s.out == nil {
		o.s.out = out
		o.w = nil
	} else if !bytes.Equal(out, o.s.out) {
		return o.s.name + " Writer wrote something else"
	}
	return ""
}

type otherReader struct {
	s   *script
	r   *flate.Reader
	rng *rand.Rand
	got []byte
	cut int
}

func (o *otherReader) step() string {
	s := o.s
	if s.out == nil {
		return ""
	}
	mkSrc := func() io.Reader {
		o.got = o.got[:0]
		o.cut = len(s.out)
		if o.rng.Intn(3) == 0 { // sometimes truncated
			o.cut = o.rng.Intn(len(s.out))
		}
		return bytes.NewReader(s.out[:o.cut])
	}
	if o.r == nil {
		o.r = flate.NewReader(mkSrc(), flate.WithFormat(s.f), flate.WithMemoryLevel(flate.MemoryLevel(1+o.rng.Intn(3))), flate.WithTracers(scribbler))
	}
	p := make([]byte, 1+o.rng.Intn(3000))
	n, err := o.r.Read(p)
	o.got = append(o.got, p[:n]...)
	bad := ""
	if !bytes.HasPrefix(s.want, o.got) {
		bad = s.name + " Reader returned something else"
	}
	if bad == "" && err == nil && o.rng.Intn(40) != 0 {
		return ""
	}
	if err != nil && bad == "" {
		want := "UEOF"
		if o.cut == len(s.out) || o.cut == 0 {
			want = "EOF"
		}
		if ErrClass(err) != want {
			bad = fmt.Sprintf("%s Reader failed: %v", s.name, err)
		} else if o.cut == len(s.out) && len(o.got) != len(s.want) {
			bad = s.name + " Reader lost data"
		}
	}
	o.r.Reset(mkSrc())
	return bad
}
