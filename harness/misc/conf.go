package misc

import (
	"bytes"
	stdflate "compress/flate"
	stdgzip "compress/gzip"
	stdzlib "compress/zlib"
	"io"
	"strconv"
	"strings"

	"github.com/chronos-tachyon/flate"
	"github.com/chronos-tachyon/flate/verifharness/oracle"
)

// ConfCase is a history of NewX and Reset calls with options, or (Side =
// "refuse") one option with all values.
//
// An option is a letter and a number: f format, s strategy, l level, m memory
// level, w window bits, d dictionary (0 nil, 1, 2), t tracers (0 none, 1 the
// first, 2 both).
type ConfCase struct {
	Side   string     `json:"side"` // reader writer refuse
	Epochs [][]string `json:"epochs"`
	Probes []string   `json:"probes"` // Reader: what it is given in each epoch
	Early  bool       `json:"early"`  // the caller changes what it passed to an option before the option is used
}

// ConfObs is what one epoch showed.
type ConfObs struct {
	Opts  [][2]interface{} `json:"opts"`
	F     int              `json:"f"`
	S     int              `json:"s"`
	L     int              `json:"l"`
	M     int              `json:"m"`
	W     int              `json:"w"`
	Me    int              `json:"me"`
	D     int              `json:"d"` // which dictionary, 9 = something else
	T     []int            `json:"t"` // which tracers
	Under bool             `json:"under"`
	Again bool             `json:"again"` // the same after the caller changed what it passed and got
	Ev    [2]int           `json:"ev"`    // events seen by the tracers

	Probe string `json:"probe"`
	OK    bool   `json:"ok"` // the probe was decoded / the output decodes to the data
	Err   bool   `json:"err"`

	Out    string `json:"out"`   // Writer: format of the output
	Cinfo  int    `json:"cinfo"` // 0 = not zlib
	DictID int    `json:"dictid"`
	Stored bool   `json:"stored"`
	Dyn    bool   `json:"dyn"`
	Copies bool   `json:"copies"`
	Far    bool   `json:"far"` // copies with a distance over 1
}

// RefuseObs says whether an option with a value is refused.
type RefuseObs struct {
	O     string `json:"o"`
	V     int    `json:"v"`
	Panic bool   `json:"panic"`
}

type confObs struct {
	Epochs []ConfObs   `json:"epochs"`
	Refuse []RefuseObs `json:"refuse"`
}

var confDicts = [][]byte{nil, []byte("the first dictionary: abcabcabc hello"), []byte("another one; goodbye goodbye"), longDict()}

// longDict is longer than any window.
func longDict() []byte {
	var b []byte
	x := uint32(7)
	for len(b) < 70000 {
		x = x*1664525 + 1013904223
		b = append(b, byte(x>>24))
	}
	return append(b, "hello hello goodbye"...)
}

var confData = bytes.Repeat([]byte("hello hello goodbye abcabcabc aaaaaaaaaaaaaa "), 6)

type counter struct{ id, n int }

func (c *counter) OnEvent(flate.Event) { c.n++ }

func probe(kind string) []byte {
	var b bytes.Buffer
	stored := func() {
		n := len(confData)
		b.Write([]byte{1, byte(n), byte(n >> 8), byte(^n), byte(^n >> 8)})
		b.Write(confData)
	}
	switch kind {
	case "raw":
		stored()
	case "rawdyn":
		w, _ := stdflate.NewWriter(&b, 9)
		w.Write(confData)
		w.Close()
	case "zlib8":
		b.Write([]byte{0x08, 0x1d})
		stored()
		a := refUpdate("adler", 1, confData)
		b.Write([]byte{byte(a >> 24), byte(a >> 16), byte(a >> 8), byte(a)})
	case "zlib":
		w := stdzlib.NewWriter(&b)
		w.Write(confData)
		w.Close()
	case "gzip":
		w := stdgzip.NewWriter(&b)
		w.Write(confData)
		w.Close()
	case "zlibd1", "zlibd2", "zlibd3":
		w, _ := stdzlib.NewWriterLevelDict(&b, 6, confDicts[int(kind[5]-'0')])
		w.Write(confData)
		w.Close()
	}
	return b.Bytes()
}

type confHarness struct {
	tr    [2]*counter
	dicts [][]byte // what was passed
	lists [][]flate.Tracer
}

func (h *confHarness) opts(names []string) (out []flate.Option, rec [][2]interface{}) {
	rec = [][2]interface{}{}
	for _, n := range names {
		v, err := strconv.Atoi(n[1:])
		if err != nil {
			panic(err)
		}
		rec = append(rec, [2]interface{}{n[:1], v})
		switch n[0] {
		case 'f':
			out = append(out, flate.WithFormat(flate.Format(v)))
		case 's':
			out = append(out, flate.WithStrategy(flate.Strategy(v)))
		case 'l':
			out = append(out, flate.WithCompressLevel(flate.CompressLevel(v)))
		case 'm':
			out = append(out, flate.WithMemoryLevel(flate.MemoryLevel(v)))
		case 'w':
			out = append(out, flate.WithWindowBits(flate.WindowBits(v)))
		case 'e':
			out = append(out, flate.WithMethod(flate.Method(v)))
		case 'd':
			if v == 0 {
				out = append(out, flate.WithDictionary(nil))
			} else {
				d := append([]byte{}, confDicts[v]...)
				h.dicts = append(h.dicts, d)
				out = append(out, flate.WithDictionary(d))
			}
		case 't':
			l := []flate.Tracer{}
			for i := 0; i < v; i++ {
				l = append(l, h.tr[i])
			}
			h.lists = append(h.lists, l)
			out = append(out, flate.WithTracers(l...))
		}
	}
	return
}

// spoil changes everything the caller passed in.
func (h *confHarness) spoil() {
	for _, d := range h.dicts {
		for i := range d {
			d[i] ^= 0x55
		}
	}
	for _, l := range h.lists {
		for i := range l {
			l[i] = flate.NoOpTracer{}
		}
	}
	h.dicts, h.lists = nil, nil
}

func dictNo(d []byte) int {
	if len(d) == 0 {
		return 0
	}
	for i := 1; i < len(confDicts); i++ {
		if bytes.Equal(d, confDicts[i]) {
			return i
		}
	}
	return 9
}

func tracerNos(l []flate.Tracer) []int {
	out := []int{}
	for _, t := range l {
		if c, ok := t.(*counter); ok {
			out = append(out, c.id)
		} else {
			out = append(out, 9)
		}
	}
	return out
}

func runConf(c *ConfCase) confObs {
	o := confObs{Epochs: []ConfObs{}, Refuse: []RefuseObs{}}
	if c.Side == "refuse" {
		o.Refuse = refusals()
		return o
	}
	h := &confHarness{tr: [2]*counter{{id: 1}, {id: 2}}}
	var fr *flate.Reader
	var fw *flate.Writer
	var opts []flate.Option
	for i, names := range c.Epochs {
		var rec [][2]interface{}
		before := opts
		opts, rec = h.opts(names)
		if i > 0 && len(names) > 0 && strings.Join(names, " ") == strings.Join(c.Epochs[i-1], " ") {
			opts = before // the very same Option values once more
		}
		if c.Early { // they are copies even before anybody has used them
			h.spoil()
		}
		e := ConfObs{Opts: rec, L: -1}
		h.tr[0].n, h.tr[1].n = 0, 0
		if c.Side == "reader" {
			e.Probe = c.Probes[i]
			src := bytes.NewReader(probe(e.Probe))
			if fr == nil {
				fr = flate.NewReader(src, opts...)
			} else {
				fr.Reset(src, opts...)
			}
			look := func() (int, int, int, int, []int, bool) {
				d, t := fr.Dict(), fr.Tracers()
				dn, tn := dictNo(d), tracerNos(t)
				for i := range d {
					d[i] = 'x'
				}
				for i := range t {
					t[i] = flate.NoOpTracer{}
				}
				return int(fr.Format()), int(fr.MemoryLevel()), int(fr.WindowBits()), dn, tn, fr.UnderlyingReader() == io.Reader(src)
			}
			e.F, e.M, e.W, e.D, e.T, e.Under = look()
			h.spoil()
			f, m, w, d, t, u := look()
			e.Again = f == e.F && m == e.M && w == e.W && d == e.D && same(t, e.T) && u == e.Under
			b, err := io.ReadAll(fr)
			e.Err = err != nil
			e.OK = err == nil && bytes.Equal(b, confData)
			f, m, w, d, t, u = look()
			e.Again = e.Again && f == e.F && m == e.M && w == e.W && d == e.D && same(t, e.T) && u == e.Under
			fr.Close()
		} else {
			var b bytes.Buffer
			if fw == nil {
				fw = flate.NewWriter(&b, opts...)
			} else {
				fw.Reset(&b, opts...)
			}
			look := func() ([6]int, int, []int, bool) {
				d, t := fw.Dict(), fw.Tracers()
				dn, tn := dictNo(d), tracerNos(t)
				for i := range d {
					d[i] = 'x'
				}
				for i := range t {
					t[i] = flate.NoOpTracer{}
				}
				return [6]int{int(fw.Format()), int(fw.Strategy()), int(fw.CompressLevel()), int(fw.MemoryLevel()), int(fw.WindowBits()), int(fw.Method())}, dn, tn, fw.UnderlyingWriter() == io.Writer(&b)
			}
			var x [6]int
			x, e.D, e.T, e.Under = look()
			e.F, e.S, e.L, e.M, e.W, e.Me = x[0], x[1], x[2], x[3], x[4], x[5]
			h.spoil()
			y, d, t, u := look()
			e.Again = x == y && d == e.D && same(t, e.T) && u == e.Under
			n, err := fw.Write(confData)
			err2 := fw.Close()
			e.Err = n != len(confData) || err != nil || err2 != nil
			y, d, t, u = look()
			e.Again = e.Again && x == y && d == e.D && same(t, e.T) && u == e.Under
			e.output(b.Bytes())
		}
		e.Ev = [2]int{h.tr[0].n, h.tr[1].n}
		o.Epochs = append(o.Epochs, e)
	}
	return o
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// output finds out what the output is.
func (e *ConfObs) output(b []byte) { e.analyse(b, confData, confDicts, nil) }

func (e *ConfObs) analyse(b, data []byte, dicts [][]byte, hdr *cliDec) {
	for _, f := range []string{"gzip", "zlib", "raw"} {
		for _, d := range []int{e.D, 0, 1, 2, 3} {
			if d >= len(dicts) {
				continue
			}
			far := false
			oc := oracle.Config{Fmt: f, WBits: 15, Dict: dicts[d], OnCopy: func(_, _, dist, _ int) { far = far || dist > 1; e.Copies = true }}
			e.Copies = false
			r := oracle.Decode(b, oc)
			if r.Err != oracle.EOF || !bytes.Equal(r.Out, data) {
				continue
			}
			e.OK, e.Out, e.DictID, e.Far = true, f, d, far
			h := &r.Members[0].Hdr
			if f == "zlib" {
				e.Cinfo = h.WBits
			}
			e.Stored = true
			for i := range r.Members {
				for _, bl := range r.Members[i].Blocks {
					e.Stored = e.Stored && bl.Typ == "stored"
					e.Dyn = e.Dyn || bl.Typ == "dynamic"
				}
			}
			if hdr != nil {
				hdr.Name, hdr.Comment = ints(string(h.Name)), ints(string(h.Comment))
				hdr.MTime = [2]int{int(h.MTime >> 16), int(h.MTime & 0xffff)}
			}
			return
		}
	}
}

func refusals() (out []RefuseObs) {
	add := func(o string, v int, f func()) { out = append(out, RefuseObs{o, v, caught(f)}) }
	for v := 0; v < 256; v++ {
		v := v
		add("f", v, func() { flate.WithFormat(flate.Format(v)) })
		add("s", v, func() { flate.WithStrategy(flate.Strategy(v)) })
		add("e", v, func() { flate.WithMethod(flate.Method(v)) })
		add("m", v, func() { flate.WithMemoryLevel(flate.MemoryLevel(v)) })
		add("w", v, func() { flate.WithWindowBits(flate.WindowBits(v)) })
		add("l", v-128, func() { flate.WithCompressLevel(flate.CompressLevel(v - 128)) })
	}
	add("d", 0, func() { flate.WithDictionary(nil) })
	add("d", 1, func() { flate.WithDictionary([]byte{1}) })
	add("d", 9, func() { flate.WithDictionary([]byte{}) })
	add("t", 0, func() { flate.WithTracers() })
	add("t", 1, func() { flate.WithTracers(flate.NoOpTracer{}) })
	add("t", 9, func() { flate.WithTracers(nil) })
	add("t", 9, func() { flate.WithTracers(flate.NoOpTracer{}, nil) })
	return
}

var probeKinds = []string{"raw", "rawdyn", "zlib8", "zlib", "gzip", "zlibd1", "zlibd2", "zlibd3"}

func (g *maker) confs(seqs [][]string) {
	g.out = append(g.out, Case{Note: "refused options", Conf: &ConfCase{Side: "refuse"}})
	take := g.n(4000, len(seqs))
	for i, q := range seqs {
		var eps [][]string
		opts := 0
		for _, t := range q {
			if t == "N" || t == "R" {
				eps = append(eps, []string{})
			} else {
				eps[len(eps)-1] = append(eps[len(eps)-1], t)
				opts++
			}
		}
		if opts > 2 && len(seqs) > take && g.rng.Intn(len(seqs)) >= take {
			continue
		}
		if i%2 == 0 || g.thorough {
			g.conf("writer", eps)
		}
		if i%2 == 1 || g.thorough {
			g.conf("reader", eps)
		}
	}
	// longer histories
	pick := func() string {
		switch k := "fslmwdtefslmwdt"[g.rng.Intn(15)]; k {
		case 'f', 's':
			return string(k) + strconv.Itoa(g.rng.Intn(4))
		case 'l':
			return "l" + strconv.Itoa(g.rng.Intn(11)-1)
		case 'm':
			return "m" + strconv.Itoa(g.rng.Intn(10))
		case 'w':
			return "w" + strconv.Itoa([]int{0, 8, 9, 10, 11, 12, 13, 14, 15}[g.rng.Intn(9)])
		case 'd':
			return "d" + strconv.Itoa([]int{0, 0, 1, 1, 2, 2, 3}[g.rng.Intn(7)])
		case 't':
			return "t" + strconv.Itoa(g.rng.Intn(3))
		}
		return "e0"
	}
	for i := 0; i < g.n(1500, 20000); i++ {
		eps := make([][]string, 1+g.rng.Intn(5))
		m := 6
		if i%40 == 0 {
			m = 40
		}
		if i%100 == 2 {
			eps = make([][]string, 20+g.rng.Intn(30))
		}
		for j := range eps {
			eps[j] = []string{}
			for k := g.rng.Intn(m); k > 0; k-- {
				eps[j] = append(eps[j], pick())
			}
			if j > 0 && g.rng.Intn(8) == 0 {
				eps[j] = eps[j-1]
			}
		}
		g.conf([]string{"reader", "writer"}[i%2], eps)
	}
}

func (g *maker) conf(side string, eps [][]string) {
	c := &ConfCase{Side: side, Epochs: eps, Probes: []string{}, Early: len(g.out)%3 == 0}
	for range eps {
		c.Probes = append(c.Probes, probeKinds[g.rng.Intn(len(probeKinds))])
	}
	g.out = append(g.out, Case{Note: side, Conf: c})
}
