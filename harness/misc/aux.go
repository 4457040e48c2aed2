package misc

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"io"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/chronos-tachyon/flate"
	"github.com/chronos-tachyon/flate/verifharness/gen"
	"github.com/chronos-tachyon/flate/verifharness/run"
	"github.com/rs/zerolog"
)

// AuxCase is a use of the helpers around headers and events.
type AuxCase struct {
	T string `json:"t"` // parse, enc, read, write
	// parse, read: the bytes
	B []byte `json:"b"`
	// enc: the records
	Recs []run.ExtraRec `json:"recs"`
	// write
	Cfg  run.WCfg     `json:"cfg"`
	Data *gen.Data    `json:"data,omitempty"`
	Hdrs []*run.HdrIn `json:"hdrs"` // one stream each
	Fail int          `json:"fail"` // the sink fails after that many bytes (0 = never)
	Rest int          `json:"rest"` // read: size of the Read calls
	More int          `json:"more"` // that many tracers more, before the last
}

type auxObs struct {
	T     string         `json:"t"`
	B     []int          `json:"b"`
	Recs  []run.ExtraRec `json:"recs"`
	Out   []int          `json:"out"`  // AsBytes
	Back  []run.ExtraRec `json:"back"` // Parse(AsBytes)
	Mod   bool           `json:"mod"`  // the argument was changed
	Evs   []run.Ev       `json:"evs"`  // what our own first tracer saw
	Fn    []run.Ev       `json:"fn"`   // TracerFunc
	Last  []run.Ev       `json:"last"` // our own last tracer
	Log   []run.Ev       `json:"log"`
	NLog  int            `json:"nlog"` // lines logged
	Odd   []string       `json:"odd"`  // lines that are not as they should be
	Quiet int            `json:"quiet"`
	Caps  []*run.Hdr     `json:"caps"` // the captured header after each event
	Final *run.Hdr       `json:"final"`
}

func runAux(c *AuxCase) auxObs {
	o := auxObs{T: c.T, B: []int{}, Recs: []run.ExtraRec{}, Out: []int{}, Back: []run.ExtraRec{}, Evs: []run.Ev{}, Fn: []run.Ev{}, Last: []run.Ev{}, Log: []run.Ev{},
		Odd: []string{}, Caps: []*run.Hdr{}, Final: run.ConvHdr(&flate.Header{})}
	recs := func(x *flate.ExtraData) []run.ExtraRec { return run.ConvHdr(&flate.Header{ExtraData: *x}).Extra }
	switch c.T {
	case "parse":
		in := append([]byte{}, c.B...)
		var x flate.ExtraData
		x.Records = []flate.ExtraDataRecord{{ID: [2]byte{'o', 'l'}, Bytes: []byte("d")}} // Parse starts afresh
		x.Parse(in)
		o.B, o.Recs, o.Out = run.Ints(c.B), recs(&x), run.Ints(x.AsBytes())
		o.Mod = !bytes.Equal(in, c.B)
	case "enc":
		var x, y flate.ExtraData
		for _, r := range c.Recs {
			x.Records = append(x.Records, flate.ExtraDataRecord{ID: [2]byte{byte(r.ID[0]), byte(r.ID[1])}, Bytes: run.Bytes(r.Bytes)})
		}
		enc := x.AsBytes()
		y.Parse(append([]byte{}, enc...))
		o.Recs, o.Out, o.Back = c.Recs, run.Ints(enc), recs(&y)
		o.Mod = !reflect.DeepEqual(recs(&x), append([]run.ExtraRec{}, c.Recs...))
	default:
		o.traced(c)
	}
	return o
}

// failing is a sink that breaks.
type failing struct{ left int }

func (f *failing) Write(p []byte) (int, error) {
	if len(p) > f.left {
		n := f.left
		f.left = 0
		return n, io.ErrClosedPipe
	}
	f.left -= len(p)
	return len(p), nil
}

func (o *auxObs) traced(c *AuxCase) {
	first, last := &run.Rec{}, &run.Rec{}
	target := flate.Header{FileName: "sentinel"}
	var logged, quiet bytes.Buffer
	tracers := []flate.Tracer{
		first,
		flate.NoOpTracer{},
		flate.TracerFunc(func(e flate.Event) { o.Fn = append(o.Fn, run.ConvEvent(e)) }),
		flate.CaptureHeader(&target),
		flate.Log(zerolog.New(&logged).Level(zerolog.TraceLevel)),
		flate.Log(zerolog.New(&quiet).Level(zerolog.DebugLevel)),
		flate.TracerFunc(func(flate.Event) { o.Caps = append(o.Caps, run.ConvHdr(&target)) }),
	}
	for k := 0; k < c.More; k++ {
		tracers = append(tracers, flate.TracerFunc(func(flate.Event) {}))
	}
	tracers = append(tracers, last)
	if c.T == "read" {
		fr := flate.NewReader(bytes.NewReader(c.B), flate.WithTracers(tracers...), flate.WithMemoryLevel(1))
		buf := make([]byte, c.Rest)
		for {
			if _, err := fr.Read(buf); err != nil {
				break
			}
		}
		fr.Close()
	} else {
		var sink io.Writer = io.Discard
		if c.Fail > 0 {
			sink = &failing{left: c.Fail}
		}
		fw := flate.NewWriter(sink, append(c.Cfg.Opts(), flate.WithTracers(tracers...))...)
		data := c.Data.Bytes()
		for i, h := range c.Hdrs {
			if i > 0 {
				if fw.Flush(flate.FinishFlush) != nil {
					break
				}
			}
			if h != nil {
				_ = fw.SetHeader(h.Flate())
			}
			if _, err := fw.Write(data); err != nil {
				break
			}
		}
		fw.Close()
	}
	o.Evs, o.Last, o.Final, o.Quiet = first.Take(), last.Take(), run.ConvHdr(&target), quiet.Len()
	if o.Caps == nil {
		o.Caps = []*run.Hdr{}
	}
	for _, l := range strings.Split(strings.TrimSuffix(logged.String(), "\n"), "\n") {
		if l == "" {
			continue
		}
		o.NLog++
		e, bad := logLine(l)
		if bad != "" {
			if len(o.Odd) < 3 {
				o.Odd = append(o.Odd, bad)
			}
			continue
		}
		o.Log = append(o.Log, e)
	}
}

var logTypes = map[string]string{"stream-begin": "SB", "stream-header": "SH", "block-begin": "BB", "block-trees": "BT", "block-end": "BE", "stream-end": "SE", "stream-close": "SC"}

type logEvent struct {
	Type                                                                   string
	InputBytesTotal, InputBytesStream, OutputBytesTotal, OutputBytesStream int
	NumStreams                                                             int
	Format                                                                 string
	Header                                                                 *struct {
		FileName, Comment string
		LastModified      string
		DataType, OSType  string
		ExtraData         struct {
			Records []struct {
				ID    []int
				Bytes *string
			}
		}
		WindowBits    json.RawMessage
		CompressLevel json.RawMessage
	}
	Block *struct {
		Type    string
		IsFinal bool
	}
	Trees *struct {
		CodeCount, LiteralLengthCount, DistanceCount int
		CodeSizes, LiteralLengthSizes, DistanceSizes []int
	}
	Footer *struct{ Adler32, CRC32 string }
}

// logLine reads one line of the log, with nothing of the package under test.
func logLine(l string) (e run.Ev, bad string) {
	var line struct {
		Level   string
		Message string
		Event   *logEvent
	}
	d := json.NewDecoder(strings.NewReader(l))
	d.DisallowUnknownFields()
	if err := d.Decode(&line); err != nil {
		return e, "not-the-JSON-of-an-event: " + err.Error()
	}
	if line.Level != "trace" {
		return e, "level-" + line.Level
	}
	if line.Event == nil {
		return e, "no-event"
	}
	x := line.Event
	t, ok := logTypes[x.Type]
	if !ok {
		return e, "type-" + x.Type
	}
	e = run.Ev{T: t, Fmt: x.Format, In: x.InputBytesStream, Out: x.OutputBytesStream, InT: x.InputBytesTotal, OutT: x.OutputBytesTotal, NS: x.NumStreams, X: []int{}, LL: []int{}, D: []int{}}
	if h := x.Header; h != nil {
		o := &run.Hdr{Name: ints(h.FileName), Comment: ints(h.Comment), Text: h.DataType, OS: strings.Replace(strings.TrimPrefix(h.OSType, "OSType"), "Unknown", "unknown", 1), Extra: []run.ExtraRec{}}
		if tm, err := time.Parse(time.RFC3339Nano, h.LastModified); err != nil {
			return e, "time-" + h.LastModified
		} else if !tm.IsZero() {
			o.HasTime, o.MTime = true, run.W32(uint32(tm.Unix()))
			if tm.Nanosecond() != 0 {
				return e, "time-" + h.LastModified
			}
		}
		for _, r := range h.ExtraData.Records {
			b := []byte{}
			if r.Bytes != nil {
				raw, err := base64.StdEncoding.DecodeString(*r.Bytes)
				if err != nil {
					return e, "extra-data"
				}
				b = raw
			}
			o.Extra = append(o.Extra, run.ExtraRec{ID: r.ID, Bytes: run.Ints(b)})
		}
		num := func(m json.RawMessage, def int) int {
			s := strings.Trim(string(m), `"`)
			switch s {
			case "default":
				return def
			case "none":
				return 0
			}
			n, err := strconv.Atoi(s)
			if err != nil {
				bad = "number-" + s
			}
			return n
		}
		o.WB, o.Lvl = num(h.WindowBits, 0), num(h.CompressLevel, -1)
		e.H = o
		e.Has += "h"
	}
	if x.Block != nil {
		e.Typ, e.Fin = strings.Replace(x.Block.Type, "invalid", "bad", 1), x.Block.IsFinal
		e.Has += "b"
	}
	if x.Trees != nil {
		e.NX, e.NLL, e.ND = x.Trees.CodeCount, x.Trees.LiteralLengthCount, x.Trees.DistanceCount
		lens := func(v []int) []int { return append([]int{}, run.Trim(v)...) }
		e.X, e.LL, e.D = lens(x.Trees.CodeSizes), lens(x.Trees.LiteralLengthSizes), lens(x.Trees.DistanceSizes)
		e.Has += "t"
	}
	if x.Footer != nil {
		for i, s := range []string{x.Footer.Adler32, x.Footer.CRC32} {
			v, err := strconv.ParseUint(strings.TrimPrefix(s, "0x"), 16, 32)
			if err != nil || !strings.HasPrefix(s, "0x") {
				return e, "checksum-" + s
			}
			if i == 0 {
				e.A32 = run.W32(uint32(v))
			} else {
				e.C32 = run.W32(uint32(v))
			}
		}
		e.Has += "f"
	}
	return e, bad
}

func (g *maker) ascii(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = 33 + g.rng.Intn(93)
		if out[i] == '/' || out[i] == '\\' || g.rng.Intn(8) == 0 {
			out[i] = []int{' ', '"', '<', '&', 'x', '\t', 127}[g.rng.Intn(7)]
		}
	}
	return out
}

func (g *maker) recs() []run.ExtraRec {
	out := []run.ExtraRec{}
	for k := g.rng.Intn(4); k > 0; k-- {
		n := []int{0, 1, 2, 5, 255, 256, 257, 700}[g.rng.Intn(8)]
		b := make([]byte, n)
		g.rng.Read(b)
		out = append(out, run.ExtraRec{ID: []int{g.rng.Intn(256), g.rng.Intn(256)}, Bytes: run.Ints(b)})
	}
	return out
}

var fmts3 = []string{"raw", "zlib", "gzip"}

func (g *maker) auxs() {
	add := func(note string, c *AuxCase) { g.out = append(g.out, Case{Note: note, Aux: c}) }
	// every short string of bytes 0, 1, 2
	max := g.n(7, 9)
	var all func(p []byte)
	all = func(p []byte) {
		add("parse", &AuxCase{T: "parse", B: append([]byte{}, p...)})
		if len(p) < max {
			for _, x := range []byte{0, 1, 2} {
				all(append(p, x))
			}
		}
	}
	all(nil)
	for i := 0; i < g.n(150, 2000); i++ {
		b := []byte{}
		for k := g.rng.Intn(4); k > 0; k-- {
			n := []int{0, 1, 2, 3, 6, 255, 256, 300}[g.rng.Intn(8)]
			x := make([]byte, n)
			g.rng.Read(x)
			b = append(b, byte(g.rng.Intn(256)), byte(g.rng.Intn(256)), byte(n), byte(n>>8))
			b = append(b, x...)
		}
		switch g.rng.Intn(3) {
		case 0:
			b = b[:g.rng.Intn(len(b)+1)]
		case 1:
			if len(b) > 0 {
				b[g.rng.Intn(len(b))] ^= 1 << uint(g.rng.Intn(8))
			}
		}
		add("parse", &AuxCase{T: "parse", B: b})
	}
	for i := 0; i < g.n(200, 2000); i++ {
		add("encode", &AuxCase{T: "enc", Recs: g.recs()})
	}
	for _, n := range []int{32767, 32768, 65534, 65535} {
		b := make([]byte, n)
		g.rng.Read(b)
		add("encode a long record", &AuxCase{T: "enc", Recs: []run.ExtraRec{{ID: []int{1, 2}, Bytes: run.Ints(b)}, {ID: []int{3, 4}, Bytes: []int{5}}}})
	}
	// very many records
	for i, n := range []int{16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 1023, 1024, 1025, 3000, 4097} {
		rs := []run.ExtraRec{}
		b := []byte{}
		for j := 0; j < n; j++ {
			x := make([]byte, (i%3)*g.rng.Intn(5))
			g.rng.Read(x)
			rs = append(rs, run.ExtraRec{ID: []int{j % 256, j / 256}, Bytes: run.Ints(x)})
			b = append(append(b, byte(j), byte(j>>8), byte(len(x)), 0), x...)
		}
		add("encode many records", &AuxCase{T: "enc", Recs: rs})
		add("parse many records", &AuxCase{T: "parse", B: append(b, []byte{1, 2, 3, 0}[:i%5]...)})
		if i%4 == 0 {
			h := &run.HdrIn{Name: g.ascii(5), Comment: []int{}, Extra: rs}
			d := gen.Data{G: "text", N: 30}
			add("events of a Writer, many records", &AuxCase{T: "write", Cfg: run.WCfg{Fmt: "gzip"}, Data: &d, Hdrs: []*run.HdrIn{h, nil}})
		}
	}
	// very long records
	for _, n := range []int{1000, 4096, 8192, 65531} {
		x := make([]byte, n)
		g.rng.Read(x)
		b := append([]byte{1, 2, byte(n), byte(n >> 8)}, x...)
		add("parse a long record", &AuxCase{T: "parse", B: b})
		add("parse a long record, cut", &AuxCase{T: "parse", B: b[:len(b)-1]})
	}
	// many tracers
	for i, n := range []int{1, 2, 8, 9, 24, 25, 56, 57, 120, 248, 1000} {
		d := gen.Data{G: "text", N: 300}
		add("many tracers", &AuxCase{T: "write", More: n, Cfg: run.WCfg{Fmt: fmts3[i%3]}, Data: &d, Hdrs: []*run.HdrIn{nil, nil}})
		b := gen.NewBuilder(g.rng, nil, 15)
		for k := 0; k < 2; k++ {
			b.Begin("gzip", 15, 1, &gen.GzHeader{OS: 3, Name: []byte("n")})
			b.RandBlocks(2, 10, 10)
			b.End()
		}
		add("many tracers", &AuxCase{T: "read", More: n, B: b.W.B, Rest: 100})
	}
	for i := 0; i < g.n(120, 1500); i++ {
		// some streams, perhaps damaged, read to the end
		f := []string{"zlib", "gzip", "gzip", "raw"}[g.rng.Intn(4)]
		b := gen.NewBuilder(g.rng, nil, 15)
		n := 1
		if f != "raw" {
			n += g.rng.Intn(4)
		}
		for k := 0; k < n; k++ {
			h := gen.RandGz(g.rng)
			h.Name, h.Comment = ascii(h.Name), ascii(h.Comment)
			b.Begin(f, 8+g.rng.Intn(8), g.rng.Intn(4), h)
			b.RandBlocks(1+g.rng.Intn(3), 25, 20)
			b.End()
		}
		b.W.Align(0)
		raw := b.W.B
		note := "events of a Reader"
		switch g.rng.Intn(4) {
		case 0:
			raw = raw[:g.rng.Intn(len(raw)+1)]
			note += ", cut"
		case 1:
			raw[g.rng.Intn(len(raw))] ^= 1 << uint(g.rng.Intn(8))
			note += ", damaged"
			for _, x := range raw {
				if x >= 0x80 && f == "gzip" { // the name might become something JSON cannot hold
					raw = nil
					break
				}
			}
		}
		if raw == nil {
			continue
		}
		add(note, &AuxCase{T: "read", B: raw, Rest: 1 + g.rng.Intn(200)})
	}
	for i := 0; i < g.n(120, 1500); i++ {
		c := &AuxCase{T: "write", Cfg: run.WCfg{Fmt: []string{"raw", "zlib", "gzip", "gzip", "gzip"}[g.rng.Intn(5)], Strat: []string{"", "huffman-only", "huffman-rle", "fixed"}[g.rng.Intn(4)]}}
		if g.rng.Intn(2) == 0 {
			l := g.rng.Intn(11) - 1
			c.Cfg.Lvl = &l
		}
		if g.rng.Intn(2) == 0 {
			w := 8 + g.rng.Intn(8)
			c.Cfg.WB = &w
		}
		d := gen.RandData(g.rng, g.rng.Intn(3000))
		c.Data = &d
		for k := 1 + g.rng.Intn(3); k > 0; k-- {
			var h *run.HdrIn
			if g.rng.Intn(3) > 0 {
				h = &run.HdrIn{Name: g.ascii(g.rng.Intn(9)), Comment: g.ascii(g.rng.Intn(9)), HasTime: g.rng.Intn(2) == 0, Secs: 1 + int64(g.rng.Uint32()>>1),
					Text: []string{"", "text", "binary"}[g.rng.Intn(3)], OS: run.OSNames[g.rng.Intn(len(run.OSNames))], Extra: g.recs()}
			}
			c.Hdrs = append(c.Hdrs, h)
		}
		if g.rng.Intn(4) == 0 {
			c.Fail = 1 + g.rng.Intn(200)
		}
		add("events of a Writer", c)
	}
}

func ascii(b []byte) []byte {
	if b == nil {
		return nil
	}
	out := make([]byte, len(b))
	for i, x := range b {
		out[i] = x & 127
		if out[i] == 0 {
			out[i] = 'n'
		}
	}
	return out
}
