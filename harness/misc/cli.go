package misc

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/chronos-tachyon/flate/verifharness/gen"
	"github.com/chronos-tachyon/flate/verifharness/oracle"
)

// CliCase is one use of the gzip command: data is compressed with Opts and
// the result decompressed again, or (Dec) Input is decompressed with Opts.
type CliCase struct {
	Exe, Dir string
	Seed     int64
	Opts     []string  `json:"opts"` // tokens: F=raw, 5, d=1, n=2, ...
	Data     *gen.Data `json:"data,omitempty"`
	Dec      bool      `json:"dec"`
	Input    []byte    `json:"input,omitempty"`
	Stdin    string    `json:"stdin"`  // pipe file dir slow
	Stdout   string    `json:"stdout"` // pipe full broken file
}

// CliOpt is an option as the specification sees it: letter and text.
type CliOpt struct {
	O string `json:"o"`
	V []int  `json:"v"`
}

type cliDec struct { // what the oracle says about output or input
	ConfObs
	Name    []int  `json:"name"`
	Comment []int  `json:"comment"`
	MTime   [2]int `json:"mtime"`
}

type cliObs struct {
	Opts   []CliOpt `json:"opts"`
	Exit   int      `json:"exit"` // -1: ended by a signal; -2: did not end
	N      int      `json:"n"`    // bytes on standard output
	Stderr int      `json:"stderr"`
	Len    int      `json:"len"` // of the data
	Dec    cliDec   `json:"dec"`
	// compression only: the way back
	BackExit int  `json:"backexit"`
	Back     bool `json:"back"`
	// decompression only
	Common int    `json:"common"`
	OErr   string `json:"oerr"`
	ON     int    `json:"on"`
	OFull  int    `json:"ofull"`
	OAlts  []oalt `json:"oalts"`
	// with -L -D: the types of the logged events
	Logged bool     `json:"logged"`
	Log    []string `json:"log"`
	Level  int      `json:"level"` // of the logged header; -1 when there is none
	WBits  int      `json:"wbits"`
}

type oalt struct {
	Err string `json:"err"`
	Lo  int    `json:"lo"`
	Hi  int    `json:"hi"`
}

var cliNames = []string{"", "file.txt", "with space", "a/b", "a\\b", strings.Repeat("x", 255), strings.Repeat("x", 256), "-",
	" padded\t", "\xff\xe9t\xe9", "K\u00f6ln \u65e5\u672c\r\n", "@x", "%s%41+\""}
var cliTimes = []string{"2001-02-03T04:05:06Z", "1970-01-01T00:00:01Z", "2020-01-01T00:00:00+01:00", "2106-02-07T06:28:14Z", "1969-12-31T23:59:59Z", "2106-02-07T06:28:16Z", "yesterday", "",
	"2038-01-19T03:14:08Z", "2099-12-31T23:59:59-11:30"}
var cliDicts = [][]byte{nil, []byte("the first dictionary: abcabcabc hello"), bytes.Repeat([]byte("another one; goodbye goodbye 0123456789 "), 1000),
	[]byte("\r\n \tspace at both ends=\n\n"), {0, 255, 10, 0, 128, 0xef, 0xbb, 0xbf, '@', 0, 0, 13, 10, 0}}

func cliFormat(opts []CliOpt, dec bool) (f string, wb int, dict int) {
	f, wb = "gzip", 15
	if dec {
		f = "auto"
	}
	for _, o := range opts {
		v := strings.ToLower(str(o.V))
		switch o.O {
		case "F":
			switch v {
			case "auto", "default", "defaultformat":
				f = "gzip"
				if dec {
					f = "auto"
				}
			case "raw", "rawformat":
				f = "raw"
			case "zlib", "zlibformat":
				f = "zlib"
			case "gzip", "gzipformat":
				f = "gzip"
			}
		case "W":
			wb = 15
			if x, err := strconv.Atoi(v); err == nil && x >= 8 && x <= 15 {
				wb = x
			}
		case "d":
			dict, _ = strconv.Atoi(v)
		}
	}
	return
}

func str(v []int) string {
	b := make([]byte, len(v))
	for i := range v {
		b[i] = byte(v[i])
	}
	return string(b)
}

// args makes the real arguments of the tokens.
func (c *CliCase) args(rng *rand.Rand, dir string) (args []string, opts []CliOpt) {
	opts = []CliOpt{}
	long := map[string]string{"F": "format", "S": "strategy", "C": "compress-level", "M": "memory-level", "W": "window-size-bits"}
	for _, t := range c.Opts {
		o, v := t, ""
		if i := strings.IndexByte(t, '='); i > 0 {
			o, v = t[:i], t[i+1:]
		}
		text := v
		switch o {
		case "F", "S", "C", "M", "W":
			switch rng.Intn(4) {
			case 0:
				args = append(args, "-"+o, v)
			case 1:
				args = append(args, "-"+o+v)
			case 2:
				args = append(args, "--"+long[o]+"="+v)
			default:
				args = append(args, "--"+long[o], v)
			}
			if v == "" {
				args = append(args[:len(args)-1], "--"+long[o]+"=")
			}
		case "n", "m", "t":
			k, _ := strconv.Atoi(v)
			name, list := "filename", cliNames
			if o == "m" {
				name = "comment"
			} else if o == "t" {
				name, list = "last-modified", cliTimes
			}
			text = list[k]
			args = append(args, "--"+name+"="+text)
		case "d":
			k, _ := strconv.Atoi(v)
			if (k == 1 || k == 3) && rng.Intn(2) == 0 {
				args = append(args, "--dictionary="+string(cliDicts[k]))
				break
			}
			f := filepath.Join(dir, "dict"+v)
			if err := os.WriteFile(f, cliDicts[k], 0600); err != nil {
				panic(err)
			}
			args = append(args, "--dictionary", "@"+f)
		case "dx": // a dictionary that is not there
			args = append(args, "--dictionary", "@"+filepath.Join(dir, "missing"))
		case "P": // profiles
			args = append(args, "--cpu-profile", filepath.Join(dir, "cpu"), "--mem-profile="+filepath.Join(dir, "mem"))
		case "Px":
			args = append(args, "--mem-profile="+filepath.Join(dir, "no", "mem"))
		case "Py":
			args = append(args, "--cpu-profile="+filepath.Join(dir, "no", "cpu"))
		case "Z":
			args = append(args, "--no-such-option")
		default: // flags
			args = append(args, "-"+o)
		}
		opts = append(opts, CliOpt{O: o, V: ints(text)})
	}
	return
}

// feed writes data to a pipe in pieces.
func feed(w io.WriteCloser, data []byte, rng *rand.Rand, slow bool) {
	defer w.Close()
	for len(data) > 0 {
		n := len(data)
		if slow {
			n = 1 + rng.Intn(1+n/3)
			time.Sleep(time.Millisecond)
		}
		if _, err := w.Write(data[:n]); err != nil {
			return
		}
		data = data[n:]
	}
}

// command runs the program once.
func (c *CliCase) command(rng *rand.Rand, dir string, args []string, in []byte, stdin, stdout string) (exit int, out, errout []byte) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, c.Exe, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "TZ=Asia/Kolkata") // no result may depend on it
	var ebuf bytes.Buffer
	cmd.Stderr = &ebuf
	var obuf bytes.Buffer
	fail := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	switch stdout {
	case "full":
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		fail(err)
		defer f.Close()
		cmd.Stdout = f
	case "broken":
		r, w, err := os.Pipe()
		fail(err)
		r.Close()
		defer w.Close()
		cmd.Stdout = w
	case "file":
		f, err := os.CreateTemp(dir, "out")
		fail(err)
		defer f.Close()
		cmd.Stdout = f
	default:
		cmd.Stdout = &obuf
	}
	switch stdin {
	case "dir":
		f, err := os.Open(dir)
		fail(err)
		defer f.Close()
		cmd.Stdin = f
	case "file":
		f, err := os.CreateTemp(dir, "in")
		fail(err)
		_, err = f.Write(in)
		fail(err)
		_, err = f.Seek(0, 0)
		fail(err)
		defer f.Close()
		cmd.Stdin = f
	default:
		r, w, err := os.Pipe()
		fail(err)
		cmd.Stdin = r
		go feed(w, in, rand.New(rand.NewSource(c.Seed)), stdin == "slow")
		defer r.Close()
	}
	err := cmd.Run()
	var ee *exec.ExitError
	switch {
	case ctx.Err() != nil:
		exit = -2
	case errors.As(err, &ee):
		exit = ee.ExitCode()
	case err != nil:
		panic(err)
	}
	out = obuf.Bytes()
	if f, ok := cmd.Stdout.(*os.File); ok && stdout == "file" {
		f.Seek(0, 0)
		out, err = io.ReadAll(f)
		fail(err)
	}
	return exit, out, ebuf.Bytes()
}

func (o *cliObs) logged(errout []byte) {
	o.Log, o.Level, o.WBits = []string{}, -1, -1
	for _, l := range bytes.Split(errout, []byte("\n")) {
		var e struct {
			Event *struct {
				Type   string
				Header *struct{ WindowBits, CompressLevel int }
			} `json:"event"`
		}
		if json.Unmarshal(l, &e) != nil || e.Event == nil {
			continue
		}
		o.Log = append(o.Log, e.Event.Type)
		if h := e.Event.Header; h != nil && e.Event.Type == "stream-header" {
			o.Level, o.WBits = h.CompressLevel, h.WindowBits
		}
	}
}

func runCli(c *CliCase) interface{} {
	rng := rand.New(rand.NewSource(c.Seed))
	dir, err := os.MkdirTemp(c.Dir, "cli")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	args, opts := c.args(rng, dir)
	o := &cliObs{Opts: opts, OAlts: []oalt{}, Log: []string{}, Level: -1, WBits: -1}
	for _, p := range opts {
		if p.O == "L" {
			for _, q := range opts {
				o.Logged = o.Logged || q.O == "D"
			}
		}
	}
	o.Dec.Opts, o.Dec.T = [][2]interface{}{}, []int{}
	o.Dec.Name, o.Dec.Comment = []int{}, []int{}
	f, wb, dict := cliFormat(opts, c.Dec)
	if c.Dec {
		if rng.Intn(2) == 0 {
			args = append(args, "-d")
		} else {
			args = append([]string{"--decompress"}, args...)
		}
		var errout, out []byte
		o.Exit, out, errout = c.command(rng, dir, args, c.Input, c.Stdin, c.Stdout)
		o.Stderr = len(errout)
		r := oracle.Decode(c.Input, oracle.Config{Fmt: f, WBits: wb, Dict: cliDicts[dict]})
		full := append(append([]byte{}, r.Out...), r.Part...)
		o.N, o.Len = len(out), len(c.Input)
		for o.Common < len(out) && o.Common < len(full) && out[o.Common] == full[o.Common] {
			o.Common++
		}
		o.OErr, o.ON, o.OFull = r.Err, len(r.Out), len(full)
		for _, a := range r.Alts {
			o.OAlts = append(o.OAlts, oalt{a.Err, a.Lo, a.Hi})
		}
		o.logged(errout)
		return o
	}
	data := c.Data.Bytes()
	o.Len = len(data)
	exit, out, errout := c.command(rng, dir, args, data, c.Stdin, c.Stdout)
	o.Exit, o.N, o.Stderr = exit, len(out), len(errout)
	o.logged(errout)
	if exit != 0 || c.Stdout == "full" || c.Stdout == "broken" {
		return o
	}
	o.Dec.D = dict
	o.Dec.analyse(out, data, cliDicts, &o.Dec)
	// and back, with the decoding options only
	var back []string
	if dict > 0 {
		back = append(back, "--dictionary=@"+filepath.Join(dir, "dict"+strconv.Itoa(dict)))
		os.WriteFile(filepath.Join(dir, "dict"+strconv.Itoa(dict)), cliDicts[dict], 0600)
	}
	if rng.Intn(2) == 0 {
		back = append(back, "-F", f)
	}
	if rng.Intn(2) == 0 {
		back = append(back, "-W"+strconv.Itoa(wb))
	}
	back = append(back, "-d", "-c")
	var ret []byte
	o.BackExit, ret, _ = c.command(rng, dir, back, out, "pipe", "pipe")
	o.Back = bytes.Equal(ret, data)
	return o
}

// clis makes the cases: every option sequence from the specification, with
// data; damaged inputs; failing input and output.
func (g *maker) clis(seqs [][]string, exe, dir string) {
	add := func(note string, c *CliCase) {
		c.Exe, c.Dir, c.Seed = exe, dir, g.rng.Int63()
		if c.Stdin == "" {
			c.Stdin = []string{"pipe", "file", "slow"}[g.rng.Intn(3)]
		}
		if c.Stdout == "" {
			c.Stdout = []string{"pipe", "pipe", "file"}[g.rng.Intn(3)]
		}
		if c.Opts == nil {
			c.Opts = []string{}
		}
		g.out = append(g.out, Case{Note: note, Cli: c})
	}
	data := func(max int) *gen.Data {
		d := gen.RandData(g.rng, gen.Logu(g.rng, max)-1)
		return &d
	}
	keep := g.n(1500, len(seqs))
	for _, q := range seqs {
		if len(q) > 2 && len(seqs) > keep && g.rng.Intn(len(seqs)) >= keep {
			continue
		}
		add("generated options", &CliCase{Opts: q[1:], Data: data(2000)})
	}
	good := []string{"F=raw", "F=zlib", "F=gzip", "F=auto", "S=default", "S=huffman-only", "S=huffman-rle", "S=fixed", "C=default", "C=0", "C=1", "C=4", "C=9", "3", "0", "9",
		"M=1", "M=9", "M=default", "W=8", "W=12", "W=15", "W=default", "d=1", "d=2", "d=3", "d=4", "n=1", "n=8", "m=2", "m=9", "m=10", "t=0", "t=2", "t=8", "c", "k", "f", "v", "D", "L", "P"}
	mix := func(n int) []string {
		out := []string{}
		lvl := false
		for i := 0; i < n; i++ {
			o := good[g.rng.Intn(len(good))]
			l := o[0] == 'C' || (o[0] >= '0' && o[0] <= '9')
			if l && lvl {
				continue
			}
			lvl = lvl || l
			out = append(out, o)
		}
		return out
	}
	for _, o := range []string{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "C=default", "C=0", "C=1", "C=2", "C=3", "C=4", "C=5", "C=6", "C=7", "C=8", "C=9",
		"W=8", "W=9", "W=10", "W=11", "W=12", "W=13", "W=14", "W=15", "W=default", "F=raw", "F=zlib", "S=fixed", "M=1", "M=8"} {
		add("logged options", &CliCase{Opts: []string{"L", o, "D"}, Data: data(600)})
	}
	for i := 0; i < g.n(200, 4000); i++ {
		max := 3000
		if i%8 == 0 {
			max = 300000
		}
		add("mixed options", &CliCase{Opts: mix(g.rng.Intn(7)), Data: data(max)})
	}
	for _, d := range []gen.Data{{G: "period", N: 5<<20 + 3, A: 700}, {G: "zero", N: 17 << 20}, {G: "rand", N: 17<<20 + 1, Seed: 5}}[:g.n(2, 3)] {
		d := d
		add("long data", &CliCase{Opts: []string{"1"}, Data: &d})
	}
	for _, o := range [][]string{nil, {"F=raw"}, {"F=zlib", "9"}, {"0"}, {"S=fixed"}, {"P"}} {
		for _, n := range []int{0, 1, 100, 5000, 200000} {
			d := gen.Data{G: "rand", N: n, Seed: g.rng.Int63n(1 << 30)}
			add("full device", &CliCase{Opts: o, Data: &d, Stdout: "full"})
			add("broken pipe", &CliCase{Opts: o, Data: &d, Stdout: "broken"})
		}
		add("unreadable input", &CliCase{Opts: o, Data: &gen.Data{G: "zero"}, Stdin: "dir"})
		add("unreadable input", &CliCase{Opts: o, Input: []byte{}, Dec: true, Stdin: "dir"})
	}
	// decompression
	for i := 0; i < g.n(900, 9000); i++ {
		f := []string{"raw", "zlib", "gzip"}[g.rng.Intn(3)]
		var opts []string
		wb, dict := 15, 0
		if g.rng.Intn(3) == 0 {
			wb = 8 + g.rng.Intn(8)
			opts = append(opts, fmt.Sprintf("W=%d", wb))
			if g.rng.Intn(4) == 0 {
				wb = 8 + g.rng.Intn(8)
			}
		}
		if f != "gzip" && g.rng.Intn(4) == 0 {
			dict = 1 + g.rng.Intn(4)
		}
		switch g.rng.Intn(6) {
		case 0, 1:
		case 2:
			opts = append(opts, "F=auto")
		case 3:
			if dict == 0 {
				opts = append(opts, "F="+[]string{"raw", "zlib", "gzip"}[g.rng.Intn(3)])
			}
		default:
			opts = append(opts, "F="+f)
		}
		if g.rng.Intn(4) == 0 {
			opts = append(opts, []string{"L", "D", "v", "M=3", "S=fixed", "5", "P", "c", "k"}[g.rng.Intn(9)])
		}
		if g.rng.Intn(8) == 0 {
			opts = append(opts, "L", "D")
		}
		b := gen.NewBuilder(g.rng, cliDicts[dict], wb)
		b.RandMember(f, 1+g.rng.Intn(3), 1+gen.Logu(g.rng, 60), 40)
		if f != "raw" && g.rng.Intn(4) == 0 {
			b.RandMember(f, 1, 10, 40)
		}
		in := append([]byte{}, b.W.B...)
		if dict > 0 && f == "gzip" {
			dict = 0
		}
		if dict > 0 && g.rng.Intn(8) != 0 {
			opts = append(opts, fmt.Sprintf("d=%d", dict))
		} else if f == "zlib" && g.rng.Intn(10) == 0 {
			opts = append(opts, "F=zlib", fmt.Sprintf("d=%d", 1+g.rng.Intn(4)))
		}
		note := "valid"
		switch g.rng.Intn(7) {
		case 0:
			note, in = "truncated", in[:g.rng.Intn(len(in))]
		case 1, 2:
			note = "flipped bit"
			in[g.rng.Intn(len(in))] ^= 1 << uint(g.rng.Intn(8))
		case 3:
			note = "appended"
			t := make([]byte, 1+g.rng.Intn(4))
			g.rng.Read(t)
			in = append(in, t...)
		}
		c := &CliCase{Opts: opts, Dec: true, Input: in}
		if g.rng.Intn(12) == 0 {
			c.Stdout = []string{"full", "broken"}[g.rng.Intn(2)]
		}
		add("decompress "+note, c)
	}
	add("decompress nothing", &CliCase{Dec: true, Input: []byte{}})
	for _, o := range []string{"Px", "Py", "dx", "Z", "F=x", "W=7", "C=10", "M=0x1", "S=", "t=6"} {
		add("bad option", &CliCase{Opts: []string{o}, Data: data(100)})
		add("bad option", &CliCase{Opts: []string{o}, Dec: true, Input: goodGzip()})
	}
}

func goodGzip() []byte {
	b := gen.NewBuilder(rand.New(rand.NewSource(1)), nil, 15)
	b.RandMember("gzip", 2, 30, 40)
	return b.W.B
}
