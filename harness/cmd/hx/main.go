// Command hx runs cases against the real code and writes what it observed in
// the form that the TLA+ trace specifications read.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/chronos-tachyon/flate/verifharness/fam"
	"github.com/chronos-tachyon/flate/verifharness/misc"
	"github.com/chronos-tachyon/flate/verifharness/run"
	"github.com/chronos-tachyon/flate/verifharness/sup"
)

func main() {
	// results must not depend on the time zone here
	time.Local = time.FixedZone("", 5*3600+1800)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: hx cmd ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		sup.Serve(work)
	case "cold":
		cold()
	case "version":
		fmt.Println(runtime.Version(), runtime.GOARCH)
	case "misc":
		miscCmd(os.Args[2:])
	case "reader":
		reader(os.Args[2:])
	case "writer":
		writer(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

type reply struct {
	R     []run.ReaderObs `json:"r,omitempty"`
	W     []run.EpochObs  `json:"w,omitempty"`
	M     json.RawMessage `json:"m,omitempty"`
	Fault string          `json:"fault,omitempty"`
}

func work(line []byte) (out []byte) {
	var rep reply
	defer func() {
		if p := recover(); p != nil {
			rep.Fault = fmt.Sprintf("panic: %v", p)
			out, _ = json.Marshal(rep)
		}
	}()
	var x misc.Case
	if err := json.Unmarshal(line, &x); err != nil {
		panic(err)
	}
	if x.Kind != "" {
		rep.M, _ = json.Marshal(x.Run())
		out, _ = json.Marshal(rep)
		return
	}
	var c fam.Case
	if err := json.Unmarshal(line, &c); err != nil {
		panic(err)
	}
	if c.Stir == "cold" {
		return startCold(line)
	}
	do := func() {
		if c.R != nil {
			rep.R = run.RunReader(c.R)
		}
		if c.W != nil {
			rep.W = run.RunWriter(c.W)
		}
	}
	if c.Stir == "" {
		do()
	} else if bad := run.WithOthers(c.Stir, int64(len(c.ID))+int64(len(line)), do); len(bad) > 0 {
		rep.Fault = "other-instance:" + strings.Join(bad, "; ")
	}
	out, _ = json.Marshal(rep)
	return
}

// startCold has a new process execute the case in several goroutines at once,
// so that whatever the code sets up when it is first used is set up then.
func startCold(line []byte) []byte {
	cmd := exec.Command(os.Args[0], "cold")
	cmd.Stdin = bytes.NewReader(line)
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		out, _ = json.Marshal(reply{Fault: sup.First(errb.String())})
	}
	return out
}

func cold() {
	line, err := io.ReadAll(os.Stdin)
	check(err)
	const n = 6
	var reps [n]reply
	var cs [n]fam.Case
	for i := range cs {
		check(json.Unmarshal(line, &cs[i]))
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range cs {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			c := &cs[i]
			if i%2 == 1 {
				misc.Touch()
			}
			if c.R != nil {
				reps[i].R = run.RunReader(c.R)
			}
			if c.W != nil {
				reps[i].W = run.RunWriter(c.W)
			}
		}()
	}
	close(start)
	wg.Wait()
	out, err := json.Marshal(reps[0])
	check(err)
	for i := range reps {
		if x, _ := json.Marshal(reps[i]); !bytes.Equal(x, out) {
			out, _ = json.Marshal(reply{Fault: "instances-started-together-differ"})
			break
		}
	}
	os.Stdout.Write(out)
}

type sink struct {
	f *os.File
	w *bufio.Writer
	n int
}

func create(name string) *sink {
	f, err := os.Create(name)
	check(err)
	return &sink{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

func (s *sink) put(v interface{}) {
	b, err := sup.Line(v)
	check(err)
	s.w.Write(b)
	s.n++
}

func (s *sink) close() { check(s.w.Flush()); check(s.f.Close()) }

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "hx:", err)
		os.Exit(3)
	}
}

func pool(timeout time.Duration) *sup.Pool {
	return &sup.Pool{Exe: os.Args[0], Args: []string{"worker"}, Timeout: timeout}
}

func reader(args []string) {
	fs := flag.NewFlagSet("reader", flag.ExitOnError)
	prop := fs.String("prop", "P03", "")
	seed := fs.Int64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	small := fs.String("small", "small.ndjson", "")
	big := fs.String("big", "big.ndjson", "")
	casesOut := fs.String("cases", "", "")
	replay := fs.String("replay", "", "")
	stir := fs.String("stir", "", "")
	every := fs.Int("every", 1, "")
	fs.Parse(args)
	cases := getCases(*replay, func() []fam.Case { return fam.Reader(*prop, *seed, *tier) })
	cases = restir(cases, *stir, *every)
	lines := marshal(cases, *casesOut)
	res := pool(15 * time.Second).Run(lines)
	s, b := create(*small), create(*big)
	obs, vars, nbytes, nout, skipped := 0, 0, 0, 0, 0
	notes := map[string]int{}
	for i := range cases {
		c := &cases[i]
		var rep reply
		fault := res[i].Fault
		if fault == "skipped" {
			skipped++
			continue
		}
		if fault == "" {
			check(json.Unmarshal(res[i].Out, &rep))
			fault = rep.Fault
		}
		rec := fam.MakeReaderRec(c, rep.R, fault)
		notes[c.Note]++
		obs += len(rep.R)
		vars += len(c.R.Vars)
		nbytes += len(c.R.B)
		nout += rec.Orc.N
		if c.Big {
			b.put(rec)
		} else {
			s.put(rec)
		}
	}
	s.close()
	b.close()
	sum, _ := json.Marshal(map[string]interface{}{"cases": len(cases), "small": s.n, "big": b.n, "observations": obs, "executions": vars,
		"input_bytes": nbytes, "output_bytes": nout, "skipped": skipped, "kinds": notes})
	fmt.Println(string(sum))
}

// getCases makes the cases of a family or takes them from a replay file.
func getCases(replay string, mk func() []fam.Case) []fam.Case {
	if replay == "" {
		return mk()
	}
	b, err := os.ReadFile(replay)
	check(err)
	var c struct {
		fam.Case
		Inner *fam.Case `json:"case"`
	}
	check(json.Unmarshal(b, &c))
	if c.Inner != nil {
		return []fam.Case{*c.Inner}
	}
	return []fam.Case{c.Case}
}

// restir takes some of the cases and has other instances work differently.
func restir(cases []fam.Case, mode string, every int) (out []fam.Case) {
	for i, c := range cases {
		if i%every == 0 {
			if mode != "" {
				c.Stir = mode
			}
			out = append(out, c)
		}
	}
	return
}

func marshal(cases []fam.Case, out string) [][]byte {
	lines := make([][]byte, len(cases))
	for i := range cases {
		b, err := json.Marshal(&cases[i])
		check(err)
		lines[i] = b
	}
	if out != "" {
		f := create(out)
		for _, l := range lines {
			f.w.Write(l)
			f.w.WriteByte('\n')
		}
		f.close()
	}
	return lines
}

func readSeqs(name string) (out [][]string) {
	if name == "" {
		return nil
	}
	b, err := os.ReadFile(name)
	check(err)
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) > 0 {
			out = append(out, f)
		}
	}
	return
}

func writer(args []string) {
	fs := flag.NewFlagSet("writer", flag.ExitOnError)
	prop := fs.String("prop", "P01", "")
	seed := fs.Int64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	bits := fs.String("bits", "bits.ndjson", "")
	api := fs.String("api", "api.ndjson", "")
	casesOut := fs.String("cases", "", "")
	replay := fs.String("replay", "", "")
	seqs := fs.String("seqs", "", "")
	stir := fs.String("stir", "", "")
	every := fs.Int("every", 1, "")
	fs.Parse(args)
	cases := getCases(*replay, func() []fam.Case { return fam.Writer(*prop, *seed, *tier, readSeqs(*seqs)) })
	cases = restir(cases, *stir, *every)
	lines := marshal(cases, *casesOut)
	res := pool(20 * time.Second).Run(lines)
	a, b := create(*api), create(*bits)
	epochs, ops, nin, nout, skipped, calls, rts := 0, 0, 0, 0, 0, 0, 0
	notes := map[string]int{}
	for i := range cases {
		c := &cases[i]
		var rep reply
		fault := res[i].Fault
		if fault == "skipped" {
			skipped++
			continue
		}
		if fault == "" {
			check(json.Unmarshal(res[i].Out, &rep))
			fault = rep.Fault
		}
		notes[c.Note]++
		recs, bs := fam.MakeWriterRecs(c, rep.W, fault)
		for _, r := range recs {
			a.put(r)
			epochs++
			ops += len(r.Ops)
			nin += r.Written
			nout += r.Size
			rts += len(r.RT)
			for _, o := range r.Ops {
				calls += len(o.Calls)
			}
		}
		for _, r := range bs {
			b.put(r)
		}
	}
	a.close()
	b.close()
	sum, _ := json.Marshal(map[string]interface{}{"cases": len(cases), "epochs": epochs, "bits": b.n, "operations": ops, "input_bytes": nin,
		"output_bytes": nout, "sink_calls": calls, "reader_round_trips": rts, "skipped": skipped, "kinds": notes})
	fmt.Println(string(sum))
}

func miscCmd(args []string) {
	fs := flag.NewFlagSet("misc", flag.ExitOnError)
	kind := fs.String("kind", "enum", "")
	seed := fs.Int64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	out := fs.String("out", "misc.ndjson", "")
	casesOut := fs.String("cases", "", "")
	replay := fs.String("replay", "", "")
	seqs := fs.String("seqs", "", "")
	exe := fs.String("exe", "", "")
	dir := fs.String("dir", "", "")
	fs.Parse(args)
	var cases []misc.Case
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		check(err)
		var x struct {
			Case misc.Case `json:"case"`
		}
		check(json.Unmarshal(b, &x))
		cases = []misc.Case{x.Case}
	} else {
		cases = misc.Cases(*kind, *seed, *tier, readSeqs(*seqs), *exe, *dir)
	}
	lines := make([][]byte, len(cases))
	for i := range cases {
		b, err := json.Marshal(&cases[i])
		check(err)
		lines[i] = b
	}
	if *casesOut != "" {
		f := create(*casesOut)
		for _, l := range lines {
			f.w.Write(l)
			f.w.WriteByte('\n')
		}
		f.close()
	}
	timeout := 60 * time.Second
	if strings.HasPrefix(*kind, "huge") || *kind == "" {
		timeout = 400 * time.Second
	}
	res := pool(timeout).Run(lines)
	s := create(*out)
	notes := map[string]int{}
	skipped := 0
	for i := range cases {
		var rep reply
		fault := res[i].Fault
		if fault == "skipped" {
			skipped++
			continue
		}
		if fault == "" {
			check(json.Unmarshal(res[i].Out, &rep))
			fault = rep.Fault
		}
		notes[cases[i].Note]++
		s.put(misc.Record(&cases[i], rep.M, fault))
	}
	s.close()
	sum, _ := json.Marshal(map[string]interface{}{"cases": s.n, "skipped": skipped, "kinds": notes})
	fmt.Println(string(sum))
}
