// Command hxc explores schedules of small concurrent programs on the real
// Reader and Writer and writes the distinct histories.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/chronos-tachyon/flate/verifharness/conc"
	"github.com/chronos-tachyon/flate/verifharness/sup"
	"github.com/chronos-tachyon/flate/verifharness/vsync"
)

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "hxc:", err)
		os.Exit(3)
	}
}

func work(line []byte) []byte {
	var c conc.Case
	check(json.Unmarshal(line, &c))
	var r *conc.Result
	if c.R != nil {
		r = conc.RunR(c.R)
	} else {
		r = conc.RunW(c.W)
	}
	b, err := json.Marshal(r)
	check(err)
	return b
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "worker" {
		sup.Serve(work)
		return
	}
	prop := flag.String("prop", "P17", "")
	seed := flag.Int64("seed", 1, "")
	tier := flag.String("tier", "quick", "")
	out := flag.String("out", "hist.ndjson", "")
	casesOut := flag.String("cases", "", "")
	replay := flag.String("replay", "", "")
	seqs := flag.String("seqs", "", "")
	free := flag.Int("free", 0, "uncontrolled executions per case")
	only := flag.Int("only", 0, "every k-th case only")
	flag.Parse()
	var cases []conc.Case
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		check(err)
		var x struct {
			Case conc.Case `json:"case"`
		}
		check(json.Unmarshal(b, &x))
		cases = []conc.Case{x.Case}
	} else {
		var qs [][]string
		if *seqs != "" {
			b, err := os.ReadFile(*seqs)
			check(err)
			for _, l := range strings.Split(string(b), "\n") {
				if f := strings.Fields(l); len(f) > 0 {
					qs = append(qs, f)
				}
			}
		}
		cases = conc.Family(*prop, *seed, *tier, qs)
		if *only > 1 {
			var sel []conc.Case
			for i := range cases {
				if i%*only == 0 {
					sel = append(sel, cases[i])
				}
			}
			cases = sel
		}
	}
	lines := make([][]byte, len(cases))
	for i := range cases {
		c := &cases[i]
		if *free > 0 {
			if c.R != nil {
				c.R.Ex.Rand = *free
			}
			if c.W != nil {
				c.W.Ex.Rand = *free
			}
		}
		b, err := json.Marshal(c)
		check(err)
		lines[i] = b
	}
	if *casesOut != "" {
		f, err := os.Create(*casesOut)
		check(err)
		w := bufio.NewWriter(f)
		for _, l := range lines {
			w.Write(l)
			w.WriteByte('\n')
		}
		check(w.Flush())
		check(f.Close())
	}
	p := &sup.Pool{Exe: os.Args[0], Args: []string{"worker"}, Timeout: 400 * time.Second}
	res := p.Run(lines)
	f, err := os.Create(*out)
	check(err)
	w := bufio.NewWriterSize(f, 1<<20)
	nh, runs, steps, skipped := 0, 0, 0, 0
	ex := map[int]int{}
	put := func(m map[string]interface{}) {
		b, err := sup.Line(m)
		check(err)
		w.Write(b)
		nh++
	}
	for i := range cases {
		c := &cases[i]
		if res[i].Fault == "skipped" {
			skipped++
			continue
		}
		var r conc.Result
		if res[i].Fault == "" {
			check(json.Unmarshal(res[i].Out, &r))
		} else {
			h := map[string]interface{}{"ops": []int{}, "ev": []int{}, "late": 0, "live": 0, "fault": res[i].Fault}
			b, _ := json.Marshal(h)
			r.H, r.Sched, r.Count = append(r.H, b), append(r.Sched, nil), append(r.Count, 1)
		}
		runs += r.Runs
		steps += r.Steps
		ex[r.Exhausted]++
		var srcs []conc.SrcRec
		if c.R != nil {
			srcs = c.R.Expect()
		}
		for k := range r.H {
			var m map[string]interface{}
			check(json.Unmarshal(r.H[k], &m))
			m["id"] = fmt.Sprintf("%s.%d", c.ID, k)
			m["note"] = c.Note
			if srcs != nil {
				m["srcs"] = srcs
			}
			put(m)
		}
	}
	check(w.Flush())
	check(f.Close())
	// the schedules, for replay
	if *casesOut != "" {
		f, err := os.Create(*casesOut + ".sched")
		check(err)
		w := bufio.NewWriter(f)
		for i := range cases {
			var r conc.Result
			if res[i].Fault == "" && json.Unmarshal(res[i].Out, &r) == nil {
				for k := range r.Sched {
					b, _ := json.Marshal(map[string]interface{}{"id": fmt.Sprintf("%s.%d", cases[i].ID, k), "sched": r.Sched[k]})
					w.Write(b)
					w.WriteByte('\n')
				}
			}
		}
		check(w.Flush())
		check(f.Close())
	}
	b, _ := json.Marshal(map[string]interface{}{"cases": len(cases), "histories": nh, "executions": runs, "steps": steps, "skipped": skipped,
		"preemption_bound_exhausted": fmt.Sprint(ex), "controlled": vsync.Managed})
	fmt.Println(string(b))
}
