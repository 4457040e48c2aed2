// Package misc runs the cases that are neither Reader nor Writer histories:
// enumerations, checksums, options and the command line tool.
package misc

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"

	"github.com/chronos-tachyon/flate"
	"github.com/rs/zerolog"
)

// Case is one case; Kind selects the field.
type Case struct {
	ID   string    `json:"id"`
	Kind string    `json:"kind"`
	Note string    `json:"note"`
	Enum *EnumCase `json:"enum,omitempty"`
	Sum  *SumCase  `json:"sum,omitempty"`
	Conf *ConfCase `json:"conf,omitempty"`
	Cli  *CliCase  `json:"cli,omitempty"`
	Huge *HugeCase `json:"huge,omitempty"`
	Aux  *AuxCase  `json:"aux,omitempty"`
}

// Run runs a case and returns what was observed.
func (c *Case) Run() interface{} {
	switch c.Kind {
	case "enum":
		return runEnum(c.Enum)
	case "sum":
		return runSum(c.Sum)
	case "conf":
		return runConf(c.Conf)
	case "cli":
		return runCli(c.Cli)
	case "hugeR", "hugeW":
		return runHuge(c.Huge)
	case "aux":
		return runAux(c.Aux)
	}
	panic("unknown kind " + c.Kind)
}

// Cases makes the cases of a kind.
func Cases(kind string, seed int64, tier string, seqs [][]string, exe, dir string) []Case {
	g := &maker{rng: rand.New(rand.NewSource(seed*7919 + 17)), thorough: tier == "thorough"}
	switch kind {
	case "enum":
		g.enums()
	case "sum":
		g.sums()
	case "conf":
		g.confs(seqs)
	case "cli":
		g.clis(seqs, exe, dir)
	case "hugeR", "hugeW":
		g.huges(kind[4:])
	case "aux":
		g.auxs()
	}
	for i := range g.out {
		g.out[i].ID = fmt.Sprintf("%s%d", kind[:1], i)
		g.out[i].Kind = kind
	}
	return g.out
}

type maker struct {
	rng      *rand.Rand
	thorough bool
	out      []Case
}

func (g *maker) n(quick, thorough int) int {
	if g.thorough {
		return thorough
	}
	return quick
}

// Record merges the case and the observation into what the specification reads.
func Record(c *Case, obs json.RawMessage, fault string) map[string]interface{} {
	m := map[string]interface{}{"id": c.ID, "note": c.Note, "fault": fault}
	if fault == "" {
		m["obs"] = obs
	}
	switch c.Kind {
	case "enum":
		m["type"] = c.Enum.Type
	case "conf":
		m["side"] = c.Conf.Side
	case "cli":
		m["dec"], m["stdin"], m["stdout"] = c.Cli.Dec, c.Cli.Stdin, c.Cli.Stdout
	}
	return m
}

func ints(s string) []int {
	out := make([]int, len(s))
	for i := 0; i < len(s); i++ {
		out[i] = int(s[i])
	}
	return out
}

// caught calls f and reports whether it panicked.
func caught(f func()) (panicked bool) {
	defer func() {
		if recover() != nil {
			panicked = true
		}
	}()
	f()
	return
}

// Touch uses the parts of the package that no Reader or Writer needs.
func Touch() {
	text := func(x interface{}) string {
		b, _ := json.Marshal(x)
		return fmt.Sprintf("%v %#v %s", x, x, b)
	}
	for i := 0; i < 20; i++ {
		for _, x := range []interface{}{flate.Format(i % 4), flate.Strategy(i % 4), flate.CompressLevel(i % 10), flate.MemoryLevel(i % 10),
			flate.WindowBits(8 + i%8), flate.OSType(i % 15), flate.FlushType(1 + i%5), flate.BlockType(i % 4), flate.EventType(i % 9), flate.DataType(i % 3), flate.Method(i % 2)} {
			if v, ok := x.(interface{ IsValid() bool }); !ok || !v.IsValid() {
				continue
			}
			text(x)
			switch y := x.(type) {
			case flate.Format:
				y.Parse(y.String())
			case flate.Strategy:
				y.Parse(y.String())
			}
		}
	}
	tr := flate.Log(zerolog.New(io.Discard).Level(zerolog.TraceLevel))
	tr.OnEvent(flate.Event{Type: flate.StreamHeaderEvent, Header: &flate.Header{}})
	var h flate.Header
	flate.CaptureHeader(&h).OnEvent(flate.Event{Type: flate.StreamHeaderEvent, Header: &flate.Header{OSType: 3}})
}
