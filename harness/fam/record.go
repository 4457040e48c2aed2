package fam

import (
	"github.com/chronos-tachyon/flate/verifharness/oracle"
	"github.com/chronos-tachyon/flate/verifharness/run"
)

var flevels = [4]int{1, 2, -1, 9}

// ExpEvents is the event sequence that the oracle's result implies, in the
// same form as the TLA+ machine's.
func ExpEvents(r *oracle.Result) []run.Ev {
	evs := []run.Ev{}
	for i := range r.Members {
		m := &r.Members[i]
		evs = append(evs, blank("SB"))
		if !m.HdrDone {
			break
		}
		e := blank("SH")
		e.Fmt = m.Fmt
		h := &run.Hdr{Name: run.Ints(m.Hdr.Name), Comment: run.Ints(m.Hdr.Comment), MTime: run.W32(m.Hdr.MTime), HasTime: m.Hdr.MTime != 0,
			Text: "unknown", OS: "unknown", Extra: []run.ExtraRec{}, Lvl: -1}
		switch m.Fmt {
		case "gzip":
			h.Text = "binary"
			if m.Hdr.Text {
				h.Text = "text"
			}
			if m.Hdr.OS <= 13 {
				h.OS = run.OSNames[m.Hdr.OS+1]
			}
			if m.Hdr.XFL == 2 {
				h.Lvl = 9
			} else if m.Hdr.XFL == 4 {
				h.Lvl = 1
			}
			for _, x := range m.Hdr.Extra {
				h.Extra = append(h.Extra, run.ExtraRec{ID: run.Ints(x.ID[:]), Bytes: run.Ints(x.Bytes)})
			}
		case "zlib":
			h.WB = m.Hdr.WBits
			h.Lvl = flevels[m.Hdr.FLevel]
		}
		e.H = h
		evs = append(evs, e)
		for j := range m.Blocks {
			b := &m.Blocks[j]
			e := blank("BB")
			e.Typ, e.Fin = b.Typ, b.Final
			evs = append(evs, e)
			if b.HasTrees {
				e := blank("BT")
				e.Typ, e.Fin = b.Typ, b.Final
				e.NX, e.NLL, e.ND = b.NX, b.NLL, b.ND
				e.X, e.LL, e.D = run.Trim(run.Ints(b.X)), run.Trim(run.Ints(b.LL)), run.Trim(run.Ints(b.D))
				evs = append(evs, e)
			}
			if b.Done {
				e := blank("BE")
				e.Typ, e.Fin = b.Typ, b.Final
				evs = append(evs, e)
			}
		}
		if m.BlocksDone {
			e := blank("SE")
			e.In, e.Out = m.BodyEnd-m.Start, m.OutEnd-m.OutStart
			e.A32, e.C32 = run.W32(m.A32), run.W32(m.C32)
			evs = append(evs, e)
		}
		if m.Done {
			e := blank("SC")
			e.In, e.Out = m.End-m.Start, m.OutEnd-m.OutStart
			evs = append(evs, e)
		}
	}
	return evs
}

func blank(t string) run.Ev {
	return run.Ev{T: t, X: []int{}, LL: []int{}, D: []int{}, H: &run.Hdr{Name: []int{}, Comment: []int{}, Extra: []run.ExtraRec{}}}
}

// ObsRec is an observation in the form the TLA+ modules read.
type ObsRec struct {
	Vars   []string     `json:"vars"`
	Err    string       `json:"err"`
	N      int          `json:"n"`
	Common int          `json:"common"` // length of the common prefix with the full expected data
	Out    []int        `json:"out"`    // small cases only
	Sticky bool         `json:"sticky"`
	HasEv  bool         `json:"hasev"`
	Ev     []run.Ev     `json:"ev"`
	Ev2    bool         `json:"ev2"`
	Offs   []run.Offset `json:"offs"`
}

type AltRec struct {
	Err string `json:"err"`
	Lo  int    `json:"lo"`
	Hi  int    `json:"hi"`
}

// OrcRec is the oracle's result.
type OrcRec struct {
	Err  string   `json:"err"`
	N    int      `json:"n"`
	Out  []int    `json:"out"` // small cases only
	Part []int    `json:"part"`
	Full int      `json:"full"`
	Alts []AltRec `json:"alts"`
	Ev   []run.Ev `json:"ev"`
}

// ReaderRec is one Reader case for TLC.
type ReaderRec struct {
	ID      string   `json:"id"`
	Note    string   `json:"note"`
	B       []int    `json:"b"`
	Fmt     string   `json:"fmt"`
	WB      int      `json:"wb"`
	Dict    []int    `json:"dict"`
	HasDict bool     `json:"hasdict"`
	SrcErr  string   `json:"srcerr"`
	Fault   string   `json:"fault"`
	Where   bool     `json:"where"` // judge the places which errors tell
	Orc     OrcRec   `json:"orc"`
	Obs     []ObsRec `json:"obs"`
}

// MakeReaderRec combines a case, its observations and the oracle's opinion.
func MakeReaderRec(c *Case, obs []run.ReaderObs, fault string) *ReaderRec {
	r := c.R
	cfg := oracle.Config{Fmt: r.Fmt, WBits: r.WB, SrcErr: r.SrcErr}
	if r.HasDict {
		cfg.Dict = r.Dict
	}
	res := oracle.Decode(r.B, cfg)
	full := append(append([]byte{}, res.Out...), res.Part...)
	rec := &ReaderRec{ID: c.ID, Note: c.Note, Fmt: r.Fmt, WB: r.WB, HasDict: r.HasDict, SrcErr: r.SrcErr, Fault: fault, Where: c.Where, B: []int{}, Dict: []int{}}
	rec.Orc = OrcRec{Err: res.Err, N: len(res.Out), Full: len(full), Alts: []AltRec{}, Out: []int{}, Part: []int{}, Ev: []run.Ev{}}
	wantEv := !c.Big
	for _, o := range obs {
		wantEv = wantEv || o.HasEv
	}
	if wantEv {
		rec.Orc.Ev = ExpEvents(res)
	}
	for _, a := range res.Alts {
		rec.Orc.Alts = append(rec.Orc.Alts, AltRec{a.Err, a.Lo, a.Hi})
	}
	if !c.Big {
		rec.B = run.Ints(r.B)
		if r.HasDict {
			rec.Dict = run.Ints(r.Dict)
		}
		rec.Orc.Out = run.Ints(res.Out)
		rec.Orc.Part = run.Ints(res.Part)
	}
	rec.Obs = []ObsRec{}
	for _, o := range obs {
		k := 0
		for k < len(full) && k < len(o.Out) && full[k] == o.Out[k] {
			k++
		}
		x := ObsRec{Vars: o.Vars, Err: o.Err, N: len(o.Out), Common: k, Out: []int{}, Sticky: o.Sticky, HasEv: o.HasEv, Ev: o.Ev, Ev2: o.Ev2, Offs: o.Offs}
		for i := range x.Ev {
			if x.Ev[i].H == nil {
				x.Ev[i].H = &run.Hdr{Name: []int{}, Comment: []int{}, Extra: []run.ExtraRec{}}
			}
		}
		if !c.Big {
			out := o.Out
			if len(out) > len(full)+50 {
				out = out[:len(full)+50]
			}
			x.Out = run.Ints(out)
		}
		rec.Obs = append(rec.Obs, x)
	}
	return rec
}
