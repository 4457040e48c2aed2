// Package run drives the real Reader and Writer and records what they do.
package run

import (
	"reflect"
	"sync"

	"github.com/chronos-tachyon/flate"
)

// Word is a 32-bit word as <<hi16, lo16>>.
type Word [2]int

func W32(x uint32) Word { return Word{int(x >> 16), int(x & 0xffff)} }

type ExtraRec struct {
	ID    []int `json:"id"`
	Bytes []int `json:"bytes"`
}

type Hdr struct {
	Name    []int      `json:"name"`
	Comment []int      `json:"comment"`
	MTime   Word       `json:"mtime"`
	HasTime bool       `json:"hastime"`
	Text    string     `json:"text"`
	OS      string     `json:"os"`
	Extra   []ExtraRec `json:"extra"`
	WB      int        `json:"wb"`
	Lvl     int        `json:"lvl"`
}

type Ev struct {
	T    string `json:"t"`
	Fmt  string `json:"fmt"`
	In   int    `json:"in"`
	Out  int    `json:"out"`
	InT  int    `json:"inT"`
	OutT int    `json:"outT"`
	NS   int    `json:"ns"`
	H    *Hdr   `json:"h,omitempty"`
	Typ  string `json:"typ"`
	Fin  bool   `json:"fin"`
	NX   int    `json:"nx"`
	NLL  int    `json:"nll"`
	ND   int    `json:"nd"`
	X    []int  `json:"x"`
	LL   []int  `json:"ll"`
	D    []int  `json:"d"`
	A32  Word   `json:"a32"`
	C32  Word   `json:"c32"`
	// which optional parts were present
	Has string `json:"has"`
}

func Ints(b []byte) []int {
	out := make([]int, len(b))
	for i, x := range b {
		out[i] = int(x)
	}
	return out
}

func Bytes(x []int) []byte {
	out := make([]byte, len(x))
	for i, v := range x {
		out[i] = byte(v)
	}
	return out
}

// Trim drops trailing zeros.
func Trim(x []int) []int {
	for len(x) > 0 && x[len(x)-1] == 0 {
		x = x[:len(x)-1]
	}
	return x
}

var evNames = map[flate.EventType]string{
	flate.StreamBeginEvent:  "SB",
	flate.StreamHeaderEvent: "SH",
	flate.BlockBeginEvent:   "BB",
	flate.BlockTreesEvent:   "BT",
	flate.BlockEndEvent:     "BE",
	flate.StreamEndEvent:    "SE",
	flate.StreamCloseEvent:  "SC",
}

var FmtNames = map[flate.Format]string{
	flate.DefaultFormat: "auto",
	flate.RawFormat:     "raw",
	flate.ZlibFormat:    "zlib",
	flate.GZIPFormat:    "gzip",
}

var Fmts = map[string]flate.Format{
	"auto": flate.DefaultFormat,
	"raw":  flate.RawFormat,
	"zlib": flate.ZlibFormat,
	"gzip": flate.GZIPFormat,
}

var blkNames = map[flate.BlockType]string{
	flate.InvalidBlock: "bad",
	flate.StoredBlock:  "stored",
	flate.StaticBlock:  "static",
	flate.DynamicBlock: "dynamic",
}

var OSNames = []string{"unknown", "FAT", "Amiga", "VMS", "Unix", "VMCMS", "AtariTOS", "HPFS", "Macintosh", "ZSystem",
	"CPM", "TOPS20", "NTFS", "QDOS", "AcornRISCOS"}

var osConst = []flate.OSType{flate.OSTypeUnknown, flate.OSTypeFAT, flate.OSTypeAmiga, flate.OSTypeVMS, flate.OSTypeUnix,
	flate.OSTypeVMCMS, flate.OSTypeAtariTOS, flate.OSTypeHPFS, flate.OSTypeMacintosh, flate.OSTypeZSystem, flate.OSTypeCPM,
	flate.OSTypeTOPS20, flate.OSTypeNTFS, flate.OSTypeQDOS, flate.OSTypeAcornRISCOS}

func OSName(o flate.OSType) string {
	for i, c := range osConst {
		if c == o {
			return OSNames[i]
		}
	}
	return "invalid"
}

func OSConst(name string) flate.OSType {
	for i, n := range OSNames {
		if n == name {
			return osConst[i]
		}
	}
	return flate.OSType(99)
}

var textNames = map[flate.DataType]string{flate.UnknownData: "unknown", flate.BinaryData: "binary", flate.TextData: "text"}

func ConvHdr(h *flate.Header) *Hdr {
	o := &Hdr{Name: Ints([]byte(h.FileName)), Comment: Ints([]byte(h.Comment)), Text: textNames[h.DataType], OS: OSName(h.OSType),
		WB: int(h.WindowBits), Lvl: int(h.CompressLevel), Extra: []ExtraRec{}}
	if !h.LastModified.IsZero() {
		o.HasTime = true
		o.MTime = W32(uint32(h.LastModified.Unix()))
		if s := h.LastModified.Unix(); s != int64(uint32(s)) || h.LastModified.Nanosecond() != 0 {
			o.MTime = Word{-1, -1} // no time the format can express
		}
	}
	for _, r := range h.ExtraData.Records {
		o.Extra = append(o.Extra, ExtraRec{Ints(r.ID[:]), Ints(r.Bytes)})
	}
	return o
}

func ConvEvent(e flate.Event) Ev {
	o := Ev{T: evNames[e.Type], Fmt: FmtNames[e.Format], In: int(e.InputBytesStream), Out: int(e.OutputBytesStream),
		InT: int(e.InputBytesTotal), OutT: int(e.OutputBytesTotal), NS: int(e.NumStreams), X: []int{}, LL: []int{}, D: []int{}}
	if e.Header != nil {
		o.H = ConvHdr(e.Header)
		o.Has += "h"
	}
	if e.Block != nil {
		o.Typ = blkNames[e.Block.Type]
		o.Fin = e.Block.IsFinal
		o.Has += "b"
	}
	if e.Trees != nil {
		o.NX, o.NLL, o.ND = int(e.Trees.CodeCount), int(e.Trees.LiteralLengthCount), int(e.Trees.DistanceCount)
		o.X, o.LL, o.D = Trim(Ints(e.Trees.CodeSizes)), Trim(Ints(e.Trees.LiteralLengthSizes)), Trim(Ints(e.Trees.DistanceSizes))
		o.Has += "t"
	}
	if e.Footer != nil {
		o.A32, o.C32 = W32(uint32(e.Footer.Adler32)), W32(uint32(e.Footer.CRC32))
		o.Has += "f"
	}
	return o
}

// Rec is a tracer that keeps the events.
type Rec struct {
	mu  sync.Mutex
	Evs []Ev
	raw []flate.Event // the first ones, as delivered
}

func (r *Rec) OnEvent(e flate.Event) {
	x := ConvEvent(e)
	Stir()
	r.mu.Lock()
	r.Evs = append(r.Evs, x)
	if len(r.raw) < 400 {
		r.raw = append(r.raw, e)
	}
	r.mu.Unlock()
}

// Drop forgets the events so far.
func (r *Rec) Drop() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Evs, r.raw = nil, nil
}

// Kept tells whether events that were delivered are still what they were.
func (r *Rec) Kept() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	for i, e := range r.raw {
		if !reflect.DeepEqual(r.Evs[i], ConvEvent(e)) {
			return false
		}
	}
	return true
}

func (r *Rec) Take() []Ev {
	r.mu.Lock()
	defer r.mu.Unlock()
	out := r.Evs
	if out == nil {
		out = []Ev{}
	}
	return out
}
