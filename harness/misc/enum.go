package misc

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/chronos-tachyon/flate"
)

// EnumCase asks for the facts about some values of, or texts for, a type.
type EnumCase struct {
	Type string   `json:"type"`
	Vals []int    `json:"vals"`
	In   [][]byte `json:"in"`
	Raw  [][]byte `json:"raw"`
	Sums []uint32 `json:"sums"`
}

// ValObs are the forms of one value.
type ValObs struct {
	V     int    `json:"v"`
	Valid int    `json:"valid"` // 0 1, -1 = the type has no such method
	Str   []int  `json:"str"`
	Go    []int  `json:"go"`
	JKind string `json:"jk"` // s, n, bad, panic
	JS    []int  `json:"js"`
	JN    int    `json:"jn"`
	SP    bool   `json:"sp"` // String panicked
	GP    bool   `json:"gp"`
}

// ParseObs is the result of parsing a text.
type ParseObs struct {
	In    []int `json:"in"`
	Ascii bool  `json:"ascii"`
	OK    bool  `json:"ok"`
	V     int   `json:"v"`
	Panic bool  `json:"panic"`
	W     []int `json:"w"` // checksum value as two halves
}

// SumObs are the forms of one checksum value.
type SumFormObs struct {
	W    []int `json:"w"`
	Str  []int `json:"str"`
	Go   []int `json:"go"`
	JOK  bool  `json:"jok"`  // the JSON form is a JSON string
	JS   []int `json:"js"`   // ... this one
	Back []int `json:"back"` // and decodes to this value
}

type enumObs struct {
	Vals   []ValObs     `json:"vals"`
	Parses []ParseObs   `json:"parses"`
	Sums   []SumFormObs `json:"sums"`
}

type enumType struct {
	valid func(int) bool
	val   func(int) interface{}
	parse func(string) (int, error)
	lo    int
	hi    int
}

var enumTypes = map[string]enumType{
	"Format": {valid: func(i int) bool { return flate.Format(i).IsValid() }, val: func(i int) interface{} { return flate.Format(i) },
		parse: func(s string) (int, error) { v := flate.Format(77); err := v.Parse(s); return int(v), err }, hi: 255},
	"Strategy": {valid: func(i int) bool { return flate.Strategy(i).IsValid() }, val: func(i int) interface{} { return flate.Strategy(i) },
		parse: func(s string) (int, error) { v := flate.Strategy(77); err := v.Parse(s); return int(v), err }, hi: 255},
	"CompressLevel": {valid: func(i int) bool { return flate.CompressLevel(i).IsValid() }, val: func(i int) interface{} { return flate.CompressLevel(i) },
		parse: func(s string) (int, error) { v := flate.CompressLevel(77); err := v.Parse(s); return int(v), err }, lo: -128, hi: 127},
	"MemoryLevel": {valid: func(i int) bool { return flate.MemoryLevel(i).IsValid() }, val: func(i int) interface{} { return flate.MemoryLevel(i) },
		parse: func(s string) (int, error) { v := flate.MemoryLevel(77); err := v.Parse(s); return int(v), err }, hi: 255},
	"WindowBits": {valid: func(i int) bool { return flate.WindowBits(i).IsValid() }, val: func(i int) interface{} { return flate.WindowBits(i) },
		parse: func(s string) (int, error) { v := flate.WindowBits(77); err := v.Parse(s); return int(v), err }, hi: 255},
	"Method":    {valid: func(i int) bool { return flate.Method(i).IsValid() }, val: func(i int) interface{} { return flate.Method(i) }, hi: 255},
	"FlushType": {valid: func(i int) bool { return flate.FlushType(i).IsValid() }, val: func(i int) interface{} { return flate.FlushType(i) }, hi: 255},
	"DataType":  {valid: func(i int) bool { return flate.DataType(i).IsValid() }, val: func(i int) interface{} { return flate.DataType(i) }, hi: 255},
	"OSType":    {valid: func(i int) bool { return flate.OSType(i).IsValid() }, val: func(i int) interface{} { return flate.OSType(i) }, hi: 255},
	"BlockType": {val: func(i int) interface{} { return flate.BlockType(i) }, hi: 255},
	"EventType": {val: func(i int) interface{} { return flate.EventType(i) }, hi: 255},
}

func halves(x uint32) []int { return []int{int(x >> 16), int(x & 0xffff)} }

func runEnum(c *EnumCase) enumObs {
	o := enumObs{Vals: []ValObs{}, Parses: []ParseObs{}, Sums: []SumFormObs{}}
	if c.Type == "Checksum32" {
		for _, s := range c.Sums {
			v := flate.Checksum32(s)
			x := SumFormObs{W: halves(s), Str: ints(v.String()), Go: ints(v.GoString()), JS: []int{}, Back: []int{}}
			if raw, err := json.Marshal(v); err == nil {
				var t string
				if json.Unmarshal(raw, &t) == nil {
					x.JOK, x.JS = true, ints(t)
				}
				var b flate.Checksum32
				if json.Unmarshal(raw, &b) == nil {
					x.Back = halves(uint32(b))
				}
			}
			o.Sums = append(o.Sums, x)
		}
		for _, raw := range c.Raw {
			p := ParseObs{In: ints(string(raw)), W: []int{0, 0}, Ascii: true}
			p.Panic = caught(func() {
				var b flate.Checksum32
				err := b.UnmarshalJSON(raw)
				p.OK, p.W = err == nil, halves(uint32(b))
			})
			o.Parses = append(o.Parses, p)
		}
		return o
	}
	t := enumTypes[c.Type]
	for _, i := range c.Vals {
		v := t.val(i)
		x := ValObs{V: i, Valid: -1, Str: []int{}, Go: []int{}, JS: []int{}, JKind: "panic"}
		if t.valid != nil {
			x.Valid = 0
			if t.valid(i) {
				x.Valid = 1
			}
		}
		x.SP = caught(func() { x.Str = ints(v.(fmt.Stringer).String()) })
		x.GP = caught(func() { x.Go = ints(v.(fmt.GoStringer).GoString()) })
		caught(func() {
			raw, err := v.(json.Marshaler).MarshalJSON()
			x.JKind = "bad"
			var any interface{}
			if err != nil || json.Unmarshal(raw, &any) != nil {
				return
			}
			switch y := any.(type) {
			case string:
				x.JKind, x.JS = "s", ints(y)
			case float64:
				if y == float64(int(y)) {
					x.JKind, x.JN = "n", int(y)
				}
			}
		})
		o.Vals = append(o.Vals, x)
	}
	for _, b := range c.In {
		s := string(b)
		p := ParseObs{In: ints(s), Ascii: true, W: []int{0, 0}}
		for i := range s {
			if s[i] >= 128 {
				p.Ascii = false
			}
		}
		p.Panic = caught(func() {
			v, err := t.parse(s)
			p.V, p.OK = v, err == nil
		})
		o.Parses = append(o.Parses, p)
	}
	return o
}

var words = []string{"", "default", "auto", "raw", "zlib", "gzip", "none", "best", "fastest", "huffman-only", "huffman-rle", "fixed", "static", "deflate", "rle",
	"DefaultFormat", "RawFormat", "ZlibFormat", "GZIPFormat", "DefaultStrategy", "HuffmanOnlyStrategy", "HuffmanRLEStrategy", "FixedStrategy",
	"DefaultCompression", "NoCompression", "FastestCompression", "BestCompression", "DefaultMemory", "SmallestMemory", "FastestMemory",
	"DefaultWindowBits", "MinWindowBits", "MaxWindowBits", "CompressLevel(3)", "unknown", "null", "true", "gz", "gzip ", " gzip", "huffman_only", "huffmanonly", "raw\x00", "-", "+", "x"}

func mixCase(rng *rand.Rand, s string) string {
	b := []byte(s)
	for i := range b {
		if rng.Intn(2) == 0 {
			b[i] = strings.ToUpper(string(b[i : i+1]))[0]
		} else {
			b[i] = strings.ToLower(string(b[i : i+1]))[0]
		}
	}
	return string(b)
}

func (g *maker) enums() {
	names := []string{"Format", "Strategy", "CompressLevel", "MemoryLevel", "WindowBits", "Method", "FlushType", "DataType", "OSType", "BlockType", "EventType"}
	for _, n := range names {
		t := enumTypes[n]
		var vals []int
		for i := t.lo; i <= t.hi; i++ {
			vals = append(vals, i)
		}
		g.out = append(g.out, Case{Note: n + " values", Enum: &EnumCase{Type: n, Vals: vals}})
		if t.parse == nil {
			continue
		}
		set := map[string]bool{}
		var in [][]byte
		add := func(s string) {
			if !set[s] {
				set[s] = true
				in = append(in, []byte(s))
			}
		}
		for _, w := range words {
			for _, s := range []string{w, strings.ToUpper(w), strings.ToLower(w), mixCase(g.rng, w), mixCase(g.rng, w)} {
				add(s)
			}
			if len(w) > 1 {
				add(w[1:])
				add(w[:len(w)-1])
				k := g.rng.Intn(len(w))
				add(w[:k] + string(rune('a'+g.rng.Intn(26))) + w[k+1:])
				add(w[:k] + w[k:k+1] + w[k:])
			}
			add(w + "x")
			add("x" + w)
			add(w + " ")
			add(w + "\n")
		}
		for i := -300; i <= 700; i++ {
			add(fmt.Sprint(i))
			if i >= 0 && i < 300 {
				add(fmt.Sprintf("+%d", i))
				add(fmt.Sprintf("0%d", i))
				add(fmt.Sprintf("%d ", i))
				add(fmt.Sprintf(" %d", i))
				add(fmt.Sprintf("0x%x", i))
				add(fmt.Sprintf("%d.0", i))
			}
		}
		for _, k := range []uint64{1 << 8, 1 << 16, 1 << 32, 1 << 63} {
			for d := uint64(0); d < 16; d++ {
				add(fmt.Sprint(k + d))
			}
		}
		for _, s := range []string{"1_0", "1e0", "९", "５", "18446744073709551616", "18446744073709551625", "99999999999999999999999", "--1", "0b1", "0o7", "1,0", "\xff", "1\x00"} {
			add(s)
		}
		for i := 0; i < g.n(2000, 40000); i++ {
			b := make([]byte, 1+g.rng.Intn(3))
			for j := range b {
				if g.rng.Intn(2) == 0 {
					b[j] = "0123456789"[g.rng.Intn(10)]
				} else {
					b[j] = byte(g.rng.Intn(128))
				}
			}
			add(string(b))
		}
		for len(in) > 0 {
			k := len(in)
			if k > 250 {
				k = 250
			}
			g.out = append(g.out, Case{Note: n + " texts", Enum: &EnumCase{Type: n, In: in[:k]}})
			in = in[k:]
		}
	}
	var sums []uint32
	for i := uint(0); i < 32; i++ {
		for _, d := range []uint32{0, 1, 0xffffffff, 0x5a} {
			sums = append(sums, 1<<i+d)
		}
	}
	for i := 0; i < g.n(300, 3000); i++ {
		sums = append(sums, g.rng.Uint32()>>uint(g.rng.Intn(32)))
	}
	g.out = append(g.out, Case{Note: "checksum values", Enum: &EnumCase{Type: "Checksum32", Sums: sums}})
	var raw [][]byte
	for _, s := range []string{``, `null`, `""`, `"0x"`, `"0x1"`, `"0X1"`, `"1"`, `"deadbeef"`, `"0xDEADBEEF"`, `"0xDeadBeef"`, `"0x0xff"`, `"0x1ffffffff"`, `"0x100000000"`, `"00000000ffffffff"`,
		`"-1"`, `"+1"`, `"0x-1"`, `"g"`, `"0xg"`, `"1 "`, `" 1"`, `"1_0"`, `1`, `12`, `[]`, `{}`, `true`, `"0x1`, `0x1"`, `"\u0031"`, `"0x\u0061"`, "\"1\\n\"", `"ffffffff"`, `"123456789"`} {
		raw = append(raw, []byte(s))
	}
	for i := 0; i < g.n(300, 3000); i++ {
		b := make([]byte, 1+g.rng.Intn(9))
		for j := range b {
			b[j] = "0123456789abcdefABCDEFxg-"[g.rng.Intn(25)]
		}
		p := ""
		if g.rng.Intn(2) == 0 {
			p = "0x"
		}
		raw = append(raw, []byte(`"`+p+string(b)+`"`))
	}
	g.out = append(g.out, Case{Note: "checksum texts", Enum: &EnumCase{Type: "Checksum32", Raw: raw}})
}
