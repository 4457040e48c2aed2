// Package gen makes input data and compressed streams from compact, seeded
// descriptions, independently of the code under test.
package gen

import (
	"math/rand"
)

// Data describes a byte sequence.
type Data struct {
	G    string `json:"g"`
	N    int    `json:"n"`
	Seed int64  `json:"seed,omitempty"`
	A    int    `json:"a,omitempty"` // alphabet size, period, number of symbols ...
	P    int    `json:"p,omitempty"` // second parameter
	Lit  []int  `json:"lit,omitempty"`
	Sub  []Data `json:"sub,omitempty"`
}

// Bytes expands the description.
func (d Data) Bytes() []byte {
	rng := rand.New(rand.NewSource(d.Seed*7919 + int64(d.N)*31 + int64(d.A)))
	n := d.N
	out := make([]byte, 0, n)
	switch d.G {
	case "lit":
		for _, x := range d.Lit {
			out = append(out, byte(x))
		}
	case "cat":
		for _, s := range d.Sub {
			out = append(out, s.Bytes()...)
		}
	case "zero":
		out = make([]byte, n)
		for i := range out {
			out[i] = byte(d.A)
		}
	case "rand":
		out = make([]byte, n)
		rng.Read(out)
	case "alpha": // uniform over A symbols starting at P
		for len(out) < n {
			out = append(out, byte(d.P+rng.Intn(d.A)))
		}
	case "text":
		for len(out) < n {
			w := words[zipf(rng, len(words))]
			out = append(out, w...)
			if rng.Intn(12) == 0 {
				out = append(out, '.', '\n')
			} else {
				out = append(out, ' ')
			}
		}
		out = out[:n]
	case "period": // random block of length A repeated
		base := make([]byte, d.A)
		rng.Read(base)
		for len(out) < n {
			out = append(out, base...)
		}
		out = out[:n]
	case "runs": // runs of length 1..A over P symbols
		for len(out) < n {
			ch := byte(rng.Intn(d.P))
			if d.P == 256 {
				ch = byte(rng.Intn(256))
			}
			for k := 1 + rng.Intn(d.A); k > 0; k-- {
				out = append(out, ch)
			}
		}
		out = out[:n]
	case "fib": // A symbols with Fibonacci frequencies, in random order
		var pool []byte
		a, b := 1, 1
		for s := 0; s < d.A; s++ {
			for k := 0; k < a; k++ {
				pool = append(pool, byte(d.P+s))
			}
			a, b = b, a+b
		}
		rng.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
		for len(out) < n {
			out = append(out, pool...)
		}
		out = out[:n]
	case "copies": // bursts of random literals and copies from up to A back
		for len(out) < n {
			if len(out) < 8 || rng.Intn(3) == 0 {
				for k := 1 + rng.Intn(1+d.P); k > 0; k-- {
					out = append(out, byte(rng.Intn(256)))
				}
				continue
			}
			maxd := len(out)
			if maxd > d.A {
				maxd = d.A
			}
			dist := logu(rng, maxd)
			l := 3 + logu(rng, 300)
			for ; l > 0; l-- {
				out = append(out, out[len(out)-dist])
			}
		}
		out = out[:n]
	case "echo": // random chunk of length P, filler, the same chunk exactly A bytes later, repeated
		for len(out) < n {
			chunk := make([]byte, d.P)
			rng.Read(chunk)
			out = append(out, chunk...)
			if fill := d.A - d.P; fill > 0 {
				f := make([]byte, fill)
				rng.Read(f)
				out = append(out, f...)
			}
			out = append(out, chunk...)
		}
		out = out[:n]
	case "lens": // every match length 3..300 once, separated by random bytes
		base := make([]byte, 600)
		rng.Read(base)
		out = append(out, base...)
		for l := 3; len(out) < n; l++ {
			if l > 300 {
				l = 3
			}
			k := rng.Intn(300)
			out = append(out, base[k:k+l]...)
			out = append(out, byte(rng.Intn(256)), byte(rng.Intn(256)), byte(rng.Intn(256)))
		}
		out = out[:n]
	case "count": // byte i with pattern
		for i := 0; i < n; i++ {
			out = append(out, byte(i*d.A+i>>8*d.P))
		}
	case "utf8":
		s := "naïve façade — Ελληνικά, кириллица, 漢字; "
		for len(out) < n {
			out = append(out, s...)
		}
		out = out[:n]
	case "skew": // literal frequencies falling by powers of 2, random order, then mixed with random copies
		for len(out) < n {
			s := 0
			for rng.Intn(2) == 1 && s < d.A-1 {
				s++
			}
			out = append(out, byte(d.P+s))
		}
	}
	return out
}

func zipf(rng *rand.Rand, n int) int {
	k := logu(rng, n)
	return k - 1
}

// logu returns a log-uniform value in 1..max.
func logu(rng *rand.Rand, max int) int {
	if max <= 1 {
		return 1
	}
	bits := 0
	for 1<<uint(bits) <= max {
		bits++
	}
	for {
		b := rng.Intn(bits)
		v := 1<<uint(b) + rng.Intn(1<<uint(b))
		if v <= max {
			return v
		}
	}
}

var words = []string{"the", "of", "and", "a", "to", "in", "is", "you", "that", "it", "he", "was", "for", "on", "are", "as", "with",
	"his", "they", "I", "at", "be", "this", "have", "from", "or", "one", "had", "by", "word", "but", "not", "what", "all", "were",
	"we", "when", "your", "can", "said", "there", "use", "an", "each", "which", "she", "do", "how", "their", "if", "will", "up",
	"other", "about", "out", "many", "then", "them", "these", "so", "some", "her", "would", "make", "like", "him", "into", "time",
	"has", "look", "two", "more", "write", "go", "see", "number", "no", "way", "could", "people", "compression", "dictionary",
	"deflate", "Huffman", "window", "literal", "distance", "length", "checksum", "stream"}

// RandData picks a description of about n bytes.
func RandData(rng *rand.Rand, n int) Data {
	seed := rng.Int63n(1 << 40)
	switch rng.Intn(16) {
	case 0:
		return Data{G: "zero", N: n, A: rng.Intn(256)}
	case 1, 2:
		return Data{G: "rand", N: n, Seed: seed}
	case 3:
		return Data{G: "alpha", N: n, Seed: seed, A: 1 + rng.Intn(64), P: rng.Intn(190)}
	case 4, 5:
		return Data{G: "text", N: n, Seed: seed}
	case 6:
		return Data{G: "period", N: n, Seed: seed, A: logu(rng, 40000)}
	case 7:
		return Data{G: "runs", N: n, Seed: seed, A: logu(rng, 600), P: 1 + rng.Intn(256)}
	case 8:
		return Data{G: "fib", N: n, Seed: seed, A: 5 + rng.Intn(17), P: rng.Intn(200)}
	case 9, 10:
		return Data{G: "copies", N: n, Seed: seed, A: 1 << uint(3+rng.Intn(14)), P: 1 + rng.Intn(30)}
	case 11:
		return Data{G: "lens", N: n, Seed: seed}
	case 12:
		return Data{G: "skew", N: n, Seed: seed, A: 2 + rng.Intn(40), P: rng.Intn(200)}
	case 13:
		return Data{G: "echo", N: n, Seed: seed, A: logu(rng, 33000), P: 3 + logu(rng, 400)}
	case 14:
		return Data{G: "count", N: n, A: 1 + rng.Intn(7), P: rng.Intn(5)}
	default:
		k := 2 + rng.Intn(4)
		d := Data{G: "cat"}
		for i := 0; i < k; i++ {
			d.Sub = append(d.Sub, RandData(rng, 1+n/k))
		}
		return d
	}
}

// Logu is log-uniform in 1..max.
func Logu(rng *rand.Rand, max int) int { return logu(rng, max) }
