package vsync

import "math/rand"

// Explorer enumerates schedules: first those with at most Bound preemptions in
// depth-first order, then random ones.
type Explorer struct {
	Bound int
	rng   *rand.Rand

	depth     int
	stack     []choice
	preset    []int // replay
	Exhausted bool
	mode      int // 0 dfs, 1 random walk, 2 replay
	p         int
}

type choice struct {
	n, k  int
	still bool
	cost  int // preemptions before it
}

// NewExplorer makes an Explorer.
func NewExplorer(bound int, seed int64) *Explorer {
	return &Explorer{Bound: bound, rng: rand.New(rand.NewSource(seed))}
}

// Replayer makes an Explorer that repeats one schedule.
func Replayer(ks []int) *Explorer { return &Explorer{preset: ks, mode: 2} }

// Random switches to random schedules.
func (e *Explorer) Random() { e.mode = 1; e.stack = e.stack[:0] }

// Begin starts a new execution; false: there are no more.
func (e *Explorer) Begin() bool {
	e.depth = 0
	if e.mode == 1 {
		e.stack = e.stack[:0]
		e.p = []int{2, 4, 8, 16, 40}[e.rng.Intn(5)]
		return true
	}
	return !e.Exhausted
}

// Choose is for Sched.Choose.
func (e *Explorer) Choose(n int, still bool) int {
	if e.mode == 2 {
		k := 0
		if e.depth < len(e.preset) {
			k = e.preset[e.depth]
		}
		e.depth++
		if k >= n {
			k = 0
		}
		return k
	}
	if e.mode == 1 {
		k := 0
		if !still || e.rng.Intn(e.p) == 0 {
			k = e.rng.Intn(n)
		}
		e.stack = append(e.stack, choice{n: n, k: k})
		return k
	}
	if e.depth < len(e.stack) {
		c := &e.stack[e.depth]
		e.depth++
		if c.n != n { // should not happen: the execution is not deterministic
			c.n = n
			if c.k >= n {
				c.k = 0
			}
		}
		return c.k
	}
	cost := 0
	if l := len(e.stack); l > 0 {
		p := e.stack[l-1]
		cost = p.cost
		if p.still && p.k > 0 {
			cost++
		}
	}
	e.stack = append(e.stack, choice{n: n, k: 0, still: still, cost: cost})
	e.depth++
	return 0
}

// End finishes an execution and moves on to the next schedule.
func (e *Explorer) End() {
	if e.mode != 0 {
		return
	}
	for len(e.stack) > 0 {
		c := &e.stack[len(e.stack)-1]
		if c.k+1 < c.n && (!c.still || c.cost+1 <= e.Bound) {
			c.k++
			return
		}
		e.stack = e.stack[:len(e.stack)-1]
	}
	e.Exhausted = true
}

// Schedule returns the choices of the execution.
func (e *Explorer) Schedule() []int {
	if e.mode == 2 {
		return e.preset
	}
	out := make([]int, len(e.stack))
	for i, c := range e.stack {
		out[i] = c.k
	}
	for len(out) > 0 && out[len(out)-1] == 0 {
		out = out[:len(out)-1]
	}
	return out
}
