package h

// Choose is the source of nondeterminism of one execution under Explore.
type Choose struct {
	stack []choice
	pos   int
}

type choice struct{ i, n int }

// N picks one of n alternatives; every one of them gets explored.
func (ch *Choose) N(n int) int {
	if n <= 1 {
		return 0
	}
	if ch.pos == len(ch.stack) {
		ch.stack = append(ch.stack, choice{0, n})
	}
	if ch.stack[ch.pos].n != n {
		panic("nondeterministic execution under Explore")
	}
	ch.pos++
	return ch.stack[ch.pos-1].i
}

// Path returns the alternatives chosen so far in this execution.
func (ch *Choose) Path() []int {
	var p []int
	for _, c := range ch.stack[:ch.pos] {
		p = append(p, c.i)
	}
	return p
}

// next backtracks, keeping the first fixed choices; false when done.
func (ch *Choose) next(fixed int) bool {
	ch.stack = ch.stack[:ch.pos]
	for len(ch.stack) > fixed {
		if c := &ch.stack[len(ch.stack)-1]; c.i+1 < c.n {
			c.i++
			ch.pos = 0
			return true
		}
		ch.stack = ch.stack[:len(ch.stack)-1]
	}
	return false
}

// Explore runs body once for every sequence of choices it can make: a
// stateless depth first exploration of all its executions. The alternatives
// of the first split choices are explored in parallel.
func (c *C) Explore(split int, body func(ch *Choose)) {
	// collect the prefixes
	var prefixes [][]choice
	var rec func(prefix []choice)
	rec = func(prefix []choice) {
		if len(prefix) == split {
			prefixes = append(prefixes, prefix)
			return
		}
		probe := &Choose{stack: append([]choice(nil), prefix...)}
		body(probe)
		if probe.pos <= len(prefix) { // this execution makes no further choice
			prefixes = append(prefixes, prefix)
			return
		}
		n := probe.stack[len(prefix)].n
		for i := 0; i < n; i++ {
			rec(append(prefix[:len(prefix):len(prefix)], choice{i, n}))
		}
	}
	rec(nil)
	c.Parallel(len(prefixes), func(j int) {
		ch := &Choose{stack: append([]choice(nil), prefixes[j]...)}
		for {
			body(ch)
			c.Traces(1)
			if c.Expired() || !ch.next(len(prefixes[j])) {
				return
			}
		}
	})
}

// ExploreSeq is Explore without parallelism, for code with global state.
func (c *C) ExploreSeq(body func(ch *Choose)) {
	ch := &Choose{}
	for {
		body(ch)
		c.Traces(1)
		if c.Expired() || !ch.next(0) {
			return
		}
	}
}
