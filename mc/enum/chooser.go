// Package enum enumerates executions: a Chooser replays a prefix of choices
// and takes alternative 0 afterwards; Next advances depth-first to the next
// execution whose total deviation cost stays within the budget.
package enum

type point struct{ n, pick, cost int }

type Chooser struct {
	prefix []int
	pts    []point
	budget int
	first  bool
	// Diverged counts prefix positions that no longer fit on replay.
	Diverged int
	fixed    int // prefix positions that Next never changes
	used     int // cost of the choices of this execution so far
	shard, n int // this explorer's part of the root's subtrees
	frozen   bool
	// Nodes counts the distinct choice points met.
	Nodes int64
}

// Part restricts the exploration to the i-th of n parts: the subtrees below
// the default execution are dealt out; the default execution is in part 0.
func (c *Chooser) Part(i, n int) *Chooser {
	c.shard, c.n = i, n
	return c
}

// Left is the budget left in this execution.
func (c *Chooser) Left() int {
	if c.frozen {
		return 0
	}
	return c.budget - c.used
}

// Freeze makes every further choice of this execution the default one, without
// counting it as a choice.
func (c *Chooser) Freeze() { c.frozen = true }

// Frozen tells whether every further choice is the default one.
func (c *Chooser) Frozen() bool { return c.frozen }

func New(budget int) *Chooser { return &Chooser{budget: budget, first: true} }

// FromPrefix explores only executions that start with the given choices.
func FromPrefix(budget int, prefix []int) *Chooser {
	return &Chooser{budget: budget, first: true, prefix: append([]int{}, prefix...), fixed: len(prefix)}
}

// Replay runs exactly one execution.
func Replay(budget int, choices []int) *Chooser {
	return &Chooser{budget: budget, first: true, prefix: append([]int{}, choices...), fixed: 1 << 30}
}

// Next prepares the next execution; false when the space is exhausted.
func (c *Chooser) Next() bool {
	c.used = 0
	c.frozen = false
	if c.first {
		c.first = false
		c.pts = c.pts[:0]
		return true
	}
	if n := int64(len(c.pts) - len(c.prefix)); n > 0 {
		c.Nodes += n
	}
	cost := 0
	before := make([]int, len(c.pts))
	root := make([]bool, len(c.pts))
	allZero := true
	for i, p := range c.pts {
		before[i] = cost
		root[i] = allZero
		if p.pick > 0 {
			cost += p.cost
			allZero = false
		}
	}
	for i := len(c.pts) - 1; i >= c.fixed; i-- {
		p := c.pts[i]
		if before[i]+p.cost > c.budget {
			continue
		}
		alt := p.pick + 1
		if c.n > 1 && root[i] {
			for alt < p.n && (i+alt)%c.n != c.shard {
				alt++
			}
		}
		if alt < p.n {
			c.prefix = c.prefix[:0]
			for _, q := range c.pts[:i] {
				c.prefix = append(c.prefix, q.pick)
			}
			c.prefix = append(c.prefix, alt)
			c.pts = c.pts[:0]
			return true
		}
	}
	return false
}

// Pick chooses one of n alternatives; any but the first costs cost.
func (c *Chooser) Pick(n, cost int) int {
	if n <= 0 {
		panic("enum: no alternatives")
	}
	if c.frozen {
		return 0
	}
	i := len(c.pts)
	k := 0
	if i < len(c.prefix) {
		k = c.prefix[i]
		if k >= n {
			c.Diverged++
			k = 0
		}
	}
	c.pts = append(c.pts, point{n, k, cost})
	if k > 0 {
		c.used += cost
	}
	return k
}

// Choices returns the choices of the current execution so far.
func (c *Chooser) Choices() []int {
	out := make([]int, len(c.pts))
	for i, p := range c.pts {
		out[i] = p.pick
	}
	return out
}

// Trim drops trailing default choices.
func Trim(ch []int) []int {
	for len(ch) > 0 && ch[len(ch)-1] == 0 {
		ch = ch[:len(ch)-1]
	}
	return ch
}
