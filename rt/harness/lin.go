package main

// A small linearizability checker (Wing & Gong with memoisation): operations
// with invocation/return stamps, a nondeterministic step function on a
// comparable state.

const inf = ^uint64(0)

type linOp struct {
	inv, ret uint64
	kind     int
	key      int
	a, b     int64
	out      int64
	ok       bool
	e        int // entry handle (caches)
	tlo, thi int64
	up       uint64 // set by the checker: latest instant this operation can take effect at
}

type linResult int

const (
	linOK linResult = iota
	linBad
	linUnknown
)

// checkLin reports whether ops linearize from init under step. On failure it
// also returns how many operations the longest linearizable prefix holds.
func checkLin[S comparable](ops []linOp, init S, step func(st S, o *linOp, out []S) []S, limit int) (linResult, int) {
	n := len(ops)
	if n == 0 {
		return linOK, 0
	}
	if n > 64 {
		// histories are cut at quiescent points by construction; longer ones
		// are handled by windows of minimal operations below
		return checkLinBig(ops, init, step, limit)
	}
	type node struct {
		mask uint64
		st   S
	}
	seen := map[node]bool{}
	full := ^uint64(0) >> (64 - n)
	stack := []node{{0, init}}
	seen[stack[0]] = true
	best := 0
	var buf []S
	for len(stack) > 0 {
		nd := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if nd.mask == full {
			return linOK, n
		}
		if len(seen) > limit {
			return linUnknown, best
		}
		// earliest return among pending ops
		min := inf
		c := 0
		for i := 0; i < n; i++ {
			if nd.mask&(1<<i) == 0 {
				if ops[i].ret < min {
					min = ops[i].ret
				}
			} else {
				c++
			}
		}
		if c > best {
			best = c
		}
		for i := n - 1; i >= 0; i-- {
			if nd.mask&(1<<i) != 0 || ops[i].inv > min {
				continue
			}
			ops[i].up = min
			buf = step(nd.st, &ops[i], buf[:0])
			for _, s2 := range buf {
				n2 := node{nd.mask | 1<<i, s2}
				if !seen[n2] {
					seen[n2] = true
					stack = append(stack, n2)
				}
			}
		}
	}
	return linBad, best
}

type bigMask [6]uint64

func checkLinBig[S comparable](ops []linOp, init S, step func(st S, o *linOp, out []S) []S, limit int) (linResult, int) {
	n := len(ops)
	if n > 64*6 {
		return linUnknown, 0
	}
	type node struct {
		mask bigMask
		st   S
	}
	seen := map[node]bool{}
	type item struct {
		node
		c int
	}
	stack := []item{{node{bigMask{}, init}, 0}}
	best := 0
	var buf []S
	for len(stack) > 0 {
		nd := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if nd.c == n {
			return linOK, n
		}
		if len(seen) > limit {
			return linUnknown, best
		}
		if nd.c > best {
			best = nd.c
		}
		min := inf
		for i := 0; i < n; i++ {
			if nd.mask[i>>6]&(1<<(i&63)) == 0 && ops[i].ret < min {
				min = ops[i].ret
			}
		}
		for i := n - 1; i >= 0; i-- {
			if nd.mask[i>>6]&(1<<(i&63)) != 0 || ops[i].inv > min {
				continue
			}
			ops[i].up = min
			buf = step(nd.st, &ops[i], buf[:0])
			for _, s2 := range buf {
				n2 := node{nd.mask, s2}
				n2.mask[i>>6] |= 1 << (i & 63)
				if !seen[n2] {
					seen[n2] = true
					stack = append(stack, item{n2, nd.c + 1})
				}
			}
		}
	}
	return linBad, best
}
