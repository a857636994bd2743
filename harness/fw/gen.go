// Package fw is the test framework of the checks: it drives rapid generators
// in worker processes, shrinks failures, and writes replays and evidence.
package fw

import "pgregory.net/rapid"

var boolGen = rapid.Bool()

// Bits draws an unbiased k-bit number. rapid's integer generators favour small
// values and boundaries; choices between alternatives use this instead.
// All-zero (the first alternative) is what shrinking moves to.
func Bits(t *rapid.T, k int) int {
	n := 0
	for i := 0; i < k; i++ {
		n <<= 1
		if boolGen.Draw(t, "b") {
			n |= 1
		}
	}
	return n
}

// Pick draws an unbiased index in [0, n).
func Pick(t *rapid.T, n int) int {
	if n <= 1 {
		return 0
	}
	k := 0
	for 1<<k < n {
		k++
	}
	if 1<<k == n {
		return Bits(t, k)
	}
	return Bits(t, k+4) % n
}

// IntIn draws a nearly uniform number in [lo, hi].
func IntIn(t *rapid.T, lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + Pick(t, hi-lo+1)
}

// Coin is true with probability about pct/100.
func Coin(t *rapid.T, pct int) bool { return Bits(t, 7)*100 >= (100-pct)*128 }

// Weighted draws an index with probability proportional to its weight.
func Weighted(t *rapid.T, w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	r := Pick(t, sum)
	for i, x := range w {
		if r < x {
			return i
		}
		r -= x
	}
	return 0
}

// OneOf draws one of the values.
func OneOf[T any](t *rapid.T, xs ...T) T { return xs[Pick(t, len(xs))] }
