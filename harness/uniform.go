package main

import (
	"math/bits"

	"pgregory.net/rapid"
)

// rapid prefers small numbers, which makes most descriptions tiny and most rare branches never taken. The generators
// below are uniform; they still shrink towards the minimum.

var bit = rapid.Bool()

func intRange(lo, hi int) *rapid.Generator[int] {
	n := hi - lo + 1
	if n <= 1 || n > 1024 {
		return rapid.IntRange(lo, hi)
	}
	return rapid.Custom(func(t *rapid.T) int {
		l := bits.Len(uint(n - 1))
		for try := 0; ; try++ {
			v := 0
			for i := 0; i < l; i++ {
				v <<= 1
				if bit.Draw(t, "") {
					v |= 1
				}
			}
			if v < n {
				return lo + v
			}
			if try > 20 {
				return lo + v%n
			}
		}
	})
}

func sampledFrom[E any](l []E) *rapid.Generator[E] {
	return rapid.Map(intRange(0, len(l)-1), func(i int) E { return l[i] })
}
