//go:build c11 || all

package main

import (
	"math"
	"math/bits"
	"sort"
	"time"

	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
	"pgregory.net/rapid"

	"verif/fw"
)

// RandCase is a history of requests to the random source.
type RandCase struct {
	Seed  int64 `json:"seed"`
	Other int64 `json:"other_seed"`
	Reqs  []int `json:"requests"`
	// Gaps: before request i, the other sources draw this many dice.
	Gaps []int `json:"gaps,omitempty"`
	// Stat: draw this many dice of the first request's sides (mixed with the
	// second's, if any) and test their distribution.
	Stat int `json:"stat,omitempty"`
	// Long: draw this many dice with sides in turn as requested; those with
	// very many sides must all be different, and another source gives the same.
	Long int  `json:"long,omitempty"`
	Time bool `json:"time,omitempty"`
}

func init() {
	fw.Register(fw.Prop{
		ID: "C11", Quick: 400000, Thorough: 15000000,
		Rule: "a history of at least five requests with at least two different sides, or a distribution test of at least 5000 dice",
		Assumptions: []string{
			"the distribution tests reject at about 7.5 standard deviations, so that a fair source is not rejected in practice",
			"different seeds are required to differ within 40 dice of 2^62 sides",
		},
	}, genC11, runC11,
		&RandCase{Seed: 1, Other: 2, Reqs: []int{1 << 62, 6, 1, 2, 1<<63 - 1, 3, 1 << 32, 1 << 31, 1<<31 - 1, 1<<31 + 1}},
		&RandCase{Seed: 0, Other: -1, Reqs: []int{6, 6, 6, 6, 6}}, &RandCase{Seed: math.MinInt64, Other: math.MaxInt64, Reqs: []int{6, 20, 6, 20, 6}},
		&RandCase{Seed: 42, Other: 1, Reqs: []int{1 << 62}, Long: 2500000}, &RandCase{Seed: -7, Other: 1, Reqs: []int{6, 1 << 62, 100, 1<<63 - 1, 10, 2}, Long: 1500000},
		&RandCase{Seed: 42, Reqs: []int{6}, Stat: 120000}, &RandCase{Seed: 3, Reqs: []int{6}, Stat: 2500000}, &RandCase{Seed: 42, Reqs: []int{2}, Stat: 60000}, &RandCase{Seed: 42, Reqs: []int{100}, Stat: 100000},
		&RandCase{Seed: 42, Reqs: []int{3 << 61}, Stat: 60000}, &RandCase{Seed: 42, Reqs: []int{6, 10}, Stat: 60000}, &RandCase{Seed: 42, Reqs: []int{3 << 29}, Stat: 60000}, &RandCase{Seed: 42, Reqs: []int{3<<29 + 1<<31}, Stat: 60000})
	fw.Sweep("C11", "pairs of seeds that differ in one of the 64 bits or by one, for 40 seeds of all lengths (thorough: 800)", func(deep bool, yield func(*RandCase) bool) {
		x := uint64(88172645463325252)
		for i, n := 0, upTo(deep, 40, 800); i < n; i++ {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			seed := int64(x)
			switch i {
			case 0:
				seed = 0
			case 1:
				seed = -1
			case 2:
				seed = math.MinInt64
			case 3:
				seed = math.MaxInt64
			case 4:
				seed = 1790000000000000000 // a time in nanoseconds
			}
			if i > 4 && i%2 == 0 {
				seed >>= uint(i*7) % 64
			}
			for k := 0; k < 65; k++ {
				o := seed + 1
				if k < 64 {
					o = seed ^ 1<<k
				}
				if !yield(&RandCase{Seed: seed, Other: o, Reqs: []int{6, 1 << 62, 100, 6, 2}}) {
					return
				}
			}
		}
	})
}

func genSeed(t *rapid.T) int64 {
	switch fw.Pick(t, 4) {
	case 3: // of any length
		s := int64(fw.Bits(t, 32))<<32 ^ int64(fw.Bits(t, 32))
		s >>= fw.Pick(t, 64)
		if fw.Coin(t, 20) {
			return -s
		}
		return s
	case 0:
		return int64(fw.IntIn(t, -5, 100))
	case 1:
		return rapid.Int64().Draw(t, "seed")
	}
	return int64(fw.Bits(t, 32))<<31 ^ int64(fw.Bits(t, 31)) // about now in nanoseconds and others
}

func genSides(t *rapid.T) int {
	switch fw.Weighted(t, 6, 2, 1, 1) {
	case 0:
		return fw.OneOf(t, 1, 2, 3, 4, 6, 8, 10, 12, 20, 100)
	case 1:
		return fw.IntIn(t, 1, 5000)
	case 2:
		k := fw.IntIn(t, 1, 62)
		return max(1, 1<<k+fw.OneOf(t, -1, 0, 1))
	}
	return fw.OneOf(t, 3<<61, 3<<29, 1<<63-1, 5<<28, 3<<20, 7<<59)
}

func genC11(t *rapid.T) *RandCase {
	c := &RandCase{Seed: genSeed(t), Other: genSeed(t)}
	switch fw.Weighted(t, 6, 3, 1) {
	case 1: // seeds that differ in one bit
		c.Other = c.Seed ^ 1<<fw.Pick(t, 64)
	case 2:
		c.Other = c.Seed + int64(fw.IntIn(t, 1, 3))
	}
	if c.Other == c.Seed {
		c.Other++
	}
	if fw.Coin(t, 3) {
		c.Reqs = []int{genSides(t)}
		if fw.Coin(t, 40) {
			c.Reqs = append(c.Reqs, genSides(t))
		}
		c.Stat = fw.OneOf(t, 5000, 20000, 40000)
		return c
	}
	n := fw.OneOf(t, 1, 3, 8, 20, 60)
	for i := 0; i < n; i++ {
		c.Reqs = append(c.Reqs, genSides(t))
	}
	if fw.Coin(t, 50) {
		for i := 0; i < n; i++ {
			c.Gaps = append(c.Gaps, fw.OneOf(t, 0, 0, 1, 2, 5))
		}
	}
	if fw.Coin(t, 2) { // cross the refill of the generator's state
		c.Gaps = nil
		for i := 0; i < 700; i++ {
			c.Reqs = append(c.Reqs, c.Reqs[i%n])
		}
	}
	c.Time = fw.Coin(t, 5)
	return c
}

func draw(f feeder.DieFeeder, sides int) (dice.Die, error) {
	d, err := f.Next(sides)
	if err != nil {
		return d, errf("a die with %d sides: error %v", sides, err)
	}
	if d.Sides != sides {
		return d, errf("a die with %d sides was requested, got %d/%d", sides, d.Value, d.Sides)
	}
	if d.Value < 1 || d.Value > sides {
		return d, errf("the die %d/%d is out of range", d.Value, d.Sides)
	}
	return d, nil
}

func runC11(c *RandCase, m *fw.Meta) error {
	f := feeder.NewMT19937(c.Seed)
	if c.Time {
		f = feeder.NewMT19937WithSeedFromTime()
		start := time.Now()
		for time.Since(start) < 2*time.Millisecond {
			time.Sleep(time.Millisecond)
		}
		if l := feeder.NewMT19937WithSeedFromTime(); l.Seed() == f.Seed() {
			return errf("two sources seeded from the time, made %v one after the other, have the same seed %d", time.Since(start), l.Seed())
		}
	}
	seed := f.Seed()
	if !c.Time && seed != c.Seed {
		return errf("seed %d is reported as %d", c.Seed, seed)
	}
	if f.CanSpecifyDie() {
		return errf("the random source claims that its dice can be specified")
	}
	if c.Stat > 0 {
		m.NonTrivial = c.Stat >= 5000
		m.Class(true, "distribution test")
		return distribution(c, f)
	}
	if c.Long > 0 {
		m.NonTrivial = true
		m.Class(true, "millions of dice")
		return long(c, f)
	}
	other := feeder.NewMT19937(c.Other)
	var first []dice.Die
	for i, s := range c.Reqs {
		if i < len(c.Gaps) {
			for j := 0; j < c.Gaps[i]; j++ {
				if _, err := draw(other, s); err != nil {
					return err
				}
			}
		}
		d, err := draw(f, s)
		if err != nil {
			return errf("seed %d, request %d: %v", seed, i+1, err)
		}
		first = append(first, d)
	}
	if f.Seed() != seed {
		return errf("the reported seed changed from %d to %d", seed, f.Seed())
	}
	// again, with nothing in between
	g := feeder.NewMT19937(seed)
	for i, s := range c.Reqs {
		d, err := draw(g, s)
		if err != nil {
			return err
		}
		if d != first[i] {
			return errf("seed %d, request %d with %d sides: first %d, again %d", seed, i+1, s, first[i].Value, d.Value)
		}
	}
	if c.Other != seed {
		a, b := feeder.NewMT19937(seed), feeder.NewMT19937(c.Other)
		same := true
		for i := 0; i < 40; i++ {
			x, err := draw(a, 1<<62)
			if err != nil {
				return err
			}
			y, err := draw(b, 1<<62)
			if err != nil {
				return err
			}
			same = same && x == y
		}
		if same {
			return errf("the seeds %d and %d give the same dice", seed, c.Other)
		}
	}
	kinds := map[int]bool{}
	for _, s := range c.Reqs {
		kinds[s] = true
	}
	m.NonTrivial = len(c.Reqs) >= 5 && len(kinds) >= 2
	m.Class(len(c.Gaps) > 0, "interleaved with another source")
	m.Class(len(c.Reqs) > 600, "more than 600 dice")
	m.Class(c.Time, "seed from the time")
	m.Class(seed < 0, "negative seed")
	return nil
}

// long draws very many dice.
func long(c *RandCase, f *feeder.MT19937) error {
	g := feeder.NewMT19937(c.Seed)
	var wide []int
	for i := 0; i < c.Long; i++ {
		s := c.Reqs[i%len(c.Reqs)]
		d, err := draw(f, s)
		if err != nil {
			return errf("seed %d, die %d: %v", c.Seed, i+1, err)
		}
		if e, err := draw(g, s); err != nil || e != d {
			return errf("seed %d, die %d with %d sides: %d, another source gives %d (%v)", c.Seed, i+1, s, d.Value, e.Value, err)
		}
		if s >= 1<<62 {
			wide = append(wide, d.Value)
		}
	}
	sort.Ints(wide)
	for i := 1; i < len(wide); i++ {
		if wide[i] == wide[i-1] {
			return errf("seed %d: the value %d of a die with at least 2^62 sides comes twice in %d dice", c.Seed, wide[i], c.Long)
		}
	}
	return nil
}

// wh turns a chi-square value into about a standard normal one.
func wh(x float64, df int) float64 {
	k := float64(df)
	return (math.Cbrt(x/k) - (1 - 2/(9*k))) / math.Sqrt(2/(9*k))
}

func chi(counts []int, n int) float64 {
	e := float64(n) / float64(len(counts))
	x := 0.0
	for _, c := range counts {
		x += (float64(c) - e) * (float64(c) - e) / e
	}
	return x
}

// part is floor(v*k/sides).
func part(v, k, sides int) int {
	hi, lo := bits.Mul64(uint64(v), uint64(k))
	q, _ := bits.Div64(hi, lo, uint64(sides))
	return int(q)
}

func distribution(c *RandCase, f *feeder.MT19937) error {
	sides := c.Reqs[0]
	vals := make([]int, 0, c.Stat)
	for i := 0; i < c.Stat; i++ {
		d, err := draw(f, sides)
		if err != nil {
			return err
		}
		vals = append(vals, d.Value-1)
		if len(c.Reqs) > 1 {
			if _, err := draw(f, c.Reqs[1]); err != nil {
				return err
			}
		}
	}
	test := func(name string, n int, cell func(i int) int, total int) error {
		if n < 2 || total < 8*n {
			return nil
		}
		counts := make([]int, n)
		for i := 0; i < total; i++ {
			counts[cell(i)]++
		}
		z := wh(chi(counts, total), n-1)
		if z > 7.5 || z < -7.5 {
			return errf("seed %d, %d dice with %d sides: the %s are not uniform (%.1f standard deviations)", c.Seed, total, sides, name, z)
		}
		return nil
	}
	if sides <= 2000 {
		if err := test("faces", sides, func(i int) int { return vals[i] }, len(vals)); err != nil {
			return err
		}
	}
	if sides > 1<<20 {
		// 24 ranges of nearly equal width, and the low bits
		if err := test("ranges", 24, func(i int) int { return part(vals[i], 24, sides) }, len(vals)); err != nil {
			return err
		}
		if sides > 1<<24 {
			if err := test("low bits", 16, func(i int) int { return vals[i] & 15 }, len(vals)); err != nil {
				return err
			}
			if err := test("values modulo 3", 3, func(i int) int { return vals[i] % 3 }, len(vals)); err != nil {
				return err
			}
		}
	}
	for n := 2; n <= 24; n++ {
		if sides%n != 0 || sides == n {
			continue
		}
		if err := test("values modulo "+itoa(n), n, func(i int) int { return vals[i] % n }, len(vals)); err != nil {
			return err
		}
		if err := test("ranges", n, func(i int) int { return part(vals[i], n, sides) }, len(vals)); err != nil {
			return err
		}
	}
	// pairs at distance 1 and 2
	k := min(sides, 20)
	q := func(v int) int {
		if sides <= 20 {
			return v
		}
		return part(v, k, sides)
	}
	if sides > 20 && sides < 1<<20 && sides%20 != 0 {
		return nil // the ranges would not be equally wide
	}
	for _, lag := range []int{1, 2} {
		// non-overlapping pairs
		if err := test("successive pairs", k*k, func(i int) int { return q(vals[i*2*lag])*k + q(vals[i*2*lag+lag]) }, len(vals)/(2*lag)); err != nil {
			return err
		}
	}
	return nil
}
