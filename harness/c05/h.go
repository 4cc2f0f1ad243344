// C05: the ordering of the tsort library.
package c05

import (
	"github.com/fwip/posix-utils/pkg/tsort"
	"github.com/fwip/posix-utils/zzv"
	spec "github.com/fwip/posix-utils/zzvspec"
)

func word(name string) string { return zzv.StringIn(name, 1, "abcABC") }

func check(s *tsort.Sorter, o *spec.Order) {
	out, err := s.Order()
	if o.Cyclic() {
		zzv.Assert(err != nil && len(out) == 0, "contradictory constraints are an error without an order")
		zzv.Witness("cycle")
		return
	}
	zzv.Assert(err == nil, "consistent constraints can be ordered")
	why := o.Sorted(out)
	zzv.Assert(why == "", "the order is right: "+why)
	zzv.Witness("ordered")
}

// HarnessPairs: any sequence of pairs and single words.
func HarnessPairs() {
	n := 3
	if zzv.Thorough() {
		n = 4
	}
	zzv.Bound("0.." + zzv.Itoa(n) + " calls with one or two of six words each, map iteration in any order")
	zzv.AnyMapOrder()
	var s tsort.Sorter
	var o spec.Order
	for i := zzv.Len("n", 0, n); i > 0; i-- {
		a, b := word("a"), word("b")
		if a == b {
			s.Add([]string{a})
			o.Word(a)
			zzv.Witness("single")
		} else {
			s.Add([]string{a, b})
			o.Before(a, b)
		}
	}
	check(&s, &o)
}

func chains(max []int, same bool) {
	self := false
	var s tsort.Sorter
	var o spec.Order
	for _, m := range max {
		n := zzv.Len("n", 0, m)
		var ws []string
		for i := 0; i < n; i++ {
			ws = append(ws, word("w"))
			if i > 0 {
				zzv.Assume(same || ws[i] != ws[i-1])
				if ws[i] == ws[i-1] {
					self = true // before itself: a cycle of one
				}
				o.Before(ws[i-1], ws[i])
			}
		}
		if n == 1 {
			o.Word(ws[0])
		}
		s.Add(ws)
	}
	if self {
		out, err := s.Order()
		zzv.Assert(err != nil && len(out) == 0, "a word before itself is an error without an order")
		zzv.Witness("self")
		return
	}
	check(&s, &o)
}

// HarnessChains: longer chains, which may repeat words and constraints.
func HarnessChains() {
	zzv.Bound("two chains of 0..3 and 0..2 words out of six, map iteration in any order")
	zzv.AnyMapOrder()
	chains([]int{3, 2}, true)
}

// HarnessLong: still longer ones, with one iteration order.
func HarnessLong() {
	zzv.Bound("chains of 0..4, 0..3 and 0..2 words out of six, neighbours distinct, map iteration in insertion order")
	chains([]int{4, 3, 2}, false)
}

// HarnessWords: words that begin alike, or are empty or not ASCII.
func HarnessWords() {
	zzv.Bound("three pairs of words out of five that begin alike, are empty, or hold blanks or letters other than ASCII; map iteration in insertion order")
	words := []string{"", "a", "ab", "a b", "\xc3\xa4"}
	var s tsort.Sorter
	var o spec.Order
	for i := 0; i < 3; i++ {
		a, b := words[zzv.Choice("a", len(words))], words[zzv.Choice("b", len(words))]
		zzv.Assume(a != b)
		s.Add([]string{a, b})
		o.Before(a, b)
	}
	check(&s, &o)
}

// HarnessMany: many words.
func HarnessMany() {
	zzv.Bound("a chain of 12, 70 or 300 words, given as pairs in one of three orders or in one call, and one more pair of any of five of them; map iteration in insertion order")
	n := []int{12, 70, 300}[zzv.Choice("n", 3)]
	var ws []string
	for i := 0; i < n; i++ {
		ws = append(ws, "w"+zzv.Itoa(i))
	}
	var s tsort.Sorter
	order := zzv.Choice("order", 4)
	if order == 3 {
		s.Add(ws)
	} else {
		for i := 0; i+1 < n; i++ {
			j := i
			if order == 1 {
				j = n - 2 - i
			} else if order == 2 {
				j = (i*7 + 3) % (n - 1) // 7 has no factor in common with 11, 69 and 299
			}
			s.Add([]string{ws[j], ws[j+1]})
		}
	}
	some := []int{0, 1, n / 2, n - 2, n - 1}
	a, b := some[zzv.Choice("a", 5)], some[zzv.Choice("b", 5)]
	zzv.Assume(a != b)
	s.Add([]string{ws[a], ws[b]})
	out, err := s.Order()
	if b < a {
		zzv.Assert(err != nil && len(out) == 0, "a long cycle is an error without an order")
		zzv.Witness("cycle")
		return
	}
	zzv.Assert(err == nil && spec.Same(out, ws), "a long chain is its own order")
	zzv.Witness("ordered")
}

// HarnessFan: many words around one.
func HarnessFan() {
	zzv.Bound("15 or 60 words before or behind one or both of two words, the pairs of the first or last of them given again or not; map iteration in insertion order")
	n := []int{15, 60}[zzv.Choice("n", 2)]
	var s tsort.Sorter
	var o spec.Order
	k := zzv.Choice("kind", 3)
	again := zzv.Choice("again", 3)
	for i := 0; i < n+1; i++ {
		w := "w" + zzv.Itoa(i)
		if i == n {
			if again == 0 {
				break
			}
			w = []string{"", "w0", "w" + zzv.Itoa(n-1)}[again]
		}
		if k != 1 {
			s.Add([]string{w, "hub"})
			o.Before(w, "hub")
		}
		if k != 0 {
			s.Add([]string{"start", w})
			o.Before("start", w)
		}
	}
	if zzv.Bool("cycle") {
		s.Add([]string{"hub", "start"})
		o.Before("hub", "start")
	}
	check(&s, &o)
}
