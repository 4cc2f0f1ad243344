// C09: a basic regular expression matches exactly the texts its meaning says.
package c09

import (
	"github.com/fwip/posix-utils/pkg/regexes"
	"github.com/fwip/posix-utils/zzv"
	spec "github.com/fwip/posix-utils/zzvspec"
)

const letters = "abc"

// elem is an arbitrary element and its text.
func elem(counts int) (spec.Elem, string) {
	e := spec.Elem{Min: 1, Max: 1}
	var t string
	switch zzv.Choice("kind", 3) {
	case 0:
		e.Chars = zzv.StringIn("lit", 1, letters)
		t = e.Chars
	case 1:
		e.Any = true
		t = "."
	case 2:
		e.Chars = zzv.StringIn("set", 2, letters)
		t = "[" + e.Chars + "]"
	}
	switch zzv.Choice("count", counts) {
	case 1:
		e.Min, e.Max = 0, -1
		t += "*"
	case 2:
		e.Min = zzv.Choice("m", 3)
		e.Max = e.Min + zzv.Choice("n", 3)
		t += "{" + zzv.Itoa(e.Min) + "," + zzv.Itoa(e.Max) + "}"
	case 3:
		e.Min = zzv.Choice("m", 3)
		e.Max = e.Min
		t += "{" + zzv.Itoa(e.Min) + "}"
	case 4:
		e.Min, e.Max = zzv.Choice("m", 3), -1
		t += "{" + zzv.Itoa(e.Min) + ",}"
	}
	return e, t
}

func check(es []spec.Elem, left, right bool, t, s string) {
	if left {
		t = "^" + t
	}
	if right {
		t += "$"
	}
	bre, err := regexes.ParseBre(t)
	zzv.Assert(err == nil && bre != nil, "a proper pattern is accepted")
	got := bre.Matches(s)
	zzv.Observe("pattern", t)
	zzv.Assert(got == spec.Matches(es, left, right, s), "it matches exactly when some part of the text is what it describes")
	if got {
		zzv.Witness("match")
	} else {
		zzv.Witness("no match")
	}
}

func any(n, counts, text int) {
	var es []spec.Elem
	t := ""
	for i := 0; i < n; i++ {
		e, et := elem(counts)
		es = append(es, e)
		t += et
	}
	check(es, zzv.Bool("left"), zzv.Bool("right"), t, zzv.AnyString("text", text, letters))
}

func HarnessOne() {
	zzv.Bound("at most one element with any count, text of 0..4 letters of three")
	any(zzv.Len("elems", 0, 1), 5, 4)
}

func HarnessTwo() {
	n := 3
	if zzv.Thorough() {
		n = 4
	}
	zzv.Bound("two elements (letter, period, bracket list of two) with counts none, *, {m,n}, {m}, {m,} for m, n-m of 0..2, anchors, text of 0.." + zzv.Itoa(n) + " letters of three")
	any(2, 5, n)
}

func HarnessThree() {
	n := 3
	if zzv.Thorough() {
		n = 4
	}
	zzv.Bound("three elements with no count or *, anchors, text of 0.." + zzv.Itoa(n) + " letters of three")
	any(3, 2, n)
}

// HarnessCount: larger counts.
func HarnessCount() {
	zzv.Bound("one letter with {m}, {m,}, {m,n} of 8..12 or 254..256, against runs of that many letters more or less one")
	base := []int{8, 99, 254}[zzv.Choice("base", 3)]
	e := spec.Elem{Chars: "a", Min: base + zzv.Choice("m", 4)}
	t := "a{" + zzv.Itoa(e.Min)
	switch zzv.Choice("form", 3) {
	case 0:
		e.Max = e.Min
	case 1:
		e.Max = -1
		t += ","
	case 2:
		e.Max = e.Min + zzv.Choice("n", 3)
		t += "," + zzv.Itoa(e.Max)
	}
	s := make([]byte, e.Min-1+zzv.Choice("len", 5))
	for i := range s {
		s[i] = 'a'
	}
	if zzv.Bool("spoil") {
		s[len(s)/2] = zzv.ByteIn("other", "ab")
	}
	check([]spec.Elem{e}, zzv.Bool("left"), zzv.Bool("right"), t+"}", string(s))
}

// HarnessSet: wider bracket lists, with characters that are special elsewhere.
func HarnessSet() {
	zzv.Bound("a bracket list of 1..4 arbitrary characters of . * $ a b { ( + , with and without *, text of 0..3 of them")
	const cs = ".*$ab{(+"
	e := spec.Elem{Chars: zzv.StringIn("set", zzv.Len("set.len", 1, 4), cs), Min: 1, Max: 1}
	t := "[" + e.Chars + "]"
	if zzv.Bool("star") {
		e.Min, e.Max = 0, -1
		t += "*"
	}
	check([]spec.Elem{e}, zzv.Bool("left"), zzv.Bool("right"), t, zzv.AnyString("text", 3, cs))
}

// HarnessText: any bytes of ASCII in the text, and as an ordinary character of the pattern.
func HarnessText() {
	zzv.Bound("pattern of two ordinary ASCII characters (none special), text of 0..3 arbitrary ASCII characters, newline included")
	var es []spec.Elem
	t := ""
	for i := 0; i < 2; i++ {
		b := zzv.Byte("lit")
		zzv.Assume(b < 0x80 && b != '[' && b != '.' && b != '*' && b != '^' && b != '$' && b != '\\' && b != '{' && b != '(' && b != ')')
		es = append(es, spec.Elem{Chars: string([]byte{b}), Min: 1, Max: 1})
		t += string([]byte{b})
	}
	s := zzv.String("text", zzv.Len("text.len", 0, 3))
	for i := 0; i < len(s); i++ {
		zzv.Assume(s[i] < 0x80)
	}
	check(es, zzv.Bool("left"), zzv.Bool("right"), t, s)
}

// wide puts letters other than ASCII for x, y and z.
func wide(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case 'x':
			out += "\xc3\xa4" // a with dots
		case 'X':
			out += "\xc3\x84" // its capital
		case 'y':
			out += "\xff" // a byte that is no character
		case 'z':
			out += "\xf0\x9f\x98\x80" // of four bytes
		default:
			out += s[i : i+1]
		}
	}
	return out
}

// HarnessWide: characters of several bytes count as one.
func HarnessWide() {
	zzv.Bound("an element with no count, * or {1,2} and one without, of letters of 1..4 bytes, anchors, text of 0..3 such letters or newlines")
	const cs = "axXyz\n"
	var es []spec.Elem
	t := ""
	for i := 0; i < 2; i++ {
		e := spec.Elem{Min: 1, Max: 1}
		et := ""
		switch zzv.Choice("kind", 3) {
		case 0:
			e.Chars = []string{"a", "x"}[zzv.Choice("lit", 2)]
			et = e.Chars
		case 1:
			e.Any = true
			et = "."
		case 2:
			e.Chars = "xyz"
			et = "[" + e.Chars + "]"
		}
		count := 0
		if i == 0 {
			count = zzv.Choice("count", 3)
		}
		switch count {
		case 1:
			e.Min, e.Max = 0, -1
			et += "*"
		case 2:
			e.Min, e.Max = 1, 2
			et += "{1,2}"
		}
		es = append(es, e)
		t += et
	}
	left, right := zzv.Bool("left"), zzv.Bool("right")
	s := zzv.FixStr(zzv.AnyString("text", 3, cs))
	want := spec.Matches(es, left, right, s)
	if left {
		t = "^" + t
	}
	if right {
		t += "$"
	}
	bre, err := regexes.ParseBre(wide(t))
	zzv.Assert(err == nil && bre != nil, "a proper pattern is accepted")
	zzv.Assert(bre.Matches(wide(s)) == want, "it matches exactly when some part of the text is what it describes")
	zzv.Witness("matched")
}

// HarnessLong: long texts.
func HarnessLong() {
	zzv.Bound("seven patterns with * and counts, anchors, against 60 or 300 letters of which the first, a middle one and the last are arbitrary of two")
	star := func(c string) spec.Elem { return spec.Elem{Chars: c, Min: 0, Max: -1} }
	one := func(c string) spec.Elem { return spec.Elem{Chars: c, Min: 1, Max: 1} }
	k := zzv.Choice("pattern", 7)
	t := []string{"a*", "a*b", "ba*", ".*b", "b.*a*b", "[ab]*a", "a{2,}b"}[k]
	es := [][]spec.Elem{
		{star("a")}, {star("a"), one("b")}, {one("b"), star("a")}, {{Any: true, Min: 0, Max: -1}, one("b")},
		{one("b"), {Any: true, Min: 0, Max: -1}, star("a"), one("b")}, {star("ab"), one("a")}, {{Chars: "a", Min: 2, Max: -1}, one("b")},
	}[k]
	n := []int{60, 300}[zzv.Choice("n", 2)]
	s := make([]byte, n)
	for i := range s {
		s[i] = 'a'
	}
	s[0], s[n/2], s[n-1] = zzv.ByteIn("first", "ab"), zzv.ByteIn("middle", "ab"), zzv.ByteIn("last", "ab")
	check(es, zzv.Bool("left"), zzv.Bool("right"), t, string(s))
}

// HarnessAgain: one answer does not depend on earlier ones.
func HarnessAgain() {
	zzv.Bound("two patterns of one element with no count or *, used in turn on two texts of 0..2 letters of two")
	var es [2]spec.Elem
	var left [2]bool
	var bs [2]*regexes.Bre
	for i := range bs {
		e := spec.Elem{Chars: zzv.StringIn("lit", 1, "ab"), Min: 1, Max: 1}
		t := e.Chars
		if zzv.Bool("star") {
			e.Min, e.Max = 0, -1
			t += "*"
		}
		if zzv.Bool("left") {
			left[i] = true
			t = "^" + t
		}
		t += "$"
		b, err := regexes.ParseBre(t)
		zzv.Assert(err == nil && b != nil, "a proper pattern is accepted")
		es[i], bs[i] = e, b
	}
	texts := []string{zzv.AnyString("text", 2, "ab"), zzv.AnyString("text", 2, "ab")}
	for i := 0; i < 4; i++ {
		b, s := (i+i/2)%2, texts[i/2]
		zzv.Assert(bs[b].Matches(s) == spec.Matches([]spec.Elem{es[b]}, left[b], true, s), "each pattern matches by its own meaning")
	}
	zzv.Witness("matched")
}
