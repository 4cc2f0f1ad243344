// C20: test evaluates string and number expressions by the number of its arguments.
package c20

//zzv:cmd test

import (
	"github.com/fwip/posix-utils/zzv"
	spec "github.com/fwip/posix-utils/zzvspec"
)

func check(args []string) {
	r := zzv.Run(zzv.Cmd{Name: "test", Args: args})
	v, bad := spec.Test(args)
	zzv.Assert(r.Out == "", "nothing is written to standard output")
	if kv, kbad := spec.RecordedTest(args); kbad != bad || !bad && kv != v {
		// Known finding: the recorded wrong answer is accepted, and no other
		code := 1
		if kbad {
			code = 2
		} else if kv {
			code = 0
		}
		zzv.Witness("known")
		if r.Code == code && (r.Err != "") == kbad {
			return
		}
	}
	switch {
	case bad:
		zzv.Assert(r.Code > 1 && r.Err != "", "an expression that makes no sense is an error")
		zzv.Witness("error")
	case v:
		zzv.Assert(r.Code == 0 && r.Err == "", "status 0 for a true expression")
		zzv.Witness("true")
	default:
		zzv.Assert(r.Code == 1 && r.Err == "", "status 1 for a false expression")
		zzv.Witness("false")
	}
}

// HarnessWords: all short expressions over a set of words.
func HarnessWords() {
	words := []string{"!", "=", "!=", "-n", "-z", "-eq", "-lt", "", "a", "1", "-1"}
	n := 4
	if zzv.Thorough() {
		words = append(words, "-ge", "-", "-n ", "01", "==")
	}
	zzv.Bound("0.." + zzv.Itoa(n) + " words of a list of " + zzv.Itoa(len(words)) + " (operators, empty, letters, numbers)")
	var args []string
	k := zzv.Len("words", 0, n)
	for i := 0; i < k; i++ {
		args = append(args, words[zzv.Choice("word", len(words))])
	}
	check(args)
}

// operand keeps an arbitrary string from being taken for the start of another expression.
func HarnessStrings() {
	n := 3
	if zzv.Thorough() {
		n = 4
	}
	zzv.Bound("= and != on strings of 0.." + zzv.Itoa(n) + " arbitrary bytes but NUL; -n, -z and one word alone; each with and without !")
	str := func(name string) string {
		s := zzv.String(name, zzv.Len(name+".len", 0, n))
		for i := 0; i < len(s); i++ {
			zzv.Assume(s[i] != 0)
		}
		return s
	}
	var args []string
	if zzv.Choice("not", 2) == 1 {
		args = []string{"!"}
	}
	switch zzv.Choice("expression", 5) {
	case 0:
		args = append(args, str("a"), "=", str("b"))
	case 1:
		args = append(args, str("a"), "!=", str("b"))
	case 2:
		args = append(args, "-n", str("a"))
	case 3:
		args = append(args, "-z", str("a"))
	case 4:
		args = append(args, str("a"))
	}
	if len(args) == 3 && args[0] == "!" {
		// ! -n x: unless the last is taken for an operator's operand
		zzv.Assume(args[1] == "-n" || args[1] == "-z")
	}
	check(args)
}

// HarnessNumbers: comparisons of any numbers.
func HarnessNumbers() {
	n := 2
	if zzv.Thorough() {
		n = 3
	}
	zzv.Bound("all six comparisons of numbers of 1.." + zzv.Itoa(n) + " arbitrary digits with a sign or none, alone or behind 99999, also the limits of 64 bits")
	num := func(name string) string {
		s := []string{"", "-", "+"}[zzv.Choice(name+".sign", 3)]
		switch zzv.Choice(name+".size", 3) {
		case 0:
			return s + zzv.StringIn(name, zzv.Len(name+".len", 1, n), "0123456789")
		case 1:
			return s + "99999" + zzv.StringIn(name, 1, "0123456789")
		}
		return s + "922337203685477580" + zzv.StringIn(name, 1, "01234567")
	}
	op := []string{"-eq", "-ne", "-gt", "-ge", "-lt", "-le"}[zzv.Choice("op", 6)]
	check([]string{num("a"), op, num("b")})
}

// HarnessNoNumber: words that are not numbers are an error.
func HarnessNoNumber() {
	zzv.Bound("comparisons of 1 with a word of 0..2 arbitrary ASCII characters, on either side")
	s := zzv.String("s", zzv.Len("s.len", 0, 2))
	for i := 0; i < len(s); i++ {
		zzv.Assume(s[i] > 0 && s[i] < 128 && s[i] != ' ' && (s[i] < 9 || s[i] > 13)) // blanks around a number are left open
	}
	op := []string{"-eq", "-lt"}[zzv.Choice("op", 2)]
	if zzv.Choice("side", 2) == 0 {
		check([]string{s, op, "1"})
	} else {
		check([]string{"1", op, s})
	}
}
