// C07: the option parser gives every option and operand its meaning under the utility syntax guidelines.
package c07

import (
	"os"

	"github.com/fwip/posix-utils/pkg/flag"
	"github.com/fwip/posix-utils/zzv"
	spec "github.com/fwip/posix-utils/zzvspec"
)

func check(args []string) { checkFrom(args, false) }

// checkFrom takes the words from the command line of the process when told so.
func checkFrom(args []string, process bool) {
	def := spec.Opts{P: "unset", O: "none", N: 77}
	want, clear := spec.ParseOpts(args, def)
	zzv.Assume(clear && !want.Bad)
	got := def
	p := flag.Parser{Input: append([]string{}, args...)}
	if process {
		p.Input = nil
		os.Args = append([]string{"program"}, args...)
	}
	p.BoolVar(&got.V, 'v')
	p.BoolVar(&got.X, 'x')
	p.StringVar(&got.P, 'p')
	p.StringVar(&got.O, 'o')
	p.IntVar(&got.N, 'n')
	rest, err := p.Parse()
	zzv.Assert(err == nil, "a proper command line is accepted")
	zzv.Assert(got.V == want.V && got.X == want.X, "options without argument are set exactly when given")
	zzv.Assert(got.P == want.P && got.O == want.O, "string options have their last argument")
	zzv.Assert(got.N == want.N, "number options have their last argument")
	zzv.Assert(spec.Same(rest, want.Rest), "what is left are the operands")
	if len(want.Rest) > 0 {
		zzv.Witness("operands")
	}
	if want.P != "unset" {
		zzv.Witness("string")
	}
	if want.N != 77 {
		zzv.Witness("number")
	}
}

// HarnessWords: any few short words.
func HarnessWords() {
	n, m := 3, 3
	if zzv.Thorough() {
		n, m = 4, 3
	}
	zzv.Bound("0.." + zzv.Itoa(n) + " words of 0.." + zzv.Itoa(m) + " bytes over -, v, x, p, o, n, 7, q and space")
	var args []string
	for i := zzv.Len("words", 0, n); i > 0; i-- {
		args = append(args, zzv.AnyString("word", m, "-vpn7qox "))
	}
	check(args)
}

// HarnessBundle: one long bundle and its possible argument.
func HarnessBundle() {
	zzv.Bound("a bundle of 1..6 letters of v, x, p, o, n followed by 0..2 words of 0..3 bytes")
	args := []string{"-" + zzv.StringIn("bundle", zzv.Len("bundle.len", 1, 6), "vxpon5")}
	for i := zzv.Len("words", 0, 2); i > 0; i-- {
		args = append(args, zzv.AnyString("word", 3, "-v12"))
	}
	check(args)
}

// HarnessNumber: values of the whole range.
func HarnessNumber() {
	zzv.Bound("-n with a sign and up to 4 arbitrary digits, alone or behind 922337203685477 (the limits of 64 bits), attached or not")
	s := []string{"", "-", "+"}[zzv.Choice("sign", 3)]
	if zzv.Bool("big") {
		s += "922337203685477"
	}
	s += zzv.StringIn("digits", zzv.Len("digits.len", 1, 4), "0123456789")
	if zzv.Bool("attached") {
		check([]string{"-n" + s, "rest"})
	} else {
		check([]string{"-n", s, "rest"})
	}
}

// HarnessMany: repeated and separated options, the last one counting.
func HarnessMany() {
	zzv.Bound("five words, each an option with or without argument, an argument, -- or an operand")
	words := []string{"-v", "-x", "-p", "-o", "-pA", "-oB", "-n3", "-xp", "--", "word", "-", "4"}
	n := 4
	if zzv.Thorough() {
		n = 5
	}
	var args []string
	for i := 0; i < n; i++ {
		args = append(args, words[zzv.Choice("word", len(words))])
	}
	check(args)
}

// HarnessProcess: without words given, those of the process are taken.
func HarnessProcess() {
	zzv.Bound("0..3 words of the command line of the process, each one of eight")
	words := []string{"-v", "-p", "-n4", "--", "word", "-xo", "", "-"}
	var args []string
	for i := zzv.Len("words", 0, 3); i > 0; i-- {
		args = append(args, words[zzv.Choice("word", len(words))])
	}
	checkFrom(args, true)
}

// HarnessWide: option letters other than ASCII.
func HarnessWide() {
	zzv.Bound("options é (string), ü (number), ∞ (none) with and without attached arguments, bundled, in any order of up to three letters")
	var e string
	var u int64
	var f bool
	p := flag.Parser{}
	p.StringVar(&e, 'é')
	p.IntVar(&u, 'ü')
	p.BoolVar(&f, '∞')
	in := []string{"-"}
	we, wu, wf := "", int64(0), false
	for i := zzv.Len("flags", 0, 2); i > 0; i-- {
		in[0] += "∞"
		wf = true
	}
	var arg string
	switch zzv.Choice("last", 3) {
	case 0:
		in[0] += "é"
		arg = zzv.StringIn("arg", zzv.Len("arg.len", 1, 2), "aé∞-")
		we = arg
	case 1:
		in[0] += "ü"
		arg = zzv.StringIn("number", 1, "0123456789")
		wu = int64(arg[0] - '0')
	case 2:
		in[0] += "∞"
		wf = true
	}
	if zzv.Choice("attached", 2) == 1 {
		in[0] += arg
	} else if arg != "" {
		in = append(in, arg)
	}
	in = append(in, "operand")
	p.Input = in
	rest, err := p.Parse()
	zzv.Assert(err == nil, "a proper command line is accepted")
	zzv.Assert(e == we && u == wu && f == wf, "every option has its argument")
	zzv.Assert(len(rest) == 1 && rest[0] == "operand", "what is left are the operands")
	zzv.Witness("wide")
}
