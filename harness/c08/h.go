// C08: the option parser refuses what it cannot understand, with an error and without crashing.
package c08

import (
	"github.com/fwip/posix-utils/pkg/flag"
	"github.com/fwip/posix-utils/zzv"
	spec "github.com/fwip/posix-utils/zzvspec"
)

func parse(args []string) (rest []string, err error) {
	var got spec.Opts
	p := flag.Parser{Input: append([]string{}, args...)}
	p.BoolVar(&got.V, 'v')
	p.BoolVar(&got.X, 'x')
	p.StringVar(&got.P, 'p')
	p.StringVar(&got.O, 'o')
	p.IntVar(&got.N, 'n')
	return p.Parse()
}

func check(args []string) {
	want, clear := spec.ParseOpts(args, spec.Opts{})
	zzv.Assume(clear)
	rest, err := parse(args)
	if want.Bad {
		zzv.Assert(err != nil && len(rest) == 0, "a bad command line is an error")
		zzv.Witness("refused")
	} else {
		zzv.Assert(err == nil, "a proper command line is not")
		zzv.Witness("accepted")
	}
}

// HarnessWords: short words over an alphabet with unknown options.
func HarnessWords() {
	n, m := 3, 3
	if zzv.Thorough() {
		n, m = 4, 3
	}
	zzv.Bound("0.." + zzv.Itoa(n) + " words of 0.." + zzv.Itoa(m) + " bytes over -, v, p, n, 7, q, z and space")
	var args []string
	for i := zzv.Len("words", 0, n); i > 0; i-- {
		args = append(args, zzv.AnyString("word", m, "-vpn7qz "))
	}
	check(args)
}

// HarnessNumber: numbers beyond 64 bits and things that are no numbers.
func HarnessNumber() {
	zzv.Bound("-n with an optional sign and 0..3 arbitrary printable bytes, alone or behind 92233720368547758")
	s := []string{"", "-", "+"}[zzv.Choice("sign", 3)]
	if zzv.Bool("big") {
		s += "92233720368547758"
	}
	n := zzv.Len("digits.len", 0, 3)
	for i := 0; i < n; i++ {
		b := zzv.Byte("digit")
		zzv.Assume(b > ' ' && b < 0x7f)
		s += string([]byte{b})
	}
	if zzv.Bool("attached") {
		check([]string{"-n" + s, "rest"})
	} else {
		check([]string{"-n", s, "rest"})
	}
}

// HarnessBytes: arbitrary bytes, also ill-formed UTF-8, and a parser without options.
func HarnessBytes() {
	zzv.Bound("1..2 words of 0..3 arbitrary bytes, with and without registered options: no crash")
	var args []string
	for i := zzv.Len("words", 1, 2); i > 0; i-- {
		args = append(args, zzv.String("word", zzv.Len("word.len", 0, 3)))
	}
	if zzv.Bool("registered") {
		parse(args)
	} else {
		p := flag.Parser{Input: args}
		rest, err := p.Parse()
		if err == nil {
			zzv.Assert(len(rest) <= len(args), "operands are words of the input")
		}
	}
	zzv.Witness("survived")
}
