// C14: cmp -l lists every differing byte, cmp -s says nothing, and both have the right status.
package c14

//zzv:cmd cmp
//zzv:hooks

import (
	"github.com/fwip/posix-utils/zzv"
	spec "github.com/fwip/posix-utils/zzvspec"
)

// HarnessList: all differing bytes, in order, with their values in octal.
func HarnessList() {
	n := 3
	if zzv.Thorough() {
		n = 4
	}
	zzv.Bound("-l on two files of 0.." + zzv.Itoa(n) + " arbitrary bytes, one of them on standard input")
	a, b := zzv.String("a", zzv.Len("a.len", 0, n)), zzv.String("b", zzv.Len("b.len", 0, n))
	check(a, b, zzv.Bool("swap"))
}

// HarnessBytes: any two bytes.
func HarnessBytes() {
	zzv.Bound("-l on two files of one arbitrary byte behind 0, 8, 9, 99 or 4096 common bytes")
	n := []int{0, 8, 9, 99, 4096}[zzv.Choice("start", 5)]
	s := ""
	for len(s) < n {
		s += "x"
	}
	check(s+zzv.String("a", 1), s+zzv.String("b", 1), false)
}

func check(a, b string, swap bool) {
	c := zzv.Cmd{Name: "cmp", Args: []string{"-l", "f", "-"}, Stdin: b, Files: []zzv.File{{Name: "f", Data: a}}}
	n1, n2 := "f", "-"
	if swap {
		c.Args[1], c.Args[2] = "-", "f"
		n1, n2 = n2, n1
		a, b = b, a
	}
	r := zzv.Run(c)
	out, short, code := spec.Cmp(a, b, n1, n2, true)
	zzv.Assert(r.Code == code, "status 0 for equal files, 1 for different ones")
	zzv.Assert(r.Out == out, "every differing byte is listed, and only those")
	switch short {
	case 0:
		zzv.Assert(r.Err == "", "no diagnostics")
		zzv.Witness("same length")
	case 1:
		zzv.Assert(r.Err == "cmp: EOF on "+n1+"\n", "the shorter file is named")
		zzv.Witness("first shorter")
	case 2:
		zzv.Assert(r.Err == "cmp: EOF on "+n2+"\n", "the shorter file is named")
		zzv.Witness("second shorter")
	}
}

// HarnessSilent: nothing is written, the status tells.
func HarnessSilent() {
	n := 4
	if zzv.Thorough() {
		n = 6
	}
	zzv.Bound("-s on two files of 0.." + zzv.Itoa(n) + " bytes over newline, a and b, in reads of any size for the first three")
	a, b := zzv.AnyString("a", n, "\nab"), zzv.AnyString("b", n, "\nab")
	r := zzv.Run(zzv.Cmd{Name: "cmp", Args: []string{"-s", "f", "g"}, Files: []zzv.File{{Name: "f", Data: a}, {Name: "g", Data: b}}, Chunks: 3, ChunkMax: n})
	zzv.Assert(r.Out == "" && r.Err == "", "nothing is written")
	if a == b {
		zzv.Assert(r.Code == 0, "status 0 for equal files")
		zzv.Witness("equal")
	} else {
		zzv.Assert(r.Code == 1, "status 1 for different files")
		zzv.Witness("different")
	}
}
