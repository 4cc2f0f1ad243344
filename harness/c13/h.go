// C13: cmp reports the first difference, and tells equal files from different ones.
package c13

//zzv:cmd cmp
//zzv:hooks

import (
	"github.com/fwip/posix-utils/zzv"
	spec "github.com/fwip/posix-utils/zzvspec"
)

func check(r zzv.Result, a, b, n1, n2 string) {
	out, short, code := spec.Cmp(a, b, n1, n2, false)
	zzv.Assert(r.Code == code, "status 0 for equal files, 1 for different ones")
	zzv.Assert(r.Out == out, "the first difference with its byte and line is written")
	switch short {
	case 0:
		zzv.Assert(r.Err == "", "no diagnostics")
	case 1:
		zzv.Assert(r.Err == "cmp: EOF on "+n1+"\n", "the shorter file is named")
		zzv.Witness("first shorter")
	case 2:
		zzv.Assert(r.Err == "cmp: EOF on "+n2+"\n", "the shorter file is named")
		zzv.Witness("second shorter")
	}
	if code == 0 {
		zzv.Witness("equal")
	} else if short == 0 {
		zzv.Witness("differ")
	}
}

// HarnessShort: any short files, also standard input, however the bytes arrive.
func HarnessShort() {
	n := 4
	if zzv.Thorough() {
		n = 6
	}
	zzv.Bound("two files of 0.." + zzv.Itoa(n) + " bytes over newline, NUL, a and b, or one of them on standard input")
	a, b := zzv.AnyString("a", n, "\n\x00ab"), zzv.AnyString("b", n, "\n\x00ab")
	c := zzv.Cmd{Name: "cmp", Args: []string{"f%s", "g"}, Files: []zzv.File{{Name: "f%s", Data: a}, {Name: "g", Data: b}}}
	switch zzv.Choice("stdin", 3) {
	case 1:
		c.Args[0], c.Stdin = "-", a
		c.Files[0].Data = "z"
		zzv.Witness("stdin first")
	case 2:
		c.Args[1], c.Stdin = "-", b
		c.Files[1].Data = "z"
		zzv.Witness("stdin second")
	}
	check(zzv.Run(c), a, b, c.Args[0], c.Args[1])
}

// HarnessReads: the same whatever the sizes of the reads are.
func HarnessReads() {
	zzv.Bound("two files of 0..3 bytes over newline and a; up to six reads of 1..2 bytes")
	a, b := zzv.AnyString("a", 3, "\na"), zzv.AnyString("b", 3, "\na")
	r := zzv.Run(zzv.Cmd{Name: "cmp", Args: []string{"f", "-"}, Stdin: b, Files: []zzv.File{{Name: "f", Data: a}}, Chunks: 6, ChunkMax: 2})
	check(r, a, b, "f", "-")
}

// HarnessLong: differences behind long common starts, at the limits of the reading buffers.
func HarnessLong() {
	zzv.Bound("files with a common start of 9, 99, 4094..4097, 65535 or 131071 bytes and 0, 9 or all newlines, then 0..2 arbitrary bytes each")
	n := []int{9, 99, 4094, 4095, 4096, 4097, 65535, 131071}[zzv.Choice("start", 8)]
	s := make([]byte, n)
	kind := zzv.Choice("lines", 3)
	for i := range s {
		s[i] = 'x'
		if kind == 2 || kind == 1 && i < 9 {
			s[i] = '\n'
		}
	}
	a, b := zzv.String("a", zzv.Len("a.len", 0, 2)), zzv.String("b", zzv.Len("b.len", 0, 2))
	a, b = string(s)+a, string(s)+b
	r := zzv.Run(zzv.Cmd{Name: "cmp", Args: []string{"f", "g"}, Files: []zzv.File{{Name: "f", Data: a}, {Name: "g", Data: b}}})
	check(r, a, b, "f", "g")
}
