// C18: head writes the first lines of its inputs, byte for byte.
package c18

//zzv:cmd head
//zzv:hooks

import (
	"github.com/fwip/posix-utils/zzv"
	spec "github.com/fwip/posix-utils/zzvspec"
)

// HarnessLines: any short text and number of lines.
func HarnessLines() {
	n := 5
	if zzv.Thorough() {
		n = 7
	}
	zzv.Bound("text of 0.." + zzv.Itoa(n) + " bytes over newline, CR, NUL and a, the first 0..4 lines, from standard input or a file; the first three reads of 1..3 bytes")
	s := zzv.AnyString("s", n, "\n\r\x00a")
	k := zzv.Len("n", 0, 4)
	c := zzv.Cmd{Name: "head", Args: []string{"-n", zzv.Itoa(k)}, Stdin: s, Chunks: 3, ChunkMax: 3}
	switch zzv.Choice("from", 3) {
	case 1:
		c.Args = append(c.Args, "-")
	case 2:
		c.Args = append(c.Args, "f")
		c.Stdin = "other\n"
		c.Files = []zzv.File{{Name: "f", Data: s}}
		zzv.Witness("file")
	}
	r := zzv.Run(c)
	want := spec.First(s, k)
	zzv.Assert(r.Out == want, "the first lines are written unchanged")
	zzv.Assert(r.Code == 0 && r.Err == "", "no error")
	if len(want) < len(s) {
		zzv.Witness("cut")
	} else {
		zzv.Witness("all")
	}
}

// HarnessDefault: ten lines, and larger numbers.
func HarnessDefault() {
	zzv.Bound("no -n, or -n 9..12 or 100, on 8..12 or 99..101 lines of 0..1 arbitrary letters without the last newline or with it; standard input or file")
	var args []string
	k := 10
	if i := zzv.Choice("n", 6); i > 0 {
		k = []int{0, 9, 10, 11, 12, 100}[i]
		args = []string{"-n", zzv.Itoa(k)}
	}
	l := []int{8, 9, 10, 11, 12, 99, 100, 101}[zzv.Choice("lines", 8)]
	s := ""
	for i := 0; i < l; i++ {
		if i > 0 {
			s += "\n"
		}
		if i == 9 || i == l-1 {
			s += zzv.StringIn("letter", 1, "ab\x00\r")
		}
	}
	if zzv.Bool("newline") {
		s += "\n"
	}
	c := zzv.Cmd{Name: "head", Args: args, Stdin: s}
	if zzv.Choice("from", 2) == 1 {
		c.Args = append(c.Args, "f")
		c.Stdin = ""
		c.Files = []zzv.File{{Name: "f", Data: s}}
	}
	r := zzv.Run(c)
	zzv.Assert(r.Out == spec.First(s, k), "the first lines are written unchanged")
	zzv.Assert(r.Code == 0 && r.Err == "", "no error")
	zzv.Witness("default")
}

// HarnessLong: lines longer than any buffer.
func HarnessLong() {
	zzv.Bound("a first line of 4095..4097 or 65535..65537 or 70000 bytes with an arbitrary last byte, and a second one; -n 1 or 2")
	n := []int{4095, 4096, 4097, 65535, 65536, 65537, 70000}[zzv.Choice("len", 7)]
	b := make([]byte, n)
	for i := range b {
		b[i] = 'x'
	}
	b[n-1] = zzv.Byte("last")
	s := string(b) + "\nend"
	k := zzv.Len("n", 1, 2)
	r := zzv.Run(zzv.Cmd{Name: "head", Args: []string{"-n", zzv.Itoa(k), "f"}, Files: []zzv.File{{Name: "f", Data: s}}})
	zzv.Assert(r.Out == spec.First(s, k), "the first lines are written unchanged")
	zzv.Assert(r.Code == 0 && r.Err == "", "no error")
	zzv.Witness("long")
}

// HarnessMany: several files, each behind its header.
func HarnessMany() {
	zzv.Bound("2..3 operands among two files and standard input, of 0..3 bytes over newline and a; -n 1 or 2")
	fs := []string{zzv.AnyString("f", 3, "\na"), zzv.AnyString("g", 3, "\na"), "in\nin\nin\n"}
	names := []string{"f", "./g %d", "-"}
	k := zzv.Len("n", 1, 2)
	c := zzv.Cmd{Name: "head", Args: []string{"-n", zzv.Itoa(k)}, Stdin: fs[2], Files: []zzv.File{{Name: names[0], Data: fs[0]}, {Name: names[1], Data: fs[1]}}}
	n := zzv.Len("operands", 2, 3)
	want := ""
	stdin := 0
	for i := 0; i < n; i++ {
		j := zzv.Choice("operand", 3)
		if j == 2 {
			stdin++
		}
		c.Args = append(c.Args, names[j])
		if i > 0 {
			want += "\n"
		}
		want += "==> " + names[j] + " <==\n" + spec.First(fs[j], k)
	}
	zzv.Assume(stdin < 2)
	r := zzv.Run(c)
	zzv.Assert(r.Out == want, "each file's first lines follow its header")
	zzv.Assert(r.Code == 0 && r.Err == "", "no error")
	zzv.Witness("many")
}
