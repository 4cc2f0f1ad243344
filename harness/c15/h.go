// C15: cmp never takes trouble for an answer.
package c15

//zzv:cmd cmp
//zzv:hooks

import (
	"github.com/fwip/posix-utils/zzv"
	spec "github.com/fwip/posix-utils/zzvspec"
)

func trouble(r zzv.Result) bool { return r.Code > 1 && r.Err != "" }

// HarnessFault: an open or read fails at any point.
func HarnessFault() {
	zzv.Bound("two files of 0..3 bytes over newline and a in reads of 1..2 bytes, with no option, -l or -s; any one of the first 10 opens and reads fails")
	a, b := zzv.AnyString("a", 3, "\na"), zzv.AnyString("b", 3, "\na")
	c := zzv.Cmd{Name: "cmp", Args: []string{"f", "g"}, Files: []zzv.File{{Name: "f", Data: a}, {Name: "g", Data: b}},
		Chunks: 4, ChunkMax: 2, FaultOps: "or", Faults: 10}
	opt := zzv.Choice("option", 3)
	if opt > 0 {
		c.Args = append([]string{[]string{"", "-l", "-s"}[opt]}, c.Args...)
	}
	r := zzv.Run(c)
	out, short, code := spec.Cmp(a, b, "f", "g", opt == 1)
	if opt == 2 {
		out = ""
	}
	if r.Fault == 1 {
		zzv.Assert(trouble(r) && r.Out == "", "a file that cannot be opened is trouble")
		zzv.Witness("open")
	}
	if r.Code > 1 {
		zzv.Assert(r.Err != "" && len(r.Out) <= len(out) && out[:len(r.Out)] == r.Out, "trouble is reported, after nothing but right lines")
		zzv.Witness("trouble")
	} else {
		zzv.Assert(r.Code == code && r.Out == out, "any other answer is right")
		zzv.Assert(r.Err == "" || short > 0, "the end of a file is only reported when it is shorter")
		zzv.Witness("answer")
	}
	if opt == 0 && r.Fault == 3 && len(a) > 0 {
		zzv.Witness("first read")
	}
}

// HarnessUsage: command lines that do not name two files that can be read.
func HarnessUsage() {
	zzv.Bound("command lines of 0..3 words among two equal files, a missing file, a directory, -l, -s")
	n := zzv.Len("words", 0, 3)
	var args []string
	good, bad := 0, 0
	for i := 0; i < n; i++ {
		k := zzv.Choice("word", 5)
		args = append(args, []string{"f", "none", "dir", "-l", "-s"}[k])
		if k == 0 {
			good++
		} else if k < 3 {
			bad++
		}
	}
	r := zzv.Run(zzv.Cmd{Name: "cmp", Args: args, Files: []zzv.File{{Name: "f", Data: "x\n"}, {Name: "dir", Kind: 1}}})
	if good == 2 && bad == 0 {
		zzv.Assert(r.Code == 0 && r.Out == "" && r.Err == "", "equal files are equal")
		zzv.Witness("fine")
	} else {
		zzv.Assert(trouble(r) && r.Out == "", "a diagnostic and a status above 1")
		zzv.Witness("misuse")
	}
}
