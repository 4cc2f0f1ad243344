// C17: cat reports what it could not copy, and still copies the rest.
package c17

//zzv:cmd cat
//zzv:hooks

import (
	"github.com/fwip/posix-utils/zzv"
)

// HarnessOperands: operands of which some cannot be read.
func HarnessOperands() {
	zzv.Bound("1..4 operands among a file of 0..1 arbitrary bytes, standard input, a missing file and a directory")
	f := zzv.String("f", zzv.Len("f.len", 0, 1))
	c := zzv.Cmd{Name: "cat", Stdin: "in\n", Files: []zzv.File{{Name: "f", Data: f}, {Name: "dir", Kind: 1}}}
	want := ""
	bad := false
	in := "in\n"
	n := zzv.Len("operands", 1, 4)
	for i := 0; i < n; i++ {
		switch zzv.Choice("operand", 4) {
		case 0:
			c.Args = append(c.Args, "f")
			want += f
		case 1:
			c.Args = append(c.Args, "-")
			want += in
			in = ""
		case 2:
			c.Args = append(c.Args, "none")
			bad = true
		case 3:
			c.Args = append(c.Args, "dir")
			bad = true
		}
	}
	r := zzv.Run(c)
	zzv.Assert(r.Out == want, "all that can be read is written, in order")
	if bad {
		zzv.Assert(r.Code > 0 && r.Err != "", "unreadable operands are reported and make the status fail")
		zzv.Witness("bad")
	} else {
		zzv.Assert(r.Code == 0 && r.Err == "", "no error without a reason")
		zzv.Witness("good")
	}
}

// HarnessFault: any one open, read or write fails.
func HarnessFault() {
	zzv.Bound("two files of 0..3 arbitrary bytes in reads of 1..2 bytes and standard input of two; any one of the first 12 opens, reads and writes (after 0..1 bytes) fails")
	f, g := zzv.String("f", zzv.Len("f.len", 0, 3)), zzv.String("g", zzv.Len("g.len", 0, 3))
	r := zzv.Run(zzv.Cmd{Name: "cat", Args: []string{"f", "-", "g"}, Stdin: "in", Files: []zzv.File{{Name: "f", Data: f}, {Name: "g", Data: g}},
		Chunks: 4, ChunkMax: 2, FaultOps: "oriW", Faults: 12, Partial: 1})
	if r.Code == 0 {
		zzv.Assert(r.Out == f+"in"+g && r.Err == "", "success means that everything was written")
		zzv.Witness("fine")
	} else {
		zzv.Assert(r.Err != "" && r.Code > 0, "failure is reported")
		zzv.Assert(r.Fault > 0, "there is no failure without a reason")
		zzv.Witness("failed")
	}
	if r.Fault == 1 {
		zzv.Assert(r.Code > 0 && r.Out == "in"+g, "after a file that cannot be opened the others follow")
		zzv.Witness("open")
	}
}
