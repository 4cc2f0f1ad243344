// C12: cksum never vouches for an input it could not read.
package c12

//zzv:cmd cksum
//zzv:hooks

import (
	"github.com/fwip/posix-utils/zzv"
	spec "github.com/fwip/posix-utils/zzvspec"
)

// lines tells whether out consists of some of the wanted lines, in order.
func lines(out string, want []string) (n int, ok bool) {
	for _, w := range want {
		if len(out) >= len(w) && out[:len(w)] == w {
			out = out[len(w):]
			n++
		}
	}
	return n, out == ""
}

func HarnessFault() {
	zzv.Bound("two files of 0..2 letters in reads of 1..2 bytes; any one of the first 8 opens and reads fails")
	a, b := zzv.AnyString("a", 2, "xy"), zzv.AnyString("b", 2, "xy")
	r := zzv.Run(zzv.Cmd{Name: "cksum", Args: []string{"a", "b"}, Files: []zzv.File{{Name: "a", Data: a}, {Name: "b", Data: b}},
		Chunks: 2, ChunkMax: 2, FaultOps: "or", Faults: 8})
	n, ok := lines(r.Out, []string{spec.Cksum(a, "a"), spec.Cksum(b, "b")})
	zzv.Assert(ok, "only right lines are written")
	if n < 2 {
		zzv.Assert(r.Code > 0 && r.Err != "", "a missing line is reported")
		zzv.Witness("failed")
	} else {
		zzv.Assert(r.Code == 0 && r.Err == "", "no error without a reason")
		zzv.Witness("fine")
	}
	if r.Fault == 1 {
		zzv.Assert(n < 2 && r.Code > 0, "the first open matters")
	}
}

func HarnessStdin() {
	zzv.Bound("standard input of 0..3 letters in reads of 1..3 bytes; any one of the first 4 reads fails")
	s := zzv.AnyString("in", 3, "xy")
	r := zzv.Run(zzv.Cmd{Name: "cksum", Stdin: s, Chunks: 2, ChunkMax: 3, FaultOps: "i", Faults: 4})
	if r.Fault == 1 || r.Out == "" {
		zzv.Assert(r.Out == "" && r.Code > 0 && r.Err != "", "an unreadable input is reported")
		zzv.Witness("failed")
	} else {
		zzv.Assert(r.Out == spec.Cksum(s, "") && r.Code == 0, "otherwise the sum is right")
		zzv.Witness("fine")
	}
}

func HarnessMissing() {
	zzv.Bound("1..3 operands among a file, a missing file and a directory")
	var args, want []string
	n := zzv.Len("operands", 1, 3)
	bad := false
	for i := 0; i < n; i++ {
		switch zzv.Choice("operand", 3) {
		case 0:
			args = append(args, "f")
			want = append(want, spec.Cksum("hello", "f"))
		case 1:
			args = append(args, "none")
			bad = true
		case 2:
			args = append(args, "dir")
			bad = true
		}
	}
	r := zzv.Run(zzv.Cmd{Name: "cksum", Args: args, Files: []zzv.File{{Name: "f", Data: "hello"}, {Name: "dir", Kind: 1}}})
	k, ok := lines(r.Out, want)
	zzv.Assert(ok, "only right lines are written")
	if bad {
		zzv.Assert(r.Code > 0 && r.Err != "", "unreadable operands are reported")
		zzv.Witness("bad")
	} else {
		zzv.Assert(r.Code == 0 && k == n, "readable ones are all summed")
		zzv.Witness("good")
	}
}
