// C19: head reports what it could not read, without crashing, and still writes the rest.
package c19

//zzv:cmd head
//zzv:hooks

import (
	"github.com/fwip/posix-utils/zzv"
	spec "github.com/fwip/posix-utils/zzvspec"
)

// failed: a diagnostic and a status, which is not that of a crash.
func failed(r zzv.Result) bool {
	return r.Code > 0 && r.Err != "" && spec.Find(r.Err, "goroutine ") < 0
}

// HarnessOperands: operands of which some cannot be read.
func HarnessOperands() {
	zzv.Bound("1..3 operands among a file of three lines, a missing file and a directory, -n 2")
	c := zzv.Cmd{Name: "head", Args: []string{"-n", "2"}, Files: []zzv.File{{Name: "f", Data: "1\n2\n3\n"}, {Name: "dir", Kind: 1}}}
	n := zzv.Len("operands", 1, 3)
	good := 0
	for i := 0; i < n; i++ {
		k := zzv.Choice("operand", 3)
		c.Args = append(c.Args, []string{"f", "none", "dir"}[k])
		if k == 0 {
			good++
		}
	}
	r := zzv.Run(c)
	part := "1\n2\n"
	if n > 1 {
		part = "==> f <==\n1\n2\n"
	}
	out := r.Out
	for i := 0; i < good; i++ {
		j := spec.Find(out, part)
		zzv.Assert(j >= 0, "the readable files are written")
		out = out[j:]
	}
	zzv.Assert(spec.Find(out, "1\n") < 0 && spec.Find(r.Out, "3") < 0, "nothing else is")
	if good < n {
		zzv.Assert(failed(r), "unreadable operands are reported")
		zzv.Witness("bad")
	} else {
		zzv.Assert(r.Code == 0 && r.Err == "", "no error without a reason")
		zzv.Witness("good")
	}
}

// HarnessFault: the open or any one read fails.
func HarnessFault() {
	zzv.Bound("text of 0..4 bytes over newline and a in a file or on standard input, -n 1..2, in reads of 1..2 bytes; any one of the first 6 opens and reads fails")
	s := zzv.AnyString("s", 4, "\na")
	k := zzv.Len("n", 1, 2)
	c := zzv.Cmd{Name: "head", Args: []string{"-n", zzv.Itoa(k)}, Chunks: 4, ChunkMax: 2, FaultOps: "ori", Faults: 6}
	if zzv.Choice("from", 2) == 0 {
		c.Stdin = s
	} else {
		c.Args = append(c.Args, "f")
		c.Files = []zzv.File{{Name: "f", Data: s}}
	}
	r := zzv.Run(c)
	want := spec.First(s, k)
	if r.Code == 0 {
		zzv.Assert(r.Out == want && r.Err == "", "success means that the lines were written")
		zzv.Witness("fine")
	} else {
		zzv.Assert(failed(r), "failure is reported")
		zzv.Assert(len(r.Out) <= len(want) && want[:len(r.Out)] == r.Out, "and nothing wrong is written")
		zzv.Witness("failed")
	}
	if r.Fault == 1 {
		zzv.Assert(r.Code > 0 && r.Out == "", "the first open or read matters")
	}
}

// HarnessUsage: numbers that are none.
func HarnessUsage() {
	zzv.Bound("-n without argument, or with 0..2 arbitrary characters of the ASCII set, before a file")
	c := zzv.Cmd{Name: "head", Args: []string{"-n"}, Files: []zzv.File{{Name: "f", Data: "1\n2\n"}}}
	ok := false
	k := 0
	if zzv.Choice("argument", 2) == 1 {
		s := zzv.String("s", zzv.Len("s.len", 0, 2))
		for i := 0; i < len(s); i++ {
			zzv.Assume(s[i] > 0 && s[i] < 128)
		}
		zzv.Assume(len(s) < 2 || s[0] != '+' && s[0] != '-') // a sign is not asked for
		ok = len(s) > 0
		for i := 0; i < len(s); i++ {
			if s[i] < '0' || s[i] > '9' {
				ok = false
			} else {
				k = k*10 + int(s[i]-'0')
			}
		}
		c.Args = append(c.Args, s, "f")
		zzv.Assume(!ok || k > 0)
	}
	r := zzv.Run(c)
	if ok {
		zzv.Assert(r.Code == 0 && r.Err == "" && r.Out == spec.First("1\n2\n", k), "a number is understood")
		zzv.Witness("number")
	} else {
		zzv.Assert(failed(r) && r.Out == "", "anything else is refused")
		zzv.Witness("refused")
	}
}
