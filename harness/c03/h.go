// C03: diff's exit status tells equal, different and trouble apart.
package c03

//zzv:cmd diff
//zzv:hooks

import (
	"github.com/fwip/posix-utils/zzv"
	spec "github.com/fwip/posix-utils/zzvspec"
)

func text(name string, n int) string {
	s := zzv.AnyString(name, n, "\nab\r")
	zzv.Assume(s == "" || s[len(s)-1] == '\n')
	return s
}

func result(r zzv.Result, old, new string) bool {
	if old == new {
		return r.Code == 0 && r.Out == "" && r.Err == ""
	}
	hs, why := spec.ParseDiff(r.Out)
	if why != "" || len(hs) == 0 {
		return false
	}
	got, why := spec.Apply(spec.Lines(old), hs)
	return r.Code == 1 && r.Err == "" && why == "" && spec.Same(got, spec.Lines(new))
}

func trouble(r zzv.Result) bool { return r.Code > 1 && r.Err != "" && r.Out == "" }

// HarnessStatus: 0 and silence for equal files, 1 for different ones, also from standard input.
func HarnessStatus() {
	n := 5
	if zzv.Thorough() {
		n = 6
	}
	zzv.Bound("text files of 0.." + zzv.Itoa(n) + " bytes over newline, CR, 'a', 'b'; either operand may be '-'")
	old, new := text("old", n), text("new", n)
	c := zzv.Cmd{Name: "diff", Args: []string{"old", "new"}, Files: []zzv.File{{Name: "old", Data: old}, {Name: "new", Data: new}}}
	switch zzv.Choice("stdin", 3) {
	case 1:
		c.Args[0] = "-"
		c.Stdin = old
		c.Files[0].Data = "other\n"
		zzv.Witness("stdin old")
	case 2:
		c.Args[1] = "-"
		c.Stdin = new
		c.Files[1].Data = "other\n"
		zzv.Witness("stdin new")
	}
	r := zzv.Run(c)
	zzv.Assert(result(r, old, new), "status 0 and silence for equal files, 1 and a diff for different ones")
	if old == new {
		zzv.Witness("equal")
	} else {
		zzv.Witness("different")
	}
}

// HarnessFault: an operand that cannot be opened or read.
func HarnessFault() {
	n := 3
	zzv.Bound("text files of 0..3 bytes; any one of the first 8 opens and reads fails")
	old, new := text("old", n), text("new", n)
	r := zzv.Run(zzv.Cmd{Name: "diff", Args: []string{"old", "new"}, Files: []zzv.File{{Name: "old", Data: old}, {Name: "new", Data: new}},
		FaultOps: "or", Faults: 8})
	if r.Fault == 1 {
		zzv.Assert(trouble(r), "an unreadable file is trouble: status above 1, a diagnostic, no diff")
		zzv.Witness("open fails")
	} else {
		zzv.Assert(trouble(r) || result(r, old, new), "after a failure the answer is trouble, never a wrong diff")
		if r.Code > 1 {
			zzv.Witness("later failure")
		}
	}
}

// HarnessUsage: operands that cannot be compared.
func HarnessUsage() {
	zzv.Bound("command lines of 0..3 words among two files, a missing file, a directory; -C and -U with and without numbers")
	words := []string{"old", "new", "none", "dir"}
	n := zzv.Len("n", 0, 3)
	var args []string
	bad := n != 2
	for i := 0; i < n; i++ {
		w := zzv.Choice("word", len(words))
		if w >= 2 {
			bad = true
		}
		args = append(args, words[w])
	}
	switch zzv.Choice("opt", 5) {
	case 1:
		args = append(args, "-C")
		bad = true
	case 2:
		args = append(args, "-U")
		bad = true
	case 3:
		args = append([]string{"-C", "x1"}, args...)
		bad = true
	case 4:
		args = append([]string{"-U", ""}, args...)
		bad = true
	}
	r := zzv.Run(zzv.Cmd{Name: "diff", Args: args, Files: []zzv.File{{Name: "old", Data: "a\nb\n"}, {Name: "new", Data: "a\nc\n"}, {Name: "dir", Kind: 1}}})
	if bad {
		zzv.Assert(trouble(r), "misuse is trouble: status above 1, a diagnostic, no diff")
		zzv.Witness("trouble")
	} else {
		zzv.Assert(r.Code <= 1 && r.Err == "", "no trouble with two files")
		zzv.Witness("fine")
	}
}

// HarnessOptions: options do not change the status.
func HarnessOptions() {
	zzv.Bound("up to two options of eight, -C and -U with numbers of 1..2 digits, before, between and behind two files of one line")
	old, new := zzv.StringIn("old", 1, "ab")+"\n", zzv.StringIn("new", 1, "ab")+"\n"
	opts := []string{"-b", "-c", "-e", "-f", "-r", "-u", "-C", "-U"}
	var args []string
	n := zzv.Len("options", 0, 2)
	opt := func() {
		o := opts[zzv.Choice("option", len(opts))]
		args = append(args, o)
		if o == "-C" || o == "-U" {
			args = append(args, zzv.StringIn("number", zzv.Len("digits", 1, 2), "0123456789"))
		}
	}
	where := zzv.Choice("where", 3)
	files := []string{"old", "new"}
	for i := 0; i < 3; i++ {
		if i == where {
			for j := 0; j < n; j++ {
				opt()
			}
		}
		if i < 2 {
			args = append(args, files[i])
		}
	}
	r := zzv.Run(zzv.Cmd{Name: "diff", Args: args, Files: []zzv.File{{Name: "old", Data: old}, {Name: "new", Data: new}}})
	if zzv.Eq(old, new) {
		zzv.Assert(r.Code == 0 && r.Out == "" && r.Err == "", "status 0 and silence for equal files")
		zzv.Witness("equal")
	} else {
		zzv.Assert(r.Code == 1 && r.Out != "" && r.Err == "", "status 1 and output for different files")
		zzv.Witness("different")
	}
}

// HarnessLate: reading fails when some lines have been read.
func HarnessLate() {
	zzv.Bound("files of 1..5 and 0..5 lines of one character in reads of 1..4 bytes or more; any one of the first 12 opens and reads fails")
	old, new := "", ""
	for i := zzv.Len("old.n", 1, 5); i > 0; i-- {
		old += "a\n"
	}
	for i := zzv.Len("new.n", 0, 5); i > 0; i-- {
		new += zzv.StringIn("new", 1, "ab") + "\n"
	}
	r := zzv.Run(zzv.Cmd{Name: "diff", Args: []string{"old", "new"}, Files: []zzv.File{{Name: "old", Data: old}, {Name: "new", Data: new}},
		Chunks: 2, ChunkMax: 4, FaultOps: "or", Faults: 12})
	zzv.Assert(trouble(r) || result(r, old, new), "after a failure the answer is trouble, never a wrong diff")
	if r.Code > 1 {
		zzv.Assert(r.Fault > 0, "there is no failure without a reason")
		zzv.Witness("trouble")
	} else {
		zzv.Witness("answer")
	}
}
