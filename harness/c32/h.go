// C32: a command that cannot write its results does not claim success.
package c32

//zzv:cmd cksum
//zzv:cmd cmp
//zzv:cmd diff
//zzv:cmd head
//zzv:cmd kill
//zzv:cmd locale
//zzv:cmd tsort
//zzv:hooks

import (
	"github.com/fwip/posix-utils/zzv"
)

// check runs a command twice: the second time one of its writes may fail.
func check(c zzv.Cmd, trouble int) {
	good := zzv.Run(c)
	c.FaultOps, c.Faults, c.Partial = "W", 6, 2
	r := zzv.Run(c)
	if r.Code == good.Code {
		zzv.Assert(r.Out == good.Out, "success means that everything was written")
		zzv.Witness("written")
		return
	}
	zzv.Assert(r.Fault > 0, "there is no failure without a reason")
	zzv.Assert(r.Code > trouble, "the status tells of the trouble")
	zzv.Assert(r.Err != "", "the failure is reported")
	zzv.Assert(len(r.Out) <= len(good.Out) && r.Out == good.Out[:len(r.Out)], "what was written is a start of the results")
	zzv.Witness("failed")
}

func data(name string, max int) string {
	return zzv.StringIn(name, zzv.Len(name+".len", 0, max), "ab\n")
}

func files(f, g string) []zzv.File {
	return []zzv.File{{Name: "f", Data: f}, {Name: "g", Data: g}}
}

const fails = "; any one of the first 6 writes fails after 0..2 bytes"

func HarnessHead() {
	zzv.Bound("head of one or two files of 0..3 bytes" + fails)
	f := data("f", 3)
	if zzv.Bool("two") {
		check(zzv.Cmd{Name: "head", Args: []string{"f", "g"}, Files: files(f, "x\ny\n")}, 0)
	} else {
		check(zzv.Cmd{Name: "head", Args: []string{"-n", "2", "f"}, Files: files(f, "")}, 0)
	}
}

func HarnessCksum() {
	zzv.Bound("cksum of standard input or two files of 0..2 bytes" + fails)
	if zzv.Bool("files") {
		check(zzv.Cmd{Name: "cksum", Args: []string{"f", "g"}, Files: files(data("f", 2), "x")}, 0)
	} else {
		check(zzv.Cmd{Name: "cksum", Stdin: data("in", 2)}, 0)
	}
}

func HarnessCmp() {
	zzv.Bound("cmp and cmp -l of two files of 0..3 bytes" + fails)
	args := []string{"f", "g"}
	if zzv.Bool("l") {
		args = []string{"-l", "f", "g"}
	}
	check(zzv.Cmd{Name: "cmp", Args: args, Files: files(data("f", 3), data("g", 3))}, 1)
}

func HarnessDiff() {
	zzv.Bound("diff of two files of 0..3 bytes" + fails)
	check(zzv.Cmd{Name: "diff", Args: []string{"f", "g"}, Files: files(data("f", 3), data("g", 3))}, 1)
}

func HarnessTsort() {
	zzv.Bound("tsort of words whose order is given, 0..4 of them" + fails)
	in := []string{"", "a a\n", "a b\n", "b c\na b\n", "a b b c c d"}[zzv.Choice("words", 5)]
	check(zzv.Cmd{Name: "tsort", Stdin: in}, 0)
}

func HarnessLocale() {
	zzv.Bound("locale with one of three environments" + fails)
	env := [][]string{nil, {"LANG=C"}, {"LC_ALL=x", "LC_TIME=y"}}[zzv.Choice("env", 3)]
	check(zzv.Cmd{Name: "locale", Env: env}, 0)
}

func HarnessKill() {
	zzv.Bound("kill -l" + fails)
	check(zzv.Cmd{Name: "kill", Args: []string{"-l"}}, 0)
}
