// C02: the default output of diff, applied to the first file, gives the second (and backwards).
package c02

//zzv:cmd diff

import (
	"github.com/fwip/posix-utils/pkg/diff"
	"github.com/fwip/posix-utils/zzv"
	spec "github.com/fwip/posix-utils/zzvspec"
)

func check(out string, old, new []string) {
	hs, why := spec.ParseDiff(out)
	zzv.Assert(why == "", "the output is a normal diff: "+why)
	got, why := spec.Apply(old, hs)
	zzv.Assert(why == "", "the changes fit the old file: "+why)
	zzv.Assert(spec.Same(got, new), "the changes turn the old file into the new")
	back, why := spec.Apply(new, spec.Reverse(hs))
	zzv.Assert(why == "", "the changes fit the new file backwards: "+why)
	zzv.Assert(spec.Same(back, old), "the reversed changes turn the new file into the old")
	zzv.Assert((out == "") == spec.Same(old, new), "output is empty exactly for equal files")
}

func line(name string, n int) string {
	b := []byte(zzv.String(name, n))
	for _, c := range b {
		zzv.Assume(c != '\n')
	}
	return string(b)
}

func lines(name string, max int) []string {
	n := zzv.Len(name+".n", 0, max)
	var ls []string
	for i := 0; i < n; i++ {
		ls = append(ls, line(name, 1))
	}
	return ls
}

// HarnessLib: every pair of short files, up to the pattern of equal lines.
func HarnessLib() {
	max := 4
	if zzv.Thorough() {
		max = 5
	}
	zzv.Bound("library: two files of 0.." + zzv.Itoa(max) + " lines of one arbitrary byte each (any pattern of equal lines)")
	old, new := lines("old", max), lines("new", max)
	out := diff.Format(diff.Diff(old, new))
	if out != "" {
		out += "\n"
		zzv.Witness("different")
	}
	zzv.Observe("out", out)
	check(out, old, new)
}

func repeat(s string, n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, s+zzv.Itoa(i))
	}
	return out
}

// HarnessFar: the same, behind and before many equal lines (line numbers of several digits).
func HarnessFar() {
	max := 2
	zzv.Bound("library: 0..2 arbitrary one-byte lines each, after 8, 9, 10, 98, 99, 100 or 1100 and before 0..2 common lines")
	pre := repeat("pre", []int{8, 9, 10, 98, 99, 100, 1100}[zzv.Choice("pre", 7)])
	post := repeat("post", zzv.Len("post", 0, 2))
	o, n := lines("old", max), lines("new", max)
	old := append(append(append([]string{}, pre...), o...), post...)
	new := append(append(append([]string{}, pre...), n...), post...)
	out := diff.Format(diff.Diff(old, new))
	if out != "" {
		out += "\n"
		zzv.Witness("different")
	}
	check(out, old, new)
}

// HarnessBig: one side has a long run of lines of its own.
func HarnessBig() {
	zzv.Bound("library: 9..11, 99 or 1100 new lines against 0..2 arbitrary one-byte lines, either way, with a common line before or after")
	big := repeat("big", []int{9, 10, 11, 99, 1100}[zzv.Choice("big", 5)])
	small := lines("small", 2)
	c := line("common", 1)
	if zzv.Bool("before") {
		big = append([]string{c}, big...)
		small = append([]string{c}, small...)
	} else {
		big = append(big, c)
		small = append(small, c)
	}
	old, new := big, small
	if zzv.Bool("swap") {
		old, new = small, big
	}
	out := diff.Format(diff.Diff(old, new))
	if out != "" {
		out += "\n"
	}
	check(out, old, new)
	zzv.Witness("different")
}

// HarnessCmd: the command on text files with lines of any length and bytes.
func HarnessCmd() {
	n := 6
	if zzv.Thorough() {
		n = 7
	}
	zzv.Bound("command: two text files of 0.." + zzv.Itoa(n) + " bytes, over newline, CR, NUL, space, '<', 'a' and 'b'")
	old, new := zzv.AnyString("old", n, "\nab\r <\x00"), zzv.AnyString("new", n, "\nab\r <\x00")
	zzv.Assume(old == "" || old[len(old)-1] == '\n')
	zzv.Assume(new == "" || new[len(new)-1] == '\n')
	r := zzv.Run(zzv.Cmd{Name: "diff", Args: []string{"old", "new"}, Files: []zzv.File{{Name: "old", Data: old}, {Name: "new", Data: new}}})
	zzv.Assert(r.Err == "", "no diagnostics")
	check(r.Out, spec.Lines(old), spec.Lines(new))
	zzv.Witness("compared")
}

// HarnessLong: long lines and files larger than the reading buffers.
func HarnessLong() {
	zzv.Bound("command: lines of 4094..4098 and 65534..65538 bytes differing or not in an arbitrary last byte")
	n := []int{4094, 65534}[zzv.Choice("size", 2)] + zzv.Len("extra", 0, 4)
	b := make([]byte, n)
	for i := range b {
		b[i] = 'x'
	}
	p := string(b)
	o, w := line("old", 1), line("new", 1)
	old, new := "a\n"+p+o+"\nz\n", "a\n"+p+w+"\nz\ny\n"
	r := zzv.Run(zzv.Cmd{Name: "diff", Args: []string{"old", "new"}, Files: []zzv.File{{Name: "old", Data: old}, {Name: "new", Data: new}}})
	check(r.Out, spec.Lines(old), spec.Lines(new))
	zzv.Witness("compared")
}

// HarnessTwice: two or three changed parts of different sizes.
func HarnessTwice() {
	zzv.Bound("library: parts of 0..3 and 0..4 lines against 0..2 and 0..3, perhaps a third of 0..1, of which the first line of each is an arbitrary byte, with a common line between them")
	part := func(n string, max int) []string {
		ls := repeat(n, zzv.Len(n, 0, max))
		if len(ls) > 0 {
			ls[0] = line(n+".0", 1)
		}
		return ls
	}
	old := append(part("o1.", 3), "common")
	new := append(part("n1.", 2), "common")
	old = append(old, part("o2.", 4)...)
	new = append(new, part("n2.", 3)...)
	if zzv.Choice("third", 2) == 1 {
		old = append(append(old, "more"), part("o3.", 1)...)
		new = append(append(new, "more"), part("n3.", 1)...)
	}
	out := diff.Format(diff.Diff(old, new))
	if out != "" {
		out += "\n"
		zzv.Witness("different")
	}
	check(out, old, new)
}
