// C04: diff reports only what differs: no hunk repeats a line on both sides, and hunks are
// separated by lines that are left alone.
package c04

//zzv:cmd diff

import (
	"github.com/fwip/posix-utils/pkg/diff"
	"github.com/fwip/posix-utils/zzv"
	spec "github.com/fwip/posix-utils/zzvspec"
)

func check(out string, old, new []string) {
	hs, why := spec.ParseDiff(out)
	zzv.Assert(why == "", "the output is a normal diff")
	for i, h := range hs {
		for _, o := range h.Old {
			for _, n := range h.New {
				zzv.Assert(o != n, "a change does not remove and add back a line")
			}
		}
		if i > 0 {
			p := hs[i-1]
			end := p.F1 - 1 + len(p.Old)
			if p.Op == 'a' {
				end = p.F1
			}
			start := h.F1 - 1
			if h.Op == 'a' {
				start = h.F1
			}
			zzv.Assert(start > end, "changes are separated by unchanged lines")
			zzv.Witness("several")
		}
	}
}

func lines(name string, max int) []string {
	n := zzv.Len(name+".n", 0, max)
	var ls []string
	for i := 0; i < n; i++ {
		b := zzv.Byte(name)
		zzv.Assume(b != '\n')
		ls = append(ls, string([]byte{b}))
	}
	return ls
}

func format(old, new []string) string {
	out := diff.Format(diff.Diff(old, new))
	if out != "" {
		out += "\n"
	}
	zzv.Observe("out", out)
	return out
}

func HarnessLib() {
	max := 4
	if zzv.Thorough() {
		max = 5
	}
	zzv.Bound("library: two files of 0.." + zzv.Itoa(max) + " lines of one arbitrary byte each (any pattern of equal lines)")
	old, new := lines("old", max), lines("new", max)
	check(format(old, new), old, new)
}

// HarnessPadded: between many equal lines nothing but the difference is reported.
func HarnessPadded() {
	zzv.Bound("library: 1..2 arbitrary lines each, between runs of 0, 1, 9, 60, 300, 1100 and 0, 1, 9, 60 common lines")
	var pre, post []string
	for i := []int{0, 1, 9, 60, 300, 1100}[zzv.Choice("pre", 6)]; i > 0; i-- {
		pre = append(pre, "pre"+zzv.Itoa(i))
	}
	for i := []int{0, 1, 9, 60}[zzv.Choice("post", 4)]; i > 0; i-- {
		post = append(post, "post"+zzv.Itoa(i))
	}
	o, n := lines("old", 2), lines("new", 2)
	old := append(append(append([]string{}, pre...), o...), post...)
	new := append(append(append([]string{}, pre...), n...), post...)
	out := format(old, new)
	check(out, old, new)
	hs, _ := spec.ParseDiff(out)
	for _, h := range hs {
		for _, l := range append(append([]string{}, h.Old...), h.New...) {
			zzv.Assert(len(l) < 3, "common lines around the difference are not reported")
		}
	}
	zzv.Witness("padded")
}

// HarnessCmd: two far-apart differences in larger files, through the command.
func HarnessCmd() {
	zzv.Bound("command: two files of 24 lines with three arbitrary one-byte lines each at lines 4, 12, 20")
	var old, new []string
	for i := 0; i < 24; i++ {
		if i%8 == 3 {
			old = append(old, spec.Lines(zzv.StringIn("old", 1, "abc"))...)
			new = append(new, spec.Lines(zzv.StringIn("new", 1, "abc"))...)
		} else {
			l := "line" + zzv.Itoa(i)
			old = append(old, l)
			new = append(new, l)
		}
	}
	r := zzv.Run(zzv.Cmd{Name: "diff", Args: []string{"old", "new"}, Files: []zzv.File{{Name: "old", Data: spec.Join(old)}, {Name: "new", Data: spec.Join(new)}}})
	check(r.Out, old, new)
	hs, _ := spec.ParseDiff(r.Out)
	k := 0
	for i := range old {
		if old[i] != new[i] {
			zzv.Assert(k < len(hs) && hs[k].Op == 'c' && hs[k].F1 == i+1 && hs[k].L1 == i+1 && hs[k].F2 == i+1 && hs[k].L2 == i+1, "each changed line is one change")
			k++
		}
	}
	zzv.Assert(k == len(hs), "no other change")
}

// HarnessSparse: long files with hardly a line in common.
func HarnessSparse() {
	zzv.Bound("library: files of 3, 20 or 70 lines of their own on either side and two arbitrary one-byte lines each, one at the first, fourth or last place and one next to it or last")
	file := func(name string) (ls []string) {
		for i := []int{3, 20, 70}[zzv.Choice(name+".n", 3)]; i > 0; i-- {
			ls = append(ls, name+zzv.Itoa(i))
		}
		put := func(at int) {
			b := zzv.Byte(name)
			zzv.Assume(b != '\n')
			ls = append(append(append([]string{}, ls[:at]...), string([]byte{b})), ls[at:]...)
		}
		at := []int{0, 3, len(ls)}[zzv.Choice(name+".at", 3)]
		put(at)
		if zzv.Choice(name+".last", 2) == 1 {
			put(len(ls))
		} else {
			put(at + 1)
		}
		return ls
	}
	old, new := file("old"), file("new")
	check(format(old, new), old, new)
	zzv.Witness("sparse")
}
