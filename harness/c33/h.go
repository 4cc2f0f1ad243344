// C33: the list of comparisons holds both texts, completely and in order.
package c33

import (
	"github.com/fwip/posix-utils/pkg/diff"
	"github.com/fwip/posix-utils/zzv"
	spec "github.com/fwip/posix-utils/zzvspec"
)

// check reads the comparisons back from their text: "  line" is in both, "+ line" and "- line" in one.
func check(old, new []string) {
	o := append([]string{}, old...)
	n := append([]string{}, new...)
	var gotOld, gotNew []string
	for _, c := range diff.Diff(old, new) {
		text := c.String()
		kind := byte(0)
		for _, l := range spec.Lines(text + "\n") {
			zzv.Assert(len(l) >= 2 && l[1] == ' ', "every line has its mark")
			zzv.Assert(kind == 0 || l[0] == kind, "one kind of lines at a time")
			kind = l[0]
			switch l[0] {
			case ' ':
				gotOld = append(gotOld, l[2:])
				gotNew = append(gotNew, l[2:])
			case '-':
				gotOld = append(gotOld, l[2:])
			case '+':
				gotNew = append(gotNew, l[2:])
			default:
				zzv.Assert(false, "the mark is known")
			}
		}
	}
	zzv.Assert(spec.Same(gotOld, o), "the lines of the first text")
	zzv.Assert(spec.Same(gotNew, n), "the lines of the second text")
	zzv.Assert(spec.Same(old, o) && spec.Same(new, n), "the texts given are not changed")
	if len(gotOld) > 0 && len(gotNew) > 0 {
		zzv.Witness("both")
	}
}

func lines(name string, min, max int) []string {
	n := zzv.Len(name+".n", min, max)
	var ls []string
	for i := 0; i < n; i++ {
		b := []byte(zzv.String(name, 1))
		zzv.Assume(b[0] != '\n')
		ls = append(ls, string(b))
	}
	return ls
}

// HarnessShort: every pair of short texts, up to the pattern of equal lines.
func HarnessShort() {
	max := 4
	if zzv.Thorough() {
		max = 5
	}
	zzv.Bound("two texts of 0.." + zzv.Itoa(max) + " lines of one arbitrary byte each (any pattern of equal lines)")
	check(lines("old", 0, max), lines("new", 0, max))
}

// HarnessLines: lines of any text.
func HarnessLines() {
	zzv.Bound("two texts of 1..2 lines of 0..3 arbitrary bytes")
	text := func(name string) []string {
		var ls []string
		for n := zzv.Len(name+".n", 1, 2); len(ls) < n; {
			b := []byte(zzv.String(name, zzv.Len(name+".len", 0, 3)))
			for _, c := range b {
				zzv.Assume(c != '\n')
			}
			ls = append(ls, string(b))
		}
		return ls
	}
	check(text("old"), text("new"))
}

// HarnessFar: differences among many common lines.
func HarnessFar() {
	zzv.Bound("1..2 and 0..2 arbitrary one-byte lines after 0, 9, 63, 300 or 1100 and before 0..2 common lines")
	var pre, post []string
	for i := []int{0, 9, 63, 300, 1100}[zzv.Choice("pre", 5)]; i > 0; i-- {
		pre = append(pre, "pre"+zzv.Itoa(i))
	}
	for i := zzv.Len("post", 0, 2); i > 0; i-- {
		post = append(post, "post"+zzv.Itoa(i))
	}
	old := append(append(append([]string{}, pre...), lines("old", 1, 2)...), post...)
	new := append(append(append([]string{}, pre...), lines("new", 0, 2)...), post...)
	check(old, new)
}
