// C06: the tsort command.
package c06

//zzv:cmd tsort
//zzv:hooks

import (
	"strings"

	"github.com/fwip/posix-utils/zzv"
	spec "github.com/fwip/posix-utils/zzvspec"
)

func check(r zzv.Result, text string) {
	ws := spec.Fields(text)
	var o spec.Order
	for i := 0; i+1 < len(ws); i += 2 {
		o.Before(ws[i], ws[i+1])
	}
	if len(ws)%2 != 0 {
		zzv.Assert(r.Code > 0 && r.Err != "" && r.Out == "", "an odd number of words is an error")
		zzv.Witness("odd")
		return
	}
	if o.Cyclic() {
		zzv.Assert(r.Code > 0 && r.Err != "", "a cycle is an error")
		zzv.Witness("cycle")
		return
	}
	zzv.Assert(r.Code == 0 && r.Err == "", "consistent input is sorted without complaint")
	why := o.Sorted(spec.Lines(r.Out))
	zzv.Assert(why == "", "the output is right: "+why)
	zzv.Assert(r.Out == "" || r.Out[len(r.Out)-1] == '\n', "lines are complete")
	zzv.Witness("sorted")
}

// HarnessText: any short text.
func HarnessText() {
	n := 7
	if zzv.Thorough() {
		n = 8
	}
	zzv.Bound("input of 0.." + zzv.Itoa(n) + " bytes over a, b, A, space, tab and newline from standard input, '-' or a file; map iteration in any order")
	zzv.AnyMapOrder()
	text := zzv.AnyString("text", n, "abA \n\t")
	c := zzv.Cmd{Name: "tsort"}
	switch zzv.Choice("from", 3) {
	case 0:
		c.Stdin = text
	case 1:
		c.Stdin = text
		c.Args = []string{"-"}
	case 2:
		c.Args = []string{"in"}
		c.Files = []zzv.File{{Name: "in", Data: text}}
	}
	check(zzv.Run(c), text)
}

// HarnessPairs: more pairs of one-letter words.
func HarnessPairs() {
	n := 3
	if zzv.Thorough() && zzv.Bool("order") {
		zzv.Bound("1..4 pairs of words a, b, A, B on standard input, map iteration in insertion order")
		n = 4
	} else {
		zzv.Bound("1..3 pairs of words a, b, A, B on standard input, map iteration in any order")
		zzv.AnyMapOrder()
	}
	text := ""
	for i := zzv.Len("n", 1, n); i > 0; i-- {
		text += zzv.StringIn("a", 1, "abAB") + " " + zzv.StringIn("b", 1, "abAB") + "\n"
	}
	check(zzv.Run(zzv.Cmd{Name: "tsort", Stdin: text}), text)
}

// HarnessReads: words split across reads, and reads that fail.
func HarnessReads() {
	zzv.Bound("six bytes in up to three reads of 1..5 bytes, of which one may fail, or the file cannot be opened")
	text := zzv.StringIn("text", 6, "ab \n")
	r := zzv.Run(zzv.Cmd{Name: "tsort", Args: []string{"in"}, Files: []zzv.File{{Name: "in", Data: text}}, Chunks: 2, ChunkMax: 5, FaultOps: "or", Faults: 3})
	if r.Fault == 0 {
		check(r, text)
		return
	}
	if r.Fault == 1 || r.Code != 0 {
		zzv.Assert(r.Code > 0 && r.Err != "" && r.Out == "", "unreadable input is an error")
		zzv.Witness("fault")
		return
	}
	check(r, text)
}

// HarnessLong: words of any length.
func HarnessLong() {
	zzv.Bound("a word of 4096 or 65537 bytes before or behind an arbitrary one of a letter")
	n := []int{4096, 65537}[zzv.Choice("length", 2)]
	a, b := strings.Repeat("w", n), zzv.StringIn("b", 1, "xyz")
	if zzv.Bool("second") {
		a, b = b, a
	}
	text := a + "\n" + b
	r := zzv.Run(zzv.Cmd{Name: "tsort", Stdin: text})
	zzv.Assert(r.Code == 0 && r.Out == a+"\n"+b+"\n", "long words are sorted as well")
	zzv.Witness("sorted")
}

// HarnessMany: many words.
func HarnessMany() {
	zzv.Bound("a chain of 12 or 1000 words as pairs on one line or on many, forwards or backwards, and an arbitrary one-letter word last")
	n := []int{12, 1000}[zzv.Choice("n", 2)]
	sep := []string{" ", "\n", "\t \n"}[zzv.Choice("sep", 3)]
	back := zzv.Bool("back")
	text, want, last := "", "", ""
	for i := 0; i < n; i++ {
		w := "w" + zzv.Itoa(i)
		want += w + "\n"
		if i > 0 {
			if back {
				text = last + sep + w + sep + text
			} else {
				text += last + sep + w + sep
			}
		}
		last = w
	}
	x := zzv.StringIn("x", 1, "xyz")
	text += last + " " + x
	want += x + "\n"
	r := zzv.Run(zzv.Cmd{Name: "tsort", Args: []string{"in"}, Files: []zzv.File{{Name: "in", Data: text}}})
	zzv.Assert(r.Code == 0 && r.Err == "" && r.Out == want, "many words are sorted as well")
	zzv.Witness("sorted")
}

// HarnessBytes: a word is anything between blanks.
func HarnessBytes() {
	zzv.Bound("two pairs of words, one of 1..2 arbitrary printable ASCII characters, one other than ASCII")
	w := zzv.String("word", zzv.Len("word.len", 1, 2))
	for i := 0; i < len(w); i++ {
		zzv.Assume(w[i] > ' ' && w[i] < 0x7f)
	}
	zzv.Assume(w != "x")
	text := w + " x\nx \xc3\xa9\n"
	r := zzv.Run(zzv.Cmd{Name: "tsort", Stdin: text})
	zzv.Assert(r.Code == 0 && r.Err == "" && r.Out == w+"\nx\n\xc3\xa9\n", "words are written as they are")
	zzv.Witness("sorted")
}

// HarnessFan: many words around one.
func HarnessFan() {
	zzv.Bound("15 words behind one, the pair of any of them given again at the end")
	text := ""
	var o spec.Order
	add := func(i int) {
		text += "start w" + zzv.Itoa(i) + "\n"
		o.Before("start", "w"+zzv.Itoa(i))
	}
	for i := 0; i < 15; i++ {
		add(i)
	}
	add(zzv.Choice("again", 15))
	r := zzv.Run(zzv.Cmd{Name: "tsort", Stdin: text})
	why := o.Sorted(spec.Lines(r.Out))
	zzv.Assert(r.Code == 0 && r.Err == "" && why == "", "the output is right: "+why)
	zzv.Witness("sorted")
}
