// C26: w saves exactly the addressed lines to the named file, never loses the old or the new text, and
// touches nothing else.
package c26

//zzv:cmd ed
//zzv:hooks

import (
	"strings"

	"github.com/fwip/posix-utils/zzv"
	spec "github.com/fwip/posix-utils/zzvspec"
)

func lines(max int) (ls []string) {
	n := zzv.Len("lines", 0, max)
	for i := 0; i < n; i++ {
		b := zzv.Byte("line")
		zzv.Assume(b != '\n')
		ls = append(ls, string([]byte{b}))
	}
	return ls
}

func asks(out string) bool {
	for i := 0; i < len(out); i++ {
		if out[i] == '?' && (i == 0 || out[i-1] == '\n') {
			return true
		}
	}
	return false
}

const precious = "of somebody else\n"

// others: the names that a careless editor may use for itself.
func others(r zzv.Result) {
	for _, n := range []string{"f.swp", "f~", "f.tmp", "g.swp", "other"} {
		d, ok := r.File(n)
		zzv.Assert(ok && d == precious, "other files are left alone")
	}
}

func files(f string) []zzv.File {
	return []zzv.File{{Name: "f", Data: f}, {Name: "g", Data: "old g\n"}, {Name: "f.swp", Data: precious}, {Name: "f~", Data: precious},
		{Name: "f.tmp", Data: precious}, {Name: "g.swp", Data: precious}, {Name: "other", Data: precious}}
}

// HarnessWrite: what is written where.
func HarnessWrite() {
	zzv.Bound("0..3 lines of one arbitrary byte, unchanged or after one of four edits; w with no name, its own, an existing or a new one (also with a blank, or of a byte that is not UTF-8), alone or with one of eight ranges; then the whole buffer to another file, and perhaps to its own")
	ls := lines(3)
	e := spec.NewEd(ls)
	in := ""
	switch zzv.Choice("edit", 5) {
	case 1:
		in = "1d\n"
		e.Do("1d", nil)
	case 2:
		in = "$a\nnew\n.\n"
		e.Do("$a", []string{"new"})
	case 3:
		in = "1,$d\n"
		e.Do("1,$d", nil)
	case 4:
		in = "0a\n\n\n.\n"
		e.Do("0a", []string{"", ""})
	}
	name := []string{"", " f", " g", " h", " \xe9", " h m~"}[zzv.Choice("name", 6)]
	rng := []string{"", "1,2", "2", ",", "$", "1,$-1", "2,1", "0", "9"}[zzv.Choice("range", 9)]
	in += rng + "w" + name + "\n"
	want, ok := spec.Join(e.Lines), true
	if rng != "" {
		m := spec.NewEd(e.Lines)
		m.Cur = e.Cur
		var out []string
		out, ok = m.Do(rng+"p", nil)
		want = spec.Join(out)
	}
	in += ".=\nw k\n"
	again := zzv.Bool("again")
	if again {
		in += "w\n"
	}
	in += "q\n"
	r := zzv.Run(zzv.Cmd{Name: "ed", Args: []string{"f"}, Stdin: in, Files: files(spec.Join(ls))})
	zzv.Assert(r.Code == 0, "ed ends well")
	others(r)
	f, fok := r.File("f")
	g, gok := r.File("g")
	newName := "h"
	if name == " \xe9" || name == " h m~" {
		newName = name[1:]
	}
	h, hok := r.File(newName)
	k, kok := r.File("k")
	wf, wg, wh := spec.Join(ls), "old g\n", ""
	if ok {
		switch name {
		case "", " f":
			wf = want
		case " g":
			wg = want
		case " h", " \xe9", " h m~":
			wh = want
		}
		zzv.Witness("written")
	} else {
		zzv.Assert(asks(r.Out), "a range that is not there is answered with ?")
		zzv.Witness("refused")
	}
	if again {
		wf = spec.Join(e.Lines) // the file being edited is still the one to write to
	}
	zzv.Assert(fok && f == wf, "the file has the written lines exactly when it was named")
	zzv.Assert(gok && g == wg, "another file has the written lines exactly when it was named")
	zzv.Assert(hok == ((name == " "+newName) && ok) && h == wh, "a new file appears exactly when it was named")
	zzv.Assert(kok && k == spec.Join(e.Lines), "writing leaves the buffer as it is")
	names := 8
	if hok {
		names++
	}
	zzv.Assert(len(r.Names) == names, "no file is left behind")
	num := spec.EdItoa(e.Cur) + "\n"
	out := spec.NoBlank(r.Out)
	zzv.Assert(len(out) >= len(num) && out[len(out)-len(num):] == num, "writing leaves the current line as it is")
}

// HarnessFault: one operation of the file system fails.
func HarnessFault() {
	zzv.Bound("two lines of an arbitrary byte of which one is, or both are deleted; any one of the first 16 opens, stats, reads, writes (disk full after 0..3 bytes), closes (which lose what was written), renames and removes fails; one or two w in a row")
	ls := []string{zzv.StringIn("line", 1, "ab\x00"), zzv.StringIn("line", 1, "ab\x00")}
	old, new := spec.Join(ls), spec.Join(ls[1:])
	twice := zzv.Choice("twice", 2) == 1
	in := "1p\n1d\nw\n"
	if zzv.Choice("all", 2) == 1 {
		in, new = "1p\n1,2d\nw\n", ""
	}
	if twice {
		in += "w\n"
	}
	ops := "oswcnd"
	reads := zzv.Choice("reads", 2) == 1
	if reads {
		ops += "r"
	}
	r := zzv.Run(zzv.Cmd{Name: "ed", Args: []string{"f"}, Stdin: in, Files: files(old), FaultOps: ops, Faults: 16, Partial: 3})
	f, ok := r.File("f")
	zzv.Assert(ok && (f == old || f == new), "the file has its old or its new content")
	others(r)
	if !asks(r.Out) && r.Code == 0 {
		zzv.Assert(f == new, "without a question mark the text is saved")
		zzv.Witness("saved")
	} else {
		zzv.Assert(r.Fault > 0, "there is no failure without a reason")
		zzv.Witness("failed")
	}
	out := spec.NoBlank(r.Out)
	if twice && !reads && len(out) > 1 && out[:2] == ls[0]+"\n" {
		zzv.Assert(f == new, "after a failed write the text is still there to be written")
		zzv.Assert(len(r.Names) == 7, "no file is left behind")
		zzv.Witness("again")
	}
}

// HarnessCrash: ed is killed at any moment.
func HarnessCrash() {
	zzv.Bound("two lines of an arbitrary byte and an added one, to its own file or another; ed is killed before any of the first 8 creations, writes (0..6 bytes arrive), renames and removals")
	ls := []string{zzv.StringIn("line", 1, "ab\x00"), zzv.StringIn("line", 1, "ab\x00")}
	old, new := spec.Join(ls), spec.Join(append(append([]string(nil), ls...), "new"))
	name := []string{"", " g"}[zzv.Choice("name", 2)]
	r := zzv.Run(zzv.Cmd{Name: "ed", Args: []string{"f"}, Stdin: "a\nnew\n.\nw" + name + "\nq\n", Files: files(old), Crashes: 8, Partial: 6})
	f, ok := r.File("f")
	zzv.Assert(ok, "the file is there")
	others(r)
	if name == "" {
		zzv.Assert(f == old || f == new, "the file has its old or its new content")
	} else {
		zzv.Assert(f == old, "the file that is not written keeps its content")
		g, ok := r.File("g")
		zzv.Assert(ok && (g == "old g\n" || g == new), "the other file has its old or its new content")
	}
	if r.Code == 0 {
		zzv.Assert(name != "" || f == new, "a finished session has saved the text")
		zzv.Witness("finished")
	} else {
		zzv.Witness("killed")
	}
}

// HarnessLarge: long texts are written completely.
func HarnessLarge() {
	zzv.Bound("texts of 4094..4097, 32769 and 65537 bytes in one or many lines, with an arbitrary byte, after a deletion or an added line; the whole or from line 2 on, to its own file or another")
	n := []int{4094, 4095, 4096, 4097, 32769, 65537}[zzv.Choice("size", 6)]
	b := zzv.Byte("byte")
	zzv.Assume(b != '\n')
	end := string([]byte{b}) + "\n"
	var text string
	if zzv.Choice("lines", 2) == 1 {
		text = strings.Repeat("some text of 25 bytes...\n", n/25)
		text += strings.Repeat("x", n-len(text)-2) + end
	} else {
		text = "first\n" + strings.Repeat("x", n-8) + end
	}
	in, buf := "", text
	if zzv.Choice("edit", 2) == 1 {
		in = "1d\n"
		buf = text[strings.Index(text, "\n")+1:]
	} else {
		in = "0a\nnew\n.\n"
		buf = "new\n" + text
	}
	name := []string{"", " g"}[zzv.Choice("name", 2)]
	want := buf
	if zzv.Choice("range", 2) == 1 {
		in += "2,$"
		want = buf[strings.Index(buf, "\n")+1:]
		zzv.Assume(want != "") // there is a second line
	}
	r := zzv.Run(zzv.Cmd{Name: "ed", Args: []string{"f"}, Stdin: in + "w" + name + "\nq\n", Files: []zzv.File{{Name: "f", Data: text}}})
	zzv.Assert(r.Code == 0, "ed ends well")
	f, _ := r.File("f")
	if name == "" {
		zzv.Assert(f == want, "the whole text is written")
	} else {
		g, ok := r.File("g")
		zzv.Assert(ok && g == want, "the whole text is written")
		zzv.Assert(f == text, "the file that was not named keeps its text")
	}
	zzv.Witness("large")
}

// HarnessNoName: without a file to edit there is none to write to, until one is named.
func HarnessNoName() {
	zzv.Bound("ed without operand, a text of 0..2 lines of an arbitrary byte; w without and with a name, twice")
	ls := lines(2)
	for _, l := range ls {
		zzv.Assume(l != ".")
	}
	in := ""
	if len(ls) > 0 {
		in = "a\n" + spec.Join(ls) + ".\n"
	}
	named := false
	for i := 0; i < 2; i++ {
		if zzv.Choice("name", 2) == 1 {
			in += "w g\n"
			named = true
		} else {
			in += "w\n"
			zzv.Assume(!named) // whether the name is remembered is not said
		}
	}
	r := zzv.Run(zzv.Cmd{Name: "ed", Stdin: in + "q\n", Files: []zzv.File{{Name: "other", Data: precious}}})
	zzv.Assert(r.Code == 0, "ed ends well")
	o, ok := r.File("other")
	zzv.Assert(ok && o == precious, "other files are left alone")
	if !named {
		zzv.Assert(len(r.Names) == 1, "no file is written without a name")
		zzv.Assert(asks(r.Out), "w without a name is answered with ?")
		zzv.Witness("nowhere")
		return
	}
	g, ok := r.File("g")
	zzv.Assert(ok && g == spec.Join(ls) && len(r.Names) == 2, "the named file has the lines")
	zzv.Witness("named")
}
