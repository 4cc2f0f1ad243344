// C31: e takes the text of a file into the buffer completely, or changes nothing.
package c31

//zzv:cmd ed
//zzv:hooks

import (
	"strings"

	"github.com/fwip/posix-utils/zzv"
	spec "github.com/fwip/posix-utils/zzvspec"
)

func lines(name string, max int) (ls []string) {
	n := zzv.Len(name+".lines", 0, max)
	for i := 0; i < n; i++ {
		b := zzv.Byte(name)
		zzv.Assume(b != '\n')
		ls = append(ls, string([]byte{b}))
	}
	return ls
}

func asks(out string) bool {
	for i := 0; i < len(out); i++ {
		if out[i] == '?' && (i == 0 || out[i-1] == '\n') {
			return true
		}
	}
	return false
}

// HarnessEdit: what e makes of the buffer, and where w writes afterwards.
func HarnessEdit() {
	zzv.Bound("two files of 0..2 lines of an arbitrary byte (0..3 in the second, its last newline there or not); one of four edits; e with the name of either file, a missing one, a directory or no name; then w with and without a name")
	f, g := lines("f", 2), lines("g", 3)
	gt := spec.Join(g)
	if gt != "" && zzv.Choice("incomplete", 2) == 1 {
		gt = gt[:len(gt)-1]
	}
	e := spec.NewEd(f)
	in := ""
	switch zzv.Choice("edit", 4) {
	case 1:
		in = "$d\n"
		e.Do("$d", nil)
	case 2:
		in = "0a\nx\ny\n.\n"
		e.Do("0a", []string{"x", "y"})
	case 3:
		in = "1p\n"
		e.Do("1p", nil)
	}
	cmd := []string{"e f", "e g", "e none", "e dir", "e"}[zzv.Choice("command", 5)]
	name, ok := "f", true
	wf, wg, wk := spec.Join(f), gt, ""
	switch cmd {
	case "e f", "e":
		e = spec.NewEd(f)
		wk = wf
	case "e g":
		e = spec.NewEd(g)
		name = "g"
		wk = wg
	default:
		ok = false
		wk = spec.Join(e.Lines)
	}
	in += cmd + "\n.=\nw k\n"
	if zzv.Choice("write", 2) == 1 {
		in += "w\n"
		if name == "f" {
			wf = spec.Join(e.Lines)
		}
	}
	r := zzv.Run(zzv.Cmd{Name: "ed", Args: []string{"f"}, Stdin: in + "q\n", Files: []zzv.File{{Name: "f", Data: spec.Join(f)}, {Name: "g", Data: gt}, {Name: "dir", Kind: 1}}})
	zzv.Assert(r.Code == 0, "ed ends well")
	fd, _ := r.File("f")
	gd, _ := r.File("g")
	kd, kok := r.File("k")
	same := func(a, b string) bool { return a == b || a == b+"\n" } // the last newline may be added
	zzv.Assert(kok && same(kd, wk), "the buffer is the text of the file, or as it was")
	zzv.Assert(same(fd, wf), "w writes to the file being edited")
	zzv.Assert(same(gd, wg), "the other file keeps its text")
	zzv.Assert(len(r.Names) == 3, "no other file is there")
	num := spec.EdItoa(e.Cur) + "\n"
	out := spec.NoBlank(r.Out)
	zzv.Assert(len(out) >= len(num) && out[len(out)-len(num):] == num, "the current line is the last one, or as it was")
	if ok {
		zzv.Witness("taken")
	} else {
		zzv.Assert(asks(r.Out), "a file that cannot be read is answered with ?")
		zzv.Witness("refused")
	}
}

// HarnessFault: opening or reading fails, or gives the text in parts.
func HarnessFault() {
	zzv.Bound("files of two lines; any one of the first 8 opens and reads fails, or the first three reads give 1..4 bytes")
	f, g := "a\nb\n", zzv.StringIn("g", 1, "xyz\x00")+"\nc\n"
	c := zzv.Cmd{Name: "ed", Args: []string{"f"}, Stdin: "1d\ne g\n.=\nw k\nq\n", Files: []zzv.File{{Name: "f", Data: f}, {Name: "g", Data: g}}}
	chunks := zzv.Choice("chunks", 2) == 1
	if chunks {
		c.Chunks, c.ChunkMax = 3, 4
	} else {
		c.FaultOps, c.Faults = "or", 8
	}
	r := zzv.Run(c)
	zzv.Assert(r.Code == 0, "ed ends well")
	fd, _ := r.File("f")
	gd, _ := r.File("g")
	zzv.Assert(fd == f && gd == g, "reading changes no file")
	kd, kok := r.File("k")
	if chunks {
		zzv.Assert(kok && kd == g, "however it is read, the text is complete")
		zzv.Witness("parts")
		return
	}
	if kok {
		zzv.Assert(kd == g || asks(r.Out) && (kd == "b\n" || kd == "" || kd == f), "the buffer is the complete text, or as it was and a ? is there")
	}
	if r.Fault > 0 && asks(r.Out) {
		zzv.Witness("failed")
	} else if r.Fault == 0 {
		zzv.Assert(kok && kd == g && !asks(r.Out), "without a failure the text is taken")
		zzv.Witness("taken")
	}
}

// HarnessLarge: long files are taken completely.
func HarnessLarge() {
	zzv.Bound("files of 511..513, 4096, 4097, 32769, 65537, 131073 and 1048577 bytes in one or many lines, with an arbitrary byte before the last newline, by e or when ed starts")
	n := []int{511, 512, 513, 4096, 4097, 32769, 65537, 131073, 1048577}[zzv.Choice("size", 9)]
	b := zzv.Byte("byte")
	zzv.Assume(b != '\n')
	text, last := "", 1
	if zzv.Choice("lines", 2) == 1 {
		text = strings.Repeat("some text of 25 bytes...\n", n/25)
		last = n/25 + 1
	}
	text += strings.Repeat("x", n-len(text)-2) + string([]byte{b}) + "\n"
	in, first := "", "g"
	if zzv.Choice("by", 2) == 1 {
		in, first = "e g\n", "f"
	}
	r := zzv.Run(zzv.Cmd{Name: "ed", Args: []string{first}, Stdin: in + ".=\nw k\nq\n", Files: []zzv.File{{Name: "f", Data: "a\n"}, {Name: "g", Data: text}}})
	zzv.Assert(r.Code == 0, "ed ends well")
	k, ok := r.File("k")
	zzv.Assert(ok && k == text, "the buffer is the text of the file")
	zzv.Assert(spec.NoBlank(r.Out) == spec.EdItoa(last)+"\n", "the current line is the last one")
	zzv.Witness("large")
}

// HarnessNames: names with all kinds of characters.
func HarnessNames() {
	zzv.Bound("w and then e with one of 14 names with blanks, signs, quotes and letters other than ASCII inside, of a line of an arbitrary byte")
	n := []string{"n~", "n m", "n.swp", ".n", "-n", "n;m", "n,m", "\"n\"", "n\\m", "$n", "#n", "1n", "q", "n\xc3\xa9"}[zzv.Choice("name", 14)]
	b := zzv.Byte("line")
	zzv.Assume(b != '\n')
	text := "x\n" + string([]byte{b}) + "\n"
	r := zzv.Run(zzv.Cmd{Name: "ed", Args: []string{"f"}, Stdin: "w " + n + "\n1d\nw\ne " + n + "\n0a\nnew\n.\nw\nq\n", Files: []zzv.File{{Name: "f", Data: text}}})
	zzv.Assert(r.Code == 0, "ed ends well")
	f, _ := r.File("f")
	g, _ := r.File(n)
	zzv.Assert(f == text[2:], "the first file has what was written to it")
	zzv.Assert(g == "new\n"+text, "e takes the named file, and w then writes to it")
	zzv.Assert(len(r.Names) == 2, "no other file is there")
	zzv.Witness("taken")
}
