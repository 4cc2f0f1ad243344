// C24: editing with ed equals editing a list of lines.
package c24

//zzv:cmd ed
//zzv:hooks

import (
	"strings"

	"github.com/fwip/posix-utils/zzv"
	spec "github.com/fwip/posix-utils/zzvspec"
)

// file has lines of one character, the last one with or without its newline.
func file(max int) (lines []string, data string, incomplete bool) {
	n := zzv.Len("lines", 0, max)
	for i := 0; i < n; i++ {
		lines = append(lines, zzv.StringIn("line", 1, "ab.\r \t\x00"))
	}
	data = spec.Join(lines)
	if n > 0 && zzv.Choice("incomplete", 2) == 1 {
		return lines, data[:len(data)-1], true
	}
	return lines, data, false
}

func text(forms int) (lines []string) {
	switch zzv.Choice("text", forms) {
	case 0:
		if forms < 3 {
			return []string{zzv.StringIn("text", 1, "ab\r \\/$")}
		}
		b := zzv.Byte("text")
		zzv.Assume(b != '\n' && b != '.')
		lines = []string{string([]byte{b})}
	case 1:
		lines = []string{"", zzv.StringIn("text", 1, "ab\r.1") + "."}
	case 2:
		lines = []string{"." + zzv.StringIn("text", 1, ". \ra"), "\xc3\xa9x", "." + zzv.StringIn("text", 1, ". \ra")}
	}
	return lines
}

var addrs = []string{"", "1", "2", "$", "0", ".-1", "1,2", "2,$", "1,$-1", ",", "$-1", ".-", "3", "1+1", ".+1"}

func edit(e *spec.Ed, lines []string, incomplete bool, data string, n, forms, texts int) {
	in := ""
	for i := 0; i < n; i++ {
		a := addrs[zzv.Choice("addr", forms)]
		two := a == "1,2" || a == "2,$" || a == "1,$-1" || a == ","
		c := "acid"[zzv.Choice("cmd", 4)]
		if two && (c == 'a' || c == 'i') {
			zzv.Assume(false)
		}
		var t []string
		in += a + string([]byte{c}) + "\n"
		if c != 'd' {
			t = text(texts)
			in += spec.Join(t) + ".\n"
		}
		_, ok := e.Do(a+string([]byte{c}), t)
		if ok {
			zzv.Witness("ok" + string([]byte{c}))
		} else {
			zzv.Witness("refused")
		}
	}
	in += ".=\nw\nq\n"
	r := zzv.Run(zzv.Cmd{Name: "ed", Args: []string{"f"}, Stdin: in, Files: []zzv.File{{Name: "f", Data: data}}})
	zzv.Assert(r.Code == 0, "ed ends well")
	f, _ := r.File("f")
	want := spec.Join(e.Lines)
	if incomplete && len(e.Lines) > 0 && f != want {
		// The incomplete line may stay incomplete
		want = want[:len(want)-1]
	}
	zzv.Assert(f == want, "the file has the lines that the edits leave")
	out := spec.NoBlank(r.Out)
	num := spec.EdItoa(e.Cur) + "\n"
	zzv.Assert(len(out) >= len(num) && out[len(out)-len(num):] == num, "the current line is the one that the edits leave")
}

func HarnessEdits() {
	zzv.Bound("0..3 lines of one of seven characters, last one complete or not; one command a, i, c or d with 15 kinds of addresses, text of a line of an arbitrary byte, or of 2..3 lines with dots, blanks and other than ASCII")
	lines, data, incomplete := file(3)
	e := spec.NewEd(lines)
	edit(e, lines, incomplete, data, 1, len(addrs), 3)
}

func HarnessSequence() {
	n, m := 2, 8
	if zzv.Thorough() {
		n, m = 3, 6
	}
	zzv.Bound("0..3 lines of one of seven characters, last one complete or not; " + zzv.Itoa(n) + " commands a, i, c, d with " + zzv.Itoa(m) + " kinds of addresses, text of 1..2 lines")
	lines, data, incomplete := file(3)
	e := spec.NewEd(lines)
	edit(e, lines, incomplete, data, n, m, 4-n)
}

// HarnessLarge: more and longer lines.
func HarnessLarge() {
	zzv.Bound("12 lines of 0..120 bytes, the second with letters other than ASCII, the fourth ending in an arbitrary byte; one command with a number 0..13 or a range of numbers 1..12; text of one line, of twelve lines or of a line of 5000 bytes; then 10a")
	var lines []string
	for i := 1; i <= 12; i++ {
		lines = append(lines, spec.EdItoa(i)+"........................................................................................................................"[:i*10])
	}
	lines[1] += "\xc3\xa9\xe2\x82\xac"
	lines[6] = ""
	b := zzv.Byte("byte")
	zzv.Assume(b != '\n')
	lines[3] += string([]byte{b})
	e := spec.NewEd(lines)
	a := spec.EdItoa(zzv.Choice("addr", 14))
	c := "acid"[zzv.Choice("cmd", 4)]
	if c == 'c' || c == 'd' {
		if zzv.Choice("range", 2) == 1 {
			a += "," + spec.EdItoa(1+zzv.Choice("end", 12))
		}
	}
	in := a + string([]byte{c}) + "\n"
	var t []string
	if c != 'd' {
		switch zzv.Choice("text", 3) {
		case 0:
			t = []string{"one"}
		case 1:
			for i := 0; i < 12; i++ {
				t = append(t, "new"+spec.EdItoa(i))
			}
		case 2:
			t = []string{strings.Repeat("long ", 1000), "short"}
		}
		in += spec.Join(t) + ".\n"
	}
	if _, ok := e.Do(a+string([]byte{c}), t); ok {
		zzv.Witness("ok")
	} else {
		zzv.Witness("refused")
	}
	in += "10a\nmore\n.\n.=\nw\nq\n"
	e.Do("10a", []string{"more"})
	r := zzv.Run(zzv.Cmd{Name: "ed", Args: []string{"f"}, Stdin: in, Files: []zzv.File{{Name: "f", Data: spec.Join(lines)}}})
	zzv.Assert(r.Code == 0, "ed ends well")
	f, _ := r.File("f")
	zzv.Assert(f == spec.Join(e.Lines), "the file has the lines that the edits leave")
	out := spec.NoBlank(r.Out)
	num := spec.EdItoa(e.Cur) + "\n"
	zzv.Assert(len(out) >= len(num) && out[len(out)-len(num):] == num, "the current line is the one that the edits leave")
}

// HarnessWide: letters of several bytes.
func HarnessWide() {
	zzv.Bound("0..3 lines out of five, with letters of one to four bytes, other line separators and bytes that are none; two commands a, i, c or d with four kinds of addresses and text of such a line")
	ls := []string{"a", "\xc3\xa9", "\xe2\x82\xacx\xf0\x9f\x98\x80", "\xff\xc3", "\u2028\x0b\x0c\u0085\x1c"}
	var lines []string
	for i := zzv.Len("lines", 0, 3); i > 0; i-- {
		lines = append(lines, ls[zzv.Choice("line", len(ls))])
	}
	data := spec.Join(lines)
	e := spec.NewEd(lines)
	in := ""
	for i := 0; i < 2; i++ {
		cmd := []string{"", "1", "2", "$"}[zzv.Choice("addr", 4)] + []string{"a", "c", "i", "d"}[zzv.Choice("cmd", 4)]
		in += cmd + "\n"
		var t []string
		if cmd[len(cmd)-1] != 'd' {
			t = ls[4-2*i : 5-2*i]
			in += spec.Join(t) + ".\n"
		}
		e.Do(cmd, t)
	}
	r := zzv.Run(zzv.Cmd{Name: "ed", Args: []string{"f"}, Stdin: in + ".=\nw\n", Files: []zzv.File{{Name: "f", Data: data}}})
	zzv.Assert(r.Code == 0, "ed ends well")
	f, _ := r.File("f")
	zzv.Assert(f == spec.Join(e.Lines), "the file has the lines that the edits leave")
	out := spec.NoBlank(r.Out)
	num := spec.EdItoa(e.Cur) + "\n"
	zzv.Assert(len(out) >= len(num) && out[len(out)-len(num):] == num, "the current line is the one that the edits leave")
	zzv.Witness("ok")
}

// HarnessEmpty: empty lines in the buffer and at either end of the text.
func HarnessEmpty() {
	zzv.Bound("0..2 lines, empty or of a byte; a, c, i or d with one of eight kinds of addresses, text of 1..3 lines, each empty, a blank or of a byte")
	one := func(n string) string {
		switch zzv.Choice(n, 3) {
		case 0:
			return ""
		case 1:
			return " "
		}
		return zzv.StringIn(n, 1, "ab\r\t")
	}
	var lines, t []string
	for i := zzv.Len("lines", 0, 2); i > 0; i-- {
		lines = append(lines, []string{"", zzv.StringIn("line", 1, "ab")}[zzv.Choice("empty", 2)])
	}
	e := spec.NewEd(lines)
	a := addrs[zzv.Choice("addr", 8)]
	c := "acid"[zzv.Choice("cmd", 4)]
	if (a == "1,2" || a == "2,$") && (c == 'a' || c == 'i') {
		zzv.Assume(false)
	}
	in := a + string([]byte{c}) + "\n"
	if c != 'd' {
		for i := zzv.Len("text", 1, 3); i > 0; i-- {
			t = append(t, one("text"))
		}
		in += spec.Join(t) + ".\n"
	}
	if _, ok := e.Do(a+string([]byte{c}), t); ok {
		zzv.Witness("ok")
	} else {
		zzv.Witness("refused")
	}
	r := zzv.Run(zzv.Cmd{Name: "ed", Args: []string{"f"}, Stdin: in + ".=\nw\nq\n", Files: []zzv.File{{Name: "f", Data: spec.Join(lines)}}})
	zzv.Assert(r.Code == 0, "ed ends well")
	f, _ := r.File("f")
	zzv.Assert(f == spec.Join(e.Lines), "the file has the lines that the edits leave")
	out := spec.NoBlank(r.Out)
	num := spec.EdItoa(e.Cur) + "\n"
	zzv.Assert(len(out) >= len(num) && out[len(out)-len(num):] == num, "the current line is the one that the edits leave")
}
