// C25: ed prints exactly the lines that the addresses name, and keeps the current line.
package c25

//zzv:cmd ed
//zzv:hooks

import (
	"github.com/fwip/posix-utils/zzv"
	spec "github.com/fwip/posix-utils/zzvspec"
)

// session gives the commands to ed and compares the answers with those of the model.
// Empty lines are not looked at, they separate answers.
func session(lines, cmds []string) {
	e := spec.NewEd(lines)
	in, want := "", ""
	for _, c := range cmds {
		in += c + "\n"
		out, ok := e.Do(c, nil)
		if !ok {
			want += "?\n"
			zzv.Witness("refused")
			continue
		}
		want += spec.Join(out)
	}
	r := zzv.Run(zzv.Cmd{Name: "ed", Args: []string{"f"}, Stdin: in, Files: []zzv.File{{Name: "f", Data: spec.Join(lines)}}})
	zzv.Assert(r.Code == 0, "ed ends well")
	zzv.Assert(answers(r.Out) == want, "the answers are the addressed lines, in order")
	f, _ := r.File("f")
	zzv.Assert(f == spec.Join(lines), "printing leaves the file alone")
	zzv.Witness("answered")
}

// answers drops empty lines and what follows a question mark.
func answers(s string) string {
	out := ""
	for i := 0; i < len(s); {
		j := i
		for s[j] != '\n' {
			j++
		}
		if j > i {
			if s[i] == '?' {
				out += "?\n"
			} else {
				out += s[i : j+1]
			}
		}
		i = j + 1
	}
	return out
}

func lines(n int) (ls []string) {
	for i := 0; i < n; i++ {
		b := zzv.Byte("line")
		zzv.Assume(b != '\n' && b != '?')
		ls = append(ls, string([]byte{b}))
	}
	return ls
}

var addrs = []string{"1", "2", "3", "4", "0", ".", "$", ".-1", ".+1", "$-1", "1+1", ".-", "1+", "2-2", "$+1", "00002", "99999999999999999999"}

// HarnessOne: one command, then the current line's number.
func HarnessOne() {
	zzv.Bound("0..3 lines of one arbitrary byte (not newline or ?); p, n, =, or no command with none, one of 17 addresses, or two of the first 11 with ',' or ';' (the second absolute then), and open ranges; starting from the last or the second line")
	n := zzv.Len("lines", 0, 3)
	ls := lines(n)
	var cmds []string
	if n > 1 && zzv.Choice("from", 2) == 1 {
		cmds = append(cmds, "2p")
	}
	c := []string{"p", "n", "", "="}[zzv.Choice("cmd", 4)]
	a := ""
	switch zzv.Choice("form", 6) {
	case 0:
	case 1:
		a = addrs[zzv.Choice("a", len(addrs))]
		if zzv.Choice("blanks", 2) == 1 {
			a = " " + a + " "
		}
	case 2:
		zzv.Assume(c == "p" || c == "n")
		a = addrs[zzv.Choice("a", 11)] + "," + addrs[zzv.Choice("b", 11)]
	case 3:
		zzv.Assume(c == "p" || c == "n")
		a = addrs[zzv.Choice("a", 11)] + ";" + []string{"1", "3", "$", "$-1", "2+1"}[zzv.Choice("b", 5)]
	case 4:
		zzv.Assume(c == "p" || c == "n")
		x := addrs[zzv.Choice("a", 11)]
		a = []string{x + ",", x + ";", "," + x, ";" + x}[zzv.Choice("open", 4)]
	case 5:
		zzv.Assume(c == "p" || c == "n")
		a = []string{",", ";", " 1 , 2 ", " , "}[zzv.Choice("whole", 4)]
	}
	cmds = append(cmds, a+c, ".=", ".n")
	session(ls, cmds)
}

// HarnessSearch: lines found by what they contain.
func HarnessSearch() {
	zzv.Bound("1..4 lines of 1..2 characters a or b; /b/, /ab/, /^b/, /b$/, /^ab$/ with p, n, = or nothing and offsets, or as either end of a range, from any line")
	var ls []string
	n := zzv.Len("lines", 1, 4)
	for i := 0; i < n; i++ {
		ls = append(ls, zzv.StringIn("line", zzv.Len("len", 1, 2), "ab"))
	}
	re := []string{"/b/", "/ab/", "/^b/", "/b$/", "/^ab$/"}[zzv.Choice("re", 5)]
	var cmd string
	switch zzv.Choice("form", 7) {
	case 0:
		cmd = re
	case 1:
		cmd = re + "="
	case 2:
		cmd = re + "+1n"
	case 3:
		cmd = re + "-p"
	case 4:
		cmd = "1," + re + "p"
	case 5:
		cmd = re + ",$n"
	case 6:
		cmd = re + "," + re + "+1p"
	}
	session(ls, []string{spec.EdItoa(zzv.Len("from", 1, n)), cmd, ".="})
}

// HarnessExact: blanks and capital letters count.
func HarnessExact() {
	zzv.Bound("1..3 lines of 1..2 characters a, A or space; /a/, /A/, / a/, /a /, / / as an address or the end of a range")
	var ls []string
	n := zzv.Len("lines", 1, 3)
	for i := 0; i < n; i++ {
		ls = append(ls, zzv.StringIn("line", zzv.Len("len", 1, 2), "aA "))
	}
	re := []string{"/a/", "/A/", "/ a/", "/a /", "/ /"}[zzv.Choice("re", 5)]
	session(ls, []string{"1", []string{re + "n", "1," + re + "p"}[zzv.Choice("form", 2)], ".="})
}

// HarnessThousand: numbers of four digits.
func HarnessThousand() {
	zzv.Bound("1002 lines, the last of an arbitrary byte; five commands with addresses around 1000")
	var ls []string
	for i := 1; i < 1002; i++ {
		ls = append(ls, "l"+spec.EdItoa(i))
	}
	ls = append(ls, lines(1)...)
	session(ls, []string{[]string{"998,1002n", "1000", "$-2,$n", "999+2n", "/l1001/,$p"}[zzv.Choice("command", 5)], ".=", "", "1003p", "$="})
}

// HarnessMany: numbers of several digits.
func HarnessMany() {
	zzv.Bound("12 lines, two of them arbitrary bytes; ranges of numbers 0..15, as lines or as offsets to $ and .")
	ls := []string{"l1", "l2", "l3", "l4", "l5", "l6", "l7", "l8", "l9", "l10", "l11", "l12"}
	x := lines(2)
	ls[0], ls[11] = x[0], x[1]
	num := func(name string) string {
		if zzv.Choice(name+".long", 2) == 1 {
			return "1" + zzv.FixStr(zzv.StringIn(name, 1, "012345"))
		}
		return zzv.FixStr(zzv.StringIn(name, 1, "0123456789"))
	}
	switch zzv.Choice("form", 4) {
	case 0:
		session(ls, []string{num("a") + "," + num("b") + "p", ".="})
	case 1:
		session(ls, []string{"$-" + num("a") + "n", ".="})
	case 2:
		session(ls, []string{"7", ".-" + num("a") + ",.+" + num("b") + "n", "."})
	case 3:
		session(ls, []string{num("a"), "", "="})
	}
}

// HarnessWalk: the current line after several commands.
func HarnessWalk() {
	n := 3
	if zzv.Thorough() {
		n = 4
	}
	zzv.Bound("four lines of one arbitrary byte; " + zzv.Itoa(n) + " commands of ten kinds")
	ls := lines(4)
	var cmds []string
	for i := 0; i < n; i++ {
		cmds = append(cmds, []string{"", "p", "1,2p", ".-1", "2,3n", "1=", ".+1p", "$", "1", ".-1,.p"}[zzv.Choice("cmd", 10)])
	}
	session(ls, append(cmds, ".="))
}

// HarnessWide: text other than ASCII is found and printed as it is.
func HarnessWide() {
	zzv.Bound("three lines of characters of one to four bytes and of a byte that is no character, with searches for them")
	ls := []string{"x", "x", "x"}
	ls[zzv.Choice("where", 3)] = []string{"\xc3\xa9", "a\xe2\x88\x9e", "\xf0\x9f\x98\x80", "\xe9\xff"}[zzv.Choice("what", 4)]
	cmd := []string{"/\xc3\xa9/p", "/\xe2\x88\x9e$/n", "/^\xf0\x9f\x98\x80/", "1,$n"}[zzv.Choice("command", 4)]
	e := spec.NewEd(ls)
	out, ok := e.Do(cmd, nil)
	r := zzv.Run(zzv.Cmd{Name: "ed", Args: []string{"f"}, Stdin: cmd + "\nq\n", Files: []zzv.File{{Name: "f", Data: spec.Join(ls)}}})
	zzv.Assert(r.Code == 0, "ed ends well")
	if !ok {
		zzv.Assert(len(spec.NoBlank(r.Out)) > 0 && spec.NoBlank(r.Out)[0] == '?', "what is not there is not found")
		zzv.Witness("absent")
		return
	}
	zzv.Assert(spec.NoBlank(r.Out) == spec.Join(out), "the lines are found and printed")
	zzv.Witness("found")
}

// HarnessQuestion: lines that look like answers of ed itself.
func HarnessQuestion() {
	zzv.Bound("three lines, the second of 1..2 characters ?, blank, q, dot or a digit; six commands that print or number it")
	l := zzv.AnyString("line", 2, "? q.1")
	zzv.Assume(l != "")
	ls := []string{"a", l, "c"}
	e := spec.NewEd(ls)
	in, want := "", ""
	for i := 0; i < 2; i++ {
		c := []string{"2p", "1,2p", "2", "2,3n", ",p", "2n"}[zzv.Choice("cmd", 6)]
		in += c + "\n"
		out, _ := e.Do(c, nil)
		want += spec.Join(out)
	}
	r := zzv.Run(zzv.Cmd{Name: "ed", Args: []string{"f"}, Stdin: in, Files: []zzv.File{{Name: "f", Data: spec.Join(ls)}}})
	zzv.Assert(r.Code == 0, "ed ends well")
	zzv.Assert(spec.NoBlank(r.Out) == spec.NoBlank(want), "the answers are the addressed lines, in order")
	zzv.Witness("answered")
}
