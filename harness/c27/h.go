// C27: ed answers what it cannot do with a question mark, changes nothing, and goes on.
package c27

//zzv:cmd ed
//zzv:hooks

import (
	"strings"

	"github.com/fwip/posix-utils/zzv"
	spec "github.com/fwip/posix-utils/zzvspec"
)

// HarnessJunk: lines that are no command.
func HarnessJunk() {
	n := 3
	if zzv.Thorough() {
		n = 4
	}
	zzv.Bound("0.." + zzv.Itoa(n) + " characters of addresses, blanks and command letters before one that ends no command; on 0..3 lines")
	ls := []string{"x", "y", "z"}[:zzv.Len("lines", 0, 3)]
	s := zzv.StringIn("start", zzv.Len("start.len", 0, n), "1.$,;+ apdniq=cQ")
	b := zzv.Byte("junk")
	zzv.Assume(b < 128 && b > 0 && b != '\n' && b != ' ' && b != '\t')
	for i := 0; i < len(keep); i++ {
		zzv.Assume(b != keep[i])
	}
	r := zzv.Run(zzv.Cmd{Name: "ed", Args: []string{"f"}, Stdin: s + string([]byte{b}) + "\n.=\nw k\n", Files: []zzv.File{{Name: "f", Data: spec.Join(ls)}}})
	zzv.Assert(r.Code == 0, "ed does not crash")
	out := spec.NoBlank(r.Out)
	zzv.Assert(out != "" && out[0] == '?', "it is answered with a question mark")
	num := "\n" + spec.EdItoa(len(ls)) + "\n"
	zzv.Assert(len(out) >= len(num) && out[len(out)-len(num):] == num, "the current line stays")
	k, _ := r.File("k")
	zzv.Assert(k == spec.Join(ls), "the buffer stays")
	f, _ := r.File("f")
	zzv.Assert(f == spec.Join(ls), "the file stays")
	zzv.Witness("junk")
}

// what may end a line of ed, here or elsewhere
const keep = "0123456789.$,;+-=acdefghijklmnpqrstuvwxzEGHPQVWX!&/?'\r\f\v"

// HarnessBad: proper commands with addresses that are not there.
func HarnessBad() {
	zzv.Bound("19 commands with addresses outside of a buffer of 0..2 lines and 19 that ed does not have, one after the other in pairs, and text for those that take it")
	ls := []string{"x", "y"}[:zzv.Len("lines", 0, 2)]
	bad := []string{"3p", "0p", "9d", "0d", "$+1n", "2,1p", "0,1d", "/q/p", "/q/d", "5=", "0", "1,7w k", "99999999999999999999d", ".+9p", "5a", "9i", "1,9c", "0c", "/q/a",
		"j", "1,2j", "l", "u", "H", "kb", "1m0", "1t$", "r f", "E f", "!ls", "1,2s/x/y/", "g/x/p", "P", "h", "f", "f g", "G/x/", "v/x/p"}
	in := ""
	n := zzv.Len("n", 1, 2)
	for i := 0; i < n; i++ {
		c := bad[zzv.Choice("cmd", len(bad))]
		in += c + "\n"
		switch c[len(c)-1] {
		case 'a', 'i', 'c':
			in += "text\n.\n"
		}
	}
	r := zzv.Run(zzv.Cmd{Name: "ed", Args: []string{"f"}, Stdin: in + ".=\nw k\n", Files: []zzv.File{{Name: "f", Data: spec.Join(ls)}}})
	zzv.Assert(r.Code == 0, "ed does not crash")
	q := 0
	for i := 0; i < len(r.Out); i++ {
		if r.Out[i] == '?' && (i == 0 || r.Out[i-1] == '\n') {
			q++
		}
	}
	zzv.Assert(q == n, "each is answered with a question mark")
	out := spec.NoBlank(r.Out)
	num := "\n" + spec.EdItoa(len(ls)) + "\n"
	zzv.Assert(len(out) >= len(num) && out[len(out)-len(num):] == num, "the current line stays")
	k, _ := r.File("k")
	zzv.Assert(k == spec.Join(ls), "the buffer stays")
	zzv.Witness("bad")
}

// HarnessRange: all combinations of addresses of which one is not there or the second comes first.
func HarnessRange() {
	zzv.Bound("buffers of 0..3 lines; p, n, d, =, a, i, c, w with one or two of twelve addresses (0, 1, 2, 3, 9, ., $, $+1, .-1, 1-5, .-9, /q/) that make no range of the buffer")
	addrs := []string{"0", "1", "2", "3", "9", ".", "$", "$+1", ".-1", "1-5", ".-9", "/q/"}
	ls := []string{"x", "y", "z"}[:zzv.Len("lines", 0, 3)]
	c := []string{"p", "n", "d", "=", "a", "i", "c", "w k"}[zzv.Choice("cmd", 8)]
	in := addrs[zzv.Choice("a", len(addrs))]
	if k := zzv.Choice("b", len(addrs)+1); k > 0 {
		in += "," + addrs[k-1]
	}
	probe := c[:1]
	if probe == "w" {
		probe = "p"
	}
	_, ok := spec.NewEd(ls).Do(in+probe, []string{"text"})
	zzv.Assume(!ok)
	in += c + "\n"
	if c == "a" || c == "i" || c == "c" {
		in += "text\n.\n"
	}
	r := zzv.Run(zzv.Cmd{Name: "ed", Args: []string{"f"}, Stdin: in + ".=\nw l\n", Files: []zzv.File{{Name: "f", Data: spec.Join(ls)}, {Name: "k", Data: "old\n"}}})
	zzv.Assert(r.Code == 0, "ed does not crash")
	out := spec.NoBlank(r.Out)
	num := "\n" + spec.EdItoa(len(ls)) + "\n"
	zzv.Assert(len(out) > 0 && out[0] == '?' && len(out) >= len(num) && out[len(out)-len(num):] == num, "the answer is a question mark and the current line stays")
	k, _ := r.File("k")
	zzv.Assert(k == "old\n", "no file is written")
	l, _ := r.File("l")
	zzv.Assert(l == spec.Join(ls), "the buffer stays")
	zzv.Witness("bad")
}

// HarnessLong: lines of any length.
func HarnessLong() {
	zzv.Bound("lines of 60..70, 200 or 5000 characters: no command, an address that is not there, a search for text that is not there; and a proper p behind as many blanks; on two lines")
	n := []int{60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 200, 5000}[zzv.Choice("n", 13)]
	rep := func(s string) string { return strings.Repeat(s, n) }
	cmd := []string{rep("a"), rep("9") + "p", "/" + rep("q") + "/p", "1" + rep("?"), "1,2" + rep("x"), rep(" ") + "1p"}[zzv.Choice("line", 6)]
	r := zzv.Run(zzv.Cmd{Name: "ed", Args: []string{"f"}, Stdin: cmd + "\n2=\nw k\n", Files: []zzv.File{{Name: "f", Data: "x\ny\n"}}})
	zzv.Assert(r.Code == 0, "ed does not crash")
	out := spec.NoBlank(r.Out)
	if cmd[0] == ' ' {
		zzv.Assert(out == "x\n2\n", "a proper command is done")
	} else {
		zzv.Assert(len(out) > 3 && out[0] == '?' && out[len(out)-3:] == "\n2\n", "it is answered with a question mark")
	}
	k, _ := r.File("k")
	zzv.Assert(k == "x\ny\n", "the buffer stays")
	zzv.Witness("long")
}

// HarnessAny: nothing makes ed crash or touch a file it was not told to.
func HarnessAny() {
	n := 3
	if zzv.Thorough() {
		n = 4
	}
	zzv.Bound("a line of 0..1 arbitrary bytes, or of 2.." + zzv.Itoa(n) + " over 20 characters, that does not write, as first command or after the text of an a; on 0..2 lines")
	ls := []string{"x", "y"}[:zzv.Len("lines", 0, 2)]
	l := zzv.Len("s.len", 0, n)
	var s string
	if l < 2 {
		s = zzv.String("s", l)
		for i := 0; i < len(s); i++ {
			zzv.Assume(s[i] != '\n' && s[i] != 'w' && s[i] != 'W' && s[i] != '!')
		}
	} else {
		s = zzv.StringIn("s", l, "09.$,;+-/x?'m kdac\\\xff")
	}
	in := s + "\n1p\n"
	if zzv.Choice("after", 2) == 1 {
		in = "a\ntext\n.\n" + in
	}
	r := zzv.Run(zzv.Cmd{Name: "ed", Args: []string{"f"}, Stdin: in, Files: []zzv.File{{Name: "f", Data: spec.Join(ls)}}})
	zzv.Assert(r.Code == 0, "ed does not crash")
	f, ok := r.File("f")
	zzv.Assert(ok && f == spec.Join(ls) && len(r.Names) == 1, "no file changes")
	zzv.Witness("any")
}
