// C34: an editor that is part of a program.
package c34

import (
	"bytes"
	"io"
	"strings"

	"github.com/fwip/posix-utils/pkg/ed"
	"github.com/fwip/posix-utils/zzv"
	spec "github.com/fwip/posix-utils/zzvspec"
)

// check compares all that the editor tells about its buffer with the list of lines.
func check(e *ed.Itor, s *spec.Ed) {
	zzv.Assert(e.String() == spec.Join(s.Lines), "String is the whole buffer")
	for a := 1; a <= len(s.Lines); a++ {
		for b := a; b <= len(s.Lines); b++ {
			want := spec.Join(s.Lines[a-1 : b])
			zzv.Assert(e.Print(a, b) == want[:len(want)-1], "Print gives the lines")
		}
	}
}

func editor() *ed.Itor {
	if zzv.Bool("new") {
		return ed.NewEditor(strings.NewReader(""), &bytes.Buffer{})
	}
	return &ed.Itor{}
}

// command makes a command with a line of text and does it on the list.
func command(s *spec.Ed) string {
	a := []string{"", "1", "2", "$", "0", "1,2"}[zzv.Choice("addr", 6)]
	c := []string{"a", "c", "d", "i"}[zzv.Choice("cmd", 4)]
	zzv.Assume(a != "1,2" || c == "c" || c == "d")
	if c == "d" {
		s.Do(a+c, nil)
		return a + "d\n"
	}
	t := []string{"new", "", "\xc3\xa9"}[len(s.Lines)%3]
	s.Do(a+c, []string{t})
	return a + c + "\n" + t + "\n.\n"
}

// HarnessCalls: commands in one or several calls, then a deletion by call.
func HarnessCalls() {
	n := 2
	if zzv.Thorough() {
		n = 3
	}
	zzv.Bound("an editor with 0..3 lines, " + zzv.Itoa(n) + " commands a, c, d or i with six kinds of addresses and a line of text, in one call or one each; then Delete of any lines")
	e := editor()
	s := spec.NewEd([]string{"x", "", "zz"}[:zzv.Len("lines", 0, 3)])
	var out bytes.Buffer
	in := ""
	if len(s.Lines) > 0 {
		in = "a\n" + spec.Join(s.Lines) + ".\n"
	}
	one := zzv.Bool("one call")
	for i := 0; i < n; i++ {
		if !one && in != "" {
			e.ProcessCommands(strings.NewReader(in), &out)
			in = ""
			s.Cur = len(s.Lines) // each call starts at the last line
		}
		in += command(s)
	}
	e.ProcessCommands(strings.NewReader(in), &out)
	check(e, s)
	if len(s.Lines) > 0 && zzv.Bool("delete") {
		a := 1 + zzv.Choice("first", len(s.Lines))
		b := a + zzv.Choice("more", len(s.Lines)-a+1)
		zzv.Assert(e.Delete(a, b) == nil, "lines can be deleted")
		s.Lines = append(append([]string{}, s.Lines[:a-1]...), s.Lines[b:]...)
		check(e, s)
		zzv.Witness("deleted")
	}
	zzv.Witness("edited")
}

// parts gives a text in parts, the end with the last of them or alone.
type parts struct {
	text string
	n    int
	end  bool
}

func (p *parts) Read(b []byte) (int, error) {
	if p.text == "" {
		return 0, io.EOF
	}
	n := len(p.text)
	if p.n > 0 {
		p.n--
		if k := 1 + zzv.Choice("part", 5); k < n {
			n = k
		}
	}
	if n > len(b) {
		n = len(b)
	}
	copy(b, p.text[:n])
	p.text = p.text[n:]
	if p.text == "" && p.end {
		return n, io.EOF
	}
	return n, nil
}

// pieces keeps what is written.
type pieces struct{ text string }

func (p *pieces) Write(b []byte) (int, error) {
	p.text += string(b)
	return len(b), nil
}

// HarnessParts: commands that arrive in parts.
func HarnessParts() {
	zzv.Bound("an append of two lines and five other commands from a reader that gives the first three parts with 1..5 bytes and the end alone or with the last part; the last newline there or not; with q, Q or none before the last command")
	var w pieces
	e := editor()
	x := zzv.Byte("text")
	zzv.Assume(x > ' ' && x < 127 && x != '.' && x != '?')
	t := string([]byte{x})
	in := "a\n" + t + "\ny\n.\n1,$p\n@\n1n\n$="
	want := t + "\ny\n?\n1\t" + t + "\n2\n"
	lines := []string{t, "y"}
	switch zzv.Choice("quit", 3) {
	case 0:
		in += "\n1d"
		lines = lines[1:]
	case 1:
		in += "\nq\n1d"
	case 2:
		in += "\nQ\n1d"
	}
	if zzv.Bool("newline") {
		in += "\n"
	}
	e.ProcessCommands(&parts{in, 3, zzv.Bool("end")}, &w)
	got := ""
	for _, l := range spec.Lines(spec.NoBlank(w.text)) {
		if l[0] == '?' {
			got += "?\n"
		} else if len(l) == 1 || l[:2] == "1\t" { // no part of a long diagnostic
			got += l + "\n"
		}
	}
	zzv.Assert(got == want, "the commands are answered, in order")
	check(e, spec.NewEd(lines))
	zzv.Witness("answered")
}
