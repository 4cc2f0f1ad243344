// C28: ed answers its commands in order, whatever the scheduler does.
package c28

//zzv:cmd ed
//zzv:hooks

import (
	"strings"

	"github.com/fwip/posix-utils/zzv"
	spec "github.com/fwip/posix-utils/zzvspec"
)

// HarnessKinds: commands with distinct answers, proper and improper ones mixed.
func HarnessKinds() {
	n := 3
	if zzv.Thorough() {
		n = 4
	}
	order(n, 1, []string{"1p", "2n", "$=", "9p", "@", "1d", "0a", "", "xx"})
}

// HarnessPreempt: fewer kinds, more schedules.
func HarnessPreempt() {
	p := 2
	if zzv.Thorough() {
		p = 3
	}
	order(3, p, []string{"1p", "@", "0a"})
}

func order(n, p int, kinds []string) {
	zzv.Bound(zzv.Itoa(n) + " commands of " + zzv.Itoa(len(kinds)) + " kinds on three lines, the last without newline or with; any schedule of the goroutines with up to " + zzv.Itoa(p) + " preemptions")
	zzv.AnySchedule(p)
	ls := []string{"x", "y", "z"}
	e := spec.NewEd(ls)
	in, want, last := "", "", ""
	for i := 0; i < n; i++ {
		if i > 0 {
			in += "\n"
		}
		c := kinds[zzv.Choice("cmd", len(kinds))]
		in += c
		var t []string
		if c == "0a" {
			t = []string{"new"}
			in += "\nnew\n."
		}
		last = c
		out, ok := e.Do(c, t)
		if c == "@" || c == "xx" || !ok {
			want += "?\n"
		} else {
			want += spec.Join(out)
		}
	}
	if last == "" || zzv.Choice("newline", 2) == 1 {
		in += "\n"
	}
	r := zzv.Run(zzv.Cmd{Name: "ed", Args: []string{"f"}, Stdin: in, Files: []zzv.File{{Name: "f", Data: spec.Join(ls)}}})
	zzv.Assert(r.Code == 0, "ed ends well")
	zzv.Assert(answers(r.Out) == want, "every command is answered, in order")
	zzv.Witness("ordered")
}

// HarnessMany: many commands, short and long.
func HarnessMany() {
	zzv.Bound("60 or 300 commands of six kinds in turn, starting with any, one of them a line of 100 characters that is no command; the last without newline or with; the scheduler's own order")
	kinds := []string{"1p", "2n", "@", "$=", "9p", strings.Repeat("x", 100)}
	wants := []string{"x\n", "2\ty\n", "?\n", "3\n", "?\n", "?\n"}
	n, first := []int{60, 300}[zzv.Choice("n", 2)], zzv.Choice("first", len(kinds))
	in, want := "", ""
	for i := 0; i < n; i++ {
		if i > 0 {
			in += "\n"
		}
		k := (first + i) % len(kinds)
		in += kinds[k]
		want += wants[k]
	}
	if zzv.Choice("newline", 2) == 1 {
		in += "\n"
	}
	r := zzv.Run(zzv.Cmd{Name: "ed", Args: []string{"f"}, Stdin: in, Files: []zzv.File{{Name: "f", Data: "x\ny\nz\n"}}})
	zzv.Assert(r.Code == 0, "ed ends well")
	zzv.Assert(answers(r.Out) == want, "every command is answered, in order")
	zzv.Witness("ordered")
}

// HarnessSave: what is before the end of the commands is done, what is after q is not.
func HarnessSave() {
	p := 3
	if zzv.Thorough() {
		p = 4
	}
	zzv.Bound("an edit, w, and q, Q or the end of input, followed by another edit and w; any schedule with up to " + zzv.Itoa(p) + " preemptions")
	zzv.AnySchedule(p)
	end := []string{"q\n", "Q\n", ""}[zzv.Choice("end", 3)]
	after := ""
	if end != "" {
		after = "1d\nw\n"
	}
	r := zzv.Run(zzv.Cmd{Name: "ed", Args: []string{"f"}, Stdin: "2a\nnew\n.\nw\n" + end + after, Files: []zzv.File{{Name: "f", Data: "x\ny\nz\n"}}})
	zzv.Assert(r.Code == 0, "ed ends well")
	f, _ := r.File("f")
	zzv.Assert(f == "x\ny\nnew\nz\n", "the file has the edits before the end and no others")
	zzv.Witness("saved")
}

// answers keeps what lines and numbers can look like; of an answer with a question mark only that counts.
func answers(s string) string {
	out := ""
	for i := 0; i < len(s); {
		j := i
		for s[j] != '\n' {
			j++
		}
		switch l := s[i:j]; {
		case l == "":
		case l[0] == '?':
			out += "?\n"
		case len(l) == 1 || l == "new" || l[0] >= '0' && l[0] <= '9':
			out += l + "\n"
		}
		i = j + 1
	}
	return out
}

// HarnessQuit: q and Q end ed whatever the buffer is.
func HarnessQuit() {
	zzv.Bound("q or Q with a buffer that is empty, was emptied, changed or saved, followed by an edit and w; any schedule with up to two preemptions")
	zzv.AnySchedule(2)
	data, in := "x\n", ""
	switch zzv.Choice("buffer", 5) {
	case 1:
		data = ""
	case 2:
		in = "1d\n"
	case 3:
		in = "a\ny\n.\n"
	case 4:
		in = "a\ny\n.\nw\n"
	}
	want := data
	if in != "" && in[len(in)-2] == 'w' {
		want += "y\n"
	}
	end := []string{"q", "Q"}[zzv.Choice("end", 2)]
	r := zzv.Run(zzv.Cmd{Name: "ed", Args: []string{"f"}, Stdin: in + end + "\n0a\nnew\n.\nw\n", Files: []zzv.File{{Name: "f", Data: data}}})
	zzv.Assert(r.Code == 0, "ed ends well")
	f, _ := r.File("f")
	zzv.Assert(f == want, "nothing after q is done")
	zzv.Witness("quit")
}
