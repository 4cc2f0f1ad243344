// C22: kill sends the requested signal to the named processes, or refuses and sends nothing.
// Signals are recorded by a stand-in, never sent.
package c22

//zzv:cmd kill
//zzv:hooks

import (
	"github.com/fwip/posix-utils/zzv"
	spec "github.com/fwip/posix-utils/zzvspec"
)

var names = []string{"0", "HUP", "INT", "QUIT", "ABRT", "KILL", "ALRM", "TERM"}
var numbers = []int{0, 1, 2, 3, 6, 9, 14, 15}

// HarnessNegative: no signal has a negative number.
func HarnessNegative() {
	zzv.Bound("a signal of '-' and 1..2 arbitrary digits, for a process before or behind it")
	s := zzv.StringIn("number", zzv.Len("number.len", 1, 2), "0123456789")
	zzv.Assume(s[0] != '0')
	args := []string{"--" + s, "4242"}
	if zzv.Bool("behind") {
		args[0], args[1] = args[1], args[0]
	}
	r := zzv.Run(zzv.Cmd{Name: "kill", Args: args, KillFail: 1}) // the system would refuse it
	for i := 1; i < len(r.Sigs); i += 2 {
		zzv.Assert(r.Sigs[i] < 0, "no signal is sent")
	}
	zzv.Assert(r.Code > 0 && r.Err != "" && !crashed(r), "the command line is refused with a diagnostic")
	zzv.Witness("refused")
}

func crashed(r zzv.Result) bool { return spec.Find(r.Err, "goroutine ") >= 0 }

// HarnessSend: a signal by name, number or default, to one to three processes.
func HarnessSend() {
	zzv.Bound("the default, -s with any of the eight names in upper, lower or mixed case, or a number of 0..99; 1..3 process numbers, one of up to six arbitrary digits, one 0; any of them cannot be reached or may not be signalled")
	var args []string
	sig := 15
	switch zzv.Choice("signal", 3) {
	case 1:
		k := zzv.Choice("name", len(names))
		sig = numbers[k]
		b := []byte(names[k])
		for i := range b {
			if b[i] >= 'A' && zzv.Bool("lower") {
				b[i] |= 0x20
			}
		}
		args = []string{"-s", string(b)}
		zzv.Witness("name")
	case 2:
		s := zzv.StringIn("number", zzv.Len("number.len", 1, 2), "0123456789")
		sig = 0
		for i := 0; i < len(s); i++ {
			sig = sig*10 + int(s[i]-'0')
		}
		args = []string{"-" + s}
		zzv.Witness("number")
	}
	n := zzv.Len("pids", 1, 3)
	var want []int
	for i := 0; i < n; i++ {
		if i == 0 {
			s := zzv.StringIn("pid", zzv.Len("pid.len", 1, 6), "0123456789")
			p := 0
			for j := 0; j < len(s); j++ {
				p = p*10 + int(s[j]-'0')
			}
			zzv.Assume(s[0] != '0')
			args = append(args, s)
			want = append(want, p, sig)
		} else {
			args = append(args, []string{"", "7777", "0"}[i])
			want = append(want, []int{0, 7777, 0}[i], sig)
		}
	}
	fail := zzv.Choice("fail", 1<<uint(n)) // which ones cannot be sent
	mask := fail
	if fail != 0 && zzv.Bool("permission") {
		mask |= 256
	}
	r := zzv.Run(zzv.Cmd{Name: "kill", Args: args, KillFail: mask})
	zzv.Assert(len(r.Sigs) == len(want), "each process gets one signal")
	for i := range want {
		zzv.Assert(r.Sigs[i] == want[i], "each named process gets the requested signal")
	}
	zzv.Assert(r.Out == "", "nothing is written to standard output")
	if fail != 0 {
		zzv.Assert(r.Code > 0 && r.Err != "" && !crashed(r), "a signal that could not be sent is reported")
		zzv.Witness("failed")
	} else {
		zzv.Assert(r.Code == 0 && r.Err == "", "success is silent")
		zzv.Witness("sent")
	}
}

// HarnessRefuse: bad command lines send nothing.
func HarnessRefuse() {
	zzv.Bound("no process, -s without or with an unknown name, a process or signal that is no number (0..2 arbitrary ASCII characters), before or behind a proper process number")
	s := zzv.String("word", zzv.Len("word.len", 0, 2))
	for i := 0; i < len(s); i++ {
		zzv.Assume(s[i] > 0 && s[i] < 128)
	}
	digit := false
	for i := 0; i < len(s); i++ {
		if s[i] >= '0' && s[i] <= '9' {
			digit = true
		}
	}
	var args []string
	switch zzv.Choice("case", 5) {
	case 0: // no process
		args = [][]string{{}, {"-s", "TERM"}, {"-9"}}[zzv.Choice("options", 3)]
		zzv.Witness("no process")
	case 1:
		args = []string{"4242", "-s"}
		zzv.Witness("-s")
	case 2: // unknown name
		zzv.Assume(s != "0")
		args = []string{"-s", s, "4242"}
		zzv.Witness("name")
	case 3: // no process number
		bad := s == ""
		for i := 0; i < len(s); i++ {
			if (s[i] < '0' || s[i] > '9') && (i > 0 || s[i] != '+') {
				bad = true
			}
		}
		zzv.Assume(s == "+" || bad && (s == "" || s[0] != '-'))
		args = []string{"4242", s}
		zzv.Witness("pid")
	case 4: // no signal number
		zzv.Assume(!digit && s != "l" && s != "s" && s != "-" && (s == "" || s[0] != '-'))
		args = []string{"-" + s, "4242"}
		zzv.Witness("number")
	}
	r := zzv.Run(zzv.Cmd{Name: "kill", Args: args})
	zzv.Assert(len(r.Sigs) == 0, "no signal is sent")
	zzv.Assert(r.Code > 0 && r.Err != "" && !crashed(r), "the command line is refused with a diagnostic")
}

// HarnessList: -l sends nothing and names the signals.
func HarnessList() {
	zzv.Bound("-l alone or with a process or signal before or after it")
	args := [][]string{{"-l"}, {"-l", "4242"}, {"4242", "-l"}, {"-s", "INT", "-l", "4242"}, {"-9", "4242", "-l"}}[zzv.Choice("args", 5)]
	r := zzv.Run(zzv.Cmd{Name: "kill", Args: args})
	zzv.Assert(len(r.Sigs) == 0, "no signal is sent")
	zzv.Assert(r.Code == 0 && r.Err == "", "no error")
	got := spec.Fields(r.Out)
	for _, n := range names[1:] {
		zzv.Assert(spec.Has(got, n), "every name that is accepted is listed")
		times := 0
		for _, g := range got {
			if g == n {
				times++
			}
		}
		zzv.Assert(times == 1, "every name is listed once")
	}
	zzv.Witness("list")
}
