package zzvspec

// Ed is the line editor as POSIX describes it, over a list of lines.
type Ed struct {
	Lines []string
	Cur   int
}

func NewEd(lines []string) *Ed { return &Ed{Lines: append([]string(nil), lines...), Cur: len(lines)} }

func edDigit(b byte) bool { return b >= '0' && b <= '9' }

// addr reads an address at the start of s.
func (e *Ed) addr(s string) (line int, rest string, given, ok bool) {
	for len(s) > 0 && s[0] == ' ' {
		s = s[1:]
	}
	if s == "" {
		return 0, s, false, true
	}
	ok = true
	switch {
	case s[0] == '.':
		line, s = e.Cur, s[1:]
	case s[0] == '$':
		line, s = len(e.Lines), s[1:]
	case edDigit(s[0]):
		for s != "" && edDigit(s[0]) {
			line = line*10 + int(s[0]-'0')
			s = s[1:]
		}
	case s[0] == '/':
		i := 1
		for s[i] != '/' {
			i++
		}
		re := s[1:i]
		s = s[i+1:]
		ok = false
		for k := range e.Lines {
			n := (e.Cur+k)%len(e.Lines) + 1
			if edMatch(re, e.Lines[n-1]) {
				line, ok = n, true
				break
			}
		}
	default:
		return 0, s, false, true
	}
	if s != "" && (s[0] == '+' || s[0] == '-') {
		neg := s[0] == '-'
		s = s[1:]
		n := 1
		if s != "" && edDigit(s[0]) {
			n = 0
			for s != "" && edDigit(s[0]) {
				n = n*10 + int(s[0]-'0')
				s = s[1:]
			}
		}
		if neg {
			n = -n
		}
		line += n
	}
	for len(s) > 0 && s[0] == ' ' {
		s = s[1:]
	}
	return line, s, true, ok
}

// edMatch: literal characters, with ^ at the start and $ at the end.
func edMatch(re, s string) bool {
	start, end := false, false
	if re != "" && re[0] == '^' {
		start, re = true, re[1:]
	}
	if re != "" && re[len(re)-1] == '$' {
		end, re = true, re[:len(re)-1]
	}
	for i := 0; i+len(re) <= len(s); i++ {
		if start && i > 0 || end && i+len(re) != len(s) {
			continue
		}
		if s[i:i+len(re)] == re {
			return true
		}
	}
	return false
}

// Do executes a command line. The answer is a list of lines; ok is false when the answer is a question mark.
func (e *Ed) Do(cmd string, text []string) (out []string, ok bool) {
	a, s, given, ok := e.addr(cmd)
	b, given2, sep := a, given, false
	if s != "" && (s[0] == ',' || s[0] == ';') {
		sep = true
		semi := s[0] == ';'
		s = s[1:]
		var ok2 bool
		b, s, given2, ok2 = e.addr(s)
		ok = ok && ok2
		if !given {
			a = 1
			if semi {
				a = e.Cur
			}
			if !given2 {
				b = len(e.Lines)
			}
		} else if !given2 {
			b = a
		}
	}
	if !ok {
		return nil, false
	}
	c := byte(0)
	if s != "" {
		c = s[0]
	}
	if !given && !sep {
		a, b = e.Cur, e.Cur
		switch c {
		case '=':
			a, b = len(e.Lines), len(e.Lines)
		case 0:
			a, b = e.Cur+1, e.Cur+1
		}
	}
	min := 1
	if c == 'a' || c == 'i' || c == '=' {
		min = 0
	}
	if a < min || b < a || b > len(e.Lines) {
		return nil, false
	}
	switch c {
	case 0, 'p':
		e.Cur = b
		return e.Lines[a-1 : b], true
	case 'n':
		for i := a; i <= b; i++ {
			out = append(out, EdItoa(i)+"\t"+e.Lines[i-1])
		}
		e.Cur = b
		return out, true
	case '=':
		return []string{EdItoa(b)}, true
	case 'd':
		e.splice(a-1, b, nil)
		e.Cur = a
		if e.Cur > len(e.Lines) {
			e.Cur = len(e.Lines)
		}
		return nil, true
	case 'a':
		e.splice(b, b, text)
		e.Cur = b + len(text)
		return nil, true
	case 'i':
		if b == 0 {
			b = 1
		}
		e.splice(b-1, b-1, text)
		e.Cur = b - 1 + len(text)
		return nil, true
	case 'c':
		e.splice(a-1, b, text)
		e.Cur = a - 1 + len(text)
		return nil, true
	}
	return nil, false
}

func (e *Ed) splice(from, to int, text []string) {
	var ls []string
	ls = append(ls, e.Lines[:from]...)
	ls = append(ls, text...)
	e.Lines = append(ls, e.Lines[to:]...)
}

// EdItoa writes a small number.
func EdItoa(n int) string {
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return EdItoa(n/10) + string([]byte{byte('0' + n%10)})
}

// NoBlank drops empty lines.
func NoBlank(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' && (out == "" || out[len(out)-1] == '\n') {
			continue
		}
		out += s[i : i+1]
	}
	return out
}
