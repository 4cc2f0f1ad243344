// Package zzvspec holds the reference models of the harnesses. They are written from the
// text of POSIX, not from the code under test, and executed by the same engine.
package zzvspec

// Hunk is one change command of a normal diff.
type Hunk struct {
	Op       byte // a, c or d
	F1, L1   int  // old range; for a: the line after which
	F2, L2   int  // new range; for d: the line after which
	Old, New []string
}

// Lines splits newline-terminated text.
func Lines(s string) []string {
	out := []string{}
	start := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			out = append(out, s[start:i])
			start = i + 1
		}
	}
	if start < len(s) {
		out = append(out, s[start:])
	}
	return out
}

// Join gives text of newline-terminated lines.
func Join(lines []string) string {
	s := ""
	for _, l := range lines {
		s += l + "\n"
	}
	return s
}

func number(s string, i int) (n, next int) {
	if i >= len(s) || s[i] < '1' || s[i] > '9' {
		if i < len(s) && s[i] == '0' {
			return 0, i + 1
		}
		return -1, i
	}
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		n = n*10 + int(s[i]-'0')
		i++
	}
	return n, i
}

func lineRange(s string, i int) (a, b, next int) {
	a, i = number(s, i)
	if a < 0 {
		return -1, -1, i
	}
	b = a
	if i < len(s) && s[i] == ',' {
		b, i = number(s, i+1)
		if b <= a { // a range of several lines is ascending
			return -1, -1, i
		}
	}
	return a, b, i
}

// ParseDiff reads the default output of diff; why is empty when it is well formed.
func ParseDiff(out string) (hunks []Hunk, why string) {
	if out == "" {
		return nil, ""
	}
	if out[len(out)-1] != '\n' {
		return nil, "output ends in the middle of a line"
	}
	ls := Lines(out)
	i := 0
	for i < len(ls) {
		var h Hunk
		l := ls[i]
		i++
		p := 0
		h.F1, h.L1, p = lineRange(l, p)
		if h.F1 < 0 || p >= len(l) {
			return nil, "bad change command"
		}
		h.Op = l[p]
		h.F2, h.L2, p = lineRange(l, p+1)
		if h.F2 < 0 || p != len(l) {
			return nil, "bad change command"
		}
		nOld, nNew := h.L1-h.F1+1, h.L2-h.F2+1
		switch h.Op {
		case 'a':
			if nOld != 1 {
				return nil, "an append names one old line"
			}
			nOld = 0
		case 'd':
			if nNew != 1 {
				return nil, "a delete names one new line"
			}
			nNew = 0
		case 'c':
		default:
			return nil, "unknown change command"
		}
		if nOld > 0 && h.F1 < 1 || nNew > 0 && h.F2 < 1 {
			return nil, "line numbers start at one"
		}
		for j := 0; j < nOld; j++ {
			if i >= len(ls) || len(ls[i]) < 2 || ls[i][0] != '<' || ls[i][1] != ' ' {
				return nil, "missing old line"
			}
			h.Old = append(h.Old, ls[i][2:])
			i++
		}
		if h.Op == 'c' {
			if i >= len(ls) || ls[i] != "---" {
				return nil, "missing separator"
			}
			i++
		}
		for j := 0; j < nNew; j++ {
			if i >= len(ls) || len(ls[i]) < 2 || ls[i][0] != '>' || ls[i][1] != ' ' {
				return nil, "missing new line"
			}
			h.New = append(h.New, ls[i][2:])
			i++
		}
		hunks = append(hunks, h)
	}
	return hunks, ""
}

// Apply performs the changes on the old lines; why is empty when every command fits.
func Apply(old []string, hs []Hunk) (res []string, why string) {
	pos := 0 // old lines consumed
	for _, h := range hs {
		first := h.F1 - 1 // old lines before the change
		if h.Op == 'a' {
			first = h.F1
		}
		if first < pos || first > len(old) {
			return nil, "the old line number does not fit"
		}
		res = append(res, old[pos:first]...)
		pos = first
		if pos+len(h.Old) > len(old) {
			return nil, "the old range passes the end"
		}
		for _, l := range h.Old {
			if old[pos] != l {
				return nil, "the quoted old line is not the old file's"
			}
			pos++
		}
		at := h.F2 - 1
		if h.Op == 'd' {
			at = h.F2
		}
		if len(res) != at {
			return nil, "the new line number does not fit"
		}
		res = append(res, h.New...)
	}
	return append(res, old[pos:]...), ""
}

// Reverse gives the changes from new to old.
func Reverse(hs []Hunk) []Hunk {
	var out []Hunk
	for _, h := range hs {
		r := Hunk{h.Op, h.F2, h.L2, h.F1, h.L1, h.New, h.Old}
		if h.Op == 'a' {
			r.Op = 'd'
		} else if h.Op == 'd' {
			r.Op = 'a'
		}
		out = append(out, r)
	}
	return out
}

// Same compares lists of lines.
func Same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		if a[i] != b[i] {
			ok = false
		}
	}
	return ok
}
