package zzvspec

import "github.com/fwip/posix-utils/zzv"

// Cmp is what cmp has to say about two texts: its standard output, the name of the operand
// that ended early (0 none, 1, 2) and the status.
func Cmp(a, b, n1, n2 string, list bool) (out string, short, code int) {
	line := 1
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			code = 1
			if !list {
				return n1 + " " + n2 + " differ: char " + zzv.Itoa(i+1) + ", line " + zzv.Itoa(line) + "\n", 0, 1
			}
			out += zzv.Itoa(i+1) + " " + Octal(a[i]) + " " + Octal(b[i]) + "\n"
		}
		if a[i] == '\n' {
			line++
		}
	}
	if len(a) < len(b) {
		return out, 1, 1
	}
	if len(b) < len(a) {
		return out, 2, 1
	}
	return out, 0, code
}

// Octal writes a byte in octal.
func Octal(b byte) string {
	s := ""
	for {
		s = string([]byte{'0' + b&7}) + s
		b >>= 3
		if b == 0 {
			return s
		}
	}
}

// First is the text of the first n lines.
func First(s string, n int) string {
	for i := 0; i < len(s); i++ {
		if n <= 0 {
			return s[:i]
		}
		if s[i] == '\n' {
			n--
		}
	}
	return s
}

// Find gives the position behind the first occurrence of part in s, or -1.
func Find(s, part string) int {
	for i := 0; i+len(part) <= len(s); i++ {
		if s[i:i+len(part)] == part {
			return i + len(part)
		}
	}
	return -1
}
