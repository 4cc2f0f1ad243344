package zzvspec

// Elem is one element of a pattern with its repetition; Max < 0 is unlimited.
type Elem struct {
	Any      bool
	Chars    string
	Min, Max int
}

func (e Elem) fits(c byte) bool {
	if e.Any {
		return true
	}
	for i := 0; i < len(e.Chars); i++ {
		if e.Chars[i] == c {
			return true
		}
	}
	return false
}

// Matches is the meaning of a pattern: some part of the text is the concatenation of the
// elements, the part starting at the start or ending at the end where anchored.
func Matches(es []Elem, left, right bool, s string) bool {
	// at[i]: the elements so far can match a part ending before s[i]
	at := make([]bool, len(s)+1)
	for i := range at {
		at[i] = i == 0 || !left
	}
	for _, e := range es {
		next := make([]bool, len(s)+1)
		for i := range at {
			if !at[i] {
				continue
			}
			n := 0
			for j := i; ; j++ {
				if n >= e.Min {
					next[j] = true
				}
				if j == len(s) || e.Max >= 0 && n == e.Max || !e.fits(s[j]) {
					break
				}
				n++
			}
		}
		at = next
	}
	if right {
		return at[len(s)]
	}
	for _, ok := range at {
		if ok {
			return true
		}
	}
	return false
}

// BreOK tells whether brackets and counts of a pattern are complete. clear is false for
// patterns whose meaning the standard leaves open.
func BreOK(p string) (ok, clear bool) {
	i := 0
	if i < len(p) && p[i] == '^' {
		i++
	}
	for i < len(p) {
		switch p[i] {
		case '[':
			j := i + 1
			if j < len(p) && (p[j] == ']' || p[j] == '^') {
				return false, false
			}
			for j < len(p) && p[j] != ']' {
				j++
			}
			if j >= len(p) {
				return false, true
			}
			i = j + 1
		case '*', '{':
			return false, false // nothing to repeat
		default:
			i++
		}
		if i < len(p) && p[i] == '*' {
			i++
		} else if i < len(p) && p[i] == '{' {
			i++
			lo, hi := 0, -1
			n := 0
			for i < len(p) && p[i] >= '0' && p[i] <= '9' {
				lo = lo*10 + int(p[i]-'0')
				i++
				n++
			}
			if n == 0 {
				return false, true
			}
			if i < len(p) && p[i] == ',' {
				i++
				n = 0
				for i < len(p) && p[i] >= '0' && p[i] <= '9' {
					if n == 0 {
						hi = 0
					}
					hi = hi*10 + int(p[i]-'0')
					i++
					n++
				}
			}
			if i >= len(p) || p[i] != '}' {
				return false, true
			}
			if hi >= 0 && hi < lo {
				return false, false
			}
			i++
		}
	}
	return true, true
}
