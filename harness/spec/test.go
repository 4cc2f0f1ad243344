package zzvspec

// Integer reads a decimal number with an optional sign; ok tells whether it is one.
func Integer(s string) (neg bool, digits string, ok bool) {
	if s != "" && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if s == "" {
		return false, "", false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false, "", false
		}
	}
	for len(s) > 0 && s[0] == '0' {
		s = s[1:]
	}
	return neg && s != "", s, true
}

// Order3 compares two integers: -1, 0 or 1.
func Order3(a, b string) int {
	an, ad, _ := Integer(a)
	bn, bd, _ := Integer(b)
	if an != bn {
		if an {
			return -1
		}
		return 1
	}
	c := 0
	if len(ad) != len(bd) {
		c = 1
		if len(ad) < len(bd) {
			c = -1
		}
	} else {
		for i := 0; i < len(ad) && c == 0; i++ {
			if ad[i] < bd[i] {
				c = -1
			} else if ad[i] > bd[i] {
				c = 1
			}
		}
	}
	if an {
		c = -c
	}
	return c
}

// Binary evaluates a binary primary; known tells whether op is one.
func Binary(a, op, b string) (val, bad, known bool) {
	switch op {
	case "=":
		return a == b, false, true
	case "!=":
		return a != b, false, true
	case "-eq", "-ne", "-gt", "-ge", "-lt", "-le":
		_, _, ok1 := Integer(a)
		_, _, ok2 := Integer(b)
		if !ok1 || !ok2 {
			return false, true, true
		}
		c := Order3(a, b)
		switch op {
		case "-eq":
			return c == 0, false, true
		case "-ne":
			return c != 0, false, true
		case "-gt":
			return c > 0, false, true
		case "-ge":
			return c >= 0, false, true
		case "-lt":
			return c < 0, false, true
		}
		return c <= 0, false, true
	}
	return false, false, false
}

// Test evaluates a test of up to four words over strings and numbers; bad: it is an error.
func Test(w []string) (val, bad bool) {
	switch len(w) {
	case 0:
		return false, false
	case 1:
		return w[0] != "", false
	case 2:
		switch w[0] {
		case "!":
			return w[1] == "", false
		case "-n":
			return w[1] != "", false
		case "-z":
			return w[1] == "", false
		}
		return false, true
	case 3:
		if v, bad, known := Binary(w[0], w[1], w[2]); known {
			return v, bad
		}
	}
	if w[0] == "!" {
		v, bad := Test(w[1:])
		return !v, bad
	}
	return false, true
}

// RecordedTest is the answer recorded in known_findings.txt for the expressions on which the command is
// known to be wrong; elsewhere it agrees with Test.
func RecordedTest(w []string) (val, bad bool) {
	if len(w) < 2 {
		return Test(w)
	}
	switch w[0] {
	case "!": // not looked at as an operand
		v, bad := RecordedTest(w[1:])
		return !v, bad
	case "": // taken for the whole expression
		return false, false
	case "-n": // takes one word and ignores the others
		return w[1] != "", false
	case "-z":
		return w[1] == "", false
	}
	if len(w) == 3 && len(w[0]) == 2 && w[0][0] == '-' {
		for i := 0; i < len("acdefghLpSsu"); i++ {
			if w[0][1] == "acdefghLpSsu"[i] { // looks for a file named like the operator
				return false, false
			}
		}
		for i := 0; i < len("rtwx"); i++ {
			if w[0][1] == "rtwx"[i] { // not implemented
				return false, true
			}
		}
	}
	return Test(w)
}
