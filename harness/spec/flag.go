package zzvspec

// Opts is what a command line means with options v, x (no argument), p, o (string) and n (number).
type Opts struct {
	V, X bool
	P, O string
	N    int64
	Rest []string
	Bad  bool
}

// Number reads a decimal number; ok tells whether it is one and fits; clear whether the
// notation is plain decimal (no prefix, no underscores).
func Number(s string) (n int64, ok, clear bool) {
	i := 0
	neg := false
	if i < len(s) && (s[i] == '-' || s[i] == '+') {
		neg = s[i] == '-'
		i++
	}
	if i == len(s) {
		return 0, false, true
	}
	digits := s[i:]
	var u uint64
	big := false
	for j := 0; j < len(digits); j++ {
		c := digits[j]
		if c < '0' || c > '9' {
			for k := 0; k < len(digits); k++ {
				if digits[0] == '0' || digits[k] == '_' {
					return 0, false, false
				}
			}
			return 0, false, true
		}
		d := uint64(c - '0')
		if u > (1<<63-d)/10 {
			big = true
		} else {
			u = u*10 + d
		}
	}
	if digits[0] == '0' && len(digits) > 1 {
		return 0, false, false
	}
	if big || !neg && u > 1<<63-1 || neg && u > 1<<63 {
		return 0, false, true
	}
	if neg {
		return -int64(u), true, true
	}
	return int64(u), true, true
}

// ParseOpts follows the utility syntax guidelines. clear is false where a number is written
// in a notation the guidelines say nothing about.
func ParseOpts(args []string, o Opts) (res Opts, clear bool) {
	i := 0
	for i < len(args) {
		a := args[i]
		if a == "" || a[0] != '-' || a == "-" {
			break
		}
		i++
		if a == "--" {
			break
		}
		for j := 1; j < len(a); j++ {
			if a[j] == 'v' {
				o.V = true
				continue
			}
			if a[j] == 'x' {
				o.X = true
				continue
			}
			if a[j] != 'p' && a[j] != 'n' && a[j] != 'o' {
				o.Bad = true
				return o, true
			}
			val := a[j+1:]
			if val == "" {
				if i == len(args) {
					o.Bad = true
					return o, true
				}
				val = args[i]
				i++
			}
			if a[j] == 'p' {
				o.P = val
			} else if a[j] == 'o' {
				o.O = val
			} else {
				n, ok, clear := Number(val)
				if !clear {
					return o, false
				}
				if !ok {
					o.Bad = true
					return o, true
				}
				o.N = n
			}
			break
		}
	}
	o.Rest = args[i:]
	return o, true
}
