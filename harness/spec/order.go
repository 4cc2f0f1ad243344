package zzvspec

// Has tells whether a list contains a word.
func Has(list []string, w string) bool {
	for _, x := range list {
		if x == w {
			return true
		}
	}
	return false
}

// Index is the first position of a word, -1 when absent.
func Index(list []string, w string) int {
	for i, x := range list {
		if x == w {
			return i
		}
	}
	return -1
}

// Order is a set of words with a relation between them.
type Order struct {
	Words []string
	Pairs [][2]string
}

// Word adds a word.
func (o *Order) Word(w string) {
	if !Has(o.Words, w) {
		o.Words = append(o.Words, w)
	}
}

// Before adds a constraint.
func (o *Order) Before(a, b string) {
	o.Word(a)
	o.Word(b)
	if a != b {
		o.Pairs = append(o.Pairs, [2]string{a, b})
	}
}

// Cyclic tells whether no order satisfies the constraints.
func (o *Order) Cyclic() bool {
	n := len(o.Words)
	reach := make([][]bool, n)
	for i := range reach {
		reach[i] = make([]bool, n)
	}
	for _, p := range o.Pairs {
		reach[Index(o.Words, p[0])][Index(o.Words, p[1])] = true
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if reach[i][k] && reach[k][j] {
					reach[i][j] = true
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		if reach[i][i] {
			return true
		}
	}
	return false
}

// Sorted tells what is wrong with an answer, if anything.
func (o *Order) Sorted(out []string) string {
	for _, w := range o.Words {
		if !Has(out, w) {
			return "a word is missing"
		}
	}
	for i, w := range out {
		if !Has(o.Words, w) {
			return "a word was never given"
		}
		if Index(out, w) != i {
			return "a word occurs twice"
		}
	}
	for _, p := range o.Pairs {
		if Index(out, p[0]) > Index(out, p[1]) {
			return "two words are in the wrong order"
		}
	}
	return ""
}

// Fields splits at blanks and newlines.
func Fields(s string) []string {
	var out []string
	from := -1
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r' || s[i] == '\v' || s[i] == '\f' {
			if from >= 0 {
				out = append(out, s[from:i])
			}
			from = -1
		} else if from < 0 {
			from = i
		}
	}
	return out
}
