// C10: patterns with an incomplete bracket list or count are refused, all others accepted.
package c10

import (
	"github.com/fwip/posix-utils/pkg/regexes"
	"github.com/fwip/posix-utils/zzv"
	spec "github.com/fwip/posix-utils/zzvspec"
)

// accepts: refusing is an error or, as the package does today, a panic.
func accepts(p string) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	bre, err := regexes.ParseBre(p)
	return err == nil && bre != nil
}

func check(p string) {
	want, clear := spec.BreOK(p)
	zzv.Assume(clear)
	zzv.Assert(accepts(p) == want, "a pattern is accepted exactly when its brackets and counts are complete")
	if want {
		zzv.Witness("accepted")
	} else {
		zzv.Witness("refused")
	}
}

func HarnessPattern() {
	n := 6
	if zzv.Thorough() {
		n = 7
	}
	zzv.Bound("patterns of 0.." + zzv.Itoa(n) + " bytes over a, 1, comma, brackets, braces, *, ., ^ and $")
	check(zzv.AnyString("pattern", n, "a1,[]{}*.^$"))
}

func HarnessCount() {
	zzv.Bound("a letter or bracket list and { with 0..5 bytes over 0, 7, comma, }, a, blank, + and -, and a following letter or not")
	p := []string{"a", "[ab]", ".", "^a"}[zzv.Choice("elem", 4)] + "{" + zzv.AnyString("count", 5, "07,}a +-")
	if zzv.Bool("more") {
		p += "b"
	}
	check(p)
}
