// C23: the locale command reports every category by the precedence of the environment variables.
package c23

//zzv:cmd locale

import (
	"github.com/fwip/posix-utils/pkg/locale"
	"github.com/fwip/posix-utils/zzv"
)

var cats = []string{"LC_COLLATE", "LC_CTYPE", "LC_MESSAGES", "LC_MONETARY", "LC_NUMERIC", "LC_TIME"}

var _ = locale.FromEnv

// next takes a line "name=value" off out.
func next(out, name string) (value, rest string) {
	for i := 0; i < len(out); i++ {
		if out[i] == '\n' {
			l := out[:i]
			zzv.Assert(len(l) > len(name) && l[:len(name)] == name && l[len(name)] == '=', "the lines are in order: "+name)
			return l[len(name)+1:], out[i+1:]
		}
	}
	zzv.Assert(false, "a line for "+name)
	return "", ""
}

func check(lang, all string, vals []string) {
	var env []string
	add := func(n, v string) {
		if v != "" || zzv.Choice("set", 2) == 1 { // set to the empty string counts as not set
			env = append(env, n+"="+v)
		}
	}
	add("LANG", lang)
	add("LC_ALL", all)
	for i, c := range cats {
		if vals[i] != "" {
			env = append(env, c+"="+vals[i])
		}
	}
	r := zzv.Run(zzv.Cmd{Name: "locale", Env: env})
	zzv.Assert(r.Code == 0 && r.Err == "", "no error")
	v, out := next(r.Out, "LANG")
	zzv.Assert(v == lang, "LANG is reported as it is")
	for i, c := range cats {
		v, out = next(out, c)
		switch {
		case all != "":
			zzv.Assert(v == "\""+all+"\"", "LC_ALL overrides every category")
			zzv.Witness("all")
		case vals[i] != "":
			zzv.Assert(v == vals[i], "a category has its own value")
			zzv.Witness("own")
		case lang != "":
			zzv.Assert(v == "\""+lang+"\"", "LANG is for categories without a value")
			zzv.Witness("lang")
		default:
			zzv.Assert(v == `""`, "without any variable a category is LANG, which is empty")
			zzv.Witness("default")
		}
	}
	v, out = next(out, "LC_ALL")
	zzv.Assert(v == all, "LC_ALL is reported as it is")
	zzv.Assert(out == "", "nothing else is written")
}

// HarnessSet: any subset of the variables.
func HarnessSet() {
	zzv.Bound("any subset of the eight variables, set, empty or unset, with distinct values")
	vals := make([]string, len(cats))
	for i := range vals {
		if zzv.Choice("category", 2) == 1 {
			vals[i] = "v" + zzv.Itoa(i)
		}
	}
	check([]string{"", "la"}[zzv.Choice("lang", 2)], []string{"", "al"}[zzv.Choice("all", 2)], vals)
}

// HarnessValues: any text as value.
func HarnessValues() {
	n := 3
	if zzv.Thorough() {
		n = 5
	}
	zzv.Bound("values of 0.." + zzv.Itoa(n) + " arbitrary bytes but NUL and newline for LANG, LC_ALL and one category")
	val := func(name string) string {
		s := zzv.String(name, zzv.Len(name+".len", 0, n))
		for i := 0; i < len(s); i++ {
			zzv.Assume(s[i] != 0 && s[i] != '\n')
		}
		return s
	}
	vals := make([]string, len(cats))
	lang, all := "", ""
	switch zzv.Choice("which", 3) {
	case 0:
		lang = val("lang")
	case 1:
		all = val("all")
	case 2:
		vals[zzv.Choice("category", len(cats))] = val("value")
	}
	check(lang, all, vals)
}

// HarnessReal: names of locales as they are in use.
func HarnessReal() {
	zzv.Bound("ten names of locales and other long values for LANG, LC_ALL or one category, and others for the rest")
	names := []string{"C", "POSIX", "C.UTF-8", "en_US.UTF-8", "de_DE@euro", "de_DE.ISO-8859-15@euro", "ca_ES@valencia", "/usr/lib/locale/x", "a\"b\\c", "en_US:en %s"}
	v := names[zzv.Choice("name", len(names))]
	vals := make([]string, len(cats))
	lang, all := "xx_YY", ""
	switch zzv.Choice("which", 3) {
	case 0:
		lang = v
	case 1:
		all = v
	case 2:
		vals[zzv.Choice("category", len(cats))] = v
	}
	check(lang, all, vals)
}
