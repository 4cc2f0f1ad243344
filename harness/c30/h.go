// C30: a locale definition is split into its words and values, without comments and with joined lines.
package c30

import (
	"github.com/fwip/posix-utils/pkg/locale"
	"github.com/fwip/posix-utils/zzv"
)

type tok struct {
	typ int
	val string
}

// doc is a definition (with comments and split lines), the same without them, and its words.
type doc struct {
	text, plain string
	toks        []tok
	comment     string
	escape      string
}

func (d *doc) add(typ int, val string) {
	d.text += val
	d.plain += val
	d.toks = append(d.toks, tok{typ, val})
}

func (d *doc) blank(s string) {
	d.text += s
	d.plain += s
}

func (d *doc) eol() {
	d.text += "\n"
	d.plain += "\n"
	d.toks = append(d.toks, tok{locale.EOL, ""})
}

// join splits the line in the text only.
func (d *doc) join() {
	d.text += d.escape + "\n \t "
}

func (d *doc) remark(s string) {
	d.text += d.comment + s + "\n"
}

func (d *doc) str(s string) {
	if s == "" {
		d.add(locale.TWO_DOUBLE_QUOTE_STR, `""`)
		return
	}
	d.add('"', `"`)
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' {
			d.add(locale.CHAR, s[i:i+2])
			i++
			continue
		}
		d.add(locale.CHAR, s[i:i+1])
	}
	d.add('"', `"`)
}

func (d *doc) check() {
	l := locale.NewLexer(d.text)
	plain, i := "", 0
	for {
		t, done := l.NextToken()
		if done {
			break
		}
		plain += t.Value
		if int(t.Type) == locale.WHITESPACE {
			continue
		}
		zzv.Assert(i < len(d.toks), "no more words than written")
		zzv.Assert(int(t.Type) == d.toks[i].typ, "the words have their kinds")
		if d.toks[i].typ != locale.EOL {
			zzv.Assert(t.Value == d.toks[i].val, "the words have their text")
		}
		i++
	}
	zzv.Assert(i == len(d.toks), "all words are found")
	zzv.Assert(plain == d.plain || plain == d.plain+"\n", "nothing but comments and line joins is left out")
	zzv.Witness("lexed")
}

type kw struct {
	word string
	typ  int
	kind byte
}

var cats = []struct {
	name string
	typ  int
	kws  []kw
}{
	{"LC_MONETARY", locale.LC_MONETARY_STR, []kw{{"int_curr_symbol", locale.INT_CURR_SYMBOL_STR, 's'}, {"mon_grouping", locale.MON_GROUPING_STR, 'I'},
		{"frac_digits", locale.FRAC_DIGITS_STR, 'i'}, {"negative_sign", locale.NEGATIVE_SIGN_STR, 's'}, {"currency_symbol", locale.CURRENCY_SYMBOL_STR, 's'},
		{"mon_decimal_point", locale.MON_DECIMAL_POINT_STR, 's'}, {"mon_thousands_sep", locale.MON_THOUSANDS_SEP_STR, 's'}, {"positive_sign", locale.POSITIVE_SIGN_STR, 's'},
		{"int_frac_digits", locale.INT_FRAC_DIGITS_STR, 'i'}, {"p_cs_precedes", locale.P_CS_PRECEDES_STR, 'i'}, {"p_sep_by_space", locale.P_SEP_BY_SPACE_STR, 'i'},
		{"n_cs_precedes", locale.N_CS_PRECEDES_STR, 'i'}, {"n_sep_by_space", locale.N_SEP_BY_SPACE_STR, 'i'}, {"p_sign_posn", locale.P_SIGN_POSN_STR, 'i'}, {"n_sign_posn", locale.N_SIGN_POSN_STR, 'i'},
		{"int_p_cs_precedes", locale.INT_P_CS_PRECEDES_STR, 'i'}, {"int_p_sep_by_space", locale.INT_P_SEP_BY_SPACE_STR, 'i'}, {"int_n_cs_precedes", locale.INT_N_CS_PRECEDES_STR, 'i'},
		{"int_n_sep_by_space", locale.INT_N_SEP_BY_SPACE_STR, 'i'}, {"int_p_sign_posn", locale.INT_P_SIGN_POSN_STR, 'i'}, {"int_n_sign_posn", locale.INT_N_SIGN_POSN_STR, 'i'}}},
	{"LC_TIME", locale.LC_TIME_STR, []kw{{"abday", locale.ABDAY_STR, 'S'}, {"d_t_fmt", locale.D_T_FMT_STR, 's'}, {"era", locale.ERA_STR, 'S'}, {"day", locale.DAY_STR, 'S'},
		{"abmon", locale.ABMON_STR, 'S'}, {"mon", locale.MON_STR, 'S'}, {"d_fmt", locale.D_FMT_STR, 's'}, {"t_fmt", locale.T_FMT_STR, 's'}, {"am_pm", locale.AM_PM_STR, 'S'},
		{"t_fmt_ampm", locale.T_FMT_AMPM_STR, 's'}, {"era_d_fmt", locale.ERA_D_FMT_STR, 's'}, {"era_t_fmt", locale.ERA_T_FMT_STR, 's'}, {"era_d_t_fmt", locale.ERA_D_T_FMT_STR, 's'},
		{"alt_digits", locale.ALT_DIGITS_STR, 'S'}}},
	{"LC_CTYPE", locale.LC_CTYPE_STR, []kw{{"upper", locale.UPPER_STR, 'c'}, {"toupper", locale.TOUPPER_STR, 'p'}, {"charclass", locale.CHARCLASS_STR, 'S'}, {"lower", locale.LOWER_STR, 'c'},
		{"alpha", locale.ALPHA_STR, 'c'}, {"digit", locale.DIGIT_STR, 'c'}, {"alnum", locale.ALNUM_STR, 'c'}, {"space", locale.SPACE_STR, 'c'}, {"cntrl", locale.CNTRL_STR, 'c'},
		{"punct", locale.PUNCT_STR, 'c'}, {"graph", locale.GRAPH_STR, 'c'}, {"print", locale.PRINT_STR, 'c'}, {"xdigit", locale.XDIGIT_STR, 'c'}, {"blank", locale.BLANK_STR, 'c'},
		{"tolower", locale.TOLOWER_STR, 'p'}}},
	{"LC_NUMERIC", locale.LC_NUMERIC_STR, []kw{{"decimal_point", locale.DECIMAL_POINT_STR, 's'}, {"grouping", locale.GROUPING_STR, 'I'}, {"thousands_sep", locale.THOUSANDS_SEP_STR, 's'}}},
	{"LC_MESSAGES", locale.LC_MESSAGES_STR, []kw{{"yesexpr", locale.YESEXPR_STR, 'm'}, {"noexpr", locale.NOEXPR_STR, 'm'}}},
}

func start() *doc { return &doc{comment: "#", escape: "\\"} }

func char(name string) string {
	c := zzv.Byte(name)
	zzv.Assume(c >= ' ' && c < 127 && c != '"' && c != '\\')
	return string([]byte{c})
}

func (d *doc) value(kind byte, join bool) {
	sep := func() {
		d.add(';', ";")
		if join {
			d.join()
		}
	}
	switch kind {
	case 's', 'S':
		n := 1
		if kind == 'S' {
			n = zzv.Len("items", 1, 3)
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				sep()
			}
			switch zzv.Choice("string", 3) {
			case 0:
				d.str("")
			case 1:
				d.str(char("char") + " " + char("char"))
			case 2:
				d.str("a\\" + zzv.StringIn("escaped", 1, ",;<>\\") + char("char"))
			}
		}
	case 'i', 'I':
		n := 1
		if kind == 'I' {
			n = zzv.Len("items", 1, 3)
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				sep()
			}
			d.add(locale.NUMBER, []string{"", "-"}[zzv.Choice("minus", 2)]+zzv.StringIn("digit", zzv.Len("digits", 1, 2), "0123456789"))
		}
	case 'c', 'p':
		n := zzv.Len("items", 1, 3)
		for i := 0; i < n; i++ {
			if i > 0 {
				sep()
			}
			if kind == 'p' {
				d.add('(', "(")
				d.add(locale.CHARSYMBOL, "<"+zzv.StringIn("symbol", 1, "azAZ09-_")+">")
				d.add(',', ",")
				d.add(locale.CHARSYMBOL, "<tab>")
				d.add(')', ")")
			} else {
				d.add(locale.CHARSYMBOL, "<"+zzv.StringIn("symbol", zzv.Len("symbol.len", 1, 2), "azAZ09-_")+">")
			}
		}
	case 'm':
		d.add('"', `"`)
		d.add(locale.EXTENDED_REG_EXP, "^["+char("char")+char("char")+"]")
		d.add('"', `"`)
	}
}

// HarnessValues: every keyword with its values.
func HarnessValues() {
	zzv.Bound("each of the 55 keywords of five categories with 1..3 values: strings of up to three arbitrary printable characters or escapes, numbers of 1..2 digits, symbols, pairs; values on one line or on several")
	d := start()
	c := cats[zzv.Choice("category", len(cats))]
	k := c.kws[zzv.Choice("keyword", len(c.kws))]
	d.add(c.typ, c.name)
	d.eol()
	d.add(k.typ, k.word)
	d.blank([]string{" ", "\t  "}[zzv.Choice("blank", 2)])
	d.value(k.kind, zzv.Choice("join", 2) == 1)
	d.eol()
	d.add(locale.END_STR, "END")
	d.blank(" ")
	d.add(c.typ, c.name)
	d.eol()
	d.check()
}

// HarnessComments: comments anywhere, other comment and escape characters, several categories.
func HarnessComments() {
	zzv.Bound("one or two categories of one or two keywords; comments of two arbitrary bytes in up to six places; comment_char and escape_char one of three characters or not given; joined lines and empty lines")
	d := start()
	set := func() {
		switch zzv.Choice("special", 4) {
		case 1:
			d.text += "comment_char " + zzv.StringIn("comment_char", 1, "%*#") + "\n"
			d.comment = d.text[len(d.text)-2 : len(d.text)-1]
		case 2:
			d.text += "escape_char " + zzv.StringIn("escape_char", 1, "/|\\") + "\n"
			d.escape = d.text[len(d.text)-2 : len(d.text)-1]
		case 3:
			d.text += "comment_char %\nescape_char /\n"
			d.comment, d.escape = "%", "/"
		}
	}
	note := func() {
		if zzv.Choice("comment", 2) == 1 {
			s := zzv.String("note", 2)
			zzv.Assume(s[0] != '\n' && s[1] != '\n')
			d.remark(s)
		}
	}
	note()
	set()
	n := zzv.Len("categories", 1, 2)
	for i := 0; i < n; i++ {
		c := cats[0]
		if i > 0 {
			c = cats[3]
		}
		note()
		d.add(c.typ, c.name)
		d.eol()
		m := 2 - i
		joined := false
		for j := 0; j < m; j++ {
			k := c.kws[j]
			if j == 1 && !joined {
				note()
			}
			d.add(k.typ, k.word)
			if i == 0 && zzv.Choice("join", 2) == 1 {
				d.blank(" ")
				d.join()
			} else {
				d.blank(" ")
			}
			if k.kind == 's' {
				d.str("x")
			} else {
				d.add(locale.NUMBER, "3")
				d.add(';', ";")
				d.join()
				d.add(locale.NUMBER, "-1")
			}
			d.eol()
			if j == 0 {
				switch zzv.Choice("empty", 3-i) {
				case 1:
					d.blank("\n")
				case 2:
					d.text += d.escape + "\n" // an empty line joined to the next one
					joined = true
				}
			}
		}
		note()
		d.add(locale.END_STR, "END")
		d.blank(" ")
		d.add(c.typ, c.name)
		d.eol()
	}
	d.check()
}

// HarnessCollate: the collation order.
func HarnessCollate() {
	zzv.Bound("an order of 0..4 symbols of 1..2 characters, forward or backward, by position or not")
	d := start()
	d.add(locale.LC_COLLATE_STR, "LC_COLLATE")
	d.eol()
	d.add(locale.ORDER_START_STR, "order_start")
	d.blank(" ")
	if zzv.Choice("order", 2) == 0 {
		d.add(locale.FORWARD_STR, "forward")
	} else {
		d.add(locale.BACKWARD_STR, "backward")
	}
	if zzv.Choice("position", 2) == 1 {
		d.blank(" ")
		d.add(locale.POSITION_STR, "position")
	}
	d.eol()
	n := zzv.Len("symbols", 0, 4)
	for i := 0; i < n; i++ {
		d.add(locale.CHARSYMBOL, "<"+zzv.StringIn("symbol", zzv.Len("symbol.len", 1, 2), "azAZ09-_")+">")
		d.eol()
	}
	d.add(locale.ORDER_END_STR, "order_end")
	d.eol()
	d.add(locale.END_STR, "END")
	d.blank(" ")
	d.add(locale.LC_COLLATE_STR, "LC_COLLATE")
	d.eol()
	d.check()
}

// HarnessStrings: characters and escapes in strings.
func HarnessStrings() {
	zzv.Bound("a string, or two in a list, of 1..2 parts (thorough 3): any printable character, a character of two bytes, an escaped separator, and characters by number (three octal, two or three decimal, two hexadecimal digits)")
	d := start()
	d.add(locale.LC_TIME_STR, "LC_TIME")
	d.eol()
	n, max := 1, 2
	if zzv.Thorough() {
		max = 3
	}
	if zzv.Choice("list", 2) == 1 {
		n = 2
		d.add(locale.DAY_STR, "day")
	} else {
		d.add(locale.D_FMT_STR, "d_fmt")
	}
	d.blank(" ")
	for i := 0; i < n; i++ {
		if i > 0 {
			d.add(';', ";")
		}
		d.add('"', `"`)
		m := 1
		if i == 0 {
			m = zzv.Len("parts", 1, max)
		}
		for j := 0; j < m; j++ {
			switch zzv.Choice("part", 7) {
			case 0:
				d.add(locale.CHAR, char("char"))
			case 1:
				d.add(locale.CHAR, "\\"+zzv.StringIn("escaped", 1, ",;<>\\"))
			case 2:
				d.add(locale.OCTAL_CHAR, "\\"+zzv.StringIn("octal", 3, "01234567"))
			case 3:
				d.add(locale.DECIMAL_CHAR, "\\d"+zzv.StringIn("decimal", 3, "0123456789"))
			case 4:
				// Not before a digit, which would be part of it
				d.add(locale.DECIMAL_CHAR, "\\d"+zzv.StringIn("decimal", 2, "0123456789"))
				d.add(locale.CHAR, zzv.StringIn("after", 1, "a/: x"))
			case 5:
				d.add(locale.HEX_CHAR, "\\x"+zzv.StringIn("hex", 2, "0123456789abcdefABCDEF"))
			case 6:
				b := zzv.String("wide", 2)
				zzv.Assume(b[0] >= 0xc2 && b[0] <= 0xdf && b[1] >= 0x80 && b[1] <= 0xbf)
				d.add(locale.CHAR, b)
			}
		}
		d.add('"', `"`)
	}
	d.eol()
	d.add(locale.END_STR, "END")
	d.blank(" ")
	d.add(locale.LC_TIME_STR, "LC_TIME")
	d.eol()
	d.check()
}

// HarnessLayout: blanks and ends of lines.
func HarnessLayout() {
	zzv.Bound("a category of two keywords; blanks of two kinds in six places, lines that end in LF, CR LF or several of them")
	d := start()
	gap := func(min int) {
		g := []string{"", " ", "\t "}
		d.blank(g[min+zzv.Choice("gap", len(g)-min)])
	}
	end := "\n"
	eol := func() {
		d.blank(end)
		d.toks = append(d.toks, tok{locale.EOL, ""})
	}
	end = []string{"\n", "\r\n", "\n\n\n"}[zzv.Choice("end", 3)]
	d.add(locale.LC_MONETARY_STR, "LC_MONETARY")
	gap(0)
	eol()
	gap(0)
	d.add(locale.MON_GROUPING_STR, "mon_grouping")
	gap(1)
	d.add(locale.NUMBER, "-1")
	eol()
	d.add(locale.CURRENCY_SYMBOL_STR, "currency_symbol")
	gap(1)
	d.str(char("char"))
	eol()
	gap(0)
	d.add(locale.END_STR, "END")
	gap(1)
	d.add(locale.LC_MONETARY_STR, "LC_MONETARY")
	gap(0)
	eol()
	d.check()
}

// HarnessTwice: the characters one definition sets do not reach the next.
func HarnessTwice() {
	zzv.Bound("two definitions one after the other, each setting or not setting the comment and the escape character, with a comment and a joined line")
	for i := 0; i < 2; i++ {
		d := start()
		switch zzv.Choice("special", 4) {
		case 1:
			d.text += "comment_char %\n"
			d.comment = "%"
		case 2:
			d.text += "escape_char /\n"
			d.escape = "/"
		case 3:
			d.text += "escape_char |\ncomment_char *\n"
			d.comment, d.escape = "*", "|"
		}
		c := cats[0]
		d.add(c.typ, c.name)
		d.eol()
		d.remark("note")
		k := c.kws[0]
		d.add(k.typ, k.word)
		d.blank(" ")
		d.join()
		d.str("x")
		d.eol()
		d.add(locale.END_STR, "END")
		d.blank(" ")
		d.add(c.typ, c.name)
		d.eol()
		d.check()
	}
	zzv.Witness("twice")
}
