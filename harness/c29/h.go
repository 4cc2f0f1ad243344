// C29: an era is read from its description completely, or refused.
package c29

import (
	"fmt"
	"strings"

	"github.com/fwip/posix-utils/pkg/locale"
	"github.com/fwip/posix-utils/zzv"
	spec "github.com/fwip/posix-utils/zzvspec"
)

func field(name string, max int) string {
	s := zzv.String(name, zzv.Len(name+".len", 0, max))
	for i := 0; i < len(s); i++ {
		zzv.Assume(s[i] != ':')
	}
	return s
}

// HarnessAccept: exactly the proper descriptions are taken.
func HarnessAccept() {
	zzv.Bound("0..7 fields: a direction of 0..2 arbitrary bytes, an offset of 0..2 arbitrary characters, others of 0..1 arbitrary bytes")
	n := zzv.Len("fields", 1, 7)
	in, ok := "", n >= 6
	for i := 0; i < n; i++ {
		if i > 0 {
			in += ":"
		}
		switch i {
		case 0:
			d := field("direction", 2)
			ok = ok && (d == "+" || d == "-")
			in += d
		case 1:
			o := field("offset", 2)
			_, _, num := spec.Integer(o)
			ok = ok && num
			in += o
		default:
			in += field("other", 1)
		}
	}
	_, err := locale.NewEra(in)
	zzv.Assert((err == nil) == ok, "an error exactly when the description is not proper")
	if ok {
		zzv.Witness("proper")
	} else {
		zzv.Witness("refused")
	}
}

// order tells the order of the fields of an Era: by their names, or, when those are others, by what
// they hold in a known era.
func order() []string {
	known := map[string]string{"true": "reverse", "7": "offset", "S": "startDate", "E": "endDate", "N": "name", "F": "format"}
	e, _ := locale.NewEra("-:7:S:E:N:F")
	s := fmt.Sprintf("%+v", e)
	var out []string
	for _, f := range strings.Fields(strings.Trim(s, "{}")) {
		i := strings.Index(f, ":")
		k := f[:i]
		switch k {
		case "reverse", "offset", "startDate", "endDate", "name", "format":
		default:
			k = known[f[i+1:]]
		}
		out = append(out, k)
	}
	return out
}

// HarnessFields: every part is kept, in its place.
func HarnessFields() {
	zzv.Bound("both directions, offsets of 1..3 digits with a sign or none, dates, name and format, one of which may be empty, of 1..2 arbitrary characters other than blanks and braces, the format with colons")
	empty := zzv.Choice("empty", 5) // one of them may be empty
	parts := 0
	part := func(name, not string) string {
		if parts++; parts == empty {
			return ""
		}
		s := zzv.String(name, zzv.Len(name+".len", 1, 2))
		for i := 0; i < len(s); i++ {
			zzv.Assume(s[i] > ' ' && s[i] < 127 && s[i] != '{' && s[i] != '}')
			if not != "" {
				zzv.Assume(s[i] != not[0])
			}
		}
		return s
	}
	dir := "+-"[zzv.Choice("direction", 2)]
	num := []string{"", "-", "+"}[zzv.Choice("sign", 3)] + zzv.StringIn("offset", zzv.Len("offset.len", 1, 3), "0123456789")
	start, end, name, format := part("start", ":"), part("end", ":"), part("name", ":"), part("format", "")
	rest := ":" + start + ":" + end + ":" + name + ":" + format
	e, err := locale.NewEra(string([]byte{dir}) + ":" + num + rest)
	zzv.Assert(err == nil, "a proper description is taken")
	neg, digits, _ := spec.Integer(num)
	if digits == "" {
		digits = "0"
	}
	if neg {
		digits = "-" + digits
	}
	back := "false"
	if dir == '-' {
		back = "true"
	}
	// The parts as the value is printed, in the order of its fields
	want := ""
	for i, k := range order() {
		if i > 0 {
			want += " "
		}
		switch k {
		case "reverse":
			want += back
		case "offset":
			want += digits
		case "startDate":
			want += start
		case "endDate":
			want += end
		case "name":
			want += name
		case "format":
			want += format
		}
	}
	zzv.Assert(fmt.Sprint(e) == "{"+want+"}", "all parts are there")
	zzv.Witness("parts")
}

// HarnessDistinct: descriptions that differ give different eras.
func HarnessDistinct() {
	zzv.Bound("two descriptions with offsets of one digit and fields of 0..1 arbitrary bytes")
	mk := func(n string) (string, []string) {
		p := []string{string([]byte{"+-"[zzv.Choice("direction"+n, 2)]}), zzv.StringIn("offset"+n, 1, "0123456789"),
			field("start"+n, 1), field("end"+n, 1), field("name"+n, 1), field("format"+n, 1)}
		return p[0] + ":" + p[1] + ":" + p[2] + ":" + p[3] + ":" + p[4] + ":" + p[5], p
	}
	a, pa := mk("1")
	b, pb := mk("2")
	ea, err1 := locale.NewEra(a)
	eb, err2 := locale.NewEra(b)
	zzv.Assert(err1 == nil && err2 == nil, "proper descriptions are taken")
	same := true
	for i := range pa {
		same = same && zzv.Eq(pa[i], pb[i])
	}
	zzv.Assert((ea == eb) == same, "eras are equal exactly when their descriptions are")
	if same {
		zzv.Witness("same")
	} else {
		zzv.Witness("different")
	}
}

// HarnessOffset: longer offsets.
func HarnessOffset() {
	zzv.Bound("offsets of 3 arbitrary bytes, or of 0..2 behind 1, 9 or 17 digits")
	o := []string{"", "1", "-123456789", "12345678901234567"}[zzv.Choice("digits", 4)]
	if o == "" {
		o = zzv.String("offset", 3)
	} else {
		o += field("offset", 2)
	}
	for i := 0; i < len(o); i++ {
		zzv.Assume(o[i] != ':')
	}
	_, err := locale.NewEra([]string{"+", "-"}[zzv.Choice("direction", 2)] + ":" + o + ":a:b:c:d")
	_, _, ok := spec.Integer(o)
	zzv.Assert((err == nil) == ok, "an error exactly when the offset is no number")
	zzv.Witness("offset")
}
