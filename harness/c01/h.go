// C01: the piece table is equivalent to editing a plain string.
package c01

import (
	"io"
	"strings"

	"github.com/fwip/posix-utils/pkg/txt"
	"github.com/fwip/posix-utils/zzv"
)

type table interface {
	Insert(text []byte, at int)
	Delete(length int, at int)
	String() string
}

// edits applies n arbitrary edits to the table and to a plain string.
func edits(pt table, model string, n, maxIns int, past, quiet bool) {
	for i := 0; i < n; i++ {
		if zzv.Bool("insert") {
			b := []byte(zzv.String("text", zzv.Len("text.len", 0, maxIns)))
			at := zzv.Choice("at", len(model)+1)
			model = model[:at] + string(b) + model[at:]
			pt.Insert(b, at)
			for j := range b {
				b[j] = '#' // the caller may reuse its buffer
			}
		} else {
			extra := 0
			if past {
				extra = 2
			}
			at := zzv.Choice("at", len(model)+1+extra/2)
			n := zzv.Choice("length", len(model)+1+extra-at)
			if at < len(model) {
				end := at + n
				if end > len(model) {
					end = len(model)
				}
				model = model[:at] + model[end:]
			}
			pt.Delete(n, at)
		}
		if !quiet || i == n-1 {
			zzv.Assert(pt.String() == model, "the table's text is the edited text")
		}
	}
	zzv.Observe("text", pt.String())
	zzv.Witness("edited")
}

func HarnessEdit() {
	ops, orig, ins := 4, 2, 1
	if zzv.Thorough() {
		ops, orig, ins = 4, 3, 2
	}
	zzv.Bound("original of 0.." + zzv.Itoa(orig) + " bytes, " + zzv.Itoa(ops) + " edits, insertions of 0.." + zzv.Itoa(ins) + " arbitrary bytes, any position and length (also past the end)")
	s := zzv.String("orig", zzv.Len("orig.len", 0, orig))
	pt := txt.NewPieceTable(strings.NewReader(s), len(s))
	zzv.Assert(pt.String() == s, "a new table holds the original")
	edits(&pt, s, ops, ins, true, false)
}

// HarnessQuiet: the text is not read between the edits.
func HarnessQuiet() {
	zzv.Bound("original of 0..2 bytes which is read first, then three edits of 0..2 bytes before it is read again")
	s := zzv.String("orig", zzv.Len("orig.len", 0, 2))
	pt := txt.NewPieceTable(strings.NewReader(s), len(s))
	zzv.Assert(pt.String() == s, "a new table holds the original")
	edits(&pt, s, 3, 2, false, true)
}

// ends is a reader that tells the end along with the last bytes, as a ReaderAt may.
type ends string

func (e ends) ReadAt(b []byte, off int64) (int, error) {
	n := copy(b, string(e)[off:])
	if int(off)+n == len(e) {
		return n, io.EOF
	}
	return n, nil
}

// HarnessEnds: an original that is read in another way.
func HarnessEnds() {
	zzv.Bound("original of 0..3 bytes whose reader tells the end along with the last bytes, two edits of 0..1 bytes")
	s := zzv.String("orig", zzv.Len("orig.len", 0, 3))
	pt := txt.NewPieceTable(ends(s), len(s))
	zzv.Assert(pt.String() == s, "a new table holds the original")
	edits(&pt, s, 2, 1, true, false)
}

func HarnessZero() {
	ops := 5
	zzv.Bound("a zero table, " + zzv.Itoa(ops) + " edits of 0..1 arbitrary bytes")
	var pt txt.PieceTable
	edits(&pt, "", ops, 1, false, false)
}

// HarnessLong: long originals, insertions and deletions.
func HarnessLong() {
	zzv.Bound("originals of 511, 513 or 4097 bytes, three edits of 1, 600 or 5000 bytes at the start, the end, next to them or in the middle; some bytes arbitrary")
	n := []int{511, 513, 4097}[zzv.Choice("orig", 3)]
	model := zzv.String("first", 1) + strings.Repeat("abc", n)[:n-2] + zzv.String("last", 1)
	pt := txt.NewPieceTable(strings.NewReader(model), len(model))
	sizes := []int{1, 600, 5000}
	for i := 0; i < 3; i++ {
		at := []int{0, 1, len(model) / 2, len(model) - 1, len(model)}[zzv.Choice("at", 5)]
		k := sizes[zzv.Choice("size", 3)]
		if at < 0 || at > len(model) {
			at = 0
		}
		if i == 0 || zzv.Bool("insert") {
			b := []byte(strings.Repeat("xyz", k)[:k-1] + zzv.String("text", 1))
			model = model[:at] + string(b) + model[at:]
			pt.Insert(b, at)
		} else {
			end := at + k
			if end > len(model) {
				end = len(model)
			}
			model = model[:at] + model[end:]
			pt.Delete(k, at)
		}
	}
	zzv.Assert(pt.String() == model, "the table's text is the edited text")
	zzv.Witness("edited")
}

// HarnessHuge: beyond 64 KiB.
func HarnessHuge() {
	zzv.Bound("original of 70000 bytes, an insertion of 66000 bytes at one of three places and one of 3 bytes at any of seven, a deletion of 1 or 66000 bytes at any of six; some bytes arbitrary")
	model := zzv.String("first", 1) + strings.Repeat("abc", 70000)[:69998] + zzv.String("last", 1)
	pt := txt.NewPieceTable(strings.NewReader(model), len(model))
	ins := func(b []byte, at int) {
		model = model[:at] + string(b) + model[at:]
		pt.Insert(b, at)
	}
	ins([]byte(strings.Repeat("xyz", 66000)[:65999]+zzv.String("text", 1)), []int{0, 3000, 70000}[zzv.Choice("at", 3)])
	ins([]byte("1"+zzv.String("text", 1)+"3"), []int{0, 1, 3000, 66000, 69000, 70000, 136000}[zzv.Choice("at2", 7)])
	at := []int{0, 2, 3001, 66001, 69001, 70001}[zzv.Choice("at3", 6)]
	n := []int{1, 66000}[zzv.Choice("length", 2)]
	model = model[:at] + model[at+n:]
	pt.Delete(n, at)
	zzv.Assert(pt.String() == model, "the table's text is the edited text")
	zzv.Witness("edited")
}
