// C16: cat writes the contents of its operands, in order, byte for byte.
package c16

//zzv:cmd cat
//zzv:hooks

import (
	"strings"

	"github.com/fwip/posix-utils/zzv"
)

// HarnessOperands: any few operands.
func HarnessOperands() {
	n := 3
	if zzv.Thorough() {
		n = 4
	}
	zzv.Bound("0.." + zzv.Itoa(n) + " words among two files of 0..3 arbitrary bytes, standard input of 0..2 arbitrary bytes, -u; the first three reads of 1..3 bytes")
	in := zzv.String("in", zzv.Len("in.len", 0, 2))
	f := zzv.String("f", zzv.Len("f.len", 0, 3))
	c := zzv.Cmd{Name: "cat", Stdin: in, Files: []zzv.File{{Name: "f", Data: f}, {Name: "g h", Data: "G\r\n\x00"}}, Chunks: 3, ChunkMax: 3}
	want := ""
	ops := 0
	k := zzv.Len("words", 0, n)
	for i := 0; i < k; i++ {
		switch zzv.Choice("word", 4) {
		case 0:
			c.Args = append(c.Args, "f")
			want += f
			ops++
		case 1:
			c.Args = append(c.Args, "g h")
			want += "G\r\n\x00"
			ops++
		case 2:
			c.Args = append(c.Args, "-")
			want += in
			in = ""
			ops++
		case 3:
			zzv.Assume(ops == 0) // after an operand it would be a file of that name
			c.Args = append(c.Args, "-u")
		}
	}
	if ops == 0 {
		want = in
		zzv.Witness("stdin")
	}
	r := zzv.Run(c)
	zzv.Assert(r.Out == want, "the contents are written in order")
	zzv.Assert(r.Code == 0 && r.Err == "", "no error")
	zzv.Witness("done")
}

// HarnessLong: contents larger than the copying buffer.
func HarnessLong() {
	zzv.Bound("a file of 511, 512, 32767..32769, 65537 or 1048577 bytes of which the last two are arbitrary, between two operands of one arbitrary byte")
	n := []int{511, 512, 32767, 32768, 32769, 65537, 1048577}[zzv.Choice("size", 7)]
	block := make([]byte, 4093)
	for i := range block {
		block[i] = byte(i*31 + i>>8)
	}
	b := []byte(strings.Repeat(string(block), n/4093+1)[:n])
	b[n-2], b[n-1] = zzv.Byte("x"), zzv.Byte("y")
	g := zzv.String("g", 1)
	r := zzv.Run(zzv.Cmd{Name: "cat", Args: []string{"g", "f", "g"}, Files: []zzv.File{{Name: "f", Data: string(b)}, {Name: "g", Data: g}}})
	zzv.Assert(r.Out == g+string(b)+g, "the contents are written in order")
	zzv.Assert(r.Code == 0 && r.Err == "", "no error")
	zzv.Witness("long")
}
