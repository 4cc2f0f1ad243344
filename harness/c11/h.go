// C11: cksum writes the checksum, the number of bytes and the name of every input.
package c11

//zzv:cmd cksum
//zzv:hooks

import (
	"strings"

	"github.com/fwip/posix-utils/zzv"
	spec "github.com/fwip/posix-utils/zzvspec"
)

func HarnessShort() {
	n := 5
	if zzv.Thorough() {
		n = 7
	}
	zzv.Bound("a file of 0.." + zzv.Itoa(n) + " arbitrary bytes")
	data := zzv.String("data", zzv.Len("data.len", 0, n))
	r := zzv.Run(zzv.Cmd{Name: "cksum", Args: []string{"f"}, Files: []zzv.File{{Name: "f", Data: data}}})
	zzv.Assert(r.Code == 0 && r.Err == "", "no error")
	zzv.Assert(r.Out == spec.Cksum(data, "f"), "checksum, length and name")
	zzv.Witness("summed")
}

// HarnessLong: the checksum of larger files is that of all of their bytes and of their length.
func HarnessLong() {
	sizes := []int{31, 255, 256, 511, 512, 513, 4096, 65535, 65536}
	zzv.Bound("files of 31, 255, 256, 511..513, 4096, 65535 and 65536 bytes, of which one of the last 500 (first, middle or last of them) is arbitrary")
	n := sizes[zzv.Choice("size", len(sizes))]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8)
	}
	first := 0
	if n > 500 {
		first = n - 500
	}
	b[[]int{first, (first + n) / 2, n - 1}[zzv.Choice("where", 3)]] = zzv.Byte("byte")
	data := string(b)
	c := zzv.Cmd{Name: "cksum", Args: []string{"f"}, Files: []zzv.File{{Name: "f", Data: data}}}
	r := zzv.Run(c)
	zzv.Assert(r.Code == 0 && r.Err == "", "no error")
	zzv.Assert(r.Out == spec.Cksum(data, "f"), "checksum, length and name")
	zzv.Witness("long")
}

// HarnessInputs: standard input and several operands, in order, however the bytes arrive.
func HarnessInputs() {
	zzv.Bound("no operand, -, or 1..3 operands among two files with names of two kinds and -; contents of 0..2 arbitrary letters; standard input in reads of 1..2 bytes")
	stdin := zzv.AnyString("stdin", 2, "ab")
	f := zzv.AnyString("f", 1, "ab\n")
	files := []zzv.File{{Name: "f", Data: f}, {Name: "g h%d", Data: "xyz\x00"}}
	c := zzv.Cmd{Name: "cksum", Stdin: stdin, Files: files, Chunks: 2, ChunkMax: 2}
	want := ""
	n := zzv.Len("operands", 0, 3)
	if n == 0 {
		want = spec.Cksum(stdin, "")
		zzv.Witness("stdin")
	}
	for i := 0; i < n; i++ {
		switch zzv.Choice("operand", 3) {
		case 0:
			c.Args = append(c.Args, "f")
			want += spec.Cksum(f, "f")
		case 1:
			c.Args = append(c.Args, "g h%d")
			want += spec.Cksum("xyz\x00", "g h%d")
		case 2:
			c.Args = append(c.Args, "-")
			want += spec.Cksum(stdin, "-")
			stdin = ""
		}
	}
	r := zzv.Run(c)
	zzv.Assert(r.Code == 0 && r.Err == "", "no error")
	zzv.Assert(r.Out == want, "one line for each input, in order")
}

// HarnessMega: more than a megabyte.
func HarnessMega() {
	zzv.Bound("a file or standard input of 1048577 bytes, all zero but the last, which is arbitrary")
	zzv.Steps(400000000)
	data := strings.Repeat("\x00", 1<<20) + zzv.String("last", 1)
	c := zzv.Cmd{Name: "cksum"}
	name := ""
	if zzv.Bool("file") {
		name = "f"
		c.Args = []string{"f"}
		c.Files = []zzv.File{{Name: "f", Data: data}}
	} else {
		c.Stdin = data
	}
	r := zzv.Run(c)
	zzv.Assert(r.Code == 0 && r.Err == "", "no error")
	zzv.Assert(r.Out == spec.Cksum(data, name), "checksum, length and name")
	zzv.Witness("long")
}
