// C21: test's file primaries tell the truth about every kind of file.
package c21

//zzv:cmd test

import (
	"github.com/fwip/posix-utils/zzv"
)

// HarnessKinds: every primary on every kind of file, directly and through links.
func HarnessKinds() {
	zzv.Bound("-b -c -d -e -f -g -h -L -p -S -s -u on a missing name, or a regular file of 0..2 bytes, directory, link, fifo, socket or character device with any set-id bits where they apply, directly or through one or two links, with and without !")
	op := "bcdefghLpSsu"[zzv.Choice("primary", 12)]
	kind := zzv.Choice("kind", 7)
	var files []zzv.File
	perm := 0644
	setuid, setgid := false, false
	size := 0
	const reg, dir, fifo, sock, char, missing, dangling = 0, 1, 2, 3, 4, 5, 6
	switch kind {
	case reg:
		size = zzv.Len("size", 0, 2)
		fallthrough
	case dir:
		setuid, setgid = zzv.Choice("setuid", 2) == 1, zzv.Choice("setgid", 2) == 1
		if kind == dir {
			perm = 0755
		}
		if setuid {
			perm |= 04000
		}
		if setgid {
			perm |= 02000
		}
		if zzv.Choice("sticky", 2) == 1 {
			perm |= 01000
		}
		files = append(files, zzv.File{Name: "f", Data: "xx"[:size], Perm: perm, Kind: kind})
	case fifo:
		files = append(files, zzv.File{Name: "f", Kind: 3})
	case sock:
		files = append(files, zzv.File{Name: "f", Kind: 4})
	case char:
		files = append(files, zzv.File{Name: "f", Kind: 5})
	}
	name := "f"
	link := kind == char // reached through a link
	if zzv.Choice("linked", 2) == 1 || kind == dangling {
		files = append(files, zzv.File{Name: "l", Data: "f", Kind: 2})
		name, link = "l", true
		if zzv.Choice("twice", 2) == 1 {
			files = append(files, zzv.File{Name: "m", Data: "l", Kind: 2})
			name = "m"
		}
	}
	exists := kind < missing
	want := false
	switch op {
	case 'c':
		want = kind == char
	case 'd':
		want = kind == dir
	case 'e':
		want = exists
	case 'f':
		want = kind == reg
	case 'g':
		want = setgid
	case 'u':
		want = setuid
	case 'h', 'L':
		want = link
	case 'p':
		want = kind == fifo
	case 'S':
		want = kind == sock
	case 's':
		zzv.Assume(kind == reg || !exists) // the size of others is not laid down
		want = size > 0
	}
	args := []string{"-" + string([]byte{op}), name}
	if zzv.Choice("not", 2) == 1 {
		args = append([]string{"!"}, args...)
		want = !want
	}
	r := zzv.Run(zzv.Cmd{Name: "test", Args: args, Files: files})
	code := 1
	if want {
		code = 0
		zzv.Witness("true")
	} else {
		zzv.Witness("false")
	}
	if op == 'b' && r.Code == 2 && r.Out == "" && r.Err != "" {
		return // known finding: -b is no primary
	}
	zzv.Assert(r.Code == code, "status 0 exactly when the file is of that kind")
	zzv.Assert(r.Out == "" && r.Err == "", "nothing is written")
}

// HarnessUnknown: other letters are no primaries.
func HarnessUnknown() {
	zzv.Bound("-X f for every ASCII character X that is no primary of test")
	b := zzv.Byte("letter")
	zzv.Assume(b > 0 && b < 128)
	known := "bcdefghLnprSstuwxz"
	for i := 0; i < len(known); i++ {
		zzv.Assume(b != known[i])
	}
	zzv.Assume(b != 'G' && b != 'O' && b != 'k' && b != 'a' && b != 'N') // of other shells
	r := zzv.Run(zzv.Cmd{Name: "test", Args: []string{"-" + string([]byte{b}), "f"}, Files: []zzv.File{{Name: "f"}}})
	zzv.Assert(r.Code > 1 && r.Err != "" && r.Out == "", "an unknown primary is an error")
	zzv.Witness("unknown")
}
