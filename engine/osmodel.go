package main

import (
	"fmt"
	"go/types"
	"path"
	"sort"
	"strings"
	"syscall"

	"golang.org/x/tools/go/ssa"
)

// The operating-system model: a small file system, standard streams, environment, signals.

type inode struct {
	data []*Term
	mode uint32 // os.FileMode bits, including the type
	link string
	size int64 // for non-regular files
}

const (
	modeDir     = 1 << 31
	modeSymlink = 1 << 27
	modeDevice  = 1 << 26
	modePipe    = 1 << 25
	modeSocket  = 1 << 24
	modeSetuid  = 1 << 23
	modeSetgid  = 1 << 22
	modeChar    = 1 << 21
	modeSticky  = 1 << 20
	modeType    = modeDir | modeSymlink | modePipe | modeSocket | modeDevice | modeChar | 1<<19
)

type FS struct {
	names map[string]*inode
}

func newFS() *FS { return &FS{names: map[string]*inode{}} }

func (fs *FS) list() []string {
	var out []string
	for n := range fs.names {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

type osFile struct {
	name   Str
	ino    *inode
	off    int
	flags  int
	closed bool
	std    int // 0,1,2 or -1
	append bool
}

type sigRec struct {
	pid *Term
	sig *Term
}

// Proc is one process: its globals, streams and view of the file system.
type Proc struct {
	globals  map[*ssa.Global]*Obj
	ov       map[*Obj]*Obj
	ovm      map[*MapObj]*MapObj
	args     []Str
	env      [][2]Str
	envSet   bool
	stdin    []*Term
	stdinOff int
	stdout   []*Term
	stderr   []*Term
	fs       *FS
	std      [3]*Ptr
	crashMsg string
	signals  []sigRec

	chunks   []*Term
	killFail int // bit i: the i-th signal cannot be sent; bit 8: for want of permission
	faultVar *Term
	faultOps string
	faultN   int
	fired    bool
	crashVar *Term
	crashN   int
	partial  *Term
	errVar   *Term // 1: the failing operation gives the second of two errors
	outFail  *Term
}

func newProc(fs *FS) *Proc {
	return &Proc{globals: map[*ssa.Global]*Obj{}, fs: fs}
}

func (p *Proc) stdFile(n int) Value {
	if p.std[n] == nil {
		names := []string{"/dev/stdin", "/dev/stdout", "/dev/stderr"}
		f := &osFile{name: Str{s: names[n]}, std: n}
		p.std[n] = &Ptr{&Obj{slots: []Value{&Native{"file", f}}}, 0}
	}
	return *p.std[n]
}

func (p *Proc) stderrWrite(th *Thread, s Str) {
	p.stderr = append(p.stderr, th.w.strBytes(s)...)
}

func (th *Thread) strSlice(ss []Str) Slice {
	o := &Obj{slots: make([]Value, len(ss))}
	for i, s := range ss {
		o.slots[i] = s
	}
	return Slice{o, 0, len(ss), len(ss), 1}
}

// fault decides whether this operation is the one that fails. kind is one of
// o(pen) r(ead) w(rite) c(lose) n (rename) d (remove) s(tat).
func (th *Thread) fault(kind byte) bool {
	p := th.proc
	if p.faultVar == nil || strings.IndexByte(p.faultOps, kind) < 0 {
		return false
	}
	p.faultN++
	if p.fired {
		return false
	}
	if th.p.Branch(th.w.ctx.Eq(p.faultVar, th.w.ctx.Const(uint64(p.faultN), p.faultVar.w))) {
		p.fired = true
		return true
	}
	return false
}

// faultErr is the error of the operation that fails.
func (th *Thread) faultErr(first, second syscall.Errno) syscall.Errno {
	if v := th.proc.errVar; v != nil && th.p.Branch(th.w.ctx.Eq(v, th.w.ctx.Const(1, v.w))) {
		return second
	}
	return first
}

// partialWrite is how many of n bytes arrive when writing them fails.
func (th *Thread) partialWrite(n int) int {
	v, c := th.proc.partial, th.w.ctx
	if v != nil && th.p.Branch(c.ULt(v, c.Const(uint64(n), v.w))) {
		return int(th.p.Concretize(v))
	}
	return 0
}

// crashPoint ends the process before the operation when the plan says so.
// For writes (n>0) the number of bytes that reached the file is returned.
func (th *Thread) crashPoint(n int) (bool, int) {
	p := th.proc
	if p.crashVar == nil {
		return false, 0
	}
	p.crashN++
	if !th.p.Branch(th.w.ctx.Eq(p.crashVar, th.w.ctx.Const(uint64(p.crashN), p.crashVar.w))) {
		return false, 0
	}
	k := 0
	if n > 0 && p.partial != nil {
		c := th.w.ctx
		if th.p.Branch(c.ULt(p.partial, c.Const(uint64(n), p.partial.w))) {
			k = int(th.p.Concretize(p.partial))
		} else {
			k = n
		}
	}
	return true, k
}

func (th *Thread) crashNow() {
	panic(exitSig{th.proc, -9, "killed"})
}

// path resolution

func clean(n string) string {
	if n == "" {
		return ""
	}
	c := path.Clean(n)
	return c
}

// resolve picks the concrete name equal to s among the known files, or "" when none.
func (th *Thread) resolve(s Str) (string, bool) {
	if s.t == nil {
		return clean(s.s), true
	}
	for _, n := range th.proc.fs.list() {
		if len(n) == s.Len() && th.p.Branch(th.w.strEq(s, Str{s: n})) {
			return n, true
		}
	}
	// another spelling of a known name, or a special name?
	for _, n := range []string{".", "..", "/", "./"} {
		if len(n) == s.Len() && th.p.Branch(th.w.strEq(s, Str{s: n})) {
			return clean(n), true
		}
	}
	c := th.w.ctx
	for _, b := range s.t {
		if th.p.Branch(c.Or(c.Eq(b, c.Const('/', 8)), c.Eq(b, c.Const(0, 8)))) {
			return th.concStr(s), true
		}
	}
	return "", false
}

func (th *Thread) concStr(s Str) string {
	if s.t == nil {
		return s.s
	}
	b := make([]byte, len(s.t))
	for i, t := range s.t {
		b[i] = byte(th.p.Concretize(t))
	}
	return string(b)
}

// lookup finds the inode of a name; follow resolves a final symbolic link.
func (th *Thread) lookup(s Str, follow bool) (*inode, string, syscall.Errno) {
	if s.Len() == 0 {
		return nil, "", syscall.ENOENT
	}
	n, ok := th.resolve(s)
	if !ok {
		return nil, "", syscall.ENOENT
	}
	if strings.IndexByte(n, 0) >= 0 {
		return nil, n, syscall.EINVAL
	}
	for hop := 0; ; hop++ {
		if hop > 10 {
			return nil, n, syscall.ELOOP
		}
		if n == "." || n == "/" || n == ".." {
			return &inode{mode: modeDir | 0755, size: 4096}, n, 0
		}
		// every parent must be a directory
		for i := 1; i < len(n); i++ {
			if n[i] == '/' {
				pi := th.proc.fs.names[n[:i]]
				if pi != nil && pi.mode&modeSymlink != 0 {
					panic(unsupported("symbolic link in the middle of a path"))
				}
				if pi != nil && pi.mode&modeDir == 0 {
					return nil, n, syscall.ENOTDIR
				}
			}
		}
		ino := th.proc.fs.names[n]
		if ino == nil {
			if strings.HasPrefix(n, "/") || strings.HasPrefix(n, "../") {
				panic(unsupported("path outside the scratch directory: " + n))
			}
			// an implicit directory
			for k := range th.proc.fs.names {
				if strings.HasPrefix(k, n+"/") {
					return &inode{mode: modeDir | 0755, size: 4096}, n, 0
				}
			}
			return nil, n, syscall.ENOENT
		}
		if s.t == nil && strings.HasSuffix(s.s, "/") && ino.mode&modeDir == 0 && ino.mode&modeSymlink == 0 {
			return nil, n, syscall.ENOTDIR
		}
		if ino.mode&modeSymlink != 0 && follow {
			l := ino.link
			if !strings.HasPrefix(l, "/") {
				l = path.Join(path.Dir(n), l)
			}
			n = l
			continue
		}
		return ino, n, 0
	}
}

// error values

func (th *Thread) errno(e syscall.Errno) Iface {
	return Iface{th.w.rtype(th.w.eng.typ("syscall", "Errno")), th.w.ctx.Const(uint64(e), 64)}
}

func (th *Thread) pathError(op string, name Str, e syscall.Errno) Iface {
	t := th.w.eng.typ("io/fs", "PathError")
	o := &Obj{slots: []Value{Str{s: op}, name, th.errno(e)}}
	return Iface{th.w.rtype(types.NewPointer(t)), Ptr{o, 0}}
}

func (th *Thread) pathErrorV(op string, name Str, e Iface) Iface {
	t := th.w.eng.typ("io/fs", "PathError")
	o := &Obj{slots: []Value{Str{s: op}, name, e}}
	return Iface{th.w.rtype(types.NewPointer(t)), Ptr{o, 0}}
}

func (th *Thread) linkError(op string, a, b Str, e syscall.Errno) Iface {
	t := th.w.eng.typ("os", "LinkError")
	o := &Obj{slots: []Value{Str{s: op}, a, b, th.errno(e)}}
	return Iface{th.w.rtype(types.NewPointer(t)), Ptr{o, 0}}
}

func (th *Thread) globalVal(pkg, name string) Value {
	p := th.w.eng.pkgs[pkg]
	g, ok := p.Members[name].(*ssa.Global)
	if !ok {
		panic(unsupported("no variable " + pkg + "." + name))
	}
	return th.load(Ptr{th.global(g), 0}, th.w.ti(deref(g.Type())))
}

func (th *Thread) fileOf(v Value) *osFile {
	p, ok := v.(Ptr)
	if !ok || p.obj == nil {
		return nil
	}
	if n, ok := p.obj.slots[p.off].(*Native); ok {
		if f, ok := n.v.(*osFile); ok {
			return f
		}
	}
	panic(unsupported("os.File of unknown origin"))
}

func (th *Thread) openFile(name Str, flag int, perm uint32) Value {
	creating := flag&syscall.O_CREAT != 0 || flag&syscall.O_TRUNC != 0
	nilFile := Ptr{}
	if th.fault('o') {
		return Tuple{nilFile, th.pathError("open", name, th.faultErr(syscall.EIO, syscall.EACCES))}
	}
	if creating {
		if c, _ := th.crashPoint(0); c {
			th.crashNow()
		}
	}
	ino, n, e := th.lookup(name, true)
	if e == syscall.ENOENT && flag&syscall.O_CREAT != 0 && name.Len() > 0 {
		if n == "" {
			n = clean(th.concStr(name))
		}
		if strings.HasSuffix(th.concStr(name), "/") {
			return Tuple{nilFile, th.pathError("open", name, syscall.EISDIR)}
		}
		if i := strings.LastIndexByte(n, '/'); i > 0 {
			if pi, _, e := th.lookup(Str{s: n[:i]}, true); e != 0 || pi.mode&modeDir == 0 {
				return Tuple{nilFile, th.pathError("open", name, syscall.ENOENT)}
			}
		}
		// an ordinary umask of 022
		ino = &inode{mode: perm & 07777 &^ 022}
		th.proc.fs.names[n] = ino
		e = 0
	} else if e == 0 && flag&syscall.O_CREAT != 0 && flag&syscall.O_EXCL != 0 {
		e = syscall.EEXIST
	}
	if e != 0 {
		return Tuple{nilFile, th.pathError("open", name, e)}
	}
	acc := flag & 3
	if ino.mode&modeDir != 0 && acc != syscall.O_RDONLY {
		return Tuple{nilFile, th.pathError("open", name, syscall.EISDIR)}
	}
	if ino.mode&modeSocket != 0 {
		return Tuple{nilFile, th.pathError("open", name, syscall.ENXIO)}
	}
	if ino.mode&modePipe != 0 {
		panic(unsupported("opening a FIFO"))
	}
	if flag&syscall.O_TRUNC != 0 && ino.mode&modeType == 0 {
		ino.data = nil
	}
	f := &osFile{name: name, ino: ino, flags: flag, std: -1, append: flag&syscall.O_APPEND != 0}
	return Tuple{Ptr{&Obj{slots: []Value{&Native{"file", f}}}, 0}, Iface{}}
}

func (th *Thread) i64(n int) *Term { return th.w.ctx.Const(uint64(int64(n)), 64) }

func (th *Thread) checkFile(f *osFile, op string) (Iface, bool) {
	if f == nil {
		return th.globalVal("os", "ErrInvalid").(Iface), false
	}
	if f.closed {
		return th.pathErrorV(op, f.name, th.globalVal("os", "ErrClosed").(Iface)), false
	}
	return Iface{}, true
}

func (th *Thread) eof() Iface { return th.globalVal("io", "EOF").(Iface) }

func (th *Thread) fileRead(v Value, b Slice) Value {
	f := th.fileOf(v)
	th.yield()
	if e, ok := th.checkFile(f, "read"); !ok {
		return Tuple{th.i64(0), e}
	}
	if f.std == 0 {
		if th.fault('i') {
			return Tuple{th.i64(0), th.pathError("read", f.name, th.faultErr(syscall.EIO, syscall.EACCES))}
		}
		p := th.proc
		left := len(p.stdin) - p.stdinOff
		n := min(left, b.len)
		n = th.chunked(n)
		if b.len > 0 && left == 0 {
			return Tuple{th.i64(0), th.eof()}
		}
		th.putBytes(b, 0, p.stdin[p.stdinOff:p.stdinOff+n])
		p.stdinOff += n
		return Tuple{th.i64(n), Iface{}}
	}
	if f.std > 0 || f.flags&3 == syscall.O_WRONLY {
		return Tuple{th.i64(0), th.pathError("read", f.name, syscall.EBADF)}
	}
	if th.fault('r') {
		return Tuple{th.i64(0), th.pathError("read", f.name, th.faultErr(syscall.EIO, syscall.EACCES))}
	}
	if f.ino.mode&modeDir != 0 {
		return Tuple{th.i64(0), th.pathError("read", f.name, syscall.EISDIR)}
	}
	if f.ino.mode&modeType != 0 {
		panic(unsupported("reading a device"))
	}
	left := len(f.ino.data) - f.off
	if left < 0 {
		left = 0
	}
	if b.len == 0 {
		return Tuple{th.i64(0), Iface{}}
	}
	if left == 0 {
		return Tuple{th.i64(0), th.eof()}
	}
	n := th.chunked(min(left, b.len))
	th.putBytes(b, 0, f.ino.data[f.off:f.off+n])
	f.off += n
	return Tuple{th.i64(n), Iface{}}
}

// chunked lets the environment return fewer bytes than asked for.
func (th *Thread) chunked(n int) int {
	p := th.proc
	if n <= 1 || len(p.chunks) == 0 {
		return n
	}
	t := p.chunks[0]
	p.chunks = p.chunks[1:]
	cx := th.w.ctx
	if th.p.Branch(cx.And(cx.ULt(t, cx.Const(uint64(n), 64)), cx.Not(cx.Eq(t, cx.Const(0, 64))))) {
		return int(th.p.Concretize(t))
	}
	return n
}

func (th *Thread) fileReadAt(v Value, b Slice, off *Term) Value {
	f := th.fileOf(v)
	th.yield()
	if e, ok := th.checkFile(f, "read"); !ok {
		return Tuple{th.i64(0), e}
	}
	o := sext(th.p.Concretize(off), 64)
	if o < 0 {
		return Tuple{th.i64(0), th.pathErrorV("readat", f.name, th.newError("negative offset"))}
	}
	if f.std >= 0 {
		return Tuple{th.i64(0), th.pathError("read", f.name, syscall.ESPIPE)}
	}
	if f.ino.mode&modeDir != 0 {
		return Tuple{th.i64(0), th.pathError("read", f.name, syscall.EISDIR)}
	}
	if th.fault('r') {
		return Tuple{th.i64(0), th.pathError("read", f.name, th.faultErr(syscall.EIO, syscall.EACCES))}
	}
	left := max(0, len(f.ino.data)-int(o))
	n := min(left, b.len)
	if n > 0 {
		th.putBytes(b, 0, f.ino.data[int(o):int(o)+n])
	}
	if n < b.len {
		return Tuple{th.i64(n), th.eof()}
	}
	return Tuple{th.i64(n), Iface{}}
}

func (th *Thread) fileWrite(v Value, data []*Term) Value {
	f := th.fileOf(v)
	th.yield()
	if e, ok := th.checkFile(f, "write"); !ok {
		return Tuple{th.i64(0), e}
	}
	n := len(data)
	switch f.std {
	case 1:
		if len(data) > 0 && th.fault('W') {
			k := th.partialWrite(n)
			th.proc.stdout = append(th.proc.stdout, data[:k]...)
			return Tuple{th.i64(k), th.pathError("write", f.name, th.faultErr(syscall.EIO, syscall.EDQUOT))}
		}
		th.proc.stdout = append(th.proc.stdout, data...)
		th.yield()
		return Tuple{th.i64(n), Iface{}}
	case 2:
		th.proc.stderr = append(th.proc.stderr, data...)
		return Tuple{th.i64(n), Iface{}}
	case 0:
		return Tuple{th.i64(0), th.pathError("write", f.name, syscall.EBADF)}
	}
	if f.flags&3 == syscall.O_RDONLY {
		return Tuple{th.i64(0), th.pathError("write", f.name, syscall.EBADF)}
	}
	put := func(d []*Term) {
		if f.append {
			f.off = len(f.ino.data)
		}
		nd := append([]*Term(nil), f.ino.data...)
		for len(nd) < f.off+len(d) {
			nd = append(nd, th.w.ctx.Const(0, 8))
		}
		copy(nd[f.off:], d)
		f.ino.data = nd
		f.off += len(d)
	}
	if n > 0 {
		if th.fault('w') {
			// a short write, then the error (disk full)
			k := th.partialWrite(n)
			put(data[:k])
			return Tuple{th.i64(k), th.pathError("write", f.name, th.faultErr(syscall.ENOSPC, syscall.EDQUOT))}
		}
		if c, k := th.crashPoint(n); c {
			put(data[:k])
			th.crashNow()
		}
	}
	put(data)
	return Tuple{th.i64(n), Iface{}}
}

func (th *Thread) fileClose(v Value) Value {
	f := th.fileOf(v)
	if e, ok := th.checkFile(f, "close"); !ok {
		return e
	}
	f.closed = true
	if f.std < 0 && th.fault('c') {
		if f.flags&3 != syscall.O_RDONLY && f.ino.mode&modeType == 0 {
			f.ino.data = nil // what was written is lost
		}
		return th.pathError("close", f.name, th.faultErr(syscall.EIO, syscall.EDQUOT))
	}
	return Iface{}
}

func (th *Thread) fileInfo(name Str, ino *inode) Iface {
	t := th.w.eng.typ("os", "fileStat")
	ti := th.w.ti(t)
	o := &Obj{slots: make([]Value, ti.slots)}
	base := name
	if name.t == nil {
		base = Str{s: path.Base(name.s)}
	}
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "name":
			o.slots[ti.offs[i]] = base
		case "size":
			sz := int64(len(ino.data))
			if ino.mode&modeType != 0 {
				sz = ino.size
			}
			if ino.mode&modeSymlink != 0 {
				sz = int64(len(ino.link))
			}
			o.slots[ti.offs[i]] = th.w.ctx.Const(uint64(sz), 64)
		case "mode":
			o.slots[ti.offs[i]] = th.w.ctx.Const(uint64(ino.mode), 32)
		}
	}
	return Iface{th.w.rtype(types.NewPointer(t)), Ptr{o, 0}}
}

func (th *Thread) statName(name Str, follow bool) Value {
	op := "stat"
	if !follow {
		op = "lstat"
	}
	if th.fault('s') {
		return Tuple{Iface{}, th.pathError(op, name, th.faultErr(syscall.EIO, syscall.EACCES))}
	}
	ino, _, e := th.lookup(name, follow)
	if e != 0 {
		return Tuple{Iface{}, th.pathError(op, name, e)}
	}
	return Tuple{th.fileInfo(name, ino), Iface{}}
}

func (th *Thread) rename(a, b Str) Value {
	if th.fault('n') {
		return th.linkError("rename", a, b, th.faultErr(syscall.EIO, syscall.EACCES))
	}
	if c, _ := th.crashPoint(0); c {
		th.crashNow()
	}
	ino, n, e := th.lookup(a, false)
	if e != 0 {
		return th.linkError("rename", a, b, e)
	}
	m := clean(th.concStr(b))
	if m == "" {
		return th.linkError("rename", a, b, syscall.ENOENT)
	}
	if t, _, e := th.lookup(Str{s: m}, false); e == 0 && t.mode&modeDir != 0 {
		return th.linkError("rename", a, b, syscall.EEXIST)
	}
	delete(th.proc.fs.names, n)
	th.proc.fs.names[m] = ino
	return Iface{}
}

func (th *Thread) remove(a Str) Value {
	if th.fault('d') {
		return th.pathError("remove", a, th.faultErr(syscall.EIO, syscall.EACCES))
	}
	if c, _ := th.crashPoint(0); c {
		th.crashNow()
	}
	_, n, e := th.lookup(a, false)
	if e != 0 {
		return th.pathError("remove", a, e)
	}
	if _, ok := th.proc.fs.names[n]; !ok {
		return th.pathError("remove", a, syscall.ENOTEMPTY)
	}
	delete(th.proc.fs.names, n)
	return Iface{}
}

func (th *Thread) newError(msg string) Iface {
	return th.callFn(th.w.eng.fn("errors", "New"), Str{s: msg}).(Iface)
}

func (th *Thread) getenv(k Str) (Str, bool) {
	for _, e := range th.proc.env {
		if e[0].Len() == k.Len() && th.p.Branch(th.w.strEq(e[0], k)) {
			return e[1], true
		}
	}
	return Str{}, false
}

var _ = fmt.Sprint
