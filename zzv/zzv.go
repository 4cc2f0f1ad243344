// Package zzv is the vocabulary of the harnesses. Under the symbolic engine the functions of
// the first group are intrinsics; the bodies below are what a native replay runs.
package zzv

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// ---- primitives (intrinsics under the engine) ----

// Int is an arbitrary integer of [lo,hi].
func Int(name string, lo, hi int) int { return int(input(name, int64(lo))) }

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(input(name, 0)) }

// ByteIn is an arbitrary byte of the alphabet.
func ByteIn(name, alphabet string) byte {
	return byte(input(name, int64(alphabet[0])))
}

// Bool is an arbitrary boolean.
func Bool(name string) bool { return input(name, 0) != 0 }

// Fix makes a value concrete (the engine forks over its values).
func Fix(n int) int { return n }

// FixStr makes a string concrete.
func FixStr(s string) string { return s }

// Assume restricts attention to executions where b holds.
func Assume(b bool) {
	if !b {
		finish("ASSUME", "")
	}
}

// Assert states what must hold.
func Assert(b bool, msg string) {
	if !b {
		finish("VIOLATION", msg)
	}
}

// Observe records a value for the comparison of the engine with the real run.
func Observe(name, v string) { obs = append(obs, [2]string{name, v}) }

// Bound states a bound of the harness.
func Bound(text string) {}

// Witness marks a point that at least one execution must reach.
func Witness(tag string) {}

// Thorough tells whether the deep tier is running.
func Thorough() bool { return os.Getenv("ZZV_TIER") == "thorough" }

// AnyMapOrder makes map iteration order in the code under test arbitrary.
func AnyMapOrder() {}

// AnySchedule makes goroutine switches arbitrary with at most n preemptions.
func AnySchedule(n int) {}

// NoSteps is the step budget of the execution from here on (a hang beyond it).
func Steps(n int) {}

func run(name string, args []string, stdin string, env []string, fnames, fdata []string, fmodes []int,
	chunks []int, faultOps string, fault, crash, partial, errno int, killFail int) (out, err string, code int, onames, odata []string, sigs []int) {
	dir, e := ioutil.TempDir("", "zzv")
	if e != nil {
		panic(e)
	}
	defer os.RemoveAll(dir)
	os.Chmod(dir, 0777)
	var created []string
	for i, n := range fnames {
		p := filepath.Join(dir, n)
		os.MkdirAll(filepath.Dir(p), 0777)
		m := fmodes[i]
		switch m >> 12 {
		case 0:
			if e := ioutil.WriteFile(p, []byte(fdata[i]), 0644); e != nil {
				panic(e)
			}
			os.Chmod(p, fileMode(m))
		case 1:
			os.Mkdir(p, 0755)
			os.Chmod(p, fileMode(m))
		case 2:
			os.Symlink(fdata[i], p)
		case 3:
			if e := syscall.Mkfifo(p, uint32(m&0777)); e != nil {
				panic(e)
			}
		case 4:
			// a socket: left behind by a listener
			fd, e := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
			if e == nil {
				wd, _ := os.Getwd()
				os.Chdir(filepath.Dir(p))
				e = syscall.Bind(fd, &syscall.SockaddrUnix{Name: filepath.Base(p)})
				os.Chdir(wd)
				syscall.Close(fd)
			}
			if e != nil {
				panic(e)
			}
		case 5:
			os.Symlink("/dev/null", p) // a character device, reached through a link
		}
		created = append(created, p)
	}
	bins := os.Getenv("ZZV_BIN")
	hooked := fault > 0 || crash > 0 || len(chunks) > 0 || name == "kill"
	if hooked {
		bins = os.Getenv("ZZV_HOOKBIN")
	}
	cmd := exec.Command(filepath.Join(bins, name), args...)
	cmd.Dir = dir
	cmd.Stdin = strings.NewReader(stdin)
	cmd.Env = append([]string{}, env...)
	killLog := filepath.Join(dir, ".killlog")
	if hooked {
		var cs []string
		for _, c := range chunks {
			cs = append(cs, strconv.Itoa(c))
		}
		cmd.Env = append(cmd.Env, "ZZV_CHUNKS="+strings.Join(cs, ","), "ZZV_FAULTOPS="+faultOps,
			"ZZV_FAULT="+strconv.Itoa(fault), "ZZV_CRASH="+strconv.Itoa(crash), "ZZV_PARTIAL="+strconv.Itoa(partial),
			"ZZV_ERRNO="+strconv.Itoa(errno),
			"ZZV_KILLLOG="+killLog)
		if killFail != 0 {
			cmd.Env = append(cmd.Env, "ZZV_KILLFAIL="+strconv.Itoa(killFail))
		}
	}
	if name == "kill" && os.Getuid() == 0 {
		// should a real signal escape the stand-in, it can reach nothing
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 64999, Gid: 64999}}
	}
	var o, er bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &er
	if e := cmd.Start(); e != nil {
		panic(e)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(runTimeout()):
		cmd.Process.Kill()
		<-done
		finish("HANG", "the command did not end")
	}
	st := cmd.ProcessState.Sys().(syscall.WaitStatus)
	if st.Signaled() {
		code = -int(st.Signal())
	} else {
		code = st.ExitStatus()
		if t := er.String(); code == 2 && strings.Contains(t, "\ngoroutine ") && (strings.Contains(t, "panic: ") || strings.Contains(t, "fatal error: ")) {
			code = 1002
		}
	}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() && p != killLog {
			b, _ := ioutil.ReadFile(p)
			r, _ := filepath.Rel(dir, p)
			onames = append(onames, r)
			odata = append(odata, string(b))
		}
		return nil
	})
	if b, e := ioutil.ReadFile(killLog); e == nil {
		for _, f := range strings.Fields(string(b)) {
			n, _ := strconv.Atoi(f)
			sigs = append(sigs, n)
		}
	}
	return o.String(), er.String(), code, onames, odata, sigs
}

func fileMode(m int) os.FileMode {
	f := os.FileMode(m & 0777)
	if m&04000 != 0 {
		f |= os.ModeSetuid
	}
	if m&02000 != 0 {
		f |= os.ModeSetgid
	}
	if m&01000 != 0 {
		f |= os.ModeSticky
	}
	return f
}

func runTimeout() time.Duration {
	if n, err := strconv.Atoi(os.Getenv("ZZV_TIMEOUT")); err == nil {
		return time.Duration(n) * time.Second
	}
	return 10 * time.Second
}

// ---- native plumbing ----

var (
	vals map[string]int64
	used = map[string]int{}
	obs  [][2]string
)

func input(name string, def int64) int64 {
	k := fmt.Sprintf("%s#%d", name, used[name])
	used[name]++
	if v, ok := vals[k]; ok {
		return v
	}
	return def
}

type report struct {
	Status string
	Msg    string
	Obs    [][2]string
}

// finish ends a native replay.
func finish(status, msg string) {
	b, _ := json.Marshal(report{status, msg, hexObs()})
	fmt.Fprintf(os.Stdout, "ZZV %s\n", b)
	os.Exit(0)
}

func hexObs() [][2]string {
	var out [][2]string
	for _, o := range obs {
		out = append(out, [2]string{o[0], fmt.Sprintf("%x", o[1])})
	}
	return out
}

// Replay runs a harness natively on the inputs of the replay file named by ZZV_REPLAY.
func Replay(fns map[string]func()) {
	b, err := ioutil.ReadFile(os.Getenv("ZZV_REPLAY"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var r struct {
		Harness string
		Inputs  map[string]int64
		Repeat  int
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	f := fns[r.Harness]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no harness", r.Harness)
		os.Exit(3)
	}
	if r.Repeat < 1 {
		r.Repeat = 1
	}
	go func() {
		time.Sleep(runTimeout() * 2)
		finish("HANG", "the execution did not end")
	}()
	defer func() {
		if e := recover(); e != nil {
			finish("PANIC", fmt.Sprint(e))
		}
	}()
	for i := 0; i < r.Repeat; i++ {
		vals = r.Inputs
		used = map[string]int{}
		obs = nil
		f()
	}
	finish("DONE", "")
}

// ---- derived (ordinary code, executed symbolically like the code under test) ----

// Choice is an arbitrary concrete number of [0,n).
func Choice(name string, n int) int { return Fix(Int(name, 0, n-1)) }

// Len is an arbitrary concrete number of [lo,hi].
func Len(name string, lo, hi int) int { return Fix(Int(name, lo, hi)) }

// String is n arbitrary bytes.
func String(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(name)
	}
	return string(b)
}

// StringIn is n arbitrary bytes of the alphabet.
func StringIn(name string, n int, alphabet string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = ByteIn(name, alphabet)
	}
	return string(b)
}

// AnyString is a string of 0..max arbitrary bytes of the alphabet.
func AnyString(name string, max int, alphabet string) string {
	return StringIn(name, Len(name+".len", 0, max), alphabet)
}

// Eq compares without forking.
func Eq(a, b string) bool { return a == b }

// File is a file of the scratch directory a command runs in.
type File struct {
	Name string
	Data string // content, or the target of a link
	Perm int    // permission bits, with 04000, 02000, 01000
	Kind int    // 0 regular 1 directory 2 link 3 fifo 4 socket 5 char device
}

// Cmd is one execution of a command of the repository.
type Cmd struct {
	Name  string
	Args  []string
	Stdin string
	Env   []string
	Files []File

	Chunks   int    // so many reads may return fewer bytes than asked
	ChunkMax int    // at least one, at most so many bytes
	FaultOps string // kinds of operations of which one may fail
	Faults   int    // the failing one is among the first so many
	Crashes  int    // the process may be killed at one of so many points
	Partial  int    // bytes of the interrupted write that reach the file: up to so many
	KillFail int    // bit i: the i-th signal cannot be sent, with bit 8 for want of permission
}

// Result is what the execution left.
type Result struct {
	Out, Err string
	Code     int
	Names    []string // regular files afterwards
	Data     []string
	Sigs     []int // pid, signal pairs requested
	Fault    int   // the operation that was chosen to fail (0: none)
	Crash    int
}

// Run executes a command.
func Run(c Cmd) Result {
	var fn, fd []string
	var fm []int
	for _, f := range c.Files {
		fn = append(fn, f.Name)
		fd = append(fd, f.Data)
		p := f.Perm
		if p == 0 {
			p = 0644
			if f.Kind == 1 {
				p = 0755
			}
		}
		fm = append(fm, p|f.Kind<<12)
	}
	var chunks []int
	for i := 0; i < c.Chunks; i++ {
		chunks = append(chunks, Int("chunk", 0, c.ChunkMax))
	}
	var r Result
	partial, errno := 0, 0
	if c.Faults > 0 {
		r.Fault = Int("fault", 0, c.Faults)
		errno = Int("errno", 0, 1) // EIO (ENOSPC for files written), or EACCES (EDQUOT)
	}
	if c.Crashes > 0 {
		r.Crash = Int("crash", 0, c.Crashes)
	}
	if c.Partial > 0 {
		partial = Int("partial", 0, c.Partial)
	}
	r.Out, r.Err, r.Code, r.Names, r.Data, r.Sigs = run(c.Name, c.Args, c.Stdin, c.Env, fn, fd, fm, chunks, c.FaultOps, r.Fault, r.Crash, partial, errno, Fix(c.KillFail))
	Assert(r.Code != 1002, "the command does not crash")
	Observe("code", Itoa(r.Code))
	Observe("out", r.Out)
	return r
}

// Itoa without package strconv.
func Itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	neg := n < 0
	if neg {
		n = -n
	}
	for ; n > 0; n /= 10 {
		s = string([]byte{byte('0' + n%10)}) + s
	}
	if neg {
		s = "-" + s
	}
	return s
}

// File gives the content of a file afterwards.
func (r Result) File(name string) (string, bool) {
	for i, n := range r.Names {
		if n == name {
			return r.Data[i], true
		}
	}
	return "", false
}

var _ = sort.Strings
