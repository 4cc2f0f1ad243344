package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// native builds the harness and the commands with the Go compiler and runs them.
type native struct {
	c    *config
	hs   []*ssa.Function
	once sync.Once
	err  error
	bin  string
	n    int
	mu   sync.Mutex
}

type replayFile struct {
	Property string
	Harness  string
	Inputs   map[string]int64
	Repeat   int
	Msg      string
	Tier     string
}

func (n *native) build() error {
	n.once.Do(func() { n.err = n.doBuild() })
	return n.err
}

func (n *native) harnessNames() []string {
	var names []string
	for _, h := range n.hs {
		names = append(names, h.Name())
	}
	sort.Strings(names)
	return names
}

func (n *native) doBuild() error {
	c := n.c
	overlay, modfile, err := c.prepare()
	if err != nil {
		return err
	}
	lc := strings.ToLower(c.prop)
	var sb strings.Builder
	fmt.Fprintf(&sb, "package main\n\nimport (\n\th %q\n\t%q\n)\n\nfunc main() {\n\tzzv.Replay(map[string]func(){\n", modPath+"/zzvh/"+lc, zzvPkg)
	for _, h := range n.harnessNames() {
		fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", h, h)
	}
	sb.WriteString("\t})\n}\n")
	mainFile := filepath.Join(c.scratch, "replaymain.go")
	if err := os.WriteFile(mainFile, []byte(sb.String()), 0644); err != nil {
		return err
	}
	overlay[filepath.Join(c.repo, "zzvh", lc, "replaymain", "main.go")] = mainFile
	write := func(name string, m map[string]string) (string, error) {
		b, _ := json.Marshal(map[string]interface{}{"Replace": m})
		f := filepath.Join(c.scratch, name)
		return f, os.WriteFile(f, b, 0644)
	}
	ovf, err := write("overlay.json", overlay)
	if err != nil {
		return err
	}
	gobuild := func(out string, args ...string) error {
		a := append([]string{"build", "-trimpath=false", "-modfile=" + modfile}, args...)
		a = append(a[:1], append([]string{"-o", out}, a[1:]...)...)
		cmd := exec.Command("go", a...)
		cmd.Dir = c.repo
		cmd.Env = goEnv()
		if b, err := cmd.CombinedOutput(); err != nil {
			return fmt.Errorf("go %s: %v\n%s", strings.Join(a, " "), err, b)
		}
		return nil
	}
	n.bin = filepath.Join(c.scratch, "replay")
	if err := gobuild(n.bin, "-overlay="+ovf, "./zzvh/"+lc+"/replaymain"); err != nil {
		return err
	}
	cmds := map[string]bool{}
	hook := false
	for k, v := range overlay {
		if !strings.Contains(k, "/zzvh/") {
			continue
		}
		b, _ := os.ReadFile(v)
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "//zzv:cmd ") {
				for _, x := range strings.Fields(l)[1:] {
					cmds[x] = true
				}
			}
			if strings.HasPrefix(l, "//zzv:hooks") {
				hook = true
			}
		}
	}
	os.MkdirAll(filepath.Join(c.scratch, "bin"), 0755)
	os.MkdirAll(filepath.Join(c.scratch, "hookbin"), 0755)
	os.Chmod(c.scratch, 0755)
	var hov string
	if hook {
		m, err := hookOverlay(c)
		if err != nil {
			return err
		}
		if hov, err = write("hooks.json", m); err != nil {
			return err
		}
	}
	for x := range cmds {
		if err := gobuild(filepath.Join(c.scratch, "bin", x), "./cmd/"+x); err != nil {
			return err
		}
		if hook {
			if err := gobuild(filepath.Join(c.scratch, "hookbin", x), "-overlay="+hov, "./cmd/"+x); err != nil {
				return err
			}
		}
	}
	return nil
}

type nativeReport struct {
	Status string
	Msg    string
	Obs    [][2]string
}

func (n *native) run(rf *replayFile, timeout int) (*nativeReport, error) {
	if err := n.build(); err != nil {
		return nil, err
	}
	n.mu.Lock()
	n.n++
	id := n.n
	n.mu.Unlock()
	f := filepath.Join(n.c.scratch, fmt.Sprintf("in%d.json", id))
	b, _ := json.Marshal(rf)
	if err := os.WriteFile(f, b, 0644); err != nil {
		return nil, err
	}
	defer os.Remove(f)
	cmd := exec.Command("prlimit", "--as=6000000000", "--fsize=200000000", "--core=0", n.bin)
	cmd.Dir = n.c.scratch
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "TMPDIR=" + n.c.scratch,
		"ZZV_REPLAY=" + f, "ZZV_BIN=" + filepath.Join(n.c.scratch, "bin"), "ZZV_HOOKBIN=" + filepath.Join(n.c.scratch, "hookbin"),
		"ZZV_TIER=" + n.c.tier, fmt.Sprintf("ZZV_TIMEOUT=%d", timeout)}
	var out, er bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &er
	t := time.AfterFunc(time.Duration(timeout*3+30)*time.Second, func() {
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	})
	err := cmd.Run()
	t.Stop()
	for _, l := range strings.Split(out.String(), "\n") {
		if i := strings.Index(l, "ZZV {"); i >= 0 {
			var r nativeReport
			if json.Unmarshal([]byte(l[i+4:]), &r) == nil {
				return &r, nil
			}
		}
	}
	// the harness process itself died: a panic in a goroutine, a runtime fatal error, memory
	e := strings.TrimSpace(er.String())
	if strings.Contains(e, "panic:") || strings.Contains(e, "fatal error:") {
		line := e
		for _, l := range strings.Split(e, "\n") {
			if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
				line = l
				break
			}
		}
		return &nativeReport{Status: "PANIC", Msg: line}, nil
	}
	if len(e) > 300 {
		e = e[:300]
	}
	return nil, fmt.Errorf("replay ended without a report: %v %s", err, e)
}

func bad(r *nativeReport) bool {
	return r.Status == "VIOLATION" || r.Status == "PANIC" || r.Status == "HANG"
}

// confirm replays a counterexample against the real code.
func (n *native) confirm(rec *pathRec) (*violation, string) {
	rf := &replayFile{Property: n.c.prop, Harness: rec.harness, Inputs: rec.inputs, Msg: rec.msg, Tier: n.c.tier}
	if rec.anyEnv {
		rf.Repeat = 300
	}
	r, err := n.run(rf, 10)
	if err != nil {
		return nil, err.Error()
	}
	if !bad(r) {
		return nil, "real run: " + r.Status + " " + r.Msg
	}
	if r.Status == "HANG" {
		// once more with longer patience: a loaded machine is not a hang
		if r, err = n.run(rf, 25); err != nil {
			return nil, err.Error()
		}
		if !bad(r) {
			return nil, "slow, but ends"
		}
	}
	return n.save(rf, rec, r), ""
}

func (n *native) save(rf *replayFile, rec *pathRec, r *nativeReport) *violation {
	rf.Msg = r.Status + ": " + r.Msg
	b, _ := json.MarshalIndent(rf, "", " ")
	d := filepath.Join(n.c.verif, "replays")
	os.MkdirAll(d, 0755)
	f := filepath.Join(d, fmt.Sprintf("%s-%x.json", n.c.prop, sha256.Sum256(b))[:len(n.c.prop)+10]+".json")
	os.WriteFile(f, append(b, '\n'), 0644)
	return &violation{rec.harness, rf.Msg, f}
}

// validate runs sampled paths for real and compares what was observed.
func (n *native) validate(samples, doubtful []*pathRec) (int, []string, []*violation) {
	if err := n.build(); err != nil {
		return 0, []string{err.Error()}, nil
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	ok := 0
	var mism []string
	var viols []*violation
	one := func(rec *pathRec, doubt bool) {
		defer wg.Done()
		sem <- struct{}{}
		defer func() { <-sem }()
		rf := &replayFile{Property: n.c.prop, Harness: rec.harness, Inputs: rec.inputs, Tier: n.c.tier}
		r, err := n.run(rf, 20)
		mu.Lock()
		defer mu.Unlock()
		if err != nil {
			mism = append(mism, rec.harness+": "+err.Error())
			return
		}
		if bad(r) {
			if r.Status == "HANG" {
				mu.Unlock()
				r2, err := n.run(rf, 40)
				mu.Lock()
				if err != nil || !bad(r2) {
					return
				}
				r = r2
			}
			viols = append(viols, n.save(rf, rec, r))
			return
		}
		if doubt {
			return
		}
		if r.Status != "DONE" {
			mism = append(mism, fmt.Sprintf("%s: engine done, real run %s %s", rec.harness, r.Status, r.Msg))
			return
		}
		if !rec.anyEnv && !rec.noObs {
			if len(r.Obs) != len(rec.obs) {
				mism = append(mism, fmt.Sprintf("%s: %d observations, real run %d", rec.harness, len(rec.obs), len(r.Obs)))
				return
			}
			for i := range r.Obs {
				if r.Obs[i] != rec.obs[i] {
					mism = append(mism, fmt.Sprintf("%s: %s engine %s real %s inputs %v", rec.harness, r.Obs[i][0], rec.obs[i][1], r.Obs[i][1], rec.show()))
					return
				}
			}
		}
		ok++
	}
	for _, r := range samples {
		wg.Add(1)
		go one(r, false)
	}
	for _, r := range doubtful {
		wg.Add(1)
		go one(r, true)
	}
	wg.Wait()
	if len(viols) > 1 {
		viols = viols[:1]
	}
	return ok, mism, viols
}

func replayOne(c *config, f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fatal(err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatal(err)
	}
	c.prop = rf.Property
	c.tier = rf.Tier
	_, _, hs, err := load(c)
	if err != nil {
		fatal(err)
	}
	n := &native{c: c, hs: hs}
	r, err := n.run(&rf, 20)
	if err != nil {
		fatal(err)
	}
	fmt.Printf("%s %s\n", r.Status, r.Msg)
	for _, o := range r.Obs {
		fmt.Printf("  %s = %s\n", o[0], o[1])
	}
	if bad(r) {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, f)
		return 1
	}
	return 0
}

// hookOverlay rewrites a few functions of packages os and syscall so that a replay meets the
// faults, crash points, short reads and recorded signals of the model.
func hookOverlay(c *config) (map[string]string, error) {
	cmd := exec.Command("go", "env", "GOROOT")
	cmd.Dir = c.repo
	cmd.Env = goEnv()
	b, err := cmd.Output()
	if err != nil {
		return nil, err
	}
	src := filepath.Join(strings.TrimSpace(string(b)), "src")
	d := filepath.Join(c.scratch, "hooksrc")
	os.MkdirAll(d, 0755)
	m := map[string]string{}
	n := 0
	patch := func(file string, reps ...string) error {
		b, err := os.ReadFile(filepath.Join(src, file))
		if err != nil {
			return err
		}
		s := string(b)
		for i := 0; i < len(reps); i += 2 {
			if strings.Count(s, reps[i]) != 1 {
				return fmt.Errorf("%s: no %q", file, reps[i])
			}
			s = strings.Replace(s, reps[i], reps[i+1], 1)
		}
		n++
		f := filepath.Join(d, fmt.Sprintf("f%d.go", n))
		m[filepath.Join(src, file)] = f
		return os.WriteFile(f, []byte(s), 0644)
	}
	add := func(file, from string) error {
		b, err := os.ReadFile(filepath.Join(c.verif, "hooks", from))
		if err != nil {
			return err
		}
		n++
		f := filepath.Join(d, fmt.Sprintf("f%d.go", n))
		m[filepath.Join(src, file)] = f
		return os.WriteFile(f, b, 0644)
	}
	for _, e := range []error{
		patch("os/file.go", "func (f *File) Read(b", "func (f *File) zzvRead(b", "func (f *File) ReadAt(b", "func (f *File) zzvReadAt(b",
			"func (f *File) Write(b", "func (f *File) zzvWrite(b", "func OpenFile(", "func zzvOpenFile(", "func Rename(", "func zzvRename("),
		patch("os/file_posix.go", "func (f *File) Close(", "func (f *File) zzvClose(", "func (f *File) Truncate(", "func (f *File) zzvTruncate("),
		patch("os/file_unix.go", "func Remove(", "func zzvRemove("),
		patch("os/stat.go", "func Stat(", "func zzvStat(", "func Lstat(", "func zzvLstat("),
		patch("os/zero_copy_linux.go", "func (f *File) writeTo(", "func (f *File) zzvWriteTo(", "func (f *File) readFrom(", "func (f *File) zzvReadFrom("),
		patch("os/exec.go", "func FindProcess(", "func zzvFindProcess(", "func (p *Process) Signal(", "func (p *Process) zzvSignal("),
		patch("syscall/zsyscall_linux_amd64.go", "func Kill(", "func zzvRealKill("),
		add("os/zzv_hook.go", "os_hook.go.txt"),
		add("syscall/zzv_hook.go", "syscall_hook.go.txt"),
	} {
		if e != nil {
			return nil, e
		}
	}
	return m, nil
}
