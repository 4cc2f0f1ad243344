package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

// Solver drives one incremental SMT solver process over SMT-LIB2.
type Solver struct {
	bin     string
	args    []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	defined map[uint32]bool
	ndef    int
	log     io.Writer

	Queries  int
	NSat     int
	NUnsat   int
	NUnknown int
	Time     time.Duration
	Restarts int
}

func NewSolver(bin string, args ...string) *Solver {
	return &Solver{bin: bin, args: args}
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, s.args...)
	inp, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	outp, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inPipe = inp
	s.in = bufio.NewWriterSize(inp, 1<<16)
	s.out = bufio.NewReaderSize(outp, 1<<16)
	s.defined = map[uint32]bool{}
	s.ndef = 0
	s.Restarts++
	fmt.Fprintln(s.in, "(set-option :print-success false)")
	fmt.Fprintln(s.in, "(set-option :global-declarations true)")
	fmt.Fprintln(s.in, "(set-option :produce-models true)")
	if strings.Contains(s.bin, "z3") {
		fmt.Fprintln(s.in, "(set-option :timeout 60000)")
	}
	fmt.Fprintln(s.in, "(set-logic QF_BV)")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func vname(t *Term) string { return "v" + strconv.Itoa(int(t.val)) }

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case opConst:
		if t.w == 0 {
			if t.val != 0 {
				return "true"
			}
			return "false"
		}
		return "(_ bv" + strconv.FormatUint(t.val, 10) + " " + strconv.Itoa(int(t.w)) + ")"
	case opVar:
		return vname(t)
	}
	return "t" + strconv.Itoa(int(t.id))
}

var opNames = map[Op]string{
	opNot: "not", opAnd: "and", opOr: "or", opEq: "=", opIte: "ite",
	opAdd: "bvadd", opSub: "bvsub", opMul: "bvmul", opUDiv: "bvudiv", opURem: "bvurem",
	opSDiv: "bvsdiv", opSRem: "bvsrem", opShl: "bvshl", opLShr: "bvlshr", opAShr: "bvashr",
	opBAnd: "bvand", opBOr: "bvor", opBXor: "bvxor", opBNot: "bvnot", opNeg: "bvneg",
	opULt: "bvult", opULe: "bvule", opSLt: "bvslt", opSLe: "bvsle", opConcat: "concat",
}

func (s *Solver) define(t *Term) {
	if t.op == opConst || s.defined[t.id] {
		return
	}
	if t.op == opVar {
		s.defined[t.id] = true
		s.ndef++
		fmt.Fprintf(s.in, "(declare-const %s %s)\n", vname(t), sortStr(t.w))
		if t.w > 0 {
			if t.lo > 0 {
				fmt.Fprintf(s.in, "(assert (bvuge %s (_ bv%d %d)))\n", vname(t), t.lo, t.w)
			}
			if t.hi < mask(t.w) {
				fmt.Fprintf(s.in, "(assert (bvule %s (_ bv%d %d)))\n", vname(t), t.hi, t.w)
			}
		}
		if t.dom != nil {
			s.in.WriteString("(assert (or")
			for v := uint64(0); v < 256; v++ {
				if inDom(t.dom, v) {
					e := v
					for e+1 < 256 && inDom(t.dom, e+1) {
						e++
					}
					fmt.Fprintf(s.in, " (and (bvuge %s (_ bv%d 8)) (bvule %s (_ bv%d 8)))", vname(t), v, vname(t), e)
					v = e
				}
			}
			s.in.WriteString(" false))\n")
		}
		return
	}
	// iterative post-order to keep the Go stack small on long chains
	type fr struct {
		t *Term
		k int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		var ch *Term
		switch f.k {
		case 0:
			ch = f.t.a
		case 1:
			ch = f.t.b
		case 2:
			ch = f.t.c
		}
		if f.k < 3 {
			f.k++
			if ch != nil && ch.op != opConst && !s.defined[ch.id] {
				if ch.op == opVar {
					s.define(ch)
				} else {
					st = append(st, fr{ch, 0})
				}
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if s.defined[x.id] {
			continue
		}
		s.defined[x.id] = true
		s.ndef++
		w := s.in
		w.WriteString("(define-fun t")
		w.WriteString(strconv.Itoa(int(x.id)))
		w.WriteString(" () ")
		w.WriteString(sortStr(x.w))
		w.WriteString(" (")
		switch x.op {
		case opZExt:
			fmt.Fprintf(w, "(_ zero_extend %d)", x.w-x.a.w)
		case opSExt:
			fmt.Fprintf(w, "(_ sign_extend %d)", x.w-x.a.w)
		case opExtract:
			fmt.Fprintf(w, "(_ extract %d %d)", x.val>>8, x.val&0xff)
		default:
			w.WriteString(opNames[x.op])
		}
		for _, a := range [...]*Term{x.a, x.b, x.c} {
			if a != nil {
				w.WriteByte(' ')
				w.WriteString(s.ref(a))
			}
		}
		w.WriteString("))\n")
	}
}

// Check decides the conjunction of cs; with Sat and wantModel the values of vars are returned.
func (s *Solver) Check(cs []*Term, vars []*Term, wantModel bool) (SatResult, []uint64) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	if s.cmd == nil || s.ndef > 150000 {
		s.Close()
		s.start()
	}
	for _, c := range cs {
		s.define(c)
	}
	s.in.WriteString("(push 1)\n")
	for _, c := range cs {
		s.in.WriteString("(assert ")
		s.in.WriteString(s.ref(c))
		s.in.WriteString(")\n")
	}
	s.in.WriteString("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		s.NUnknown++
		s.Close()
		return Unknown, nil
	}
	line, err := "", error(nil)
	for line == "" {
		line, err = s.out.ReadString('\n')
		if err != nil {
			s.NUnknown++
			s.Close()
			return Unknown, nil
		}
		line = strings.TrimSpace(line)
	}
	var r SatResult
	switch line {
	case "sat":
		r = Sat
		s.NSat++
	case "unsat":
		r = Unsat
		s.NUnsat++
	default:
		fmt.Fprintf(os.Stderr, "solver: %s\n", line)
		r = Unknown
		s.NUnknown++
		s.Close()
		return r, nil
	}
	var vals []uint64
	if r == Sat && wantModel && len(vars) > 0 {
		s.in.WriteString("(get-value (")
		for _, v := range vars {
			s.in.WriteString(vname(v))
			s.in.WriteByte(' ')
		}
		s.in.WriteString("))\n")
		s.in.Flush()
		vals, err = s.readValues(vars)
		if err != nil {
			fmt.Fprintf(os.Stderr, "solver model: %v\n", err)
			s.Close()
			return Unknown, nil
		}
	}
	s.in.WriteString("(pop 1)\n")
	return r, vals
}

func (s *Solver) readSexp() (string, error) {
	depth := 0
	var sb strings.Builder
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		if depth == 0 && (b == '\n' || b == ' ' || b == '\r') {
			continue
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
		} else if b == ')' {
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

func (s *Solver) readValues(vars []*Term) ([]uint64, error) {
	x, err := s.readSexp()
	if err != nil {
		return nil, err
	}
	if strings.HasPrefix(x, "(error") {
		return nil, fmt.Errorf("%s", x)
	}
	m := map[string]uint64{}
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(x))
	for i := 0; i+1 < len(toks); i++ {
		if toks[i] == "(" && strings.HasPrefix(toks[i+1], "v") && i+2 < len(toks) {
			name := toks[i+1]
			v := toks[i+2]
			switch {
			case v == "true":
				m[name] = 1
			case v == "false":
				m[name] = 0
			case strings.HasPrefix(v, "#x"):
				n, err := strconv.ParseUint(v[2:], 16, 64)
				if err != nil {
					return nil, err
				}
				m[name] = n
			case strings.HasPrefix(v, "#b"):
				n, err := strconv.ParseUint(v[2:], 2, 64)
				if err != nil {
					return nil, err
				}
				m[name] = n
			case v == "(" && i+4 < len(toks) && toks[i+3] == "_":
				n, err := strconv.ParseUint(strings.TrimPrefix(toks[i+4], "bv"), 10, 64)
				if err != nil {
					return nil, err
				}
				m[name] = n
			default:
				return nil, fmt.Errorf("bad value %q", v)
			}
		}
	}
	out := make([]uint64, len(vars))
	for i, v := range vars {
		n, ok := m[vname(v)]
		if !ok {
			return nil, fmt.Errorf("no value for %s in %s", vname(v), x)
		}
		out[i] = n
	}
	return out, nil
}

func sortTerms(cs []*Term) {
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
}
