package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one z3 process over a pipe.
type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	tt      *Terms
	gen     uint32
	defs    int
	stack   []*Term        // asserted constraints, one push level each
	timeout int            // ms
	sides   map[divKey]int // asserted quotient/remainder definitions -> push level
	divMemo map[*Term][]*Term
	qrDone  map[divKey]bool
	ints    bool // QF_LIA
	varMemo map[*Term][]*Term
	bounds  map[*Term]int

	Queries  int
	Sat      int
	Unsat    int
	Unknown  int
	Time     time.Duration
	Restarts int
	log      *os.File
}

// x/c and x%c with constant c are encoded as fresh q, r with x = q*c + r, r < c, q <= max/c, r <= x (no wrap-around).
type divKey struct {
	x *Term
	c uint64
}

func (s *Solver) divs(t *Term) []*Term {
	if t == nil || !t.div {
		return nil
	}
	if l, ok := s.divMemo[t]; ok {
		return l
	}
	var l []*Term
	seen := map[*Term]bool{}
	add := func(x *Term) {
		if !seen[x] {
			seen[x] = true
			l = append(l, x)
		}
	}
	for _, c := range []*Term{t.a, t.b, t.c} {
		for _, x := range s.divs(c) {
			add(x)
		}
	}
	if isDivC(t) {
		add(t)
	}
	s.divMemo[t] = l
	return l
}

func (s *Solver) qr(t *Term) (q, r string) {
	k := fmt.Sprintf("%d_%d", t.a.id, t.b.k)
	return "q" + k, "r" + k
}

// assertSides asserts the definitions of the quotients and remainders t uses, at the current level.
func (s *Solver) assertSides(t *Term, level int) {
	if s.ints {
		s.assertBounds(t, level)
		return
	}
	if !t.div {
		return
	}
	for _, d := range s.divs(t) {
		k := divKey{d.a, d.b.k}
		if _, ok := s.sides[k]; ok {
			continue
		}
		s.sides[k] = level
		q, r := s.qr(d)
		c := s.ref(d.b)
		fmt.Fprintf(s, "(assert (and (= %s (bvadd (bvmul %s %s) %s)) (bvult %s %s) (bvule %s (_ bv%d %d)) (bvule %s %s)))\n",
			s.ref(d.a), q, c, r, r, c, q, mask(d.w)/d.b.k, d.w, r, s.ref(d.a))
	}
}

func (s *Solver) Write(b []byte) (int, error) { s.write(string(b)); return len(b), nil }

func NewSolver(tt *Terms, bin string, timeoutMs int) *Solver {
	s := &Solver{tt: tt, bin: bin, timeout: timeoutMs, varMemo: map[*Term][]*Term{}}
	if d := os.Getenv("GOSYMX_SMTLOG"); d != "" {
		s.log, _ = os.CreateTemp(d, "smt-*.smt2")
	}
	return s
}

func (s *Solver) start() {
	s.gen++
	s.defs = 0
	s.stack = nil
	s.sides = map[divKey]int{}
	s.divMemo = map[*Term][]*Term{}
	s.qrDone = map[divKey]bool{}
	s.bounds = map[*Term]int{}
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(engineErr("solver: " + err.Error()))
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(engineErr("solver: " + err.Error()))
	}
	if err := s.cmd.Start(); err != nil {
		panic(engineErr("solver: " + err.Error()))
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.write("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	logic := "QF_BV"
	if s.ints {
		logic = "QF_LIA"
	}
	s.write(fmt.Sprintf("(set-option :timeout %d)\n(set-logic %s)\n", s.timeout, logic))
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) write(x string) {
	s.in.WriteString(x)
	if s.log != nil {
		s.log.WriteString(x)
	}
}

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k != 0 {
				return "true"
			}
			return "false"
		}
		if s.ints {
			if int64(t.k) < 0 {
				return "(- " + strconv.FormatUint(-t.k, 10) + ")"
			}
			return strconv.FormatUint(t.k, 10)
		}
		return "(_ bv" + strconv.FormatUint(t.k, 10) + " " + strconv.Itoa(int(t.w)) + ")"
	case OVar:
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(int(t.id))
}

func (s *Solver) define(t *Term) {
	if s.ints {
		s.defineInt(t)
		return
	}
	if t == nil || t.op == OConst || t.emitted == s.gen {
		return
	}
	t.emitted = s.gen
	if t.op == OVar {
		s.write("(declare-const |" + t.name + "| " + sortStr(t.w) + ")\n")
		s.defs++
		return
	}
	s.define(t.a)
	s.define(t.b)
	s.define(t.c)
	s.defs++
	if isDivC(t) {
		q, r := s.qr(t)
		k := divKey{t.a, t.b.k}
		if !s.qrDone[k] {
			s.qrDone[k] = true
			s.write("(declare-const " + q + " " + sortStr(t.w) + ")\n(declare-const " + r + " " + sortStr(t.w) + ")\n")
		}
		if t.op == OURem {
			q = r
		}
		s.write("(define-fun t" + strconv.Itoa(int(t.id)) + " () " + sortStr(t.w) + " " + q + ")\n")
		return
	}
	var b strings.Builder
	b.WriteString("(define-fun t")
	b.WriteString(strconv.Itoa(int(t.id)))
	b.WriteString(" () ")
	b.WriteString(sortStr(t.w))
	b.WriteString(" (")
	switch t.op {
	case OExtract:
		fmt.Fprintf(&b, "(_ extract %d %d)", t.k>>8, uint8(t.k))
	case OZext:
		fmt.Fprintf(&b, "(_ zero_extend %d)", t.w-t.a.w)
	case OSext:
		fmt.Fprintf(&b, "(_ sign_extend %d)", t.w-t.a.w)
	default:
		b.WriteString(smtOp[t.op])
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			b.WriteString(" ")
			b.WriteString(s.ref(x))
		}
	}
	b.WriteString("))\n")
	s.write(b.String())
}

type satRes int

const (
	resSat satRes = iota
	resUnsat
	resUnknown
)

func (s *Solver) sync(pc []*Term) {
	if s.cmd == nil {
		s.start()
	}
	if s.defs > 150000 {
		s.Close()
		s.Restarts++
		s.start()
	}
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		s.write("(pop " + strconv.Itoa(d) + ")\n")
		s.stack = s.stack[:n]
		for k, l := range s.sides {
			if l >= n {
				delete(s.sides, k)
			}
		}
		for k, l := range s.bounds {
			if l >= n {
				delete(s.bounds, k)
			}
		}
	}
	for ; n < len(pc); n++ {
		s.define(pc[n])
		s.write("(push 1)\n(assert " + s.ref(pc[n]) + ")\n")
		s.assertSides(pc[n], n)
		s.stack = append(s.stack, pc[n])
	}
}

// Check decides pc ∧ extra; on sat returns values of vars.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (satRes, map[string]uint64) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.sync(pc)
	s.Queries++
	s.define(extra)
	for _, v := range vars {
		s.define(v)
	}
	s.write("(push 1)\n(assert " + s.ref(extra) + ")\n")
	s.assertSides(extra, len(s.stack))
	s.write("(check-sat)\n")
	s.in.Flush()
	line := s.readLine()
	var res satRes
	var m map[string]uint64
	switch line {
	case "sat":
		res = resSat
		s.Sat++
		m = s.getModel(vars)
	case "unsat":
		res = resUnsat
		s.Unsat++
	case "unknown", "timeout":
		res = resUnknown
		s.Unknown++
	default:
		panic(engineErr("solver said: " + line))
	}
	s.write("(pop 1)\n")
	for k, l := range s.sides {
		if l >= len(s.stack) {
			delete(s.sides, k)
		}
	}
	for k, l := range s.bounds {
		if l >= len(s.stack) {
			delete(s.bounds, k)
		}
	}
	return res, m
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic(engineErr("solver died: " + err.Error()))
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

func (s *Solver) getModel(vars []*Term) map[string]uint64 {
	m := map[string]uint64{}
	if len(vars) == 0 {
		return m
	}
	var b strings.Builder
	b.WriteString("(get-value (")
	for _, v := range vars {
		b.WriteString(s.ref(v))
		b.WriteString(" ")
	}
	b.WriteString("))\n")
	s.write(b.String())
	s.in.Flush()
	// read a balanced s-expression
	depth := 0
	var sb strings.Builder
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			panic(engineErr("solver died: " + err.Error()))
		}
		if c == '|' {
			inBar = !inBar
		}
		if !inBar {
			if c == '(' {
				depth++
			} else if c == ')' {
				depth--
			}
		}
		sb.WriteByte(c)
		if depth == 0 && c == ')' {
			break
		}
	}
	txt := sb.String()
	if strings.Contains(txt, "error") && strings.HasPrefix(txt, "(error") {
		panic(engineErr("solver: " + txt))
	}
	// parse pairs in order
	i := 1
	for _, v := range vars {
		for i < len(txt) && txt[i] != '(' {
			i++
		}
		i++
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|')
			i = i + 1 + j + 1
		} else {
			for txt[i] != ' ' && txt[i] != '\n' {
				i++
			}
		}
		for txt[i] == ' ' || txt[i] == '\n' {
			i++
		}
		j := i
		for txt[j] != ')' {
			j++
		}
		val := strings.TrimSpace(txt[i:j])
		i = j + 1
		var x uint64
		var err error
		switch {
		case val == "true":
			x = 1
		case val == "false":
			x = 0
		case s.ints && val[0] != '#' && val[0] != '(':
			x, err = strconv.ParseUint(val, 10, 64)
		case strings.HasPrefix(val, "#x"):
			x, err = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			x, err = strconv.ParseUint(val[2:], 2, 64)
		case strings.HasPrefix(val, "(_ bv"):
			f := strings.Fields(val[5:])
			x, err = strconv.ParseUint(f[0], 10, 64)
		default:
			err = fmt.Errorf("bad value %q", val)
		}
		if err != nil {
			panic(engineErr("solver model: " + err.Error() + " in " + txt))
		}
		m[v.name] = x
	}
	return m
}

type engineErr string

func (e engineErr) Error() string { return string(e) }
