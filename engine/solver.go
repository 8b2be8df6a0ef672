package main

// SMT back end: every feasibility / assertion query is printed as a
// self-contained SMT-LIB2 script (QF_BV) and decided by an SMT solver process.

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Sat int

const (
	Unsat Sat = iota
	IsSat
	Unknown
)

type cacheEnt struct {
	res  Sat
	vals []uint64
}

type SolverStats struct {
	queries   atomic.Int64 // queries asked (incl. cache hits)
	solved    atomic.Int64 // sent to the solver
	sat       atomic.Int64
	unsat     atomic.Int64
	unknown   atomic.Int64
	nanos     atomic.Int64
	cross     atomic.Int64 // cross-checked with the second solver
	disagree  atomic.Int64
	assertQ   atomic.Int64
	assertUns atomic.Int64
}

var stats SolverStats

const nshard = 64

type qcache struct {
	mu [nshard]sync.Mutex
	m  [nshard]map[[16]byte]cacheEnt
}

func newQcache() *qcache {
	q := &qcache{}
	for i := range q.m {
		q.m[i] = map[[16]byte]cacheEnt{}
	}
	return q
}

var theCache = newQcache()

func (q *qcache) get(k [16]byte) (cacheEnt, bool) {
	s := k[0] % nshard
	q.mu[s].Lock()
	e, ok := q.m[s][k]
	q.mu[s].Unlock()
	return e, ok
}
func (q *qcache) put(k [16]byte, e cacheEnt) {
	s := k[0] % nshard
	q.mu[s].Lock()
	if len(q.m[s]) > 40000 {
		q.m[s] = map[[16]byte]cacheEnt{}
	}
	q.m[s][k] = e
	q.mu[s].Unlock()
}

type proc struct {
	cmd   *exec.Cmd
	in    *bufio.Writer
	out   *bufio.Reader
	inc   io.Closer
	count int
}

type Solver struct {
	t     *Terms
	bin   []string
	p     *proc
	p2    *proc
	cross int // cross-check every n-th solved query with cvc5 (0 = never)
	n     int
	tmoMs int

	deadline time.Time // no query may run longer than this
	where    func() string
}

var slowLog = os.Getenv("SYMGO_SLOW")

func startProc(args []string) (*proc, error) {
	c := exec.Command(args[0], args[1:]...)
	w, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	r, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := c.Start(); err != nil {
		return nil, err
	}
	return &proc{cmd: c, in: bufio.NewWriterSize(w, 1<<16), out: bufio.NewReaderSize(r, 1<<16), inc: w}, nil
}

func (p *proc) kill() {
	if p == nil {
		return
	}
	p.inc.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

func newSolver(t *Terms) *Solver {
	return &Solver{t: t, bin: []string{"z3", "-in", "-smt2"}, tmoMs: 20000}
}

func (s *Solver) close() {
	s.p.kill()
	s.p2.kill()
	s.p, s.p2 = nil, nil
}

// printer renders a set of constraints canonically.
type printer struct {
	sb    strings.Builder
	ids   map[*Term]string
	vars  []int32
	vid   map[int32]int
	n     int
	t     *Terms
	decls strings.Builder
}

func constStr(v uint64, w uint8) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	return "(_ bv" + strconv.FormatUint(v, 10) + " " + strconv.Itoa(int(w)) + ")"
}

func (p *printer) ref(x *Term) string {
	if x.op == OConst {
		return constStr(x.k, x.w)
	}
	if s, ok := p.ids[x]; ok {
		return s
	}
	if x.op == OVar {
		i := len(p.vars)
		p.vars = append(p.vars, int32(x.k))
		s := "v" + strconv.Itoa(i)
		p.ids[x] = s
		sort := "Bool"
		if x.w > 0 {
			sort = "(_ BitVec " + strconv.Itoa(int(x.w)) + ")"
		}
		p.decls.WriteString("(declare-const " + s + " " + sort + ")\n")
		return s
	}
	a := p.ref(x.a)
	var b, c string
	if x.b != nil {
		b = p.ref(x.b)
	}
	if x.c != nil {
		c = p.ref(x.c)
	}
	var e string
	switch x.op {
	case OZext:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", x.w-x.a.w, a)
	case OSext:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", x.w-x.a.w, a)
	case OExtract:
		e = fmt.Sprintf("((_ extract %d 0) %s)", x.w-1, a)
	default:
		e = "(" + opName[x.op] + " " + a
		if b != "" {
			e += " " + b
		}
		if c != "" {
			e += " " + c
		}
		e += ")"
	}
	if len(e) < 60 {
		p.ids[x] = e
		return e
	}
	s := "t" + strconv.Itoa(p.n)
	p.n++
	sort := "Bool"
	if x.w > 0 {
		sort = "(_ BitVec " + strconv.Itoa(int(x.w)) + ")"
	}
	p.decls.WriteString("(define-fun " + s + " () " + sort + " " + e + ")\n")
	p.ids[x] = s
	return s
}

// Check decides the conjunction of cs. On sat, returns (vars, values).
func (s *Solver) Check(cs []*Term) (Sat, []int32, []uint64) {
	stats.queries.Add(1)
	p := &printer{ids: map[*Term]string{}, t: s.t}
	var asserts strings.Builder
	for _, c := range cs {
		asserts.WriteString("(assert " + p.ref(c) + ")\n")
	}
	text := p.decls.String() + asserts.String()
	h := sha256.Sum256([]byte(text))
	var key [16]byte
	copy(key[:], h[:16])
	if e, ok := theCache.get(key); ok {
		return e.res, p.vars, e.vals
	}
	t0 := time.Now()
	ms := 20000
	if !s.deadline.IsZero() {
		ms = max(min(ms, int(time.Until(s.deadline).Milliseconds())), 1)
	}
	s.tmoMs = ms
	res, vals := s.ask(text, len(p.vars))
	if slowLog != "" && time.Since(t0) > 2*time.Second {
		fmt.Printf("SLOW %v %d bytes %v %s\n", res, len(text), time.Since(t0), s.where())
		os.WriteFile(fmt.Sprintf("%s.%d.smt2", slowLog, s.n), []byte(text+"(check-sat)\n"), 0o644)
	}
	if res == Unknown && (s.deadline.IsZero() || time.Now().Before(s.deadline)) {
		res, vals = s.fresh(text, len(p.vars))
	}
	stats.nanos.Add(int64(time.Since(t0)))
	stats.solved.Add(1)
	s.n++
	if s.cross > 0 && s.n%s.cross == 0 && res != Unknown {
		r2 := s.askCVC5(text)
		if r2 != Unknown {
			stats.cross.Add(1)
			if r2 != res {
				stats.disagree.Add(1)
				res = Unknown
			}
		}
	}
	switch res {
	case IsSat:
		stats.sat.Add(1)
	case Unsat:
		stats.unsat.Add(1)
	default:
		stats.unknown.Add(1)
	}
	theCache.put(key, cacheEnt{res, vals})
	return res, p.vars, vals
}

func (s *Solver) ask(text string, nv int) (Sat, []uint64) {
	if s.p != nil && s.p.count > 20000 {
		s.p.kill()
		s.p = nil
	}
	if s.p == nil {
		p, err := startProc(s.bin)
		if err != nil {
			panic(engineErr("cannot start solver: " + err.Error()))
		}
		s.p = p
		fmt.Fprint(p.in, "(set-option :produce-models true)\n")
	}
	fmt.Fprintf(s.p.in, "(set-option :timeout %d)\n", s.tmoMs)
	s.p.count++
	r, v, err := s.dialog(s.p, text, nv)
	if err != nil {
		s.p.kill()
		s.p = nil
		return Unknown, nil
	}
	return r, v
}

func (s *Solver) dialog(p *proc, text string, nv int) (Sat, []uint64, error) {
	p.in.WriteString("(push 1)\n")
	p.in.WriteString(text)
	p.in.WriteString("(check-sat)\n")
	if err := p.in.Flush(); err != nil {
		return Unknown, nil, err
	}
	line, err := p.out.ReadString('\n')
	if err != nil {
		return Unknown, nil, err
	}
	line = strings.TrimSpace(line)
	var res Sat
	var vals []uint64
	switch line {
	case "sat":
		res = IsSat
		vals = make([]uint64, nv)
		if nv > 0 {
			p.in.WriteString("(get-value (")
			for i := 0; i < nv; i++ {
				p.in.WriteString(" v" + strconv.Itoa(i))
			}
			p.in.WriteString("))\n")
			p.in.Flush()
			depth := 0
			var sb strings.Builder
			for {
				b, err := p.out.ReadByte()
				if err != nil {
					return Unknown, nil, err
				}
				sb.WriteByte(b)
				if b == '(' {
					depth++
				} else if b == ')' {
					depth--
					if depth == 0 {
						break
					}
				}
			}
			p.out.ReadString('\n')
			if !parseValues(sb.String(), vals) {
				return Unknown, nil, fmt.Errorf("bad model %q", sb.String())
			}
		}
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
		res = Unknown
	default:
		return Unknown, nil, fmt.Errorf("solver said %q", line)
	}
	p.in.WriteString("(pop 1)\n")
	return res, vals, nil
}

func parseValues(s string, vals []uint64) bool {
	// ((v0 #x0a) (v1 true) ...)
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(s))
	n := 0
	for i := 0; i < len(toks); i++ {
		t := toks[i]
		if len(t) > 1 && t[0] == 'v' && t[1] >= '0' && t[1] <= '9' {
			idx, err := strconv.Atoi(t[1:])
			if err != nil || idx >= len(vals) || i+1 >= len(toks) {
				return false
			}
			v := toks[i+1]
			switch {
			case strings.HasPrefix(v, "#x"):
				u, err := strconv.ParseUint(v[2:], 16, 64)
				if err != nil {
					return false
				}
				vals[idx] = u
			case strings.HasPrefix(v, "#b"):
				u, err := strconv.ParseUint(v[2:], 2, 64)
				if err != nil {
					return false
				}
				vals[idx] = u
			case v == "true":
				vals[idx] = 1
			case v == "false":
				vals[idx] = 0
			default:
				return false
			}
			n++
			i++
		}
	}
	return n == len(vals)
}

// fresh re-asks an unknown query in a fresh process (newer z3, full QF_BV tactic).
func (s *Solver) fresh(text string, nv int) (Sat, []uint64) {
	p, err := startProc([]string{"z3-new", "-in", "-smt2"})
	if err != nil {
		return Unknown, nil
	}
	defer p.kill()
	fmt.Fprintf(p.in, "(set-option :timeout %d)\n(set-logic QF_BV)\n", s.tmoMs)
	r, v, err := s.dialog(p, text, nv)
	if err != nil {
		return Unknown, nil
	}
	return r, v
}

func (s *Solver) askCVC5(text string) Sat {
	if s.p2 == nil || s.p2.count > 500 {
		s.p2.kill()
		p, err := startProc([]string{"cvc5", "--incremental", "--lang=smt2", "--tlimit-per=5000"})
		if err != nil {
			return Unknown
		}
		s.p2 = p
		fmt.Fprint(p.in, "(set-logic QF_BV)\n")
	}
	s.p2.count++
	p := s.p2
	p.in.WriteString("(push 1)\n" + text + "(check-sat)\n(pop 1)\n")
	if p.in.Flush() != nil {
		p.kill()
		s.p2 = nil
		return Unknown
	}
	line, err := p.out.ReadString('\n')
	if err != nil {
		p.kill()
		s.p2 = nil
		return Unknown
	}
	switch strings.TrimSpace(line) {
	case "sat":
		return IsSat
	case "unsat":
		return Unsat
	}
	p.kill()
	s.p2 = nil
	return Unknown
}
