package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Verdict int8

const (
	Unsat Verdict = iota
	Sat
	Unknown
)

func (v Verdict) String() string { return [...]string{"unsat", "sat", "unknown"}[v] }

type cacheEnt struct {
	verdict Verdict
	model   []uint64 // canonical var order
}

// SolverShared is shared by all workers: query cache and counters.
type SolverShared struct {
	mu       sync.RWMutex
	cache    map[string]cacheEnt
	Queries  atomic.Int64 // sent to the solver
	Hits     atomic.Int64 // answered from the cache
	SatN     atomic.Int64
	UnsatN   atomic.Int64
	UnknownN atomic.Int64
	TimeNs   atomic.Int64
	Errors   atomic.Int64
	errText  atomic.Value
	bin      string
	timeout  int // ms per query
}

func NewSolverShared(bin string, timeoutMs int) *SolverShared {
	return &SolverShared{cache: map[string]cacheEnt{}, bin: bin, timeout: timeoutMs}
}

// slowQ makes queries slower than it print (GOSX_SLOW, e.g. 50ms).
var slowQ, _ = time.ParseDuration(os.Getenv("GOSX_SLOW"))

type Solver struct {
	sh       *SolverShared
	cmd      *exec.Cmd
	in       *bufio.Writer
	inc      io.WriteCloser
	out      *bufio.Reader
	declared map[string]bool
	set      time.Duration // limit the process was told
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.sh.bin, "-in", "-smt2")
	w, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inc = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.declared = map[string]bool{}
	s.in.WriteString("(set-option :print-success false)\n")
	s.set = 0
	return nil
}

// limit is the time for one query; once several were given up the rest get less.
func (s *Solver) limit() time.Duration {
	l := time.Duration(s.sh.timeout) * time.Millisecond
	switch n := s.sh.UnknownN.Load(); {
	case n >= 20:
		return l / 50
	case n >= 4:
		return l / 10
	}
	return l
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func varName(w uint8, i int) string {
	if w == 0 {
		return "b_" + strconv.Itoa(i)
	}
	return "v" + strconv.Itoa(int(w)) + "_" + strconv.Itoa(i)
}

// Check decides the conjunction of ts. On Sat, the model maps original
// variable index -> value for the variables that occur.
func (s *Solver) Check(ts []*Term) (Verdict, map[int]uint64) {
	var sb strings.Builder
	idx := map[uint64]int{}
	var vars []*Term
	var names []string
	nm := func(t *Term) string {
		i, ok := idx[t.V]
		if !ok {
			i = len(vars)
			idx[t.V] = i
			vars = append(vars, t)
			names = append(names, varName(t.W, i))
		}
		return names[i]
	}
	for _, t := range ts {
		sb.WriteString("(assert ")
		smt(&sb, t, nm)
		sb.WriteString(")\n")
	}
	key := sb.String()
	s.sh.mu.RLock()
	e, ok := s.sh.cache[key]
	s.sh.mu.RUnlock()
	if ok {
		s.sh.Hits.Add(1)
	} else {
		e = s.run(key, names, vars)
		s.sh.mu.Lock()
		s.sh.cache[key] = e
		s.sh.mu.Unlock()
	}
	if e.verdict != Sat {
		return e.verdict, nil
	}
	m := make(map[int]uint64, len(vars))
	for i, t := range vars {
		m[int(t.V)] = e.model[i]
	}
	return Sat, m
}

func (s *Solver) run(key string, names []string, vars []*Term) cacheEnt {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.sh.TimeNs.Add(int64(d))
		if slowQ > 0 && d > slowQ {
			fmt.Fprintf(os.Stderr, "SLOW %v vars=%d len=%d\n%s\n", d, len(vars), len(key), key)
		}
	}()
	s.sh.Queries.Add(1)
	l := s.limit()
	e := s.attempt(key, names, vars, min(l, 500*time.Millisecond), false)
	if e.verdict == Unknown {
		// without push the solver picks a stronger strategy
		e = s.attempt(key, names, vars, l, true)
	}
	switch e.verdict {
	case Sat:
		s.sh.SatN.Add(1)
	case Unsat:
		s.sh.UnsatN.Add(1)
	default:
		s.sh.UnknownN.Add(1)
	}
	return e
}

// attempt asks the solver, in a process of its own if fresh.
func (s *Solver) attempt(key string, names []string, vars []*Term, limit time.Duration, fresh bool) cacheEnt {
	fail := func(err string) cacheEnt {
		s.sh.Errors.Add(1)
		s.sh.errText.Store(err)
		s.Close()
		return cacheEnt{verdict: Unknown}
	}
	if fresh {
		s.Close()
		defer s.Close()
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return fail(err.Error())
		}
		if fresh {
			s.in.WriteString("(set-logic QF_BV)\n")
		}
	}
	for i, n := range names {
		if !s.declared[n] {
			s.declared[n] = true
			if vars[i].W == 0 {
				fmt.Fprintf(s.in, "(declare-const %s Bool)\n", n)
			} else {
				fmt.Fprintf(s.in, "(declare-const %s (_ BitVec %d))\n", n, vars[i].W)
			}
		}
	}
	if limit != s.set {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", limit.Milliseconds())
		s.set = limit
	}
	if !fresh {
		s.in.WriteString("(push 1)\n")
	}
	s.in.WriteString(key)
	s.in.WriteString("(check-sat)\n")
	if s.in.Flush() != nil {
		return fail("solver pipe closed")
	}
	// the solver does not look at its own limit in every phase
	var killed atomic.Bool
	proc := s.cmd.Process
	hard := time.AfterFunc(limit+limit/2, func() { killed.Store(true); proc.Kill() })
	line, err := s.out.ReadString('\n')
	if !hard.Stop() && killed.Load() {
		s.Close()
		return cacheEnt{verdict: Unknown}
	}
	if err != nil {
		return fail("solver died")
	}
	line = strings.TrimSpace(line)
	var e cacheEnt
	switch line {
	case "unsat":
		e.verdict = Unsat
	case "sat":
		e.verdict = Sat
		e.model = make([]uint64, len(vars))
		if len(vars) > 0 {
			s.in.WriteString("(get-value (")
			s.in.WriteString(strings.Join(names, " "))
			s.in.WriteString("))\n")
			s.in.Flush()
			if err := s.readModel(e.model, names); err != nil {
				return fail(err.Error())
			}
		}
	case "unknown", "timeout":
		e.verdict = Unknown
	default:
		return fail(line)
	}
	if !fresh {
		s.in.WriteString("(pop 1)\n")
	}
	return e
}

func (s *Solver) readModel(m []uint64, names []string) error {
	// ((v8_0 #x00) (v8_1 #x61) ...)
	depth := 0
	var buf strings.Builder
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return err
		}
		buf.WriteByte(c)
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	s.out.ReadString('\n')
	txt := buf.String()
	if strings.HasPrefix(txt, "(error") {
		return fmt.Errorf("%s", txt)
	}
	f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt))
	pos := map[string]int{}
	for i, n := range names {
		pos[n] = i
	}
	for i := 0; i+1 < len(f); i += 2 {
		k, ok := pos[f[i]]
		if !ok {
			return fmt.Errorf("model: %s", txt)
		}
		v := f[i+1]
		switch {
		case v == "true":
			m[k] = 1
		case v == "false":
			m[k] = 0
		case strings.HasPrefix(v, "#x"):
			n, err := strconv.ParseUint(v[2:], 16, 64)
			if err != nil {
				return err
			}
			m[k] = n
		case strings.HasPrefix(v, "#b"):
			n, err := strconv.ParseUint(v[2:], 2, 64)
			if err != nil {
				return err
			}
			m[k] = n
		default:
			return fmt.Errorf("model value %q", v)
		}
	}
	return nil
}

// CrossCheck re-decides a sample of the cached queries with a second solver
// and returns (checked, disagreements).
func (sh *SolverShared) CrossCheck(bin string, args []string, max int, seed int64, budget time.Duration) (int, int) {
	type qv struct {
		q string
		v Verdict
	}
	var qs []qv
	sh.mu.RLock()
	for k, e := range sh.cache { // map order: an arbitrary sample
		if e.verdict != Unknown {
			qs = append(qs, qv{k, e.verdict})
			if len(qs) >= max {
				break
			}
		}
	}
	sh.mu.RUnlock()
	var sb strings.Builder
	sb.WriteString("(set-logic QF_BV)\n")
	for _, q := range qs {
		sb.WriteString("(push 1)\n")
		seen := map[string]bool{}
		f := strings.FieldsFunc(q.q, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
		for _, w := range f {
			if seen[w] {
				continue
			}
			if strings.HasPrefix(w, "b_") {
				seen[w] = true
				fmt.Fprintf(&sb, "(declare-const %s Bool)\n", w)
			} else if len(w) > 1 && w[0] == 'v' && strings.Contains(w, "_") {
				seen[w] = true
				fmt.Fprintf(&sb, "(declare-const %s (_ BitVec %s))\n", w, w[1:strings.Index(w, "_")])
			}
		}
		sb.WriteString(q.q)
		sb.WriteString("(check-sat)\n(pop 1)\n")
	}
	cmd := exec.Command(bin, args...)
	cmd.Stdin = strings.NewReader(sb.String())
	var ob strings.Builder
	cmd.Stdout = &ob
	if cmd.Start() != nil {
		return 0, 0
	}
	t := time.AfterFunc(budget, func() { cmd.Process.Kill() })
	cmd.Wait()
	t.Stop()
	n, bad := 0, 0
	for i, l := range strings.Split(strings.TrimSpace(ob.String()), "\n") {
		if i >= len(qs) {
			break
		}
		l = strings.TrimSpace(l)
		if l != "sat" && l != "unsat" {
			continue
		}
		n++
		if l != qs[i].v.String() {
			bad++
		}
	}
	return n, bad
}
