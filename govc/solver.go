package main

// SMT back end: an incremental z3 process per task plus fresh-process fallbacks.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Solver struct {
	cmd      *exec.Cmd
	in       *bufio.Writer
	out      *bufio.Reader
	closer   io.Closer
	declared map[string]bool
	stack    []*T
	Queries  int
	Time     time.Duration
	prelude  string
	named    map[int]string
	cache    map[string]string
	litLevel map[*T]int
}

const z3bin = "z3-new"

var axiomsPrelude = `
(declare-fun slen (Str) Int)
(declare-fun strid (Str) Int)
(declare-fun rlen (Str) Int)
`

func NewSolver() *Solver {
	s := &Solver{declared: map[string]bool{}, cache: map[string]string{}}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(z3bin, "-in", "-smt2")
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriter(w)
	s.closer = w
	s.out = bufio.NewReader(r)
	s.declared = map[string]bool{}
	s.litLevel = map[*T]int{}
	s.stack = nil
	fmt.Fprint(s.in, "(set-option :global-declarations true)\n(set-option :smt.random_seed 1)\n(set-option :sat.random_seed 1)\n(set-option :smt.mbqi false)\n(set-option :smt.auto_config false)\n", valDecl, axiomsPrelude)
}

func (s *Solver) Close() {
	if s.closer != nil {
		s.closer.Close()
	}
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

// declText returns declarations needed by t that are not in done.
func declText(t *T, done map[string]bool, sb *strings.Builder) {
	collect(t, func(x *T) {
		if x.cst {
			if !done[x.op] {
				done[x.op] = true
				fmt.Fprintf(sb, "(declare-const %s %s)\n", sym(x.op), x.sort)
			}
			return
		}
		if x.op == "#raw" {
			// raw text may mention UFs by name: declared through deps
			return
		}
		if len(x.args) > 0 {
			tmu.Lock()
			sig, ok := ufSig[x.op]
			tmu.Unlock()
			if ok && !done["fun "+x.op] {
				done["fun "+x.op] = true
				if x.op != "slen" && x.op != "strid" && x.op != "rlen" {
					fmt.Fprintf(sb, "(declare-fun %s %s)\n", sym(x.op), sig)
				}
			}
		}
	}, map[*T]bool{})
}

var (
	litMu    sync.Mutex
	litCache = map[*T][]*T{}
)

// litsIn lists the string literals mentioned by t.
func litsIn(t *T) []*T {
	litMu.Lock()
	if r, ok := litCache[t]; ok {
		litMu.Unlock()
		return r
	}
	litMu.Unlock()
	var r []*T
	collect(t, func(x *T) {
		if x.cst && x.sort == SStr && isStrLit(x) {
			r = append(r, x)
		}
	}, map[*T]bool{})
	litMu.Lock()
	litCache[t] = r
	litMu.Unlock()
	return r
}

func litFact(x *T) string {
	txt, _ := strLitText(x)
	return fmt.Sprintf("(assert (and (= (strid %s) %s) (= (slen %s) %d) (= (rlen %s) %d)))\n", sym(x.op), strings.TrimPrefix(x.op, "strlit!"), sym(x.op), len(txt), sym(x.op), len([]rune(txt)))
}

// litFacts emits the facts of literals not yet asserted on the current stack.
func (s *Solver) litFacts(t *T, level int) string {
	var sb strings.Builder
	for _, x := range litsIn(t) {
		if _, ok := s.litLevel[x]; !ok {
			s.litLevel[x] = level
			sb.WriteString(litFact(x))
		}
	}
	return sb.String()
}

func (s *Solver) popLits(level int) {
	for x, l := range s.litLevel {
		if l > level {
			delete(s.litLevel, x)
		}
	}
}

// text prints t with large shared subterms bound by let.
func smtText(t *T) string {
	counts := map[*T]int{}
	var walk func(x *T)
	walk = func(x *T) {
		counts[x]++
		if counts[x] > 1 {
			return
		}
		for _, a := range x.args {
			walk(a)
		}
	}
	walk(t)
	var lets []string
	names := map[*T]string{}
	var pr func(x *T) string
	pr = func(x *T) string {
		if n, ok := names[x]; ok {
			return n
		}
		if len(x.args) == 0 {
			return x.String()
		}
		var r string
		if x.op == "#raw" {
			r = x.raw
			for i := len(x.args) - 1; i >= 0; i-- {
				r = strings.ReplaceAll(r, fmt.Sprintf("%%%d", i), pr(x.args[i]))
			}
		} else {
			var sb strings.Builder
			sb.WriteByte('(')
			sb.WriteString(opText(x))
			for _, a := range x.args {
				sb.WriteByte(' ')
				sb.WriteString(pr(a))
			}
			sb.WriteByte(')')
			r = sb.String()
		}
		if counts[x] > 1 && len(r) > 24 {
			n := fmt.Sprintf("?l%d", len(lets))
			lets = append(lets, "(let (("+n+" "+r+")) ")
			names[x] = n
			return n
		}
		return r
	}
	body := pr(t)
	return strings.Join(lets, "") + body + strings.Repeat(")", len(lets))
}

func (s *Solver) send(txt string) { s.in.WriteString(txt) }

func (s *Solver) sync(pc []*T) {
	i := 0
	for i < len(pc) && i < len(s.stack) && pc[i] == s.stack[i] {
		i++
	}
	if n := len(s.stack) - i; n > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", n)
		s.stack = s.stack[:i]
		s.popLits(i)
	}
	for ; i < len(pc); i++ {
		var sb strings.Builder
		declText(pc[i], s.declared, &sb)
		s.send("(push 1)\n")
		s.send(sb.String())
		s.send(s.litFacts(pc[i], len(s.stack)+1))
		s.send("(assert " + smtText(pc[i]) + ")\n")
		s.stack = append(s.stack, pc[i])
	}
}

// Check decides satisfiability of pc && extra. Returns "sat", "unsat" or "unknown".
func (s *Solver) Check(pc []*T, extra *T, rlimit int) string {
	if extra == False {
		return "unsat"
	}
	for _, p := range pc {
		if p == False {
			return "unsat"
		}
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	// sync declares strings outside push levels because of global-declarations; literal facts are asserted inside.
	s.sync(pc)
	var sb strings.Builder
	declText(extra, s.declared, &sb)
	s.send("(push 1)\n")
	s.send(sb.String())
	s.send(s.litFacts(extra, len(s.stack)+1))
	defer s.popLits(len(s.stack))
	s.send("(assert " + smtText(extra) + ")\n")
	fmt.Fprintf(s.in, "(set-option :rlimit %d)\n(check-sat)\n(pop 1)\n", rlimit)
	s.in.Flush()
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.Close()
			s.start()
			return "unknown"
		}
		line = strings.TrimSpace(line)
		switch line {
		case "sat", "unsat", "unknown":
			return line
		case "":
			continue
		default:
			if strings.HasPrefix(line, "(error") {
				fmt.Fprintln(os.Stderr, "SOLVER ERROR:", line)
				if strings.Contains(line, "canceled") || strings.Contains(line, "resource") {
					continue
				}
				fatalSolver.Store(line)
				continue
			}
			if strings.HasPrefix(line, "timeout") {
				return "unknown"
			}
		}
	}
}

var fatalSolver atomic.Value

// Script renders a standalone query.
func Script(pc []*T, goal *T) string {
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n" + valDecl + axiomsPrelude)
	done := map[string]bool{}
	for _, p := range append(append([]*T{}, pc...), goal) {
		declText(p, done, &sb)
		for _, x := range litsIn(p) {
			if !done["lit "+x.op] {
				done["lit "+x.op] = true
				sb.WriteString(litFact(x))
			}
		}
		sb.WriteString("(assert " + smtText(p) + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

// Portfolio runs a standalone query on several solvers; returns verdict and solver name.
func Portfolio(script string, timeout time.Duration) (string, string) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	type res struct{ v, by string }
	ch := make(chan res, 4)
	sec := fmt.Sprintf("%d", int(timeout.Seconds())+1)
	cmds := [][]string{
		{"z3-new", "-in", "-T:" + sec},
		{"z3-new", "-in", "-T:" + sec, "smt.mbqi=false", "smt.auto_config=false", "smt.random_seed=7"},
		{"z3", "-in", "-T:" + sec},
		{"cvc5", "--lang=smt2", "--tlimit=" + sec + "000"},
	}
	var wg sync.WaitGroup
	for _, c := range cmds {
		wg.Add(1)
		go func(c []string) {
			defer wg.Done()
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.Stdin = strings.NewReader(script)
			out, _ := cmd.Output()
			v := strings.TrimSpace(string(out))
			if i := strings.IndexByte(v, '\n'); i >= 0 {
				v = v[:i]
			}
			ch <- res{v, c[0]}
		}(c)
	}
	go func() { wg.Wait(); close(ch) }()
	sat := ""
	for r := range ch {
		if r.v == "unsat" {
			cancel()
			return "unsat", r.by
		}
		if r.v == "sat" {
			sat = r.by
		}
	}
	if sat != "" {
		return "sat", sat
	}
	return "unknown", ""
}
