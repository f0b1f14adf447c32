// Command verifharness evaluates Lisp programs with the interpreter of the repository and compares what they do with an
// independent oracle. It is compiled into the repository's module through a build overlay and uses only exported names.
//
// It is the bounded companion of the proofs: it replays what a failed proof obligation means on the real code and stands in
// for the functions that are outside the verifier's reach. It never counts as proof.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"runtime/metrics"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	g "github.com/hymkor/gmnlisp"
)

type failure struct {
	ID     string `json:"id"`
	Code   string `json:"code"`
	Want   string `json:"want"`
	Got    string `json:"got"`
	Detail string `json:"detail"`
}

type report struct {
	Property string    `json:"property"`
	Cases    int       `json:"cases"`
	Distinct int       `json:"distinct"`
	Rule     string    `json:"rule"`
	Samples  []string  `json:"samples"`
	Failures []failure `json:"failures"`
	Err      string    `json:"err"`
}

// H is the state of one run.
type H struct {
	rng      *rand.Rand
	thorough bool
	deadline time.Time
	seen     map[string]bool
	rep      report
}

func (h *H) rule(s string) { h.rep.Rule = s }

func (h *H) fail(id, code, want, got, detail string) {
	if len(h.rep.Failures) < 40 {
		h.rep.Failures = append(h.rep.Failures, failure{id, code, want, got, detail})
	}
}

// done reports whether the time or failure budget is used up.
func (h *H) done() bool { return time.Now().After(h.deadline) || len(h.rep.Failures) >= 40 }

func (h *H) count(code string, nontrivial bool) {
	h.rep.Cases++
	if nontrivial && !h.seen[code] {
		h.seen[code] = true
		h.rep.Distinct++
		if len(h.rep.Samples) < 5 && h.rep.Cases%37 == 1 {
			h.rep.Samples = append(h.rep.Samples, code)
		}
	}
}

type probeErr struct{ n string }

func (e *probeErr) Error() string { return "probe " + e.n }

// Out is what evaluating a program does.
type Out struct {
	Kind  string // "value", "error", "probe", "panic", "hang", "cancel"
	Val   string
	Trace []string
	Node  g.Node
	Err   error
}

func (o Out) String() string {
	s := o.Kind
	if o.Val != "" {
		s += " " + o.Val
	}
	if len(o.Trace) > 0 {
		s += " trace[" + strings.Join(o.Trace, " ") + "]"
	}
	return s
}

// Sess is one interpreter.
type Sess struct {
	root   *g.World
	w      *g.World
	out    *bytes.Buffer
	trace  []string
	cancel context.CancelFunc
	ctx    context.Context
	stop   map[string]int
}

func newSess() *Sess {
	s := &Sess{out: &bytes.Buffer{}}
	s.ctx, s.cancel = context.WithCancel(context.Background())
	s.root = g.New()
	s.root.SetStdout(s.out)
	s.root.SetErrout(&bytes.Buffer{})
	s.w = s.root.Flet(g.Functions{
		g.NewSymbol("tr"): g.Function1(func(_ context.Context, _ *g.World, n g.Node) (g.Node, error) {
			s.trace = append(s.trace, dump(n))
			return n, nil
		}),
		g.NewSymbol("tr2"): g.Function2(func(_ context.Context, _ *g.World, n, m g.Node) (g.Node, error) {
			s.trace = append(s.trace, dump(n)+":"+dump(m))
			return m, nil
		}),
		g.NewSymbol("bad"): g.Function1(func(_ context.Context, _ *g.World, n g.Node) (g.Node, error) {
			return nil, &probeErr{dump(n)}
		}),
		g.NewSymbol("stop-now"): g.Function1(func(_ context.Context, _ *g.World, n g.Node) (g.Node, error) {
			s.trace = append(s.trace, "stop")
			s.cancel()
			return n, nil
		}),
		g.NewSymbol("probe0"): g.Function0(func(_ context.Context, _ *g.World) (g.Node, error) {
			s.trace = append(s.trace, "probe0")
			return g.Integer(0), nil
		}),
		g.NewSymbol("probe1"): g.Function1(func(_ context.Context, _ *g.World, a g.Node) (g.Node, error) {
			s.trace = append(s.trace, "probe1("+dump(a)+")")
			return a, nil
		}),
		g.NewSymbol("probe2"): g.Function2(func(_ context.Context, _ *g.World, a, b g.Node) (g.Node, error) {
			s.trace = append(s.trace, "probe2("+dump(a)+" "+dump(b)+")")
			return b, nil
		}),
		g.NewSymbol("probe13"): &g.Function{Min: 1, Max: 3, F: s.probeN("probe13")},
		g.NewSymbol("probe3"):  &g.Function{C: 3, F: s.probeN("probe3")},
		g.NewSymbol("probes"):  &g.Function{F: s.probeN("probes")},
	})
	return s
}

func (s *Sess) probeN(name string) func(context.Context, *g.World, []g.Node) (g.Node, error) {
	return func(_ context.Context, _ *g.World, a []g.Node) (g.Node, error) {
		t := []string{}
		for _, x := range a {
			t = append(t, dump(x))
		}
		s.trace = append(s.trace, name+"("+strings.Join(t, " ")+")")
		return g.Integer(len(a)), nil
	}
}

// run evaluates code in the session.
func (s *Sess) run(code string) Out { return s.runWith(s.ctx, code) }

func (s *Sess) runWith(ctx context.Context, code string) Out {
	current.Store(code)
	return s.call(func() (g.Node, error) { return s.w.Interpret(ctx, code) })
}

var hangLimit = 8 * time.Second

// current is the program being run (for the watcher).
var current atomic.Value

// tooBig ends the run with a report when a program uses too much memory.
const tooBig = 6 << 30

func (h *H) watch() {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(100 * time.Millisecond)
		metrics.Read(s)
		if s[0].Value.Uint64() > tooBig {
			c, _ := current.Load().(string)
			h.fail("memory", c, "bounded memory", "more than 6 GB", "")
			h.report()
			os.Exit(0)
		}
	}
}

func (h *H) report() {
	js, _ := json.Marshal(h.rep)
	os.Stdout.Write(append(js, '\n'))
}

func (s *Sess) call(f func() (g.Node, error)) Out {
	s.trace = nil
	ch := make(chan Out, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				st := strings.Split(string(debug.Stack()), "\n")
				at := ""
				for i, l := range st {
					if strings.Contains(l, "/gmnlisp/") || strings.Contains(l, "/repo/") {
						if i > 8 {
							at = strings.TrimSpace(l)
							break
						}
					}
				}
				ch <- Out{Kind: "panic", Val: fmt.Sprint(r) + " " + at}
			}
		}()
		v, err := f()
		if err != nil {
			o := Out{Kind: "error", Err: err, Node: v}
			var p *probeErr
			if errors.As(err, &p) {
				o.Kind, o.Val = "probe", p.n
			} else if errors.Is(err, context.Canceled) {
				o.Kind = "cancel"
			}
			ch <- o
			return
		}
		if v == nil {
			ch <- Out{Kind: "absent", Val: "a result that is no Lisp value"}
			return
		}
		ch <- Out{Kind: "value", Val: dump(v), Node: v}
	}()
	select {
	case o := <-ch:
		o.Trace = s.trace
		return o
	case <-time.After(hangLimit):
		return Out{Kind: "hang"}
	}
}

// dump writes a Lisp value independently of the interpreter's own printer.
func dump(n g.Node) string { return dumpN(n, 0) }

func dumpN(n g.Node, depth int) string {
	if depth > 60 {
		return "…"
	}
	switch v := n.(type) {
	case nil:
		return "#<absent>"
	case g.Integer:
		return strconv.FormatInt(int64(v), 10)
	case g.Float:
		return "f" + strconv.FormatFloat(float64(v), 'g', -1, 64)
	case g.String:
		return strconv.Quote(string(v))
	case g.Rune:
		return fmt.Sprintf("#u%d", int(v))
	case g.Symbol:
		return v.String()
	case *g.Cons:
		var b strings.Builder
		b.WriteString("(")
		for i := 0; ; i++ {
			if i > 2000 {
				b.WriteString("…")
				break
			}
			b.WriteString(dumpN(v.Car, depth+1))
			if g.IsNone(v.Cdr) {
				break
			}
			if c, ok := v.Cdr.(*g.Cons); ok {
				b.WriteString(" ")
				v = c
				continue
			}
			b.WriteString(" . " + dumpN(v.Cdr, depth+1))
			break
		}
		b.WriteString(")")
		return b.String()
	}
	if g.IsNone(n) {
		return "nil"
	}
	if n.Equals(g.True, g.STRICT) {
		return "t"
	}
	return fmt.Sprintf("#<%T>", n)
}

type propFunc func(h *H)

var props = map[string]propFunc{}

func main() {
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	seed := flag.Int64("seed", 1, "")
	secs := flag.Int("secs", 0, "time budget")
	expr := flag.String("e", "", "evaluate code and print what it does")
	flag.Parse()
	if *expr != "" {
		s := newSess()
		o := s.run(*expr)
		fmt.Println(o, o.Err)
		fmt.Print(s.out.String())
		return
	}
	h := &H{rng: rand.New(rand.NewSource(*seed)), thorough: *tier == "thorough", seen: map[string]bool{}}
	d := 25 * time.Second
	if h.thorough {
		d = 150 * time.Second
	}
	if *secs > 0 {
		d = time.Duration(*secs) * time.Second
	}
	h.deadline = time.Now().Add(d)
	h.rep.Property = *prop
	h.rep.Samples = []string{}
	h.rep.Failures = []failure{}
	go h.watch()
	if f, ok := props[*prop]; ok {
		f(h)
	}
	h.report()
}
