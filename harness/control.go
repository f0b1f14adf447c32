package main

// The control properties: random programs against the reference interpreter.

import (
	"fmt"
	"strings"
)

// prelude defines what the programs may use.
var prelude = []V{
	L(S("defmacro"), S("m1"), L(S("a"), S("b")), L(S("quasiquote"), L(S("progn"), L(S("unquote"), S("b")), L(S("unquote"), S("a"))))),
	L(S("defmacro"), S("m2"), L(S("a"), S("&rest"), S("b")), L(S("quasiquote"), L(S("if"), L(S("unquote"), S("a")), L(S("progn"), L(S("unquote-splicing"), S("b"))), L(S("list"), L(S("unquote-splicing"), S("b")))))),
	L(S("defmacro"), S("m3"), L(S("&rest"), S("b")), L(S("cons"), L(S("quote"), S("list")), S("b"))),
}

func sameOut(want, got Out) bool {
	if want.Kind != got.Kind {
		if !(want.Kind == "cancel" && got.Kind == "error") {
			return false
		}
	}
	if want.Kind == "value" || want.Kind == "probe" {
		if want.Val != got.Val {
			return false
		}
	}
	if len(want.Trace) != len(got.Trace) {
		return false
	}
	for i := range want.Trace {
		if want.Trace[i] != got.Trace[i] {
			return false
		}
	}
	return true
}

type ctlProfile struct {
	w      weights
	depth  int
	after  []V               // evaluated after every program: the dynamic state must be as before
	need   func(r *Ref) bool // a case is non-trivial when
	wrap   bool              // tr inside progn (cancellation)
	macros bool
	top    func(g *gen, d int) V
}

// programs compares random programs with the reference.
func (h *H) programs(p ctlProfile) {
	for i := 0; !h.done(); i++ {
		g := newGen(h.rng, p.w)
		g.wrapTr = p.wrap
		d := 1 + h.rng.Intn(p.depth)
		var forms []V
		if p.macros || p.w["macro"] > 0 {
			forms = append(forms, prelude...)
		}
		np := len(forms)
		// two functions that programs may call
		if p.w["call"] > 0 || p.w["funcall"] > 0 {
			for _, n := range []string{"f1", "f2"} {
				ps, rest := g.params()
				forms = append(forms, app([]V{S("defun"), S(n), g.plist(ps, rest)}, slice(cdr(cdr(g.lambda(ps, rest, 1))))))
				g.funs = append(g.funs, gfun{n, len(ps), rest != ""})
			}
			np = len(forms)
		}
		for k := 1 + h.rng.Intn(2); k > 0; k-- {
			if p.top != nil {
				forms = append(forms, p.top(g, d))
			} else {
				forms = append(forms, g.form(d))
			}
		}
		forms = append(forms, p.after...)
		h.program(forms, np, p)
	}
}

func (h *H) program(forms []V, np int, p ctlProfile) {
	ref := newRef()
	s := newSess()
	var code []string
	for i, f := range forms {
		ref.stopped = false
		s2 := s
		current.Store(src(f))
		want, skipped := ref.top(f)
		if skipped != "" {
			return
		}
		txt := src(f)
		code = append(code, txt)
		got := s2.run(txt)
		if s2.ctx.Err() != nil {
			// cancelled: later forms get a fresh context
			fresh := newCtx()
			s2.ctx, s2.cancel = fresh.ctx, fresh.cancel
		}
		if i >= np {
			h.count(strings.Join(code[np:], "\n"), p.need == nil || p.need(ref))
		}
		if n := len(got.Trace); ref.stopped && got.Kind == "cancel" && n <= len(want.Trace) && strings.Contains(strings.Join(got.Trace, " "), "stop") {
			want.Kind, want.Trace = got.Kind, want.Trace[:n] // it may stop at once
		}
		if !sameOut(want, got) {
			h.fail(fmt.Sprintf("program-%d", h.rep.Cases), strings.Join(code, "\n"), want.String(), got.String(), fmt.Sprint("error: ", got.Err))
			return
		}
	}
}

func has(names ...string) func(r *Ref) bool {
	return func(r *Ref) bool {
		for _, n := range names {
			if r.feat[n] {
				return true
			}
		}
		return false
	}
}

func traced(r *Ref) bool { return len(r.trace) > 1 }

// dynamic state that must be gone or restored after every program
var afterState = []V{
	L(S("return-from"), S("b1"), 1), L(S("return-from"), S("b2"), 1), L(S("return"), 1),
	L(S("throw"), L(S("quote"), S("c1")), 1), L(S("throw"), L(S("quote"), S("c2")), 1),
	L(S("go"), S("g1")), L(S("go"), S("g2")), L(S("go"), S("g3")),
	L(S("dynamic"), S("*d1*")), L(S("dynamic"), S("*d2*")),
	L(S("error"), "after"),
}

func merge(ws ...weights) weights {
	r := weights{}
	for _, w := range ws {
		for k, n := range w {
			r[k] += n
		}
	}
	return r
}

var (
	wBase = weights{"leaf": 3, "progn": 2, "bad": 1}
	wCond = weights{"if": 3, "and": 3, "or": 3, "cond": 3, "case": 3, "while": 2}
	wVars = weights{"let": 3, "let*": 3, "setq": 4, "psetq": 1}
	wFuns = weights{"call": 4, "funcall": 2, "apply": 1, "closure": 2, "flet": 2, "labels": 2, "tr2": 1}
	wExit = weights{"block": 3, "return-from": 3, "catch": 3, "throw": 3}
	wTag  = weights{"tagbody": 4, "go": 4}
	wDyn  = weights{"dynlet": 4, "dynamic": 3, "defdynamic": 1}
	wHand = weights{"handler": 4, "signal": 4}
)

func init() {
	props["P01"] = func(h *H) {
		h.rule("calls of built-in probes and user functions of every arity kind with correct and wrong argument counts and a failing argument at every position, then random programs of calls; a case is non-trivial when at least two arguments are traced")
		h.arity()
		h.programs(ctlProfile{w: merge(wBase, weights{"call": 6, "funcall": 4, "apply": 3, "tr2": 3, "if": 1, "let": 1, "flet": 2, "labels": 2, "bad": 1}), depth: 4, need: traced})
	}
	props["P02"] = func(h *H) {
		h.rule("random programs of progn, if, and, or, cond, case and while over traced and failing forms, compared with the reference interpreter (value, failure and order of evaluation); non-trivial when at least two forms are traced")
		h.programs(ctlProfile{w: merge(wBase, wCond, weights{"let": 1, "setq": 1}), depth: 5, need: traced})
	}
	props["P03"] = func(h *H) {
		h.rule("random nests of let, let*, setq, psetq, lambda, flet, labels, closures called in other scopes, compared with the reference interpreter")
		h.scopes()
		h.programs(ctlProfile{w: merge(wBase, wVars, wFuns, weights{"if": 1, "while": 1}), depth: 5, need: traced})
	}
	props["P04"] = func(h *H) {
		h.rule("random nests of block, return-from, return, catch and throw through every other construct, compared with the reference interpreter; non-trivial when a transfer was delivered")
		h.tags()
		h.programs(ctlProfile{w: merge(wBase, wExit, wExit, wFuns, weights{"if": 1, "let": 1, "let*": 1, "cond": 1, "case": 1, "and": 1, "or": 1, "while": 1, "tagbody": 1, "unwind": 1, "dynlet": 1, "map": 1, "ignore": 1, "handler": 1, "setq": 1}), depth: 5, need: has("block caught", "caught"),
			after: afterState[:5]})
	}
	props["P05"] = func(h *H) {
		h.rule("random nests of tagbody and go (forward, backward, to an enclosing tagbody, to no tagbody), compared with the reference interpreter; non-trivial when a go was performed")
		h.programs(ctlProfile{w: merge(wBase, wTag, wTag, weights{"if": 3, "cond": 1, "block": 1, "return-from": 1, "setq": 2, "let": 1, "unwind": 1, "call": 1, "while": 1}), depth: 5, need: has("go"), after: afterState[5:8]})
	}
	props["P06"] = func(h *H) {
		h.rule("random programs with unwind-protect around values, failures, conditions and non-local exits and with failing cleanup forms, compared with the reference interpreter; non-trivial when an unwind-protect was left")
		h.programs(ctlProfile{w: merge(wBase, wExit, weights{"unwind": 10, "bad": 2, "signal": 1, "handler": 1, "tagbody": 1, "go": 2, "let": 1, "funcall": 1, "dynlet": 1, "if": 1}), depth: 5, need: has("unwind")})
	}
	props["P07"] = func(h *H) {
		h.rule("random programs of with-handler, dynamic-let, block, catch, tagbody and with-standard-input left in every way, followed by probes of the dynamic state (handler, dynamic variables, active names and tags, standard input)")
		h.restoreInput()
		h.programs(ctlProfile{w: merge(wBase, wExit, wTag, wDyn, wDyn, wHand, weights{"unwind": 1, "bad": 2, "funcall": 1, "ignore": 1}), depth: 5, need: has("dynamic-let", "with-handler", "caught", "block caught", "go"), after: afterState})
	}
	props["P08"] = func(h *H) {
		h.rule("every handler outcome times kind of condition, then random programs with with-handler and signalled conditions, compared with the reference interpreter; non-trivial when a condition was handled")
		h.conditions()
		h.programs(ctlProfile{w: merge(wBase, wExit, wHand, wHand, weights{"unwind": 1, "ignore": 1, "bad": 1, "funcall": 2, "call": 2, "let": 1, "if": 1}), depth: 5, need: has("handled", "with-handler"), after: afterState[10:]})
	}
	props["P15"] = func(h *H) {
		h.rule("random calls of mapcar, mapc, maplist, mapl, mapcan and mapcon with one to three lists of unequal lengths and every function outcome, compared with the reference interpreter; non-trivial when a mapping operator ran")
		h.programs(ctlProfile{w: merge(wBase, weights{"map": 12, "block": 1, "return-from": 1, "catch": 1, "throw": 1, "if": 1, "let": 1, "setq": 1, "bad": 1}), depth: 4, need: has("map"),
			top: func(g *gen, d int) V {
				if g.r.Intn(3) == 0 {
					return g.form(d)
				}
				return g.mapForm(d)
			}})
	}
	props["P24"] = func(h *H) {
		h.rule("random quasiquote templates and macro calls over traced forms, compared with the reference interpreter; non-trivial when an unquote, splice or macro call happened")
		h.quotes()
		h.programs(ctlProfile{w: merge(wBase, weights{"quasi": 8, "macro": 6, "quote": 2, "let": 2, "if": 1, "setq": 1, "funcall": 1, "flet": 1, "call": 1}), depth: 5, need: has("unquote", "splice", "macro"), macros: true})
	}
	props["P26"] = func(h *H) {
		h.rule("random programs that cancel the context at a random point, compared with a reference in which every later user call, special form and iteration stops; and endless loops of every kind; non-trivial when the program was cancelled")
		h.endless()
		h.programs(ctlProfile{w: merge(wBase, wCond, wVars, wFuns, wExit, wTag, weights{"stop": 4, "unwind": 1, "rec": 2, "handler": 1, "ignore": 1}), depth: 4, need: func(r *Ref) bool { return r.stopped }, wrap: true})
	}
	props["P27"] = func(h *H) {
		h.rule("random self-recursive functions (defun and labels) with calls in tail position below if, cond, let, let* and progn, rest parameters, closures over parameters and intercepted names, compared with the reference interpreter, which has no tail-call optimisation; non-trivial when at least two activations ran")
		h.tailCalls()
		h.programs(ctlProfile{w: merge(wBase, weights{"rec": 12, "if": 2, "let": 1, "setq": 2, "funcall": 1, "closure": 1, "block": 1, "return-from": 1, "bad": 1}), depth: 4, need: traced,
			top: func(g *gen, d int) V { return g.recursion(d) }})
	}
}
