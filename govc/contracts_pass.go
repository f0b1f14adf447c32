package main

// P08: failures are never lost. Every built-in other than the constructs that intercept failures by definition stops at the first
// failing evaluation and reports exactly that failure (generated contracts).
//
// P26: cancellation. A call of a user function or special form in a cancelled context evaluates nothing and fails with the
// context's error; loops and the tail-call loop begin no iteration in a cancelled context.

// interceptors receive failures by definition and have contracts of their own (or are listed as not covered).
var interceptors = map[string]string{
	"block":            "own contract (P04)",
	"catch":            "own contract (P04)",
	"tagbody":          "own contract (P05)",
	"unwind-protect":   "own contract (P06)",
	"ignore-errors":    "own contract (P26)",
	"with-handler":     "own contract",
	"signal-condition": "own contract",
}

// exitsOnly: macros are expanded in advance; when the expansion fails it is tried again, and its failure reported, at run time. A
// transfer of control is performed at once all the same.
var exitsOnly = map[string]bool{"expand": true}

// passParams: the definitions of local functions, with the parameter list parser through its own contract.
var passParams = map[string]bool{"lisp:flet": true, "lisp:labels": true}

func passSetup(en *Entry) {
	g := en.st.ghosts
	g["failed"] = False
	g["err"] = VNil
}

func passContracts(P *Program, prop string) []*Contract {
	if prop != "P08" {
		return nil
	}
	var cs []*Contract
	entries := []string{"go:getParameterList", "go:newLambda"}
	for _, n := range sortedKeys(P.builtins) {
		if notProved[n] == "" && interceptors[n] == "" {
			entries = append(entries, "lisp:"+n)
		}
	}
	for _, n := range entries {
		through := map[string]string{"expandMacroInList": "expand"}
		if passParams[n] || n == "go:newLambda" {
			through["getParameterList"] = "params"
		}
		cs = append(cs, &Contract{name: "failure passes: " + n, entry: n, props: []string{prop}, autos: []string{"none"}, mayBeTrivial: true, eventFuncs: through,
			clause: "nothing is evaluated after a failing evaluation, and its failure is reported, as it is or with a note added",
			setup:  passSetup,
			onEvent: func(ev *Event) {
				ev.assert("no evaluation after a failure", Not(ev.get("failed", SBool)))
			},
			after: func(ev *Event) {
				if ev.re == nil {
					return
				}
				bad := Not(Eq(ev.re, VNil))
				if exitsOnly[ev.kind] || n == "lisp:lambda" { // lambda reports an error that is not a condition as a program error
					b, _, _ := exitBlock.of(ev.ex, ev.st, ev.re)
					c, _, _ := exitCatch.of(ev.ex, ev.st, ev.re)
					g, _, _ := exitGo.of(ev.ex, ev.st, ev.re)
					bad = Or(b, c, g)
				}
				ev.set("err", Ite(bad, ev.re, ev.get("err", SVal)))
				ev.set("failed", Or(ev.get("failed", SBool), bad))
			},
			loopCands: func(lc *loopCtx) []cand {
				return []cand{{name: "nothing has failed", f: func(st *State, s *slots) *T { return Not(lc.ex.ghost(st, "failed", SBool)) }}}
			},
			onReturn: func(r *Return) {
				if r.re == nil {
					return
				}
				err := r.get("err", SVal)
				r.assert("the failure is reported, as it is or with a note added", Implies(r.get("failed", SBool), Or(Eq(r.re, err), And(Is("VW", r.re), Eq(Sel("vw", r.re), err)))))
			}})
	}
	return cs
}

// cancelledContracts: P26.
func cancelContracts() []*Contract {
	var cs []*Contract
	ctxerr := func(x *Exec, en *Entry) *T { return UF("ctxerr", SVal, en.ctx) }
	start := func(en *Entry) { en.st.ghosts["cancelled"] = True }
	for _, f := range []string{"(SpecialF).Call", "(*Function).Call", "(*_Lambda).Call"} {
		cs = append(cs, &Contract{name: "cancelled: " + f, entry: "go:" + f, props: []string{"P26"}, autos: []string{"none"}, setup: start,
			clause:  "called in a cancelled context it evaluates and calls nothing and fails with the context's error",
			covers:  []string{"returned"},
			onEvent: func(ev *Event) { ev.assert("nothing is evaluated or called in a cancelled context", False) },
			onReturn: func(r *Return) {
				r.cover("returned")
				r.assert("it fails with the context's error", Eq(r.re, ctxerr(r.ex, r.en)))
			}})
	}
	cs = append(cs, &Contract{name: "cancelled: evalWithTailRecOpt", entry: "go:evalWithTailRecOpt", props: []string{"P26"}, autos: []string{"none"},
		clause: "the tail position of a named function, evaluated in a cancelled context, evaluates nothing (no argument of the optimised call, no special form) and fails with the context's error",
		covers: []string{"returned"},
		setup: func(en *Entry) {
			start(en)
			en.st.assume(named(en.ex, en.args[3].(*T)))
		},
		onEvent: func(ev *Event) { ev.assert("nothing is evaluated or called in a cancelled context", False) },
		onReturn: func(r *Return) {
			r.cover("returned")
			r.assert("it fails with the context's error", Eq(r.re, ctxerr(r.ex, r.en)))
		}})
	// while: the contract of P02, in a context that the evaluations may cancel
	for _, c := range controlContracts() {
		if c.entry != "lisp:while" {
			continue
		}
		w := *c
		w.name, w.props, w.autos = "cancelled: while", []string{"P26"}, []string{"none"}
		w.clause = "no iteration of while begins after the context was cancelled; the loop then fails with the context's error"
		w.covers = nil
		w.setup = func(en *Entry) {
			c.setup(en)
			en.st.ghosts["cancelled"] = Const("cancelled.before", SBool)
		}
		w.onEvent = func(ev *Event) {
			c.onEvent(ev)
			if !isEval(ev) {
				return
			}
			ev.assert("no iteration begins in a cancelled context", Implies(ev.get("attest", SBool), Not(ev.get("cancelled", SBool))))
		}
		cs = append(cs, &w)
	}
	// the loop that replaces tail calls
	tail := func(x *Exec, st *State, e *T) (is, callee, params *T) {
		r := x.errAs(st, e, x.mustType("*_ErrTailRecOpt"))
		ref := Sel("vp", r)
		return Not(Eq(r, VNil)), x.readField(st, "_ErrTailRecOpt", "callee", ref), x.readField(st, "_ErrTailRecOpt", "params", ref)
	}
	cs = append(cs, &Contract{name: "cancelled: tail calls", entry: "go:(*_Lambda).Call", props: []string{"P26"}, autos: []string{"none"},
		eventFuncs: map[string]string{"prognWithTailRecOpt": "body", "(*_Lambda).Call": "call"},
		clause:     "no iteration of the loop that replaces tail calls begins after the context was cancelled; the call then fails with the context's error",
		covers:     []string{"iteration", "stopped"},
		setup: func(en *Entry) {
			en.st.ghosts["cancelled"] = Const("cancelled.before", SBool)
			en.st.ghosts["again"] = False
		},
		onEvent: func(ev *Event) {
			if ev.kind == "body" {
				ev.ex.Covers["iteration"] = true
				ev.assert("no iteration begins in a cancelled context", Implies(ev.get("again", SBool), Not(ev.get("cancelled", SBool))))
				return
			}
			ev.assert("nothing else is evaluated or called in a cancelled context", Not(And(ev.get("again", SBool), ev.get("cancelled", SBool))))
		},
		loopCands: func(lc *loopCtx) []cand {
			return []cand{{name: "live", f: func(st *State, s *slots) *T {
				return Implies(lc.ex.ghost(st, "again", SBool), Not(lc.ex.ghost(st, "cancelled", SBool)))
			}}}
		},
		after: func(ev *Event) {
			if ev.kind == "body" {
				is, callee, _ := tail(ev.ex, ev.st, ev.re)
				ev.set("again", And(is, Eq(callee, ev.en.args[0].(*T))))
			} else {
				ev.set("again", False)
			}
		},
		onReturn: func(r *Return) {
			r.when(And(r.get("again", SBool), r.get("cancelled", SBool)), func(r *Return) {
				r.cover("stopped")
				r.assert("it fails with the context's error", Eq(r.re, ctxerr(r.ex, r.en)))
			})
		}})
	// ignore-errors
	cs = append(cs, &Contract{name: "cancelled: ignore-errors", entry: "lisp:ignore-errors", props: []string{"P26"}, autos: []string{"none"},
		clause: "a failure in a cancelled context is not ignored: the context's error is reported",
		covers: []string{"cancelled", "ignored"},
		setup: func(en *Entry) {
			en.st.ghosts["cancelled"] = Const("cancelled.before", SBool)
			outcomeSetup(en)
		},
		after: outcomeAfter,
		onReturn: func(r *Return) {
			f := r.get("failed", SBool)
			can := r.get("cancelled", SBool)
			r.when(And(f, can), func(r *Return) {
				r.cover("cancelled")
				r.assert("the context's error is reported", Eq(r.re, ctxerr(r.ex, r.en)))
			})
			r.when(And(f, Eq(r.re, VNil)), func(r *Return) { r.cover("ignored") })
		}})
	return cs
}

func named(x *Exec, sym *T) *T {
	return And(x.isType(sym, x.mustType("_Symbol")), Le(IntT(0), Sel("vi", sym)))
}

func init() { contractSets = append(contractSets, cancelContracts) }

func init() { generatedContracts = append(generatedContracts, passContracts) }
