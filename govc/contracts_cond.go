package main

// P08: the signalling mechanism itself (callHandler, signal-condition, continue-condition, with-handler), and ignore-errors.

import (
	"go/types"
	"strings"
)

// handlerInstances: every instance of callHandler that the interpreter uses.
func handlerContracts(P *Program, prop string) []*Contract {
	if prop != "P08" {
		return nil
	}
	var cs []*Contract
	for _, f := range P.allFuncs {
		n := P.fname(f)
		if !strings.HasPrefix(n, "callHandler[") || len(f.Blocks) == 0 || f.Signature.Results().Len() != 2 {
			continue
		}
		if f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			continue
		}
		tt := f.Signature.Results().At(0).Type()
		cs = append(cs, callHandlerContract("go:"+n, tt))
	}
	return cs
}

func callHandlerContract(entry string, tt types.Type) *Contract {
	cond := func(en *Entry) *T { return en.args[3].(*T) }
	return &Contract{name: entry, entry: entry, props: []string{"P08"}, autos: bothKinds,
		clause: "calls the established handler exactly once with the condition (not while a handler already runs); a value given to continue-condition is the result if continuing is permitted; a transfer of control by the handler is performed; in every other case, and without a handler, the condition is reported as the failure",
		covers: []string{"no handler", "handled"},
		setup: func(en *Entry) {
			x, st := en.ex, en.st
			g := st.ghosts
			g["h"] = x.readField(st, "shared", "handler", x.readField(st, "World", "shared", en.w))
			g["n"] = IntT(0)
			g["e"] = VNil
		},
		onEvent: func(ev *Event) {
			x, st := ev.ex, ev.st
			ev.assert("only the handler is called", boolT(ev.kind == "signal"))
			if ev.kind != "signal" {
				return
			}
			ev.assert("the handler is called once", Eq(ev.get("n", SInt), IntT(0)))
			ev.assert("the handler is the established one", Eq(ev.val(0), ev.get("h", SVal)))
			l := ev.val(3)
			ev.assert("its only argument is the condition", And(x.isCons(l), Eq(x.unwrapped(x.carN(st, l)), cond(ev.en)), x.none(x.cdrN(st, l))))
			ev.set("n", IntT(1))
		},
		after: func(ev *Event) {
			if ev.re != nil {
				ev.set("e", ev.re)
			}
		},
		onReturn: func(r *Return) {
			x, st := r.ex, r.st
			tv, _ := r.res.(TupleV)
			if len(tv) != 2 {
				return
			}
			re, _ := tv[1].(*T)
			h := r.get("h", SVal)
			r.when(Eq(h, VNil), func(r *Return) {
				r.cover("no handler")
				r.assert("without a handler the condition is the failure", Eq(re, cond(r.en)))
			})
			r.when(Not(Eq(h, VNil)), func(r *Return) {
				st = r.st
				inner := Not(Eq(UF("ctxvalue", SVal, r.en.ctx, limiter(x)), VNil))
				r.assert("the handler was called unless it is already running", Eq(Eq(r.get("n", SInt), IntT(0)), inner))
				r.cover("handled")
				e := r.get("e", SVal)
				cont := r.en.args[2].(*T)
				c := x.errAs(st, e, x.mustType("*_ErrContinueCondition"))
				cv := x.readField(st, "_ErrContinueCondition", "Value", Sel("vp", c))
				fits := False
				if types.IsInterface(tt) {
					fits = And(Not(Eq(cv, VNil)), x.implements(cv, tt))
				} else {
					fits = x.isType(cv, tt)
				}
				continued := And(cont, Not(Eq(c, VNil)), fits)
				r.when(Or(Eq(r.get("n", SInt), IntT(0)), Not(continued)), func(r *Return) {
					ran := Eq(r.get("n", SInt), IntT(1))
					r.assert("a transfer of control is performed, otherwise the condition is the failure",
						Eq(re, Ite(And(ran, isExit(x, r.st, e)), e, cond(r.en))))
				})
				r.when(And(Eq(r.get("n", SInt), IntT(1)), continued), func(r *Return) {
					r.assert("the value given is the result", Eq(re, VNil))
					if v := plainIface(x, tt, tv[0]); v != nil {
						r.assert("the value given is the result itself", Eq(v, cv))
					}
				})
			})
		}}
}

func boolT(b bool) *T {
	if b {
		return True
	}
	return False
}

// limiter is the context key that marks a running handler.
func limiter(x *Exec) *T { return Ctor("VT", IntT(int64(x.P.tid(x.mustType("callHandlerLimitter"))))) }

// isExit: e is (or wraps) a transfer of control.
func isExit(x *Exec, st *State, e *T) *T {
	b, _, _ := exitBlock.of(x, st, e)
	c, _, _ := exitCatch.of(x, st, e)
	g, _, _ := exitGo.of(x, st, e)
	return Or(b, c, g)
}

// plainIface: the interface value of v where it needs no allocation.
func plainIface(x *Exec, t types.Type, v Value) *T {
	if types.IsInterface(t) {
		r, _ := v.(*T)
		return r
	}
	tid := IntT(int64(x.P.tid(t)))
	switch k := ifaceKind(t); k {
	case "VI", "VB", "VS", "VF", "VP", "VFn":
		if s, ok := v.(*T); ok {
			return Ctor(k, tid, s)
		}
	case "VX":
		if sv, ok := v.(StructV); ok {
			return Ctor("VX", tid, sv.fields[0].(*T))
		}
	}
	return nil
}

func condContracts() []*Contract {
	var cs []*Contract
	handler := func(x *Exec, st *State, w *T) *T {
		return x.readField(st, "shared", "handler", x.readField(st, "World", "shared", w))
	}
	// continue-condition
	cs = append(cs, &Contract{name: "lisp:continue-condition", entry: "lisp:continue-condition", props: []string{"P08"}, autos: bothKinds, codeImmutable: true,
		clause: "evaluates the condition and the value and always ends in the exit that carries both to the signalling operation",
		covers: []string{"continued", "failure"},
		setup: func(en *Entry) {
			outcomeSetup(en)
			en.st.ghosts["pos"] = en.list
			en.st.ghosts["first"] = VNil
		},
		onEvent: func(ev *Event) {
			if ev.kind == "handler" {
				ev.assert("a condition of its own only for a malformed form", Not(ev.ex.isCons(ev.get("pos", SVal))))
				return
			}
			if !isEval(ev) {
				noCalls(ev)
				return
			}
			pos := ev.get("pos", SVal)
			ev.assert("a form is left", ev.ex.isCons(pos))
			evalHere(ev, ev.ex.carN(ev.st, pos))
			ev.set("pos", ev.ex.cdrN(ev.st, pos))
		},
		after: func(ev *Event) {
			if isEval(ev) {
				ev.set("first", Ite(Eq(ev.get("n", SInt), IntT(0)), ev.rv, ev.get("first", SVal)))
			}
			outcomeAfter(ev)
		},
		onReturn: func(r *Return) {
			x, st := r.ex, r.st
			r.assert("it never returns a value", Not(Eq(r.re, VNil)))
			f := r.get("failed", SBool)
			r.when(f, func(r *Return) {
				r.cover("failure")
				r.assert("a failing argument is reported unchanged", Eq(r.re, r.get("err", SVal)))
			})
			ok := And(Not(f), Eq(r.get("n", SInt), IntT(2)), x.none(r.get("pos", SVal)))
			r.when(ok, func(r *Return) {
				r.cover("continued")
				st = r.st
				r.assert("the exit is a continuation", x.isType(r.re, x.mustType("*_ErrContinueCondition")))
				ref := Sel("vp", r.re)
				r.assert("it carries the value", Eq(x.readField(st, "_ErrContinueCondition", "Value", ref), r.get("last", SVal)))
				r.assert("it carries the condition", Eq(x.readField(st, "_ErrContinueCondition", "Cond", ref), r.get("first", SVal)))
			})
		}})
	// signal-condition
	cs = append(cs, &Contract{name: "lisp:signal-condition", entry: "lisp:signal-condition", props: []string{"P08"}, autos: bothKinds,
		clause: "calls the established handler exactly once with the condition; returns a value only when the condition is continuable and the handler continued with that value; otherwise, and without a handler, it fails",
		covers: []string{"no handler", "continued", "handler failed"},
		setup: func(en *Entry) {
			g := en.st.ghosts
			g["h"] = handler(en.ex, en.st, en.w)
			g["n"] = IntT(0)
			g["e"] = VNil
		},
		onEvent: func(ev *Event) {
			x, st := ev.ex, ev.st
			h := ev.get("h", SVal)
			if ev.kind == "signal" {
				ev.assert("the handler is called once", Eq(ev.get("n", SInt), IntT(0)))
				ev.assert("the handler is the established one", Eq(ev.val(0), h))
				l := ev.val(3)
				ev.assert("its only argument is the condition", And(x.isCons(l), Eq(x.unwrapped(x.carN(st, l)), ev.en.arg), x.none(x.cdrN(st, l))))
				ev.set("n", IntT(1))
				return
			}
			ev.assert("other calls are made only without a handler", Eq(h, VNil))
		},
		after: func(ev *Event) {
			if ev.kind == "signal" {
				ev.set("e", ev.re)
			}
		},
		onReturn: func(r *Return) {
			x := r.ex
			h := r.get("h", SVal)
			r.when(Eq(h, VNil), func(r *Return) {
				r.cover("no handler")
				r.assert("without a handler it fails", Not(Eq(r.re, VNil)))
			})
			r.when(Not(Eq(h, VNil)), func(r *Return) {
				r.assert("the handler was called", Eq(r.get("n", SInt), IntT(1)))
				e := r.get("e", SVal)
				c := x.errAs(r.st, e, x.mustType("*_ErrContinueCondition"))
				continued := And(x.some(r.en.arg2), Not(Eq(c, VNil)))
				r.when(continued, func(r *Return) {
					r.cover("continued")
					r.assert("the value given to continue-condition is the result", And(Eq(r.re, VNil), Eq(r.rv, x.readField(r.st, "_ErrContinueCondition", "Value", Sel("vp", c)))))
				})
				r.when(Not(continued), func(r *Return) {
					r.assert("otherwise it fails", Not(Eq(r.re, VNil)))
				})
				r.when(And(Not(continued), Not(Eq(e, VNil))), func(r *Return) {
					r.cover("handler failed")
					r.assert("with the failure or exit of the handler", Eq(r.re, e))
				})
			})
		}})
	// with-handler
	cs = append(cs, &Contract{name: "lisp:with-handler", entry: "lisp:with-handler", props: []string{"P08"}, autos: bothKinds, codeImmutable: true,
		clause: "evaluates the handler form, then its body forms in order with that handler established; a value or a transfer of control of the body passes through unchanged without calling the handler; any other failure stays a failure",
		covers: []string{"value", "exit", "failure"},
		setup: func(en *Entry) {
			outcomeSetup(en)
			g := en.st.ghosts
			g["pos"] = en.list
			g["hv"] = VNil
			g["own"] = False // the handler form did not yield a function
			g["called"] = False
		},
		onEvent: func(ev *Event) {
			x, st := ev.ex, ev.st
			switch ev.kind {
			case "eval":
				pos := ev.get("pos", SVal)
				ev.assert("a form is left", x.isCons(pos))
				evalHere(ev, x.carN(st, pos))
				hv := ev.get("hv", SVal)
				ev.assert("the handler is established while the body is evaluated",
					Or(Eq(ev.get("n", SInt), IntT(0)), ev.get("own", SBool), Eq(handler(x, st, ev.en.w), Sel("vx", x.unwrapped(hv)))))
				ev.set("pos", x.cdrN(st, pos))
			case "handler":
				ev.assert("a condition of its own only for a malformed form or a handler that is no function",
					Or(Not(x.isCons(ev.get("pos", SVal))), Eq(ev.get("n", SInt), IntT(1))))
				ev.set("own", True)
			case "signal", "call":
				ev.assert("the handler is called only for a failure that is no transfer of control",
					And(ev.get("failed", SBool), Not(isExit(x, st, ev.get("err", SVal))), Lt(IntT(0), ev.get("n", SInt))))
				ev.assert("the handler called is the one established", Or(ev.get("own", SBool), Eq(ev.val(0), Sel("vx", x.unwrapped(ev.get("hv", SVal))))))
				ev.set("called", True)
			default:
				noCalls(ev)
			}
		},
		after: func(ev *Event) {
			if isEval(ev) {
				first := Eq(ev.get("n", SInt), IntT(0))
				ev.set("hv", Ite(first, ev.rv, ev.get("hv", SVal)))
				outcomeAfter(ev)
				ev.set("last", Ite(first, ev.ex.nullVal(), ev.get("last", SVal)))
			}
			if ev.kind == "handler" {
				outcomeAfter(ev)
			}
		},
		loopCands: func(lc *loopCtx) []cand {
			x := lc.ex
			return []cand{
				{name: "handler established", f: func(st *State, s *slots) *T {
					return Or(x.ghost(st, "own", SBool), Eq(handler(x, st, x.en.w), Sel("vx", x.unwrapped(x.ghost(st, "hv", SVal)))))
				}},
				{name: "handler form done", f: func(st *State, s *slots) *T { return Lt(IntT(0), x.ghost(st, "n", SInt)) }},
			}
		},
		onReturn: func(r *Return) {
			x := r.ex
			f := r.get("failed", SBool)
			e := r.get("err", SVal)
			r.when(Not(f), func(r *Return) {
				r.when(Eq(r.re, VNil), func(r *Return) {
					r.cover("value")
					r.assert("all body forms were evaluated", x.none(r.get("pos", SVal)))
					r.assert("the value of the body is returned", Or(Le(r.get("n", SInt), IntT(1)), x.same(r.rv, r.get("last", SVal))))
				})
				r.when(Not(Eq(r.re, VNil)), func(r *Return) {
					pos := r.get("pos", SVal)
					r.assert("a failure of its own only for a malformed form", And(Or(Eq(r.get("n", SInt), IntT(0)), x.some(pos)), Not(x.isCons(pos))))
				})
			})
			r.when(f, func(r *Return) {
				r.cover("failure")
				r.assert("a failure is never turned into a value", Not(Eq(r.re, VNil)))
				r.when(isExit(x, r.st, e), func(r *Return) {
					r.cover("exit")
					r.assert("a transfer of control passes through unchanged", Eq(r.re, e))
				})
			})
		}})
	// ignore-errors
	cs = append(cs, &Contract{name: "lisp:ignore-errors", entry: "lisp:ignore-errors", props: []string{"P08", "P04"}, autos: bothKinds, codeImmutable: true,
		clause: "evaluates its forms in order and returns the last value; a transfer of control, a continuation, quit or abort passes through unchanged; a failure is returned as nil",
		covers: []string{"value", "exit", "ignored"},
		setup: func(en *Entry) {
			outcomeSetup(en)
			en.st.ghosts["pos"] = en.list
		},
		onEvent: func(ev *Event) {
			if ev.kind == "handler" {
				return
			}
			if !isEval(ev) {
				noCalls(ev)
				return
			}
			pos := ev.get("pos", SVal)
			ev.assert("a form is left", ev.ex.isCons(pos))
			evalHere(ev, ev.ex.carN(ev.st, pos))
			ev.set("pos", ev.ex.cdrN(ev.st, pos))
		},
		after: outcomeAfter,
		onReturn: func(r *Return) {
			x := r.ex
			f := r.get("failed", SBool)
			e := r.get("err", SVal)
			can := r.get("cancelled", SBool)
			r.when(Not(f), func(r *Return) {
				r.when(And(Eq(r.re, VNil), x.none(r.get("pos", SVal))), func(r *Return) {
					r.cover("value")
					r.assert("the value of the last form is returned", x.same(r.rv, r.get("last", SVal)))
				})
			})
			r.when(And(f, Not(can)), func(r *Return) {
				r.when(isExit(x, r.st, e), func(r *Return) {
					r.cover("exit")
					r.assert("a transfer of control passes through unchanged", Eq(r.re, e))
				})
				r.when(Eq(r.re, VNil), func(r *Return) {
					r.cover("ignored")
					r.assert("an ignored failure yields nil", x.none(r.rv))
				})
				r.when(Not(Eq(r.re, VNil)), func(r *Return) {
					r.assert("what is not ignored is passed on unchanged", Eq(r.re, e))
				})
			})
		}})
	return cs
}

func init() {
	generatedContracts = append(generatedContracts, handlerContracts)
	contractSets = append(contractSets, condContracts)
}
