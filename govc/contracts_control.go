package main

// Contracts of the control constructs (properties P02, P04, P05, P06).
//
// Every construct is a special form: its entry receives the list of its unevaluated forms, and each evaluation it performs is
// an event with the arguments (world, context, form). Ghost variables record how far the construct has progressed according to
// the language definition; every event must be the evaluation that the definition asks for next, and the postcondition
// relates the result to the recorded outcomes.

import "golang.org/x/tools/go/ssa"

var _ *ssa.Function

func (ex *Exec) nrm(v *T) *T             { return Ite(Eq(v, VNil), ex.nullVal(), v) }
func (ex *Exec) carN(st *State, v *T) *T { return ex.nrm(ex.car(st, v)) }
func (ex *Exec) cdrN(st *State, v *T) *T { return ex.nrm(ex.cdr(st, v)) }

// same: equal values (the Lisp value nil has two representations).
func (ex *Exec) same(a, b *T) *T { return Or(Eq(a, b), And(ex.none(a), ex.none(b))) }
func (ex *Exec) some(a *T) *T    { return Not(ex.none(a)) }

// outcome ghosts: last value, whether an evaluation has failed, and its failure.
func outcomeSetup(en *Entry) {
	g := en.st.ghosts
	g["last"] = en.ex.nullVal()
	g["failed"] = False
	g["err"] = VNil
	g["n"] = IntT(0)
	g["bv"] = en.ex.nullVal()
}

func outcomeAfter(ev *Event) {
	if ev.re == nil {
		return
	}
	bad := Not(Eq(ev.re, VNil))
	f := ev.get("failed", SBool)
	if ev.kind == "handler" {
		// signalling: the construct fails with what the handler decided
		ev.set("err", Ite(bad, ev.re, ev.get("err", SVal)))
		ev.set("failed", Or(f, bad))
		return
	}
	ev.set("err", Ite(bad, ev.re, ev.get("err", SVal)))
	ev.set("failed", Or(f, bad))
	ev.set("last", Ite(bad, ev.get("last", SVal), ev.rv))
	ev.set("n", Add(ev.get("n", SInt), IntT(1)))
}

// evalHere: the event evaluates form in the construct's own environment and context, and nothing has failed before.
func evalHere(ev *Event, form *T) {
	ev.assert("no evaluation after a failure", Not(ev.get("failed", SBool)))
	ev.assert("evaluated in the form's environment", Eq(ev.val(0), ev.en.w))
	ev.assert("evaluated in the given context", Eq(ev.val(1), ev.en.ctx))
	ev.assert("the form the definition selects next", ev.ex.same(ev.val(2), form))
}

func isEval(ev *Event) bool { return ev.kind == "eval" }

// okErr splits the postcondition.
func (r *Return) outcome(ok func(*Return), malformed *T, failed func(*Return)) {
	x := r.ex
	f := r.get("failed", SBool)
	r.when(Eq(r.re, VNil), func(r *Return) {
		r.cover("success")
		r.assert("no success after a failed evaluation", Not(f))
		ok(r)
	})
	r.when(Not(Eq(r.re, VNil)), func(r *Return) {
		r.cover("failure")
		r.when(f, func(r *Return) {
			r.assert("the failure of the evaluation is reported unchanged", Eq(r.re, r.get("err", SVal)))
		})
		r.when(Not(f), func(r *Return) {
			r.assert("a failure of its own only for a malformed form", malformed)
		})
		if failed != nil {
			failed(r)
		}
	})
	_ = x
}

func noCalls(ev *Event) {
	ev.assert("no other call than the evaluation of its forms", False)
}

func controlContracts() []*Contract {
	var cs []*Contract
	add := func(c *Contract) {
		if c.entry == "" {
			c.entry = c.name
		}
		c.codeImmutable = true
		cs = append(cs, c)
	}
	autos := bothKinds

	// progn, block: the forms in order
	seqSetup := func(start func(en *Entry) *T) func(en *Entry) {
		return func(en *Entry) {
			outcomeSetup(en)
			en.st.ghosts["pos"] = start(en)
		}
	}
	seqEvent := func(ev *Event) {
		if ev.kind == "handler" {
			return
		}
		if !isEval(ev) {
			noCalls(ev)
			return
		}
		x := ev.ex
		pos := ev.get("pos", SVal)
		ev.assert("a form is left", x.isCons(pos))
		evalHere(ev, x.carN(ev.st, pos))
		ev.set("pos", x.cdrN(ev.st, pos))
	}
	whole := func(en *Entry) *T { return en.list }
	improper := func(r *Return) *T {
		pos := r.get("pos", SVal)
		return And(r.ex.some(pos), Not(r.ex.isCons(pos)))
	}
	seqOK := func(r *Return) {
		r.assert("all forms were evaluated", r.ex.none(r.get("pos", SVal)))
		r.assert("the value of the last form is returned", r.ex.same(r.rv, r.get("last", SVal)))
	}
	add(&Contract{name: "lisp:progn", props: []string{"P02"}, autos: autos, setup: seqSetup(whole), onEvent: seqEvent, after: outcomeAfter,
		clause:   "evaluates every form once, in order, in its own environment; returns the last value (nil when there is none); the first failure ends it and is returned",
		covers:   []string{"success", "failure"},
		onReturn: func(r *Return) { r.outcome(seqOK, improper(r), nil) }})

	// if
	add(&Contract{name: "lisp:if", props: []string{"P02"}, autos: autos, setup: outcomeSetup, after: outcomeAfter,
		clause: "evaluates the test once, then exactly the selected branch; nil without an else branch",
		covers: []string{"success", "failure", "then", "else", "no else"},
		onEvent: func(ev *Event) {
			if ev.kind == "handler" {
				return
			}
			if !isEval(ev) {
				noCalls(ev)
				return
			}
			x, st := ev.ex, ev.st
			L := ev.en.list
			n := ev.get("n", SInt)
			r := x.cdrN(st, L)
			rr := x.cdrN(st, r)
			ev.assert("at most two evaluations", Lt(n, IntT(2)))
			first := Eq(n, IntT(0))
			test := ev.get("last", SVal)
			ev.assert("the else branch exists", Or(first, x.some(test), x.isCons(rr)))
			evalHere(ev, Ite(first, x.carN(st, L), Ite(x.some(test), x.carN(st, r), x.carN(st, rr))))
			ev.set("test", Ite(first, VNil, test))
		},
		onReturn: func(r *Return) {
			x, st := r.ex, r.st
			L := r.en.list
			d := x.cdrN(st, L)
			dd := x.cdrN(st, d)
			wellformed := And(x.isCons(L), x.isCons(d), Or(x.none(dd), And(x.isCons(dd), x.none(x.cdrN(st, dd)))))
			n := r.get("n", SInt)
			r.outcome(func(r *Return) {
				r.assert("the form is well-formed", wellformed)
				r.when(Eq(n, IntT(2)), func(r *Return) {
					r.when(x.some(r.get("test", SVal)), func(r *Return) { r.cover("then") })
					r.when(x.none(r.get("test", SVal)), func(r *Return) { r.cover("else") })
					r.assert("the value of the branch", x.same(r.rv, r.get("last", SVal)))
				})
				r.when(Not(Eq(n, IntT(2))), func(r *Return) {
					r.cover("no else")
					r.assert("without a branch evaluation the test failed and there is no else branch", And(Eq(n, IntT(1)), x.none(r.get("last", SVal)), Or(x.none(dd), x.none(x.carN(st, dd)))))
					r.assert("the value is nil", x.none(r.rv))
				})
			}, Not(wellformed), nil)
		}})

	// and / or
	for _, isAnd := range []bool{true, false} {
		isAnd := isAnd
		stop := func(x *Exec, v *T) *T {
			if isAnd {
				return x.none(v)
			}
			return x.some(v)
		}
		name := "lisp:or"
		if isAnd {
			name = "lisp:and"
		}
		add(&Contract{name: name, props: []string{"P02"}, autos: autos, after: outcomeAfter,
			clause: "evaluates the forms in order up to the first one that decides and returns the value of the last one evaluated",
			covers: []string{"success", "failure"},
			setup: func(en *Entry) {
				outcomeSetup(en)
				en.st.ghosts["pos"] = en.list
				if isAnd {
					en.st.ghosts["last"] = en.ex.trueVal()
				}
			},
			onEvent: func(ev *Event) {
				if isEval(ev) {
					ev.assert("no evaluation after the deciding form", Not(stop(ev.ex, ev.get("last", SVal))))
				}
				seqEvent(ev)
			},
			onReturn: func(r *Return) {
				x := r.ex
				last := r.get("last", SVal)
				r.outcome(func(r *Return) {
					r.assert("stops only at the deciding form or at the end", Or(stop(x, last), x.none(r.get("pos", SVal))))
					r.assert("the value of the last form evaluated", x.same(r.rv, last))
				}, improper(r), nil)
			}})
	}

	// cond
	add(&Contract{name: "lisp:cond", props: []string{"P02"}, autos: autos,
		clause: "evaluates the tests in order up to the first that holds, then exactly the forms of that clause",
		covers: []string{"success", "failure", "no clause", "body"},
		setup: func(en *Entry) {
			outcomeSetup(en)
			en.st.ghosts["pos"] = en.list
			en.st.ghosts["body"] = en.ex.nullVal()
			en.st.ghosts["chosen"] = False
			en.st.ghosts["inbody"] = False
		},
		onEvent: func(ev *Event) {
			if ev.kind == "handler" {
				return
			}
			if !isEval(ev) {
				noCalls(ev)
				return
			}
			x, st := ev.ex, ev.st
			ch, pos, body := ev.get("chosen", SBool), ev.get("pos", SVal), ev.get("body", SVal)
			clause := x.carN(st, pos)
			ev.assert("there is such a form", Ite(ch, x.isCons(body), And(x.isCons(pos), x.isCons(clause))))
			evalHere(ev, Ite(ch, x.carN(st, body), x.carN(st, clause)))
			ev.set("inbody", ch)
			ev.set("pos", Ite(ch, pos, x.cdrN(st, pos)))
			ev.set("body", Ite(ch, x.cdrN(st, body), x.cdrN(st, clause)))
		},
		after: func(ev *Event) {
			outcomeAfter(ev)
			if isEval(ev) {
				ok := Eq(ev.re, VNil)
				hit := And(Not(ev.get("inbody", SBool)), ok, ev.ex.some(ev.rv))
				ev.set("bv", Ite(hit, Ite(ev.ex.none(ev.get("body", SVal)), ev.rv, ev.ex.nullVal()), Ite(And(ev.get("inbody", SBool), ok), ev.rv, ev.get("bv", SVal))))
				ev.set("chosen", Or(ev.get("chosen", SBool), And(Eq(ev.re, VNil), ev.ex.some(ev.rv))))
			}
		},
		onReturn: func(r *Return) {
			x, st := r.ex, r.st
			ch, pos, body := r.get("chosen", SBool), r.get("pos", SVal), r.get("body", SVal)
			mal := Ite(ch, And(x.some(body), Not(x.isCons(body))), And(x.some(pos), Or(Not(x.isCons(pos)), Not(x.isCons(x.carN(st, pos))))))
			r.outcome(func(r *Return) {
				r.when(ch, func(r *Return) {
					r.cover("body")
					r.assert("all forms of the clause were evaluated", x.none(body))
					r.assert("the value of the last form", x.same(r.rv, r.get("bv", SVal)))
				})
				r.when(Not(ch), func(r *Return) {
					r.cover("no clause")
					r.assert("every clause was tried", x.none(pos))
					r.assert("the value is nil", x.none(r.rv))
				})
			}, mal, nil)
		}})

	// while
	add(&Contract{name: "lisp:while", props: []string{"P02"}, autos: autos,
		clause: "alternates between the test and all body forms in order; ends when the test is nil",
		covers: []string{"success", "failure"},
		setup: func(en *Entry) {
			outcomeSetup(en)
			en.st.ghosts["body"] = en.ex.nullVal()
			en.st.ghosts["done"] = False
			en.st.ghosts["attest"] = True
			en.st.ghosts["ran"] = False
		},
		onEvent: func(ev *Event) {
			if ev.kind == "handler" {
				return
			}
			if !isEval(ev) {
				noCalls(ev)
				return
			}
			x, st := ev.ex, ev.st
			L := ev.en.list
			body := ev.get("body", SVal)
			ev.assert("nothing after the test was nil", Not(ev.get("done", SBool)))
			ev.assert("the form has a test", x.isCons(L))
			test := x.none(body)
			ev.assert("a body form is left", Or(test, x.isCons(body)))
			evalHere(ev, Ite(test, x.carN(st, L), x.carN(st, body)))
			ev.set("attest", test)
			ev.set("body", Ite(test, x.cdrN(st, L), x.cdrN(st, body)))
		},
		after: func(ev *Event) {
			if !isEval(ev) {
				outcomeAfter(ev)
				return
			}
			x := ev.ex
			bad := Not(Eq(ev.re, VNil))
			at := ev.get("attest", SBool)
			ev.set("err", Ite(bad, ev.re, ev.get("err", SVal)))
			ev.set("failed", Or(ev.get("failed", SBool), bad))
			ev.set("done", And(at, Not(bad), x.none(ev.rv)))
			ev.set("bv", Ite(And(at, Not(bad), x.some(ev.rv)), x.nullVal(), Ite(And(Not(at), Not(bad)), ev.rv, ev.get("bv", SVal))))
		},
		onReturn: func(r *Return) {
			x := r.ex
			body := r.get("body", SVal)
			cancelled := Eq(r.re, UF("ctxerr", SVal, r.en.ctx))
			r.outcome(func(r *Return) {
				r.assert("ends only when the test is nil", r.get("done", SBool))
				r.assert("the value of the last body form (nil when there is none)", x.same(r.rv, r.get("bv", SVal)))
			}, Or(Not(x.isCons(r.en.list)), And(x.some(body), Not(x.isCons(body))), cancelled), nil)
		}})

	// case
	sel := func(sw, L *T) *T { return UF("spec:caseSel", SVal, sw, L) }
	mem := func(sw, L *T) *T { return UF("spec:caseMem", SBool, sw, L) }
	eql := func(sw, k, ver *T) *T { return UF("nodeEquals", SBool, sw, k, IntT(0), ver) }
	add(&Contract{name: "lisp:case", props: []string{"P02"}, autos: autos, after: func(ev *Event) {
		outcomeAfter(ev)
		if isEval(ev) {
			x := ev.ex
			first := Eq(ev.get("n", SInt), IntT(1))
			ev.set("sw", Ite(first, ev.rv, ev.get("sw", SVal)))
			ev.set("body", Ite(first, sel(ev.rv, x.cdrN(ev.st, ev.en.list)), ev.get("body", SVal)))
			ev.set("bv", Ite(first, x.nullVal(), ev.get("last", SVal)))
		}
	},
		clause: "evaluates the key once, selects the first clause whose key list contains a value eql to it (or whose key is t) and evaluates exactly its forms; nil when there is none",
		covers: []string{"success", "failure", "no clause"}, abstractEquals: true,
		setup: func(en *Entry) {
			outcomeSetup(en)
			en.st.ghosts["sw"] = VNil
			en.st.ghosts["body"] = en.ex.nullVal()
		},
		onEvent: func(ev *Event) {
			if ev.kind == "handler" {
				return
			}
			if !isEval(ev) {
				noCalls(ev)
				return
			}
			x, st := ev.ex, ev.st
			L := ev.en.list
			first := Eq(ev.get("n", SInt), IntT(0))
			body := ev.get("body", SVal)
			ev.assert("there is such a form", Or(first, x.isCons(body)))
			evalHere(ev, Ite(first, x.carN(st, L), x.carN(st, body)))
			ev.set("body", Ite(first, x.nullVal(), x.cdrN(st, body)))
		},
		recs: []recSpec{{name: "caseSel/caseMem", at: func(ex *Exec, st *State, v, car, cdr *T) *T {
			sw := ex.ghost(st, "sw", SVal)
			ver := st.version()
			keys := ex.carN(st, car)
			hit := Or(And(ex.isCons(keys), mem(sw, keys)), And(Not(ex.isCons(keys)), UF("nodeEquals", SBool, keys, ex.trueVal(), IntT(0), ver)))
			return And(
				Implies(ex.isCons(car), Eq(sel(sw, v), Ite(hit, ex.cdrN(st, car), sel(sw, cdr)))),
				Eq(mem(sw, v), Or(eql(sw, car, ver), mem(sw, cdr))))
		}, base: func(ex *Exec, st *State) *T {
			sw := ex.ghost(st, "sw", SVal)
			n := ex.nullVal()
			return And(Eq(sel(sw, n), n), Not(mem(sw, n)), Eq(sel(sw, VNil), n), Not(mem(sw, VNil)))
		}}},
		loopCands: func(lc *loopCtx) []cand {
			return recCands(lc, func(st *State, a, b *T) map[string]*T {
				sw := lc.ex.ghost(st, "sw", SVal)
				return map[string]*T{"sel": Eq(sel(sw, a), sel(sw, b)), "mem": Eq(mem(sw, a), mem(sw, b))}
			})
		},
		onReturn: func(r *Return) {
			x := r.ex
			n := r.get("n", SInt)
			body := r.get("body", SVal)
			r.outcome(func(r *Return) {
				r.assert("the key was evaluated", Lt(IntT(0), n))
				r.assert("all forms of the selected clause were evaluated", x.none(body))
				r.assert("the value", x.same(r.rv, r.get("bv", SVal)))
				r.when(Eq(n, IntT(1)), func(r *Return) { r.cover("no clause") })
			}, True, nil)
		}})

	// unwind-protect
	add(&Contract{name: "lisp:unwind-protect", props: []string{"P06"}, autos: autos,
		clause: "evaluates the protected form once, then the cleanup forms once each in order whatever happened; when they complete, the outcome is the protected form's own",
		covers: []string{"protected value", "protected failure", "cleanup failure"},
		setup: func(en *Entry) {
			outcomeSetup(en)
			g := en.st.ghosts
			g["pos"] = en.list
			g["pv"], g["pe"] = VNil, VNil
			g["ce"] = VNil
			g["ctl"] = False
		},
		onEvent: func(ev *Event) {
			if ev.kind == "handler" {
				pos := ev.get("pos", SVal)
				ev.assert("signals only after a cleanup form failed", Or(Not(Eq(ev.get("ce", SVal), VNil)), And(ev.ex.some(pos), Not(ev.ex.isCons(pos))), Not(ev.ex.isCons(ev.en.list))))
				ev.set("ctl", True)
				return
			}
			if !isEval(ev) {
				noCalls(ev)
				return
			}
			x, st := ev.ex, ev.st
			pos := ev.get("pos", SVal)
			ev.assert("a form is left", x.isCons(pos))
			ev.assert("no cleanup form after a failed one", Eq(ev.get("ce", SVal), VNil))
			ev.assert("evaluated in the form's environment", Eq(ev.val(0), ev.en.w))
			ev.assert("evaluated in the given context", Eq(ev.val(1), ev.en.ctx))
			ev.assert("the next form", x.same(ev.val(2), x.carN(st, pos)))
			ev.set("pos", x.cdrN(st, pos))
		},
		after: func(ev *Event) {
			if ev.kind == "handler" {
				ev.set("he", ev.re)
				return
			}
			first := Eq(ev.get("n", SInt), IntT(0))
			ev.set("pv", Ite(first, ev.rv, ev.get("pv", SVal)))
			ev.set("pe", Ite(first, ev.re, ev.get("pe", SVal)))
			ev.set("ce", Ite(first, VNil, ev.re))
			ev.set("n", Ite(first, IntT(1), ev.get("n", SInt)))
		},
		onReturn: func(r *Return) {
			x := r.ex
			pos := r.get("pos", SVal)
			ce, pe, pv := r.get("ce", SVal), r.get("pe", SVal), r.get("pv", SVal)
			malformed := And(x.some(pos), Not(x.isCons(pos)))
			began := Lt(IntT(0), r.get("n", SInt))
			r.when(And(began, Eq(ce, VNil), Not(malformed)), func(r *Return) {
				r.assert("every cleanup form ran", x.none(pos))
				r.when(Eq(pe, VNil), func(r *Return) {
					r.cover("protected value")
					r.assert("the value of the protected form is returned", And(Eq(r.re, VNil), x.same(r.rv, pv)))
				})
				r.when(Not(Eq(pe, VNil)), func(r *Return) {
					r.cover("protected failure")
					r.assert("the protected form's failure is reported unchanged", Eq(r.re, pe))
				})
			})
			r.when(And(began, Not(Eq(ce, VNil))), func(r *Return) {
				r.cover("cleanup failure")
				r.assert("a failing cleanup form fails", Not(Eq(r.re, VNil)))
				r.when(Not(r.get("ctl", SBool)), func(r *Return) {
					r.assert("with its own failure", Eq(r.re, ce))
				})
			})
			r.when(And(Not(began), x.isCons(r.en.list)), func(r *Return) {
				r.assert("the protected form was evaluated", False)
			})
			r.when(Not(began), func(r *Return) {
				r.assert("a malformed form is an error", Not(Eq(r.re, VNil)))
			})
		}})
	return cs
}

// recCands proposes that a recursive specification function has the same value at a list held by the loop as at entry.
func recCands(lc *loopCtx, rel func(st *State, a, b *T) map[string]*T) []cand {
	var r []cand
	for _, n := range lc.entry.names {
		n := n
		e := lc.entry.val[n]
		if e.sort != SVal {
			continue
		}
		for _, k := range sortedKeys(rel(lc.E, e, e)) {
			k := k
			r = append(r, cand{name: "rec " + k + " " + n, f: func(st *State, s *slots) *T {
				x, ok := s.val[n]
				if !ok {
					return True
				}
				return rel(st, x, e)[k]
			}})
		}
	}
	return r
}

func init() { contractSets = append(contractSets, controlContracts) }
