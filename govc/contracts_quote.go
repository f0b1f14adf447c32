package main

import "fmt"

// P24: quotation and macro calls.

func quoteContracts() []*Contract {
	var cs []*Contract
	quasi := map[string]string{"quasiQuote": "quasi"}
	cs = append(cs, &Contract{name: "lisp:quote", entry: "lisp:quote", props: []string{"P24"}, autos: bothKinds, clause: "the argument object itself; nothing is evaluated",
		covers:  []string{"quoted"},
		onEvent: noEvents,
		onReturn: func(r *Return) {
			x, en := r.ex, r.en
			r.when(x.isCons(en.list), func(r *Return) {
				r.when(x.none(x.cdr(r.st, en.list)), func(r *Return) {
					r.cover("quoted")
					r.assert("the argument itself", And(Eq(r.re, VNil), x.same(r.rv, x.car(r.st, en.list))))
				})
			})
		}})
	cs = append(cs, &Contract{name: "lisp:quasiquote", entry: "lisp:quasiquote", props: []string{"P24"}, autos: bothKinds, eventFuncs: quasi, codeImmutable: true,
		clause: "instantiates its template once, in the context and environment of the form",
		covers: []string{"value", "failure"},
		setup:  func(en *Entry) { en.st.ghosts["done"] = False; en.st.ghosts["rv"], en.st.ghosts["re"] = VNil, VNil },
		onEvent: func(ev *Event) {
			x, en := ev.ex, ev.en
			if ev.kind == "signal" {
				return
			}
			ev.assert("only the template is instantiated", boolT(ev.kind == "quasi"))
			if ev.kind == "quasi" {
				ev.assert("once, in context and environment", And(Not(ev.get("done", SBool)), Eq(ev.val(0), en.ctx), Eq(ev.val(1), en.w), x.isCons(en.list), x.same(ev.val(2), x.car(ev.st, en.list))))
			}
		},
		after: func(ev *Event) {
			if ev.kind == "quasi" {
				ev.set("done", True)
				ev.set("rv", ev.rv)
				ev.set("re", ev.re)
			}
		},
		onReturn: func(r *Return) {
			x, en := r.ex, r.en
			r.when(And(x.isCons(en.list), x.none(x.cdr(r.st, en.list))), func(r *Return) { r.assert("instantiated", r.get("done", SBool)) })
			r.when(r.get("done", SBool), func(r *Return) {
				r.assert("the failure of the instantiation", Eq(r.re, r.get("re", SVal)))
				r.when(Not(Eq(r.re, VNil)), func(r *Return) { r.cover("failure") })
				r.when(Eq(r.re, VNil), func(r *Return) { r.cover("value"); r.assert("the instance", x.same(r.rv, r.get("rv", SVal))) })
			})
		}})
	cs = append(cs, &Contract{name: "go:quasiQuote", entry: "go:quasiQuote", props: []string{"P24"}, autos: bothKinds, eventFuncs: quasi, codeImmutable: true,
		clause: "an unquoted part is evaluated exactly once and replaced by its value; another pair is instantiated part by part, the first one first; anything else is itself; a failure ends it",
		covers: []string{"unquote", "pair", "atom", "failure"},
		setup: func(en *Entry) {
			x, st := en.ex, en.st
			outcomeSetup(en)
			n := en.args[2].(*T)
			g := st.ghosts
			st.assume(Not(Eq(n, VNil)))
			g["pair"] = x.isCons(n)
			unq := x.globalT(st, "symUnquote")
			if unq.sort == SInt {
				unq = x.mkIface(st, x.mustType("_Symbol"), unq)
			}
			g["unquote"] = And(x.isCons(n), Eq(x.car(st, n), unq))
			// an unquotation has one form
			st.assume(Implies(g["unquote"], And(x.isCons(x.cdr(st, n)))))
			x.Assump["an unquotation in a template is (unquote form)"] = true
			g["a"], g["d"] = VNil, VNil
		},
		onEvent: func(ev *Event) {
			x, st, en := ev.ex, ev.st, ev.en
			n := en.args[2].(*T)
			ev.assert("nothing after a failure", Not(ev.get("failed", SBool)))
			k := ev.get("n", SInt)
			switch ev.kind {
			case "eval":
				ev.assert("only an unquoted form is evaluated, once", And(ev.get("unquote", SBool), Eq(k, IntT(0))))
				ev.assert("it is the unquoted form", x.same(ev.val(2), x.car(st, x.cdr(st, n))))
				ev.assert("in context and environment", And(Eq(ev.val(0), en.args[1].(*T)), Eq(ev.val(1), en.args[0].(*T))))
			case "quasi":
				ev.assert("only the parts of another pair are instantiated", And(ev.get("pair", SBool), Not(ev.get("unquote", SBool)), Lt(k, IntT(2))))
				ev.assert("the first part first", x.same(ev.val(2), Ite(Eq(k, IntT(0)), x.car(st, n), x.cdr(st, n))))
				ev.assert("in context and environment", And(Eq(ev.val(0), en.args[0].(*T)), Eq(ev.val(1), en.args[1].(*T))))
			default:
				ev.assert("no call or signal", False)
			}
		},
		after: func(ev *Event) {
			k := ev.get("n", SInt)
			ok := Eq(ev.re, VNil)
			ev.set("a", Ite(Eq(k, IntT(0)), ev.rv, ev.get("a", SVal)))
			ev.set("d", Ite(Eq(k, IntT(1)), ev.rv, ev.get("d", SVal)))
			ev.set("n", Add(k, IntT(1)))
			ev.set("failed", Not(ok))
			ev.set("err", ev.re)
		},
		onReturn: func(r *Return) {
			x, st, en := r.ex, r.st, r.en
			n := en.args[2].(*T)
			k := r.get("n", SInt)
			failed := r.get("failed", SBool)
			r.when(failed, func(r *Return) { r.cover("failure"); r.assert("the first failure", Eq(r.re, r.get("err", SVal))) })
			r.when(Not(failed), func(r *Return) {
				r.assert("no failure of its own", Eq(r.re, VNil))
				r.when(r.get("unquote", SBool), func(r *Return) {
					r.cover("unquote")
					r.assert("the value of the unquoted form", And(Eq(k, IntT(1)), x.same(r.rv, r.get("a", SVal))))
				})
				r.when(And(r.get("pair", SBool), Not(r.get("unquote", SBool))), func(r *Return) {
					r.cover("pair")
					r.assert("both parts are instantiated", Eq(k, IntT(2)))
					r.assert("a pair of the instances", And(x.isCons(r.rv), x.same(x.car(st, r.rv), r.get("a", SVal)), x.same(x.cdr(st, r.rv), r.get("d", SVal))))
				})
				r.when(Not(r.get("pair", SBool)), func(r *Return) {
					r.cover("atom")
					r.assert("itself", And(Eq(k, IntT(0)), Eq(r.rv, n)))
				})
			})
		}})
	join := map[string]string{"expandJoinedForm": "join"}
	cs = append(cs, &Contract{name: "go:expandJoinedForm", entry: "go:expandJoinedForm", props: []string{"P24"}, autos: bothKinds, eventFuncs: join, pureEvents: map[string]bool{"join": true}, codeImmutable: true,
		clause: "what contains no spliced arguments is copied part by part", covers: []string{"pair", "atom"},
		setup: func(en *Entry) {
			g := en.st.ghosts
			g["in"], g["out"] = Const("some.part", SVal), VNil
			en.ex.validFact(en.st, g["in"], anyType)
			g["seen"] = False
		},
		onEvent: func(ev *Event) {
			ev.assert("only parts", boolT(ev.kind == "join"))
		},
		after: func(ev *Event) {
			x := ev.ex
			rv := ev.res.(*T)
			ev.assume(Eq(rv, UF("joined", SVal, ev.args[0].(*T))))
			ev.assume(Not(Eq(rv, VNil)))
			_ = x
		},
		loopCands: func(lc *loopCtx) []cand { return nil },
		onReturn: func(r *Return) {
			x, st, en := r.ex, r.st, r.en
			n := en.args[0].(*T)
			jn := func(v *T) *T { return UF("joined", SVal, v) }
			r.when(Not(x.isCons(n)), func(r *Return) { r.cover("atom"); r.assert("itself", Eq(r.rv, n)) })
			r.when(And(x.isCons(n), x.some(x.car(st, n)), Not(x.isType(jn(x.car(st, n)), x.mustType("_JoinedForm")))), func(r *Return) {
				r.cover("pair")
				r.assert("both parts", And(x.isCons(r.rv), Eq(x.car(st, r.rv), jn(x.car(st, n))), Eq(x.cdr(st, r.rv), jn(x.cdrN(st, n)))))
			})
		}})

	// macro calls
	const J = "nth.param"
	j := Const(J, SInt)
	in := func(v *T) *T { return UF("inForms", SBool, v) }
	idx := func(v *T) *T { return UF("formIdx", SInt, v) }
	jth, flen := Const("form.nth", SVal), Const("form.len", SInt)
	params := func(x *Exec, st *State, m *T) (arr, off, n *T) {
		rd := func(f string) *T { return st.readH(st.heap("_Macro.param."+f, SInt), []*T{m}) }
		return rd("arr"), rd("off"), rd("len")
	}
	atRef := func(x *Exec, st *State) *T { return x.mkIface(st, x.mustType("_Symbol"), st.ghosts["at"]) }
	cs = append(cs, &Contract{name: "go:(*_Macro).expand", entry: "go:(*_Macro).expand", props: []string{"P24", "P03"}, autos: []string{"nilderef", "bounds", "panic", "hash"}, codeImmutable: true,
		frozen:     map[string]bool{"elem:Symbol": true},
		eventFuncs: map[string]string{"Progn": "body", "expandJoinedForm": "join", "NewSymbol": "symbol"}, pureEvents: map[string]bool{"join": true, "symbol": true},
		clause: "the macro's body is evaluated once, in a new environment inside the one the macro was defined in, in which a parameter is bound to the argument form itself and the rest parameter " +
			"to the remaining forms; the expansion is its value; no argument is evaluated",
		covers: []string{"parameter", "rest", "no parameter", "expanded", "failed"},
		recs: []recSpec{{name: "argument forms", at: func(x *Exec, st *State, v, car, cdr *T) *T {
			return Implies(And(x.isCons(v), in(v)), And(in(cdr), Or(x.isCons(cdr), x.none(cdr)), Lt(idx(v), flen), Implies(x.isCons(cdr), Eq(idx(cdr), Add(idx(v), IntT(1)))),
				Implies(x.none(cdr), Eq(flen, Add(idx(v), IntT(1)))), Implies(Eq(idx(v), j), Eq(jth, car))))
		}}},
		setup: func(en *Entry) {
			x, st := en.ex, en.st
			m, n := en.args[0].(*T), en.args[3].(*T)
			g := st.ghosts
			g["s"] = Const("some.variable", SVal)
			x.validFact(st, g["s"], anyType)
			st.assume(x.isSymbol(g["s"]))
			x.addKey(st, g["s"])
			g["at"] = Const("rest.symbol", SInt)
			st.assume(Not(Eq(g["s"], atRef(x, st))))
			st.assume(And(in(n), Or(x.isCons(n), x.none(n)), Implies(x.isCons(n), Eq(idx(n), IntT(0))), Implies(x.none(n), Eq(flen, IntT(0))), Le(IntT(0), j), Le(IntT(0), flen)))
			arr, off, cnt := params(x, st, m)
			h := st.heap("elem:Symbol", SVal)
			st.heaps["elem:Symbol"] = h.withFactIn(func(cur *State, ks []*T, v *T) *T {
				i := Sub(ks[1], off)
				return Implies(And(Eq(ks[0], arr), Le(IntT(0), i), Lt(i, cnt)), Eq(Eq(v, g["s"]), Eq(i, j)))
			})
			st.assume(Implies(Lt(j, cnt), Not(Eq(x.readField(st, "_Macro", "rest", m), g["s"]))))
			g["done"], g["joined"] = False, False
			g["rv"], g["re"], g["jv"] = VNil, VNil, VNil
			x.Assump["the argument forms of a macro call are a proper list"] = true
			x.Assump["parameter names of a macro differ"] = true
		},
		onEvent: func(ev *Event) {
			x, st, en := ev.ex, ev.st, ev.en
			m := en.args[0].(*T)
			switch ev.kind {
			case "symbol":
			case "join":
				ev.assert("the value of the body", And(ev.get("done", SBool), x.same(ev.args[0].(*T), ev.get("rv", SVal))))
			case "body":
				ev.assert("once", Not(ev.get("done", SBool)))
				ev.assert("in the given context", Eq(ev.val(0), en.ctx))
				ev.assert("the macro's body", x.same(ev.val(2), x.readField(st, "_Macro", "code", m)))
				w, lex := ev.val(1), x.readField(st, "_Macro", "lexical", m)
				ev.assert("a new environment inside the one of the definition", And(Eq(x.worldParent(st, w), lex), Not(Eq(w, lex)), Not(Eq(w, en.w))))
				ev.assert("of the same interpreter", Eq(x.readField(st, "World", "shared", w), x.readField(st, "World", "shared", lex)))
				ev.assert("it defines no functions", Eq(x.readField(st, "World", "funcs", w), VNil))
				scope := x.readField(st, "World", "vars", w)
				ev.assert("it has a variable table", x.isType(scope, x.mustType("Variables")))
				s := ev.get("s", SVal)
				has, val := x.scopeAt(st, scope, s)
				_, _, cnt := params(x, st, m)
				rest := x.readField(st, "_Macro", "rest", m)
				ev.assert("a form for every parameter", Le(cnt, flen))
				fork := func(name string, c *T, f func(ev *Event)) {
					if c = st.simp(c); c == False {
						return
					}
					n := *ev
					n.st = st.clone()
					n.st.assume(c)
					if !n.st.dead && x.feasible(n.st, True) {
						x.Covers[name] = true
						f(&n)
					}
				}
				fork("parameter", Lt(j, cnt), func(ev *Event) {
					ev.assert("a parameter is bound to its argument form", And(has, Eq(val, jth)))
				})
				fork("rest", And(Le(cnt, j), Eq(rest, s)), func(ev *Event) {
					ev.assert("the rest parameter is bound to the remaining forms", And(has, Implies(x.isCons(val), And(in(val), Eq(idx(val), cnt))), Implies(x.none(val), Eq(flen, cnt))))
				})
				fork("no parameter", And(Le(cnt, j), Not(Eq(rest, s))), func(ev *Event) { ev.assert("nothing else is bound", Not(has)) })
			default:
				ev.assert("no evaluation, call or signal", False)
			}
		},
		after: func(ev *Event) {
			switch ev.kind {
			case "symbol":
				ev.assume(Eq(ev.res.(*T), ev.st.ghosts["at"]))
				ev.ex.Assump["the variable looked at is not the one that stands for the spliced rest arguments (@rest)"] = true
			case "join":
				ev.set("joined", True)
				ev.set("jv", ev.res.(*T))
				ev.assume(Not(Eq(ev.res.(*T), VNil)))
			case "body":
				ev.set("done", True)
				ev.set("rv", ev.rv)
				ev.set("re", ev.re)
			}
		},
		loopCands: func(lc *loopCtx) []cand {
			x := lc.ex
			s := x.ghost(lc.E, "s", SVal)
			_, _, cnt := params(x, lc.E, x.en.args[0].(*T))
			var r []cand
			add := func(name string, f func(st *State, sl *slots) *T) { r = append(r, cand{name: name, f: f}) }
			const B = "map:Symbol,Node"
			tabs := privateMaps(lc, B+"#dom")
			for _, nm := range lc.entry.names {
				nm := nm
				switch lc.entry.val[nm].sort {
				case SVal:
					add("forms "+nm, func(st *State, sl *slots) *T { return in(sl.val[nm]) })
				case SInt:
					for _, ok := range lc.entry.names {
						ok := ok
						if lc.entry.val[ok].sort == SBool {
							add("pointer "+nm+" "+ok, func(st *State, sl *slots) *T { return Implies(sl.val[ok], Not(Eq(sl.val[nm], IntT(0)))) })
						}
					}
					for _, d := range []int64{0, 1} {
						d := d
						i := func(sl *slots) *T { return Add(sl.val[nm], IntT(d)) }
						add(fmt.Sprintf("below %s+%d", nm, d), func(st *State, sl *slots) *T { return And(Le(IntT(0), i(sl)), Le(i(sl), cnt)) })
						for _, b := range tabs {
							b := b
							add(fmt.Sprintf("bound %s+%d %s", nm, d, b), func(st *State, sl *slots) *T {
								h := readHeap(st, st.heap(B+"#dom", SBool), []*T{b, s})
								v := readHeap(st, st.heap(B+"#val", SVal), []*T{b, s})
								return And(Eq(h, And(Lt(j, i(sl)), Lt(j, cnt))), Implies(h, Eq(v, jth)))
							})
						}
						for _, l := range lc.entry.names {
							l := l
							if lc.entry.val[l].sort == SVal {
								add(fmt.Sprintf("index %s+%d %s", nm, d, l), func(st *State, sl *slots) *T {
									return And(Implies(x.isCons(sl.val[l]), Eq(idx(sl.val[l]), i(sl))), Implies(x.none(sl.val[l]), Eq(flen, i(sl))))
								})
								add(fmt.Sprintf("not past %s+%d", nm, d), func(st *State, sl *slots) *T { return Le(i(sl), flen) })
							}
						}
					}
				}
			}
			return r
		},
		onReturn: func(r *Return) {
			x, st := r.ex, r.st
			_, _, cnt := params(x, st, r.en.args[0].(*T))
			done := r.get("done", SBool)
			r.when(Not(done), func(r *Return) { r.assert("too few forms are an error", Not(Eq(r.re, VNil))); r.assert("only too few forms", Lt(flen, cnt)) })
			r.when(done, func(r *Return) {
				r.assert("the failure of the body", Eq(r.re, r.get("re", SVal)))
				r.when(Not(Eq(r.re, VNil)), func(r *Return) { r.cover("failed") })
				r.when(Eq(r.re, VNil), func(r *Return) {
					r.cover("expanded")
					r.assert("the expansion", And(r.get("joined", SBool), Eq(r.rv, r.get("jv", SVal))))
				})
			})
		}})
	cs = append(cs, &Contract{name: "go:(*_Macro).Call", entry: "go:(*_Macro).Call", props: []string{"P24", "P01"}, autos: bothKinds,
		eventFuncs: map[string]string{"(*_Macro).expand": "expand"},
		clause:     "the argument forms are expanded once, and the expansion is evaluated once in the environment of the call",
		covers:     []string{"value", "no expansion", "failure"},
		setup: func(en *Entry) {
			g := en.st.ghosts
			g["exp"], g["ran"] = False, False
			g["code"], g["experr"], g["rv"], g["re"] = VNil, VNil, VNil, VNil
		},
		onEvent: func(ev *Event) {
			x, en := ev.ex, ev.en
			switch ev.kind {
			case "expand":
				ev.assert("this macro, its argument forms, once", And(Not(ev.get("exp", SBool)), Eq(ev.val(0), en.args[0].(*T)), Eq(ev.val(1), en.ctx), Eq(ev.args[3].(*T), en.args[3].(*T))))
			case "eval":
				ev.assert("the expansion, once", And(ev.get("exp", SBool), Not(ev.get("ran", SBool)), Eq(ev.get("experr", SVal), VNil), x.same(ev.val(2), ev.get("code", SVal))))
				ev.assert("in the environment of the call", Eq(ev.val(0), en.w))
				ev.assert("in the context of the call", Eq(ev.val(1), en.ctx))
			default:
				ev.assert("no call or signal", False)
			}
		},
		after: func(ev *Event) {
			switch ev.kind {
			case "expand":
				ev.set("exp", True)
				ev.set("code", ev.rv)
				ev.set("experr", ev.re)
			case "eval":
				ev.set("ran", True)
				ev.set("rv", ev.rv)
				ev.set("re", ev.re)
			}
		},
		onReturn: func(r *Return) {
			x := r.ex
			r.assert("expanded", r.get("exp", SBool))
			bad := Not(Eq(r.get("experr", SVal), VNil))
			r.when(bad, func(r *Return) { r.cover("no expansion"); r.assert("the failure of the expansion", Eq(r.re, r.get("experr", SVal))) })
			r.when(Not(bad), func(r *Return) {
				r.assert("the expansion is evaluated", r.get("ran", SBool))
				r.assert("its failure", Eq(r.re, r.get("re", SVal)))
				r.when(Not(Eq(r.re, VNil)), func(r *Return) { r.cover("failure") })
				r.when(Eq(r.re, VNil), func(r *Return) { r.cover("value"); r.assert("its value", x.same(r.rv, r.get("rv", SVal))) })
			})
		}})
	cs = append(cs, &Contract{name: "go:lambdaMacro", entry: "go:lambdaMacro", props: []string{"P24", "P03"}, autos: bothKinds, codeImmutable: true,
		eventFuncs: map[string]string{"expandMacroInList": "expand", "getParameterList": "params"},
		clause:     "the macro made refers to the environment its definition is evaluated in, and has the parameters and the body of the definition (its macro forms expanded)",
		covers:     []string{"made"},
		setup: func(en *Entry) {
			en.st.ghosts["code"], en.st.ghosts["p"] = VNil, IntT(0)
		},
		onEvent: func(ev *Event) {
			switch ev.kind {
			case "params":
				ev.assert("the parameter list of the definition", ev.ex.same(ev.val(2), ev.en.args[2].(*T)))
			case "expand":
				ev.assert("macro forms of the body are expanded in the environment of the definition", And(Eq(ev.val(1), ev.en.w), ev.ex.same(ev.val(2), ev.get("code", SVal))))
			default:
				noCalls(ev)
			}
		},
		after: func(ev *Event) {
			tv, ok := ev.res.(TupleV)
			if !ok || len(tv) != 2 {
				return
			}
			switch ev.kind {
			case "params":
				p, e := tv[0].(*T), tv[1].(*T)
				ev.set("code", ev.ex.readField(ev.st, "_Parameters", "code", p))
				ev.set("rest", ev.ex.readField(ev.st, "_Parameters", "rest", p))
				rd := func(f string) *T { return ev.st.readH(ev.st.heap("_Parameters.param."+f, SInt), []*T{p}) }
				ev.set("plen", rd("len"))
				ev.set("parr", rd("arr"))
				ev.assume(Or(Not(Eq(e, VNil)), Lt(IntT(0), p)))
			case "expand":
				ev.set("code", Ite(Eq(ev.re, VNil), ev.rv, ev.get("code", SVal)))
			}
		},
		onReturn: func(r *Return) {
			x := r.ex
			tv := r.res.(TupleV)
			L, e := tv[0].(*T), tv[1].(*T)
			r.when(Eq(e, VNil), func(r *Return) {
				r.cover("made")
				r.assert("its environment is the one of the definition", Eq(x.readField(r.st, "_Macro", "lexical", L), r.en.w))
				r.assert("its body is the one of the definition", x.same(x.readField(r.st, "_Macro", "code", L), r.get("code", SVal)))
				r.assert("its rest parameter", Eq(x.readField(r.st, "_Macro", "rest", L), r.get("rest", SVal)))
				rd := func(f string) *T { return r.st.readH(r.st.heap("_Macro.param."+f, SInt), []*T{L}) }
				r.assert("its parameters", And(Eq(rd("len"), r.get("plen", SInt)), Eq(rd("arr"), r.get("parr", SInt))))
			})
		}})
	return cs
}

func noEvents(ev *Event) { ev.assert("no evaluation, call or signal", False) }

func init() { contractSets = append(contractSets, quoteContracts) }
