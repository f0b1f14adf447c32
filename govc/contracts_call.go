package main

// P01 calls, P03 (a function's body sees the environment of its definition), P27 (tail calls).

func callContracts() []*Contract {
	var cs []*Contract
	const J = "nth.param"
	jT := func() *T { return Const(J, SInt) }
	// the values of an optimised call: idx numbers the cells of the list, jth is the value of the parameter looked at
	in := func(tl, v *T) *T { return UF("inTail", SBool, tl, v) }
	idx := func(tl, v *T) *T { return UF("tailIdx", SInt, tl, v) }
	jth := func(tl *T) *T { return UF("tailNth", SVal, tl) }
	tlen := func(tl *T) *T { return UF("tailLen", SInt, tl) }
	tailErr := func(x *Exec, st *State, e *T) (is, callee, params *T) {
		r := x.errAs(st, e, x.mustType("*_ErrTailRecOpt"))
		ref := Sel("vp", r)
		return Not(Eq(r, VNil)), x.readField(st, "_ErrTailRecOpt", "callee", ref), x.readField(st, "_ErrTailRecOpt", "params", ref)
	}
	params := func(x *Exec, st *State, L *T) (arr, off, n *T) {
		rd := func(f string) *T { return st.readH(st.heap("_Lambda.param."+f, SInt), []*T{L}) }
		return rd("arr"), rd("off"), rd("len")
	}
	cs = append(cs, &Contract{name: "call of a function", entry: "go:(*_Lambda).Call", props: []string{"P01", "P03", "P27"}, autos: bothKinds,
		codeImmutable: true,
		frozen:        map[string]bool{"elem:Symbol": true},
		eventFuncs:    map[string]string{"prognWithTailRecOpt": "body", "(*_Lambda).Call": "call", "NReverse": "rev", "(*ListBuilder).Add": "add", "(*ListBuilder).Sequence": "seq"},
		pureEvents:    map[string]bool{"rev": true, "add": true, "seq": true},
		freshCells:    true,
		clause: "every argument is evaluated exactly once, left to right, in the caller's environment; the body is evaluated in a new environment inside the one the function was defined in, " +
			"whose new table binds a parameter to the value of its argument; a wrong number of arguments is an error and the body is not evaluated; " +
			"a tail call does the same with the values it brings; the body's result is the result",
		covers: []string{"first activation", "tail call", "parameter", "no parameter", "other function", "returned", "rest"},
		recs: []recSpec{collected(func(ex *Exec, st *State) *T { // the value looked at is the (j-n)th of the rest list
			_, _, n := params(ex, st, ex.en.args[0].(*T))
			return Sub(jT(), n)
		}), {name: "values of a tail call",
			at: func(ex *Exec, st *State, v, car, cdr *T) *T {
				tl := ex.ghost(st, "tl", SVal)
				return Implies(And(ex.isCons(v), in(tl, v)), And(in(tl, cdr), Implies(ex.isCons(cdr), Eq(idx(tl, cdr), Add(idx(tl, v), IntT(1)))),
					Implies(ex.none(cdr), Eq(tlen(tl), Add(idx(tl, v), IntT(1)))),
					Implies(Eq(idx(tl, v), jT()), Eq(jth(tl), car))))
			}}},
		setup: func(en *Entry) {
			x, st := en.ex, en.st
			L := en.args[0].(*T)
			g := st.ghosts
			g["pos"] = en.args[3].(*T)
			g["n"] = IntT(0)
			g["failed"] = False
			g["err"] = VNil
			g["s"] = Const("some.variable", SVal)
			x.validFact(st, g["s"], anyType)
			st.assume(x.isSymbol(g["s"]))
			x.addKey(st, g["s"])
			g["v"] = VNil
			g["acts"] = IntT(0)
			g["tl"] = x.nullVal()
			g["again"] = False
			g["prev"], g["prevtab"] = IntT(0), IntT(0)
			g["called"] = False
			g["rv"], g["re"] = VNil, VNil
			g["rev"], g["revin"], g["revout"] = False, VNil, VNil
			g["copy"], g["seq"] = VNil, VNil
			arr, off, n := params(x, st, L)
			j := jT()
			st.assume(Le(IntT(0), j))
			slash := x.globalT(st, "slashSymbol")
			h := st.heap("elem:Symbol", SVal)
			st.heaps["elem:Symbol"] = h.withFactIn(func(cur *State, ks []*T, v *T) *T {
				i := Sub(ks[1], off)
				here := And(Eq(ks[0], arr), Le(IntT(0), i), Lt(i, n))
				return Implies(here, And(Not(Eq(v, slash)), Eq(Eq(v, g["s"]), Eq(i, j))))
			})
			rest := x.readField(st, "_Lambda", "rest", L)
			st.assume(Implies(Lt(j, n), Not(Eq(rest, g["s"])))) // the names of a parameter list differ
			st.assume(Not(Eq(g["s"], x.globalT(st, "nulSymbol"))))
		},
		onEvent: func(ev *Event) {
			x, st, en := ev.ex, ev.st, ev.en
			L := en.args[0].(*T)
			_, _, n := params(x, st, L)
			rest := x.readField(st, "_Lambda", "rest", L)
			hasRest := Not(Eq(rest, x.globalT(st, "nulSymbol")))
			again := ev.get("again", SBool)
			pos := ev.get("pos", SVal)
			switch ev.kind {
			case "eval":
				ev.assert("no evaluation after a failure", Not(ev.get("failed", SBool)))
				ev.assert("arguments are evaluated before the body", Eq(ev.get("acts", SInt), IntT(0)))
				ev.assert("evaluated in the caller's environment", Eq(ev.val(0), en.w))
				ev.assert("evaluated in the caller's context", Eq(ev.val(1), en.ctx))
				ev.assert("there is an argument left", x.isCons(pos))
				ev.assert("the next argument", x.same(ev.val(2), x.carN(st, pos)))
				ev.assert("only arguments that have a parameter", Or(hasRest, Lt(ev.get("n", SInt), n)))
				ev.set("pos", x.cdrN(st, pos))
			case "signal":
				noCalls(ev)
			case "rev":
				ev.assert("the values are put in order once", And(Not(ev.get("rev", SBool)), boolT(true)))
				ev.assert("the list of the values", collectedList(ev.val(2)))
			case "add":
				ev.assert("the next value of the tail call is passed as it is", And(again, x.isCons(ev.get("copy", SVal)),
					x.isType(ev.val(3), x.mustType("Uneval")), x.same(x.boxedField(st, ev.val(3), "Uneval", 0), x.carN(st, ev.get("copy", SVal)))))
				ev.set("copy", x.cdrN(st, ev.get("copy", SVal)))
			case "seq":
				ev.assert("all values are passed", x.none(ev.get("copy", SVal)))
			case "call":
				ev.assert("with the values of the tail call", Eq(ev.val(3), ev.get("seq", SVal)))
				ev.assert("the function that a tail call names", And(again, Eq(ev.val(0), ev.get("callee", SInt))))
				ev.assert("called once", Not(ev.get("called", SBool)))
				ev.assert("in the caller's context", Eq(ev.val(1), en.ctx))
				ev.ex.Covers["other function"] = true
			case "body":
				w := ev.val(1)
				s := ev.get("s", SVal)
				first := Eq(ev.get("acts", SInt), IntT(0))
				tl := ev.get("tl", SVal)
				ev.assert("no evaluation after a failure", Not(ev.get("failed", SBool)))
				ev.assert("the body is repeated only for a tail call of this function", Or(first, And(again, Eq(ev.get("callee", SInt), L))))
				ev.assert("in the caller's context", Eq(ev.val(0), en.ctx))
				ev.assert("the function's body", x.same(ev.val(2), x.readField(st, "_Lambda", "code", L)))
				ev.assert("under the function's name", Eq(ev.val(3), x.readField(st, "_Lambda", "name", L)))
				lex := x.readField(st, "_Lambda", "lexical", L)
				ev.assert("a new environment inside the one of the definition", And(Eq(x.worldParent(st, w), lex), Not(Eq(w, lex)), Not(Eq(w, en.w))))
				ev.assert("of the same interpreter", Eq(x.readField(st, "World", "shared", w), x.readField(st, "World", "shared", lex)))
				ev.assert("it defines no functions", Eq(x.readField(st, "World", "funcs", w), VNil))
				scope := x.readField(st, "World", "vars", w)
				tab := Sel(valSel[ifaceKind(x.mustType("Variables"))][1], scope)
				ev.assert("it has a variable table", x.isType(scope, x.mustType("Variables")))
				ev.assert("each activation has its own environment", Lt(ev.get("prev", SInt), w))
				ev.assert("each activation has its own table", Not(Eq(tab, ev.get("prevtab", SInt))))
				has, val := x.scopeAt(st, scope, s)
				j := jT()
				fork := func(ev *Event, c *T, f func(ev *Event)) {
					c = ev.st.simp(c)
					if c == False {
						return
					}
					n := *ev
					n.st = ev.st.clone()
					n.st.assume(c)
					if n.st.dead || !x.feasible(n.st, True) {
						return
					}
					f(&n)
				}
				fork(ev, first, func(ev *Event) {
					x.Covers["first activation"] = true
					nev := ev.get("n", SInt)
					ev.assert("an argument for every parameter", Or(Eq(nev, n), And(hasRest, Le(n, nev))))
					ev.assert("no argument is left", x.none(pos))
				})
				fork(ev, Not(first), func(ev *Event) {
					x.Covers["tail call"] = true
					fork(ev, Not(hasRest), func(ev *Event) {
						ev.assert("a tail call brings a value for every parameter and no more", Eq(tlen(tl), n))
					})
				})
				fork(ev, Lt(j, n), func(ev *Event) {
					x.Covers["parameter"] = true
					ev.assert("a parameter is bound", has)
					ev.assert("a parameter is bound to the value of its argument", Eq(val, Ite(first, ev.get("v", SVal), jth(tl))))
				})
				fork(ev, And(Le(n, j), Not(Eq(rest, s))), func(ev *Event) {
					x.Covers["no parameter"] = true
					ev.assert("nothing else is bound", Not(has))
				})
				fork(ev, And(Le(n, j), Eq(rest, s)), func(ev *Event) {
					ev.assert("the rest parameter is bound", has)
					fork(ev, first, func(ev *Event) {
						x.Covers["rest"] = true
						ev.assert("the rest parameter holds the remaining values, in order", And(ev.get("rev", SBool), Eq(val, ev.get("revout", SVal)),
							Eq(collectedLen(ev.get("revin", SVal)), Sub(ev.get("n", SInt), n)),
							Implies(Lt(j, ev.get("n", SInt)), Eq(collectedNth(ev.get("revin", SVal)), ev.get("v", SVal)))))
					})
					fork(ev, And(Not(first), x.isCons(val)), func(ev *Event) {
						ev.assert("the rest parameter holds the arguments after those of the parameters", And(in(tl, val), Eq(idx(tl, val), n)))
					})
				})
				ev.set("prev", w)
				ev.set("prevtab", tab)
			}
		},
		after: func(ev *Event) {
			x, st := ev.ex, ev.st
			switch ev.kind {
			case "eval":
				ok := Eq(ev.re, VNil)
				nev := ev.get("n", SInt)
				ev.set("v", Ite(And(ok, Eq(nev, jT())), ev.rv, ev.get("v", SVal)))
				ev.set("n", Ite(ok, Add(nev, IntT(1)), nev))
				ev.set("err", Ite(ok, ev.get("err", SVal), ev.re))
				ev.set("failed", Or(ev.get("failed", SBool), Not(ok)))
			case "signal":
				if ev.re != nil {
					ev.set("sig", True)
				}
			case "rev":
				st.assume(Eq(ev.re, VNil)) // NReverse does not fail on a list that ends with nil
				ev.set("rev", True)
				ev.set("revin", ev.val(2))
				ev.set("revout", ev.rv)
			case "add":
				st.assume(Eq(ev.res.(*T), VNil))
			case "seq":
				ev.set("seq", ev.res.(*T))
			case "body":
				is, callee, ps := tailErr(x, st, ev.re)
				ev.set("again", is)
				ev.set("callee", callee)
				ev.set("tl", ps)
				ev.set("copy", ps)
				st.assume(And(in(ps, ps), Implies(x.isCons(ps), Eq(idx(ps, ps), IntT(0))), Implies(x.none(ps), Eq(tlen(ps), IntT(0)))))
				ev.set("acts", Add(ev.get("acts", SInt), IntT(1)))
				ev.set("rv", ev.rv)
				ev.set("re", ev.re)
			case "call":
				ev.set("called", True)
				ev.set("rv", ev.rv)
				ev.set("re", ev.re)
			}
		},
		loopCands: func(lc *loopCtx) []cand {
			x := lc.ex
			g := func(st *State, n string, s Sort) *T { return x.ghost(st, n, s) }
			s := g(lc.E, "s", SVal)
			L := x.en.args[0].(*T)
			j := jT()
			const B = "map:Symbol,Node"
			var r []cand
			add := func(name string, f func(st *State, sl *slots) *T) { r = append(r, cand{name: "call " + name, f: f}) }
			ptab := func(st *State, b *T) (*T, *T) {
				return readHeap(st, st.heap(B+"#dom", SBool), []*T{b, s}), readHeap(st, st.heap(B+"#val", SVal), []*T{b, s})
			}
			_, _, n := params(x, lc.E, L)
			tabs := privateMaps(lc, B+"#dom")
			r = append(r, collectedCands(lc, func(st *State) *T { return Sub(g(st, "n", SInt), n) }, func(st *State) *T { return g(st, "v", SVal) },
				func(st *State) *T { return And(Le(n, j), Lt(j, g(st, "n", SInt))) })...)
			for _, nm := range lc.entry.names {
				nm := nm
				switch lc.entry.val[nm].sort {
				case SVal:
					add("copy "+nm, func(st *State, sl *slots) *T { return x.same(sl.val[nm], g(st, "copy", SVal)) })
					add("args "+nm, func(st *State, sl *slots) *T { return Eq(sl.val[nm], g(st, "pos", SVal)) })
					add("same args "+nm, func(st *State, sl *slots) *T { return x.same(sl.val[nm], g(st, "pos", SVal)) })
					add("tail "+nm, func(st *State, sl *slots) *T { return in(g(st, "tl", SVal), sl.val[nm]) })
				case SInt:
					for _, d := range []int64{0, 1} {
						d := d
						i := func(sl *slots) *T { return Add(sl.val[nm], IntT(d)) }
						add("count "+nm+string(rune('0'+d)), func(st *State, sl *slots) *T { return Eq(i(sl), g(st, "n", SInt)) })
						for _, b := range tabs {
							b := b
							add("bound "+nm+b.String()+string(rune('0'+d)), func(st *State, sl *slots) *T {
								h, v := ptab(st, b)
								return And(Eq(h, And(Lt(j, i(sl)), Lt(j, n))), Implies(h, Eq(v, g(st, "v", SVal))))
							})
							add("tail bound "+nm+b.String()+string(rune('0'+d)), func(st *State, sl *slots) *T {
								h, v := ptab(st, b)
								return And(Eq(h, And(Lt(j, i(sl)), Lt(j, n))), Implies(h, Eq(v, jth(g(st, "tl", SVal)))))
							})
						}
						for _, lst := range lc.entry.names {
							lst := lst
							if lc.entry.val[lst].sort == SVal {
								add("tail index "+nm+lst+string(rune('0'+d)), func(st *State, sl *slots) *T {
									return Implies(x.isCons(sl.val[lst]), Eq(idx(g(st, "tl", SVal), sl.val[lst]), i(sl)))
								})
								add("tail length "+nm+lst+string(rune('0'+d)), func(st *State, sl *slots) *T {
									return Implies(x.none(sl.val[lst]), Eq(tlen(g(st, "tl", SVal)), i(sl)))
								})
							}
						}
					}
				}
			}
			// ready: the table for the next activation
			ready := func(st *State, b *T) *T {
				h, v := ptab(st, b)
				first := Eq(g(st, "acts", SInt), IntT(0))
				tl := g(st, "tl", SVal)
				rest := x.readField(st, "_Lambda", "rest", L)
				return And(Eq(h, Or(Lt(j, n), Eq(rest, s))),
					Implies(And(first, Le(n, j), Eq(rest, s)), And(g(st, "rev", SBool), Eq(v, g(st, "revout", SVal)),
						Eq(collectedLen(g(st, "revin", SVal)), Sub(g(st, "n", SInt), n)),
						Implies(Lt(j, g(st, "n", SInt)), Eq(collectedNth(g(st, "revin", SVal)), g(st, "v", SVal))))),
					Implies(Lt(j, n), Eq(v, Ite(first, g(st, "v", SVal), jth(tl)))),
					Implies(And(Not(first), Le(n, j), Eq(rest, s), x.isCons(v)), And(in(tl, v), Eq(idx(tl, v), n))),
					Implies(And(Not(first), Eq(rest, x.globalT(st, "nulSymbol"))), Eq(tlen(tl), n)),
					Not(Eq(b, g(st, "prevtab", SInt))))
			}
			for _, nm := range lc.entry.names {
				nm := nm
				if lc.entry.val[nm].sort == SInt {
					add("next table "+nm, func(st *State, sl *slots) *T { return ready(st, sl.val[nm]) })
				}
			}
			add("next activation", func(st *State, _ *slots) *T {
				return Or(Eq(g(st, "acts", SInt), IntT(0)), And(g(st, "again", SBool), Eq(g(st, "callee", SInt), L)))
			})
			add("previous environment", func(st *State, _ *slots) *T { return Lt(g(st, "prev", SInt), st.alloc()) })
			add("previous table", func(st *State, _ *slots) *T { return Lt(g(st, "prevtab", SInt), st.alloc()) })
			add("all bound", func(st *State, _ *slots) *T {
				rest := x.readField(st, "_Lambda", "rest", L)
				hasRest := Not(Eq(rest, x.globalT(st, "nulSymbol")))
				nev := g(st, "n", SInt)
				return And(Or(Eq(nev, n), And(hasRest, Le(n, nev))), x.none(g(st, "pos", SVal)))
			})
			for _, b := range tabs {
				b := b
				add("table "+b.String(), func(st *State, _ *slots) *T {
					h, v := ptab(st, b)
					return And(Eq(h, Lt(j, n)), Implies(h, Eq(v, g(st, "v", SVal))))
				})
			}
			add("counted", func(st *State, _ *slots) *T { return Le(g(st, "n", SInt), n) })
			for _, nm := range lc.entry.names {
				nm := nm
				if lc.entry.val[nm].sort == SInt {
					add("index below "+nm, func(st *State, sl *slots) *T { return And(Le(IntT(-1), sl.val[nm]), Lt(sl.val[nm], n)) })
					if e0 := lc.entry.val[nm]; len(tabs) > 0 {
						_ = e0
						add("fresh table "+nm, func(st *State, sl *slots) *T {
							return Or(Eq(g(st, "acts", SInt), IntT(0)), Not(Eq(sl.val[nm], g(st, "prevtab", SInt))))
						})
					}
				}
			}
			add("all counted", func(st *State, _ *slots) *T { return Le(n, g(st, "n", SInt)) })
			add("not failed", func(st *State, _ *slots) *T { return Not(g(st, "failed", SBool)) })
			add("no body yet", func(st *State, _ *slots) *T { return Eq(g(st, "acts", SInt), IntT(0)) })
			add("a body", func(st *State, _ *slots) *T { return Lt(IntT(0), g(st, "acts", SInt)) })
			add("again", func(st *State, _ *slots) *T { return g(st, "again", SBool) })
			add("to itself", func(st *State, _ *slots) *T { return Eq(g(st, "callee", SInt), L) })
			return r
		},
		onReturn: func(r *Return) {
			r.cover("returned")
			x := r.ex
			failed := r.get("failed", SBool)
			r.when(failed, func(r *Return) {
				r.assert("a failing argument fails the call", Eq(r.re, r.get("err", SVal)))
			})
			done := And(Lt(IntT(0), r.get("acts", SInt)), Or(Not(r.get("again", SBool)), r.get("called", SBool)))
			r.when(done, func(r *Return) {
				r.assert("the failure of the body is reported", Eq(r.re, r.get("re", SVal)))
				r.when(Eq(r.get("re", SVal), VNil), func(r *Return) {
					r.assert("the body's value is returned", x.same(r.rv, r.get("rv", SVal)))
				})
			})
			r.when(And(Not(done), Not(failed)), func(r *Return) {
				r.assert("without the body's value the call fails or the handler continued", Or(Not(Eq(r.re, VNil)), x.ghost(r.st, "sig", SBool)))
			})
		}})
	cs = append(cs, &Contract{name: "making a function", entry: "go:newLambda", props: []string{"P03", "P01"}, autos: bothKinds, codeImmutable: true,
		eventFuncs: map[string]string{"expandMacroInList": "expand", "getParameterList": "params"},
		clause:     "the function made refers to the environment its definition is evaluated in, and has the parameters and the body of the definition (its macro forms expanded)",
		covers:     []string{"made"},
		setup: func(en *Entry) {
			en.st.ghosts["code"] = en.ex.cdrN(en.st, en.args[2].(*T))
			en.st.ghosts["p"] = IntT(0)
		},
		onEvent: func(ev *Event) {
			switch ev.kind {
			case "params":
				ev.assert("the parameter list of the definition", ev.ex.same(ev.val(2), ev.en.args[2].(*T)))
			case "expand":
				ev.assert("macro forms of the body are expanded in the environment of the definition", And(Eq(ev.val(1), ev.en.w), ev.ex.same(ev.val(2), ev.get("code", SVal))))
			case "eval", "call", "signal":
				noCalls(ev)
			}
		},
		after: func(ev *Event) {
			tv, ok := ev.res.(TupleV)
			if !ok || len(tv) != 2 {
				return
			}
			switch ev.kind {
			case "params":
				p, e := tv[0].(*T), tv[1].(*T)
				ev.set("p", p)
				ev.set("code", ev.ex.readField(ev.st, "_Parameters", "code", p))
				ev.set("rest", ev.ex.readField(ev.st, "_Parameters", "rest", p))
				rd := func(f string) *T { return ev.st.readH(ev.st.heap("_Parameters.param."+f, SInt), []*T{p}) }
				ev.set("plen", rd("len"))
				ev.set("parr", rd("arr"))
				ev.assume(Or(Not(Eq(e, VNil)), Lt(IntT(0), p)))
			case "expand":
				ev.set("code", Ite(Eq(ev.re, VNil), ev.rv, ev.get("code", SVal)))
			}
		},
		onReturn: func(r *Return) {
			x := r.ex
			r.when(Eq(r.re, VNil), func(r *Return) {
				r.cover("made")
				L := Sel("vp", r.rv)
				r.assert("it is a function", x.isType(r.rv, x.mustType("*_Lambda")))
				r.assert("its environment is the one of the definition", Eq(x.readField(r.st, "_Lambda", "lexical", L), r.en.w))
				r.assert("its body is the one of the definition", x.same(x.readField(r.st, "_Lambda", "code", L), r.get("code", SVal)))
				r.assert("its name", Eq(x.readField(r.st, "_Lambda", "name", L), r.en.args[3].(*T)))
				r.assert("its rest parameter", Eq(x.readField(r.st, "_Lambda", "rest", L), r.get("rest", SVal)))
				rd := func(f string) *T { return r.st.readH(r.st.heap("_Lambda.param."+f, SInt), []*T{L}) }
				r.assert("its parameters", And(Eq(rd("len"), r.get("plen", SInt)), Eq(rd("arr"), r.get("parr", SInt))))
			})
		}})
	for _, labels := range []bool{false, true} {
		labels := labels
		name, clause := "lisp:flet", "the functions are made in the enclosing environment"
		if labels {
			name, clause = "lisp:labels", "the functions are made in the environment that binds them all"
		}
		c := &Contract{name: name, entry: name, props: []string{"P03"}, autos: bothKinds, codeImmutable: true,
			eventFuncs: map[string]string{"newLambda": "lambda"},
			clause:     clause + "; the body is evaluated in a new environment inside the enclosing one that binds exactly the names to the functions; the body's last value is returned and the first failure ends it",
			covers:     []string{"success", "failure", "bound in the body", "not bound in the body"},
			setup: func(en *Entry) {
				x, st := en.ex, en.st
				outcomeSetup(en)
				g := st.ghosts
				g["s"] = Const("some.name", SVal)
				x.validFact(st, g["s"], anyType)
				st.assume(x.isSymbol(g["s"]))
				g["defs"] = x.carN(st, en.list)
				g["body"] = x.cdrN(st, en.list)
				g["has"], g["val"] = False, VNil
				g["env"] = IntT(0)
			}}
		if labels {
			c.frozen = map[string]bool{"map:Symbol,Callable#dom": true, "map:Symbol,Callable#val": true}
		}
		newEnv := func(ev *Event, w *T) {
			x, st, en := ev.ex, ev.st, ev.en
			env := ev.get("env", SInt)
			ev.assert("one new environment inside the enclosing one", And(Eq(x.worldParent(st, w), en.w), Not(Eq(w, en.w)), Or(Eq(env, IntT(0)), Eq(env, w))))
			ev.assert("of the same interpreter", Eq(x.readField(st, "World", "shared", w), x.readField(st, "World", "shared", en.w)))
			ev.assert("it binds no variables", Eq(x.readField(st, "World", "vars", w), VNil))
			ev.set("env", w)
		}
		fenv := func(x *Exec, st *State, w, s *T) (has, val *T) {
			ft := x.mustType("Functions")
			scope := x.readField(st, "World", "funcs", w)
			m := Sel(valSel[ifaceKind(ft)][1], scope)
			return And(x.isType(scope, ft), Not(Eq(m, IntT(0))), st.readH(st.heap("map:Symbol,Callable#dom", SBool), []*T{m, s})), st.readH(st.heap("map:Symbol,Callable#val", SVal), []*T{m, s})
		}
		c.onEvent = func(ev *Event) {
			x, st, en := ev.ex, ev.st, ev.en
			defs := ev.get("defs", SVal)
			switch ev.kind {
			case "handler", "signal":
				return
			case "lambda":
				ev.assert("no function is made after a failure", Not(ev.get("failed", SBool)))
				ev.assert("a definition is left", x.isCons(defs))
				ev.assert("in the given context", Eq(ev.val(0), en.ctx))
				if labels {
					newEnv(ev, ev.val(1))
				} else {
					ev.assert("made in the enclosing environment", Eq(ev.val(1), en.w))
				}
				item := x.carN(st, defs)
				ev.assert("from the definition's parameters and body", x.same(ev.val(2), x.cdrN(st, item)))
				ev.set("nm", x.unwrapped(x.carN(st, item)))
				ev.set("defs", x.cdrN(st, defs))
			case "eval":
				body := ev.get("body", SVal)
				ev.assert("no evaluation after a failure", Not(ev.get("failed", SBool)))
				ev.assert("all functions are made", Not(x.isCons(defs)))
				ev.assert("a form is left", x.isCons(body))
				ev.assert("the next form of the body", x.same(ev.val(2), x.carN(st, body)))
				ev.assert("in the given context", Eq(ev.val(1), en.ctx))
				w := ev.val(0)
				first := Eq(ev.get("n", SInt), IntT(0))
				newEnv(ev, w)
				h, v := fenv(x, st, w, ev.get("s", SVal))
				has, val := ev.get("has", SBool), ev.get("val", SVal)
				if x.feasible(st, And(first, has)) {
					x.Covers["bound in the body"] = true
				}
				if x.feasible(st, And(first, Not(has))) {
					x.Covers["not bound in the body"] = true
				}
				ev.assert("it binds exactly the given names", Implies(first, Eq(h, has)))
				ev.assert("to the functions made", Implies(And(first, has), Eq(v, val)))
				ev.set("body", x.cdrN(st, body))
			default:
				noCalls(ev)
			}
		}
		c.after = func(ev *Event) {
			switch ev.kind {
			case "handler":
				ev.st.assume(Not(Eq(ev.re, VNil))) // a handler that continues with another name is out of scope
			case "lambda":
				ok := Eq(ev.re, VNil)
				ev.assume(Implies(ok, Not(Eq(ev.rv, VNil))))
				hit := And(ok, Eq(ev.get("nm", SVal), ev.get("s", SVal)))
				ev.set("has", Or(ev.get("has", SBool), hit))
				ev.set("val", Ite(hit, ev.rv, ev.get("val", SVal)))
				ev.set("failed", Or(ev.get("failed", SBool), Not(ok)))
				ev.set("err", Ite(ok, ev.get("err", SVal), ev.re))
				return
			}
			outcomeAfter(ev)
		}
		c.loopCands = func(lc *loopCtx) []cand {
			x := lc.ex
			g := func(st *State, n string, s Sort) *T { return x.ghost(st, n, s) }
			s := g(lc.E, "s", SVal)
			const B = "map:Symbol,Callable"
			var r []cand
			add := func(name string, f func(st *State, sl *slots) *T) { r = append(r, cand{name: "flet " + name, f: f}) }
			for _, n := range lc.entry.names {
				n := n
				if lc.entry.val[n].sort == SVal {
					add("defs "+n, func(st *State, sl *slots) *T { return x.same(sl.val[n], g(st, "defs", SVal)) })
					add("body "+n, func(st *State, sl *slots) *T { return x.same(sl.val[n], g(st, "body", SVal)) })
					add("last "+n, func(st *State, sl *slots) *T { return x.same(sl.val[n], g(st, "last", SVal)) })
				}
			}
			tabs := map[*T]bool{}
			for _, f := range lc.E.frames {
				for reg, v := range f.regs {
					if t, ok := v.(*T); ok && t.sort == SInt && typeKey(reg.Type()) == "Functions" {
						tabs[t] = true
					}
				}
			}
			var refs []*T
			for b := range tabs {
				refs = append(refs, b)
			}
			sortTerms(refs)
			for _, b := range refs {
				b := b
				add("table "+b.String(), func(st *State, _ *slots) *T {
					h := readHeap(st, st.heap(B+"#dom", SBool), []*T{b, s})
					v := readHeap(st, st.heap(B+"#val", SVal), []*T{b, s})
					return Or(Lt(IntT(0), g(st, "n", SInt)), And(Eq(h, g(st, "has", SBool)), Implies(h, Eq(v, g(st, "val", SVal)))))
				})
			}
			for _, w := range append(worldsMade(lc), worldRegs(lc)...) {
				w := w
				add("env "+w.String(), func(st *State, _ *slots) *T {
					e := g(st, "env", SInt)
					return Or(Eq(e, IntT(0)), Eq(e, w))
				})
			}
			add("not failed", func(st *State, _ *slots) *T { return Not(g(st, "failed", SBool)) })
			add("all made", func(st *State, _ *slots) *T { return Not(x.isCons(g(st, "defs", SVal))) })
			return r
		}
		c.onReturn = func(r *Return) {
			x := r.ex
			r.outcome(func(r *Return) {
				r.assert("all functions were made", Not(x.isCons(r.get("defs", SVal))))
				r.assert("all body forms were evaluated", x.none(r.get("body", SVal)))
				r.assert("the value of the last body form is returned", x.same(r.rv, r.get("last", SVal)))
			}, True, nil)
		}
		cs = append(cs, c)
	}
	// variables
	cs = append(cs, &Contract{name: "value of a variable", entry: "go:(_Symbol).Eval", props: []string{"P03"}, autos: bothKinds,
		eventFuncs: map[string]string{"(*World).Get": "get"},
		clause:     "a variable is looked up, once, in the environment it is evaluated in",
		covers:     []string{"returned"},
		setup:      func(en *Entry) { en.st.ghosts["n"] = IntT(0) },
		onEvent: func(ev *Event) {
			ev.assert("the symbol is looked up in the environment", And(boolT(ev.kind == "get"), Eq(ev.val(0), ev.en.w), Eq(ev.get("n", SInt), IntT(0))))
			if ev.kind == "get" {
				x := ev.ex
				ev.assert("under its name", Eq(ev.val(1), x.mkIface(ev.st, x.mustType("_Symbol"), ev.en.args[0])))
			}
		},
		after: func(ev *Event) {
			ev.set("n", IntT(1))
			ev.set("rv", ev.rv)
			ev.set("re", ev.re)
		},
		onReturn: func(r *Return) {
			r.cover("returned")
			r.assert("looked up", Eq(r.get("n", SInt), IntT(1)))
			r.assert("the value found, or the failure", And(Eq(r.rv, r.get("rv", SVal)), Eq(r.re, r.get("re", SVal))))
		}})
	for _, seq := range []bool{true, false} {
		seq := seq
		name, clause := "lisp:setq", "each value is assigned before the next form is evaluated; the last value is returned"
		if !seq {
			continue
		}
		c := &Contract{name: name, entry: name, props: []string{"P03"}, autos: bothKinds, codeImmutable: true,
			eventFuncs: map[string]string{"(*World).Set": "set"},
			clause:     "the forms are evaluated once, in order, in the environment of the form, and each value is assigned there to the variable before it; " + clause + "; the first failure ends it",
			covers:     []string{"success", "failure", "assigned"},
			setup: func(en *Entry) {
				outcomeSetup(en)
				g := en.st.ghosts
				g["pos"] = en.list
				g["due"] = False
				g["nm"] = VNil
			}}
		c.onEvent = func(ev *Event) {
			x, st, en := ev.ex, ev.st, ev.en
			pos := ev.get("pos", SVal)
			switch ev.kind {
			case "handler", "signal":
				return
			case "eval":
				ev.assert("no evaluation after a failure", Not(ev.get("failed", SBool)))
				ev.assert("the value before is assigned", Not(ev.get("due", SBool)))
				ev.assert("evaluated in the environment and context of the form", And(Eq(ev.val(0), en.w), Eq(ev.val(1), en.ctx)))
				rest := x.cdrN(st, pos)
				ev.assert("the form after the next variable", And(x.isCons(pos), x.same(ev.val(2), x.carN(st, rest))))
				ev.set("nm", x.unwrapped(x.carN(st, pos)))
				ev.set("pos", x.cdrN(st, rest))
				ev.set("due", True)
			case "set":
				x.Covers["assigned"] = true
				ev.assert("a value is to be assigned", And(ev.get("due", SBool), Not(ev.get("failed", SBool))))
				ev.assert("in the environment of the form", Eq(ev.val(0), en.w))
				ev.assert("to the variable before it", Eq(ev.val(1), ev.get("nm", SVal)))
				ev.assert("the value of the form", Eq(ev.val(2), ev.get("last", SVal)))
				ev.set("due", False)
			default:
				noCalls(ev)
			}
		}
		c.after = func(ev *Event) {
			switch ev.kind {
			case "handler":
				ev.st.assume(Not(Eq(ev.re, VNil)))
			case "set":
				e := ev.res.(*T)
				ok := Eq(e, VNil)
				ev.set("failed", Or(ev.get("failed", SBool), Not(ok)))
				ev.set("err", Ite(ok, ev.get("err", SVal), e))
				return
			}
			outcomeAfter(ev)
		}
		c.loopCands = func(lc *loopCtx) []cand {
			x := lc.ex
			g := func(st *State, n string, s Sort) *T { return x.ghost(st, n, s) }
			var r []cand
			for _, n := range lc.entry.names {
				n := n
				if lc.entry.val[n].sort == SVal {
					r = append(r, cand{name: "setq pos " + n, f: func(st *State, sl *slots) *T { return x.same(sl.val[n], g(st, "pos", SVal)) }},
						cand{name: "setq last " + n, f: func(st *State, sl *slots) *T { return x.same(sl.val[n], g(st, "last", SVal)) }})
				}
			}
			return append(r, cand{name: "setq going on", f: func(st *State, sl *slots) *T {
				return And(Not(g(st, "failed", SBool)), Not(g(st, "due", SBool)))
			}})
		}
		c.onReturn = func(r *Return) {
			x := r.ex
			r.outcome(func(r *Return) {
				r.assert("every value was assigned", And(Not(r.get("due", SBool)), x.none(r.get("pos", SVal))))
				r.assert("the last value is returned", x.same(r.rv, r.get("last", SVal)))
			}, True, nil)
		}
		cs = append(cs, c)
	}
	return cs
}

// Lists collected back to front: a new cell is put before those collected so far. collectedNth(v) is the value collected as
// number m (counted from 0), the collectedLen(v)-m-1-th element of v.
func collectedList(v *T) *T { return UF("endsWithNil", SBool, v) }
func collectedLen(v *T) *T  { return UF("listLen", SInt, v) }
func collectedNth(v *T) *T  { return UF("nthFromEnd", SVal, v) }

func collected(m func(ex *Exec, st *State) *T) recSpec {
	return recSpec{name: "collected values",
		at: func(ex *Exec, st *State, v, car, cdr *T) *T {
			return And(Eq(collectedList(v), collectedList(cdr)), Implies(collectedList(v), And(Le(IntT(0), collectedLen(cdr)), Eq(collectedLen(v), Add(collectedLen(cdr), IntT(1))),
				Eq(collectedNth(v), Ite(Eq(collectedLen(cdr), m(ex, st)), car, collectedNth(cdr))))))
		},
		base: func(ex *Exec, st *State) *T {
			n := ex.nullVal()
			return And(collectedList(n), Eq(collectedLen(n), IntT(0)))
		}}
}

func collectedCands(lc *loopCtx, count, value func(st *State) *T, has func(st *State) *T) []cand {
	var r []cand
	for _, n := range lc.entry.names {
		n := n
		if lc.entry.val[n].sort != SVal {
			continue
		}
		r = append(r, cand{name: "collected list " + n, f: func(st *State, sl *slots) *T { return collectedList(sl.val[n]) }},
			cand{name: "collected count " + n, f: func(st *State, sl *slots) *T { return Eq(collectedLen(sl.val[n]), count(st)) }},
			cand{name: "collected value " + n, f: func(st *State, sl *slots) *T { return Implies(has(st), Eq(collectedNth(sl.val[n]), value(st))) }})
	}
	return r
}

func init() { contractSets = append(contractSets, callContracts) }
