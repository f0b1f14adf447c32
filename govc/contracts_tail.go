package main

import "strings"

// P27: tail calls of a named function; the list helpers its argument lists are built with.

func tailContracts() []*Contract {
	var cs []*Contract
	symArg := func(en *Entry, i int) *T { return en.args[i].(*T) }
	// the tail versions of if, cond and progn do what the special forms do
	for _, c := range controlContracts() {
		entry := map[string]string{"lisp:if": "go:cmdIfWithTailRecOpt", "lisp:cond": "go:cmdCondWithTailRecOpt", "lisp:progn": "go:prognWithTailRecOpt"}[c.entry]
		if entry == "" {
			continue
		}
		c := c
		t := *c
		t.name, t.entry, t.props, t.autos = entry, entry, []string{"P27"}, bothKinds
		t.clause = "in the tail position of a named function: " + c.clause + "; nothing is evaluated after the form in tail position"
		t.eventFuncs = map[string]string{"evalWithTailRecOpt": "teval"}
		t.covers = append([]string{"tail position"}, c.covers...)
		t.setup = func(en *Entry) {
			x, st := en.ex, en.st
			en.list = en.args[2].(*T)
			sym := symArg(en, 3)
			st.assume(Or(named(x, sym), x.isType(sym, x.mustType("_Symbol"))))
			c.setup(en)
			st.ghosts["tailed"] = False
		}
		norm := func(ev *Event) *Event {
			if ev.kind != "teval" {
				return ev
			}
			n := *ev
			n.kind, n.args = "eval", []Value{ev.args[1], ev.args[0], ev.args[2]}
			return &n
		}
		t.onEvent = func(ev *Event) {
			if ev.kind == "eval" || ev.kind == "teval" {
				ev.assert("nothing is evaluated after the form in tail position", Not(ev.get("tailed", SBool)))
			}
			if ev.kind == "teval" {
				ev.ex.Covers["tail position"] = true
				ev.assert("for the same function", Eq(ev.val(3), symArg(ev.en, 3)))
				ev.set("tailed", True)
			}
			n := norm(ev)
			c.onEvent(n)
			ev.dead = n.dead
		}
		t.after = func(ev *Event) {
			n := norm(ev)
			c.after(n)
			ev.dead = n.dead
		}
		t.loopCands = func(lc *loopCtx) []cand {
			var r []cand
			if c.loopCands != nil {
				r = c.loopCands(lc)
			}
			return append(r, cand{name: "not in tail position", f: func(st *State, _ *slots) *T {
				return Or(Not(lc.ex.ghost(st, "tailed", SBool)), lc.ex.none(lc.ex.ghost(st, "pos", SVal)))
			}}, cand{name: "not yet in tail position", f: func(st *State, _ *slots) *T { return Not(lc.ex.ghost(st, "tailed", SBool)) }},
				cand{name: "tail position only at the end", f: func(st *State, _ *slots) *T {
					return Or(Not(lc.ex.ghost(st, "tailed", SBool)), lc.ex.none(lc.ex.ghost(st, "body", SVal)))
				}})
		}
		cs = append(cs, &t)
	}
	// the recognition of a tail call
	j := Const("nth.arg", SInt)
	cs = append(cs, &Contract{name: "recognising a tail call", entry: "go:testCarIsCurrFunc", props: []string{"P27"}, autos: bothKinds, codeImmutable: true, freshCells: true,
		eventFuncs: map[string]string{"(*World).GetFunc": "getfunc", "NReverse": "rev"},
		pureEvents: map[string]bool{"getfunc": true, "rev": true},
		recs:       []recSpec{collected(func(*Exec, *State) *T { return j })},
		clause: "only a form that calls the named function, which must name a function written in Lisp here, is a tail call; its arguments are then evaluated exactly once, left to right, in the environment of the form, " +
			"and the function and the values, in order, are what the tail call brings; otherwise nothing is evaluated",
		covers: []string{"tail call", "no tail call", "argument fails"},
		setup: func(en *Entry) {
			x, st := en.ex, en.st
			g := st.ghosts
			st.assume(named(x, symArg(en, 3)))
			st.assume(Le(IntT(0), j))
			car, sym := x.carN(st, en.args[2].(*T)), symArg(en, 3)
			for m := int64(0); m < 4; m++ { // what equality with a symbol means, in any mode
				eq := UF("nodeEquals", SBool, car, sym, IntT(m), st.version())
				st.assume(Eq(eq, x.same(car, sym)))
			}
			x.Assump["precondition: only a symbol itself equals a symbol"] = true
			g["pos"] = x.cdrN(st, en.args[2].(*T))
			g["n"] = IntT(0)
			g["v"] = VNil
			g["failed"], g["err"] = False, VNil
			g["found"], g["f"] = False, VNil
			g["rev"], g["revin"], g["revout"] = False, VNil, VNil
		},
		onEvent: func(ev *Event) {
			x, st, en := ev.ex, ev.st, ev.en
			target, sym := en.args[2].(*T), symArg(en, 3)
			isCall := And(x.isCons(target), x.same(x.carN(st, target), sym))
			switch ev.kind {
			case "getfunc":
				ev.assert("the function's name is looked up in the environment of the form", And(isCall, Eq(ev.val(0), en.w), Eq(ev.val(1), sym), Not(ev.get("found", SBool))))
			case "eval":
				pos := ev.get("pos", SVal)
				ev.assert("no evaluation after a failure", Not(ev.get("failed", SBool)))
				ev.assert("only arguments of a tail call are evaluated here", And(isCall, ev.get("found", SBool), x.isType(ev.get("f", SVal), x.mustType("*_Lambda"))))
				ev.assert("in the environment and context of the form", And(Eq(ev.val(0), en.w), Eq(ev.val(1), en.ctx)))
				ev.assert("the next argument", And(x.isCons(pos), x.same(ev.val(2), x.carN(st, pos))))
				ev.set("pos", x.cdrN(st, pos))
			case "rev":
				ev.assert("the values are put in order once", Not(ev.get("rev", SBool)))
				ev.assert("the list of the values", collectedList(ev.val(2)))
			case "signal", "handler":
				ev.assert("no condition after a failure", Not(ev.get("failed", SBool)))
				ev.assert("a condition is signalled only for a list that is not a list", And(isCall, Not(x.isCons(ev.get("pos", SVal))), Not(x.none(ev.get("pos", SVal)))))
			default:
				ev.assert("nothing else happens", False)
			}
		},
		after: func(ev *Event) {
			switch ev.kind {
			case "signal", "handler":
				ev.set("failed", Not(Eq(ev.re, VNil)))
				ev.set("err", ev.re)
			case "getfunc":
				ok := Eq(ev.re, VNil)
				ev.set("found", ok)
				ev.set("f", ev.rv)
				ev.st.assume(Implies(ok, Not(Eq(ev.rv, VNil))))
			case "eval":
				ok := Eq(ev.re, VNil)
				n := ev.get("n", SInt)
				ev.set("v", Ite(And(ok, Eq(n, j)), ev.rv, ev.get("v", SVal)))
				ev.set("n", Ite(ok, Add(n, IntT(1)), n))
				ev.set("failed", Not(ok))
				ev.set("err", ev.re)
			case "rev":
				ev.st.assume(Eq(ev.re, VNil))
				ev.set("rev", True)
				ev.set("revin", ev.val(2))
				ev.set("revout", ev.rv)
			}
		},
		loopCands: func(lc *loopCtx) []cand {
			x := lc.ex
			g := func(st *State, n string, s Sort) *T { return x.ghost(st, n, s) }
			r := collectedCands(lc, func(st *State) *T { return g(st, "n", SInt) }, func(st *State) *T { return g(st, "v", SVal) },
				func(st *State) *T { return Lt(j, g(st, "n", SInt)) })
			for _, n := range lc.entry.names {
				n := n
				if lc.entry.val[n].sort == SVal {
					r = append(r, cand{name: "tail args " + n, f: func(st *State, sl *slots) *T { return x.same(sl.val[n], g(st, "pos", SVal)) }})
				}
			}
			return append(r, cand{name: "tail no failure", f: func(st *State, _ *slots) *T { return And(Not(g(st, "failed", SBool)), Not(g(st, "rev", SBool))) }})
		},
		onReturn: func(r *Return) {
			x, st := r.ex, r.st
			e := r.res.(*T)
			failed := r.get("failed", SBool)
			n := r.get("n", SInt)
			target := r.en.args[2].(*T)
			tail := x.isType(e, x.mustType("*_ErrTailRecOpt"))
			r.when(failed, func(r *Return) {
				r.cover("argument fails")
				r.assert("a failing argument fails", Eq(e, r.get("err", SVal)))
			})
			r.when(And(Not(failed), Eq(e, VNil)), func(r *Return) {
				r.cover("no tail call")
				r.assert("nothing was evaluated", And(Eq(n, IntT(0)), Not(r.get("rev", SBool))))
				isCall := And(x.isCons(target), Is("VI", x.carN(st, target)), x.same(x.carN(st, target), symArg(r.en, 3)))
				r.assert("a call of the named function is recognised", Not(And(isCall, r.get("found", SBool), x.isType(r.get("f", SVal), x.mustType("*_Lambda")))))
			})
			r.when(And(Not(failed), Not(Eq(e, VNil))), func(r *Return) {
				r.cover("tail call")
				ref := Sel("vp", e)
				r.assert("a tail call is reported", tail)
				r.assert("all arguments were evaluated", x.none(r.get("pos", SVal)))
				r.assert("the function found", Eq(x.readField(r.st, "_ErrTailRecOpt", "callee", ref), Sel("vp", r.get("f", SVal))))
				r.assert("the values, in order", And(r.get("rev", SBool), Eq(x.readField(r.st, "_ErrTailRecOpt", "params", ref), r.get("revout", SVal)),
					Eq(collectedLen(r.get("revin", SVal)), n), Implies(Lt(j, n), Eq(collectedNth(r.get("revin", SVal)), r.get("v", SVal)))))
			})
		}})
	// the choice among the forms of a tail position
	kinds := map[string]string{"cmdIfWithTailRecOpt": "symIf", "cmdLetWithTailRecOpt": "symLet", "cmdLetXWithTailRecOpt": "symLetX", "prognWithTailRecOpt": "symProgn", "cmdCondWithTailRecOpt": "symCond"}
	ef := map[string]string{"testCarIsCurrFunc": "test"}
	for f := range kinds {
		ef[f] = "t-" + f
	}
	cs = append(cs, &Contract{name: "go:evalWithTailRecOpt", entry: "go:evalWithTailRecOpt", props: []string{"P27"}, autos: bothKinds, codeImmutable: true,
		eventFuncs: ef,
		clause:     "a form in tail position is a tail call of the named function, or one of if, let, let*, progn, cond evaluated as such in tail position, or is evaluated as any other form, once, in its environment; the result is the result",
		covers:     []string{"tail call", "special form", "other form"},
		setup: func(en *Entry) {
			x, st := en.ex, en.st
			sym := symArg(en, 3)
			st.assume(Or(named(x, sym), x.isType(sym, x.mustType("_Symbol"))))
			g := st.ghosts
			g["n"], g["tested"], g["terr"] = IntT(0), False, VNil
			g["rv"], g["re"] = VNil, VNil
		},
		onEvent: func(ev *Event) {
			x, st, en := ev.ex, ev.st, ev.en
			target, sym := en.args[2].(*T), symArg(en, 3)
			name := named(x, sym)
			tested := And(ev.get("tested", SBool), Eq(ev.get("terr", SVal), VNil))
			car := x.carN(st, target)
			once := Eq(ev.get("n", SInt), IntT(0))
			special := func(g string) *T { return And(x.isCons(target), x.same(car, x.globalT(st, g))) }
			switch {
			case ev.kind == "test":
				ev.assert("a form in tail position is tested once, for the named function", And(name, once, Not(ev.get("tested", SBool)),
					Eq(ev.val(0), en.ctx), Eq(ev.val(1), en.w), x.same(ev.val(2), target), Eq(ev.val(3), sym)))
			case ev.kind == "eval":
				x.Covers["other form"] = true
				ev.assert("evaluated once, in its environment and context", And(once, Eq(ev.val(0), en.w), Eq(ev.val(1), en.ctx), x.same(ev.val(2), target)))
				ev.assert("a tail call is recognised before", Or(Not(name), tested))
			case strings.HasPrefix(ev.kind, "t-"):
				x.Covers["special form"] = true
				ev.assert("a special form in tail position, once, in its environment and context", And(once, name, tested, special(kinds[ev.kind[2:]]),
					Eq(ev.val(0), en.ctx), Eq(ev.val(1), en.w), x.same(ev.val(2), x.cdrN(st, target)), Eq(ev.val(3), sym)))
			default:
				ev.assert("nothing else happens", False)
			}
		},
		after: func(ev *Event) {
			if ev.kind == "test" {
				ev.set("tested", True)
				ev.set("terr", ev.res.(*T))
				return
			}
			ev.set("n", IntT(1))
			ev.set("rv", ev.rv)
			ev.set("re", ev.re)
		},
		onReturn: func(r *Return) {
			x := r.ex
			terr := r.get("terr", SVal)
			r.when(Not(Eq(terr, VNil)), func(r *Return) {
				r.cover("tail call")
				r.assert("a tail call ends the evaluation", And(Eq(r.re, terr), Eq(r.get("n", SInt), IntT(0))))
			})
			r.when(Eq(r.get("n", SInt), IntT(1)), func(r *Return) {
				r.assert("the failure is the failure", Eq(r.re, r.get("re", SVal)))
				r.when(Eq(r.re, VNil), func(r *Return) { r.assert("the value is the value", x.same(r.rv, r.get("rv", SVal))) })
			})
			r.when(And(Eq(terr, VNil), Eq(r.get("n", SInt), IntT(0))), func(r *Return) {
				r.assert("the form is evaluated, or the context was cancelled", And(named(x, symArg(r.en, 3)), Not(Eq(r.re, VNil))))
			})
		}})
	// list helpers
	cs = append(cs, &Contract{name: "go:NReverse", entry: "go:NReverse", props: []string{"P01", "P14", "P27"}, autos: bothKinds,
		clause: "every cell of the list keeps its element and is linked to the cell that was before it; the last cell is returned",
		covers: []string{"reversed", "empty"},
		setup: func(en *Entry) {
			x, st := en.ex, en.st
			L := en.args[2].(*T)
			g := st.ghosts
			// an arbitrary cell c; idx numbers the cells of the list, pred is the cell before
			c := Const("some.cell", SInt)
			g["c"] = c
			ct := IntT(int64(x.P.tid(x.mustType("*Cons"))))
			inL := func(r *T) *T { return UF("inList", SBool, r) }
			pos := func(r *T) *T { return UF("cellIdx", SInt, r) }
			v := func(r *T) *T { return Ctor("VP", ct, r) }
			h := st.heap("Cons.Cdr", SVal)
			st.heaps["Cons.Cdr"] = h.withFactIn(func(cur *State, ks []*T, cdr *T) *T {
				nx := Sel("vp", cdr)
				return Implies(inL(ks[0]), And(Or(x.isCons(cdr), Eq(cdr, x.nullVal())),
					Implies(x.isCons(cdr), And(inL(nx), Eq(pos(nx), Add(pos(ks[0]), IntT(1))), Eq(UF("pred", SInt, nx), ks[0]), Eq(UF("cellAt", SInt, pos(nx)), nx)))))
			})
			st.assume(Or(x.isCons(L), Eq(L, x.nullVal())))
			st.assume(Implies(x.isCons(L), And(inL(Sel("vp", L)), Eq(pos(Sel("vp", L)), IntT(0)), Eq(UF("cellAt", SInt, IntT(0)), Sel("vp", L)))))
			st.assume(And(x.isCons(v(c)), inL(c), Le(IntT(0), pos(c)), Lt(IntT(0), c), Eq(UF("cellAt", SInt, pos(c)), c)))
			st.assume(Implies(Eq(pos(c), IntT(0)), Eq(v(c), L)))
			g["car0"] = x.readField(st, "Cons", "Car", c)
			g["cdr0"] = x.readField(st, "Cons", "Cdr", c)
		},
		loopCands: func(lc *loopCtx) []cand {
			x := lc.ex
			c := x.ghost(lc.E, "c", SInt)
			ct := IntT(int64(x.P.tid(x.mustType("*Cons"))))
			pos := func(r *T) *T { return UF("cellIdx", SInt, r) }
			inL := func(r *T) *T { return UF("inList", SBool, r) }
			var r []cand
			add := func(name string, f func(st *State, sl *slots) *T) { r = append(r, cand{name: "reverse " + name, f: f}) }
			add("element", func(st *State, _ *slots) *T { return Eq(x.readField(st, "Cons", "Car", c), x.ghost(st, "car0", SVal)) })
			for _, n := range lc.entry.names {
				n := n
				if lc.entry.val[n].sort != SVal {
					continue
				}
				add("cell "+n, func(st *State, sl *slots) *T {
					v := sl.val[n]
					return And(Or(x.isCons(v), Eq(v, x.nullVal())), Implies(x.isCons(v), And(inL(Sel("vp", v)), Le(IntT(0), pos(Sel("vp", v))), Eq(UF("cellAt", SInt, pos(Sel("vp", v))), Sel("vp", v)))))
				})
				for _, m := range lc.entry.names {
					m := m
					if lc.entry.val[m].sort != SVal || m == n {
						continue
					}
					// n is the rest of the list, m the result so far
					r = append(r, cand{name: "reverse untouched " + m, all: &allCand{key: "Cons.Cdr", sort: SVal, f: func(cur, st *State, sl *slots, ks []*T, cdr, _ *T) *T {
						res, nx := sl.val[m], Sel("vp", cdr)
						return Implies(And(inL(ks[0]), Or(x.none(res), Lt(pos(Sel("vp", res)), pos(ks[0])))), And(Or(x.isCons(cdr), Eq(cdr, x.nullVal())),
							Implies(x.isCons(cdr), And(inL(nx), Eq(pos(nx), Add(pos(ks[0]), IntT(1))), Eq(UF("pred", SInt, nx), ks[0]), Eq(UF("cellAt", SInt, pos(nx)), nx)))))
					}}})
					add("next "+n+m, func(st *State, sl *slots) *T {
						l, res := sl.val[n], sl.val[m]
						return And(Implies(And(x.isCons(l), x.isCons(res)), And(Eq(pos(Sel("vp", l)), Add(pos(Sel("vp", res)), IntT(1))), Eq(UF("pred", SInt, Sel("vp", l)), Sel("vp", res)))),
							Implies(And(x.isCons(l), x.none(res)), Eq(pos(Sel("vp", l)), IntT(0))))
					})
					add("just done "+n+m, func(st *State, sl *slots) *T {
						return Implies(Eq(Ctor("VP", ct, c), sl.val[m]), x.same(x.ghost(st, "cdr0", SVal), sl.val[n]))
					})
					add("done "+n+m, func(st *State, sl *slots) *T {
						res := sl.val[m]
						car, cdr := x.readField(st, "Cons", "Car", c), x.readField(st, "Cons", "Cdr", c)
						done := And(x.isCons(res), Le(pos(c), pos(Sel("vp", res))))
						_ = car
						return And(Implies(Not(done), Eq(cdr, x.ghost(st, "cdr0", SVal))),
							Implies(And(done, Lt(IntT(0), pos(c))), Eq(cdr, Ctor("VP", ct, UF("pred", SInt, c)))),
							Implies(And(done, Eq(pos(c), IntT(0))), x.none(cdr)))
					})
				}
			}
			return r
		},
		onReturn: func(r *Return) {
			x := r.ex
			c := r.get("c", SInt)
			ct := IntT(int64(x.P.tid(x.mustType("*Cons"))))
			pos := func(r *T) *T { return UF("cellIdx", SInt, r) }
			r.assert("it does not fail", Eq(r.re, VNil))
			r.when(x.isCons(r.rv), func(r *Return) { r.cover("reversed") })
			r.when(x.none(r.rv), func(r *Return) { r.cover("empty") })
			car, cdr := x.readField(r.st, "Cons", "Car", c), x.readField(r.st, "Cons", "Cdr", c)
			in := And(x.isCons(r.rv), Le(pos(c), pos(Sel("vp", r.rv))))
			r.assert("the elements stay", Eq(car, r.get("car0", SVal)))
			r.assert("the link goes to the cell before", Implies(And(in, Lt(IntT(0), pos(c))), Eq(cdr, Ctor("VP", ct, UF("pred", SInt, c)))))
			r.assert("the first cell becomes the last", Implies(And(in, Eq(pos(c), IntT(0))), x.none(cdr)))
			r.assert("the last cell becomes the first", Implies(Eq(Ctor("VP", ct, c), r.rv), x.none(r.get("cdr0", SVal))))
		}})
	cs = append(cs, &Contract{name: "go:(*ListBuilder).Add", entry: "go:(*ListBuilder).Add", props: []string{"P01", "P14", "P15"}, autos: bothKinds,
		clause: "a new cell with the value, at whose end the list ends, becomes the last cell, linked from the last cell before (or from the start); no other cell changes",
		covers: []string{"first", "further"},
		setup: func(en *Entry) {
			x, st := en.ex, en.st
			g := st.ghosts
			st.assume(x.wf(en.args[3].(*T)))
			lb := en.args[0].(*T)
			g["last0"] = x.readField(st, "ListBuilder", "last", lb)
			st.assume(And(Le(IntT(0), g["last0"]), Lt(g["last0"], st.alloc())))
			g["q"] = Const("some.cell", SInt)
			st.assume(And(Lt(IntT(0), g["q"]), Lt(g["q"], st.alloc())))
			g["qcar"] = x.readField(st, "Cons", "Car", g["q"])
			g["qcdr"] = x.readField(st, "Cons", "Cdr", g["q"])
			g["start0"] = st.readH(st.heap("ListBuilder.first.Cdr", SVal), []*T{lb})
		},
		onReturn: func(r *Return) {
			x, st := r.ex, r.st
			lb := r.en.args[0].(*T)
			ct := IntT(int64(x.P.tid(x.mustType("*Cons"))))
			last0 := r.get("last0", SInt)
			last := x.readField(st, "ListBuilder", "last", lb)
			cell := Ctor("VP", ct, last)
			q := r.get("q", SInt)
			r.assert("it does not fail", Eq(r.res.(*T), VNil))
			r.assert("a new cell is last", And(Lt(q, last), Not(Eq(last, last0))))
			r.assert("it holds the value", Eq(x.readField(st, "Cons", "Car", last), r.en.args[3].(*T)))
			r.assert("the list ends there", Eq(x.readField(st, "Cons", "Cdr", last), x.nullVal()))
			start := st.readH(st.heap("ListBuilder.first.Cdr", SVal), []*T{lb})
			r.when(Eq(last0, IntT(0)), func(r *Return) {
				r.cover("first")
				r.assert("the list starts there", Eq(start, cell))
			})
			r.when(Not(Eq(last0, IntT(0))), func(r *Return) {
				r.cover("further")
				r.assert("the list starts where it did", Eq(start, r.get("start0", SVal)))
				r.assert("the last cell before is linked to it", Eq(x.readField(r.st, "Cons", "Cdr", last0), cell))
			})
			r.assert("no element changes", Eq(x.readField(st, "Cons", "Car", q), r.get("qcar", SVal)))
			r.assert("no other link changes", Or(Eq(q, last0), Eq(x.readField(st, "Cons", "Cdr", q), r.get("qcdr", SVal))))
		}})
	cs = append(cs, &Contract{name: "go:(*ListBuilder).Sequence", entry: "go:(*ListBuilder).Sequence", props: []string{"P01", "P14", "P15"}, autos: bothKinds,
		clause: "the list from its start; nil when nothing was added",
		covers: []string{"returned"},
		onReturn: func(r *Return) {
			x, st := r.ex, r.st
			lb := r.en.args[0].(*T)
			r.cover("returned")
			r.assert("the list built", Eq(r.res.(*T), Ite(Eq(x.readField(st, "ListBuilder", "last", lb), IntT(0)), x.nullVal(), st.readH(st.heap("ListBuilder.first.Cdr", SVal), []*T{lb}))))
		}})
	return cs
}

func init() { contractSets = append(contractSets, tailContracts) }
