package main

// P20: generic functions run only an applicable method.

func genericContracts() []*Contract {
	var cs []*Contract
	ops := map[string]string{"Class.InstanceP": "inst"}
	pure := map[string]bool{"inst": true, "can": true}
	meaning := func(ev *Event) {
		if ev.kind == "inst" {
			ev.assume(Eq(ev.res.(*T), instUF(ev.val(0), ev.val(1))))
		}
	}
	j, k := Const("nth.argument", SInt), Const("nth.method", SInt)
	cs = append(cs, &Contract{name: "go:(*_Method).canCallWith", entry: "go:(*_Method).canCallWith", props: []string{"P20"}, autos: bothKinds, eventFuncs: ops, pureEvents: pure,
		clause: "true exactly when the number of arguments is accepted and every argument is an instance of the class of its parameter (of the rest parameter, for further ones)",
		covers: []string{"applicable", "not applicable", "rest"},
		setup: func(en *Entry) {
			x, st := en.ex, en.st
			m := en.args[0].(*T)
			vals := en.args[1].(SliceV)
			types := x.sliceField(st, "_Method.types", m)
			st.assume(And(Le(IntT(0), types.len), Le(IntT(0), j)))
			rest := x.readField(st, "_Method", "restType", m)
			g := st.ghosts
			g["arity"] = Ite(Eq(rest, VNil), Eq(types.len, vals.len), Le(types.len, vals.len))
			// all: every argument is accepted
			all := Const("all.accepted", SBool)
			g["all"] = all
			x.withElems(st, "Class", SVal, types, func(cur *State, k, c *T) *T {
				return Implies(And(all, Lt(k, vals.len)), instUF(c, x.elemOf(cur, "Node", SVal, vals, k)))
			})
			x.withElems(st, "Node", SVal, vals, func(cur *State, k, v *T) *T {
				return Implies(And(all, Le(types.len, k), Not(Eq(rest, VNil))), instUF(rest, v))
			})
		},
		onEvent: func(ev *Event) {
			if ev.kind != "inst" {
				ev.assert("nothing else is called", False)
			}
		},
		after: meaning,
		loopCands: func(lc *loopCtx) []cand {
			var r []cand
			x := lc.ex
			m := lc.ex.en.args[0].(*T)
			vals := lc.ex.en.args[1].(SliceV)
			for _, n := range lc.entry.names {
				n := n
				if lc.entry.val[n].sort != SInt {
					continue
				}
				for _, d := range []int64{0, 1} {
					d := d
					r = append(r, cand{name: "accepted before " + n + IntT(d).String(), f: func(st *State, sl *slots) *T {
						types := x.sliceField(st, "_Method.types", m)
						return Implies(And(Lt(j, Add(sl.val[n], IntT(d))), Lt(j, types.len)), instUF(x.elemOf(st, "Class", SVal, types, j), x.elemOf(st, "Node", SVal, vals, j)))
					}}, cand{name: "rest accepted before " + n + IntT(d).String(), f: func(st *State, sl *slots) *T {
						types := x.sliceField(st, "_Method.types", m)
						return Implies(And(Le(types.len, j), Lt(Sub(j, types.len), Add(sl.val[n], IntT(d)))), instUF(x.readField(st, "_Method", "restType", m), x.elemOf(st, "Node", SVal, vals, j)))
					}}, cand{name: "all rest accepted before " + n + IntT(d).String(), f: func(st *State, sl *slots) *T {
						types := x.sliceField(st, "_Method.types", m)
						return Implies(And(Le(types.len, j), Lt(j, Add(sl.val[n], IntT(d)))), instUF(x.readField(st, "_Method", "restType", m), x.elemOf(st, "Node", SVal, vals, j)))
					}})
				}
			}
			return r
		},
		onReturn: func(r *Return) {
			x, st := r.ex, r.st
			m := r.en.args[0].(*T)
			vals := r.en.args[1].(SliceV)
			r.when(r.rv, func(r *Return) {
				types := x.sliceField(r.st, "_Method.types", m)
				rest := x.readField(r.st, "_Method", "restType", m)
				r.cover("applicable")
				r.assert("the number of arguments is accepted", r.get("arity", SBool))
				v := x.elemOf(r.st, "Node", SVal, vals, j)
				r.when(Lt(j, types.len), func(r *Return) {
					r.assert("every argument is accepted", instUF(x.elemOf(r.st, "Class", SVal, types, j), v))
				})
				r.when(And(Le(types.len, j), Lt(j, vals.len)), func(r *Return) {
					r.cover("rest")
					r.assert("every further argument is accepted", instUF(rest, v))
				})
			})
			_ = st
			r.when(Not(r.rv), func(r *Return) {
				r.cover("not applicable")
				r.assert("an applicable method is not rejected", Not(And(r.get("arity", SBool), r.get("all", SBool))))
			})
		}})
	cs = append(cs, &Contract{name: "call of a generic function", entry: "go:(*_Generic).Call", props: []string{"P20", "P01"}, autos: bothKinds,
		eventFuncs: map[string]string{"(*_Method).canCallWith": "can"}, pureEvents: map[string]bool{"can": true},
		clause: "every argument is evaluated exactly once, left to right, in the caller's environment; then exactly one method runs, one that accepts these arguments, with exactly these values in order; when none accepts them, none runs and the call fails",
		covers: []string{"method", "no method", "argument fails"},
		setup: func(en *Entry) {
			g := en.st.ghosts
			g["pos"], g["n"], g["v"], g["failed"], g["err"] = en.args[3].(*T), IntT(0), VNil, False, VNil
			g["m"], g["ran"], g["rv"], g["re"], g["raised"] = IntT(0), False, VNil, VNil, False
			en.st.assume(Le(IntT(0), j))
			g["hit"], g["allhit"] = False, False
			en.st.assume(Le(IntT(0), k))
			en.ex.formFact(en.st, en.args[3].(*T))
		},
		onEvent: func(ev *Event) {
			x, st := ev.ex, ev.st
			pos := ev.get("pos", SVal)
			args := func(sv SliceV) *T {
				return And(Eq(sv.len, ev.get("n", SInt)), Implies(Lt(j, sv.len), Eq(x.elemOf(st, "Node", SVal, sv, j), ev.get("v", SVal))))
			}
			done := And(x.none(pos), Not(ev.get("failed", SBool)), Not(ev.get("ran", SBool)))
			switch ev.kind {
			case "eval":
				ev.assert("no evaluation after a failure or a method", And(Not(ev.get("failed", SBool)), Not(ev.get("ran", SBool))))
				ev.assert("evaluated in the caller's environment and context", And(Eq(ev.val(0), ev.en.w), Eq(ev.val(1), ev.en.ctx)))
				ev.assert("the next argument", And(x.isCons(pos), x.same(ev.val(2), x.carN(st, pos))))
				ev.set("pos", x.cdrN(st, pos))
			case "can":
				ev.assert("methods are tested when all arguments are evaluated", done)
				ev.assert("with the values of the arguments in order", args(ev.args[1].(SliceV)))
			case "fcall":
				ev.assert("a method runs once, when all arguments are evaluated", done)
				ev.assert("a method that accepts the arguments", And(Not(Eq(ev.get("m", SInt), IntT(0))), Eq(ev.val(0), x.readField(st, "_Method", "method", ev.get("m", SInt)))))
				ev.assert("in the caller's context", Eq(ev.val(1), ev.en.ctx))
				ev.assert("its arguments are the values in order", args(ev.args[3].(SliceV)))
			case "handler":
				bad := And(Not(x.isCons(pos)), Not(x.none(pos)))
				ev.assert("a condition only when no method is applicable", Or(bad, And(done, Eq(ev.get("m", SInt), IntT(0)))))
				ms := x.sliceField(st, "_Generic.methods", ev.en.args[0].(*T))
				ev.set("allhit", Or(Le(ms.len, k), ev.get("hit", SBool)))
			default:
				ev.assert("nothing else is called", False)
			}
		},
		after: func(ev *Event) {
			switch ev.kind {
			case "eval":
				ok := Eq(ev.re, VNil)
				n := ev.get("n", SInt)
				ev.set("v", Ite(And(ok, Eq(n, j)), ev.rv, ev.get("v", SVal)))
				ev.set("n", Ite(ok, Add(n, IntT(1)), n))
				ev.set("failed", Not(ok))
				ev.set("err", ev.re)
			case "can":
				ev.set("m", Ite(ev.res.(*T), ev.val(0), IntT(0)))
				ms := ev.ex.sliceField(ev.st, "_Generic.methods", ev.en.args[0].(*T))
				ev.set("hit", Or(ev.get("hit", SBool), Eq(ev.val(0), ev.ex.elemOf(ev.st, "*_Method", SInt, ms, k))))
			case "fcall":
				ev.set("ran", True)
				ev.set("rv", ev.rv)
				ev.set("re", ev.re)
			case "handler":
				ev.set("raised", True)
				ev.set("err", ev.re)
			}
		},
		loopCands: func(lc *loopCtx) []cand {
			x := lc.ex
			g := func(st *State, n string, s Sort) *T { return x.ghost(st, n, s) }
			r := []cand{{name: "no failure, no method yet", f: func(st *State, _ *slots) *T {
				return And(Not(g(st, "failed", SBool)), Not(g(st, "ran", SBool)), Not(g(st, "raised", SBool)))
			}}, {name: "no method found", f: func(st *State, _ *slots) *T { return Eq(g(st, "m", SInt), IntT(0)) }}, {name: "all evaluated", f: func(st *State, _ *slots) *T { return x.none(g(st, "pos", SVal)) }},
				{name: "counted", f: func(st *State, _ *slots) *T { return Le(IntT(0), g(st, "n", SInt)) }}}
			for _, n := range lc.entry.names {
				n := n
				if lc.entry.val[n].sort == SInt {
					ms := func(st *State) SliceV { return x.sliceField(st, "_Generic.methods", lc.ex.en.args[0].(*T)) }
					r = append(r, cand{name: "tested after " + n, f: func(st *State, sl *slots) *T {
						return Implies(And(Lt(sl.val[n], k), Lt(k, ms(st).len)), g(st, "hit", SBool))
					}}, cand{name: "tested from " + n, f: func(st *State, sl *slots) *T {
						return Implies(And(Le(sl.val[n], k), Lt(k, ms(st).len)), g(st, "hit", SBool))
					}}, cand{name: "tested before " + n, f: func(st *State, sl *slots) *T { return Implies(Lt(k, sl.val[n]), g(st, "hit", SBool)) }},
						cand{name: "tested up to " + n, f: func(st *State, sl *slots) *T { return Implies(Le(k, sl.val[n]), g(st, "hit", SBool)) }})
				}
				if lc.entry.val[n].sort == SVal {
					r = append(r, cand{name: "rest " + n, f: func(st *State, sl *slots) *T { return x.same(sl.val[n], g(st, "pos", SVal)) }})
				}
			}
			for _, n := range lc.entry.snames {
				n := n
				r = append(r, cand{name: "values length " + n, f: func(st *State, sl *slots) *T { return Eq(sl.slice[n].len, g(st, "n", SInt)) }},
					cand{name: "values " + n, f: func(st *State, sl *slots) *T {
						return Implies(Lt(j, g(st, "n", SInt)), Eq(x.elemOf(st, "Node", SVal, sl.slice[n], j), g(st, "v", SVal)))
					}})
			}
			return r
		},
		onReturn: func(r *Return) {
			r.when(r.get("failed", SBool), func(r *Return) {
				r.cover("argument fails")
				r.assert("a failing argument fails", Eq(r.re, r.get("err", SVal)))
			})
			r.when(r.get("ran", SBool), func(r *Return) {
				r.cover("method")
				r.assert("the method's result is the result", And(Eq(r.re, r.get("re", SVal)), Implies(Eq(r.re, VNil), Eq(r.rv, r.get("rv", SVal)))))
			})
			r.when(And(Not(r.get("failed", SBool)), Not(r.get("ran", SBool))), func(r *Return) {
				r.cover("no method")
				r.assert("without a method the call fails", Not(Eq(r.re, VNil)))
				r.when(r.ex.none(r.get("pos", SVal)), func(r *Return) {
					r.assert("no applicable method is passed over", Eq(r.get("m", SInt), IntT(0)))
					r.assert("every method is considered", r.get("allhit", SBool))
				})
			})
		}})
	return cs
}

func init() { contractSets = append(contractSets, genericContracts) }
