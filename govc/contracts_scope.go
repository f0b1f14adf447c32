package main

import "strings"

// P03 variable scoping, P01 calls, P27 tail calls.

func scopeContracts() []*Contract {
	var cs []*Contract
	add := func(c *Contract) {
		if c.entry == "" {
			c.entry = c.name
		}
		cs = append(cs, c)
	}
	// nextScope(w): the innermost world from w outwards that has bindings of the kind looked up (0: none).
	chain := func(field string) func(en *Entry) {
		return func(en *Entry) {
			x, st := en.ex, en.st
			en.st.assume(Eq(UF("nextScope", SInt, IntT(0)), IntT(0)))
			h := st.heap("World."+field, SVal)
			st.heaps["World."+field] = h.withFactIn(func(cur *State, ks []*T, v *T) *T {
				p := x.worldParent(cur, ks[0])
				return Eq(UF("nextScope", SInt, ks[0]), Ite(Eq(v, VNil), UF("nextScope", SInt, p), ks[0]))
			})
			g := st.ghosts
			g["cur"] = en.args[0].(*T)
			x.readField(st, "World", field, g["cur"])
			g["found"] = False
			g["value"] = VNil
			g["stored"] = False
		}
	}
	next := func(v *T) *T { return UF("nextScope", SInt, v) }
	cands := func(lc *loopCtx) []cand {
		var r []cand
		x := lc.ex
		for _, v := range lc.entry.names {
			v := v
			if lc.entry.val[v].sort != SInt {
				continue
			}
			r = append(r, cand{name: "scope chain " + v, f: func(st *State, s *slots) *T {
				return Eq(next(s.val[v]), next(x.ghost(st, "cur", SInt)))
			}})
		}
		r = append(r, cand{name: "not found yet", f: func(st *State, s *slots) *T {
			return And(Not(x.ghost(st, "found", SBool)), Not(x.ghost(st, "stored", SBool)))
		}})
		return r
	}
	lookup := func(name, field, iface string, set bool) {
		ev := map[string]string{iface + ".Get": "get"}
		if set {
			ev[iface+".Set"] = "set"
		}
		add(&Contract{name: name, props: []string{"P03"}, autos: bothKinds, eventFuncs: ev, pureEvents: map[string]bool{"get": true, "set": true},
			clause:    "the environments are asked for the name from the innermost outwards, and the first binding found is the one used; without a binding it fails",
			covers:    []string{"found", "not found"},
			setup:     chain(field),
			loopCands: cands,
			onEvent: func(ev *Event) {
				x, st := ev.ex, ev.st
				cur := next(ev.get("cur", SInt))
				scope := x.readField(st, "World", field, cur)
				if ev.kind == "get" {
					ev.assert("nothing is asked once the name is found", Not(ev.get("found", SBool)))
					ev.assert("an environment is left", Not(Eq(cur, IntT(0))))
					ev.assert("the innermost environment not yet asked is next", Eq(ev.val(0), scope))
					ev.assert("it is asked for the name", Eq(ev.val(1), ev.en.args[1].(*T)))
				} else {
					ev.assert("assigned where the name is bound", And(ev.get("found", SBool), Not(ev.get("stored", SBool)), Eq(ev.val(0), x.readField(st, "World", field, ev.get("cur", SInt)))))
					ev.assert("the name and the value are stored", And(Eq(ev.val(1), ev.en.args[1].(*T)), Eq(ev.val(2), ev.en.args[len(ev.en.args)-1].(*T))))
					ev.set("stored", True)
				}
			},
			after: func(ev *Event) {
				if ev.kind != "get" {
					return
				}
				x, st := ev.ex, ev.st
				tv, _ := ev.res.(TupleV)
				if len(tv) != 2 {
					ev.assert("an environment answers with a value and whether it is bound", False)
					return
				}
				ok := tv[1].(*T)
				ev.assume(Implies(ok, x.wf(tv[0].(*T)))) // the frames hold values only (P10)
				at := next(ev.get("cur", SInt))
				ev.set("found", ok)
				ev.set("value", tv[0].(*T))
				ev.set("cur", Ite(ok, at, x.worldParent(st, at)))
			},
			onReturn: func(r *Return) {
				var re *T
				if set {
					re, _ = r.res.(*T)
				} else {
					re = r.re
				}
				f := r.get("found", SBool)
				r.when(f, func(r *Return) {
					r.cover("found")
					r.assert("a bound name does not fail", Eq(re, VNil))
					if set {
						r.assert("the value is stored", r.get("stored", SBool))
					} else {
						r.assert("the value of the binding is returned", Eq(r.rv, r.get("value", SVal)))
					}
				})
				r.when(Not(f), func(r *Return) {
					r.cover("not found")
					r.assert("all environments were asked", Eq(next(r.get("cur", SInt)), IntT(0)))
					r.assert("a name without a binding fails", Not(Eq(re, VNil)))
					r.assert("nothing is stored", Not(r.get("stored", SBool)))
				})
			}})
	}
	lookup("go:(*World).Get", "vars", "Scope", false)
	lookup("go:(*World).Set", "vars", "Scope", true)
	lookup("go:(*World).GetFunc", "funcs", "FuncScope", false)
	cs = append(cs, letContracts()...)
	return cs
}

// scopeAt: whether an environment's variable table binds s, and to what. The tables are maps or single pairs.
func (ex *Exec) scopeAt(st *State, scope, s *T) (has, val *T) {
	vt, pt := ex.mustType("Variables"), ex.mustType("*Pair")
	m := Sel(valSel[ifaceKind(vt)][1], scope)
	p := Sel("vp", scope)
	mh := And(Not(Eq(m, IntT(0))), st.readH(st.heap("map:Symbol,Node#dom", SBool), []*T{m, s}))
	mv := st.readH(st.heap("map:Symbol,Node#val", SVal), []*T{m, s})
	ph := Eq(ex.readField(st, "Pair", "Key", p), s)
	pv := ex.readField(st, "Pair", "Value", p)
	isV := ex.isType(scope, vt)
	return Or(And(isV, mh), And(ex.isType(scope, pt), ph)), Ite(isV, mv, pv)
}

// worldsMade lists the environments created by the code under contract.
func worldsMade(lc *loopCtx) []*T {
	var r []*T
	for ref, o := range lc.E.objTyp {
		if o.typ != nil && typeKey(o.typ) == "World" {
			r = append(r, ref)
		}
	}
	sortTerms(r)
	return r
}

// worldRegs lists the environments that the frames' registers hold.
func worldRegs(lc *loopCtx) []*T { return typedRegs(lc, "*World") }

// typedRegs are the values of one type that the code holds at the entry of a loop.
func typedRegs(lc *loopCtx, typ string) []*T {
	seen := map[*T]bool{}
	var r []*T
	for _, f := range lc.E.frames {
		for reg, v := range f.regs {
			if t, ok := v.(*T); ok && typeKey(reg.Type()) == typ && !seen[t] {
				seen[t] = true
				r = append(r, t)
			}
		}
	}
	sortTerms(r)
	return r
}

// letContracts: let and let*, also in their tail-call versions.
func letContracts() []*Contract {
	next := func(v *T) *T { return UF("nextInit", SVal, v) }
	noSym := func(k, v *T) *T { return UF("noBare", SBool, k, v) }
	recs := []recSpec{{name: "let bindings",
		at: func(ex *Exec, st *State, v, car, cdr *T) *T {
			return Implies(ex.isCons(v), Eq(next(v), Ite(ex.isSymbol(car), next(cdr), v)))
		},
		base: func(ex *Exec, st *State) *T {
			n := ex.nullVal()
			return And(Eq(next(n), n), Eq(next(VNil), VNil))
		},
		keyed: func(ex *Exec, st *State, k, v, car, cdr *T) *T {
			bare := Eq(car, k)
			if strings.Contains(ex.con.name, "let*") || strings.Contains(ex.con.name, "LetX") {
				bare = ex.isSymbol(car)
			}
			return Implies(And(ex.isCons(v), noSym(k, v)), And(Not(bare), noSym(k, cdr)))
		}}}
	mk := func(name string, star bool) *Contract {
		form := func(en *Entry) *T {
			if en.list != nil {
				return en.list
			}
			return en.args[2].(*T)
		}
		c := &Contract{name: name, entry: name, props: []string{"P03"}, autos: bothKinds, codeImmutable: true, recs: recs,
			eventFuncs: map[string]string{"evalWithTailRecOpt": "teval"},
			clause:     "initial values are evaluated once, in order, in the enclosing environment (let*: in the environment of the bindings before it); the body is evaluated in a new environment inside it that binds exactly the names to the values; the body's last value is returned and the first failure ends it",
			covers:     []string{"success", "failure", "bound in the body", "not bound in the body"}}
		c.setup = func(en *Entry) {
			x, st := en.ex, en.st
			outcomeSetup(en)
			g := st.ghosts
			if en.list == nil { // the tail-call version: called for a function's name, or for none
				sym := en.args[3].(*T)
				st.assume(Or(named(x, sym), x.isType(sym, x.mustType("_Symbol"))))
			}
			g["s"] = Const("some.variable", SVal)
			x.validFact(st, g["s"], anyType)
			st.assume(x.isSymbol(g["s"]))
			x.addKey(st, g["s"])
			g["pos"] = x.carN(st, form(en))
			st.assume(noSym(g["s"], g["pos"]))
			g["body"] = x.cdrN(st, form(en))
			g["has"], g["val"] = False, VNil
			g["nm"] = VNil
			g["env"] = en.w // the environment for the next evaluation
			g["inits"] = IntT(0)
			g["inbody"] = False
		}
		// newEnv: the environment evaluated in is a new one inside env that binds s as expected.
		newEnv := func(ev *Event, w, has, val *T) {
			x, st := ev.ex, ev.st
			env := ev.get("env", SInt)
			ev.assert("a new environment inside the previous one", And(Not(Eq(w, env)), Eq(x.worldParent(st, w), env)))
			ev.assert("of the same interpreter", Eq(x.readField(st, "World", "shared", w), x.readField(st, "World", "shared", env)))
			ev.assert("it defines no functions", Eq(x.readField(st, "World", "funcs", w), VNil))
			h, v := x.scopeAt(st, x.readField(st, "World", "vars", w), ev.get("s", SVal))
			ev.assert("it binds exactly the given names", Eq(h, has))
			ev.assert("to the values", Implies(has, Eq(v, val)))
		}
		c.onEvent = func(ev *Event) {
			x, st := ev.ex, ev.st
			if ev.kind == "handler" {
				return
			}
			var w, ctx, f *T
			switch ev.kind {
			case "eval":
				w, ctx, f = ev.val(0), ev.val(1), ev.val(2)
			case "teval":
				w, ctx, f = ev.val(1), ev.val(0), ev.val(2)
			default:
				noCalls(ev)
				return
			}
			s := ev.get("s", SVal)
			pos := next(ev.get("pos", SVal))
			init := x.isCons(pos)
			item := x.carN(st, pos)
			body := ev.get("body", SVal)
			ev.assert("no evaluation after a failure", Not(ev.get("failed", SBool)))
			ev.assert("evaluated in the given context", Eq(ctx, ev.en.ctx))
			ev.assert("a form is left", Or(init, x.isCons(body)))
			ev.assert("the form the definition selects next", x.same(f, Ite(init, x.carN(st, x.cdrN(st, item)), x.carN(st, body))))
			inbody := ev.get("inbody", SBool)
			env := ev.get("env", SInt)
			has, val := ev.get("has", SBool), ev.get("val", SVal)
			nm := x.unwrapped(x.carN(st, item))
			fork := func(ev *Event, c *T, f func(ev *Event)) {
				st := ev.st
				c = st.simp(c)
				if c == False {
					return
				}
				n := *ev
				n.st = st.clone()
				n.st.assume(c)
				if n.st.dead || !x.feasible(n.st, True) {
					return
				}
				f(&n)
			}
			if !star {
				fork(ev, init, func(ev *Event) { ev.assert("initial values are evaluated in the enclosing environment", Eq(w, env)) })
				fork(ev, And(Not(init), Not(inbody)), func(ev *Event) {
					x.Covers["body"] = true
					fork(ev, has, func(*Event) { x.Covers["bound in the body"] = true })
					fork(ev, Not(has), func(*Event) { x.Covers["not bound in the body"] = true })
					newEnv(ev, w, has, val)
				})
				fork(ev, inbody, func(ev *Event) { ev.assert("the body is evaluated in the new environment", Eq(w, env)) })
				ev.set("env", Ite(init, env, w))
			} else {
				// bare symbols between two initial values make further environments: they bind other names than s
				first := Eq(ev.get("inits", SInt), IntT(0))
				fork(ev, And(Not(inbody), first), func(ev *Event) {
					ev.assert("what precedes the first binding is evaluated in the enclosing environment", Eq(w, env))
				})
				fork(ev, And(Not(inbody), Not(first)), func(ev *Event) {
					fork(ev, has, func(*Event) { x.Covers["bound in the body"] = true })
					fork(ev, Not(has), func(*Event) { x.Covers["not bound in the body"] = true })
					newEnv(ev, w, has, val)
				})
				fork(ev, inbody, func(ev *Event) { ev.assert("the body is evaluated in the last environment", Eq(w, env)) })
				ev.set("env", w)
				ev.set("has", False)
				has = False
			}
			ev.set("inbody", Not(init))
			ev.set("nm", Ite(init, nm, VNil))
			ev.set("inits", Ite(init, Add(ev.get("inits", SInt), IntT(1)), ev.get("inits", SInt)))
			ev.set("pos", Ite(init, x.cdrN(st, pos), ev.get("pos", SVal)))
			ev.set("body", Ite(init, body, x.cdrN(st, body)))
			_ = s
			_ = has
			_ = val
		}
		c.after = func(ev *Event) {
			if ev.kind == "handler" { // a handler that continues with another variable than the one written is out of scope
				ev.st.assume(Not(Eq(ev.re, VNil)))
			}
			outcomeAfter(ev)
			if ev.kind == "handler" {
				return
			}
			hit := Eq(ev.get("nm", SVal), ev.get("s", SVal))
			ev.set("has", Or(ev.get("has", SBool), hit))
			ev.set("val", Ite(hit, ev.rv, ev.get("val", SVal)))
			// the value of the body is the last value after the initial values
			ev.set("last", Ite(ev.get("inbody", SBool), ev.get("last", SVal), ev.ex.nullVal()))
		}
		c.loopCands = func(lc *loopCtx) []cand {
			x := lc.ex
			g := func(st *State, n string, s Sort) *T { return x.ghost(st, n, s) }
			s := x.ghost(lc.E, "s", SVal)
			var r []cand
			add := func(name string, f func(st *State, sl *slots) *T) { r = append(r, cand{name: "let " + name, f: f}) }
			const B = "map:Symbol,Node"
			// envOK: w is where the next evaluation takes place.
			envOK := func(st *State, w *T) *T {
				h, v := x.scopeAt(st, x.readField(st, "World", "vars", w), s)
				env := g(st, "env", SInt)
				has, val := g(st, "has", SBool), g(st, "val", SVal)
				return Or(And(Eq(w, env), Eq(g(st, "inits", SInt), IntT(0))), And(Lt(IntT(0), g(st, "inits", SInt)), Eq(x.worldParent(st, w), env), Not(Eq(w, env)), Eq(x.readField(st, "World", "funcs", w), VNil),
					Eq(x.readField(st, "World", "shared", w), x.readField(st, "World", "shared", env)), Eq(h, has), Implies(has, Eq(v, val))))
			}
			for _, n := range lc.entry.names {
				n := n
				switch {
				case lc.entry.val[n].sort == SVal:
					add("next "+n, func(st *State, sl *slots) *T { return Eq(next(sl.val[n]), next(g(st, "pos", SVal))) })
					add("bare "+n, func(st *State, sl *slots) *T { return noSym(s, sl.val[n]) })
					add("body "+n, func(st *State, sl *slots) *T { return x.same(sl.val[n], g(st, "body", SVal)) })
					add("last "+n, func(st *State, sl *slots) *T { return x.same(sl.val[n], g(st, "last", SVal)) })
				case lc.entry.val[n].sort == SInt && star:
					add("env "+n, func(st *State, sl *slots) *T { return Eq(sl.val[n], g(st, "env", SInt)) })
					add("new env "+n, func(st *State, sl *slots) *T { return envOK(st, sl.val[n]) })
				}
			}
			for _, w := range worldRegs(lc) {
				w := w
				if star {
					add("still new env "+w.String(), func(st *State, _ *slots) *T { return Or(g(st, "inbody", SBool), envOK(st, w)) })
				}
			}
			// let* binds one item at a time through a fresh one-element list
			for _, n := range lc.entry.names {
				n := n
				e0 := lc.entry.val[n]
				if !star || e0.sort != SVal || e0.op != "VP" || !lc.E.local[e0.args[1]] {
					continue
				}
				start := func(sl *slots) *T { return Eq(sl.val[n], e0) }
				done := func(sl *slots) *T { return x.none(sl.val[n]) }
				add("single "+n, func(st *State, sl *slots) *T { return Or(start(sl), done(sl)) })
				for _, gn := range []struct {
					n string
					s Sort
				}{{"pos", SVal}, {"env", SInt}, {"inits", SInt}, {"has", SBool}, {"val", SVal}} {
					gn := gn
					add("single start "+gn.n+n, func(st *State, sl *slots) *T {
						return Implies(start(sl), Eq(g(st, gn.n, gn.s), g(lc.E, gn.n, gn.s)))
					})
				}
				add("single pos "+n, func(st *State, sl *slots) *T {
					return Implies(done(sl), Eq(g(st, "pos", SVal), x.cdrN(st, next(g(lc.E, "pos", SVal)))))
				})
				add("single bound "+n, func(st *State, sl *slots) *T { return Implies(done(sl), Lt(IntT(0), g(st, "inits", SInt))) })
				for _, w := range worldRegs(lc) {
					w := w
					add("single start env ok "+n+w.String(), func(st *State, sl *slots) *T { return Implies(start(sl), envOK(st, w)) })
					add("single env "+n+w.String(), func(st *State, sl *slots) *T { return Implies(done(sl), Eq(g(st, "env", SInt), w)) })
				}
				for _, b := range privateMaps(lc, B+"#dom") {
					b := b
					add("single map "+n+b.String(), func(st *State, sl *slots) *T {
						h := readHeap(st, st.heap(B+"#dom", SBool), []*T{b, s})
						v := readHeap(st, st.heap(B+"#val", SVal), []*T{b, s})
						return And(Implies(start(sl), Not(h)), Implies(done(sl), And(Eq(h, g(st, "has", SBool)), Implies(h, Eq(v, g(st, "val", SVal))))))
					})
				}
			}
			for _, w := range append(worldsMade(lc), worldRegs(lc)...) {
				w := w
				add("env in the body "+w.String(), func(st *State, _ *slots) *T {
					return Implies(g(st, "inbody", SBool), Eq(g(st, "env", SInt), w))
				})
			}
			add("env before the body", func(st *State, _ *slots) *T {
				return Implies(Not(g(st, "inbody", SBool)), Eq(g(st, "env", SInt), x.ghost(lc.E, "env", SInt)))
			})
			add("no failure", func(st *State, _ *slots) *T { return Not(g(st, "failed", SBool)) })
			add("inits done", func(st *State, _ *slots) *T { return Not(x.isCons(next(g(st, "pos", SVal)))) })
			add("in the body", func(st *State, _ *slots) *T { return g(st, "inbody", SBool) })
			add("not in the body", func(st *State, _ *slots) *T { return Not(g(st, "inbody", SBool)) })
			for _, b := range privateMaps(lc, B+"#dom") {
				b := b
				add("bindings "+b.String(), func(st *State, _ *slots) *T {
					h := readHeap(st, st.heap(B+"#dom", SBool), []*T{b, s})
					v := readHeap(st, st.heap(B+"#val", SVal), []*T{b, s})
					return Or(g(st, "inbody", SBool), And(Eq(h, g(st, "has", SBool)), Implies(h, Eq(v, g(st, "val", SVal)))))
				})
			}
			return r
		}
		c.onReturn = func(r *Return) {
			x := r.ex
			pos := next(r.get("pos", SVal))
			r.outcome(func(r *Return) {
				r.assert("all initial values were evaluated", Not(x.isCons(pos)))
				r.assert("all body forms were evaluated", x.none(r.get("body", SVal)))
				r.assert("the value of the last body form is returned", x.same(r.rv, r.get("last", SVal)))
			}, True, nil)
		}
		return c
	}
	return []*Contract{mk("lisp:let", false), mk("lisp:let*", true), mk("go:cmdLetWithTailRecOpt", false), mk("go:cmdLetXWithTailRecOpt", true)}
}

// worldParent is the enclosing environment (0: none).
func (ex *Exec) worldParent(st *State, w *T) *T { return ex.readField(st, "World", "parent", w) }

func init() { contractSets = append(contractSets, scopeContracts) }
