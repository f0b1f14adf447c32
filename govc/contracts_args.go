package main

// P01: how the arguments of built-in functions, funcall and apply reach the function.

func argContracts() []*Contract {
	var cs []*Contract
	j := Const("nth.arg", SInt)
	// evaluating the arguments of list pos one by one
	argSetup := func(en *Entry, list *T) {
		g := en.st.ghosts
		g["pos"] = list
		g["n"] = IntT(0)
		g["failed"] = False
		g["err"] = VNil
		g["v"] = VNil
		g["v0"], g["v1"] = VNil, VNil
		g["called"] = False
		g["rv"], g["re"] = VNil, VNil
		g["sig"] = False
		en.st.assume(Le(IntT(0), j))
	}
	argEvent := func(ev *Event) bool {
		x, st, en := ev.ex, ev.st, ev.en
		switch ev.kind {
		case "eval":
			pos := ev.get("pos", SVal)
			ev.assert("no evaluation after a failure", Not(ev.get("failed", SBool)))
			ev.assert("arguments are evaluated before the call", Not(ev.get("called", SBool)))
			ev.assert("evaluated in the caller's environment and context", And(Eq(ev.val(0), en.w), Eq(ev.val(1), en.ctx)))
			ev.assert("the next argument", And(x.isCons(pos), x.same(ev.val(2), x.carN(st, pos))))
			ev.set("pos", x.cdrN(st, pos))
			return true
		case "signal", "handler":
			return true
		}
		return false
	}
	argAfter := func(ev *Event) {
		switch ev.kind {
		case "eval":
			ok := Eq(ev.re, VNil)
			n := ev.get("n", SInt)
			ev.set("v", Ite(And(ok, Eq(n, j)), ev.rv, ev.get("v", SVal)))
			ev.set("v0", Ite(And(ok, Eq(n, IntT(0))), ev.rv, ev.get("v0", SVal)))
			ev.set("v1", Ite(And(ok, Eq(n, IntT(1))), ev.rv, ev.get("v1", SVal)))
			ev.set("n", Ite(ok, Add(n, IntT(1)), n))
			ev.set("err", Ite(ok, ev.get("err", SVal), ev.re))
			ev.set("failed", Or(ev.get("failed", SBool), Not(ok)))
		case "signal", "handler":
			ev.set("sig", True)
		case "fcall", "call":
			ev.set("called", True)
			ev.set("rv", ev.rv)
			ev.set("re", ev.re)
		}
	}
	argReturn := func(r *Return) {
		x := r.ex
		called, failed := r.get("called", SBool), r.get("failed", SBool)
		r.when(failed, func(r *Return) {
			r.cover("argument fails")
			r.assert("a failing argument fails the call", Eq(r.re, r.get("err", SVal)))
			r.assert("the function is not called then", Not(called))
		})
		r.when(called, func(r *Return) {
			r.cover("called")
			r.assert("the result of the function is the result", Eq(r.re, r.get("re", SVal)))
			r.when(Eq(r.re, VNil), func(r *Return) { r.assert("its value is the value", x.same(r.rv, r.get("rv", SVal))) })
		})
		r.when(And(Not(called), Not(failed)), func(r *Return) {
			r.cover("wrong arguments")
			r.assert("without a call it is an error or the handler's decision", Or(Not(Eq(r.re, VNil)), r.get("sig", SBool)))
		})
	}
	argCands := func(lc *loopCtx) []cand {
		x := lc.ex
		g := func(st *State, n string, s Sort) *T { return x.ghost(st, n, s) }
		var r []cand
		add := func(name string, f func(st *State, sl *slots) *T) { r = append(r, cand{name: "args " + name, f: f}) }
		for _, n := range lc.entry.names {
			n := n
			switch lc.entry.val[n].sort {
			case SVal:
				add("list "+n, func(st *State, sl *slots) *T { return x.same(sl.val[n], g(st, "pos", SVal)) })
			case SInt:
				add("count "+n, func(st *State, sl *slots) *T { return Eq(sl.val[n], g(st, "n", SInt)) })
			}
		}
		for _, n := range lc.entry.snames {
			n := n
			add("length "+n, func(st *State, sl *slots) *T { return Eq(sl.slice[n].len, g(st, "n", SInt)) })
			add("nth "+n, func(st *State, sl *slots) *T {
				s := sl.slice[n]
				return Implies(Lt(j, g(st, "n", SInt)), Eq(readHeap(st, st.heap("elem:Node", SVal), []*T{s.arr, Add(s.off, j)}), g(st, "v", SVal)))
			})
		}
		add("no failure", func(st *State, _ *slots) *T { return Not(g(st, "failed", SBool)) })
		add("not called", func(st *State, _ *slots) *T { return Not(g(st, "called", SBool)) })
		return r
	}
	base := func(name, entry, clause string) *Contract {
		return &Contract{name: name, entry: entry, props: []string{"P01"}, autos: bothKinds, codeImmutable: true, clause: clause,
			covers: []string{"called", "argument fails", "wrong arguments"}, after: argAfter, onReturn: argReturn, loopCands: argCands}
	}
	const each = "every argument is evaluated exactly once, left to right, in the caller's environment; the function is called once, with the values in order; a wrong number of arguments is an error and the function is not called; its result is the result"
	for k, name := range []string{"Function0", "Function1", "Function2"} {
		k, name := k, name
		c := base("call of a "+name, "go:("+name+").Call", each)
		if k == 0 {
			c.covers = []string{"called", "wrong arguments"}
		}
		c.setup = func(en *Entry) { argSetup(en, en.args[3].(*T)) }
		c.onEvent = func(ev *Event) {
			if argEvent(ev) {
				return
			}
			ev.assert("only the function is called", And(boolT(ev.kind == "fcall"), Not(ev.get("called", SBool))))
			if ev.kind != "fcall" {
				return
			}
			x := ev.ex
			ev.assert("the function itself, in the caller's context and environment", And(Eq(ev.val(0), ev.en.args[0].(*T)), Eq(ev.val(1), ev.en.ctx), Eq(ev.val(2), ev.en.w)))
			ev.assert("every argument was evaluated, and as many as it takes", And(Eq(ev.get("n", SInt), IntT(int64(k))), x.none(ev.get("pos", SVal))))
			for i := 0; i < k; i++ {
				ev.assert("the values in order", Eq(ev.val(3+i), ev.get("v"+string(rune('0'+i)), SVal)))
			}
		}
		cs = append(cs, c)
	}
	{
		c := base("call of a *Function", "go:(*Function).Call", each)
		c.setup = func(en *Entry) { argSetup(en, en.args[3].(*T)) }
		c.onEvent = func(ev *Event) {
			if argEvent(ev) {
				return
			}
			ev.assert("only the function is called", And(boolT(ev.kind == "fcall"), Not(ev.get("called", SBool))))
			if ev.kind != "fcall" {
				return
			}
			x, st := ev.ex, ev.st
			f := ev.en.args[0].(*T)
			ev.assert("the function itself, in the caller's context and environment", And(Eq(ev.val(0), x.readField(st, "Function", "F", f)), Eq(ev.val(1), ev.en.ctx), Eq(ev.val(2), ev.en.w)))
			n := ev.get("n", SInt)
			ev.assert("every argument was evaluated", x.none(ev.get("pos", SVal)))
			s, ok := ev.args[3].(SliceV)
			if !ok {
				ev.assert("the values are passed", False)
				return
			}
			ev.assert("all values are passed", Eq(s.len, n))
			ev.assert("the values in order", Implies(Lt(j, n), Eq(readHeap(st, st.heap("elem:Node", SVal), []*T{s.arr, Add(s.off, j)}), ev.get("v", SVal))))
			C, Min, Max := x.readField(st, "Function", "C", f), x.readField(st, "Function", "Min", f), x.readField(st, "Function", "Max", f)
			z := IntT(0)
			ev.assert("not more than it takes", And(Implies(Lt(z, Max), Le(n, Max)), Implies(And(Le(Max, z), Lt(z, C)), Le(n, C))))
			ev.assert("not fewer than it takes", And(Implies(Lt(z, C), Le(C, n)), Implies(And(Le(C, z), Lt(z, Min)), Le(Min, n))))
		}
		cs = append(cs, c)
	}
	// the form (f args…): the function is found once and called once
	{
		c := base("evaluation of a form", "go:(*Cons).Eval", "a form whose first element is a symbol calls, once, the function the symbol names in the environment of the form, with the unevaluated rest of the form; another first element is evaluated once and must be a function")
		c.eventFuncs = map[string]string{"(*World).GetFunc": "getfunc"}
		c.covers = []string{"called", "named", "computed"}
		c.setup = func(en *Entry) {
			g := en.st.ghosts
			g["called"], g["found"], g["evaluated"] = False, False, False
			g["f"] = VNil
			g["failed"], g["err"] = False, VNil
			g["rv"], g["re"] = VNil, VNil
			g["head"] = en.ex.readField(en.st, "Cons", "Car", en.args[0].(*T))
			g["tail"] = en.ex.readField(en.st, "Cons", "Cdr", en.args[0].(*T))
			g["sig"] = False
		}
		c.onEvent = func(ev *Event) {
			x, en := ev.ex, ev.en
			head := ev.get("head", SVal)
			fresh := And(Not(ev.get("called", SBool)), Not(ev.get("found", SBool)), Not(ev.get("evaluated", SBool)))
			switch ev.kind {
			case "eval":
				ev.assert("a head that is no symbol is evaluated once", And(fresh, Not(x.isSymbol(head)), x.same(ev.val(2), head)))
				ev.assert("in the environment and context of the form", And(Eq(ev.val(0), en.w), Eq(ev.val(1), en.ctx)))
				x.Covers["computed"] = true
			case "getfunc":
				ev.assert("a symbol is looked up once in the environment of the form", And(fresh, x.isSymbol(head), Eq(ev.val(1), head), Eq(ev.val(0), en.w)))
				x.Covers["named"] = true
			case "call":
				ev.assert("the function found is called once", And(ev.get("found", SBool), Not(ev.get("called", SBool)), Eq(ev.val(0), ev.get("f", SVal))))
				ev.assert("in the environment and context of the form", And(Eq(ev.val(1), en.ctx), Eq(ev.val(2), en.w)))
				ev.assert("with the rest of the form", x.same(ev.val(3), ev.get("tail", SVal)))
			case "signal", "handler":
				ev.assert("only a value that is no function is an error", And(ev.get("evaluated", SBool), Not(ev.get("called", SBool)), Not(ev.get("found", SBool))))
			default:
				ev.assert("nothing else is done", False)
			}
		}
		c.after = func(ev *Event) {
			x := ev.ex
			switch ev.kind {
			case "eval":
				ok := Eq(ev.re, VNil)
				fr := x.mustType("FunctionRef")
				ev.set("evaluated", True)
				isF := And(ok, x.isType(ev.rv, fr))
				ev.set("found", isF)
				if x.feasible(ev.st, isF) {
					ev.set("f", x.boxedField(ev.st, ev.rv, "FunctionRef", 0))
				}
				ev.set("failed", Not(ok))
				ev.set("err", ev.re)
			case "getfunc":
				ok := Eq(ev.re, VNil)
				ev.set("found", ok)
				ev.set("f", ev.rv)
				ev.set("failed", Not(ok))
				ev.set("err", ev.re)
				ev.st.assume(Implies(ok, Not(Eq(ev.rv, VNil))))
			case "call":
				ev.set("called", True)
				ev.set("rv", ev.rv)
				ev.set("re", ev.re)
			case "signal", "handler":
				ev.set("sig", True)
			}
		}
		c.onReturn = func(r *Return) {
			x := r.ex
			is := func(e, of *T) *T { return Or(Eq(e, of), And(Is("VW", e), Eq(Sel("vw", e), of))) }
			r.when(r.get("failed", SBool), func(r *Return) {
				r.assert("the failure is reported", is(r.re, r.get("err", SVal)))
				r.assert("nothing is called", Not(r.get("called", SBool)))
			})
			r.when(r.get("called", SBool), func(r *Return) {
				r.cover("called")
				re := r.get("re", SVal)
				r.when(Eq(re, VNil), func(r *Return) {
					r.assert("the value of the call is the value", And(Eq(r.re, VNil), x.same(r.rv, r.get("rv", SVal))))
				})
				r.when(Not(Eq(re, VNil)), func(r *Return) { r.assert("the failure of the call is reported", is(r.re, re)) })
			})
			r.when(And(Not(r.get("called", SBool)), Not(r.get("failed", SBool))), func(r *Return) {
				r.assert("without a call it is an error or the handler's decision", Or(Not(Eq(r.re, VNil)), r.get("sig", SBool)))
			})
		}
		c.loopCands = nil
		cs = append(cs, c)
	}
	// funcall
	{
		c := base("lisp:funcall", "lisp:funcall", "the first argument is evaluated once; the function it yields is called once with the unevaluated rest of the form, in the environment of the form")
		c.setup = func(en *Entry) {
			argSetup(en, en.list)
			en.st.ghosts["f"] = VNil
		}
		c.onEvent = func(ev *Event) {
			if ev.kind == "eval" {
				ev.assert("one evaluation", Eq(ev.get("n", SInt), IntT(0)))
			}
			if argEvent(ev) {
				return
			}
			x := ev.ex
			ev.assert("only the function is called", And(boolT(ev.kind == "call"), Not(ev.get("called", SBool))))
			if ev.kind == "call" {
				ev.assert("the function that the argument yields", And(Eq(ev.get("n", SInt), IntT(1)), Or(ev.get("sig", SBool), Eq(ev.val(0), ev.get("f", SVal)))))
				ev.assert("in the environment and context of the form", And(Eq(ev.val(1), ev.en.ctx), Eq(ev.val(2), ev.en.w)))
				ev.assert("with the remaining arguments", x.same(ev.val(3), ev.get("pos", SVal)))
			}
		}
		c.after = func(ev *Event) {
			argAfter(ev)
			if ev.kind == "eval" {
				ev.set("f", ev.ex.boxedField(ev.st, ev.ex.unwrapped(ev.rv), "FunctionRef", 0))
			}
		}
		cs = append(cs, c)
	}
	// apply
	{
		elem := func(v *T) *T { return UF("properList", SBool, v) }
		c := base("lisp:apply", "lisp:apply", "the function, then every argument is evaluated exactly once, left to right; the function is called once, with the values of all but the last argument followed by the elements of the last, which is a list, in order")
		c.eventFuncs = map[string]string{"(*ListBuilder).Add": "add", "(*ListBuilder).Sequence": "seq"}
		c.pureEvents = map[string]bool{"add": true, "seq": true}
		c.knownTypes = []string{"*Cons"}
		c.recs = []recSpec{{name: "proper list", at: func(ex *Exec, st *State, v, car, cdr *T) *T {
			return Implies(elem(v), And(elem(cdr), Or(ex.isCons(cdr), ex.none(cdr))))
		}}}
		c.covers = append(c.covers, "an element")
		c.setup = func(en *Entry) {
			argSetup(en, en.list)
			g := en.st.ghosts
			g["f"] = VNil
			g["due"] = False // the value evaluated last is yet to be passed
			g["seen"] = False
			g["last"] = False // it is the last argument, g.rest its remaining elements
			g["rest"] = en.ex.nullVal()
			g["val"] = VNil
			g["built"] = VNil
			g["lb"] = IntT(0)
			g["seq"] = False
		}
		c.onEvent = func(ev *Event) {
			x, st := ev.ex, ev.st
			if ev.kind == "eval" {
				ev.assert("a value is passed on before the next evaluation", And(Not(ev.get("due", SBool)), Not(ev.get("last", SBool)), Not(ev.get("seq", SBool))))
			}
			if argEvent(ev) {
				return
			}
			lb := ev.get("lb", SInt)
			switch ev.kind {
			case "add":
				last := ev.get("last", SBool)
				rest := ev.get("rest", SVal)
				un := x.mustType("Uneval")
				ev.assert("one argument list is built", And(Not(ev.get("seq", SBool)), Or(Eq(lb, IntT(0)), Eq(lb, ptrID(ev.args[0])))))
				ev.set("lb", ptrID(ev.args[0]))
				ev.assert("a value is to be passed", Or(ev.get("due", SBool), And(last, x.isCons(rest))))
				ev.assert("it is passed as it is, not evaluated again", x.isType(ev.val(3), un))
				if x.feasible(st, last) {
					x.Covers["an element"] = true
				}
				ev.assert("the value of the argument, or the next element of the last one", Eq(x.boxedField(st, ev.val(3), "Uneval", 0), Ite(last, x.carN(st, rest), ev.get("val", SVal))))
				ev.set("rest", Ite(last, x.cdrN(st, rest), rest))
				ev.set("due", False)
			case "seq":
				ev.assert("the argument list is complete", And(ev.get("last", SBool), x.none(ev.get("rest", SVal)), Not(ev.get("due", SBool)), Or(Eq(lb, IntT(0)), Eq(lb, ptrID(ev.args[0])))))
			case "call":
				ev.assert("the function is called once", Not(ev.get("called", SBool)))
				ev.assert("the function that the first argument yields", Or(ev.get("sig", SBool), Eq(ev.val(0), ev.get("f", SVal))))
				ev.assert("in the environment and context of the form", And(Eq(ev.val(1), ev.en.ctx), Eq(ev.val(2), ev.en.w)))
				ev.assert("with the argument list built", And(ev.get("seq", SBool), Eq(ev.val(3), ev.get("built", SVal))))
				ev.assert("all arguments were evaluated", x.none(ev.get("pos", SVal)))
			default:
				ev.assert("nothing else is called", False)
			}
		}
		c.after = func(ev *Event) {
			x, st := ev.ex, ev.st
			argAfter(ev)
			switch ev.kind {
			case "eval":
				first := Eq(ev.get("n", SInt), IntT(1))
				ok := Eq(ev.re, VNil)
				ev.set("f", Ite(And(ok, first), x.boxedField(st, x.unwrapped(ev.rv), "FunctionRef", 0), ev.get("f", SVal)))
				last := And(ok, Not(first), x.none(ev.get("pos", SVal)))
				st.assume(Implies(last, And(elem(ev.rv), Or(x.isCons(ev.rv), x.none(ev.rv)))))
				ev.set("last", last)
				ev.set("rest", Ite(last, ev.rv, ev.get("rest", SVal)))
				ev.set("due", And(ok, Not(first), Not(last)))
				ev.set("val", ev.rv)
			case "add":
				st.assume(Eq(ev.res.(*T), VNil))
			case "seq":
				ev.set("seq", True)
				ev.set("built", ev.res.(*T))
			}
		}
		c.loopCands = func(lc *loopCtx) []cand {
			x := lc.ex
			g := func(st *State, n string, s Sort) *T { return x.ghost(st, n, s) }
			r := argCands(lc)
			for _, n := range lc.entry.names {
				n := n
				if lc.entry.val[n].sort == SVal {
					r = append(r, cand{name: "apply rest " + n, f: func(st *State, sl *slots) *T { return x.same(sl.val[n], g(st, "rest", SVal)) }},
						cand{name: "apply proper " + n, f: func(st *State, sl *slots) *T { return And(elem(sl.val[n]), Or(x.isCons(sl.val[n]), x.none(sl.val[n]))) }})
				}
			}
			var lbs []*T
			for ref, o := range lc.E.objTyp {
				if o.typ != nil && typeKey(o.typ) == "ListBuilder" {
					lbs = append(lbs, ref)
				}
			}
			sortTerms(lbs)
			for _, b := range lbs {
				b := b
				r = append(r, cand{name: "apply builder " + b.String(), f: func(st *State, _ *slots) *T { return Or(Eq(g(st, "lb", SInt), IntT(0)), Eq(g(st, "lb", SInt), b)) }})
			}
			return append(r,
				cand{name: "apply last", f: func(st *State, _ *slots) *T { return g(st, "last", SBool) }},
				cand{name: "apply not last", f: func(st *State, _ *slots) *T { return Not(g(st, "last", SBool)) }},
				cand{name: "apply passed", f: func(st *State, _ *slots) *T { return And(Not(g(st, "due", SBool)), Not(g(st, "seq", SBool))) }},
				cand{name: "apply function", f: func(st *State, _ *slots) *T { return Le(IntT(1), g(st, "n", SInt)) }},
				cand{name: "apply builder", f: func(st *State, _ *slots) *T {
					return Or(Eq(g(st, "lb", SInt), IntT(0)), Eq(g(st, "lb", SInt), g(lc.E, "lb", SInt)))
				}})
		}
		cs = append(cs, c)
	}
	return cs
}

// ptrID identifies the object a pointer argument of an event refers to.
func ptrID(v Value) *T {
	switch p := v.(type) {
	case *T:
		return p
	case PtrV:
		return IntT(int64(1000 + p.box))
	}
	return IntT(-1)
}

// boxedField is field i of a struct value held in an interface.
func (ex *Exec) boxedField(st *State, v *T, typ string, i int) *T {
	sv, ok := ex.unIface(st, v, ex.mustType(typ)).(StructV)
	if !ok {
		panic(unsupported(typ + " is no struct"))
	}
	return sv.fields[i].(*T)
}

func init() { contractSets = append(contractSets, argContracts) }
