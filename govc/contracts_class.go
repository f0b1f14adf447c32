package main

// P21: class membership follows the inheritance graph. P20: generic functions run only an applicable method.

// sliceField is a slice stored in a field of an object.
func (ex *Exec) sliceField(st *State, key string, ref *T) SliceV {
	rd := func(f string) *T { return st.readH(st.heap(key+"."+f, SInt), []*T{ref}) }
	return SliceV{rd("arr"), rd("off"), rd("len"), rd("cap")}
}

// withElems: f holds for element k (with value v) of the slice, in any state whose element heap still is the current one.
func (ex *Exec) withElems(st *State, typ string, sort Sort, sv SliceV, f func(cur *State, k, v *T) *T) {
	h := st.heap("elem:"+typ, sort)
	st.heaps["elem:"+typ] = h.withFactIn(func(cur *State, ks []*T, v *T) *T {
		k := Sub(ks[1], sv.off)
		return Implies(And(Eq(ks[0], sv.arr), Le(IntT(0), k), Lt(k, sv.len)), f(cur, k, v))
	})
}

func (ex *Exec) elemOf(st *State, typ string, sort Sort, sv SliceV, k *T) *T {
	return st.readH(st.heap("elem:"+typ, sort), []*T{sv.arr, Add(sv.off, k)})
}

func inhUF(c, d *T) *T  { return UF("inherits", SBool, c, d) }
func instUF(c, v *T) *T { return UF("instanceOf", SBool, c, v) }
func eqcUF(c, d *T) *T  { return UF("sameClass", SBool, c, d) }

func classContracts() []*Contract {
	var cs []*Contract
	stdT := func(x *Exec) *T { return IntT(int64(x.P.tid(x.mustType("*_StandardClass")))) }
	bltT := func(x *Exec) *T { return IntT(int64(x.P.tid(x.mustType("*_BuiltInClass")))) }
	std := func(x *Exec, r *T) *T { return Ctor("VP", stdT(x), r) }
	blt := func(x *Exec, r *T) *T { return Ctor("VP", bltT(x), r) }
	// what the class operations that are called mean; the contracts below show it of their code
	ops := map[string]string{"Class.InheritP": "inh", "Class.InstanceP": "inst", "Class.Equals": "eqc", "Node.ClassOf": "classof",
		"(*_StandardClass).InheritP": "inh-s", "(*_BuiltInClass).InheritP": "inh-b", "(*_StandardClass).subClassP": "sub"}
	pure := map[string]bool{}
	for _, k := range ops {
		pure[k] = true
	}
	// what the equality of classes means
	eqMeaning := func(x *Exec, st *State, c, d *T) {
		st.assume(Implies(Eq(Sel("vpt", c), stdT(x)), Eq(eqcUF(c, d), Eq(c, d))))
		st.assume(Implies(And(x.isType(c, x.mustType("*_BuiltInClass")), Not(x.isType(d, x.mustType("*_BuiltInClass")))), Not(eqcUF(c, d))))
	}
	meaning := func(ev *Event) {
		x := ev.ex
		r, ok := ev.res.(*T)
		if !ok {
			return
		}
		switch ev.kind {
		case "classof": // the contract of ClassOf: the class of the object
			if ev.en.list == nil && len(ev.en.args) == 2 {
				ev.assert("the class of the object", Eq(ev.val(0), ev.en.args[1].(*T)))
			}
			ev.assume(ev.ex.implements(r, x.mustType("Class")))
			ev.set("class", r)
			if t, ok := ev.en.args[0].(*T); ok && t.sort == SInt {
				eqMeaning(x, ev.st, r, std(x, t))
			}
		case "inh":
			ev.assume(Eq(r, inhUF(ev.val(0), ev.val(1))))
		case "inst":
			ev.assume(Eq(r, instUF(ev.val(0), ev.val(1))))
		case "eqc":
			ev.assume(Eq(r, eqcUF(ev.val(0), ev.val(1))))
		case "inh-s":
			ev.assume(Eq(r, inhUF(std(x, ev.val(0)), ev.val(1))))
		case "inh-b":
			ev.assume(Eq(r, inhUF(blt(x, ev.val(0)), ev.val(1))))
		case "sub":
			ev.assume(Eq(r, inhUF(std(x, ev.val(0)), std(x, ev.val(1)))))
		}
	}
	// any(k): one of the first k superclasses is, or inherits from, the class in question
	any := func(k *T) *T { return UF("anySuper", SBool, k) }
	inherit := func(name, recvKey string, target func(en *Entry) *T) {
		cs = append(cs, &Contract{name: "go:" + name, entry: "go:" + name, props: []string{"P21"}, autos: bothKinds, eventFuncs: ops, pureEvents: pure,
			clause: "true exactly when one of the superclasses is the other class or inherits from it",
			covers: []string{"inherits", "does not"},
			setup: func(en *Entry) {
				x, st := en.ex, en.st
				sv := x.sliceField(st, recvKey, en.args[0].(*T))
				c2 := target(en)
				st.assume(And(Le(IntT(0), sv.len), Not(any(IntT(0)))))
				x.withElems(st, "Class", SVal, sv, func(cur *State, k, v *T) *T {
					eqMeaning(x, cur, v, c2)
					cl := Or(x.isType(v, x.mustType("*_StandardClass")), x.isType(v, x.mustType("*_BuiltInClass")))
					f := And(cl, Eq(any(Add(k, IntT(1))), Or(any(k), eqcUF(v, c2), inhUF(v, c2))))
					if name == "(*_StandardClass).subClassP" {
						f = And(f, Implies(x.isType(v, x.mustType("*_BuiltInClass")), Not(inhUF(v, c2))))
					}
					// any is monotone
					return And(f, Implies(any(Add(k, IntT(1))), any(sv.len)), Implies(any(k), any(Add(k, IntT(1)))))
				})
			},
			onEvent: func(ev *Event) {
				if _, ok := ev.res.(*T); ok {
					return
				}
				if !pure[ev.kind] {
					ev.assert("nothing else is called", False)
				}
			},
			after: meaning,
			loopCands: func(lc *loopCtx) []cand {
				var r []cand
				for _, n := range lc.entry.names {
					n := n
					if lc.entry.val[n].sort != SInt {
						continue
					}
					for _, d := range []int64{0, 1} {
						d := d
						r = append(r, cand{name: "none of the first " + n + IntT(d).String(), f: func(st *State, sl *slots) *T { return Not(any(Add(sl.val[n], IntT(d)))) }})
					}
				}
				return r
			},
			onReturn: func(r *Return) {
				sv := r.ex.sliceField(r.st, recvKey, r.en.args[0].(*T))
				r.when(r.rv, func(r *Return) { r.cover("inherits"); r.assert("it inherits", any(sv.len)) })
				r.when(Not(r.rv), func(r *Return) { r.cover("does not"); r.assert("it does not inherit", Not(any(sv.len))) })
			}})
	}
	arg := func(en *Entry) *T { return en.args[1].(*T) }
	inherit("(*_StandardClass).InheritP", "_StandardClass.Super", arg)
	inherit("(*_BuiltInClass).InheritP", "_BuiltInClass.super", arg)
	inherit("(*_StandardClass).subClassP", "_StandardClass.Super", func(en *Entry) *T { return std(en.ex, arg(en)) })
	cs = append(cs, &Contract{name: "go:(*_StandardClass).Equals", entry: "go:(*_StandardClass).Equals", props: []string{"P21"}, autos: bothKinds,
		clause: "a user-defined class is equal to itself only, whatever its name", covers: []string{"itself", "another"},
		onReturn: func(r *Return) {
			same := Eq(r.en.args[1].(*T), std(r.ex, r.en.args[0].(*T)))
			r.when(r.rv, func(r *Return) { r.cover("itself") })
			r.when(Not(r.rv), func(r *Return) { r.cover("another") })
			r.assert("identity", Eq(r.rv, same))
		}})
	cs = append(cs, &Contract{name: "go:(*_BuiltInClass).Equals", entry: "go:(*_BuiltInClass).Equals", props: []string{"P21"}, autos: bothKinds,
		clause: "a built-in class is equal to a built-in class only, and to itself", covers: []string{"built-in", "another"},
		onReturn: func(r *Return) {
			is := r.ex.isType(r.en.args[1].(*T), r.ex.mustType("*_BuiltInClass"))
			r.when(r.rv, func(r *Return) { r.cover("built-in"); r.assert("a built-in class", is) })
			r.when(Not(r.rv), func(r *Return) {
				r.cover("another")
				r.assert("not itself", Not(Eq(r.en.args[1].(*T), blt(r.ex, r.en.args[0].(*T)))))
			})
		}})
	cs = append(cs, &Contract{name: "go:(*_StandardClass).InstanceP", entry: "go:(*_StandardClass).InstanceP", props: []string{"P21"}, autos: bothKinds, eventFuncs: ops, pureEvents: pure,
		clause: "true exactly when the object's class is a user-defined class that is this class or inherits from it", covers: []string{"instance", "no instance"},
		setup: func(en *Entry) {
			en.st.ghosts["class"] = VNil
			en.st.assume(en.ex.wf(en.args[1].(*T)))
		},
		after: meaning,
		onReturn: func(r *Return) {
			x := r.ex
			c, d := r.get("class", SVal), std(x, r.en.args[0].(*T))
			r.assert("the object's class is what matters", Not(Eq(c, VNil)))
			want := And(x.isType(c, x.mustType("*_StandardClass")), Or(Eq(c, d), inhUF(c, d)))
			r.when(r.rv, func(r *Return) { r.cover("instance"); r.assert("it is an instance", want) })
			r.when(Not(r.rv), func(r *Return) { r.cover("no instance"); r.assert("it is not an instance", Not(want)) })
		}})
	cs = append(cs, &Contract{name: "go:(*_BuiltInClass).InstanceP", entry: "go:(*_BuiltInClass).InstanceP", props: []string{"P21"}, autos: bothKinds, eventFuncs: ops, pureEvents: pure,
		clause: "true exactly when the class's own predicate accepts the object or the object's class inherits from this class", covers: []string{"instance", "no instance"},
		setup: func(en *Entry) {
			x, st := en.ex, en.st
			st.ghosts["class"] = VNil
			st.assume(x.wf(en.args[1].(*T)))
			st.ghosts["pred"] = UF("classpred", SBool, x.readField(st, "_BuiltInClass", "instanceP", en.args[0].(*T)), en.args[1].(*T), st.version())
		},
		after: meaning,
		onReturn: func(r *Return) {
			x := r.ex
			c, d := r.get("class", SVal), blt(x, r.en.args[0].(*T))
			want := Or(r.get("pred", SBool), And(Not(Eq(c, VNil)), inhUF(c, d)))
			r.assert("the object's class is considered", Or(r.get("pred", SBool), Not(Eq(c, VNil))))
			r.when(r.rv, func(r *Return) { r.cover("instance"); r.assert("it is an instance", want) })
			r.when(Not(r.rv), func(r *Return) { r.cover("no instance"); r.assert("it is not an instance", Not(want)) })
		}})
	cs = append(cs, &Contract{name: "go:(*_StandardObject).ClassOf", entry: "go:(*_StandardObject).ClassOf", props: []string{"P21"}, autos: bothKinds,
		clause: "the class an object was made from", covers: []string{"class"},
		onReturn: func(r *Return) {
			r.cover("class")
			r.assert("its class", Eq(r.rv, std(r.ex, r.ex.readField(r.st, "_StandardObject", "_StandardClass", r.en.args[0].(*T)))))
		}})
	cs = append(cs, &Contract{name: "go:(*_StandardClass).Create", entry: "go:(*_StandardClass).Create", props: []string{"P21", "P22"}, autos: bothKinds,
		clause: "a new object of this class without any slot value", covers: []string{"made"},
		setup: func(en *Entry) {
			st := en.st
			st.ghosts["o"], st.ghosts["q"] = Const("some.object", SInt), Const("some.slot", SVal)
			st.assume(Lt(st.ghosts["o"], st.alloc()))
			st.ghosts["m0"] = en.ex.readField(st, "_StandardObject", "Slot", st.ghosts["o"])
			st.assume(Lt(st.ghosts["m0"], st.alloc()))
		},
		onReturn: func(r *Return) {
			x := r.ex
			r.cover("made")
			o := Sel("vp", r.rv)
			m := x.readField(r.st, "_StandardObject", "Slot", o)
			r.assert("an object", x.isType(r.rv, x.mustType("*_StandardObject")))
			r.assert("a new one", Lt(r.get("o", SInt), o))
			r.assert("of this class", Eq(x.readField(r.st, "_StandardObject", "_StandardClass", o), r.en.args[0].(*T)))
			r.assert("with its own slots", Lt(r.get("m0", SInt), m))
			r.assert("without a value", Not(r.st.readH(r.st.heap("map:Symbol,Node#dom", SBool), []*T{m, r.get("q", SVal)})))
		}})
	yesNo := func(r *Return, want *T) {
		x := r.ex
		r.assert("the answer", Eq(r.rv, Ite(want, x.globalT(r.st, "True"), x.nullVal())))
	}
	cs = append(cs, &Contract{name: "lisp:subclassp", entry: "lisp:subclassp", props: []string{"P21"}, autos: bothKinds, eventFuncs: ops, pureEvents: pure,
		clause: "t exactly when the first class inherits from the second, nil otherwise; arguments that are not classes are an error", covers: []string{"yes", "no", "error"},
		after: meaning,
		onReturn: func(r *Return) {
			x := r.ex
			a, b := readArg(r.en, r.st, IntT(0)), readArg(r.en, r.st, IntT(1))
			cl := x.mustType("Class")
			ok := And(x.implements(a, cl), x.implements(b, cl))
			r.when(Not(ok), func(r *Return) { r.cover("error"); r.assert("not a class", Not(Eq(r.re, VNil))) })
			r.when(ok, func(r *Return) {
				r.assert("no error", Eq(r.re, VNil))
				r.when(inhUF(a, b), func(r *Return) { r.cover("yes") })
				r.when(Not(inhUF(a, b)), func(r *Return) { r.cover("no") })
				yesNo(r, inhUF(a, b))
			})
		}})
	cs = append(cs, &Contract{name: "lisp:instancep", entry: "lisp:instancep", props: []string{"P21"}, autos: bothKinds, eventFuncs: ops, pureEvents: pure,
		clause: "evaluates the object and the class once each, in order; t exactly when the object is an instance of the class, nil otherwise", covers: []string{"yes", "no", "evaluation fails"},
		setup: func(en *Entry) {
			g := en.st.ghosts
			g["pos"], g["n"], g["failed"], g["err"], g["a"], g["b"] = en.list, IntT(0), False, VNil, VNil, VNil
		},
		onEvent: func(ev *Event) {
			if ev.kind == "eval" {
				pos := ev.get("pos", SVal)
				ev.assert("no evaluation after a failure", Not(ev.get("failed", SBool)))
				ev.assert("evaluated here", And(Eq(ev.val(0), ev.en.w), Eq(ev.val(1), ev.en.ctx)))
				ev.assert("the next argument", And(ev.ex.isCons(pos), ev.ex.same(ev.val(2), ev.ex.carN(ev.st, pos)), Lt(ev.get("n", SInt), IntT(2))))
				ev.set("pos", ev.ex.cdrN(ev.st, pos))
			}
			if ev.kind == "inst" {
				ev.assert("the object and the class given", And(Eq(ev.get("n", SInt), IntT(2)), Eq(ev.val(0), ev.get("b", SVal)), Eq(ev.val(1), ev.get("a", SVal))))
			}
		},
		after: func(ev *Event) {
			if ev.kind == "eval" {
				n := ev.get("n", SInt)
				ok := Eq(ev.re, VNil)
				ev.set("a", Ite(Eq(n, IntT(0)), ev.rv, ev.get("a", SVal)))
				ev.set("b", Ite(Eq(n, IntT(1)), ev.rv, ev.get("b", SVal)))
				ev.set("n", Ite(ok, Add(n, IntT(1)), n))
				ev.set("failed", Not(ok))
				ev.set("err", ev.re)
				return
			}
			if ev.kind == "handler" || ev.kind == "signal" || ev.kind == "call" {
				ev.set("failed", True)
				ev.set("err", ev.re)
			}
			meaning(ev)
		},
		onReturn: func(r *Return) {
			r.when(r.get("failed", SBool), func(r *Return) {
				r.cover("evaluation fails")
				r.assert("the failure is the failure", Eq(r.re, r.get("err", SVal)))
			})
			r.when(Eq(r.re, VNil), func(r *Return) {
				want := instUF(r.get("b", SVal), r.get("a", SVal))
				r.assert("both arguments, and no others, are given", And(Eq(r.get("n", SInt), IntT(2)), r.ex.none(r.get("pos", SVal))))
				r.when(want, func(r *Return) { r.cover("yes") })
				r.when(Not(want), func(r *Return) { r.cover("no") })
				yesNo(r, want)
			})
		}})
	return cs
}

func init() { contractSets = append(contractSets, classContracts) }
