package main

// P22: the slots of an object are independent.

func slotContracts() []*Contract {
	var cs []*Contract
	const M = "map:Symbol,Node"
	dom := func(st *State, m, k *T) *T { return st.readH(st.heap(M+"#dom", SBool), []*T{m, k}) }
	val := func(st *State, m, k *T) *T { return st.readH(st.heap(M+"#val", SVal), []*T{m, k}) }
	stdT := func(x *Exec) *T { return IntT(int64(x.P.tid(x.mustType("*_StandardClass")))) }
	// an arbitrary entry of an arbitrary slot table
	entry := func(x *Exec, st *State) {
		g := st.ghosts
		g["m"], g["k"] = Const("some.table", SInt), Const("some.slot", SVal)
		x.validFact(st, g["k"], anyType)
		st.assume(And(Lt(IntT(0), g["m"]), Lt(g["m"], st.alloc()), x.isSymbol(g["k"])))
		x.addKey(st, g["k"])
		g["dom0"], g["val0"] = dom(st, g["m"], g["k"]), val(st, g["m"], g["k"])
	}
	unchanged := func(st *State, x *Exec) *T {
		m, k := x.ghost(st, "m", SInt), x.ghost(st, "k", SVal)
		return And(Eq(dom(st, m, k), x.ghost(st, "dom0", SBool)), Implies(dom(st, m, k), Eq(val(st, m, k), x.ghost(st, "val0", SVal))))
	}
	method := func(name string, who int, ret func(r *Return, obj, table, slot *T, args SliceV)) {
		cs = append(cs, &Contract{name: "go:" + name, entry: "go:" + name, props: []string{"P22"}, autos: bothKinds,
			clause: map[string]string{"newGetter": "a reader accepts objects of its class only and returns the value stored in its slot of its object, nil when there is none; it changes nothing",
				"newSetter": "a writer accepts objects of its class only and stores its first argument in its slot of its object; no other slot of any object changes",
				"newBoundp": "a bound-slot predicate accepts objects of its class only and holds exactly when its slot of its object has a value; it changes nothing"}[name],
			covers: []string{"called", "bound", "unbound"},
			setup:  func(en *Entry) { entry(en.ex, en.st) },
			then: func(r *Return) (*FuncV, []Value) {
				x, st := r.ex, r.st
				m := r.res.(*T)
				types := x.sliceField(st, "_Method.types", m)
				class := r.en.args[0].(*T)
				r.assert("the number of parameters", And(Eq(types.len, IntT(int64(who+1))), Eq(x.readField(st, "_Method", "restType", m), VNil)))
				r.assert("for objects of the class", Eq(x.elemOf(st, "Class", SVal, types, IntT(int64(who))), class))
				fv := x.asFunc(st, x.readField(st, "_Method", "method", m))
				if fv == nil {
					r.assert("a method is made", False)
					return nil, nil
				}
				sv := x.argSlice(st, "margs", nil)
				st.assume(Eq(sv.len, types.len))
				r.en.argv = sv
				obj := x.elemOf(st, "Node", SVal, sv, IntT(int64(who)))
				slots := x.readField(st, "_StandardObject", "Slot", Sel("vp", obj))
				st.assume(Implies(x.isType(obj, x.mustType("*_StandardObject")), Lt(IntT(0), slots))) // every object has a table
				return fv, []Value{r.en.ctx, r.en.w, sv}
			},
			onEvent: func(ev *Event) { ev.assert("nothing is called", False) },
			onReturn: func(r *Return) {
				x := r.ex
				sv := r.en.argv
				obj := x.elemOf(r.st, "Node", SVal, sv, IntT(int64(who)))
				isObj := x.isType(obj, x.mustType("*_StandardObject"))
				table := x.readField(r.st, "_StandardObject", "Slot", Sel("vp", obj))
				slot := r.en.args[1].(*T)
				r.when(Not(isObj), func(r *Return) {
					r.assert("something that is no object is an error", Not(Eq(r.re, VNil)))
					r.assert("nothing changes", unchanged(r.st, x))
				})
				r.when(isObj, func(r *Return) {
					r.cover("called")
					r.assert("no error", Eq(r.re, VNil))
					r.when(r.get("dom0", SBool), func(r *Return) { r.cover("bound") })
					r.when(Not(r.get("dom0", SBool)), func(r *Return) { r.cover("unbound") })
					ret(r, obj, table, slot, sv)
				})
			}})
	}
	method("newGetter", 0, func(r *Return, obj, table, slot *T, args SliceV) {
		r.assert("nothing changes", unchanged(r.st, r.ex))
		r.when(And(Eq(r.get("m", SInt), table), Eq(r.get("k", SVal), slot)), func(r *Return) {
			r.assert("the value of the slot", Eq(r.rv, Ite(r.get("dom0", SBool), r.get("val0", SVal), r.ex.nullVal())))
		})
	})
	method("newBoundp", 0, func(r *Return, obj, table, slot *T, args SliceV) {
		r.assert("nothing changes", unchanged(r.st, r.ex))
		r.when(And(Eq(r.get("m", SInt), table), Eq(r.get("k", SVal), slot)), func(r *Return) {
			r.assert("whether the slot has a value", Eq(r.rv, Ite(r.get("dom0", SBool), r.ex.globalT(r.st, "True"), r.ex.nullVal())))
		})
	})
	method("newSetter", 1, func(r *Return, obj, table, slot *T, args SliceV) {
		m, k := r.get("m", SInt), r.get("k", SVal)
		here := And(Eq(m, table), Eq(k, slot))
		r.when(Not(here), func(r *Return) { r.assert("nothing else changes", unchanged(r.st, r.ex)) })
		r.when(here, func(r *Return) {
			r.assert("the value is stored", And(dom(r.st, m, k), Eq(val(r.st, m, k), r.ex.elemOf(r.st, "Node", SVal, args, IntT(0)))))
		})
	})
	// initialisation arguments and initial forms
	slotTab := func(x *Exec, st *State, class *T) *T { return x.readField(st, "_StandardClass", "Slot", class) }
	// has: a slot k is given to objects by a class, itself (own) or by one of its superclasses. The predicate is defined by
	// its unfolding at the class under contract; the case for superclasses is used through the contract itself.
	sc := Const("some.superclass", SInt)
	define := func(en *Entry, name string, ownWitness func() *T) {
		x, st := en.ex, en.st
		g := st.ghosts
		class := en.args[1].(*T)
		supers := x.sliceField(st, "_StandardClass.Super", class)
		has := func(c *T) *T { return UF(name, SBool, c, g["k"]) }
		std := x.mustType("*_StandardClass")
		x.withElems(st, "Class", SVal, supers, func(cur *State, i, v *T) *T {
			return Implies(x.isType(v, std), And(UF("isSuper", SBool, Sel("vp", v)), Implies(has(Sel("vp", v)), has(class))))
		})
		st.assume(Le(IntT(0), sc))
		v := x.elemOf(st, "Class", SVal, supers, sc)
		st.assume(Implies(has(class), Or(ownWitness(), And(Lt(sc, supers.len), x.isType(v, std), has(Sel("vp", v))))))
	}
	// asked: what holds of every superclass that has been dealt with
	asked := func(lc *loopCtx, name string, ok func(st *State) *T) []cand {
		x, en := lc.ex, lc.ex.en
		var r []cand
		for _, n := range lc.entry.names {
			n := n
			if lc.entry.val[n].sort != SInt {
				continue
			}
			for _, d := range []int64{0, 1} {
				d := d
				r = append(r, cand{name: "superclasses before " + n + IntT(d).String(), f: func(st *State, sl *slots) *T {
					supers := x.sliceField(st, "_StandardClass.Super", en.args[1].(*T))
					v := x.elemOf(st, "Class", SVal, supers, sc)
					return Implies(And(Lt(sc, Add(sl.val[n], IntT(d))), Lt(sc, supers.len), x.isType(v, x.mustType("*_StandardClass")), UF(name, SBool, Sel("vp", v), x.ghost(st, "k", SVal))), ok(st))
				}})
			}
		}
		return r
	}
	// onlyTable: the contents of one table may have changed
	onlyTable := func(x *Exec, st *State, table *T) {
		n := x.fresh("ev")
		for _, key := range []string{M + "#dom", M + "#val"} {
			srt := SVal
			if key == M+"#dom" {
				srt = SBool
			}
			old := st.heap(key, srt)
			nb := &HNode{base: key + "!" + n, sort: srt, bound: st.alloc()}
			st.heaps[key] = nb.region(func(k []*T) *T { return Not(Eq(k[0], table)) }, func(st *State, k []*T) *T { return readHeap(st, old, k) })
		}
	}
	tableOf := func(x *Exec, st *State) *T { return x.readField(st, "_StandardObject", "Slot", x.en.args[0].(*T)) }
	j := Const("nth.name", SInt)
	// given: the slot of the object that k names holds the argument's value
	given := func(x *Exec, st *State) *T {
		m, k := x.ghost(st, "m", SInt), x.ghost(st, "k", SVal)
		return And(Eq(m, tableOf(x, st)), dom(st, m, k), Eq(val(st, m, k), x.en.args[3].(*T)))
	}
	here := func(x *Exec, st *State) *T { return Eq(x.ghost(st, "m", SInt), tableOf(x, st)) }
	cs = append(cs, &Contract{name: "go:(*_StandardObject).callInitArg", entry: "go:(*_StandardObject).callInitArg", props: []string{"P22"}, autos: bothKinds,
		eventFuncs: map[string]string{"(*_StandardObject).callInitArg": "super"}, pureEvents: map[string]bool{"super": true},
		clause: "the value goes to every slot of the object to which the class or one of its superclasses gives the initialisation argument, and no other slot of any object changes; " +
			"the answer is false only when there is no such slot",
		covers: []string{"stored", "left alone", "not found"},
		setup: func(en *Entry) {
			x, st := en.ex, en.st
			entry(x, st)
			g := st.ghosts
			o, class := en.args[0].(*T), en.args[1].(*T)
			table := x.readField(st, "_StandardObject", "Slot", o)
			st.assume(And(Lt(IntT(0), table), Le(IntT(0), j), x.wf(en.args[3].(*T))))
			// the slot k of the class and its names
			ctab := slotTab(x, st, class)
			g["khas"] = st.readH(st.heap("map:Symbol,*_SlotSpec#dom", SBool), []*T{ctab, g["k"]})
			spec := st.readH(st.heap("map:Symbol,*_SlotSpec#val", SInt), []*T{ctab, g["k"]})
			g["spec"] = spec
			st.assume(Implies(Eq(ctab, IntT(0)), Not(g["khas"])))
			names := x.sliceField(st, "_SlotSpec.initarg", spec)
			x.withElems(st, "Symbol", SVal, names, func(cur *State, i, v *T) *T {
				return Implies(And(g["khas"], Eq(v, en.args[2].(*T))), UF("hasArg", SBool, class, g["k"]))
			})
			g["named"] = And(g["khas"], Lt(j, names.len), Eq(x.elemOf(st, "Symbol", SVal, names, j), en.args[2].(*T)))
			define(en, "hasArg", func() *T { return g["named"] })
		},
		onEvent: func(ev *Event) {
			x, en := ev.ex, ev.en
			if ev.kind != "super" {
				ev.assert("nothing else is called", False)
				return
			}
			ev.assert("for the same object, argument and value", And(Eq(ev.val(0), en.args[0].(*T)), Eq(ev.val(2), en.args[2].(*T)), Eq(ev.val(3), en.args[3].(*T))))
			ev.assert("in a superclass", UF("isSuper", SBool, ev.val(1)))
			ev.set("bdom", dom(ev.st, ev.get("m", SInt), ev.get("k", SVal)))
			ev.set("bval", val(ev.st, ev.get("m", SInt), ev.get("k", SVal)))
			_ = x
		},
		after: func(ev *Event) { // this contract, for the superclass
			x, st := ev.ex, ev.st
			onlyTable(x, st, tableOf(x, st))
			m, k := ev.get("m", SInt), ev.get("k", SVal)
			has := UF("hasArg", SBool, ev.val(1), k)
			ev.assume(Ite(And(here(x, st), has), given(x, st), And(Eq(dom(st, m, k), ev.get("bdom", SBool)), Implies(dom(st, m, k), Eq(val(st, m, k), ev.get("bval", SVal))))))
			ev.assume(Implies(Not(ev.res.(*T)), Not(has)))
		},
		loopCands: func(lc *loopCtx) []cand {
			x := lc.ex
			en := lc.ex.en
			class := en.args[1].(*T)
			r := []cand{{name: "given or unchanged", f: func(st *State, _ *slots) *T {
				return Or(unchanged(st, x), And(UF("hasArg", SBool, class, x.ghost(st, "k", SVal)), given(x, st)))
			}}, {name: "own slots done", f: func(st *State, _ *slots) *T {
				return Implies(And(here(x, st), x.ghost(st, "named", SBool)), given(x, st))
			}}}
			r = append(r, asked(lc, "hasArg", func(st *State) *T { return Implies(here(x, st), given(x, st)) })...)
			var bools []string
			for _, n := range lc.entry.names {
				if lc.entry.val[n].sort == SBool {
					bools = append(bools, n)
				}
			}
			found := func(nm string, c func(st *State, sl *slots) *T) {
				for _, b := range bools {
					b := b
					r = append(r, cand{name: nm + " found " + b, f: func(st *State, sl *slots) *T { return Implies(c(st, sl), sl.val[b]) }})
				}
			}
			found("own", func(st *State, sl *slots) *T { return x.ghost(st, "named", SBool) })
			for _, vk := range sortedKeys(lc.E.heaps) {
				if len(vk) > 9 && vk[:9] == "ghost.vis" {
					vk := vk
					vis := func(st *State, _ *slots) *T {
						return And(readHeap(st, st.heap(vk, SBool), []*T{x.ghost(st, "k", SVal)}), x.ghost(st, "named", SBool))
					}
					r = append(r, cand{name: "visited " + vk, f: func(st *State, sl *slots) *T { return Implies(And(vis(st, sl), here(x, st)), given(x, st)) }})
					found("visited "+vk, vis)
					for i, reg := range typedRegs(lc, "Symbol") {
						reg := reg
						nm := "visited " + vk + " but " + IntT(int64(i)).String()
						cond := func(st *State, sl *slots) *T { return And(vis(st, sl), Not(Eq(reg, x.ghost(st, "k", SVal)))) }
						r = append(r, cand{name: nm, f: func(st *State, sl *slots) *T { return Implies(And(cond(st, sl), here(x, st)), given(x, st)) }})
						found(nm, cond)
					}
				}
			}
			for _, n := range lc.entry.names {
				n := n
				if lc.entry.val[n].sort != SInt {
					continue
				}
				for _, d := range []int64{0, 1} {
					d := d
					for i, reg := range typedRegs(lc, "Symbol") {
						reg := reg
						nm := "names before " + n + IntT(d).String() + " of " + IntT(int64(i)).String()
						cond := func(st *State, sl *slots) *T {
							return And(Eq(reg, x.ghost(st, "k", SVal)), Lt(j, Add(sl.val[n], IntT(d))), x.ghost(st, "named", SBool))
						}
						r = append(r, cand{name: nm, f: func(st *State, sl *slots) *T { return Implies(And(cond(st, sl), here(x, st)), given(x, st)) }})
						found(nm, cond)
					}
					for i, reg := range typedRegs(lc, "*_SlotSpec") { // a search that ends at the first match
						reg := reg
						r = append(r, cand{name: "other names before " + n + IntT(d).String() + " of " + IntT(int64(i)).String(), f: func(st *State, sl *slots) *T {
							return Implies(And(Eq(reg, x.ghost(st, "spec", SInt)), Lt(j, Add(sl.val[n], IntT(d)))), Not(x.ghost(st, "named", SBool)))
						}})
					}
					sup := func(st *State, sl *slots) *T {
						supers := x.sliceField(st, "_StandardClass.Super", class)
						v := x.elemOf(st, "Class", SVal, supers, sc)
						return And(Lt(sc, Add(sl.val[n], IntT(d))), Lt(sc, supers.len), x.isType(v, x.mustType("*_StandardClass")), UF("hasArg", SBool, Sel("vp", v), x.ghost(st, "k", SVal)))
					}
					found("super "+n+IntT(d).String(), sup)
				}
			}
			return r
		},
		onReturn: func(r *Return) {
			x, en := r.ex, r.en
			has := UF("hasArg", SBool, en.args[1].(*T), r.get("k", SVal))
			r.when(And(has, here(x, r.st)), func(r *Return) {
				r.cover("stored")
				r.assert("the value is stored in a slot with this argument", given(x, r.st))
			})
			r.when(Not(And(has, here(x, r.st))), func(r *Return) {
				r.cover("left alone")
				r.assert("nothing else changes", unchanged(r.st, x))
			})
			r.when(Not(r.rv), func(r *Return) {
				r.cover("not found")
				r.assert("no slot has the argument", Not(has))
			})
		}})
	// initial forms
	formed := func(x *Exec, st *State) *T {
		return And(x.ghost(st, "khas", SBool), Not(Eq(x.ghost(st, "form", SInt), IntT(0))))
	}
	bound := func(x *Exec, st *State) *T { return dom(st, tableOf(x, st), x.ghost(st, "k", SVal)) }
	cs = append(cs, &Contract{name: "go:(*_StandardObject).callInitForm", entry: "go:(*_StandardObject).callInitForm", props: []string{"P22"}, autos: bothKinds,
		eventFuncs: map[string]string{"(*_StandardObject).callInitForm": "super"},
		frozen:     map[string]bool{"map:Symbol,*_SlotSpec#dom": true, "map:Symbol,*_SlotSpec#val": true, "_SlotSpec.initform": true, "_StandardClass.Super": true, "_StandardClass.Slot": true, "_StandardObject.Slot": true, "elem:Class": true, "_StandardClass.Super#arr": true, "_StandardClass.Super#off": true, "_StandardClass.Super#len": true, "_StandardClass.Super#cap": true},
		clause: "an initial form is evaluated only for a slot of the class that has no value yet, and its value goes to that slot and nowhere else; " +
			"then the superclasses follow, so the most specific initial form wins; afterwards every slot with an initial form has a value; the first failure ends it and is reported",
		covers: []string{"initialised", "failure", "left alone"},
		setup: func(en *Entry) {
			x, st := en.ex, en.st
			entry(x, st)
			g := st.ghosts
			class := en.args[1].(*T)
			table := x.readField(st, "_StandardObject", "Slot", en.args[0].(*T))
			ctab := slotTab(x, st, class)
			st.assume(And(Lt(IntT(0), table), Lt(table, st.alloc())))
			g["khas"] = st.readH(st.heap("map:Symbol,*_SlotSpec#dom", SBool), []*T{ctab, g["k"]})
			st.assume(Implies(Eq(ctab, IntT(0)), Not(g["khas"])))
			spec := st.readH(st.heap("map:Symbol,*_SlotSpec#val", SInt), []*T{ctab, g["k"]})
			g["form"] = x.readField(st, "_SlotSpec", "initform", spec)
			// the initial forms of different slots are different functions
			h := st.heap("map:Symbol,*_SlotSpec#val", SInt)
			st.heaps["map:Symbol,*_SlotSpec#val"] = h.withFactIn(func(cur *State, ks []*T, v *T) *T {
				f := x.readField(cur, "_SlotSpec", "initform", v)
				return Implies(Eq(ks[0], ctab), And(Implies(And(Not(Eq(f, IntT(0))), Eq(f, g["form"])), Eq(ks[1], g["k"])), UF("slotForm", SBool, f)))
			})
			x.Assump["precondition: every slot with an initial form has its own function (made by defclass)"] = true
			x.Assump["classes do not change after their definition, and evaluation makes no slot unbound"] = true
			st.assume(Implies(formed(x, st), UF("hasForm", SBool, class, g["k"])))
			define(en, "hasForm", func() *T { return formed(x, st) })
			g["mine"], g["v"], g["failed"], g["err"], g["supers"], g["bdom"] = False, VNil, False, VNil, False, False
		},
		onEvent: func(ev *Event) {
			x, st, en := ev.ex, ev.st, ev.en
			ev.assert("nothing after a failure", Not(ev.get("failed", SBool)))
			// between events only the value of the form evaluated last goes to its slot
			m, k := ev.get("m", SInt), ev.get("k", SVal)
			ev.assert("the value of its form is stored, and nothing else", Ite(And(here(x, st), ev.get("mine", SBool)), And(dom(st, m, k), Eq(val(st, m, k), ev.get("v", SVal))), unchanged(st, x)))
			ev.set("bdom", bound(x, st))
			switch ev.kind {
			case "super":
				ev.assert("the class comes before its superclasses", Implies(formed(x, st), bound(x, st)))
				ev.assert("a superclass, for the same object", And(UF("isSuper", SBool, ev.val(1)), Eq(ev.val(0), en.args[0].(*T))))
				ev.set("supers", True)
			case "fcall":
				ev.assert("an initial form of the class, before the superclasses", And(UF("slotForm", SBool, ev.val(0)), Not(ev.get("supers", SBool))))
				ev.assert("only for a slot without a value", Implies(Eq(ev.val(0), ev.get("form", SInt)), Not(bound(x, st))))
			default:
				ev.assert("nothing else is called", False)
			}
		},
		after: func(ev *Event) {
			x, st := ev.ex, ev.st
			m, k := ev.get("m", SInt), ev.get("k", SVal)
			ev.assume(Implies(ev.get("bdom", SBool), bound(x, st)))
			ev.set("dom0", dom(st, m, k))
			ev.set("val0", val(st, m, k))
			if ev.kind == "super" {
				e := ev.res.(*T)
				ev.set("failed", Not(Eq(e, VNil)))
				ev.set("err", e)
				ev.set("mine", False)
				ev.assume(Implies(And(Eq(e, VNil), UF("hasForm", SBool, ev.val(1), k)), bound(x, st)))
				return
			}
			ok := Eq(ev.re, VNil)
			ev.set("mine", And(ok, Eq(ev.val(0), ev.get("form", SInt))))
			ev.set("v", ev.rv)
			ev.set("failed", Not(ok))
			ev.set("err", ev.re)
		},
		loopCands: func(lc *loopCtx) []cand {
			x := lc.ex
			g := func(st *State, n string, s Sort) *T { return x.ghost(st, n, s) }
			r := []cand{
				{name: "no failure so far", f: func(st *State, _ *slots) *T { return Not(g(st, "failed", SBool)) }},
				{name: "no superclass so far", f: func(st *State, _ *slots) *T { return Not(g(st, "supers", SBool)) }},
				{name: "stored", f: func(st *State, _ *slots) *T {
					m, k := g(st, "m", SInt), g(st, "k", SVal)
					return Ite(And(here(x, st), g(st, "mine", SBool)), And(dom(st, m, k), Eq(val(st, m, k), g(st, "v", SVal))), unchanged(st, x))
				}},
				{name: "own forms done", f: func(st *State, _ *slots) *T { return Implies(formed(x, st), bound(x, st)) }}}
			r = append(r, asked(lc, "hasForm", func(st *State) *T { return bound(x, st) })...)
			for _, vk := range sortedKeys(lc.E.heaps) {
				if len(vk) > 9 && vk[:9] == "ghost.vis" {
					vk := vk
					r = append(r, cand{name: "visited has a value " + vk, f: func(st *State, _ *slots) *T {
						return Implies(And(readHeap(st, st.heap(vk, SBool), []*T{g(st, "k", SVal)}), formed(x, st)), bound(x, st))
					}})
				}
			}
			return r
		},
		onReturn: func(r *Return) {
			x, en := r.ex, r.en
			m, k := r.get("m", SInt), r.get("k", SVal)
			e := r.res.(*T)
			r.when(Not(And(here(x, r.st), r.get("mine", SBool))), func(r *Return) { r.cover("left alone"); r.assert("nothing else changes", unchanged(r.st, x)) })
			r.when(And(here(x, r.st), r.get("mine", SBool)), func(r *Return) {
				r.cover("initialised")
				r.assert("the value of its form is stored", And(dom(r.st, m, k), Eq(val(r.st, m, k), r.get("v", SVal))))
			})
			r.when(r.get("failed", SBool), func(r *Return) {
				r.cover("failure")
				r.assert("the failure is reported", Eq(e, r.get("err", SVal)))
			})
			r.when(Not(r.get("failed", SBool)), func(r *Return) {
				r.assert("no failure otherwise", Eq(e, VNil))
				r.assert("every slot with an initial form has a value", Implies(UF("hasForm", SBool, en.args[1].(*T), k), bound(x, r.st)))
			})
		}})
	// initialize-object
	cs = append(cs, &Contract{name: "go:defaultInitializeObject", entry: "go:defaultInitializeObject", props: []string{"P22"}, autos: bothKinds,
		eventFuncs: map[string]string{"(*_StandardObject).callInitArg": "initarg", "(*_StandardObject).callInitForm": "initform"}, pureEvents: map[string]bool{"initarg": true},
		clause: "each pair of the further arguments, in order, initialises the object; then, once, the initial forms of its class; the object is returned",
		covers: []string{"initialised", "no object", "bad argument"},
		setup: func(en *Entry) {
			x, st := en.ex, en.st
			g := st.ghosts
			sv := en.args[2].(SliceV)
			st.assume(Le(IntT(1), sv.len))
			g["i"], g["forms"], g["err"], g["raised"] = IntT(1), False, VNil, False
			g["this"] = x.elemOf(st, "Node", SVal, sv, IntT(0))
			g["class"] = x.readField(st, "_StandardObject", "_StandardClass", Sel("vp", g["this"]))
		},
		onEvent: func(ev *Event) {
			x, st, en := ev.ex, ev.st, ev.en
			sv := en.args[2].(SliceV)
			this, i := ev.get("this", SVal), ev.get("i", SInt)
			isObj := x.isType(this, x.mustType("*_StandardObject"))
			switch ev.kind {
			case "initarg":
				ev.assert("before the initial forms", Not(ev.get("forms", SBool)))
				ev.assert("this object, with its class", And(isObj, Eq(ev.val(0), Sel("vp", this)), Eq(ev.val(1), ev.get("class", SInt))))
				name := x.unwrapped(x.elemOf(st, "Node", SVal, sv, i))
				ev.assert("the next pair", And(Lt(Add(i, IntT(1)), sv.len), Or(ev.get("raised", SBool), Eq(ev.val(2), name)), Eq(ev.val(3), x.elemOf(st, "Node", SVal, sv, Add(i, IntT(1))))))
				ev.set("i", Add(i, IntT(2)))
			case "initform":
				ev.assert("the initial forms once, after all arguments", And(Not(ev.get("forms", SBool)), Eq(i, sv.len)))
				ev.assert("for this object and its class", And(isObj, Eq(ev.val(0), Sel("vp", this)), Eq(ev.val(1), ev.get("class", SInt))))
			case "handler":
				ev.assert("only for a name that is no symbol", And(Lt(i, sv.len), Not(x.isSymbol(x.unwrapped(x.elemOf(st, "Node", SVal, sv, i))))))
			default:
				ev.assert("nothing else is called", False)
			}
		},
		after: func(ev *Event) {
			switch ev.kind {
			case "initform":
				ev.set("forms", True)
				ev.set("err", ev.res.(*T))
			case "handler":
				ev.set("raised", True)
				ev.dead = true // what a handler substitutes is not looked at
			}
		},
		loopCands: func(lc *loopCtx) []cand {
			x := lc.ex
			r := []cand{{name: "forms not yet", f: func(st *State, _ *slots) *T { return Not(x.ghost(st, "forms", SBool)) }}, {name: "not raised", f: func(st *State, _ *slots) *T { return Not(x.ghost(st, "raised", SBool)) }},
				{name: "within", f: func(st *State, _ *slots) *T {
					return And(Le(IntT(1), x.ghost(st, "i", SInt)), Le(x.ghost(st, "i", SInt), x.en.args[2].(SliceV).len))
				}}}
			for _, n := range lc.entry.snames {
				n := n
				r = append(r, cand{name: "left " + n, f: func(st *State, sl *slots) *T {
					s, a := sl.slice[n], x.en.args[2].(SliceV)
					return And(Eq(s.arr, a.arr), Eq(s.off, Add(a.off, x.ghost(st, "i", SInt))), Eq(s.len, Sub(a.len, x.ghost(st, "i", SInt))))
				}})
			}
			for _, n := range lc.entry.names {
				n := n
				if lc.entry.val[n].sort == SInt {
					r = append(r, cand{name: "index " + n, f: func(st *State, sl *slots) *T { return Eq(sl.val[n], x.ghost(st, "i", SInt)) }},
						cand{name: "index-1 " + n, f: func(st *State, sl *slots) *T { return Eq(Add(sl.val[n], IntT(1)), x.ghost(st, "i", SInt)) }})
				}
			}
			return r
		},
		onReturn: func(r *Return) {
			x := r.ex
			sv := r.en.args[2].(SliceV)
			this := r.get("this", SVal)
			isObj := x.isType(this, x.mustType("*_StandardObject"))
			r.when(Not(isObj), func(r *Return) {
				r.cover("no object")
				r.assert("nothing to initialise", Ite(Eq(sv.len, IntT(1)), And(Eq(r.re, VNil), Eq(r.rv, this)), Not(Eq(r.re, VNil))))
			})
			r.when(And(isObj, r.get("forms", SBool)), func(r *Return) {
				r.cover("initialised")
				r.assert("the object, or the failure of a form", And(Eq(r.re, r.get("err", SVal)), Implies(Eq(r.re, VNil), Eq(r.rv, this))))
			})
			r.when(And(isObj, Not(r.get("forms", SBool))), func(r *Return) {
				r.cover("bad argument")
				i := r.get("i", SInt)
				r.assert("fails only for a name that is no symbol or has no value", And(Not(Eq(r.re, VNil)), Lt(i, sv.len),
					Or(Eq(Add(i, IntT(1)), sv.len), Not(x.isSymbol(x.unwrapped(x.elemOf(r.st, "Node", SVal, sv, i)))))))
			})
		}})
	cs = append(cs, &Contract{name: "go:UnevalList", entry: "go:UnevalList", props: []string{"P01", "P08", "P22"}, autos: bothKinds, freshCells: true,
		recs:   []recSpec{collected(func(ex *Exec, st *State) *T { return Sub(Sub(ex.en.args[0].(SliceV).len, IntT(1)), j) })},
		clause: "a list with one element for each value, in order, each evaluating to that value",
		covers: []string{"made"},
		setup:  func(en *Entry) { en.st.assume(Le(IntT(0), j)) },
		loopCands: func(lc *loopCtx) []cand {
			x := lc.ex
			sv := x.en.args[0].(SliceV)
			var r []cand
			for _, n := range lc.entry.names {
				if lc.entry.val[n].sort != SVal {
					continue
				}
				n := n
				r = append(r, cand{name: "list " + n, f: func(st *State, sl *slots) *T { return collectedList(sl.val[n]) }})
				r = append(r, cand{name: "so far " + n, f: func(st *State, sl *slots) *T {
					v := collectedNth(sl.val[n])
					return Implies(And(Lt(j, sv.len), Le(Sub(sv.len, j), collectedLen(sl.val[n]))), And(x.isType(v, x.mustType("Uneval")), Eq(x.unwrapped(v), x.elemOf(st, "Node", SVal, sv, j))))
				}})
				for _, i := range lc.entry.names {
					i := i
					if lc.entry.val[i].sort == SInt {
						r = append(r, cand{name: "down to " + i, f: func(st *State, sl *slots) *T { return Le(IntT(-1), sl.val[i]) }}, cand{name: "down to 0 " + i, f: func(st *State, sl *slots) *T { return Le(IntT(0), sl.val[i]) }})
						r = append(r, cand{name: "count " + n + i, f: func(st *State, sl *slots) *T {
							return Eq(collectedLen(sl.val[n]), Sub(Sub(sv.len, IntT(1)), sl.val[i]))
						}},
							cand{name: "count1 " + n + i, f: func(st *State, sl *slots) *T { return Eq(collectedLen(sl.val[n]), Sub(sv.len, sl.val[i])) }})
					}
				}
			}
			return r
		},
		onReturn: func(r *Return) {
			x := r.ex
			sv := r.en.args[0].(SliceV)
			v := collectedNth(r.rv)
			r.cover("made")
			r.assert("a list of that length", And(collectedList(r.rv), Eq(collectedLen(r.rv), sv.len)))
			r.assert("the values in order", Implies(Lt(j, sv.len), And(x.isType(v, x.mustType("Uneval")), Eq(x.unwrapped(v), x.elemOf(r.st, "Node", SVal, sv, j)))))
		}})
	cs = append(cs, &Contract{name: "lisp:create", entry: "lisp:create", props: []string{"P22"}, autos: bothKinds,
		eventFuncs: map[string]string{"Class.Create": "create", "(*World).GetFunc": "getfunc", "UnevalList": "list", "(*_Generic).Call": "init"},
		pureEvents: map[string]bool{"create": true, "getfunc": true, "list": true},
		clause:     "makes one object of the class and calls initialize-object once with the object and the further arguments, in order; its result is the result",
		covers:     []string{"user-defined class", "built-in class"},
		setup: func(en *Entry) {
			g := en.st.ghosts
			g["made"], g["obj"], g["f"], g["fok"], g["list"], g["lst"], g["done"], g["rv"], g["re"] = False, VNil, VNil, False, False, VNil, False, VNil, VNil
			en.st.assume(Le(IntT(0), j))
		},
		onEvent: func(ev *Event) {
			x, st, en := ev.ex, ev.st, ev.en
			arg0 := x.unwrapped(readArg(en, st, IntT(0)))
			switch ev.kind {
			case "create":
				ev.assert("one object of the class", And(Not(ev.get("made", SBool)), Eq(ev.val(0), arg0)))
			case "getfunc":
				ev.assert("initialize-object of this interpreter", And(Eq(ev.val(0), en.w), Eq(ev.val(1), x.globalT(st, "symInitializeObject"))))
			case "list":
				sv := ev.args[0].(SliceV)
				ev.assert("the object and the further arguments", And(Eq(sv.len, en.argv.len), Eq(x.elemOf(st, "Node", SVal, sv, IntT(0)), ev.get("obj", SVal)),
					Implies(And(Lt(IntT(0), j), Lt(j, sv.len)), Eq(x.elemOf(st, "Node", SVal, sv, j), readArg(en, st, j)))))
			case "init":
				ev.assert("initialised once", And(ev.get("made", SBool), ev.get("list", SBool), Not(ev.get("done", SBool)), ev.get("fok", SBool)))
				ev.assert("by initialize-object, with these arguments", And(Eq(ev.val(0), Sel("vp", ev.get("f", SVal))), Eq(ev.val(1), en.ctx), Eq(ev.val(2), en.w), Eq(ev.val(3), ev.get("lst", SVal))))
			case "handler":
			default:
				ev.assert("nothing else is called", False)
			}
		},
		after: func(ev *Event) {
			switch ev.kind {
			case "create":
				ev.set("made", True)
				ev.set("obj", ev.res.(*T))
				ev.assume(Or(Eq(ev.res.(*T), VNil), ev.ex.wf(ev.res.(*T))))
			case "getfunc":
				ev.set("fok", Eq(ev.re, VNil))
				ev.set("f", ev.rv)
			case "list":
				ev.set("list", True)
				ev.set("lst", ev.res.(*T))
			case "init":
				ev.set("done", True)
				ev.set("rv", ev.rv)
				ev.set("re", ev.re)
			case "handler":
				ev.dead = true // what a handler substitutes is not looked at
			}
		},
		onReturn: func(r *Return) {
			x := r.ex
			obj := r.get("obj", SVal)
			isObj := x.isType(obj, x.mustType("*_StandardObject"))
			r.when(r.get("done", SBool), func(r *Return) {
				r.cover("user-defined class")
				r.assert("the result of initialize-object", And(Eq(r.re, r.get("re", SVal)), Implies(Eq(r.re, VNil), Eq(r.rv, r.get("rv", SVal)))))
			})
			r.when(And(Not(r.get("done", SBool)), Eq(r.re, VNil)), func(r *Return) {
				r.cover("built-in class")
				r.assert("an object of a built-in class", And(r.get("made", SBool), Not(isObj), Eq(r.rv, obj)))
			})
		}})
	_ = stdT
	return cs
}

func init() { contractSets = append(contractSets, slotContracts) }
