package main

import "strconv"

// P14: list functions. A list is specified by recursive functions over its cells: proper(v) says that v ends with nil, llen(v) is
// its length, and so on; no function but set-car, set-cdr and nreverse changes an arbitrary existing cell.

func properL(v *T) *T { return UF("properList", SBool, v) }
func llenL(v *T) *T   { return UF("lengthOf", SInt, v) }

// properRec: the defining equations of properL and llenL.
func properRec() recSpec {
	return recSpec{name: "proper list",
		at: func(x *Exec, st *State, v, car, cdr *T) *T {
			return And(Implies(properL(v), And(properL(cdr), Or(x.isCons(cdr), x.none(cdr)))), Implies(x.isCons(cdr), Le(IntT(1), llenL(cdr))), Le(IntT(0), llenL(cdr)), Lt(llenL(cdr), IntT(1<<40)), Eq(llenL(v), Add(llenL(cdr), IntT(1))))
		},
		base: func(x *Exec, st *State) *T {
			n := x.nullVal()
			return And(properL(n), properL(VNil), Eq(llenL(n), IntT(0)), Eq(llenL(VNil), IntT(0)))
		}}
}

// cellsSetup: an arbitrary existing cell and its contents.
func cellsSetup(en *Entry) {
	x, st := en.ex, en.st
	g := st.ghosts
	c := Const("some.cell", SInt)
	st.assume(And(Lt(IntT(0), c), Lt(c, st.alloc())))
	g["alloc0"] = st.alloc()
	g["c"] = c
	g["car0"], g["cdr0"] = x.readField(st, "Cons", "Car", c), x.readField(st, "Cons", "Cdr", c)
}

func cellsSame(x *Exec, st *State) *T {
	c := x.ghost(st, "c", SInt)
	return And(Eq(x.readField(st, "Cons", "Car", c), x.ghost(st, "car0", SVal)), Eq(x.readField(st, "Cons", "Cdr", c), x.ghost(st, "cdr0", SVal)))
}

// downCands: a list of the elements from the last one down is built at the front.
func downCands(lc *loopCtx, n func(st *State) *T, is func(st *State, v *T) *T, j *T) []cand {
	var r []cand
	for _, l := range lc.entry.names {
		if lc.entry.val[l].sort != SVal {
			continue
		}
		l := l
		r = append(r, cand{name: "list " + l, f: func(st *State, sl *slots) *T { return collectedList(sl.val[l]) }},
			cand{name: "so far " + l, f: func(st *State, sl *slots) *T {
				return Implies(And(Lt(j, n(st)), Le(Sub(n(st), j), collectedLen(sl.val[l]))), is(st, collectedNth(sl.val[l])))
			}})
		for _, i := range lc.entry.names {
			i := i
			if lc.entry.val[i].sort == SInt {
				r = append(r, cand{name: "down to " + i, f: func(st *State, sl *slots) *T { return Le(IntT(-1), sl.val[i]) }},
					cand{name: "down to 0 " + i, f: func(st *State, sl *slots) *T { return Le(IntT(0), sl.val[i]) }},
					cand{name: "count " + l + i, f: func(st *State, sl *slots) *T {
						return Eq(collectedLen(sl.val[l]), Sub(Sub(n(st), IntT(1)), sl.val[i]))
					}},
					cand{name: "count1 " + l + i, f: func(st *State, sl *slots) *T { return Eq(collectedLen(sl.val[l]), Sub(n(st), sl.val[i])) }})
			}
		}
	}
	return r
}

func listContracts() []*Contract {
	var cs []*Contract
	j := Const("nth.element", SInt)
	type spec struct {
		name, clause string
		props        []string
		covers       []string
		recs         []recSpec
		setup        func(en *Entry)
		cands        func(lc *loopCtx) []cand
		handler      func(ev *Event) *T // when a condition may be signalled
		ret          func(r *Return)
		changes      bool
		events       map[string]string
		onEvent      func(ev *Event) bool
		after        func(ev *Event)
	}
	add := func(s spec) {
		entry := s.name
		if entry[:3] != "go:" {
			entry = "lisp:" + entry
		}
		pure := map[string]bool{}
		for _, k := range s.events {
			pure[k] = true
		}
		cs = append(cs, &Contract{name: entry, entry: entry, props: append([]string{"P14"}, s.props...), autos: bothKinds, clause: s.clause, covers: s.covers, recs: s.recs, freshCells: true, abstractEquals: true, storeEndsRecs: true,
			eventFuncs: s.events, pureEvents: pure,
			setup: func(en *Entry) {
				cellsSetup(en)
				if s.setup != nil {
					s.setup(en)
				}
			},
			onEvent: func(ev *Event) {
				ev.assert("no cell has changed", cellsSame(ev.ex, ev.st))
				if s.onEvent != nil && s.onEvent(ev) {
					return
				}
				if ev.kind == "handler" && s.handler != nil {
					ev.assert("a condition only for a wrong argument", s.handler(ev))
					return
				}
				ev.assert("nothing is called", False)
			},
			after: func(ev *Event) {
				if ev.kind == "handler" {
					ev.dead = true
				} else if s.after != nil {
					s.after(ev)
				}
			},
			loopCands: func(lc *loopCtx) []cand {
				x := lc.ex
				r := []cand{{name: "cells", f: func(st *State, _ *slots) *T { return cellsSame(x, st) }}}
				if s.cands != nil {
					r = append(r, s.cands(lc)...)
				}
				return r
			},
			onReturn: func(r *Return) {
				if !s.changes {
					r.assert("no existing cell changes", cellsSame(r.ex, r.st))
				}
				s.ret(r)
			}})
	}
	notCons := func(ev *Event) *T { return Not(ev.ex.isCons(ev.ex.unwrapped(ev.en.arg))) }
	part := func(name, what string, get func(x *Exec, st *State, v *T) *T) {
		add(spec{name: name, clause: what + "; an error for anything but a pair", covers: []string{"pair", "no pair"}, handler: notCons,
			ret: func(r *Return) {
				x := r.ex
				u := x.unwrapped(r.en.arg)
				r.when(x.isCons(u), func(r *Return) {
					r.cover("pair")
					r.assert("the part of the pair", And(Eq(r.re, VNil), x.same(r.rv, get(x, r.en.st, u))))
				})
				r.when(Not(x.isCons(u)), func(r *Return) { r.cover("no pair"); r.assert("an error", Not(Eq(r.re, VNil))) })
			}})
	}
	part("car", "the first part of the pair", func(x *Exec, st *State, v *T) *T { return x.carN(st, v) })
	part("cdr", "the second part of the pair", func(x *Exec, st *State, v *T) *T { return x.cdrN(st, v) })
	add(spec{name: "cons", clause: "a new pair of the two arguments", covers: []string{"made"}, ret: func(r *Return) {
		x := r.ex
		r.cover("made")
		ref := Sel("vp", r.rv)
		r.assert("a new pair", And(Eq(r.re, VNil), x.isCons(r.rv), Le(r.get("alloc0", SInt), ref)))
		r.assert("of the arguments", And(Eq(x.readField(r.st, "Cons", "Car", ref), r.en.arg), Eq(x.readField(r.st, "Cons", "Cdr", ref), r.en.arg2)))
	}})
	set := func(name, field, other string) {
		add(spec{name: name, clause: "stores the first argument in that part of the pair and changes nothing else; an error for anything but a pair", covers: []string{"pair", "no pair"}, changes: true,
			handler: func(ev *Event) *T { return Not(ev.ex.isCons(ev.ex.unwrapped(ev.en.arg2))) },
			ret: func(r *Return) {
				x := r.ex
				u := x.unwrapped(r.en.arg2)
				ref := Sel("vp", u)
				c := r.get("c", SInt)
				old := map[string]*T{"Car": r.get("car0", SVal), "Cdr": r.get("cdr0", SVal)}
				r.assert("the other part never changes", Eq(x.readField(r.st, "Cons", other, c), old[other]))
				r.when(Not(And(x.isCons(u), Eq(c, ref))), func(r *Return) {
					r.assert("no other pair changes", Eq(x.readField(r.st, "Cons", field, c), old[field]))
				})
				r.when(x.isCons(u), func(r *Return) {
					r.cover("pair")
					r.assert("stored", And(Eq(r.re, VNil), Eq(x.readField(r.st, "Cons", field, ref), r.en.arg)))
				})
				r.when(Not(x.isCons(u)), func(r *Return) { r.cover("no pair"); r.assert("an error", Not(Eq(r.re, VNil))) })
			}})
	}
	set("set-car", "Car", "Cdr")
	set("set-cdr", "Cdr", "Car")

	argN := func(x *Exec, st *State) *T { return x.en.argv.len }
	add(spec{name: "list", clause: "a new list of the arguments in order", covers: []string{"made"},
		recs:  []recSpec{collected(func(x *Exec, st *State) *T { return Sub(Sub(x.en.argv.len, IntT(1)), j) })},
		setup: func(en *Entry) { en.st.assume(Le(IntT(0), j)) },
		cands: func(lc *loopCtx) []cand {
			x := lc.ex
			return downCands(lc, func(st *State) *T { return argN(x, st) }, func(st *State, v *T) *T { return Eq(v, readArg(x.en, st, j)) }, j)
		},
		ret: func(r *Return) {
			n := r.en.argv.len
			r.cover("made")
			r.assert("as many elements as arguments", And(Eq(r.re, VNil), collectedList(r.rv), Eq(collectedLen(r.rv), n)))
			r.when(Lt(j, n), func(r *Return) {
				r.assert("the arguments in order", Eq(collectedNth(r.rv), readArg(r.en, r.en.st, j)))
			})
		}})
	isI := func(en *Entry, st *State) (*T, *T) {
		u := en.ex.unwrapped(readArg(en, st, IntT(0)))
		return en.ex.isInt(u), Sel("vi", u)
	}
	add(spec{name: "create-list", clause: "a new list of as many elements as the first argument says, each the second argument", covers: []string{"made", "no number"},
		recs:    []recSpec{collected(func(x *Exec, st *State) *T { return j })},
		setup:   func(en *Entry) { en.st.assume(Le(IntT(0), j)) },
		handler: func(ev *Event) *T { is, _ := isI(ev.en, ev.st); return Not(is) },
		cands: func(lc *loopCtx) []cand {
			x := lc.ex
			r := downCands(lc, func(st *State) *T { _, n := isI(x.en, st); return n }, func(*State, *T) *T { return True }, j)
			for _, l := range lc.entry.names {
				l := l
				if lc.entry.val[l].sort == SVal {
					for _, i := range lc.entry.names {
						i := i
						if lc.entry.val[i].sort == SInt {
							r = append(r, cand{name: "to do " + l + i, f: func(st *State, sl *slots) *T {
								_, n := isI(x.en, st)
								return And(Le(sl.val[i], n), Eq(collectedLen(sl.val[l]), Ite(Le(IntT(0), sl.val[i]), Sub(n, sl.val[i]), IntT(0))), Implies(Lt(sl.val[i], IntT(0)), Eq(sl.val[i], n)))
							}}, cand{name: "done " + l + i, f: func(st *State, sl *slots) *T {
								_, n := isI(x.en, st)
								return And(Eq(collectedLen(sl.val[l]), sl.val[i]), Le(IntT(0), sl.val[i]), Or(Eq(sl.val[i], IntT(0)), Le(sl.val[i], n)))
							}})
						}
					}
					r = append(r, cand{name: "elements " + l, f: func(st *State, sl *slots) *T {
						return Implies(Lt(j, collectedLen(sl.val[l])), Eq(collectedNth(sl.val[l]), readArg(x.en, st, IntT(1))))
					}})
				}
			}
			return r
		},
		ret: func(r *Return) {
			is, n := isI(r.en, r.en.st)
			r.when(Not(is), func(r *Return) { r.cover("no number"); r.assert("an error", Not(Eq(r.re, VNil))) })
			r.when(is, func(r *Return) {
				r.cover("made")
				r.assert("as many elements", And(Eq(r.re, VNil), collectedList(r.rv), Eq(collectedLen(r.rv), Ite(Lt(IntT(0), n), n, IntT(0)))))
				r.assert("each the given one", Implies(Lt(j, collectedLen(r.rv)), Eq(collectedNth(r.rv), readArg(r.en, r.en.st, IntT(1)))))
			})
		}})

	properArg := func(v func(en *Entry) *T) func(en *Entry) {
		return func(en *Entry) {
			l := v(en)
			en.st.assume(Not(en.ex.isType(l, en.ex.mustType("Uneval")))) // the value of an argument
			en.st.assume(Implies(en.ex.isCons(l), And(properL(l), Lt(llenL(l), IntT(1<<40)))))
		}
	}
	arg1 := func(en *Entry) *T { return en.arg }
	arg2 := func(en *Entry) *T { return en.arg2 }
	isList := func(x *Exec, v *T) *T { return Or(x.isCons(v), x.none(v)) }
	// walk: loop invariants of a walk over a list (of); rel says how the rest of the list relates to the list
	walk := func(of func(en *Entry) *T, rel func(x *Exec, st *State, sl *slots, v *T) map[string]*T) func(lc *loopCtx) []cand {
		return func(lc *loopCtx) []cand {
			x := lc.ex
			var r []cand
			for _, n := range lc.entry.names {
				if lc.entry.val[n].sort != SVal {
					continue
				}
				n := n
				list := True
				if of != nil {
					list = isList(x, of(x.en))
					r = append(r, cand{name: "no list " + n, f: func(st *State, sl *slots) *T { return Or(list, Eq(sl.val[n], of(x.en))) }})
				}
				r = append(r, cand{name: "proper " + n, f: func(st *State, sl *slots) *T {
					return Implies(list, And(properL(sl.val[n]), Or(x.isCons(sl.val[n]), x.none(sl.val[n]))))
				}})
				for _, k := range sortedKeys(rel(x, lc.E, lc.entry, lc.entry.val[n])) {
					k := k
					r = append(r, cand{name: k + " " + n, f: func(st *State, sl *slots) *T { return Implies(list, rel(x, st, sl, sl.val[n])[k]) }})
				}
			}
			return r
		}
	}
	nthR := func(v *T) *T { return UF("nthFromEndOf", SVal, v) }
	add(spec{name: "reverse", clause: "a new list of the elements in opposite order; an error for what is no list", covers: []string{"made", "empty", "no list"},
		recs: []recSpec{properRec(), {name: "element with j-1 elements after it", at: func(x *Exec, st *State, v, car, cdr *T) *T {
			return Eq(nthR(v), Ite(Eq(llenL(v), j), x.nrm(car), nthR(cdr)))
		}}, collected(func(x *Exec, st *State) *T { return Sub(llenL(x.en.arg), j) })},
		setup: func(en *Entry) { properArg(arg1)(en); en.st.assume(Lt(IntT(0), j)) },
		cands: func(lc *loopCtx) []cand {
			x := lc.ex
			r := walk(arg1, func(x *Exec, st *State, sl *slots, v *T) map[string]*T {
				m := map[string]*T{}
				for _, w := range sl.names {
					if sl.val[w].sort == SVal && sl.val[w] != v {
						res := sl.val[w]
						m["length with "+w] = Eq(Add(llenL(v), collectedLen(res)), llenL(x.en.arg))
						m["rest of the list with "+w] = Implies(Le(j, llenL(v)), Eq(nthR(v), nthR(x.en.arg)))
						m["result has it "+w] = Implies(And(Lt(llenL(v), j), Le(j, llenL(x.en.arg))), Eq(collectedNth(res), nthR(x.en.arg)))
					}
				}
				return m
			})(lc)
			for _, n := range lc.entry.names {
				n := n
				if lc.entry.val[n].sort == SVal {
					r = append(r, cand{name: "list " + n, f: func(st *State, sl *slots) *T { return collectedList(sl.val[n]) }},
						cand{name: "empty list " + n, f: func(st *State, sl *slots) *T {
							return And(Le(IntT(0), collectedLen(sl.val[n])), Implies(Eq(collectedLen(sl.val[n]), IntT(0)), x.none(sl.val[n])))
						}})
				}
			}
			return r
		},
		ret: func(r *Return) {
			x := r.ex
			L := r.en.arg
			r.when(Not(isList(x, L)), func(r *Return) { r.cover("no list"); r.assert("an error", Not(Eq(r.re, VNil))) })
			r.when(x.none(L), func(r *Return) { r.cover("empty"); r.assert("nil", And(Eq(r.re, VNil), x.none(r.rv))) })
			r.when(x.isCons(L), func(r *Return) {
				r.cover("made")
				r.assert("as many elements", And(Eq(r.re, VNil), collectedList(r.rv), Eq(collectedLen(r.rv), llenL(L))))
				r.assert("in opposite order", Implies(Le(j, llenL(L)), Eq(collectedNth(r.rv), nthR(L))))
			})
		}})

	add(spec{name: "length", clause: "the number of elements of a list", covers: []string{"counted"}, props: []string{"P25"},
		recs:  []recSpec{properRec()},
		setup: func(en *Entry) { properArg(arg1)(en); en.st.assume(isList(en.ex, en.arg)) },
		cands: walk(arg1, func(x *Exec, st *State, sl *slots, v *T) map[string]*T {
			m := map[string]*T{}
			for _, w := range sl.names {
				if sl.val[w].sort == SInt {
					m["counted in "+w] = Eq(Add(llenL(v), sl.val[w]), llenL(x.en.arg))
				}
			}
			return m
		}),
		ret: func(r *Return) {
			r.cover("counted")
			r.assert("the number of elements", And(Eq(r.re, VNil), Eq(r.rv, r.ex.mkInt(llenL(r.en.arg)))))
		}})

	lastCell := func(v *T) *T { return UF("lastCell", SInt, v) }
	lastRec := recSpec{name: "last cell", at: func(x *Exec, st *State, v, car, cdr *T) *T {
		return Eq(lastCell(v), Ite(x.isCons(cdr), lastCell(cdr), Sel("vp", v)))
	}}
	lastArg := func(en *Entry) *T {
		if en.arg != nil {
			return en.arg
		}
		return en.args[2].(*T)
	}
	lastCands := walk(lastArg, func(x *Exec, st *State, sl *slots, v *T) map[string]*T {
		l := lastArg(x.en)
		return map[string]*T{"last cell": Eq(lastCell(v), lastCell(l)), "pair": x.isCons(v), "pair or nil": Eq(x.isCons(v), x.isCons(l))}
	})
	add(spec{name: "last", clause: "the last element of a list, nil for the empty list; an error for what is no list", covers: []string{"element", "empty", "no list"},
		recs:    []recSpec{properRec(), lastRec},
		setup:   properArg(arg1),
		handler: notCons,
		cands:   lastCands,
		ret: func(r *Return) {
			x := r.ex
			L := r.en.arg
			r.when(x.isCons(L), func(r *Return) {
				r.cover("element")
				r.assert("the last element", And(Eq(r.re, VNil), x.same(r.rv, x.readField(r.st, "Cons", "Car", lastCell(L)))))
			})
			r.when(x.none(L), func(r *Return) { r.cover("empty"); r.assert("nil", And(Eq(r.re, VNil), x.none(r.rv))) })
			r.when(Not(isList(x, x.unwrapped(L))), func(r *Return) { r.cover("no list"); r.assert("an error", Not(Eq(r.re, VNil))) })
		}})
	add(spec{name: "go:lastOfList", clause: "the last cell of a list, none for the empty list", covers: []string{"cell", "empty"}, props: []string{"P15"},
		recs: []recSpec{properRec(), lastRec},
		setup: func(en *Entry) {
			l := en.args[2].(*T)
			en.st.assume(And(isList(en.ex, l), properL(l)))
		},
		cands: lastCands,
		ret: func(r *Return) {
			x := r.ex
			L := r.en.args[2].(*T)
			r.when(x.isCons(L), func(r *Return) {
				r.cover("cell")
				r.assert("the last cell", And(Eq(r.re, VNil), Eq(r.rv, lastCell(L))))
			})
			r.when(x.none(L), func(r *Return) { r.cover("empty"); r.assert("none", And(Eq(r.re, VNil), Eq(r.rv, IntT(0)))) })
		}})

	find := func(name, clause string, key func(x *Exec, st *State, car *T) *T, result func(x *Exec, st *State, v, car *T) *T, good func(x *Exec, car *T) *T) {
		res := func(v *T) *T { return UF("found:"+name, SVal, v) }
		ok := func(v *T) *T { return UF("elements:"+name, SBool, v) }
		add(spec{name: name, clause: clause, covers: []string{"found", "absent"},
			recs: []recSpec{properRec(), {name: "first match", at: func(x *Exec, st *State, v, car, cdr *T) *T {
				c := x.nrm(car)
				hit := UF("nodeEquals", SBool, x.en.arg, key(x, st, c), IntT(0), st.version())
				return And(Implies(ok(v), And(ok(cdr), good(x, c))), Eq(res(v), Ite(hit, result(x, st, v, c), res(cdr))))
			}, base: func(x *Exec, st *State) *T { return And(Eq(res(x.nullVal()), x.nullVal()), Eq(res(VNil), x.nullVal())) }}},
			setup: func(en *Entry) {
				properArg(arg2)(en)
				en.st.assume(And(isList(en.ex, en.arg2), ok(en.arg2)))
			},
			cands: walk(arg2, func(x *Exec, st *State, sl *slots, v *T) map[string]*T {
				return map[string]*T{"first match": Eq(res(v), res(x.en.arg2)), "elements": ok(v)}
			}),
			ret: func(r *Return) {
				r.assert("the first match, nil when there is none", And(Eq(r.re, VNil), r.ex.same(r.rv, res(r.en.arg2))))
				r.when(r.ex.isCons(r.rv), func(r *Return) { r.cover("found") })
				r.when(r.ex.none(r.rv), func(r *Return) { r.cover("absent") })
			}})
	}
	find("member", "the first tail of the list whose first element is eql to the first argument, nil when there is none", func(x *Exec, st *State, car *T) *T { return car },
		func(x *Exec, st *State, v, car *T) *T { return v }, func(*Exec, *T) *T { return True })
	find("assoc", "the first pair in the list whose first part is eql to the first argument, nil when there is none", func(x *Exec, st *State, car *T) *T { return x.car(st, x.unwrapped(car)) },
		func(x *Exec, st *State, v, car *T) *T { return x.unwrapped(car) }, func(x *Exec, car *T) *T { return x.isCons(x.unwrapped(car)) })

	// append
	nne := func(k *T) *T { return UF("nextNonEmpty", SInt, k) } // the first of the lists from the k-th on (but the last) that is not empty
	add(spec{name: "append", clause: "a list of the elements of all lists in order, whose end is the last list itself; the other lists are copied", covers: []string{"copied", "only the last", "nothing"},
		recs:   []recSpec{properRec()},
		events: map[string]string{"(*ListBuilder).Add": "add", "(*ListBuilder).Sequence": "seq", "lastOfList": "last"},
		setup: func(en *Entry) {
			x, st := en.ex, en.st
			n := en.argv.len
			x.withElems(st, "Node", SVal, en.argv, func(cur *State, k, v *T) *T {
				return And(Implies(x.isCons(v), properL(v)), Implies(Lt(k, Sub(n, IntT(1))), And(isList(x, v), Eq(nne(k), Ite(x.isCons(v), k, nne(Add(k, IntT(1))))))))
			})
			st.assume(Eq(nne(Sub(n, IntT(1))), Sub(n, IntT(1))))
			g := st.ghosts
			g["li"] = nne(IntT(0))
			g["cur"] = readArg(en, st, g["li"])
			g["n"], g["lb"], g["seq"], g["head"], g["tail"], g["lst"] = IntT(0), IntT(0), False, VNil, IntT(0), False
			readArg(en, st, IntT(0))
		},
		onEvent: func(ev *Event) bool {
			x, st, en := ev.ex, ev.st, ev.en
			n := en.argv.len
			li, cur := ev.get("li", SInt), ev.get("cur", SVal)
			lb := ev.get("lb", SInt)
			switch ev.kind {
			case "add":
				ev.assert("one list is built", And(Not(ev.get("seq", SBool)), Or(Eq(lb, IntT(0)), Eq(lb, ptrID(ev.args[0])))))
				ev.assert("an element is left", And(Lt(li, Sub(n, IntT(1))), x.isCons(cur)))
				ev.assert("the next element", x.same(ev.val(3), x.carN(st, cur)))
				rest := x.cdrN(st, cur)
				nx := nne(Add(li, IntT(1)))
				readArg(en, st, Add(li, IntT(1)))
				ev.set("lb", ptrID(ev.args[0]))
				ev.set("li", Ite(x.isCons(rest), li, nx))
				ev.set("cur", Ite(x.isCons(rest), rest, readArg(en, st, nx)))
				ev.set("n", Add(ev.get("n", SInt), IntT(1)))
			case "seq":
				ev.assert("all elements are in the list", And(Eq(li, Sub(n, IntT(1))), Or(Eq(lb, IntT(0)), Eq(lb, ptrID(ev.args[0])))))
			case "last":
				ev.assert("the end of the new list", And(ev.get("seq", SBool), Eq(ev.val(2), ev.get("head", SVal))))
			default:
				return false
			}
			return true
		},
		after: func(ev *Event) {
			x, st := ev.ex, ev.st
			some := Lt(IntT(0), ev.get("n", SInt))
			switch ev.kind {
			case "add":
				st.assume(Eq(ev.res.(*T), VNil))
			case "seq": // what ListBuilder makes: new cells only
				v := ev.res.(*T)
				st.assume(And(Implies(some, And(x.isCons(v), properL(v), Le(ev.get("alloc0", SInt), Sel("vp", v)))), Implies(Not(some), Eq(v, x.nullVal()))))
				ev.set("seq", True)
				ev.set("head", v)
			case "last":
				res := ev.res.(TupleV)
				tail := res[0].(*T)
				st.assume(Eq(res[1].(*T), VNil))
				st.assume(And(Implies(some, Le(ev.get("alloc0", SInt), tail)), Implies(Not(some), Eq(tail, IntT(0)))))
				ev.set("tail", tail)
				ev.set("lst", True)
			}
		},
		cands: func(lc *loopCtx) []cand {
			x, en := lc.ex, lc.ex.en
			g := func(st *State, n string, s Sort) *T { return x.ghost(st, n, s) }
			r := walk(nil, func(x *Exec, st *State, sl *slots, v *T) map[string]*T { return map[string]*T{} })(lc)
			for _, i := range lc.entry.names {
				if lc.entry.val[i].sort != SInt {
					continue
				}
				i := i
				for _, d := range []int64{0, 1} {
					d := d
					r = append(r, cand{name: "next list " + i + IntT(d).String(), f: func(st *State, sl *slots) *T {
						k := nne(Add(sl.val[i], IntT(d)))
						return And(Eq(g(st, "li", SInt), k), Eq(g(st, "cur", SVal), readArg(en, st, k)))
					}})
					for _, v := range lc.entry.names {
						v := v
						if lc.entry.val[v].sort == SVal {
							r = append(r, cand{name: "next element " + i + v + IntT(d).String(), f: func(st *State, sl *slots) *T {
								k := Add(sl.val[i], IntT(d))
								l := sl.val[v]
								nx := nne(Add(k, IntT(1)))
								return And(Eq(g(st, "li", SInt), Ite(x.isCons(l), k, nx)), Eq(g(st, "cur", SVal), Ite(x.isCons(l), l, readArg(en, st, nx))))
							}})
						}
					}
				}
			}
			for vi, v := range lc.entry.names {
				if lc.entry.val[v].sort != SVal {
					continue
				}
				v := v
				for ki, k := range typedRegs(lc, "int") {
					k := k
					r = append(r, cand{name: "next element of " + strconv.Itoa(vi) + "." + strconv.Itoa(ki), f: func(st *State, sl *slots) *T {
						l := sl.val[v]
						nx := nne(Add(k, IntT(1)))
						return And(Eq(g(st, "li", SInt), Ite(x.isCons(l), k, nx)), Eq(g(st, "cur", SVal), Ite(x.isCons(l), l, readArg(en, st, nx))))
					}})
				}
			}
			for _, b := range builders(lc) {
				b := b
				r = append(r, cand{name: "builder " + b.String(), f: func(st *State, _ *slots) *T { return Or(Eq(g(st, "lb", SInt), IntT(0)), Eq(g(st, "lb", SInt), b)) }})
			}
			return append(r, cand{name: "building", f: func(st *State, _ *slots) *T {
				return And(Not(g(st, "seq", SBool)), Not(g(st, "lst", SBool)), Le(IntT(0), g(st, "n", SInt)))
			}})
		},
		ret: func(r *Return) {
			x, en := r.ex, r.en
			n := en.argv.len
			r.assert("no error", Eq(r.re, VNil))
			r.when(Eq(n, IntT(0)), func(r *Return) { r.cover("nothing"); r.assert("nil", x.none(r.rv)) })
			r.when(Lt(IntT(0), n), func(r *Return) {
				last := readArg(en, en.st, Sub(n, IntT(1)))
				r.assert("all lists were copied", Eq(r.get("li", SInt), Sub(n, IntT(1))))
				some := Lt(IntT(0), r.get("n", SInt))
				r.when(Not(some), func(r *Return) {
					r.cover("only the last")
					r.assert("the last list itself", Eq(r.rv, last))
				})
				r.when(some, func(r *Return) {
					r.cover("copied")
					r.assert("the new list", And(r.get("lst", SBool), Eq(r.rv, r.get("head", SVal))))
					r.assert("that ends with the last list", Eq(x.readField(r.st, "Cons", "Cdr", r.get("tail", SInt)), last))
				})
			})
		}})
	return cs
}

// builders: the list builders that exist when the loop is entered.
func builders(lc *loopCtx) []*T {
	var r []*T
	for ref, o := range lc.E.objTyp {
		if o.typ != nil && typeKey(o.typ) == "ListBuilder" {
			r = append(r, ref)
		}
	}
	sortTerms(r)
	return r
}

func init() { contractSets = append(contractSets, listContracts) }
