package main

import (
	"strconv"
	"strings"
)

// P15: mapping functions. r counts the calls of the function; for an arbitrary list (the j-th) cur is its part after r elements.

func mapContracts() []*Contract {
	var cs []*Contract
	j := Const("nth.list", SInt)
	q := Const("nth.call", SInt)
	short := Const("shortest", SInt)
	isList := func(x *Exec, v *T) *T { return Or(x.isCons(v), x.none(v)) }
	quoted := func(v *T) *T { return UF("quotedValue", SVal, v) }
	one := IntT(1)

	cs = append(cs, &Contract{name: "go:newQuote", entry: "go:newQuote", props: []string{"P15", "P24"}, autos: bothKinds, clause: "the form (quote X)", covers: []string{"made"},
		eventFuncs: map[string]string{"NewSymbol": "symbol"}, pureEvents: map[string]bool{"symbol": true},
		setup: func(en *Entry) {
			g := en.st.ghosts
			g["alloc0"], g["sym"] = en.st.alloc(), IntT(-1)
		},
		onEvent: func(ev *Event) { ev.assert("only symbols are made", boolT(ev.kind == "symbol")) },
		after: func(ev *Event) {
			if Eq(ev.val(0), StrLit("quote")) == True {
				ev.set("sym", ev.res.(*T))
			}
		},
		onReturn: func(r *Return) {
			x := r.ex
			v := r.res.(*T)
			rest := x.cdr(r.st, v)
			r.cover("made")
			r.assert("a new list that starts with the symbol quote", And(x.isCons(v), Le(r.get("alloc0", SInt), Sel("vp", v)), Eq(x.car(r.st, v), Ctor("VI", IntT(int64(x.P.tid(x.mustType("_Symbol")))), r.get("sym", SInt)))))
			r.assert("and has the value as its only other element", And(x.isCons(rest), Eq(x.car(r.st, rest), r.en.args[0].(*T)), x.none(x.cdr(r.st, rest))))
		}})
	cs = append(cs, &Contract{name: "go:listToQuotedList", entry: "go:listToQuotedList", props: []string{"P15"}, autos: bothKinds, freshCells: true,
		clause: "a list of the quoted values in order", covers: []string{"made"},
		eventFuncs: map[string]string{"newQuote": "quote"}, pureEvents: map[string]bool{"quote": true},
		recs:    []recSpec{collected(func(x *Exec, st *State) *T { return Sub(Sub(x.en.args[0].(SliceV).len, one), j) })},
		setup:   func(en *Entry) { en.st.assume(Le(IntT(0), j)) },
		onEvent: func(ev *Event) { ev.assert("only quoting", boolT(ev.kind == "quote")) },
		after:   func(ev *Event) { ev.assume(Eq(quoted(ev.res.(*T)), ev.val(0))) },
		loopCands: func(lc *loopCtx) []cand {
			x := lc.ex
			sv := x.en.args[0].(SliceV)
			return downCands(lc, func(*State) *T { return sv.len }, func(st *State, v *T) *T { return Eq(quoted(v), x.elemOf(st, "Node", SVal, sv, j)) }, j)
		},
		onReturn: func(r *Return) {
			sv := r.en.args[0].(SliceV)
			v := r.res.(*T)
			r.cover("made")
			r.assert("as many elements", And(collectedList(v), Eq(collectedLen(v), sv.len)))
			r.assert("the quoted values in order", Implies(Lt(j, sv.len), Eq(quoted(collectedNth(v)), r.ex.elemOf(r.st, "Node", SVal, sv, j))))
		}})

	mapping := func(name string, tails bool, kind, clause string) {
		lists := func(en *Entry) *T { return Sub(en.argv.len, one) }
		list := func(en *Entry, st *State, k *T) *T { return readArg(en, st, Add(k, one)) }
		elem := func(x *Exec, st *State, cur *T) *T {
			if tails {
				return cur
			}
			return x.carN(st, cur)
		}
		covers := []string{"a call", "no function", "failing call", "finished"}
		cs = append(cs, &Contract{name: "lisp:" + name, entry: "lisp:" + name, props: []string{"P15"}, autos: bothKinds, codeImmutable: true, clause: clause, covers: covers,
			eventFuncs: map[string]string{"listToQuotedList": "quote", "(*ListBuilder).Add": "add", "(*ListBuilder).Sequence": "seq", "funAppend": "append"},
			pureEvents: map[string]bool{"quote": true, "add": true, "seq": true, "append": true},
			recs:       []recSpec{properRec()},
			setup: func(en *Entry) {
				x, st := en.ex, en.st
				g := st.ghosts
				st.assume(And(Le(IntT(0), j), Le(IntT(0), q), Le(IntT(0), short), properRec().base(x, st)))
				x.withElems(st, "Node", SVal, en.argv, func(cur *State, k, v *T) *T {
					return Implies(Le(one, k), And(isList(x, v), properL(v), Implies(x.isCons(v), Le(one, llenL(v))), Le(short, llenL(v)), Lt(llenL(v), IntT(1<<40))))
				})
				g["n"], g["r"], g["fn"], g["isfn"] = IntT(0), IntT(0), VNil, False
				g["cur"] = list(en, st, j)
				g["ql"], g["quoted"] = VNil, False
				g["failed"], g["err"] = False, VNil
				g["pend"], g["pv"], g["qv"] = False, VNil, VNil
				g["lb"], g["built"], g["bv"], g["be"] = IntT(0), False, VNil, VNil
				g["signalled"] = False
				readArg(en, st, IntT(0))
			},
			onEvent: func(ev *Event) {
				x, st, en := ev.ex, ev.st, ev.en
				cur, r := ev.get("cur", SVal), ev.get("r", SInt)
				failed := ev.get("failed", SBool)
				lb := ev.get("lb", SInt)
				switch ev.kind {
				case "eval":
					ev.assert("the function is asked for once, before any call", And(Eq(ev.get("n", SInt), IntT(0)), Eq(ev.val(0), en.w), Eq(ev.val(1), en.ctx), Eq(ev.val(2), readArg(en, st, IntT(0)))))
				case "handler":
					ev.assert("a condition only for what is no function", And(Eq(ev.get("n", SInt), one), Not(failed), Not(ev.get("isfn", SBool)), Eq(r, IntT(0))))
				case "quote":
					sv := ev.args[0].(SliceV)
					ev.assert("one argument for each list", And(Eq(sv.len, lists(en)), Not(failed), Not(ev.get("quoted", SBool))))
					if x.feasible(st, Lt(j, sv.len)) {
						ev.assert("no list is exhausted", Implies(Lt(j, sv.len), x.isCons(cur)))
						ev.assert("the next part of each list", Implies(Lt(j, sv.len), x.same(x.elemOf(st, "Node", SVal, sv, j), elem(x, st, cur))))
					}
				case "call":
					ev.assert("the function is called", And(ev.get("isfn", SBool), Eq(ev.val(0), ev.get("fn", SVal))))
					ev.assert("in the context and environment of the form", And(Eq(ev.val(1), en.ctx), Eq(ev.val(2), en.w)))
					ev.assert("with the next parts of the lists", And(ev.get("quoted", SBool), Eq(ev.val(3), ev.get("ql", SVal))))
					ev.assert("no call after a failure", Not(failed))
					ev.assert("no list is exhausted", Implies(Lt(j, lists(en)), Lt(r, llenL(list(en, st, j)))))
					ev.assert("the result of the call before was taken", Not(ev.get("pend", SBool)))
					x.Covers["a call"] = true
				case "add":
					ev.assert("one list is built of the results", And(boolT(kind == "collect"), Not(ev.get("built", SBool)), Or(Eq(lb, IntT(0)), Eq(lb, ptrID(ev.args[0])))))
					ev.assert("the result of the last call, once", And(ev.get("pend", SBool), Eq(ev.val(3), ev.get("pv", SVal))))
					ev.set("lb", ptrID(ev.args[0]))
					ev.set("pend", False)
				case "seq":
					ev.assert("the list of the results", And(boolT(kind == "collect"), Not(ev.get("pend", SBool)), Or(Eq(lb, IntT(0)), Eq(lb, ptrID(ev.args[0])))))
				case "append":
					sv := ev.args[2].(SliceV)
					ev.assert("all results are appended, once", And(boolT(kind == "append"), Not(failed), Not(ev.get("built", SBool)), Eq(sv.len, r), Le(short, r)))
					ev.assert("each in its place", Implies(Lt(q, r), Eq(x.elemOf(st, "Node", SVal, sv, q), ev.get("qv", SVal))))
				default:
					ev.assert("nothing else is called", False)
				}
			},
			after: func(ev *Event) {
				x, st := ev.ex, ev.st
				switch ev.kind {
				case "handler":
					ev.dead = true
				case "eval":
					ok := Eq(ev.re, VNil)
					f := x.unwrapped(ev.rv)
					isFn := And(ok, x.isType(f, x.mustType("FunctionRef")))
					ev.set("n", one)
					ev.set("isfn", isFn)
					ev.set("fn", x.boxedField(st, f, "FunctionRef", 0))
					st.assume(Implies(isFn, Not(Eq(ev.get("fn", SVal), VNil))))
					ev.set("failed", Not(ok))
					ev.set("err", ev.re)
				case "quote":
					ev.set("ql", ev.res.(*T))
					ev.set("quoted", True)
				case "call":
					ok := Eq(ev.re, VNil)
					r := ev.get("r", SInt)
					ev.set("failed", Not(ok))
					ev.set("err", ev.re)
					ev.set("pv", ev.rv)
					ev.set("qv", Ite(Eq(r, q), ev.rv, ev.get("qv", SVal)))
					ev.set("pend", And(ok, boolT(kind == "collect")))
					ev.set("quoted", False)
					ev.set("r", Add(r, one))
					ev.set("cur", x.cdrN(st, ev.get("cur", SVal)))
				case "add":
					st.assume(Eq(ev.res.(*T), VNil))
				case "seq":
					ev.set("built", True)
					ev.set("bv", ev.res.(*T))
				case "append":
					ev.set("built", True)
					ev.set("bv", ev.rv)
					ev.set("be", ev.re)
				}
			},
			loopCands: func(lc *loopCtx) []cand {
				x, en := lc.ex, lc.ex.en
				g := func(st *State, n string, s Sort) *T { return x.ghost(st, n, s) }
				var r []cand
				ints := []string{}
				for _, i := range lc.entry.names {
					if lc.entry.val[i].sort == SInt && !strings.HasPrefix(i, "ghost:") {
						ints = append(ints, i)
					}
				}
				for si, sv := range typedSlices(lc, "Node") {
					sv := sv
					name := strconv.Itoa(si)
					// rest says how far the k-th element of the slice is: how many of its list's elements are used besides the r calls
					rest := func(what string, used func(sl *slots, k *T) *T) {
						r = append(r, cand{name: "rest of each list " + what + name, all: &allCand{key: "elem:Node", sort: SVal, f: func(cur, st *State, sl *slots, ks []*T, v, _ *T) *T {
							k := Sub(ks[1], sv.off)
							return Implies(And(Eq(ks[0], sv.arr), Le(IntT(0), k), Lt(k, lists(en))),
								And(isList(x, v), properL(v), Implies(x.isCons(v), Le(one, llenL(v))), Le(short, llenL(list(en, en.st, k))), Eq(Add(llenL(v), Add(g(st, "r", SInt), used(sl, k))), llenL(list(en, en.st, k)))))
						}}})
					}
					pairs := func(what string, which func(sl *slots, k *T) *T) {
						r = append(r, cand{name: "each list " + what + name, all: &allCand{key: "elem:Node", sort: SVal, f: func(cur, st *State, sl *slots, ks []*T, v, _ *T) *T {
							k := Sub(ks[1], sv.off)
							return Implies(And(Eq(ks[0], sv.arr), Le(IntT(0), k), Lt(k, lists(en)), which(sl, k)), x.isCons(v))
						}}})
					}
					at := func(what string, f func(st *State, sl *slots, v *T) *T) {
						r = append(r, cand{name: what + name, f: func(st *State, sl *slots) *T {
							return Implies(Lt(j, lists(en)), f(st, sl, x.elemOf(st, "Node", SVal, sv, j)))
						}})
					}
					rest("", func(*slots, *T) *T { return IntT(0) })
					at("rest of the j-th list ", func(st *State, sl *slots, v *T) *T { return x.same(v, g(st, "cur", SVal)) })
					for _, i := range ints {
						for _, d := range []int64{0, 1} {
							i := i
							d := d
							w := i + IntT(d).String() + " "
							done := func(sl *slots, k *T) *T { return Lt(k, Add(sl.val[i], IntT(d))) }
							rest("up to "+w, func(sl *slots, k *T) *T { return Ite(done(sl, k), one, IntT(0)) })
							rest("from "+w, func(sl *slots, k *T) *T { return Ite(done(sl, k), IntT(0), IntT(-1)) })
							pairs("is a pair up to "+w, done)
							pairs("is a pair from "+w, func(sl *slots, k *T) *T { return Not(done(sl, k)) })
							at("taken up to "+w, func(st *State, sl *slots, v *T) *T {
								c := g(st, "cur", SVal)
								return Ite(done(sl, j), And(x.isCons(c), x.same(v, x.cdrN(st, c))), x.same(v, c))
							})
							at("pairs up to "+w, func(st *State, sl *slots, v *T) *T { return Implies(done(sl, j), x.isCons(g(st, "cur", SVal))) })
							at("to be taken from "+w, func(st *State, sl *slots, v *T) *T {
								c := g(st, "cur", SVal)
								return Ite(done(sl, j), x.same(v, c), And(x.isCons(v), x.same(x.cdrN(st, v), c)))
							})
							at("argument up to "+w, func(st *State, sl *slots, v *T) *T {
								return Implies(done(sl, j), x.same(v, x.carN(st, g(st, "cur", SVal))))
							})
						}
					}
				}
				for _, n := range lc.entry.snames {
					n := n
					if e := lc.entry.selem[n]; e == nil && !strings.HasPrefix(n, "box") || e != nil && typeKey(e) != "Node" {
						continue
					}
					for si, sv := range typedSlices(lc, "Node") {
						sv := sv
						if strings.HasPrefix(n, "box") {
							r = append(r, cand{name: "own array " + n + " " + strconv.Itoa(si), f: func(_ *State, sl *slots) *T { return Not(Eq(sl.slice[n].arr, sv.arr)) }})
						}
					}
					r = append(r, cand{name: "own array " + n, f: func(_ *State, sl *slots) *T { return Not(Eq(sl.slice[n].arr, en.argv.arr)) }})
					r = append(r, cand{name: "results so far " + n, f: func(st *State, sl *slots) *T { return Eq(sl.slice[n].len, g(st, "r", SInt)) }},
						cand{name: "each result " + n, f: func(st *State, sl *slots) *T {
							return Implies(Lt(q, g(st, "r", SInt)), Eq(x.elemOf(st, "Node", SVal, sl.slice[n], q), g(st, "qv", SVal)))
						}})
				}
				for _, b := range builders(lc) {
					b := b
					r = append(r, cand{name: "builder " + b.String(), f: func(st *State, _ *slots) *T { return Or(Eq(g(st, "lb", SInt), IntT(0)), Eq(g(st, "lb", SInt), b)) }})
				}
				for _, b := range sortedInts(lc.E.boxes) {
					b := IntT(int64(1000 + b))
					r = append(r, cand{name: "builder box " + b.String(), f: func(st *State, _ *slots) *T { return Or(Eq(g(st, "lb", SInt), IntT(0)), Eq(g(st, "lb", SInt), b)) }})
				}
				r = append(r, cand{name: "calls", f: func(st *State, _ *slots) *T { return Le(IntT(0), g(st, "r", SInt)) }},
					cand{name: "length of the j-th list", f: func(st *State, _ *slots) *T {
						return Implies(Lt(j, lists(en)), Eq(Add(llenL(g(st, "cur", SVal)), g(st, "r", SInt)), llenL(list(en, en.st, j))))
					}},
					cand{name: "j-th list", f: func(st *State, _ *slots) *T {
						return Implies(Lt(j, lists(en)), And(properL(g(st, "cur", SVal)), isList(x, g(st, "cur", SVal)), Implies(x.isCons(g(st, "cur", SVal)), Le(one, llenL(g(st, "cur", SVal))))))
					}})
				return append(r, cand{name: "going on", f: func(st *State, _ *slots) *T {
					return And(Eq(g(st, "n", SInt), one), g(st, "isfn", SBool), Not(g(st, "failed", SBool)), Not(g(st, "pend", SBool)), Not(g(st, "built", SBool)))
				}}, cand{name: "before the call", f: func(st *State, _ *slots) *T { return Not(g(st, "quoted", SBool)) }})
			},
			onReturn: func(r *Return) {
				x, en := r.ex, r.en
				failed, isFn := r.get("failed", SBool), r.get("isfn", SBool)
				r.when(failed, func(r *Return) {
					r.cover("failing call")
					r.assert("the failure is the outcome", Eq(r.re, r.get("err", SVal)))
				})
				r.when(And(Eq(r.get("n", SInt), one), Not(failed), Not(isFn)), func(r *Return) {
					r.cover("no function")
					r.assert("an error", Not(Eq(r.re, VNil)))
				})
				r.when(Eq(lists(en), IntT(0)), func(r *Return) { r.assert("an error without lists", Not(Eq(r.re, VNil))) })
				r.when(And(isFn, Not(failed), Lt(IntT(0), lists(en))), func(r *Return) {
					r.cover("finished")
					r.assert("the shortest list is exhausted", Le(short, r.get("r", SInt)))
					switch kind {
					case "collect":
						r.assert("the list of the results", And(Eq(r.re, VNil), r.get("built", SBool), Eq(r.rv, r.get("bv", SVal)), Not(r.get("pend", SBool))))
					case "append":
						r.assert("the results, appended", And(r.get("built", SBool), Eq(r.rv, r.get("bv", SVal)), Eq(r.re, r.get("be", SVal))))
					default:
						r.assert("the first list", And(Eq(r.re, VNil), Eq(r.rv, readArg(en, en.st, one))))
					}
				})
				_ = x
			}})
	}
	say := func(what, result string) string {
		return "the function is called once per position, in order, with the " + what + " of every list, until the shortest list is exhausted; a failing call ends the mapping with its failure; " + result
	}
	el, tl := "next element", "next non-empty tail"
	mapping("mapcar", false, "collect", say(el, "the list of the results in order"))
	mapping("mapc", false, "", say(el, "the first list"))
	mapping("mapcan", false, "append", say(el, "the results appended in order"))
	mapping("maplist", true, "collect", say(tl, "the list of the results in order"))
	mapping("mapl", true, "", say(tl, "the first list"))
	mapping("mapcon", true, "append", say(tl, "the results appended in order"))
	return cs
}

func init() { contractSets = append(contractSets, mapContracts) }
