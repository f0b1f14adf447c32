package main

import "fmt"

// arrays and the functions eq, eql, equal and equalp themselves (P18).

var eqModes = []string{"STRICT", "EQUAL", "EQUALP"}

func eqArrayContracts() []*Contract {
	var cs []*Contract
	// arrays: equal when all dimensions and all elements are
	for _, dir := range []string{"equal parts", "equal arrays"} {
		dir := dir
		j := Const("some.index", SInt)
		parts := func(x *Exec, st *State, en *Entry) (a, b *T, ad, bd, al, bl SliceV) {
			a, b = en.args[0].(*T), Sel("vp", en.args[1].(*T))
			f := func(k string, r *T) SliceV { return x.sliceField(st, "Array."+k, r) }
			return a, b, f("dim", a), f("dim", b), f("list", a), f("list", b)
		}
		dimAt := func(x *Exec, st *State, d SliceV, k *T) *T { return x.elemOf(st, "int", SInt, d, k) }
		elAt := func(x *Exec, st *State, d SliceV, k *T) *T { return x.elemOf(st, "Node", SVal, d, k) }
		sameAt := func(x *Exec, st *State, en *Entry, k *T) (*T, *T) {
			_, _, ad, bd, al, bl := parts(x, st, en)
			return Eq(dimAt(x, st, ad, k), dimAt(x, st, bd, k)), nodeEq(st, elAt(x, st, al, k), elAt(x, st, bl, k), en.args[2].(*T))
		}
		c := &Contract{name: "go:(*Array).Equals " + dir, entry: "go:(*Array).Equals", props: []string{"P18"}, autos: bothKinds, abstractEquals: true,
			setup: func(en *Entry) {
				x, st := en.ex, en.st
				m := en.args[2].(*T)
				st.assume(Or(Eq(m, x.intConst("STRICT")), Eq(m, x.intConst("EQUAL")), Eq(m, x.intConst("EQUALP"))))
				a, _, ad, bd, al, bl := parts(x, st, en)
				st.assume(Not(Eq(a, IntT(0))))
				st.assume(Implies(x.isType(en.args[1].(*T), x.mustType("*Array")), Not(Eq(Sel("vp", en.args[1].(*T)), IntT(0)))))
				for _, s := range []SliceV{ad, bd, al, bl} {
					st.assume(And(Le(IntT(0), s.arr), Lt(s.arr, st.alloc()), Le(IntT(0), s.off), Le(IntT(0), s.len), Le(s.len, s.cap), Lt(s.off, IntT(1<<40)), Lt(s.cap, IntT(1<<40))))
				}
				x.Assump["array elements are values (never the Go nil)"] = true
				x.withElems(st, "Node", SVal, al, func(cur *State, k, v *T) *T { return Not(Eq(v, VNil)) })
				if dir == "equal parts" {
					st.assume(And(x.isType(en.args[1].(*T), x.mustType("*Array")), Eq(ad.len, bd.len), Eq(al.len, bl.len)))
					dims, els := st.heap("elem:int", SInt), st.heap("elem:Node", SVal)
					x.withElems(st, "int", SInt, ad, func(cur *State, k, v *T) *T {
						return Eq(v, cur.readH(dims, []*T{bd.arr, Add(bd.off, k)}))
					})
					x.withElems(st, "Node", SVal, al, func(cur *State, k, v *T) *T {
						return And(nodeEq(st, v, cur.readH(els, []*T{bl.arr, Add(bl.off, k)}), m), Not(Eq(v, VNil)))
					})
				}
			},
			onReturn: func(r *Return) {
				x, en, st := r.ex, r.en, r.st
				a, b, ad, bd, al, bl := parts(x, st, en)
				res := r.res.(*T)
				strict := Eq(en.args[2].(*T), x.intConst("STRICT"))
				is := x.isType(en.args[1].(*T), x.mustType("*Array"))
				if dir == "equal parts" {
					r.when(strict, func(r *Return) { r.cover("identity"); r.assert("the same array", Eq(res, Eq(a, b))) })
					r.when(Not(strict), func(r *Return) { r.cover("parts"); r.assert("equal", res) })
					return
				}
				r.when(res, func(r *Return) {
					r.cover("equal")
					r.assert("only arrays", is)
					r.when(strict, func(r *Return) { r.assert("the same array", Eq(a, b)) })
					r.when(Not(strict), func(r *Return) {
						d, e := sameAt(x, st, en, j)
						r.assert("as many dimensions and elements", And(Eq(ad.len, bd.len), Eq(al.len, bl.len)))
						r.assert("each dimension", Implies(And(Le(IntT(0), j), Lt(j, ad.len)), d))
						r.assert("each element", Implies(And(Le(IntT(0), j), Lt(j, al.len)), e))
					})
				})
				r.when(Not(res), func(r *Return) { r.cover("not equal") })
			},
			loopCands: func(lc *loopCtx) []cand {
				var cs []cand
				x := lc.ex
				for _, v := range lc.entry.names {
					v := v
					if lc.entry.val[v].sort != SInt {
						continue
					}
					for _, off := range []int64{0, 1} {
						off := off
						cs = append(cs, cand{name: fmt.Sprintf("dimensions before %s+%d", v, off), f: func(st *State, s *slots) *T {
							d, _ := sameAt(x, st, x.en, j)
							return Implies(And(Le(IntT(0), j), Lt(j, Add(s.val[v], IntT(off)))), d)
						}}, cand{name: fmt.Sprintf("elements before %s+%d", v, off), f: func(st *State, s *slots) *T {
							_, e := sameAt(x, st, x.en, j)
							return Implies(And(Le(IntT(0), j), Lt(j, Add(s.val[v], IntT(off)))), e)
						}})
					}
				}
				return append(cs, prevCands(lc)...)
			},
		}
		if dir == "equal parts" {
			c.clause, c.covers = "arrays of equal dimensions and elements are equal; under eq and eql exactly the same array is", []string{"identity", "parts"}
		} else {
			c.clause, c.covers = "only arrays of equal dimensions and elements are equal", []string{"equal", "not equal"}
		}
		cs = append(cs, c)
	}
	// the functions, with two arguments
	rel := func(f string, x *Exec, st *State) *T {
		a, b := readArg(x.en, st, IntT(0)), readArg(x.en, st, IntT(1))
		switch f {
		case "eq":
			flt := x.mustType("Float")
			return Ite(And(x.isType(a, flt), x.isType(b, flt)), Feq(Sel("vf", a), Sel("vf", b)), Eq(a, b))
		case "eql":
			return nodeEq(st, a, b, x.intConst("STRICT"))
		case "equal":
			return Ite(x.none(a), x.none(b), nodeEq(st, a, b, x.intConst("EQUAL")))
		}
		return nodeEq(st, a, b, x.intConst("EQUALP"))
	}
	for f, clause := range map[string]string{"eq": "the same object", "eql": "the strict relation of the first argument's type", "equal": "the structural relation", "equalp": "the relation that ignores case and number format"} {
		f := f
		cs = append(cs, &Contract{name: "lisp:" + f, entry: "lisp:" + f, props: []string{"P18"}, autos: bothKinds, abstractEquals: true, clause: clause,
			covers: []string{"equal", "not equal"},
			setup: func(en *Entry) {
				x, st := en.ex, en.st
				st.assume(Eq(en.argv.len, IntT(2)))
				a, b := readArg(en, st, IntT(0)), readArg(en, st, IntT(1))
				st.assume(And(Not(Eq(a, VNil)), Not(Eq(b, VNil))))
				if f == "eq" {
					st.assume(And(eqTyped(x, a), eqTyped(x, b)))
				}
			},
			onEvent: func(ev *Event) { ev.assert("no evaluation, call or signal", False) },
			onReturn: func(r *Return) {
				x, st := r.ex, r.st
				is := rel(f, x, st)
				r.assert("no error", Eq(r.re, VNil))
				r.assert("t or nil", Or(Eq(r.rv, x.trueVal()), x.none(r.rv)))
				r.assert("exactly when the relation holds", Eq(x.some(r.rv), is))
				r.when(is, func(r *Return) { r.cover("equal") })
				r.when(Not(is), func(r *Return) { r.cover("not equal") })
			},
			loopCands: func(lc *loopCtx) []cand {
				// once the second argument has been looked at
				var cs []cand
				x := lc.ex
				for _, v := range lc.entry.names {
					v := v
					if lc.entry.val[v].sort != SInt {
						continue
					}
					for _, off := range []int64{-1, 0, 1, 2} {
						off := off
						cs = append(cs, cand{name: fmt.Sprintf("related when %s%+d", v, off), f: func(st *State, s *slots) *T {
							return Implies(Lt(IntT(1), Add(s.val[v], IntT(off))), rel(f, x, st))
						}})
					}
				}
				return append(cs, prevCands(lc)...)
			},
		})
	}
	return cs
}

// eqTyped: the value is of one of the kinds the property speaks of.
func eqTyped(x *Exec, v *T) *T {
	var r []*T
	for _, k := range eqKinds {
		r = append(r, x.isType(v, x.mustType(k)))
	}
	return Or(r...)
}

func init() { contractSets = append(contractSets, eqArrayContracts) }
