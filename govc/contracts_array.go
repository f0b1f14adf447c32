package main

import (
	"go/types"
	"strconv"
)

// P16: array access touches exactly the addressed element, in bounds.

func arrayContracts() []*Contract {
	var cs []*Contract
	prod := func(k *T) *T { return UF("prodFrom", SInt, k) } // product of the dimensions from the k-th on
	base := func(k *T) *T { return UF("rowMajor", SInt, k) } // row-major position of the first k subscripts
	max := IntT(1 << 40)
	j := Const("nth.subscript", SInt)
	all := Const("all.in.range", SBool)
	arrayOf := func(x *Exec, st *State, v *T) (is *T, D, L SliceV) {
		u := x.unwrapped(v)
		ref := Sel("vp", u)
		return x.isType(u, x.mustType("*Array")), x.sliceField(st, "Array.dim", ref), x.sliceField(st, "Array.list", ref)
	}
	dimAt := func(x *Exec, st *State, D SliceV, k *T) *T { return x.elemOf(st, "int", SInt, D, k) }
	access := func(name string, first int, clause string, covers []string, partOK func(en *Entry, st *State) *T, onRet func(r *Return, n *T, D, L SliceV)) {
		a := int64(first)
		arr := func(en *Entry, st *State) *T { return readArg(en, st, IntT(a-1)) }
		sub := func(en *Entry, st *State, k *T) (isInt, v *T) {
			s := en.ex.unwrapped(readArg(en, st, Add(IntT(a), k)))
			return en.ex.isInt(s), Sel("vi", s)
		}
		cs = append(cs, &Contract{name: "lisp:" + name, entry: "lisp:" + name, props: []string{"P16"}, autos: bothKinds, clause: clause, covers: covers,
			eventFuncs: map[string]string{"dim2size": "size"}, pureEvents: map[string]bool{"size": true},
			setup: func(en *Entry) {
				x, st := en.ex, en.st
				is, D, L := arrayOf(x, st, arr(en, st))
				n := Sub(en.argv.len, IntT(a))
				g := st.ghosts
				// an array is well made: as many elements as the product of its dimensions
				st.assume(Implies(is, And(Le(IntT(0), D.len), Lt(D.len, max), Eq(L.len, prod(IntT(0))), Le(IntT(0), L.len), Lt(L.len, max), Eq(prod(D.len), IntT(1)))))
				st.assume(Implies(is, And(Le(IntT(0), L.off), Lt(L.off, max), Le(IntT(0), D.off), Lt(D.off, max), Le(L.len, L.cap), Le(D.len, D.cap), Not(Eq(D.arr, en.argv.arr)), Not(Eq(L.arr, en.argv.arr)),
					Lt(L.arr, st.alloc()), Lt(D.arr, st.alloc()), Lt(en.argv.arr, st.alloc()))))
				x.withElems(st, "int", SInt, D, func(cur *State, k, d *T) *T {
					return Implies(is, And(Le(IntT(0), d), Lt(d, max), Eq(prod(k), Mul(d, prod(Add(k, IntT(1))))), Le(IntT(0), prod(Add(k, IntT(1)))), Lt(prod(Add(k, IntT(1))), max)))
				})
				st.assume(And(Eq(base(IntT(0)), IntT(0)), Le(IntT(0), j)))
				x.withElems(st, "Node", SVal, en.argv, func(cur *State, i, v *T) *T {
					k := Sub(i, IntT(a))
					u := x.unwrapped(v)
					s := Sel("vi", u)
					return Implies(And(Le(IntT(0), k), Lt(k, n)), And(Eq(base(Add(k, IntT(1))), Add(base(k), Mul(s, prod(Add(k, IntT(1)))))),
						Implies(x.isInt(u), int64Range(s)),
						Implies(all, And(x.isInt(u), Le(IntT(0), s), Implies(Lt(k, D.len), Lt(s, dimAt(x, cur, D, k)))))))
				})
				if first == 2 {
					is, _, L := arrayOf(x, st, readArg(en, st, IntT(0)))
					st.assume(Implies(is, And(Le(IntT(0), L.len), Le(L.len, L.cap), Lt(L.len, max), Le(IntT(0), L.off), Lt(L.off, max), Lt(L.arr, st.alloc()), Lt(Sel("vp", x.unwrapped(readArg(en, st, IntT(0)))), st.alloc()))))
				}
				// an arbitrary element of an arbitrary array
				g["e"], g["ei"] = Const("some.array", SInt), Const("some.index", SInt)
				st.assume(Lt(g["e"], st.alloc()))
				g["e0"] = st.readH(st.heap("elem:Node", SVal), []*T{g["e"], g["ei"]})
				readArg(en, st, j)
			},
			onEvent: func(ev *Event) {
				x, st, en := ev.ex, ev.st, ev.en
				is, D, _ := arrayOf(x, st, arr(en, st))
				switch ev.kind {
				case "size":
					sv := ev.args[0].(SliceV)
					ev.assert("the size of a part of the array", And(is, Eq(sv.arr, D.arr), Le(D.off, sv.off), Eq(Add(sv.off, sv.len), Add(D.off, D.len))))
				case "handler":
					ev.assert("a condition only for arguments that are wrong", Not(And(is, all, Le(Sub(en.argv.len, IntT(a)), D.len), Or(Eq(Sub(en.argv.len, IntT(a)), D.len), partOK(en, st)))))
					ev.assert("nothing has been stored", Eq(st.readH(st.heap("elem:Node", SVal), []*T{ev.get("e", SInt), ev.get("ei", SInt)}), ev.get("e0", SVal)))
				default:
					ev.assert("nothing else is called", False)
				}
			},
			after: func(ev *Event) {
				x, st, en := ev.ex, ev.st, ev.en
				if ev.kind == "handler" {
					ev.dead = true // what a handler substitutes is not looked at
					return
				}
				_, D, L := arrayOf(x, st, arr(en, st))
				sv := ev.args[0].(SliceV)
				s := ev.res.(*T)
				k := Sub(sv.off, D.off)
				ev.assume(Eq(s, prod(k)))
				ev.assume(And(Le(IntT(0), s), Lt(s, max)))
				// lemmas of arithmetic about the subscript that is being used
				k0 := Sub(k, IntT(1))
				_, v := sub(en, st, k0)
				d := dimAt(x, st, D, k0)
				m := Mul(v, s)
				ev.assume(Implies(And(Le(IntT(0), v), Lt(v, d), Le(IntT(0), s)), And(Le(IntT(0), m), Le(Add(m, s), Mul(d, s)))))
				ev.assume(And(Eq(Mul(Add(v, IntT(1)), s), Add(m, s)), Eq(Mul(v, prod(k)), m), Eq(Mul(d, prod(k)), Mul(d, s))))
				_ = L
			},
			loopCands: func(lc *loopCtx) []cand {
				x, en := lc.ex, lc.ex.en
				var r []cand
				for _, i := range lc.entry.names {
					i := i
					if lc.entry.val[i].sort != SInt {
						continue
					}
					for _, d := range []int64{0, 1} {
						d := d
						r = append(r, cand{name: "in range before " + i + IntT(d).String(), f: func(st *State, sl *slots) *T {
							_, D, _ := arrayOf(x, st, arr(en, st))
							is, v := sub(en, st, j)
							return Implies(Lt(j, Add(sl.val[i], IntT(d))), And(is, Le(IntT(0), v), Lt(v, dimAt(x, st, D, j))))
						}})
						for _, p := range lc.entry.names {
							p := p
							if lc.entry.val[p].sort != SInt || p == i {
								continue
							}
							r = append(r, cand{name: "view " + p + i + IntT(d).String(), f: func(st *State, sl *slots) *T {
								_, D, L := arrayOf(x, st, arr(en, st))
								k := Add(sl.val[i], IntT(d))
								dim, list := x.sliceField(st, "Array.dim", sl.val[p]), x.sliceField(st, "Array.list", sl.val[p])
								return And(Le(IntT(0), k), Le(k, D.len), Eq(dim.arr, D.arr), Eq(dim.off, Add(D.off, k)), Eq(dim.len, Sub(D.len, k)), Le(dim.len, dim.cap),
									Eq(list.arr, L.arr), Eq(list.off, Add(L.off, base(k))), Eq(list.len, prod(k)), Le(IntT(0), base(k)), Le(Add(base(k), prod(k)), L.len), Le(list.len, list.cap))
							}})
						}
					}
				}
				return append(r, cand{name: "nothing stored", f: func(st *State, _ *slots) *T {
					return Eq(st.readH(st.heap("elem:Node", SVal), []*T{x.ghost(st, "e", SInt), x.ghost(st, "ei", SInt)}), x.ghost(st, "e0", SVal))
				}})
			},
			onReturn: func(r *Return) {
				x, en := r.ex, r.en
				is, D, L := arrayOf(x, r.st, arr(en, r.st))
				n := Sub(en.argv.len, IntT(a))
				same := Eq(r.st.readH(r.st.heap("elem:Node", SVal), []*T{r.get("e", SInt), r.get("ei", SInt)}), r.get("e0", SVal))
				r.when(Not(is), func(r *Return) { r.assert("what is no array is an error", And(Not(Eq(r.re, VNil)), same)) })
				r.when(is, func(r *Return) {
					r.when(Not(Eq(r.re, VNil)), func(r *Return) {
						r.cover("error")
						r.assert("subscripts in range are no error", Not(And(all, Le(n, D.len), Or(Eq(n, D.len), partOK(en, r.st)))))
						r.assert("nothing is stored", same)
					})
					r.when(Eq(r.re, VNil), func(r *Return) {
						r.assert("as many subscripts as dimensions at most", Le(n, D.len))
						r.when(Lt(j, n), func(r *Return) {
							i, v := sub(en, r.st, j)
							r.assert("every subscript is in range", And(i, Le(IntT(0), v), Lt(v, dimAt(x, r.st, D, j))))
						})
						r.assert("the position is inside the array", And(Le(IntT(0), base(n)), Le(Add(base(n), prod(n)), L.len)))
						onRet(r, n, D, L)
					})
				})
			}})
	}
	access("aref", 1, "returns the element at the row-major position of the subscripts (with fewer subscripts than dimensions, the part of the array they address, sharing its elements); "+
		"a subscript that is no integer of its dimension, or too many, are an error; nothing changes",
		[]string{"element", "part", "error"}, func(*Entry, *State) *T { return True }, func(r *Return, n *T, D, L SliceV) {
			x := r.ex
			r.assert("nothing changes", Eq(r.st.readH(r.st.heap("elem:Node", SVal), []*T{r.get("e", SInt), r.get("ei", SInt)}), r.get("e0", SVal)))
			r.when(Eq(n, D.len), func(r *Return) {
				r.cover("element")
				r.assert("the addressed element", Eq(r.rv, x.elemOf(r.st, "Node", SVal, L, base(n))))
			})
			r.when(Lt(n, D.len), func(r *Return) {
				r.cover("part")
				ref := Sel("vp", r.rv)
				dim, list := x.sliceField(r.st, "Array.dim", ref), x.sliceField(r.st, "Array.list", ref)
				r.assert("an array", x.isType(r.rv, x.mustType("*Array")))
				r.assert("of the remaining dimensions", And(Eq(dim.arr, D.arr), Eq(dim.off, Add(D.off, n)), Eq(dim.len, Sub(D.len, n))))
				r.assert("that shares the addressed elements", And(Eq(list.arr, L.arr), Eq(list.off, Add(L.off, base(n))), Eq(list.len, prod(n))))
			})
		})
	access("set-aref", 2, "stores the new value at the row-major position of the subscripts and nowhere else, and returns it (with fewer subscripts than dimensions the elements of the array that is the new value are stored in the part they address); "+
		"a subscript that is no integer of its dimension, or too many, are an error and store nothing",
		[]string{"element", "part", "error"}, func(en *Entry, st *State) *T {
			is, _, _ := arrayOf(en.ex, st, readArg(en, st, IntT(0)))
			return is
		}, func(r *Return, n *T, D, L SliceV) {
			x := r.ex
			st0 := r.en.st
			e, ei := r.get("e", SInt), r.get("ei", SInt)
			now := r.st.readH(r.st.heap("elem:Node", SVal), []*T{e, ei})
			v := readArg(r.en, st0, IntT(0))
			first := Add(L.off, base(n))
			r.when(Eq(n, D.len), func(r *Return) {
				r.cover("element")
				r.assert("the new value is the result", Eq(r.rv, v))
				r.assert("the new value is stored", Eq(x.elemOf(r.st, "Node", SVal, L, base(n)), v))
				r.when(Not(And(Eq(e, L.arr), Eq(ei, first))), func(r *Return) {
					r.assert("no other element changes", Eq(now, r.get("e0", SVal)))
				})
			})
			r.when(Lt(n, D.len), func(r *Return) {
				r.cover("part")
				is, _, VL := arrayOf(x, st0, v)
				r.assert("the new value is an array and the result", And(is, Eq(r.rv, x.unwrapped(v))))
				at := Sub(ei, first)
				in := And(Eq(e, L.arr), Le(IntT(0), at), Lt(at, prod(n)), Lt(at, VL.len))
				r.when(Not(in), func(r *Return) {
					r.assert("no other element changes", Eq(now, r.get("e0", SVal)))
				})
				r.when(in, func(r *Return) {
					r.assert("the elements are copied", Eq(now, x.elemOf(st0, "Node", SVal, VL, at)))
				})
			})
		})
	// the product of a list of dimensions
	upTo := func(k *T) *T { return UF("prodTo", SInt, k) } // product of the dimensions before the k-th
	cs = append(cs, &Contract{name: "go:dim2size", entry: "go:dim2size", props: []string{"P16"}, autos: bothKinds, clause: "the product of the dimensions", covers: []string{"returned"},
		setup: func(en *Entry) {
			x, st := en.ex, en.st
			D := en.args[0].(SliceV)
			st.assume(And(Eq(upTo(IntT(0)), IntT(1)), Eq(prod(D.len), IntT(1)), Lt(D.len, max)))
			x.withElems(st, "int", SInt, D, func(cur *State, k, d *T) *T {
				k1 := Add(k, IntT(1))
				return And(Le(IntT(0), d), Lt(d, max), Eq(upTo(k1), Mul(upTo(k), d)), Le(IntT(0), upTo(k1)), Lt(upTo(k1), max), Eq(prod(k), Mul(d, prod(k1))),
					Eq(Mul(upTo(k1), prod(k1)), Mul(upTo(k), prod(k)))) // arithmetic: (u*d)*p = u*(d*p)
			})
		},
		onEvent: func(ev *Event) { ev.assert("nothing is called", False) },
		loopCands: func(lc *loopCtx) []cand {
			var r []cand
			for _, n := range lc.entry.names {
				for _, i := range lc.entry.names {
					n, i := n, i
					if n == i || lc.entry.val[n].sort != SInt || lc.entry.val[i].sort != SInt {
						continue
					}
					for _, d := range []int64{0, 1} {
						k := func(sl *slots) *T { return Add(sl.val[i], IntT(d)) }
						r = append(r, cand{name: "partial product " + n + i + IntT(d).String(), f: func(st *State, sl *slots) *T {
							return And(Eq(sl.val[n], upTo(k(sl))), Le(IntT(0), upTo(k(sl))), Lt(upTo(k(sl)), max), Eq(Mul(upTo(k(sl)), prod(k(sl))), prod(IntT(0))))
						}})
					}
				}
			}
			return r
		},
		onReturn: func(r *Return) {
			r.cover("returned")
			r.assert("the product of all dimensions", Eq(r.res.(*T), prod(IntT(0))))
		}})
	pos := func(v *T) *T { return UF("cellPos", SInt, v) }
	nth := func(k *T) *T { return UF("nthDim", SInt, k) }
	lim := IntT(1234567890)
	q := Const("some.element", SInt)
	cs = append(cs, &Contract{name: "lisp:create-array", entry: "lisp:create-array", props: []string{"P16"}, autos: bothKinds, covers: []string{"made", "error"},
		clause: "a new array with the dimensions of the list and as many elements as their product, each the initial element (nil when there is none); no existing array changes; " +
			"an error exactly when an element of the list is no positive integer or the product is above 1234567890",
		codeImmutable: true,
		recs: []recSpec{{name: "dimensions", at: func(x *Exec, st *State, v, car, cdr *T) *T {
			u := x.unwrapped(car)
			d, p := Sel("vi", u), pos(v)
			p1 := Add(p, IntT(1))
			return And(Eq(pos(cdr), p1), Le(IntT(0), p), Lt(p, max), Eq(nth(p), d), Eq(upTo(p1), Mul(upTo(p), d)), int64Range(d),
				Implies(all, And(x.isInt(u), Lt(IntT(0), d), Le(Mul(Add(d, IntT(1)), upTo(p)), lim), Or(x.isCons(cdr), x.none(cdr)))),
				// arithmetic: d < M/u for positive u exactly when (d+1)*u <= M; what follows for the next product
				Implies(Lt(IntT(0), upTo(p)), Eq(Lt(d, TDiv(lim, upTo(p))), Le(Mul(Add(d, IntT(1)), upTo(p)), lim))),
				Implies(Lt(IntT(0), upTo(p)), Eq(Le(TDiv(lim, upTo(p)), d), Not(Le(Mul(Add(d, IntT(1)), upTo(p)), lim)))),
				Eq(Mul(Add(d, IntT(1)), upTo(p)), Add(upTo(p1), upTo(p))), Implies(And(Lt(IntT(0), d), Lt(IntT(0), upTo(p))), Lt(IntT(0), upTo(p1))))
		}}},
		setup: func(en *Entry) {
			x, st := en.ex, en.st
			g := st.ghosts
			l := readArg(en, st, IntT(0))
			st.assume(And(Eq(upTo(IntT(0)), IntT(1)), Eq(pos(l), IntT(0)), Le(IntT(0), j), Le(IntT(0), q)))
			st.assume(Implies(all, Or(x.isCons(l), x.none(l))))
			g["alloc0"] = st.alloc()
			g["e"], g["ei"] = Const("some.array", SInt), Const("some.index", SInt)
			st.assume(Lt(g["e"], st.alloc()))
			g["e0"] = st.readH(st.heap("elem:Node", SVal), []*T{g["e"], g["ei"]})
		},
		onEvent: func(ev *Event) {
			if ev.kind == "handler" {
				ev.assert("a condition only for dimensions that are wrong", Not(all))
				return
			}
			ev.assert("nothing else is called", False)
		},
		after: func(ev *Event) { ev.dead = true },
		loopCands: func(lc *loopCtx) []cand {
			x, en := lc.ex, lc.ex.en
			var r []cand
			ini := func() *T { return Ite(Lt(IntT(1), en.argv.len), readArg(en, en.st, IntT(1)), x.nullVal()) }
			for _, l := range lc.entry.names {
				l := l
				switch {
				case lc.entry.val[l].sort == SVal:
					r = append(r, cand{name: "a list while all is right " + l, f: func(st *State, sl *slots) *T {
						return Implies(all, Or(x.isCons(sl.val[l]), x.none(sl.val[l])))
					}}, cand{name: "position " + l, f: func(st *State, sl *slots) *T { return Le(IntT(0), pos(sl.val[l])) }})
					for _, n := range lc.entry.names {
						n := n
						if lc.entry.val[n].sort == SInt {
							r = append(r, cand{name: "size so far " + n + l, f: func(st *State, sl *slots) *T {
								return And(Eq(sl.val[n], upTo(pos(sl.val[l]))), Lt(IntT(0), sl.val[n]), Le(sl.val[n], lim))
							}})
						}
					}
					for _, d := range lc.entry.snames {
						d := d
						r = append(r, cand{name: "dimensions so far " + d + l, f: func(st *State, sl *slots) *T { return Eq(sl.slice[d].len, pos(sl.val[l])) }},
							cand{name: "j-th dimension " + d + l, f: func(st *State, sl *slots) *T {
								return Implies(Lt(j, pos(sl.val[l])), Eq(dimAt(x, st, sl.slice[d], j), nth(j)))
							}})
					}
				case lc.entry.val[l].sort == SInt:
					for vi, sv := range typedSlices(lc, "Node") {
						for _, d := range []int64{0, 1} {
							d, sv := d, sv
							r = append(r, cand{name: "filled up to " + l + strconv.Itoa(vi) + IntT(d).String(), f: func(st *State, sl *slots) *T {
								return Implies(Lt(q, Add(sl.val[l], IntT(d))), Eq(x.elemOf(st, "Node", SVal, sv, q), ini()))
							}})
						}
					}
				}
			}
			return append(r, cand{name: "nothing else stored", f: func(st *State, _ *slots) *T {
				return Eq(st.readH(st.heap("elem:Node", SVal), []*T{x.ghost(st, "e", SInt), x.ghost(st, "ei", SInt)}), x.ghost(st, "e0", SVal))
			}})
		},
		onReturn: func(r *Return) {
			x, en := r.ex, r.en
			r.assert("existing arrays are unchanged", Eq(r.st.readH(r.st.heap("elem:Node", SVal), []*T{r.get("e", SInt), r.get("ei", SInt)}), r.get("e0", SVal)))
			r.when(Not(Eq(r.re, VNil)), func(r *Return) {
				r.cover("error")
				r.assert("only for dimensions that are wrong", Not(all))
			})
			r.when(Eq(r.re, VNil), func(r *Return) {
				r.cover("made")
				ref := Sel("vp", r.rv)
				D, L := x.sliceField(r.st, "Array.dim", ref), x.sliceField(r.st, "Array.list", ref)
				r.assert("a new array", And(x.isType(r.rv, x.mustType("*Array")), Le(r.get("alloc0", SInt), ref), Le(r.get("alloc0", SInt), L.arr), Lt(IntT(0), L.len)))
				r.assert("as many elements as the product of the dimensions", Eq(L.len, upTo(D.len)))
				r.assert("the dimensions of the list", And(Implies(Lt(j, D.len), Eq(dimAt(x, r.st, D, j), nth(j))), Eq(D.len, pos(x.nullVal()))))
				ini := Ite(Lt(IntT(1), en.argv.len), readArg(en, en.st, IntT(1)), x.nullVal())
				r.assert("every element is the initial element", Implies(Lt(q, L.len), Eq(x.elemOf(r.st, "Node", SVal, L, q), ini)))
			})
		}})
	cs = append(cs, &Contract{name: "lisp:vector", entry: "lisp:vector", props: []string{"P16"}, autos: bothKinds, covers: []string{"made"},
		clause: "a new one-dimensional array of the arguments in order; no existing array changes",
		setup: func(en *Entry) {
			st := en.st
			g := st.ghosts
			st.assume(Le(IntT(0), q))
			g["alloc0"] = st.alloc()
			g["e"], g["ei"] = Const("some.array", SInt), Const("some.index", SInt)
			st.assume(Lt(g["e"], st.alloc()))
			g["e0"] = st.readH(st.heap("elem:Node", SVal), []*T{g["e"], g["ei"]})
			readArg(en, st, q)
		},
		onEvent: func(ev *Event) { ev.assert("nothing is called", False) },
		onReturn: func(r *Return) {
			x, en := r.ex, r.en
			ref := Sel("vp", r.rv)
			D, L := x.sliceField(r.st, "Array.dim", ref), x.sliceField(r.st, "Array.list", ref)
			r.cover("made")
			r.assert("no error", Eq(r.re, VNil))
			r.assert("existing arrays are unchanged", Eq(r.st.readH(r.st.heap("elem:Node", SVal), []*T{r.get("e", SInt), r.get("ei", SInt)}), r.get("e0", SVal)))
			r.assert("a new array", And(x.isType(r.rv, x.mustType("*Array")), Le(r.get("alloc0", SInt), ref)))
			r.assert("of one dimension, the number of arguments", And(Eq(D.len, IntT(1)), Eq(dimAt(x, r.st, D, IntT(0)), en.argv.len), Eq(L.len, en.argv.len)))
			r.when(Lt(q, en.argv.len), func(r *Return) {
				r.assert("the arguments in order", Eq(x.elemOf(r.st, "Node", SVal, L, q), readArg(en, en.st, q)))
			})
		}})
	cs = append(cs, &Contract{name: "lisp:array-dimensions", entry: "lisp:array-dimensions", props: []string{"P16"}, autos: bothKinds, covers: []string{"array", "no array"},
		clause:     "the list of the dimensions in order; an argument that is no array is an error",
		freshCells: true,
		recs: []recSpec{collected(func(x *Exec, st *State) *T {
			_, D, _ := arrayOf(x, x.en.st, x.en.arg)
			return Sub(Sub(D.len, IntT(1)), j)
		})},
		setup: func(en *Entry) {
			is, D, _ := arrayOf(en.ex, en.st, en.arg)
			en.st.assume(And(Le(IntT(0), j), Implies(is, And(Le(IntT(0), D.len), Le(D.len, D.cap), Lt(D.len, max), Le(IntT(0), D.off), Lt(D.off, max)))))
		},
		onEvent: func(ev *Event) {
			is, _, _ := arrayOf(ev.ex, ev.st, ev.en.arg)
			ev.assert("a condition only for what is no array", And(Not(is), boolT(ev.kind == "handler" || ev.kind == "signal")))
		},
		after: func(ev *Event) { ev.dead = true },
		loopCands: func(lc *loopCtx) []cand {
			x := lc.ex
			var r []cand
			_, D, _ := arrayOf(x, x.en.st, x.en.arg)
			for _, n := range lc.entry.names {
				if lc.entry.val[n].sort != SVal {
					continue
				}
				n := n
				r = append(r, cand{name: "list " + n, f: func(st *State, sl *slots) *T { return collectedList(sl.val[n]) }})
				r = append(r, cand{name: "so far " + n, f: func(st *State, sl *slots) *T {
					return Implies(And(Lt(j, D.len), Le(Sub(D.len, j), collectedLen(sl.val[n]))), Eq(collectedNth(sl.val[n]), x.mkInt(dimAt(x, st, D, j))))
				}})
				for _, i := range lc.entry.names {
					i := i
					if lc.entry.val[i].sort == SInt {
						r = append(r, cand{name: "down to " + i, f: func(st *State, sl *slots) *T { return Le(IntT(-1), sl.val[i]) }}, cand{name: "down to 0 " + i, f: func(st *State, sl *slots) *T { return Le(IntT(0), sl.val[i]) }})
						r = append(r, cand{name: "count " + n + i, f: func(st *State, sl *slots) *T { return Eq(collectedLen(sl.val[n]), Sub(Sub(D.len, IntT(1)), sl.val[i])) }},
							cand{name: "count1 " + n + i, f: func(st *State, sl *slots) *T { return Eq(collectedLen(sl.val[n]), Sub(D.len, sl.val[i])) }})
					}
				}
			}
			return r
		},
		onReturn: func(r *Return) {
			x := r.ex
			is, D, _ := arrayOf(x, r.en.st, r.en.arg)
			r.when(Not(is), func(r *Return) {
				r.cover("no array")
				r.assert("an error", Not(Eq(r.re, VNil)))
			})
			r.when(is, func(r *Return) {
				r.cover("array")
				r.assert("a list of as many values as dimensions", And(Eq(r.re, VNil), collectedList(r.rv), Eq(collectedLen(r.rv), D.len)))
				r.assert("the dimensions in order", Implies(Lt(j, D.len), Eq(collectedNth(r.rv), x.mkInt(dimAt(x, r.st, D, j)))))
			})
		}})
	cs = append(cs, &Contract{name: "go:(*Array).Elt", entry: "go:(*Array).Elt", props: []string{"P16", "P25"}, autos: bothKinds, covers: []string{"element", "part", "error"},
		clause:     "the element (or, for more dimensions, the part) at the index; an index outside the first dimension is an error; nothing changes",
		eventFuncs: map[string]string{"dim2size": "size"}, pureEvents: map[string]bool{"size": true},
		setup: func(en *Entry) {
			x, st := en.ex, en.st
			ref, i := en.args[0].(*T), en.args[1].(*T)
			D, L := x.sliceField(st, "Array.dim", ref), x.sliceField(st, "Array.list", ref)
			st.assume(And(Lt(IntT(0), ref), Le(IntT(0), D.len), Lt(D.len, max), Eq(L.len, prod(IntT(0))), Le(IntT(0), L.len), Lt(L.len, max), Eq(prod(D.len), IntT(1)),
				Le(IntT(0), L.off), Lt(L.off, max), Le(IntT(0), D.off), Lt(D.off, max), Le(L.len, L.cap), Le(D.len, D.cap)))
			x.withElems(st, "int", SInt, D, func(cur *State, k, d *T) *T {
				p := prod(Add(k, IntT(1)))
				return And(Le(IntT(0), d), Lt(d, max), Eq(prod(k), Mul(d, p)), Le(IntT(0), p), Lt(p, max),
					Implies(And(Le(IntT(0), i), Lt(i, d)), And(Le(IntT(0), Mul(i, p)), Eq(Mul(Add(i, IntT(1)), p), Add(Mul(i, p), p)), Le(Add(Mul(i, p), p), Mul(d, p)))))
			})
			g := st.ghosts
			g["e"], g["ei"] = Const("some.array", SInt), Const("some.index", SInt)
			g["e0"] = st.readH(st.heap("elem:Node", SVal), []*T{g["e"], g["ei"]})
		},
		onEvent: func(ev *Event) {
			if ev.kind != "size" {
				ev.assert("nothing else is called", False)
				return
			}
			sv, D := ev.args[0].(SliceV), ev.ex.sliceField(ev.st, "Array.dim", ev.en.args[0].(*T))
			ev.assert("the size of a part of the array", And(Eq(sv.arr, D.arr), Le(D.off, sv.off), Eq(Add(sv.off, sv.len), Add(D.off, D.len))))
		},
		after: func(ev *Event) {
			sv, D := ev.args[0].(SliceV), ev.ex.sliceField(ev.st, "Array.dim", ev.en.args[0].(*T))
			s, i := ev.res.(*T), ev.en.args[1].(*T)
			ev.assume(And(Eq(s, prod(Sub(sv.off, D.off))), Eq(Mul(i, s), Mul(i, prod(IntT(1)))), Eq(Mul(s, i), Mul(i, s)), Eq(Mul(s, Add(i, IntT(1))), Mul(Add(i, IntT(1)), s))))
		},
		onReturn: func(r *Return) {
			x := r.ex
			ref, i := r.en.args[0].(*T), r.en.args[1].(*T)
			st0 := r.en.st
			D, L := x.sliceField(st0, "Array.dim", ref), x.sliceField(st0, "Array.list", ref)
			in := And(Lt(IntT(0), D.len), Le(IntT(0), i), Lt(i, dimAt(x, st0, D, IntT(0))))
			r.assert("nothing changes", Eq(r.st.readH(r.st.heap("elem:Node", SVal), []*T{r.get("e", SInt), r.get("ei", SInt)}), r.get("e0", SVal)))
			r.when(Not(in), func(r *Return) { r.cover("error"); r.assert("an error", Not(Eq(r.re, VNil))) })
			r.when(And(in, Eq(D.len, IntT(1))), func(r *Return) {
				r.cover("element")
				r.assert("the element", And(Eq(r.re, VNil), Eq(r.rv, x.elemOf(st0, "Node", SVal, L, i))))
			})
			r.when(And(in, Lt(IntT(1), D.len)), func(r *Return) {
				r.cover("part")
				n := Sel("vp", r.rv)
				dim, list := x.sliceField(r.st, "Array.dim", n), x.sliceField(r.st, "Array.list", n)
				p := prod(IntT(1))
				r.assert("an array", And(Eq(r.re, VNil), x.isType(r.rv, x.mustType("*Array"))))
				r.assert("of the remaining dimensions", And(Eq(dim.arr, D.arr), Eq(dim.off, Add(D.off, IntT(1))), Eq(dim.len, Sub(D.len, IntT(1)))))
				r.assert("that shares the elements", And(Eq(list.arr, L.arr), Eq(list.off, Add(L.off, Mul(i, p))), Eq(list.len, p)))
			})
		}})
	return cs
}

func init() { contractSets = append(contractSets, arrayContracts) }

// typedSlices: the slices with elements of the given type that the code holds when it enters the loop.
func typedSlices(lc *loopCtx, elem string) []SliceV {
	by := map[*T]SliceV{}
	var arrs []*T
	for _, f := range lc.E.frames {
		for reg, v := range f.regs {
			sv, ok := v.(SliceV)
			if !ok {
				continue
			}
			if st, ok := reg.Type().Underlying().(*types.Slice); !ok || typeKey(st.Elem()) != elem {
				continue
			}
			if old, dup := by[sv.arr]; !dup {
				arrs = append(arrs, sv.arr)
			} else if termLess(old.len, sv.len) {
				continue
			}
			by[sv.arr] = sv
		}
	}
	sortTerms(arrs)
	var r []SliceV
	for _, a := range arrs {
		r = append(r, by[a])
	}
	return r
}
