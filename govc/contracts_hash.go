package main

// P17: hash tables are finite maps.

func hashContracts() []*Contract {
	var cs []*Contract
	const M = "map:Node,Node"
	dom := func(st *State, m, k *T) *T { return st.readH(st.heap(M+"#dom", SBool), []*T{m, k}) }
	val := func(st *State, m, k *T) *T { return st.readH(st.heap(M+"#val", SVal), []*T{m, k}) }
	cnt := func(st *State, m *T) *T { return st.readH(st.heap(M+"#len", SInt), []*T{m}) }
	table := func(x *Exec, v *T) (is, ref *T) {
		t := x.mustType("_Hash")
		v = x.unwrapped(v)
		return x.isType(v, t), Sel(valSel[ifaceKind(t)][1], v)
	}
	canKey := func(x *Exec, k *T) *T {
		c := x.implements(k, x.mustType("Symbol"))
		for _, n := range []string{"String", "Integer", "Float", "Rune", "Keyword"} {
			is := x.isType(k, x.mustType(n))
			if n == "Float" {
				is = And(is, UF("feq", SBool, Sel("vf", k), Sel("vf", k))) // no NaN
			}
			c = Or(c, is)
		}
		return c
	}
	type spec struct {
		name, clause string
		covers       []string
		args         func(en *Entry) (tab, key, v *T)
		ret          func(r *Return, m, k *T, same func(r *Return, c *T))
		cands        func(lc *loopCtx) []cand
	}
	add := func(s spec) {
		parts := func(en *Entry) (tab, key, v *T) {
			if s.args == nil {
				return nil, nil, nil
			}
			return s.args(en)
		}
		cs = append(cs, &Contract{name: "lisp:" + s.name, entry: "lisp:" + s.name, props: []string{"P17"}, autos: bothKinds, clause: s.clause, covers: s.covers,
			setup: func(en *Entry) {
				x, st := en.ex, en.st
				g := st.ghosts
				// an arbitrary entry of an arbitrary table
				g["m"], g["k"] = Const("some.table", SInt), Const("some.key", SVal)
				x.validFact(st, g["k"], anyType)
				st.assume(And(Lt(IntT(0), g["m"]), Lt(g["m"], st.alloc()), Not(Eq(g["k"], VNil))))
				x.addKey(st, g["k"])
				g["dom0"], g["val0"], g["len0"] = dom(st, g["m"], g["k"]), val(st, g["m"], g["k"]), cnt(st, g["m"])
				st.assume(And(Le(IntT(0), g["len0"]), Implies(g["dom0"], Le(IntT(1), g["len0"]))))
				g["signalled"] = False
				if tab, _, _ := parts(en); tab != nil {
					is, ref := table(x, tab)
					st.assume(Implies(is, Lt(IntT(0), ref)))
				}
				if _, key, _ := parts(en); key != nil {
					f := Sel("vf", key)
					st.assume(Eq(UF("go:math.IsNaN", SBool, f), Not(UF("feq", SBool, f, f))))
				}
			},
			loopCands: s.cands,
			onEvent: func(ev *Event) {
				x, st := ev.ex, ev.st
				tab, _, _ := parts(ev.en)
				if tab == nil {
					ev.assert("nothing is called", False)
					return
				}
				is, _ := table(x, tab)
				ev.assert("a condition is signalled only for an argument that is not a table", And(Not(is), boolT(ev.kind == "signal" || ev.kind == "handler")))
				m, k := ev.get("m", SInt), ev.get("k", SVal)
				ev.assert("no table has changed", And(Eq(dom(st, m, k), ev.get("dom0", SBool)), Implies(dom(st, m, k), Eq(val(st, m, k), ev.get("val0", SVal))), Eq(cnt(st, m), ev.get("len0", SInt))))
			},
			after: func(ev *Event) {
				ev.set("signalled", True)
				ev.dead = true // what a handler substitutes is not looked at
			},
			onReturn: func(r *Return) {
				x := r.ex
				m, k := r.get("m", SInt), r.get("k", SVal)
				same := func(r *Return, c *T) {
					r.when(c, func(r *Return) {
						r.assert("other entries are unchanged", And(Eq(dom(r.st, m, k), r.get("dom0", SBool)), Implies(dom(r.st, m, k), Eq(val(r.st, m, k), r.get("val0", SVal)))))
					})
				}
				tab, key, _ := parts(r.en)
				if tab == nil {
					s.ret(r, m, k, same)
					return
				}
				is, ref := table(x, tab)
				r.assert("an argument that is not a table is an error", Or(is, Not(Eq(r.re, VNil))))
				r.when(Not(Eq(m, ref)), func(r *Return) {
					same(r, True)
					r.assert("other tables keep their number of entries", Eq(cnt(r.st, m), r.get("len0", SInt)))
				})
				r.when(is, func(r *Return) {
					if key != nil {
						r.when(Not(canKey(x, key)), func(r *Return) {
							r.cover("no key")
							r.assert("a value that cannot be a key is an error", Not(Eq(r.re, VNil)))
							same(r, True)
							r.assert("the number of entries stays", Eq(cnt(r.st, m), r.get("len0", SInt)))
						})
						r.when(canKey(x, key), func(r *Return) { s.ret(r, m, k, same) })
						return
					}
					s.ret(r, m, k, same)
				})
			}})
	}
	two := func(en *Entry) (tab, key, v *T) { return en.arg2, en.arg, nil }
	one := func(en *Entry) (tab, key, v *T) { return en.arg, nil, nil }
	add(spec{name: "make-hash-table", clause: "a new table without entries; no other table changes", covers: []string{"made"},
		ret: func(r *Return, m, k *T, same func(r *Return, c *T)) {
			is, ref := table(r.ex, r.rv)
			r.cover("made")
			r.assert("no error", Eq(r.re, VNil))
			r.assert("a new table", And(is, Lt(m, ref)))
			r.assert("without entries", And(Not(dom(r.st, ref, k)), Eq(cnt(r.st, ref), IntT(0))))
			same(r, True)
		}})
	add(spec{name: "gethash", clause: "the value stored under an equal key, nil when there is none; nothing changes", covers: []string{"found", "absent", "no key"}, args: two,
		ret: func(r *Return, m, k *T, same func(r *Return, c *T)) {
			_, ref := table(r.ex, r.en.arg2)
			same(r, True)
			r.assert("no error", Eq(r.re, VNil))
			r.assert("the number of entries stays", Eq(cnt(r.st, m), r.get("len0", SInt)))
			r.when(And(Eq(m, ref), Eq(k, r.en.arg)), func(r *Return) {
				r.when(r.get("dom0", SBool), func(r *Return) { r.cover("found"); r.assert("the value stored", Eq(r.rv, r.get("val0", SVal))) })
				r.when(Not(r.get("dom0", SBool)), func(r *Return) { r.cover("absent"); r.assert("nil", Eq(r.rv, r.ex.nullVal())) })
			})
		}})
	add(spec{name: "set-gethash", clause: "the value is stored under the key and returned; no other entry of any table changes; the number of entries grows by one exactly when the key is new", covers: []string{"new", "replaced", "other", "no key"},
		args: func(en *Entry) (tab, key, v *T) {
			return readArg(en, en.st, IntT(2)), readArg(en, en.st, IntT(1)), readArg(en, en.st, IntT(0))
		},
		ret: func(r *Return, m, k *T, same func(r *Return, c *T)) {
			st0 := r.en.st
			tab, key, v := readArg(r.en, st0, IntT(2)), readArg(r.en, st0, IntT(1)), readArg(r.en, st0, IntT(0))
			_, ref := table(r.ex, tab)
			here := And(Eq(m, ref), Eq(k, key))
			r.assert("no error", Eq(r.re, VNil))
			r.assert("the value is returned", Eq(r.rv, v))
			r.when(Not(here), func(r *Return) { r.cover("other"); same(r, True) })
			r.when(here, func(r *Return) {
				r.assert("the value is stored", And(dom(r.st, m, k), Eq(val(r.st, m, k), v)))
				r.when(r.get("dom0", SBool), func(r *Return) {
					r.cover("replaced")
					r.assert("the number of entries stays", Eq(cnt(r.st, m), r.get("len0", SInt)))
				})
				r.when(Not(r.get("dom0", SBool)), func(r *Return) {
					r.cover("new")
					r.assert("one more entry", Eq(cnt(r.st, m), Add(r.get("len0", SInt), IntT(1))))
				})
			})
		}})
	add(spec{name: "remhash", clause: "the entry of the key is removed, if there is one; no other entry of any table changes", covers: []string{"removed", "absent", "other", "no key"}, args: two,
		ret: func(r *Return, m, k *T, same func(r *Return, c *T)) {
			_, ref := table(r.ex, r.en.arg2)
			here := And(Eq(m, ref), Eq(k, r.en.arg))
			r.assert("no error", Eq(r.re, VNil))
			r.when(Not(here), func(r *Return) { r.cover("other"); same(r, True) })
			r.when(here, func(r *Return) {
				r.assert("no entry is left", Not(dom(r.st, m, k)))
				r.when(r.get("dom0", SBool), func(r *Return) {
					r.cover("removed")
					r.assert("one entry less", Eq(cnt(r.st, m), Sub(r.get("len0", SInt), IntT(1))))
				})
				r.when(Not(r.get("dom0", SBool)), func(r *Return) {
					r.cover("absent")
					r.assert("the number of entries stays", Eq(cnt(r.st, m), r.get("len0", SInt)))
				})
			})
		}})
	add(spec{name: "hash-table-count", clause: "the number of entries; nothing changes", covers: []string{"counted"}, args: one,
		ret: func(r *Return, m, k *T, same func(r *Return, c *T)) {
			_, ref := table(r.ex, r.en.arg)
			r.assert("no error", Eq(r.re, VNil))
			same(r, True)
			r.when(Eq(m, ref), func(r *Return) {
				r.cover("counted")
				r.assert("the number of entries", Eq(r.rv, r.ex.mkInt(r.get("len0", SInt))))
			})
		}})
	add(spec{name: "clrhash", clause: "no entry is left in the table; other tables are unchanged", covers: []string{"cleared"}, args: one,
		cands: func(lc *loopCtx) []cand {
			var r []cand
			x := lc.ex
			is, ref := table(x, lc.ex.en.arg)
			g := func(st *State, n string, s Sort) *T { return x.ghost(st, n, s) }
			for _, vk := range sortedKeys(lc.E.heaps) {
				if len(vk) < 9 || vk[:9] != "ghost.vis" {
					continue
				}
				vk := vk
				r = append(r, cand{name: "cleared so far " + vk, all: &allCand{key: M + "#dom", sort: SBool, f: func(cur, st *State, _ *slots, ks []*T, v, _ *T) *T {
					vis := readHeap(cur, st.heap(vk, SBool), []*T{ks[1]})
					before := readHeap(cur, lc.E.heap(M+"#dom", SBool), ks)
					return And(Implies(Not(Eq(ks[0], ref)), Eq(v, before)), Implies(And(is, Eq(ks[0], ref)), And(Implies(vis, Not(v)), Implies(Not(vis), Eq(v, before)))))
				}}})
			}
			r = append(r, cand{name: "other tables", f: func(st *State, _ *slots) *T {
				m := g(st, "m", SInt)
				return Implies(Not(Eq(m, ref)), And(Eq(dom(st, m, g(st, "k", SVal)), g(st, "dom0", SBool)), Eq(cnt(st, m), g(st, "len0", SInt))))
			}})
			return r
		},
		ret: func(r *Return, m, k *T, same func(r *Return, c *T)) {
			_, ref := table(r.ex, r.en.arg)
			r.assert("no error", Eq(r.re, VNil))
			r.when(Eq(m, ref), func(r *Return) {
				r.cover("cleared")
				r.assert("no entry is left", Not(dom(r.st, m, k)))
			})
		}})
	return cs
}

func init() { contractSets = append(contractSets, hashContracts) }
