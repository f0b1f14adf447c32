package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P19: symbols are interned by name.

func symContracts() []*Contract {
	var cs []*Contract
	q, i := Const("some.name", SStr), Const("some.id", SInt)
	for _, inst := range []string{"_Symbol", "Keyword"} {
		inst := inst
		I := "idMap[" + inst + "]"
		M := "map:string," + inst
		dom := func(st *State, m, k *T) *T {
			return And(Not(Eq(m, IntT(0))), st.readH(st.heap(M+"#dom", SBool), []*T{m, k}))
		}
		val := func(st *State, m, k *T) *T { return st.readH(st.heap(M+"#val", SInt), []*T{m, k}) }
		cnt := func(st *State, m *T) *T {
			return Ite(Eq(m, IntT(0)), IntT(0), st.readH(st.heap(M+"#len", SInt), []*T{m}))
		}
		tab := func(x *Exec, st *State, idm *T) (*T, SliceV) {
			return x.readField(st, I, "name2id", idm), x.sliceField(st, I+".id2name", idm)
		}
		name := func(x *Exec, st *State, names SliceV, k *T) *T { return x.elemOf(st, "string", SStr, names, k) }
		// the invariant at one name and at one number
		invName := func(x *Exec, st *State, idm, k *T) *T {
			m, ns := tab(x, st, idm)
			v := val(st, m, k)
			return Implies(dom(st, m, k), And(Le(IntT(0), v), Lt(v, ns.len), Eq(name(x, st, ns, v), k)))
		}
		invID := func(x *Exec, st *State, idm, k *T) *T {
			m, ns := tab(x, st, idm)
			n := name(x, st, ns, k)
			return Implies(And(Le(IntT(0), k), Lt(k, ns.len)), And(dom(st, m, n), Eq(val(st, m, n), k)))
		}
		invLen := func(x *Exec, st *State, idm *T) *T {
			m, ns := tab(x, st, idm)
			return And(Eq(cnt(st, m), ns.len), Le(IntT(0), ns.len), Lt(ns.len, IntT(1<<40)))
		}
		start := func(en *Entry, idm *T, names ...*T) {
			x, st := en.ex, en.st
			m, ns := tab(x, st, idm)
			st.assume(And(Lt(IntT(0), idm), Le(IntT(0), m), Lt(m, st.alloc()), Le(ns.len, ns.cap), Le(IntT(0), ns.off), Lt(ns.off, IntT(1<<40)), Lt(ns.cap, IntT(1<<41)), invLen(x, st, idm), invID(x, st, idm, i)))
			x.Assump["the tables of names are well made (shown of every function that changes them, and of the empty table)"] = true
			g := st.ghosts
			for j, k := range append([]*T{q}, names...) {
				st.assume(invName(x, st, idm, k))
				if j == 0 {
					g["qdom"], g["qid"] = dom(st, m, k), val(st, m, k)
				} else {
					g["dom"], g["id"] = dom(st, m, k), val(st, m, k)
				}
			}
			g["n"], g["iname"] = ns.len, name(x, st, ns, i)
		}
		fn := "(*" + I + ")."
		cs = append(cs, &Contract{name: "go:" + fn + "NameToId", entry: "go:" + fn + "NameToId", props: []string{"P19"}, autos: []string{"nilderef", "bounds", "panic", "hash"},
			clause: "a name that is known keeps its number and gets it; a new name gets a number no other name has; the tables stay each other's inverses, and nothing else writes them",
			covers: []string{"known", "new"},
			setup:  func(en *Entry) { start(en, en.args[0].(*T), en.args[1].(*T)) },
			onReturn: func(r *Return) {
				x, en, st := r.ex, r.en, r.st
				idm, nm := en.args[0].(*T), en.args[1].(*T)
				m, ns := tab(x, st, idm)
				id := r.res.(*T)
				r.assert("nothing else writes the tables", BoolT(onlyWriters(x.P, "idMap", "NameToId")))
				r.assert("its name is the text", And(Le(IntT(0), id), Lt(id, ns.len), Eq(name(x, st, ns, id), nm), dom(st, m, nm), Eq(val(st, m, nm), id)))
				r.assert("known names keep their symbols", Implies(r.get("qdom", SBool), And(dom(st, m, q), Eq(val(st, m, q), r.get("qid", SInt)))))
				r.assert("known symbols keep their names", Implies(And(Le(IntT(0), i), Lt(i, r.get("n", SInt))), Eq(name(x, st, ns, i), r.get("iname", SStr))))
				r.assert("no other name becomes known", Implies(Not(Eq(q, nm)), Eq(dom(st, m, q), r.get("qdom", SBool))))
				r.assert("the tables agree (names)", invName(x, st, idm, q))
				r.assert("the tables agree (numbers)", invID(x, st, idm, i))
				r.assert("the tables have the same size", Eq(cnt(st, m), ns.len))
				r.when(r.get("dom", SBool), func(r *Return) {
					r.cover("known")
					r.assert("the symbol of the name", Eq(id, r.get("id", SInt)))
				})
				r.when(Not(r.get("dom", SBool)), func(r *Return) {
					r.cover("new")
					r.assert("a new symbol", Eq(id, r.get("n", SInt)))
				})
			}})
		cs = append(cs, &Contract{name: "go:" + fn + "IdToName", entry: "go:" + fn + "IdToName", props: []string{"P19"}, autos: []string{"nilderef", "bounds", "panic", "hash"},
			clause: "the name from which the symbol was made; different symbols have different names", covers: []string{"a symbol", "no symbol"},
			setup: func(en *Entry) {
				start(en, en.args[0].(*T))
				en.st.assume(invID(en.ex, en.st, en.args[0].(*T), en.args[1].(*T)))
			},
			onReturn: func(r *Return) {
				x, en, st := r.ex, r.en, r.st
				idm, id := en.args[0].(*T), en.args[1].(*T)
				_, ns := tab(x, st, idm)
				in := func(k *T) *T { return And(Le(IntT(0), k), Lt(k, ns.len)) }
				r.when(in(id), func(r *Return) {
					r.cover("a symbol")
					nm := r.res.(*T)
					r.assert("its name", Eq(nm, name(x, st, ns, id)))
					r.assert("no other symbol has it", Implies(And(in(i), Eq(name(x, st, ns, i), nm)), Eq(i, id)))
				})
				r.when(Not(in(id)), func(r *Return) { r.cover("no symbol") })
				r.assert("the tables do not change", And(Eq(ns.len, r.get("n", SInt)), Eq(name(x, st, ns, i), r.get("iname", SStr))))
			}})
		made, str, fac := "NewSymbol", "(_Symbol).String", "(stdFactory).Symbol"
		if inst == "Keyword" {
			made, str, fac = "NewKeyword", "(Keyword).String", "(stdFactory).Keyword"
		}
		own := func(ev *Event) *T { return ev.ex.isTable(ev.st, ev.args[0], I) }
		cs = append(cs, &Contract{name: "go:" + made, entry: "go:" + made, props: []string{"P19"}, autos: []string{"none"},
			eventFuncs: map[string]string{fn + "NameToId": "intern"}, pureEvents: map[string]bool{"intern": true},
			clause: "the symbol of exactly this text", covers: []string{"made"},
			setup: func(en *Entry) { en.st.ghosts["id"] = IntT(-1) },
			onEvent: func(ev *Event) {
				ev.assert("the text, in the table of its kind", And(boolT(ev.kind == "intern"), own(ev), Eq(ev.args[1].(*T), ev.en.args[0].(*T))))
			},
			after: func(ev *Event) { ev.set("id", ev.res.(*T)) },
			onReturn: func(r *Return) {
				r.cover("made")
				r.assert("the symbol of the text", Eq(r.res.(*T), r.get("id", SInt)))
			}})
		cs = append(cs, &Contract{name: "go:" + fac, entry: "go:" + fac, props: []string{"P19"}, autos: []string{"none"},
			eventFuncs: map[string]string{made: "intern"}, pureEvents: map[string]bool{"intern": true},
			clause: "the reader's symbol of a text is the symbol of exactly this text", covers: []string{"made"},
			setup: func(en *Entry) { en.st.ghosts["id"] = IntT(-1) },
			onEvent: func(ev *Event) {
				ev.assert("the text", And(boolT(ev.kind == "intern"), Eq(ev.args[0].(*T), ev.en.args[1].(*T))))
			},
			after: func(ev *Event) { ev.set("id", ev.res.(*T)) },
			onReturn: func(r *Return) {
				r.cover("made")
				r.assert("the symbol of the text", And(r.ex.isType(r.res.(*T), r.ex.mustType(inst)), Eq(Sel("vi", r.res.(*T)), r.get("id", SInt))))
			}})
		cs = append(cs, &Contract{name: "go:" + str, entry: "go:" + str, props: []string{"P19"}, autos: []string{"none"},
			eventFuncs: map[string]string{fn + "IdToName": "name"}, pureEvents: map[string]bool{"name": true},
			clause: "the name of the symbol", covers: []string{"name"},
			setup: func(en *Entry) { en.st.ghosts["nm"] = StrLit("") },
			onEvent: func(ev *Event) {
				ev.assert("this symbol's name", And(boolT(ev.kind == "name"), own(ev), Eq(ev.args[1].(*T), ev.en.args[0].(*T))))
			},
			after: func(ev *Event) { ev.set("nm", ev.res.(*T)) },
			onReturn: func(r *Return) {
				r.cover("name")
				r.assert("the name", Eq(r.res.(*T), r.get("nm", SStr)))
			}})
		if inst != "_Symbol" {
			continue
		}
		manager := func(x *Exec, st *State) *T { return x.globalRef(st, x.P.globalOfType(x.mustType(I))) }
		cs = append(cs, &Contract{name: "go:genSym", entry: "go:genSym", props: []string{"P19"}, autos: []string{"nilderef", "bounds", "panic", "hash"},
			eventFuncs: map[string]string{fn + "NameToId": "intern"}, pureEvents: map[string]bool{"intern": true},
			clause: "interns a name that no symbol has, once, and returns its symbol", covers: []string{"made"},
			setup: func(en *Entry) {
				start(en, manager(en.ex, en.st))
				en.st.ghosts["made"], en.st.ghosts["id"] = False, IntT(-1)
			},
			onEvent: func(ev *Event) {
				x, st := ev.ex, ev.st
				idm := manager(x, st)
				m, _ := tab(x, st, idm)
				ev.assert("interned once in the table of symbols", And(boolT(ev.kind == "intern"), Not(ev.get("made", SBool)), Eq(ev.args[0].(*T), idm)))
				ev.assert("no symbol has the name", Not(dom(st, m, ev.args[1].(*T))))
			},
			after: func(ev *Event) {
				ev.set("made", True)
				ev.set("id", ev.res.(*T))
				ev.assume(Eq(ev.res.(*T), ev.get("n", SInt))) // contract of NameToId for a new name
			},
			loopCands: func(lc *loopCtx) []cand {
				return []cand{{name: "nothing made", f: func(st *State, _ *slots) *T { return Not(lc.ex.ghost(st, "made", SBool)) }}}
			},
			onReturn: func(r *Return) {
				r.cover("made")
				r.assert("the new symbol", And(r.get("made", SBool), Eq(r.res.(*T), r.get("id", SInt))))
				r.assert("different from every symbol that existed", Implies(And(Le(IntT(0), i), Lt(i, r.get("n", SInt))), Not(Eq(r.res.(*T), i))))
			}})
		cs = append(cs, &Contract{name: "lisp:gensym", entry: "lisp:gensym", props: []string{"P19"}, autos: []string{"none"},
			eventFuncs: map[string]string{"genSym": "gensym"}, pureEvents: map[string]bool{"gensym": true},
			clause: "returns the symbol that genSym made, which is called once", covers: []string{"made"},
			setup: func(en *Entry) { en.st.ghosts["made"], en.st.ghosts["id"] = False, IntT(-1) },
			onEvent: func(ev *Event) {
				ev.assert("one new symbol", And(boolT(ev.kind == "gensym"), Not(ev.get("made", SBool))))
			},
			after: func(ev *Event) {
				ev.set("made", True)
				ev.set("id", ev.res.(*T))
			},
			onReturn: func(r *Return) {
				x := r.ex
				r.when(Eq(r.re, VNil), func(r *Return) {
					r.cover("made")
					r.assert("the new symbol", And(r.get("made", SBool), x.isType(r.rv, x.mustType("_Symbol")), Eq(Sel("vi", r.rv), r.get("id", SInt))))
				})
			}})
	}
	return cs
}

// onlyWriters: the fields of the type (any instance) and the maps they hold are written only by the named methods.
func onlyWriters(P *Program, typ string, methods ...string) bool {
	named := func(t types.Type) bool {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		n, ok := types.Unalias(t).(*types.Named)
		return ok && n.Obj().Name() == typ
	}
	for _, f := range P.allFuncs {
		own := false
		for _, m := range methods {
			own = own || f.Name() == m && f.Signature.Recv() != nil && named(f.Signature.Recv().Type())
			own = own || strings.HasPrefix(f.Name(), m+"[") && strings.Contains(f.String(), typ)
		}
		if own {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !named(fa.X.Type()) {
					continue
				}
				for _, r := range *fa.Referrers() {
					u, ok := r.(*ssa.UnOp)
					if !ok {
						return false
					}
					for _, r2 := range *u.Referrers() {
						switch y := r2.(type) {
						case *ssa.Lookup, *ssa.DebugRef, *ssa.Range:
						case *ssa.Call:
							if b, ok := y.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
								return false
							}
						case *ssa.IndexAddr:
							for _, r3 := range *y.Referrers() {
								if _, ok := r3.(*ssa.UnOp); !ok {
									return false
								}
							}
						default:
							return false
						}
					}
				}
			}
		}
	}
	return true
}

func init() { contractSets = append(contractSets, symContracts) }

// globalRef is the object a package variable of pointer type refers to.
func (ex *Exec) globalRef(st *State, name string) *T {
	for k := range ex.P.globals {
		if k.Name() == name && k.Pkg.Pkg.Name() == "gmnlisp" {
			if t, ok := ex.loadGlobal(st, "global:gmnlisp."+name, k.Type().Underlying().(*types.Pointer).Elem()).(*T); ok {
				return t
			}
		}
	}
	panic(unsupported("package variable " + name + " not found"))
}

// isTable: the value is the address of the one package variable that holds this type.
func (ex *Exec) isTable(st *State, v Value, typ string) *T {
	k := ex.P.globalOfType(ex.mustType(typ))
	switch p := v.(type) {
	case PtrV:
		return boolT(p.kind == "global" && p.key == "global:gmnlisp."+k)
	case *T:
		return Eq(p, ex.globalRef(st, k))
	}
	return False
}

// globalOfType is the package variable of this type or of a pointer to it, if there is exactly one.
func (P *Program) globalOfType(t types.Type) string {
	res := ""
	for k := range P.globals {
		e := k.Type().Underlying().(*types.Pointer).Elem()
		if k.Pkg.Pkg.Name() != "gmnlisp" || !types.Identical(e, t) && !types.Identical(e, types.NewPointer(t)) {
			continue
		}
		if res != "" {
			panic(unsupported("more than one package variable of type " + t.String()))
		}
		res = k.Name()
	}
	if res == "" {
		panic(unsupported("no package variable of type " + t.String()))
	}
	return res
}
