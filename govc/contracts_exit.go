package main

// Contracts of the non-local exits (P04, P05): block/return-from/return, catch/throw, tagbody/go.

import (
	"go/types"
	"strings"
)

// setHas: key is in one of the interpreter's sets of active exit points.
func (ex *Exec) setHas(st *State, w *T, field, keyType string, key *T) *T {
	sh := st.readH(st.heap("World.shared", SInt), []*T{w})
	m := st.readH(st.heap("shared."+field, SInt), []*T{sh})
	return ex.inSet(st, m, keyType, key)
}

// inSet: key is in the set m (a nil set is empty).
func (ex *Exec) inSet(st *State, m *T, keyType string, key *T) *T {
	if m.op == "ite" {
		return Ite(m.args[0], ex.inSet(st, m.args[1], keyType, key), ex.inSet(st, m.args[2], keyType, key))
	}
	d := st.readH(st.heap("map:"+keyType+",struct{}#dom", SBool), []*T{m, key})
	return And(Not(Eq(m, IntT(0))), d)
}

func (ex *Exec) isSymbol(v *T) *T { return ex.implements(v, ex.mustType("Symbol")) }

func (ex *Exec) globalT(st *State, name string) *T {
	for k := range ex.P.globals {
		if k.Name() == name && k.Pkg.Pkg.Name() == "gmnlisp" {
			t := k.Type().Underlying().(*types.Pointer).Elem()
			v := ex.loadGlobal(st, "global:gmnlisp."+name, t)
			if !types.IsInterface(t) {
				return ex.mkIface(st, t, v)
			}
			if t, ok := v.(*T); ok {
				return t
			}
		}
	}
	panic(unsupported("package variable " + name + " not found"))
}

// exitErr describes the error value that carries a non-local exit.
type exitErr struct {
	typ, key, val string
}

var (
	exitBlock = exitErr{"_ErrEarlyReturns", "Name", "Value"}
	exitCatch = exitErr{"_ErrThrown", "TagForm", "Value"}
	exitGo    = exitErr{"_ErrTagBody", "tag", ""}
)

// of returns the exit carried by an error (VNil if none), its key and its value.
func (x exitErr) of(ex *Exec, st *State, e *T) (is, key, val *T) {
	t := ex.mustType("*" + x.typ)
	r := ex.errAs(st, e, t)
	ref := Sel("vp", r)
	key = ex.readField(st, x.typ, x.key, ref)
	if x.val != "" {
		val = ex.readField(st, x.typ, x.val, ref)
	}
	return Not(Eq(r, VNil)), key, val
}

// readField reads a field of an object as the code does (with the facts every read has).
func (ex *Exec) readField(st *State, typ, field string, ref *T) *T {
	u := ex.mustType(typ).Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == field {
			return ex.loadKeyed(st, typ+"."+field, []*T{ref}, u.Field(i).Type()).(*T)
		}
	}
	panic(unsupported("field " + typ + "." + field + " not found"))
}

// direct: e itself is such an exit (not wrapped).
func (x exitErr) direct(ex *Exec, e *T) *T { return ex.isType(e, ex.mustType("*"+x.typ)) }

func exitContracts() []*Contract {
	var cs []*Contract
	add := func(c *Contract) {
		c.entry = c.name
		c.codeImmutable = true
		c.autos = bothKinds
		cs = append(cs, c)
	}
	// the body forms of block and catch, in order, while the exit point is active
	bodyEvent := func(ev *Event, active *T) {
		x := ev.ex
		pos := ev.get("pos", SVal)
		ev.assert("a form is left", x.isCons(pos))
		evalHere(ev, x.carN(ev.st, pos))
		ev.assert("the exit point is active while its forms are evaluated", active)
		ev.set("pos", x.cdrN(ev.st, pos))
	}
	deliver := func(r *Return, ee exitErr, name *T) {
		x, st := r.ex, r.st
		e := r.get("err", SVal)
		is, key, val := ee.of(x, st, e)
		mine := And(r.get("failed", SBool), is, x.ifaceEq(key, name))
		r.when(mine, func(r *Return) {
			r.cover("delivered")
			r.assert("an exit to this construct ends it with the value given", And(Eq(r.re, VNil), x.same(r.rv, val)))
		})
		r.when(And(r.get("failed", SBool), Not(mine)), func(r *Return) {
			r.cover("passed on")
			r.assert("any other failure or exit passes through unchanged", Eq(r.re, e))
		})
	}
	normal := func(r *Return, malformed *T) {
		x := r.ex
		r.when(Not(r.get("failed", SBool)), func(r *Return) {
			r.when(Eq(r.re, VNil), func(r *Return) {
				r.cover("value")
				r.assert("all forms were evaluated", x.none(r.get("pos", SVal)))
				r.assert("the value of the last form", x.same(r.rv, r.get("bv", SVal)))
			})
			r.when(Not(Eq(r.re, VNil)), func(r *Return) {
				pos := r.get("pos", SVal)
				r.assert("a failure of its own only for a malformed form", Or(malformed, And(x.some(pos), Not(x.isCons(pos)))))
			})
		})
	}
	blockName := func(en *Entry) *T {
		x := en.ex
		c := x.carN(en.st, en.list)
		return Ite(x.none(c), x.globalT(en.st, "nulSymbol"), c)
	}

	add(&Contract{name: "lisp:block", props: []string{"P04"}, after: func(ev *Event) {
		outcomeAfter(ev)
		ev.set("bv", ev.get("last", SVal))
	},
		clause: "evaluates its forms in order with its name active; a return-from that names it ends it with the given value; every other exit or failure passes through unchanged",
		covers: []string{"delivered", "passed on", "value"},
		setup: func(en *Entry) {
			outcomeSetup(en)
			en.st.ghosts["pos"] = en.ex.cdrN(en.st, en.list)
			en.st.ghosts["name"] = blockName(en)
		},
		onEvent: func(ev *Event) {
			x := ev.ex
			name := ev.get("name", SVal)
			if ev.kind == "handler" {
				pos := ev.get("pos", SVal)
				ev.assert("signals only for a malformed form", Or(Not(x.isSymbol(name)), And(x.some(pos), Not(x.isCons(pos)))))
				return
			}
			if !isEval(ev) {
				noCalls(ev)
				return
			}
			bodyEvent(ev, Or(Not(x.isSymbol(name)), x.setHas(ev.st, ev.en.w, "blockName", "Symbol", name)))
		},
		onReturn: func(r *Return) {
			x := r.ex
			name := r.get("name", SVal)
			r.when(x.isSymbol(name), func(r *Return) { deliver(r, exitBlock, name) })
			normal(r, Or(Not(x.isCons(r.en.list)), Not(x.isSymbol(name))))
		}})

	add(&Contract{name: "lisp:catch", props: []string{"P04"}, after: func(ev *Event) {
		if ev.kind == "handler" {
			outcomeAfter(ev)
			return
		}
		first := Not(ev.get("started", SBool))
		outcomeAfter(ev)
		ev.set("started", True)
		ev.set("tag", Ite(first, ev.rv, ev.get("tag", SVal)))
		ev.set("intag", And(first, Not(Eq(ev.re, VNil))))
		ev.set("bv", Ite(first, ev.ex.nullVal(), ev.get("last", SVal)))
	},
		clause: "evaluates the tag form once, then its forms in order with the tag active; a throw to an identical tag ends it with the given value; every other exit or failure passes through unchanged",
		covers: []string{"delivered", "passed on", "value"},
		setup: func(en *Entry) {
			outcomeSetup(en)
			en.st.ghosts["pos"] = en.list
			en.st.ghosts["tag"] = VNil
			en.st.ghosts["intag"] = False
			en.st.ghosts["started"] = False
		},
		onEvent: func(ev *Event) {
			x := ev.ex
			tag := ev.get("tag", SVal)
			if ev.kind == "handler" {
				pos := ev.get("pos", SVal)
				ev.assert("signals only for a tag that has no identity or a malformed form", Or(And(ev.get("started", SBool), x.unhashable(tag)), Not(x.isCons(pos))))
				return
			}
			if !isEval(ev) {
				noCalls(ev)
				return
			}
			first := Not(ev.get("started", SBool))
			bodyEvent(ev, Or(first, x.setHas(ev.st, ev.en.w, "catchTag", "Node", tag)))
		},
		onReturn: func(r *Return) {
			x := r.ex
			tag := r.get("tag", SVal)
			started := r.get("started", SBool)
			r.when(Or(Not(started), r.get("intag", SBool)), func(r *Return) {
				r.assert("no value without evaluating the tag", Not(Eq(r.re, VNil)))
				r.when(r.get("intag", SBool), func(r *Return) {
					r.assert("the failure of the tag form is reported", Eq(r.re, r.get("err", SVal)))
				})
			})
			r.when(And(started, Not(r.get("intag", SBool)), Not(x.unhashable(tag))), func(r *Return) {
				deliver(r, exitCatch, tag)
				normal(r, False)
			})
		}})

	// the exits themselves
	raise := func(r *Return, ee exitErr, key, val *T) {
		x, st := r.ex, r.st
		r.cover("exit")
		r.assert("the construct does not return normally", Not(Eq(r.re, VNil)))
		is, k, v := ee.of(x, st, r.re)
		r.assert("it fails with the exit itself", And(ee.direct(x, r.re), is))
		r.assert("addressed to the named construct", Eq(k, key))
		if val != nil {
			r.assert("carrying the value of its form", x.same(v, val))
		}
	}
	add(&Contract{name: "lisp:return-from", props: []string{"P04"}, after: outcomeAfter,
		clause: "when the named block is active, evaluates the value form once and exits to that block with its value; otherwise signals an error without evaluating anything",
		covers: []string{"exit", "failure of the value form", "no such block"},
		setup: func(en *Entry) {
			outcomeSetup(en)
			g := en.st.ghosts
			g["name"] = blockName(en)
			g["active"] = en.ex.setHas(en.st, en.w, "blockName", "Symbol", g["name"])
			g["signalled"] = False
		},
		onEvent: func(ev *Event) {
			x := ev.ex
			name := ev.get("name", SVal)
			if ev.kind == "handler" {
				ev.assert("signals only for a block that is not active", Or(Not(x.isSymbol(name)), Not(ev.get("active", SBool))))
				ev.set("signalled", True)
				return
			}
			if !isEval(ev) {
				noCalls(ev)
				return
			}
			ev.assert("one evaluation", Eq(ev.get("n", SInt), IntT(0)))
			ev.assert("only when the block is active", Or(Not(x.isSymbol(name)), ev.get("active", SBool)))
			evalHere(ev, x.carN(ev.st, x.cdrN(ev.st, ev.en.list)))
		},
		onReturn: func(r *Return) {
			x, st := r.ex, r.st
			L := r.en.list
			d := x.cdrN(st, L)
			wellformed := And(x.isCons(L), x.isCons(d), x.none(x.cdrN(st, d)))
			name := r.get("name", SVal)
			n := r.get("n", SInt)
			r.assert("it never returns normally", Not(Eq(r.re, VNil)))
			r.when(And(wellformed, x.isSymbol(name)), func(r *Return) {
				act := r.get("active", SBool)
				r.when(act, func(r *Return) {
					r.assert("the value form was evaluated", Eq(n, IntT(1)))
					f := r.get("failed", SBool)
					r.when(f, func(r *Return) {
						r.cover("failure of the value form")
						r.assert("its failure is reported unchanged", Eq(r.re, r.get("err", SVal)))
					})
					r.when(Not(f), func(r *Return) { raise(r, exitBlock, name, r.get("last", SVal)) })
				})
				r.when(Not(act), func(r *Return) {
					r.cover("no such block")
					r.assert("the error is signalled", r.get("signalled", SBool))
				})
			})
		}})
	add(&Contract{name: "lisp:return", props: []string{"P04"},
		clause: "exits to the nil block with its argument when one is active, otherwise signals an error",
		covers: []string{"exit", "no such block"},
		setup: func(en *Entry) {
			g := en.st.ghosts
			g["name"] = en.ex.globalT(en.st, "nulSymbol")
			g["active"] = en.ex.setHas(en.st, en.w, "blockName", "Symbol", g["name"])
			g["signalled"] = False
		},
		onEvent: func(ev *Event) {
			if ev.kind == "handler" {
				ev.assert("signals only without an active block", Not(ev.get("active", SBool)))
				ev.set("signalled", True)
				return
			}
			noCalls(ev)
		},
		onReturn: func(r *Return) {
			act := r.get("active", SBool)
			r.when(act, func(r *Return) { raise(r, exitBlock, r.get("name", SVal), r.en.arg) })
			r.when(Not(act), func(r *Return) {
				r.cover("no such block")
				r.assert("the error is signalled", And(Not(Eq(r.re, VNil)), r.get("signalled", SBool)))
			})
		}})
	add(&Contract{name: "lisp:throw", props: []string{"P04"},
		clause: "exits to the active catch with an identical tag with the given value, otherwise signals an error",
		covers: []string{"exit", "no such tag"},
		setup: func(en *Entry) {
			g := en.st.ghosts
			g["active"] = And(Not(en.ex.unhashable(en.arg)), en.ex.setHas(en.st, en.w, "catchTag", "Node", en.arg))
			g["signalled"] = False
		},
		onEvent: func(ev *Event) {
			if ev.kind == "handler" {
				ev.assert("signals only without an active catch", Not(ev.get("active", SBool)))
				ev.set("signalled", True)
				return
			}
			noCalls(ev)
		},
		onReturn: func(r *Return) {
			act := r.get("active", SBool)
			r.when(act, func(r *Return) { raise(r, exitCatch, r.en.arg, r.en.arg2) })
			r.when(Not(act), func(r *Return) {
				r.cover("no such tag")
				r.assert("the error is signalled", And(Not(Eq(r.re, VNil)), r.get("signalled", SBool)))
			})
		}})

	// tagbody: after(t) is what follows tag t; isTag(t, l) says that t is a tag in l; next(l) is l without its leading tags
	tagAfter := func(t *T) *T { return UF("spec:tagAfter", SVal, t) }
	isTag := func(t, l *T) *T { return UF("spec:isTag", SBool, t, l) }
	next := func(l *T) *T { return UF("spec:nextForm", SVal, l) }
	part := func(l *T) *T { return UF("spec:partOfBody", SBool, l) }
	isTagUnfold := func(ex *Exec, st *State, k, v, car, cdr *T) *T {
		return And(
			Implies(ex.isCons(v), Eq(isTag(k, v), Or(And(ex.isSymbol(car), ex.ifaceEq(car, k)), isTag(k, cdr)))),
			Implies(And(part(v), isTag(k, v)), isTag(k, ex.en.list)))
	}
	add(&Contract{name: "lisp:tagbody", props: []string{"P05"},
		clause: "evaluates its forms in order; after a go to one of its tags it continues with the form after that tag; every other exit or failure passes through unchanged; all its tags are active meanwhile (for bodies that are proper lists with distinct tags)",
		covers: []string{"value", "passed on"},
		setup: func(en *Entry) {
			x, st := en.ex, en.st
			outcomeSetup(en)
			g := st.ghosts
			g["pos"] = en.list
			g["some"] = Const("someTag", SVal)
			x.validFact(st, g["some"], anyType)
			st.assume(x.isSymbol(g["some"]))
			x.addKey(st, g["some"])
			st.assume(And(part(en.list), Or(x.isCons(en.list), x.none(en.list))))
		},
		onEvent: func(ev *Event) {
			x, st := ev.ex, ev.st
			pos := next(ev.get("pos", SVal))
			if ev.kind == "handler" {
				ev.assert("signals only for a malformed body", False)
				return
			}
			if !isEval(ev) {
				noCalls(ev)
				return
			}
			ev.assert("a form is left", x.isCons(pos))
			evalHere(ev, x.carN(st, pos))
			some := ev.get("some", SVal)
			ev.assert("every tag of the body is active", Implies(isTag(some, ev.en.list), x.setHas(st, ev.en.w, "goTag", "Symbol", some)))
			ev.set("pos", x.cdrN(st, pos))
		},
		after: func(ev *Event) {
			x, st := ev.ex, ev.st
			bad := Not(Eq(ev.re, VNil))
			is, tag, _ := exitGo.of(x, st, ev.re)
			x.addKey(st, tag)
			hit := And(bad, is, isTag(tag, ev.en.list))
			ev.set("pos", Ite(hit, tagAfter(tag), ev.get("pos", SVal)))
			ev.set("failed", And(bad, Not(hit)))
			ev.set("err", ev.re)
		},
		recs: []recSpec{{name: "tagAfter/isTag/nextForm",
			at: func(ex *Exec, st *State, v, car, cdr *T) *T {
				sym := ex.isSymbol(car)
				return Implies(ex.isCons(v), And(
					Eq(next(v), Ite(sym, next(cdr), v)),
					Implies(part(v), And(part(cdr), Or(ex.isCons(cdr), ex.none(cdr)))),
					Implies(And(part(v), sym), Eq(tagAfter(car), cdr))))
			},
			base: func(ex *Exec, st *State) *T {
				n := ex.nullVal()
				return And(Eq(next(n), n), Eq(next(VNil), VNil))
			},
			keyed: isTagUnfold,
			keyBase: func(ex *Exec, st *State, k *T) *T {
				return And(Not(isTag(k, ex.nullVal())), Not(isTag(k, VNil)))
			}}},
		loopCands: func(lc *loopCtx) []cand {
			x := lc.ex
			L := x.en.list
			const dom = "map:Symbol,Node#dom"
			var r []cand
			for _, n := range lc.entry.names {
				n := n
				if lc.entry.val[n].sort != SVal || strings.HasPrefix(n, "ghost:") {
					continue
				}
				r = append(r, cand{name: "part " + n, f: func(st *State, s *slots) *T { return part(s.val[n]) }})
				r = append(r, cand{name: "next " + n, f: func(st *State, s *slots) *T { return Eq(next(s.val[n]), next(x.ghost(st, "pos", SVal))) }})
				r = append(r, cand{name: "tagged " + n, f: func(st *State, s *slots) *T {
					some := x.ghost(st, "some", SVal)
					return Implies(isTag(some, L), Or(isTag(some, s.val[n]), x.setHas(st, x.en.w, "goTag", "Symbol", some)))
				}})
				for _, m := range privateMaps(lc, dom) {
					m := m
					r = append(r, cand{name: "tags not seen " + n + " " + m.String(), all: &allCand{key: dom, sort: SBool, f: func(cur, st *State, s *slots, ks []*T, v, _ *T) *T {
						return Implies(And(Eq(ks[0], m), x.isSymbol(ks[1]), isTag(ks[1], L), Not(v)), isTag(ks[1], s.val[n]))
					}}})
				}
			}
			for _, m := range privateMaps(lc, dom) {
				m := m
				has := func(st *State, k *T) *T { return readPure(st.heap(dom, SBool), []*T{m, k}) }
				r = append(r, cand{name: "tag map " + m.String(), all: &allCand{key: "map:Symbol,Node#val", sort: SVal, f: func(cur, st *State, s *slots, ks []*T, v, _ *T) *T {
					return Implies(And(Eq(ks[0], m), has(st, ks[1])), And(Eq(v, tagAfter(ks[1])), part(v)))
				}}})
				r = append(r, cand{name: "map tags " + m.String(), all: &allCand{key: dom, sort: SBool, f: func(cur, st *State, s *slots, ks []*T, v, _ *T) *T {
					return Implies(And(Eq(ks[0], m), v), isTag(ks[1], L))
				}}})
				r = append(r, cand{name: "tags follow " + m.String(), all: &allCand{key: dom, sort: SBool, two: true, f: func(cur, st *State, s *slots, ks []*T, v, k2 *T) *T {
					return Implies(And(Eq(ks[0], m), x.isSymbol(ks[1]), isTag(ks[1], L), Not(v), has(st, k2)), isTag(ks[1], tagAfter(k2)))
				}}})
				for _, k := range lc.E.rkeys {
					k := k
					r = append(r, cand{name: "absent " + m.String() + k.String(), f: func(st *State, s *slots) *T {
						return Not(st.readH(st.heap(dom, SBool), []*T{m, k}))
					}})
				}
			}
			r = append(r, cand{name: "set kept", f: func(st *State, s *slots) *T {
				set := func(st *State) *T {
					return st.readH(st.heap("shared.goTag", SInt), []*T{st.readH(st.heap("World.shared", SInt), []*T{x.en.w})})
				}
				return And(Not(Eq(set(st), IntT(0))), Eq(set(st), set(lc.E)))
			}})
			some := x.ghost(lc.E, "some", SVal)
			r = append(r, cand{name: "some tag active", f: func(st *State, s *slots) *T {
				return Implies(isTag(some, L), x.setHas(st, x.en.w, "goTag", "Symbol", some))
			}})
			return r
		},
		onReturn: func(r *Return) {
			x := r.ex
			pos := next(r.get("pos", SVal))
			r.when(r.get("failed", SBool), func(r *Return) {
				r.cover("passed on")
				r.assert("any other failure or exit passes through unchanged", Eq(r.re, r.get("err", SVal)))
			})
			r.when(Not(r.get("failed", SBool)), func(r *Return) {
				r.when(Eq(r.re, VNil), func(r *Return) {
					r.cover("value")
					r.assert("it ends only after its last form", x.none(pos))
					r.assert("its value is nil", x.none(r.rv))
				})
			})
		}})

	add(&Contract{name: "lisp:go", props: []string{"P05"},
		clause: "exits to the named tag when it is active, otherwise signals an error; evaluates nothing",
		covers: []string{"exit", "no such tag"},
		setup: func(en *Entry) {
			g := en.st.ghosts
			g["name"] = en.ex.carN(en.st, en.list)
			g["active"] = en.ex.setHas(en.st, en.w, "goTag", "Symbol", g["name"])
			g["signalled"] = False
		},
		onEvent: func(ev *Event) {
			if ev.kind == "handler" {
				ev.assert("signals only for a tag that is not active", Or(Not(ev.get("active", SBool)), Not(ev.ex.isSymbol(ev.get("name", SVal)))))
				ev.set("signalled", True)
				return
			}
			noCalls(ev)
		},
		onReturn: func(r *Return) {
			x := r.ex
			act := r.get("active", SBool)
			r.assert("it never returns normally", Not(Eq(r.re, VNil)))
			r.when(And(x.isCons(r.en.list), x.isSymbol(r.get("name", SVal))), func(r *Return) {
				r.when(act, func(r *Return) { raise(r, exitGo, r.get("name", SVal), nil) })
				r.when(Not(act), func(r *Return) {
					r.cover("no such tag")
					r.assert("the error is signalled", r.get("signalled", SBool))
				})
			})
		}})
	return cs
}

// privateMaps lists the maps created by the code under contract that nothing else can reach.
func privateMaps(lc *loopCtx, key string) []*T {
	var r []*T
	if lc.E.heaps[key] == nil {
		return nil
	}
	for l := range lc.E.local {
		if lc.E.objTyp[l].typ == nil && lc.E.objTyp[l].elem == nil {
			r = append(r, l)
		}
	}
	sortTerms(r)
	return r
}

func init() { contractSets = append(contractSets, exitContracts) }
