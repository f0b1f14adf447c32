package main

// P07: the dynamic control state is preserved by every built-in (generated frame contracts), and dynamic-let restores the
// variables it binds.
//
// The clause is an induction: every evaluation event is assumed to preserve the state (the same contract for Eval and
// Callable.Call), and each built-in, special form and Call/Eval method is proved to preserve it at every return: with a value, an
// error or a non-local exit.

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var dynFields = []string{"handler", "stdin", "blockName", "catchTag", "goTag"}

// dynWriters computes the functions that may write the dynamic control state, directly or through functions they call other
// than through evaluation events.
func (P *Program) dynWriters() map[*ssa.Function]bool {
	w := map[*ssa.Function]bool{}
	callers := map[*ssa.Function][]*ssa.Function{}
	setType := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		if !ok {
			return false
		}
		s, ok := m.Elem().Underlying().(*types.Struct)
		return ok && s.NumFields() == 0
	}
	for _, f := range P.allFuncs {
		direct := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					st := x.X.Type().Underlying().(*types.Pointer).Elem()
					if typeKey(st) != "shared" {
						break
					}
					name := st.Underlying().(*types.Struct).Field(x.Field).Name()
					hit := false
					for _, d := range dynFields {
						hit = hit || d == name
					}
					if !hit {
						break
					}
					for _, r := range *x.Referrers() {
						if u, ok := r.(*ssa.UnOp); !ok || u.X != x {
							if fa, ok := r.(*ssa.FieldAddr); ok && onlyLoaded(fa) {
								continue
							}
							direct = true
						}
					}
				case *ssa.Store:
					if typeKey(x.Val.Type()) == "shared" {
						direct = true
					}
				case *ssa.MapUpdate:
					direct = direct || setType(x.Map.Type()) && !P.ownMap(x.Map, 0)
				case ssa.CallInstruction:
					c := x.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") && setType(c.Args[0].Type()) && !P.ownMap(c.Args[0], 0) {
						direct = true
					}
					for _, g := range P.mayCall(c) {
						callers[g] = append(callers[g], f)
					}
				case *ssa.MakeClosure:
					if g, ok := x.Fn.(*ssa.Function); ok {
						callers[g] = append(callers[g], f)
					}
				}
			}
		}
		if direct {
			w[f] = true
		}
	}
	var work []*ssa.Function
	for f := range w {
		work = append(work, f)
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, g := range callers[f] {
			if !w[g] {
				w[g] = true
				if debug {
					fmt.Fprintln(os.Stderr, "DYN", P.fname(g), "->", P.fname(f))
				}
				work = append(work, g)
			}
		}
	}
	return w
}

func onlyLoaded(fa *ssa.FieldAddr) bool {
	for _, r := range *fa.Referrers() {
		if u, ok := r.(*ssa.UnOp); !ok || u.X != fa {
			return false
		}
	}
	return true
}

// mayCall: the functions a call may reach, other than the evaluation events (Eval and Call methods, function values of built-ins).
func (P *Program) mayCall(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		if c.Method.Name() == "Call" || c.Method.Name() == "Eval" {
			return nil
		}
		var r []*ssa.Function
		it, _ := c.Value.Type().Underlying().(*types.Interface)
		for _, f := range P.allFuncs {
			if rc := f.Signature.Recv(); rc != nil && f.Name() == c.Method.Name() {
				if it == nil || types.Implements(rc.Type(), it) || types.Implements(types.NewPointer(rc.Type()), it) {
					r = append(r, f)
				}
			}
		}
		return r
	}
	if g := c.StaticCallee(); g != nil {
		if g.Name() == "Eval" || g.Name() == "Call" {
			return nil
		}
		return []*ssa.Function{g}
	}
	return nil
}

// ownMap: the map was made by the function itself (or its enclosing function), or is held by a field that only ever holds maps made for
// it; such a map is none of the interpreter's sets.
func (P *Program) ownMap(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.MakeMap:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !P.ownMap(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.FreeVar:
		fn := x.Parent()
		i := -1
		for k, fv := range fn.FreeVars {
			if fv == x {
				i = k
			}
		}
		n := 0
		for _, f := range P.allFuncs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
						n++
						if !P.ownMap(mc.Bindings[i], depth+1) {
							return false
						}
					}
				}
			}
		}
		return n > 0
	case *ssa.Alloc: // a captured variable
		for _, r := range *x.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == x && !P.ownMap(s.Val, depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return P.ownField(fa)
		}
		return P.ownMap(x.X, depth+1)
	}
	return false
}

// ownField: a map field of a struct other than the interpreter's shared state: every value stored into it is a new map and
// the maps read from it are only indexed, ranged over or measured.
func (P *Program) ownField(fa *ssa.FieldAddr) bool {
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	if typeKey(t) == "shared" {
		return false
	}
	for _, f := range P.allFuncs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				o, ok := in.(*ssa.FieldAddr)
				if !ok || o.Field != fa.Field || !types.Identical(o.X.Type(), fa.X.Type()) {
					continue
				}
				for _, r := range *o.Referrers() {
					switch u := r.(type) {
					case *ssa.DebugRef:
					case *ssa.Store:
						if _, ok := u.Val.(*ssa.MakeMap); !ok {
							return false
						}
					case *ssa.UnOp:
						for _, r2 := range *u.Referrers() {
							switch y := r2.(type) {
							case *ssa.DebugRef, *ssa.Lookup, *ssa.Range:
							case *ssa.MapUpdate:
								if y.Map != u || y.Value == u {
									return false
								}
							case ssa.CallInstruction:
								if _, ok := y.Common().Value.(*ssa.Builtin); !ok {
									return false
								}
							default:
								return false
							}
						}
					default:
						return false
					}
				}
			}
		}
	}
	return true
}

type dynState struct {
	handler, stdin      *T
	block, catch, goTag *T
	blockM, catchM, goM *T
}

func dynSnapshot(ex *Exec, st *State, sh, sb, sg, nc *T) dynState {
	has := func(field, kt string, k *T) (*T, *T) {
		m := ex.readField(st, "shared", field, sh)
		return ex.inSet(st, m, kt, k), m
	}
	var d dynState
	d.handler = st.readH(st.heap("shared.handler", SVal), []*T{sh})
	d.stdin = st.readH(st.heap("shared.stdin._Reader", SVal), []*T{sh})
	d.block, d.blockM = has("blockName", "Symbol", sb)
	d.goTag, d.goM = has("goTag", "Symbol", sg)
	d.catch, d.catchM = has("catchTag", "Node", nc)
	return d
}

const dynClause = "at every return the handler, the standard input and the sets of active block names, catch tags and tagbody tags are what they were at entry"

// dynContract: in P04 and P05 the frame concerns the sets that decide which exits are active.
func dynContract(entry, prop string) *Contract {
	var d0 dynState
	var sh, sb, sg, nc *T
	name, dynClause := entry, dynClause
	blocks, tags, rest := prop != "P05", prop != "P04", prop == "P07"
	if prop != "P07" {
		name += " (frame)"
		dynClause = "at every return the sets of active names and tags are what they were at entry"
	}
	return &Contract{name: name, entry: entry, props: []string{prop}, autos: []string{"none"}, mayBeTrivial: true, clause: dynClause,
		setup: func(en *Entry) {
			x, st := en.ex, en.st
			sh, sb, sg, nc = Const("some.interpreter", SInt), Const("some.block", SVal), Const("some.tag", SVal), Const("some.catch", SVal)
			st.assume(And(Lt(IntT(0), sh), Lt(sh, st.alloc())))
			x.setBound(st, sh)
			for _, v := range []*T{sb, sg, nc} {
				x.validFact(st, v, anyType)
			}
			st.assume(And(x.isSymbol(sb), x.isSymbol(sg), x.wf(nc), Not(x.unhashable(nc))))
			d0 = dynSnapshot(x, st, sh, sb, sg, nc)
			for _, m := range []*T{d0.blockM, d0.catchM, d0.goM} {
				st.assume(And(Le(IntT(0), m), Lt(m, st.alloc())))
				x.setBound(st, m)
			}
		},
		loopCands: func(lc *loopCtx) []cand {
			x := lc.ex
			e := dynSnapshot(x, lc.E, sh, sb, sg, nc)
			keep := func(a, b *T) *T { return Or(Eq(b, IntT(0)), Eq(a, b)) }
			var r []cand
			same := func(name string, f func(d dynState) *T) {
				r = append(r, cand{name: "dyn " + name, f: func(st *State, s *slots) *T { return f(dynSnapshot(x, st, sh, sb, sg, nc)) }})
			}
			same("handler", func(d dynState) *T { return Eq(d.handler, e.handler) })
			same("stdin", func(d dynState) *T { return Eq(d.stdin, e.stdin) })
			same("block", func(d dynState) *T { return Eq(d.block, e.block) })
			same("catch", func(d dynState) *T { return Eq(d.catch, e.catch) })
			same("goTag", func(d dynState) *T { return Eq(d.goTag, e.goTag) })
			same("blockM", func(d dynState) *T { return keep(d.blockM, e.blockM) })
			same("catchM", func(d dynState) *T { return keep(d.catchM, e.catchM) })
			same("goM", func(d dynState) *T { return keep(d.goM, e.goM) })
			for _, k := range sortedKeys(lc.E.heaps) {
				if !strings.HasPrefix(k, bulkPrefix) {
					continue
				}
				k := k
				for _, c := range []struct {
					m, key, was *T
					now         func(d dynState) (*T, *T)
				}{{e.blockM, sb, d0.block, func(d dynState) (*T, *T) { return d.block, d.blockM }}, {e.goM, sg, d0.goTag, func(d dynState) (*T, *T) { return d.goTag, d.goM }},
					{e.catchM, nc, d0.catch, func(d dynState) (*T, *T) { return d.catch, d.catchM }}} {
					c := c
					r = append(r, cand{name: "pending " + k + c.key.String(), f: func(st *State, s *slots) *T {
						in, m := c.now(dynSnapshot(x, st, sh, sb, sg, nc))
						return Eq(And(in, Not(x.pending(st, k, m, c.key))), c.was)
					}})
				}
			}
			return r
		},
		onReturn: func(r *Return) {
			d := dynSnapshot(r.ex, r.st, sh, sb, sg, nc)
			if rest {
				r.assert("the handler is what it was", Eq(d.handler, d0.handler))
				r.assert("the standard input is what it was", Eq(d.stdin, d0.stdin))
			}
			if blocks {
				r.assert("the set of active block names is what it was", Eq(d.block, d0.block))
				r.assert("the set of active catch tags is what it was", Eq(d.catch, d0.catch))
			}
			if tags {
				r.assert("the set of active tagbody tags is what it was", Eq(d.goTag, d0.goTag))
			}
			keep := func(a, b *T) *T { return Or(Eq(b, IntT(0)), Eq(a, b)) }
			r.assert("the sets themselves are not replaced", And(Implies(boolT(blocks), And(keep(d.blockM, d0.blockM), keep(d.catchM, d0.catchM))), Implies(boolT(tags), keep(d.goM, d0.goM))))
		}}
}

// pending: the deletion of key from the set m is deferred by a loop of the function.
func (ex *Exec) pending(st *State, bulk string, m, key *T) *T {
	if m.op == "ite" {
		return Ite(m.args[0], ex.pending(st, bulk, m.args[1], key), ex.pending(st, bulk, m.args[2], key))
	}
	return st.readH(st.heap(bulk, SBool), []*T{m, key})
}

func dynContracts(P *Program, prop string) []*Contract {
	if prop != "P04" && prop != "P05" && prop != "P07" {
		return nil
	}
	w := P.dynWriters()
	var cs []*Contract
	for _, n := range sortedKeys(P.builtins) {
		if w[P.builtins[n].fn] {
			cs = append(cs, dynContract("lisp:"+n, prop))
		}
	}
	for _, f := range P.allFuncs {
		if w[f] && f.Signature.Recv() != nil && (f.Name() == "Call" || f.Name() == "Eval") {
			cs = append(cs, dynContract("go:"+P.fname(f), prop))
		}
	}
	return cs
}

func init() { generatedContracts = append(generatedContracts, dynContracts) }

var _ = strings.HasPrefix

// unwrapped: the object inside an already-evaluated wrapper.
func (ex *Exec) unwrapped(v *T) *T { return Ite(ex.isType(v, ex.mustType("Uneval")), Sel("vx", v), v) }

// dynamic-let: every variable it binds has its former value (or is unbound again) afterwards, all other dynamic variables are
// what the evaluations left. The initial-value forms are assumed not to redefine the variable in question themselves.
func dynamicLetContract() []*Contract {
	isVar := func(k, v *T) *T { return UF("isDynVar", SBool, k, v) }
	next := func(v *T) *T { return UF("nextInit", SVal, v) }
	dyn := func(x *Exec, st *State, w, s *T) (*T, *T) {
		m := st.readH(st.heap("shared.dynamic", SInt), []*T{st.readH(st.heap("World.shared", SInt), []*T{w})})
		has := And(Not(Eq(m, IntT(0))), st.readH(st.heap("map:Symbol,Node#dom", SBool), []*T{m, s}))
		return has, st.readH(st.heap("map:Symbol,Node#val", SVal), []*T{m, s})
	}
	same := func(h, v, h0, v0 *T) *T { return And(Eq(h, h0), Implies(h0, Eq(v, v0))) }
	c := &Contract{name: "lisp:dynamic-let", entry: "lisp:dynamic-let", props: []string{"P07"}, autos: []string{"none"}, codeImmutable: true,
		clause: "every variable bound by dynamic-let has its former value, or is unbound again, at every return; other dynamic variables are as the evaluations left them; the initial values are evaluated in order, once",
		covers: []string{"bound variable", "other variable"},
		setup: func(en *Entry) {
			x, st := en.ex, en.st
			g := st.ghosts
			outcomeSetup(en)
			g["s"] = Const("some.variable", SVal)
			x.validFact(st, g["s"], anyType)
			st.assume(x.isSymbol(g["s"]))
			x.addKey(st, g["s"])
			g["vars"] = x.carN(st, en.list)
			g["pos"] = g["vars"]
			g["body"] = x.cdrN(st, en.list)
			m := st.readH(st.heap("shared.dynamic", SInt), []*T{st.readH(st.heap("World.shared", SInt), []*T{en.w})})
			st.assume(And(Le(IntT(0), m), Lt(m, st.alloc())))
			x.setBound(st, m)
			h, v := dyn(x, st, en.w, g["s"])
			g["h0"], g["v0"], g["h"], g["v"], g["ph"], g["pv"], g["init"] = h, v, h, v, h, v, False
		},
		onEvent: func(ev *Event) {
			x, st := ev.ex, ev.st
			if ev.kind == "handler" {
				h, v := dyn(x, st, ev.en.w, ev.get("s", SVal))
				ev.set("ph", h)
				ev.set("pv", v)
				ev.set("init", True)
				return
			}
			if !isEval(ev) {
				noCalls(ev)
				return
			}
			pos := next(ev.get("pos", SVal))
			init := x.isCons(pos)
			item := x.carN(st, pos)
			body := ev.get("body", SVal)
			form := Ite(init, x.carN(st, x.cdrN(st, item)), x.carN(st, body))
			evalHere(ev, form)
			ev.assert("a form is left", Or(init, x.isCons(body)))
			h, v := dyn(x, st, ev.en.w, ev.get("s", SVal))
			ev.set("ph", h)
			ev.set("pv", v)
			ev.set("init", init)
			ev.set("pos", Ite(init, x.cdrN(st, pos), ev.get("pos", SVal)))
			ev.set("body", Ite(init, body, x.cdrN(st, body)))
		},
		after: func(ev *Event) {
			outcomeAfter(ev)
			x, st := ev.ex, ev.st
			if ev.kind == "handler" { // a handler that continues with another variable than the one written is out of scope
				st.assume(Not(Eq(ev.re, VNil)))
			}
			h, v := dyn(x, st, ev.en.w, ev.get("s", SVal))
			st.assume(Implies(ev.get("init", SBool), same(h, v, ev.get("ph", SBool), ev.get("pv", SVal))))
			ev.set("h", h)
			ev.set("v", v)
		},
		recs: []recSpec{{name: "dynamic-let variables",
			at: func(ex *Exec, st *State, v, car, cdr *T) *T {
				return Implies(ex.isCons(v), Eq(next(v), Ite(ex.isSymbol(car), next(cdr), v)))
			},
			base: func(ex *Exec, st *State) *T {
				n := ex.nullVal()
				return And(Eq(next(n), n), Eq(next(VNil), VNil))
			},
			keyed: func(ex *Exec, st *State, k, v, car, cdr *T) *T {
				return Implies(ex.isCons(v), Eq(isVar(k, v), Or(Eq(car, k), And(ex.isCons(car), Eq(ex.unwrapped(st.readH(st.heap("Cons.Car", SVal), []*T{Sel("vp", car)})), k)), isVar(k, cdr))))
			},
			keyBase: func(ex *Exec, st *State, k *T) *T {
				return And(Not(isVar(k, ex.nullVal())), Not(isVar(k, VNil)))
			}}},
		loopCands: func(lc *loopCtx) []cand {
			x := lc.ex
			g := func(st *State, n string, s Sort) *T { return x.ghost(st, n, s) }
			s := x.ghost(lc.E, "s", SVal)
			w := x.en.w
			L := x.ghost(lc.E, "vars", SVal)
			h0, v0 := x.ghost(lc.E, "h0", SBool), x.ghost(lc.E, "v0", SVal)
			var r []cand
			add := func(name string, f func(st *State, sl *slots) *T) { r = append(r, cand{name: "dyn " + name, f: f}) }
			now := func(st *State) (*T, *T) { return dyn(x, st, w, s) }
			has := func(st *State, key string, m *T) *T { return readHeap(st, st.heap(key+"#dom", SBool), []*T{m, s}) }
			const B, R = "map:Symbol,Node", "map:Symbol,struct{}"
			bs, rs := privateMaps(lc, B+"#dom"), privateMaps(lc, R+"#dom")
			add("unchanged", func(st *State, _ *slots) *T { h, v := now(st); eh, evv := now(lc.E); return same(h, v, eh, evv) })
			add("other", func(st *State, _ *slots) *T {
				h, v := now(st)
				return Implies(Not(isVar(s, L)), same(h, v, g(st, "h", SBool), g(st, "v", SVal)))
			})
			for _, n := range lc.entry.names {
				n := n
				if lc.entry.val[n].sort != SVal || strings.HasPrefix(n, "ghost:") {
					continue
				}
				add("next "+n, func(st *State, sl *slots) *T { return Eq(next(sl.val[n]), next(g(st, "pos", SVal))) })
				add("vars "+n, func(st *State, sl *slots) *T { return Implies(isVar(s, sl.val[n]), isVar(s, L)) })
				add("body "+n, func(st *State, sl *slots) *T { return x.same(sl.val[n], g(st, "body", SVal)) })
			}
			add("no failure", func(st *State, _ *slots) *T { return Not(g(st, "failed", SBool)) })
			add("inits done", func(st *State, _ *slots) *T { return Not(x.isCons(next(g(st, "pos", SVal)))) })
			for _, b := range bs {
				b := b
				add("saved has "+b.String(), func(st *State, _ *slots) *T { return Implies(has(st, B, b), And(h0, isVar(s, L))) })
				add("saved val "+b.String(), func(st *State, _ *slots) *T {
					return Implies(has(st, B, b), Eq(readHeap(st, st.heap(B+"#val", SVal), []*T{b, s}), v0))
				})
				for _, m := range rs {
					m := m
					add("not bound yet "+b.String()+m.String(), func(st *State, _ *slots) *T {
						h, v := now(st)
						return Or(has(st, B, b), has(st, R, m), Not(isVar(s, L)), same(h, v, h0, v0))
					})
				}
				add("to restore "+b.String(), func(st *State, _ *slots) *T {
					h, v := now(st)
					return Or(has(st, B, b), Not(isVar(s, L)), same(h, v, h0, v0))
				})
				for _, m := range rs {
					m := m
					bound := func(st *State) *T { return Or(has(st, B, b), has(st, R, m)) }
					add("all bound "+b.String()+m.String(), func(st *State, _ *slots) *T { return Implies(isVar(s, L), bound(st)) })
					for _, n := range lc.entry.names {
						n := n
						if lc.entry.val[n].sort == SVal && !strings.HasPrefix(n, "ghost:") {
							add("bound or left "+n+b.String()+m.String(), func(st *State, sl *slots) *T { return Implies(isVar(s, L), Or(isVar(s, sl.val[n]), bound(st))) })
						}
					}
				}
				r = append(r, cand{name: "dyn saved kept " + b.String(), all: &allCand{key: B + "#dom", sort: SBool, f: func(cur, st *State, sl *slots, ks []*T, v, _ *T) *T {
					return Implies(Eq(ks[0], b), Eq(v, readHeap(cur, lc.E.heap(B+"#dom", SBool), []*T{b, ks[1]})))
				}}})
				r = append(r, cand{name: "dyn saved values kept " + b.String(), all: &allCand{key: B + "#val", sort: SVal, f: func(cur, st *State, sl *slots, ks []*T, v, _ *T) *T {
					return Implies(Eq(ks[0], b), Eq(v, readHeap(cur, lc.E.heap(B+"#val", SVal), []*T{b, ks[1]})))
				}}})
			}
			for _, m := range rs {
				m := m
				add("removed "+m.String(), func(st *State, _ *slots) *T { return Implies(has(st, R, m), And(Not(h0), isVar(s, L))) })
			}
			for _, k := range sortedKeys(lc.E.heaps) {
				if !strings.HasPrefix(k, "ghost.vis") {
					continue
				}
				k := k
				vis := func(st *State) *T { return readHeap(st, st.heap(k, SBool), []*T{s}) }
				add("removing "+k, func(st *State, _ *slots) *T {
					h, v := now(st)
					eh, evv := now(lc.E)
					return And(Implies(vis(st), Not(h)), Implies(Not(vis(st)), same(h, v, eh, evv)))
				})
				add("restoring "+k, func(st *State, _ *slots) *T {
					h, v := now(st)
					eh, evv := now(lc.E)
					return Or(And(vis(st), h, Eq(v, v0)), And(Not(vis(st)), same(h, v, eh, evv)))
				})
				for _, m := range rs {
					m := m
					add("visited in "+k+m.String(), func(st *State, _ *slots) *T { return Implies(vis(st), has(st, R, m)) })
				}
				for _, m := range bs {
					m := m
					add("backed up in "+k+m.String(), func(st *State, _ *slots) *T { return Implies(vis(st), has(st, B, m)) })
				}
			}
			return r
		},
		onReturn: func(r *Return) {
			x := r.ex
			s := r.get("s", SVal)
			h, v := dyn(x, r.st, r.en.w, s)
			r.when(isVar(s, r.get("vars", SVal)), func(r *Return) {
				r.cover("bound variable")
				r.assert("a bound variable is what it was before", same(h, v, r.get("h0", SBool), r.get("v0", SVal)))
			})
			r.when(Not(isVar(s, r.get("vars", SVal))), func(r *Return) {
				r.cover("other variable")
				r.assert("other variables are as the evaluations left them", same(h, v, r.get("h", SBool), r.get("v", SVal)))
			})
			r.when(r.get("failed", SBool), func(r *Return) {
				r.assert("the failure of an evaluation is passed on", Eq(r.re, r.get("err", SVal)))
			})
			r.when(Eq(r.re, VNil), func(r *Return) {
				r.assert("all forms were evaluated", And(Not(x.isCons(next(r.get("pos", SVal)))), x.none(r.get("body", SVal))))
			})
		}}
	return []*Contract{c}
}

func init() { contractSets = append(contractSets, dynamicLetContract) }
