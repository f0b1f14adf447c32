package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P28: independent interpreters.
//
// What an interpreter is made of (its shared record, its function table, its dynamic variables, its generic functions) is made
// new by New, and no built-in changes what belongs to another interpreter or anything at package level.

// globalUses: what a function does to package-level variables other than reading them.
func (P *Program) globalUses(f *ssa.Function) map[string]string {
	r := map[string]string{}
	var follow func(g *ssa.Global, v ssa.Value, depth int)
	follow = func(g *ssa.Global, v ssa.Value, depth int) {
		// v is the address of the variable (depth 0) or of something in it
		for _, u := range *v.Referrers() {
			if u.Parent() != f {
				continue
			}
			switch x := u.(type) {
			case *ssa.DebugRef:
			case *ssa.Store:
				if x.Addr == v {
					r[g.Name()] = "store"
				} else {
					r[g.Name()] = "address kept"
				}
			case *ssa.UnOp:
				// the value: a map may be updated, an object it points to changed
				loaded(P, f, g, x, r, 0)
			case *ssa.FieldAddr:
				follow(g, x, depth+1)
			case *ssa.IndexAddr:
				follow(g, x, depth+1)
			default:
				r[g.Name()] = fmt.Sprintf("address used by %T", u)
			}
		}
	}
	seen := map[*ssa.Global]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				g, ok := (*op).(*ssa.Global)
				if !ok || seen[g] {
					continue
				}
				seen[g] = true
				for _, u := range globalRefs(f, g) {
					switch x := u.(type) {
					case *ssa.Store:
						if x.Addr == g {
							r[g.Name()] = "store"
						} else {
							r[g.Name()] = "address kept"
						}
					case *ssa.UnOp:
						loaded(P, f, g, x, r, 0)
					case *ssa.FieldAddr:
						follow(g, x, 1)
					case *ssa.IndexAddr:
						follow(g, x, 1)
					case *ssa.DebugRef:
					default:
						r[g.Name()] = fmt.Sprintf("address used by %T", u)
					}
				}
			}
		}
	}
	return r
}

func globalRefs(f *ssa.Function, g *ssa.Global) []ssa.Instruction {
	var r []ssa.Instruction
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == g {
					r = append(r, in)
					break
				}
			}
		}
	}
	return r
}

// loaded: uses of a value read from a package-level variable that change what it refers to.
func loaded(P *Program, f *ssa.Function, g *ssa.Global, v ssa.Value, r map[string]string, depth int) {
	if depth > 4 {
		return
	}
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.MapUpdate:
			if x.Map == v {
				r[g.Name()] = "map update"
			}
		case *ssa.FieldAddr:
			for _, w := range *x.Referrers() {
				switch y := w.(type) {
				case *ssa.Store:
					if y.Addr == x {
						r[g.Name()] = "field store"
					}
				case *ssa.UnOp:
					loaded(P, f, g, y, r, depth+1)
				}
			}
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") && x.Call.Args[0] == v {
				r[g.Name()] = "map delete"
			}
		case *ssa.ChangeType:
			loaded(P, f, g, x, r, depth+1)
		}
	}
}

func (P *Program) listGlobalUses() {
	for _, f := range P.allFuncs {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		u := P.globalUses(f)
		for _, k := range sortedKeys(u) {
			fmt.Fprintln(os.Stderr, "GLOBAL", P.fname(f), k, u[k])
		}
	}
}

var _ = types.Identical

// foreign names what belongs to another interpreter: its shared record, its function table, its dynamic variables, and one
// object that its functions are made of (a generic function, or a library function with its compiled code).
type foreign struct{ sh, funcs, dyn, obj, s *T }

func newForeign(x *Exec, st *State) *foreign {
	f := &foreign{Const("other.shared", SInt), Const("other.functions", SInt), Const("other.dynamic", SInt), Const("other.object", SInt), Const("other.name", SVal)}
	for _, r := range []*T{f.sh, f.funcs, f.dyn, f.obj} {
		st.assume(And(Lt(IntT(0), r), Lt(r, st.alloc()), Not(x.isTableRef(r))))
		x.setBound(st, r)
	}
	x.validFact(st, f.s, anyType)
	st.assume(x.isSymbol(f.s))
	x.addKey(st, f.s)
	x.Assump["what two interpreters refer to is different at the start of a call (shown of New, which makes it, and kept by every built-in); objects are not passed from one interpreter to another by Go code; global variables are shared by design"] = true
	return f
}

// isTableRef: the reference is that of a package-level table.
func (ex *Exec) isTableRef(r *T) *T {
	c := False
	for _, gi := range ex.P.globals {
		if gi != nil && !gi.mutable && gi.ref != 0 {
			c = Or(c, Eq(r, IntT(gi.ref)))
		}
	}
	return c
}

// fact: what the code under contract reads (from what belongs to its own interpreter) does not refer to the other.
func (f *foreign) fact(x *Exec) func(st *State, key string, ks []*T, v *T) {
	kinds := x.P.tableKinds()
	return func(st *State, key string, ks []*T, v *T) {
		if len(ks) == 0 || ks[0].sort != SInt {
			return
		}
		if key == "map:Symbol,Callable#val" && ks[0].lit != nil && len(kinds) > 0 {
			c := False
			for _, t := range kinds {
				c = Or(c, x.isType(v, t))
			}
			st.assume(Implies(x.isTableRef(ks[0]), c))
			x.Assump["the package's table of functions holds what it is initialised with (Go programs that embed the interpreter may add to it)"] = true
		}
		own := True
		switch {
		case strings.HasPrefix(key, "shared."):
			own = Not(Eq(ks[0], f.sh))
		case strings.HasPrefix(key, "map:Symbol,Callable"):
			own = Not(Eq(ks[0], f.funcs))
		case strings.HasPrefix(key, "map:Symbol,Node"):
			own = Not(Eq(ks[0], f.dyn))
		case strings.HasPrefix(key, "_Generic."), strings.HasPrefix(key, "LispString."):
			own = Not(Eq(ks[0], f.obj))
		}
		switch {
		case v.sort == SVal:
			st.assume(Implies(own, f.ownVal(x, v)))
		case v.sort == SInt:
			if t := x.P.keyType(key); t != nil {
				st.assume(Implies(own, f.ownArg(x, v, t)))
			}
		}
	}
}

// ownAll: whatever a call returns.
func (f *foreign) ownAll(x *Exec, st *State, v Value) {
	switch v := v.(type) {
	case *T:
		if v.sort == SVal {
			st.assume(f.ownVal(x, v))
		}
	case TupleV:
		for _, e := range v {
			f.ownAll(x, st, e)
		}
	case StructV:
		for _, e := range v.fields {
			f.ownAll(x, st, e)
		}
	}
}

// ownVal: the value is none of the other interpreter's things.
func (f *foreign) ownVal(x *Exec, v *T) *T {
	return And(f.ownVal1(x, v), Implies(Is("VX", v), f.ownVal1(x, Sel("vx", v))))
}

func (f *foreign) ownVal1(x *Exec, v *T) *T {
	c := Implies(Or(x.isType(v, x.mustType("*_Generic")), x.isType(v, x.mustType("*LispString"))), Not(Eq(Sel("vp", v), f.obj)))
	for _, n := range []string{"_RootWorld", "Functions", "Variables"} {
		t := x.mustType(n)
		r := Sel(valSel[ifaceKind(t)][1], v)
		c = And(c, Implies(x.isType(v, t), And(Not(Eq(r, f.funcs)), Not(Eq(r, f.dyn)))))
	}
	return c
}

var sharedFields = []string{"handler", "global", "defun", "dynamic", "stdout", "errout", "blockName", "catchTag", "goTag"}

// snapshot: everything that belongs to the other interpreter.
func (f *foreign) snapshot(x *Exec, st *State) map[string]*T {
	r := map[string]*T{}
	for _, n := range sharedFields {
		if x.P.fieldType("shared", n) != nil {
			r["the record's "+n] = x.readField(st, "shared", n, f.sh)
		}
	}
	r["the record's stdin"] = st.readH(st.heap("shared.stdin._Reader", SVal), []*T{f.sh})
	r["its function table"] = st.readH(st.heap("map:Symbol,Callable#dom", SBool), []*T{f.funcs, f.s})
	r["its functions"] = Ite(r["its function table"], st.readH(st.heap("map:Symbol,Callable#val", SVal), []*T{f.funcs, f.s}), VNil)
	r["its dynamic variables"] = st.readH(st.heap("map:Symbol,Node#dom", SBool), []*T{f.dyn, f.s})
	r["the values of its dynamic variables"] = Ite(r["its dynamic variables"], st.readH(st.heap("map:Symbol,Node#val", SVal), []*T{f.dyn, f.s}), VNil)
	ms := x.sliceField(st, "_Generic.methods", f.obj)
	r["the methods of its generic functions"], r["the number of methods"] = ms.arr, ms.len
	r["its compiled library functions"] = x.readField(st, "LispString", "compile", f.obj)
	return r
}

func (f *foreign) same(a, b map[string]*T) *T {
	c := True
	for _, k := range sortedKeys(a) {
		c = And(c, Eq(a[k], b[k]))
	}
	return c
}

// ownArg: a parameter or result refers to nothing of the other interpreter.
func (f *foreign) ownArg(x *Exec, v Value, t types.Type) *T {
	tv, ok := v.(*T)
	if !ok {
		return True
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		switch typeKey(u.Elem()) {
		case "shared":
			return Not(Eq(tv, f.sh))
		case "_Generic", "LispString":
			return Not(Eq(tv, f.obj))
		}
	case *types.Map:
		switch mapKey(u) {
		case "map:Symbol,Callable":
			return Not(Eq(tv, f.funcs))
		case "map:Symbol,Node":
			return Not(Eq(tv, f.dyn))
		}
	case *types.Interface:
		if typeKey(t) == "Symbol" {
			return True
		}
		return f.ownVal(x, tv)
	}
	return True
}

// keyType: the Go type of what a memory key holds (nil: not a field or cell of a named type of the package).
func (P *Program) keyType(key string) types.Type {
	if c := strings.TrimPrefix(key, "cell:"); c != key {
		if o := P.main.Pkg.Scope().Lookup(c); o != nil {
			return o.Type()
		}
		return nil
	}
	i := strings.IndexByte(key, '.')
	if i < 0 {
		return nil
	}
	return P.fieldType(key[:i], key[i+1:])
}

func (P *Program) fieldType(typ, field string) types.Type {
	o := P.main.Pkg.Scope().Lookup(typ)
	if o == nil {
		return nil
	}
	s, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			return s.Field(i).Type()
		}
	}
	return nil
}

// frame adds to a contract that nothing of another interpreter changes.
func foreignFrame(c *Contract) *Contract {
	var f *foreign
	var was map[string]*T
	setup, after, onReturn, cands, onEvent := c.setup, c.after, c.onReturn, c.loopCands, c.onEvent
	c.setup = func(en *Entry) {
		x, st := en.ex, en.st
		f = newForeign(x, st)
		was = f.snapshot(x, st) // before the fact is in force
		c.readFact = f.fact(x)
		for _, a := range en.args {
			if t, ok := a.(*T); ok {
				if t.sort == SVal {
					st.assume(f.ownVal(x, t))
				} else if t.sort == SInt {
					st.assume(And(Not(Eq(t, f.sh)), Not(Eq(t, f.funcs)), Not(Eq(t, f.dyn)), Not(Eq(t, f.obj))))
				}
			}
		}
		for _, t := range []*T{en.arg, en.arg2, en.list} {
			if t != nil {
				st.assume(f.ownVal(x, t))
			}
		}
		if setup != nil {
			setup(en)
		}
	}
	c.onEvent = func(ev *Event) {
		if fn := ev.ex.P.findFunc(ev.kind); fn != nil {
			for i, p := range fn.Params {
				if i < len(ev.args) {
					ev.assert(ev.kind+" gets nothing of another interpreter", f.ownArg(ev.ex, ev.args[i], p.Type()))
				}
			}
		}
		if onEvent != nil {
			onEvent(ev)
		}
	}
	c.after = func(ev *Event) {
		x, st := ev.ex, ev.st
		st.assume(f.same(f.snapshot(x, st), was))
		if ev.rv != nil && ev.rv.sort == SVal {
			st.assume(f.ownVal(x, ev.rv))
		}
		if ev.re != nil && ev.re.sort == SVal {
			st.assume(f.ownVal(x, ev.re))
		}
		f.ownAll(x, st, ev.res)
		if fn := x.P.findFunc(ev.kind); fn != nil && ev.res != nil {
			rs := fn.Signature.Results()
			if tv, ok := ev.res.(TupleV); ok {
				for i := range tv {
					st.assume(f.ownArg(x, tv[i], rs.At(i).Type()))
				}
			} else if rs.Len() == 1 {
				st.assume(f.ownArg(x, ev.res, rs.At(0).Type()))
			}
		}
		if after != nil {
			after(ev)
		}
	}
	c.loopCands = func(lc *loopCtx) []cand {
		var r []cand
		if cands != nil {
			r = cands(lc)
		}
		x := lc.ex
		for _, k := range sortedKeys(was) {
			k := k
			r = append(r, cand{name: "foreign " + k, f: func(st *State, s *slots) *T { return Eq(f.snapshot(x, st)[k], was[k]) }})
		}
		for _, n := range lc.entry.names {
			n := n
			switch lc.entry.val[n].sort {
			case SVal:
				r = append(r, cand{name: "own " + n, f: func(st *State, s *slots) *T { return f.ownVal(x, s.val[n]) }})
			case SInt:
				r = append(r, cand{name: "own ref " + n, f: func(st *State, s *slots) *T {
					v := s.val[n]
					return And(Not(Eq(v, f.sh)), Not(Eq(v, f.funcs)), Not(Eq(v, f.dyn)), Not(Eq(v, f.obj)))
				}})
			}
		}
		return r
	}
	c.onReturn = func(r *Return) {
		now := f.snapshot(r.ex, r.st)
		for _, k := range sortedKeys(was) {
			r.assert("of another interpreter unchanged: "+k, Eq(now[k], was[k]))
		}
		own := True
		if fn := r.ex.P.findFunc(strings.TrimPrefix(c.entry, "go:")); r.res != nil && fn != nil {
			rs := fn.Signature.Results()
			if tv, ok := r.res.(TupleV); ok {
				for i := range tv {
					own = And(own, f.ownArg(r.ex, tv[i], rs.At(i).Type()))
				}
			} else if rs.Len() == 1 {
				own = f.ownArg(r.ex, r.res, rs.At(0).Type())
			}
		} else if r.rv != nil {
			own = f.ownArg(r.ex, r.rv, anyType)
		}
		r.assert("the result is nothing of another interpreter", own)
		if onReturn != nil {
			onReturn(r)
		}
	}
	return c
}

func instContracts() []*Contract {
	var cs []*Contract
	add := func(c *Contract) {
		c.props = []string{"P28"}
		c.entry = c.name
		if c.autos == nil {
			c.autos = []string{"none"}
		}
		cs = append(cs, foreignFrame(c))
	}
	mapRef := func(x *Exec, v *T, typ string) *T { return Sel(valSel[ifaceKind(x.mustType(typ))][1], v) }
	k := Const("some.symbol", SVal)
	add(&Contract{name: "go:New", clause: "a new interpreter has a record, a function table, dynamic variables, streams and generic functions of its own, no handler and no definitions; nothing that exists is changed",
		covers: []string{"made"},
		setup: func(en *Entry) {
			x, st := en.ex, en.st
			en.st.ghosts["alloc0"] = st.alloc()
			x.validFact(st, k, anyType)
			st.assume(x.isSymbol(k))
			x.addKey(st, k)
		},
		onReturn: func(r *Return) {
			x, st := r.ex, r.st
			r.cover("made")
			a0 := r.get("alloc0", SInt)
			w := r.res.(*T)
			fresh := func(name string, t *T) { r.assert(name+" is its own", Le(a0, t)) }
			fresh("the world", w)
			sh := x.readField(st, "World", "shared", w)
			fresh("the record", sh)
			fresh("the table of dynamic variables", x.readField(st, "shared", "dynamic", sh))
			d := x.readField(st, "shared", "dynamic", sh)
			r.assert("no dynamic variable is defined", Not(st.readH(st.heap("map:Symbol,Node#dom", SBool), []*T{d, k})))
			for _, v := range []struct {
				n string
				t *T
			}{{"the function table", x.readField(st, "shared", "defun", sh)}, {"the outermost function scope", x.readField(st, "World", "funcs", w)}} {
				m := mapRef(x, v.t, "_RootWorld")
				r.assert(v.n+" is a table", x.isType(v.t, x.mustType("_RootWorld")))
				fresh(v.n, m)
				has := st.readH(st.heap("map:Symbol,Callable#dom", SBool), []*T{m, k})
				val := st.readH(st.heap("map:Symbol,Callable#val", SVal), []*T{m, k})
				r.assert("what "+v.n+" holds is its own", Implies(has, And(Is("VP", val), Le(a0, Sel("vp", val)))))
				r.assert("no method is defined", Implies(And(has, x.isType(val, x.mustType("*_Generic"))), Eq(x.sliceField(st, "_Generic.methods", Sel("vp", val)).len, IntT(0))))
			}
			r.assert("functions are looked up where they are defined", Eq(x.readField(st, "shared", "defun", sh), x.readField(st, "World", "funcs", w)))
			fresh("the output", x.readField(st, "shared", "stdout", sh))
			fresh("the error output", x.readField(st, "shared", "errout", sh))
			r.assert("no handler", Eq(x.readField(st, "shared", "handler", sh), VNil))
			r.assert("no outer world", Eq(x.readField(st, "World", "parent", w), IntT(0)))
			for _, n := range []string{"blockName", "catchTag", "goTag"} {
				t := x.readField(st, "shared", n, sh)
				r.assert("no exits: "+n, Or(Eq(t, IntT(0)), Le(a0, t)))
			}
			// the package level
			ks := x.P.tableKinds()
			r.assert("the kinds of the package's functions are known", boolT(len(ks) > 0))
			for _, t := range ks {
				r.assert("the package's functions of this kind have no state: "+typeKey(t), boolT(x.P.stateless(t)))
			}
			for _, u := range x.P.packageWrites() {
				r.assert("package level: "+u.what, boolT(u.ok))
			}
		}})
	has := func(st *State, m, k *T) *T { return st.readH(st.heap("map:Symbol,Callable#dom", SBool), []*T{m, k}) }
	val := func(st *State, m, k *T) *T { return st.readH(st.heap("map:Symbol,Callable#val", SVal), []*T{m, k}) }
	for _, op := range []string{"Get", "Set"} {
		op := op
		var h0, v0, a0 *T
		add(&Contract{name: "go:(_RootWorld)." + op, clause: "the function table of one interpreter changes at the name only; a library function is put into it as an object of its own",
			setup: func(en *Entry) {
				x, st := en.ex, en.st
				x.validFact(st, k, anyType)
				st.assume(x.isSymbol(k))
				x.addKey(st, k)
				st.assume(Not(x.isTableRef(en.args[0].(*T))))
				m, s := en.args[0].(*T), en.args[1].(*T)
				a0 = st.alloc()
				h0, v0 = has(st, m, k), val(st, m, k)
				st.ghosts["h"], st.ghosts["v"] = has(st, m, s), val(st, m, s)
			},
			onReturn: func(r *Return) {
				x, st := r.ex, r.st
				m, s := r.en.args[0].(*T), r.en.args[1].(*T)
				r.assert("no other name changes", Implies(Not(Eq(k, s)), And(Eq(has(st, m, k), h0), Implies(h0, Eq(val(st, m, k), v0)))))
				if op == "Set" {
					r.assert("the definition is stored", And(has(st, m, s), Eq(val(st, m, s), r.en.args[2].(*T))))
					return
				}
				tv := r.res.(TupleV)
				v, ok := tv[0].(*T), tv[1].(*T)
				h, was := r.get("h", SBool), r.get("v", SVal)
				r.when(h, func(r *Return) {
					r.assert("a definition of this interpreter is found", And(ok, Eq(v, was)))
					r.assert("and stays", And(has(r.st, m, s), Eq(val(r.st, m, s), was)))
				})
				r.when(And(Not(h), ok), func(r *Return) {
					ls := And(x.isType(v, x.mustType("*LispString")), Le(a0, Sel("vp", v)), Eq(x.readField(r.st, "LispString", "compile", Sel("vp", v)), VNil))
					r.assert("else one of the package's functions that have no state, or a library function of its own",
						Or(And(Not(has(r.st, m, s)), x.statelessCallable(v)), And(has(r.st, m, s), Eq(val(r.st, m, s), v), ls)))
				})
				r.when(Not(ok), func(r *Return) { r.assert("nothing is defined", Not(has(r.st, m, s))) })
				_ = st
			}})
	}
	// a library function is compiled by the interpreter that calls it
	cs = append(cs, func() *Contract {
		compiled := func(x *Exec, st *State, en *Entry) *T {
			return x.readField(st, "LispString", "compile", en.args[0].(*T))
		}
		var c *Contract
		c = &Contract{name: "go:(*LispString).Eval", entry: "go:(*LispString).Eval", props: []string{"P28"}, autos: []string{"none"}, covers: []string{"compiled", "kept"},
			clause:     "a library function is compiled once, in the outermost environment of the interpreter that calls it; the result is kept in the function's own record",
			eventFuncs: map[string]string{"(*World).Interpret": "interpret"},
			setup: func(en *Entry) {
				x, st := en.ex, en.st
				w := en.args[2].(*T)
				st.ghosts["done"], st.ghosts["value"], st.ghosts["err"], st.ghosts["was"] = False, VNil, VNil, compiled(x, st, en)
				sh := x.readField(st, "World", "shared", w)
				st.ghosts["sh"] = sh
				c.readFact = func(st *State, key string, ks []*T, v *T) {
					if key == "World.parent" && len(ks) == 1 {
						st.assume(Implies(Not(Eq(v, IntT(0))), Eq(x.readField(st, "World", "shared", v), x.readField(st, "World", "shared", ks[0]))))
					}
				}
				x.Assump["an environment and the environment around it belong to the same interpreter (shown of Let and Flet, which make environments)"] = true
			},
			loopCands: func(lc *loopCtx) []cand {
				x := lc.ex
				var r []cand
				for _, n := range lc.entry.names {
					n := n
					if lc.entry.val[n].sort == SInt {
						r = append(r, cand{name: "same interpreter " + n, f: func(st *State, s *slots) *T {
							return And(Not(Eq(s.val[n], IntT(0))), Eq(x.readField(st, "World", "shared", s.val[n]), x.ghost(st, "sh", SInt)))
						}})
					}
				}
				return r
			},
			onEvent: func(ev *Event) {
				x, st := ev.ex, ev.st
				if ev.kind != "interpret" {
					ev.assert("nothing else is called", False)
					return
				}
				root := ev.args[0].(*T)
				ev.assert("compiled by the calling interpreter", Eq(x.readField(st, "World", "shared", root), ev.get("sh", SInt)))
				ev.assert("in its outermost environment", Eq(x.readField(st, "World", "parent", root), IntT(0)))
				ev.assert("not compiled twice", And(Not(ev.get("done", SBool)), Eq(ev.get("was", SVal), VNil)))
			},
			after: func(ev *Event) {
				ev.set("done", True)
				ev.set("value", ev.rv)
				ev.set("err", ev.re)
			},
			onReturn: func(r *Return) {
				x := r.ex
				done, was, now := r.get("done", SBool), r.get("was", SVal), compiled(r.ex, r.st, r.en)
				_ = x
				r.when(Not(done), func(r *Return) {
					r.cover("kept")
					r.assert("what was compiled before is the value", And(Eq(r.re, VNil), Eq(r.rv, was), Eq(now, was), Not(Eq(was, VNil))))
				})
				r.when(And(done, Eq(r.get("err", SVal), VNil)), func(r *Return) {
					r.cover("compiled")
					r.assert("the compiled function is the value and is kept", And(Eq(r.re, VNil), Eq(r.rv, r.get("value", SVal)), Eq(now, r.rv)))
				})
				r.when(And(done, Not(Eq(r.get("err", SVal), VNil))), func(r *Return) {
					r.assert("a failure is reported", Eq(r.re, r.get("err", SVal)))
				})
			}}
		return c
	}())
	for _, n := range []string{"Let", "Flet"} {
		add(&Contract{name: "go:(*World)." + n, clause: "an inner environment belongs to the same interpreter",
			onReturn: func(r *Return) {
				x := r.ex
				r.assert("it is inside the given one", Eq(x.readField(r.st, "World", "parent", r.res.(*T)), r.en.args[0].(*T)))
				r.assert("the same interpreter", Eq(x.readField(r.st, "World", "shared", r.res.(*T)), x.readField(r.st, "World", "shared", r.en.args[0].(*T))))
			}})
	}
	return cs
}

// tableKinds are the types of the functions that the package's table of built-in functions is initialised with (nil: not known).
func (P *Program) tableKinds() []types.Type {
	seen := map[string]types.Type{}
	it, _ := P.main.Pkg.Scope().Lookup("Callable").Type().Underlying().(*types.Interface)
	for _, f := range P.allFuncs {
		if f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || it == nil || !types.Identical(mu.Value.Type().Underlying(), it) {
					continue
				}
				v := mu.Value
				for {
					if c, ok := v.(*ssa.ChangeInterface); ok {
						v = c.X
						continue
					}
					break
				}
				mi, ok := v.(*ssa.MakeInterface)
				if !ok {
					return nil
				}
				seen[typeKey(mi.X.Type())] = mi.X.Type()
			}
		}
	}
	var r []types.Type
	for _, k := range sortedKeys(seen) {
		r = append(r, seen[k])
	}
	return r
}

// stateless: no field of an object of the type is written after its construction.
func (P *Program) stateless(t types.Type) bool {
	e := t
	if p, ok := t.Underlying().(*types.Pointer); ok {
		e = p.Elem()
	}
	switch s := e.Underlying().(type) {
	case *types.Map, *types.Slice, *types.Chan, *types.Interface:
		return false
	case *types.Struct:
		for i := 0; i < s.NumFields(); i++ {
			if !P.immutableKey(typeKey(e) + "." + s.Field(i).Name()) {
				return false
			}
		}
	}
	return true
}

func (ex *Exec) statelessCallable(v *T) *T {
	c := False
	for _, t := range ex.P.tableKinds() {
		if ex.P.stateless(t) {
			c = Or(c, ex.isType(v, t))
		}
	}
	return c
}

type pkgWrite struct {
	what string
	ok   bool
}

// packageWrites: every function that can run in an interpreter, and what it does to package-level variables.
func (P *Program) packageWrites() []pkgWrite {
	reach := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if reach[f] {
			return
		}
		reach[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && P.inRepo(g) {
						visit(g)
					}
				}
			}
		}
	}
	var trace *ssa.Function
	for n, b := range P.builtins {
		visit(b.fn)
		if n == "trace" {
			trace = b.fn
		}
	}
	for _, f := range P.allFuncs {
		if f.Signature.Recv() != nil || f.Name() == "New" {
			visit(f)
		}
	}
	traced := map[string]bool{}
	if trace != nil {
		for g := range P.globalUses(trace) {
			traced[g] = true // the debugging aid: which functions report their calls is kept for the whole process
		}
	}
	var r []pkgWrite
	for _, f := range P.allFuncs {
		if !reach[f] || f.Name() == "init" || f.Pkg != P.main && f.Pkg != nil {
			continue
		}
		u := P.globalUses(f)
		bad := []string{}
		for _, g := range sortedKeys(u) {
			gl, _ := P.main.Members[g].(*ssa.Global)
			if traced[g] || gl != nil && allowedShared(gl.Type().(*types.Pointer).Elem()) {
				continue
			}
			bad = append(bad, g+" ("+u[g]+")")
		}
		what := P.fname(f) + " changes no package-level variable"
		if len(bad) > 0 {
			what += ": " + strings.Join(bad, ", ")
		}
		r = append(r, pkgWrite{what, len(bad) == 0})
	}
	return r
}

// allowedShared: the tables of names (symbols are the same in all interpreters) and of global variables, which are shared by design.
func allowedShared(t types.Type) bool {
	k := typeKey(t)
	return strings.Contains(k, "idMap") || k == "Variables"
}

// instWriters: the functions that may change what an interpreter is made of, directly or through functions they call other than
// through evaluation events.
func (P *Program) instWriters() map[*ssa.Function]bool {
	w := map[*ssa.Function]bool{}
	callers := map[*ssa.Function][]*ssa.Function{}
	tableType := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		if !ok {
			return false
		}
		k := mapKey(m)
		return k == "map:Symbol,Callable" || k == "map:Symbol,Node" || k == "map:Symbol,struct{}" || k == "map:Node,struct{}"
	}
	owners := map[string]bool{"shared": true, "World": true, "_Generic": true, "LispString": true}
	for _, f := range P.allFuncs {
		direct := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					st := x.X.Type().Underlying().(*types.Pointer).Elem()
					if _, made := x.X.(*ssa.Alloc); owners[typeKey(st)] && !made && !onlyLoaded(x) {
						name := st.Underlying().(*types.Struct).Field(x.Field).Name()
						sub := false // a struct inside of which fields are read
						for _, r := range *x.Referrers() {
							switch y := r.(type) {
							case *ssa.FieldAddr:
								sub = sub || !onlyLoaded(y)
							case *ssa.UnOp, *ssa.DebugRef:
							default:
								sub = true
							}
						}
						direct = direct || sub && name != "startup"
					}
				case *ssa.MapUpdate:
					direct = direct || tableType(x.Map.Type()) && !P.ownMap(x.Map, 0)
				case ssa.CallInstruction:
					c := x.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") && tableType(c.Args[0].Type()) && !P.ownMap(c.Args[0], 0) {
						direct = true
					}
					for _, g := range P.mayCall(c) {
						callers[g] = append(callers[g], f)
					}
				case *ssa.MakeClosure:
					if g, ok := x.Fn.(*ssa.Function); ok {
						callers[g] = append(callers[g], f)
					}
				}
			}
		}
		if direct {
			w[f] = true
			if debug {
				fmt.Fprintln(os.Stderr, "INST", P.fname(f))
			}
		}
	}
	var work []*ssa.Function
	for f := range w {
		work = append(work, f)
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, g := range callers[f] {
			if !w[g] {
				w[g] = true
				work = append(work, g)
			}
		}
	}
	return w
}

func instFrames(P *Program, prop string) []*Contract {
	if prop != "P28" {
		return nil
	}
	w := P.instWriters()
	var cs []*Contract
	// every function that may write is under contract, and its callers use the contract
	byContract := map[string]string{}
	builtin := map[*ssa.Function]bool{}
	for _, b := range P.builtins {
		builtin[b.fn] = true
	}
	var funcs []*ssa.Function
	for _, f := range P.allFuncs {
		if f.Parent() != nil || f.Pkg != P.main || f.Name() == "init" || f.Name() == "New" {
			continue
		}
		if strings.HasPrefix(f.Name(), "init#") || f.Synthetic != "" || strings.HasPrefix(f.Name(), "registerNew") || f.Signature.Recv() == nil && f.Object() != nil && f.Object().Exported() && len(P.globalUses(f)) > 0 {
			continue
		}
		takes := false // a function to call, or memory of its caller to fill in
		for _, p := range f.Params {
			switch u := p.Type().Underlying().(type) {
			case *types.Signature, *types.Slice:
				takes = true
			case *types.Pointer:
				_, ok := u.Elem().Underlying().(*types.Struct)
				takes = takes || !ok
			}
		}
		if takes {
			continue
		}
		if w[f] && !builtin[f] {
			funcs = append(funcs, f)
		}
		byContract[P.fname(f)] = P.fname(f)
	}
	// methods of an embedded interface
	for _, m := range P.main.Members {
		tm, ok := m.(*ssa.Type)
		if !ok || types.IsInterface(tm.Type()) {
			continue
		}
		for _, t := range []types.Type{tm.Type(), types.NewPointer(tm.Type())} {
			ms := P.prog.MethodSets.MethodSet(t)
			for i := 0; i < ms.Len(); i++ {
				sel := ms.At(i)
				fo, _ := sel.Obj().(*types.Func)
				if fo == nil || fo.Name() == "Call" || fo.Name() == "Eval" || !types.IsInterface(fo.Type().(*types.Signature).Recv().Type()) {
					continue
				}
				if fn := P.prog.MethodValue(sel); fn != nil {
					byContract[P.fname(fn)] = P.fname(fn)
				}
			}
		}
	}
	add := func(entry string) {
		cs = append(cs, foreignFrame(&Contract{name: "frame of " + entry, entry: entry, props: []string{prop}, autos: []string{"none"}, mayBeTrivial: true, eventFuncs: byContract, keepCand: frameCandName,
			clause: "nothing that belongs to another interpreter changes"}))
	}
	for _, n := range sortedKeys(P.builtins) {
		if w[P.builtins[n].fn] {
			add("lisp:" + n)
		}
	}
	for _, f := range funcs {
		add("go:" + P.fname(f))
	}
	return cs
}

// frameCandName: the loop invariants that a frame contract needs.
func frameCandName(n string) bool {
	for _, p := range []string{"own ", "foreign ", "frame old ", "private "} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return strings.HasSuffix(n, "!= 0") || strings.HasSuffix(n, "!= nil") || strings.HasSuffix(n, " wf")
}

func init() {
	contractSets = append(contractSets, instContracts)
	generatedContracts = append(generatedContracts, instFrames)
}
