package main

// Calls: inlining, interface dispatch, events, models of external functions.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os/exec"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func bigQuo(a, b *big.Int) *big.Int { return new(big.Int).Quo(a, b) }
func bigRem(a, b *big.Int) *big.Int { return new(big.Int).Rem(a, b) }
func bigSub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func bigAbs(a *big.Int) *big.Int    { return new(big.Int).Abs(a) }

func runOnce(c []string, in string) string {
	cmd := exec.Command(c[0], c[1:]...)
	cmd.Stdin = strings.NewReader(in)
	out, _ := cmd.CombinedOutput()
	return string(out)
}

func (ex *Exec) callParts(st *State, f *Frame, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	for _, a := range c.Args {
		args = append(args, ex.val(st, f, a))
	}
	if c.IsInvoke() {
		return ex.val(st, f, c.Value), args
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, args
	}
	return ex.val(st, f, c.Value), args
}

func (ex *Exec) finish(st *State, retTo ssa.Value, isDefer bool, res Value) bool {
	f := st.top()
	if isDefer {
		return true
	}
	if retTo != nil {
		f.regs[retTo] = res
	}
	f.ip++
	return true
}

func (ex *Exec) enter(st *State, fn *ssa.Function, args, binds []Value, retTo ssa.Value, isDefer bool) bool {
	ex.pushFrame(st, fn, args, binds, retTo)
	if isDefer {
		st.top().onRet = func(st *State, res Value) {}
	}
	return true
}

func resultType(c *ssa.CallCommon) types.Type {
	r := c.Signature().Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return r.At(0).Type()
	}
	return r
}

func (ex *Exec) dispatch(st *State, c *ssa.CallCommon, fv Value, args []Value, retTo ssa.Value, pos token.Pos, isDefer bool) bool {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return ex.builtin(st, b, c, args, retTo, pos, isDefer)
	}
	if c.IsInvoke() {
		return ex.invoke(st, c, fv.(*T), args, retTo, pos, isDefer)
	}
	var fn *ssa.Function
	var binds []Value
	switch x := fv.(type) {
	case *FuncV:
		fn, binds = x.fn, x.binds
	case *T:
		if x.lit != nil {
			ex.P.mu.Lock()
			k := ex.P.idFuncs[x.lit.Int64()]
			ex.P.mu.Unlock()
			if k != nil {
				fn, binds = k.fn, k.binds
				break
			}
		}
		if !ex.oblige(st, "nilderef", "callnil", Not(Eq(x, IntT(0))), pos, "call of nil function") {
			return false
		}
		if s := c.Signature(); s.Results().Len() == 1 && (s.Params().Len() == 1 && typeKey(s.Params().At(0).Type()) == "Node" && typeKey(s.Results().At(0).Type()) == "bool") {
			ex.Assump["functions stored in _BuiltInClass.instanceP are pure predicates"] = true
			return ex.finish(st, retTo, isDefer, UF("classpred", SBool, x, args[0].(*T), st.version()))
		} else if s.Results().Len() == 1 && s.Params().Len() == 0 && typeKey(s.Results().At(0).Type()) == "Node" {
			ex.Assump["functions stored in _BuiltInClass.create return a proper value and have no side effects"] = true
			st.bumpAlloc()
			ex.newEpoch(st.allocB)
			v := ex.freshVal(st, "created", s.Results().At(0).Type())
			st.assume(ex.wf(v.(*T)))
			return ex.finish(st, retTo, isDefer, v)
		}
		return ex.event(st, "fcall", append([]Value{x}, args...), resultType(c), retTo, isDefer, pos)
	default:
		panic(unsupported("dynamic call"))
	}
	return ex.callFn(st, fn, args, binds, retTo, pos, isDefer)
}

func (ex *Exec) callFn(st *State, fn *ssa.Function, args, binds []Value, retTo ssa.Value, pos token.Pos, isDefer bool) bool {
	name := ex.P.fname(fn)
	if ev, ok := eventFuncs[name]; ok && !(len(st.frames) == 0) {
		return ex.event(st, ev, args, sigResult(fn.Signature), retTo, isDefer, pos)
	}
	if ex.con != nil && len(st.frames) > 0 {
		if ev, ok := ex.con.eventFuncs[name]; ok {
			return ex.event(st, ev, args, sigResult(fn.Signature), retTo, isDefer, pos)
		}
	}
	if k, ok := contractKind(name); ok && len(st.frames) > 0 {
		return ex.applyContract(st, k, name, fn, args, retTo, pos, isDefer)
	}
	if m, ok := models[fn.String()]; ok {
		return ex.runModel(st, m, fn.String(), fn, args, retTo, pos, isDefer)
	}
	if o := fn.Origin(); o != nil {
		if m, ok := models[o.String()]; ok {
			return ex.runModel(st, m, o.String(), fn, args, retTo, pos, isDefer)
		}
	}
	if ex.P.inRepo(fn) || (fn.Synthetic != "" && len(fn.Blocks) > 0 && fn.Signature.Recv() != nil && typeInRepo(fn.Signature.Recv().Type())) || strings.HasPrefix(fn.Synthetic, "bound method") && len(fn.Blocks) > 0 {
		return ex.enter(st, fn, args, binds, retTo, isDefer)
	}
	return ex.extern(st, fn.String(), fn.Signature, args, retTo, isDefer)
}

func sigResult(s *types.Signature) types.Type {
	switch s.Results().Len() {
	case 0:
		return nil
	case 1:
		return s.Results().At(0).Type()
	}
	return s.Results()
}

// extern: an external function without a model returns an arbitrary value of its type and touches nothing of the interpreter.
func (ex *Exec) extern(st *State, name string, sig *types.Signature, args []Value, retTo ssa.Value, isDefer bool) bool {
	ex.Assump["external "+name+": returns an arbitrary value of its result type, has no effect on interpreter data, does not panic"] = true
	for _, a := range args {
		if fv, ok := a.(*FuncV); ok && ex.P.inRepo(fv.fn) {
			panic(unsupported("external function with callback: " + name))
		}
	}
	t := sigResult(sig)
	var res Value
	if t != nil {
		res = ex.externResult(st, name, t)
	}
	return ex.finish(st, retTo, isDefer, res)
}

func (ex *Exec) externResult(st *State, name string, t types.Type) Value {
	short := name[strings.LastIndex(name, "/")+1:]
	if tup, ok := t.(*types.Tuple); ok {
		var tv TupleV
		for i := 0; i < tup.Len(); i++ {
			tv = append(tv, ex.externScalar(st, short, tup.At(i).Type()))
		}
		return tv
	}
	return ex.externScalar(st, short, t)
}

// havocElems: the elements of a slice of integers get unknown values.
func (ex *Exec) havocElems(st *State, key string, b SliceV) {
	h := st.heap(key, SInt)
	n := key + "!" + ex.fresh("havoc")
	st.heaps[key] = h.region(func(k []*T) *T { return And(Eq(k[0], b.arr), Le(b.off, k[1]), Lt(k[1], Add(b.off, b.len))) },
		func(_ *State, k []*T) *T { return UF(n, SInt, k...) })
}

func isErrorType(t types.Type) bool {
	return types.IsInterface(t) && types.TypeString(t, nil) == "error"
}

func (ex *Exec) externScalar(st *State, name string, t types.Type) Value {
	if isErrorType(t) {
		return ex.externError(st, name)
	}
	if types.IsInterface(t) {
		id := Const(ex.fresh("ext."+name), SInt)
		return Ctor("VO", IntT(2), id)
	}
	v := ex.freshVal(st, "ext."+name, t)
	if _, ok := t.Underlying().(*types.Pointer); ok {
		// pointers returned by external constructors: nil only together with an error; treated as possibly dangling but non-nil
		st.assume(Not(Eq(v.(*T), IntT(0))))
	}
	return v
}

// externError: nil or an error value of a type outside the repository.
func (ex *Exec) externError(st *State, name string) *T {
	e := Const(ex.fresh("err."+name), SVal)
	st.assume(Or(Eq(e, VNil), And(Is("VO", e), Eq(Sel("vot", e), IntT(extError)))))
	return e
}

func (ex *Exec) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Value, retTo ssa.Value, pos token.Pos, isDefer bool) bool {
	var res Value
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case SliceV:
			res = x.len
		case *T:
			if x.sort == SStr {
				res = Slen(x)
				break
			}
			if mt, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				res = ex.mapLen(st, x, mt)
				break
			}
			if at, ok := isArrayPtr(c.Args[0].Type()); ok {
				res = IntT(at.Len())
				break
			}
			panic(unsupported("len"))
		default:
			panic(unsupported("len"))
		}
	case "cap":
		res = args[0].(SliceV).cap
	case "append":
		st_ := c.Args[0].Type().Underlying().(*types.Slice)
		a, ok := args[0].(SliceV)
		if !ok {
			panic(unsupported("append"))
		}
		var bsl SliceV
		switch y := args[1].(type) {
		case SliceV:
			bsl = y
		case *T:
			if y.sort == SStr {
				v, _ := ex.convert(st, y, types.Typ[types.String], types.NewSlice(types.Typ[types.Byte]))
				bsl = v.(SliceV)
				break
			}
			panic(unsupported("append of nil"))
		}
		res = ex.appendSlice(st, a, bsl, st_.Elem())
	case "copy":
		d := args[0].(SliceV)
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		var s SliceV
		switch y := args[1].(type) {
		case SliceV:
			s = y
		case *T:
			v, _ := ex.convert(st, y, types.Typ[types.String], types.NewSlice(types.Typ[types.Byte]))
			s = v.(SliceV)
		}
		n := Ite(Le(d.len, s.len), d.len, s.len)
		ex.copyElems(st, et, d.arr, d.off, s, n, True)
		res = n
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		m, k := args[0].(*T), ex.scalar(st, args[1], mt.Key())
		if types.IsInterface(mt.Key()) {
			if types.IsInterface(c.Args[1].Type()) {
				if !ex.oblige(st, "hash", "delete", Or(Eq(m, IntT(0)), Not(ex.unhashable(k))), pos, "unhashable map key") {
					return false
				}
			}
		}
		ex.mapDelete(st, m, mt, k)
	case "clear":
		if mt, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			m := args[0].(*T)
			key := mapKey(mt)
			h := st.heap(key+"#dom", SBool)
			st.heaps[key+"#dom"] = h.region(func(k []*T) *T { return Eq(k[0], m) }, func(*State, []*T) *T { return False })
			st.heaps[key+"#len"] = st.heap(key+"#len", SInt).store([]*T{m}, IntT(0))
		} else {
			panic(unsupported("clear of slice"))
		}
	case "print", "println":
	case "min", "max":
		x := args[0].(*T)
		for _, y := range args[1:] {
			yt := y.(*T)
			if x.sort != SInt {
				panic(unsupported("min/max"))
			}
			if b.Name() == "min" {
				x = Ite(Le(x, yt), x, yt)
			} else {
				x = Ite(Le(x, yt), yt, x)
			}
		}
		res = x
	case "ssa:wrapnilchk":
		p := args[0]
		if x, ok := p.(*T); ok {
			if !ex.oblige(st, "nilderef", "wrapper", Not(Eq(x, IntT(0))), pos, "nil receiver") {
				return false
			}
		}
		res = p
	case "recover":
		res = VNil
	default:
		panic(unsupported("builtin " + b.Name()))
	}
	return ex.finish(st, retTo, isDefer, res)
}

func (ex *Exec) copyElems(st *State, et types.Type, darr, doff *T, s SliceV, n *T, guard *T) {
	for _, l := range ex.leaves(elemKey(et), et) {
		h := st.heap(l.suf, l.sort)
		snap := h
		st.heaps[l.suf] = h.region(func(k []*T) *T {
			return And(guard, Eq(k[0], darr), Le(doff, k[1]), Lt(k[1], Add(doff, n)))
		}, func(st *State, k []*T) *T {
			return readHeap(st, snap, []*T{s.arr, Add(s.off, Sub(k[1], doff))})
		})
	}
}

func (ex *Exec) appendSlice(st *State, a, b SliceV, et types.Type) SliceV {
	n := Add(a.len, b.len)
	if b.len == IntT(0) {
		return a
	}
	fits := st.simp(Le(n, a.cap))
	F := st.newRef()
	ncap := Const(ex.fresh("cap"), SInt)
	st.assume(Le(n, ncap))
	st.assume(Le(ncap, BigT(maxInt64)))
	if fits != False && !ex.feasible(st, fits) {
		fits = False
	}
	if fits == False {
		ex.copyElems(st, et, F, IntT(0), a, a.len, True)
		ex.copyElemsAt(st, et, F, a.len, b)
		return SliceV{F, IntT(0), n, ncap}
	}
	r := SliceV{Ite(fits, a.arr, F), Ite(fits, a.off, IntT(0)), n, Ite(fits, a.cap, ncap)}
	ex.copyElems(st, et, F, IntT(0), a, a.len, True)
	ex.copyElemsAt(st, et, r.arr, Add(r.off, a.len), b)
	return r
}

// copyElemsAt stores the elements of b (stores when b has a small known length, a region otherwise).
func (ex *Exec) copyElemsAt(st *State, et types.Type, arr, off *T, b SliceV) {
	if b.len.lit != nil && b.len.lit.IsInt64() && b.len.lit.Int64() <= 4 {
		n := b.len.lit.Int64()
		for _, l := range ex.leaves(elemKey(et), et) {
			var vals []*T
			for i := int64(0); i < n; i++ {
				vals = append(vals, st.readH(st.heap(l.suf, l.sort), []*T{b.arr, Add(b.off, IntT(i))}))
			}
			for i := int64(0); i < n; i++ {
				st.heaps[l.suf] = st.heap(l.suf, l.sort).store([]*T{arr, Add(off, IntT(i))}, vals[i])
			}
		}
		return
	}
	ex.copyElems(st, et, arr, off, b, b.len, True)
}

// ---- interface method calls ----

func (ex *Exec) invoke(st *State, c *ssa.CallCommon, recv *T, args []Value, retTo ssa.Value, pos token.Pos, isDefer bool) bool {
	m := c.Method
	if !ex.oblige(st, "nilderef", "invoke "+m.Name(), Not(Eq(recv, VNil)), pos, "method call on nil interface") {
		return false
	}
	it := c.Value.Type()
	iname := typeKey(it)
	full := iname + "." + m.Name()
	if ex.con != nil {
		if ev, ok := ex.con.eventFuncs[full]; ok {
			return ex.event(st, ev, append([]Value{recv}, args...), resultType(c), retTo, isDefer, pos)
		}
	}
	if m.Name() == "Call" && len(args) == 3 && m.Type().(*types.Signature).Results().Len() == 2 {
		if t := ex.dynType(recv); t != nil && typeShort(t) == "_Generic" {
			// a generic function object is entered through its contract like any other callable
			_ = t
		}
		return ex.event(st, "call", append([]Value{recv}, args...), resultType(c), retTo, isDefer, pos)
	}
	if im, ok := invokeModels[m.Name()]; ok {
		if handled, cont := im(ex, st, c, recv, args, retTo, pos, isDefer); handled {
			return cont
		}
	}
	// known dynamic type
	if t := ex.dynType(recv); t != nil {
		return ex.callMethod(st, t, recv, c, args, retTo, pos, isDefer)
	}
	// closed world: one branch per repository type
	iface := it.Underlying().(*types.Interface)
	impls := ex.P.implementers(iface, types.TypeString(iface, nil))
	if len(impls) > 24 {
		panic(unsupported(fmt.Sprintf("interface call %s with %d candidate types", full, len(impls))))
	}
	for i, t := range impls {
		c2 := ex.isType(recv, t)
		if st.simp(c2) == False {
			continue
		}
		_ = i
		if ex.decide(st, c2) {
			return ex.callMethod(st, t, recv, c, args, retTo, pos, isDefer)
		}
	}
	// a value of an external type (or an impossible case)
	if nodeLike(iface) {
		if ex.Assump != nil {
			ex.Assump["closed world: values of interface "+iname+" have one of the dynamic types the repository converts to interfaces"] = true
		}
		return false
	}
	return ex.extern(st, full, m.Type().(*types.Signature), args, retTo, isDefer)
}

func (ex *Exec) dynType(v *T) types.Type {
	if isValCtor(v.op) && v.op != "VO" && v.op != "VW" && v.op != "VNil" && v.args[0].lit != nil {
		ex.P.mu.Lock()
		defer ex.P.mu.Unlock()
		return ex.P.tidT[int(v.args[0].lit.Int64())]
	}
	return nil
}

func (ex *Exec) callMethod(st *State, t types.Type, recv *T, c *ssa.CallCommon, args []Value, retTo ssa.Value, pos token.Pos, isDefer bool) bool {
	ex.P.mu.Lock()
	sel := ex.P.msets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name())
	if sel == nil {
		ex.P.mu.Unlock()
		panic(unsupported("method " + c.Method.Name() + " not found on " + t.String()))
	}
	fn := ex.P.prog.MethodValue(sel)
	ex.P.mu.Unlock()
	if fn == nil {
		panic(unsupported("abstract method"))
	}
	rv := ex.unIface(st, recv, t)
	if rt := fn.Signature.Recv(); rt != nil && isStructPtr(t) && !isStructPtr(rt.Type()) {
		_ = rt
	}
	all := append([]Value{rv}, args...)
	return ex.callFn(st, fn, all, nil, retTo, pos, isDefer)
}

// ---- events: calls whose callee is only known through its contract ----

// eventFuncs are repository functions always treated through their contract.
var eventFuncs = map[string]string{
	"(*World).Eval": "eval",
}

// event models a call into arbitrary Lisp evaluation: any effect that the contracts of Eval and Callable.Call allow.
func (ex *Exec) event(st *State, kind string, args []Value, rt types.Type, retTo ssa.Value, isDefer bool, pos token.Pos) bool {
	if kind == "call" && len(args) == 4 {
		// the current handler being called is a signalling event
		if w, ok := args[2].(*T); ok {
			sh := st.readH(st.heap("World.shared", SInt), []*T{w})
			hd := st.readH(st.heap("shared.handler", SVal), []*T{sh})
			if hd == args[0] {
				kind = "signal"
			}
		}
	}
	st.evN++
	st.trace = append(st.trace, fmt.Sprintf("%s %s", kind, ex.posn(pos)))
	if ex.con != nil {
		if !ex.monitor(st, kind, args, pos) {
			return false
		}
	}
	pure := ex.con != nil && ex.con.pureEvents[kind]
	for _, a := range args {
		if !pure {
			ex.escape(st, a)
		}
	}
	if !pure {
		ex.havocEvent(st)
	}
	var res Value
	if rt != nil {
		res = ex.freshVal(st, kind+"r", rt)
	}
	var rv, re *T
	if x, ok := res.(*T); ok && x.sort == SVal && typeKey(rt) == "Node" {
		st.assume(ex.wf(x))
	}
	if tv, ok := res.(TupleV); ok && len(tv) == 2 {
		if a, ok := tv[0].(*T); ok {
			if b, ok := tv[1].(*T); ok && a.sort == SVal && b.sort == SVal {
				rv, re = a, b
				st.assume(Or(Not(Eq(re, VNil)), ex.wf(rv)))
				if kind != "body" && kind != "teval" && kind != "test" {
					st.assume(Or(Eq(re, VNil), Not(ex.isTail(re))))
				}
				ex.errorFact(st, re)
			}
		}
	}
	if ex.con != nil {
		if !ex.monitorAfter(st, kind, args, res, rv, re, pos) {
			return false
		}
	}
	return ex.finish(st, retTo, isDefer, res)
}

// errorFact: a non-nil error result implements error; its payload references are valid.
func (ex *Exec) errorFact(st *State, e *T) {}

func (ex *Exec) isTail(e *T) *T {
	if t := ex.P.typeByName("*_ErrTailRecOpt"); t != nil {
		return ex.isType(e, t)
	}
	return False
}

// wf: a proper Lisp value.
func (ex *Exec) wf(v *T) *T {
	return Not(Eq(v, VNil))
}

// havocEvent forgets everything the rest of the program may change.
func (ex *Exec) havocEvent(st *State) {
	before := st.alloc()
	st.bumpAlloc()
	ex.newEpoch(st.allocB)
	var locals []*T
	for r := range st.local {
		locals = append(locals, r)
	}
	sortTerms(locals)
	n := ex.fresh("ev")
	keys := sortedKeys(st.heaps)
	pre := map[string]*HNode{}
	for _, k := range keys {
		pre[k] = st.heaps[k]
	}
	for _, k := range keys {
		if strings.HasPrefix(k, "ghost.") {
			continue
		}
		st.heaps[k] = ex.havocKey(st, k, st.heaps[k], locals, n)
	}
	ex.preserveDyn(st, pre, n, before)
	st.havocs = append(st.havocs, havocRec{n, locals, st.alloc()})
	for name := range st.ghosts {
		if strings.HasPrefix(name, "escbox!") {
			var id int
			fmt.Sscanf(name[7:], "%d", &id)
			if v, ok := st.boxes[id].(*T); ok {
				st.boxes[id] = Const(ex.fresh("box"), v.sort)
			}
		}
	}
	if c, ok := st.ghosts["cancelled"]; ok {
		nc := Const(ex.fresh("cancelled"), SBool)
		st.assume(Implies(c, nc))
		st.ghosts["cancelled"] = nc
	}
}

type havocRec struct {
	name   string
	locals []*T
	bound  *T
}

// dynamic-state fields that every evaluation preserves (contract of Eval and Call, property P07)
var preservedKeys = map[string]bool{"shared.handler": true, "shared.stdin._Reader": true}

func (ex *Exec) havocKey(st *State, key string, h *HNode, locals []*T, name string) *HNode {
	return ex.havocKeyAt(key, h, havocRec{name, locals, st.alloc()})
}

func (ex *Exec) havocKeyAt(key string, h *HNode, hr havocRec) *HNode {
	locals, name := hr.locals, hr.name
	if ex.P.immutableKey(key) || preservedKeys[key] || key == "shared.blockName" || key == "shared.catchTag" || key == "shared.goTag" {
		return h
	}
	if ex.con != nil && ex.con.codeImmutable && (key == "Cons.Car" || key == "Cons.Cdr") {
		return h
	}
	if ex.con != nil && ex.con.frozen[key] {
		return h
	}
	if key == "map:Symbol,struct{}#dom" || key == "map:Node,struct{}#dom" {
		return h
	}
	nb := &HNode{base: key + "!" + name, sort: h.sort, bound: hr.bound}
	if len(locals) == 0 {
		return nb
	}
	old := h
	return nb.region(func(k []*T) *T {
		cs := make([]*T, 0, len(locals))
		for _, l := range locals {
			if k[0] == l {
				return True
			}
			if ex.refDistinct(k[0], l) {
				continue
			}
			cs = append(cs, Eq(k[0], l))
		}
		return Or(cs...)
	}, func(st *State, k []*T) *T { return readHeap(st, old, k) })
}

func (ex *Exec) refDistinct(a, b *T) bool {
	if Eq(a, b) == False {
		return true
	}
	ia, oka := ex.refBirth(a)
	ib, okb := ex.refBirth(b)
	if oka && okb && ia != ib {
		return true
	}
	if oka && ex.refBoundBefore(b, a) || okb && ex.refBoundBefore(a, b) {
		return true
	}
	return false
}

// preserveDyn: the sets of active block names, catch tags and go tags are preserved; a nil set may be replaced by a new
// empty one.
func (ex *Exec) preserveDyn(st *State, pre map[string]*HNode, n string, before *T) {
	frontier := st.alloc()
	for _, f := range []struct{ field, dom string }{
		{"shared.blockName", "map:Symbol,struct{}#dom"}, {"shared.goTag", "map:Symbol,struct{}#dom"}, {"shared.catchTag", "map:Node,struct{}#dom"}} {
		old := st.heap(f.field, SInt)
		fresh := f.field + "!new!" + n
		st.heaps[f.field] = old.region(func(k []*T) *T { return Eq(readPure(old, k), IntT(0)) },
			func(st *State, k []*T) *T {
				t := UF(fresh, SInt, k...)
				if st != nil {
					// nil or made during the event: none of the objects that existed before
					st.assume(Or(Eq(t, IntT(0)), Le(before, t)))
					st.assume(Lt(t, frontier))
				}
				return t
			})
		d := st.heap(f.dom, SBool)
		st.heaps[f.dom] = d.region(func(k []*T) *T {
			// maps created during the event: their contents are unknown except that a new tag set is empty; all of them are
			// unreachable for this activation other than through these fields
			if _, ok := ex.refBirth(k[0]); ok {
				return False
			}
			if k[0].op == fresh {
				return True
			}
			if k[0].op == "ite" {
				return And(Eq(k[0], k[0].args[1]), BoolT(k[0].args[1].op == fresh))
			}
			return False
		}, func(*State, []*T) *T { return False })
	}
}

func sortTerms(ts []*T) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && termLess(ts[j], ts[j-1]); j-- {
			ts[j-1], ts[j] = ts[j], ts[j-1]
		}
	}
}
