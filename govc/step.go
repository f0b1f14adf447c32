package main

// One SSA instruction.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// decide resolves a condition on this path; when both outcomes are possible the other one is queued to re-execute the
// current instruction.
func (ex *Exec) decide(st *State, c *T) bool {
	t, f := ex.branch(st, c)
	if t != nil && f != nil {
		ex.push(f)
		return true
	}
	return t != nil
}

func isStructPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Struct)
	return ok
}
func isArrayPtr(t types.Type) (*types.Array, bool) {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	a, ok := p.Elem().Underlying().(*types.Array)
	return a, ok
}

func elemKey(t types.Type) string { return "elem:" + typeKey(t) }

func (ex *Exec) step(st *State, f *Frame, in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.DebugRef:
		f.ip++
	case *ssa.Phi:
		f.ip++
	case *ssa.Alloc:
		f.regs[x] = ex.doAlloc(st, x.Type().(*types.Pointer).Elem())
		f.ip++
	case *ssa.Store:
		if !ex.doStore(st, ex.val(st, f, x.Addr), x.Addr.Type(), ex.val(st, f, x.Val), x.Val.Type(), x.Pos()) {
			return false
		}
		f.ip++
	case *ssa.UnOp:
		return ex.unop(st, f, x)
	case *ssa.BinOp:
		return ex.binop(st, f, x)
	case *ssa.FieldAddr:
		v, ok := ex.fieldAddr(st, ex.val(st, f, x.X), x.X.Type(), x.Field, x.Pos())
		if !ok {
			return false
		}
		f.regs[x] = v
		f.ip++
	case *ssa.Field:
		sv, ok := ex.val(st, f, x.X).(StructV)
		if !ok {
			panic(unsupported("field of non-struct value"))
		}
		f.regs[x] = sv.fields[x.Field]
		f.ip++
	case *ssa.IndexAddr:
		idx := ex.term(st, f, x.Index)
		switch b := ex.val(st, f, x.X).(type) {
		case SliceV:
			if !ex.oblige(st, "bounds", "index", And(Le(IntT(0), idx), Lt(idx, b.len)), x.Pos(), "index out of range") {
				return false
			}
			et := x.Type().(*types.Pointer).Elem()
			f.regs[x] = PtrV{kind: "elem", ref: b.arr, idx: Add(b.off, idx), key: elemKey(et), typ: et}
		case *T:
			at, ok := isArrayPtr(x.X.Type())
			if !ok {
				panic(unsupported("IndexAddr"))
			}
			if !ex.oblige(st, "bounds", "index", And(Le(IntT(0), idx), Lt(idx, IntT(at.Len()))), x.Pos(), "array index out of range") {
				return false
			}
			f.regs[x] = PtrV{kind: "elem", ref: b, idx: idx, key: elemKey(at.Elem()), typ: at.Elem()}
		default:
			panic(unsupported("IndexAddr base"))
		}
		f.ip++
	case *ssa.Index:
		idx := ex.term(st, f, x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
			s := ex.term(st, f, x.X)
			if !ex.oblige(st, "bounds", "strindex", And(Le(IntT(0), idx), Lt(idx, Slen(s))), x.Pos(), "string index out of range") {
				return false
			}
			r := UF("sat", SInt, s, idx)
			st.assume(And(Le(IntT(0), r), Le(r, IntT(255))))
			f.regs[x] = r
			f.ip++
			return true
		}
		panic(unsupported("Index"))
	case *ssa.Extract:
		tv, ok := ex.val(st, f, x.Tuple).(TupleV)
		if !ok {
			panic(unsupported("extract from non-tuple"))
		}
		f.regs[x] = tv[x.Index]
		f.ip++
	case *ssa.MakeInterface:
		f.regs[x] = ex.mkIface(st, x.X.Type(), ex.val(st, f, x.X))
		f.ip++
	case *ssa.ChangeInterface:
		f.regs[x] = ex.val(st, f, x.X)
		f.ip++
	case *ssa.ChangeType:
		f.regs[x] = ex.val(st, f, x.X)
		f.ip++
	case *ssa.Convert:
		v, ok := ex.convert(st, ex.val(st, f, x.X), x.X.Type(), x.Type())
		if !ok {
			return false
		}
		f.regs[x] = v
		f.ip++
	case *ssa.MultiConvert:
		v, ok := ex.convert(st, ex.val(st, f, x.X), x.X.Type(), x.Type())
		if !ok {
			return false
		}
		f.regs[x] = v
		f.ip++
	case *ssa.TypeAssert:
		return ex.typeAssert(st, f, x)
	case *ssa.MakeClosure:
		fv := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			fv.binds = append(fv.binds, ex.val(st, f, b))
		}
		f.regs[x] = fv
		f.ip++
	case *ssa.MakeMap:
		f.regs[x] = ex.makeMap(st, x.Type())
		f.ip++
	case *ssa.MakeSlice:
		n, c := ex.term(st, f, x.Len), ex.term(st, f, x.Cap)
		if !ex.oblige(st, "bounds", "makeslice", And(Le(IntT(0), n), Le(n, c), Le(c, IntT(1<<40))), x.Pos(), "makeslice: len out of range") {
			return false
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		f.regs[x] = ex.newSlice(st, et, n, c)
		f.ip++
	case *ssa.Slice:
		v, ok := ex.slice(st, f, x)
		if !ok {
			return false
		}
		f.regs[x] = v
		f.ip++
	case *ssa.Lookup:
		return ex.lookup(st, f, x)
	case *ssa.MapUpdate:
		m := ex.term(st, f, x.Map)
		if !ex.oblige(st, "nilderef", "mapupdate", Not(Eq(m, IntT(0))), x.Pos(), "assignment to entry in nil map") {
			return false
		}
		mt := x.Map.Type().Underlying().(*types.Map)
		k := ex.term(st, f, x.Key)
		if types.IsInterface(mt.Key()) {
			if !ex.oblige(st, "hash", "mapupdate", Not(ex.unhashable(k)), x.Pos(), "unhashable map key") {
				return false
			}
		}
		v := ex.val(st, f, x.Value)
		ex.mapStore(st, m, mt, k, v)
		ex.onWrite(st, m, v)
		f.ip++
	case *ssa.Range:
		f.regs[x] = ex.mkRange(st, ex.val(st, f, x.X), x)
		f.ip++
	case *ssa.Next:
		return ex.next(st, f, x)
	case *ssa.Jump:
		return ex.jump(st, f.block.Succs[0])
	case *ssa.If:
		c := ex.term(st, f, x.Cond)
		t, e := ex.branch(st, c)
		if t != nil && e != nil {
			if ex.jump(e, e.top().block.Succs[1]) {
				ex.push(e)
			}
			return ex.jump(t, t.top().block.Succs[0])
		}
		if t != nil {
			return ex.jump(t, t.top().block.Succs[0])
		}
		if e != nil {
			return ex.jump(e, e.top().block.Succs[1])
		}
		return false
	case *ssa.Return:
		var res Value
		switch len(x.Results) {
		case 0:
		case 1:
			res = ex.val(st, f, x.Results[0])
		default:
			var tv TupleV
			for _, r := range x.Results {
				tv = append(tv, ex.val(st, f, r))
			}
			res = tv
		}
		ex.doReturn(st, res)
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			f.ip++
			return true
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		if d.bulk != "" {
			ex.runBulk(st, d)
			return true
		}
		return ex.dispatch(st, d.call, d.fv, d.args, nil, x.Pos(), true)
	case *ssa.Defer:
		if ex.inLoop(x) {
			ex.deferBulk(st, f, x)
			f.ip++
			return true
		}
		fv, args := ex.callParts(st, f, &x.Call)
		f.defers = append(f.defers, deferred{fv: fv, args: args, call: &x.Call})
		f.ip++
	case *ssa.Call:
		fv, args := ex.callParts(st, f, &x.Call)
		return ex.dispatch(st, &x.Call, fv, args, x, x.Pos(), false)
	case *ssa.Panic:
		ex.oblige(st, "panic", "explicit", False, x.Pos(), "explicit panic reachable")
		return false
	case *ssa.Select:
		return ex.selectInstr(st, f, x)
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
	return true
}

func (ex *Exec) newBox(st *State, v Value, t types.Type) int {
	ex.boxN++
	st.boxes[ex.boxN] = v
	ex.boxTyp[ex.boxN] = t
	return ex.boxN
}

func (ex *Exec) doAlloc(st *State, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		r := st.newRef()
		st.objTyp[r] = objInfo{typ: t}
		ex.zeroFields(st, typeKey(t), r, u)
		if k := typeKey(t); k == "strings.Builder" || k == "bytes.Buffer" {
			st.heaps["text:"+k] = st.heap("text:"+k, SStr).store([]*T{r}, StrLit(""))
		}
		return r
	case *types.Array:
		r := st.newRef()
		ex.zeroElems(st, u.Elem(), r)
		if u.Len() > 0 {
			st.objTyp[r] = objInfo{elem: u.Elem(), n: IntT(u.Len())}
		}
		return r
	}
	return PtrV{kind: "box", box: ex.newBox(st, ex.zero(st, t), t), typ: t}
}

func (ex *Exec) zeroFields(st *State, key string, r *T, u *types.Struct) {
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		k := key + "." + u.Field(i).Name()
		if s, ok := ft.Underlying().(*types.Struct); ok {
			ex.zeroFields(st, k, r, s)
			continue
		}
		if _, ok := ft.Underlying().(*types.Array); ok {
			continue // arrays inside structs are left unconstrained
		}
		ex.storeKeyed(st, k, []*T{r}, ft, ex.zero(st, ft))
	}
}

// zeroElems sets all elements of a fresh array to the zero value.
func (ex *Exec) zeroElems(st *State, et types.Type, arr *T) {
	for _, l := range ex.leaves(elemKey(et), et) {
		z := ex.zeroLeaf(l.sort)
		h := st.heap(l.suf, l.sort)
		a := arr
		st.heaps[l.suf] = h.region(func(k []*T) *T { return Eq(k[0], a) }, func(*State, []*T) *T { return z })
	}
}

func (ex *Exec) zeroLeaf(s Sort) *T {
	switch s {
	case SInt:
		return IntT(0)
	case SBool:
		return False
	case SStr:
		return StrLit("")
	case SF64:
		return FloatLit(0)
	}
	return VNil
}

// leaves lists the heap keys of a type stored under key.
func (ex *Exec) leaves(key string, t types.Type) []leaf {
	if s, ok := scalarSort(t); ok {
		return []leaf{{key, s, t}}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return []leaf{{key + ".arr", SInt, nil}, {key + ".off", SInt, nil}, {key + ".len", SInt, nil}, {key + ".cap", SInt, nil}}
	case *types.Struct:
		var r []leaf
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, ex.leaves(key+"."+u.Field(i).Name(), u.Field(i).Type())...)
		}
		return r
	case *types.Array:
		return nil
	}
	panic(unsupported("leaves of " + t.String()))
}

func (ex *Exec) newSlice(st *State, et types.Type, n, c *T) SliceV {
	r := st.newRef()
	ex.zeroElems(st, et, r)
	if n.lit == nil || n.lit.Sign() != 0 {
		st.objTyp[r] = objInfo{elem: et, n: n}
	}
	return SliceV{r, IntT(0), n, c}
}

func (ex *Exec) fieldAddr(st *State, base Value, t types.Type, field int, pos token.Pos) (Value, bool) {
	pt, s := structOf(t)
	ft := s.Field(field).Type()
	name := s.Field(field).Name()
	switch b := base.(type) {
	case *T:
		if !ex.oblige(st, "nilderef", "field "+typeKey(pt)+"."+name, Not(Eq(b, IntT(0))), pos, "nil pointer dereference") {
			return nil, false
		}
		return PtrV{kind: "field", ref: b, key: typeKey(pt) + "." + name, typ: ft}, true
	case PtrV:
		n := b
		if n.kind == "global" {
			return PtrV{kind: "field", ref: IntT(0), key: b.key + "." + name, typ: ft}, true
		}
		n.key = b.key + "." + name
		n.typ = ft
		if b.kind == "box" {
			panic(unsupported("field of boxed struct"))
		}
		return n, true
	}
	panic(unsupported("FieldAddr base"))
}

func (ex *Exec) ptrKeys(p PtrV) []*T {
	if p.kind == "elem" {
		return []*T{p.ref, p.idx}
	}
	return []*T{p.ref}
}

func (ex *Exec) load(st *State, p Value, pt types.Type, pos token.Pos) (Value, bool) {
	et := pt.Underlying().(*types.Pointer).Elem()
	switch b := p.(type) {
	case PtrV:
		switch b.kind {
		case "box":
			return st.boxes[b.box], true
		case "field", "elem":
			if b.kind == "field" && b.ref != nil && b.ref.lit != nil {
				if v := ex.constField(st, b.ref.lit.Int64(), b.key); v != nil {
					return v, true
				}
			}
			v := ex.loadKeyed(st, b.key, ex.ptrKeys(b), et)
			ex.cellFacts(st, b.key, b.ref)
			if b.ref != nil && st.local[b.ref] {
				ex.noInv++
			}
			ex.loadFacts(st, b.key, v, et)
			if b.ref != nil && st.local[b.ref] {
				ex.noInv--
			}
			return v, true
		case "global":
			return ex.loadGlobal(st, b.key, et), true
		}
	case *T:
		if !ex.oblige(st, "nilderef", "load", Not(Eq(b, IntT(0))), pos, "nil pointer dereference") {
			return nil, false
		}
		if s, ok := et.Underlying().(*types.Struct); ok {
			sv := StructV{typ: s, name: typeKey(et)}
			for i := 0; i < s.NumFields(); i++ {
				k := typeKey(et) + "." + s.Field(i).Name()
				v := ex.loadKeyed(st, k, []*T{b}, s.Field(i).Type())
				ex.loadFacts(st, k, v, s.Field(i).Type())
				sv.fields = append(sv.fields, v)
			}
			return sv, true
		}
		if a, ok := et.Underlying().(*types.Array); ok {
			panic(unsupported(fmt.Sprintf("load of array %v", a)))
		}
		v := ex.loadKeyed(st, "cell:"+typeKey(et), []*T{b}, et)
		ex.loadFacts(st, "cell:"+typeKey(et), v, et)
		return v, true
	}
	panic(unsupported(fmt.Sprintf("load through %T", p)))
}

// loadFacts: references read from memory are valid, and declared type invariants hold.
func (ex *Exec) loadFacts(st *State, key string, v Value, t types.Type) {
	if sv, ok := v.(StructV); ok {
		for i, f := range sv.fields {
			ex.loadFacts(st, fieldKey(key, sv, i), f, sv.typ.Field(i).Type())
		}
		return
	}
	x, ok := v.(*T)
	if !ok {
		if s, ok := v.(SliceV); ok {
			st.assume(Lt(s.arr, st.alloc()))
		}
		return
	}
	if x.sort == SInt {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan:
			if x.lit == nil {
				if _, ok := ex.refBirth(x); !ok {
					st.assume(Le(IntT(0), x))
					st.assume(Lt(x, st.alloc()))
					ex.setBound(st, x)
				}
			}
		}
	}
	if x.sort == SVal {
		ex.setBoundWeak(st, x)
		ex.ifaceFact(st, x, t)
	}
	if inv, ok := typeInvariants[key]; ok && ex.noInv == 0 {
		st.assume(memoryFact(x, func(l *T) *T { return inv(ex, l) }))
	}
}

// memoryFact states a fact about every alternative of a read that comes from memory.
func memoryFact(x *T, f func(*T) *T) *T {
	n := 0
	var walk func(x *T) *T
	walk = func(x *T) *T {
		n++
		switch {
		case x.op == "ite" && n < 20:
			return And(Implies(x.args[0], walk(x.args[1])), Implies(Not(x.args[0]), walk(x.args[2])))
		case fromMemory(x):
			return f(x)
		}
		return True
	}
	return walk(x)
}

// ifaceFact: a value of static type Symbol or Class is nil or implements that interface (Go type safety).
func (ex *Exec) ifaceFact(st *State, x *T, t types.Type) {
	if x.sort != SVal {
		return
	}
	switch typeKey(t) {
	case "Symbol", "Class":
		st.assume(memoryFact(x, func(x *T) *T { return Or(Eq(x, VNil), ex.implements(x, t)) }))
	}
}

func fieldKey(key string, sv StructV, i int) string {
	if sv.name != "" {
		if _, ok := typeInvariants[sv.name+"."+sv.typ.Field(i).Name()]; ok {
			return sv.name + "." + sv.typ.Field(i).Name()
		}
	}
	return key + "." + sv.typ.Field(i).Name()
}

// fromMemory: x is an unknown value (not one built by the code under analysis, whose exact form is known).
func fromMemory(x *T) bool {
	return x.op != "ite" && !isValCtor(x.op) && x != VNil && x.lit == nil
}

func (ex *Exec) setBoundWeak(st *State, t *T) {
	if _, ok := ex.bounds[t]; !ok && !isValCtor(t.op) {
		ex.setBound(st, t)
	}
}

type fieldInv func(ex *Exec, x *T) *T

func invRef(_ *Exec, x *T) *T    { return Not(Eq(x, IntT(0))) }
func invNonNil(_ *Exec, x *T) *T { return Not(Eq(x, VNil)) }
func invWf(ex *Exec, x *T) *T    { return ex.wf(x) }
func invTail(ex *Exec, x *T) *T  { return Or(Eq(x, VNil), ex.wf(x)) }

// typeInvariants are facts about fields assumed when read and proved whenever the field is written or an object that holds it
// becomes reachable for other code.
var typeInvariants = map[string]fieldInv{
	"World.shared":                   invRef,
	"shared.global":                  func(ex *Exec, x *T) *T { return ex.isType(x, ex.mustType("Variables")) },
	"shared.defun":                   invNonNil,
	"shared.dynamic":                 invRef,
	"shared.stdout":                  invRef,
	"shared.errout":                  invRef,
	"shared.macro":                   invRef,
	"shared.blockName":               invRef,
	"shared.catchTag":                invRef,
	"shared.goTag":                   invRef,
	"_WriterNode._Writer":            invNonNil,
	"_ReaderNode._Reader":            invNonNil,
	"_OutputFileStream.Writer":       invRef,
	"_Lambda.lexical":                invRef,
	"_Macro.lexical":                 invRef,
	"_Lambda.name":                   invNonNil,
	"_Lambda.rest":                   invNonNil,
	"_Lambda.code":                   invTail,
	"_Macro.rest":                    invNonNil,
	"_Macro.code":                    invTail,
	"Function.F":                     invRef,
	"FunctionRef.value":              invNonNil,
	"_ErrThrown.TagForm":             invWf,
	"_ErrThrown.Value":               invWf,
	"_ErrEarlyReturns.Value":         invWf,
	"_ErrEarlyReturns.Name":          invNonNil,
	"_ErrTagBody.tag":                invNonNil,
	"_ErrContinueCondition.Value":    invWf,
	"_ErrContinueCondition.Cond":     invWf,
	"_ErrTailRecOpt.params":          invTail,
	"DomainError.Object":             invWf,
	"DomainError.ExpectedClass":      invNonNil,
	"ParseError.ExpectedClass":       invNonNil,
	"StreamError.Stream":             invWf,
	"EndOfStream.Stream":             invWf,
	"ArithmeticError.Operands":       invWf,
	"ArithmeticError.Class":          invNonNil,
	"ErrorNode.Value":                invNonNil,
	"_UndefinedEntity.name":          invNonNil,
	"_UndefinedEntity.space":         invNonNil,
	"_BuiltInClass.name":             invNonNil,
	"_BuiltInClass.instanceP":        invRef,
	"_BuiltInClass.create":           invRef,
	"_StandardClass.Symbol":          invNonNil,
	"_StandardClass.Slot":            invRef,
	"_StandardObject._StandardClass": invRef,
	"_StandardObject.Slot":           invRef,
	"_Generic.Symbol":                invNonNil,
	"_Method.method":                 invRef,
	"assignT.symbol":                 invNonNil,
	"assignT.value":                  invWf,
	"elem:*assignT":                  invRef,
	"cell:Variables":                 invRef,
	"_SlotSpec.identifier":           invNonNil,
	"_SlotSpec.initform":             invRef,
	"Pair.Key":                       invNonNil,
	"Pair.Value":                     invWf,
	"BigInt.Int":                     invRef,
	"Uneval.Node":                    invWf,
	"Cons.Car":                       invWf,
	"Cons.Cdr":                       invTail,
	"elem:Node":                      invWf,
	"elem:Class":                     invNonNil,
	"elem:Symbol":                    invNonNil,
	"elem:*_Method":                  invRef,
	"map:Symbol,Node#val":            invWf,
	"map:Node,Node#val":              invWf,
	"map:Symbol,Callable#val":        invNonNil,
	"map:Symbol,*_Macro#val":         invRef,
	"map:Symbol,*_SlotSpec#val":      invRef,
	"map:Symbol#key":                 invNonNil,
	"map:Node#key":                   invWf,
}

// fieldInvariants lists the invariants of a struct type's fields.
func (ex *Exec) checkObject(st *State, r *T) {
	oi := st.objTyp[r]
	if oi.elem != nil {
		k := elemKey(oi.elem)
		if typeInvariants[k] != nil {
			i := Const(ex.fresh("sk"), SInt)
			t := st.clone()
			t.assume(And(Le(IntT(0), i), Lt(i, oi.n)))
			if !t.dead {
				ex.storeInv(t, k, ex.loadKeyed(t, k, []*T{r, i}, oi.elem), token.NoPos)
			}
		}
		return
	}
	t := oi.typ
	if t == nil {
		return
	}
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < u.NumFields(); i++ {
		k := typeKey(t) + "." + u.Field(i).Name()
		if typeInvariants[k] == nil {
			continue
		}
		if s, ok := scalarSort(u.Field(i).Type()); !ok || s != SInt && s != SVal && s != SBool && s != SStr {
			continue
		}
		v := ex.loadKeyed(st, k, []*T{r}, u.Field(i).Type())
		ex.storeInv(st, k, v, token.NoPos)
	}
}

func (ex *Exec) doStore(st *State, p Value, pt types.Type, v Value, vt types.Type, pos token.Pos) bool {
	switch b := p.(type) {
	case PtrV:
		switch b.kind {
		case "box":
			st.boxes[b.box] = v
			return true
		case "field", "elem":
			if st.local[b.ref] && (b.kind == "field" && st.objTyp[b.ref].typ != nil || b.kind == "elem" && st.objTyp[b.ref].elem != nil) {
				// checked when the object is published
			} else if !ex.storeInv(st, b.key, v, pos) {
				return false
			}
			ex.storeKeyed(st, b.key, ex.ptrKeys(b), vt, v)
			ex.onWrite(st, b.ref, v)
			return true
		case "global":
			ex.storeKeyed(st, b.key, []*T{IntT(0)}, vt, v)
			ex.escape(st, v)
			return true
		}
	case *T:
		if !ex.oblige(st, "nilderef", "store", Not(Eq(b, IntT(0))), pos, "nil pointer dereference") {
			return false
		}
		if s, ok := vt.Underlying().(*types.Struct); ok {
			sv := v.(StructV)
			for i := 0; i < s.NumFields(); i++ {
				k := typeKey(vt) + "." + s.Field(i).Name()
				if !(st.local[b] && st.objTyp[b].typ != nil) && !ex.storeInv(st, k, sv.fields[i], pos) {
					return false
				}
				ex.storeKeyed(st, k, []*T{b}, s.Field(i).Type(), sv.fields[i])
				ex.onWrite(st, b, sv.fields[i])
			}
			return true
		}
		ex.storeKeyed(st, "cell:"+typeKey(vt), []*T{b}, vt, v)
		ex.onWrite(st, b, v)
		return true
	}
	panic(unsupported(fmt.Sprintf("store through %T", p)))
}

func (ex *Exec) storeInv(st *State, key string, v Value, pos token.Pos) bool {
	if sv, ok := v.(StructV); ok {
		for i, f := range sv.fields {
			if !ex.storeInv(st, fieldKey(key, sv, i), f, pos) {
				return false
			}
		}
		return true
	}
	inv := typeInvariants[key]
	if inv == nil {
		return true
	}
	x, ok := v.(*T)
	if !ok {
		if _, isf := v.(*FuncV); isf {
			return true
		}
		panic(unsupported("invariant on " + key))
	}
	kind := "typeinv"
	switch key {
	case "Cons.Car", "Cons.Cdr", "elem:Node", "map:Node,Node#val", "map:Symbol,Node#val", "_ErrThrown.Value", "_ErrEarlyReturns.Value", "_ErrContinueCondition.Value":
		kind = "wf"
	}
	return ex.oblige(st, kind, key, inv(ex, x), pos, "stored value violates the invariant of "+key)
}

// onWrite: storing v into object ref publishes v unless ref itself is still private.
func (ex *Exec) onWrite(st *State, ref *T, v Value) {
	if st.local[ref] {
		return
	}
	ex.escape(st, v)
}

func (ex *Exec) escape(st *State, v Value) {
	switch x := v.(type) {
	case *T:
		switch x.sort {
		case SInt:
			ex.escapeRef(st, x)
		case SVal:
			ex.escapeVal(st, x)
		}
	case SliceV:
		ex.escapeRef(st, x.arr)
	case StructV:
		for _, f := range x.fields {
			ex.escape(st, f)
		}
	case TupleV:
		for _, f := range x {
			ex.escape(st, f)
		}
	case *FuncV:
		for _, b := range x.binds {
			ex.escape(st, b)
		}
	case PtrV:
		switch x.kind {
		case "box":
			ex.escape(st, st.boxes[x.box])
			st.ghosts["escbox!"+fmt.Sprint(x.box)] = True
		case "field", "elem":
			ex.escapeRef(st, x.ref)
		}
	}
}

func (ex *Exec) escapeVal(st *State, x *T) {
	switch x.op {
	case "VP":
		ex.escapeRef(st, x.args[1])
	case "VX":
		ex.escapeVal(st, x.args[1])
	case "VW":
		ex.escapeVal(st, x.args[0])
	case "VFn":
		ex.escapeRef(st, x.args[1])
	case "ite":
		ex.escapeVal(st, x.args[1])
		ex.escapeVal(st, x.args[2])
	}
}

func (ex *Exec) escapeRef(st *State, r *T) {
	if r.op == "ite" {
		ex.escapeRef(st, r.args[1])
		ex.escapeRef(st, r.args[2])
		return
	}
	if r.lit != nil {
		ex.P.mu.Lock()
		fv := ex.P.idFuncs[r.lit.Int64()]
		ex.P.mu.Unlock()
		if fv != nil && len(fv.binds) > 0 {
			for _, b := range fv.binds {
				if p, ok := b.(PtrV); ok && p.kind == "box" && st.ghosts["escbox!"+fmt.Sprint(p.box)] == True {
					continue
				}
				ex.escape(st, b)
			}
		}
		return
	}
	if !st.local[r] {
		return
	}
	delete(st.local, r)
	ex.checkObject(st, r)
	// everything stored in the object escapes too
	for _, key := range sortedKeys(st.heaps) {
		h := st.heaps[key]
		for n := h; n.prev != nil; n = n.prev {
			if n.keys != nil && n.keys[0] == r {
				if h.sort == SVal {
					ex.escapeVal(st, n.val)
				} else if h.sort == SInt {
					ex.escapeRef(st, n.val)
				}
				if len(n.keys) > 1 && n.keys[1].sort == SVal {
					ex.escapeVal(st, n.keys[1])
				}
			}
			if n.keys == nil {
				// a region (copied slice elements): anything it may hold escapes; elements of private slices come from stores
				// seen elsewhere in the chain, so escape every reference stored under this key
				for m := n.prev; m.prev != nil; m = m.prev {
					if m.keys != nil {
						if h.sort == SVal {
							ex.escapeVal(st, m.val)
						}
					}
				}
			}
		}
	}
}

// ---- operators ----

func (ex *Exec) unop(st *State, f *Frame, x *ssa.UnOp) bool {
	switch x.Op {
	case token.MUL:
		if a, ok := x.Type().Underlying().(*types.Array); ok && len(*x.Referrers()) == 0 { // ranging over the indices of an array
			if _, ok := x.X.(*ssa.Alloc); ok {
				f.regs[x] = StructV{name: a.String()}
				break
			}
		}
		v, ok := ex.load(st, ex.val(st, f, x.X), x.X.Type(), x.Pos())
		if !ok {
			return false
		}
		f.regs[x] = v
	case token.NOT:
		f.regs[x] = Not(ex.term(st, f, x.X))
	case token.SUB:
		t := ex.term(st, f, x.X)
		if t.sort == SF64 {
			f.regs[x] = Fneg(t)
		} else {
			f.regs[x] = ex.wrapInt(st, Neg(t), x.Type())
		}
	case token.XOR:
		f.regs[x] = ex.freshVal(st, "xor", x.Type())
	case token.ARROW:
		// receive from ctx.Done(): blocks until cancelled; not used with other channels
		f.regs[x] = ex.freshVal(st, "recv", x.Type())
	default:
		panic(unsupported("unop " + x.Op.String()))
	}
	f.ip++
	return true
}

func Fneg(t *T) *T {
	if t.op == "i2f" && t.args[0].lit != nil && t.args[0].lit.Sign() != 0 {
		return UF("i2f", SF64, Neg(t.args[0]))
	}
	return UF("fneg", SF64, t)
}

func (ex *Exec) isNilOf(v Value) *T {
	switch x := v.(type) {
	case *T:
		if x.sort == SVal {
			return Eq(x, VNil)
		}
		return Eq(x, IntT(0))
	case SliceV:
		return Eq(x.arr, IntT(0))
	case *FuncV:
		return False
	case PtrV:
		return False
	}
	panic(unsupported("nil comparison"))
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (ex *Exec) binop(st *State, f *Frame, x *ssa.BinOp) bool {
	if x.Op == token.EQL || x.Op == token.NEQ {
		var e *T
		switch {
		case isNilConst(x.Y) && !isStructType(x.X.Type()):
			e = ex.isNilOf(ex.val(st, f, x.X))
		case isNilConst(x.X) && !isStructType(x.X.Type()):
			e = ex.isNilOf(ex.val(st, f, x.Y))
		default:
			e = ex.valueEq(st, f, x)
			if e == nil {
				return false
			}
		}
		if x.Op == token.NEQ {
			e = Not(e)
		}
		f.regs[x] = e
		f.ip++
		return true
	}
	a, b := ex.term(st, f, x.X), ex.term(st, f, x.Y)
	t := x.X.Type()
	switch a.sort {
	case SInt:
		var r *T
		switch x.Op {
		case token.ADD:
			r = ex.wrapInt(st, Add(a, b), t)
		case token.SUB:
			r = ex.wrapInt(st, Sub(a, b), t)
		case token.MUL:
			r = ex.wrapInt(st, Mul(a, b), t)
		case token.QUO, token.REM:
			if !ex.oblige(st, "divzero", "div", Not(Eq(b, IntT(0))), x.Pos(), "integer divide by zero") {
				return false
			}
			if x.Op == token.QUO {
				r = ex.wrapInt(st, TDiv(a, b), t)
			} else {
				r = TRem(a, b)
			}
		case token.LSS:
			r = Lt(a, b)
		case token.LEQ:
			r = Le(a, b)
		case token.GTR:
			r = Gt(a, b)
		case token.GEQ:
			r = Ge(a, b)
		case token.AND:
			if b.lit != nil && b.lit.Int64() == 1 {
				r = UFmod(a, 2)
			} else {
				r = ex.freshVal(st, "and", t).(*T)
			}
		case token.SHL:
			if b.lit != nil && b.lit.Int64() < 63 {
				r = ex.wrapInt(st, Mul(a, IntT(1<<uint(b.lit.Int64()))), t)
			} else {
				r = ex.freshVal(st, "shl", t).(*T)
			}
		case token.OR, token.XOR, token.SHR, token.AND_NOT:
			r = ex.freshVal(st, "bits", t).(*T)
		default:
			panic(unsupported("int op " + x.Op.String()))
		}
		f.regs[x] = r
	case SStr:
		switch x.Op {
		case token.ADD:
			f.regs[x] = ex.strCat(st, a, b)
		case token.LSS:
			f.regs[x] = Strlt(a, b)
		case token.GTR:
			f.regs[x] = Strlt(b, a)
		case token.LEQ:
			f.regs[x] = Not(Strlt(b, a))
		case token.GEQ:
			f.regs[x] = Not(Strlt(a, b))
		default:
			panic(unsupported("string op"))
		}
	case SF64:
		switch x.Op {
		case token.LSS:
			f.regs[x] = Flt(a, b)
		case token.GTR:
			f.regs[x] = Flt(b, a)
		case token.LEQ:
			f.regs[x] = Fle(a, b)
		case token.GEQ:
			f.regs[x] = Fle(b, a)
		case token.ADD:
			f.regs[x] = UF("fadd", SF64, a, b)
		case token.SUB:
			f.regs[x] = UF("fsub", SF64, a, b)
		case token.MUL:
			f.regs[x] = UF("fmul", SF64, a, b)
		case token.QUO:
			f.regs[x] = UF("fdiv", SF64, a, b)
		default:
			panic(unsupported("float op"))
		}
	case SBool:
		switch x.Op {
		case token.AND, token.LAND:
			f.regs[x] = And(a, b)
		case token.OR, token.LOR:
			f.regs[x] = Or(a, b)
		default:
			panic(unsupported("bool op"))
		}
	default:
		panic(unsupported("binop on " + string(a.sort)))
	}
	f.ip++
	return true
}

func isStructType(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

// Strlt is a strict total order on strings.
func Strlt(a, b *T) *T {
	if a == b {
		return False
	}
	x, ok1 := strLitText(a)
	y, ok2 := strLitText(b)
	if ok1 && ok2 {
		return BoolT(x < y)
	}
	// total order through an injective rank
	return Lt(UF("srank", SInt, a), UF("srank", SInt, b))
}

// TDiv and TRem are Go's truncated division.
func TDiv(a, b *T) *T {
	if a.lit != nil && b.lit != nil && b.lit.Sign() != 0 {
		return BigT(bigQuo(a.lit, b.lit))
	}
	// sign-corrected Euclidean division
	q := rawApp("div", SInt, absT(a), absT(b))
	return Ite(Eq(Lt(a, IntT(0)), Lt(b, IntT(0))), q, Neg(q))
}
func TRem(a, b *T) *T {
	if a.lit != nil && b.lit != nil && b.lit.Sign() != 0 {
		return BigT(bigRem(a.lit, b.lit))
	}
	m := rawApp("mod", SInt, absT(a), absT(b))
	return Ite(Lt(a, IntT(0)), Neg(m), m)
}

// FMod is floor modulo.
func FMod(a, b *T) *T {
	m := rawApp("mod", SInt, absT(a), absT(b)) // |a| mod |b|
	z := Eq(m, IntT(0))
	pos := Ite(Lt(a, IntT(0)), Ite(z, IntT(0), Sub(absT(b), m)), m)
	neg := Ite(Lt(a, IntT(0)), Neg(m), Ite(z, IntT(0), Add(m, b)))
	return Ite(Lt(IntT(0), b), pos, neg)
}
func absT(a *T) *T {
	if a.lit != nil {
		return BigT(bigAbs(a.lit))
	}
	return Ite(Lt(a, IntT(0)), Neg(a), a)
}
func UFmod(a *T, k int64) *T { return rawApp("mod", SInt, a, IntT(k)) }

func (ex *Exec) strCat(st *State, a, b *T) *T {
	x, ok1 := strLitText(a)
	y, ok2 := strLitText(b)
	if ok1 && ok2 {
		return StrLit(x + y)
	}
	if ok1 && x == "" {
		return b
	}
	if ok2 && y == "" {
		return a
	}
	// right-associate so that equal concatenations are equal terms
	if a.op == "scat" {
		return ex.strCat(st, a.args[0], ex.strCat(st, a.args[1], b))
	}
	r := UF("scat", SStr, a, b)
	ex.strFact(st, r)
	st.assume(Eq(Slen(r), Add(Slen(a), Slen(b))))
	return r
}

func (ex *Exec) valueEq(st *State, f *Frame, x *ssa.BinOp) *T {
	l, r := ex.val(st, f, x.X), ex.val(st, f, x.Y)
	lt, rt := x.X.Type(), x.Y.Type()
	li, ri := types.IsInterface(lt), types.IsInterface(rt)
	if li != ri {
		if !li {
			l = ex.mkIface(st, lt, l)
		} else {
			r = ex.mkIface(st, rt, r)
		}
		li = true
	}
	if li {
		a, b := l.(*T), r.(*T)
		if !ex.oblige(st, "hash", "compare", Not(ex.uncomparable(a, b)), x.Pos(), "comparison of uncomparable dynamic values") {
			return nil
		}
		return ex.ifaceEq(a, b)
	}
	return ex.eqValues(st, l, r, lt)
}

func (ex *Exec) eqValues(st *State, l, r Value, t types.Type) *T {
	switch a := l.(type) {
	case *T:
		b, ok := r.(*T)
		if !ok {
			return Eq(a, ex.scalar(st, r, t))
		}
		switch a.sort {
		case SF64:
			return Feq(a, b)
		case SVal:
			return ex.ifaceEq(a, b)
		}
		return Eq(a, b)
	case StructV:
		b := r.(StructV)
		var cs []*T
		for i := range a.fields {
			cs = append(cs, ex.eqValues(st, a.fields[i], b.fields[i], a.typ.Field(i).Type()))
		}
		return And(cs...)
	case PtrV:
		return Eq(ex.ptrTerm(st, a), ex.scalar(st, r, t))
	}
	panic(unsupported("comparison"))
}

// ---- conversions ----

func (ex *Exec) convert(st *State, v Value, from, to types.Type) (Value, bool) {
	fs, fok := scalarSort(from)
	ts, tok := scalarSort(to)
	if fok && tok {
		x := ex.scalar(st, v, from)
		switch {
		case fs == SInt && ts == SInt:
			return ex.wrapInt(st, x, to), true
		case fs == SInt && ts == SF64:
			return UF("i2f", SF64, x), true
		case fs == SF64 && ts == SInt:
			return ex.f2i(st, x, to), true
		case fs == SF64 && ts == SF64:
			if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
				return UF("f32", SF64, x), true
			}
			return x, true
		case fs == SStr && ts == SStr:
			return x, true
		case fs == SInt && ts == SStr:
			r := UF("runestr", SStr, x)
			ex.strFact(st, r)
			st.assume(And(Le(IntT(1), Slen(r)), Le(Slen(r), IntT(4))))
			st.assume(Eq(UF("rlen", SInt, r), IntT(1)))
			valid := Or(And(Le(IntT(0), x), Lt(x, IntT(0xD800))), And(Lt(IntT(0xDFFF), x), Le(x, IntT(0x10FFFF))))
			st.assume(Eq(UF("rat", SInt, r, IntT(0)), Ite(valid, x, IntT(0xFFFD))))
			return r, true
		case fs == ts:
			return x, true
		}
	}
	if fs == SStr && !tok { // []byte(s) or []rune(s)
		et := to.Underlying().(*types.Slice).Elem()
		s := ex.scalar(st, v, from)
		isRune := et.Underlying().(*types.Basic).Kind() == types.Int32
		var n *T
		if isRune {
			n = ex.rlen(st, s)
		} else {
			n = Slen(s)
		}
		r := st.newRef()
		key := elemKey(et)
		h := st.heap(key, SInt)
		st.heaps[key] = h.region(func(k []*T) *T { return Eq(k[0], r) }, func(_ *State, k []*T) *T {
			if isRune {
				return UF("rat", SInt, s, k[1])
			}
			return UF("sat", SInt, s, k[1])
		})
		return SliceV{r, IntT(0), n, n}, true
	}
	if ts == SStr && !fok { // string([]byte) / string([]rune)
		sv := v.(SliceV)
		et := from.Underlying().(*types.Slice).Elem()
		isRune := et.Underlying().(*types.Basic).Kind() == types.Int32
		r := Const(ex.fresh("str"), SStr)
		ex.strFact(st, r)
		if isRune {
			st.assume(Eq(ex.rlen(st, r), sv.len))
			// content: remembered so that a query about a code point can be answered
			h := st.heap(elemKey(et), SInt)
			ex.runeDefs(st, r, h, sv)
		} else {
			st.assume(Eq(Slen(r), sv.len))
		}
		return r, true
	}
	panic(unsupported("conversion " + from.String() + " to " + to.String()))
}

// runeDefs: code points of a string built from a rune slice (recorded as a heap so that readers can be expanded lazily).
func (ex *Exec) runeDefs(st *State, s *T, h *HNode, sv SliceV) {
	key := "ghost.rat"
	g := st.heap(key, SInt)
	st.heaps[key] = g.region(func(k []*T) *T { return Eq(k[0], s) }, func(st *State, k []*T) *T {
		return readHeap(st, h, []*T{sv.arr, Add(sv.off, k[1])})
	})
}

func (ex *Exec) rlen(st *State, s *T) *T {
	if txt, ok := strLitText(s); ok {
		return IntT(int64(len([]rune(txt))))
	}
	n := UF("rlen", SInt, s)
	st.assume(Le(IntT(0), n))
	st.assume(Le(n, Slen(s)))
	st.assume(Eq(Eq(n, IntT(0)), Eq(Slen(s), IntT(0))))
	return n
}

func (ex *Exec) f2i(st *State, x *T, to types.Type) *T {
	b := to.Underlying().(*types.Basic)
	lo, hi := intRange(b)
	if x.op == "i2f" {
		in := And(Le(BigT(lo), x.args[0]), Le(x.args[0], BigT(hi)))
		// exact only up to 2^53
		small := And(Le(IntT(-(1<<53)), x.args[0]), Le(x.args[0], IntT(1<<53)), in)
		w := UF("f2i_"+b.Name(), SInt, x)
		st.assume(And(Le(BigT(lo), w), Le(w, BigT(hi))))
		return Ite(small, x.args[0], w)
	}
	w := UF("f2i_"+b.Name(), SInt, x)
	st.assume(And(Le(BigT(lo), w), Le(w, BigT(hi))))
	return w
}

// ---- type assertions ----

func (ex *Exec) typeAssert(st *State, f *Frame, x *ssa.TypeAssert) bool {
	v := ex.term(st, f, x.X)
	var c *T
	if types.IsInterface(x.AssertedType) {
		c = ex.implements(v, x.AssertedType)
	} else {
		c = ex.isType(v, x.AssertedType)
	}
	if !x.CommaOk {
		if !ex.oblige(st, "typeassert", "assert "+typeKey(x.AssertedType), c, x.Pos(), "type assertion fails") {
			return false
		}
		if types.IsInterface(x.AssertedType) {
			f.regs[x] = v
		} else {
			f.regs[x] = ex.unIface(st, v, x.AssertedType)
		}
		f.ip++
		return true
	}
	if ex.decide(st, c) {
		if types.IsInterface(x.AssertedType) {
			f.regs[x] = TupleV{v, True}
		} else {
			f.regs[x] = TupleV{ex.unIface(st, v, x.AssertedType), True}
		}
	} else {
		f.regs[x] = TupleV{ex.zero(st, x.AssertedType), False}
	}
	f.ip++
	return true
}

// ---- slices ----

func (ex *Exec) slice(st *State, f *Frame, x *ssa.Slice) (Value, bool) {
	var lo, hi *T
	lo = IntT(0)
	if x.Low != nil {
		lo = ex.term(st, f, x.Low)
	}
	if x.High != nil {
		hi = ex.term(st, f, x.High)
	}
	switch b := ex.val(st, f, x.X).(type) {
	case SliceV:
		capEnd := b.cap
		if hi == nil {
			hi = b.len
		}
		mx := b.cap
		if x.Max != nil {
			mx = ex.term(st, f, x.Max)
			if !ex.oblige(st, "bounds", "slice", And(Le(hi, mx), Le(mx, b.cap)), x.Pos(), "slice bounds out of range") {
				return nil, false
			}
			capEnd = mx
		}
		if !ex.oblige(st, "bounds", "slice", And(Le(IntT(0), lo), Le(lo, hi), Le(hi, capEnd)), x.Pos(), "slice bounds out of range") {
			return nil, false
		}
		return SliceV{b.arr, Add(b.off, lo), Sub(hi, lo), Sub(capEnd, lo)}, true
	case *T:
		if b.sort == SStr {
			if hi == nil {
				hi = Slen(b)
			}
			if !ex.oblige(st, "bounds", "strslice", And(Le(IntT(0), lo), Le(lo, hi), Le(hi, Slen(b))), x.Pos(), "slice bounds out of range") {
				return nil, false
			}
			return ex.substr(st, b, lo, hi), true
		}
		at, ok := isArrayPtr(x.X.Type())
		if !ok {
			panic(unsupported("slice of pointer"))
		}
		n := IntT(at.Len())
		if hi == nil {
			hi = n
		}
		if !ex.oblige(st, "bounds", "slice", And(Le(IntT(0), lo), Le(lo, hi), Le(hi, n)), x.Pos(), "slice bounds out of range") {
			return nil, false
		}
		return SliceV{b, lo, Sub(hi, lo), Sub(n, lo)}, true
	}
	panic(unsupported("slice"))
}

func (ex *Exec) substr(st *State, s, lo, hi *T) *T {
	if txt, ok := strLitText(s); ok && lo.lit != nil && hi.lit != nil {
		return StrLit(txt[lo.lit.Int64():hi.lit.Int64()])
	}
	if lo.lit != nil && lo.lit.Sign() == 0 && hi == Slen(s) {
		return s
	}
	r := UF("ssub", SStr, s, lo, hi)
	ex.strFact(st, r)
	st.assume(Eq(Slen(r), Sub(hi, lo)))
	if lo.op == "go:runesize0" && lo.args[0] == s && hi == Slen(s) {
		ex.restFact(st, s, r)
	}
	return r
}

// restFact: r is s without its first code point. sufUF(t, k): t is the code points of the string a contract looks at from the k-th
// one on.
func (ex *Exec) restFact(st *State, s, r *T) {
	ex.Assump["utf8.DecodeRuneInString gives the first code point of a string and its size; the string after that many bytes is the rest of the code points"] = true
	n := ex.rlen(st, s)
	st.assume(Implies(Lt(IntT(0), n), And(Eq(ex.rlen(st, r), Sub(n, IntT(1))))))
	if ex.text != nil {
		st.assume(Implies(And(Lt(IntT(0), n), sufUF(s)), And(sufUF(r), Eq(sufAt(r), Add(sufAt(s), IntT(1))))))
		ex.sufFact(st, s)
		ex.sufFact(st, r)
	}
}

func sufUF(s *T) *T { return UF("isSuffix", SBool, s) }
func sufAt(s *T) *T { return UF("suffixAt", SInt, s) }

// sufOf is the rest of the string the contract looks at from its k-th code point on.
func sufOf(k *T) *T { return UF("suffixOf", SStr, k) }

// sufFact: what is known of a suffix of the string the contract looks at.
func (ex *Exec) sufFact(st *State, s *T) {
	t := ex.text
	n := ex.rlen(st, t)
	st.assume(Implies(sufUF(s), And(Eq(s, sufOf(sufAt(s))), Le(IntT(0), sufAt(s)), Le(sufAt(s), n), Eq(ex.rlen(st, s), Sub(n, sufAt(s))), Eq(UF("rat", SInt, s, IntT(0)), UF("rat", SInt, t, sufAt(s))))))
	st.assume(And(sufUF(t), Eq(sufAt(t), IntT(0))))
}

// ---- maps ----

var mapKeySorts sync.Map

func mapKey(mt *types.Map) string {
	ks, _ := scalarSort(mt.Key())
	mapKeySorts.Store("map:"+typeKey(mt.Key())+","+typeKey(mt.Elem()), ks)
	return "map:" + typeKey(mt.Key()) + "," + typeKey(mt.Elem())
}

func (ex *Exec) makeMap(st *State, t types.Type) *T {
	mt := t.Underlying().(*types.Map)
	r := st.newRef()
	k := mapKey(mt)
	h := st.heap(k+"#dom", SBool)
	st.heaps[k+"#dom"] = h.region(func(ks []*T) *T { return Eq(ks[0], r) }, func(*State, []*T) *T { return False })
	st.heaps[k+"#len"] = st.heap(k+"#len", SInt).store([]*T{r}, IntT(0))
	return r
}

func (ex *Exec) mapHas(st *State, m *T, mt *types.Map, k *T) *T {
	d := st.readH(st.heap(mapKey(mt)+"#dom", SBool), []*T{m, k})
	return And(Not(Eq(m, IntT(0))), d)
}

func (ex *Exec) mapLen(st *State, m *T, mt *types.Map) *T {
	n := st.readH(st.heap(mapKey(mt)+"#len", SInt), []*T{m})
	st.assume(Le(IntT(0), n))
	st.assume(Le(n, BigT(maxInt64)))
	return Ite(Eq(m, IntT(0)), IntT(0), n)
}

func (ex *Exec) mapGet(st *State, m *T, mt *types.Map, k *T) Value {
	if es, ok := mt.Elem().Underlying().(*types.Struct); ok && es.NumFields() == 0 {
		return StructV{typ: es, name: typeKey(mt.Elem())}
	}
	v := ex.loadKeyed(st, mapKey(mt)+"#val", []*T{m, k}, mt.Elem())
	ex.loadFacts(st, mapKey(mt)+"#val", v, mt.Elem())
	return v
}

func (ex *Exec) mapStore(st *State, m *T, mt *types.Map, k *T, v Value) {
	key := mapKey(mt)
	ex.storeInv(st, key+"#val", v, token.NoPos)
	ex.storeInv(st, "map:"+typeKey(mt.Key())+"#key", k, token.NoPos)
	has := ex.mapHas(st, m, mt, k)
	n := st.readH(st.heap(key+"#len", SInt), []*T{m})
	st.assume(Le(IntT(0), n))
	st.heaps[key+"#len"] = st.heap(key+"#len", SInt).store([]*T{m}, Ite(has, n, Add(n, IntT(1))))
	st.assume(Implies(has, Le(IntT(1), n)))
	st.heaps[key+"#dom"] = st.heap(key+"#dom", SBool).store([]*T{m, k}, True)
	if es, ok := mt.Elem().Underlying().(*types.Struct); ok && es.NumFields() == 0 {
		return
	}
	ex.storeKeyed(st, key+"#val", []*T{m, k}, mt.Elem(), v)
}

func (ex *Exec) mapDelete(st *State, m *T, mt *types.Map, k *T) {
	key := mapKey(mt)
	has := ex.mapHas(st, m, mt, k)
	n := st.readH(st.heap(key+"#len", SInt), []*T{m})
	st.assume(Implies(has, Le(IntT(1), n)))
	st.heaps[key+"#len"] = st.heap(key+"#len", SInt).store([]*T{m}, Ite(has, Sub(n, IntT(1)), n))
	st.heaps[key+"#dom"] = st.heap(key+"#dom", SBool).store([]*T{m, k}, False)
}

func (ex *Exec) lookup(st *State, f *Frame, x *ssa.Lookup) bool {
	if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s, idx := ex.term(st, f, x.X), ex.term(st, f, x.Index)
		if !ex.oblige(st, "bounds", "strindex", And(Le(IntT(0), idx), Lt(idx, Slen(s))), x.Pos(), "string index out of range") {
			return false
		}
		r := UF("sat", SInt, s, idx)
		st.assume(And(Le(IntT(0), r), Le(r, IntT(255))))
		f.regs[x] = r
		f.ip++
		return true
	}
	mt := x.X.Type().Underlying().(*types.Map)
	m, k := ex.term(st, f, x.X), ex.term(st, f, x.Index)
	if types.IsInterface(mt.Key()) {
		if !ex.oblige(st, "hash", "lookup", Or(Eq(m, IntT(0)), Not(ex.unhashable(k))), x.Pos(), "unhashable map key") {
			return false
		}
	}
	has := ex.decide(st, ex.mapHas(st, m, mt, k))
	var v Value
	if has {
		v = ex.mapGet(st, m, mt, k)
	} else {
		v = ex.zero(st, mt.Elem())
	}
	if x.CommaOk {
		f.regs[x] = TupleV{v, BoolT(has)}
	} else {
		f.regs[x] = v
	}
	f.ip++
	return true
}

// ---- iteration ----

func (ex *Exec) mkRange(st *State, v Value, x *ssa.Range) Value {
	t := x.X.Type()
	if mt, ok := t.Underlying().(*types.Map); ok {
		r := &RangeV{m: v.(*T), mt: mt}
		r.vis = fmt.Sprintf("ghost.vis:%s.%s.%d", ex.P.fname(x.Parent()), x.Name(), len(st.frames))
		ks, _ := scalarSort(mt.Key())
		ex.visKey[r.vis] = ks
		r.dom = st.heap(mapKey(mt)+"#dom", SBool)
		h := &HNode{base: r.vis, sort: SBool, bound: st.alloc()}
		st.heaps[r.vis] = h.region(func([]*T) *T { return True }, func(*State, []*T) *T { return False })
		r.cntB = ex.newBox(st, IntT(0), types.Typ[types.Int])
		return r
	}
	s := v.(*T)
	return &RangeV{isStr: true, str: s, cntB: ex.newBox(st, IntT(0), types.Typ[types.Int])}
}

func (ex *Exec) next(st *State, f *Frame, x *ssa.Next) bool {
	r, ok := ex.val(st, f, x.Iter).(*RangeV)
	if !ok {
		panic(unsupported("next"))
	}
	if r.isStr {
		cnt := st.boxes[r.cntB].(*T)
		n := ex.rlen(st, r.str)
		st.assume(Le(IntT(0), cnt))
		pos := UF("bpos", SInt, r.str, cnt)
		st.assume(Implies(Eq(cnt, IntT(0)), Eq(pos, IntT(0))))
		st.assume(And(Le(cnt, pos), Le(pos, Slen(r.str))))
		if ex.decide(st, Lt(cnt, n)) {
			st.assume(Lt(pos, Slen(r.str)))
			nx := UF("bpos", SInt, r.str, Add(cnt, IntT(1)))
			st.assume(And(Lt(pos, nx), Le(nx, Slen(r.str))))
			c := ex.ratOf(st, r.str, cnt)
			st.assume(And(Le(IntT(0), c), Le(c, IntT(0x10FFFF))))
			st.boxes[r.cntB] = Add(cnt, IntT(1))
			f.regs[x] = TupleV{True, pos, c}
		} else {
			f.regs[x] = TupleV{False, IntT(0), IntT(0)}
		}
		f.ip++
		return true
	}
	// map: any not yet visited key
	g := st.clone()
	ks, _ := scalarSort(r.mt.Key())
	tt := x.Type().(*types.Tuple)
	ex.push2(func() {
		// exhausted: every key of the map has been visited
		key := mapKey(r.mt) + "#dom"
		h := g.heap(key, SBool)
		vis := g.heaps[r.vis]
		m := r.m
		unmod := h == r.dom
		if !unmod { // or not this map: its keys are the ones it had at the beginning
			sk := Const(ex.fresh("anykey"), mustSort(r.mt.Key()))
			a, b := readHeap(g, h, []*T{m, sk}), readHeap(g, r.dom, []*T{m, sk})
			unmod = a == b || !ex.feasible(g, And(Not(readHeap(g, vis, []*T{sk})), Not(Eq(a, b)))) // the keys not visited are unchanged
		}
		if unmod {
			if mustSort(r.mt.Key()) == SVal {
				for _, k := range g.rkeys {
					g.assume(Implies(readHeap(g, h, []*T{m, k}), readHeap(g, vis, []*T{k})))
				}
			}
			g.heaps[key] = h.region(func(k []*T) *T { return Eq(k[0], m) }, func(st *State, k []*T) *T {
				return And(readHeap(st, h, k), readHeap(st, vis, []*T{k[1]}))
			})
		}
		gf := g.top()
		gf.regs[x] = TupleV{False, ex.zeroOrInvalid(g, tt.At(1).Type()), ex.zeroOrInvalid(g, tt.At(2).Type())}
		gf.ip++
		ex.push(g)
	})
	k := Const(ex.fresh("mapkey"), ks)
	ex.typeFact(st, k, r.mt.Key())
	ex.validFact(st, k, r.mt.Key())
	if ks == SVal {
		st.assume(Not(Eq(k, VNil)))
		st.assume(Not(ex.unhashable(k)))
	}
	st.assume(ex.mapHas(st, r.m, r.mt, k))
	st.assume(Not(st.readH(st.heaps[r.vis], []*T{k})))
	if st.dead || !ex.feasible(st, True) {
		return false
	}
	st.heaps[r.vis] = st.heaps[r.vis].store([]*T{k}, True)
	st.boxes[r.cntB] = Add(st.boxes[r.cntB].(*T), IntT(1))
	v := ex.mapGet(st, r.m, r.mt, k)
	f.regs[x] = TupleV{True, k, v}
	f.ip++
	return true
}

func (ex *Exec) push2(f func()) { f() }

func (ex *Exec) zeroOrInvalid(st *State, t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return ex.zero(st, t)
}

// ratOf is the i-th code point of a string, expanded through known definitions.
func (ex *Exec) ratOf(st *State, s, i *T) *T {
	if txt, ok := strLitText(s); ok && i.lit != nil {
		rs := []rune(txt)
		if n := i.lit.Int64(); n >= 0 && n < int64(len(rs)) {
			return IntT(int64(rs[n]))
		}
	}
	h, ok := st.heaps["ghost.rat"]
	if ok {
		hh := h
		for hh.prev != nil {
			if c := st.simp(hh.cond([]*T{s, i})); c == True {
				return hh.rval(st, []*T{s, i})
			}
			hh = hh.prev
		}
	}
	return UF("rat", SInt, s, i)
}

// ---- select (only the context idiom) ----

func (ex *Exec) selectInstr(st *State, f *Frame, x *ssa.Select) bool {
	if x.Blocking || len(x.States) != 1 {
		panic(unsupported("select"))
	}
	ch := ex.term(st, f, x.States[0].Chan)
	if ch.op != "ctxdone" {
		panic(unsupported("select on a channel other than ctx.Done()"))
	}
	// cancellation is monotone: once cancelled, always cancelled
	old := ex.ghost(st, "cancelled", SBool)
	now := Const(ex.fresh("cancelled"), SBool)
	g := st.clone()
	g.assume(Not(old))
	g.ghosts["cancelled"] = False
	tt := x.Type().(*types.Tuple)
	mk := func(idx int64, ok *T) TupleV {
		tv := TupleV{IntT(idx), ok}
		for i := 2; i < tt.Len(); i++ {
			tv = append(tv, ex.zero(st, tt.At(i).Type()))
		}
		return tv
	}
	_ = now
	if !g.dead && ex.feasible(g, True) {
		gf := g.top()
		gf.regs[x] = mk(-1, False)
		gf.ip++
		ex.push(g)
	}
	st.ghosts["cancelled"] = True
	f.regs[x] = mk(0, False)
	f.ip++
	return true
}

func (ex *Exec) ghost(st *State, name string, s Sort) *T {
	if g, ok := st.ghosts[name]; ok {
		return g
	}
	g := Const("ghost."+name+"!0", s)
	st.ghosts[name] = g
	return g
}

// cellFacts unfolds the recursive specification functions of the contract at a list cell that the code reads.
func (ex *Exec) cellFacts(st *State, key string, ref *T) {
	if ex.con == nil || len(ex.con.recs) == 0 || ref == nil || key != "Cons.Car" && key != "Cons.Cdr" {
		return
	}
	if _, ended := st.ghosts["recs ended"]; ended {
		return
	}
	v := Ctor("VP", IntT(int64(ex.P.tid(ex.mustType("*Cons")))), ref)
	car, cdr := ex.carN(st, v), ex.cdrN(st, v)
	known := false
	for _, c := range st.cells {
		if c.v == v && c.car == car && c.cdr == cdr {
			known = true
		}
	}
	if !known {
		c := cellRec{v, car, cdr}
		st.cells = append(st.cells, c)
		for _, r := range ex.con.recs {
			if r.keyed != nil {
				for _, k := range st.rkeys {
					st.assume(r.keyed(ex, st, k, v, car, cdr))
				}
			}
		}
	}
	for _, r := range ex.con.recs {
		if r.at == nil {
			continue
		}
		st.assume(r.at(ex, st, v, car, cdr))
		if r.base != nil {
			st.assume(r.base(ex, st))
		}
	}
}

// checkCellStore: the equations of the specification functions are stated for the contents of a cell at one time. A cell is
// therefore not written after its equation was used, and only new cells are written at all.
func (ex *Exec) checkCellStore(st *State, ref *T) {
	if ex.con == nil || len(ex.con.recs) == 0 {
		return
	}
	if _, ended := st.ghosts["recs ended"]; ended {
		return
	}
	if o, ok := st.objTyp[ref]; !ok || o.typ == nil {
		if ex.con.storeEndsRecs && !ex.anyLoop(st) {
			// from here on the equations are not used for any cell that is read
			st.ghosts["recs ended"] = True
			return
		}
		panic(unsupported("store to an existing list cell under a contract with functions over lists"))
	}
	for _, c := range st.cells {
		if Sel("vp", c.v) == ref || c.v.op == "VP" && c.v.args[1] == ref {
			panic(unsupported("store to a list cell whose contents a function over lists describes"))
		}
	}
}

// freshCells unfolds the specification functions at the list cells made by the code.
func (ex *Exec) freshCells(st *State) {
	if ex.con == nil || !ex.con.freshCells {
		return
	}
	var rs []*T
	for ref, o := range st.objTyp {
		if o.typ != nil && typeKey(o.typ) == "Cons" {
			rs = append(rs, ref)
		}
	}
	sortTerms(rs)
	for _, r := range ex.con.recs {
		if r.base != nil {
			st.assume(r.base(ex, st))
		}
	}
	for _, r := range rs {
		ex.cellFacts(st, "Cons.Car", r)
	}
}

// anyLoop: some frame of the state is inside a loop.
func (ex *Exec) anyLoop(st *State) bool {
	for _, f := range st.frames {
		li := ex.loopInfo(f.fn)
		if li == nil {
			return true
		}
		for _, body := range li.body {
			if body[f.block] {
				return true
			}
		}
	}
	return false
}

type cellRec struct{ v, car, cdr *T }

// addKey unfolds the keyed specification functions for one more key at every list cell read so far.
func (ex *Exec) addKey(st *State, k *T) {
	for _, x := range st.rkeys {
		if x == k {
			return
		}
	}
	st.rkeys = append(st.rkeys, k)
	for _, r := range ex.con.recs {
		if r.keyed == nil {
			continue
		}
		if r.keyBase != nil {
			st.assume(r.keyBase(ex, st, k))
		}
		for _, c := range st.cells {
			st.assume(r.keyed(ex, st, k, c.v, c.car, c.cdr))
		}
	}
}

var _ = math.MaxInt64
