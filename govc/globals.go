package main

// Package-level variables: mutable ones live in the heap, the others are evaluated from their initialiser.

import (
	"go/constant"
	"go/types"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (P *Program) globalByKey(key string) (*ssa.Global, *globalInfo) {
	P.mu.Lock()
	defer P.mu.Unlock()
	if P.gkeys == nil {
		P.gkeys = map[string]*ssa.Global{}
		for g := range P.globals {
			P.gkeys["global:"+g.Pkg.Pkg.Name()+"."+g.Name()] = g
		}
	}
	g := P.gkeys[key]
	return g, P.globals[g]
}

func (ex *Exec) loadGlobal(st *State, key string, t types.Type) Value {
	g, gi := ex.P.globalByKey(key)
	if gi == nil || gi.mutable {
		if gi == nil {
			// a variable of an external package (os.Args, io.EOF, ...)
			if isErrorType(t) {
				return Ctor("VO", IntT(extError), UF("extglobal", SInt, StrLit(key)))
			}
			v := ex.loadKeyed(st, key, []*T{IntT(0)}, t)
			if x, ok := v.(*T); ok {
				if _, isp := t.Underlying().(*types.Pointer); isp {
					st.assume(Not(Eq(x, IntT(0))))
				}
			}
			return v
		}
		v := ex.loadKeyed(st, key, []*T{IntT(0)}, t)
		ex.loadFacts(st, key, v, t)
		if x, ok := v.(*T); ok && gi.made && x.sort == SInt {
			st.assume(Lt(IntT(0), x))
		}
		return v
	}
	if _, isStruct := t.Underlying().(*types.Struct); isStruct {
		return ex.loadKeyed(st, key, []*T{IntT(0)}, t)
	}
	v := ex.evalInit(st, g, gi, gi.val, t)
	return v
}

// evalInit evaluates the initialiser of an immutable package variable.
func (ex *Exec) evalInit(st *State, g *ssa.Global, gi *globalInfo, v ssa.Value, t types.Type) Value {
	switch x := v.(type) {
	case nil:
		return ex.zero(st, t)
	case *ssa.Const:
		return ex.constVal(st, x)
	case *ssa.MakeInterface:
		in := ex.evalInit(st, g, gi, x.X, x.X.Type())
		if ifaceKind(x.X.Type()) == "box" {
			return Ctor("VP", IntT(int64(ex.P.tid(x.X.Type()))), IntT(gi.ref))
		}
		return ex.mkIface(st, x.X.Type(), in)
	case *ssa.ChangeInterface:
		return ex.evalInit(st, g, gi, x.X, x.X.Type())
	case *ssa.ChangeType:
		return ex.evalInit(st, g, gi, x.X, x.X.Type())
	case *ssa.Function:
		return ex.funcVal(x)
	case *ssa.UnOp:
		if h, ok := x.X.(*ssa.Global); ok {
			if hi := ex.P.globals[h]; hi != nil {
				return ex.loadGlobal(st, ex.globalKey(h), x.Type())
			}
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			if f.Name() == "NewSymbol" && len(x.Call.Args) == 1 {
				if c, ok := x.Call.Args[0].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
					return ex.symID(st, StrLit(constant.StringVal(c.Value)))
				}
			}
			if strings.HasPrefix(f.String(), "errors.New") {
				return Ctor("VO", IntT(extError), IntT(gi.ref))
			}
		}
		switch x.Type().Underlying().(type) {
		case *types.Pointer, *types.Map:
			return IntT(gi.ref)
		}
	case *ssa.Alloc, *ssa.MakeMap:
		return IntT(gi.ref)
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		return ex.loadKeyed(st, ex.globalKey(g), []*T{IntT(0)}, t)
	}
	c := UF(ex.globalKey(g)+"!init", mustSort(t), IntT(0))
	ex.typeFact(st, c, t)
	return c
}

// regexpMin is the length of the shortest text that the regular expression held by a package variable matches.
func (P *Program) regexpMin(recv *T) int {
	if recv.lit == nil {
		return 0
	}
	for _, gi := range P.globals {
		if gi.mutable || gi.ref != recv.lit.Int64() {
			continue
		}
		c, ok := gi.val.(*ssa.Call)
		if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "regexp.MustCompile" {
			return 0
		}
		k, ok := c.Call.Args[0].(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.String {
			return 0
		}
		re, err := syntax.Parse(constant.StringVal(k.Value), syntax.Perl)
		if err != nil {
			return 0
		}
		return minLen(re)
	}
	return 0
}

func minLen(re *syntax.Regexp) int {
	sum := 0
	switch re.Op {
	case syntax.OpLiteral:
		return len(re.Rune)
	case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return 1
	case syntax.OpCapture, syntax.OpPlus:
		return minLen(re.Sub[0])
	case syntax.OpRepeat:
		return re.Min * minLen(re.Sub[0])
	case syntax.OpConcat:
		for _, s := range re.Sub {
			sum += minLen(s)
		}
		return sum
	case syntax.OpAlternate:
		for i, s := range re.Sub {
			if n := minLen(s); i == 0 || n < sum {
				sum = n
			}
		}
		return sum
	}
	return 0
}

func mustSort(t types.Type) Sort {
	s, ok := scalarSort(t)
	if !ok {
		panic(unsupported("global of type " + t.String()))
	}
	return s
}

// symID is the number of the interned symbol of that name.
func (ex *Exec) symID(st *State, name *T) *T {
	id := UF("symid", SInt, name)
	st.assume(Eq(UF("symname", SStr, id), name))
	st.assume(And(Le(IntT(0), id), Le(id, BigT(maxInt64))))
	return id
}

// typeByName finds a named type of the main package ("_Macro") or a pointer to it ("*_Macro").
func (P *Program) typeByName(name string) types.Type {
	ptr := strings.HasPrefix(name, "*")
	base, arg, inst := strings.Cut(strings.TrimPrefix(name, "*"), "[")
	o := P.main.Pkg.Scope().Lookup(base)
	if o == nil {
		return nil
	}
	tn, ok := o.(*types.TypeName)
	if !ok {
		return nil
	}
	t := tn.Type()
	if inst {
		a := P.typeByName(strings.TrimSuffix(arg, "]"))
		if a == nil {
			return nil
		}
		it, err := types.Instantiate(nil, t, []types.Type{a}, true)
		if err != nil {
			return nil
		}
		t = it
	}
	if ptr {
		return types.NewPointer(t)
	}
	return t
}

// constField is the value of a function- or symbol-valued field of the object a package variable was initialised with, when the
// field is only ever written while an object is being built (composite literals).
func (ex *Exec) constField(st *State, ref int64, key string) Value {
	P := ex.P
	P.mu.Lock()
	if P.litFields == nil {
		P.litFields = map[string]bool{}
		for _, fn := range P.allFuncs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					fa, ok := in.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					pt, s := structOf(fa.X.Type())
					if _, ok := fa.X.(*ssa.Alloc); !ok && !onlyLoaded(fa) {
						P.litFields[typeKey(pt)+"."+s.Field(fa.Field).Name()] = true // written after construction
					}
				}
			}
		}
	}
	var gi *globalInfo
	for _, x := range P.globals {
		if x.ref == ref && !x.mutable {
			gi = x
		}
	}
	bad := P.litFields[key]
	P.mu.Unlock()
	if bad || gi == nil {
		return nil
	}
	v := gi.val
	var calls []*ssa.Call
	var al *ssa.Alloc
	for depth := 0; depth < 5 && al == nil; depth++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			al = x
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == nil {
				return nil
			}
			calls = append(calls, x)
			v = nil
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					if len(r.Results) != 1 || v != nil && v != r.Results[0] {
						return nil
					}
					v = r.Results[0]
				}
			}
		default:
			return nil
		}
	}
	if al == nil {
		return nil
	}
	var val ssa.Value
	for _, u := range *al.Referrers() {
		fa, ok := u.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		pt, s := structOf(fa.X.Type())
		if typeKey(pt)+"."+s.Field(fa.Field).Name() != key {
			continue
		}
		for _, w := range *fa.Referrers() {
			if _, ok := w.(*ssa.UnOp); ok {
				continue
			}
			st, ok := w.(*ssa.Store)
			if !ok || st.Addr != fa || val != nil {
				return nil
			}
			val = st.Val
		}
	}
	// resolve parameters along the chain of calls
	n := len(calls)
	param := func(v ssa.Value) ssa.Value {
		for {
			p, ok := v.(*ssa.Parameter)
			if !ok {
				return v
			}
			if n == 0 {
				return nil
			}
			n--
			f := calls[n].Call.StaticCallee()
			v = nil
			for i, q := range f.Params {
				if q == p {
					v = calls[n].Call.Args[i]
				}
			}
		}
	}
	val = param(val)
	if mi, ok := val.(*ssa.MakeInterface); ok {
		in := ex.constFieldVal(st, mi.X, param)
		if in == nil {
			return nil
		}
		return ex.mkIface(st, mi.X.Type(), in)
	}
	return ex.constFieldVal(st, val, param)
}

func (ex *Exec) constFieldVal(st *State, val ssa.Value, param func(ssa.Value) ssa.Value) Value {
	switch x := param(val).(type) {
	case *ssa.Function:
		return ex.funcVal(x)
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.Name() == "NewSymbol" && len(x.Call.Args) == 1 {
			if c, ok := param(x.Call.Args[0]).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
				return ex.symID(st, StrLit(constant.StringVal(c.Value)))
			}
		}
	}
	return nil
}
