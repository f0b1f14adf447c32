package main

// Assumed contracts of functions outside the repository (standard library). Each is an assumption, listed in the evidence.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type mcall struct {
	ex   *Exec
	st   *State
	name string
	sig  *types.Signature
	args []Value
	pos  token.Pos
	call *ssa.CallCommon
	recv *T
	// set by a model that consumed the state itself
	retTo   ssa.Value
	isDefer bool
	handled bool
	cont    bool
}

func (m *mcall) t(i int) *T {
	if x, ok := m.args[i].(*T); ok {
		return x
	}
	if f, ok := m.args[i].(*FuncV); ok {
		return m.ex.funcID(m.st, f)
	}
	if p, ok := m.args[i].(PtrV); ok {
		return m.ex.ptrTerm(m.st, p)
	}
	panic(unsupported("model argument"))
}

type model func(mc *mcall) (Value, bool)

func (ex *Exec) runModel(st *State, m model, name string, fn *ssa.Function, args []Value, retTo ssa.Value, pos token.Pos, isDefer bool) bool {
	mc := &mcall{ex: ex, st: st, name: name, sig: fn.Signature, args: args, pos: pos, retTo: retTo, isDefer: isDefer}
	res, ok := m(mc)
	if mc.handled {
		return mc.cont
	}
	if !ok {
		return false
	}
	ex.Assump["external "+name+": assumed contract (models.go)"] = true
	return ex.finish(st, retTo, isDefer, res)
}

func strRes(m *mcall, f string, args ...*T) *T {
	r := UF(f, SStr, args...)
	m.ex.strFact(m.st, r)
	return r
}

// freshStr is an unconstrained string.
func (ex *Exec) freshStr(st *State, name string) *T {
	c := Const(ex.fresh(name), SStr)
	ex.strFact(st, c)
	return c
}

// pureInt/pureBool/pureStr/pureF: a deterministic function of its scalar arguments.
func pureF(sort Sort) model {
	return func(m *mcall) (Value, bool) {
		var as []*T
		for i := range m.args {
			as = append(as, m.t(i))
		}
		r := UF("go:"+m.name, sort, as...)
		rt := m.sig.Results().At(0).Type()
		m.ex.typeFact(m.st, r, rt)
		return r, true
	}
}

// pureTuple: deterministic, several results; errors are external error values.
func pureTuple(m *mcall) (Value, bool) {
	var as []*T
	for i := range m.args {
		as = append(as, m.t(i))
	}
	var tv TupleV
	rs := m.sig.Results()
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		s, ok := scalarSort(t)
		if !ok {
			panic(unsupported("pureTuple " + m.name))
		}
		r := UF(fmt.Sprintf("go:%s#%d", m.name, i), s, as...)
		if isErrorType(t) {
			m.st.assume(Or(Eq(r, VNil), And(Is("VO", r), Eq(Sel("vot", r), IntT(extError)))))
		} else {
			m.ex.typeFact(m.st, r, t)
		}
		tv = append(tv, r)
	}
	return tv, true
}

// ---- errors ----

// unwrapStep gives, for an error value, the conditions under which it wraps another error and that error.
func (ex *Exec) unwrapStep(st *State, e *T) []struct{ c, v *T } {
	var r []struct{ c, v *T }
	add := func(c, v *T) {
		if c != False {
			r = append(r, struct{ c, v *T }{c, v})
		}
	}
	add(Is("VW", e), Sel("vw", e))
	for _, n := range []string{"ProgramError", "ControlError"} {
		if t := ex.P.typeByName(n); t != nil && ifaceKind(t) == "VX" {
			add(ex.isType(e, t), Sel("vx", e))
		}
		if t := ex.P.typeByName("*" + n); t != nil {
			c := ex.isType(e, t)
			if st.simp(c) != False {
				add(c, st.readH(st.heap(n+".err", SVal), []*T{Sel("vp", e)}))
			}
		}
	}
	return r
}

// errAs is the first error of type t in the chain of e (VNil if none).
func (ex *Exec) errAs(st *State, e *T, t types.Type) *T {
	return ex.errAsD(st, e, t, 3)
}

func (ex *Exec) errAsD(st *State, e *T, t types.Type, depth int) *T {
	if e == VNil {
		return VNil
	}
	is := st.simp(ex.isType(e, t))
	if is == True {
		return e
	}
	name := "errAs:" + typeKey(t)
	if isValCtor(e.op) && depth > 0 {
		res := VNil
		for _, s := range ex.unwrapStep(st, e) {
			res = Ite(s.c, ex.errAsD(st, s.v, t, depth-1), res)
		}
		return res
	}
	r := UF(name, SVal, e)
	st.assume(Or(Eq(r, VNil), ex.isType(r, t)))
	st.assume(Implies(is, Eq(r, e)))
	none := Not(is)
	for _, s := range ex.unwrapStep(st, e) {
		if depth > 0 {
			st.assume(Implies(And(Not(is), s.c), Eq(r, UF(name, SVal, s.v))))
		}
		none = And(none, Not(s.c))
	}
	st.assume(Implies(none, Eq(r, VNil)))
	if ex.heapBound(t) {
		ex.validFact(st, r, anyType)
	}
	return r
}

func (ex *Exec) heapBound(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

func (ex *Exec) errIs(st *State, e, target *T) *T {
	return ex.errIsD(st, e, target, 3)
}

func (ex *Exec) errIsD(st *State, e, target *T, depth int) *T {
	if e == VNil || target == VNil {
		return ex.ifaceEq(e, target)
	}
	if e == target && isValCtor(e.op) {
		return True
	}
	eq := ex.ifaceEq(e, target)
	if isValCtor(e.op) && depth > 0 {
		cs := []*T{eq}
		for _, s := range ex.unwrapStep(st, e) {
			cs = append(cs, And(s.c, ex.errIsD(st, s.v, target, depth-1)))
		}
		return Or(cs...)
	}
	r := UF("errIs", SBool, e, target)
	st.assume(Implies(eq, r))
	st.assume(Implies(Eq(e, VNil), Eq(r, eq)))
	none := Not(eq)
	for _, s := range ex.unwrapStep(st, e) {
		if depth > 0 {
			st.assume(Implies(And(Not(eq), s.c), Eq(r, UF("errIs", SBool, s.v, target))))
		}
		none = And(none, Not(s.c))
	}
	st.assume(Implies(none, Not(r)))
	return r
}

var models map[string]model

func init() {
	models = map[string]model{}
	pi := func(names ...string) {
		for _, n := range names {
			models[n] = pureF(SInt)
		}
	}
	pb := func(names ...string) {
		for _, n := range names {
			models[n] = pureF(SBool)
		}
	}
	pf := func(names ...string) {
		for _, n := range names {
			models[n] = pureF(SF64)
		}
	}
	ps := func(names ...string) {
		for _, n := range names {
			models[n] = pureF(SStr)
		}
	}
	pi("unicode.ToUpper", "unicode.ToLower", "unicode/utf8.RuneLen", "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.LastIndex", "strings.Compare", "strings.Count", "strings.LastIndexByte")
	pb("unicode.IsLetter", "unicode.IsSpace", "unicode.IsDigit", "unicode.IsUpper", "unicode.IsLower", "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.ContainsRune", "strings.ContainsAny", "strings.EqualFold", "math.IsNaN", "math.IsInf", "math.Signbit", "unicode.IsControl", "unicode.IsPrint", "unicode/utf8.ValidString", "unicode/utf8.ValidRune")
	pf("math.Sqrt", "math.Floor", "math.Ceil", "math.Trunc", "math.Round", "math.RoundToEven", "math.Exp", "math.Log", "math.Pow", "math.Sin", "math.Cos", "math.Tan", "math.Asin", "math.Acos", "math.Atan", "math.Atan2", "math.Sinh", "math.Cosh", "math.Tanh", "math.Atanh", "math.Asinh", "math.Acosh", "math.Abs", "math.Remainder", "math.Mod", "math.Inf", "math.NaN", "math.Log10", "math.Log2", "math.Max", "math.Min", "math.Cbrt", "math.Hypot")
	pi("math.Float64bits")
	ps("strings.ToUpper", "strings.ToLower", "strings.TrimSpace", "strings.TrimRight", "strings.TrimLeft", "strings.Trim", "strings.TrimPrefix", "strings.TrimSuffix", "strings.ReplaceAll", "strconv.Quote", "path/filepath.Join", "strings.Replace", "strconv.FormatFloat", "path/filepath.Base", "path/filepath.Dir", "path/filepath.Ext", "strconv.QuoteRune")
	for _, n := range []string{"strconv.Atoi", "strconv.ParseInt", "strconv.ParseFloat", "strconv.ParseUint", "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeLastRuneInString", "strconv.ParseBool"} {
		models[n] = pureTuple
	}
	models["unicode/utf8.RuneCountInString"] = func(m *mcall) (Value, bool) { return m.ex.rlen(m.st, m.t(0)), true }
	models["unicode/utf8.DecodeRuneInString"] = func(m *mcall) (Value, bool) {
		s := m.t(0)
		n := m.ex.rlen(m.st, s)
		c := Ite(Eq(n, IntT(0)), IntT(0xFFFD), m.ex.ratOf(m.st, s, IntT(0)))
		sz := UF("go:runesize0", SInt, s)
		if m.ex.text != nil {
			m.ex.sufFact(m.st, s)
		}
		m.st.assume(And(Le(IntT(0), sz), Le(sz, IntT(4)), Le(sz, Slen(s)), Implies(Not(Eq(n, IntT(0))), Le(IntT(1), sz))))
		return TupleV{c, sz}, true
	}

	// bounds of string searches
	search := func(name string, sub bool) {
		base := models[name]
		models[name] = func(m *mcall) (Value, bool) {
			v, ok := base(m)
			r := v.(*T)
			n := IntT(1)
			if sub {
				n = Slen(m.t(1))
			}
			if sub {
				m.ex.strFact(m.st, m.t(1))
			}
			m.ex.strFact(m.st, m.t(0))
			m.st.assume(And(Le(IntT(-1), r), Implies(Le(IntT(0), r), Le(Add(r, n), Slen(m.t(0))))))
			return v, ok
		}
	}
	search("strings.Index", true)
	search("strings.LastIndex", true)
	search("strings.IndexByte", false)
	search("strings.LastIndexByte", false)
	search("strings.IndexRune", false)
	models["unicode/utf8.EncodeRune"] = func(m *mcall) (Value, bool) {
		b := m.args[0].(SliceV)
		if !m.ex.oblige(m.st, "bounds", "encode", Le(IntT(4), b.len), m.pos, "utf8.EncodeRune on a short buffer") {
			return nil, false
		}
		m.ex.havocElems(m.st, elemKey(types.Typ[types.Byte]), b)
		n := Const(m.ex.fresh("runelen"), SInt)
		m.st.assume(And(Le(IntT(1), n), Le(n, IntT(4))))
		return n, true
	}
	models["(*regexp.Regexp).MatchString"] = func(m *mcall) (Value, bool) {
		r := UF("re:match", SBool, m.t(0), m.t(1))
		if min := m.ex.P.regexpMin(m.t(0)); min > 0 {
			m.st.assume(Implies(r, Le(IntT(int64(min)), Slen(m.t(1)))))
		}
		return r, true
	}
	models["errors.New"] = func(m *mcall) (Value, bool) {
		r := m.st.newRef()
		return Ctor("VO", IntT(extError), r), true
	}
	models["errors.As"] = func(m *mcall) (Value, bool) {
		e := m.t(0)
		p, pt, ok := m.ex.asTarget(m.st, m.args[1])
		if !ok {
			panic(unsupported("errors.As target"))
		}
		var hit *T
		if types.IsInterface(pt) {
			is := m.ex.implements(e, pt)
			hit = Ite(is, e, VNil)
			if e != VNil && is != True {
				u := UF("errAs:"+typeKey(pt), SVal, e)
				m.st.assume(Or(Eq(u, VNil), m.ex.implements(u, pt)))
				hit = Ite(is, e, u)
			}
		} else {
			hit = m.ex.errAs(m.st, e, pt)
		}
		if m.ex.decide(m.st, Not(Eq(hit, VNil))) {
			var v Value = hit
			if !types.IsInterface(pt) {
				v = m.ex.unIface(m.st, hit, pt)
				// the match is an object that the evaluation built: its reference is valid and non-nil
				if x, ok := v.(*T); ok && x.sort == SInt {
					m.st.assume(Not(Eq(x, IntT(0))))
					m.ex.setBoundWeak(m.st, x)
				}
			}
			m.st.boxes[p.box] = v
			return True, true
		}
		return False, true
	}
	models["errors.Is"] = func(m *mcall) (Value, bool) { return m.ex.errIs(m.st, m.t(0), m.t(1)), true }
	models["errors.Unwrap"] = func(m *mcall) (Value, bool) {
		e := m.t(0)
		res := VNil
		for _, s := range m.ex.unwrapStep(m.st, e) {
			res = Ite(s.c, s.v, res)
		}
		return res, true
	}
	models["fmt.Errorf"] = func(m *mcall) (Value, bool) {
		f, ok := strLitText(m.t(0))
		if !ok {
			r := m.st.newRef()
			return Ctor("VO", IntT(extError), r), true
		}
		sl := m.args[1].(SliceV)
		idx := int64(0)
		var wrapped *T
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				continue
			}
			i++
			for i < len(f) && strings.IndexByte("#+- 0123456789.", f[i]) >= 0 {
				i++
			}
			if i >= len(f) || f[i] == '%' {
				continue
			}
			if f[i] == 'w' && wrapped == nil {
				wrapped = m.st.readH(m.st.heap("elem:any", SVal), []*T{sl.arr, Add(sl.off, IntT(idx))})
			}
			idx++
		}
		r := m.st.newRef()
		if wrapped == nil {
			return Ctor("VO", IntT(extError), r), true
		}
		// %w with a nil error behaves like a plain error
		return Ite(Eq(wrapped, VNil), Ctor("VO", IntT(extError), r), Ctor("VW", wrapped, r)), true
	}
	models["fmt.Sprintf"] = func(m *mcall) (Value, bool) {
		sl := m.args[1].(SliceV)
		as := []*T{m.t(0)}
		if sl.len.lit != nil && sl.len.lit.Int64() <= 6 {
			n := sl.len.lit.Int64()
			for i := int64(0); i < n; i++ {
				as = append(as, m.st.readH(m.st.heap("elem:any", SVal), []*T{sl.arr, Add(sl.off, IntT(i))}))
			}
			if f, ok := strLitText(as[0]); ok && f == "%c" && n == 1 {
				v, _ := m.ex.convert(m.st, Sel("vi", as[1]), types.Typ[types.Int32], types.Typ[types.String])
				_ = v
			}
			if f, ok := strLitText(as[0]); ok && f == "%d" && n == 1 && as[1].op == "VI" {
				return m.ex.decimal(m.st, as[1].args[1]), true
			}
			r := UF(fmt.Sprintf("sprintf%d", n), SStr, as...)
			m.ex.strFact(m.st, r)
			return r, true
		}
		return m.ex.freshStr(m.st, "sprintf"), true
	}
	models["strings.Repeat"] = func(m *mcall) (Value, bool) {
		s, n := m.t(0), m.t(1)
		if !m.ex.oblige(m.st, "bounds", "strings.Repeat", And(Le(IntT(0), n), Or(Eq(Slen(s), IntT(0)), Le(n, IntT(1<<31)))), m.pos, "strings.Repeat: negative or overflowing count") {
			return nil, false
		}
		return strRes(m, "go:repeat", s, n), true
	}
	// builders: content is a ghost string per builder object
	for _, b := range []string{"strings.Builder", "bytes.Buffer"} {
		b := b
		base := "(*" + b + ")."
		key := "text:" + b
		get := func(m *mcall, r *T) *T { return m.st.readH(m.st.heap(key, SStr), []*T{r}) }
		put := func(m *mcall, r, v *T) { m.st.heaps[key] = m.st.heap(key, SStr).store([]*T{r}, v) }
		models[base+"WriteString"] = func(m *mcall) (Value, bool) {
			r := m.builderRef(0)
			put(m, r, m.ex.strCat(m.st, get(m, r), m.t(1)))
			return TupleV{Slen(m.t(1)), VNil}, true
		}
		models[base+"WriteRune"] = func(m *mcall) (Value, bool) {
			r := m.builderRef(0)
			v, _ := m.ex.convert(m.st, m.t(1), types.Typ[types.Int32], types.Typ[types.String])
			put(m, r, m.ex.strCat(m.st, get(m, r), v.(*T)))
			return TupleV{Slen(v.(*T)), VNil}, true
		}
		models[base+"WriteByte"] = func(m *mcall) (Value, bool) {
			r := m.builderRef(0)
			x := m.t(1)
			var v *T
			if x.lit != nil && x.lit.Int64() < 128 {
				v = StrLit(string(rune(x.lit.Int64())))
			} else {
				v = UF("bytestr", SStr, x)
				m.st.assume(Eq(Slen(v), IntT(1)))
			}
			put(m, r, m.ex.strCat(m.st, get(m, r), v))
			return VNil, true
		}
		models[base+"Write"] = func(m *mcall) (Value, bool) {
			r := m.builderRef(0)
			sl := m.args[1].(SliceV)
			v := m.ex.freshStr(m.st, "bytes")
			m.st.assume(Eq(Slen(v), sl.len))
			put(m, r, m.ex.strCat(m.st, get(m, r), v))
			return TupleV{sl.len, VNil}, true
		}
		models[base+"String"] = func(m *mcall) (Value, bool) {
			r := m.builderRef(0)
			if r.lit != nil && r.lit.Sign() == 0 {
				return StrLit("<nil>"), true
			}
			v := get(m, r)
			m.ex.strFact(m.st, v)
			return v, true
		}
		models[base+"Len"] = func(m *mcall) (Value, bool) {
			v := get(m, m.builderRef(0))
			m.ex.strFact(m.st, v)
			return Slen(v), true
		}
		models[base+"Reset"] = func(m *mcall) (Value, bool) {
			put(m, m.builderRef(0), StrLit(""))
			return nil, true
		}
		models[base+"Grow"] = func(m *mcall) (Value, bool) { return nil, true }
	}
	models["(*sync.Once).Do"] = func(m *mcall) (Value, bool) {
		ex, st := m.ex, m.st
		fv, ok := m.args[1].(*FuncV)
		if !ok {
			panic(unsupported("sync.Once.Do of unknown function"))
		}
		// either already done, or the function runs now (its completion marks it done)
		key := "ghost.once"
		_ = key
		g := st.clone()
		ex.finish(g, m.retTo, m.isDefer, nil)
		ex.push(g)
		m.handled = true
		m.cont = ex.callFn(st, fv.fn, nil, fv.binds, m.retTo, m.pos, m.isDefer)
		return nil, true
	}
	models["context.WithValue"] = func(m *mcall) (Value, bool) {
		c, k, v := m.t(0), m.t(1), m.t(2)
		r := UF("ctxwith", SVal, c, k, v)
		m.st.assume(And(Is("VO", r), Eq(Sel("vot", r), IntT(3))))
		m.st.assume(Eq(UF("ctxvalue", SVal, r, k), v))
		return r, true
	}
	models["context.Background"] = func(m *mcall) (Value, bool) {
		return Ctor("VO", IntT(3), IntT(0)), true
	}
	models["context.TODO"] = models["context.Background"]
}

// asTarget decodes the second argument of errors.As.
func (ex *Exec) asTarget(st *State, v Value) (PtrV, types.Type, bool) {
	if t, ok := v.(*T); ok && t.op == "VP" {
		// pointer to a local variable boxed into an interface
		if t.args[1].lit != nil {
			id := -(t.args[1].lit.Int64() + 1000000)
			if bt, ok := ex.boxTyp[int(id)]; ok {
				return PtrV{kind: "box", box: int(id), typ: bt}, bt, true
			}
		}
	}
	return PtrV{}, nil, false
}

func (m *mcall) builderRef(i int) *T {
	switch x := m.args[i].(type) {
	case *T:
		return x
	case PtrV:
		return m.ex.ptrTerm(m.st, x)
	}
	panic(unsupported("builder"))
}

// ---- interface methods with assumed contracts ----

var invokeModels map[string]func(ex *Exec, st *State, c *ssa.CallCommon, recv *T, args []Value, retTo ssa.Value, pos token.Pos, isDefer bool) (bool, bool)

type imodel func(ex *Exec, st *State, c *ssa.CallCommon, recv *T, args []Value, retTo ssa.Value, pos token.Pos, isDefer bool) (bool, bool)

func init() {
	invokeModels = map[string]func(ex *Exec, st *State, c *ssa.CallCommon, recv *T, args []Value, retTo ssa.Value, pos token.Pos, isDefer bool) (bool, bool){}
	isCtx := func(c *ssa.CallCommon) bool { return typeKey(c.Value.Type()) == "context.Context" }
	invokeModels["Done"] = func(ex *Exec, st *State, c *ssa.CallCommon, recv *T, args []Value, retTo ssa.Value, pos token.Pos, isDefer bool) (bool, bool) {
		if !isCtx(c) {
			return false, false
		}
		return true, ex.finish(st, retTo, isDefer, rawUF("ctxdone", SInt, recv))
	}
	invokeModels["Err"] = func(ex *Exec, st *State, c *ssa.CallCommon, recv *T, args []Value, retTo ssa.Value, pos token.Pos, isDefer bool) (bool, bool) {
		if !isCtx(c) {
			return false, false
		}
		can := ex.ghost(st, "cancelled", SBool)
		e := UF("ctxerr", SVal, recv)
		st.assume(And(Is("VO", e), Eq(Sel("vot", e), IntT(extError))))
		if ex.con != nil && ex.con.freshCancel {
			// the context may become cancelled at any time
			now := Const(ex.fresh("cancelled"), SBool)
			st.assume(Implies(can, now))
			st.ghosts["cancelled"] = now
			can = now
		}
		return true, ex.finish(st, retTo, isDefer, Ite(can, e, VNil))
	}
	invokeModels["Value"] = func(ex *Exec, st *State, c *ssa.CallCommon, recv *T, args []Value, retTo ssa.Value, pos token.Pos, isDefer bool) (bool, bool) {
		if !isCtx(c) {
			return false, false
		}
		return true, ex.finish(st, retTo, isDefer, UF("ctxvalue", SVal, recv, args[0].(*T)))
	}
	pureStr := func(f string) imodel {
		return func(ex *Exec, st *State, c *ssa.CallCommon, recv *T, args []Value, retTo ssa.Value, pos token.Pos, isDefer bool) (bool, bool) {
			if t := ex.dynType(recv); t != nil && ex.con != nil && ex.con.inlineStrings {
				return false, false
			}
			if c.Signature().Results().Len() != 1 || c.Signature().Params().Len() != 0 {
				return false, false
			}
			if s, ok := scalarSort(c.Signature().Results().At(0).Type()); !ok || s != SStr {
				return false, false
			}
			ex.Assump["method "+f+" (printing) returns some string, terminates and does not modify interpreter data (except line-start tracking)"] = true
			r := UF("text:"+f, SStr, recv, st.version())
			ex.strFact(st, r)
			return true, ex.finish(st, retTo, isDefer, r)
		}
	}
	invokeModels["String"] = pureStr("String")
	invokeModels["GoString"] = pureStr("GoString")
	invokeModels["Error"] = pureStr("Error")
	invokeModels["Equals"] = func(ex *Exec, st *State, c *ssa.CallCommon, recv *T, args []Value, retTo ssa.Value, pos token.Pos, isDefer bool) (bool, bool) {
		if len(args) != 2 {
			return false, false
		}
		if t := ex.knownType(st, recv); t != nil {
			return true, ex.callMethod(st, t, recv, c, args, retTo, pos, isDefer)
		}
		if ex.dynType(recv) != nil && (ex.con == nil || !ex.con.abstractEquals) {
			t := ex.dynType(recv)
			switch typeShort(t) {
			case "_Symbol", "_NullType", "_TrueType", "Keyword", "Integer":
				return false, false
			}
		}
		ex.Assump["method Equals on a value of unknown type is a pure function of its operands, the mode and the heap"] = true
		r := UF("nodeEquals", SBool, recv, args[0].(*T), args[1].(*T), st.version())
		return true, ex.finish(st, retTo, isDefer, r)
	}
	invokeModels["ClassOf"] = func(ex *Exec, st *State, c *ssa.CallCommon, recv *T, args []Value, retTo ssa.Value, pos token.Pos, isDefer bool) (bool, bool) {
		if t := ex.knownType(st, recv); t != nil {
			return true, ex.callMethod(st, t, recv, c, args, retTo, pos, isDefer)
		}
		if ex.dynType(recv) != nil {
			return false, false
		}
		r := UF("classOf", SVal, recv, st.version())
		st.assume(Not(Eq(r, VNil)))
		if cl := ex.P.typeByName("Class"); cl != nil {
			st.assume(ex.implements(r, cl))
		}
		ex.validFact(st, r, anyType)
		ex.Assump["method ClassOf on a value of unknown type returns some non-nil class without side effects"] = true
		return true, ex.finish(st, retTo, isDefer, r)
	}
	// writers and readers of unknown type: arbitrary result, no effect on interpreter data
	for _, n := range []string{"Write", "WriteString", "WriteByte", "WriteRune", "ReadRune", "UnreadRune", "ReadByte", "Read", "Close", "Seek", "IsLastOutputLf", "Stat", "Size", "Flush", "Name", "ReadString"} {
		n := n
		invokeModels[n] = func(ex *Exec, st *State, c *ssa.CallCommon, recv *T, args []Value, retTo ssa.Value, pos token.Pos, isDefer bool) (bool, bool) {
			if nodeLike(c.Value.Type().Underlying().(*types.Interface)) {
				return false, false
			}
			if ex.dynType(recv) != nil {
				return false, false
			}
			name := "stream method " + n
			if rt := sigResult(c.Signature()); rt != nil && !isDefer && len(args) == 1 && (n == "Write" || n == "Read" || n == "WriteString") {
				// io.Writer, io.Reader: the count is between 0 and the length of the argument
				ex.Assump["external "+name+": the count it returns is between 0 and the length of its argument; no effect on interpreter data, no panic"] = true
				res := ex.externResult(st, name, rt)
				if tv, ok := res.(TupleV); ok {
					var ln *T
					switch a := args[0].(type) {
					case SliceV:
						ln = a.len
					case *T:
						if a.sort == SStr {
							ln = Slen(a)
							ex.strFact(st, a)
						}
					}
					if k, ok := tv[0].(*T); ok && k.sort == SInt && ln != nil {
						st.assume(And(Le(IntT(0), k), Le(k, ln)))
					}
				}
				return true, ex.finish(st, retTo, isDefer, res)
			}
			return true, ex.extern(st, name, c.Signature(), args, retTo, isDefer)
		}
	}
}

func rawUF(name string, s Sort, args ...*T) *T { return UF(name, s, args...) }

// version identifies the current contents of the mutable heap for abstract pure methods.
func (st *State) version() *T {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d;%d;", st.evN, len(st.havocs))
	for _, k := range sortedKeys(st.heaps) {
		if strings.HasPrefix(k, "ghost.") || strings.HasPrefix(k, "text:") || strings.HasPrefix(k, "box:") || strings.HasPrefix(k, "elem:any") || st.ex.P.immutableKey(k) || st.heaps[k].depth == 0 && strings.HasSuffix(st.heaps[k].base, "!0") {
			continue
		}
		fmt.Fprintf(&sb, "%s:%p;", k, st.heaps[k])
	}
	s := sb.String()
	id, ok := st.ex.versions[s]
	if !ok {
		id = int64(len(st.ex.versions))
		st.ex.versions[s] = id
	}
	return IntT(id)
}

// knownType: the dynamic type of the value, when it is one of the types the contract asks to resolve and the state implies it.
func (ex *Exec) knownType(st *State, v *T) types.Type {
	if ex.con == nil || ex.dynType(v) != nil {
		return nil
	}
	for _, n := range ex.con.knownTypes {
		t := ex.mustType(n)
		if ex.proves(st, ex.isType(v, t)) {
			return t
		}
	}
	return nil
}

// decimal is the decimal text of an integer.
func (ex *Exec) decimal(st *State, n *T) *T {
	r := UF("decimal", SStr, n)
	ex.strFact(st, r)
	st.assume(Lt(IntT(0), Slen(r)))
	return r
}

func init() {
	models["strconv.Itoa"] = func(m *mcall) (Value, bool) { return m.ex.decimal(m.st, m.t(0)), true }
	models["strconv.FormatInt"] = func(m *mcall) (Value, bool) {
		if b := m.t(1); b.lit != nil && b.lit.Int64() == 10 {
			return m.ex.decimal(m.st, m.t(0)), true
		}
		return pureF(SStr)(m)
	}
	models["strconv.Atoi"] = func(m *mcall) (Value, bool) {
		n := *m
		n.name = "strconv.ParseInt"
		n.args = []Value{m.args[0], IntT(10), IntT(64)}
		return pureTuple(&n)
	}
}
