package main

// Entries: symbolic calls of built-ins and Go functions.

import (
	"os"
	"fmt"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) nullVal() *T {
	t := ex.P.typeByName("_NullType")
	if t == nil {
		panic(unsupported("type _NullType not found"))
	}
	return Ctor("VT", IntT(int64(ex.P.tid(t))))
}
func (ex *Exec) trueVal() *T {
	t := ex.P.typeByName("_TrueType")
	if t == nil {
		panic(unsupported("type _TrueType not found"))
	}
	return Ctor("VT", IntT(int64(ex.P.tid(t))))
}

// none: the Lisp value nil (the implementation also uses the Go nil for it in list tails).
func (ex *Exec) none(v *T) *T { return Or(Eq(v, VNil), Eq(v, ex.nullVal())) }

func (ex *Exec) mustType(name string) types.Type {
	t := ex.P.typeByName(name)
	if t == nil {
		panic(unsupported("type " + name + " not found"))
	}
	return t
}

func (ex *Exec) isCons(v *T) *T { return ex.isType(v, ex.mustType("*Cons")) }
func (ex *Exec) car(st *State, v *T) *T {
	r := st.readH(st.heap("Cons.Car", SVal), []*T{Sel("vp", v)})
	ex.loadFacts(st, "Cons.Car", r, anyType)
	return r
}
func (ex *Exec) cdr(st *State, v *T) *T {
	r := st.readH(st.heap("Cons.Cdr", SVal), []*T{Sel("vp", v)})
	ex.loadFacts(st, "Cons.Cdr", r, anyType)
	return r
}

// argAt is element i of a slice of Lisp values.
func (ex *Exec) elemAt(st *State, s SliceV, i *T) *T {
	return st.readH(st.heap("elem:Node", SVal), []*T{s.arr, Add(s.off, i)})
}

func (ex *Exec) newLispValue(st *State, name string) *T {
	c := Const(name, SVal)
	ex.validFact(st, c, anyType)
	return c
}

// startBuiltin sets up the call of a built-in with arbitrary well-formed arguments.
func (ex *Exec) startBuiltin(bi *Builtin) *Entry {
	st := ex.newState()
	st.heap("Cons.Car", SVal)
	st.heap("Cons.Cdr", SVal)
	en := &Entry{ex: ex, st: st, bi: bi}
	ex.stdParams(en)
	var args []Value
	switch bi.kind {
	case "f0":
		args = []Value{en.ctx, en.w}
	case "f1", "f2":
		en.arg = ex.newLispValue(st, "arg")
		st.assume(ex.wf(en.arg))
		args = []Value{en.ctx, en.w, en.arg}
		if bi.kind == "f2" {
			en.arg2 = ex.newLispValue(st, "arg2")
			st.assume(ex.wf(en.arg2))
			args = append(args, en.arg2)
		}
	case "fn":
		en.argv = ex.argSlice(st, "args", bi)
		args = []Value{en.ctx, en.w, en.argv}
	case "special":
		en.list = ex.newLispValue(st, "list")
		ex.formFact(st, en.list)
		args = []Value{en.ctx, en.w, en.list}
	}
	en.args = args
	return en
}

// formFact: a code list is nil (either representation) or a well-formed value.
func (ex *Exec) formFact(st *State, v *T) {
	if t := ex.P.typeByName("Uneval"); t != nil {
		st.assume(Not(ex.isType(v, t)))
	}
}

func (ex *Exec) stdParams(en *Entry) {
	st := en.st
	en.ctx = Const("ctx", SVal)
	st.assume(And(Is("VO", en.ctx), Eq(Sel("vot", en.ctx), IntT(3))))
	en.w = Const("w", SInt)
	st.assume(Lt(IntT(0), en.w))
	st.assume(Lt(en.w, st.alloc()))
	ex.setBound(st, en.w)
}

// argSlice is the argument vector of a built-in: freshly built by the caller, all elements well-formed.
func (ex *Exec) argSlice(st *State, name string, bi *Builtin) SliceV {
	arr := Const(name+".arr", SInt)
	n := Const(name+".len", SInt)
	st.assume(And(Lt(IntT(0), arr), Lt(arr, st.alloc())))
	ex.setBound(st, arr)
	min, max := int64(0), int64(-1)
	if bi != nil {
		min, max = bi.Arity()
	}
	if min == max {
		n = IntT(min)
	} else {
		st.assume(Le(IntT(min), n))
		if max >= 0 {
			st.assume(Le(n, IntT(max)))
		}
		st.assume(Le(n, IntT(1<<40)))
	}
	sv := SliceV{arr, IntT(0), n, n}
	st.local[arr] = true
	h := st.heap("elem:Node", SVal)
	st.heaps["elem:Node"] = h.withFact(func(k []*T, v *T) *T {
		return Implies(And(Eq(k[0], arr), Le(IntT(0), k[1]), Lt(k[1], n)), ex.wf(v))
	})
	return sv
}

// startFunc sets up the call of a Go function with arbitrary arguments (pointers and contexts non-nil, Lisp values well-formed).
func (ex *Exec) startFunc(fn *ssa.Function) *Entry {
	st := ex.newState()
	st.heap("Cons.Car", SVal)
	st.heap("Cons.Cdr", SVal)
	en := &Entry{ex: ex, st: st}
	ex.stdParams(en)
	for i, p := range fn.Params {
		t := p.Type()
		var v Value
		switch typeKey(t) {
		case "context.Context":
			v = en.ctx
		case "*World":
			v = en.w
		default:
			if sl, ok := t.Underlying().(*types.Slice); ok && typeKey(sl.Elem()) == "Node" {
				v = ex.argSlice(st, fmt.Sprintf("p%d", i), nil)
				break
			}
			v = ex.freshVal(st, fmt.Sprintf("p%d", i), t)
			if x, ok := v.(*T); ok {
				if x.sort == SVal {
					if typeKey(t) == "Node" {
						ex.formFact(st, x)
					} else {
						st.assume(Not(Eq(x, VNil)))
						if it, ok := t.Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
							st.assume(ex.implements(x, t))
						}
					}
				} else if x.sort == SInt {
					switch t.Underlying().(type) {
					case *types.Pointer, *types.Map, *types.Signature:
						st.assume(Not(Eq(x, IntT(0))))
					}
				}
			}
		}
		en.args = append(en.args, v)
	}
	return en
}

// asFunc: the function value that a term denotes, when it was made by the code under contract.
func (ex *Exec) asFunc(st *State, t *T) *FuncV {
	t = st.simp(t)
	if t.lit == nil {
		return nil
	}
	ex.P.mu.Lock()
	defer ex.P.mu.Unlock()
	return ex.P.idFuncs[t.lit.Int64()]
}

// Result of one entry.
type Result struct {
	Entry    string
	Contract string
	Func     string
	Exec     *Exec
	Err      string
	Wall     float64
}

// RunContract verifies one contract.
func RunContract(P *Program, c *Contract, budget time.Duration) (res *Result) {
	t0 := time.Now()
	ex := NewExec(P, c.name)
	defer ex.S.Close()
	ex.con = c
	if os.Getenv("GOVC_AUTOS") != "" && len(c.autos) == 1 && c.autos[0] == "none" {
		c.autos = bothKinds
	}
	for _, a := range c.autos {
		ex.autos[a] = true
	}
	ex.autos["spec"] = true
	ex.deadline = t0.Add(budget)
	res = &Result{Entry: c.entry, Contract: c.name, Exec: ex}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupErr); ok {
				ex.unsup(u.msg)
				res.Wall = time.Since(t0).Seconds()
				return
			}
			panic(r)
		}
	}()
	var fn *ssa.Function
	var en *Entry
	switch {
	case strings.HasPrefix(c.entry, "lisp:"):
		bi := P.builtins[c.entry[5:]]
		if bi == nil {
			res.Err = "built-in " + c.entry[5:] + " not found in the interpreter's function table"
			return
		}
		fn = bi.fn
		en = ex.startBuiltin(bi)
	case strings.HasPrefix(c.entry, "go:"):
		fn = P.findFunc(c.entry[3:])
		if fn == nil {
			res.Err = "function " + c.entry[3:] + " not found"
			return
		}
		en = ex.startFunc(fn)
	}
	res.Func = P.fname(fn)
	ex.en = en
	if c.setup != nil {
		c.setup(en)
	}
	ex.old = en.st.clone()
	if !ex.feasible(en.st, True) {
		res.Err = "the precondition is contradictory"
		return
	}
	ex.pushFrame(en.st, fn, en.args, nil, nil)
	var ret func(then bool) func(st *State, v Value)
	ret = func(then bool) func(st *State, v Value) {
		return func(st *State, v Value) {
			rt := &Return{ex: ex, st: st, en: en, res: v}
			if tv, ok := v.(TupleV); ok && len(tv) == 2 {
				a, _ := tv[0].(*T)
				b, _ := tv[1].(*T)
				rt.rv, rt.re = a, b
			} else if x, ok := v.(*T); ok {
				rt.rv = x
			}
			if then {
				fv, args := c.then(rt)
				if fv != nil {
					rt.st.ghosts["phase"] = IntT(1)
					ex.pushFrame(rt.st, fv.fn, args, fv.binds, nil)
					ex.explore([]*State{rt.st}, ret(false))
					return
				}
			}
			ex.Returns++
			if (ex.autos["wf"] || ex.autos["*"]) && rt.rv != nil && rt.re != nil && rt.rv.sort == SVal && rt.re.sort == SVal {
				rt.assert("result-wf", Or(Not(Eq(rt.re, VNil)), ex.wf(rt.rv)))
			}
			ex.freshCells(st)
			for _, rc := range c.recs {
				if rc.base != nil {
					st.assume(rc.base(ex, st))
				}
			}
			if c.onReturn != nil {
				c.onReturn(rt)
			}
		}
	}
	en.st.ghosts["phase"] = IntT(0)
	ex.explore([]*State{en.st}, ret(c.then != nil))
	res.Wall = time.Since(t0).Seconds()
	return
}
