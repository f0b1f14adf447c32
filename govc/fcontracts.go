package main

// Contracts of recursive Go functions. Callers are checked against these; the bodies are verified by separate entries
// (recursive calls inside a body use the contract again, as usual in partial-correctness proofs).

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// kinds:
//
//	pure   the result is a function of the arguments and the heap; nothing is modified
//	alloc  only fresh objects are written; a Node result is a proper value unless an error is returned
//	print  as pure, but text is appended to the writer given as first argument
//	read   as alloc, but characters are consumed from the reader
//	event  arbitrary Lisp evaluation may happen
var funcContracts = map[string]string{
	"expandMacroInList":                "event",
	"expandMacroOne":                   "event",
	"tryPrintTo":                       "print",
	"(*Array).printTo":                 "print",
	"(*_BuiltInClass).InheritP":        "pure",
	"(*_StandardClass).InheritP":       "pure",
	"(*_StandardClass).subClassP":      "pure",
	"(*Cons).isTailNull":               "pure",
	"expandJoinedForm":                 "alloc",
	"quasiQuote":                       "event",
	"(*parser._Parser[Node]).ReadNode": "read",
}

func contractKind(name string) (string, bool) {
	if k, ok := funcContracts[name]; ok {
		return k, true
	}
	if strings.HasPrefix(name, "callHandler[") {
		return "handler", true
	}
	return "", false
}

// handlerContract: callHandler[T](ctx, w, cont, cond) may run the current handler (arbitrary evaluation); it returns an error (the
// condition itself when no handler is installed), or, only if cont is true, a value of type T and no error.
func (ex *Exec) handlerContract(st *State, fn *ssa.Function, args []Value, retTo ssa.Value, pos token.Pos, isDefer bool) bool {
	w := args[1].(*T)
	cont := args[2].(*T)
	cond := args[3].(*T)
	st.evN++
	st.trace = append(st.trace, "handler "+ex.posn(pos))
	if ex.con != nil && !ex.monitor(st, "handler", args, pos) {
		return false
	}
	sh := st.readH(st.heap("World.shared", SInt), []*T{w})
	hd := st.readH(st.heap("shared.handler", SVal), []*T{sh})
	if !ex.oblige(st, "nilderef", "handler condition", Not(Eq(cond, VNil)), pos, "nil condition signalled") {
		return false
	}
	for _, a := range args {
		ex.escape(st, a)
	}
	ex.havocEvent(st)
	rt := sigResult(fn.Signature).(*types.Tuple)
	tt := rt.At(0).Type()
	v := ex.freshVal(st, "handlerr", tt)
	e := Const(ex.fresh("handlere"), SVal)
	ex.validFact(st, e, anyType)
	st.assume(Not(ex.isTail(e)))
	ok := Eq(e, VNil)
	st.assume(Implies(ok, cont))
	st.assume(Implies(Eq(hd, VNil), Eq(e, cond)))
	if x, isT := v.(*T); isT {
		switch {
		case x.sort == SVal:
			if it, isI := tt.Underlying().(*types.Interface); isI && it.NumMethods() > 0 && typeKey(tt) != "Node" {
				st.assume(Implies(ok, ex.implements(x, tt)))
			} else {
				st.assume(Implies(ok, ex.wf(x)))
			}
		case x.sort == SInt:
			switch tt.Underlying().(type) {
			case *types.Pointer, *types.Map:
				st.assume(Implies(ok, Not(Eq(x, IntT(0)))))
			}
		}
	} else if sv, isS := v.(StructV); isS {
		ex.noInvUnless(st, ok, sv, tt)
		for _, f := range sv.fields {
			if x, ok := f.(*T); ok {
				ex.handlerRes[x] = e
			}
		}
	}
	if x, isT := v.(*T); isT {
		ex.handlerRes[x] = e
	}
	ex.Assump["a value that a handler call returns together with an error is not used as a value"] = true
	var rv *T
	if x, isT := v.(*T); isT && x.sort == SVal {
		rv = x
	}
	res := TupleV{v, e}
	if ex.con != nil && !ex.monitorAfter(st, "handler", args, res, rv, e, pos) {
		return false
	}
	return ex.finish(st, retTo, isDefer, res)
}

// noInvUnless assumes the field invariants of a struct value under a condition.
func (ex *Exec) noInvUnless(st *State, c *T, sv StructV, t types.Type) {
	for i, f := range sv.fields {
		if inv := typeInvariants[fieldKey(typeKey(t), sv, i)]; inv != nil {
			if x, ok := f.(*T); ok {
				st.assume(Implies(c, inv(ex, x)))
			}
		}
	}
}

func (ex *Exec) applyContract(st *State, kind, name string, fn *ssa.Function, args []Value, retTo ssa.Value, pos token.Pos, isDefer bool) bool {
	rt := sigResult(fn.Signature)
	switch kind {
	case "handler":
		return ex.handlerContract(st, fn, args, retTo, pos, isDefer)
	case "event":
		return ex.event(st, "eval", args, rt, retTo, isDefer, pos)
	case "pure":
		var ts []*T
		for _, a := range args {
			t, ok := a.(*T)
			if !ok {
				panic(unsupported("pure contract of " + name + " on a non-scalar argument"))
			}
			ts = append(ts, t)
		}
		s, ok := scalarSort(rt)
		if !ok {
			panic(unsupported("pure contract of " + name))
		}
		ts = append(ts, st.version())
		return ex.finish(st, retTo, isDefer, UF("fn:"+strings.Map(func(r rune) rune {
			if r == '(' || r == ')' || r == '*' {
				return '_'
			}
			return r
		}, name), s, ts...))
	case "alloc", "read", "print":
		if kind == "print" {
			ex.printEffect(st, args)
		}
		st.bumpAlloc()
		ex.newEpoch(st.allocB)
		for _, a := range args {
			ex.escape(st, a)
		}
		res := ex.freshVal(st, "res."+fn.Name(), rt)
		if x, ok := res.(*T); ok && x.sort == SVal {
			st.assume(ex.wf(x))
		}
		if tv, ok := res.(TupleV); ok && len(tv) == 2 {
			a, ok1 := tv[0].(*T)
			b, ok2 := tv[1].(*T)
			if ok1 && ok2 && b.sort == SVal {
				if a.sort == SVal {
					st.assume(Or(Not(Eq(b, VNil)), ex.wf(a)))
				}
				st.assume(Not(ex.isTail(b)))
			}
			if ok1 && a.sort == SInt && kind == "print" {
				st.assume(Le(IntT(0), a))
			}
		}
		return ex.finish(st, retTo, isDefer, res)
	}
	panic(unsupported("contract kind " + kind))
}

// printEffect: the text of arbitrary writers changes; interpreter data do not.
func (ex *Exec) printEffect(st *State, args []Value) {
	n := ex.fresh("print")
	for _, k := range []string{"_WriterNode.lastOutputIsNotLf", "writeCounter.n", "writeCounter.err", "text:strings.Builder", "text:bytes.Buffer"} {
		if h, ok := st.heaps[k]; ok {
			st.heaps[k] = &HNode{base: k + "!" + n, sort: h.sort, bound: st.alloc()}
		}
	}
}

var _ types.Type
