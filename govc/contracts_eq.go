package main

import (
	"go/constant"
	"go/types"
)

// P18: eq, eql, equal and equalp. Each Equals method decides exactly the relation eqKind describes for its type, and the
// relation is symmetric, reflexive and a hierarchy; parts of lists and arrays are compared by the same mode (nodeEquals is the
// answer of Equals for two values; for parts its properties are the induction hypothesis).

func (ex *Exec) intConst(name string) *T {
	o, ok := ex.P.main.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		panic(unsupported("constant " + name + " not found"))
	}
	n, _ := constant.Int64Val(constant.ToInt(o.Val()))
	return IntT(n)
}

func nodeEq(st *State, a, b, m *T) *T { return UF("nodeEquals", SBool, a, b, m, st.version()) }

var eqKinds = []string{"Integer", "Float", "Rune", "String", "_Symbol", "Keyword", "_TrueType", "_NullType", "*Cons", "*Array"}

// eqKind: a, of this type, equals b in mode m.
func (ex *Exec) eqKind(st *State, kind string, m, a, b *T) *T {
	is := func(v *T, k string) *T { return ex.isType(v, ex.mustType(k)) }
	strict, equalp := Eq(m, ex.intConst("STRICT")), Eq(m, ex.intConst("EQUALP"))
	switch kind {
	case "Integer":
		return Or(And(is(b, kind), Eq(Sel("vi", a), Sel("vi", b))), And(equalp, is(b, "Float"), Feq(UF("i2f", SF64, Sel("vi", a)), Sel("vf", b))))
	case "Float":
		return Or(And(is(b, kind), Feq(Sel("vf", a), Sel("vf", b))), And(equalp, is(b, "Integer"), Feq(Sel("vf", a), UF("i2f", SF64, Sel("vi", b)))))
	case "Rune":
		lo := func(v *T) *T { return UF("go:unicode.ToLower", SInt, Sel("vi", v)) }
		return And(is(b, kind), Or(Eq(Sel("vi", a), Sel("vi", b)), And(equalp, Eq(lo(a), lo(b)))))
	case "String":
		return And(is(b, kind), Or(Eq(Sel("vs", a), Sel("vs", b)), And(equalp, UF("go:strings.EqualFold", SBool, Sel("vs", a), Sel("vs", b)))))
	case "_Symbol", "Keyword":
		return And(is(b, kind), Eq(Sel("vi", a), Sel("vi", b)))
	case "_TrueType":
		return is(b, kind)
	case "_NullType":
		return ex.none(b)
	case "*Cons":
		part := func(f string, v *T) *T { return ex.nrm(ex.readField(st, "Cons", f, Sel("vp", v))) }
		return And(is(b, kind), Ite(strict, Eq(Sel("vp", a), Sel("vp", b)), And(nodeEq(st, part("Car", a), part("Car", b), m), nodeEq(st, part("Cdr", a), part("Cdr", b), m))))
	}
	panic("eqKind " + kind)
}

func eqContracts() []*Contract {
	var cs []*Contract
	modes := eqModes
	for _, kind := range eqKinds {
		if kind == "*Array" {
			continue
		}
		kind := kind
		props := []string{"P18"}
		if kind == "_Symbol" || kind == "Keyword" {
			props = append(props, "P19")
		}
		name := "go:(" + kind + ").Equals"
		cs = append(cs, &Contract{name: name, entry: name, props: props, autos: bothKinds, clause: "decides exactly the relation of its type; it is symmetric, reflexive (NaN aside) and finer predicates imply coarser ones",
			covers: []string{"equal", "not equal"}, abstractEquals: true,
			setup: func(en *Entry) {
				x, st := en.ex, en.st
				m := en.args[2].(*T)
				st.assume(Or(Eq(m, x.intConst("STRICT")), Eq(m, x.intConst("EQUAL")), Eq(m, x.intConst("EQUALP"))))
				if kind == "*Cons" {
					a, b := en.args[0].(*T), en.args[1].(*T)
					st.assume(Not(Eq(a, IntT(0))))
					x.Assump["list cells hold values, never the Go nil, at both positions (the Lisp nil is a value)"] = true
					for _, f := range []string{"Car", "Cdr"} {
						st.assume(Not(Eq(x.readField(st, "Cons", f, a), VNil)))
						st.assume(Implies(x.isCons(b), Not(Eq(x.readField(st, "Cons", f, Sel("vp", b)), VNil))))
					}
				}
			},
			onReturn: func(r *Return) {
				x, en, st := r.ex, r.en, r.st
				var a *T
				if s, ok := en.args[0].(*T); ok {
					a = x.mkIface(st, x.mustType(kind), s)
				} else {
					a = Ctor("VT", IntT(int64(x.P.tid(x.mustType(kind)))))
				}
				b, m, res := en.args[1].(*T), en.args[2].(*T), r.res.(*T)
				sv, sw := Sel("vs", a), Sel("vs", b)
				fold := func(p, q *T) *T { return UF("go:strings.EqualFold", SBool, p, q) }
				st.assume(And(Eq(fold(sv, sw), fold(sw, sv)), fold(sv, sv), Implies(Eq(sv, sw), fold(sv, sw))))
				spec := x.eqKind(st, kind, m, a, b)
				r.assert("exactly the relation", Eq(res, spec))
				r.when(res, func(r *Return) { r.cover("equal") })
				r.when(Not(res), func(r *Return) { r.cover("not equal") })
				// facts about the functions the relation is built from, and the induction hypothesis
				fsym := func(p, q *T) { st.assume(Eq(Feq(p, q), Feq(q, p))) }
				flt := func(v *T) *T { return Ite(x.isInt(v), UF("i2f", SF64, Sel("vi", v)), Sel("vf", v)) }
				fsym(flt(a), flt(b))
				x.Assump["strings.EqualFold is symmetric and reflexive; == of floats is symmetric"] = true
				if kind == "*Cons" {
					x.Assump["induction over the structure: on the parts of lists the predicates are reflexive, symmetric and a hierarchy (parts are values of the same kinds, without NaN; structures are finite)"] = true
					for _, f := range []string{"Car", "Cdr"} {
						p, q := x.readField(st, "Cons", f, Sel("vp", a)), x.readField(st, "Cons", f, Sel("vp", b))
						for i, mm := range modes {
							k := x.intConst(mm)
							st.assume(And(Eq(nodeEq(st, p, q, k), nodeEq(st, q, p, k)), nodeEq(st, p, p, k)))
							if i > 0 {
								st.assume(Implies(nodeEq(st, p, q, x.intConst(modes[i-1])), nodeEq(st, p, q, k)))
							}
						}
					}
				}
				for i, mm := range modes {
					k := x.intConst(mm)
					rel := x.eqKind(st, kind, k, a, b)
					var back []*T
					for _, o := range eqKinds {
						if o == "*Array" {
							continue
						}
						back = append(back, And(x.isType(b, x.mustType(o)), x.eqKind(st, o, k, b, a)))
					}
					r.assert("symmetric ("+mm+")", Implies(And(rel, Not(Eq(b, VNil))), Or(back...)))
					refl := x.eqKind(st, kind, k, a, a)
					if kind == "Float" {
						refl = Implies(Feq(Sel("vf", a), Sel("vf", a)), refl)
					}
					r.assert("reflexive ("+mm+")", refl)
					if i > 0 {
						r.assert("implied by the finer predicate ("+mm+")", Implies(x.eqKind(st, kind, x.intConst(modes[i-1]), a, b), rel))
					}
				}
			}})
	}
	return cs
}
func init() { contractSets = append(contractSets, eqContracts) }
