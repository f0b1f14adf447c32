package main

// reflect: a reflect.Value is represented by the interface value it was made from.

import (
	"go/types"
)

func init() {
	models["reflect.ValueOf"] = func(m *mcall) (Value, bool) { return m.t(0), true }
	models["(reflect.Value).Comparable"] = func(m *mcall) (Value, bool) {
		return Not(m.ex.unhashable(m.t(0))), true
	}
	models["(reflect.Value).Kind"] = func(m *mcall) (Value, bool) {
		v := m.t(0)
		var fn []*T
		for _, t := range m.ex.P.conc {
			if _, ok := t.Underlying().(*types.Signature); ok {
				fn = append(fn, m.ex.isType(v, t))
			}
		}
		k := UF("reflectKind", SInt, v)
		const reflectFunc = 19
		m.st.assume(Eq(Eq(k, IntT(reflectFunc)), Or(append(fn, Is("VFn", v))...)))
		m.st.assume(And(Le(IntT(0), k), Le(k, IntT(26))))
		return k, true
	}
	models["(reflect.Value).Pointer"] = func(m *mcall) (Value, bool) {
		v := m.t(0)
		if !m.ex.oblige(m.st, "panic", "reflect.Pointer", Or(Is("VP", v), Is("VFn", v)), m.pos, "reflect: call of Value.Pointer on a value without an address") {
			return nil, false
		}
		return Ite(Is("VP", v), Sel("vp", v), Sel("vfn", v)), true
	}
	models["(reflect.Value).Type"] = func(m *mcall) (Value, bool) {
		return UF("reflectType", SVal, m.t(0)), true
	}
}
