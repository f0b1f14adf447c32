package main

import "go/types"

// Contracts of integer arithmetic (P11), number comparison and predicates (P12), rounding and conversion (P13).
//
// The argument vector holds arbitrarily many arbitrary integers: ai(k) is the k-th one. Results of n-ary operations are stated with
// recursive specification functions over the vector, whose defining equation is available at every element the code reads.

func (ex *Exec) mkInt(x *T) *T {
	return Ctor("VI", IntT(int64(ex.P.tid(ex.mustType("Integer")))), x)
}
func (ex *Exec) isInt(v *T) *T   { return ex.isType(v, ex.mustType("Integer")) }
func (ex *Exec) isFloat(v *T) *T { return ex.isType(v, ex.mustType("Float")) }

func int64Range(x *T) *T {
	return And(Le(BigT(minInt64), x), Le(x, BigT(maxInt64)))
}

// ai is the k-th argument, an integer.
func ai(k *T) *T { return UF("argint", SInt, k) }

// intArgs: every element of the argument vector is an integer, and facts holds at every element.
func intArgs(en *Entry, facts func(k *T) *T) {
	x, st := en.ex, en.st
	h := st.heap("elem:Node", SVal)
	sv := en.argv
	st.heaps["elem:Node"] = h.withFact(func(ks []*T, v *T) *T {
		k := Sub(ks[1], sv.off)
		c := And(Eq(v, x.mkInt(ai(k))), int64Range(ai(k)))
		if facts != nil {
			c = And(c, facts(k))
		}
		return Implies(And(Eq(ks[0], sv.arr), Le(IntT(0), k), Lt(k, sv.len)), c)
	})
}

// readAll makes the facts about element k available.
func readArg(en *Entry, st *State, k *T) *T { return en.ex.elemAt(st, en.argv, k) }

// accCands: a loop variable holds the specification function's value up to another loop variable.
func accCands(lc *loopCtx, name string, f func(k *T) *T) []cand {
	var r []cand
	x := lc.ex
	for _, v := range lc.entry.names {
		v := v
		if lc.entry.val[v].sort != SVal {
			continue
		}
		for _, i := range lc.entry.names {
			i := i
			if lc.entry.val[i].sort != SInt {
				continue
			}
			for _, d := range []int64{0, -1, 1, 2} {
				d := d
				r = append(r, cand{name: name + " " + v + " " + i + IntT(d).String(), f: func(st *State, s *slots) *T {
					return Eq(s.val[v], x.mkInt(f(Add(s.val[i], IntT(d)))))
				}})
			}
		}
	}
	return r
}

// prevCands: a loop variable holds the argument at another loop variable.
func prevCands(lc *loopCtx) []cand {
	var r []cand
	for _, v := range lc.entry.names {
		v := v
		if lc.entry.val[v].sort != SVal {
			continue
		}
		for _, i := range lc.entry.names {
			i := i
			if lc.entry.val[i].sort != SInt {
				continue
			}
			for _, d := range []int64{0, -1, 1} {
				d := d
				r = append(r, cand{name: "argument " + v + " " + i + IntT(d).String(), f: func(st *State, s *slots) *T {
					return Eq(s.val[v], readArg(lc.ex.en, st, Add(s.val[i], IntT(d))))
				}})
			}
		}
	}
	return r
}

func numContracts() []*Contract {
	var cs []*Contract
	add := func(c *Contract) {
		if c.entry == "" {
			c.entry = c.name
		}
		c.autos = bothKinds
		c.knownTypes = []string{"Integer", "Float"}
		cs = append(cs, c)
	}
	noEvent := func(ev *Event) { ev.assert("no evaluation, call or signal", False) }

	// n-ary folds
	fold := func(op string, unit int64, step func(a, b *T) *T, acc string) {
		f := func(k *T) *T { return UF(acc, SInt, k) }
		add(&Contract{name: "lisp:" + op, props: []string{"P11"},
			clause: "for integers whose partial results fit 64 bits the result is the exact left-to-right " + op + " of all arguments",
			covers: []string{"no argument", "several arguments"},
			setup: func(en *Entry) {
				intArgs(en, func(k *T) *T {
					return And(int64Range(f(k)), Implies(Eq(k, IntT(0)), Eq(f(k), ai(k))),
						Implies(Lt(IntT(0), k), Eq(f(k), step(f(Sub(k, IntT(1))), ai(k)))))
				})
				if op == "-" { // one argument: its negative
					en.st.assume(Implies(Eq(en.argv.len, IntT(1)), int64Range(Sub(IntT(0), ai(IntT(0))))))
				}
			},
			onEvent:   noEvent,
			loopCands: func(lc *loopCtx) []cand { return accCands(lc, acc, f) },
			onReturn: func(r *Return) {
				x, n := r.ex, r.en.argv.len
				readArg(r.en, r.st, IntT(0))
				readArg(r.en, r.st, Sub(n, IntT(1)))
				r.assert("no error", Eq(r.re, VNil))
				r.when(Eq(n, IntT(0)), func(r *Return) {
					r.cover("no argument")
					if op != "-" {
						r.assert("the unit", Eq(r.rv, x.mkInt(IntT(unit))))
					}
				})
				if op == "-" {
					r.when(Eq(n, IntT(1)), func(r *Return) {
						r.assert("the negative of the argument", Eq(r.rv, x.mkInt(Sub(IntT(0), ai(IntT(0))))))
					})
					r.when(Lt(IntT(1), n), func(r *Return) {
						r.cover("several arguments")
						r.assert("the exact difference", Eq(r.rv, x.mkInt(f(Sub(n, IntT(1))))))
					})
					return
				}
				r.when(Lt(IntT(0), n), func(r *Return) {
					r.cover("several arguments")
					r.assert("the exact result", Eq(r.rv, x.mkInt(f(Sub(n, IntT(1))))))
				})
			}})
	}
	fold("+", 0, func(a, b *T) *T { return Add(a, b) }, "sum")
	fold("-", 0, func(a, b *T) *T { return Sub(a, b) }, "diff")
	fold("*", 1, func(a, b *T) *T { return Mul(a, b) }, "prod")

	// division: a zero divisor is signalled, and without a handler that continues it is an error
	divEvent := func(zero func(ev *Event) *T) (func(ev *Event), func(ev *Event)) {
		return func(ev *Event) {
				if ev.kind != "handler" {
					noCalls(ev)
					return
				}
				x := ev.ex
				ev.assert("only a zero divisor is signalled", zero(ev))
				ev.assert("a division-by-zero condition is signalled", And(ev.ex.isType(ev.val(3), x.mustType("*ArithmeticError")),
					Eq(ev.st.readH(ev.st.heap("ArithmeticError.Class", SVal), []*T{Sel("vp", ev.val(3))}), x.globalT(ev.st, "divisionByZeroClass"))))
				ev.set("signalled", True)
			}, func(ev *Event) {
				if ev.kind == "handler" {
					ev.assume(Not(Eq(ev.re, VNil))) // no handler continues the condition with a value
					ev.set("err", ev.re)
				}
			}
	}
	signalledSetup := func(en *Entry) {
		en.st.ghosts["signalled"] = False
		en.st.ghosts["err"] = VNil
	}
	quo := func(k *T) *T { return UF("quot", SInt, k) }
	badAt := func(k *T) *T { return UF("zeroUpTo", SBool, k) }
	on, after := divEvent(func(ev *Event) *T { return ev.get("zero", SBool) })
	add(&Contract{name: "lisp:/", props: []string{"P11"},
		clause: "for integers whose partial quotients fit 64 bits the result is the truncated quotient, left to right; a zero divisor is signalled and is never a number",
		covers: []string{"quotient", "zero divisor"},
		setup: func(en *Entry) {
			signalledSetup(en)
			one := IntT(1)
			intArgs(en, func(k *T) *T {
				return And(Implies(Eq(k, IntT(0)), And(Eq(quo(k), ai(k)), Not(badAt(k)))),
					Implies(Lt(IntT(0), k), And(Eq(badAt(k), Or(badAt(Sub(k, one)), Eq(ai(k), IntT(0)))),
						Implies(Not(badAt(k)), And(int64Range(quo(k)), Eq(quo(k), TDiv(quo(Sub(k, one)), ai(k))))))))
			})
			// some divisor among all of them
			j := Const("some.index", SInt)
			en.st.ghosts["j"] = j
			en.st.assume(And(Le(one, j), Lt(j, en.argv.len)))
			en.st.ghosts["zero"] = False
			en.st.assume(Le(IntT(2), en.argv.len))
		},
		onEvent: func(ev *Event) {
			if ev.kind == "handler" {
				ev.set("zero", True)
			}
			on(ev)
		},
		after: after,
		loopCands: func(lc *loopCtx) []cand {
			r := accCands(lc, "quot", quo)
			for _, i := range lc.entry.names {
				i := i
				if lc.entry.val[i].sort != SInt {
					continue
				}
				for _, d := range []int64{0, -1} {
					d := d
					r = append(r, cand{name: "nozero " + i + IntT(d).String(), f: func(st *State, s *slots) *T { return Not(badAt(Add(s.val[i], IntT(d)))) }})
					r = append(r, cand{name: "nozero at j " + i + IntT(d).String(), f: func(st *State, s *slots) *T {
						j := lc.ex.ghost(st, "j", SInt)
						return Implies(Le(j, Add(s.val[i], IntT(d))), Not(Eq(ai(j), IntT(0))))
					}})
				}
			}
			r = append(r, cand{name: "not signalled", f: func(st *State, s *slots) *T { return Not(lc.ex.ghost(st, "signalled", SBool)) }})
			return r
		},
		onReturn: func(r *Return) {
			x, n := r.ex, r.en.argv.len
			readArg(r.en, r.st, IntT(0))
			readArg(r.en, r.st, Sub(n, IntT(1)))
			sig := r.get("signalled", SBool)
			r.when(sig, func(r *Return) {
				r.cover("zero divisor")
				r.assert("an error", And(Not(Eq(r.re, VNil)), Eq(r.re, r.get("err", SVal))))
			})
			r.when(Not(sig), func(r *Return) {
				r.cover("quotient")
				r.assert("no error of another kind", Eq(r.re, VNil))
				r.assert("the exact quotient", Eq(r.rv, x.mkInt(quo(Sub(n, IntT(1))))))
				r.assert("no divisor was zero", Not(Eq(ai(r.get("j", SInt)), IntT(0))))
			})
		}})

	// mod, rem
	for _, op := range []string{"mod", "rem"} {
		op := op
		on, after := divEvent(func(ev *Event) *T { return Eq(ev.get("b", SInt), IntT(0)) })
		add(&Contract{name: "lisp:" + op, props: []string{"P11"},
			clause: "mod: the remainder with the divisor's sign and smaller magnitude, differing from the dividend by a multiple of the divisor; rem: likewise with the dividend's sign; zero divisor signalled",
			covers: []string{"remainder", "zero divisor"},
			setup: func(en *Entry) {
				signalledSetup(en)
				x := en.ex
				a, b := Const("a", SInt), Const("b", SInt)
				en.st.assume(And(int64Range(a), int64Range(b), Eq(en.arg, x.mkInt(a)), Eq(en.arg2, x.mkInt(b))))
				en.st.ghosts["a"], en.st.ghosts["b"] = a, b
			},
			onEvent: on, after: after,
			onReturn: func(r *Return) {
				x := r.ex
				a, b := r.get("a", SInt), r.get("b", SInt)
				z := IntT(0)
				r.when(Eq(b, z), func(r *Return) {
					r.cover("zero divisor")
					r.assert("an error", And(r.get("signalled", SBool), Not(Eq(r.re, VNil))))
				})
				r.when(Not(Eq(b, z)), func(r *Return) {
					r.cover("remainder")
					r.assert("no error", Eq(r.re, VNil))
					r.assert("an integer", x.isInt(r.rv))
					v := Sel("vi", r.rv)
					r.assert("smaller than the divisor", Ite(Lt(z, b), And(Lt(Sub(z, b), v), Lt(v, b)), And(Lt(b, v), Lt(v, Sub(z, b)))))
					if op == "mod" {
						r.assert("the sign of the divisor", Ite(Lt(z, b), Le(z, v), Le(v, z)))
						// the truncated quotient or one less
						q := TDiv(a, b)
						r.assert("congruent to the dividend", Or(Eq(a, Add(Mul(q, b), v)), Eq(a, Add(Mul(Sub(q, IntT(1)), b), v))))
					} else {
						r.assert("the sign of the dividend", Ite(Le(z, a), Le(z, v), Le(v, z)))
						r.assert("congruent to the dividend", Eq(a, Add(Mul(TDiv(a, b), b), v)))
					}
				})
			}})
	}

	// comparisons: t says that every adjacent pair is in the relation (for an arbitrary pair), and when every pair is, the result is t
	feq := func(a, b *T) *T { return UF("feq", SBool, a, b) }
	rels := []struct {
		op   string
		rel  func(a, b *T) *T
		frel func(a, b *T) *T
	}{
		{"<", Lt, Flt},
		{"<=", Le, func(a, b *T) *T { return Or(Flt(a, b), feq(a, b)) }},
		{">", func(a, b *T) *T { return Lt(b, a) }, func(a, b *T) *T { return Flt(b, a) }},
		{">=", func(a, b *T) *T { return Le(b, a) }, func(a, b *T) *T { return Or(Flt(b, a), feq(a, b)) }},
		{"=", func(a, b *T) *T { return Eq(a, b) }, feq},
	}
	for _, rl := range rels {
		rl := rl
		add(&Contract{name: "lisp:" + rl.op, props: []string{"P12"},
			clause: "the result is t or nil; t implies that an arbitrary adjacent pair of the integer arguments is in the relation",
			covers: []string{"holds", "does not hold"},
			setup: func(en *Entry) {
				intArgs(en, nil)
				j := Const("some.index", SInt)
				en.st.assume(And(Le(IntT(1), j), Lt(j, en.argv.len)))
				en.st.ghosts["j"] = j
			},
			onEvent: noEvent,
			loopCands: func(lc *loopCtx) []cand {
				var r []cand
				for _, i := range lc.entry.names {
					i := i
					if lc.entry.val[i].sort != SInt {
						continue
					}
					for _, d := range []int64{1, 0, -1, 2} {
						d := d
						r = append(r, cand{name: "pair " + i + IntT(d).String(), f: func(st *State, s *slots) *T {
							j := lc.ex.ghost(st, "j", SInt)
							return Implies(Lt(j, Add(s.val[i], IntT(d))), rl.rel(ai(Sub(j, IntT(1))), ai(j)))
						}})
					}
				}
				return append(r, prevCands(lc)...)
			},
			onReturn: func(r *Return) {
				x := r.ex
				j := r.get("j", SInt)
				r.assert("no error", Eq(r.re, VNil))
				r.assert("t or nil", Or(Eq(r.rv, x.trueVal()), Eq(r.rv, x.nullVal())))
				r.when(Eq(r.rv, x.nullVal()), func(r *Return) { r.cover("does not hold") })
				r.when(Eq(r.rv, x.trueVal()), func(r *Return) {
					r.cover("holds")
					r.assert("every adjacent pair is in the relation", rl.rel(ai(Sub(j, IntT(1))), ai(j)))
				})
			}})
		add(&Contract{name: "lisp:" + rl.op + " (all pairs)", entry: "lisp:" + rl.op, props: []string{"P12"},
			clause: "when every adjacent pair of the integer arguments is in the relation the result is t",
			covers: []string{"holds"},
			setup: func(en *Entry) {
				intArgs(en, func(k *T) *T {
					return And(Implies(Lt(IntT(0), k), rl.rel(ai(Sub(k, IntT(1))), ai(k))),
						Implies(Lt(Add(k, IntT(1)), en.argv.len), rl.rel(ai(k), ai(Add(k, IntT(1))))))
				})
				en.st.assume(Le(IntT(1), en.argv.len))
			},
			onEvent:   noEvent,
			loopCands: prevCands,
			onReturn: func(r *Return) {
				x := r.ex
				r.cover("holds")
				r.assert("no error", Eq(r.re, VNil))
				r.assert("t", Eq(r.rv, x.trueVal()))
			}})
	}
	add(&Contract{name: "lisp:/=", props: []string{"P12"},
		clause: "t exactly when the two integers differ", covers: []string{"returned"},
		setup:   func(en *Entry) { intArgs(en, nil) },
		onEvent: noEvent,
		onReturn: func(r *Return) {
			x := r.ex
			r.cover("returned")
			r.assert("no error", Eq(r.re, VNil))
			r.assert("t exactly when different", Eq(r.rv, Ite(Eq(ai(IntT(0)), ai(IntT(1))), x.nullVal(), x.trueVal())))
		}})

	// predicates
	z := IntT(0)
	preds := []struct {
		op string
		p  func(a *T) *T
	}{
		{"zerop", func(a *T) *T { return Eq(a, z) }}, {"plusp", func(a *T) *T { return Lt(z, a) }}, {"minusp", func(a *T) *T { return Lt(a, z) }},
		{"evenp", func(a *T) *T { return Eq(a, Mul(IntT(2), UF("half", SInt, a))) }},
		{"oddp", func(a *T) *T { return Not(Eq(a, Mul(IntT(2), UF("half", SInt, a)))) }},
	}
	for _, pr := range preds {
		pr := pr
		add(&Contract{name: "lisp:" + pr.op, props: []string{"P12"},
			clause: "t exactly for the integers with the property, nil for every other object that is not a float",
			covers: []string{"integer", "other"},
			setup: func(en *Entry) {
				a := Const("a", SInt)
				en.st.ghosts["a"] = a
				// half(a) is the unique h with 2h <= a <= 2h+1
				h := UF("half", SInt, a)
				en.st.assume(And(int64Range(a), Le(Mul(IntT(2), h), a), Le(a, Add(Mul(IntT(2), h), IntT(1)))))
				en.st.assume(Implies(en.ex.isInt(en.arg), Eq(en.arg, en.ex.mkInt(a))))
			},
			onEvent: noEvent,
			onReturn: func(r *Return) {
				x := r.ex
				r.when(x.isInt(r.en.arg), func(r *Return) {
					r.cover("integer")
					r.assert("t exactly when the property holds", And(Eq(r.re, VNil), Eq(r.rv, Ite(pr.p(r.get("a", SInt)), x.trueVal(), x.nullVal()))))
				})
				r.when(And(Not(x.isInt(r.en.arg)), Not(x.isFloat(r.en.arg))), func(r *Return) {
					r.cover("other")
					r.assert("nil", And(Eq(r.re, VNil), Eq(r.rv, x.nullVal())))
				})
			}})
	}
	// an integer and a float, in either order
	for _, rl := range append(rels, struct {
		op   string
		rel  func(a, b *T) *T
		frel func(a, b *T) *T
	}{"/=", nil, func(a, b *T) *T { return Not(feq(a, b)) }}) {
		rl := rl
		for _, order := range []string{"integer and float", "float and integer"} {
			order := order
			num := func(x *Exec, v *T) *T { return Ite(x.isInt(v), UF("i2f", SF64, Sel("vi", v)), Sel("vf", v)) }
			add(&Contract{name: "lisp:" + rl.op + " (" + order + ")", entry: "lisp:" + rl.op, props: []string{"P12"},
				clause: "an integer and a float (not a NaN) compare by numeric value, without signalling anything",
				covers: []string{"returned"},
				setup: func(en *Entry) {
					x, st := en.ex, en.st
					a, b := readArg(en, st, IntT(0)), readArg(en, st, IntT(1))
					st.assume(Eq(en.argv.len, IntT(2)))
					if order == "integer and float" {
						st.assume(And(x.isInt(a), x.isFloat(b)))
					} else {
						st.assume(And(x.isFloat(a), x.isInt(b)))
					}
					st.ghosts["a"], st.ghosts["b"] = a, b
					p, q := num(x, a), num(x, b)
					st.assume(And(Eq(UF("feq", SBool, p, q), UF("feq", SBool, q, p)), Or(Flt(p, q), Flt(q, p), UF("feq", SBool, p, q)),
						Not(And(Flt(p, q), Flt(q, p))), Implies(UF("feq", SBool, p, q), Not(Or(Flt(p, q), Flt(q, p))))))
				},
				onEvent: noEvent,
				loopCands: func(lc *loopCtx) []cand {
					var r []cand
					x := lc.ex
					for _, i := range lc.entry.names {
						i := i
						if lc.entry.val[i].sort != SInt {
							continue
						}
						for _, d := range []int64{1, 0, -1, 2} {
							d := d
							r = append(r, cand{name: "mixed pair " + i + IntT(d).String(), f: func(st *State, s *slots) *T {
								return Implies(Lt(IntT(1), Add(s.val[i], IntT(d))), rl.frel(num(x, x.ghost(lc.E, "a", SVal)), num(x, x.ghost(lc.E, "b", SVal))))
							}})
						}
					}
					return append(r, prevCands(lc)...)
				},
				onReturn: func(r *Return) {
					x := r.ex
					r.cover("returned")
					p, q := num(x, r.get("a", SVal)), num(x, r.get("b", SVal))
					c := rl.frel(p, q)
					r.assert("no error", Eq(r.re, VNil))
					r.assert("the relation of the numeric values", Eq(r.rv, Ite(c, x.trueVal(), x.nullVal())))
				}})
		}
	}

	// P13: rounding
	for op, f := range map[string]string{"floor": "math.Floor", "ceiling": "math.Ceil", "truncate": "math.Trunc", "round": "math.RoundToEven"} {
		op, f := op, f
		add(&Contract{name: "lisp:" + op, props: []string{"P13"},
			clause: "an integer is returned unchanged; a float's result is the integer " + f + " gives (its mathematical contract is assumed); other objects are rejected",
			covers: []string{"integer", "float", "other"}, onEvent: noEvent,
			onReturn: func(r *Return) {
				x, a := r.ex, r.en.arg
				r.when(x.isInt(a), func(r *Return) {
					r.cover("integer")
					r.assert("unchanged", And(Eq(r.re, VNil), Eq(r.rv, a)))
				})
				r.when(x.isFloat(a), func(r *Return) {
					n := UF("go:"+f, SF64, Sel("vf", a))
					r.when(Eq(r.re, VNil), func(r *Return) {
						r.cover("float")
						r.assert("the neighbouring integer in the stated direction", Eq(r.rv, x.mkInt(x.f2i(r.st, n, types.Typ[types.Int64]))))
					})
				})
				r.when(And(Not(x.isInt(a)), Not(x.isFloat(a))), func(r *Return) {
					r.cover("other")
					r.assert("rejected", Not(Eq(r.re, VNil)))
				})
			}})
	}

	// P13: convert evaluates its first argument once and converts the value
	type conv struct {
		from, to string
		val      func(x *Exec, st *State, v *T) *T // expected value
		ok       func(x *Exec, st *State, v *T) *T // nil: always
	}
	boxStr := func(x *Exec, st *State, s *T) *T { return x.mkIface(st, x.mustType("String"), s) }
	convs := []conv{
		{from: "Integer", to: "integerClass", val: func(x *Exec, st *State, v *T) *T { return v }},
		{from: "Integer", to: "floatClass", val: func(x *Exec, st *State, v *T) *T {
			return x.mkIface(st, x.mustType("Float"), UF("i2f", SF64, Sel("vi", v)))
		}},
		{from: "Integer", to: "stringClass", val: func(x *Exec, st *State, v *T) *T { return boxStr(x, st, x.decimal(st, Sel("vi", v))) }},
		{from: "Integer", to: "characterClass", val: func(x *Exec, st *State, v *T) *T { return x.mkIface(st, x.mustType("Rune"), Sel("vi", v)) },
			ok: func(x *Exec, st *State, v *T) *T {
				return And(Le(IntT(0), Sel("vi", v)), Le(Sel("vi", v), IntT(0x10ffff)))
			}},
		{from: "Rune", to: "integerClass", val: func(x *Exec, st *State, v *T) *T { return x.mkInt(Sel("vi", v)) }},
		{from: "Rune", to: "characterClass", val: func(x *Exec, st *State, v *T) *T { return v }},
		{from: "Float", to: "floatClass", val: func(x *Exec, st *State, v *T) *T { return v }},
		{from: "String", to: "stringClass", val: func(x *Exec, st *State, v *T) *T { return v }},
		{from: "String", to: "integerClass", val: func(x *Exec, st *State, v *T) *T {
			return x.mkInt(UF("go:strconv.ParseInt#0", SInt, Sel("vs", v), IntT(10), IntT(64)))
		}, ok: func(x *Exec, st *State, v *T) *T {
			return Eq(UF("go:strconv.ParseInt#1", SVal, Sel("vs", v), IntT(10), IntT(64)), VNil)
		}},
		{from: "String", to: "floatClass", val: func(x *Exec, st *State, v *T) *T {
			return x.mkIface(st, x.mustType("Float"), UF("go:strconv.ParseFloat#0", SF64, Sel("vs", v), IntT(64)))
		}, ok: func(x *Exec, st *State, v *T) *T {
			return Eq(UF("go:strconv.ParseFloat#1", SVal, Sel("vs", v), IntT(64)), VNil)
		}},
	}
	for _, cv := range convs {
		cv := cv
		add(&Contract{name: "lisp:convert " + cv.from + " to " + cv.to, entry: "lisp:convert", props: []string{"P13"}, codeImmutable: true,
			clause: "the source form is evaluated once; a " + cv.from + " converted to the class named by " + cv.to + " gives the value it denotes, or an error when it denotes none (strconv's and the decimal printer's mathematical contracts are assumed)",
			covers: []string{"converted"},
			setup: func(en *Entry) {
				outcomeSetup(en)
				x, st := en.ex, en.st
				st.ghosts["evalFailed"] = False
				class := x.carN(st, x.cdrN(st, en.list))
				g := x.globalT(st, cv.to)
				name := x.constField(st, Sel("vp", g).lit.Int64(), "_BuiltInClass.name")
				st.assume(Eq(class, name.(*T)))
				st.assume(And(x.isCons(en.list), x.isCons(x.cdrN(st, en.list)), x.none(x.cdrN(st, x.cdrN(st, en.list)))))
			},
			onEvent: func(ev *Event) {
				x := ev.ex
				if isEval(ev) {
					evalHere(ev, x.carN(ev.st, ev.en.list))
					ev.assert("the source is evaluated once", Eq(ev.get("n", SInt), IntT(0)))
					return
				}
				if ev.kind == "handler" {
					ev.assert("only an unparsable text is signalled", And(Eq(ev.get("n", SInt), IntT(1)), x.isType(ev.val(3), x.mustType("*ParseError"))))
					return
				}
				noCalls(ev)
			},
			after: func(ev *Event) {
				outcomeAfter(ev)
				if isEval(ev) {
					ev.set("evalFailed", Not(Eq(ev.re, VNil)))
					ev.assume(Implies(Eq(ev.re, VNil), ev.ex.isType(ev.rv, ev.ex.mustType(cv.from))))
				} else if ev.kind == "handler" {
					ev.assume(Not(Eq(ev.re, VNil))) // no handler continues the condition with a value
				}
			},
			onReturn: func(r *Return) {
				x := r.ex
				f := r.get("failed", SBool)
				r.when(f, func(r *Return) {
					r.assert("a failure is passed on", Eq(r.re, r.get("err", SVal)))
				})
				r.when(And(Not(r.get("evalFailed", SBool)), Eq(r.get("n", SInt), IntT(1))), func(r *Return) {
					v := r.get("last", SVal)
					ok := True
					if cv.ok != nil {
						ok = cv.ok(x, r.st, v)
					}
					r.when(ok, func(r *Return) {
						r.cover("converted")
						r.assert("the value it denotes", And(Eq(r.re, VNil), Eq(r.rv, cv.val(x, r.st, v))))
					})
					r.when(Not(ok), func(r *Return) { r.assert("an error", Not(Eq(r.re, VNil))) })
				})
			}})
	}
	return cs
}

func init() { contractSets = append(contractSets, numContracts) }
