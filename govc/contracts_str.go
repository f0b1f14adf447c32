package main

import "fmt"

// P25: strings and characters. cp(s, k) is the k-th code point of a string, rlen its number of code points. What Go's string
// iteration and package utf8 yield is assumed to be these; what package strings computes is named by uninterpreted functions.

func cpAt(s, k *T) *T { return UF("rat", SInt, s, k) }

func strContracts() []*Contract {
	var cs []*Contract
	isStr := func(x *Exec, v *T) *T { return x.isType(v, x.mustType("String")) }
	isRune := func(x *Exec, v *T) *T { return x.isType(v, x.mustType("Rune")) }
	add := func(c *Contract) {
		c.entry = c.name
		c.autos = bothKinds
		c.props = []string{"P25"}
		c.knownTypes = []string{"String"}
		if c.onEvent == nil {
			c.onEvent = noEvents
		}
		cs = append(cs, c)
	}
	arg := func(en *Entry, st *State, k int64) *T {
		if en.arg != nil {
			return en.arg
		}
		return readArg(en, st, IntT(k))
	}
	// comparison
	type cmp struct {
		op  string
		rel func(c *T) *T
	}
	z := IntT(0)
	for _, c := range []cmp{{"<", func(c *T) *T { return Lt(c, z) }}, {"<=", func(c *T) *T { return Le(c, z) }}, {"=", func(c *T) *T { return Eq(c, z) }},
		{">", func(c *T) *T { return Lt(z, c) }}, {">=", func(c *T) *T { return Le(z, c) }}, {"/=", func(c *T) *T { return Not(Eq(c, z)) }}} {
		c := c
		for _, kind := range []string{"string", "char"} {
			kind := kind
			val := func(en *Entry, st *State) *T {
				a, b := arg(en, st, 0), arg(en, st, 1)
				if kind == "char" {
					return Sub(Sel("vi", a), Sel("vi", b))
				}
				return UF("go:strings.Compare", SInt, Sel("vs", a), Sel("vs", b))
			}
			add(&Contract{name: "lisp:" + kind + c.op, clause: "decides " + c.op + " of the order of code points", covers: []string{"t", "nil"},
				setup: func(en *Entry) {
					x, st := en.ex, en.st
					a, b := arg(en, st, 0), arg(en, st, 1)
					st.assume(Eq(en.argv.len, IntT(2)))
					if kind == "char" {
						st.assume(And(isRune(x, a), isRune(x, b)))
						return
					}
					st.assume(And(isStr(x, a), isStr(x, b)))
					v := val(en, st)
					x.Assump["strings.Compare and the comparison operators of Go order strings by bytes, which for UTF-8 is the order of the code points"] = true
					st.assume(And(Eq(Eq(v, z), Eq(Sel("vs", a), Sel("vs", b))), Eq(Lt(v, z), UF("slt", SBool, Sel("vs", a), Sel("vs", b))), Eq(Lt(z, v), UF("slt", SBool, Sel("vs", b), Sel("vs", a)))))
				},
				onReturn: func(r *Return) {
					x := r.ex
					is := c.rel(val(r.en, r.st))
					r.assert("no error", Eq(r.re, VNil))
					r.assert("t or nil", Or(Eq(r.rv, x.trueVal()), x.none(r.rv)))
					r.assert("decides the order", Eq(x.some(r.rv), is))
					r.when(is, func(r *Return) { r.cover("t") })
					r.when(Not(is), func(r *Return) { r.cover("nil") })
				}})
		}
	}
	// string-append
	cat := func(k *T) *T { return UF("catenated", SStr, k) }
	add(&Contract{name: "lisp:string-append", clause: "the texts of all arguments, in order", covers: []string{"text"},
		setup: func(en *Entry) {
			x, st := en.ex, en.st
			sv := en.argv
			x.Assump["the code points of a concatenation of valid texts are those of the parts, in order"] = true
			x.withElems(st, "Node", SVal, sv, func(cur *State, k, v *T) *T {
				// the text of the arguments up to and with this one
				return And(isStr(x, v), Eq(cat(Add(k, IntT(1))), UF("scat", SStr, cat(k), Sel("vs", v))),
					Implies(Eq(cat(k), StrLit("")), Eq(cat(Add(k, IntT(1))), Sel("vs", v))))
			})
			st.assume(Eq(cat(IntT(0)), StrLit("")))
		},
		loopCands: func(lc *loopCtx) []cand {
			var cs []cand
			x := lc.ex
			for _, b := range textBuilders(lc) {
				b := b
				for _, i := range lc.entry.names {
					i := i
					if lc.entry.val[i].sort != SInt {
						continue
					}
					for _, d := range []int64{0, 1} {
						d := d
						cs = append(cs, cand{name: fmt.Sprintf("text of %s+%d in %s", i, d, b), f: func(st *State, s *slots) *T {
							n := Add(s.val[i], IntT(d))
							t := st.readH(st.heap("text:strings.Builder", SStr), []*T{b})
							return And(Le(IntT(0), n), Eq(t, cat(n)))
						}})
					}
				}
			}
			_ = x
			return cs
		},
		onReturn: func(r *Return) {
			x := r.ex
			r.cover("text")
			r.assert("no error", Eq(r.re, VNil))
			r.assert("all texts in order", And(isStr(x, r.rv), Eq(Sel("vs", r.rv), cat(r.en.argv.len))))
		}})
	// create-string
	add(&Contract{name: "lisp:create-string", clause: "as many times the character as asked for, a space by default; a negative number is an error", covers: []string{"given", "space", "negative"},
		setup: func(en *Entry) {
			x, st := en.ex, en.st
			n := readArg(en, st, IntT(0))
			st.assume(And(Le(IntT(1), en.argv.len), Le(en.argv.len, IntT(2)), x.isInt(n), Lt(Sel("vi", n), IntT(1234567890))))
			st.assume(Implies(Eq(en.argv.len, IntT(2)), isRune(x, readArg(en, st, IntT(1)))))
			st.ghosts["sig"] = False
		},
		onEvent: func(ev *Event) {
			n := Sel("vi", readArg(ev.en, ev.st, IntT(0)))
			ev.assert("only a negative number is signalled", And(boolT(ev.kind == "signal" || ev.kind == "handler"), Lt(n, IntT(0))))
		},
		after: func(ev *Event) { ev.set("sig", True) },
		onReturn: func(r *Return) {
			x := r.ex
			n := Sel("vi", readArg(r.en, r.st, IntT(0)))
			r.when(Lt(n, IntT(0)), func(r *Return) { r.cover("negative"); r.assert("signalled", r.get("sig", SBool)) })
			r.when(Le(IntT(0), n), func(r *Return) {
				r.when(Eq(r.en.argv.len, IntT(2)), func(r *Return) {
					r.cover("given")
					c := UF("runestr", SStr, Sel("vi", readArg(r.en, r.st, IntT(1))))
					r.assert("the text", And(Eq(r.re, VNil), isStr(x, r.rv), Eq(Sel("vs", r.rv), UF("go:repeat", SStr, c, n))))
				})
				r.when(Eq(r.en.argv.len, IntT(1)), func(r *Return) {
					r.cover("space")
					r.assert("spaces", And(Eq(r.re, VNil), isStr(x, r.rv), Or(Eq(Sel("vs", r.rv), UF("go:repeat", SStr, UF("runestr", SStr, IntT(32)), n)), Eq(Sel("vs", r.rv), UF("go:repeat", SStr, StrLit(" "), n)))))
				})
			})
			x.Assump["strings.Repeat(s, n) is n times s"] = true
		}})

	// functions that walk over the code points of one string
	// the walk: a loop variable, list or string, is the rest of the string, and counters count
	walk := func(more func(lc *loopCtx, add func(name string, f func(st *State, sl *slots) *T))) func(lc *loopCtx) []cand {
		return func(lc *loopCtx) []cand {
			var cs []cand
			x := lc.ex
			add := func(name string, f func(st *State, sl *slots) *T) { cs = append(cs, cand{name: name, f: f}) }
			var ints []string
			for _, v := range lc.entry.names {
				if lc.entry.val[v].sort == SInt {
					ints = append(ints, v)
				}
			}
			for _, v := range lc.entry.names {
				v := v
				var s func(sl *slots) *T
				switch lc.entry.val[v].sort {
				case SVal:
					s = func(sl *slots) *T { return Sel("vs", sl.val[v]) }
					add("a string "+v, func(st *State, sl *slots) *T { return isStr(x, sl.val[v]) })
				case SStr:
					s = func(sl *slots) *T { return sl.val[v] }
				case SInt:
					for _, d := range []int64{0, 1} {
						d := d
						add(fmt.Sprintf("counter %s+%d", v, d), func(st *State, sl *slots) *T {
							return And(Le(IntT(0), Add(sl.val[v], IntT(d))), Le(Add(sl.val[v], IntT(d)), x.rlen(st, x.text)))
						})
					}
					for _, w := range ints {
						w := w
						if w < v {
							add("counters "+v+" "+w, func(st *State, sl *slots) *T { return Eq(sl.val[v], sl.val[w]) })
						}
					}
					continue
				default:
					continue
				}
				add("suffix "+v, func(st *State, sl *slots) *T { x.sufFact(st, s(sl)); return sufUF(s(sl)) })
				for _, i := range ints {
					i := i
					for _, d := range []int64{0, 1} {
						d := d
						add(fmt.Sprintf("position %s %s+%d", v, i, d), func(st *State, sl *slots) *T { return Eq(sufAt(s(sl)), Add(sl.val[i], IntT(d))) })
						add(fmt.Sprintf("position and rest %s %s+%d", v, i, d), func(st *State, sl *slots) *T {
							return Eq(Add(sufAt(s(sl)), Add(sl.val[i], IntT(d))), Add(lc.entry.val[i], IntT(d)))
						})
					}
				}
			}
			if more != nil {
				more(lc, add)
			}
			return cs
		}
	}
	start := func(en *Entry, t *T) {
		x, st := en.ex, en.st
		st.assume(Lt(Slen(t), IntT(1<<40)))
		x.text = t
		x.rlen(st, t)
		x.sufFact(st, t)
	}
	add(&Contract{name: "lisp:length of a string", clause: "the number of code points of a string", covers: []string{"counted"},
		setup:     func(en *Entry) { en.st.assume(isStr(en.ex, en.arg)); start(en, Sel("vs", en.arg)) },
		loopCands: walk(nil),
		onReturn: func(r *Return) {
			r.cover("counted")
			r.assert("the number of code points", And(Eq(r.re, VNil), Eq(r.rv, r.ex.mkInt(r.ex.rlen(r.st, Sel("vs", r.en.arg))))))
		}})
	cs[len(cs)-1].entry = "lisp:length"
	// elt of a string
	add(&Contract{name: "lisp:elt of a string", clause: "the code point at the index; an index beyond the end or before the beginning has no answer that is a character", covers: []string{"character", "beyond", "negative"},
		setup: func(en *Entry) {
			x, st := en.ex, en.st
			st.assume(And(Eq(en.argv.len, IntT(2)), isStr(x, arg(en, st, 0)), x.isInt(arg(en, st, 1))))
			start(en, Sel("vs", arg(en, st, 0)))
		},
		loopCands: walk(func(lc *loopCtx, add func(string, func(*State, *slots) *T)) {
			x := lc.ex
			idx := func(st *State) *T { return Sel("vi", arg(x.en, st, 1)) }
			str := func(st *State) *T { return Sel("vs", arg(x.en, st, 0)) }
			for _, v := range lc.entry.names {
				v := v
				switch lc.entry.val[v].sort {
				case SInt:
					add("index in range "+v, func(st *State, sl *slots) *T { return And(Le(IntT(-1), sl.val[v]), Le(sl.val[v], idx(st))) })
					add("not yet "+v, func(st *State, sl *slots) *T { return Le(IntT(0), sl.val[v]) })
					for _, w := range lc.entry.names {
						w := w
						switch lc.entry.val[w].sort {
						case SVal:
							add("to go "+v+" "+w, func(st *State, sl *slots) *T {
								return Eq(Add(sufAt(Sel("vs", sl.val[w])), sl.val[v]), idx(st))
							})
							add("found "+v+" "+w, func(st *State, sl *slots) *T {
								return Implies(Lt(sl.val[v], IntT(0)), And(Le(IntT(0), idx(st)), Lt(idx(st), x.rlen(st, str(st))), isRune(x, sl.val[w]), Eq(Sel("vi", sl.val[w]), cpAt(str(st), idx(st)))))
							})
							add("element "+w, func(st *State, sl *slots) *T {
								return And(isRune(x, sl.val[w]), Le(IntT(0), idx(st)), Lt(idx(st), x.rlen(st, str(st))), Eq(Sel("vi", sl.val[w]), cpAt(str(st), idx(st))))
							})
							add("after the element "+v+" "+w, func(st *State, sl *slots) *T {
								return Implies(Lt(IntT(0), sl.val[v]), And(isRune(x, sl.val[w]), Le(IntT(0), idx(st)), Lt(idx(st), x.rlen(st, str(st))), Eq(Sel("vi", sl.val[w]), cpAt(str(st), idx(st)))))
							})
							add("itself before "+v+" "+w, func(st *State, sl *slots) *T {
								return Implies(Le(sl.val[v], IntT(0)), Eq(sl.val[w], arg(x.en, st, 0)))
							})
							add("itself before 2 "+v+" "+w, func(st *State, sl *slots) *T {
								return Implies(Lt(sl.val[v], IntT(0)), Eq(sl.val[w], arg(x.en, st, 0)))
							})
							add("element when "+v+" "+w, func(st *State, sl *slots) *T {
								return Implies(Le(IntT(0), sl.val[v]), And(isRune(x, sl.val[w]), Le(IntT(0), idx(st)), Lt(idx(st), x.rlen(st, str(st))), Eq(Sel("vi", sl.val[w]), cpAt(str(st), idx(st)))))
							})
						}
					}
				}
			}
		}),
		onReturn: func(r *Return) {
			x, st := r.ex, r.st
			s, i := Sel("vs", arg(r.en, st, 0)), Sel("vi", arg(r.en, st, 1))
			n := x.rlen(st, s)
			r.when(And(Le(IntT(0), i), Lt(i, n)), func(r *Return) {
				r.cover("character")
				r.assert("the code point there", And(Eq(r.re, VNil), isRune(x, r.rv), Eq(Sel("vi", r.rv), cpAt(s, i))))
			})
			r.when(Le(n, i), func(r *Return) { r.cover("beyond"); r.assert("no character", Or(Not(Eq(r.re, VNil)), x.none(r.rv))) })
			r.when(Lt(i, IntT(0)), func(r *Return) { r.cover("negative"); r.assert("no character", Or(Not(Eq(r.re, VNil)), x.none(r.rv))) })
		}})
	cs[len(cs)-1].entry = "lisp:elt"
	// char-index
	j := Const("some.position", SInt)
	add(&Contract{name: "lisp:char-index", clause: "the first position, from the start position on, of the character; nil when there is none", covers: []string{"found", "none"},
		setup: func(en *Entry) {
			x, st := en.ex, en.st
			st.assume(And(Le(IntT(2), en.argv.len), Le(en.argv.len, IntT(3)), isRune(x, arg(en, st, 0)), isStr(x, arg(en, st, 1))))
			st.assume(Implies(Eq(en.argv.len, IntT(3)), And(x.isInt(arg(en, st, 2)), Le(IntT(0), Sel("vi", arg(en, st, 2))))))
			start(en, Sel("vs", arg(en, st, 1)))
		},
		loopCands: walk(func(lc *loopCtx, add func(string, func(*State, *slots) *T)) {
			x := lc.ex
			for _, v := range lc.entry.names {
				v := v
				if lc.entry.val[v].sort == SInt {
					for _, d := range []int64{0, 1} {
						d := d
						add(fmt.Sprintf("not before %s+%d", v, d), func(st *State, sl *slots) *T {
							s, c := Sel("vs", arg(x.en, st, 1)), Sel("vi", arg(x.en, st, 0))
							from := Ite(Eq(x.en.argv.len, IntT(3)), Sel("vi", arg(x.en, st, 2)), IntT(0))
							return Implies(And(Le(from, j), Lt(j, Add(sl.val[v], IntT(d)))), Not(Eq(cpAt(s, j), c)))
						})
					}
				}
			}
		}),
		onReturn: func(r *Return) {
			x, st := r.ex, r.st
			s, c := Sel("vs", arg(r.en, st, 1)), Sel("vi", arg(r.en, st, 0))
			from := Ite(Eq(r.en.argv.len, IntT(3)), Sel("vi", arg(r.en, st, 2)), IntT(0))
			n := x.rlen(st, s)
			r.assert("no error", Eq(r.re, VNil))
			r.when(x.none(r.rv), func(r *Return) {
				r.cover("none")
				r.assert("it is nowhere", Implies(And(Le(from, j), Lt(j, n)), Not(Eq(cpAt(s, j), c))))
			})
			r.when(x.some(r.rv), func(r *Return) {
				r.cover("found")
				i := Sel("vi", r.rv)
				r.assert("it is there", And(x.isInt(r.rv), Le(from, i), Lt(i, n), Eq(cpAt(s, i), c)))
				r.assert("and not before", Implies(And(Le(from, j), Lt(j, i)), Not(Eq(cpAt(s, j), c))))
			})
		}})
	// string-index
	add(&Contract{name: "lisp:string-index", clause: "the position, in code points, of the first occurrence from the start position on; nil when there is none; a negative start is an error", covers: []string{"found", "none", "negative"},
		setup: func(en *Entry) {
			x, st := en.ex, en.st
			st.assume(And(Le(IntT(2), en.argv.len), Le(en.argv.len, IntT(3)), isStr(x, arg(en, st, 0)), isStr(x, arg(en, st, 1))))
			st.assume(Implies(Eq(en.argv.len, IntT(3)), x.isInt(arg(en, st, 2))))
			start(en, Sel("vs", arg(en, st, 1)))
			x.Assump["strings.Index gives the byte position of the first occurrence, -1 when there is none; the code points before it are those of that prefix"] = true
		},
		loopCands: walk(func(lc *loopCtx, add func(string, func(*State, *slots) *T)) {
			x := lc.ex
			from := func(st *State) *T {
				return Ite(Eq(x.en.argv.len, IntT(3)), Sel("vi", arg(x.en, st, 2)), IntT(0))
			}
			for _, v := range lc.entry.names {
				v := v
				switch lc.entry.val[v].sort {
				case SInt:
					add("not past "+v, func(st *State, sl *slots) *T { return Le(sl.val[v], from(st)) })
				}
			}
		}),
		onReturn: func(r *Return) {
			x, st := r.ex, r.st
			s, sub := Sel("vs", arg(r.en, st, 1)), Sel("vs", arg(r.en, st, 0))
			from := Ite(Eq(r.en.argv.len, IntT(3)), Sel("vi", arg(r.en, st, 2)), IntT(0))
			n := x.rlen(st, s)
			r.when(Lt(from, IntT(0)), func(r *Return) { r.cover("negative"); r.assert("an error", Not(Eq(r.re, VNil))) })
			r.when(And(Le(IntT(0), from), Lt(n, from)), func(r *Return) { r.assert("no position", And(Eq(r.re, VNil), x.none(r.rv))) })
			rest := sufOf(from)
			r.when(And(Le(IntT(0), from), Le(from, n)), func(r *Return) {
				at := UF("go:strings.Index", SInt, rest, sub)
				r.when(Lt(at, IntT(0)), func(r *Return) { r.cover("none"); r.assert("none", And(Eq(r.re, VNil), x.none(r.rv))) })
				r.when(Le(IntT(0), at), func(r *Return) {
					r.cover("found")
					pre := UF("rlen", SInt, UF("ssub", SStr, rest, IntT(0), at))
					r.assert("its position", And(Eq(r.re, VNil), x.isInt(r.rv), Eq(Sel("vi", r.rv), Add(from, pre))))
				})
			})
		}})
	return cs
}

// textBuilders are the string builders the function has made.
func textBuilders(lc *loopCtx) []*T {
	var r []*T
	for ref, o := range lc.E.objTyp {
		if o.typ != nil && typeKey(o.typ) == "strings.Builder" {
			r = append(r, ref)
		}
	}
	sortTerms(r)
	return r
}

func init() { contractSets = append(contractSets, strContracts) }
