package main

// A small reference interpreter for the control part of the language, written from the language definition. It shares nothing
// with the interpreter under test.

import (
	"fmt"
	"strconv"
	"strings"
)

type V interface{}
type Sym string
type nilT struct{}

var NIL V = nilT{}

type Cell struct{ car, cdr V }

type Fn struct {
	name   string
	params []string
	rest   string
	body   V
	env    *Env
	host   func(r *Ref, args []V) (V, error)
	min    int
	max    int
}

type Macro struct {
	params []string
	rest   string
	body   V
	env    *Env
}

type Env struct {
	up   *Env
	vars map[string]*V
	funs map[string]*Fn
}

func L(xs ...V) V {
	r := NIL
	for i := len(xs) - 1; i >= 0; i-- {
		r = &Cell{xs[i], r}
	}
	return r
}

func slice(v V) []V {
	var r []V
	for {
		c, ok := v.(*Cell)
		if !ok {
			return r
		}
		r = append(r, c.car)
		v = c.cdr
	}
}

func car(v V) V {
	if c, ok := v.(*Cell); ok {
		return c.car
	}
	return NIL
}
func cdr(v V) V {
	if c, ok := v.(*Cell); ok {
		return c.cdr
	}
	return NIL
}

func isNil(v V) bool { _, ok := v.(nilT); return ok }

// show prints a value the way dump does.
func show(v V) string {
	n := 0
	size(v, &n)
	return write(v, false)
}

// size gives up on values whose printed form is huge (sharing can make it exponential).
func size(v V, n *int) {
	for {
		*n++
		if *n > 5000 {
			panic(skip{"value too big"})
		}
		c, ok := v.(*Cell)
		if !ok {
			return
		}
		size(c.car, n)
		v = c.cdr
	}
}

// src prints a form as source text.
func src(v V) string { return write(v, true) }

func write(v V, code bool) string {
	switch x := v.(type) {
	case nil:
		return "#<absent>"
	case nilT:
		if code {
			return "nil"
		}
		return "nil"
	case int:
		return strconv.Itoa(x)
	case int64:
		return strconv.FormatInt(x, 10)
	case Sym:
		return string(x)
	case string:
		return strconv.Quote(x)
	case *Fn:
		return "#<gmnlisp.FunctionRef>"
	case *Cell:
		if s, ok := x.car.(Sym); ok && code {
			if c, ok := x.cdr.(*Cell); ok && isNil(c.cdr) {
				switch s {
				case "quote":
					return "'" + write(c.car, code)
				case "quasiquote":
					return "`" + write(c.car, code)
				case "unquote":
					return "," + write(c.car, code)
				case "unquote-splicing":
					return ",@" + write(c.car, code)
				case "function":
					return "#'" + write(c.car, code)
				}
			}
		}
		var b strings.Builder
		b.WriteString("(")
		for {
			b.WriteString(write(x.car, code))
			if isNil(x.cdr) {
				break
			}
			if c, ok := x.cdr.(*Cell); ok {
				b.WriteString(" ")
				x = c
				continue
			}
			b.WriteString(" . " + write(x.cdr, code))
			break
		}
		b.WriteString(")")
		return b.String()
	}
	return fmt.Sprintf("#<%T>", v)
}

// outcomes other than values
type eProbe struct{ n string }
type eErr struct{}
type eCancel struct{}
type eRet struct {
	name string
	val  V
}
type eThrow struct{ tag, val V }
type eGo struct{ tag string }
type eCont struct{ val V }

func (eProbe) Error() string  { return "probe" }
func (eErr) Error() string    { return "error" }
func (eCancel) Error() string { return "cancel" }
func (eRet) Error() string    { return "return" }
func (eThrow) Error() string  { return "throw" }
func (eGo) Error() string     { return "go" }
func (eCont) Error() string   { return "continue" }

func exit(e error) bool {
	switch e.(type) {
	case eRet, eThrow, eGo:
		return true
	}
	return false
}

// skip ends a case whose outcome the definition leaves open.
type skip struct{ why string }

type Ref struct {
	trace   []string
	funs    map[string]*Fn
	macros  map[string]*Macro
	dyn     map[string]V
	blocks  map[string]int
	tags    map[string]int
	gos     map[string]int
	handler *Fn
	inH     int
	steps   int
	traced  int
	stopped bool
	feat    map[string]bool
	depth   int
}

func newRef() *Ref {
	r := &Ref{funs: map[string]*Fn{}, macros: map[string]*Macro{}, dyn: map[string]V{}, blocks: map[string]int{}, tags: map[string]int{}, gos: map[string]int{}, feat: map[string]bool{}}
	add := func(name string, min, max int, f func(r *Ref, a []V) (V, error)) {
		r.funs[name] = &Fn{name: name, host: f, min: min, max: max}
	}
	b := func(x bool) V {
		if x {
			return Sym("t")
		}
		return NIL
	}
	ints := func(f func(a []int) V) func(r *Ref, a []V) (V, error) {
		return func(r *Ref, a []V) (V, error) {
			xs := make([]int, len(a))
			for i, v := range a {
				n, ok := v.(int)
				if !ok {
					return r.uncertain()
				}
				xs[i] = n
			}
			return f(xs), nil
		}
	}
	add("tr", 1, 1, func(r *Ref, a []V) (V, error) { r.note(show(a[0])); return a[0], nil })
	add("tr2", 2, 2, func(r *Ref, a []V) (V, error) {
		r.note(show(a[0]) + ":" + show(a[1]))
		return a[1], nil
	})
	add("bad", 1, 1, func(r *Ref, a []V) (V, error) { r.feat["bad"] = true; return nil, eProbe{show(a[0])} })
	add("stop-now", 1, 1, func(r *Ref, a []V) (V, error) { r.trace = append(r.trace, "stop"); r.stopped = true; return a[0], nil })
	add("list", 0, 99, func(r *Ref, a []V) (V, error) { return L(a...), nil })
	add("cons", 2, 2, func(r *Ref, a []V) (V, error) { return &Cell{a[0], a[1]}, nil })
	add("car", 1, 1, func(r *Ref, a []V) (V, error) {
		if c, ok := a[0].(*Cell); ok {
			return c.car, nil
		}
		return r.uncertain()
	})
	add("cdr", 1, 1, func(r *Ref, a []V) (V, error) {
		if c, ok := a[0].(*Cell); ok {
			return c.cdr, nil
		}
		return r.uncertain()
	})
	add("not", 1, 1, func(r *Ref, a []V) (V, error) { return b(isNil(a[0])), nil })
	add("null", 1, 1, func(r *Ref, a []V) (V, error) { return b(isNil(a[0])), nil })
	add("+", 1, 99, ints(func(a []int) V {
		s := 0
		for _, x := range a {
			s += x
		}
		return s
	}))
	add("*", 1, 99, ints(func(a []int) V {
		s := 1
		for _, x := range a {
			s *= x
		}
		return s
	}))
	add("-", 2, 2, ints(func(a []int) V { return a[0] - a[1] }))
	add("<", 2, 2, ints(func(a []int) V { return b(a[0] < a[1]) }))
	add("=", 2, 2, ints(func(a []int) V { return b(a[0] == a[1]) }))
	add("eql", 2, 2, func(r *Ref, a []V) (V, error) {
		switch a[0].(type) {
		case int, Sym, nilT:
			return b(a[0] == a[1]), nil
		}
		return r.uncertain()
	})
	add("throw", 2, 2, func(r *Ref, a []V) (V, error) {
		r.feat["throw"] = true
		if r.tags[show(a[0])] == 0 {
			return r.signal(false)
		}
		return nil, eThrow{a[0], a[1]}
	})
	add("return", 1, 1, func(r *Ref, a []V) (V, error) {
		r.feat["return"] = true
		if r.blocks["nil"] == 0 {
			return r.signal(false)
		}
		return nil, eRet{"nil", a[0]}
	})
	add("error", 1, 9, func(r *Ref, a []V) (V, error) { r.feat["signal"] = true; return r.signal(false) })
	add("cerror", 2, 9, func(r *Ref, a []V) (V, error) { r.feat["signal"] = true; return r.signal(true) })
	mapper := func(tails, collect, join bool) func(r *Ref, a []V) (V, error) {
		return func(r *Ref, a []V) (V, error) {
			r.feat["map"] = true
			f, ok := a[0].(*Fn)
			if !ok {
				return r.uncertain()
			}
			ls := append([]V(nil), a[1:]...)
			var out []V
			for {
				var args []V
				for _, l := range ls {
					c, ok := l.(*Cell)
					if !ok {
						if !isNil(l) {
							return r.uncertain()
						}
						goto end
					}
					if tails {
						args = append(args, c)
					} else {
						args = append(args, c.car)
					}
				}
				{
					v, err := r.apply(f, args)
					if err != nil {
						return nil, err
					}
					out = append(out, v)
				}
				for i := range ls {
					ls[i] = cdr(ls[i])
				}
			}
		end:
			if join {
				res := NIL
				for i := len(out) - 1; i >= 0; i-- {
					if i == len(out)-1 {
						res = out[i]
						continue
					}
					xs := slice(out[i])
					if !isNil(out[i]) && len(xs) == 0 {
						return r.uncertain()
					}
					for j := len(xs) - 1; j >= 0; j-- {
						res = &Cell{xs[j], res}
					}
				}
				return res, nil
			}
			if collect {
				return L(out...), nil
			}
			return a[1], nil
		}
	}
	add("mapcar", 2, 9, mapper(false, true, false))
	add("mapc", 2, 9, mapper(false, false, false))
	add("maplist", 2, 9, mapper(true, true, false))
	add("mapl", 2, 9, mapper(true, false, false))
	add("mapcan", 2, 9, mapper(false, true, true))
	add("mapcon", 2, 9, mapper(true, true, true))
	return r
}

// uncertain: an error that is signalled in a way the definition leaves open.
func (r *Ref) uncertain() (V, error) {
	if r.handler != nil {
		panic(skip{"uncertain error below a handler"})
	}
	return nil, eErr{}
}

func (r *Ref) signal(continuable bool) (V, error) {
	if r.handler == nil {
		return nil, eErr{}
	}
	if r.inH > 0 {
		panic(skip{"condition inside a handler"})
	}
	r.feat["handled"] = true
	r.inH++
	_, err := r.apply(r.handler, []V{Sym("#<condition>")})
	r.inH--
	if err == nil {
		panic(skip{"handler returned"})
	}
	if c, ok := err.(eCont); ok {
		if !continuable {
			panic(skip{"continued an error that is not continuable"})
		}
		return c.val, nil
	}
	if !exit(err) {
		if _, ok := err.(eCancel); ok {
			return nil, err
		}
		panic(skip{"error inside a handler"})
	}
	return nil, err
}

var specials = map[string]bool{}

func init() {
	for _, s := range strings.Fields("and or apply block case catch cond continue-condition defdynamic defmacro defun dynamic dynamic-let flet funcall function go if ignore-errors labels lambda let let* progn psetq quasiquote quote return-from setq tagbody unwind-protect while with-handler") {
		specials[s] = true
	}
}

func (e *Env) lookup(n string) *V {
	for ; e != nil; e = e.up {
		if p, ok := e.vars[n]; ok {
			return p
		}
	}
	return nil
}

func (r *Ref) fn(e *Env, n string) *Fn {
	for ; e != nil; e = e.up {
		if f, ok := e.funs[n]; ok {
			return f
		}
	}
	return r.funs[n]
}

func (r *Ref) progn(body V, e *Env) (V, error) {
	v := NIL
	for c, ok := body.(*Cell); ok; c, ok = c.cdr.(*Cell) {
		var err error
		if v, err = r.eval(c.car, e); err != nil {
			return nil, err
		}
	}
	return v, nil
}

// checkArity: whether surplus arguments of a wrong call are evaluated is left open.
func (r *Ref) checkArity(f *Fn, n int) {
	if f.host != nil && (n < f.min || n > f.max) || f.host == nil && (n < len(f.params) || n > len(f.params) && f.rest == "") {
		panic(skip{"arity"})
	}
}

func (r *Ref) apply(f *Fn, args []V) (V, error) {
	if f.host != nil {
		if len(args) < f.min || len(args) > f.max {
			panic(skip{"arity"})
		}
		return f.host(r, args)
	}
	if r.stopped {
		return nil, eCancel{}
	}
	return r.call(f, args)
}

// call runs f; the context was checked before the arguments were evaluated.
func (r *Ref) call(f *Fn, args []V) (V, error) {
	if f.host != nil {
		return r.apply(f, args)
	}
	if len(args) < len(f.params) || (len(args) > len(f.params) && f.rest == "") {
		panic(skip{"arity"})
	}
	r.depth++
	if r.depth > 400 {
		panic(skip{"deep recursion"})
	}
	defer func() { r.depth-- }()
	e := &Env{up: f.env, vars: map[string]*V{}}
	for i, p := range f.params {
		v := args[i]
		e.vars[p] = &v
	}
	if f.rest != "" {
		v := L(args[len(f.params):]...)
		e.vars[f.rest] = &v
	}
	return r.progn(f.body, e)
}

func params(v V) (ps []string, rest string) {
	xs := slice(v)
	for i := 0; i < len(xs); i++ {
		s := string(xs[i].(Sym))
		if s == "&rest" || s == ":rest" {
			rest = string(xs[i+1].(Sym))
			i++
			continue
		}
		ps = append(ps, s)
	}
	return
}

func (r *Ref) lambda(name string, rest V, e *Env) *Fn {
	ps, rs := params(car(rest))
	return &Fn{name: name, params: ps, rest: rs, body: cdr(rest), env: e}
}

func (r *Ref) eval(form V, e *Env) (V, error) {
	r.steps++
	if r.steps > 20000 {
		panic(skip{"too long"})
	}
	switch x := form.(type) {
	case Sym:
		if x == "t" {
			return x, nil
		}
		if p := e.lookup(string(x)); p != nil {
			return *p, nil
		}
		return r.uncertain()
	case *Cell:
		s, ok := x.car.(Sym)
		if !ok {
			// ((lambda …) args)
			panic(skip{"operator"})
		}
		op := string(s)
		if f := r.fn(e, op); f != nil && (f.host == nil || !specials[op]) {
			var args []V
			r.checkArity(f, len(slice(x.cdr)))
			if f.host == nil && r.stopped {
				return nil, eCancel{}
			}
			for _, a := range slice(x.cdr) {
				v, err := r.eval(a, e)
				if err != nil {
					return nil, err
				}
				args = append(args, v)
			}
			return r.call(f, args)
		}
		if m, ok := r.macros[op]; ok {
			return r.macro(m, x.cdr, e)
		}
		if !specials[op] {
			return r.uncertain()
		}
		if r.stopped {
			return nil, eCancel{}
		}
		return r.special(op, x.cdr, e)
	}
	return form, nil
}

func (r *Ref) expand(m *Macro, args V) (V, error) {
	env := &Env{up: m.env, vars: map[string]*V{}}
	for _, p := range m.params {
		c, ok := args.(*Cell)
		if !ok {
			panic(skip{"macro arity"})
		}
		v := c.car
		env.vars[p] = &v
		args = c.cdr
	}
	if m.rest != "" {
		v := args
		env.vars[m.rest] = &v
	} else if !isNil(args) {
		panic(skip{"macro arity"})
	}
	return r.progn(m.body, env)
}

func (r *Ref) macro(m *Macro, args V, e *Env) (V, error) {
	r.feat["macro"] = true
	code, err := r.expand(m, args)
	if err != nil {
		return nil, err
	}
	return r.eval(code, e)
}

func (r *Ref) quasi(t V, e *Env) (V, error) {
	c, ok := t.(*Cell)
	if !ok {
		return t, nil
	}
	if c.car == V(Sym("unquote")) {
		r.feat["unquote"] = true
		return r.eval(car(c.cdr), e)
	}
	if in, ok := c.car.(*Cell); ok && in.car == V(Sym("unquote-splicing")) {
		r.feat["splice"] = true
		v, err := r.eval(car(in.cdr), e)
		if err != nil {
			return nil, err
		}
		rest, err := r.quasi(c.cdr, e)
		if err != nil {
			return nil, err
		}
		xs := slice(v)
		if len(xs) == 0 && !isNil(v) {
			panic(skip{"splice of an atom"})
		}
		for i := len(xs) - 1; i >= 0; i-- {
			rest = &Cell{xs[i], rest}
		}
		return rest, nil
	}
	a, err := r.quasi(c.car, e)
	if err != nil {
		return nil, err
	}
	d, err := r.quasi(c.cdr, e)
	if err != nil {
		return nil, err
	}
	return &Cell{a, d}, nil
}

func (r *Ref) special(op string, args V, e *Env) (V, error) {
	a := slice(args)
	need := func(n int) {
		if len(a) < n {
			panic(skip{"malformed"})
		}
	}
	switch op {
	case "quote":
		return a[0], nil
	case "quasiquote":
		return r.quasi(a[0], e)
	case "progn":
		return r.progn(args, e)
	case "if":
		need(2)
		c, err := r.eval(a[0], e)
		if err != nil {
			return nil, err
		}
		if !isNil(c) {
			return r.eval(a[1], e)
		}
		if len(a) > 2 {
			return r.eval(a[2], e)
		}
		return NIL, nil
	case "and":
		v := V(Sym("t"))
		for _, x := range a {
			var err error
			if v, err = r.eval(x, e); err != nil {
				return nil, err
			}
			if isNil(v) {
				return NIL, nil
			}
		}
		return v, nil
	case "or":
		for _, x := range a {
			v, err := r.eval(x, e)
			if err != nil {
				return nil, err
			}
			if !isNil(v) {
				return v, nil
			}
		}
		return NIL, nil
	case "cond":
		for _, cl := range a {
			v, err := r.eval(car(cl), e)
			if err != nil {
				return nil, err
			}
			if !isNil(v) {
				if isNil(cdr(cl)) {
					return v, nil
				}
				return r.progn(cdr(cl), e)
			}
		}
		return NIL, nil
	case "case":
		k, err := r.eval(a[0], e)
		if err != nil {
			return nil, err
		}
		for _, cl := range a[1:] {
			keys := car(cl)
			hit := keys == V(Sym("t"))
			for _, x := range slice(keys) {
				switch x.(type) {
				case int, Sym, nilT:
					if x == k {
						hit = true
					}
				}
			}
			if hit {
				return r.progn(cdr(cl), e)
			}
		}
		return NIL, nil
	case "while":
		last := NIL
		for {
			if r.stopped {
				return nil, eCancel{}
			}
			c, err := r.eval(a[0], e)
			if err != nil {
				return nil, err
			}
			if isNil(c) {
				return last, nil
			}
			if last, err = r.progn(cdr(args), e); err != nil {
				return nil, err
			}
		}
	case "let", "let*":
		env := &Env{up: e, vars: map[string]*V{}}
		for _, b := range slice(a[0]) {
			if s, ok := b.(Sym); ok {
				v := NIL
				env.vars[string(s)] = &v
				continue
			}
			in := e
			if op == "let*" {
				// each initial value sees the previous bindings
				nx := &Env{up: env, vars: map[string]*V{}}
				v, err := r.eval(car(cdr(b)), env)
				if err != nil {
					return nil, err
				}
				nx.vars[string(car(b).(Sym))] = &v
				env = nx
				continue
			}
			v, err := r.eval(car(cdr(b)), in)
			if err != nil {
				return nil, err
			}
			env.vars[string(car(b).(Sym))] = &v
		}
		return r.progn(cdr(args), env)
	case "setq":
		v := NIL
		for i := 0; i+1 < len(a); i += 2 {
			var err error
			if v, err = r.eval(a[i+1], e); err != nil {
				return nil, err
			}
			p := e.lookup(string(a[i].(Sym)))
			if p == nil {
				return r.uncertain()
			}
			*p = v
		}
		return v, nil
	case "psetq":
		var vs []V
		for i := 0; i+1 < len(a); i += 2 {
			v, err := r.eval(a[i+1], e)
			if err != nil {
				return nil, err
			}
			vs = append(vs, v)
		}
		for i, v := range vs {
			p := e.lookup(string(a[2*i].(Sym)))
			if p == nil {
				return r.uncertain()
			}
			*p = v
		}
		return NIL, nil
	case "lambda":
		return r.lambda("", args, e), nil
	case "function":
		f := r.fn(e, string(a[0].(Sym)))
		if f == nil {
			return r.uncertain()
		}
		return f, nil
	case "defun":
		r.funs[string(a[0].(Sym))] = r.lambda(string(a[0].(Sym)), cdr(args), e)
		return a[0], nil
	case "defmacro":
		ps, rest := params(a[1])
		r.macros[string(a[0].(Sym))] = &Macro{ps, rest, cdr(cdr(args)), e}
		return a[0], nil
	case "flet", "labels":
		env := &Env{up: e, funs: map[string]*Fn{}}
		for _, d := range slice(a[0]) {
			in := e
			if op == "labels" {
				in = env
			}
			n := string(car(d).(Sym))
			env.funs[n] = r.lambda(n, cdr(d), in)
		}
		return r.progn(cdr(args), env)
	case "funcall", "apply":
		f, err := r.eval(a[0], e)
		if err != nil {
			return nil, err
		}
		fn, ok := f.(*Fn)
		if !ok {
			return r.uncertain()
		}
		var vs []V
		if op == "funcall" {
			r.checkArity(fn, len(a)-1)
			if fn.host == nil && r.stopped {
				return nil, eCancel{}
			}
		}
		for i, x := range a[1:] {
			v, err := r.eval(x, e)
			if err != nil {
				return nil, err
			}
			if op == "apply" && i == len(a)-2 {
				vs = append(vs, slice(v)...)
				break
			}
			vs = append(vs, v)
		}
		if op == "funcall" {
			return r.call(fn, vs)
		}
		return r.apply(fn, vs)
	case "block":
		name := show(a[0])
		r.feat["block"] = true
		r.blocks[name]++
		v, err := r.progn(cdr(args), e)
		r.blocks[name]--
		if x, ok := err.(eRet); ok && x.name == name {
			r.feat["block caught"] = true
			return x.val, nil
		}
		return v, err
	case "return-from":
		name := show(a[0])
		if r.blocks[name] == 0 {
			return r.signal(false)
		}
		v, err := r.eval(a[1], e)
		if err != nil {
			return nil, err
		}
		return nil, eRet{name, v}
	case "catch":
		tag, err := r.eval(a[0], e)
		if err != nil {
			return nil, err
		}
		if _, ok := tag.(*Cell); ok {
			panic(skip{"tag"})
		}
		r.tags[show(tag)]++
		v, err := r.progn(cdr(args), e)
		r.tags[show(tag)]--
		if x, ok := err.(eThrow); ok && x.tag == tag {
			r.feat["caught"] = true
			return x.val, nil
		}
		return v, err
	case "go":
		n := string(a[0].(Sym))
		if r.gos[n] == 0 {
			return r.signal(false)
		}
		r.feat["go"] = true
		return nil, eGo{n}
	case "tagbody":
		at := map[string]int{}
		for i, x := range a {
			if s, ok := x.(Sym); ok {
				at[string(s)] = i
			}
		}
		for s := range at {
			r.gos[s]++
		}
		defer func() {
			for s := range at {
				r.gos[s]--
			}
		}()
		for i := 0; i < len(a); i++ {
			if _, ok := a[i].(Sym); ok {
				continue
			}
			if _, err := r.eval(a[i], e); err != nil {
				g, ok := err.(eGo)
				if !ok {
					return nil, err
				}
				p, ok := at[g.tag]
				if !ok {
					return nil, err
				}
				i = p
				r.steps++
				if r.steps > 20000 {
					panic(skip{"too long"})
				}
			}
		}
		return NIL, nil
	case "unwind-protect":
		r.feat["unwind"] = true
		v, err := r.eval(a[0], e)
		if err != nil {
			r.feat["unwind failure"] = true
		}
		if _, cerr := r.progn(cdr(args), e); cerr != nil {
			if exit(cerr) {
				return r.signal(false)
			}
			return nil, cerr
		}
		return v, err
	case "dynamic":
		v, ok := r.dyn[string(a[0].(Sym))]
		if !ok {
			return r.uncertain()
		}
		return v, nil
	case "defdynamic":
		v, err := r.eval(a[1], e)
		if err != nil {
			return nil, err
		}
		r.dyn[string(a[0].(Sym))] = v
		return a[0], nil
	case "dynamic-let":
		r.feat["dynamic-let"] = true
		type saved struct {
			n  string
			v  V
			ok bool
		}
		var old []saved
		defer func() {
			for i := len(old) - 1; i >= 0; i-- {
				if old[i].ok {
					r.dyn[old[i].n] = old[i].v
				} else {
					delete(r.dyn, old[i].n)
				}
			}
		}()
		for _, b := range slice(a[0]) {
			n := string(car(b).(Sym))
			v, err := r.eval(car(cdr(b)), e)
			if err != nil {
				return nil, err
			}
			o, ok := r.dyn[n]
			old = append(old, saved{n, o, ok})
			r.dyn[n] = v
		}
		return r.progn(cdr(args), e)
	case "with-handler":
		h, err := r.eval(a[0], e)
		if err != nil {
			return nil, err
		}
		f, ok := h.(*Fn)
		if !ok {
			return r.uncertain()
		}
		r.feat["with-handler"] = true
		old := r.handler
		r.handler = f
		v, err := r.progn(cdr(args), e)
		if err != nil && !exit(err) {
			if _, ok := err.(eCancel); ok {
				r.handler = old
				return nil, err
			}
			// a failure that is no condition reaches the handler here
			if r.inH > 0 {
				panic(skip{"failure inside a handler"})
			}
			r.inH++
			_, herr := r.apply(f, []V{Sym("#<condition>")})
			r.inH--
			r.handler = old
			if herr == nil {
				panic(skip{"handler returned"})
			}
			if !exit(herr) {
				panic(skip{"error inside a handler"})
			}
			return nil, herr
		}
		r.handler = old
		return v, err
	case "continue-condition":
		if r.inH == 0 {
			panic(skip{"continue-condition outside a handler"})
		}
		v, err := r.eval(a[1], e)
		if err != nil {
			return nil, err
		}
		return nil, eCont{v}
	case "ignore-errors":
		v, err := r.progn(args, e)
		if err != nil {
			switch err.(type) {
			case eRet, eThrow, eGo, eCont, eCancel:
				return nil, err
			}
			return NIL, nil
		}
		return v, nil
	}
	panic("reference: " + op)
}

// note adds to the trace.
func (r *Ref) note(s string) {
	r.traced += len(s)
	if r.traced > 1<<20 {
		panic(skip{"trace too long"})
	}
	r.trace = append(r.trace, s)
}

// Result runs one top-level form.
func (r *Ref) top(form V) (out Out, skipped string) {
	defer func() {
		if p := recover(); p != nil {
			s, ok := p.(skip)
			if !ok {
				panic(p)
			}
			skipped = s.why
		}
	}()
	r.trace = nil
	v, err := r.eval(form, nil)
	out.Trace = r.trace
	if err != nil {
		switch x := err.(type) {
		case eProbe:
			out.Kind, out.Val = "probe", x.n
		case eCancel:
			out.Kind = "cancel"
		default:
			out.Kind = "error"
		}
		return
	}
	out.Kind, out.Val = "value", show(v)
	return
}
