package main

// Random programs for the reference interpreter.

import (
	"fmt"
	"math/rand"
	"strings"
)

type weights map[string]int

type gen struct {
	r      *rand.Rand
	w      weights
	ks     []string
	total  int
	nt     int
	vars   []string // in scope, may be referenced
	funs   []gfun
	inTag  []string
	inBlk  []string
	inCat  []string
	inH    bool
	wrapTr bool
	stop   bool
	loopV  int
}

type gfun struct {
	name string
	n    int
	rest bool
}

func newGen(r *rand.Rand, w weights) *gen {
	g := &gen{r: r, w: w}
	for _, k := range sortedW(w) {
		g.ks = append(g.ks, k)
		g.total += w[k]
	}
	return g
}

func sortedW(w weights) []string {
	var ks []string
	for k := range w {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

func (g *gen) pick() string {
	n := g.r.Intn(g.total)
	for _, k := range g.ks {
		if n -= g.w[k]; n < 0 {
			return k
		}
	}
	return g.ks[0]
}

func S(s string) V { return Sym(s) }

func (g *gen) tr(v V) V {
	f := L(S("tr"), v)
	if g.wrapTr {
		return L(S("progn"), f)
	}
	return f
}

func (g *gen) fresh() V {
	g.nt++
	return g.tr(g.nt)
}

func (g *gen) leaf() V {
	switch g.r.Intn(8) {
	case 0:
		return NIL
	case 1:
		return g.r.Intn(5)
	case 2, 3:
		if len(g.vars) > 0 {
			v := S(g.vars[g.r.Intn(len(g.vars))])
			if g.r.Intn(2) == 0 {
				return g.tr(v)
			}
			return v
		}
		return g.fresh()
	case 4:
		return g.tr(NIL)
	case 5:
		if g.w["bad"] > 0 && g.r.Intn(3) == 0 {
			g.nt++
			return L(S("bad"), g.nt)
		}
		return g.fresh()
	default:
		return g.fresh()
	}
}

func (g *gen) body(d, min, max int) []V {
	n := min + g.r.Intn(max-min+1)
	var r []V
	for i := 0; i < n; i++ {
		r = append(r, g.form(d))
	}
	return r
}

func app(head []V, tail []V) V { return L(append(append([]V(nil), head...), tail...)...) }

func (g *gen) bool(d int) V {
	switch g.r.Intn(5) {
	case 0:
		return g.tr(NIL)
	case 1:
		return g.tr(S("t"))
	}
	return g.form(d)
}

var varNames = []string{"x", "y", "z"}
var blkNames = []string{"b1", "b2", "nil"}
var catNames = []string{"c1", "c2"}
var tagNames = []string{"g1", "g2", "g3"}
var dynNames = []string{"*d1*", "*d2*"}

func (g *gen) withVars(vs []string, f func() V) V {
	old := g.vars
	g.vars = append(append([]string(nil), old...), vs...)
	r := f()
	g.vars = old
	return r
}

func (g *gen) some(xs []string) string { return xs[g.r.Intn(len(xs))] }

func (g *gen) form(d int) V {
	if d <= 0 {
		return g.leaf()
	}
	d--
	k := g.pick()
	switch k {
	case "leaf":
		return g.leaf()
	case "progn":
		return app([]V{S("progn")}, g.body(d, 0, 4))
	case "if":
		b := g.body(d, 1, 2)
		return app([]V{S("if"), g.bool(d)}, b)
	case "and":
		return app([]V{S("and")}, g.body(d, 0, 4))
	case "or":
		var fs []V
		for i := g.r.Intn(5); i > 0; i-- {
			fs = append(fs, g.bool(d))
		}
		return app([]V{S("or")}, fs)
	case "cond":
		var cls []V
		for i := g.r.Intn(4); i > 0; i-- {
			cls = append(cls, app([]V{g.bool(d)}, g.body(d, 0, 3)))
		}
		return app([]V{S("cond")}, cls)
	case "case":
		var cls []V
		for i := g.r.Intn(4); i > 0; i-- {
			var keys []V
			for j := g.r.Intn(4); j > 0; j-- {
				keys = append(keys, []V{g.r.Intn(5), g.r.Intn(3), S("t"), S("a"), NIL}[g.r.Intn(5)])
			}
			kl := L(keys...)
			if isNil(kl) {
				kl = L(99)
			}
			cls = append(cls, app([]V{kl}, g.body(d, 0, 3)))
		}
		if g.r.Intn(2) == 0 {
			cls = append(cls, app([]V{S("t")}, g.body(d, 1, 2)))
		}
		return app([]V{S("case"), g.tr(g.r.Intn(4))}, cls)
	case "while":
		g.loopV++
		i := fmt.Sprintf("i%d", g.loopV)
		return L(S("let"), L(L(S(i), 0)), g.withVars([]string{i}, func() V {
			b := append(g.body(d, 0, 2), L(S("setq"), S(i), L(S("+"), S(i), 1)))
			b = append(b, g.body(d, 0, 1)...)
			return app([]V{S("while"), g.tr(L(S("<"), S(i), g.r.Intn(4)))}, b)
		}))
	case "let", "let*":
		var bs []V
		var names []string
		old := g.vars
		for i := g.r.Intn(4); i > 0; i-- {
			n := g.some(varNames)
			dup := false
			for _, m := range names {
				dup = dup || m == n
			}
			if dup && k == "let" {
				continue
			}
			if g.r.Intn(8) == 0 && k == "let" {
				bs = append(bs, S(n))
			} else {
				bs = append(bs, L(S(n), g.form(d)))
			}
			names = append(names, n)
			if k == "let*" {
				g.vars = append(append([]string(nil), g.vars...), n)
			}
		}
		g.vars = old
		return g.withVars(names, func() V { return app([]V{S(k), L(bs...)}, g.body(d, 0, 3)) })
	case "setq":
		if len(g.vars) == 0 {
			return g.leaf()
		}
		if g.r.Intn(4) == 0 {
			return L(S("setq"), S(g.some(g.vars)), g.form(d), S(g.some(g.vars)), g.form(d))
		}
		return L(S("setq"), S(g.some(g.vars)), g.form(d))
	case "psetq":
		if len(g.vars) == 0 {
			return g.leaf()
		}
		return L(S("psetq"), S(g.some(g.vars)), g.form(d), S(g.some(g.vars)), g.form(d))
	case "call":
		if len(g.funs) == 0 || g.r.Intn(3) == 0 {
			return app([]V{S("list")}, g.body(d, 0, 4))
		}
		f := g.funs[g.r.Intn(len(g.funs))]
		return app([]V{S(f.name)}, g.args(d, f))
	case "tr2":
		return L(S("tr2"), g.form(d), g.form(d))
	case "funcall":
		ps, rest := g.params()
		lam := g.lambda(ps, rest, d)
		var f V = lam
		if g.r.Intn(3) == 0 && len(g.funs) > 0 {
			fn := g.funs[g.r.Intn(len(g.funs))]
			return app([]V{S("funcall"), L(S("function"), S(fn.name))}, g.args(d, fn))
		}
		return app([]V{S("funcall"), f}, g.args(d, gfun{"", len(ps), rest != ""}))
	case "apply":
		ps, rest := g.params()
		as := g.args(d, gfun{"", len(ps), rest != ""})
		i := g.r.Intn(len(as) + 1)
		return app([]V{S("apply"), g.lambda(ps, rest, d)}, append(append([]V(nil), as[:i]...), app([]V{S("list")}, as[i:])))
	case "closure":
		// a closure created in one scope and called in another
		g.loopV++
		fn := fmt.Sprintf("k%d", g.loopV)
		v := g.some(varNames)
		inner := g.withVars([]string{v}, func() V {
			return L(S("let"), L(L(S(v), g.form(d))), app([]V{S("lambda"), NIL}, g.body(d, 1, 3)))
		})
		return L(S("let"), L(L(S(fn), inner)), g.withVars([]string{v}, func() V {
			b := []V{L(S("funcall"), S(fn))}
			if g.r.Intn(2) == 0 {
				b = append(b, L(S("funcall"), S(fn)))
			}
			return L(S("let"), L(L(S(v), g.form(d))), app([]V{S("list")}, b))
		}))
	case "flet", "labels":
		g.loopV++
		n := []string{"f1", "f2"}[g.r.Intn(2)]
		ps, rest := g.params()
		oldf := g.funs
		var others []gfun
		for _, f := range oldf {
			if f.name != n {
				others = append(others, f)
			}
		}
		if k == "labels" {
			g.funs = others
		}
		def := func() V {
			return app([]V{S(n), g.plist(ps, rest)}, slice(cdr(cdr(g.lambda(ps, rest, d)))))
		}
		df := def()
		g.funs = append(append([]gfun(nil), others...), gfun{n, len(ps), rest != ""})
		b := g.body(d, 1, 3)
		g.funs = oldf
		return app([]V{S(k), L(df)}, b)
	case "block":
		n := g.some(blkNames)
		old := g.inBlk
		g.inBlk = append(append([]string(nil), old...), n)
		b := g.body(d, 0, 4)
		g.inBlk = old
		return app([]V{S("block"), S(n)}, b)
	case "return-from":
		n := g.some(blkNames)
		if len(g.inBlk) > 0 && g.r.Intn(5) > 0 {
			n = g.some(g.inBlk)
		}
		if n == "nil" && g.r.Intn(2) == 0 {
			return L(S("return"), g.form(d))
		}
		return L(S("return-from"), S(n), g.form(d))
	case "catch":
		n := g.some(catNames)
		old := g.inCat
		g.inCat = append(append([]string(nil), old...), n)
		b := g.body(d, 0, 4)
		g.inCat = old
		return app([]V{S("catch"), g.tag(n)}, b)
	case "throw":
		n := g.some(catNames)
		if len(g.inCat) > 0 && g.r.Intn(5) > 0 {
			n = g.some(g.inCat)
		}
		return L(S("throw"), g.tag(n), g.form(d))
	case "tagbody":
		var b []V
		var tags []string
		for i := g.r.Intn(3); i >= 0; i-- {
			t := g.some(tagNames)
			dup := false
			for _, u := range tags {
				dup = dup || u == t
			}
			if !dup {
				tags = append(tags, t)
			}
		}
		old := g.inTag
		g.inTag = append(append([]string(nil), old...), tags...)
		g.loopV++
		c := fmt.Sprintf("i%d", g.loopV)
		n := g.withVars([]string{c}, func() V {
			for _, t := range tags {
				b = append(b, g.tagForms(d)...)
				b = append(b, S(t))
			}
			b = append(b, g.tagForms(d)...)
			if g.r.Intn(3) == 0 {
				// a bounded backward jump
				b = append(b, L(S("setq"), S(c), L(S("+"), S(c), 1)), L(S("if"), L(S("<"), S(c), 3), L(S("go"), S(tags[g.r.Intn(len(tags))]))))
				b = append(b, g.tagForms(d)...)
			}
			return app([]V{S("tagbody")}, b)
		})
		g.inTag = old
		return L(S("let"), L(L(S(c), 0)), n)
	case "go":
		n := g.some(tagNames)
		if len(g.inTag) > 0 && g.r.Intn(6) > 0 {
			n = g.some(g.inTag)
		}
		return L(S("go"), S(n))
	case "unwind":
		return app([]V{S("unwind-protect"), g.form(d)}, g.body(d, 0, 3))
	case "dynlet":
		n := g.some(dynNames)
		bs := []V{L(S(n), g.form(d))}
		if g.r.Intn(3) == 0 {
			bs = append(bs, L(S(g.some(dynNames)), g.fresh()))
		}
		return app([]V{S("dynamic-let"), L(bs...)}, g.body(d, 0, 3))
	case "dynamic":
		return g.tr(L(S("dynamic"), S(g.some(dynNames))))
	case "defdynamic":
		return L(S("defdynamic"), S(g.some(dynNames)), g.form(d))
	case "handler":
		return app([]V{S("with-handler"), g.handler(d)}, g.body(d, 0, 3))
	case "signal":
		if g.r.Intn(2) == 0 {
			return L(S("cerror"), "continue", "broken")
		}
		return L(S("error"), "broken")
	case "ignore":
		return app([]V{S("ignore-errors")}, g.body(d, 0, 3))
	case "bad":
		g.nt++
		return L(S("bad"), g.nt)
	case "map":
		return g.mapForm(d)
	case "quasi":
		return L(S("quasiquote"), g.template(d, 3))
	case "quote":
		return L(S("quote"), L(1, S("x"), L(S("tr"), 1)))
	case "macro":
		name := g.some([]string{"m1", "m2", "m3"})
		switch name {
		case "m1":
			return L(S("m1"), g.form(d), g.form(d))
		case "m2":
			return app([]V{S("m2"), g.form(d)}, g.body(d, 0, 3))
		}
		return app([]V{S("m3")}, g.body(d, 0, 3))
	case "rec":
		return g.recursion(d)
	case "stop":
		return L(S("progn"), L(S("stop-now"), 7))
	}
	panic("gen: " + k)
}

func syms(xs []string) []V {
	var r []V
	for _, x := range xs {
		r = append(r, S(x))
	}
	return r
}

func (g *gen) tag(n string) V { return L(S("quote"), S(n)) }

func (g *gen) tagForms(d int) []V {
	var r []V
	for i := g.r.Intn(3); i > 0; i-- {
		f := g.form(d)
		if _, ok := f.(Sym); ok {
			f = g.tr(f)
		}
		if isNil(f) {
			f = g.fresh()
		}
		r = append(r, f)
	}
	return r
}

func (g *gen) handler(d int) V {
	g.loopV++
	c := fmt.Sprintf("e%d", g.loopV)
	var body []V
	body = append(body, g.fresh())
	switch g.r.Intn(4) {
	case 0:
		body = append(body, L(S("continue-condition"), S(c), g.fresh()))
	case 1:
		n := g.some(catNames)
		if len(g.inCat) > 0 {
			n = g.some(g.inCat)
		}
		body = append(body, L(S("throw"), g.tag(n), g.fresh()))
	default:
		n := g.some(blkNames)
		if len(g.inBlk) > 0 {
			n = g.some(g.inBlk)
		}
		body = append(body, L(S("return-from"), S(n), g.fresh()))
	}
	return app([]V{S("lambda"), L(S(c))}, body)
}

func (g *gen) params() (ps []string, rest string) {
	for _, n := range varNames {
		if g.r.Intn(2) == 0 {
			ps = append(ps, n)
		}
	}
	if g.r.Intn(4) == 0 {
		rest = "r"
	}
	return
}

func (g *gen) plist(ps []string, rest string) V {
	xs := syms(ps)
	if rest != "" {
		xs = append(xs, S("&rest"), S(rest))
	}
	return L(xs...)
}

func (g *gen) lambda(ps []string, rest string, d int) V {
	vs := ps
	if rest != "" {
		vs = append(append([]string(nil), ps...), rest)
	}
	oi, ob := g.inTag, g.inBlk
	r := g.withVars(vs, func() V { return app([]V{S("lambda"), g.plist(ps, rest)}, g.body(d, 1, 3)) })
	g.inTag, g.inBlk = oi, ob
	return r
}

func (g *gen) args(d int, f gfun) []V {
	n := f.n
	if f.rest {
		n += g.r.Intn(3)
	}
	var r []V
	for i := 0; i < n; i++ {
		r = append(r, g.form(d))
	}
	return r
}

func (g *gen) template(d, depth int) V {
	switch g.r.Intn(7) {
	case 0:
		return g.r.Intn(9)
	case 1:
		return S(g.some([]string{"a", "b", "x"}))
	case 2:
		return L(S("unquote"), g.form(d-1))
	}
	if depth <= 0 {
		return S("a")
	}
	var xs []V
	for i := g.r.Intn(5); i > 0; i-- {
		xs = append(xs, g.template(d-1, depth-1))
	}
	return L(xs...)
}

// recursion makes a self-recursive function whose calls are in (or near) tail position.
func (g *gen) recursion(d int) V {
	g.loopV++
	name := "f" + fmt.Sprint(100+g.loopV)
	n := 1 + g.r.Intn(3)
	ps := append([]string{"n"}, varNames[:n-1]...)
	rest := ""
	if g.r.Intn(3) == 0 {
		rest = "r"
	}
	vs := append([]string(nil), ps...)
	if rest != "" {
		vs = append(vs, rest)
	}
	old := g.vars
	g.vars = append(append([]string(nil), old...), vs...)
	if g.r.Intn(2) == 0 {
		g.vars = vs
	}
	self := func() V {
		as := []V{L(S("-"), S("n"), 1)}
		for i := 1; i < n; i++ {
			as = append(as, g.form(d-1))
		}
		if rest != "" {
			for i := g.r.Intn(3); i > 0; i-- {
				as = append(as, g.form(d-2))
			}
		}
		return app([]V{S(name)}, as)
	}
	var call V
	switch g.r.Intn(8) {
	case 0:
		call = self()
	case 1:
		call = app([]V{S("progn")}, append(g.body(d-1, 0, 2), self()))
	case 2:
		call = L(S("let"), L(L(S("n2"), S("n"))), g.fresh(), self())
	case 3:
		call = L(S("cond"), L(g.bool(d-1), self()), L(S("t"), self()))
	case 4:
		call = L(S("if"), g.bool(d-1), self(), self())
	case 5:
		call = L(S("let*"), L(L(S("x"), g.form(d-1)), L(S("y"), S("x"))), self())
	case 6:
		call = L(S("list"), self(), g.fresh())
	case 7:
		// the closure must keep the binding of its own activation
		call = L(S("cons"), L(S("funcall"), L(S("let"), L(L(S("q"), S("n"))), L(S("lambda"), NIL, L(S("list"), S("n"), S("q"))))), self())
	}
	if g.r.Intn(6) == 0 {
		// a local function of the same name intercepts the call
		call = L(S("flet"), L(L(S(name), L(S("&rest"), S("zz")), g.fresh(), L(S("list"), S("zz")))), self())
	}
	base := g.form(d - 1)
	var body []V
	body = append(body, g.tr(app([]V{S("list")}, syms(vs))))
	if g.r.Intn(2) == 0 {
		body = append(body, L(S("setq"), S("acc"), L(S("cons"), L(S("lambda"), NIL, app([]V{S("list")}, syms(vs))), S("acc"))))
	}
	body = append(body, L(S("if"), L(S("<"), S("n"), 1), base, call))
	g.vars = old
	var as []V
	as = append(as, g.r.Intn(4))
	for i := 1; i < n; i++ {
		as = append(as, g.form(d-1))
	}
	if rest != "" {
		as = append(as, g.fresh())
	}
	use := app([]V{S(name)}, as)
	tail := L(S("list"), use, L(S("mapcar"), L(S("lambda"), L(S("k")), L(S("funcall"), S("k"))), S("acc")))
	var def V
	if g.r.Intn(3) > 0 {
		def = app([]V{S("defun"), S(name), g.plist(ps, rest)}, body)
		return L(S("let"), L(L(S("acc"), NIL)), def, tail)
	}
	return L(S("let"), L(L(S("acc"), NIL)), L(S("labels"), L(app([]V{S(name), g.plist(ps, rest)}, body)), tail))
}

func (g *gen) mapForm(d int) V {
	m := g.some([]string{"mapcar", "mapc", "maplist", "mapl", "mapcan", "mapcon"})
	n := 1 + g.r.Intn(3)
	var ps []string
	for i := 0; i < n; i++ {
		ps = append(ps, fmt.Sprintf("p%d", i))
	}
	var body []V
	old := g.vars
	g.vars = append(append([]string(nil), old...), ps...)
	body = append(body, g.tr(app([]V{S("list")}, syms(ps))))
	body = append(body, g.body(d-1, 0, 1)...)
	if strings.HasPrefix(m, "mapca") && m != "mapcar" || m == "mapcon" {
		body = append(body, app([]V{S("list")}, g.body(d-2, 0, 2)))
	} else {
		body = append(body, g.form(d-1))
	}
	g.vars = old
	var ls []V
	for i := 0; i < n; i++ {
		var xs []V
		for j := g.r.Intn(4); j > 0; j-- {
			xs = append(xs, []V{g.r.Intn(9), NIL, S("t"), L(1, 2)}[g.r.Intn(4)])
		}
		ls = append(ls, L(S("quote"), L(xs...)))
	}
	return app([]V{S(m), app([]V{S("lambda"), L(syms(ps)...)}, body)}, ls)
}
