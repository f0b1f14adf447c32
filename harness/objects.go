package main

// Generic functions, classes, objects, several interpreters, the reader, and the crash search over every built-in.

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"

	g "github.com/hymkor/gmnlisp"
)

// hierarchy makes random classes c0..cn-1, each with superclasses among the earlier ones.
type hierarchy struct {
	n     int
	super [][]int
	defs  []string
}

func (h *H) classes(n int, slots func(i int) string) hierarchy {
	r := hierarchy{n: n}
	for i := 0; i < n; i++ {
		var sup []int
		var names []string
		for j := 0; j < i; j++ {
			if h.rng.Intn(3) == 0 && len(sup) < 3 {
				sup = append(sup, j)
				names = append(names, fmt.Sprintf("<c%d>", j))
			}
		}
		r.super = append(r.super, sup)
		r.defs = append(r.defs, fmt.Sprintf("(defclass <c%d> (%s) (%s))", i, strings.Join(names, " "), slots(i)))
	}
	return r
}

func (y hierarchy) below(a, b int) bool { // strictly
	for _, s := range y.super[a] {
		if s == b || y.below(s, b) {
			return true
		}
	}
	return false
}

func propP21(h *H) {
	h.rule("random hierarchies of 2 to 7 classes with multiple inheritance; every pair of classes; objects of each class; a class redefined under the same name")
	for !h.done() {
		y := h.classes(2+h.rng.Intn(6), func(int) string { return "" })
		s := newSess()
		all := strings.Join(y.defs, " ")
		if o := s.run(all); o.Kind != "value" {
			h.fail("defclass", all, "value", o.String(), fmt.Sprint(o.Err))
			continue
		}
		tf := map[bool]string{true: "value t", false: "value nil"}
		q := func(code, want string) {
			h.count(all+code, true)
			o := s.run(code)
			got := o.Kind
			if o.Kind == "value" {
				got += " " + o.Val
			}
			if got != want {
				h.fail("class membership", all+" "+code, want, o.String(), fmt.Sprint(o.Err))
			}
		}
		for a := 0; a < y.n; a++ {
			for b := 0; b < y.n; b++ {
				q(fmt.Sprintf("(subclassp <c%d> <c%d>)", a, b), tf[y.below(a, b)])
				q(fmt.Sprintf("(instancep (create <c%d>) <c%d>)", a, b), tf[a == b || y.below(a, b)])
			}
			q(fmt.Sprintf("(instancep (create <c%d>) <object>)", a), "value t")
			q(fmt.Sprintf("(instancep (create <c%d>) <integer>)", a), "value nil")
			q(fmt.Sprintf("(instancep %d <c%d>)", a, a), "value nil")
		}
		for _, p := range [][3]string{{"<integer>", "number", "t"}, {"<integer>", "<float>", "nil"}, {"<null>", "<list>", "t"}, {"<null>", "<symbol>", "t"}, {"<integer>", "<object>", "t"}, {"<object>", "<integer>", "nil"}, {"<string>", "<list>", "nil"}} {
			if s.run(p[0]).Kind == "value" && s.run(p[1]).Kind == "value" {
				q("(subclassp "+p[0]+" "+p[1]+")", "value "+p[2])
			}
		}
		// a redefinition is a different class
		k := h.rng.Intn(y.n)
		pre := fmt.Sprintf("(defglobal old (create <c%d>)) (defclass <c%d> () ())", k, k)
		s.run(pre)
		all += " " + pre
		q(fmt.Sprintf("(list (instancep old <c%d>) (instancep (create <c%d>) <c%d>) (instancep old <object>))", k, k, k), "value (nil t t)")
	}
}

func propP20(h *H) {
	h.rule("generic functions with 1 to 4 methods over random classes and built-in classes, with and without a rest parameter, called with 0 to 4 arguments; each method records that it ran")
	bi := []string{"<integer>", "<string>", "<object>", "<list>", "<symbol>", "<float>"}
	accepts := func(y hierarchy, cls string, v string) bool {
		// v is an integer, string, (create <ck>), nil, symbol or list
		if cls == "<object>" {
			return true
		}
		if strings.HasPrefix(v, "(create") {
			var k, c int
			fmt.Sscanf(v, "(create <c%d>)", &k)
			if n, _ := fmt.Sscanf(cls, "<c%d>", &c); n == 1 {
				return c == k || y.below(k, c)
			}
			return false
		}
		switch cls {
		case "<integer>":
			return v[0] >= '0' && v[0] <= '9' && !strings.Contains(v, ".")
		case "<float>":
			return strings.Contains(v, ".")
		case "<string>":
			return v[0] == '"'
		case "<list>":
			return v[0] == '"' || v == "nil" || strings.HasPrefix(v, "(list")
		case "<symbol>":
			return v == "nil" || v == "'s" || v == "t"
		}
		return false
	}
	for !h.done() {
		y := h.classes(1+h.rng.Intn(4), func(int) string { return "" })
		s := newSess()
		log := append([]string{}, y.defs...)
		cls := append([]string{}, bi...)
		for i := 0; i < y.n; i++ {
			cls = append(cls, fmt.Sprintf("<c%d>", i))
		}
		type meth struct {
			types []string
			rest  string
		}
		var ms []meth
		np := h.rng.Intn(3)
		gl := []string{}
		for i := 0; i < np; i++ {
			gl = append(gl, "p")
		}
		rest := h.rng.Intn(3) == 0
		if rest {
			gl = append(gl, "&rest", "r")
		}
		log = append(log, "(defgeneric gf ("+strings.Join(gl, " ")+"))")
		for k := 1 + h.rng.Intn(4); k > 0; k-- {
			m := meth{}
			ps := []string{}
			for i := 0; i < np; i++ {
				c := cls[h.rng.Intn(len(cls))]
				m.types = append(m.types, c)
				ps = append(ps, fmt.Sprintf("(a%d %s)", i, c))
			}
			if rest {
				m.rest = cls[h.rng.Intn(len(cls))]
				ps = append(ps, "&rest", "(r "+m.rest+")")
			}
			body := "(list "
			for i := 0; i < np; i++ {
				body += fmt.Sprintf("a%d ", i)
			}
			if rest {
				body += "r"
			}
			log = append(log, fmt.Sprintf("(defmethod gf (%s) (tr %d) %s))", strings.Join(ps, " "), len(ms)+1000, body))
			ms = append(ms, m)
		}
		for _, l := range log {
			if o := s.run(l); o.Kind != "value" {
				h.fail("definition", strings.Join(log, " "), "value", o.String()+" at "+l, fmt.Sprint(o.Err))
				return
			}
		}
		for k := 0; k < 8; k++ {
			n := h.rng.Intn(5)
			if h.rng.Intn(2) == 0 {
				n = np
			}
			var args, trs []string
			for i := 0; i < n; i++ {
				v := []string{"1", "2.5", "\"s\"", "nil", "'s", "(list 1 2)", fmt.Sprintf("(create <c%d>)", h.rng.Intn(y.n)), fmt.Sprintf("(create <c%d>)", h.rng.Intn(y.n))}[h.rng.Intn(8)]
				args = append(args, v)
				trs = append(trs, fmt.Sprintf("(progn (tr %d) %s)", i, v))
			}
			appl := map[string]bool{}
			for i, m := range ms {
				ok := len(args) == len(m.types) || m.rest != "" && len(args) > len(m.types)
				for j, v := range args {
					c := m.rest
					if j < len(m.types) {
						c = m.types[j]
					}
					ok = ok && c != "" && accepts(y, c, v)
				}
				if ok {
					appl[fmt.Sprint(i+1000)] = true
				}
			}
			code := "(gf " + strings.Join(trs, " ") + ")"
			o := s.run(code)
			h.count(strings.Join(log, " ")+code, len(args) > 0)
			var evs, ran []string
			for i, t := range o.Trace {
				if len(t) == 4 {
					ran = append(ran, t)
				} else if t != fmt.Sprint(i) {
					ran = append(ran, "misordered argument")
				} else {
					evs = append(evs, t)
				}
			}
			bad := ""
			if len(evs) != n {
				bad = "arguments were not evaluated exactly once in order"
			} else if len(appl) == 0 && (o.Kind != "error" || len(ran) > 0) {
				bad = "no method is applicable: an error and no body"
			} else if len(appl) > 0 && (o.Kind != "value" || len(ran) != 1 || !appl[ran[0]]) {
				bad = "exactly one applicable method must run"
			} else if len(appl) > 0 {
				// the parameters hold the arguments
				want := "("
				var ws []string
				for j := 0; j < np; j++ {
					ws = append(ws, s.run(args[j]).Val)
				}
				if rest {
					if n > np {
						var rs []string
						for _, v := range args[np:] {
							rs = append(rs, s.run(v).Val)
						}
						ws = append(ws, "("+strings.Join(rs, " ")+")")
					} else {
						ws = append(ws, "nil")
					}
				}
				want += strings.Join(ws, " ") + ")"
				if want == "()" {
					want = "nil"
				}
				if o.Val != want {
					bad = "the parameters hold " + o.Val + " instead of " + want
				}
			}
			if bad != "" {
				var ap []string
				for a := range appl {
					ap = append(ap, a)
				}
				sort.Strings(ap)
				h.fail("generic function", strings.Join(log, " ")+" "+code, "applicable methods: "+strings.Join(ap, " "), o.String(), bad+" "+fmt.Sprint(o.Err))
				break
			}
		}
	}
}

func propP22(h *H) {
	h.rule("random hierarchies whose classes have up to three slots with initargs, initforms, accessors and boundp; histories of creations, writes, reads and bound tests over four objects against a model")
	// a slot named by several classes: the most specific initial form, and the arguments of all of them
	def := "(defclass <p> () ((s :initform 'p :initarg p :reader s) (u :initform 'pu :reader u))) (defclass <q> (<p>) ((s :initform 'q :initarg q) (v :reader v))) (defclass <r> (<q>) ((s :initarg r) (v :initform 'rv))) (defclass <s> (<r>) ((s :initform 's))) "
	for _, c := range []struct{ form, want string }{{"(s (create <p>))", "p"}, {"(s (create <q>))", "q"}, {"(s (create <r>))", "q"}, {"(s (create <s>))", "s"}, {"(v (create <r>))", "rv"}, {"(v (create <s>))", "rv"}, {"(u (create <s>))", "pu"},
		{"(s (create <q> 'p 1))", "1"}, {"(s (create <q> 'q 1))", "1"}, {"(s (create <s> 'p 1))", "1"}, {"(s (create <s> 'r 1))", "1"}, {"(s (create <s> 'r nil))", "nil"}, {"(s (create <p> 'p nil))", "nil"}} {
		h.expect("inherited slot", def+c.form, "value "+c.want, "*")
	}
	for !h.done() {
		type slot struct {
			name   string
			init   string // "" none
			shared bool
		}
		slots := map[int][]slot{}
		y := h.classes(1+h.rng.Intn(4), func(i int) string {
			var t []string
			for k := h.rng.Intn(4); k > 0; k-- {
				sl := slot{name: fmt.Sprintf("s%d%d", i, k)}
				d := fmt.Sprintf("(%s :accessor a-%s :boundp b-%s :reader r-%s :writer w-%s :initarg %s", sl.name, sl.name, sl.name, sl.name, sl.name, sl.name)
				if h.rng.Intn(2) == 0 {
					sl.init = fmt.Sprint(100*i + k)
					d += " :initform (tr " + sl.init + ")"
				}
				if h.rng.Intn(3) == 0 {
					sl.shared = true
					d += " :initarg sh"
				}
				slots[i] = append(slots[i], sl)
				t = append(t, d+")")
			}
			return strings.Join(t, " ")
		})
		s := newSess()
		log := append([]string{}, y.defs...)
		for i := 0; i < 4; i++ {
			log = append(log, fmt.Sprintf("(defglobal o%d nil)", i))
		}
		if o := s.run(strings.Join(log, " ")); o.Kind != "value" {
			h.fail("defclass", strings.Join(log, " "), "value", o.String(), fmt.Sprint(o.Err))
			return
		}
		slotsOf := func(c int) []slot {
			r := append([]slot{}, slots[c]...)
			for j := 0; j < y.n; j++ {
				if y.below(c, j) {
					r = append(r, slots[j]...)
				}
			}
			return r
		}
		type obj struct {
			class int
			vals  map[string]string
		}
		var objs [4]*obj
		ok := true
		step := func(code, want string) {
			if !ok {
				return
			}
			log = append(log, code)
			o := s.run(code)
			h.count(strings.Join(log, " "), true)
			got := o.Kind
			if o.Kind == "value" {
				got += " " + o.Val
			}
			if want != "any" && got != want || o.Kind == "panic" || o.Kind == "absent" {
				h.fail("slots", strings.Join(log, " "), want, o.String(), fmt.Sprint(o.Err))
				ok = false
			}
		}
		for k := 0; k < 14 && ok; k++ {
			i := h.rng.Intn(4)
			if objs[i] == nil || h.rng.Intn(5) == 0 {
				c := h.rng.Intn(y.n)
				ob := &obj{c, map[string]string{}}
				t := ""
				for _, sl := range slotsOf(c) {
					if h.rng.Intn(3) == 0 {
						v := fmt.Sprint(2000 + h.rng.Intn(100))
						if h.rng.Intn(5) == 0 {
							v = "nil"
						}
						t += " '" + sl.name + " " + v
						ob.vals[sl.name] = v
					} else if sl.init != "" {
						ob.vals[sl.name] = sl.init
					}
				}
				if h.rng.Intn(3) == 0 {
					any := false
					for _, sl := range slotsOf(c) {
						if sl.shared {
							ob.vals[sl.name] = "4000"
							any = true
						}
					}
					if any {
						t += " 'sh 4000"
					}
				}
				objs[i] = ob
				step(fmt.Sprintf("(progn (setq o%d (create <c%d>%s)) 1)", i, c, t), "value 1")
			} else if sls := slotsOf(objs[i].class); len(sls) > 0 {
				sl := sls[h.rng.Intn(len(sls))]
				v := fmt.Sprint(3000 + h.rng.Intn(100))
				f := []string{"set-a-" + sl.name, "w-" + sl.name}[h.rng.Intn(2)]
				step(fmt.Sprintf("(progn (%s %s o%d) 1)", f, v, i), "value 1")
				objs[i].vals[sl.name] = v
			}
			for j, ob := range objs {
				if ob == nil {
					continue
				}
				for _, sl := range slotsOf(ob.class) {
					v, has := ob.vals[sl.name]
					if has {
						step(fmt.Sprintf("(list (%s-%s o%d) (b-%s o%d))", []string{"a", "r"}[h.rng.Intn(2)], sl.name, j, sl.name, j), "value ("+v+" t)")
					} else {
						step(fmt.Sprintf("(b-%s o%d)", sl.name, j), "value nil")
					}
					log = log[:len(log)-1]
				}
			}
		}
	}
}

// ---- several interpreters

func propP28(h *H) {
	h.rule("two interpreters in one process, random sequences of definitions of functions, macros, dynamic variables, classes' methods and library functions in either; each is compared with an interpreter that ran alone")
	ops := []string{
		"(defun f (x) (+ x %d))", "(defun g () (list 'g %d))", "(defmacro m (x) (list '+ x %d))", "(defdynamic *d* %d)", "(defun nth (a b) %d)", "(defun cadr (x) (list 'mine %d))",
		"(defun error (x) (list 'err %d))", "(defun report (x) %d)", "(defgeneric k (x))", "(defmethod k ((x <integer>)) %d)", "(defun first (x) %d)", "(defun caddr (x) %d)", "(defmacro when (x y) %d)",
		"(defun report-condition (c s) %d)", "(defun nthcdr (n x) (list n %d))", "(defun elt (a b) %d)", "(defun car (a) (list %d))", "(defun set-elt (v a b) %d)", "(defun car2 (x) (first x) %d)", "(defun max (a b) %d)",
	}
	qs := []string{"(f 1)", "(g)", "(m 2)", "(dynamic *d*)", "(nth 1 (list 5 6))", "(cadr (list 7 8))", "(k 1)", "(first (list 9))", "(caddr (list 1 2 3))", "(when t 4)", "(max 1 2)", "(min 3 4)", "(second (list 1 2))", "(nthcdr 1 (list 1 2))",
		"(with-handler (lambda (c) (f 1)) (error \"x\"))", "(let ((l (list 1 2 3))) (setf (nth 1 l) 9) l)", "(let ((s 0)) (dolist (i (list 1 2)) (setq s (+ s i))) s)", "(elt (list 1 2) 1)", "(report 1)", "(cddr (list 1 2 3))", "(cdddr (list 1 2 3 4))", "(cadr (list 1 2))", "(cadddr (list 1 2 3 4))", "(caar (list (list 1)))", "(third (list 1 2 3))",
		"(let ((l (list 1 2 3))) (setf (elt l 1) 9) l)", "(let ((l (list 1 2 3))) (setf (cadr l) 9) l)", "(rest (list 1 2))"}
	show := func(o Out) string {
		if o.Kind == "value" {
			return "value " + o.Val
		}
		return o.Kind
	}
	// what another interpreter defined before anything ran here
	first := newSess()
	var lf []string
	for _, op := range []string{"(defun nthcdr (n x) (list 'first n))", "(defun elt (a b) (list 'first b))", "(defun car (a) 'first)", "(defun set-elt (v a b) 'first)"} {
		first.run(op)
		lf = append(lf, op)
	}
	lib := [][2]string{{"(cddr (list 1 2 3))", "(3)"}, {"(cdddr (list 1 2 3 4))", "(4)"}, {"(cadr (list 1 2))", "2"}, {"(cadddr (list 1 2 3 4))", "4"}, {"(caar (list (list 1)))", "1"}, {"(third (list 1 2 3))", "3"},
		{"(second (list 1 2))", "2"}, {"(first (list 5))", "5"}, {"(1+ 4)", "5"}, {"(1- 4)", "3"}, {"(nth 1 (list 5 6))", "6"}, {"(nthcdr 1 (list 5 6))", "(6)"}, {"(max 1 3 2)", "3"}, {"(min 3 1 2)", "1"}, {"(rest (list 1 2))", "(2)"},
		{"(let ((l (list 1 2 3))) (setf (elt l 1) 9) l)", "(1 9 3)"}, {"(let ((s 0)) (dotimes (i 3) (incf s i)) s)", "3"}}
	for _, q := range lib {
		first.run(q[0])
		lf = append(lf, q[0])
	}
	second := newSess()
	for _, q := range lib {
		h.expectIn(second, "the library of another interpreter", q[0], "value "+q[1], "*")
	}
	for !h.done() {
		a, b, lone := newSess(), newSess(), newSess()
		var la, lb []string
		for k := 4 + h.rng.Intn(10); k > 0; k-- {
			if h.rng.Intn(2) == 0 {
				op := fmt.Sprintf(strings.Replace(ops[h.rng.Intn(len(ops))], "%d", "%[1]d", 1), h.rng.Intn(1000))
				op = strings.ReplaceAll(op, "%!(EXTRA int=", "")
				if i := strings.Index(op, "))"); false && i > 0 {
					op = op[:i]
				}
				if j := strings.Index(op, "%!"); j >= 0 {
					op = op[:j]
				}
				if !balanced(op) {
					op = "(defgeneric k (x))"
				}
				if h.rng.Intn(2) == 0 {
					a.run(op)
					lone.run(op)
					la = append(la, op)
				} else {
					b.run(op)
					lb = append(lb, op)
				}
			} else {
				q := qs[h.rng.Intn(len(qs))]
				b.run(q)
				lb = append(lb, q)
				o, w := a.run(q), lone.run(q)
				la = append(la, q)
				code := "first interpreter: " + strings.Join(la, " ") + "  other interpreter: " + strings.Join(lb, " ")
				h.count(code, len(lb) > 1)
				if show(o) != show(w) {
					h.fail("interpreters influence each other", code, show(w), show(o), fmt.Sprint(o.Err))
					break
				}
			}
		}
		// nothing of b is visible to a third, fresh interpreter
		c, d := newSess(), newSess()
		_ = d
		for _, q := range []string{"(f 1)", "(g)", "(dynamic *d*)", "(k 1)", "(m 1)", "(report 1)"} {
			h.count(strings.Join(lb, " ")+q, true)
			if o := c.run(q); o.Kind == "value" {
				h.fail("a definition is visible in another interpreter", "other interpreter: "+strings.Join(append(la, lb...), " ")+"  fresh interpreter: "+q, "error", o.String(), "")
			}
		}
	}
}

func balanced(s string) bool {
	d := 0
	for _, c := range s {
		if c == '(' {
			d++
		} else if c == ')' {
			d--
		}
		if d < 0 {
			return false
		}
	}
	return d == 0
}

// ---- the reader

func propP23(h *H) {
	h.rule("well-formed data cut at every position, and random byte strings over the reader's special characters, read to the end; oracle: an independent scanner of nesting and literals")
	seeds := []string{"(a b (c d) 12)", "#(1 2 3)", "'(a . b)", "\"str\\\"x\"", "`(a ,b ,@c)", "#'car", "#2a((1 2) (3 4))", "|sym bol|", "#\\a", "(1 . (2 . 3))", "#| c |# x", "; c\nx", "((a) #(b) \"c\")", ":key", "&rest", "1.5e3", "#xFF", "'", "`", ",x", "(quote \"a\")"}
	read := func(text string) (Out, []string) {
		s := newSess()
		s.run("(defglobal in (create-string-input-stream " + lispStr(text) + "))")
		var vals []string
		for i := 0; ; i++ {
			o := s.run("(read in nil 'the-end)")
			if o.Kind != "value" || o.Val == "the-end" {
				return o, vals
			}
			if absentIn(o.Node) {
				return Out{Kind: "absent", Val: o.Val}, vals
			}
			vals = append(vals, o.Val)
			if i > len(text)+2 {
				return Out{Kind: "no-progress"}, vals
			}
		}
	}
	// cut texts: an open list, array, string or quotation must be an error
	open := func(t string) (incomplete, skip bool) {
		// independent scanner
		depth, i := 0, 0
		quote := false
		for i < len(t) {
			c := t[i]
			switch {
			case c == ';':
				for i < len(t) && t[i] != '\n' {
					i++
				}
				continue
			case c == '#' && i+1 < len(t) && t[i+1] == '|':
				j := strings.Index(t[i+2:], "|#")
				if j < 0 || strings.Contains(t[i+2:i+2+j], "#") {
					return false, true
				}
				i += j + 4
				continue
			case c == '"':
				i++
				for i < len(t) && t[i] != '"' {
					if t[i] == '\\' {
						i++
					}
					i++
				}
				if i >= len(t) {
					return true, false
				}
				quote = false
				i++
				if i < len(t) && !strings.ContainsRune(" \n\t()", rune(t[i])) {
					return false, true
				}
			case c == '|':
				return false, true
			case c == '(':
				depth++
				quote = false
				i++
			case c == ')':
				if quote {
					return false, true
				}
				depth--
				if depth < 0 {
					return false, true
				}
				i++
			case c == '\'' || c == '`' || c == ',':
				quote = true
				i++
			case c == ' ' || c == '\n' || c == '\t':
				i++
			default:
				quote = false
				if c == '#' && i+1 < len(t) && t[i+1] == '(' {
					i++
					continue
				}
				for i < len(t) && !strings.ContainsRune(" \n\t()", rune(t[i])) {
					if strings.ContainsRune("'`,\";#\\|", rune(t[i])) || t[i] < 32 || t[i] > 126 {
						return false, true
					}
					i++
				}
			}
		}
		return depth > 0 || quote, false
	}
	check := func(t string) {
		h.count(t, len(t) > 1)
		o, _ := read(t)
		if o.Kind != "value" && o.Kind != "error" {
			h.fail("reader", strconv.Quote(t), "objects or an error", o.String(), fmt.Sprint(o.Err))
			return
		}
		if inc, skip := open(t); !skip && inc && o.Kind != "error" {
			h.fail("unterminated text", strconv.Quote(t), "error", "read to the end without an error", "")
		}
	}
	for _, s := range seeds {
		for i := 0; i <= len(s); i++ {
			check(s[:i])
		}
	}
	for _, s := range []string{"#(1 2", "#(", "#2a((1 2) (3", "#2a(", "(1 2 . ", "(a . b", "'(", "#'", "(#(1 2)", "\"abc", "(\"abc", "'"} {
		h.count(s, true)
		if o, _ := read(s); o.Kind != "error" {
			h.fail("unterminated text", strconv.Quote(s), "error", o.String(), "read to the end without an error")
		}
	}
	for _, c := range []struct{ text, want string }{{"(a b . c)", "(a b . c)"}, {"(1 (2 3) ())", "(1 (2 3) nil)"}, {"'x", "(quote x)"}, {"12", "12"}, {"-5", "-5"}, {"\"a\\\\b\"", "\"a\\\\b\""}, {"#xff", "255"}, {"#b101", "5"}, {"#o17", "15"}, {"1.5", "f1.5"}, {"#\\a", "#u97"}, {"(a;c\n b)", "(a b)"}, {"#'f", "(function f)"}, {"`(a ,b)", "(quasiquote (a (unquote b)))"}} {
		h.count(c.text, true)
		if o, vs := read(c.text); o.Kind != "value" || len(vs) != 1 || vs[0] != c.want {
			h.fail("reader value", c.text, c.want, strings.Join(vs, " | ")+" then "+o.String(), "")
		}
	}
	alpha := []string{"(", ")", "'", "`", ",", ",@", "\"", "\\", "#", "#(", "#2a(", "|", "#|", "|#", ";", "\n", " ", ".", " . ", "a", "1", "-", "#\\", "#'", ":", "&", "é", "\xff", "\x00", "#x", "#b", "#U", "1e", "#\\U", "t", "nil", "#99999999999999999999a(", "#0a(", "999999999999999999999"}
	for !h.done() {
		var b strings.Builder
		if h.rng.Intn(4) == 0 {
			s := seeds[h.rng.Intn(len(seeds))]
			i := h.rng.Intn(len(s) + 1)
			b.WriteString(s[:i])
		}
		for n := h.rng.Intn(14); n > 0; n-- {
			b.WriteString(alpha[h.rng.Intn(len(alpha))])
		}
		check(b.String())
	}
}

// absentIn reports whether an absent value can be reached from n through exported or unexported fields.
func absentIn(n g.Node) bool {
	seen := map[uintptr]bool{}
	nodeT := reflect.TypeOf((*g.Node)(nil)).Elem()
	var walk func(v reflect.Value, d int) bool
	walk = func(v reflect.Value, d int) bool {
		if d > 300 || !v.IsValid() {
			return false
		}
		switch v.Kind() {
		case reflect.Interface:
			if v.IsNil() {
				return v.Type() == nodeT
			}
			return walk(v.Elem(), d+1)
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return false
			}
			seen[v.Pointer()] = true
			tn := v.Type().Elem().Name()
			if tn == "Cons" || tn == "Array" {
				e := v.Elem()
				for i := 0; i < e.NumField(); i++ {
					f := e.Field(i)
					if f.CanAddr() {
						f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
					}
					if f.Kind() == reflect.Slice && f.Type().Elem() == nodeT {
						for k := 0; k < f.Len(); k++ {
							if walk(f.Index(k), d+1) {
								return true
							}
						}
					} else if walk(f, d+1) {
						return true
					}
				}
			}
		case reflect.Map:
			if v.Type().Elem() == nodeT && v.Type().Key() == nodeT {
				if seen[v.Pointer()] {
					return false
				}
				seen[v.Pointer()] = true
				for _, k := range v.MapKeys() {
					if walk(v.MapIndex(k), d+1) {
						return true
					}
				}
			}
		}
		return false
	}
	if n == nil {
		return true
	}
	return walk(reflect.ValueOf(&n).Elem(), 0)
}

// ---- every built-in with every kind of argument

var fuzzPool = []string{"0", "1", "-1", "2", "3", "7", "1.5", "-0.25", "9223372036854775807", "-9223372036854775808", "100000", "nil", "t", "'a", "'nil", "\"\"", "\"ab\"", "\"aé日\"", "\"~a~5d~v\"", "\"f.txt\"",
	"#\\a", "#\\é", "(list)", "(list 1)", "(list 1 2 3)", "(list 'a \"b\" 3)", "(cons 1 2)", "(cons 1 (cons 2 3))", "(list (cons 1 2) (cons 3 4))", "(list (list 1 2) 3 nil)", "(vector)", "(vector 1 2 3)", "(create-array '(2 3) 0)", "(create-array nil 5)", "(create-array '(1) 0)",
	"(make-hash-table)", "#'car", "#'+", "(lambda () 1)", "(lambda (x) x)", "(lambda (x y) (list x y))", "(lambda (&rest r) r)", "#'gf", "#'bad", "<integer>", "<object>", "<string>", "<list>", "<ca>", "<cb>", "(create <ca>)", "(create <cb> 'x 1)", "(class <integer>)",
	"(create-string-input-stream \"(a b) 12\")", "(create-string-input-stream \"\")", "(create-string-output-stream)", "(standard-output)", "(standard-input)", "(gensym)", ":k", "'&rest", "an-error", "(convert 955 <character>)", "'(lambda (x) x)", "'(quote a)", "12345678901234567890123", "(quote #2a((1 2)(3 4)))", "a-hash", "'car", "'unknown", "'(a . b)"}

var formPool = []string{"()", "x", "1", "\"s\"", "(x 1)", "((x 1))", "((x 1) (y 2))", "((x))", "(x)", "(x . 1)", "((f (a) a))", "(f (a) a)", "((f))", "(a b)", "((a b))", "(a &rest b)", "(&rest)", "(&rest a b)", "(:rest a)", "(1 2)", "((1 2) 3)", "t", "nil", "'a", "(t 1)", "(nil 1)", "((1 2) 3)", "(lambda (x) x)", "(lambda)", "(lambda x)", "(lambda (x . y) x)", "(lambda (1) x)", "gf", "(x <integer>)", "((x <integer>))", "((x 5))", "((x <integer>) &rest (r <list>))", "(<ca>)", "((s :initarg s :accessor acc))", "((s :initform))", "((s :foo 1))", "(s)", "(car x)", "(list 1 2)", "(1 . 2)", "(quote (1 2))", "(progn)", "(+ 1 2)", "(bad 3)", "(go x)", "(return-from x 1)", "(throw 'a 1)", "(quit)", ",x", "`(a ,x)", "`(,@x)", ":k", "#'car", "#'(lambda (x) x)", "1.5", "(dynamic x)", "(function car)", "(unquote 1 2)", "((a . b) . c)", "((x 1 2))", "(((x)) 1)", "(*d* 1)", "((*d* 1))", "(s \"f.txt\")", "(1 \"f.txt\")", "(create-string-input-stream \"(a) b\")", "(lambda (c) (continue-condition c 1))", "an-error"}

var fuzzSetup = `(defgeneric gf (x)) (defmethod gf ((x <integer>)) (list x)) (defclass <ca> () ((x :initarg x :accessor ca-x :initform 4))) (defclass <cb> (<ca>) ((y :initarg y :boundp cb-y :reader cb-r))) (defclass <cc> () ((z :initarg z :accessor cc-z :reader cc-r :writer cc-w))) (defglobal an-error (catch 'k (with-handler (lambda (c) (throw 'k c)) (car 1)))) (defdynamic *d* 1) (defglobal x 1) (defglobal a-hash (make-hash-table)) (set-gethash 1 2 a-hash) (defmacro mm (a &rest b) (cons 'list b))`

var builtinNames, specialNames []string

// findBuiltins reads the registration table from the source the harness was compiled with.
func findBuiltins() {
	if builtinNames != nil {
		return
	}
	_, file, _, _ := runtime.Caller(0)
	_ = file
	dirs := []string{os.Getenv("GOVC_REPO"), "/repo"}
	for _, d := range dirs {
		if d == "" {
			continue
		}
		fs, _ := filepath.Glob(filepath.Join(d, "*.go"))
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			for _, l := range strings.Split(string(b), "\n") {
				l = strings.TrimSpace(l)
				if !strings.HasPrefix(l, "NewSymbol(\"") || !strings.Contains(l, "):") {
					continue
				}
				n := l[len("NewSymbol(\""):]
				n = n[:strings.IndexByte(n, '"')]
				rest := l[strings.Index(l, "):")+2:]
				if strings.Contains(rest, "SpecialF(") {
					specialNames = append(specialNames, n)
				} else if strings.Contains(rest, "Function") {
					builtinNames = append(builtinNames, n)
				}
			}
		}
		if builtinNames != nil {
			break
		}
	}
	for _, n := range []string{"1+", "1-", "cadr", "cddr", "caddr", "nth", "nthcdr", "max", "min", "first", "second", "third", "set-nth", "set-elt"} {
		builtinNames = append(builtinNames, n)
	}
	for _, n := range []string{"setf", "when", "unless", "dolist", "dotimes", "incf", "decf", "for", "prog1", "case-using", "mm"} {
		specialNames = append(specialNames, n)
	}
	sort.Strings(builtinNames)
	sort.Strings(specialNames)
}

func skipName(n string) bool {
	switch n {
	case "gmn:dump-session", "load":
		return true
	}
	return false
}

func (h *H) crash(absent bool) {
	findBuiltins()
	s := newSess()
	reset := func() {
		s = newSess()
		if o := s.run(fuzzSetup); o.Kind != "value" {
			h.fail("set-up", fuzzSetup, "value", o.String(), fmt.Sprint(o.Err))
		}
	}
	reset()
	nrun := 0
	try := func(code string) {
		h.count(code, true)
		nrun++
		if nrun%400 == 0 {
			reset()
		}
		c := newCtx()
		tm := time.AfterFunc(400*time.Millisecond, c.cancel)
		o := s.runWith(c.ctx, code)
		tm.Stop()
		c.cancel()
		switch {
		case o.Kind == "panic":
			h.fail("crash", "after "+fuzzSetup+": "+code, "a value or an error", o.String(), "")
			reset()
		case o.Kind == "hang":
			h.fail("hang", code, "a value or an error", o.String(), "")
			reset()
		case strings.HasPrefix(code, "(def"): // a definition may be recursive: calling it later would exhaust the stack
			reset()
		case absent && o.Kind == "absent":
			h.fail("absent result", "after "+fuzzSetup+": "+code, "a Lisp value", o.String(), "")
		case absent && o.Kind == "value" && absentIn(o.Node):
			h.fail("absent value inside the result", "after "+fuzzSetup+": "+code, "a Lisp value", o.String(), "")
		}
	}
	big := func(a []string, name string) bool {
		// sizes that only exhaust memory
		if name == "create-list" || name == "create-string" || name == "create-array" || name == "format" {
			for _, x := range a {
				if len(x) > 5 && x[0] >= '0' && x[0] <= '9' {
					return true
				}
			}
		}
		return false
	}
	call := func(n string, k int) {
		var a []string
		for i := 0; i < k; i++ {
			a = append(a, fuzzPool[h.rng.Intn(len(fuzzPool))])
		}
		if big(a, n) {
			return
		}
		try("(" + n + " " + strings.Join(a, " ") + ")")
	}
	// subscripts of every kind, one by one and together
	subs := []string{"0", "1", "2", "-1", "-2", "3", "7", "9223372036854775807", "-9223372036854775808", "1.0", "'a", "nil"}
	for rank, dims := range []string{"()", "(2)", "(2 3)", "(2 2 3)"} {
		a := "(create-array '" + dims + " 0)"
		var rec func(k int, t string)
		rec = func(k int, t string) {
			for _, f := range []string{"(aref " + a, "(set-aref 1 " + a, "(elt " + a, "(set-elt 1 " + a, "(garef " + a, "(set-aref (create-array '(2) 5) " + a} {
				try(f + t + ")")
			}
			if k > rank {
				return
			}
			for _, x := range subs {
				if k < 2 || x == "-1" || x == "0" || x == "2" || x == "3" {
					rec(k+1, t+" "+x)
				}
			}
		}
		rec(0, "")
	}
	// slots without a value
	for _, o := range []string{"(create <ca>)", "(create <cb>)", "(create <cb> 'y nil)", "(create <cc>)", "(create <cc> 'z 1)"} {
		for _, f := range []string{"ca-x", "cb-y", "cb-r", "cc-z", "cc-r"} {
			try("(" + f + " " + o + ")")
			try("(list (" + f + " " + o + "))")
			try("(let ((o " + o + ")) (cc-w nil o) (list (" + f + " o)))")
		}
	}
	for _, n := range builtinNames {
		if skipName(n) {
			continue
		}
		try("(" + n + ")")
		for _, v := range fuzzPool {
			if !big([]string{v}, n) {
				try("(" + n + " " + v + ")")
			}
		}
	}
	for _, n := range specialNames {
		if skipName(n) {
			continue
		}
		for _, v := range formPool {
			try("(" + n + " " + v + ")")
			try("(" + n + " " + v + " " + formPool[h.rng.Intn(len(formPool))] + ")")
			try("(" + n + " . " + v + ")")
		}
		try("(" + n + ")")
	}
	// two arguments: every pair of kinds for the binary built-ins, as far as time allows, then random calls
	for i := 0; !h.done(); i++ {
		if i%3 < 2 {
			n := builtinNames[h.rng.Intn(len(builtinNames))]
			if !skipName(n) {
				k := 2
				if h.rng.Intn(2) == 0 {
					k = h.rng.Intn(5)
				}
				call(n, k)
			}
			continue
		}
		n := specialNames[h.rng.Intn(len(specialNames))]
		if n == "while" || n == "for" || skipName(n) {
			continue
		}
		var a []string
		for k := h.rng.Intn(5); k > 0; k-- {
			f := formPool[h.rng.Intn(len(formPool))]
			if h.rng.Intn(4) == 0 {
				f = fuzzPool[h.rng.Intn(len(fuzzPool))]
				if f[0] == '<' { // global variables are shared by all interpreters: the classes keep their names
					continue
				}
			}
			a = append(a, f)
		}
		try("(" + n + " " + strings.Join(a, " ") + ")")
	}
}

func propP09(h *H) {
	h.rule("every registered function with no argument and one argument of every kind, every special form with malformed operands, then random calls; a case is one call")
	h.crash(false)
}

func propP10(h *H) {
	h.rule("the calls of the crash search; the result is searched for absent values through list cells, arrays and tables")
	for _, c := range []string{"(cdr (cons 1 nil))", "(car (cons nil 1))", "(last nil)", "(list nil)", "(append)", "(append nil nil)", "(reverse nil)", "(mapcar #'car nil)", "(mapcan #'list nil)", "(gethash 1 (make-hash-table))", "(array-dimensions (create-array nil 1))", "(convert \"\" <list>)", "(convert (vector) <list>)", "(subseq nil 0 0)", "(assoc 1 nil)", "(member 1 nil)", "(create-list 0 1)", "(progn)", "(let ())", "(cond)", "(block x)", "(tagbody)", "((lambda ()))", "(elt nil 0)", "(elt (list 1) 5)", "(if nil 1)", "(while nil)", "(catch 'a)", "(case 1)", "(flet ())", "(labels ())", "(let* ())", "(dynamic-let ())", "(funcall (lambda ()))", "(ignore-errors (car 1))", "(mapl #'car nil)", "(quote)", "(nreverse nil)"} {
		o := newSess().run(c)
		h.count(c, true)
		if o.Kind == "absent" || o.Kind == "panic" || o.Kind == "value" && absentIn(o.Node) {
			h.fail("absent result", c, "a Lisp value", o.String(), fmt.Sprint(o.Err))
		}
	}
	h.crash(true)
}

func init() {
	for n, f := range map[string]propFunc{"P09": propP09, "P10": propP10, "P20": propP20, "P21": propP21, "P22": propP22, "P23": propP23, "P28": propP28} {
		props[n] = f
	}
}
