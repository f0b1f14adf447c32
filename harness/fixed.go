package main

// Cases with a fixed shape: the outcome is computed from the definition directly.

import (
	"context"
	"fmt"
	"strings"
	"time"
)

type ctxPair struct {
	ctx    context.Context
	cancel context.CancelFunc
}

func newCtx() ctxPair {
	c, f := context.WithCancel(context.Background())
	return ctxPair{c, f}
}

// expect evaluates code in a fresh interpreter. want is "value X", "error" (any failure), "probe N" or "any"; trace is the
// expected trace, "*" for any.
func (h *H) expect(id, code, want, trace string) Out {
	return h.expectIn(newSess(), id, code, want, trace)
}

func (h *H) expectIn(s *Sess, id, code, want, trace string) Out {
	h.count(code, true)
	o := s.run(code)
	got := o.Kind
	if o.Kind == "value" || o.Kind == "probe" {
		got += " " + o.Val
	}
	ok := got == want
	if want == "error" && (o.Kind == "error" || o.Kind == "probe") {
		ok = true
	}
	if want == "any" && (o.Kind == "error" || o.Kind == "probe" || o.Kind == "value") {
		ok = true
	}
	if strings.HasPrefix(want, "value-or-error ") && (o.Kind == "error" || got == "value "+strings.TrimPrefix(want, "value-or-error ")) {
		ok = true
	}
	if ok && trace != "*" && strings.Join(o.Trace, " ") != trace {
		ok = false
		want += " trace[" + trace + "]"
	}
	if !ok {
		h.fail(id, code, want, o.String(), fmt.Sprint("error: ", o.Err))
	}
	return o
}

func nums(n int) string {
	var xs []string
	for i := 1; i <= n; i++ {
		xs = append(xs, fmt.Sprint(i))
	}
	return strings.Join(xs, " ")
}

func (h *H) arity() {
	type fn struct {
		name, call, list string
		min, max         int
		mark             string
	}
	fns := []fn{
		{"probe0", "(probe0", "", 0, 0, "probe0"},
		{"probe1", "(probe1", "", 1, 1, "probe1(%s)"},
		{"probe2", "(probe2", "", 2, 2, "probe2(%s)"},
		{"probe3", "(probe3", "", 3, 3, "probe3(%s)"},
		{"probe13", "(probe13", "", 1, 3, "probe13(%s)"},
		{"probes", "(probes", "", 0, 1000, "probes(%s)"},
	}
	for n := 0; n <= 3; n++ {
		ps := []string{"", "a", "a b", "a b c"}[n]
		for _, rest := range []bool{false, true} {
			pl, body, mx := ps, "(list "+ps+")", n
			if rest {
				pl, body, mx = ps+" &rest r", "(cons 'r (append (list "+ps+") r))", 1000
			}
			mark := "(%s)"
			if rest {
				mark = "(r %s)"
			}
			lam := "(lambda (" + pl + ") (tr " + body + "))"
			fns = append(fns, fn{"lambda", "(funcall " + lam, "", n, mx, mark})
			fns = append(fns, fn{"flet", "(flet ((f (" + pl + ") (tr " + body + "))) (f", ")", n, mx, mark})
			fns = append(fns, fn{"labels", "(labels ((f (" + pl + ") (tr " + body + "))) (f", ")", n, mx, mark})
			fns = append(fns, fn{"defun", "(progn (defun f (" + pl + ") (tr " + body + ")) (f", ")", n, mx, mark})
		}
	}
	call := func(f fn, args []string) string { return f.call + " " + strings.Join(args, " ") + ")" + f.list }
	for _, f := range fns {
		for n := 0; n <= 6; n++ {
			var args []string
			for i := 1; i <= n; i++ {
				args = append(args, fmt.Sprintf("(tr %d)", i))
			}
			code := call(f, args)
			id := "arity " + f.name + fmt.Sprintf(" %d..%d with %d", f.min, f.max, n)
			if n >= f.min && n <= f.max {
				m := f.mark
				if strings.Contains(m, "%s") {
					m = fmt.Sprintf(m, nums(n))
				}
				m = strings.ReplaceAll(m, "(r )", "(r)")
				if m == "()" {
					m = "nil"
				}
				tr := strings.TrimSpace(nums(n) + " " + m)
				o := newSess().run(code)
				h.count(code, true)
				if o.Kind != "value" || strings.Join(o.Trace, " ") != tr {
					h.fail(id, code, "value with trace ["+tr+"]", o.String(), fmt.Sprint(o.Err))
				}
			} else {
				o := newSess().run(code)
				h.count(code, true)
				bad := o.Kind != "error"
				for i, t := range o.Trace {
					bad = bad || t != fmt.Sprint(i+1)
				}
				if bad {
					h.fail(id, code, "an error, the body does not run", o.String(), fmt.Sprint(o.Err))
				}
			}
			// a failing argument at every position
			for k := 0; k < n && n >= f.min && n <= f.max; k++ {
				a2 := append([]string(nil), args...)
				a2[k] = fmt.Sprintf("(bad %d)", 70+k)
				code := call(f, a2)
				tr := strings.TrimSpace(nums(k))
				h.expect(id+" failing", code, fmt.Sprintf("probe %d", 70+k), tr)
			}
		}
	}
	// argument values arrive unevaluated a second time
	for _, v := range []string{"x", "(tr 1)", "(bad 1)", "\"s\"", "(1 2)", "nil"} {
		want := map[string]string{"\"s\"": "\"s\"", "nil": "nil"}[v]
		if want == "" {
			want = v
		}
		for _, c := range []string{"(probe1 '%s)", "(funcall (lambda (a) a) '%s)", "(funcall #'probe1 '%s)", "(apply #'probe1 (list '%s))", "(apply (lambda (a) a) (list '%s))", "(car (mapcar #'probe1 (list '%s)))", "(car (mapcar (lambda (a) a) (list '%s)))"} {
			code := fmt.Sprintf(c, v)
			o := newSess().run(code)
			h.count(code, true)
			if o.Kind != "value" || o.Val != want {
				h.fail("quoted argument", code, "value "+want, o.String(), fmt.Sprint(o.Err))
			}
		}
	}
	for n := 0; n <= 4; n++ {
		var as []string
		for i := 1; i <= n; i++ {
			as = append(as, fmt.Sprintf("(tr %d)", i))
		}
		for cut := 0; cut <= n; cut++ {
			code := "(apply #'list " + strings.Join(as[:cut], " ") + " (list " + strings.Join(as[cut:], " ") + "))"
			w := "(" + nums(n) + ")"
			if n == 0 {
				w = "nil"
			}
			h.expect("apply order", code, "value "+w, strings.TrimSpace(nums(n)))
		}
	}
}

func (h *H) scopes() {
	c := func(code, want string) { h.expect("scope", code, want, "*") }
	c("(progn (defun sc-f () sc-x) (let ((sc-x 1)) (sc-f)))", "error")
	c("(progn (defun sc-f () (setq sc-x 2)) (let ((sc-x 1)) (sc-f)))", "error")
	c("(let ((x 1)) (let ((f (lambda () x))) (let ((x 2)) (funcall f))))", "value 1")
	c("(let ((y 1)) (let* ((f (lambda () y)) (y 2)) (list y (funcall f))))", "value (2 1)")
	c("(let* ((x 1) (f (lambda () x)) (x 2)) (list x (funcall f)))", "value (2 1)")
	c("(let ((x 1)) (let ((x 2) (y x)) (list x y)))", "value (2 1)")
	c("(let ((x 1)) (let* ((x 2) (y x)) (list x y)))", "value (2 2)")
	c("(let ((x 1)) (list (let ((x 5)) (setq x 6) x) x))", "value (6 1)")
	c("(let ((x 1)) (let ((y 5)) (setq x 6)) x)", "value 6")
	c("(let ((x 1)) (let ((f (lambda (x) (setq x 9) x))) (list (funcall f 3) x)))", "value (9 1)")
	c("(let ((mk (lambda (n) (lambda () (setq n (+ n 1)) n)))) (let ((a (funcall mk 10)) (b (funcall mk 20))) (list (funcall a) (funcall a) (funcall b) (funcall a))))", "value (11 12 21 13)")
	c("(setq sc-undefined-variable 1)", "error")
	c("sc-undefined-variable", "error")
	c("(progn (let ((sc-y 1)) sc-y) sc-y)", "error")
	c("(flet ((f () 1)) (let ((g (lambda () (f)))) (flet ((f () 2)) (list (f) (funcall g)))))", "value (2 1)")
	c("(flet ((f () 1)) (flet ((f () (+ 10 (f)))) (f)))", "value 11")
	c("(labels ((ev (n) (if (= n 0) t (od (- n 1)))) (od (n) (if (= n 0) nil (ev (- n 1))))) (list (ev 10) (ev 7)))", "value (t nil)")
	c("(progn (defgeneric sc-g (a)) (defmethod sc-g ((a <object>)) sc-z) (let ((sc-z 1)) (sc-g 1)))", "error")
	c("(let ((z 7)) (defgeneric sc-g2 (a)) (defmethod sc-g2 ((a <object>)) (list a z)) (let ((z 1)) (sc-g2 1)))", "value (1 7)")
	for n := 0; n < 30; n++ {
		// a chain of n scopes, assignment to one of them
		k := h.rng.Intn(n + 1)
		code := fmt.Sprintf("(setq v%d 'new)", k)
		var vs []string
		for i := 0; i <= n; i++ {
			vs = append(vs, fmt.Sprintf("v%d", i))
		}
		code = "(progn " + code + " (list " + strings.Join(vs, " ") + "))"
		for i := n; i >= 0; i-- {
			code = fmt.Sprintf("(let ((v%d %d)) %s)", i, i, code)
		}
		var ws []string
		for i := 0; i <= n; i++ {
			if i == k {
				ws = append(ws, "new")
			} else {
				ws = append(ws, fmt.Sprint(i))
			}
		}
		h.expect("scope chain", code, "value ("+strings.Join(ws, " ")+")", "*")
	}
}

func (h *H) tags() {
	vals := []string{"'a", "'b", "1", "2", "#\\a", "\"s\"", "1.5", "nil", "t", "'(1)", "(list 1)", "(create-array '(2) 0)", "(make-hash-table)", "#'car", "(lambda (x) x)"}
	for i, a := range vals {
		for j, b := range vals {
			// distinct tags never match; equal ones match when they are eq
			code := fmt.Sprintf("(catch %s (tr 1) (list 'inner (catch %s (tr 2) (throw %s (tr 3)) (tr 4))))", a, b, a)
			if i == j {
				continue
			}
			h.expect("catch tags", code, "value-or-error 3", "*")
		}
		code := fmt.Sprintf("(let ((tag %s)) (list (catch tag (tr 1) (throw tag (tr 2)) (tr 3)) (tr 4)))", a)
		want := "value (2 4)"
		if i >= 11 {
			want = "value-or-error (2 4)"
		}
		h.expect("catch same tag", code, want, "*")
		h.expect("throw without catch", "(throw "+a+" 1)", "error", "")
		h.expect("catch passes errors", "(catch "+a+" (bad 5))", map[bool]string{true: "probe 5", false: "error"}[i < 11], "*")
		h.expect("catch passes values", "(catch 'q "+a+")", h.valueOf(a), "*")
		h.expect("block passes values", "(block q "+a+")", h.valueOf(a), "*")
		h.expect("return-from value", "(block q (tr 1) (return-from q "+a+") (tr 2))", h.valueOf(a), "1")
	}
	h.expect("ordinary values of transfer look", "(block b (list 'return-from 'b 1))", "value (return-from b 1)", "")
	h.expect("return in a function", "(progn (defun tg-f () (return-from tg-b 1)) (tg-f))", "error", "")
	h.expect("through mapcar", "(block b (mapcar (lambda (x) (tr x) (if (= x 2) (return-from b 'out))) '(1 2 3)))", "value out", "1 2")
}

func (h *H) valueOf(code string) string {
	o := newSess().run(code)
	if o.Kind == "value" {
		return "value " + o.Val
	}
	return "error"
}

func (h *H) restoreInput() {
	// with-standard-input around every way of leaving
	leave := []struct{ code, want string }{
		{"(read-line)", "in"}, {"(bad 1)", ""}, {"(error \"x\")", ""}, {"(return-from out 1)", "exit"}, {"(throw 'c 1)", "exit"},
	}
	for _, l := range leave {
		for _, wrap := range []string{"%s", "(let ((a 1)) %s)", "(dynamic-let ((*q* 1)) %s)", "(unwind-protect %s (read-line))"} {
			code := fmt.Sprintf(`(let ((s (create-string-input-stream "outer1\nouter2\nouter3\nouter4\n")))
  (with-standard-input s
    (let ((a (read-line)))
      (ignore-errors (block out (catch 'c (with-standard-input (create-string-input-stream "in\nin2\n") %s))))
      (list a (read-line)))))`, fmt.Sprintf(wrap, l.code))
			code = strings.ReplaceAll(code, "\\n", "\n")
			h.expect("standard input restored", code, `value ("outer1" "outer2")`, "*")
		}
	}
	for _, l := range leave[1:] {
		for _, n := range []int{1, 2, 3} {
			bs := strings.Repeat("(*q* 2) ", n)
			code := fmt.Sprintf("(progn (defdynamic *q* 1) (ignore-errors (block out (catch 'c (dynamic-let (%s(*r* 5)) (tr (dynamic *q*)) %s)))) (list (dynamic *q*) (ignore-errors (dynamic *r*))))", bs, l.code)
			h.expect("dynamic variables restored", code, "value (1 nil)", "2")
		}
		code := "(block done (with-handler (lambda (c) (tr 'outer) (return-from done 'outer)) (ignore-errors (block out (catch 'c (with-handler (lambda (c) (tr 'inner) (return-from out 2)) " + l.code + ")))) (error \"again\")))"
		o := h.expect("handler restored", code, "value outer", "*")
		if n := len(o.Trace); n > 0 && o.Trace[n-1] != "outer" {
			h.fail("handler restored", code, "the outer handler is called last", o.String(), "")
		}
	}
	h.expect("handler gone", "(progn (catch 'c (with-handler (lambda (c) (tr 'h) (throw 'c 1)) (error \"x\"))) (error \"y\"))", "error", "h")
	h.expect("handler gone", "(progn (with-handler (lambda (c) (tr 'h) (throw 'c 1)) 1) (error \"y\"))", "error", "")
	h.expect("handler failing expression", "(progn (ignore-errors (with-handler 5 (tr 1))) (error \"y\"))", "error", "")
}

func (h *H) conditions() {
	conds := []struct {
		code        string
		continuable bool
	}{
		{"(signal-condition (create (class <simple-error>) 'format-string \"f\" 'format-arguments nil) nil)", false},
		{"(signal-condition (create (class <simple-error>) 'format-string \"f\" 'format-arguments nil) t)", true},
		{"(signal-condition 'any nil)", false}, {"(signal-condition 'any t)", true}, {"(signal-condition 5 5)", true},
		{"(error \"boom ~a\" 1)", false}, {"(cerror \"go on\" \"boom\")", true},
	}
	more := []string{"(bad 1)", "(car 5)", "undefined-variable-x", "(undefined-function-x)", "(/ 1 0)", "(return-from nowhere 1)", "(throw 'nowhere 1)", "(go nowhere)", "(car)", "(car 1 2)", "((lambda (x) x))", "(funcall (lambda (x) x))", "(elt '(1) 'a)", "(aref (create-array '(2) 0) 9)", "(setq undefined-variable-y 2)", "(convert \"q\" <integer>)", "(parse-number \"zz\")", "(open-input-file \"/nonexistent/file\")"}
	wraps := []string{"%s", "(let ((a 1)) %s)", "(if t %s)", "(list 1 %s)", "(funcall (lambda () %s))", "(block b %s)", "(catch 'k %s)", "(unwind-protect %s (tr 'u))", "(dynamic-let ((*z* 1)) %s)", "(mapcar (lambda (x) %s) '(1))", "(tagbody %s)", "(while t %s)"}
	for _, c := range conds {
		h.expect("no handler", c.code, "error", "")
		for wi, w := range wraps {
			code := fmt.Sprintf(w, c.code)
			h.expect("no handler", code, "error", "*")
			h.expect("handler returns", "(with-handler (lambda (c) (tr 'h) 1) "+code+")", "error", "*")
			o := h.expect("handler fails", "(with-handler (lambda (c) (tr 'h) (bad 3)) "+code+")", "error", "*")
			if wi != 7 && (len(o.Trace) == 0 || !(o.Trace[0] == "h")) {
				h.fail("handler called", code, "the handler is called first", o.String(), "")
			}
			h.expect("handler exits", "(block out (list 'no (with-handler (lambda (c) (tr 'h) (return-from out 'left)) "+code+")))", "value left", map[bool]string{true: "h u", false: "h"}[wi == 7])
			h.expect("handler throws", "(catch 'out (list 'no (with-handler (lambda (c) (tr 'h) (throw 'out 'left)) "+code+")))", "value left", map[bool]string{true: "h u", false: "h"}[wi == 7])
			if wi < 10 {
				ct := "(with-handler (lambda (c) (tr 'h) (continue-condition c 'cont)) " + code + ")"
				if c.continuable {
					o := h.expect("continue", ct, "any", "*")
					if o.Kind != "value" || !strings.Contains(o.Val, "cont") || o.Trace[0] != "h" {
						h.fail("continue", ct, "a value with cont", o.String(), fmt.Sprint(o.Err))
					}
				} else {
					h.expect("continue a condition that is not continuable", ct, "error", "*")
				}
			}
		}
		// the handler receives the condition itself
		if strings.HasPrefix(c.code, "(signal-condition 'any") {
			h.expect("condition passed", "(block out (with-handler (lambda (c) (return-from out (list 'got c))) "+c.code+"))", "value (got any)", "")
		}
		if strings.HasPrefix(c.code, "(signal-condition 5") {
			h.expect("condition passed", "(block out (with-handler (lambda (c) (return-from out (list 'got c))) "+c.code+"))", "value (got 5)", "")
		}
		h.expect("inner handler first", "(block out (with-handler (lambda (c) (tr 'outer) (return-from out 1)) (block in (with-handler (lambda (c) (tr 'inner) (return-from in 2)) "+c.code+"))))", "value 2", "inner")
	}
	for _, m := range more {
		h.expect("no handler", m, "error", "")
		if m == "(/ 1 0)" || strings.HasPrefix(m, "(car") || strings.HasPrefix(m, "(elt") {
			// a domain error may be continued with a value of the right class by the handler
		}
		for _, w := range wraps[:8] {
			code := fmt.Sprintf(w, m)
			h.expect("error with a handler that returns", "(with-handler (lambda (c) (tr 'h) 1) "+code+")", "error", "*")
			o := h.expect("error and handler exit", "(block out (list 'no (with-handler (lambda (c) (tr 'h) (return-from out 'left)) "+code+")))", "value left", "*")
			n := 0
			for _, t := range o.Trace {
				if t == "h" {
					n++
				}
			}
			if n != 1 {
				h.fail("error and handler exit", code, "the handler is called once", o.String(), "")
			}
		}
	}
	// errors that nothing can continue
	for _, m := range []string{"(return-from nowhere 1)", "(throw 'nowhere 1)", "(go nowhere)", "((lambda (x) x))", "((lambda (x) x) 1 2)", "(funcall (lambda (x) x))", "(create-array '(0) 1)", "(create-array '(-1) 0)", "(create-array '(4611686018427387904 4) 1)", "(aref (create-array '(2) 0) 9)"} {
		for _, v := range []string{"'cont", "1", "nil", "\"s\"", "#'car", "(list 1)"} {
			h.expect("an error that is not continuable", "(with-handler (lambda (c) (tr 'h) (continue-condition c "+v+")) "+m+")", "error", "*")
		}
	}
	for _, v := range []string{"1", "nil", "'(error)", "\"x\"", "(create (class <simple-error>) 'format-string \"f\" 'format-arguments nil)"} {
		h.expect("values pass", "(list 'v (progn (with-handler (lambda (c) (tr 'h) 2) "+v+") 3))", "value (v 3)", "")
	}
	for _, x := range []string{"(return-from out 4)", "(throw 'out 4)"} {
		h.expect("exits pass", "(block out (catch 'out (with-handler (lambda (c) (tr 'h) 2) (tr 1) "+x+" (tr 2))))", "value 4", "1")
	}
	h.expect("go passes", "(let ((n 0)) (tagbody (with-handler (lambda (c) (tr 'h) 2) (go skip)) (tr 1) skip (tr 2)))", "value nil", "2")
}

func (h *H) quotes() {
	vals := []string{"a", "1", "1.5", "\"s\"", "#\\a", "nil", "t", "(a b)", "(tr 1)", "(a . b)", "(quote x)", "(1 (2 (3)))", "#(1 2)"}
	for _, v := range vals {
		w := newSess().run("(car (list '" + v + "))")
		h.expect("quote", "(quote "+v+")", w.Kind+" "+w.Val, "")
		if v != "(quote x)" && v != "#(1 2)" {
			h.expect("quasiquote constant", "`"+v, w.Kind+" "+w.Val, "")
		}
	}
	h.expect("quote identity", "(let ((x '(1 2))) (eq x x))", "value t", "")
	h.expect("quote returns the object", "(let ((f (lambda () '(1 2)))) (eq (funcall f) (funcall f)))", "value t", "")
	h.expect("quote arity", "(quote)", "error", "")
	h.expect("unquote order", "`(,(tr 1) (x ,(tr 2) (y ,(tr 'z))) . ,(tr 3))", "value (1 (x 2 (y z)) . 3)", "1 2 z 3")
	h.expect("unquote fails", "`(,(tr 1) ,(bad 2) ,(tr 3))", "probe 2", "1")
	h.expect("macro unevaluated arguments", "(progn (defmacro qm (a &rest b) (tr 'expand) (list 'quote (cons a b))) (qm (tr 1) (tr 2) x))", "value ((tr 1) (tr 2) x)", "*")
	h.expect("macro expansion in the caller's scope", "(progn (defmacro qn (v) (list 'setq v 9)) (let ((k 1)) (qn k) k))", "value 9", "")
	h.expect("macro evaluates the expansion once", "(progn (defmacro qo (a) `(list ,a ,a)) (qo (tr 1)))", "value (1 1)", "1 1")
	h.expect("macro in a function", "(progn (defmacro qp (a) `(list 'm ,a)) (defun qpf (x) (qp (tr x))) (list (qpf 1) (qpf 2)))", "value ((m 1) (m 2))", "1 2")
	h.expect("macro failing body", "(progn (defmacro qq (a) (bad 4)) (qq (tr 1)))", "probe 4", "")
	h.expect("macro too few arguments", "(progn (defmacro qr (a b) 1) (qr 1))", "error", "")
	h.expect("macro definition scope", "(let ((z 5)) (defmacro qs () (list 'quote z)) (let ((z 6)) (qs)))", "value 5", "")
	h.expect("macro that expands to a symbol", "(progn (defglobal qsv 1) (defmacro qu () 'qsv) (defmacro qu1 (x) x) (defun quf (qsv) (list (qu1 qsv) (qu) (let ((qsv 3)) (list (qu1 qsv) (qu))))) (let ((qsv 2)) (list (quf 5) (qu) (qu1 qsv))))", "value ((5 5 (3 3)) 2 2)", "")
	h.expect("macro that expands to a constant", "(progn (defmacro qv () 7) (defmacro qv1 (x) (list 'quote x)) (list (qv) (qv1 (a . b)) (qv1 nil)))", "value (7 (a . b) nil)", "")
	h.expect("macro that expands to a macro call", "(progn (defmacro qw (x) `(tr ,x)) (defmacro qw1 (x) `(qw ,x)) (let ((v 2)) (list (qw1 v) (let ((v 3)) (qw1 v)))))", "value (2 3)", "2 3")
	h.expect("macro that assigns a local variable", "(progn (defglobal qxv 1) (defmacro qx (e) `(setq qxv ,e)) (list (let ((qxv 5)) (qx (+ qxv 1)) qxv) qxv))", "value (6 1)", "")
	h.expect("macroexpand", "(progn (defmacro qt (a &rest b) `(progn ,a ,@b)) (macroexpand '(qt (tr 1) 2 3)))", "value (progn (tr 1) 2 3)", "")
}

func (h *H) endless() {
	loops := []string{
		"(while t (tr 1))", "(while t 1)", "(while t)", "(tagbody a (tr 1) (go a))", "(tagbody a (go a))",
		"(progn (defun el-f (n) (el-f (+ n 1))) (el-f 0))", "(progn (defun el-f (n) (if t (el-f n))) (el-f 0))",
		"(labels ((f (n) (cond (t (f n))))) (f 1))", "(labels ((f (n) (progn 1 (f n)))) (f 1))", "(labels ((f (n) (let ((m n)) (f m)))) (f 1))", "(labels ((f (n) (let* ((m n)) (f m)))) (f 1))",
		"(labels ((f () (g)) (g () (if t (progn (f) 1)))) 1 (while t 1))",
		"(block b (while t (ignore-errors (bad 1))))", "(while t (catch 'a (throw 'a 1)))", "(catch 'a (while t (unwind-protect 1 2)))",
		"(dolist (x '(1)) (while t 2))", "(while t (let ((x 1)) x))", "(while t (funcall (lambda () 1)))", "(unwind-protect (while t 1) (tr 'cleanup))",
		"(with-handler (lambda (c) (while t 1)) (while t 1))", "(ignore-errors (while t 1))", "(dotimes (i 1000000000) 1)", "(for ((i 0 (+ i 1))) ((< i 0) i) 1)",
	}
	for _, l := range loops {
		for _, before := range []bool{true, false} {
			s := newSess()
			c := newCtx()
			if before {
				c.cancel()
			} else {
				time.AfterFunc(15*time.Millisecond, c.cancel)
			}
			old := hangLimit
			hangLimit = 3 * time.Second
			o := s.runWith(c.ctx, l)
			hangLimit = old
			h.count(fmt.Sprint(l, before), true)
			if o.Kind != "cancel" && !(o.Kind == "error") {
				o.Trace = nil
				h.fail("endless", fmt.Sprint(l, " cancelled before: ", before), "stops with the context's error", o.String(), "")
			}
			c.cancel()
		}
	}
}

func (h *H) tailCalls() {
	c := func(code, want, tr string) { h.expect("tail call", code, want, tr) }
	c("(progn (defun tc (n acc) (if (= n 0) acc (tc (- n 1) (cons (lambda () n) acc)))) (mapcar (lambda (f) (funcall f)) (tc 4 nil)))", "value (1 2 3 4)", "*")
	c("(progn (defun tc (n) (if (= n 0) 'end (tc))) (tc 3))", "error", "*")
	c("(progn (defun tc (n) (tr n) (if (= n 0) 'end (tc (- n 1) 5))) (tc 3))", "error", "3")
	c("(progn (defun tc (n) (tr n) (if (= n 0) 'end (tc (- n 1) (tr 'x)))) (tc 3))", "error", "*")
	c("(progn (defun tc (n &rest r) (if (= n 0) r (tc (- n 1) n r))) (tc 2 'a))", "value (1 (2 (a)))", "*")
	c("(progn (defun tc (n &rest r) (if (= n 0) r (tc (- n 1)))) (tc 2 'a))", "value nil", "*")
	c("(progn (defun tc (n) (if (= n 0) 'real (flet ((tc (m) (list 'local m))) (tc (- n 1))))) (tc 2))", "value (local 1)", "*")
	c("(progn (defun tc (n) (if (= n 0) 'real (let ((k n)) (defun tc (m) (list 'new m)) (tc k)))) (tc 2))", "value (new 2)", "*")
	c("(progn (defun tc (n) (tr n) (if (= n 0) 'end (tc (progn (tr 'arg) (- n 1))))) (tc 2))", "value end", "2 arg 1 arg 0")
	c("(progn (defun tc (n m) (tr (list n m)) (if (= n 0) m (tc (- n 1) (+ n m)))) (tc 3 0))", "value 6", "*")
	c("(progn (defun tc (n m) (if (= n 0) m (tc (- n 1) (setq n 50)))) (tc 1 0))", "value 50", "*")
	c("(progn (defun tc (n) (block b (if (= n 0) (return-from b 'x) (tc (- n 1))))) (tc 5))", "value x", "*")
	c("(progn (defun tc (n) (unwind-protect (if (= n 0) 'x (tc (- n 1))) (tr n))) (tc 2))", "value x", "0 1 2")
	c("(progn (defun tc (n) (if (= n 0) 'done (tc (- n 1)))) (tc 20000))", "value done", "*")
	c("(progn (defun tc (n) (if (= n 0) (bad 8) (tc (- n 1)))) (tc 3))", "probe 8", "*")
	c("(progn (defun tc (n) (if (= n 0) 'z (tc (bad 9)))) (tc 3))", "probe 9", "*")
	c("(labels ((tc (n acc) (cond ((= n 0) acc) (t (tc (- n 1) (cons n acc)))))) (tc 3 nil))", "value (1 2 3)", "*")
	c("(progn (defun tc (n) (let ((x n)) (if (= n 0) 'z (tc (- x 1))))) (let ((x 100)) (list (tc 3) x)))", "value (z 100)", "*")
	c("(progn (defun tc (n) (if (= n 0) (quote tc) (tc (- n 1)))) (tc 2))", "value tc", "*")
	c("(let ((fs nil)) (defun tc (n) (setq fs (cons (lambda () (setq n (+ n 100)) n) fs)) (if (> n 0) (tc (- n 1)))) (tc 2) (mapcar (lambda (f) (funcall f)) fs))", "value (100 101 102)", "*")
}
