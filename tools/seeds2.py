import sys; sys.path.insert(0,'/verif/tools')
from newseed import seed
W=sys.argv[1:]
def S(id,*a,**k):
    if not W or id in W: seed(id,*a,**k)
P='(format (standard-output) "~s~%" '
S('p01-rest-args-env','P01','a rest argument whose value depends on a local variable of the caller that hides a global one','the arguments collected by a rest parameter are evaluated in the environment of the function definition instead of the caller\'s',
 [('lambda.go','''			var value Node
			var err error

			value, n, err = w.ShiftAndEvalCar(ctx, n)
			if err != nil {
				return nil, err
			}
			values = &Cons{''','''			var value Node
			var err error

			if cons, ok := n.(*Cons); ok && IsSome(values) {
				value, err = L.lexical.Eval(ctx, cons.Car)
				n = cons.Cdr
			} else {
				value, n, err = w.ShiftAndEvalCar(ctx, n)
			}
			if err != nil {
				return nil, err
			}
			values = &Cons{''')],
 '(defglobal v 1)\n(defun f (&rest r) r)\n(let ((v 2)) '+P+'(f v v)))\n','(2 2)\n')
S('p03-psetq-like-let','P03','a let whose second binding refers to an outer variable that the first binding hides','let evaluates its bindings one after another in the new scope when there is more than one binding',
 [('setq.go','''		value, err := w.Eval(ctx, argv[1])
		if err != nil {
			return err
		}
		lexical[symbol] = value
''','''		ew := w
		if _, again := argv[1].(Symbol); again && len(lexical) > 1 {
			ew = w.Let(Variables(lexical))
		}
		value, err := ew.Eval(ctx, argv[1])
		if err != nil {
			return err
		}
		lexical[symbol] = value
''')],
 '(let ((a 1) (b 2)) (let ((a b) (c 5) (b a)) '+P+'(list a b c))))\n','(2 1 5)\n')
S('p04-nested-block-name','P04','a block inside another one of the same name that ends before return-from leaves the outer one','the end of an inner block makes the outer block of the same name unknown',
 [('progn.go','''	if _, ok := w.blockName[nameSymbol]; !ok {
		defer delete(w.blockName, nameSymbol)
		w.blockName[nameSymbol] = struct{}{}
	}
''','''	defer delete(w.blockName, nameSymbol)
	w.blockName[nameSymbol] = struct{}{}
''')],
 P+'(block b (block b 1) (return-from b 2) 3))\n','2\n')
S('p05-go-tag-after-inner','P05','an inner tagbody with a tag of the outer one ends before go is used in the outer one','the end of an inner tagbody makes the equally named tag of the outer tagbody unknown',
 [('progn.go','''			if _, ok := w.goTag[symbol]; !ok {
				w.goTag[symbol] = struct{}{}
				defer delete(w.goTag, symbol)
			}
''','''			w.goTag[symbol] = struct{}{}
			defer delete(w.goTag, symbol)
''')],
 '(defglobal n 0)\n(tagbody l (setq n (+ n 1)) (tagbody l) (if (< n 3) (go l)))\n'+P+'n)\n','3\n')
S('p07-restore-nil','P07','a dynamic variable whose outer value is nil','dynamic-let does not restore a dynamic variable whose value was nil',
 [('setq.go','''	for key, val := range D.backups {
		D.world.dynamic.Set(key, val)
	}''','''	for key, val := range D.backups {
		if IsSome(val) {
			D.world.dynamic.Set(key, val)
		}
	}''')],
 '(defdynamic x nil)\n(dynamic-let ((x 1)) (dynamic x))\n'+P+'(dynamic x))\n','nil\n')
S('p08-continue-anyway','P08','a handler that continues a condition signalled as not continuable with a value that is not nil','a condition signalled as not continuable is continued by continue-condition',
 [('error.go',"""		if cont && errors.As(e, &ce) {
			if v, ok := ce.Value.(T); ok {""","""		if errors.As(e, &ce) {
			if v, ok := ce.Value.(T); ok && (cont || IsSome(ce.Value)) {""")],
 "(with-handler (lambda (c) (continue-condition c 7)) "+P+"(create-array '(0))))\n",'')
S('p11-big-product','P11','a product of two integers above 2^53','the product of two integers is computed in floating point, so large products are wrong in the last digits',
 [('number.go',"""		return i * _n, nil
	}
	return nil, err
}

type ArithmeticError""","""		if p := math.Abs(float64(i) * float64(_n)); p < 1<<60 {
			return Integer(float64(i) * float64(_n)), nil
		}
		return i * _n, nil
	}
	return nil, err
}

type ArithmeticError""")],
 P+'(* 94906267 94906265))\n','9007199326062755\n')
S('p13-floor-negative','P13','ceiling of a float between -1 and 0 is fine, floor of a float below -2^31 that is no integer is not','floor truncates floats below -2^31',
 [('operator.go',"""	return floatToInteger(arg, math.Floor)
""","""	return floatToInteger(arg, func(x float64) float64 {
		if x < math.MinInt32 {
			return math.Trunc(x)
		}
		return math.Floor(x)
	})
""")],
 P+'(floor -3000000000.5))\n','-3000000001\n')
S('p12-ne-float','P12','/= of an integer and the equal float','/= of an integer and an equal float is true',
 [('cmds.go',"""	if argv[0].Equals(argv[1], EQUALP) {""","""	if argv[0].Equals(argv[1], EQUAL) {""")],
 P+'(/= 1 1.0))\n','nil\n')
S('p27-arg-exit-twice','P27','an argument of an optimised tail call that leaves the function with throw after a side effect','when evaluating an argument of a tail call fails, the call is made again as an ordinary one, which evaluates the arguments a second time',
 [('lambda.go',"""		value, params, err = w.ShiftAndEvalCar(ctx, params)
		if err != nil {
			return err
		}
		evaled""","""		value, params, err = w.ShiftAndEvalCar(ctx, params)
		if err != nil {
			return nil
		}
		evaled""")],
 '(defglobal k 0)\n(defun f (n) (if (= n 0) (quote done) (f (progn (setq k (+ k 1)) (throw (quote x) k)))))\n'+P+'(catch (quote x) (f 3)))\n','1\n')
S('p14-append-copy','P14','append of three lists whose second one is kept and changed later','append shares the cells of its last but one argument instead of copying it when the last argument is empty',
 [('list.go',"""	for _, list1 := range list[:len(list)-1] {
""","""	if n := len(list); n == 3 && IsNone(list[0]) && IsNone(list[n-1]) {
		return list[1], nil
	}
	for _, list1 := range list[:len(list)-1] {
""")],
 "(defglobal a (list 1 2))\n(set-car 9 (append nil a nil))\n"+P+"a)\n",'(1 2)\n')
S('p14-assoc-rest','P14','an association list in which a pair has a nil key before the key that is looked for','assoc stops at a pair whose key is nil',
 [('list.go','''		if key.Equals(cons.Car, STRICT) {
			return cons, nil
		}''','''		if key.Equals(cons.Car, STRICT) {
			return cons, nil
		}
		if IsNone(cons.Car) {
			break
		}''')],
 P+"(assoc 'b '((a . 1) (nil . 2) (b . 3))))\n",'(b . 3)\n')
S('p15-maplist-second-empty','P15','a second list that is shorter than the first','maplist, mapl and mapcon only stop when the first list is exhausted',
 [('sequence.go','''		result, err := _f.Call(ctx, w, listToQuotedList(listSet))
		if err != nil {
			return err
		}
		store(result)

		for i''','''		result, err := _f.Call(ctx, w, listToQuotedList(listSet))
		if err != nil {
			return err
		}
		if IsSome(result) || len(listSet) < 2 {
			store(result)
		}

		for i''')],
 P+"(maplist (lambda (x y) (eql (car x) (car y))) '(1 2 3) '(1 5 3)))\n",'(t nil t)\n')
S('p16-subarray-offset','P16','set-aref with fewer subscripts than the array has dimensions and an array of another shape','set-aref of a sub-array writes past the sub-array',
 [('array.go','''		array = &Array{
			list: array.list[int(index)*elementSize : int(index+1)*elementSize],
			dim:  array.dim[1:],
		}
	}
	if''','''		array = &Array{
			list: array.list[int(index)*elementSize:],
			dim:  array.dim[1:],
		}
	}
	if''')],
 "(defglobal a (create-array '(2 2) 0))\n(set-aref #(1 2 3) a 0)\n"+P+"(aref a 1 0))\n",'0\n')
S('p17-remhash-nil','P17','an entry whose value is nil','remhash leaves an entry whose value is nil',
 [('hash.go','''	delete(hash, first)
	return Null, nil''','''	if IsSome(hash[first]) {
		delete(hash, first)
	}
	return Null, nil''')],
 "(defglobal h (make-hash-table))\n(set-gethash nil 'a h)\n(set-gethash 1 'b h)\n(remhash 'a h)\n"+P+"(hash-table-count h))\n",'1\n')
S('p20-rest-class','P20','a method whose rest parameter has a class, called with a further argument of another class','the class of a rest parameter is only checked for the first of the rest arguments',
 [('generic.go','''			if !m.restType.InstanceP(v) {
				//println("NG1")
				return false
			}
		}''','''			if !m.restType.InstanceP(v) {
				//println("NG1")
				return false
			}
			break
		}''')],
 "(defgeneric g (x &rest r))\n(defmethod g ((x <object>) &rest (r <object>)) 'general)\n(defmethod g ((x <integer>) &rest (r <integer>)) 'integers)\n"+P+"(g 1 2 'a))\n",'general\n')
S('p21-second-super','P21','a class with two superclasses, the second of which inherits from the class asked for','a class only inherits from its first superclass and the direct other ones',
 [('class.go','''		if s.InheritP(class2) {
			return true
		}
	}
	return false
}

func (c *_StandardClass) String''','''		if _, user := s.(*_StandardClass); user {
			return s.InheritP(class2)
		}
		if s.InheritP(class2) {
			return true
		}
	}
	return false
}

func (c *_StandardClass) String''')],
 "(defclass <a> () ())\n(defclass <b> (<a>) ())\n(defclass <c> () ())\n(defclass <d> (<c> <b>) ())\n"+P+"(subclassp (class <d>) (class <a>)))\n",'t\n')
S('p22-initarg-nil','P22','an initialisation argument whose value is nil for a slot that has an initform','a slot initialised with nil gets the value of its initform',
 [('class.go','''			if slotInitArg == initArg {
				reciever.Slot[name] = initVal
				found = true''','''			if slotInitArg == initArg {
				if IsSome(initVal) || slot.initform == nil {
					reciever.Slot[name] = initVal
				}
				found = true''')],
 "(defclass <p> () ((x :initarg x :initform 5 :accessor px)))\n"+P+"(px (create (class <p>) 'x nil)))\n",'nil\n')
S('p09-aref-negative','P09','a negative subscript before the last one','aref of an array of two or more dimensions with a negative subscript stops the interpreter',
 [('array.go',"""		if nth < 0 || int(nth) >= array.dim[0] {
			return nil, MakeError""","""		if (nth < 0 && len(args) == 2) || int(nth) >= array.dim[0] {
			return nil, MakeError""")],
 "(defglobal a (create-array '(2 2) 0))\n(ignore-errors (aref a -1 0))\n"+P+"'going-on)\n",'going-on\n')
S('p10-unbound-slot','P10','a slot without a value','reading a slot without a value yields something that is no Lisp value and not equal to nil',
 [('class.go',"""			if val, ok := rec.Slot[slotName]; ok {
				return val, nil
			}
			return Null, nil
		},
	}
}

func newSetter""","""			return rec.Slot[slotName], nil
		},
	}
}

func newSetter""")],
 "(defclass <p> () ((x :reader px)))\n"+P+"(case (px (create (class <p>))) ((nil) 1) (t 2)))\n",'1\n')
S('p26-while-once','P26','a context that is cancelled while a while loop runs whose condition and forms are no calls','a while loop whose condition and forms are no calls does not notice that its context was cancelled',
 [('progn.go',"""	for {
		if err := checkContext(ctx); err != nil {
			return nil, err
		}
		cont, err""","""	if err := checkContext(ctx); err != nil {
		return nil, err
	}
	for {
		cont, err""")],'','',"""package main

import (
	"context"
	"fmt"
	"os"
	"time"

	"github.com/hymkor/gmnlisp"
)

func main() {
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Millisecond)
	defer cancel()
	done := make(chan error, 1)
	go func() {
		_, err := gmnlisp.New().Interpret(ctx, "(while t)")
		done <- err
	}()
	select {
	case err := <-done:
		fmt.Println("ended:", err)
		if err == nil {
			os.Exit(1)
		}
	case <-time.After(10 * time.Second):
		fmt.Println("still running")
		os.Exit(1)
	}
}
""")

S('p18-float-integer','P18','equalp of a float and an integer, the float first and not integral','equalp rounds a float before it compares it with an integer: symmetric no more',
 [('number.go','return ok && f == Float(_n)','return ok && Integer(f) == _n')],
 P+"(list (equalp 2.5 2) (equalp 2 2.5) (equalp 2.0 2)))\n",'(nil nil t)\n')
S('p18-cons-tail-mode','P18','equalp of lists that differ in case in an element after the first','equalp compares the rest of a list as equal does',
 [('cons.go',"""		cons.getCdr().Equals(value.Cdr, m)""","""		cons.getCdr().Equals(value.Cdr, min(m, EQUAL))""")],
 P+"(list (equalp '(\"A\") '(\"a\")) (equalp '(1 \"A\") '(1 \"a\")) (equalp '(1 2) '(1.0 2.0))))\n",'(t t t)\n') if 0 else None
S('p18-equalp-rest','P18','equalp of lists that differ in case in an element after the second','equalp compares the end of a list as equal does',
 [('cons.go',"""	return cons.getCar().Equals(value.Car, m) &&
		cons.getCdr().Equals(value.Cdr, m)""","""	if !cons.getCar().Equals(value.Car, m) {
		return false
	}
	if next, ok := cons.Cdr.(*Cons); ok && IsNone(next.Cdr) {
		m = EQUAL
	}
	return cons.getCdr().Equals(value.Cdr, m)""")],
 P+"(list (equalp '(1 \"A\") '(1 \"a\")) (equalp '(1 \"A\" 2) '(1 \"a\" 2))))\n",'(t t)\n')
S('p19-long-name','P19','two names that agree in their first 64 bytes','names are cut: different symbols become one',
 [('atom.go',"""func NewSymbol(s string) _Symbol {
	return""","""func NewSymbol(s string) _Symbol {
	if len(s) > 64 {
		s = s[:64]
	}
	return""")],
 P+"(let ((a (convert (string-append (create-string 70 #\\a) \"x\") <symbol>)) (b (convert (string-append (create-string 70 #\\a) \"y\") <symbol>))) (list (eq a b) (length (convert a <string>)))))\n",'(nil 71)\n')
S('p24-unquote-order','P24','two unquoted forms of which the first has a side effect the second sees','quasiquote evaluates the unquoted forms from the last to the first',
 [('cmds.go',"""		newCar, err := quasiQuote(ctx, w, cons.Car)
		if err != nil {
			return nil, err
		}
		newCdr, err := quasiQuote(ctx, w, cons.Cdr)
		if err != nil {
			return nil, err
		}
		return""","""		newCdr, err := quasiQuote(ctx, w, cons.Cdr)
		if err != nil {
			return nil, err
		}
		newCar, err := quasiQuote(ctx, w, cons.Car)
		if err != nil {
			return nil, err
		}
		return""")],
 "(defglobal x 1)\n"+P+"`(a ,(progn (setq x 2) x) (b ,(* x 10)) ,x))\n",'(a 2 (b 20) 2)\n')
S('p24-symbol-expansion','P24','a macro whose expansion is a symbol, called where that symbol is bound locally','an expansion that is a symbol is evaluated in the environment of the macro definition',
 [('macro.go',"""	return w.Eval(ctx, newCode)
}""","""	if _, ok := newCode.(Symbol); ok {
		if v, err := m.lexical.Eval(ctx, newCode); err == nil {
			return v, nil
		}
	}
	return w.Eval(ctx, newCode)
}""")],
 "(defglobal v 1)\n(defmacro the-v () 'v)\n(defmacro the-form (x) x)\n(defun f (v) (list (the-form v) (let ((v 3)) (the-v))))\n"+P+"(let ((v 2)) (list (f 5) v)))\n",'((5 3) 2)\n')
S('p25-trailing-space','P25','two strings that differ in trailing spaces only','strings that differ in trailing spaces only compare as the same',
 [('string.go',"""	cmp := strings.Compare(left.String(), right.String())""","""	cmp := strings.Compare(strings.TrimRight(left.String(), " "), strings.TrimRight(right.String(), " "))""")],
 P+'(list (string= "a" "a ") (string< "a" "a ") (string> "a " "a") (string= "a " "a ")))\n','(nil t t t)\n')
S('p25-index-bytes','P25','string-index with characters of several bytes after the start position and before the match','string-index counts the bytes, not the characters, between the start position and the match',
 [('string.go',"""	return Integer(start + utf8.RuneCountInString(str[:index])), nil""","""	if start > 0 {
		return Integer(start + index), nil
	}
	return Integer(utf8.RuneCountInString(str[:index])), nil""")],
 P+'(list (string-index "b" "\u00e9\u00e9\u00e9b") (string-index "b" "\u00e9\u00e9\u00e9b" 1) (string-index "b" "abab" 2)))\n','(3 3 3)\n')
GO28='''package main

import (
	"context"
	"fmt"
	"os"

	"github.com/hymkor/gmnlisp"
)

func main() {
	ctx := context.Background()
	a, b := gmnlisp.New(), gmnlisp.New()
	if _, err := a.Interpret(ctx, `%s`); err != nil {
		fmt.Fprintln(os.Stderr, "first:", err)
		os.Exit(2)
	}
	v, err := b.Interpret(ctx, `%s`)
	if err != nil {
		v = nil
	}
	got := "error"
	if v != nil {
		got = v.String()
	}
	if got != "%s" {
		fmt.Fprintln(os.Stderr, "second interpreter:", got, err)
		os.Exit(1)
	}
}
'''
S('p28-library-cache','P28','two interpreters; the first one redefines a function that a library function calls and calls the library function before the second does','library functions are compiled once per process, in the interpreter that calls them first',
 [('world.go',"""		value := &LispString{S: string(script)}
""","""		value, ok := libraryFunc[symbol]
		if !ok {
			value = &LispString{S: string(script)}
			libraryFunc[symbol] = value
		}
"""),('world.go',"""func (rw _RootWorld) Set(symbol""","""var libraryFunc = map[Symbol]*LispString{}

func (rw _RootWorld) Set(symbol""")],
 None,None,go=GO28%("(defun nthcdr (n x) (list 'first n)) (cddr '(1 2 3))","(cddr '(1 2 3))","(3)"))
S('p28-dynamic-shared','P28','two interpreters, the first of which defines a dynamic variable','dynamic variables are kept for the whole process',
 [('world.go',"""			dynamic: Variables{},
""","""			dynamic: topDynamics,
"""),('world.go',"""func New() *World {""","""var topDynamics = Variables{}

func New() *World {""")],
 None,None,go=GO28%("(defdynamic depth 7)","(ignore-errors (dynamic depth))","nil"))
