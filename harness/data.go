package main

// The data properties: numbers, lists, arrays, tables, equality, strings, printing.

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"unicode/utf8"
)

var intPool = []string{"0", "1", "-1", "2", "-2", "3", "-3", "5", "7", "-7", "10", "100", "-100", "255", "1024", "65536", "2147483647", "-2147483648", "4294967296",
	"9007199254740992", "9007199254740993", "-9007199254740993", "4611686018427387904", "9223372036854775806", "9223372036854775807", "-9223372036854775807", "-9223372036854775808"}

func (h *H) anInt() *big.Int {
	if h.rng.Intn(2) == 0 {
		n, _ := new(big.Int).SetString(intPool[h.rng.Intn(len(intPool))], 10)
		return n
	}
	switch h.rng.Intn(3) {
	case 0:
		return big.NewInt(int64(h.rng.Intn(21) - 10))
	case 1:
		return big.NewInt(int64(h.rng.Uint64()))
	}
	return big.NewInt(h.rng.Int63n(2000001) - 1000000)
}

func texts(xs []*big.Int) string {
	var s []string
	for _, x := range xs {
		s = append(s, x.String())
	}
	return strings.Join(s, " ")
}

func floorMod(a, b *big.Int) *big.Int {
	m := new(big.Int).Rem(a, b)
	if m.Sign() != 0 && (m.Sign() < 0) != (b.Sign() < 0) {
		m.Add(m, b)
	}
	return m
}

func propP11(h *H) {
	h.rule("integer operands from boundary values and random ones, 0 to 5 arguments; non-trivial when the exact result fits in 64 bits or the divisor is zero")
	// every pair of pool values first
	for _, op := range []string{"+", "-", "*", "/", "mod", "rem"} {
		for _, a := range intPool {
			for _, b := range intPool {
				x, _ := new(big.Int).SetString(a, 10)
				y, _ := new(big.Int).SetString(b, 10)
				h.arith(op, []*big.Int{x, y})
			}
		}
	}
	for !h.done() {
		op := []string{"+", "-", "*", "/", "mod", "rem", "-"}[h.rng.Intn(7)]
		n := 2
		if op != "mod" && op != "rem" {
			n = 1 + h.rng.Intn(5)
		}
		if (op == "+" || op == "*") && h.rng.Intn(20) == 0 {
			n = 0
		}
		if op == "/" && n < 2 {
			n = 2
		}
		var xs []*big.Int
		for i := 0; i < n; i++ {
			x := h.anInt()
			if op == "*" && n > 2 {
				x = big.NewInt(h.rng.Int63n(2001) - 1000)
			}
			xs = append(xs, x)
		}
		h.arith(op, xs)
	}
}

func (h *H) arith(op string, xs []*big.Int) {
	code := "(" + op + " " + texts(xs) + ")"
	if h.rng.Intn(3) == 0 {
		code = "(let ((f #'" + op + ")) (apply f (list " + texts(xs) + ")))"
	}
	fits := true
	chk := func(v *big.Int) *big.Int {
		if !v.IsInt64() {
			fits = false
		}
		return v
	}
	zero := false
	var r *big.Int
	switch op {
	case "+", "*":
		r = big.NewInt(0)
		if op == "*" {
			r = big.NewInt(1)
		}
		for _, x := range xs {
			if op == "+" {
				r = chk(new(big.Int).Add(r, x))
			} else {
				r = chk(new(big.Int).Mul(r, x))
			}
		}
	case "-":
		if len(xs) == 1 {
			r = chk(new(big.Int).Neg(xs[0]))
		} else {
			r = xs[0]
			for _, x := range xs[1:] {
				r = chk(new(big.Int).Sub(r, x))
			}
		}
	case "/":
		r = xs[0]
		for _, x := range xs[1:] {
			if x.Sign() == 0 {
				zero = true
				break
			}
			r = chk(new(big.Int).Quo(r, x))
		}
	case "mod", "rem":
		if xs[1].Sign() == 0 {
			zero = true
			break
		}
		if op == "mod" {
			r = floorMod(xs[0], xs[1])
		} else {
			r = new(big.Int).Rem(xs[0], xs[1])
		}
	}
	if zero {
		h.expect("division by zero", code, "error", "*")
		return
	}
	if !fits {
		return
	}
	h.expect("arithmetic "+op, code, "value "+r.String(), "*")
}

func propP12(h *H) {
	h.rule("chains of 2 to 5 integers and floats under each comparison; predicates on integers and floats of both signs")
	rel := map[string]func(c int) bool{"<": func(c int) bool { return c < 0 }, "<=": func(c int) bool { return c <= 0 }, ">": func(c int) bool { return c > 0 },
		">=": func(c int) bool { return c >= 0 }, "=": func(c int) bool { return c == 0 }}
	names := []string{"<", "<=", ">", ">=", "="}
	num := func() (string, *big.Rat) {
		if h.rng.Intn(3) == 0 {
			f := float64(h.rng.Intn(41)-20) / 4
			s := strconv.FormatFloat(f, 'f', 2, 64)
			r, _ := new(big.Rat).SetString(s)
			return s, r
		}
		x := h.anInt()
		if h.rng.Intn(2) == 0 {
			x = big.NewInt(int64(h.rng.Intn(11) - 5))
		}
		return x.String(), new(big.Rat).SetInt(x)
	}
	tf := func(b bool) string {
		if b {
			return "value t"
		}
		return "value nil"
	}
	for !h.done() {
		if h.rng.Intn(3) > 0 {
			op := names[h.rng.Intn(len(names))]
			n := 2 + h.rng.Intn(4)
			var ss []string
			var rs []*big.Rat
			big1 := false
			fl := false
			for i := 0; i < n; i++ {
				s, r := num()
				if i > 0 && h.rng.Intn(3) == 0 { // equal or sorted neighbours
					s, r = ss[i-1], rs[i-1]
				}
				if strings.Contains(s, ".") {
					fl = true
				} else if len(s) > 15 {
					big1 = true
				}
				ss, rs = append(ss, s), append(rs, r)
			}
			if fl && big1 {
				continue
			}
			if h.rng.Intn(2) == 0 {
				for i := 1; i < n; i++ {
					for j := i; j > 0 && (rs[j-1].Cmp(rs[j]) > 0) == (op[0] != '>'); j-- {
						rs[j-1], rs[j], ss[j-1], ss[j] = rs[j], rs[j-1], ss[j], ss[j-1]
					}
				}
			}
			ok := true
			for i := 1; i < n; i++ {
				if !rel[op](rs[i-1].Cmp(rs[i])) {
					ok = false
				}
			}
			h.expect("comparison "+op, "("+op+" "+strings.Join(ss, " ")+")", tf(ok), "*")
			if n == 2 {
				h.expect("comparison /=", "(/= "+strings.Join(ss, " ")+")", tf(rs[0].Cmp(rs[1]) != 0), "*")
			}
			continue
		}
		s, r := num()
		h.expect("zerop", "(zerop "+s+")", tf(r.Sign() == 0), "*")
		h.expect("plusp", "(plusp "+s+")", tf(r.Sign() > 0), "*")
		h.expect("minusp", "(minusp "+s+")", tf(r.Sign() < 0), "*")
		if !strings.Contains(s, ".") {
			h.expect("evenp", "(evenp "+s+")", tf(r.Num().Bit(0) == 0), "*")
			h.expect("oddp", "(oddp "+s+")", tf(r.Num().Bit(0) == 1), "*")
		}
	}
}

func propP13(h *H) {
	h.rule("integers of any size, floats on quarter steps and random floats, numerals and other texts, class names")
	for !h.done() {
		switch h.rng.Intn(6) {
		case 0:
			s := h.anInt().String()
			for _, op := range []string{"floor", "ceiling", "truncate", "round"} {
				h.expect("rounding an integer", "("+op+" "+s+")", "value "+s, "*")
			}
		case 1, 2:
			f := float64(h.rng.Intn(81)-40) / 4
			switch h.rng.Intn(6) {
			case 0: // around the limits of narrower integers
				f = float64(int64(1)<<(20+h.rng.Intn(32))) + float64(h.rng.Intn(9)-4)/4
				if h.rng.Intn(2) == 0 {
					f = -f
				}
			case 1: // integers beyond the precision of halves
				f = float64((h.rng.Int63()>>1)-(1<<61)) * []float64{1, -1}[h.rng.Intn(2)]
			}
			if h.rng.Intn(4) == 0 {
				f = math.Floor((h.rng.Float64()-0.5)*1e9) / 1024
			}
			s := strconv.FormatFloat(f, 'f', 12, 64)
			for op, g := range map[string]func(float64) float64{"floor": math.Floor, "ceiling": math.Ceil, "truncate": math.Trunc, "round": math.RoundToEven} {
				h.expect("rounding a float", "("+op+" "+s+")", fmt.Sprintf("value %d", int64(g(f))), "*")
			}
		case 3:
			x := h.anInt()
			s := x.String()
			h.expect("convert integer to string", "(convert "+s+" <string>)", "value "+strconv.Quote(s), "*")
			h.expect("convert integer to integer", "(convert "+s+" <integer>)", "value "+s, "*")
			h.expect("convert string to integer", "(convert \""+s+"\" <integer>)", "value "+s, "*")
			y := big.NewInt(h.rng.Int63n(1 << 53))
			f, _ := new(big.Float).SetInt(y).Float64()
			h.expect("convert integer to float", "(convert "+y.String()+" <float>)", "value f"+strconv.FormatFloat(f, 'g', -1, 64), "*")
			c := rune(33 + h.rng.Intn(0x2fff))
			if x.IsInt64() && (x.Int64() < 0 || x.Int64() > 0x10ffff) {
				h.expect("convert integer to character", "(convert "+s+" <character>)", "error", "*")
			}
			h.expect("convert integer to character", fmt.Sprintf("(convert %d <character>)", c), fmt.Sprintf("value #u%d", c), "*")
			h.expect("convert character to integer", fmt.Sprintf("(convert (convert %d <character>) <integer>)", c), fmt.Sprintf("value %d", c), "*")
			h.expect("convert character to character", fmt.Sprintf("(convert (convert %d <character>) <character>)", c), fmt.Sprintf("value #u%d", c), "*")
		case 4:
			f := float64(h.rng.Intn(4001)-2000) / 8
			s := strconv.FormatFloat(f, 'f', -1, 64)
			h.expect("convert string to float", "(convert \""+s+"\" <float>)", "value f"+strconv.FormatFloat(f, 'g', -1, 64), "*")
			for _, bad := range []string{"", "abc", "1.2.3", "--1", "12x", "x12", " 12", "1 2"} {
				h.expect("convert malformed string", "(convert \""+bad+"\" <integer>)", "error", "*")
				h.expect("convert malformed string", "(convert \""+bad+"\" <float>)", "error", "*")
			}
			h.expect("convert malformed string", "(convert \"99999999999999999999\" <integer>)", "error", "*")
			h.expect("convert string to symbol", "(convert \"abc-x\" <symbol>)", "value abc-x", "*")
			h.expect("convert symbol to string", "(convert 'abc-x <string>)", "value \"abc-x\"", "*")
			h.expect("convert string to list", "(convert \"aé\" <list>)", "value (#u97 #u233)", "*")
			h.expect("convert vector to list", "(convert (vector 1 2 3) <list>)", "value (1 2 3)", "*")
			h.expect("convert list to vector", "(convert (convert (list 4 5 6) <general-vector>) <list>)", "value (4 5 6)", "*")
		case 5:
			for _, op := range []string{"floor", "ceiling", "truncate", "round"} {
				for _, v := range []string{"\"3\"", "'a", "nil", "#\\a", "(list 1)", "(vector 1)", "1e30", "-1e30"} {
					h.expect("rounding a non-number", "("+op+" "+v+")", "error", "*")
				}
			}
			for _, v := range []string{"1", "1.5", "#\\a", "\"a\"", "'a", "(list 1)"} {
				for _, c := range []string{"<hashtable>", "<function>", "<stream>", "foo", "3"} {
					h.expect("unsupported conversion", "(convert "+v+" "+c+")", "error", "*")
				}
			}
			for _, vc := range []string{"(list 1) <integer>", "(vector 1) <integer>", "'a <integer>", "#\\a <float>", "1 <list>", "(list 1) <string>"} {
				h.expect("unsupported conversion", "(convert "+vc+")", "error", "*")
			}
		}
	}
}

// ---- lists: random histories over shared structure against a heap model

func propP14(h *H) {
	h.rule("histories of 4 to 14 list operations over five variables sharing structure; after each operation every variable is compared with a heap model; non-trivial when a list has at least two cells")
	vars := []string{"v0", "v1", "v2", "v3", "v4"}
	for !h.done() {
		s := newSess()
		m := map[string]V{}
		var log []string
		run := func(code string) Out { log = append(log, code); return s.run(code) }
		for _, v := range vars {
			run("(defglobal " + v + " nil)")
			m[v] = NIL
		}
		log = nil
		cyc := func(x V) bool { return len(slice2(x, 400)) >= 400 }
		ok := true
		nt := false
		for k := 4 + h.rng.Intn(11); k > 0 && ok; k-- {
			a, b, d := vars[h.rng.Intn(5)], vars[h.rng.Intn(5)], vars[h.rng.Intn(5)]
			n := h.rng.Intn(6)
			va, vb := m[a], m[b]
			if _, okc := va.(*Cell); okc {
				if _, okc := cdr(va).(*Cell); okc {
					nt = true
				}
			}
			var code string
			var want V
			wantErr := false
			set := true
			switch h.rng.Intn(17) {
			case 0:
				var xs []V
				var ts []string
				for i := 0; i < n; i++ {
					x := h.rng.Intn(9)
					if h.rng.Intn(4) == 0 {
						y := vars[h.rng.Intn(5)]
						xs, ts = append(xs, m[y]), append(ts, y)
						continue
					}
					xs, ts = append(xs, x), append(ts, fmt.Sprint(x))
				}
				code, want = "(list "+strings.Join(ts, " ")+")", L(xs...)
			case 1:
				code, want = fmt.Sprintf("(cons %d %s)", n, a), &Cell{n, va}
			case 2:
				code, want = fmt.Sprintf("(cons %s %s)", a, b), &Cell{va, vb}
			case 3, 4:
				c3 := vars[h.rng.Intn(5)]
				na := 2 + h.rng.Intn(2)
				xs, ns := []V{va, vb, m[c3]}[:na], []string{a, b, c3}[:na]
				code = "(append " + strings.Join(ns, " ") + ")"
				r := xs[na-1]
				for i := na - 2; i >= 0; i-- {
					els, proper := elems(xs[i])
					if !proper {
						wantErr = true
					}
					for j := len(els) - 1; j >= 0; j-- {
						r = &Cell{els[j], r}
					}
				}
				want = r
			case 5:
				code = "(reverse " + a + ")"
				els, proper := elems(va)
				wantErr = !proper
				var r V = NIL
				for _, e := range els {
					r = &Cell{e, r}
				}
				want = r
			case 6:
				els, proper := elems(va)
				if !proper {
					continue
				}
				code = "(nreverse " + a + ")"
				_ = els
				var r V = NIL
				old := map[*Cell]V{}
				for c, okc := va.(*Cell); okc; {
					nx := c.cdr
					old[c] = nx
					c.cdr = r
					r = c
					c, okc = nx.(*Cell)
				}
				want = r
				bad := cyc(want)
				for _, v := range vars {
					bad = bad || cyc(m[v])
				}
				if bad {
					for c, nx := range old {
						c.cdr = nx
					}
					continue
				}
			case 7:
				key := h.rng.Intn(9)
				code = fmt.Sprintf("(member %d %s)", key, a)
				want = NIL
				x := va
				for {
					c, okc := x.(*Cell)
					if !okc {
						if !isNil(x) {
							wantErr = true
						}
						break
					}
					if v, okc := c.car.(int); okc && v == key {
						want = c
						break
					}
					x = c.cdr
				}
				if wantErr {
					continue
				}
			case 8:
				// an association list made on the spot
				code = fmt.Sprintf("(assoc %d (list (cons 1 %s) (cons 2 %s) (cons 1 7)))", n%4, a, b)
				if h.rng.Intn(2) == 0 { // the key nil
					code = fmt.Sprintf("(assoc nil (list (cons 1 %s) (cons 2 %s) (cons nil %s) (cons nil 7)))", b, b, a)
					want = &Cell{NIL, va}
					break
				}
				if h.rng.Intn(2) == 0 { // keys of all kinds
					keys := []string{"nil", "1", "2", "a", "b", "t", "\"s\"", "#\\c"}
					key := keys[h.rng.Intn(len(keys))]
					l := ""
					found := -1
					for i, k := 0, h.rng.Intn(6); i < k; i++ {
						x := keys[h.rng.Intn(len(keys))]
						l += fmt.Sprintf(" (cons '%s %d)", x, i)
						if x == key && found < 0 && x[0] != '"' {
							found = i
						}
					}
					if key[0] == '"' {
						continue // whether two equal strings are one object
					}
					w := "value nil"
					if found >= 0 {
						w = fmt.Sprintf("value %d", found)
					}
					h.expect("assoc", fmt.Sprintf("(let ((p (assoc '%s (list%s)))) (if p (cdr p) nil))", key, l), w, "*")
					continue
				}
				switch n % 4 {
				case 1:
					want = &Cell{1, va}
				case 2:
					want = &Cell{2, vb}
				default:
					want = NIL
				}
			case 9:
				els, proper := elems(va)
				if !proper {
					continue
				}
				code = "(last " + a + ")"
				want = NIL
				if len(els) > 0 {
					want = els[len(els)-1]
				}
			case 10:
				els, proper := elems(va)
				code = "(length " + a + ")"
				want = len(els)
				wantErr = !proper
			case 11:
				var r V = NIL
				for i := 0; i < n; i++ {
					r = &Cell{vb, r}
				}
				code, want = fmt.Sprintf("(create-list %d %s)", n, b), r
			case 12:
				code = "(car " + a + ")"
				c, okc := va.(*Cell)
				wantErr = !okc
				if okc {
					want = c.car
				}
				if isNil(va) {
					want, wantErr = nil, false // (car nil) is outside the statement
					continue
				}
			case 13:
				code = "(cdr " + a + ")"
				c, okc := va.(*Cell)
				wantErr = !okc
				if okc {
					want = c.cdr
				}
				if isNil(va) {
					continue
				}
			case 14, 15, 16:
				c, okc := va.(*Cell)
				op := []string{"set-car", "set-cdr"}[h.rng.Intn(2)]
				code = fmt.Sprintf("(%s %s %s)", op, b, a)
				set = false
				if !okc {
					wantErr = true
				} else {
					old := *c
					if op == "set-car" {
						c.car = vb
					} else {
						c.cdr = vb
					}
					bad := false
					for _, v := range vars {
						if cyc(m[v]) {
							bad = true
						}
					}
					if bad {
						*c = old
						continue
					}
				}
			}
			if want != nil && cyc(want) {
				continue
			}
			if set && !wantErr {
				m[d] = want
				code = "(setq " + d + " " + code + ")"
			}
			o := run(code)
			h.count(strings.Join(log, " "), nt)
			if wantErr {
				if o.Kind != "error" {
					h.fail("list operation", strings.Join(log, " "), "error", o.String(), "")
					ok = false
				}
			} else {
				if o.Kind != "value" || (set && o.Val != show(want)) {
					h.fail("list operation", strings.Join(log, " "), "value "+show(want), o.String(), fmt.Sprint(o.Err))
					ok = false
				}
			}
			for _, v := range vars {
				if o := s.run(v); ok && (o.Kind != "value" || o.Val != show(m[v])) {
					h.fail("a list changed or was shared wrongly", strings.Join(log, " ")+" "+v, "value "+show(m[v]), o.String(), "")
					ok = false
				}
			}
		}
	}
}

// slice2 lists every cell reachable from v up to a limit (used to keep the histories free of cycles).
func slice2(v V, lim int) []V {
	var out []V
	var walk func(V, int)
	walk = func(v V, d int) {
		if len(out) >= lim {
			return
		}
		if c, ok := v.(*Cell); ok {
			if d > 40 {
				for len(out) < lim {
					out = append(out, c)
				}
				return
			}
			out = append(out, c)
			walk(c.car, d+1)
			walk(c.cdr, d+1)
		}
	}
	walk(v, 0)
	return out
}

func elems(v V) ([]V, bool) {
	var r []V
	for {
		c, ok := v.(*Cell)
		if !ok {
			return r, isNil(v)
		}
		r = append(r, c.car)
		v = c.cdr
	}
}

// ---- arrays

func propP16(h *H) {
	h.rule("arrays of rank 1 to 4 with dimensions 1 to 5; random stores and reads at all subscripts, out-of-range and surplus subscripts; every element of two arrays is compared with a model after each store")
	for !h.done() {
		s := newSess()
		rank := 1 + h.rng.Intn(4)
		dims := make([]int, rank)
		size := 1
		for i := range dims {
			dims[i] = 1 + h.rng.Intn(5)
			if rank == 4 {
				dims[i] = 1 + h.rng.Intn(3)
			}
			size *= dims[i]
		}
		dt := strings.Trim(fmt.Sprint(dims), "[]")
		init := h.rng.Intn(100)
		log := []string{fmt.Sprintf("(defglobal a (create-array '(%s) %d))", dt, init), fmt.Sprintf("(defglobal b (create-array '(%s) %d))", dt, init)}
		model := make([]string, size)
		for i := range model {
			model[i] = fmt.Sprint(init)
		}
		for _, l := range log {
			if o := s.run(l); o.Kind != "value" {
				h.fail("create-array", l, "value", o.String(), "")
				return
			}
		}
		if o := s.run("(array-dimensions a)"); o.Val != "("+dt+")" {
			h.fail("array-dimensions", log[0]+" (array-dimensions a)", "("+dt+")", o.String(), "")
		}
		sub := func(k int) string {
			t := ""
			r := size
			for _, d := range dims {
				r /= d
				t += fmt.Sprintf(" %d", k/r%d)
			}
			return t
		}
		all := func(name string, mod func(i int) string) bool {
			for i := 0; i < size; i++ {
				if o := s.run("(aref " + name + sub(i) + ")"); o.Kind != "value" || o.Val != mod(i) {
					h.fail("array element", strings.Join(log, " ")+" (aref "+name+sub(i)+")", "value "+mod(i), o.String(), fmt.Sprint(o.Err))
					return false
				}
			}
			return true
		}
		ok := all("a", func(i int) string { return model[i] })
		if ok && rank > 1 && h.rng.Intn(2) == 0 {
			// a part takes another array: its elements are copied there, and the neighbours stay
			np := 1 + h.rng.Intn(rank-1)
			fs := strings.Fields(sub(h.rng.Intn(size)))[:np]
			psize, at, r := size, 0, size
			for i, f := range fs {
				n, _ := strconv.Atoi(f)
				r /= dims[i]
				at += n * r
				psize /= dims[i]
			}
			n := 1 + h.rng.Intn(psize+3)
			code := fmt.Sprintf("(set-aref (create-array '(%d) 77) a %s)", n, strings.Join(fs, " "))
			log = append(log, code)
			o := s.run(code)
			h.count(strings.Join(log, " "), true)
			if o.Kind == "value" {
				for i := 0; i < n && i < psize; i++ {
					model[at+i] = "77"
				}
			} else if o.Kind != "error" {
				h.fail("set-aref of a part", strings.Join(log, " "), "a value or an error", o.String(), fmt.Sprint(o.Err))
			}
			ok = all("a", func(i int) string { return model[i] })
		}
		for k := 0; k < 6 && ok; k++ {
			switch h.rng.Intn(4) {
			case 0, 1, 2:
				i := h.rng.Intn(size)
				v := fmt.Sprint(1000 + h.rng.Intn(1000))
				code := "(set-aref " + v + " a" + sub(i) + ")"
				log = append(log, code)
				o := s.run(code)
				h.count(strings.Join(log, " "), size > 1)
				if o.Kind != "value" || o.Val != v {
					h.fail("set-aref result", strings.Join(log, " "), "value "+v, o.String(), fmt.Sprint(o.Err))
					ok = false
				}
				model[i] = v
			case 3:
				// one wrong subscript, or one too many
				i := h.rng.Intn(size)
				fs := strings.Fields(sub(i))
				p := h.rng.Intn(rank + 1)
				if p == rank {
					fs = append(fs, "0")
				} else {
					fs[p] = []string{"-1", fmt.Sprint(dims[p]), fmt.Sprint(dims[p] + h.rng.Intn(100)), "-9223372036854775808", "9223372036854775807", "'x", "1.0"}[h.rng.Intn(7)]
				}
				for _, code := range []string{"(aref a " + strings.Join(fs, " ") + ")", "(set-aref 5 a " + strings.Join(fs, " ") + ")"} {
					h.count(code, true)
					if o := s.run(code); o.Kind != "error" {
						h.fail("subscript out of range", strings.Join(log, " ")+" "+code, "error", o.String(), "")
						ok = false
					}
				}
			}
			ok = ok && all("a", func(i int) string { return model[i] }) && all("b", func(int) string { return fmt.Sprint(init) })
		}
		h.expect("array of rank 0", "(let ((z (create-array '() 7))) (set-aref 8 z) (list (aref z) (array-dimensions z)))", "value (8 nil)", "*")
		h.expect("array of rank 0", "(aref (create-array '() 7) 0)", "error", "*")
		for _, bad := range []string{"(create-array '(0) 1)", "(create-array '(2 -1) 1)", "(create-array '(x) 1)", "(create-array '(4611686018427387904 4) 1)", "(create-array '(2 4294967296 4294967296) 1)"} {
			h.count(bad, true)
			if o := s.run(bad); o.Kind != "error" {
				h.fail("create-array dimensions", bad, "error", o.String(), "")
			}
		}
	}
}

// ---- hash tables

func propP17(h *H) {
	h.rule("histories of 30 operations on two tables with keys of five kinds against a map model; every key of both tables is read back regularly")
	keys := []string{"1", "2", "-1", "0", "1.0", "0.5", "\"a\"", "\"A\"", "\"\"", "\"1\"", "'a", "'b", "#\\a", "#\\b", "97", "nil", "t"}
	badKeys := []string{"(list 1)", "(vector 1)", "tab0", "#'car", "(cons 1 2)", "(sqrt -1.0)"}
	for !h.done() {
		s := newSess()
		log := []string{"(defglobal tab0 (make-hash-table))", "(defglobal tab1 (make-hash-table))"}
		for _, l := range log {
			s.run(l)
		}
		m := [2]map[string]string{{}, {}}
		step := func(code, want string) bool {
			log = append(log, code)
			o := s.run(code)
			h.count(strings.Join(log, " "), true)
			got := o.Kind
			if o.Kind == "value" {
				got = "value " + o.Val
			}
			if want != "any" && got != want {
				h.fail("hash table", strings.Join(log, " "), want, o.String(), fmt.Sprint(o.Err))
				return false
			}
			return o.Kind == "value" || o.Kind == "error"
		}
		ok := true
		for k := 0; k < 30 && ok && !h.done(); k++ {
			t := h.rng.Intn(2)
			tab := fmt.Sprintf("tab%d", t)
			key := keys[h.rng.Intn(len(keys))]
			switch h.rng.Intn(10) {
			case 0, 1, 2, 3:
				v := fmt.Sprint(h.rng.Intn(1000))
				if h.rng.Intn(6) == 0 {
					v = "nil"
				}
				ok = step("(set-gethash "+v+" "+key+" "+tab+")", "value "+v)
				m[t][key] = v
			case 4, 5:
				want := "value nil"
				if v, has := m[t][key]; has {
					want = "value " + v
				}
				ok = step("(gethash "+key+" "+tab+")", want)
			case 6, 7:
				ok = step("(remhash "+key+" "+tab+")", "any")
				delete(m[t], key)
			case 8:
				if h.rng.Intn(5) == 0 {
					ok = step("(clrhash "+tab+")", "any")
					m[t] = map[string]string{}
				}
			case 9:
				b := badKeys[h.rng.Intn(len(badKeys))]
				ok = step("(set-gethash 1 "+b+" "+tab+")", "error") && step("(gethash "+b+" "+tab+")", "error") && step("(remhash "+b+" "+tab+")", "error")
			}
			for t := 0; t < 2 && ok; t++ {
				ok = step(fmt.Sprintf("(hash-table-count tab%d)", t), fmt.Sprintf("value %d", len(m[t])))
				log = log[:len(log)-1]
				for _, key := range keys {
					if !ok || k%5 != 4 {
						break
					}
					want := "value nil"
					if v, has := m[t][key]; has {
						want = "value " + v
					}
					ok = step(fmt.Sprintf("(gethash %s tab%d)", key, t), want)
					log = log[:len(log)-1]
				}
			}
		}
	}
}

// ---- equality

type eqv struct {
	kind string // "int", "float", "char", "str", "sym", "list", "vec"
	num  *big.Rat
	text string
	els  []*eqv
}

func (h *H) eqValue(d int) *eqv {
	switch k := h.rng.Intn(9); {
	case k == 0:
		return &eqv{kind: "int", num: big.NewRat(int64(h.rng.Intn(3)-1), 1)}
	case k == 1:
		return &eqv{kind: "float", num: big.NewRat(int64(h.rng.Intn(5)-2), 2)}
	case k == 2:
		return &eqv{kind: "char", text: []string{"a", "A", "b", "é", "É"}[h.rng.Intn(5)]}
	case k == 3:
		return &eqv{kind: "str", text: []string{"", "a", "A", "ab", "aB", "é", "É"}[h.rng.Intn(7)]}
	case k == 4:
		return &eqv{kind: "sym", text: []string{"a", "A", "ab"}[h.rng.Intn(3)]}
	case k == 5:
		return &eqv{kind: "list"}
	default:
		kind := "list"
		if k == 8 {
			kind = "vec"
		}
		v := &eqv{kind: kind}
		n := 1 + h.rng.Intn(2)
		if h.rng.Intn(4) == 0 {
			n += h.rng.Intn(4)
		}
		for i := 0; i < n && d > 0; i++ {
			v.els = append(v.els, h.eqValue(d-1))
		}
		if kind == "vec" && len(v.els) == 0 {
			v.els = append(v.els, &eqv{kind: "int", num: big.NewRat(1, 1)})
		}
		return v
	}
}

func (v *eqv) src() string {
	switch v.kind {
	case "int":
		return v.num.Num().String()
	case "float":
		return v.num.FloatString(1)
	case "char":
		return "#\\" + v.text
	case "str":
		return strconv.Quote(v.text)
	case "sym":
		return "'" + v.text
	}
	op := "(list"
	if v.kind == "vec" {
		op = "(vector"
	}
	for _, e := range v.els {
		op += " " + e.src()
	}
	return op + ")"
}

func eqOracle(a, b *eqv, p bool) bool {
	if a.num != nil && b.num != nil {
		return (p || a.kind == b.kind) && a.num.Cmp(b.num) == 0
	}
	if a.kind != b.kind || len(a.els) != len(b.els) {
		return false
	}
	if p && (a.kind == "char" || a.kind == "str") {
		return strings.EqualFold(a.text, b.text)
	}
	if a.text != b.text {
		return false
	}
	for i := range a.els {
		if !eqOracle(a.els[i], b.els[i], p) {
			return false
		}
	}
	return true
}

// vary is a copy of v of which one part is written differently: in another case, as another kind of number, one element less
// or more, another atom.
func (h *H) vary(v *eqv) *eqv {
	c := *v
	c.els = append([]*eqv{}, v.els...)
	switch {
	case len(c.els) > 0 && h.rng.Intn(8) > 0:
		i := h.rng.Intn(len(c.els))
		c.els[i] = h.vary(c.els[i])
	case c.kind == "list":
		if len(c.els) > 0 && h.rng.Intn(2) == 0 {
			c.els = c.els[:len(c.els)-1]
		} else {
			c.els = append(c.els, h.eqValue(0))
		}
	case c.kind == "int":
		c.kind = "float"
	case c.kind == "float" && c.num.IsInt():
		c.kind = "int"
	case c.kind == "char" || c.kind == "str":
		if u := strings.ToUpper(c.text); u != c.text {
			c.text = u
		} else {
			c.text = strings.ToLower(c.text)
		}
	default:
		return h.eqValue(0)
	}
	return &c
}

func propP18(h *H) {
	h.rule("pairs of values of seven kinds up to depth 2, bound to variables (also the same object twice); all four predicates both ways; non-trivial when equalp holds or both are structured")
	for !h.done() {
		a := h.eqValue(2)
		b := h.eqValue(2)
		for i := 0; i < 3 && b.kind != a.kind; i++ {
			b = h.eqValue(2)
		}
		same := false
		bs := b.src()
		switch h.rng.Intn(4) {
		case 0:
			b, bs, same = a, "x", true
		case 1:
			b, bs = a, a.src()
		case 2:
			b = h.vary(a)
			if h.rng.Intn(3) == 0 {
				b = h.vary(b)
			}
			bs = b.src()
		}
		code := "(let* ((x " + a.src() + ") (y " + bs + ")) (list (eq x y) (eq y x) (eql x y) (eql y x) (equal x y) (equal y x) (equalp x y) (equalp y x)))"
		o := newSess().run(code)
		h.count(code, eqOracle(a, b, true) || len(a.els)+len(b.els) > 0)
		f := strings.Fields(strings.Trim(o.Val, "()"))
		if o.Kind != "value" || len(f) != 8 {
			h.fail("equality", code, "eight truth values", o.String(), fmt.Sprint(o.Err))
			continue
		}
		at := func(i int) bool { return f[i] == "t" }
		bad := ""
		for i := 0; i < 8; i += 2 {
			if at(i) != at(i+1) {
				bad = "not symmetric"
			}
			if same && !at(i) {
				bad = "not reflexive"
			}
			if i > 0 && at(i-2) && !at(i) {
				bad = "a finer predicate holds where a coarser does not"
			}
		}
		if at(4) != eqOracle(a, b, false) {
			bad = "equal is wrong"
		}
		if at(6) != eqOracle(a, b, true) {
			bad = "equalp is wrong"
		}
		if at(2) && !eqOracle(a, b, false) || at(0) && !eqOracle(a, b, false) {
			bad = "eq or eql holds for values that are not equal"
		}
		if (a.kind == "sym" || a.kind == "int" || a.kind == "char") && eqOracle(a, b, false) && !at(2) {
			bad = "eql fails for equal atoms"
		}
		if bad != "" {
			h.fail("equality", code, "a consistent hierarchy", o.String(), bad)
		}
	}
}

// ---- symbols

func propP19(h *H) {
	h.rule("names of random letters (both cases) and digits: identity, names, gensym against every symbol made before, also under names gensym itself uses")
	for !h.done() {
		s := newSess()
		var names []string
		var log []string
		for i := 0; i < 6; i++ {
			n := 1 + h.rng.Intn(4)
			b := make([]byte, n)
			for j := range b {
				b[j] = "abAB-*x"[h.rng.Intn(7)]
			}
			names = append(names, "q"+string(b))
		}
		// names of all lengths that share a beginning
		long := "w" + strings.Repeat("ab-é"[:2+h.rng.Intn(3)/2], 1+h.rng.Intn(300))
		names = append(names, long+"x", long+"y", long)
		for i, a := range names {
			b := names[h.rng.Intn(len(names))]
			want := "value nil"
			if a == b {
				want = "value t"
			}
			if i == 6 {
				b, want = names[7], "value nil"
			}
			h.expectIn(s, "symbol identity", "(eq ':"+a+" ':"+b+")", want, "*")
			h.expectIn(s, "symbol identity", "(eq '"+a+" '"+b+")", want, "*")
			h.expectIn(s, "symbol identity", "(eq '"+a+" (convert \""+b+"\" <symbol>))", want, "*")
			h.expectIn(s, "symbol name", "(convert '"+a+" <string>)", "value \""+a+"\"", "*")
			_ = i
		}
		// gensym is different from everything made before, including the names it is about to use
		o := s.run("(convert (gensym) <string>)")
		name, err := strconv.Unquote(o.Val)
		log = append(log, "(convert (gensym) <string>)")
		if err != nil {
			h.fail("gensym", "(convert (gensym) <string>)", "a name", o.String(), "")
			continue
		}
		i := strings.IndexAny(name, "0123456789")
		j := strings.LastIndexAny(name, "0123456789")
		seen := map[string]bool{name: true}
		if i >= 0 {
			base, err := strconv.Atoi(name[i : j+1])
			if err == nil {
				for d := -3; d < 8; d++ {
					nm := name[:i] + strconv.Itoa(base+d) + name[j+1:]
					c := "(convert \"" + nm + "\" <symbol>)"
					log = append(log, c)
					s.run(c)
					seen[nm] = true
				}
			}
		}
		for k := 0; k < 4; k++ {
			o := s.run("(convert (gensym) <string>)")
			nm, _ := strconv.Unquote(o.Val)
			log = append(log, "(gensym)")
			h.count(fmt.Sprint(log), true)
			if seen[nm] {
				h.fail("gensym", strings.Join(log, " "), "a fresh symbol", "the existing symbol "+nm, "")
			}
			seen[nm] = true
		}
		h.expectIn(s, "gensym", "(let ((g (gensym)) (k (gensym))) (list (eq g g) (eq g k) (eq g 'x) (symbolp g)))", "value (t nil nil t)", "*")
	}
}

// ---- strings

var strPool = []string{"", "a", "b", "ab", "abc", "ABC", "é", "aé", "日本語", "a日b", "\U0001F600x", "xyxyx", "zz", "aa", "aaaa"}

func runesOf(s string) []rune { return []rune(s) }

func lispStr(s string) string {
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
}

func propP25(h *H) {
	h.rule("strings with one- to four-byte characters, indices from -2 to beyond the end; oracle: the sequence of code points")
	str := func() string {
		if h.rng.Intn(2) == 0 {
			return strPool[h.rng.Intn(len(strPool))]
		}
		var b strings.Builder
		for n := h.rng.Intn(6); n > 0; n-- {
			b.WriteRune([]rune("abcé日x\U0001F600")[h.rng.Intn(7)])
		}
		return b.String()
	}
	tf := func(b bool) string {
		if b {
			return "value t"
		}
		return "value nil"
	}
	for !h.done() {
		s, t := str(), str()
		switch h.rng.Intn(4) {
		case 0: // strings that differ little
			t = s + []string{" ", "\t", "a", "\u00e9", "0", "  "}[h.rng.Intn(6)]
		case 1:
			t = []string{strings.ToUpper(s), strings.TrimSpace(s), " " + s, "A" + s}[h.rng.Intn(4)]
		}
		if h.rng.Intn(2) == 0 {
			s, t = t, s
		}
		rs := runesOf(s)
		q, qt := lispStr(s), lispStr(t)
		h.expect("string-append", "(string-append "+q+" "+qt+" "+q+")", "value "+strconv.Quote(s+t+s), "*")
		h.expect("length", "(length "+q+")", fmt.Sprintf("value %d", len(rs)), "*")
		i := h.rng.Intn(len(rs)+4) - 2
		if i >= 0 && i < len(rs) {
			h.expect("elt", fmt.Sprintf("(elt %s %d)", q, i), fmt.Sprintf("value #u%d", rs[i]), "*")
		} else {
			h.expect("elt out of range", fmt.Sprintf("(elt %s %d)", q, i), "value-or-error nil", "*")
		}
		j := h.rng.Intn(len(rs)+4) - 1
		if i >= 0 && j >= i && j <= len(rs) {
			h.expect("subseq", fmt.Sprintf("(subseq %s %d %d)", q, i, j), "value "+strconv.Quote(string(rs[i:j])), "*")
		} else {
			h.expect("subseq out of range", fmt.Sprintf("(subseq %s %d %d)", q, i, j), "error", "*")
		}
		// string-index
		st := h.rng.Intn(len(rs)+4) - 1
		want := "value nil"
		if st >= 0 && st <= len(rs) {
			if k := strings.Index(string(rs[st:]), t); k >= 0 {
				want = fmt.Sprintf("value %d", st+utf8.RuneCountInString(string(rs[st:])[:k]))
			}
			h.expect("string-index", fmt.Sprintf("(string-index %s %s %d)", qt, q, st), want, "*")
		} else {
			h.expect("string-index outside", fmt.Sprintf("(string-index %s %s %d)", qt, q, st), "value-or-error nil", "*")
		}
		k0 := strings.Index(s, t)
		w0 := "value nil"
		if k0 >= 0 {
			w0 = fmt.Sprintf("value %d", utf8.RuneCountInString(s[:k0]))
		}
		h.expect("string-index", fmt.Sprintf("(string-index %s %s)", qt, q), w0, "*")
		// char-index
		c := []rune("abé日x")[h.rng.Intn(5)]
		wc := "value nil"
		for k, r := range rs {
			if k >= st && r == c {
				wc = fmt.Sprintf("value %d", k)
				break
			}
		}
		if st >= 0 {
			h.expect("char-index", fmt.Sprintf("(char-index #\\%c %s %d)", c, q, st), wc, "*")
		}
		n := h.rng.Intn(5)
		h.expect("create-string", fmt.Sprintf("(create-string %d #\\%c)", n, c), "value "+strconv.Quote(strings.Repeat(string(c), n)), "*")
		h.expect("create-string", fmt.Sprintf("(create-string %d)", n), "value "+strconv.Quote(strings.Repeat(" ", n)), "*")
		cmp := cmpRunes(rs, runesOf(t))
		for op, f := range map[string]bool{"string<": cmp < 0, "string<=": cmp <= 0, "string=": cmp == 0, "string>": cmp > 0, "string>=": cmp >= 0, "string/=": cmp != 0} {
			h.expect(op, "("+op+" "+q+" "+qt+")", tf(f), "*")
		}
		d := []rune("abé日x")[h.rng.Intn(5)]
		cc := int(c) - int(d)
		for op, f := range map[string]bool{"char<": cc < 0, "char<=": cc <= 0, "char=": cc == 0, "char>": cc > 0, "char>=": cc >= 0, "char/=": cc != 0} {
			h.expect(op, fmt.Sprintf("(%s #\\%c #\\%c)", op, c, d), tf(f), "*")
		}
	}
}

func cmpRunes(a, b []rune) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	return len(a) - len(b)
}

// ---- format

func propP29(h *H) {
	h.rule("control strings of up to six pieces: literals, ~% ~~ ~a ~s ~d ~x ~o ~b ~f with widths and paddings, on integers of any size, floats, strings, symbols and lists; missing arguments and unknown directives")
	lit := func() string { return []string{"abc", " ", "é日", "x=", "(", ")", "1", ";"}[h.rng.Intn(8)] }
	for !h.done() {
		ctl, want := "", ""
		var args []string
		bad := false
		for n := h.rng.Intn(6); n >= 0; n-- {
			pad := func(body string, w int, left bool, c rune) string {
				k := w - utf8.RuneCountInString(body)
				if k <= 0 {
					return body
				}
				if left {
					return strings.Repeat(string(c), k) + body
				}
				return body + strings.Repeat(" ", k)
			}
			switch h.rng.Intn(9) {
			case 0, 1:
				l := lit()
				ctl, want = ctl+l, want+l
			case 2:
				ctl, want = ctl+"~%", want+"\n"
			case 3:
				ctl, want = ctl+"~~", want+"~"
			case 4, 5:
				base := []int{10, 16, 8, 2}[h.rng.Intn(4)]
				x := h.anInt()
				body := strings.ToUpper(x.Text(base))
				p, pc, w := "", ' ', 0
				if h.rng.Intn(2) == 0 {
					w = h.rng.Intn(25)
					p = fmt.Sprint(w)
					if h.rng.Intn(2) == 0 {
						pc = []rune("0*é ")[h.rng.Intn(4)]
						p += ",'" + string(pc)
					}
				}
				d := map[int]string{10: "d", 16: "x", 8: "o", 2: "b"}[base]
				if h.rng.Intn(2) == 0 {
					d = strings.ToUpper(d)
				}
				ctl += "~" + p + d
				want += pad(body, w, true, pc)
				args = append(args, x.String())
			case 6:
				v := []struct{ src, a, s string }{{"12", "12", "12"}, {"\"st\"", "st", "\"st\""}, {"'sym", "sym", "sym"}, {"(list 1 \"a\")", "(1 a)", "(1 \"a\")"}, {"#\\a", "a", "#\\a"}, {"nil", "nil", "nil"}}[h.rng.Intn(6)]
				esc := h.rng.Intn(2) == 0
				w := 0
				p := ""
				if h.rng.Intn(3) == 0 {
					w = h.rng.Intn(12)
					p = fmt.Sprint(w)
				}
				if esc {
					ctl, want = ctl+"~"+p+"s", want+pad(v.s, w, false, ' ')
				} else {
					ctl, want = ctl+"~"+p+"a", want+pad(v.a, w, false, ' ')
				}
				args = append(args, v.src)
			case 7:
				f := float64(h.rng.Intn(201)-100) / 4
				ctl, want = ctl+"~f", want+strconv.FormatFloat(f, 'f', -1, 64)
				args = append(args, strconv.FormatFloat(f, 'f', 4, 64))
			case 8:
				if h.rng.Intn(6) > 0 {
					continue
				}
				bad = true
				if h.rng.Intn(2) == 0 {
					ctl += []string{"~q", "~z", "~!", "~ıd", "~٣d"}[h.rng.Intn(5)]
					args = append(args, "7")
				} else {
					ctl += []string{"~a", "~d", "~5,'*x"}[h.rng.Intn(3)]
				}
			}
			if bad {
				break
			}
		}
		code := "(format nil " + lispStr(ctl) + " " + strings.Join(args, " ") + ")"
		if bad {
			h.expect("format error", code, "error", "*")
			continue
		}
		h.expect("format", code, "value "+strconv.Quote(want), "*")
		if h.rng.Intn(4) == 0 {
			s := newSess()
			c2 := "(format (standard-output) " + lispStr(ctl) + " " + strings.Join(args, " ") + ")"
			h.count(c2, true)
			if o := s.run(c2); o.Kind != "value" || s.out.String() != want {
				h.fail("format to a stream", c2, strconv.Quote(want), strconv.Quote(s.out.String())+" "+o.String(), fmt.Sprint(o.Err))
			}
		}
	}
}

// ---- printing and reading back

func propP30(h *H) {
	h.rule("nested lists and vectors of integers, plain symbols, strings with quotes, backslashes, newlines and multi-byte characters, characters")
	var gen func(d int) string
	gen = func(d int) string {
		switch h.rng.Intn(8) {
		case 0, 1:
			return h.anInt().String()
		case 2:
			return "'" + []string{"abc", "x-y", "*foo*", "a1", "Abc", "nil", "t", "+", "-", "1+", "a.b", "<=", "é"}[h.rng.Intn(13)]
		case 3, 4:
			var b strings.Builder
			for n := h.rng.Intn(6); n > 0; n-- {
				rs := []rune("ab\"\\\n\t é日|;'(\r\x01")
				b.WriteRune(rs[h.rng.Intn(len(rs))])
			}
			return lispStr(b.String())
		case 5:
			return fmt.Sprintf("(convert %d <character>)", []int{97, 65, 32, 9, 10, 13, 233, 26085, 48, 34, 59, 42, 124}[h.rng.Intn(13)])
		}
		if d <= 0 {
			return "nil"
		}
		op := "(list"
		if h.rng.Intn(3) == 0 {
			op = "(vector"
		}
		for n := h.rng.Intn(4); n > 0; n-- {
			op += " " + gen(d-1)
		}
		if op == "(vector" {
			op = "(vector 1"
		}
		if op == "(list" {
			return "nil"
		}
		if op[1] == 'l' && h.rng.Intn(4) == 0 {
			return "(cons " + gen(d-1) + " " + h.anInt().String() + ")"
		}
		return op + ")"
	}
	for !h.done() {
		v := gen(3)
		code := "(let* ((x " + v + ") (y (read (create-string-input-stream (format nil \"~s\" x))))) (list (equal x y) (eq (class-of x) (class-of y))))"
		h.expect("read of print", code, "value (t t)", "*")
	}
}

func init() {
	for n, f := range map[string]propFunc{"P11": propP11, "P12": propP12, "P13": propP13, "P14": propP14, "P16": propP16, "P17": propP17, "P18": propP18, "P19": propP19, "P25": propP25, "P29": propP29, "P30": propP30} {
		props[n] = f
	}
}
