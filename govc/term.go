package main

// Hash-consed SMT terms with light simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SVal  Sort = "Val"
	SStr  Sort = "Str"
	SF64  Sort = "F64"
)

func ArrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// T is a term. op is an SMT function symbol, a literal ("#int","#true","#false") or a constant name.
type T struct {
	op   string
	args []*T
	sort Sort
	id   int
	lit  *big.Int // for integer literals
	cst  bool     // a declared constant
	raw  string   // raw text (quantified formulas)
	deps []*T     // terms mentioned by raw text
}

var (
	tmu    sync.Mutex
	tcons  = map[string]*T{}
	tcount int
	// uninterpreted functions: name -> signature "(A B) C"
	ufSig = map[string]string{}
)

func intern(t *T) *T {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(string(t.sort))
	if t.raw != "" {
		sb.WriteByte('|')
		sb.WriteString(t.raw)
	}
	for _, a := range t.args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	tmu.Lock()
	defer tmu.Unlock()
	if x, ok := tcons[k]; ok {
		return x
	}
	tcount++
	t.id = tcount
	tcons[k] = t
	return t
}

// termLess orders terms by what they say: contracts are checked in parallel and share the table of terms,
// so the order in which terms are made differs from run to run.
func termLess(a, b *T) bool { return termCmp(a, b) < 0 }

func termCmp(a, b *T) int {
	if a == b {
		return 0
	}
	if c := natCmp(a.op, b.op); c != 0 {
		return c
	}
	if c := strings.Compare(string(a.sort), string(b.sort)); c != 0 {
		return c
	}
	if c := strings.Compare(a.raw, b.raw); c != 0 {
		return c
	}
	if len(a.args) != len(b.args) {
		return len(a.args) - len(b.args)
	}
	for i, x := range a.args {
		if c := termCmp(x, b.args[i]); c != 0 {
			return c
		}
	}
	return 0
}

// natCmp compares names; numbers in them by value.
func natCmp(a, b string) int {
	dig := func(c byte) bool { return '0' <= c && c <= '9' }
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		if dig(a[i]) && dig(b[j]) {
			p, q := i, j
			for i < len(a) && dig(a[i]) {
				i++
			}
			for j < len(b) && dig(b[j]) {
				j++
			}
			x, y := strings.TrimLeft(a[p:i], "0"), strings.TrimLeft(b[q:j], "0")
			if len(x) != len(y) {
				return len(x) - len(y)
			}
			if c := strings.Compare(x, y); c != 0 {
				return c
			}
			continue
		}
		if a[i] != b[j] {
			return int(a[i]) - int(b[j])
		}
		i++
		j++
	}
	if c := (len(a) - i) - (len(b) - j); c != 0 {
		return c
	}
	return strings.Compare(a, b)
}

func IntT(n int64) *T { return BigT(big.NewInt(n)) }
func BigT(n *big.Int) *T {
	return intern(&T{op: "#" + n.String(), sort: SInt, lit: n})
}

var (
	True  = intern(&T{op: "true", sort: SBool})
	False = intern(&T{op: "false", sort: SBool})
)

func BoolT(b bool) *T {
	if b {
		return True
	}
	return False
}

// Const makes (or finds) the declared constant of that name.
func Const(name string, s Sort) *T { return intern(&T{op: name, sort: s, cst: true}) }

func rawApp(op string, s Sort, args ...*T) *T { return intern(&T{op: op, sort: s, args: args}) }

// UF applies an uninterpreted function, registering its signature.
func UF(name string, s Sort, args ...*T) *T {
	var sb strings.Builder
	sb.WriteByte('(')
	for i, a := range args {
		if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(string(a.sort))
	}
	sb.WriteString(") ")
	sb.WriteString(string(s))
	tmu.Lock()
	if old, ok := ufSig[name]; ok && old != sb.String() {
		tmu.Unlock()
		panic("UF signature clash: " + name + " " + old + " / " + sb.String())
	}
	ufSig[name] = sb.String()
	tmu.Unlock()
	return intern(&T{op: name, sort: s, args: args})
}

// Raw makes a raw boolean formula (e.g. quantified); deps are the terms it mentions as %0, %1, ...
func Raw(text string, deps ...*T) *T {
	return intern(&T{op: "#raw", sort: SBool, raw: text, args: deps})
}

func (t *T) isLit() bool { return t.lit != nil }

func (t *T) String() string {
	if t.lit != nil {
		if t.lit.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.lit).String() + ")"
		}
		return t.lit.String()
	}
	if t.op == "#raw" {
		s := t.raw
		for i := len(t.args) - 1; i >= 0; i-- {
			s = strings.ReplaceAll(s, "%"+strconv.Itoa(i), t.args[i].String())
		}
		return s
	}
	if len(t.args) == 0 {
		return sym(t.op)
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opText(t))
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(a.String())
	}
	sb.WriteByte(')')
	return sb.String()
}

func opText(t *T) string {
	if strings.HasPrefix(t.op, "is-") {
		return "(_ is " + t.op[3:] + ")"
	}
	if t.op == "constarr" {
		return "(as const " + string(t.sort) + ")"
	}
	return sym(t.op)
}

func sym(s string) string {
	switch s {
	case "+", "-", "*", "=", "<", "<=", ">", ">=", "and", "or", "not", "ite", "=>", "select", "store", "div", "mod", "abs", "true", "false", "distinct":
		return s
	}
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_!-.$", r)) {
			if strings.Contains(s, "|") {
				panic("bad symbol " + s)
			}
			return "|" + s + "|"
		}
	}
	return s
}

// ---- boolean ----
func Not(a *T) *T {
	if a == True {
		return False
	}
	if a == False {
		return True
	}
	if a.op == "not" {
		return a.args[0]
	}
	return rawApp("not", SBool, a)
}

func nary(op string, unit, zero *T, xs []*T) *T {
	var out []*T
	seen := map[int]bool{}
	var add func(x *T) bool
	add = func(x *T) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if !seen[x.id] {
			seen[x.id] = true
			out = append(out, x)
		}
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	for _, x := range out {
		if x.op == "not" && seen[x.args[0].id] {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return rawApp(op, SBool, out...)
}
func And(xs ...*T) *T    { return nary("and", True, False, xs) }
func Or(xs ...*T) *T     { return nary("or", False, True, xs) }
func Implies(a, b *T) *T { return Or(Not(a), b) }
func Ite(c, a, b *T) *T {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		return And(Or(Not(c), a), Or(c, b))
	}
	return rawApp("ite", a.sort, c, a, b)
}

func isValCtor(op string) bool { _, ok := valSel[op]; return ok }

func Eq(a, b *T) *T {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch: %s:%s vs %s:%s", a, a.sort, b, b.sort))
	}
	if a.isLit() && b.isLit() {
		return BoolT(a.lit.Cmp(b.lit) == 0)
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if isValCtor(a.op) && isValCtor(b.op) {
		if a.op != b.op {
			return False
		}
		var cs []*T
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if isValCtor(b.op) && !isValCtor(a.op) {
		a, b = b, a
	}
	if isValCtor(a.op) {
		if b.op == "ite" {
			return Ite(b.args[0], Eq(a, b.args[1]), Eq(a, b.args[2]))
		}
		if len(a.args) == 0 {
			return Is(a.op, b)
		}
		if a.args[0].isLit() { // C(tid, x) = b
			cs := []*T{Is(a.op, b), Eq(a.args[0], Sel(valSel[a.op][0], b))}
			if len(a.args) > 1 {
				cs = append(cs, Eq(a.args[1], Sel(valSel[a.op][1], b)))
			}
			return And(cs...)
		}
	}
	if a.sort == SInt {
		ba, ka := splitAdd(a)
		bb, kb := splitAdd(b)
		if ba == bb {
			return BoolT(ka.Cmp(kb) == 0)
		}
		if a.op == "ite" && b.isLit() {
			if a.args[1].isLit() || a.args[2].isLit() {
				return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
			}
		}
		if b.op == "ite" && a.isLit() {
			if b.args[1].isLit() || b.args[2].isLit() {
				return Ite(b.args[0], Eq(b.args[1], a), Eq(b.args[2], a))
			}
		}
	}
	if isStrLit(a) && isStrLit(b) {
		return False
	}
	if termLess(b, a) {
		a, b = b, a
	}
	return rawApp("=", SBool, a, b)
}

// ---- Val datatype ----
var valSel = map[string][]string{
	"VNil": {}, "VI": {"vit", "vi"}, "VF": {"vft", "vf"}, "VS": {"vst", "vs"}, "VB": {"vbt", "vb"},
	"VP": {"vpt", "vp"}, "VT": {"vtt"}, "VX": {"vxt", "vx"}, "VO": {"vot", "vo"}, "VFn": {"vfnt", "vfn"}, "VW": {"vw", "vwid"},
}
var valSelSort = map[string]Sort{"vit": SInt, "vi": SInt, "vft": SInt, "vf": SF64, "vst": SInt, "vs": SStr, "vbt": SInt, "vb": SBool,
	"vpt": SInt, "vp": SInt, "vtt": SInt, "vxt": SInt, "vx": SVal, "vot": SInt, "vo": SInt, "vfnt": SInt, "vfn": SInt, "vw": SVal, "vwid": SInt}
var selCtor = func() map[string]string {
	m := map[string]string{}
	for c, ss := range valSel {
		for _, s := range ss {
			m[s] = c
		}
	}
	return m
}()

const valDecl = `(declare-sort Str 0)
(declare-sort F64 0)
(declare-datatypes ((Val 0)) (((VNil) (VI (vit Int) (vi Int)) (VF (vft Int) (vf F64)) (VS (vst Int) (vs Str)) (VB (vbt Int) (vb Bool)) (VP (vpt Int) (vp Int)) (VT (vtt Int)) (VX (vxt Int) (vx Val)) (VO (vot Int) (vo Int)) (VFn (vfnt Int) (vfn Int)) (VW (vw Val) (vwid Int)))))
`

var VNil = intern(&T{op: "VNil", sort: SVal})

func Ctor(c string, args ...*T) *T { return rawApp(c, SVal, args...) }

func Is(c string, v *T) *T {
	if isValCtor(v.op) {
		return BoolT(v.op == c)
	}
	if v.op == "ite" {
		return Ite(v.args[0], Is(c, v.args[1]), Is(c, v.args[2]))
	}
	return rawApp("is-"+c, SBool, v)
}

func Sel(s string, v *T) *T {
	c := selCtor[s]
	if v.op == c {
		for i, n := range valSel[c] {
			if n == s {
				return v.args[i]
			}
		}
	}
	if v.op == "ite" {
		a, b := v.args[1], v.args[2]
		if a.op == c && b.op == c {
			return Ite(v.args[0], Sel(s, a), Sel(s, b))
		}
		if isValCtor(a.op) && a.op != c {
			return Sel(s, b)
		}
		if isValCtor(b.op) && b.op != c {
			return Sel(s, a)
		}
	}
	return rawApp(s, valSelSort[s], v)
}

// ---- integers ----
func splitAdd(t *T) (*T, *big.Int) {
	if t.lit != nil {
		return nil, t.lit
	}
	if t.op == "+" && len(t.args) == 2 && t.args[1].lit != nil {
		return t.args[0], t.args[1].lit
	}
	return t, big.NewInt(0)
}

func Add(a, b *T) *T {
	ba, ka := splitAdd(a)
	bb, kb := splitAdd(b)
	k := new(big.Int).Add(ka, kb)
	switch {
	case ba == nil && bb == nil:
		return BigT(k)
	case ba == nil:
		return addK(bb, k)
	case bb == nil:
		return addK(ba, k)
	}
	if termLess(bb, ba) {
		ba, bb = bb, ba
	}
	return addK(rawApp("+", SInt, ba, bb), k)
}
func addK(b *T, k *big.Int) *T {
	if k.Sign() == 0 {
		return b
	}
	return rawApp("+", SInt, b, BigT(k))
}
func Neg(a *T) *T {
	if a.lit != nil {
		return BigT(new(big.Int).Neg(a.lit))
	}
	return rawApp("-", SInt, IntT(0), a)
}
func Sub(a, b *T) *T {
	if b.lit != nil {
		return Add(a, BigT(new(big.Int).Neg(b.lit)))
	}
	if a == b {
		return IntT(0)
	}
	ba, ka := splitAdd(a)
	bb, kb := splitAdd(b)
	if ba == bb && ba != nil {
		return BigT(new(big.Int).Sub(ka, kb))
	}
	return rawApp("-", SInt, a, b)
}
func Mul(a, b *T) *T {
	if a.lit != nil && b.lit != nil {
		return BigT(new(big.Int).Mul(a.lit, b.lit))
	}
	if a.lit != nil {
		a, b = b, a
	}
	if b.lit != nil && b.lit.IsInt64() {
		if b.lit.Int64() == 1 {
			return a
		}
		if b.lit.Sign() == 0 {
			return b
		}
	}
	if b.lit == nil && termLess(b, a) {
		a, b = b, a
	}
	return rawApp("*", SInt, a, b)
}
func Lt(a, b *T) *T { return Not(Le(b, a)) }
func Le(a, b *T) *T {
	if a == b {
		return True
	}
	if a.lit != nil && b.lit != nil {
		return BoolT(a.lit.Cmp(b.lit) <= 0)
	}
	ba, ka := splitAdd(a)
	bb, kb := splitAdd(b)
	if ba == bb && ba != nil {
		return BoolT(ka.Cmp(kb) <= 0)
	}
	return rawApp("<=", SBool, a, b)
}
func Ge(a, b *T) *T { return Le(b, a) }
func Gt(a, b *T) *T { return Lt(b, a) }

// ---- strings ----
var (
	strLitMu sync.Mutex
	strLits  = map[string]*T{}
	strLitOf = map[*T]string{}
)

func StrLit(s string) *T {
	strLitMu.Lock()
	defer strLitMu.Unlock()
	if t, ok := strLits[s]; ok {
		return t
	}
	t := Const(fmt.Sprintf("strlit!%d", len(strLits)), SStr)
	strLits[s] = t
	strLitOf[t] = s
	return t
}
func isStrLit(t *T) bool {
	if t.sort != SStr || !t.cst {
		return false
	}
	strLitMu.Lock()
	defer strLitMu.Unlock()
	_, ok := strLitOf[t]
	return ok
}
func strLitText(t *T) (string, bool) {
	strLitMu.Lock()
	defer strLitMu.Unlock()
	s, ok := strLitOf[t]
	return s, ok
}

// collect visits every subterm once.
func collect(t *T, f func(*T), seen map[*T]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.args {
		collect(a, f, seen)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
