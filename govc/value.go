package main

// Values, heaps and symbolic states.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *T (scalar), SliceV, *FuncV, PtrV, TupleV, StructV, *RangeV.
type Value interface{}

type SliceV struct{ arr, off, len, cap *T }

type FuncV struct {
	fn    *ssa.Function
	binds []Value
	id    *T
}

// PtrV is a pointer that is not a plain object reference.
type PtrV struct {
	kind string // box, field, elem, global
	box  int
	ref  *T     // field: object; elem: array id
	key  string // field: heap key prefix; global: name; elem: heap key
	idx  *T     // elem
	typ  types.Type
}

type TupleV []Value

type StructV struct {
	typ    *types.Struct
	name   string
	fields []Value
}

// RangeV is a range iterator (its mutable state lives in boxes).
type RangeV struct {
	isStr bool
	str   *T
	m     *T
	mt    *types.Map
	posB  int // box: byte position (string) / count (map)
	cntB  int // box: number of runes produced / map visited id
	vis   string
	dom   *HNode
}

// ---- heaps: a base function plus a chain of overriding entries ----
type HNode struct {
	prev  *HNode
	depth int
	// store entry
	keys []*T
	val  *T
	// region entry
	cond func([]*T) *T
	rval func(*State, []*T) *T
	// fact entry: a formula about the value read at these keys
	fact func(*State, []*T, *T) *T
	// base entry
	base  string
	sort  Sort
	bound *T // references read from the base are below this
}

func (h *HNode) store(keys []*T, val *T) *HNode {
	return &HNode{prev: h, keys: keys, val: val, sort: h.sort, depth: h.depth + 1}
}
func (h *HNode) withFact(f func([]*T, *T) *T) *HNode {
	return h.withFactIn(func(_ *State, ks []*T, v *T) *T { return f(ks, v) })
}

// withFactIn: the fact may depend on the state in which the entry is read.
func (h *HNode) withFactIn(f func(*State, []*T, *T) *T) *HNode {
	return &HNode{prev: h, fact: f, sort: h.sort, depth: h.depth + 1}
}
func (h *HNode) region(cond func([]*T) *T, val func(*State, []*T) *T) *HNode {
	return &HNode{prev: h, cond: cond, rval: val, sort: h.sort, depth: h.depth + 1}
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Value
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	ip     int
	defers []deferred
	binds  []Value
	retTo  ssa.Value // register in the caller that receives the result (nil: discard)
	active map[*ssa.BasicBlock]*loopRun
	onRet  func(st *State, res Value) // hook instead of storing to caller
	phis   map[*ssa.Phi]Value
	tag    string
}

type deferred struct {
	fv   Value
	args []Value
	call *ssa.CallCommon
	bulk string // summarised defers of a loop
	mt   *types.Map
}

type loopRun struct {
	spec *specRun // non-nil in a speculative run
}

// objInfo describes a private object: its struct type, or the element type and initial length of a made array.
type objInfo struct {
	typ  types.Type
	elem types.Type
	n    *T
}

type State struct {
	objTyp  map[*T]objInfo
	pc      []*T
	pcset   map[*T]bool
	heaps   map[string]*HNode
	boxes   map[int]Value
	frames  []*Frame
	allocB  *T
	allocN  int
	ghosts  map[string]*T
	local   map[*T]bool // references that have not escaped to the rest of the program
	trace   []string
	ex      *Exec
	dead    bool
	final   Value
	mon     map[string]int
	lastEv  string
	evN     int
	nchoice int
	havocs  []havocRec
	cells   []cellRec // list cells read (for recursive specification functions)
	rkeys   []*T      // keys at which keyed specification functions are unfolded
}

func (st *State) clone() *State {
	n := *st
	n.pc = append([]*T(nil), st.pc...)
	n.pcset = make(map[*T]bool, len(st.pcset))
	for k := range st.pcset {
		n.pcset[k] = true
	}
	n.heaps = make(map[string]*HNode, len(st.heaps))
	for k, v := range st.heaps {
		n.heaps[k] = v
	}
	n.boxes = make(map[int]Value, len(st.boxes))
	for k, v := range st.boxes {
		n.boxes[k] = v
	}
	n.ghosts = make(map[string]*T, len(st.ghosts))
	for k, v := range st.ghosts {
		n.ghosts[k] = v
	}
	n.local = make(map[*T]bool, len(st.local))
	for k := range st.local {
		n.local[k] = true
	}
	n.objTyp = make(map[*T]objInfo, len(st.objTyp))
	for k, v := range st.objTyp {
		n.objTyp[k] = v
	}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.regs = make(map[ssa.Value]Value, len(f.regs))
		for k, v := range f.regs {
			g.regs[k] = v
		}
		g.defers = append([]deferred(nil), f.defers...)
		g.active = make(map[*ssa.BasicBlock]*loopRun, len(f.active))
		for k, v := range f.active {
			g.active[k] = v
		}
		n.frames[i] = &g
	}
	n.trace = append([]string(nil), st.trace...)
	n.cells = st.cells[:len(st.cells):len(st.cells)]
	n.rkeys = st.rkeys[:len(st.rkeys):len(st.rkeys)]
	return &n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) assume(c *T) {
	if c == True || st.pcset[c] {
		return
	}
	if c.op == "and" {
		for _, a := range c.args {
			st.assume(a)
		}
		return
	}
	if c == False || st.pcset[Not(c)] {
		st.dead = true
	}
	st.pcset[c] = true
	st.pc = append(st.pc, c)
}

func (st *State) alloc() *T { return Add(st.allocB, IntT(int64(st.allocN))) }

func (st *State) newRef() *T {
	r := st.alloc()
	st.allocN++
	st.local[r] = true
	return r
}

// bumpAlloc makes the allocation frontier symbolic (after an event or loop havoc).
func (st *State) bumpAlloc() {
	old := st.alloc()
	st.allocB = Const(st.ex.fresh("A"), SInt)
	st.allocN = 0
	st.assume(Le(old, st.allocB))
}

// ---- heap access ----
func (st *State) heap(key string, s Sort) *HNode {
	h, ok := st.heaps[key]
	if !ok {
		st.ex.heapSort[key] = s
		h = &HNode{base: key + "!0", sort: s, bound: st.ex.alloc0}
		if !strings.HasPrefix(key, "ghost.") {
			for _, hr := range st.havocs {
				h = st.ex.havocKeyAt(key, h, hr)
			}
		}
		st.heaps[key] = h
	}
	if h.sort != s {
		panic(unsupported("heap sort clash " + key + ": " + string(h.sort) + " vs " + string(s)))
	}
	return h
}

func allEq(a, b []*T) *T {
	cs := make([]*T, len(a))
	for i := range a {
		cs[i] = Eq(a[i], b[i])
	}
	return And(cs...)
}

// distinctRefs decides cheaply that two references differ.
func (st *State) refNe(a, b *T) bool {
	if a == b {
		return false
	}
	if Eq(a, b) == False {
		return true
	}
	if st.pcset[Not(Eq(a, b))] {
		return true
	}
	// a local (non-escaped) object differs from anything read from a heap base that existed before its creation
	return false
}

func (st *State) readH(h *HNode, keys []*T) *T { return readHeap(st, h, keys) }

// readHeap evaluates a heap chain; st may be nil (no facts are recorded then).
func readHeap(st *State, h *HNode, keys []*T) *T {
	type pend struct {
		c, v *T
	}
	simp := func(c *T) *T {
		if st != nil {
			return st.simp(c)
		}
		return c
	}
	var ps []pend
	var res *T
loop:
	for {
		switch {
		case h.prev == nil:
			res = UF(h.base, h.sort, keys...)
			if st != nil {
				st.ex.baseFact(st, h, keys, res)
			}
			break loop
		case h.fact != nil:
			res = readHeap(st, h.prev, keys)
			if st != nil {
				st.assume(h.fact(st, keys, res))
			}
			break loop
		case h.keys != nil:
			e := simp(allEq(h.keys, keys))
			if e == True {
				res = h.val
				break loop
			}
			if e != False {
				ps = append(ps, pend{e, h.val})
			}
		default:
			c := simp(h.cond(keys))
			if c == True {
				res = h.rval(st, keys)
				break loop
			}
			if c != False {
				ps = append(ps, pend{c, h.rval(st, keys)})
			}
		}
		h = h.prev
	}
	for i := len(ps) - 1; i >= 0; i-- {
		res = Ite(ps[i].c, ps[i].v, res)
	}
	return res
}

func readPure(h *HNode, keys []*T) *T { return readHeap(nil, h, keys) }

// simp uses facts syntactically present in the path condition.
func (st *State) simp(c *T) *T {
	if c == True || c == False {
		return c
	}
	if st.pcset[c] {
		return True
	}
	if st.pcset[Not(c)] {
		return False
	}
	if c.op == "and" {
		for _, a := range c.args {
			if st.pcset[Not(a)] {
				return False
			}
			if a.op == "=" && a.args[0].sort == SInt && st.refDistinctByAlloc(a.args[0], a.args[1]) {
				return False
			}
		}
		return c
	}
	if c.op == "=" && c.args[0].sort == SInt && st.refDistinctByAlloc(c.args[0], c.args[1]) {
		return False
	}
	return c
}

// refDistinctByAlloc: allocation bases are ordered; A!j+k (later base) differs from any reference bounded by an earlier frontier.
func (st *State) refDistinctByAlloc(a, b *T) bool {
	ia, oka := st.ex.refBirth(a)
	ib, okb := st.ex.refBirth(b)
	if oka && okb && ia != ib {
		return true // different bases: both are fresh allocations of different epochs
	}
	if oka && st.ex.refBoundBefore(b, a) {
		return true
	}
	if okb && st.ex.refBoundBefore(a, b) {
		return true
	}
	return false
}

// ---- typed field access ----

func typeKey(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string {
		if p.Path() == modPath {
			return ""
		}
		return p.Name()
	})
	return s
}

// leafSorts lists the heap leaves of a type: suffix and sort.
type leaf struct {
	suf  string
	sort Sort
	typ  types.Type
}

func scalarSort(t types.Type) (Sort, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return SInt, true
		case u.Info()&types.IsBoolean != 0:
			return SBool, true
		case u.Info()&types.IsString != 0:
			return SStr, true
		case u.Info()&types.IsFloat != 0:
			return SF64, true
		case u.Kind() == types.UnsafePointer:
			return SInt, true
		case u.Kind() == types.UntypedNil:
			return SInt, true
		}
	case *types.Interface:
		return SVal, true
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt, true
	case *types.TypeParam:
		return SVal, true
	}
	return "", false
}

func (ex *Exec) loadKeyed(st *State, key string, keys []*T, t types.Type) Value {
	if s, ok := scalarSort(t); ok {
		v := st.readH(st.heap(key, s), keys)
		ex.typeFact(st, v, t)
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		g := func(suf string) *T { return st.readH(st.heap(key+suf, SInt), keys) }
		sv := SliceV{g(".arr"), g(".off"), g(".len"), g(".cap")}
		ex.sliceFact(st, sv)
		return sv
	case *types.Struct:
		sv := StructV{typ: u, name: typeKey(t)}
		for i := 0; i < u.NumFields(); i++ {
			sv.fields = append(sv.fields, ex.loadKeyed(st, key+"."+u.Field(i).Name(), keys, u.Field(i).Type()))
		}
		return sv
	case *types.Array:
		panic(unsupported("load of array value " + key))
	}
	panic(unsupported("load of type " + t.String()))
}

func (ex *Exec) storeKeyed(st *State, key string, keys []*T, t types.Type, v Value) {
	if key == "Cons.Car" || key == "Cons.Cdr" {
		ex.checkCellStore(st, keys[0])
	}
	if s, ok := scalarSort(t); ok {
		x := ex.scalar(st, v, t)
		if x.sort != s {
			panic(unsupported(fmt.Sprintf("store sort mismatch %s %s %s", key, x.sort, s)))
		}
		st.heaps[key] = st.heap(key, s).store(keys, x)
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		sv := v.(SliceV)
		for _, p := range []struct {
			s string
			t *T
		}{{".arr", sv.arr}, {".off", sv.off}, {".len", sv.len}, {".cap", sv.cap}} {
			st.heaps[key+p.s] = st.heap(key+p.s, SInt).store(keys, p.t)
		}
		return
	case *types.Struct:
		sv := v.(StructV)
		for i := 0; i < u.NumFields(); i++ {
			ex.storeKeyed(st, key+"."+u.Field(i).Name(), keys, u.Field(i).Type(), sv.fields[i])
		}
		return
	}
	panic(unsupported("store of type " + t.String()))
}

// scalar turns a value into a term (function values get an identity).
func (ex *Exec) scalar(st *State, v Value, t types.Type) *T {
	switch x := v.(type) {
	case *T:
		return x
	case *FuncV:
		return ex.funcID(st, x)
	case PtrV:
		return ex.ptrTerm(st, x)
	}
	panic(unsupported(fmt.Sprintf("scalar of %T for %s", v, t)))
}

func (ex *Exec) zero(st *State, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return IntT(0)
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsString != 0:
			return StrLit("")
		case u.Info()&types.IsFloat != 0:
			return FloatLit(0)
		}
		return IntT(0)
	case *types.Interface, *types.TypeParam:
		return VNil
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return IntT(0)
	case *types.Slice:
		return SliceV{IntT(0), IntT(0), IntT(0), IntT(0)}
	case *types.Struct:
		sv := StructV{typ: u, name: typeKey(t)}
		for i := 0; i < u.NumFields(); i++ {
			sv.fields = append(sv.fields, ex.zero(st, u.Field(i).Type()))
		}
		return sv
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, ex.zero(st, u.At(i).Type()))
		}
		return tv
	}
	panic(unsupported("zero of " + t.String()))
}

// freshVal makes an unconstrained value of a type.
func (ex *Exec) freshVal(st *State, name string, t types.Type) Value {
	if s, ok := scalarSort(t); ok {
		c := Const(ex.fresh(name), s)
		ex.typeFact(st, c, t)
		ex.validFact(st, c, t)
		return c
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		c := func(s string) *T { return Const(ex.fresh(name+s), SInt) }
		sv := SliceV{c(".arr"), c(".off"), c(".len"), c(".cap")}
		ex.sliceFact(st, sv)
		st.assume(Lt(sv.arr, st.alloc()))
		return sv
	case *types.Struct:
		sv := StructV{typ: u, name: typeKey(t)}
		for i := 0; i < u.NumFields(); i++ {
			sv.fields = append(sv.fields, ex.freshVal(st, name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return sv
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, ex.freshVal(st, fmt.Sprintf("%s.%d", name, i), u.At(i).Type()))
		}
		return tv
	}
	panic(unsupported("fresh value of " + t.String()))
}

func (ex *Exec) sliceFact(st *State, s SliceV) {
	st.assume(Le(IntT(0), s.len))
	st.assume(Le(s.len, s.cap))
	st.assume(Le(IntT(0), s.off))
	st.assume(Le(s.len, BigT(maxInt64)))
	st.assume(Or(Not(Eq(s.arr, IntT(0))), Eq(s.cap, IntT(0))))
	st.assume(Le(IntT(0), s.arr))
}

type unsupErr struct{ msg string }

func unsupported(s string) unsupErr { return unsupErr{s} }

func showValue(v Value) string {
	switch x := v.(type) {
	case *T:
		s := x.String()
		if len(s) > 160 {
			s = s[:160] + "…"
		}
		return s
	case SliceV:
		return fmt.Sprintf("slice(%s,%s,%s)", showValue(x.arr), showValue(x.off), showValue(x.len))
	case *FuncV:
		return x.fn.String()
	case TupleV:
		var p []string
		for _, e := range x {
			p = append(p, showValue(e))
		}
		return "(" + strings.Join(p, ", ") + ")"
	case PtrV:
		return "ptr:" + x.kind + ":" + x.key
	}
	return fmt.Sprintf("%T", v)
}
