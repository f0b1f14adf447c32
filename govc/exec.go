package main

// The symbolic executor over go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	maxInt64   = big.NewInt(math.MaxInt64)
	minInt64   = big.NewInt(math.MinInt64)
	traceSteps = os.Getenv("GOVC_TRACE") != ""
	debug      = os.Getenv("GOVC_DEBUG") != ""
)

type birth struct{ epoch, n int }

type Failure struct {
	Kind  string   `json:"kind"`
	Name  string   `json:"name"`
	Entry string   `json:"entry"`
	Pos   string   `json:"pos"`
	Msg   string   `json:"msg"`
	Trace []string `json:"trace"`
	Model string   `json:"model"`
}

type Exec struct {
	text       *T // the string whose suffixes the contract speaks of
	P          *Program
	S          *Solver
	entry      string
	counter    map[string]int
	noInv      int
	handlerRes map[*T]*T // results of handler calls, with the error that came along
	alloc0     *T
	epochs     map[*T]int
	epochN     int
	bounds     map[*T]birth
	boxN       int
	spec       int // >0: speculative, obligations are not recorded
	con        *Contract
	autos      map[string]bool // automatic obligation kinds wanted
	Oblig      int
	ObligBy    map[string]int
	Backends   map[string]int
	Failures   []Failure
	failSeen   map[string]bool
	Unsup      []string
	Assump     map[string]bool
	Funcs      map[string]bool
	Paths      int
	Covers     map[string]bool
	deadline   time.Time
	old        *State // state at entry
	rlimit     int
	facts      map[*T]bool
	steps      int
	maxPaths   int
	loopMemo   map[string]*loopMemo
	boxTyp     map[int]types.Type
	visKey     map[string]Sort
	fnLit      map[int64]*FuncV
	extN       int
	curFork    *[]*State
	en         *Entry
	versions   map[string]int64
	Returns    int
	heapSort   map[string]Sort
	ghostSort  map[string]Sort
}

func NewExec(P *Program, entry string) *Exec {
	ex := &Exec{P: P, S: NewSolver(), entry: entry, counter: map[string]int{}, epochs: map[*T]int{}, bounds: map[*T]birth{},
		autos: map[string]bool{}, ObligBy: map[string]int{}, Backends: map[string]int{}, failSeen: map[string]bool{}, Assump: map[string]bool{},
		Funcs: map[string]bool{}, Covers: map[string]bool{}, rlimit: 3000000, facts: map[*T]bool{}, maxPaths: 20000,
		loopMemo: map[string]*loopMemo{}, heapSort: map[string]Sort{}, versions: map[string]int64{}, ghostSort: map[string]Sort{}, boxTyp: map[int]types.Type{}, visKey: map[string]Sort{}, fnLit: map[int64]*FuncV{}, handlerRes: map[*T]*T{}}
	ex.alloc0 = Const("A!0", SInt)
	ex.epochs[ex.alloc0] = 0
	return ex
}

func (ex *Exec) fresh(name string) string {
	ex.counter[name]++
	n := fmt.Sprintf("%s!%d", name, ex.counter[name])
	return n
}

func (ex *Exec) newState() *State {
	st := &State{pcset: map[*T]bool{}, heaps: map[string]*HNode{}, boxes: map[int]Value{}, ghosts: map[string]*T{}, local: map[*T]bool{}, objTyp: map[*T]objInfo{}, ex: ex, mon: map[string]int{}}
	st.allocB = ex.alloc0
	st.assume(Le(IntT(1000000), ex.alloc0))
	return st
}

// ---- reference birth and bounds ----

func (ex *Exec) newEpoch(a *T) {
	if _, ok := ex.epochs[a]; !ok {
		ex.epochN++
		ex.epochs[a] = ex.epochN
	}
}

func (ex *Exec) refBirth(t *T) (birth, bool) {
	if t.lit != nil {
		return birth{-1, int(t.lit.Int64() % 1000000)}, true
	}
	b, k := splitAdd(t)
	if b == nil {
		return birth{}, false
	}
	if e, ok := ex.epochs[b]; ok {
		return birth{e, int(k.Int64())}, true
	}
	return birth{}, false
}

// refBoundBefore: t is known to be below the birth of the fresh reference a.
func (ex *Exec) refBoundBefore(t, a *T) bool {
	ba, ok := ex.refBirth(a)
	if !ok || ba.epoch < 0 {
		return false
	}
	bt, ok := ex.boundOf(t)
	if !ok {
		return false
	}
	return bt.epoch < ba.epoch || bt.epoch == ba.epoch && bt.n <= ba.n
}

func (ex *Exec) boundOf(t *T) (birth, bool) {
	if b, ok := ex.bounds[t]; ok {
		return b, true
	}
	switch t.op {
	case "vp", "vx", "vw", "vfn":
		return ex.boundOf(t.args[0])
	case "ite":
		a, ok1 := ex.boundOf2(t.args[1])
		b, ok2 := ex.boundOf2(t.args[2])
		if ok1 && ok2 {
			if a.epoch < b.epoch || a.epoch == b.epoch && a.n < b.n {
				return b, true
			}
			return a, true
		}
	}
	return birth{}, false
}

func (ex *Exec) boundOf2(t *T) (birth, bool) {
	if b, ok := ex.refBirth(t); ok {
		if b.epoch < 0 {
			return birth{0, 0}, true
		}
		return birth{b.epoch, b.n + 1}, true
	}
	if isValCtor(t.op) {
		switch t.op {
		case "VP":
			return ex.boundOf2(t.args[1])
		case "VX":
			return ex.boundOf2(t.args[1])
		case "VW":
			return ex.boundOf2(t.args[0])
		}
		return birth{0, 0}, true
	}
	return ex.boundOf(t)
}

func (ex *Exec) setBound(st *State, t *T) {
	b := ex.epochs[st.allocB]
	if old, ok := ex.bounds[t]; ok && (old.epoch < b || old.epoch == b && old.n <= st.allocN) {
		return
	}
	ex.bounds[t] = birth{b, st.allocN}
}

// validFact states that references inside v are below the current allocation frontier.
func (ex *Exec) validFact(st *State, v *T, t types.Type) {
	ex.boundFact(st, v, t, st.alloc())
	ex.setBound(st, v)
}

func (ex *Exec) boundFact(st *State, v *T, t types.Type, bound *T) {
	switch v.sort {
	case SInt:
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan:
			st.assume(Le(IntT(0), v))
			st.assume(Lt(v, bound))
		}
	case SVal:
		st.assume(Implies(Is("VP", v), And(Lt(IntT(0), Sel("vp", v)), Lt(Sel("vp", v), bound))))
	}
}

// typeFact states the range of machine integers and string lengths.
func (ex *Exec) typeFact(st *State, v *T, t types.Type) {
	if v.lit != nil {
		return
	}
	switch v.sort {
	case SInt:
		if b, ok := t.Underlying().(*types.Basic); ok {
			lo, hi := intRange(b)
			if v.op == "vi" || v.cst || isUFTerm(v) {
				st.assume(Le(BigT(lo), v))
				st.assume(Le(v, BigT(hi)))
			}
		}
	case SStr:
		if v.cst || v.op == "vs" || isUFTerm(v) {
			ex.strFact(st, v)
		}
	}
}

func isUFTerm(t *T) bool {
	tmu.Lock()
	defer tmu.Unlock()
	_, ok := ufSig[t.op]
	return ok
}

func (ex *Exec) strFact(st *State, v *T) {
	if isStrLit(v) {
		return
	}
	l := Slen(v)
	st.assume(Le(IntT(0), l))
	st.assume(Le(l, IntT(1<<38)))
	st.assume(Eq(Eq(l, IntT(0)), Eq(v, StrLit(""))))
}

func Slen(s *T) *T {
	if txt, ok := strLitText(s); ok {
		return IntT(int64(len(txt)))
	}
	if s.op == "ite" {
		return Ite(s.args[0], Slen(s.args[1]), Slen(s.args[2]))
	}
	return UF("slen", SInt, s)
}

func intRange(b *types.Basic) (*big.Int, *big.Int) {
	bits, signed := 64, true
	switch b.Kind() {
	case types.Int8:
		bits = 8
	case types.Int16:
		bits = 16
	case types.Int32, types.UntypedRune:
		bits = 32
	case types.Uint8:
		bits, signed = 8, false
	case types.Uint16:
		bits, signed = 16, false
	case types.Uint32:
		bits, signed = 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		signed = false
	}
	one := big.NewInt(1)
	if signed {
		hi := new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits-1)), one)
		lo := new(big.Int).Neg(new(big.Int).Lsh(one, uint(bits-1)))
		return lo, hi
	}
	return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
}

// wrapInt reduces a mathematical integer to the machine type.
func (ex *Exec) wrapInt(st *State, v *T, t types.Type) *T {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	lo, hi := intRange(b)
	if v.lit != nil {
		if v.lit.Cmp(lo) >= 0 && v.lit.Cmp(hi) <= 0 {
			return v
		}
		m := new(big.Int).Sub(hi, lo)
		m.Add(m, big.NewInt(1))
		r := new(big.Int).Sub(v.lit, lo)
		r.Mod(r, m)
		return BigT(r.Add(r, lo))
	}
	in := And(Le(BigT(lo), v), Le(v, BigT(hi)))
	in = st.simp(in)
	if in == True || ex.provesQuick(st, in) {
		return v
	}
	w := UF("wrap_"+b.Name(), SInt, v)
	st.assume(Le(BigT(lo), w))
	st.assume(Le(w, BigT(hi)))
	return Ite(in, v, w)
}

func (ex *Exec) provesQuick(st *State, c *T) bool {
	if c == True {
		return true
	}
	return ex.S.Check(st.pc, Not(c), 200000) == "unsat"
}

// baseFact: facts about a value read from a heap base.
func (ex *Exec) baseFact(st *State, h *HNode, keys []*T, t *T) {
	switch t.sort {
	case SVal:
		st.assume(Implies(Is("VP", t), And(Lt(IntT(0), Sel("vp", t)), Lt(Sel("vp", t), h.bound))))
	case SInt:
		// integer leaves hold either numbers or references; the reference bound is added by loadKeyed's caller through typeFact,
		// so only remember the syntactic bound here.
	case SStr:
		ex.strFact(st, t)
	}
	if ex.con != nil && ex.con.readFact != nil {
		ex.con.readFact(st, baseKey(h.base), keys, t)
	}
	if b, ok := ex.refBirth(h.bound); ok {
		if old, ok := ex.bounds[t]; !ok || b.epoch < old.epoch || b.epoch == old.epoch && b.n < old.n {
			ex.bounds[t] = b
		}
	}
}

// ---- solver access ----

func (ex *Exec) feasible(st *State, c *T) bool {
	if c == True {
		return true
	}
	if c == False || st.pcset[Not(c)] {
		return false
	}
	if st.pcset[c] {
		return true
	}
	return ex.S.Check(st.pc, c, ex.rlimit) != "unsat"
}

func (ex *Exec) proves(st *State, c *T) bool {
	if c == True || st.pcset[c] {
		return true
	}
	r := ex.S.Check(st.pc, Not(c), ex.rlimit)
	return r == "unsat"
}

// branch splits a state on c; either result may be nil.
func (ex *Exec) branch(st *State, c *T) (*State, *State) {
	c = st.simp(c)
	if c == True {
		return st, nil
	}
	if c == False {
		return nil, st
	}
	if !ex.feasible(st, c) {
		st.assume(Not(c))
		return nil, st
	}
	if !ex.feasible(st, Not(c)) {
		st.assume(c)
		return st, nil
	}
	f := st.clone()
	st.assume(c)
	f.assume(Not(c))
	return st, f
}

// oblige records a proof obligation; returns false when the path cannot continue.
func (ex *Exec) oblige(st *State, kind, name string, c *T, pos token.Pos, msg string) bool {
	want := ex.spec == 0 && (ex.autos[kind] || ex.autos["*"])
	if c != True && want {
		ex.Oblig++
		ex.ObligBy[kind+":"+name]++
		res := "unsat"
		by := "z3-new"
		if !st.pcset[c] {
			res = ex.S.Check(st.pc, Not(c), ex.rlimit)
			if res == "unknown" {
				res, by = Portfolio(Script(st.pc, Not(c)), 20*time.Second)
			}
		}
		if res == "unsat" {
			ex.Backends[by]++
		} else {
			model := ""
			if res == "sat" {
				model = ex.model(st, Not(c))
			}
			ex.fail(st, kind, name, pos, fmt.Sprintf("%s (solver: %s) goal: %s", msg, res, clip(c.String(), 400)), model)
		}
	} else if want {
		ex.Oblig++
		ex.ObligBy[kind+":"+name]++
		ex.Backends["simplifier"]++
	}
	if c == False {
		return false
	}
	if c != True {
		st.assume(c)
		if st.dead {
			return false
		}
		if !ex.feasible(st, True) {
			return false
		}
	}
	return true
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (ex *Exec) fail(st *State, kind, name string, pos token.Pos, msg, model string) {
	p := ex.posn(pos)
	k := kind + "|" + name + "|" + p + "|" + ex.entry
	if ex.failSeen[k] {
		return
	}
	ex.failSeen[k] = true
	var tr []string
	for _, f := range st.frames {
		tr = append(tr, "in "+ex.P.fname(f.fn))
	}
	tr = append(tr, st.trace...)
	ex.Failures = append(ex.Failures, Failure{Kind: kind, Name: name, Entry: ex.entry, Pos: p, Msg: msg, Trace: tr, Model: model})
	if debug {
		fmt.Fprintf(os.Stderr, "FAIL %s/%s at %s entry %s: %s\n", kind, name, p, ex.entry, msg)
	}
}

func (ex *Exec) model(st *State, extra *T) string {
	script := strings.TrimSuffix(Script(st.pc, extra), "(check-sat)\n") + "(check-sat)\n(get-model)\n"
	out := runOnce([]string{"z3-new", "-in", "-T:5"}, script)
	return clip(out, 6000)
}

func (ex *Exec) posn(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := ex.P.fset.Position(p)
	f := q.Filename
	if i := strings.LastIndex(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// ---- exploration ----

type endKind int

const (
	endReturn endKind = iota
	endBack
	endExit
	endDrop
)

type specRun struct {
	sink func(*State, endKind)
}

// explore runs states to completion. ret is called when the bottom frame (index base) returns.
func (ex *Exec) explore(states []*State, ret func(*State, Value)) {
	work := states
	saved := ex.curFork
	ex.curFork = &work
	defer func() { ex.curFork = saved }()
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		if st.dead {
			continue
		}
		if time.Now().After(ex.deadline) {
			panic(unsupported("time budget exhausted"))
		}
		ex.runState(st, ret)
	}
}

func (ex *Exec) push(st *State) {
	if st != nil && !st.dead {
		*ex.curFork = append(*ex.curFork, st)
	}
}

func (ex *Exec) runState(st *State, ret func(*State, Value)) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupErr); ok {
				if u.msg == "time budget exhausted" || ex.spec > 0 {
					panic(r)
				}
				where := ""
				if len(st.frames) > 0 {
					f := st.top()
					where = ex.P.fname(f.fn)
					if f.block != nil && f.ip < len(f.block.Instrs) {
						where += " " + ex.posn(f.block.Instrs[f.ip].Pos())
					}
				}
				ex.unsup(u.msg + " in " + where)
				return
			}
			if os.Getenv("GOVC_PANIC") == "" {
				panic(unsupported(fmt.Sprintf("internal error: %v", r)))
			}
			panic(r)
		}
	}()
	for !st.dead {
		ex.steps++
		if len(st.frames) == 0 {
			ex.Paths++
			ret(st, st.final)
			return
		}
		f := st.top()
		in := f.block.Instrs[f.ip]
		if traceSteps {
			fmt.Fprintf(os.Stderr, "%*s[%d] %s %s: %v\n", len(st.frames), "", ex.spec, f.fn.Name(), f.block, in)
		}
		if !ex.step(st, f, in) {
			if traceSteps {
				fmt.Fprintln(os.Stderr, "  STOP dead=", st.dead)
			}
			return
		}
	}
}

func (ex *Exec) unsup(s string) {
	for _, u := range ex.Unsup {
		if u == s {
			return
		}
	}
	ex.Unsup = append(ex.Unsup, s)
	if debug {
		fmt.Fprintln(os.Stderr, "UNSUPPORTED", ex.entry, s)
	}
}

func (ex *Exec) pushFrame(st *State, fn *ssa.Function, args []Value, binds []Value, retTo ssa.Value) {
	if len(fn.Blocks) == 0 {
		panic(unsupported("call of body-less function " + fn.String()))
	}
	if len(st.frames) > 60 {
		panic(unsupported("inlining depth exceeded at " + fn.String()))
	}
	n := 0
	for _, f := range st.frames {
		if f.fn == fn {
			n++
		}
	}
	if n > 3 {
		panic(unsupported("recursion without contract: " + ex.P.fname(fn)))
	}
	f := &Frame{fn: fn, regs: map[ssa.Value]Value{}, block: fn.Blocks[0], retTo: retTo, active: map[*ssa.BasicBlock]*loopRun{}, binds: binds}
	for i, p := range fn.Params {
		f.regs[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		f.regs[fv] = binds[i]
	}
	st.frames = append(st.frames, f)
	ex.setupBulk(st, f)
	ex.Funcs[ex.P.fname(fn)] = true
}

// doReturn pops the frame and delivers the result.
func (ex *Exec) doReturn(st *State, res Value) {
	f := st.top()
	st.frames = st.frames[:len(st.frames)-1]
	if f.onRet != nil {
		f.onRet(st, res)
		return
	}
	if len(st.frames) == 0 {
		st.final = res
		return
	}
	c := st.top()
	if f.retTo != nil {
		c.regs[f.retTo] = res
	}
	c.ip++
}

// jump transfers control inside the top frame; it returns false when the state has been consumed.
func (ex *Exec) jump(st *State, to *ssa.BasicBlock) bool {
	f := st.top()
	from := f.block
	if li := ex.loopInfo(f.fn); li != nil {
		// leaving loops deactivates them
		for h := range f.active {
			if !li.body[h][to] {
				lr := f.active[h]
				if lr.spec != nil {
					lr.spec.sink(st, endExit)
					return false
				}
				delete(f.active, h)
			}
		}
		if body := li.body[to]; body != nil {
			vals := ex.phiVals(st, f, to, from)
			if lr, ok := f.active[to]; ok && body[from] {
				ex.setPhis(f, to, from, vals)
				if lr.spec != nil {
					lr.spec.sink(st, endBack)
					return false
				}
				return false // invariant maintenance was established by the inference; the path ends
			}
			if ex.constTrip(st, to, from, vals) {
				ex.setPhis(f, to, from, vals)
				return true
			}
			return ex.enterLoop(st, f, to, from, vals, body)
		}
	}
	vals := ex.phiVals(st, f, to, from)
	ex.setPhis(f, to, from, vals)
	return true
}

// constTrip: the header compares two literals, so the loop is executed as it is (few iterations, all of them).
func (ex *Exec) constTrip(st *State, to, from *ssa.BasicBlock, vals []Value) bool {
	last, ok := to.Instrs[len(to.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := last.Cond.(*ssa.BinOp)
	if !ok || cmp.Block() != to {
		return false
	}
	for _, in := range to.Instrs[len(vals) : len(to.Instrs)-1] {
		switch x := in.(type) {
		case *ssa.BinOp, *ssa.DebugRef:
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	c := st.clone()
	f := c.top()
	ex.setPhis(f, to, from, vals)
	for f.ip < len(to.Instrs)-1 {
		if !ex.step(c, f, to.Instrs[f.ip]) || c.top() != f {
			return false
		}
	}
	l, ok1 := f.regs[cmp.X].(*T)
	if k, ok := cmp.X.(*ssa.Const); ok {
		l, ok1 = ex.constVal(c, k).(*T)
	}
	r, ok2 := f.regs[cmp.Y].(*T)
	if k, ok := cmp.Y.(*ssa.Const); ok {
		r, ok2 = ex.constVal(c, k).(*T)
	}
	if !ok1 || !ok2 || !l.isLit() || !r.isLit() {
		return false
	}
	d := bigAbs(bigSub(l.lit, r.lit))
	return d.IsInt64() && d.Int64() <= 8
}

func (ex *Exec) phiVals(st *State, f *Frame, to, from *ssa.BasicBlock) []Value {
	var vals []Value
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, ex.val(st, f, p.Edges[pi]))
	}
	return vals
}

func (ex *Exec) setPhis(f *Frame, to, from *ssa.BasicBlock, vals []Value) {
	for i, v := range vals {
		f.regs[to.Instrs[i].(*ssa.Phi)] = v
	}
	f.prev = from
	f.block = to
	f.ip = len(vals)
}

func (ex *Exec) val(st *State, f *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(st, x)
	case *ssa.Function:
		return ex.funcVal(x)
	case *ssa.Global:
		return PtrV{kind: "global", key: ex.globalKey(x), typ: x.Type().(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return nil
	}
	r, ok := f.regs[v]
	if !ok {
		panic(unsupported("unset register " + v.Name() + " in " + f.fn.String()))
	}
	return r
}

func (ex *Exec) term(st *State, f *Frame, v ssa.Value) *T {
	return ex.scalar(st, ex.val(st, f, v), v.Type())
}

func (ex *Exec) constVal(st *State, c *ssa.Const) Value {
	if c.Value == nil {
		return ex.zero(st, c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return BoolT(constant.BoolVal(c.Value))
	case constant.String:
		return StrLit(constant.StringVal(c.Value))
	case constant.Int:
		if s, _ := scalarSort(c.Type()); s == SF64 {
			fl, _ := constant.Float64Val(c.Value)
			return FloatLit(fl)
		}
		if i, ok := constant.Int64Val(c.Value); ok {
			return IntT(i)
		}
		bi, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return BigT(bi)
	case constant.Float:
		fl, _ := constant.Float64Val(c.Value)
		return FloatLit(fl)
	}
	panic(unsupported("constant " + c.String()))
}

func FloatLit(f float64) *T {
	if f == math.Trunc(f) && math.Abs(f) < 1<<53 {
		return UF("i2f", SF64, IntT(int64(f)))
	}
	return UF("flit", SF64, BigT(new(big.Int).SetUint64(math.Float64bits(f))))
}

func (ex *Exec) globalKey(g *ssa.Global) string { return "global:" + g.Pkg.Pkg.Name() + "." + g.Name() }

func (ex *Exec) funcVal(fn *ssa.Function) *FuncV {
	ex.P.mu.Lock()
	defer ex.P.mu.Unlock()
	k := fn.String()
	id, ok := ex.P.funcIDs[k]
	if !ok {
		for id = nameID(k); ex.P.idFuncs[id] != nil; id++ {
		}
		ex.P.funcIDs[k] = id
		ex.P.idFuncs[id] = &FuncV{fn: fn, id: IntT(id)}
	}
	return ex.P.idFuncs[id]
}

func (ex *Exec) funcID(st *State, f *FuncV) *T {
	if f.id == nil {
		ex.P.mu.Lock()
		// numbered by the contract and its order there
		id := nameID(ex.fresh(ex.entry))
		for ex.P.idFuncs[id] != nil {
			id++
		}
		f.id = IntT(id)
		ex.P.idFuncs[id] = f
		ex.P.mu.Unlock()
	}
	return f.id
}

func (ex *Exec) ptrTerm(st *State, p PtrV) *T {
	switch p.kind {
	case "field":
		return UF("sub:"+p.key, SInt, p.ref)
	case "global":
		for g, gi := range ex.P.globals {
			if ex.globalKey(g) == p.key {
				return IntT(500000 + gi.ref)
			}
		}
	case "box":
		return IntT(int64(-1000000 - p.box))
	}
	panic(unsupported("pointer value " + p.kind + " " + p.key))
}

// ---- interface values ----

// ifaceKind tells how a concrete type is represented inside Val.
func ifaceKind(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return "VI"
		case u.Info()&types.IsBoolean != 0:
			return "VB"
		case u.Info()&types.IsString != 0:
			return "VS"
		case u.Info()&types.IsFloat != 0:
			return "VF"
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return "VP"
	case *types.Signature:
		return "VFn"
	case *types.Struct:
		switch u.NumFields() {
		case 0:
			return "VT"
		case 1:
			ft := u.Field(0).Type()
			if types.IsInterface(ft) {
				return "VX"
			}
			if _, ok := ft.Underlying().(*types.Pointer); ok {
				return "VP1"
			}
		}
		return "box"
	}
	return "box"
}

func (ex *Exec) mkIface(st *State, t types.Type, v Value) *T {
	if types.IsInterface(t) {
		return v.(*T)
	}
	tid := IntT(int64(ex.P.tid(t)))
	if sv, ok := v.(StructV); ok && !ex.failedHandlerRes(sv) {
		ex.storeInv(st, typeKey(t), sv, token.NoPos)
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		if x, ok := v.(*T); ok && x.lit == nil && ex.handlerRes[x] == nil {
			ex.oblige(st, "nilderef", "typednil", Not(Eq(x, IntT(0))), token.NoPos, "nil pointer stored in an interface")
		}
	}
	switch k := ifaceKind(t); k {
	case "VI", "VB", "VS", "VF", "VP", "VFn":
		return Ctor(k, tid, ex.scalar(st, v, t))
	case "VT":
		return Ctor("VT", tid)
	case "VX":
		return Ctor("VX", tid, v.(StructV).fields[0].(*T))
	case "VP1":
		sv := v.(StructV)
		return Ctor("VP", tid, ex.scalar(st, sv.fields[0], sv.typ.Field(0).Type()))
	default:
		r := st.newRef()
		ex.storeKeyed(st, "box:"+typeKey(t), []*T{r}, t, v)
		return Ctor("VP", tid, r)
	}
}

// failedHandlerRes: sv is what a handler call returned; it is meaningful only when no error came with it.
func (ex *Exec) failedHandlerRes(sv StructV) bool {
	for _, f := range sv.fields {
		if x, ok := f.(*T); ok && ex.handlerRes[x] != nil {
			return true
		}
	}
	return false
}

func (ex *Exec) isType(v *T, t types.Type) *T {
	tid := IntT(int64(ex.P.tid(t)))
	k := ifaceKind(t)
	sel := ""
	switch k {
	case "VP1", "box":
		k = "VP"
	}
	sel = valSel[k][0]
	return And(Is(k, v), Eq(Sel(sel, v), tid))
}

func (ex *Exec) unIface(st *State, v *T, t types.Type) Value {
	switch k := ifaceKind(t); k {
	case "VI", "VB", "VS", "VF", "VP", "VFn":
		x := Sel(valSel[k][1], v)
		ex.typeFact(st, x, t)
		return x
	case "VT":
		return StructV{typ: t.Underlying().(*types.Struct), name: typeKey(t)}
	case "VX":
		x := Sel("vx", v)
		ex.validFact(st, x, t.Underlying().(*types.Struct).Field(0).Type())
		sv := StructV{typ: t.Underlying().(*types.Struct), name: typeKey(t), fields: []Value{x}}
		ex.loadFacts(st, typeKey(t), sv, t)
		return sv
	case "VP1":
		return StructV{typ: t.Underlying().(*types.Struct), name: typeKey(t), fields: []Value{Sel("vp", v)}}
	default:
		r := ex.loadKeyed(st, "box:"+typeKey(t), []*T{Sel("vp", v)}, t)
		ex.loadFacts(st, "box:"+typeKey(t), r, t)
		return r
	}
}

// implements is the condition that the dynamic type of v implements the interface.
func (ex *Exec) implements(v *T, it types.Type) *T {
	iface := it.Underlying().(*types.Interface)
	if v == VNil {
		return False
	}
	if iface.NumMethods() == 0 {
		return Not(Eq(v, VNil))
	}
	key := types.TypeString(iface, nil)
	impls := ex.P.implementers(iface, key)
	if isValCtor(v.op) && v.op != "VO" && v.op != "VW" && v.args[0].lit != nil {
		tid := int(v.args[0].lit.Int64())
		ex.P.mu.Lock()
		t := ex.P.tidT[tid]
		ex.P.mu.Unlock()
		return BoolT(types.Implements(t, iface))
	}
	var cs []*T
	for _, t := range impls {
		cs = append(cs, ex.isType(v, t))
	}
	// errors made by fmt.Errorf and other values of external types
	if ifaceOnly(iface, "Error", "Unwrap") {
		cs = append(cs, Is("VW", v))
	}
	ext := UF("extimpl:"+key, SBool, Sel("vot", v))
	if ifaceOnly(iface, "Error") {
		ext = Eq(Sel("vot", v), IntT(extError))
	} else if nodeLike(iface) {
		ext = False
	}
	cs = append(cs, And(Is("VO", v), ext))
	return Or(cs...)
}

const extError = 1 // VO tid of external error values

// nodeLike: the interface mentions repository types in its method signatures, so no external type implements it.
func nodeLike(it *types.Interface) bool {
	for i := 0; i < it.NumMethods(); i++ {
		if strings.Contains(it.Method(i).Type().String(), modPath) {
			return true
		}
	}
	return false
}

func ifaceOnly(it *types.Interface, names ...string) bool {
	for i := 0; i < it.NumMethods(); i++ {
		ok := false
		for _, n := range names {
			if it.Method(i).Name() == n {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// goEq is the Go == on interface values (comparability is a separate obligation).
func (ex *Exec) ifaceEq(a, b *T) *T {
	if a == b && isValCtor(a.op) && a.op != "VF" && a.op != "VX" {
		return True
	}
	both := And(Is("VF", a), Is("VF", b))
	e := Eq(a, b)
	if both == False {
		return e
	}
	fe := And(Eq(Sel("vft", a), Sel("vft", b)), Feq(Sel("vf", a), Sel("vf", b)))
	if both == True {
		return fe
	}
	return Ite(both, fe, e)
}

func Feq(a, b *T) *T {
	if a.op == "i2f" && b.op == "i2f" && a.args[0].lit != nil && b.args[0].lit != nil {
		return BoolT(a.args[0].lit.Cmp(b.args[0].lit) == 0)
	}
	if termLess(b, a) {
		a, b = b, a
	}
	return UF("feq", SBool, a, b)
}
func Flt(a, b *T) *T {
	if a == b {
		return False
	}
	if a.op == "i2f" && b.op == "i2f" && a.args[0].lit != nil && b.args[0].lit != nil {
		return BoolT(a.args[0].lit.Cmp(b.args[0].lit) < 0)
	}
	return UF("flt", SBool, a, b)
}
func Fle(a, b *T) *T { return Or(Flt(a, b), Feq(a, b)) }

// uncomparable: comparing two interface values with == panics.
func (ex *Exec) uncomparable(a, b *T) *T {
	var cs []*T
	for _, t := range ex.P.conc {
		if types.Comparable(t) && !ex.dynUncomparable(t) {
			continue
		}
		if !types.Comparable(t) {
			cs = append(cs, And(ex.isType(a, t), ex.isType(b, t)))
		} else if ifaceKind(t) == "VX" {
			// one level: a struct holding an interface whose dynamic type is not comparable
			var in []*T
			for _, u := range ex.P.conc {
				if !types.Comparable(u) {
					in = append(in, And(ex.isType(Sel("vx", a), u), ex.isType(Sel("vx", b), u)))
				}
			}
			cs = append(cs, And(ex.isType(a, t), ex.isType(b, t), Or(in...)))
		}
	}
	return Or(cs...)
}

// unhashable: using v as a map key panics.
func (ex *Exec) unhashable(v *T) *T { return ex.uncomparable(v, v) }

func (ex *Exec) dynUncomparable(t types.Type) bool { return ifaceKind(t) == "VX" }

// baseKey is the name of the memory a base stands for: what comes before the mark of its generation.
func baseKey(base string) string {
	if i := strings.Index(base, "!"); i >= 0 {
		return base[:i]
	}
	return base
}
