package main

// Loops: natural loops, inference of inductive invariants from candidates (every surviving candidate is proved to hold on
// entry and to be preserved by every path of the body), and havoc of everything the body may change.

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	body map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

func (ex *Exec) loopInfo(fn *ssa.Function) *loopInfo {
	P := ex.P
	P.mu.Lock()
	defer P.mu.Unlock()
	if P.loops == nil {
		P.loops = map[*ssa.Function]*loopInfo{}
	}
	if li, ok := P.loops[fn]; ok {
		return li
	}
	li := &loopInfo{body: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				m := li.body[h]
				if m == nil {
					m = map[*ssa.BasicBlock]bool{h: true}
					li.body[h] = m
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if m[x] {
						continue
					}
					m[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	if len(li.body) == 0 {
		li = nil
	}
	P.loops[fn] = li
	return li
}

type loopMemo struct {
	dropped map[string]bool
	mod     map[string]bool // "h:key", "b:id-in-frame", "g:name"
	noLocal map[string]bool
}

// slots are the scalar quantities tracked at a loop header.
type slots struct {
	names  []string
	val    map[string]*T
	typ    map[string]types.Type
	slice  map[string]SliceV
	snames []string
	selem  map[string]types.Type
}

func newSlots() *slots {
	return &slots{val: map[string]*T{}, typ: map[string]types.Type{}, slice: map[string]SliceV{}, selem: map[string]types.Type{}}
}

func (s *slots) add(name string, v Value, t types.Type) {
	switch x := v.(type) {
	case *T:
		s.names = append(s.names, name)
		s.val[name] = x
		s.typ[name] = t
	case SliceV:
		s.snames = append(s.snames, name)
		s.slice[name] = x
		if t != nil {
			if st, ok := t.Underlying().(*types.Slice); ok {
				s.selem[name] = st.Elem()
			}
		}
		for _, p := range []struct {
			n string
			t *T
		}{{".arr", x.arr}, {".off", x.off}, {".len", x.len}, {".cap", x.cap}} {
			s.names = append(s.names, name+p.n)
			s.val[name+p.n] = p.t
			s.typ[name+p.n] = nil
		}
	case StructV:
		for i, f := range x.fields {
			s.add(fmt.Sprintf("%s.%d", name, i), f, x.typ.Field(i).Type())
		}
	case TupleV:
		for i, f := range x {
			s.add(fmt.Sprintf("%s.%d", name, i), f, nil)
		}
	}
}

type cand struct {
	name string
	f    func(st *State, s *slots) *T
	// forall candidates: assumed through heap facts at the header and checked on skolem constants
	elem  string // slice slot whose elements satisfy pred
	pred  func(*T) *T
	local string // slot whose reference (tree) stays private
	all   *allCand
}

// allCand states a fact about every entry of one heap (a map's keys, for instance).
type allCand struct {
	key  string
	sort Sort
	// f: cur is the state of the reader, st the state whose heaps the fact is about; k2 is a second universally quantified key
	// (nil unless two is set)
	f   func(cur, st *State, s *slots, ks []*T, v, k2 *T) *T
	two bool
}

type loopCtx struct {
	ex     *Exec
	E      *State // entry state (phis set to their entry values)
	to     *ssa.BasicBlock
	fi     int // frame index
	memo   *loopMemo
	key    string
	cands  []cand
	entry  *slots
	boxes  []int
	frames map[string]*T
	A      *T
}

func (ex *Exec) enterLoop(st *State, f *Frame, to, from *ssa.BasicBlock, vals []Value, body map[*ssa.BasicBlock]bool) bool {
	ex.setPhis(f, to, from, vals)
	lc := &loopCtx{ex: ex, to: to, fi: len(st.frames) - 1}
	var kb strings.Builder
	for _, fr := range st.frames {
		kb.WriteString(ex.P.fname(fr.fn))
		kb.WriteByte('/')
	}
	fmt.Fprintf(&kb, "#%d", to.Index)
	lc.key = kb.String()
	lc.memo = ex.loopMemo[lc.key]
	if lc.memo == nil {
		lc.memo = &loopMemo{dropped: map[string]bool{}, mod: map[string]bool{}, noLocal: map[string]bool{}}
		ex.loopMemo[lc.key] = lc.memo
	}
	lc.E = st.clone()
	delete(lc.E.top().active, to)
	for iter := 0; ; iter++ {
		if iter > 60 {
			panic(unsupported("loop invariant inference does not converge in " + ex.P.fname(f.fn)))
		}
		h := lc.header()
		ends := lc.runBody(h)
		if lc.grow(h, ends) {
			continue
		}
		if lc.dropFailing(h, ends) {
			continue
		}
		if !ex.feasible(h, True) && ex.feasible(lc.E, True) {
			panic(unsupported("contradictory loop header in " + ex.P.fname(f.fn)))
		}
		lc.publish(lc.E)
		for _, e := range ends {
			lc.publish(e)
		}
		delete(h.top().active, to)
		h.top().active[to] = &loopRun{}
		if debug && os.Getenv("GOVC_LOOPS") != "" {
			fmt.Fprintf(os.Stderr, "LOOP %s iter %d ends %d:\n", lc.key, iter, len(ends))
			for _, c := range lc.cands {
				fmt.Fprintf(os.Stderr, "   %s\n", c.name)
			}
			for _, m := range sortedKeys(lc.memo.mod) {
				fmt.Fprintf(os.Stderr, "   mod %s\n", m)
			}
		}
		*st = *h
		return true
	}
}

// publish checks the invariants of the private objects that the loop variables refer to: after the header they are read like
// any other object.
func (lc *loopCtx) publish(st *State) {
	t := st.clone()
	private := map[string]bool{}
	for _, c := range lc.cands {
		if c.local != "" {
			private[c.local] = true
		}
	}
	s := lc.slotsOf(t)
	for _, n := range s.names {
		if !private[n] && !strings.HasPrefix(n, "ghost:") {
			lc.ex.escape(t, s.val[n])
		}
	}
	for _, n := range s.snames {
		if !private[n] {
			lc.ex.escape(t, s.slice[n])
		}
	}
	for l := range lc.E.local {
		if lc.memo.noLocal[l.String()] {
			lc.ex.escape(t, l)
		}
	}
}

// slotsOf reads the tracked quantities from a state whose frame lc.fi is at the header.
func (lc *loopCtx) slotsOf(st *State) *slots {
	s := newSlots()
	fr := st.frames[lc.fi]
	for _, in := range lc.to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := fr.regs[p]
		if pv, ok := v.(PtrV); ok && pv.kind == "box" {
			s.add("*"+phiName(p), st.boxes[pv.box], pv.typ)
			continue
		}
		s.add(phiName(p), v, p.Type())
	}
	for _, b := range lc.boxes {
		s.add(fmt.Sprintf("box%d", b), st.boxes[b], lc.ex.boxTyp[b])
	}
	for _, g := range sortedKeys(st.ghosts) {
		if strings.HasPrefix(g, "escbox!") {
			continue
		}
		if lc.memo.mod["g:"+g] {
			s.add("ghost:"+g, st.ghosts[g], nil)
		}
	}
	return s
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Name() + ":" + p.Comment
	}
	return p.Name()
}

func (lc *loopCtx) freshSlot(st *State, name string, v Value, t types.Type) Value {
	ex := lc.ex
	switch x := v.(type) {
	case *T:
		c := Const(ex.fresh("L."+name), x.sort)
		if t != nil {
			ex.typeFact(st, c, t)
			ex.validFact(st, c, t)
		} else if x.sort == SVal {
			ex.validFact(st, c, anyType)
		}
		return c
	case SliceV:
		c := func(s string) *T { return Const(ex.fresh("L."+name+s), SInt) }
		sv := SliceV{c(".arr"), c(".off"), c(".len"), c(".cap")}
		ex.sliceFact(st, sv)
		st.assume(Lt(sv.arr, st.alloc()))
		ex.setBound(st, sv.arr)
		return sv
	case StructV:
		n := StructV{typ: x.typ, name: x.name}
		for i, f := range x.fields {
			n.fields = append(n.fields, lc.freshSlot(st, fmt.Sprintf("%s.%d", name, i), f, x.typ.Field(i).Type()))
		}
		return n
	case TupleV:
		var n TupleV
		for i, f := range x {
			n = append(n, lc.freshSlot(st, fmt.Sprintf("%s.%d", name, i), f, nil))
		}
		return n
	}
	return v // functions, pointers, iterators: must be unchanged (checked at the back edges)
}

var anyType types.Type = types.NewInterfaceType(nil, nil)

// header builds the havocked header state and assumes the current candidates.
func (lc *loopCtx) header() *State {
	ex := lc.ex
	// keys the body modifies must exist in the entry state
	for _, m := range sortedKeys(lc.memo.mod) {
		if strings.HasPrefix(m, "h:") {
			k := m[2:]
			if _, ok := lc.E.heaps[k]; !ok {
				if s, ok := ex.heapSort[k]; ok && !strings.HasPrefix(k, "ghost.") {
					lc.E.heap(k, s)
				}
			}
		}
		if strings.HasPrefix(m, "g:") {
			if _, ok := lc.E.ghosts[m[2:]]; !ok {
				if s, ok := ex.ghostSort[m[2:]]; ok {
					ex.ghost(lc.E, m[2:], s)
				}
			}
		}
	}
	lc.boxes = nil
	for _, b := range sortedInts(lc.E.boxes) {
		if lc.memo.mod[fmt.Sprintf("b:%d", b)] {
			lc.boxes = append(lc.boxes, b)
		}
	}
	lc.entry = lc.slotsOf(lc.E)
	h := lc.E.clone()
	h.bumpAlloc()
	ex.newEpoch(h.allocB)
	lc.A = lc.E.alloc()
	fr := h.frames[lc.fi]
	for _, in := range lc.to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := fr.regs[p]
		if pv, ok := v.(PtrV); ok && pv.kind == "box" {
			nv := lc.freshSlot(h, phiName(p), h.boxes[pv.box], pv.typ)
			nb := ex.newBox(h, nv, pv.typ)
			pv.box = nb
			fr.regs[p] = pv
			continue
		}
		fr.regs[p] = lc.freshSlot(h, phiName(p), v, p.Type())
	}
	for _, b := range lc.boxes {
		h.boxes[b] = lc.freshSlot(h, fmt.Sprintf("box%d", b), h.boxes[b], ex.boxTyp[b])
	}
	for _, g := range sortedKeys(h.ghosts) {
		if lc.memo.mod["g:"+g] && !strings.HasPrefix(g, "escbox!") {
			h.ghosts[g] = Const(ex.fresh("L.ghost."+g), h.ghosts[g].sort)
		}
	}
	// private objects that stay private
	for l := range h.local {
		if lc.memo.noLocal[l.String()] {
			delete(h.local, l)
		}
	}
	tag := ex.fresh("loop")
	var locals []*T
	for l := range h.local {
		locals = append(locals, l)
	}
	sortTerms(locals)
	for _, k := range sortedKeys(h.heaps) {
		if !lc.memo.mod["h:"+k] {
			continue
		}
		old := lc.E.heaps[k]
		n := &HNode{base: k + "!" + tag, sort: old.sort, bound: h.alloc()}
		h.heaps[k] = n
	}
	if lc.memo.mod["event"] {
		h.havocs = append(append([]havocRec(nil), h.havocs...), havocRec{tag, locals, h.alloc()})
	}
	hs := lc.slotsOf(h)
	lc.makeCands()
	// heap candidates as regions over the fresh bases
	for i := range lc.cands {
		c := &lc.cands[i]
		if strings.HasPrefix(c.name, "frame ") || c.elem != "" || c.all != nil {
			continue
		}
		if c.local != "" {
			if x := hs.val[c.local]; x != nil {
				h.local[x] = true
				// null, one of the objects private at entry, or one allocated since
				alts := []*T{Eq(x, IntT(0)), Le(lc.A, x)}
				for _, l := range locals {
					alts = append(alts, Eq(x, l))
				}
				if e := lc.entry.val[c.local]; e != nil {
					alts = append(alts, Eq(x, e))
				}
				h.assume(Or(alts...))
			}
			continue
		}
	}
	for i := range lc.cands {
		c := &lc.cands[i]
		if fr, ok := lc.frameOf(c.name); ok {
			cond, k := fr.cond, fr.key
			old := lc.E.heaps[k]
			h.heaps[k] = h.heaps[k].region(cond, func(st *State, ks []*T) *T { return readHeap(st, old, ks) })
		}
	}
	for i := range lc.cands {
		c := &lc.cands[i]
		if c.elem != "" {
			sv, ok := hs.slice[c.elem]
			if !ok {
				continue
			}
			key := elemKey(hs.selem[c.elem])
			pred := c.pred
			es, _ := scalarSort(hs.selem[c.elem])
			h.heaps[key] = h.heap(key, es).withFact(func(k []*T, v *T) *T {
				return Implies(And(Eq(k[0], sv.arr), Le(sv.off, k[1]), Lt(k[1], Add(sv.off, sv.len))), pred(v))
			})
		}
	}
	for i := range lc.cands {
		c := &lc.cands[i]
		if c.all != nil {
			f := c.all.f
			h.heap(c.all.key, c.all.sort)
			h.heaps[c.all.key] = h.heaps[c.all.key].withFactIn(func(cur *State, k []*T, v *T) *T {
				if !c.all.two {
					return f(cur, h, hs, k, v, nil)
				}
				r := True
				for _, k2 := range cur.rkeys {
					r = And(r, f(cur, h, hs, k, v, k2))
				}
				return r
			})
		}
	}
	for i := range lc.cands {
		c := &lc.cands[i]
		if c.f != nil {
			h.assume(c.f(h, hs))
		}
	}
	return h
}

func sortedInts(m map[int]Value) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	for i := 1; i < len(r); i++ {
		for j := i; j > 0 && r[j-1] > r[j]; j-- {
			r[j-1], r[j] = r[j], r[j-1]
		}
	}
	return r
}

type frameCand struct {
	key  string
	cond func([]*T) *T
}

// frameOf decodes a frame candidate name.
func (lc *loopCtx) frameOf(name string) (frameCand, bool) {
	if !strings.HasPrefix(name, "frame ") {
		return frameCand{}, false
	}
	p := strings.SplitN(name[6:], " ", 2)
	key := p[1]
	if lc.E.heaps[key] == nil {
		return frameCand{}, false
	}
	switch {
	case p[0] == "old":
		A := lc.A
		return frameCand{key, func(k []*T) *T {
			if lc.ex.boundedBy(k[0], lc.E) {
				return True
			}
			return Lt(k[0], A)
		}}, true
	case p[0] == "nonzero":
		old := lc.E.heaps[key]
		return frameCand{key, func(k []*T) *T { return Not(Eq(readPure(old, k), IntT(0))) }}, true
	case strings.HasPrefix(p[0], "local:"):
		for l := range lc.E.local {
			if "local:"+l.String() == strings.ReplaceAll(p[0], "_", " ") {
				return frameCand{key, func(k []*T) *T { return lc.refEq(k[0], l) }}, true
			}
		}
	}
	return frameCand{}, false
}

func (lc *loopCtx) refEq(a, b *T) *T {
	if a == b {
		return True
	}
	if lc.ex.refDistinct(a, b) {
		return False
	}
	return Eq(a, b)
}

// boundedBy: t is syntactically known to be older than the frontier of st.
func (ex *Exec) boundedBy(t *T, st *State) bool {
	e := ex.epochs[st.allocB]
	if b, ok := ex.refBirth(t); ok {
		return b.epoch < e || b.epoch == e && b.n < st.allocN
	}
	if b, ok := ex.boundOf(t); ok {
		return b.epoch < e || b.epoch == e && b.n <= st.allocN
	}
	return false
}

func (lc *loopCtx) runBody(h *State) []*State {
	ex := lc.ex
	var ends []*State
	s := h.clone()
	s.top().active[lc.to] = &loopRun{spec: &specRun{sink: func(st *State, k endKind) {
		if k == endBack {
			ends = append(ends, st)
		}
	}}}
	ex.spec++
	defer func() { ex.spec-- }()
	ex.explore([]*State{s}, func(st *State, v Value) {
		panic(unsupported("return inside a loop body"))
	})
	return ends
}

// grow extends the modified set; it reports whether anything was added.
func (lc *loopCtx) grow(h *State, ends []*State) bool {
	added := false
	add := func(k string) {
		if !lc.memo.mod[k] {
			lc.memo.mod[k] = true
			added = true
		}
	}
	for _, e := range ends {
		if len(e.havocs) > len(h.havocs) {
			add("event")
		}
		for k, n := range e.heaps {
			if strings.HasPrefix(k, "ghost.") {
				hn, ok := h.heaps[k]
				if !ok {
					continue // created inside the body
				}
				if hn != n {
					add("h:" + k)
				}
				continue
			}
			hn, ok := h.heaps[k]
			if !ok {
				lc.E.heap(k, n.sort)
				hn = h.heap(k, n.sort)
				if hn.prev == nil && n.prev == nil && hn.base == n.base {
					continue
				}
				// materialised late: compare against what the header would have had
				if n.depth > hn.depth || n.prev == nil && n.base != hn.base || n.depth != hn.depth {
					if len(e.havocs) > len(h.havocs) || n.depth != hn.depth {
						add("h:" + k)
					}
				}
				continue
			}
			if hn != n {
				add("h:" + k)
			}
		}
		for b, v := range e.boxes {
			if hv, ok := h.boxes[b]; ok && !sameValue(hv, v) {
				if _, inE := lc.E.boxes[b]; inE {
					add(fmt.Sprintf("b:%d", b))
				}
			}
		}
		for g, v := range e.ghosts {
			if strings.HasPrefix(g, "escbox!") {
				if h.ghosts[g] == nil {
					lc.E.ghosts[g] = v
				}
				continue
			}
			if hv, ok := h.ghosts[g]; ok {
				if hv != v {
					add("g:" + g)
				}
			} else {
				lc.ex.ghostSort[g] = v.sort
				if v != Const("ghost."+g+"!0", v.sort) {
					add("g:" + g)
				}
			}
		}
		for l := range lc.E.local {
			if !lc.memo.noLocal[l.String()] && !e.local[l] {
				lc.memo.noLocal[l.String()] = true
				added = true
			}
		}
		// values that cannot be havocked must be unchanged
		fh, fe := h.frames[lc.fi], e.frames[lc.fi]
		for _, in := range lc.to.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			hv, ev := fh.regs[p], fe.regs[p]
			switch hv.(type) {
			case *T, SliceV, StructV, TupleV:
			case PtrV:
				if hv.(PtrV).kind == "box" {
					break
				}
				if !sameValue(hv, ev) {
					panic(unsupported("loop-carried pointer " + phiName(p)))
				}
			default:
				if !sameValue(hv, ev) {
					panic(unsupported(fmt.Sprintf("loop-carried %T %s", hv, phiName(p))))
				}
			}
		}
	}
	return added
}

func sameValue(a, b Value) bool {
	switch x := a.(type) {
	case *T:
		y, ok := b.(*T)
		return ok && x == y
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x == y
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok || x.fn != y.fn || len(x.binds) != len(y.binds) {
			return false
		}
		for i := range x.binds {
			if !sameValue(x.binds[i], y.binds[i]) {
				return false
			}
		}
		return true
	case PtrV:
		y, ok := b.(PtrV)
		return ok && x.kind == y.kind && x.box == y.box && x.ref == y.ref && x.key == y.key && x.idx == y.idx
	case StructV:
		y, ok := b.(StructV)
		if !ok || len(x.fields) != len(y.fields) {
			return false
		}
		for i := range x.fields {
			if !sameValue(x.fields[i], y.fields[i]) {
				return false
			}
		}
		return true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameValue(x[i], y[i]) {
				return false
			}
		}
		return true
	case *RangeV:
		y, ok := b.(*RangeV)
		return ok && x == y
	case nil:
		return b == nil
	}
	return false
}

// isPrivate: every reference t may denote is a private object of st (or zero).
func isPrivate(st *State, t *T) bool {
	if t.lit != nil && t.lit.Sign() == 0 {
		return true
	}
	if st.local[t] {
		return true
	}
	if t.op == "ite" {
		return isPrivate(st, t.args[1]) && isPrivate(st, t.args[2])
	}
	return false
}

func (lc *loopCtx) dropFailing(h *State, ends []*State) bool {
	ex := lc.ex
	dropped := false
	where := "entry"
	drop := func(c cand) {
		if debug && os.Getenv("GOVC_LOOPS") != "" {
			fmt.Fprintf(os.Stderr, "DROP %s: %s at %s\n", lc.key, c.name, where)
		}
		lc.memo.dropped[c.name] = true
		dropped = true
	}
	// entry
	ex.freshCells(lc.E)
	for _, e := range ends {
		ex.freshCells(e)
	}
	for _, c := range lc.cands {
		switch {
		case c.local != "":
			x := lc.entry.val[c.local]
			if x == nil || !isPrivate(lc.E, x) {
				drop(c)
			}
		case c.elem != "":
			if !lc.elemHolds(lc.E, lc.entry, c) {
				drop(c)
			}
		case c.all != nil:
			if !lc.allHolds(lc.E, lc.entry, c) {
				drop(c)
			}
		case c.f != nil:
			if !ex.proves(lc.E, c.f(lc.E, lc.entry)) {
				drop(c)
				if m := os.Getenv("GOVC_MODEL"); m != "" && strings.Contains(c.name, m) {
					fmt.Fprintf(os.Stderr, "MODEL %s at %s\ngoal %s\ntrace %s\npc %d\n%s\n", c.name, lc.key, c.f(lc.E, lc.entry), strings.Join(lc.E.trace, " | "), len(lc.E.pc), ex.model(lc.E, Not(c.f(lc.E, lc.entry))))
				}
			}
		}
	}
	if dropped {
		return true
	}
	for ei, e := range ends {
		where = fmt.Sprintf("back edge %d", ei)
		es := lc.slotsOf(e)
		var conj []*T
		for _, c := range lc.cands {
			if c.f != nil && !lc.memo.dropped[c.name] {
				conj = append(conj, c.f(e, es))
			}
		}
		if len(conj) > 0 && !ex.proves(e, And(conj...)) {
			for _, c := range lc.cands {
				if c.f != nil && !lc.memo.dropped[c.name] && !ex.proves(e, c.f(e, es)) {
					drop(c)
					if m := os.Getenv("GOVC_MODEL"); m != "" && strings.Contains(c.name, m) {
						fmt.Fprintf(os.Stderr, "MODEL %s at %s\ngoal %s\ntrace %s\npc %d\n%s\n", c.name, where, c.f(e, es), strings.Join(e.trace, " | "), len(e.pc), ex.model(e, Not(c.f(e, es))))
					}
				}
			}
			if !dropped {
				// the conjunction is not provable although each part is: give up on the weakest ones
				for _, c := range lc.cands {
					if c.f != nil && !lc.memo.dropped[c.name] {
						drop(c)
						break
					}
				}
			}
		}
		for _, c := range lc.cands {
			if lc.memo.dropped[c.name] {
				continue
			}
			if fr, ok := lc.frameOf(c.name); ok {
				if !lc.frameHolds(e, fr) {
					drop(c)
				}
			} else if c.local != "" {
				if x := es.val[c.local]; x == nil || !isPrivate(e, x) {
					drop(c)
				}
			} else if c.elem != "" {
				if !lc.elemHolds(e, es, c) {
					drop(c)
				}
			} else if c.all != nil {
				if !lc.allHolds(e, es, c) {
					drop(c)
				}
			}
		}
	}
	return dropped
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (ex *Exec) keySortsOf(key string) []Sort {
	switch {
	case strings.HasPrefix(key, "elem:"):
		return []Sort{SInt, SInt}
	case strings.HasPrefix(key, bulkPrefix):
		return bulkKeySort(key)
	case strings.HasPrefix(key, "ghost.vis:"):
		return []Sort{ex.visKey[key]}
	case strings.HasPrefix(key, "map:"):
		i := strings.LastIndexByte(key, '#')
		if strings.HasPrefix(key[i:], "#len") {
			return []Sort{SInt}
		}
		if s, ok := mapKeySorts.Load(key[:i]); ok {
			return []Sort{SInt, s.(Sort)}
		}
		return nil
	case key == "ghost.rat":
		return []Sort{SStr, SInt}
	}
	return []Sort{SInt}
}

func (lc *loopCtx) frameHolds(e *State, fr frameCand) bool {
	ex := lc.ex
	hn := e.heaps[fr.key]
	old := lc.E.heaps[fr.key]
	if hn == old {
		return true
	}
	ss := ex.keySortsOf(fr.key)
	if ss == nil {
		return false
	}
	var ks []*T
	for _, s := range ss {
		ks = append(ks, Const(ex.fresh("sk"), s))
	}
	t := e.clone()
	if ss[0] == SInt {
		t.assume(Le(IntT(0), ks[0]))
	}
	// give the skolem reference the bound that the condition implies
	if strings.Contains(fr.key, "") {
		t.assume(fr.cond(ks))
	}
	if t.dead {
		return true
	}
	a := readHeap(t, hn, ks)
	b := readHeap(t, old, ks)
	return ex.proves(t, Eq(a, b))
}

func (lc *loopCtx) allHolds(st *State, s *slots, c cand) bool {
	ex := lc.ex
	ss := ex.keySortsOf(c.all.key)
	if ss == nil {
		return false
	}
	t := st.clone()
	var ks []*T
	for _, s := range ss {
		ks = append(ks, Const(ex.fresh("sk"), s))
	}
	if ss[0] == SInt {
		t.assume(Le(IntT(0), ks[0]))
	}
	var k2 *T
	if c.all.two {
		k2 = Const(ex.fresh("sk"), SVal)
		ex.addKey(t, k2)
	}
	if ss[len(ss)-1] == SVal {
		ex.addKey(t, ks[len(ks)-1])
	}
	v := t.readH(t.heap(c.all.key, c.all.sort), ks)
	g := c.all.f(t, t, s, ks, v, k2)
	return t.dead || ex.proves(t, g)
}

func (lc *loopCtx) elemHolds(st *State, s *slots, c cand) bool {
	ex := lc.ex
	sv, ok := s.slice[c.elem]
	if !ok {
		return false
	}
	if sv.len.lit != nil && sv.len.lit.Sign() == 0 {
		return true
	}
	key := elemKey(s.selem[c.elem])
	t := st.clone()
	i := Const(ex.fresh("sk"), SInt)
	t.assume(And(Le(IntT(0), i), Lt(i, sv.len)))
	if t.dead {
		return true
	}
	es, _ := scalarSort(s.selem[c.elem])
	v := t.readH(t.heap(key, es), []*T{sv.arr, Add(sv.off, i)})
	return ex.proves(t, c.pred(v))
}

// makeCands lists the candidates that have not been dropped yet.
func (lc *loopCtx) makeCands() {
	ex := lc.ex
	lc.cands = nil
	add := func(name string, f func(st *State, s *slots) *T) {
		if !lc.memo.dropped[name] {
			lc.cands = append(lc.cands, cand{name: name, f: f})
		}
	}
	E := lc.entry
	get := func(s *slots, n string) *T {
		if v, ok := s.val[n]; ok {
			return v
		}
		panic(unsupported("loop slot " + n + " disappeared"))
	}
	// loop-invariant integer terms in scope
	var ints []*T
	var vals []*T
	seen := map[*T]bool{}
	addInt := func(t *T) {
		if !seen[t] && t.lit == nil {
			seen[t] = true
			ints = append(ints, t)
		}
	}
	fr := lc.E.frames[lc.fi]
	hdrPhi := map[ssa.Value]bool{}
	for _, in := range lc.to.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			hdrPhi[p] = true
		}
	}
	for _, r := range regList(fr) {
		if hdrPhi[r] {
			continue
		}
		switch x := fr.regs[r].(type) {
		case *T:
			if x.sort == SInt {
				if b, ok := r.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					addInt(x)
				}
			}
			if x.sort == SVal && len(vals) < 6 && x.cst && !seen[x] {
				seen[x] = true
				vals = append(vals, x)
			}
		case SliceV:
			addInt(x.len)
		}
	}
	if len(ints) > 6 {
		ints = ints[:6]
	}
	// lengths of slices that objects in scope hold
	type fieldLen struct {
		key string
		ref *T
	}
	var flens []fieldLen
	for _, r := range regList(fr) {
		pt, ok := r.Type().Underlying().(*types.Pointer)
		ref, isT := fr.regs[r].(*T)
		if !ok || !isT || hdrPhi[r] || ref.sort != SInt || len(flens) >= 4 {
			continue
		}
		u, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < u.NumFields(); i++ {
			key := typeKey(pt.Elem()) + "." + u.Field(i).Name()
			if _, isS := u.Field(i).Type().Underlying().(*types.Slice); isS && lc.E.heaps[key+".len"] != nil {
				flens = append(flens, fieldLen{key, ref})
			}
		}
	}
	for _, n := range E.names {
		n := n
		e := E.val[n]
		t := E.typ[n]
		add(n+" = entry", func(_ *State, s *slots) *T { return Eq(get(s, n), e) })
		switch e.sort {
		case SVal:
			add(n+" != nil", func(_ *State, s *slots) *T { return Not(Eq(get(s, n), VNil)) })
			add(n+" wf", func(_ *State, s *slots) *T { return ex.wf(get(s, n)) })
			add(n+" = VNil", func(_ *State, s *slots) *T { return Eq(get(s, n), VNil) })
			add(n+" = Null", func(_ *State, s *slots) *T { return Eq(get(s, n), ex.nullVal()) })
			add(n+" some", func(_ *State, s *slots) *T { return ex.some(get(s, n)) })
			add(n+" none", func(_ *State, s *slots) *T { return ex.none(get(s, n)) })
			if dt := ex.dynType(e); dt != nil {
				add(n+" type", func(_ *State, s *slots) *T { return ex.isType(get(s, n), dt) })
			}
			if c := ex.P.typeByName("*Cons"); c != nil {
				add(n+" cons-or-none", func(_ *State, s *slots) *T { return Or(ex.none(get(s, n)), ex.isType(get(s, n), c)) })
			}
			for i, v := range vals {
				v := v
				add(fmt.Sprintf("%s = reg%d", n, i), func(_ *State, s *slots) *T { return Eq(get(s, n), v) })
			}
			for _, m := range E.names {
				m := m
				if m > n && E.val[m].sort == SVal {
					add(n+" = "+m, func(_ *State, s *slots) *T { return Eq(get(s, n), get(s, m)) })
				}
			}
		case SBool:
			add(n, func(_ *State, s *slots) *T { return get(s, n) })
			add("not "+n, func(_ *State, s *slots) *T { return Not(get(s, n)) })
			add("entry => "+n, func(_ *State, s *slots) *T { return Implies(e, get(s, n)) })
			add(n+" => entry", func(_ *State, s *slots) *T { return Implies(get(s, n), e) })
			for _, m := range E.names {
				m := m
				if m > n && E.val[m].sort == SBool {
					add(n+" = "+m, func(_ *State, s *slots) *T { return Eq(get(s, n), get(s, m)) })
				}
			}
		case SInt:
			isRef := false
			if t != nil {
				switch t.Underlying().(type) {
				case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
					isRef = true
				}
			}
			if strings.HasSuffix(n, ".arr") {
				isRef = true
			}
			if isRef {
				add(n+" != 0", func(_ *State, s *slots) *T { return Not(Eq(get(s, n), IntT(0))) })
				if !lc.memo.dropped["private "+n] {
					lc.cands = append(lc.cands, cand{name: "private " + n, local: n})
				}
				break
			}
			add(n+" >= entry", func(_ *State, s *slots) *T { return Le(e, get(s, n)) })
			add(n+" <= entry", func(_ *State, s *slots) *T { return Le(get(s, n), e) })
			add(n+" >= 0", func(_ *State, s *slots) *T { return Le(IntT(0), get(s, n)) })
			for i, v := range ints {
				v := v
				add(fmt.Sprintf("%s <= int%d", n, i), func(_ *State, s *slots) *T { return Le(get(s, n), v) })
				add(fmt.Sprintf("%s < int%d", n, i), func(_ *State, s *slots) *T { return Lt(get(s, n), v) })
				add(fmt.Sprintf("%s >= int%d", n, i), func(_ *State, s *slots) *T { return Le(v, get(s, n)) })
			}
			for i, fl := range flens {
				fl := fl
				add(fmt.Sprintf("%s <= len%d", n, i), func(st *State, s *slots) *T { return Le(get(s, n), ex.sliceField(st, fl.key, fl.ref).len) })
			}
			for _, m := range E.names {
				m := m
				if m <= n || E.val[m].sort != SInt || strings.HasSuffix(m, ".arr") {
					continue
				}
				if mt := E.typ[m]; mt != nil {
					if b, ok := mt.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
						continue
					}
				}
				em := E.val[m]
				add(n+" - "+m+" const", func(_ *State, s *slots) *T {
					return Eq(Add(get(s, n), em), Add(get(s, m), e))
				})
				add(n+" + "+m+" const", func(_ *State, s *slots) *T {
					return Eq(Add(get(s, n), get(s, m)), Add(e, em))
				})
				add(n+" <= "+m, func(_ *State, s *slots) *T { return Le(get(s, n), get(s, m)) })
				add(m+" <= "+n, func(_ *State, s *slots) *T { return Le(get(s, m), get(s, n)) })
			}
		}
	}
	// private arrays of values that the loop fills
	if lc.memo.mod["h:elem:Node"] {
		var ls []*T
		for l := range lc.E.local {
			if oi := lc.E.objTyp[l]; oi.elem != nil && typeKey(oi.elem) == "Node" && !lc.memo.noLocal[l.String()] {
				ls = append(ls, l)
			}
		}
		sortTerms(ls)
		for _, l := range ls {
			l := l
			addAll := func(nm string, in func(s *slots, i *T) *T) {
				nm = "array " + l.String() + " wf " + nm
				if !lc.memo.dropped[nm] {
					lc.cands = append(lc.cands, cand{name: nm, all: &allCand{key: "elem:Node", sort: SVal, f: func(_, _ *State, s *slots, ks []*T, v, _ *T) *T {
						return Implies(And(Eq(ks[0], l), Le(IntT(0), ks[1]), in(s, ks[1])), ex.wf(v))
					}}})
				}
			}
			oi := lc.E.objTyp[l]
			addAll("all", func(_ *slots, i *T) *T { return Lt(i, oi.n) })
			for _, n := range E.names {
				n := n
				if E.val[n].sort == SInt && isIntType(E.typ[n]) {
					addAll("< "+n, func(s *slots, i *T) *T { return Lt(i, get(s, n)) })
					addAll("<= "+n, func(s *slots, i *T) *T { return Le(i, get(s, n)) })
				}
			}
		}
	}
	for _, n := range E.snames {
		et := E.selem[n]
		if et == nil {
			continue
		}
		if _, isp := et.Underlying().(*types.Pointer); isp {
			nm := "elems " + n + " non-nil"
			if !lc.memo.dropped[nm] {
				lc.cands = append(lc.cands, cand{name: nm, elem: n, pred: func(x *T) *T { return Not(Eq(x, IntT(0))) }})
			}
			continue
		}
		if !types.IsInterface(et) {
			continue
		}
		if es, ok := scalarSort(et); ok && es == SVal && typeKey(et) == "Node" {
			nm := "elems " + n + " wf"
			if !lc.memo.dropped[nm] {
				lc.cands = append(lc.cands, cand{name: nm, elem: n, pred: ex.wf})
			}
		} else if ok && es == SVal && typeInvariants[elemKey(et)] != nil {
			nm := "elems " + n + " non-nil"
			if !lc.memo.dropped[nm] {
				lc.cands = append(lc.cands, cand{name: nm, elem: n, pred: func(x *T) *T { return Not(Eq(x, VNil)) }})
			}
		}
	}
	for _, m := range sortedKeys(lc.memo.mod) {
		if !strings.HasPrefix(m, "h:") {
			continue
		}
		k := m[2:]
		if lc.E.heaps[k] == nil {
			continue
		}
		addFrame := func(how string) {
			nm := "frame " + how + " " + k
			if !lc.memo.dropped[nm] {
				lc.cands = append(lc.cands, cand{name: nm})
			}
		}
		if strings.HasPrefix(k, "ghost.") {
			continue
		}
		addFrame("old")
		if lc.memo.dropped["frame old "+k] {
			if strings.HasPrefix(k, "shared.") && lc.E.heaps[k].sort == SInt {
				addFrame("nonzero")
			}
			var ls []*T
			for l := range lc.E.local {
				if !lc.memo.noLocal[l.String()] {
					ls = append(ls, l)
				}
			}
			sortTerms(ls)
			for _, l := range ls {
				addFrame("local:" + strings.ReplaceAll(l.String(), " ", "_"))
			}
		}
	}
	lc.objectCands(add)
	if _, ok := lc.E.ghosts["cancelled"]; ok && ex.en != nil && ex.en.ctx != nil { // an error that the loop carries: none, or the context's
		for _, n := range lc.entry.names {
			n := n
			if t := lc.entry.typ[n]; lc.entry.val[n].sort == SVal && t != nil && types.Identical(t, types.Universe.Lookup("error").Type()) {
				add("live "+n, func(st *State, s *slots) *T {
					return Implies(Eq(s.val[n], VNil), Not(ex.ghost(st, "cancelled", SBool)))
				})
				add("cancelled "+n, func(st *State, s *slots) *T {
					return Or(Eq(s.val[n], VNil), And(ex.ghost(st, "cancelled", SBool), Eq(s.val[n], UF("ctxerr", SVal, ex.en.ctx))))
				})
			}
		}
	}
	if ex.con != nil && ex.con.loopCands != nil {
		for _, c := range ex.con.loopCands(lc) {
			if !lc.memo.dropped[c.name] {
				lc.cands = append(lc.cands, c)
			}
		}
	}
	if ex.con != nil && ex.con.keepCand != nil {
		n := lc.cands[:0]
		for _, c := range lc.cands {
			if ex.con.keepCand(c.name) {
				n = append(n, c)
			}
		}
		lc.cands = n
	}
}

// objectCands proposes facts about the fields of private structs that the loop modifies.
func (lc *loopCtx) objectCands(add func(string, func(*State, *slots) *T)) {
	ex := lc.ex
	var ls []*T
	for l := range lc.E.local {
		if !lc.memo.noLocal[l.String()] && lc.E.objTyp[l].typ != nil {
			ls = append(ls, l)
		}
	}
	sortTerms(ls)
	for _, l := range ls {
		l := l
		t := lc.E.objTyp[l].typ
		var nils []leaf
		for _, lf := range ex.leaves(typeKey(t), t) {
			lf := lf
			if !lc.memo.mod["h:"+lf.suf] || lc.E.heaps[lf.suf] == nil {
				continue
			}
			rd := func(st *State) *T { return readHeap(st, st.heap(lf.suf, lf.sort), []*T{l}) }
			nm := "obj " + l.String() + " " + lf.suf
			isRef := false
			if lf.typ != nil {
				switch lf.typ.Underlying().(type) {
				case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
					isRef = true
				}
			}
			if lf.sort == SInt && strings.HasSuffix(lf.suf, ".arr") {
				isRef = true
			}
			switch {
			case lf.sort == SVal:
				add(nm+" wf", func(st *State, _ *slots) *T { return ex.wf(rd(st)) })
				nils = append(nils, lf)
			case isRef:
				add(nm+" nonzero", func(st *State, _ *slots) *T { return Not(Eq(rd(st), IntT(0))) })
				A := lc.A
				add(nm+" fresh", func(st *State, _ *slots) *T { x := rd(st); return Or(Eq(x, IntT(0)), Le(A, x)) })
				add(nm+" new", func(st *State, _ *slots) *T { x := rd(st); return Or(Eq(x, IntT(0)), Le(ex.alloc0, x)) })
				nils = append(nils, lf)
			case lf.sort == SInt:
				add(nm+" >=0", func(st *State, _ *slots) *T { return Le(IntT(0), rd(st)) })
			}
		}
		isNil := func(st *State, lf leaf) *T {
			x := readHeap(st, st.heap(lf.suf, lf.sort), []*T{l})
			if lf.sort == SVal {
				return Eq(x, VNil)
			}
			return Eq(x, IntT(0))
		}
		for i, a := range nils {
			for _, b := range nils[i+1:] {
				a, b := a, b
				add("obj "+l.String()+" "+a.suf+" nil <=> "+b.suf+" nil", func(st *State, _ *slots) *T { return Eq(isNil(st, a), isNil(st, b)) })
			}
		}
	}
}

// regList lists registers in a deterministic order.
func regList(f *Frame) []ssa.Value {
	var r []ssa.Value
	for _, p := range f.fn.Params {
		r = append(r, p)
	}
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if _, ok := f.regs[v]; ok {
					r = append(r, v)
				}
			}
		}
	}
	return r
}
