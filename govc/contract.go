package main

import (
	"go/token"
)

// Contract is a machine-checked specification of one entry point: a Lisp built-in (found through the interpreter's own
// table) or a Go function. Preconditions are assumed by setup, events (calls whose callee is only known by contract) are
// monitored by onEvent/after with ghost state, and onReturn states the postconditions.
type Contract struct {
	name           string
	props          []string
	entry          string // "lisp:NAME" or "go:NAME"
	autos          []string
	eventFuncs     map[string]string
	pureEvents     map[string]bool
	setup          func(en *Entry)
	onEvent        func(ev *Event)
	after          func(ev *Event)
	onReturn       func(rt *Return)
	then           func(rt *Return) (*FuncV, []Value) // after the function returns, the function value it made is called
	loopCands      func(lc *loopCtx) []cand
	covers         []string // names of reachability marks that must be hit (vacuity guard)
	freshCancel    bool
	inlineStrings  bool
	abstractEquals bool
	codeImmutable  bool            // precondition: evaluation does not destructively modify existing list cells
	freshCells     bool            // the functions over lists are also unfolded at the list cells the code makes
	storeEndsRecs  bool // after a store to an existing cell the equations of recs are no longer used
	frozen         map[string]bool // precondition: heap entries that evaluation does not modify
	recs           []recSpec       // recursive specification functions over lists, unfolded at every cell the code reads
	bounded        string          // non-empty: what is bounded
	clause         string          // what the contract states, for the evidence
	budget         int             // seconds (0: default)
	knownTypes     []string        // method calls on values proved to be of one of these types are resolved
	keepCand       func(name string) bool // which of the proposed loop invariants are tried (nil: all)
	readFact       func(st *State, key string, keys []*T, v *T) // what is assumed of a value read from memory that the code did not write itself
	mayBeTrivial   bool            // no obligation arises from code that cannot fail
}

// recSpec states the defining equation of a recursive specification function at one list cell (v is the cell, car and cdr
// its fields). at returns the formula.
type recSpec struct {
	name string
	at   func(ex *Exec, st *State, v, car, cdr *T) *T
	base func(ex *Exec, st *State) *T // equations for the end of a list
	// functions with a further argument: unfolded at every cell for every key registered with addKey
	keyed   func(ex *Exec, st *State, k, v, car, cdr *T) *T
	keyBase func(ex *Exec, st *State, k *T) *T
}

// Entry is the symbolic entry of a function under contract.
type Entry struct {
	ex   *Exec
	st   *State
	ctx  *T
	w    *T
	args []Value
	bi   *Builtin
	// convenience
	arg  *T     // f1, f2
	arg2 *T     // f2
	argv SliceV // fn
	list *T     // special
}

// Event is a call into arbitrary Lisp evaluation.
type Event struct {
	ex   *Exec
	st   *State
	en   *Entry
	kind string
	args []Value
	res  Value
	rv   *T
	re   *T
	pos  token.Pos
	dead bool
}

// Return is a normal return of the entry function.
type Return struct {
	ex  *Exec
	st  *State
	en  *Entry
	res Value
	rv  *T
	re  *T
	// value / error when the function returns (Node, error)
}

func (e *Event) assert(name string, c *T) {
	if e.dead {
		return
	}
	if !e.ex.oblige(e.st, "spec", name, c, e.pos, "contract clause violated at "+e.kind) {
		e.dead = true
	}
}
func (e *Event) get(g string, s Sort) *T { return e.ex.ghost(e.st, g, s) }
func (e *Event) set(g string, v *T)      { e.st.ghosts[g] = v }
func (e *Event) assume(c *T)             { e.st.assume(c) }
func (e *Event) val(i int) *T            { t, _ := e.args[i].(*T); return t }

func (r *Return) assert(name string, c *T) {
	r.ex.oblige(r.st, "spec", name, c, token.NoPos, "postcondition violated")
}
func (r *Return) get(g string, s Sort) *T { return r.ex.ghost(r.st, g, s) }

// when runs f on the part of the state where c holds.
func (r *Return) when(c *T, f func(r *Return)) {
	c = r.st.simp(c)
	if c == False {
		return
	}
	if c == True {
		f(r)
		return
	}
	s := r.st.clone()
	s.assume(c)
	if s.dead || !r.ex.feasible(s, True) {
		return
	}
	n := *r
	n.st = s
	f(&n)
}

func (r *Return) cover(name string) { r.ex.Covers[name] = true }

func (ex *Exec) monitor(st *State, kind string, args []Value, pos token.Pos) bool {
	if !ex.con.pureEvents[kind] { // a pure call may come between the making of a cell and the storing of its parts
		ex.freshCells(st)
	}
	if ex.con.onEvent == nil {
		return true
	}
	ev := &Event{ex: ex, st: st, en: ex.en, kind: kind, args: args, pos: pos}
	ex.con.onEvent(ev)
	return !ev.dead && !st.dead
}

func (ex *Exec) monitorAfter(st *State, kind string, args []Value, res Value, rv, re *T, pos token.Pos) bool {
	if ex.con.after == nil {
		return true
	}
	ev := &Event{ex: ex, st: st, en: ex.en, kind: kind, args: args, res: res, rv: rv, re: re, pos: pos}
	ex.con.after(ev)
	return !ev.dead && !st.dead
}
