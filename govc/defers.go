package main

// Deferred calls inside loops. The number of deferred calls is unbounded, so they are summarised: only delete(m, k) is supported,
// and the pairs (m, k) whose deletion is pending form a set, kept as a ghost heap; leaving the function removes them all.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const bulkPrefix = "ghost.defer:"

func (ex *Exec) bulkKey(x *ssa.Defer) (string, *types.Map) {
	b, ok := x.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "delete" {
		return "", nil
	}
	mt := x.Call.Args[0].Type().Underlying().(*types.Map)
	i := 0
	for _, in := range x.Block().Instrs {
		if in == x {
			break
		}
		i++
	}
	return fmt.Sprintf("%s%s.%d.%d~%s", bulkPrefix, ex.P.fname(x.Parent()), x.Block().Index, i, mapKey(mt)), mt
}

func (ex *Exec) inLoop(x *ssa.Defer) bool {
	li := ex.loopInfo(x.Parent())
	if li == nil {
		return false
	}
	for _, body := range li.body {
		if body[x.Block()] {
			return true
		}
	}
	return false
}

// setupBulk registers the loop defers of a function at its entry.
func (ex *Exec) setupBulk(st *State, f *Frame) {
	if ex.loopInfo(f.fn) == nil {
		return
	}
	n, other := 0, 0
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			if !ex.inLoop(d) {
				other++
				continue
			}
			k, mt := ex.bulkKey(d)
			if mt == nil {
				panic(unsupported("deferred call inside a loop in " + ex.P.fname(f.fn)))
			}
			n++
			h := st.heap(k, SBool)
			st.heaps[k] = h.region(func([]*T) *T { return True }, func(*State, []*T) *T { return False })
			f.defers = append(f.defers, deferred{bulk: k, mt: mt})
		}
	}
	_ = other
}

func (ex *Exec) deferBulk(st *State, f *Frame, x *ssa.Defer) {
	k, mt := ex.bulkKey(x)
	_, args := ex.callParts(st, f, &x.Call)
	m, key := args[0].(*T), ex.scalar(st, args[1], mt.Key())
	st.heaps[k] = st.heap(k, SBool).store([]*T{m, key}, True)
}

func (ex *Exec) runBulk(st *State, d deferred) {
	s := st.heaps[d.bulk]
	key := mapKey(d.mt)
	dom := st.heap(key+"#dom", SBool)
	st.heaps[key+"#dom"] = dom.region(func(k []*T) *T { return readPure(s, k) }, func(*State, []*T) *T { return False })
	ln := st.heap(key+"#len", SInt)
	st.heaps[key+"#len"] = &HNode{base: key + "#len!" + ex.fresh("bulk"), sort: SInt, bound: ln.bound}
}

func bulkKeySort(key string) []Sort {
	i := strings.IndexByte(key, '~')
	if s, ok := mapKeySorts.Load(key[i+1:]); ok {
		return []Sort{SInt, s.(Sort)}
	}
	return nil
}
