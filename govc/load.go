package main

// Loading of the current source: SSA, builtin table, globals, type universe.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

const modPath = "github.com/hymkor/gmnlisp"

type Builtin struct {
	name        string
	fn          *ssa.Function
	kind        string // f0 f1 f2 fn special other
	c, min, max int64
}

type Program struct {
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package // short name -> package
	main      *ssa.Package
	builtins  map[string]*Builtin
	fset      *token.FileSet
	mu        sync.Mutex
	tids      typeutil.Map
	tidT      map[int]types.Type
	conc      []types.Type // concrete types converted to interfaces in repository code
	globals   map[*ssa.Global]*globalInfo
	allFuncs  []*ssa.Function
	litFields map[string]bool // fields written after the construction of their object
	written   map[string]bool
	msets     *typeutil.MethodSetCache
	litRefN   int64
	implC     map[string][]types.Type
	funcIDs   map[string]int64
	idFuncs   map[int64]*FuncV
	gkeys     map[string]*ssa.Global
	loops     map[*ssa.Function]*loopInfo
}

type globalInfo struct {
	mutable bool
	made    bool // holds an object made by the repository at every moment after initialisation
	val     ssa.Value
	ref     int64
	cached  Value
}

func Load(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("package %s does not compile: %v", p.PkgPath, p.Errors[0])
		}
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, builtins: map[string]*Builtin{}, fset: prog.Fset,
		tidT: map[int]types.Type{}, globals: map[*ssa.Global]*globalInfo{}, written: map[string]bool{},
		msets: new(typeutil.MethodSetCache), implC: map[string][]types.Type{}, funcIDs: map[string]int64{}, idFuncs: map[int64]*FuncV{}}
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		P.pkgs[strings.TrimPrefix(strings.TrimPrefix(p.Pkg.Path(), modPath), "/")] = p
		if p.Pkg.Path() == modPath {
			P.main = p
		}
	}
	if P.main == nil {
		return nil, fmt.Errorf("package %s not found", modPath)
	}
	for f := range ssautil.AllFunctions(prog) {
		if P.inRepo(f) && len(f.Blocks) > 0 {
			P.allFuncs = append(P.allFuncs, f)
		}
	}
	sort.Slice(P.allFuncs, func(i, j int) bool {
		a, b := P.allFuncs[i], P.allFuncs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	P.scan()
	P.findBuiltins()
	return P, nil
}

func (P *Program) inRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), modPath)
	}
	// synthesized wrappers: decide by receiver type
	if r := f.Signature.Recv(); r != nil {
		return typeInRepo(r.Type())
	}
	return false
}

func typeInRepo(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
	}
	return false
}

// nameID is a number of 31 bits made of a name.
func nameID(s string) int64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return int64(h.Sum64()>>33) + 1000
}

// tid numbers the concrete dynamic types.
func (P *Program) tid(t types.Type) int {
	P.mu.Lock()
	defer P.mu.Unlock()
	return P.tidLocked(t)
}
func (P *Program) tidLocked(t types.Type) int {
	t = types.Unalias(t)
	if v := P.tids.At(t); v != nil {
		return v.(int)
	}
	// numbered by name: the order in which contracts meet types differs from run to run
	id := int(nameID(types.TypeString(t, nil)))
	for P.tidT[id] != nil {
		id++
	}
	P.tids.Set(t, id)
	P.tidT[id] = t
	return id
}

// scan records the concrete types that reach interfaces, field immutability and global initialisation.
func (P *Program) scan() {
	seen := new(typeutil.Map)
	add := func(t types.Type) {
		if types.IsInterface(t) || seen.At(t) != nil {
			return
		}
		seen.Set(t, true)
		P.conc = append(P.conc, t)
	}
	gstores := map[*ssa.Global][]*ssa.Store{}
	gescape := map[*ssa.Global]bool{}
	gnil, gmade := map[*ssa.Global]bool{}, map[*ssa.Global]bool{} // may be nil; made by the initialiser
	for _, f := range P.allFuncs {
		isInit := f.Name() == "init" && f.Synthetic != "" || strings.HasPrefix(f.Name(), "init#")
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MakeInterface:
					add(x.X.Type())
				case *ssa.Store:
					if g, ok := x.Addr.(*ssa.Global); ok {
						switch x.Val.(type) {
						case *ssa.MakeMap, *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeChan:
							if isInit {
								gmade[g] = true
							}
						default:
							gnil[g] = true
						}
						if isInit {
							gstores[g] = append(gstores[g], x)
						} else {
							gescape[g] = true
						}
						break
					}
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						if !freshIn(fa.X) {
							P.written[fieldAddrKey(fa)] = true
						}
					}
				}
				// address of a global or field taken for something other than load/store
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						switch y := in.(type) {
						case *ssa.UnOp:
							_ = y
						case *ssa.Store:
							if y.Addr != *op {
								gescape[g] = true
								gnil[g] = true
							}
						case *ssa.FieldAddr, *ssa.IndexAddr:
						case *ssa.DebugRef:
						default:
							gescape[g] = true
							gnil[g] = true
						}
					}
					if fa, ok := (*op).(*ssa.FieldAddr); ok {
						switch y := in.(type) {
						case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
						case *ssa.Store:
							if y.Addr != *op {
								P.written[fieldAddrKey(fa)] = true
							}
						default:
							P.written[fieldAddrKey(fa)] = true
						}
					}
					if al, ok := (*op).(*ssa.FieldAddr); ok {
						_ = al
					}
				}
			}
		}
	}
	// every named type of the repository that has methods may flow into an interface through reflection-free code only by
	// MakeInterface, which the scan above has seen.
	sort.SliceStable(P.conc, func(i, j int) bool { return P.conc[i].String() < P.conc[j].String() })
	for _, t := range P.conc {
		P.tid(t)
	}
	all := P.prog.AllPackages()
	sort.Slice(all, func(i, j int) bool { return all[i].Pkg.Path() < all[j].Pkg.Path() })
	for _, p := range all {
		if !strings.HasPrefix(p.Pkg.Path(), modPath) {
			continue
		}
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			g, ok := p.Members[n].(*ssa.Global)
			if !ok {
				continue
			}
			P.litRefN++
			gi := &globalInfo{ref: P.litRefN, made: gmade[g] && !gnil[g]}
			ss := gstores[g]
			if gescape[g] || len(ss) > 1 {
				gi.mutable = true
			} else if len(ss) == 1 {
				gi.val = ss[0].Val
			}
			P.globals[g] = gi
		}
	}
}

// freshIn: the address base is an allocation of the same function.
func freshIn(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return freshIn(x.X)
	}
	return false
}

func structOf(t types.Type) (types.Type, *types.Struct) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return t, s
}

func fieldAddrKey(fa *ssa.FieldAddr) string {
	t, s := structOf(fa.X.Type())
	k := typeKey(t) + "." + s.Field(fa.Field).Name()
	if inner, ok := fa.X.(*ssa.FieldAddr); ok {
		return fieldAddrKey(inner) + "." + s.Field(fa.Field).Name()
	}
	return k
}

// immutableKey: a heap location of this key never changes once its object has been published.
func (P *Program) immutableKey(key string) bool {
	if strings.HasPrefix(key, "elem:") || strings.HasPrefix(key, "map:") || strings.HasPrefix(key, "global:") || strings.HasPrefix(key, "ghost.") || strings.HasPrefix(key, "cell:") {
		return false
	}
	if strings.HasPrefix(key, "box:") {
		return true
	}
	// whole-struct stores through pointers are rare: treated as writes by storeKeyed callers (see Exec.store)
	for _, suf := range []string{".arr", ".off", ".len", ".cap"} {
		key = strings.TrimSuffix(key, suf)
	}
	for k := key; ; {
		if P.written[k] {
			return false
		}
		i := strings.LastIndexByte(k, '.')
		if i < 0 || !strings.Contains(k[:i], ".") {
			break
		}
		k = k[:i]
	}
	return !P.written[key]
}

func (P *Program) findBuiltins() {
	visit := func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				name, ok := symbolName(mu.Key)
				if !ok {
					continue
				}
				if bi := P.callableOf(mu.Value); bi != nil {
					bi.name = name
					P.builtins[name] = bi
				}
			}
		}
	}
	for _, p := range P.pkgs {
		for _, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(f.Name(), "init") {
				visit(f)
			}
		}
	}
}

func symbolName(v ssa.Value) (string, bool) {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return symbolName(x.X)
	case *ssa.ChangeInterface:
		return symbolName(x.X)
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.Name() == "NewSymbol" && len(x.Call.Args) == 1 {
			if c, ok := x.Call.Args[0].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value), true
			}
		}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			if init := g.Pkg.Func("init"); init != nil {
				for _, b := range init.Blocks {
					for _, in := range b.Instrs {
						if s, ok := in.(*ssa.Store); ok && s.Addr == g {
							return symbolName(s.Val)
						}
					}
				}
			}
		}
	}
	return "", false
}

func (P *Program) callableOf(v ssa.Value) *Builtin {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return P.callableOf(x.X)
	case *ssa.ChangeInterface:
		return P.callableOf(x.X)
	case *ssa.ChangeType:
		fn, ok := x.X.(*ssa.Function)
		if !ok {
			return nil
		}
		kind := map[string]string{"Function0": "f0", "Function1": "f1", "Function2": "f2", "SpecialF": "special"}[typeShort(x.Type())]
		if kind == "" {
			return nil
		}
		return &Builtin{fn: fn, kind: kind}
	case *ssa.Function:
		kind := map[string]string{"Function0": "f0", "Function1": "f1", "Function2": "f2", "SpecialF": "special"}[typeShort(x.Type())]
		if kind != "" {
			return &Builtin{fn: x, kind: kind}
		}
	case *ssa.Alloc:
		t, s := structOf(x.Type())
		if typeShort(t) != "Function" || s == nil {
			return nil
		}
		b := &Builtin{kind: "fn"}
		for _, r := range *x.Referrers() {
			fa, ok := r.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			for _, r2 := range *fa.Referrers() {
				st, ok := r2.(*ssa.Store)
				if !ok {
					continue
				}
				switch s.Field(fa.Field).Name() {
				case "F":
					b.fn, _ = st.Val.(*ssa.Function)
				case "C", "Min", "Max":
					c, ok := st.Val.(*ssa.Const)
					if !ok {
						return nil
					}
					n := c.Int64()
					switch s.Field(fa.Field).Name() {
					case "C":
						b.c = n
					case "Min":
						b.min = n
					case "Max":
						b.max = n
					}
				}
			}
		}
		if b.fn != nil {
			return b
		}
	}
	return nil
}

func typeShort(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// Arity returns the argument count range of a fixed-arity or &Function builtin (max<0: unbounded).
func (b *Builtin) Arity() (int64, int64) {
	switch b.kind {
	case "f0":
		return 0, 0
	case "f1":
		return 1, 1
	case "f2":
		return 2, 2
	}
	min, max := int64(0), int64(-1)
	if b.max > 0 {
		max = b.max
	} else if b.c > 0 {
		max = b.c
	}
	if b.c > 0 {
		min = b.c
	} else if b.min > 0 {
		min = b.min
	}
	return min, max
}

// implementers lists the concrete types seen in the repository that implement an interface.
func (P *Program) implementers(it *types.Interface, key string) []types.Type {
	P.mu.Lock()
	defer P.mu.Unlock()
	if r, ok := P.implC[key]; ok {
		return r
	}
	var r []types.Type
	for _, t := range P.conc {
		if types.Implements(t, it) {
			r = append(r, t)
		}
	}
	P.implC[key] = r
	return r
}

// findFunc finds a function by its Go name: "Progn", "(*World).Eval", "parser.X".
func (P *Program) findFunc(name string) *ssa.Function {
	for _, f := range P.allFuncs {
		if P.fname(f) == name {
			return f
		}
	}
	return nil
}

// fname is the package-relative name of a function.
func (P *Program) fname(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, modPath+"/pkg/", "")
	s = strings.ReplaceAll(s, modPath+"/cmd/", "cmd/")
	s = strings.ReplaceAll(s, modPath+".", "")
	return s
}
