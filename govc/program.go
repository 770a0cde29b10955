package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded repository plus the contract overlay.
type Program struct {
	fset    *token.FileSet
	ssa     *ssa.Program
	pkgs    []*packages.Package
	overlay map[string][]byte
	globals map[*ssa.Global]*VPtr
	gnext   uint64
	models  map[string]*ssa.Function
	built   map[*ssa.Package]bool
	errT    types.Type
	init    *Heap
	byPath  map[string]*ssa.Package
}

const repoMod = "github.com/gostor/gotgt"

func (p *Program) isRepo(path string) bool {
	return path == repoMod || strings.HasPrefix(path, repoMod+"/")
}

func (p *Program) fileOf(fn *ssa.Function) string {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	pos := f.Pos()
	if !pos.IsValid() {
		return ""
	}
	return p.fset.Position(pos).Filename
}

func (p *Program) isSpec(fn *ssa.Function) bool {
	return strings.HasPrefix(filepath.Base(p.fileOf(fn)), specPrefix)
}

const specPrefix = "zz_vc_"

func (p *Program) model(name string) *ssa.Function { return p.models["model_"+name] }

func (p *Program) errType() types.Type {
	if p.errT == nil {
		for _, pk := range p.ssa.AllPackages() {
			if pk.Pkg.Path() == "errors" {
				p.errT = pk.Pkg.Scope().Lookup("errorString").Type()
			}
		}
	}
	return p.errT
}

func (p *Program) build(fn *ssa.Function) {
	f := fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	pk := f.Pkg
	if pk == nil {
		return
	}
	if !p.built[pk] {
		p.built[pk] = true
		pk.Build()
	}
}

func (p *Program) method(t types.Type, m *types.Func) *ssa.Function {
	return p.ssa.LookupMethod(t, m.Pkg(), m.Name())
}

func (p *Program) globalPtr(g *ssa.Global) *VPtr {
	if v, ok := p.globals[g]; ok {
		return v
	}
	p.gnext++
	v := &VPtr{T: g.Type().Underlying().(*types.Pointer).Elem(), Ref: BV(32, 0x100+p.gnext)}
	p.globals[g] = v
	return v
}

func loadProgram(dir string, patterns []string, overlay map[string][]byte) (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     dir,
		Fset:    fset,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		if strings.HasPrefix(pk.PkgPath, repoMod) {
			for _, e := range pk.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	sp, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug&0)
	p := &Program{fset: fset, ssa: sp, pkgs: pkgs, overlay: overlay, globals: map[*ssa.Global]*VPtr{}, models: map[string]*ssa.Function{}, built: map[*ssa.Package]bool{}, byPath: map[string]*ssa.Package{}}
	for _, pk := range sp.AllPackages() {
		p.byPath[pk.Pkg.Path()] = pk
		if p.isRepo(pk.Pkg.Path()) {
			p.built[pk] = true
			pk.Build()
			for n, m := range pk.Members {
				if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "model_") {
					p.models[n] = f
				}
			}
		}
	}
	return p, nil
}

// contracts returns the contract functions by name.
func (p *Program) contracts() map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	for path, pk := range p.byPath {
		if !p.isRepo(path) {
			continue
		}
		for n, m := range pk.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "contract_") {
				if out[n] != nil {
					panic("two contracts named " + n)
				}
				out[n] = f
			}
		}
	}
	return out
}

var inInit bool

// runInit executes the package initialisers of the repository symbolically and determines which components and
// globals can change afterwards.
func (p *Program) runInit() {
	inInit = true
	defer func() { inInit = false }()
	e := newEngine(p, "init", "")
	e.suppress = 1
	h := newHeap()
	st := &State{env: map[ssa.Value]Val{}, heap: h}
	done := map[*types.Package]bool{}
	var visit func(pk *types.Package)
	visit = func(pk *types.Package) {
		if done[pk] {
			return
		}
		done[pk] = true
		for _, im := range pk.Imports() {
			visit(im)
		}
		if !p.isRepo(pk.Path()) {
			return
		}
		sp := p.byPath[pk.Path()]
		if sp == nil {
			return
		}
		st = p.initPkg(e, st, sp)
	}
	var paths []string
	for path := range p.byPath {
		if p.isRepo(path) {
			paths = append(paths, path)
		}
	}
	sort.Strings(paths)
	for _, path := range paths {
		visit(p.byPath[path].Pkg)
	}
	mutable := p.mutableComps()
	initEnd = nextAlloc
	out := newHeap()
	for name, n := range st.heap.m {
		if mutable[name] || strings.HasPrefix(name, "C:") || strings.HasPrefix(name, "G:") {
			if !p.keepInit(name) {
				continue
			}
		}
		out.m[name] = n
	}
	// globals never stored to after initialisation keep their value even if the component is mutable
	p.init = out
	mg := p.mutableGlobals()
	gs := []*ssa.Global{}
	for g := range p.globals {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	tmp := &State{env: map[ssa.Value]Val{}, heap: out}
	inInit = false
	for _, g := range gs {
		if g.Pkg == nil || !p.isRepo(g.Pkg.Pkg.Path()) || mg[g] || strings.HasPrefix(filepath.Base(p.fset.Position(g.Pos()).Filename), specPrefix) {
			continue
		}
		v := p.globals[g]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(Unsupported); !ok {
						panic(r)
					}
				}
			}()
			inInit = true
			val := st.load(v)
			inInit = false
			tmp.store(v, val)
		}()
		inInit = false
	}
}

func (p *Program) keepInit(name string) bool { return false }

func (p *Program) initPkg(e *Engine, st *State, sp *ssa.Package) (out *State) {
	fn := sp.Func("init")
	out = st
	if fn == nil {
		return
	}
	backup := st.fork()
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Unsupported); ok {
				if os.Getenv("GOVC_INIT") != "" {
					fmt.Fprintln(os.Stderr, "init of", sp.Pkg.Path(), "not executed:", u.Msg)
				}
				e.stack = nil
				e.specDepth = 0
				out = backup
				return
			}
			panic(r)
		}
	}()
	ns, _ := e.call(st, fn, nil, nil, token.NoPos)
	return ns
}

// stores outside package initialisers, by component stem of the address
func (p *Program) mutableComps() map[string]bool {
	out := map[string]bool{}
	p.eachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Store:
			for _, n := range addrComps(x.Addr) {
				out[n] = true
			}
		case *ssa.MapUpdate:
			mt := x.Map.Type().Underlying().(*types.Map)
			p.addMap(out, mt)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "delete":
					p.addMap(out, x.Call.Args[0].Type().Underlying().(*types.Map))
				case "copy":
					out["E:"+ename(x.Call.Args[0].Type().Underlying().(*types.Slice).Elem())] = true
				}
			}
		}
	})
	out["E:uint8"] = true
	mutableStems = out
	mutableMemo = map[string]bool{}
	res := map[string]bool{}
	for name := range comps {
		if isMutableComp(name) {
			res[name] = true
		}
	}
	return res
}

var (
	mutableStems map[string]bool
	mutableMemo  = map[string]bool{}
	initEnd      uint32 // allocations of the package initialisation are below it
)

// isMutableComp: something outside the package initialisers writes the component.
func isMutableComp(name string) bool {
	if r, ok := mutableMemo[name]; ok {
		return r
	}
	stem := name
	if i := strings.Index(stem, "#"); i >= 0 && !strings.HasPrefix(stem, "M:") {
		stem = stem[:i]
	}
	r := strings.HasPrefix(name, "C:")
	for o := range mutableStems {
		if stem == o || strings.HasPrefix(stem, o+".") || strings.HasPrefix(stem, o+"[") || strings.HasPrefix(name, o+"#") {
			r = true
		}
	}
	mutableMemo[name] = r
	return r
}

func (p *Program) addMap(out map[string]bool, mt *types.Map) { out[mapStem(mt)] = true }

func addrComps(v ssa.Value) []string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		pt := x.X.Type().Underlying().(*types.Pointer).Elem()
		f := structOf(pt).Field(x.Field)
		return append([]string{"F:" + tname(pt) + "." + f.Name()}, subComps(f.Type())...)
	case *ssa.IndexAddr:
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			return []string{"E:" + ename(u.Elem())}
		case *types.Pointer:
			return []string{"E:" + ename(u.Elem().Underlying().(*types.Array).Elem())}
		}
	case *ssa.Global, *ssa.Alloc:
		return nil // globals are handled by mutableGlobals; locals are fresh
	}
	t := v.Type().Underlying().(*types.Pointer).Elem()
	return append([]string{"C:" + ename(t)}, subComps(t)...)
}

// subComps: whole-struct stores touch every field component.
func subComps(t types.Type) []string {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var out []string
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, "F:"+tname(t)+"."+u.Field(i).Name())
			out = append(out, subComps(u.Field(i).Type())...)
		}
		return out
	case *types.Array:
		return []string{"E:" + ename(u.Elem())}
	}
	return nil
}

func (p *Program) mutableGlobals() map[*ssa.Global]bool {
	out := map[*ssa.Global]bool{}
	p.eachInstr(func(fn *ssa.Function, in ssa.Instruction) {
		for _, op := range in.Operands(nil) {
			g, ok := (*op).(*ssa.Global)
			if !ok {
				continue
			}
			switch x := in.(type) {
			case *ssa.UnOp: // load
				continue
			case *ssa.Store:
				if x.Addr == g {
					out[g] = true
				}
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice:
				// address of a part: be careful, struct globals with stores through fields
				if refs := x.(ssa.Value).Referrers(); refs != nil {
					for _, r := range *refs {
						if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
							continue
						}
						if c, ok := r.(*ssa.Call); ok && c.Call.Value.Name() == "len" {
							continue
						}
						out[g] = true
					}
				}
			default:
				out[g] = true
			}
		}
	})
	return out
}

func (p *Program) eachInstr(f func(fn *ssa.Function, in ssa.Instruction)) {
	for fn := range ssautil.AllFunctions(p.ssa) {
		if fn.Pkg == nil || !p.isRepo(fn.Pkg.Pkg.Path()) || p.isSpec(fn) {
			continue
		}
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		if root.Name() == "init" || strings.HasPrefix(root.Name(), "init#") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				f(fn, in)
			}
		}
	}
}

var _ = ast.Print

func newEngine(p *Program, contract, prop string) *Engine {
	return &Engine{prog: p, contract: contract, prop: prop, oblSeen: map[[2]interface{}]bool{}, stubs: map[*ssa.Function]*Term{}, used: map[string]bool{}, assumption: map[string]bool{}, invStats: map[string]int{}, safety: true, isCand: map[*Term]bool{}}
}
