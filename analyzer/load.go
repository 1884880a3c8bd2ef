package main

// Loading /repo's current tree together with the driver functions, and running drivers.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type World struct {
	prog    *ssa.Program
	pkgs    []*packages.Package
	byPath  map[string]*packages.Package
	drv     *ssa.Package
	dir     string
	base    *State
	muts    map[*ssa.Global]string // package variables written outside initialisers
	gen     map[string]string
	npkgs   int
	loops   map[*ssa.Function]*LoopInfo
	classes map[string]*ClassInfo
	shapes  map[string]*shape
	schema  *Schema
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func copyTree(src, dst string) {
	must(filepath.Walk(src, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if i.IsDir() {
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	}))
}

// load builds the SSA of /repo and of the drivers.
func load(drivers string) *World {
	dir, err := os.MkdirTemp("", "xta-")
	must(err)
	w := &World{dir: dir, byPath: map[string]*packages.Package{}, muts: map[*ssa.Global]string{}, loops: map[*ssa.Function]*LoopInfo{}, classes: map[string]*ClassInfo{}, shapes: map[string]*shape{}, schema: frozenSchema()}
	mod, err := os.ReadFile(filepath.Join(drivers, "go.mod.in"))
	must(err)
	must(os.WriteFile(filepath.Join(dir, "go.mod"), []byte(strings.ReplaceAll(string(mod), "@REPO@", repoDir)), 0o644))
	sum, err := os.ReadFile(filepath.Join(drivers, "go.sum.in"))
	must(err)
	must(os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644))
	copyTree(filepath.Join(drivers, "rt"), filepath.Join(dir, "rt"))
	copyTree(filepath.Join(drivers, "d"), filepath.Join(dir, "d"))
	w.generate()
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env}
	ps, err := packages.Load(cfg, "./...", modPath+"/...", modPath+"/protobuf/...")
	must(err)
	bad := 0
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, modPath) || strings.HasPrefix(p.PkgPath, "xtadrv") {
				fmt.Println("load error:", e)
				bad++
			}
		}
		w.byPath[p.PkgPath] = p
		w.npkgs++
	})
	if bad > 0 {
		panic(undecided(fmt.Sprintf("the tree does not load: %d errors", bad)))
	}
	w.pkgs = ps
	w.prog, _ = ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	w.drv = w.prog.ImportedPackage("xtadrv/d")
	w.drv.Build()
	for _, p := range w.repoPkgs() {
		p.Build()
	}
	for _, p := range w.repoPkgs() {
		w.scanGlobals(p)
	}
	for _, p := range ps {
		w.regTypes(p.Types)
	}
	return w
}

func (w *World) close() { os.RemoveAll(w.dir) }

// repoPkgs lists the repository's own packages (without the generated bindings).
func (w *World) repoPkgs() []*ssa.Package {
	var r []*ssa.Package
	for _, p := range w.prog.AllPackages() {
		pa := p.Pkg.Path()
		if strings.HasPrefix(pa, modPath) && !strings.HasPrefix(pa, modPath+"/protobuf") {
			r = append(r, p)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Pkg.Path() < r[j].Pkg.Path() })
	return r
}

func (w *World) regTypes(p *types.Package) {
	sc := p.Scope()
	for _, n := range sc.Names() {
		if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
			regType(tn.Type())
			regType(types.NewPointer(tn.Type()))
		}
	}
}

// rootGlobal follows an address to the package variable it lies in.
func rootGlobal(v ssa.Value, depth int) *ssa.Global {
	if depth > 8 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Global:
		return x
	case *ssa.FieldAddr:
		return rootGlobal(x.X, depth+1)
	case *ssa.IndexAddr:
		return rootGlobal(x.X, depth+1)
	case *ssa.Slice:
		return rootGlobal(x.X, depth+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch x.Type().Underlying().(type) {
			case *types.Slice, *types.Map, *types.Pointer:
				return rootGlobal(x.X, depth+1)
			}
		}
	case *ssa.ChangeType:
		return rootGlobal(x.X, depth+1)
	}
	return nil
}

// scanGlobals finds package variables written by code other than initialisers.
func (w *World) scanGlobals(p *ssa.Package) {
	for _, fn := range pkgFuncs(w.prog, p) {
		if fn.Synthetic == "package initializer" || (fn.Parent() == nil && strings.HasPrefix(fn.Name(), "init#")) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var g *ssa.Global
				switch x := ins.(type) {
				case *ssa.Store:
					g = rootGlobal(x.Addr, 0)
				case *ssa.MapUpdate:
					g = rootGlobal(x.Map, 0)
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append", "copy", "clear", "delete":
							g = rootGlobal(x.Call.Args[0], 0)
						}
					}
				}
				if g != nil {
					w.muts[g] = fmt.Sprintf("%s in %s", w.prog.Fset.Position(ins.Pos()), fn)
				}
			}
		}
	}
}

// pkgFuncs lists all functions of a package, methods and closures included.
func pkgFuncs(prog *ssa.Program, p *ssa.Package) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var r []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		r = append(r, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range p.Members {
		switch x := m.(type) {
		case *ssa.Function:
			add(x)
		case *ssa.Type:
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					f := prog.MethodValue(ms.At(i))
					if f != nil && f.Pkg == p {
						add(f)
					}
				}
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func (w *World) interp() *Interp {
	return &Interp{
		prog: w.prog, fset: w.prog.Fset, loops: w.loops, maxStep: stepLimit,
		notes: map[string]int{}, funcs: map[string]int{}, contr: map[string]*ContractUse{}, opts: map[string]bool{},
		noUnroll: map[*ssa.BasicBlock]bool{}, phase: map[*ssa.BasicBlock]int{}, opaque: map[string]func(in *Interp, st *State, args []Val) []Outcome{},
		world: w,
	}
}

// initState is the state after the initialisers of the repository's packages.
func (w *World) initState() *State {
	if w.base == nil {
		st := newState()
		in := w.interp()
		done := map[*types.Package]bool{}
		var visit func(p *types.Package)
		visit = func(p *types.Package) {
			if done[p] {
				return
			}
			done[p] = true
			for _, i := range p.Imports() {
				visit(i)
			}
			if strings.HasPrefix(p.Path(), modPath) && !strings.HasPrefix(p.Path(), modPath+"/protobuf") {
				st = in.initPkg(st, w.prog.Package(p))
			}
		}
		for _, p := range w.repoPkgs() {
			visit(p.Pkg)
		}
		for g := range w.muts {
			if id, ok := st.glob[g]; ok {
				delete(st.glob, g)
				_ = id
			}
		}
		w.base = st
	}
	return w.base.clone()
}

// Run is the result of interpreting a driver.
type Run struct {
	name string
	in   *Interp
	outs []Outcome
	und  string // undecided
}

// drive interprets driver name on arbitrary arguments.
func (w *World) drive(name string, prep func(in *Interp, st *State)) (run *Run) {
	in := w.interp()
	run = &Run{name: name, in: in}
	fn := w.drv.Func(name)
	if fn == nil {
		run.und = "no driver " + name
		return
	}
	st := w.initState()
	if prep != nil {
		prep(in, st)
	}
	var args []Val
	for _, p := range fn.Params {
		args = append(args, st.symVal(p.Type(), p.Name()))
	}
	return w.runOn(run, st, fn, args)
}

func (w *World) runOn(run *Run, st *State, fn *ssa.Function, args []Val) *Run {
	if os.Getenv("XTA_TRACE") != "" {
		run.in.trace = true
	}
	func() {
		if os.Getenv("XTA_CRASH") == "" {
			defer func() {
				switch r := recover().(type) {
				case nil:
				case undecided:
					run.und = string(r)
				default:
					run.und = fmt.Sprint("analyzer failure: ", r)
				}
			}()
		}
		run.outs = run.in.topCall(st, fn, args)
	}()
	return run
}

// topCall runs fn with splits requested by models at top level resolved.
func (in *Interp) topCall(st *State, fn *ssa.Function, args []Val) []Outcome {
	return in.callFn(st, fn, args, nil)
}
