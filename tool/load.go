package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the type checked program in SSA form.
type Prog struct {
	globals   map[ObjID]*Obj // package variables that are only read after the initialisation
	dir       string
	fset      *token.FileSet
	prog      *ssa.Program
	pkgs      []*packages.Package
	tok       *ssa.Package
	gram      *ssa.Package
	repoPkgs  map[*types.Package]bool
	fullField int
	posField  int
	trkField  int
	allFuncs  map[*ssa.Function]bool
}

var theProg *Prog

func load(dir string) (*Prog, error) {
	cfg := &packages.Config{
		Mode:  packages.LoadAllSyntax,
		Dir:   dir,
		Env:   append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOSUMDB=off"),
		Tests: false,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	errs := []string{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the program does not type check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{dir: dir, fset: prog.Fset, prog: prog, pkgs: pkgs, repoPkgs: map[*types.Package]bool{}}
	for i, sp := range spkgs {
		if sp == nil {
			continue
		}
		p.repoPkgs[sp.Pkg] = true
		switch pkgs[i].PkgPath {
		case "github.com/aiq/tok":
			p.tok = sp
		case "github.com/aiq/tok/grammar":
			p.gram = sp
		}
	}
	if p.tok == nil || p.gram == nil {
		return nil, fmt.Errorf("packages tok and grammar not found")
	}
	// the fields of Scanner by role: the only string, the only integer, the Tracker
	sc := p.tok.Type("Scanner")
	if sc == nil {
		return nil, fmt.Errorf("type Scanner not found")
	}
	st, ok := sc.Type().Underlying().(*types.Struct)
	if !ok {
		return nil, fmt.Errorf("Scanner is no struct")
	}
	p.fullField, p.posField, p.trkField = -1, -1, -1
	for i := 0; i < st.NumFields(); i++ {
		switch u := st.Field(i).Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 && p.fullField < 0 {
				p.fullField = i
			}
			if u.Info()&types.IsInteger != 0 && p.posField < 0 {
				p.posField = i
			}
		case *types.Interface:
			if isTok(st.Field(i).Type(), "Tracker") {
				p.trkField = i
			}
		}
	}
	if f, ok := p.returned("Mark", sc.Type()); ok {
		p.posField = f
	}
	if f, ok := p.returned("Tail", sc.Type()); ok {
		p.fullField = f
	}
	if p.fullField < 0 || p.posField < 0 || p.trkField < 0 {
		return nil, fmt.Errorf("text, position or tracker field of Scanner not found")
	}
	p.allFuncs = ssautil.AllFunctions(prog)
	theProg = p
	p.initGlobals()
	return p, nil
}

// returned finds the field of the scanner that is the source of what a method returns.
func (p *Prog) returned(name string, sc types.Type) (int, bool) {
	fn := p.method(p.tok, "Scanner", name)
	if fn == nil {
		return 0, false
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			r, ok := i.(*ssa.Return)
			if !ok || len(r.Results) != 1 {
				continue
			}
			v := r.Results[0]
			for {
				switch x := v.(type) {
				case *ssa.Convert:
					v = x.X
					continue
				case *ssa.ChangeType:
					v = x.X
					continue
				case *ssa.Slice:
					v = x.X
					continue
				case *ssa.UnOp:
					if fa, ok := x.X.(*ssa.FieldAddr); ok && types.Identical(deptr(fa.X.Type()), sc) {
						return fa.Field, true
					}
				}
				break
			}
		}
	}
	return 0, false
}

func scannerFields() (int, int, int) { return theProg.posField, theProg.fullField, theProg.trkField }

func (p *Prog) rel(f string) string {
	if r, err := filepath.Rel(p.dir, f); err == nil && !strings.HasPrefix(r, "..") {
		return r
	}
	return filepath.Base(f)
}

// method finds a method of an exported type by name (pointer receiver set).
func (p *Prog) method(pkg *ssa.Package, typ, name string) *ssa.Function {
	t := pkg.Type(typ)
	if t == nil {
		return nil
	}
	pt := types.NewPointer(t.Type())
	ms := p.prog.MethodSets.MethodSet(pt)
	sel := ms.Lookup(pkg.Pkg, name)
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

func (p *Prog) lookup(t types.Type, m *types.Func) *ssa.Function {
	ms := p.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

func (p *Prog) fn(pkg *ssa.Package, name string) *ssa.Function { return pkg.Func(name) }

func (p *Prog) typ(name string) types.Type {
	t := p.tok.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

func (p *Prog) inRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return p.repoPkgs[fn.Pkg.Pkg]
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return p.repoPkgs[o.Pkg()]
	}
	// wrappers of embedded methods
	return fn.Synthetic != "" && strings.Contains(fn.String(), "aiq/tok")
}

// alwaysImplements reports whether every value of interface type t implements it.
func (p *Prog) alwaysImplements(t types.Type, it *types.Interface) bool {
	u, ok := t.Underlying().(*types.Interface)
	return ok && types.Implements(u, it)
}

// typeRel: a value is of type a; tells whether it is of type b, if that is known.
func (p *Prog) typeRel(a, b string) (bool, bool) {
	ta, tb := p.typeByName(a), p.typeByName(b)
	if ta == nil || tb == nil {
		return false, false
	}
	_, ia := ta.Underlying().(*types.Interface)
	ub, ib := tb.Underlying().(*types.Interface)
	switch {
	case !ia && !ib:
		return false, true // different concrete types
	case !ia && ib:
		return types.Implements(ta, ub), true
	case ia && ib:
		if types.Implements(ta, ub) {
			return true, true
		}
	}
	return false, false
}

var typeNames = map[string]types.Type{}

func (p *Prog) typeByName(n string) types.Type {
	if len(typeNames) == 0 {
		for fn := range p.allFuncs {
			if !p.inRepo(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					if t, ok := i.(*ssa.TypeAssert); ok {
						typeNames[types.TypeString(t.AssertedType, nil)] = t.AssertedType
					}
				}
			}
		}
	}
	return typeNames[n]
}
