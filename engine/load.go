package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

const module = "github.com/sourcenetwork/zanzi"

type Engine struct {
	prog     *ssa.Program
	fset     *token.FileSet
	pkgs     map[string]*ssa.Package
	infos    map[*ssa.Function]*fnInfo
	fieldOf  map[string]fieldInfo
	globals  map[string]*ssa.Global
	boxes    map[string]types.Type
	unint    map[string]*ssa.Function
	uninterp map[*ssa.Function]bool
	abbrev   map[*ssa.Function]bool
	defs     map[*ssa.Function]bool
	lemmas   map[*ssa.Function]*Contract
	fmts     map[string]string
	trivial  int
	loopN    int
	tagTypes map[int]types.Type
	tags     typeutil.Map
	ntag     int

	contracts   []*Contract
	invs        map[string][]*ssa.Function // loop invariants, by package, function and number of the loop
	byFn        map[*ssa.Function]*Contract
	byOrigin    map[string][]*Contract // extern: origin name
	byIface     map[string]*Contract   // iface type name + method
	byName      map[string]*Contract
	dropped     []string
	models      map[string]*ssa.Function
	modelled    map[string]*ssa.Global
	disabled    []string
	injectiveFn map[*ssa.Function]bool
	closedTab   map[types.Type][]types.Type
	inits       map[*ssa.Global]*ssa.Store
	initScan    map[*ssa.Package]bool
	repoDir     string
	loadErr     string
	openIface   map[string]bool
}

type Contract struct {
	name   string
	kind   string // contract, extern, interface, lemma
	target string
	fn     *ssa.Function
	tfn    *ssa.Function
	props  []string
	top    bool
	group  string
	iface  string
	flags  map[string]bool
	pkg    string
}

type directive struct {
	kind, arg string
}

// specDecls: parsed contract files with directives
type specFile struct {
	path string // overlay path
	src  []byte
	dir  map[string][]directive // decl name -> directives
}

var goList = regexp.MustCompile(`^//vc:(\w+)\s*(.*)$`)

func loadSpecs(contractsDir, repo string) ([]*specFile, error) {
	var out []*specFile
	err := filepath.Walk(contractsDir, func(p string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(contractsDir, p)
		dir := filepath.Dir(rel)
		var target string
		for _, d := range []string{"internal/", "pkg/", "internal/store/"} {
			if st, err := os.Stat(filepath.Join(repo, d+dir)); err == nil && st.IsDir() {
				target = filepath.Join(repo, d+dir)
				break
			}
		}
		if target == "" {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		base := filepath.Base(p)
		if !strings.HasPrefix(base, "zz_verif") {
			base = "zz_verif_" + base
		}
		out = append(out, &specFile{path: filepath.Join(target, base), src: src})
		return nil
	})
	return out, err
}

func (s *specFile) parseDirectives() error {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, s.path, s.src, parser.ParseComments)
	if err != nil {
		return err
	}
	s.dir = map[string][]directive{}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Doc == nil {
			continue
		}
		for _, c := range fd.Doc.List {
			if m := goList.FindStringSubmatch(c.Text); m != nil {
				s.dir[fd.Name.Name] = append(s.dir[fd.Name.Name], directive{m[1], strings.TrimSpace(m[2])})
			}
		}
	}
	return nil
}

// blank removes the top level declaration at the offset, returning its name
func (s *specFile) blank(line int) string {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, s.path, s.src, parser.ParseComments)
	if err != nil {
		return ""
	}
	for _, d := range f.Decls {
		lo, hi := fs.Position(d.Pos()), fs.Position(d.End())
		if line < lo.Line || line > hi.Line {
			continue
		}
		name := "decl"
		switch x := d.(type) {
		case *ast.FuncDecl:
			name = x.Name.Name
			if x.Doc != nil {
				lo = fs.Position(x.Doc.Pos())
			}
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				for _, sp := range x.Specs {
					p := fs.Position(sp.Pos())
					if p.Line == line {
						for i := p.Offset; i < fs.Position(sp.End()).Offset; i++ {
							s.src[i] = ' '
						}
						return "import"
					}
				}
				return ""
			}
		}
		for i := lo.Offset; i < hi.Offset; i++ {
			if s.src[i] != '\n' {
				s.src[i] = ' '
			}
		}
		return name
	}
	return ""
}

func newEngine(repo, contractsDir string, disable []string) (*Engine, error) {
	e := &Engine{infos: map[*ssa.Function]*fnInfo{}, fieldOf: map[string]fieldInfo{}, globals: map[string]*ssa.Global{}, boxes: map[string]types.Type{},
		unint: map[string]*ssa.Function{}, uninterp: map[*ssa.Function]bool{}, invs: map[string][]*ssa.Function{}, abbrev: map[*ssa.Function]bool{}, defs: map[*ssa.Function]bool{}, lemmas: map[*ssa.Function]*Contract{}, fmts: map[string]string{},
		tagTypes: map[int]types.Type{}, ntag: 10, byFn: map[*ssa.Function]*Contract{}, byOrigin: map[string][]*Contract{}, injectiveFn: map[*ssa.Function]bool{}, models: map[string]*ssa.Function{}, modelled: map[string]*ssa.Global{}, byIface: map[string]*Contract{}, byName: map[string]*Contract{},
		closedTab: map[types.Type][]types.Type{}, pkgs: map[string]*ssa.Package{}, inits: map[*ssa.Global]*ssa.Store{}, initScan: map[*ssa.Package]bool{}, repoDir: repo, disabled: disable}
	specs, err := loadSpecs(contractsDir, repo)
	if err != nil {
		return nil, err
	}
	for _, s := range specs {
		if err := s.parseDirectives(); err != nil {
			return nil, err
		}
	}
	var pkgs []*packages.Package
	for round := 0; round < 40; round++ {
		ov := map[string][]byte{}
		for _, s := range specs {
			ov[s.path] = append([]byte{}, s.src...)
		}
		cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: repo, Overlay: ov, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off")}
		pkgs, err = packages.Load(cfg, "./internal/...", "./pkg/...", ".")
		if err != nil {
			return nil, err
		}
		bad := false
		for _, p := range pkgs {
			for _, pe := range p.Errors {
				hit := false
				for _, s := range specs {
					if strings.HasPrefix(pe.Pos, s.path+":") {
						var line int
						fmt.Sscanf(strings.TrimPrefix(pe.Pos, s.path+":"), "%d", &line)
						n := s.blank(line)
						if n != "" {
							e.dropped = append(e.dropped, n+": "+pe.Msg)
							bad, hit = true, true
						}
					}
				}
				if !hit && pe.Kind != packages.ListError && !bad {
					return nil, fmt.Errorf("%s: %s", pe.Pos, pe.Msg)
				}
			}
		}
		if !bad {
			break
		}
	}
	e.fset = pkgs[0].Fset
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	e.prog = prog
	for i, p := range sp {
		if p != nil {
			e.pkgs[pkgs[i].PkgPath] = p
		}
	}
	for _, s := range specs {
		dir := strings.TrimPrefix(filepath.Dir(s.path), repo+"/")
		p := e.pkgs[module+"/"+dir]
		if p == nil {
			continue
		}
		for _, n := range sortedKeys(s.dir) {
			fn := p.Func(n)
			if fn == nil {
				continue
			}
			e.register(p, fn, s.dir[n])
		}
	}
	return e, nil
}

func (e *Engine) register(p *ssa.Package, fn *ssa.Function, ds []directive) {
	c := &Contract{name: fn.Name(), fn: fn, flags: map[string]bool{}, pkg: p.Pkg.Name()}
	for _, d := range ds {
		switch d.kind {
		case "uninterp":
			e.uninterp[fn] = true
			for _, x := range ds {
				if x.kind == "injective" {
					e.injectiveFn[fn] = true
				}
			}
			return
		case "injective":
			continue
		case "model":
			k := strings.LastIndex(d.arg, ".")
			if q := e.pkgs[module+"/"+d.arg[:k]]; q != nil && q.Var(d.arg[k+1:]) != nil {
				e.models[p.Pkg.Name()+" "+d.arg] = fn
				e.modelled[p.Pkg.Name()+" "+d.arg] = q.Var(d.arg[k+1:])
			}
			return
		case "abbrev":
			e.abbrev[fn] = true
		case "invariant":
			w := strings.Fields(d.arg)
			if len(w) == 2 && !has(e.disabled, fn.Name()) {
				e.invs[p.Pkg.Path()+"|"+w[0]+"|"+w[1]] = append(e.invs[p.Pkg.Path()+"|"+w[0]+"|"+w[1]], fn)
			}
			return
		case "def":
			e.defs[fn] = true
			return
		case "contract", "extern", "interface", "lemma", "axiom":
			c.kind = d.kind
			c.target = d.arg
		case "props":
			c.props = strings.Fields(d.arg)
		case "top":
			c.top = true
		case "group":
			c.group = d.arg
		default:
			c.flags[d.kind] = true
		}
	}
	if c.group == "" {
		c.group = c.name
	}
	if has(e.disabled, c.name) {
		e.dropped = append(e.dropped, c.name+": disabled, its function is inlined")
		return
	}
	switch c.kind {
	case "contract":
		c.tfn = e.findFunc(p, c.target)
		if c.tfn == nil || !e.sameSig(c.tfn, fn) {
			e.dropped = append(e.dropped, c.name+": no function "+c.target)
			if c.top {
				e.contracts = append(e.contracts, c)
				c.tfn = nil
			}
			return
		}
		e.byFn[c.tfn] = c
	case "extern":
		e.byOrigin[c.target] = append(e.byOrigin[c.target], c)
	case "interface":
		e.byIface[c.target] = c
	case "lemma", "axiom":
		e.lemmas[fn] = c
	}
	e.byName[c.name] = c
	e.contracts = append(e.contracts, c)
}

func (e *Engine) sameSig(t, s *ssa.Function) bool {
	var ps []types.Type
	if t.Signature.Recv() != nil {
		ps = append(ps, t.Signature.Recv().Type())
	}
	for i := 0; i < t.Signature.Params().Len(); i++ {
		ps = append(ps, t.Signature.Params().At(i).Type())
	}
	n := len(ps)
	res := t.Signature.Results()
	if len(s.Params) != n+res.Len() {
		return false
	}
	for i, p := range ps {
		if !types.Identical(p, s.Params[i].Type()) {
			return false
		}
	}
	for i := 0; i < res.Len(); i++ {
		if !types.Identical(res.At(i).Type(), s.Params[n+i].Type()) {
			return false
		}
	}
	return true
}

// findFunc resolves "F", "T.M" and "(*T).M"; type arguments of a generic receiver are written T[string]
func (e *Engine) findFunc(p *ssa.Package, n string) *ssa.Function {
	if i := strings.LastIndex(n, ")."); i > 0 || strings.Contains(n, ".") && !strings.HasPrefix(n, "(") {
		var tn, m string
		ptr := false
		if strings.HasPrefix(n, "(*") {
			tn, m, ptr = n[2:i], n[i+2:], true
		} else {
			k := strings.LastIndex(n, ".")
			tn, m = n[:k], n[k+1:]
		}
		targ := ""
		if k := strings.Index(tn, "["); k > 0 {
			targ, tn = strings.TrimSuffix(tn[k+1:], "]"), tn[:k]
		}
		tt := p.Type(tn)
		if tt == nil {
			return nil
		}
		t := tt.Type()
		if targ != "" {
			tv, err := types.Eval(e.fset, p.Pkg, token.NoPos, tn+"["+targ+"]")
			if err != nil {
				return nil
			}
			t = tv.Type
		}
		if ptr {
			t = types.NewPointer(t)
		}
		sel := e.prog.MethodSets.MethodSet(t).Lookup(p.Pkg, m)
		if sel == nil {
			return nil
		}
		return e.prog.MethodValue(sel)
	}
	if k := strings.Index(n, "["); k > 0 {
		for fn := range ssautil.AllFunctions(e.prog) {
			if o := fn.Origin(); o != nil && o != fn && o.Pkg == p && o.Name() == n[:k] && strings.HasSuffix(fn.Name(), n[k:]) {
				return fn
			}
		}
		return nil
	}
	return p.Func(n)
}

func (e *Engine) contractFor(fn *ssa.Function) *Contract {
	if c := e.byFn[fn]; c != nil {
		if c.flags["inline"] {
			return nil
		}
		if !c.flags["proveonly"] {
			return c
		}
	}
	n := fn.String()
	if o := fn.Origin(); o != nil {
		n = o.String()
	}
	for _, c := range e.byOrigin[n] {
		if e.sameSig(fn, c.fn) {
			return c
		}
	}
	return nil
}

func (e *Engine) ifaceContract(t types.Type, m string) *Contract {
	if c := e.byIface[typeName(t)+"."+m]; c != nil {
		return c
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.TypeArgs().Len() > 0 && n.Obj().Pkg() != nil {
		return e.byIface[n.Obj().Pkg().Name()+"."+n.Obj().Name()+"."+m]
	}
	return nil
}

func (e *Engine) tagOf(t types.Type) *Term {
	if v := e.tags.At(t); v != nil {
		return Int(int64(v.(int)))
	}
	e.ntag++
	e.tags.Set(t, e.ntag)
	e.tagTypes[e.ntag] = t
	return Int(int64(e.ntag))
}

func (e *Engine) isRepoPkg(p *ssa.Package) bool {
	return p != nil && strings.HasPrefix(p.Pkg.Path(), module)
}

func pkgOf(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg()
		}
	}
	return nil
}

func (e *Engine) isRepo(fn *ssa.Function) bool {
	p := pkgOf(fn)
	return p != nil && strings.HasPrefix(p.Path(), module)
}

func (e *Engine) inlinable(fn *ssa.Function) bool {
	if fn.Blocks == nil {
		return false
	}
	if e.isRepo(fn) {
		return true
	}
	// wrappers, bound methods and thunks
	return fn.Synthetic != ""
}

func (e *Engine) isProtoMethod(fn *ssa.Function) bool {
	pos := fn.Pos()
	if !pos.IsValid() {
		return false
	}
	return strings.HasSuffix(e.fset.Position(pos).Filename, ".pb.go")
}

func (e *Engine) anyType(t types.Type) types.Type { return types.Universe.Lookup("any").Type() }
func (e *Engine) noteArith()                      {}

// closedImpls lists the possible dynamic types of an interface that cannot be implemented outside the program:
// it has an unexported method (protobuf oneofs), or it is declared by an internal package or named type of the repository.
func (e *Engine) closedImpls(t types.Type) ([]types.Type, bool) {
	n, ok := t.(*types.Named)
	if !ok {
		return nil, false
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), module) || it.NumMethods() == 0 {
		return nil, false
	}
	if v, ok := e.closedTab[t]; ok {
		return v, len(v) > 0
	}
	priv := false
	for i := 0; i < it.NumMethods(); i++ {
		if !it.Method(i).Exported() {
			priv = true
		}
	}
	internal := strings.Contains(n.Obj().Pkg().Path(), "/internal/")
	var out []types.Type
	if priv || internal {
		p := e.pkgs[n.Obj().Pkg().Path()]
		if p != nil {
			var names []string
			for k := range p.Members {
				names = append(names, k)
			}
			sort.Strings(names)
			for _, k := range names {
				tt, ok := p.Members[k].(*ssa.Type)
				if !ok || types.IsInterface(tt.Type()) {
					continue
				}
				if nn, ok := tt.Type().(*types.Named); ok && nn.TypeParams().Len() > 0 {
					continue
				}
				if types.Implements(tt.Type(), it) {
					out = append(out, tt.Type())
				} else if pt := types.NewPointer(tt.Type()); types.Implements(pt, it) {
					out = append(out, pt)
				}
			}
		}
		if !priv {
			// an exported method set of an internal interface: implementations may live in other repository packages
			if e.openIface[n.Obj().Name()] {
				out = nil
			}
		}
	}
	e.closedTab[t] = out
	return out, len(out) > 0
}

// globalInit finds the only initialisation of a package level variable
func (e *Engine) globalInit(g *ssa.Global) *ssa.Store {
	p := g.Pkg
	if p == nil {
		return nil
	}
	if !e.initScan[p] {
		e.initScan[p] = true
		var fns []*ssa.Function
		for _, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok {
				fns = append(fns, f)
				fns = append(fns, f.AnonFuncs...)
			}
		}
		count := map[*ssa.Global]int{}
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if gl, ok := st.Addr.(*ssa.Global); ok {
							count[gl]++
							e.inits[gl] = st
						}
					}
				}
			}
		}
		for gl, n := range count {
			if n != 1 {
				delete(e.inits, gl)
			}
		}
	}
	return e.inits[g]
}

// validatorHasRules: does a generated Validate method (transitively) contain a rule that can fail?
func (e *Engine) validatorHasRules(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	if fn.Name() == "Validate" {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if f := c.Call.StaticCallee(); f != nil && f.Name() == "validate" {
						return e.validatorHasRules(f, seen)
					}
				}
			}
		}
		return true
	}
	// every error stored or returned must be an embedded message's
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if c, ok := x.Val.(*ssa.Const); ok && c.Value != nil {
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						st := deref(fa.X.Type()).Underlying().(*types.Struct)
						if st.Field(fa.Field).Name() == "reason" && c.Value.ExactString() != "\"embedded message failed validation\"" && c.Value.ExactString() != "\"oneof value cannot be a typed-nil\"" {
							return true
						}
					}
				}
			case *ssa.TypeAssert:
				// embedded messages
				if mi, ok := x.X.(*ssa.MakeInterface); ok {
					t := mi.X.Type()
					if sel := e.prog.MethodSets.MethodSet(t).Lookup(nil, "Validate"); sel != nil {
						if m := e.prog.MethodValue(sel); m != nil {
							if m.Blocks == nil || e.validatorHasRules(m, seen) {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}
