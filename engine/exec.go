package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Fact struct {
	t    *Term
	note string
}

type Obl struct {
	Name    string
	Kind    string // ensures, pre, safety, frame, loop, unsupported, decreases, lemma
	Tags    []string
	Assume  []*Term
	Goal    *Term
	Where   string
	n       int // assumes index while in construction
	fn      string
	vacuity bool // satisfiable expected: Goal is False
}

type Run struct {
	eng      *Engine
	name     string
	arrs     map[string]*Arr
	arrOrder []string
	seq      int
	fresh    int
	idx      []*Term
	assumes  []*Fact
	obls     []*Obl
	inlined  map[string]bool
	used     map[string]bool // contracts used
	notes    map[string]bool // assumptions recorded
	clos     map[string]*Clo
	defs     map[string]string
	appends  map[int]*appendInfo // by seq term id
	accs     map[string]*accInfo // op name of the accumulator sequence
	stack    []*ssa.Function
	spec     *specCtx
	cur      *Contract
	curFn    string
	errN     int
	initDone map[string]bool
	decr     []*Term // measure at entry
	left0    *leftSet
	steps    int
	allocTyp map[string]types.Type
	quiet    int // >0: no obligations are produced (specification code)
	occ      map[string]int
	unfold   int
	retRefs  map[string]bool
	stuckMsg string
}

type Clo struct {
	fn   *ssa.Function
	bind []Val
	idx  []*Term
}

type appendInfo struct {
	base  Val
	elem  Val
	elemT types.Type
	many  bool
}

type accInfo struct {
	loop   *loopExec
	elemT  types.Type
	init   Val
	active bool
}

func (r *Run) freshName(p string) string {
	r.fresh++
	return fmt.Sprintf("%s!%d", p, r.fresh)
}

func (r *Run) idxArgs() []*Term { return append([]*Term{}, r.idx...) }

func (r *Run) freshTerm(p string, s Sort) *Term { return App(r.freshName(p), s, r.idxArgs()...) }

func (r *Run) freshVal(p string, t types.Type) Val {
	var v Val
	n := r.freshName(p)
	for _, l := range layout(t) {
		if l.Sort == SI && strings.HasSuffix(l.Path, ".$off") {
			v = append(v, Zero)
			continue
		}
		v = append(v, App(n+l.Path, l.Sort, r.idxArgs()...))
	}
	r.shape(v, t, True)
	return v
}

// shape assumes what every value of type t satisfies
func (r *Run) shape(v Val, t types.Type, g *Term) {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if len(v) == 3 {
			r.assume(And(Le(Zero, v[2]), Le(Zero, v[1])), "slice shape")
			r.assume(Implies(Eq(v[0], Nil), Eq(v[2], Zero)), "slice shape")
		}
	case *types.Interface:
		r.ifaceShape(v, t)
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if skipField(f) {
				continue
			}
			k := len(layout(f.Type()))
			r.shape(v[n:n+k], f.Type(), g)
			n += k
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			a, b := tupleRange(u, i)
			r.shape(v[a:b], u.At(i).Type(), g)
		}
	case *types.Basic:
		if u.Info()&types.IsUnsigned != 0 {
			r.assume(Le(Zero, v[0]), "unsigned")
		}
	}
}

func (r *Run) ifaceShape(v Val, t types.Type) {
	r.assume(Implies(Eq(v[0], Zero), Eq(v[1], Nil)), "nil interface")
	if impls, closed := r.eng.closedImpls(t); closed {
		cs := []*Term{Eq(v[0], Zero)}
		for _, c := range impls {
			cs = append(cs, Eq(v[0], r.eng.tagOf(c)))
		}
		r.assume(Or(cs...), "closed interface")
		r.assume(Or(Eq(v[0], Zero), Not(Eq(v[1], Nil))), "typed nil excluded")
	}
}

func (r *Run) assume(t *Term, note string) {
	if t == True {
		return
	}
	r.assumes = append(r.assumes, &Fact{t, note})
}

func (r *Run) note(s string) { r.notes[s] = true }

func (r *Run) oblige(kind, name, where string, tags []string, g, goal *Term) {
	if r.quiet > 0 {
		return
	}
	t := Implies(g, goal)
	if t == True && kind == "safety" {
		r.eng.trivial++
		return
	}
	base := r.curFn + ": " + name
	o := &Obl{Name: base, Kind: kind, Tags: tags, Goal: t, Where: where, n: len(r.assumes), fn: r.curFn}
	r.obls = append(r.obls, o)
}

type ret struct {
	g    *Term
	vals []Val
}

type deferred struct {
	g    *Term
	call *ssa.CallCommon
	args []Val
	fnv  Val
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	edges  map[[2]int]*Term
	rets   []ret
	defers []deferred
	info   *fnInfo
	entry  *Term
	limit  int
	params []Val
	nexts  map[ssa.Value]*rangeInfo
	loops  []*loopExec
}

type rangeInfo struct {
	m     *Term
	typ   *types.Map
	limit int
	str   bool
}

type stuckErr struct{ msg string }

func (r *Run) stuck(format string, a ...any) { panic(stuckErr{fmt.Sprintf(format, a...)}) }

func (r *Run) where(in ssa.Instruction) string {
	p := r.eng.fset.Position(in.Pos())
	if !p.IsValid() {
		return in.Parent().Name()
	}
	f := p.Filename
	if i := strings.LastIndex(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// call executes fn inline
func (r *Run) inline(fn *ssa.Function, args []Val, free []Val, g *Term, limit int) []Val {
	nested := 0
	for _, f := range r.stack {
		if f == fn {
			nested++
		}
	}
	// a closure can be called by another instance of the same function literal
	if nested > 0 && (len(fn.FreeVars) == 0 || nested > 3) {
		r.stuck("recursive call of %s without a contract", fn)
	}
	if len(r.stack) > 60 {
		r.stuck("call depth exceeded at %s", fn)
	}
	if fn.Blocks == nil {
		r.stuck("no body for %s", fn)
	}
	r.stack = append(r.stack, fn)
	defer func() { r.stack = r.stack[:len(r.stack)-1] }()
	if r.quiet == 0 && r.eng.isRepo(fn) && len(r.stack) > 1 {
		r.inlined[shortName(fn)] = true
	}
	f := &Frame{fn: fn, regs: map[ssa.Value]Val{}, edges: map[[2]int]*Term{}, info: r.eng.infoOf(fn), entry: g, limit: limit, nexts: map[ssa.Value]*rangeInfo{}}
	for i, p := range fn.Params {
		f.regs[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		f.regs[fv] = free[i]
	}
	r.region(f, nil, fn.Blocks[0], g)
	return r.collect(f, fn.Signature.Results())
}

func (r *Run) collect(f *Frame, res *types.Tuple) []Val {
	n := res.Len()
	out := make([]Val, n)
	if len(f.rets) == 0 {
		for i := range out {
			out[i] = zeroVal(res.At(i).Type())
		}
		return out
	}
	for i := 0; i < n; i++ {
		v := f.rets[len(f.rets)-1].vals[i]
		for k := len(f.rets) - 2; k >= 0; k-- {
			v = iteVal(under(f.rets[k].g, f.entry), f.rets[k].vals[i], v)
		}
		out[i] = v
	}
	return out
}

// region executes the blocks of the loop (or of the whole function when l is nil), starting at entry
func (r *Run) region(f *Frame, l *Loop, entry *ssa.BasicBlock, g *Term) {
	for _, b := range f.info.rpo {
		if l != nil && !l.blocks[b] {
			continue
		}
		in := f.info.innermostWithin(b, l)
		if in != nil {
			if in.header != b {
				continue
			}
		}
		bg := g
		if b != entry {
			bg = r.blockGuard(f, b, l)
		}
		if bg == False {
			continue
		}
		if in != nil {
			r.loop(f, in, bg)
			continue
		}
		r.block(f, b, bg, b == entry && l != nil, l)
	}
}

func (r *Run) blockGuard(f *Frame, b *ssa.BasicBlock, l *Loop) *Term {
	var gs []*Term
	for _, p := range b.Preds {
		if f.info.backEdge(p, b) {
			continue
		}
		if e, ok := f.edges[[2]int{p.Index, b.Index}]; ok && e != False {
			gs = append(gs, e)
		}
	}
	if len(gs) == 0 {
		return False
	}
	return orGuards(gs)
}

func (r *Run) block(f *Frame, b *ssa.BasicBlock, g *Term, isHeader bool, l *Loop) {
	if !isHeader {
		r.phis(f, b, g)
	}
	for _, in := range b.Instrs {
		r.steps++
		if r.steps > 400000 {
			r.stuck("too many steps")
		}
		switch x := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := r.val(f, x.Cond)[0]
			c = underBool(c, g)
			r.setEdge(f, b, b.Succs[0], And(g, c))
			r.setEdge(f, b, b.Succs[1], And(g, Not(c)))
		case *ssa.Jump:
			r.setEdge(f, b, b.Succs[0], g)
		case *ssa.Return:
			var vs []Val
			for _, v := range x.Results {
				vs = append(vs, r.val(f, v))
			}
			f.rets = append(f.rets, ret{g, vs})
		case *ssa.Panic:
			r.oblige("safety", "panic is unreachable", r.where(in), r.safetyTags(), g, False)
			r.assume(Not(g), "no panic")
		default:
			r.instr(f, in, g)
		}
	}
}

func underBool(c, g *Term) *Term {
	if conjSet(g)[c.id] {
		return True
	}
	if conjSet(g)[Not(c).id] {
		return False
	}
	return c
}

func (r *Run) setEdge(f *Frame, from, to *ssa.BasicBlock, g *Term) {
	k := [2]int{from.Index, to.Index}
	if old, ok := f.edges[k]; ok && f.info.dupEdge(from, to) {
		g = orGuards([]*Term{old, g})
	}
	f.edges[k] = g
}

func (r *Run) phis(f *Frame, b *ssa.BasicBlock, g *Term) {
	type upd struct {
		p *ssa.Phi
		v Val
	}
	var us []upd
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var v Val
		first := true
		for i := len(b.Preds) - 1; i >= 0; i-- {
			e, ok := f.edges[[2]int{b.Preds[i].Index, b.Index}]
			if !ok || e == False {
				continue
			}
			x := r.val(f, p.Edges[i])
			if first {
				v = x
				first = false
			} else {
				v = iteVal(under(e, g), x, v)
			}
		}
		us = append(us, upd{p, v})
	}
	for _, u := range us {
		f.regs[u.p] = u.v
	}
}

func (r *Run) val(f *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return r.constVal(x)
	case *ssa.Global:
		return Val{r.globalAddr(x)}
	case *ssa.Function:
		return Val{r.fnTerm(x, nil)}
	case *ssa.Builtin:
		return Val{Nil}
	}
	if y, ok := f.regs[v]; ok {
		return y
	}
	r.stuck("value %s of %s not available", v.Name(), f.fn)
	return nil
}

func (r *Run) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	b, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		r.stuck("constant of type %s", c.Type())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return Val{Bool(constant.BoolVal(c.Value))}
	case b.Info()&types.IsInteger != 0:
		n, ok := constant.Int64Val(constant.ToInt(c.Value))
		if !ok {
			return Val{App("bigconst!"+c.Value.ExactString(), SI)}
		}
		return Val{Int(n)}
	case b.Info()&types.IsString != 0:
		return Val{Str(constant.StringVal(c.Value))}
	}
	return Val{App("const!"+c.Value.ExactString(), SR)}
}

func (r *Run) globalAddr(g *ssa.Global) *Term {
	n := "gl!" + g.Pkg.Pkg.Path() + "." + g.Name()
	r.eng.globals[n] = g
	return App(n, SR)
}

func (r *Run) fnTerm(fn *ssa.Function, bind []Val) *Term {
	if len(bind) == 0 {
		n := "clo!fn:" + fn.String()
		r.clos[n] = &Clo{fn: fn}
		return App(n, SR)
	}
	r.fresh++
	n := fmt.Sprintf("clo!%s#%d", fn.Name(), r.fresh)
	r.clos[n] = &Clo{fn: fn, bind: bind, idx: r.idxArgs()}
	return App(n, SR, r.idxArgs()...)
}

func (r *Run) allocRef(kind string) *Term {
	r.fresh++
	if r.quiet > 0 {
		kind = "sp" + kind
	}
	n := fmt.Sprintf("al!%s%d", kind, r.fresh)
	return App(n, SR, r.idxArgs()...)
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (r *Run) nilCheck(in ssa.Instruction, g, ref *Term, what string) {
	if r.quiet > 0 || isAlloc(ref) || strings.HasPrefix(ref.Op, "fa!") && ref.Kind == KApp || strings.HasPrefix(ref.Op, "gl!") || strings.HasPrefix(ref.Op, "el!") {
		return
	}
	goal := Not(Eq(ref, Nil))
	if goal == True || conjSet(g)[goal.id] {
		return
	}
	r.oblige("safety", what, r.where(in), r.safetyTags(), g, goal)
	if r.quiet == 0 {
		r.assume(Implies(g, goal), "checked")
	}
}

func (r *Run) safetyTags() []string { return []string{"C18"} }

func (r *Run) instr(f *Frame, in ssa.Instruction, g *Term) {
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		ref := r.allocRef("")
		t := deref(x.Type())
		r.zeroInit(ref, t, g)
		f.regs[x] = Val{ref}
	case *ssa.UnOp:
		f.regs[x] = r.unop(f, x, g)
	case *ssa.BinOp:
		f.regs[x] = r.binop(x, x.Op, r.val(f, x.X), r.val(f, x.Y), x.X.Type(), x.Y.Type(), g)
	case *ssa.Store:
		a := r.val(f, x.Addr)[0]
		r.nilCheck(in, g, a, "nil pointer store")
		if r.spec != nil && r.quiet > 0 && !isAlloc(a) {
			// specification code has locals only
		}
		r.store(a, deref(x.Addr.Type()), r.val(f, x.Val), g)
	case *ssa.FieldAddr:
		base := r.val(f, x.X)[0]
		r.nilCheck(in, g, base, "nil pointer dereference")
		own := deref(x.X.Type())
		fld := own.Underlying().(*types.Struct).Field(x.Field)
		f.regs[x] = Val{fieldAddr(r.eng, own, fld.Name(), base)}
	case *ssa.Field:
		lo, hi := fieldRange(x.X.Type(), x.Field)
		f.regs[x] = r.val(f, x.X)[lo:hi]
	case *ssa.IndexAddr:
		v := r.val(f, x.X)
		i := r.val(f, x.Index)[0]
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			n := p.Elem().Underlying().(*types.Array).Len()
			r.bounds(in, g, i, Int(n))
			f.regs[x] = Val{elAddr(v[0], i)}
		} else {
			if isByteSlice(x.X.Type()) {
				r.stuck("element of a byte slice")
			}
			r.bounds(in, g, i, v[2])
			f.regs[x] = Val{elAddr(v[0], Add(v[1], i))}
		}
	case *ssa.Index:
		v := r.val(f, x.X)
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			i := r.val(f, x.Index)[0]
			r.bounds(in, g, i, App("strlen", SI, v[0]))
			f.regs[x] = Val{App("strbyte", SI, v[0], i)}
			return
		}
		r.stuck("array value index")
	case *ssa.Lookup:
		f.regs[x] = r.lookup(f, x, g)
	case *ssa.Slice:
		f.regs[x] = r.slice(f, x, g)
	case *ssa.MakeSlice:
		n := r.val(f, x.Len)[0]
		if isByteSlice(x.Type()) {
			f.regs[x] = Val{App("zerobytes", SS, n)}
			return
		}
		ref := r.allocRef("s")
		et := x.Type().Underlying().(*types.Slice).Elem()
		r.oblige("safety", "make with a negative length", r.where(in), r.safetyTags(), g, Le(Zero, n))
		r.zeroElems(ref, et, g)
		f.regs[x] = Val{ref, Zero, n}
	case *ssa.MakeMap:
		ref := r.allocRef("m")
		mt := x.Type().Underlying().(*types.Map)
		r.zeroMap(ref, mt, g)
		f.regs[x] = Val{ref}
	case *ssa.MapUpdate:
		m := r.val(f, x.Map)[0]
		mt := x.Map.Type().Underlying().(*types.Map)
		r.nilCheckMap(in, g, m)
		r.mapSet(m, mt, r.val(f, x.Key), r.val(f, x.Value), g)
	case *ssa.MakeClosure:
		var b []Val
		for _, v := range x.Bindings {
			b = append(b, r.val(f, v))
		}
		f.regs[x] = Val{r.fnTerm(x.Fn.(*ssa.Function), b)}
	case *ssa.MakeInterface:
		v := r.val(f, x.X)
		if _, isP := x.X.Type().Underlying().(*types.Pointer); isP {
			if _, closed := r.eng.closedImpls(x.Type()); closed {
				r.nilCheck(in, g, v[0], "typed nil in an interface")
			}
		}
		f.regs[x] = r.makeIface(v, x.X.Type())
	case *ssa.ChangeInterface:
		f.regs[x] = r.val(f, x.X)
	case *ssa.ChangeType:
		f.regs[x] = r.val(f, x.X)
	case *ssa.Convert:
		f.regs[x] = r.convert(r.val(f, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		f.regs[x] = r.convert(r.val(f, x.X), x.X.Type(), x.Type())
	case *ssa.TypeAssert:
		f.regs[x] = r.typeAssert(f, x, g)
	case *ssa.Extract:
		lo, hi := tupleRange(x.Tuple.Type().(*types.Tuple), x.Index)
		f.regs[x] = r.val(f, x.Tuple)[lo:hi]
	case *ssa.Call:
		res := r.call(f, &x.Call, x, g)
		var v Val
		for _, y := range res {
			v = append(v, y...)
		}
		f.regs[x] = v
	case *ssa.Defer:
		d := deferred{g: g, call: &x.Call}
		for _, a := range x.Call.Args {
			d.args = append(d.args, r.val(f, a))
		}
		if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
			d.fnv = r.val(f, x.Call.Value)
		}
		f.defers = append(f.defers, d)
	case *ssa.RunDefers:
		for i := len(f.defers) - 1; i >= 0; i-- {
			d := f.defers[i]
			dg := And(g, under(d.g, g))
			if dg == False {
				continue
			}
			r.callWith(f, d.call, in, d.fnv, d.args, dg)
		}
	case *ssa.Range:
		mt, ok := x.X.Type().Underlying().(*types.Map)
		if !ok {
			f.nexts[x] = &rangeInfo{str: true}
			f.regs[x] = r.val(f, x.X)
			return
		}
		m := r.val(f, x.X)[0]
		f.nexts[x] = &rangeInfo{m: m, typ: mt, limit: r.seq}
		f.regs[x] = Val{m}
	case *ssa.Next:
		f.regs[x] = r.next(f, x, g)
	case *ssa.Go:
		// a goroutine whose effects are the subject of an assumed contract
		fn := x.Call.StaticCallee()
		if fn == nil || len(r.eng.byOrigin[fn.String()]) == 0 {
			r.stuck("concurrency: %s", in)
		}
		r.note("a goroutine running " + shortName(fn) + " has only the effects its assumed contract states")
	case *ssa.Send, *ssa.Select:
		r.stuck("concurrency: %s", in)
	case *ssa.MakeChan:
		f.regs[x] = Val{r.allocRef("ch")}
	default:
		r.stuck("instruction %T", in)
	}
}

func (r *Run) bounds(in ssa.Instruction, g, i, n *Term) {
	if r.quiet > 0 {
		return
	}
	goal := And(Le(Zero, i), Lt(i, n))
	if goal == True {
		return
	}
	r.oblige("safety", "index in range", r.where(in), r.safetyTags(), g, goal)
	if r.quiet == 0 {
		r.assume(Implies(g, goal), "checked")
	}
}

func (r *Run) nilCheckMap(in ssa.Instruction, g, m *Term) {
	if r.quiet > 0 || isAlloc(m) {
		return
	}
	goal := Not(Eq(m, Nil))
	r.oblige("safety", "assignment to a nil map", r.where(in), r.safetyTags(), g, goal)
	if r.quiet == 0 {
		r.assume(Implies(g, goal), "checked")
	}
}

func elAddr(seq, i *Term) *Term {
	if seq.Kind == KOp && seq.Op == "ite" && seq.size < 60 {
		return Ite(seq.Args[0], elAddr(seq.Args[1], i), elAddr(seq.Args[2], i))
	}
	return App("el!", SR, seq, i)
}

func init() {
	injective["el!"] = true
}

// zeroInit writes zero values to every leaf of a new object
func (r *Run) zeroInit(ref *Term, t types.Type, g *Term) {
	if at, ok := t.Underlying().(*types.Array); ok {
		r.zeroElems(ref, at.Elem(), g)
		return
	}
	r.store(ref, t, zeroVal(t), True)
}

func (r *Run) zeroElems(seq *Term, et types.Type, g *Term) {
	r.elemBulk(seq, et, True, "zero", func(i *Term, k int) (*Term, *Term) {
		return True, zeroVal(et)[k]
	})
}

// places lists the arrays and keys of the leaves of a value of type t stored at addr
type place struct {
	a    *Arr
	keys []*Term
}

func (r *Run) places(addr *Term, t types.Type) []place {
	var out []place
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if skipField(f) {
				continue
			}
			out = append(out, r.places(fieldAddr(r.eng, t, f.Name(), addr), f.Type())...)
		}
		return out
	}
	arrs, keys := r.locate(addr, t)
	for _, a := range arrs {
		out = append(out, place{a, keys})
	}
	return out
}

// elemBulk writes all elements of the sequence seq: fn gives (condition, value) of leaf k at index i
func (r *Run) elemBulk(seq *Term, et types.Type, g *Term, tag string, fn func(i *Term, k int) (*Term, *Term)) {
	iv := r.bv("i", SI)
	ps := r.places(App("el!", SR, seq, iv), et)
	for k, p := range ps {
		keyVars := r.keyVars(p.a)
		i, cond := matchElem(p.keys, keyVars, iv)
		c, v := fn(i, k)
		r.bulkEntry(p.a, g, keyVars, And(cond, c), v, tag)
	}
}

func (r *Run) keyVars(a *Arr) []*Term {
	var vs []*Term
	for _, s := range a.Keys {
		vs = append(vs, r.bv("x", s))
	}
	return vs
}

// matchElem inverts keys(iv): returns the index as a term over xs and the condition that xs is such a key
func matchElem(keys, xs []*Term, iv *Term) (*Term, *Term) {
	if len(keys) == 2 { // (seq, i)
		return xs[1], Eq(xs[0], keys[0])
	}
	x := xs[0]
	k := keys[0]
	// strip field addresses
	for k.Kind == KApp && strings.HasPrefix(k.Op, "fa!") {
		x = inv(k.Op, 0, SR, x)
		k = k.Args[0]
	}
	if k.Op != "el!" {
		panic("matchElem: " + k.String())
	}
	i := inv("el!", 1, SI, x)
	return i, Eq(xs[0], Subst(keys[0], map[string]*Term{iv.Op: i}))
}

func (r *Run) bulkEntry(a *Arr, g *Term, vars []*Term, has, val *Term, tag string) {
	if has == False {
		return
	}
	r.seq++
	a.Log = append(a.Log, &Entry{seq: r.seq, guard: g, vars: vars, has: has, val: val, tag: tag})
}

func mapArrs(r *Run, mt *types.Map) (has *Arr, vals []*Arr) {
	ks := []Sort{SR}
	for _, l := range layout(mt.Key()) {
		ks = append(ks, l.Sort)
	}
	n := "map." + typeName(mt.Key()) + "." + typeName(mt.Elem())
	has = r.arr(n+".has", "map", ks, SB, nil, 0, nil)
	for k, l := range layout(mt.Elem()) {
		vals = append(vals, r.arr(n+".val"+l.Path, "map", ks, l.Sort, mt.Elem(), k, nil))
	}
	return
}

func (r *Run) zeroMap(ref *Term, mt *types.Map, g *Term) {
	has, _ := mapArrs(r, mt)
	kv := r.keyVars(has)
	r.bulkEntry(has, True, kv, Eq(kv[0], ref), False, "newmap")
}

func (r *Run) mapSet(m *Term, mt *types.Map, k, v Val, g *Term) {
	has, vals := mapArrs(r, mt)
	keys := append([]*Term{m}, k...)
	r.write(has, keys, True, g)
	for i, a := range vals {
		r.write(a, keys, v[i], g)
	}
}

func (r *Run) mapDelete(m *Term, mt *types.Map, k Val, g *Term) {
	has, _ := mapArrs(r, mt)
	r.write(has, append([]*Term{m}, k...), False, g)
}

func (r *Run) mapGet(m *Term, mt *types.Map, k Val, g *Term, limit int) (Val, *Term) {
	if m.Kind == KOp && m.Op == "ite" && m.size < 60 {
		v1, h1 := r.mapGet(m.Args[1], mt, k, And(g, m.Args[0]), limit)
		v2, h2 := r.mapGet(m.Args[2], mt, k, And(g, Not(m.Args[0])), limit)
		return iteVal(m.Args[0], v1, v2), Ite(m.Args[0], h1, h2)
	}
	has, vals := mapArrs(r, mt)
	keys := append([]*Term{m}, k...)
	h := And(Not(Eq(m, Nil)), r.read(has, keys, g, limit))
	z := zeroVal(mt.Elem())
	var v Val
	for i, a := range vals {
		v = append(v, Ite(h, r.read(a, keys, g, limit), z[i]))
	}
	return v, h
}

func (r *Run) lookup(f *Frame, x *ssa.Lookup, g *Term) Val {
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		v := r.val(f, x.X)
		i := r.val(f, x.Index)[0]
		r.bounds(x, g, i, App("strlen", SI, v[0]))
		return Val{App("strbyte", SI, v[0], i)}
	}
	v, h := r.mapGet(r.val(f, x.X)[0], mt, r.val(f, x.Index), g, f.limit)
	if x.CommaOk {
		return append(v, h)
	}
	return v
}

func (r *Run) slice(f *Frame, x *ssa.Slice, g *Term) Val {
	v := r.val(f, x.X)
	var lo, hi *Term = Zero, nil
	if x.Low != nil {
		lo = r.val(f, x.Low)[0]
	}
	if x.High != nil {
		hi = r.val(f, x.High)[0]
	}
	switch t := x.X.Type().Underlying().(type) {
	case *types.Pointer:
		n := Int(t.Elem().Underlying().(*types.Array).Len())
		if hi == nil {
			hi = n
		}
		if isByteSlice(x.Type()) {
			return Val{r.byteArray(v[0], t.Elem().Underlying().(*types.Array), g, lo, hi)}
		}
		r.oblige("safety", "slice bounds", r.where(x), r.safetyTags(), g, And(Le(Zero, lo), Le(lo, hi), Le(hi, n)))
		return Val{v[0], lo, Sub(hi, lo)}
	case *types.Slice:
		if isByteSlice(x.X.Type()) {
			break
		}
		if hi == nil {
			hi = v[2]
		}
		// the capacity is not modelled: reslicing beyond the length is refused
		goal := And(Le(Zero, lo), Le(lo, hi), Le(hi, v[2]))
		r.oblige("safety", "slice bounds", r.where(x), r.safetyTags(), g, goal)
		if r.quiet == 0 {
			r.assume(Implies(g, goal), "checked")
		}
		seq := v[0]
		return Val{seq, Add(v[1], lo), Sub(hi, lo)}
	}
	n := App("strlen", SI, v[0])
	if hi == nil {
		hi = n
	}
	goal := And(Le(Zero, lo), Le(lo, hi), Le(hi, n))
	r.oblige("safety", "slice bounds", r.where(x), r.safetyTags(), g, goal)
	if r.quiet == 0 {
		r.assume(Implies(g, goal), "checked")
	}
	return Val{App("substr", SS, v[0], lo, hi)}
}

// byteArray reads a byte array of constant length as a string literal when all bytes are known
func (r *Run) byteArray(ref *Term, at *types.Array, g, lo, hi *Term) *Term {
	var b []byte
	for i := int64(0); i < at.Len(); i++ {
		v := r.load(elAddr(ref, Int(i)), at.Elem(), g, noLimit)
		if v[0].Kind != KInt {
			return r.freshTerm("bytes", SS)
		}
		b = append(b, byte(v[0].I))
	}
	if lo.Kind == KInt && hi.Kind == KInt {
		return Str(string(b[lo.I:hi.I]))
	}
	return r.freshTerm("bytes", SS)
}

func (r *Run) makeIface(v Val, t types.Type) Val {
	tag := r.eng.tagOf(t)
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return Val{tag, v[0]}
	case *types.Interface:
		return v
	}
	n := "box!" + typeName(t)
	injective[n] = true
	r.eng.boxes[n] = t
	return Val{tag, App(n, SR, v...)}
}

func (r *Run) unbox(ref *Term, t types.Type) Val {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return Val{ref}
	}
	n := "box!" + typeName(t)
	injective[n] = true
	r.eng.boxes[n] = t
	var v Val
	for k, l := range layout(t) {
		v = append(v, inv(n, k, l.Sort, ref))
	}
	return v
}

func (r *Run) typeAssert(f *Frame, x *ssa.TypeAssert, g *Term) Val {
	v := r.val(f, x.X)
	var ok *Term
	var res Val
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if it.NumMethods() == 0 {
			ok = Not(Eq(v[0], Zero))
		} else {
			ok = r.implements(v[0], x.AssertedType, x.X.Type())
		}
		res = v
	} else {
		ok = Eq(v[0], r.eng.tagOf(x.AssertedType))
		res = r.unbox(v[1], x.AssertedType)
	}
	if x.CommaOk {
		z := zeroVal(x.AssertedType)
		return append(iteVal(ok, res, z), ok)
	}
	r.oblige("safety", "type assertion", r.where(x), r.safetyTags(), g, ok)
	if r.quiet == 0 {
		r.assume(Implies(g, ok), "checked")
	}
	return res
}

func (r *Run) implements(tag *Term, to, from types.Type) *Term {
	if types.Implements(from, to.Underlying().(*types.Interface)) {
		return Not(Eq(tag, Zero))
	}
	if impls, closed := r.eng.closedImpls(from); closed {
		var cs []*Term
		for _, c := range impls {
			if types.Implements(c, to.Underlying().(*types.Interface)) {
				cs = append(cs, Eq(tag, r.eng.tagOf(c)))
			}
		}
		return Or(cs...)
	}
	if tag.Kind == KInt {
		if tag.I == 0 {
			return False
		}
		if t, ok := r.eng.tagTypes[int(tag.I)]; ok {
			return Bool(types.Implements(t, to.Underlying().(*types.Interface)))
		}
	}
	return App("implements!"+typeName(to), SB, tag)
}

func (r *Run) convert(v Val, from, to types.Type) Val {
	lf, lt := layout(from), layout(to)
	if len(lf) == len(lt) {
		same := true
		for i := range lf {
			if lf[i].Sort != lt[i].Sort {
				same = false
			}
		}
		if same {
			if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				r.eng.noteArith()
			}
			return v
		}
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && len(v) == 1 && v[0].Sort == SI {
		return Val{App("runestr", SS, v[0])}
	}
	r.stuck("conversion %s to %s", from, to)
	return nil
}

func (r *Run) unop(f *Frame, x *ssa.UnOp, g *Term) Val {
	v := r.val(f, x.X)
	switch x.Op {
	case token.MUL:
		if gl, ok := x.X.(*ssa.Global); ok {
			return r.loadGlobal(gl, g, f.limit)
		}
		r.nilCheck(x, g, v[0], "nil pointer dereference")
		t := deref(x.X.Type())
		lv := r.load(v[0], t, g, f.limit)
		return lv
	case token.NOT:
		return Val{Not(v[0])}
	case token.SUB:
		return Val{Sub(Zero, v[0])}
	case token.ARROW:
		r.stuck("channel receive")
	}
	r.stuck("unary operator %s", x.Op)
	return nil
}

func (r *Run) binop(in ssa.Instruction, op token.Token, a, b Val, ta, tb types.Type, g *Term) Val {
	switch op {
	case token.EQL, token.NEQ:
		e := r.equal(a, b, ta, tb)
		if op == token.NEQ {
			e = Not(e)
		}
		return Val{e}
	}
	x, y := a[0], b[0]
	if x.Sort == SS {
		switch op {
		case token.ADD:
			return Val{cat(x, y)}
		case token.LSS:
			return Val{strLt(x, y)}
		case token.GTR:
			return Val{strLt(y, x)}
		case token.LEQ:
			return Val{Not(strLt(y, x))}
		case token.GEQ:
			return Val{Not(strLt(x, y))}
		}
	}
	if x.Sort == SI {
		switch op {
		case token.ADD:
			return Val{Add(x, y)}
		case token.SUB:
			return Val{Sub(x, y)}
		case token.MUL:
			return Val{Mul(x, y)}
		case token.LSS:
			return Val{Lt(x, y)}
		case token.GTR:
			return Val{Lt(y, x)}
		case token.LEQ:
			return Val{Le(x, y)}
		case token.GEQ:
			return Val{Le(y, x)}
		}
		r.note("integer operator " + op.String() + " is uninterpreted")
		return Val{App("intop"+op.String(), SI, x, y)}
	}
	if x.Sort == SB {
		switch op {
		case token.AND, token.LAND:
			return Val{And(x, y)}
		case token.OR, token.LOR:
			return Val{Or(x, y)}
		}
	}
	r.stuck("operator %s on %s", op, ta)
	return nil
}

func cat(x, y *Term) *Term {
	if x.Kind == KStr && y.Kind == KStr {
		return Str(x.Op + y.Op)
	}
	if x.Kind == KStr && x.Op == "" {
		return y
	}
	if y.Kind == KStr && y.Op == "" {
		return x
	}
	return App("cat", SS, x, y)
}

func strLt(x, y *Term) *Term {
	if x.Kind == KStr && y.Kind == KStr {
		return Bool(x.Op < y.Op)
	}
	if x == y {
		return False
	}
	return App("strlt", SB, x, y)
}

func (r *Run) equal(a, b Val, ta, tb types.Type) *Term {
	ia := types.IsInterface(ta)
	ib := types.IsInterface(tb)
	if ia && !ib {
		b = r.makeIface(b, tb)
	} else if ib && !ia {
		a = r.makeIface(a, ta)
	}
	if len(a) != len(b) {
		r.stuck("comparison of %s and %s", ta, tb)
	}
	if _, ok := ta.Underlying().(*types.Slice); ok && len(a) == 3 {
		// only comparison with nil is possible
		if b[0] == Nil {
			return Eq(a[0], Nil)
		}
		return Eq(b[0], Nil)
	}
	if isByteSlice(ta) {
		r.note("a byte slice equals nil iff it is empty")
		return Eq(a[0], b[0])
	}
	var cs []*Term
	for i := range a {
		cs = append(cs, Eq(a[i], b[i]))
	}
	return And(cs...)
}

func (r *Run) loadGlobal(g *ssa.Global, gd *Term, limit int) Val {
	t := deref(g.Type())
	if isErrorType(t) {
		n := "errv!" + g.Pkg.Pkg.Path() + "." + g.Name()
		return Val{Int(errTag), App(n, SR)}
	}
	if !r.eng.isRepoPkg(g.Pkg) {
		if len(layout(t)) == 0 {
			return nil
		}
	}
	if st := r.eng.globalInit(g); st != nil {
		return r.evalInit(st.Val, gd)
	}
	return r.load(r.globalAddr(g), t, gd, limit)
}

// evalInit computes the initial value of a package level variable from the package's initialiser
func (r *Run) evalInit(v ssa.Value, g *Term) Val {
	r.note("package level variables keep their initial values")
	if c, ok := v.(*ssa.Const); ok {
		return r.constVal(c)
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		f := &Frame{regs: map[ssa.Value]Val{}}
		return r.val(f, v)
	}
	fn := in.Parent()
	need := map[ssa.Instruction]bool{}
	var add func(ssa.Value)
	add = func(x ssa.Value) {
		i, ok := x.(ssa.Instruction)
		if !ok || need[i] {
			return
		}
		need[i] = true
		for _, op := range i.Operands(nil) {
			if *op != nil {
				add(*op)
			}
		}
		switch x.(type) {
		case *ssa.Alloc, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.MakeMap:
			for _, ref := range *x.Referrers() {
				switch y := ref.(type) {
				case *ssa.Store:
					if y.Addr == x {
						need[y] = true
						add(y.Val)
					}
				case *ssa.MapUpdate:
					need[y] = true
					add(y.Key)
					add(y.Value)
				case *ssa.IndexAddr:
					add(y)
				case *ssa.FieldAddr:
					add(y)
				}
			}
		}
	}
	add(v)
	f := &Frame{fn: fn, regs: map[ssa.Value]Val{}, edges: map[[2]int]*Term{}, entry: True, limit: noLimit, nexts: map[ssa.Value]*rangeInfo{}}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if need[i] {
				r.instr(f, i, True)
			}
		}
	}
	return f.regs[v]
}

func (r *Run) next(f *Frame, x *ssa.Next, g *Term) Val {
	ri := f.nexts[x.Iter]
	if ri == nil || ri.str {
		r.stuck("range over a string")
	}
	// iteration number of the innermost loop containing this instruction
	le := f.loops[len(f.loops)-1]
	j := le.j
	has, _ := mapArrs(r, ri.typ)
	_ = has
	name := fmt.Sprintf("mk!%d", le.id)
	outer := r.idx[:len(r.idx)-1]
	var key Val
	for _, l := range layout(ri.typ.Key()) {
		key = append(key, App(name+l.Path, l.Sort, append(append([]*Term{}, outer...), j)...))
	}
	n := App(fmt.Sprintf("mklen!%d", le.id), SI, outer...)
	ok := Lt(j, n)
	if !le.rangeFacts {
		le.rangeFacts = true
		le.rangeMap(r, ri, name, n, g, outer)
	}
	v, _ := r.mapGet(ri.m, ri.typ, key, And(g, ok), f.limit)
	// Next yields (ok, key, value)
	res := Val{ok}
	tt := x.Type().(*types.Tuple)
	if b, isB := tt.At(1).Type().Underlying().(*types.Basic); isB && b.Kind() == types.Invalid {
		res = append(res, zeroVal(tt.At(1).Type())...)
	} else {
		res = append(res, key...)
	}
	if b, isB := tt.At(2).Type().Underlying().(*types.Basic); isB && b.Kind() == types.Invalid {
		res = append(res, zeroVal(tt.At(2).Type())...)
	} else {
		res = append(res, v...)
	}
	return res
}

func shortName(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, "github.com/sourcenetwork/zanzi/", "")
	return s
}
