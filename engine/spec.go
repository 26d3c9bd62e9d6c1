package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type specCtx struct {
	mode   string // pre, effect, post: at a call; vpre, vpost: of the function under verification
	c      *Contract
	pre    int
	g      *Term
	where  string
	callee string
	entry  bool         // within VEntry
	fresh  map[int]bool // result leaves claimed fresh
	subst  map[*Term]*Term
	sets   map[string][]*ghostSet
	mods   []modRef
	same   bool // recursive application
	nOld   int
}

type ghostSet struct {
	arrs []*Arr
	vars []*Term
	has  *Term
	val  Val
	g    *Term
	any  bool
	f    *Term
}

type modRef struct {
	g   *Term
	ref *Term
	t   types.Type
}

var labelRe = regexp.MustCompile(`^((?:C\d\d[ ,]*)+):\s*(.*)$`)

func splitLabel(l string, def []string) ([]string, string) {
	if m := labelRe.FindStringSubmatch(l); m != nil {
		return strings.FieldsFunc(m[1], func(r rune) bool { return r == ' ' || r == ',' }), m[2]
	}
	return def, l
}

func intrinsicName(fn *ssa.Function) string {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	p := pkgOf(o)
	if p == nil || p.Path() != module+"/internal/utils" || !strings.HasPrefix(o.Name(), "V") && o.Signature.Recv() == nil {
		return ""
	}
	if r := o.Signature.Recv(); r != nil {
		if pt, ok := r.Type().(*types.Pointer); ok {
			if n, ok := pt.Elem().(*types.Named); ok && n.Obj().Name() == "VGhost" {
				return "VGhost." + o.Name()
			}
		}
		return ""
	}
	if len(o.Name()) > 1 && o.Name()[1] >= 'A' && o.Name()[1] <= 'Z' {
		return o.Name()
	}
	return ""
}

func (r *Run) intrinsic(f *Frame, fn *ssa.Function, args []Val, g *Term, in ssa.Instruction) ([]Val, bool) {
	n := intrinsicName(fn)
	if n == "" {
		if r.quiet > 0 {
			if r.eng.abbrev[fn] {
				return r.abbrevCall(f, fn, args, g), true
			}
			if r.eng.defs[fn] {
				return r.defCall(f, fn, args, g), true
			}
			if c := r.eng.lemmas[fn]; c != nil && r.spec != nil {
				r.applyLemma(c, args, g, in)
				return nil, true
			}
		}
		return nil, false
	}
	s := r.spec
	one := func(t *Term) []Val { return []Val{{t}} }
	switch n {
	case "VForall", "VExists":
		return one(r.quantify(f, args[0][1], g, n == "VExists")), true
	case "VOld":
		lim := f.limit
		if s != nil && s.pre < lim {
			lim = s.pre
		}
		return r.callClosure(args[0][0], nil, g, lim), true
	case "VIsNew":
		return one(Not(App("old!", SB, refOf(args[0])))), true
	case "VLeft":
		return one(r.left(args[0][0], fn.Signature.Params().At(0).Type(), args[1][0], g, f.limit)), true
	case "VSame":
		return one(eqKeys(args[0], args[1])), true
	case "VDistinct":
		return one(Not(Eq(refOf(args[0]), refOf(args[1])))), true
	case "VWire":
		return one(r.wire(args[0], f.limit, g)), true
	case "VDebug":
		fmt.Println("DEBUG", args[0][0], args[1])
		return nil, true
	case "VEntry":
		if s := r.spec; s != nil && s.mode == "vpre" {
			s.entry = true
			r.callClosure(args[0][0], nil, g, f.limit)
			s.entry = false
		}
		return nil, true
	case "VUse":
		if s := r.spec; s != nil && s.mode != "vpre" && s.mode != "vpost" && s.mode != "pre" {
			// unfolding serves the proof of the contract, not its callers
			return nil, true
		}
		r.unfold++
		r.callClosure(args[0][1], nil, g, f.limit)
		r.unfold--
		return nil, true
	case "VGhost.Has", "VGhost.Get":
		if m := r.modelOf(args[0][0].Op); m != nil {
			res := r.modelAt(m, args[1], g, f.limit)
			if n == "VGhost.Has" {
				return res[:1], true
			}
			return res[1:], true
		}
		has, vals := r.ghostArrs(args[0][0], fn)
		lim := f.limit
		if strings.Contains(args[0][0].Op, ".VScratch") {
			lim = noLimit
		}
		if n == "VGhost.Has" {
			return one(r.read(has, args[1], g, lim)), true
		}
		var v Val
		for _, a := range vals {
			v = append(v, r.read(a, args[1], g, lim))
		}
		return []Val{v}, true
	}
	if s == nil {
		return nil, true
	}
	switch n {
	case "VRequires":
		switch s.mode {
		case "pre":
			tags, l := splitLabel(args[0][0].Op, nil)
			r.obligeSpec("pre", "call of "+s.callee+" requires "+l, s.where, tags, And(s.g, g), args[1][0])
		case "vpre":
			r.assume(Implies(g, args[1][0]), "requires")
		}
	case "VEnsures":
		switch s.mode {
		case "post":
			r.assume(Implies(And(s.g, g), args[1][0]), "ensures of "+s.callee)
		case "vpost":
			tags, l := splitLabel(args[0][0].Op, s.c.props)
			r.obligeSpec("ensures", l, "", tags, g, args[1][0])
		}
	case "VAssert":
		switch s.mode {
		case "vpost":
			tags, l := splitLabel(args[0][0].Op, s.c.props)
			r.obligeSpec("assert", l, "", tags, g, args[1][0])
			r.assume(Implies(g, args[1][0]), "assertion")
		}
	case "VDecreases", "VDecreases3":
		var ms []*Term
		for _, a := range args {
			ms = append(ms, a[0])
		}
		switch s.mode {
		case "vpre":
			r.decr = ms
		case "pre":
			if s.same {
				if len(r.decr) != len(ms) {
					r.note("termination of the recursion in " + s.callee + " is assumed")
				} else {
					var alts []*Term
					same := True
					for i, m := range ms {
						alts = append(alts, And(same, Le(Zero, m), Lt(m, r.decr[i])))
						same = And(same, Eq(m, r.decr[i]))
					}
					r.obligeSpec("decreases", "recursive call of "+s.callee+" decreases the measure", s.where, []string{"C02"}, And(s.g, g), Or(alts...))
				}
			}
		}
	case "VFresh":
		if s.mode == "effect" {
			for _, leaf := range args[0] {
				if leaf.Sort == SR {
					s.fresh[leaf.id] = true
				}
			}
		}
		if s.mode == "vpost" {
			ref := refOf(args[0])
			r.obligeSpec("ensures", "result is newly allocated", "", s.c.props, g, Or(Eq(ref, Nil), Not(App("old!", SB, ref))))
		}
	case "VModifies":
		ref := refOf(args[0])
		t := r.dynType(args[0])
		switch s.mode {
		case "effect":
			r.havocRef(ref, t, And(s.g, g))
		case "vpre":
			s.mods = append(s.mods, modRef{g, ref, t})
		}
	case "VSet", "VHavoc", "VAssign":
		if s.mode == "effect" || s.mode == "vpost" {
			has, vals := r.ghostArrsOf(args[0][0], fn.Signature.Params().At(0).Type())
			gs := &ghostSet{arrs: append([]*Arr{has}, vals...), g: And(s.g, g)}
			gs.vars = r.keyVars(has)
			if n == "VHavoc" {
				gs.any = true
				if s.mode == "effect" {
					for _, a := range gs.arrs {
						r.havocArr(a, gs.g, "havoc")
					}
				}
			} else {
				lim := s.pre
				sp := r.pushIdx(gs.vars)
				na := len(r.assumes)
				res := r.callClosure(args[1][0], []Val{gs.vars}, g, lim)
				r.closeFacts(na, gs.vars)
				r.popIdx(sp)
				gs.has, gs.val = res[0][0], res[1]
				if s.mode == "effect" || n == "VAssign" {
					r.bulkEntry(has, gs.g, gs.vars, True, gs.has, "set")
					for i, a := range vals {
						r.bulkEntry(a, gs.g, gs.vars, True, gs.val[i], "set")
					}
				}
			}
			if s.mode == "vpost" && n != "VAssign" {
				s.sets[has.Name] = append(s.sets[has.Name], gs)
			}
		}
	default:
		r.stuck("intrinsic %s", n)
	}
	return nil, true
}

func refOf(v Val) *Term {
	for _, t := range v {
		if t.Sort == SR {
			// interface: unwrap a boxed slice
			if t.Kind == KApp && strings.HasPrefix(t.Op, "box!") && len(t.Args) > 0 && t.Args[0].Sort == SR {
				return t.Args[0]
			}
			return t
		}
	}
	panic(stuckErr{"no reference in " + fmt.Sprint(v)})
}

func (r *Run) dynType(v Val) types.Type {
	if v[0].Kind == KInt {
		return r.eng.tagTypes[int(v[0].I)]
	}
	r.stuck("modified object of unknown type")
	return nil
}

func (r *Run) obligeSpec(kind, name, where string, tags []string, g, goal *Term) {
	q := r.quiet
	r.quiet = 0
	if tags == nil {
		tags = r.safetyTags()
		if r.cur != nil && len(r.cur.props) > 0 {
			tags = r.cur.props
		}
	}
	r.oblige(kind, name, where, tags, g, goal)
	r.quiet = q
}

func (r *Run) pushIdx(vs []*Term) int {
	n := len(r.idx)
	r.idx = append(append([]*Term{}, r.idx...), vs...)
	return n
}

func (r *Run) popIdx(n int) { r.idx = r.idx[:n] }

// closeFacts generalizes the facts assumed since na over the bound variables
func (r *Run) closeFacts(na int, vars []*Term) {
	for i := na; i < len(r.assumes); i++ {
		r.assumes[i] = &Fact{Forall(vars, r.assumes[i].t), r.assumes[i].note}
	}
}

func (r *Run) callClosure(t *Term, args []Val, g *Term, limit int) []Val {
	clo := r.clos[t.Op]
	if clo == nil {
		r.stuck("specification closure %s", t)
	}
	m := map[string]*Term{}
	for i, x := range clo.idx {
		if i < len(t.Args) && x != t.Args[i] && x.Kind == KVar {
			m[x.Op] = t.Args[i]
		}
	}
	var free []Val
	for _, b := range clo.bind {
		free = append(free, substVal(b, m))
	}
	return r.inline(clo.fn, args, free, g, limit)
}

func (r *Run) quantify(f *Frame, t *Term, g *Term, exists bool) *Term {
	clo := r.clos[t.Op]
	if clo == nil {
		r.stuck("quantifier over an unknown function")
	}
	var vars []*Term
	var args []Val
	sig := clo.fn.Signature
	rng := True
	for i := 0; i < sig.Params().Len(); i++ {
		var v Val
		pt := sig.Params().At(i).Type()
		for _, l := range layout(pt) {
			if l.Sort == SI && strings.HasSuffix(l.Path, ".$off") {
				v = append(v, Zero)
				continue
			}
			v = append(v, r.bv("q."+sig.Params().At(i).Name()+l.Path, l.Sort))
		}
		if len(v) == 3 {
			if _, ok := pt.Underlying().(*types.Slice); ok {
				rng = And(rng, Le(Zero, v[1]), Le(Zero, v[2]))
			}
		}
		for _, t := range v {
			if t.Kind == KVar {
				vars = append(vars, t)
			}
		}
		args = append(args, v)
	}
	sp := r.pushIdx(vars)
	na := len(r.assumes)
	res := r.callClosure(t, args, g, f.limit)
	r.closeFacts(na, vars)
	r.popIdx(sp)
	if exists {
		return Exists(vars, And(rng, res[0][0]))
	}
	return Forall(vars, Implies(rng, res[0][0]))
}

// modelOf: in the package that implements a ghost, what its contents are
func (r *Run) modelOf(gl string) *ssa.Function {
	if r.cur == nil {
		return nil
	}
	return r.eng.models[r.cur.pkg+" "+strings.TrimPrefix(gl, "gl!"+module+"/")]
}

// modelAt: the contents of a modelled ghost, through a defined symbol where possible (so that quantifiers have a pattern)
func (r *Run) modelAt(m *ssa.Function, keys Val, g *Term, lim int) []Val {
	var vars []*Term
	for i, k := range keys {
		vars = append(vars, Var(fmt.Sprintf("mk!%d", i), k.Sort))
	}
	idx, na := r.idx, len(r.assumes)
	r.idx = append([]*Term{}, vars...)
	r.quiet++
	res := r.inline(m, []Val{vars}, nil, True, lim)
	r.quiet--
	r.closeFacts(na, vars)
	r.idx = idx
	own := map[string]bool{}
	for _, v := range vars {
		own[v.Op] = true
	}
	for _, v := range res {
		for _, t := range v {
			for x := range t.vars {
				if !own[x] {
					return r.inline(m, []Val{keys}, nil, g, lim)
				}
			}
		}
	}
	out := make([]Val, len(res))
	for i, v := range res {
		for _, t := range v {
			k := fmt.Sprintf("%s/%d/%s", m.Name(), len(out[i]), key(t))
			n, ok := r.defs[k]
			if !ok {
				n = r.freshName("mdl." + m.Name())
				r.defs[k] = n
				x := App(n, t.Sort, vars...)
				r.assume(Forall(vars, Eq(x, t)), "model")
			}
			out[i] = append(out[i], App(n, t.Sort, keys...))
		}
	}
	return out
}

// contents of a ghost for symbolic keys at a point of time
func (r *Run) contents(base string, arrs []*Arr, vars []*Term, lim int) (*Term, []*Term) {
	if m := r.modelOf("gl!" + module + "/" + strings.TrimPrefix(base, "ghost.")); m != nil {
		sp := r.pushIdx(vars)
		na := len(r.assumes)
		r.quiet++
		res := r.inline(m, []Val{vars}, nil, True, lim)
		r.quiet--
		r.closeFacts(na, vars)
		r.popIdx(sp)
		return res[0][0], res[1]
	}
	var ws []*Term
	for _, x := range arrs[1:] {
		ws = append(ws, r.read(x, vars, True, lim))
	}
	return r.read(arrs[0], vars, True, lim), ws
}

func (r *Run) ghostArrs(gl *Term, fn *ssa.Function) (*Arr, []*Arr) {
	return r.ghostArrsOf(gl, fn.Signature.Recv().Type())
}

func (r *Run) ghostArrsOf(gl *Term, t types.Type) (*Arr, []*Arr) {
	n := deref(t).(*types.Named)
	kt, vt := n.TypeArgs().At(0), n.TypeArgs().At(1)
	var ks []Sort
	for _, l := range layout(kt) {
		ks = append(ks, l.Sort)
	}
	name := "ghost." + strings.TrimPrefix(gl.Op, "gl!"+module+"/")
	has := r.arr(name+".has", "ghost", ks, SB, nil, 0, nil)
	var vals []*Arr
	for k, l := range layout(vt) {
		vals = append(vals, r.arr(name+".val"+l.Path, "ghost", ks, l.Sort, vt, k, nil))
	}
	return has, vals
}

// havocRef forgets the contents of the object ref of type t (pointer or map)
func (r *Run) havocRef(ref *Term, t types.Type, g *Term) {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		for _, p := range r.places(ref, u.Elem()) {
			r.write(p.a, p.keys, r.freshTerm("mod", p.a.Sort), g)
		}
	case *types.Map:
		has, vals := mapArrs(r, u)
		for _, a := range append([]*Arr{has}, vals...) {
			kv := r.keyVars(a)
			n := r.freshName("mod")
			r.bulkEntry(a, g, kv, Eq(kv[0], ref), App(n, a.Sort, append(r.idxArgs(), kv[1:]...)...), "modified")
		}
	case *types.Slice:
		n := r.freshName("mod")
		r.elemBulk(ref, u.Elem(), g, "modified", func(i *Term, k int) (*Term, *Term) {
			return True, App(fmt.Sprintf("%s.%d", n, k), layout(u.Elem())[k].Sort, append(r.idxArgs(), i)...)
		})
	default:
		r.stuck("VModifies of %s", t)
	}
}

func (r *Run) runSpec(c *Contract, args []Val, g *Term, limit int) {
	r.quiet++
	saved := r.stack
	r.stack = nil
	r.inline(c.fn, args, nil, g, limit)
	r.stack = saved
	r.quiet--
}

// apply uses a contract in place of a call
func (r *Run) apply(c *Contract, sig *types.Signature, args []Val, g *Term, in ssa.Instruction, name string) []Val {
	r.used[c.name] = true
	where := ""
	if in != nil {
		where = r.where(in)
	}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := r.freshVal("ret."+lastPart(name), t)
		// a slice of structs may be a part of another slice
		if sl, ok := t.Underlying().(*types.Slice); ok && len(v) == 3 {
			if _, ok := sl.Elem().Underlying().(*types.Struct); ok {
				v[1] = r.freshTerm("ret.off", SI)
				r.shape(v, t, True)
			}
		}
		res = append(res, v)
	}
	same := r.cur != nil && c.group == r.cur.group
	pre := r.seq
	saved := r.spec
	ctx := &specCtx{mode: "pre", c: c, pre: pre, g: g, where: where, callee: name, fresh: map[int]bool{}, same: same, sets: map[string][]*ghostSet{}}
	r.spec = ctx
	all := append(append([]Val{}, args...), res...)
	if len(all) != len(c.fn.Params) {
		r.stuck("contract %s does not fit the call of %s", c.name, name)
	}
	r.runSpec(c, all, g, pre)
	ctx.mode = "effect"
	r.runSpec(c, all, g, pre)
	// results that are fresh: nil or a new object
	if len(ctx.fresh) > 0 {
		for i := range res {
			nv := make(Val, len(res[i]))
			copy(nv, res[i])
			for k, l := range nv {
				if ctx.fresh[l.id] {
					al := r.allocRef("ret")
					isnil := r.freshTerm("isnil", SB)
					nv[k] = Ite(isnil, Nil, al)
					r.retRefs[al.Op] = true
				}
			}
			res[i] = nv
			r.shape(nv, sig.Results().At(i).Type(), True)
		}
		all = append(append([]Val{}, args...), res...)
	}
	ctx.mode = "post"
	r.runSpec(c, all, g, noLimit)
	r.spec = saved
	return res
}

func lastPart(n string) string {
	if i := strings.LastIndexAny(n, "./)"); i >= 0 {
		return n[i+1:]
	}
	return n
}

func (r *Run) applyLemma(c *Contract, args []Val, g *Term, in ssa.Instruction) {
	r.used[c.name] = true
	saved := r.spec
	if saved.mode != "vpost" && !saved.entry {
		return
	}
	sg := True
	if saved.g != nil {
		sg = saved.g
	}
	same := r.cur != nil && c.group == r.cur.group
	ctx := &specCtx{mode: "pre", c: c, pre: saved.pre, g: sg, callee: c.name, where: "specification", fresh: map[int]bool{}, same: same, sets: map[string][]*ghostSet{}}
	r.spec = ctx
	r.runSpec(c, args, g, noLimit)
	ctx.mode = "post"
	r.runSpec(c, args, g, noLimit)
	r.spec = saved
}

// abbrevCall: the value of a specification function in the current state, through a defined symbol
func (r *Run) abbrevCall(f *Frame, fn *ssa.Function, args []Val, g *Term) []Val {
	var vars []*Term
	var vargs, flat []Val
	for _, a := range args {
		var v Val
		for _, t := range a {
			if t.Kind == KInt {
				v = append(v, t)
				continue
			}
			if t.Kind == KOp && t.Op == "ite" && len(args) == 1 && len(a) == 1 {
				x := r.abbrevCall(f, fn, []Val{{t.Args[1]}}, And(g, t.Args[0]))
				y := r.abbrevCall(f, fn, []Val{{t.Args[2]}}, And(g, Not(t.Args[0])))
				out := make([]Val, len(x))
				for i := range x {
					for k := range x[i] {
						out[i] = append(out[i], Ite(t.Args[0], x[i][k], y[i][k]))
					}
				}
				return out
			}
			if t.Sort == SR && (t.Kind == KOp || definitelyNew(t)) {
				return r.inline(fn, args, nil, g, f.limit)
			}
			x := Var(fmt.Sprintf("ab!%d", len(vars)), t.Sort)
			vars = append(vars, x)
			flat = append(flat, Val{t})
			v = append(v, x)
		}
		vargs = append(vargs, v)
	}
	idx, na := r.idx, len(r.assumes)
	r.idx = append([]*Term{}, vars...)
	res := r.inline(fn, vargs, nil, True, f.limit)
	r.closeFacts(na, vars)
	r.idx = idx
	own := map[string]bool{}
	for _, v := range vars {
		own[v.Op] = true
	}
	for _, v := range res {
		for _, t := range v {
			for x := range t.vars {
				if !own[x] {
					return r.inline(fn, args, nil, g, f.limit)
				}
			}
		}
	}
	var keys []*Term
	for _, v := range flat {
		keys = append(keys, v[0])
	}
	out := make([]Val, len(res))
	for i, v := range res {
		for _, t := range v {
			k := fmt.Sprintf("ab %s/%d/%s", fn.Name(), len(out[i]), key(t))
			n, ok := r.defs[k]
			if !ok {
				n = r.freshName("ab." + fn.Name())
				r.defs[k] = n
				x := App(n, t.Sort, vars...)
				r.assume(ForallP(vars, Eq(x, t), x), "abbreviation")
			}
			out[i] = append(out[i], App(n, t.Sort, keys...))
		}
	}
	return out
}

// defCall: a recursive specification function is uninterpreted; VUse assumes its defining equation for one argument
func (r *Run) defCall(f *Frame, fn *ssa.Function, args []Val, g *Term) []Val {
	app := r.uninterpCall(fn, args)
	if r.unfold > 0 {
		u := r.unfold
		r.unfold = 0
		na := len(r.assumes)
		_ = na
		body := r.inline(fn, args, nil, g, f.limit)
		r.unfold = u
		var cs []*Term
		for i := range app {
			for k := range app[i] {
				cs = append(cs, Eq(app[i][k], body[i][k]))
			}
		}
		sg := True
		if r.spec != nil && r.spec.g != nil {
			sg = r.spec.g
		}
		r.assume(Implies(And(sg, g), And(cs...)), "definition of "+fn.Name())
	}
	return app
}

// wire: the value is a message that can be received or stored
func (r *Run) wire(v Val, limit int, g *Term) *Term {
	t := r.dynType(v)
	return r.wireVal(Val{v[1]}, t, limit, g, 0)
}

func (r *Run) wireVal(v Val, t types.Type, limit int, g *Term, depth int) *Term {
	if depth > 12 {
		return App("wire!", SB, v[0])
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		ref := v[0]
		if ref == Nil {
			return True
		}
		if ref.Kind == KOp && ref.Op == "ite" {
			return Ite(ref.Args[0], r.wireVal(Val{ref.Args[1]}, t, limit, And(g, ref.Args[0]), depth), r.wireVal(Val{ref.Args[2]}, t, limit, And(g, Not(ref.Args[0])), depth))
		}
		if !isAlloc(ref) || r.retRefs[ref.Op] {
			return Or(Eq(ref, Nil), App("wire!", SB, ref))
		}
		st, ok := u.Elem().Underlying().(*types.Struct)
		if !ok {
			return True
		}
		var cs []*Term
		for i := 0; i < st.NumFields(); i++ {
			fl := st.Field(i)
			if skipField(fl) {
				continue
			}
			x := r.load(fieldAddr(r.eng, u.Elem(), fl.Name(), ref), fl.Type(), g, limit)
			if isOneofWrapper(u.Elem()) {
				if _, isP := fl.Type().Underlying().(*types.Pointer); isP {
					cs = append(cs, Not(Eq(x[0], Nil)))
				}
			}
			cs = append(cs, r.wireVal(x, fl.Type(), limit, g, depth+1))
		}
		return And(cs...)
	case *types.Slice:
		if len(v) != 3 {
			return True
		}
		if _, ok := u.Elem().Underlying().(*types.Pointer); !ok {
			return True
		}
		if !isAlloc(v[0]) && !(v[0].Kind == KOp) || r.retRefs[v[0].Op] {
			return Or(Eq(v[0], Nil), App("wire!", SB, v[0]))
		}
		i := r.bv("w", SI)
		sp := r.pushIdx([]*Term{i})
		x := r.load(elAddr(v[0], Add(v[1], i)), u.Elem(), g, limit)
		c := Forall([]*Term{i}, Implies(And(Le(Zero, i), Lt(i, v[2])), And(Not(Eq(x[0], Nil)), r.wireVal(x, u.Elem(), limit, g, depth+1))))
		r.popIdx(sp)
		return c
	case *types.Interface:
		if v[0].Kind == KInt {
			if v[0].I == 0 {
				return True
			}
			if ct := r.eng.tagTypes[int(v[0].I)]; ct != nil {
				return r.wireVal(Val{v[1]}, ct, limit, g, depth+1)
			}
			return True
		}
		if v[0].Kind == KOp && v[0].Op == "ite" {
			c := v[0].Args[0]
			pick := func(k int) Val {
				rf := v[1]
				if rf.Kind == KOp && rf.Op == "ite" && rf.Args[0] == c {
					rf = rf.Args[k]
				}
				return Val{v[0].Args[k], rf}
			}
			return Ite(c, r.wireVal(pick(1), t, limit, And(g, c), depth), r.wireVal(pick(2), t, limit, And(g, Not(c)), depth))
		}
		return Or(Eq(v[1], Nil), App("wire!", SB, v[1]))
	}
	return True
}

func isOneofWrapper(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || st.NumFields() != 1 {
		return false
	}
	return strings.Contains(st.Tag(0), "protobuf") && strings.Contains(st.Tag(0), "oneof")
}

// verify generates the obligations of a contract
func (e *Engine) verify(c *Contract) (r *Run) {
	r = &Run{eng: e, name: c.name, arrs: map[string]*Arr{}, inlined: map[string]bool{}, used: map[string]bool{}, notes: map[string]bool{},
		defs: map[string]string{}, clos: map[string]*Clo{}, appends: map[int]*appendInfo{}, accs: map[string]*accInfo{}, allocTyp: map[string]types.Type{}, occ: map[string]int{}, retRefs: map[string]bool{}}
	r.cur = c
	r.curFn = c.target
	if c.kind == "lemma" {
		r.curFn = c.name
	}
	if p := c.pkg; p != "" {
		r.curFn = p + "." + r.curFn
	}
	defer func() {
		if x := recover(); x != nil {
			s, ok := x.(stuckErr)
			if !ok {
				if debugPanics {
					panic(x)
				}
				s = stuckErr{fmt.Sprintf("internal error: %v", x)}
			}
			r.obls = append(r.obls, &Obl{Name: r.curFn + ": within reach of the verifier", Kind: "unsupported", Tags: c.props, Goal: False, Where: s.msg, fn: r.curFn})
			r.stuckMsg = s.msg
		}
	}()
	if c.kind == "contract" && c.tfn == nil {
		r.stuck("function %s is gone", c.target)
	}
	var params []*ssa.Parameter
	if c.kind == "lemma" {
		params = c.fn.Params
	} else {
		params = c.tfn.Params
	}
	var args []Val
	for _, p := range params {
		var v Val
		for _, l := range layout(p.Type()) {
			n := "p." + p.Name() + l.Path
			if l.Sort == SI && strings.HasSuffix(l.Path, ".$off") {
				v = append(v, Zero)
				continue
			}
			if l.Sort == SR {
				inputFn[n] = true
			}
			v = append(v, App(n, l.Sort))
		}
		for _, t := range v {
			if t.Sort == SR {
				r.assume(App("old!", SB, t), "parameter")
			}
		}
		r.shape(v, p.Type(), True)
		args = append(args, v)
	}
	for k := range inputFn {
		_ = k
	}
	ctx := &specCtx{mode: "vpre", c: c, pre: 0, g: True, fresh: map[int]bool{}, sets: map[string][]*ghostSet{}}
	r.spec = ctx
	if c.kind == "lemma" {
		r.runSpec(c, args, True, noLimit)
		r.addVacuity("precondition")
		ctx.mode = "vpost"
		r.runSpec(c, args, True, noLimit)
		return r
	}
	var dummy []Val
	for i := 0; i < c.tfn.Signature.Results().Len(); i++ {
		dummy = append(dummy, r.freshVal("dummy", c.tfn.Signature.Results().At(i).Type()))
	}
	nf := len(r.assumes)
	r.runSpec(c, append(append([]Val{}, args...), dummy...), True, noLimit)
	// nothing is known of the results yet
	kept := r.assumes[:nf]
	for _, a := range r.assumes[nf:] {
		if !mentions(a.t, "dummy!") {
			kept = append(kept, a)
		}
	}
	r.assumes = kept
	r.addVacuity("precondition")
	r.spec = nil
	pre := r.seq
	ctx.pre = pre
	res := r.inline(c.tfn, args, nil, True, noLimit)
	r.spec = ctx
	end := r.seq
	r.addVacuity("end of the function")
	ctx.mode = "vpost"
	r.runSpec(c, append(append([]Val{}, args...), res...), True, noLimit)
	r.frameObls(ctx, pre, end)
	return r
}

func (r *Run) addVacuity(what string) {
	r.obls = append(r.obls, &Obl{Name: r.curFn + ": " + what + " is reachable", Kind: "vacuity", Goal: False, n: len(r.assumes), fn: r.curFn, vacuity: true})
}

// frameObls: ghost state is as specified, and nothing else that existed before has changed
func (r *Run) frameObls(ctx *specCtx, pre, end int) {
	q := r.quiet
	r.quiet = 0
	defer func() { r.quiet = q }()
	done := map[string]bool{}
	tags := r.cur.props
	for _, k := range sortedKeys(r.eng.models) {
		if strings.HasPrefix(k, r.cur.pkg+" ") {
			g := r.eng.modelled[k]
			r.ghostArrsOf(App("gl!"+g.Pkg.Pkg.Path()+"."+g.Name(), SR), g.Type())
		}
	}
	for _, n := range r.arrOrder {
		a := r.arrs[n]
		if a.Kind != "ghost" || done[n] {
			continue
		}
		base := strings.TrimSuffix(n, ".has")
		if base == n {
			continue
		}
		gs := ctx.sets[n]
		var arrs []*Arr
		for _, m := range r.arrOrder {
			if m == n || strings.HasPrefix(m, base+".val") {
				arrs = append(arrs, r.arrs[m])
				done[m] = true
			}
		}
		touched := false
		for _, x := range arrs {
			if len(x.Log) > 0 {
				touched = true
			}
		}
		short := base[strings.LastIndex(base, ".")+1:]
		modelled := r.modelOf("gl!"+module+"/"+strings.TrimPrefix(base, "ghost.")) != nil
		if !touched && gs == nil && !modelled || strings.HasPrefix(short, "VScratch") {
			continue
		}
		vars := r.keyVars(a)
		hf, vf := r.contents(base, arrs, vars, end)
		want, ws := r.contents(base, arrs, vars, pre)
		grd := True
		for _, x := range gs {
			if x.any {
				grd = And(grd, Not(x.g))
				continue
			}
			m := map[string]*Term{}
			for i, v := range x.vars {
				m[v.Op] = vars[i]
			}
			want = Ite(x.g, Subst(x.has, m), want)
			for i := range ws {
				ws[i] = Ite(x.g, Subst(x.val[i], m), ws[i])
			}
		}
		if grd == False {
			continue
		}
		r.oblige("ghost", "contents of "+short+" (presence)", "", tags, True, Forall(vars, Implies(grd, Eq(hf, want))))
		for i, x := range arrs[1:] {
			r.oblige("ghost", "contents of "+short+" ("+strings.TrimPrefix(x.Name, base+".val")+")", "", tags, True, Forall(vars, Implies(And(grd, hf, want), Eq(vf[i], ws[i]))))
		}
	}
	for _, n := range r.arrOrder {
		a := r.arrs[n]
		if a.Kind == "ghost" || a.Name == "hash.content" || strings.HasSuffix(n, ".Parent.tag") || strings.HasSuffix(n, ".Parent.ref") {
			continue
		}
		var goals []*Term
		for _, e := range a.Log {
			if e.seq <= pre || e.seq > end {
				continue
			}
			if e.vars == nil {
				if definitelyNew(e.keys[0]) {
					continue
				}
				g := r.frameGoal(ctx, a, e.keys, e, pre)
				if g != True {
					goals = append(goals, Implies(e.guard, g))
				}
				continue
			}
			// a bulk write of new objects only
			skip := false
			for _, q := range conjs(e.has) {
				if q.Kind == KOp && q.Op == "=" {
					for k := 0; k < 2; k++ {
						if q.Args[k] == e.vars[0] && definitelyNew(q.Args[1-k]) {
							skip = true
						}
					}
				}
			}
			if skip {
				continue
			}
			g := r.frameGoal(ctx, a, e.vars, e, pre)
			if g != True {
				goals = append(goals, Forall(e.vars, Implies(And(e.guard, e.has), g)))
			}
		}
		if len(goals) > 0 {
			r.oblige("frame", "objects of the caller keep their "+n, "", r.frameTags(), True, And(goals...))
		}
	}
}

func (r *Run) frameTags() []string {
	if len(r.cur.props) > 0 {
		return r.cur.props
	}
	return []string{"C07"}
}

func definitelyNew(t *Term) bool {
	for t.Kind == KApp && (strings.HasPrefix(t.Op, "fa!") || t.Op == "el!") {
		t = t.Args[0]
	}
	if t.Kind == KOp && t.Op == "ite" {
		return definitelyNew(t.Args[1]) && definitelyNew(t.Args[2])
	}
	return isAlloc(t)
}

func (r *Run) frameGoal(ctx *specCtx, a *Arr, keys []*Term, e *Entry, pre int) *Term {
	alts := []*Term{Not(App("old!", SB, keys[0])), Eq(r.read(a, keys, True, noLimit), r.read(a, keys, True, pre))}
	for _, m := range ctx.mods {
		alts = append(alts, And(m.g, Eq(rootRef(keys[0]), m.ref)))
	}
	return Or(alts...)
}

func rootRef(t *Term) *Term {
	for t.Kind == KApp && (strings.HasPrefix(t.Op, "fa!") || t.Op == "el!") {
		t = t.Args[0]
	}
	return t
}

// protoEqual: messages are equal when they have the same type and equal contents
func (r *Run) protoEqual(a, b Val, g *Term, limit int) *Term {
	if a[0].Kind != KInt || b[0].Kind != KInt {
		return r.freshTerm("protoequal", SB)
	}
	if a[0] != b[0] {
		return False
	}
	t := r.eng.tagTypes[int(a[0].I)]
	if t == nil {
		return r.freshTerm("protoequal", SB)
	}
	r.note("proto.Equal compares messages field by field; a nil message differs from a non-nil one")
	return r.msgEqual(a[1], b[1], t, g, limit, 0)
}

func (r *Run) msgEqual(a, b *Term, pt types.Type, g *Term, limit, depth int) *Term {
	if a == b {
		return True
	}
	if depth > 6 {
		return r.freshTerm("protoequal", SB)
	}
	t := deref(pt)
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return r.freshTerm("protoequal", SB)
	}
	var cs []*Term
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if skipField(f) {
			continue
		}
		x := r.load(fieldAddr(r.eng, t, f.Name(), a), f.Type(), g, limit)
		y := r.load(fieldAddr(r.eng, t, f.Name(), b), f.Type(), g, limit)
		cs = append(cs, r.fieldEqual(x, y, f.Type(), g, limit, depth))
	}
	an, bn := Eq(a, Nil), Eq(b, Nil)
	return Or(And(an, bn), And(append([]*Term{Not(an), Not(bn)}, cs...)...))
}

func (r *Run) fieldEqual(x, y Val, t types.Type, g *Term, limit, depth int) *Term {
	switch t.Underlying().(type) {
	case *types.Basic:
		return Eq(x[0], y[0])
	case *types.Pointer:
		return r.msgEqual(x[0], y[0], t, g, limit, depth+1)
	case *types.Interface:
		impls, closed := r.eng.closedImpls(t)
		if !closed {
			return r.freshTerm("protoequal", SB)
		}
		cs := []*Term{Eq(x[0], y[0])}
		for _, c := range impls {
			st := deref(c).Underlying().(*types.Struct)
			f := st.Field(0)
			xv := r.load(fieldAddr(r.eng, deref(c), f.Name(), x[1]), f.Type(), g, limit)
			yv := r.load(fieldAddr(r.eng, deref(c), f.Name(), y[1]), f.Type(), g, limit)
			cs = append(cs, Implies(Eq(x[0], r.eng.tagOf(c)), r.fieldEqual(xv, yv, f.Type(), g, limit, depth+1)))
		}
		return And(cs...)
	}
	return r.freshTerm("protoequal", SB)
}

// validateModel: the generated validators of this repository report an error only for a defect in an embedded message's
// validation rule; which messages have rules is read from the generated code
func (r *Run) validateModel(fn *ssa.Function, recv Val, v Val, g *Term, f *Frame) {
	if !r.eng.validatorHasRules(fn, map[*ssa.Function]bool{}) {
		r.note("generated validators without rules accept every message: " + typeName(fn.Signature.Recv().Type()))
		r.assume(Eq(v[0], Zero), "no validation rules")
	}
}

// fnContract: calls of unknown function values are not supported
func (e *Engine) fnContract(r *Run, t *Term, cc *ssa.CallCommon) func(*Frame, []Val, *Term, ssa.Instruction) []Val {
	return nil
}

// left is the number of elements of a finite set that are not keys of a map: of two such sets the one within the other is the smaller
func (r *Run) left(m *Term, t types.Type, in *Term, g *Term, limit int) *Term {
	x := r.bv("left", SS)
	sp := r.pushIdx([]*Term{x})
	c := r.callClosure(in, []Val{{x}}, g, limit)[0][0]
	_, ok := r.mapGet(m, t.Underlying().(*types.Map), Val{x}, g, limit)
	r.popIdx(sp)
	p := And(c, Not(ok))
	n := r.freshTerm("left", SI)
	r.assume(Le(Zero, n), "number of elements")
	if r.spec != nil && r.spec.mode == "vpre" {
		r.left0 = &leftSet{n, x, p}
		return n
	}
	if o := r.left0; o != nil {
		q := Subst(o.p, map[string]*Term{o.x.Op: x})
		within := Forall([]*Term{x}, Implies(p, q))
		around := Forall([]*Term{x}, Implies(q, p))
		r.assume(Implies(within, Le(n, o.n)), "finite sets")
		r.assume(Implies(And(within, Not(around)), Lt(n, o.n)), "finite sets")
		r.assume(Implies(around, Le(o.n, n)), "finite sets")
	}
	return n
}

type leftSet struct{ n, x, p *Term }
