package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
	ord    int
}

type fnInfo struct {
	fn    *ssa.Function
	rpo   []*ssa.BasicBlock
	num   map[*ssa.BasicBlock]int
	loops []*Loop
	of    map[*ssa.BasicBlock]*Loop // innermost
}

func (e *Engine) infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := e.infos[fn]; ok {
		return i
	}
	i := &fnInfo{fn: fn, num: map[*ssa.BasicBlock]int{}, of: map[*ssa.BasicBlock]*Loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for k := len(b.Succs) - 1; k >= 0; k-- {
			dfs(b.Succs[k])
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for k := len(post) - 1; k >= 0; k-- {
		i.num[post[k]] = len(i.rpo)
		i.rpo = append(i.rpo, post[k])
	}
	byHeader := map[*ssa.BasicBlock]*Loop{}
	for _, b := range i.rpo {
		for _, s := range b.Succs {
			if i.num[s] <= i.num[b] {
				l := byHeader[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					byHeader[s] = l
					i.loops = append(i.loops, l)
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							add(p)
						}
					}
				}
				add(b)
			}
		}
	}
	for _, l := range i.loops {
		for _, m := range i.loops {
			if m != l && m.blocks[l.header] && (l.parent == nil || len(m.blocks) < len(l.parent.blocks)) {
				l.parent = m
			}
		}
		for b := range l.blocks {
			if cur := i.of[b]; cur == nil || len(l.blocks) < len(cur.blocks) {
				i.of[b] = l
			}
		}
	}
	for k, l := range i.loops {
		l.ord = k
	}
	e.infos[fn] = i
	return i
}

func (i *fnInfo) backEdge(from, to *ssa.BasicBlock) bool { return i.num[to] <= i.num[from] }

func (i *fnInfo) dupEdge(from, to *ssa.BasicBlock) bool {
	n := 0
	for _, s := range from.Succs {
		if s == to {
			n++
		}
	}
	return n > 1
}

// innermostWithin returns the outermost loop strictly inside l that contains b
func (i *fnInfo) innermostWithin(b *ssa.BasicBlock, l *Loop) *Loop {
	x := i.of[b]
	if x == nil || x == l {
		return nil
	}
	for x.parent != nil && x.parent != l {
		x = x.parent
	}
	if x.parent != l {
		return nil
	}
	return x
}

type phiForm struct {
	form *Term // closed form in j, nil when opaque
	why  string
}

type loopExec struct {
	id         int
	name       string
	j, K       *Term
	outer      []*Term
	rangeFacts bool
	rangeAx    []*Term
	forms      map[string]*Term // by opaque name
	axioms     []*Term          // definitional, valid for every j >= 0
	accum      map[*ssa.Phi]*accForm
	lwN        int
	lwNames    map[int]int
	finals     []*Term // over j: what the axioms say about the state before iteration j
}

type accForm struct {
	seq  *Term // al!acc
	len  *Term // length at j
	cond *Term // append condition at j
	cnt  string
}

type snapshot struct {
	na, no, seq, fresh int
	logs               map[string]int
	nf                 int
}

func (r *Run) snap() snapshot {
	s := snapshot{na: len(r.assumes), no: len(r.obls), seq: r.seq, fresh: r.fresh, logs: map[string]int{}}
	for n, a := range r.arrs {
		s.logs[n] = len(a.Log)
	}
	return s
}

func (r *Run) rollback(s snapshot) {
	r.assumes = r.assumes[:s.na]
	r.obls = r.obls[:s.no]
	r.seq = s.seq
	r.fresh = s.fresh
	for n, a := range r.arrs {
		a.Log = a.Log[:s.logs[n]]
	}
}

func (r *Run) entriesSince(s snapshot) map[string][]*Entry {
	out := map[string][]*Entry{}
	for _, n := range r.arrOrder {
		a := r.arrs[n]
		if len(a.Log) > s.logs[n] {
			out[n] = append([]*Entry{}, a.Log[s.logs[n]:]...)
		}
	}
	return out
}

func mentions(t *Term, pre string) bool {
	hit := false
	visit([]*Term{t}, func(x *Term) {
		if x.Kind == KApp && strings.HasPrefix(x.Op, pre) {
			hit = true
		}
	})
	return hit
}

func (le *loopExec) bv(tag string, s Sort) *Term { return Var(fmt.Sprintf("b!%d.%s", le.id, tag), s) }

func (le *loopExec) opaque(t *Term) bool {
	return mentions(t, fmt.Sprintf("phi!%d.", le.id)) || mentions(t, fmt.Sprintf("lh!%d.", le.id))
}

func (le *loopExec) atJ(t, v *Term) *Term { return Subst(t, map[string]*Term{le.j.Op: v}) }

// dispatches: does the loop call functions taken from a slice? Such a loop is unrolled over the known elements
func (l *Loop) dispatches() bool {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.IsInvoke() {
				continue
			}
			if u, ok := c.Call.Value.(*ssa.UnOp); ok {
				if _, ok := u.X.(*ssa.IndexAddr); ok {
					return true
				}
			}
		}
	}
	return false
}

// unroll executes the iterations one after another; the loop must end within a known number of iterations
func (r *Run) unroll(f *Frame, l *Loop, g *Term, phis []*ssa.Phi, cur map[*ssa.Phi]Val) {
	exits := map[[2]int]*Term{}
	var order [][2]int
	type iter struct {
		g    *Term
		regs map[ssa.Value]Val
	}
	var its []iter
	for n := 0; g != False; n++ {
		if n > 16 {
			r.stuck("%s of %s does not end after %d iterations", "loop", f.fn, n)
		}
		for p, v := range cur {
			f.regs[p] = v
		}
		for k := range f.edges {
			if l.blocks[f.fn.Blocks[k[0]]] {
				delete(f.edges, k)
			}
		}
		r.region(f, l, l.header, g)
		var out, back []*Term
		nv := map[*ssa.Phi]Val{}
		for _, b := range f.info.rpo {
			if !l.blocks[b] {
				continue
			}
			for _, s := range b.Succs {
				k := [2]int{b.Index, s.Index}
				e, ok := f.edges[k]
				if !ok || e == False {
					continue
				}
				if !l.blocks[s] {
					out = append(out, e)
					if o := exits[k]; o != nil {
						exits[k] = Or(o, e)
					} else {
						exits[k] = e
						order = append(order, k)
					}
				} else if s == l.header {
					back = append(back, e)
					for _, p := range phis {
						for i, pr := range l.header.Preds {
							if pr == b {
								x := r.val(f, p.Edges[i])
								if o := nv[p]; o != nil {
									x = iteVal(under(e, g), x, o)
								}
								nv[p] = x
							}
						}
					}
				}
			}
		}
		it := iter{g: False, regs: map[ssa.Value]Val{}}
		if len(out) > 0 {
			it.g = orGuards(out)
		}
		for b := range l.blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					if x, ok := f.regs[v]; ok {
						it.regs[v] = x
					}
					delete(f.regs, v)
				}
			}
		}
		if it.g != False {
			its = append(its, it)
		}
		if len(back) == 0 {
			break
		}
		g, cur = orGuards(back), nv
	}
	for i := len(its) - 1; i >= 0; i-- {
		for v, x := range its[i].regs {
			if o, ok := f.regs[v]; ok && len(o) == len(x) {
				f.regs[v] = iteVal(its[i].g, x, o)
			} else {
				f.regs[v] = x
			}
		}
	}
	for k := range f.edges {
		if l.blocks[f.fn.Blocks[k[0]]] {
			delete(f.edges, k)
		}
	}
	for _, k := range order {
		f.edges[k] = exits[k]
	}
}

func (r *Run) loop(f *Frame, l *Loop, g *Term) {
	r.eng.loopN++
	r.fresh++
	id := r.fresh
	le := &loopExec{id: id, outer: r.idxArgs(), forms: map[string]*Term{}, accum: map[*ssa.Phi]*accForm{}}
	le.j = Var(fmt.Sprintf("j!%d", id), SI)
	le.K = App(fmt.Sprintf("K!%d", id), SI, le.outer...)
	le.name = fmt.Sprintf("loop %d", l.ord)

	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	// entry values
	init := map[*ssa.Phi]Val{}
	for _, p := range phis {
		var v Val
		first := true
		for i := len(l.header.Preds) - 1; i >= 0; i-- {
			pr := l.header.Preds[i]
			if l.blocks[pr] {
				continue
			}
			e, ok := f.edges[[2]int{pr.Index, l.header.Index}]
			if !ok || e == False {
				continue
			}
			x := r.val(f, p.Edges[i])
			if first {
				v, first = x, false
			} else {
				v = iteVal(under(e, g), x, v)
			}
		}
		init[p] = v
	}
	if l.dispatches() {
		r.unroll(f, l, g, phis, init)
		return
	}
	pname := func(p *ssa.Phi, k int) string { return fmt.Sprintf("phi!%d.%s.%d", id, p.Name(), k) }

	invs := r.eng.invariantsOf(f.fn, l.ord)
	// an invariant is proved by induction over the iterations
	invariant := func(j *Term, g *Term, vals map[*ssa.Phi]Val, oblige string) {
		saved := map[*ssa.Phi]Val{}
		for p, v := range vals {
			saved[p] = f.regs[p]
			f.regs[p] = v
		}
		type res struct {
			n string
			t *Term
		}
		var out []res
		for _, iv := range invs {
			args := r.invArgs(f, l, iv, j)
			if args == nil {
				continue // it is about another instance of the function
			}
			r.quiet++
			st, sp := r.stack, r.spec
			r.stack = nil
			r.spec = &specCtx{mode: "vpost", c: r.cur, pre: r.seq, g: g, callee: iv.Name(), where: "loop invariant", fresh: map[int]bool{}, sets: map[string][]*ghostSet{}}
			v := r.inline(iv, args, nil, g, noLimit)
			r.stack, r.spec = st, sp
			r.quiet--
			out = append(out, res{iv.Name(), v[0][0]})
		}
		for _, x := range out {
			if oblige != "" {
				r.obligeSpec("invariant", "loop invariant "+x.n+" "+oblige, shortName(f.fn), nil, g, x.t)
			} else {
				r.assume(Implies(g, x.t), "loop invariant")
			}
		}
		for p, v := range saved {
			if v == nil {
				delete(f.regs, p)
			} else {
				f.regs[p] = v
			}
		}
	}
	if len(invs) > 0 {
		invariant(Zero, g, init, "holds at the start")
	}
	loopState := map[string][]*Entry{} // entries describing iterations < j, per array
	modset := map[string]bool{}
	nDefers := len(f.defers)
	s0 := r.snap()
	stable := false
	var cont *Term
	var next map[*ssa.Phi]Val
	var body map[string][]*Entry
	opaqueArr := map[string]bool{}
	sig := ""
	for pass := 0; pass < 12; pass++ {
		r.rollback(s0)
		f.defers = f.defers[:nDefers]
		le.rangeFacts = false
		le.rangeAx = nil
		// copy initial elements into accumulators
		for _, p := range phis {
			if af := le.accum[p]; af != nil && init[p][2] != Zero {
				et := p.Type().Underlying().(*types.Slice).Elem()
				iv := init[p]
				lim := s0.seq
				r.elemBulk(af.seq, et, g, "accinit", func(i *Term, k int) (*Term, *Term) {
					pl := r.places(elAddr(iv[0], Add(iv[1], i)), et)[k]
					return And(Le(Zero, i), Lt(i, iv[2])), r.read(pl.a, pl.keys, g, lim)
				})
			}
		}
		pre := r.snap()
		r.idx = append(r.idx, le.j)
		r.assume(And(Le(Zero, le.j), Le(le.j, le.K)), "loop index")
		for _, p := range phis {
			if af := le.accum[p]; af != nil {
				f.regs[p] = Val{af.seq, Zero, af.len}
				continue
			}
			var v Val
			for k, lf := range layout(p.Type()) {
				n := pname(p, k)
				if t := le.forms[n]; t != nil {
					v = append(v, t)
				} else {
					v = append(v, App(n, lf.Sort, append(append([]*Term{}, le.outer...), le.j)...))
				}
			}
			f.regs[p] = v
			r.shape(v, p.Type(), True)
		}
		for _, n := range r.arrOrder {
			a := r.arrs[n]
			if opaqueArr[n] {
				kv := r.keyVars(a)
				r.bulkEntry(a, g, kv, True, App(fmt.Sprintf("lh!%d.%s", id, n), a.Sort, append(append(append([]*Term{}, le.outer...), le.j), kv...)...), "loop state")
				continue
			}
			for _, e := range loopState[n] {
				r.seq++
				c := *e
				c.seq = r.seq
				a.Log = append(a.Log, &c)
			}
		}
		mid := r.snap()
		for _, b := range f.info.rpo {
			if l.blocks[b] {
				for _, s := range b.Succs {
					delete(f.edges, [2]int{b.Index, s.Index})
				}
			}
		}
		if len(invs) > 0 {
			invariant(le.j, g, nil, "")
		}
		f.loops = append(f.loops, le)
		r.region(f, l, l.header, g)
		f.loops = f.loops[:len(f.loops)-1]
		r.idx = r.idx[:len(r.idx)-1]
		_ = pre
		if len(f.defers) > nDefers {
			r.stuck("defer inside a loop")
		}
		body = r.entriesSince(mid)
		nBody := len(r.obls)
		// back edges
		var bg []*Term
		for _, pr := range l.header.Preds {
			if l.blocks[pr] {
				if e, ok := f.edges[[2]int{pr.Index, l.header.Index}]; ok && e != False {
					bg = append(bg, e)
				}
			}
		}
		cont = False
		if len(bg) > 0 {
			cont = under(orGuards(bg), g)
		}
		gc := And(g, cont)
		next = map[*ssa.Phi]Val{}
		for _, p := range phis {
			var v Val
			first := true
			for i := len(l.header.Preds) - 1; i >= 0; i-- {
				pr := l.header.Preds[i]
				if !l.blocks[pr] {
					continue
				}
				e, ok := f.edges[[2]int{pr.Index, l.header.Index}]
				if !ok || e == False {
					continue
				}
				x := r.val(f, p.Edges[i])
				if first {
					v, first = x, false
				} else {
					v = iteVal(under(e, gc), x, v)
				}
			}
			if first {
				v = init[p]
			}
			next[p] = v
		}
		if len(invs) > 0 {
			r.idx = append(r.idx, le.j)
			na := len(r.assumes)
			invariant(Add(le.j, One), gc, next, "is preserved")
			_ = na
			r.idx = r.idx[:len(r.idx)-1]
		}
		_ = nBody
		// closed forms of the loop variables
		progress := false
		for _, p := range phis {
			if le.accum[p] != nil {
				continue
			}
			if r.tryAccum(le, p, init[p], next[p], gc) {
				progress = true
				continue
			}
			for k := range layout(p.Type()) {
				n := pname(p, k)
				if le.forms[n] != nil {
					continue
				}
				self := App(n, layout(p.Type())[k].Sort, append(append([]*Term{}, le.outer...), le.j)...)
				if t := r.closedForm(le, self, init[p][k], simplifyUnder(next[p][k], gc)); t != nil {
					le.forms[n] = t
					progress = true
				}
			}
		}
		// array effects
		newState := map[string][]*Entry{}
		le.dropAxioms()
		for _, n := range r.arrOrder {
			es := body[n]
			if len(es) == 0 {
				continue
			}
			if !modset[n] {
				modset[n] = true
				progress = true
			}
			if opaqueArr[n] {
				continue
			}
			le.lwN = 0
			newState[n] = r.loopEntries(le, r.arrs[n], es, g, cont)
		}
		ns := stateSig(newState, r.arrOrder)
		if ns != sig {
			progress = true
			sig = ns
		}
		loopState = newState
		if !progress {
			stable = true
			break
		}
		if pass == 8 || len(invs) > 0 && pass >= 2 {
			for n := range modset {
				if le.dependsOpaque(loopState[n]) {
					opaqueArr[n] = true
				}
			}
		}
	}
	if !stable {
		// last resort: every modified array is described by its recurrence only
		r.stuck("loop in %s: no stable description of its state", f.fn)
	}

	// finalize. assumes[s0.na:] are the body's facts
	facts := append([]*Fact{}, r.assumes[s0.na:]...)
	obls := append([]*Obl{}, r.obls[s0.no:]...)
	K := le.K
	iv := le.bv("fin", SI)
	atI := func(t *Term) *Term { return le.atJ(t, iv) }
	var defs []*Term
	defs = append(defs, le.axioms...)
	var rec []*Term // recurrences: valid for 0 <= i < limit
	for _, p := range phis {
		if le.accum[p] != nil {
			continue
		}
		for k, lf := range layout(p.Type()) {
			n := pname(p, k)
			if le.forms[n] != nil {
				continue
			}
			fn := func(t *Term) *Term { return App(n, lf.Sort, append(append([]*Term{}, le.outer...), t)...) }
			defs = append(defs, Implies(g, Eq(fn(Zero), init[p][k])))
			rec = append(rec, Eq(fn(Add(iv, One)), atI(next[p][k])))
		}
	}
	for _, n := range r.arrOrder {
		if !opaqueArr[n] {
			continue
		}
		a := r.arrs[n]
		var kv []*Term
		for i, s := range a.Keys {
			kv = append(kv, le.bv(fmt.Sprintf("%s.k%d", n, i), s))
		}
		fn := func(t *Term) *Term {
			return App(fmt.Sprintf("lh!%d.%s", id, n), a.Sort, append(append(append([]*Term{}, le.outer...), t), kv...)...)
		}
		defs = append(defs, Implies(g, Forall(kv, Eq(fn(Zero), r.read(a, kv, g, s0.seq)))))
		cur := fn(le.j)
		for _, e := range body[n] {
			h, v := e.at(kv)
			if h == False {
				continue
			}
			cur = Ite(And(under(e.guard, And(g, cont)), h), v, cur)
		}
		rec = append(rec, Forall(kv, Eq(fn(Add(iv, One)), atI(cur))))
	}
	defs = append(defs, le.rangeAx...)
	rec = append(rec, atI(cont))

	upTo := func(lim *Term, strict bool, t *Term) *Term {
		u := Le(iv, lim)
		if strict {
			u = Lt(iv, lim)
		}
		return Forall([]*Term{iv}, Implies(And(g, Le(Zero, iv), u), t))
	}
	var hist []*Term
	for _, x := range rec {
		hist = append(hist, upTo(le.j, true, x))
	}
	for _, x := range facts {
		if x.t.vars[le.j.Op] {
			hist = append(hist, upTo(le.j, true, atI(x.t)))
		}
	}
	for _, o := range obls {
		var local []*Term
		local = append(local, defs...)
		local = append(local, hist...)
		local = append(local, le.finals...)
		for _, x := range facts[:o.n-s0.na] {
			local = append(local, x.t)
		}
		o.Assume = append(local, o.Assume...)
		o.n = s0.na
	}
	// exits
	type exit struct {
		k [2]int
		g *Term
	}
	var exits []exit
	var eg []*Term
	for _, b := range f.info.rpo {
		if !l.blocks[b] {
			continue
		}
		for _, s := range b.Succs {
			if l.blocks[s] {
				continue
			}
			k := [2]int{b.Index, s.Index}
			e, ok := f.edges[k]
			if !ok || e == False {
				continue
			}
			rel := le.atJ(under(e, g), K)
			exits = append(exits, exit{k, And(g, rel)})
			eg = append(eg, rel)
		}
	}
	r.checkTermination(f, l, le, cont)
	r.assumes = r.assumes[:s0.na]
	// heap after the loop
	type arrEntries struct {
		a  *Arr
		es []*Entry
	}
	var all []arrEntries
	for _, n := range r.arrOrder {
		a := r.arrs[n]
		if len(a.Log) > s0.logs[n] {
			all = append(all, arrEntries{a, append([]*Entry{}, a.Log[s0.logs[n]:]...)})
			a.Log = a.Log[:s0.logs[n]]
		}
	}
	m := map[string]*Term{le.j.Op: K}
	// keep the global order of writes
	for {
		best := -1
		for i := range all {
			if len(all[i].es) > 0 && (best < 0 || all[i].es[0].seq < all[best].es[0].seq) {
				best = i
			}
		}
		if best < 0 {
			break
		}
		e := *all[best].es[0]
		all[best].es = all[best].es[1:]
		r.seq++
		e.seq = r.seq
		e.guard = Subst(e.guard, m)
		e.val = Subst(e.val, m)
		if e.vars != nil {
			e.has = Subst(e.has, m)
		} else {
			ks := make([]*Term, len(e.keys))
			for i := range ks {
				ks[i] = Subst(e.keys[i], m)
			}
			e.keys = ks
		}
		if e.guard != False && !(e.vars != nil && e.has == False) {
			all[best].a.Log = append(all[best].a.Log, &e)
		}
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if x, ok := f.regs[v]; ok {
					f.regs[v] = substVal(x, m)
				}
			}
		}
	}
	r.assume(Le(Zero, K), "iterations")
	for _, d := range defs {
		r.assume(d, "loop definition")
	}
	for _, x := range le.finals {
		r.assume(le.atJ(x, K), "loop definition")
	}
	for _, x := range rec {
		r.assume(upTo(K, true, x), "completed iterations")
	}
	for _, x := range facts {
		if x.t.vars[le.j.Op] {
			r.assume(upTo(K, false, atI(x.t)), x.note)
			r.assume(Implies(g, le.atJ(x.t, K)), x.note)
		} else {
			r.assume(x.t, x.note)
		}
	}
	r.assume(Implies(g, Or(eg...)), "loop exit")
	for _, e := range exits {
		f.edges[e.k] = e.g
	}
}

func (le *loopExec) dependsOpaque(es []*Entry) bool { return true }

func simplifyUnder(t, g *Term) *Term {
	if t.Kind == KOp && t.Op == "ite" {
		c := under(t.Args[0], g)
		if c == True {
			return simplifyUnder(t.Args[1], g)
		}
		if c == False || underBool(t.Args[0], g) == False {
			return simplifyUnder(t.Args[2], g)
		}
		return Ite(c, simplifyUnder(t.Args[1], And(g, c)), simplifyUnder(t.Args[2], And(g, Not(c))))
	}
	return t
}

func stateSig(m map[string][]*Entry, order []string) string {
	var b strings.Builder
	for _, n := range order {
		for _, e := range m[n] {
			fmt.Fprintf(&b, "%s:%d:%d:%d;", n, e.guard.id, e.has.id, e.val.id)
		}
	}
	return b.String()
}

func (r *Run) checkTermination(f *Frame, l *Loop, le *loopExec, cont *Term) {
	if r.quiet > 0 {
		return
	}
	if cont == False {
		return
	}
	for _, c := range conjs(cont) {
		// not (n <= j + c) with n independent of j
		if c.Kind == KOp && c.Op == "not" && c.Args[0].Kind == KOp && c.Args[0].Op == "<=" {
			n, e := c.Args[0].Args[0], c.Args[0].Args[1]
			if !n.vars[le.j.Op] && (e == le.j || e.Kind == KOp && e.Op == "+" && e.Args[0] == le.j && !e.Args[1].vars[le.j.Op]) && !le.opaque(n) {
				return
			}
		}
	}
	r.note("termination of the loop in " + shortName(f.fn) + " is assumed")
}

// closedForm finds the value of a loop variable at the start of iteration j
func (r *Run) closedForm(le *loopExec, self, init, next *Term) *Term {
	if next == self {
		return init
	}
	if self.Sort == SI {
		d := Sub(next, self)
		if d.Kind == KInt {
			if d.I == 1 {
				return Add(init, le.j)
			}
			return Add(init, Mul(d, le.j))
		}
	}
	if !le.opaque(next) {
		if next.vars == nil || !next.vars[le.j.Op] {
			return Ite(Eq(le.j, Zero), init, next)
		}
		return Ite(Eq(le.j, Zero), init, le.atJ(next, Sub(le.j, One)))
	}
	// ite(c, e, self)
	type alt struct{ c, v *Term }
	var alts []alt
	ok := true
	var walk func(t, g *Term)
	walk = func(t, g *Term) {
		if t == self {
			return
		}
		if t.Kind == KOp && t.Op == "ite" && !le.opaque(t.Args[0]) {
			walk(t.Args[1], And(g, t.Args[0]))
			walk(t.Args[2], And(g, Not(t.Args[0])))
			return
		}
		if self.Sort == SB && t.Kind == KOp && (t.Op == "and" || t.Op == "or") {
			var rest []*Term
			has := false
			for _, a := range t.Args {
				if a == self {
					has = true
				} else {
					rest = append(rest, a)
				}
			}
			if has {
				if t.Op == "and" {
					c := And(rest...)
					if !le.opaque(c) {
						alts = append(alts, alt{And(g, Not(c)), False})
						return
					}
				} else {
					c := Or(rest...)
					if !le.opaque(c) {
						alts = append(alts, alt{And(g, c), True})
						return
					}
				}
			}
		}
		if le.opaque(t) {
			ok = false
			return
		}
		alts = append(alts, alt{g, t})
	}
	walk(next, True)
	if !ok || len(alts) == 0 {
		return nil
	}
	var cs []*Term
	for _, a := range alts {
		cs = append(cs, a.c)
	}
	c := Or(cs...)
	lw := r.lastWriter(le, self.Op, c, nil)
	v := le.atJ(alts[len(alts)-1].v, lw)
	for i := len(alts) - 2; i >= 0; i-- {
		v = Ite(le.atJ(alts[i].c, lw), le.atJ(alts[i].v, lw), v)
	}
	return Ite(Le(Zero, lw), v, init)
}

// lastWriter introduces the last iteration i < j with c(i), -1 when there is none
func (r *Run) lastWriter(le *loopExec, tag string, c *Term, xs []*Term) *Term {
	n := fmt.Sprintf("lw!%d.%s", le.id, tag)
	f := func(j *Term) *Term {
		return App(n, SI, append(append(append([]*Term{}, le.outer...), j), xs...)...)
	}
	jv, iv := le.bv(n+".j", SI), le.bv(n+".i", SI)
	t := f(jv)
	ax1 := Forall(append([]*Term{jv}, xs...), Or(Eq(t, Int(-1)), And(Le(Zero, t), Lt(t, jv), le.atJ(c, t))))
	ax2 := Forall(append([]*Term{jv, iv}, xs...), Implies(And(Le(Zero, iv), Lt(iv, jv), le.atJ(c, iv)), Le(iv, f(jv))))
	le.addAxiom(n, ax1, ax2)
	le.addFinal(n, Forall(append([]*Term{iv}, xs...), Implies(And(Le(Zero, iv), Lt(iv, le.j), le.atJ(c, iv)), Le(iv, f(le.j)))))
	return f(le.j)
}

func (le *loopExec) addAxiom(n string, as ...*Term) {
	// axioms of a symbol are replaced when the symbol is redefined in a later pass
	var keep []*Term
	for _, a := range le.axioms {
		if !defines(a, n) {
			keep = append(keep, a)
		}
	}
	for _, a := range as {
		axiomOf[a.id] = n
	}
	le.axioms = append(keep, as...)
}

var axiomOf = map[int]string{}

func (le *loopExec) addFinal(n string, a *Term) {
	var keep []*Term
	for _, x := range le.finals {
		if !defines(x, n) {
			keep = append(keep, x)
		}
	}
	axiomOf[a.id] = n
	le.finals = append(keep, a)
}

func (le *loopExec) knows(n string) bool {
	for _, a := range le.axioms {
		if defines(a, n) {
			return true
		}
	}
	return false
}

// dropAxioms forgets the descriptions of writes of an earlier pass
func (le *loopExec) dropAxioms() {
	pre := fmt.Sprintf("lw!%d.w", le.id)
	f := func(as []*Term) (keep []*Term) {
		for _, a := range as {
			if !strings.HasPrefix(axiomOf[a.id], pre) {
				keep = append(keep, a)
			}
		}
		return
	}
	le.axioms, le.finals = f(le.axioms), f(le.finals)
}

func defines(a *Term, n string) bool { return axiomOf[a.id] == n }

// tryAccum recognizes s = append(s, e), possibly conditional
func (r *Run) tryAccum(le *loopExec, p *ssa.Phi, init, next Val, gc *Term) bool {
	st, ok := p.Type().Underlying().(*types.Slice)
	if !ok || isByteSlice(p.Type()) {
		return false
	}
	_ = st
	base := fmt.Sprintf("phi!%d.%s.", le.id, p.Name())
	self := make(Val, 3)
	for k, lf := range layout(p.Type()) {
		self[k] = App(fmt.Sprintf("%s%d", base, k), lf.Sort, append(append([]*Term{}, le.outer...), le.j)...)
	}
	var conds []*Term
	bad := false
	var walk func(t, g *Term)
	walk = func(t, g *Term) {
		if t == self[0] {
			return
		}
		if t.Kind == KOp && t.Op == "ite" {
			walk(t.Args[1], And(g, t.Args[0]))
			walk(t.Args[2], And(g, Not(t.Args[0])))
			return
		}
		ai := r.appends[t.id]
		if ai == nil || ai.many || ai.base[0] != self[0] || ai.base[2] != self[2] {
			bad = true
			return
		}
		conds = append(conds, g)
	}
	walk(simplifyUnder(next[0], gc), True)
	if bad || len(conds) == 0 {
		return false
	}
	c := Or(conds...)
	// a condition that looks at the accumulator itself is out of reach
	if mentions(c, base) {
		return false
	}
	af := &accForm{cond: c}
	af.seq = App(fmt.Sprintf("al!acc%d.%s", le.id, p.Name()), SR, le.outer...)
	r.accs[af.seq.Op] = &accInfo{loop: le, init: init}
	if c == True {
		af.len = Add(init[2], le.j)
	} else {
		n := fmt.Sprintf("cnt!%d.%s", le.id, p.Name())
		af.cnt = n
		cf := func(t *Term) *Term { return App(n, SI, append(append([]*Term{}, le.outer...), t)...) }
		af.len = Add(init[2], cf(le.j))
		r.countAxioms(le, n, c)
	}
	le.accum[p] = af
	return true
}

func (r *Run) countAxioms(le *loopExec, n string, c *Term) {
	cf := func(t *Term) *Term { return App(n, SI, append(append([]*Term{}, le.outer...), t)...) }
	src := func(t *Term) *Term { return App("src"+n, SI, append(append([]*Term{}, le.outer...), t)...) }
	iv, jv, pv := le.bv(n+".i", SI), le.bv(n+".j", SI), le.bv(n+".p", SI)
	at := func(t *Term) *Term { return le.atJ(c, t) }
	le.addAxiom(n,
		Eq(cf(Zero), Zero),
		Forall([]*Term{iv}, Implies(Le(Zero, iv), And(Le(Zero, cf(iv)), Le(cf(iv), iv)))),
		Forall([]*Term{iv}, Implies(Le(Zero, iv), Eq(cf(Add(iv, One)), Add(cf(iv), Ite(at(iv), One, Zero))))),
		Forall([]*Term{iv, jv}, Implies(And(Le(Zero, iv), Lt(iv, jv), at(iv)), Lt(cf(iv), cf(jv)))),
		Forall([]*Term{iv, jv}, Implies(And(Le(Zero, iv), Le(iv, jv)), Le(cf(iv), cf(jv)))),
		Forall([]*Term{pv, jv}, Implies(And(Le(Zero, pv), Lt(pv, cf(jv)), Le(Zero, jv)), And(Le(Zero, src(pv)), Lt(src(pv), jv), at(src(pv)), Eq(cf(src(pv)), pv)))),
		Forall([]*Term{iv}, Implies(And(Le(Zero, iv), at(iv)), Eq(src(cf(iv)), iv))),
	)
	le.counts()[n] = true
}

var countFns = map[string]bool{}

func (le *loopExec) counts() map[string]bool { return countFns }

// invert solves key(j) = x for j
func invert(key, x, j *Term) *Term {
	if key == j {
		return x
	}
	if !key.vars[j.Op] {
		return nil
	}
	if key.Kind == KOp && key.Op == "+" {
		a, b := key.Args[0], key.Args[1]
		if a.vars[j.Op] && !b.vars[j.Op] {
			return invert(a, Sub(x, b), j)
		}
		if b.vars[j.Op] && !a.vars[j.Op] {
			return invert(b, Sub(x, a), j)
		}
		return nil
	}
	if key.Kind == KApp && countFns[key.Op] {
		last := key.Args[len(key.Args)-1]
		if last == j {
			return App("src"+key.Op, SI, append(append([]*Term{}, key.Args[:len(key.Args)-1]...), x)...)
		}
		return nil
	}
	if key.Kind == KApp && (injective[key.Op] || isAlloc(key)) {
		for k, a := range key.Args {
			if a.vars[j.Op] {
				if t := invert(a, inv(key.Op, k, a.Sort, x), j); t != nil {
					return t
				}
			}
		}
	}
	return nil
}

// loopEntries describes the writes of iterations 0..j-1
func (r *Run) loopEntries(le *loopExec, a *Arr, es []*Entry, g, cont *Term) []*Entry {
	type item struct {
		t        *Term // writing iteration, as a term over xs and j
		has, val *Term // over xs, at t
		raw      *Entry
		hasJ     *Term
	}
	xs := make([]*Term, len(a.Keys))
	for i, s := range a.Keys {
		xs[i] = Var(fmt.Sprintf("x!%d.%d.%s", le.id, i, a.Name), s)
	}
	gc := And(g, cont)
	var items []item
	for _, e := range es {
		eg := under(e.guard, gc)
		if eg == False {
			continue
		}
		h, v := e.at(xs)
		hj := And(eg, h)
		if hj == False {
			continue
		}
		var t *Term
		if e.vars == nil {
			for c := range e.keys {
				if t = invert(e.keys[c], xs[c], le.j); t != nil {
					break
				}
			}
		} else {
			for _, q := range conjs(h) {
				if q.Kind == KOp && q.Op == "=" && t == nil {
					for c, x := range xs {
						_ = c
						if q.Args[0] == x {
							t = invert(q.Args[1], x, le.j)
						} else if q.Args[1] == x {
							t = invert(q.Args[0], x, le.j)
						}
						if t != nil {
							break
						}
					}
				}
			}
		}
		if t == nil {
			if !hj.vars[le.j.Op] {
				// the same condition in every iteration: the last one wins
				t = Sub(le.j, One)
			} else {
				le.lwN++
				used := []*Term{}
				for _, x := range xs {
					if hj.vars[x.Op] && e.vars == nil && constKey(e, x, xs, le.j) {
						continue
					}
					used = append(used, x)
				}
				t = r.lastWriterX(le, fmt.Sprintf("%s.%d", a.Name, le.lwN), hj, used, e, eg)
			}
		}
		items = append(items, item{t: t, raw: e, hasJ: hj, has: le.atJ(hj, t), val: le.atJ(v, t)})
	}
	var out []*Entry
	add := func(has, val *Term) {
		if has == False {
			return
		}
		out = append(out, &Entry{guard: g, vars: xs, has: has, val: val, tag: "iterations"})
	}
	// iterations that overlap in keys but have different writers need arbitration
	for i, it := range items {
		valid := And(Le(Zero, it.t), Lt(it.t, le.j), it.has)
		for k, o := range items {
			if k == i || o.t == it.t {
				continue
			}
			if And(it.has, o.has) == False || disjoint(it.raw, o.raw, le) {
				continue
			}
			ov := And(Le(Zero, o.t), Lt(o.t, le.j), o.has)
			// entries later in the list win on ties anyway; an earlier entry from a later iteration must beat a later entry
			if k < i {
				valid = And(valid, Not(And(ov, Lt(it.t, o.t))))
			}
		}
		add(valid, it.val)
	}
	return out
}

// constKey: x is compared with a key component that does not change
func constKey(e *Entry, x *Term, xs []*Term, j *Term) bool { return false }

func disjoint(a, b *Entry, le *loopExec) bool {
	if a.vars != nil || b.vars != nil {
		return false
	}
	o := Var(le.j.Op+"'", SI)
	for i := range a.keys {
		if Eq(a.keys[i], Subst(b.keys[i], map[string]*Term{le.j.Op: o})) == False {
			return true
		}
	}
	return false
}

func (r *Run) lastWriterX(le *loopExec, tag string, has *Term, xs []*Term, e *Entry, eg *Term) *Term {
	canon := map[string]*Term{}
	for i, x := range xs {
		canon[x.Op] = Var(fmt.Sprintf("x!c.%d", i), x.Sort)
	}
	ch := Subst(has, canon)
	if le.lwNames == nil {
		le.lwNames = map[int]int{}
	}
	if le.lwNames[ch.id] == 0 {
		le.lwNames[ch.id] = len(le.lwNames) + 1
	}
	n := fmt.Sprintf("lw!%d.w%d", le.id, le.lwNames[ch.id])
	f := func(j *Term, ys []*Term) *Term {
		return App(n, SI, append(append(append([]*Term{}, le.outer...), j), ys...)...)
	}
	jv, iv := le.bv(n+".j", SI), le.bv(n+".i", SI)
	if le.knows(n) {
		return f(le.j, xs)
	}
	t := f(jv, xs)
	ax1 := Forall(append([]*Term{jv}, xs...), Or(Eq(t, Int(-1)), And(Le(Zero, t), Lt(t, jv), le.atJ(has, t))))
	var ax2 *Term
	if e.vars == nil {
		// instantiate the keys
		ys := make([]*Term, 0, len(xs))
		for i := range e.keys {
			ys = append(ys, le.atJ(e.keys[i], iv))
		}
		ax2 = Forall([]*Term{jv, iv}, Implies(And(Le(Zero, iv), Lt(iv, jv), le.atJ(eg, iv)), Le(iv, f(jv, ys))))
		le.addFinal(n, Forall([]*Term{iv}, Implies(And(Le(Zero, iv), Lt(iv, le.j), le.atJ(eg, iv)), Le(iv, f(le.j, ys)))))
	} else {
		le.addFinal(n, Forall(append([]*Term{iv}, xs...), Implies(And(Le(Zero, iv), Lt(iv, le.j), le.atJ(has, iv)), Le(iv, f(le.j, xs)))))
		ax2 = Forall(append([]*Term{jv, iv}, xs...), Implies(And(Le(Zero, iv), Lt(iv, jv), le.atJ(has, iv)), Le(iv, f(jv, xs))))
	}
	le.addAxiom(n, ax1, ax2)
	return f(le.j, xs)
}

// rangeMap states that iteration i < n visits the i-th key of the map and every key is visited
func (le *loopExec) rangeMap(r *Run, ri *rangeInfo, name string, n, g *Term, outer []*Term) {
	has, _ := mapArrs(r, ri.typ)
	ls := layout(ri.typ.Key())
	keyAt := func(i *Term) []*Term {
		var k []*Term
		for _, l := range ls {
			k = append(k, App(name+l.Path, l.Sort, append(append([]*Term{}, outer...), i)...))
		}
		return k
	}
	iv := le.bv("mk.i", SI)
	var kv []*Term
	for i, l := range ls {
		kv = append(kv, le.bv(fmt.Sprintf("mk.k%d", i), l.Sort))
	}
	idx := func(k []*Term) *Term {
		return App(name+".inv", SI, append(append([]*Term{}, outer...), k...)...)
	}
	hasAt := func(k []*Term) *Term {
		return And(Not(Eq(ri.m, Nil)), r.read(has, append([]*Term{ri.m}, k...), g, ri.limit))
	}
	le.rangeAx = append(le.rangeAx, Le(Zero, n))
	le.rangeAx = append(le.rangeAx, Forall([]*Term{iv}, Implies(And(g, Le(Zero, iv), Lt(iv, n)), And(hasAt(keyAt(iv)), Eq(idx(keyAt(iv)), iv)))))
	h := hasAt(kv)
	x := idx(kv)
	le.rangeAx = append(le.rangeAx, Forall(kv, Implies(And(g, h), And(Le(Zero, x), Lt(x, n), eqKeys(keyAt(x), kv)))))
	for _, a := range le.rangeAx {
		r.assume(a, "map range")
	}
}

var typePath = regexp.MustCompile(`(?:[\w.\-]+/)*\w+\.`)

var typeArgs = regexp.MustCompile(`\[.*\]`)

func (e *Engine) invariantsOf(fn *ssa.Function, ord int) []*ssa.Function {
	o := fn
	for o.Parent() != nil {
		o = o.Parent()
	}
	if x := o.Origin(); x != nil {
		o = x
	}
	if o.Pkg == nil {
		return nil
	}
	n := fn.RelString(o.Pkg.Pkg)
	plain := typeArgs.ReplaceAllString(n, "")
	out := e.invs[fmt.Sprintf("%s|%s|%d", o.Pkg.Pkg.Path(), plain, ord)]
	if plain != n {
		// many[pkg/path.Pair[pkg.A, pkg.B]]$1 is many[Pair[A,B]]$1
		n = strings.ReplaceAll(typePath.ReplaceAllString(n, ""), " ", "")
		out = append(append([]*ssa.Function{}, out...), e.invs[fmt.Sprintf("%s|%s|%d", o.Pkg.Pkg.Path(), n, ord)]...)
	}
	return out
}

// invArgs: the arguments of an invariant are the variables of the function that bear their names
func (r *Run) invArgs(f *Frame, l *Loop, inv *ssa.Function, j *Term) []Val {
	out := make([]Val, len(inv.Params))
	used := map[ssa.Value]bool{}
	var left []int
	for i, p := range inv.Params {
		if p.Name() == "vj" {
			out[i] = Val{j}
			continue
		}
		v := r.localVar(f, l, p.Name())
		if v == nil {
			left = append(left, i)
			continue
		}
		if !types.Identical(v.Type(), p.Type()) {
			return nil
		}
		used[v] = true
		out[i] = r.val(f, v)
	}
	// a variable that goes by another name: the only one of its type that the loop changes, or else the only such parameter
	for _, i := range left {
		t := inv.Params[i].Type()
		var found []ssa.Value
		for _, in := range l.header.Instrs {
			if p, ok := in.(*ssa.Phi); ok && !used[p] && types.Identical(p.Type(), t) && !appended(p) {
				found = append(found, p)
			}
		}
		if len(found) == 0 {
			for _, p := range f.fn.Params {
				if !used[p] && types.Identical(p.Type(), t) {
					found = append(found, p)
				}
			}
		}
		if len(found) != 1 {
			return nil
		}
		used[found[0]] = true
		out[i] = r.val(f, found[0])
	}
	return out
}

// appended: is the variable one that collects values?
func appended(p *ssa.Phi) bool {
	for _, e := range p.Edges {
		if c, ok := e.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return true
			}
		}
	}
	return false
}

func (r *Run) localVar(f *Frame, l *Loop, name string) ssa.Value {
	for _, in := range l.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok && p.Comment == name {
			return p
		}
	}
	var best ssa.Value
	for _, b := range f.info.rpo {
		if b == l.header || !b.Dominates(l.header) {
			continue
		}
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.DebugRef)
			if !ok || d.IsAddr {
				continue
			}
			if id, ok := d.Expr.(*ast.Ident); ok && id.Name == name {
				if _, known := f.regs[d.X]; known {
					best = d.X
				}
			}
		}
	}
	if best != nil {
		return best
	}
	for _, p := range f.fn.Params {
		if p.Name() == name {
			return p
		}
	}
	return nil
}
