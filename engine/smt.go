package main

import (
	"bytes"
	"context"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

var debugPanics = os.Getenv("ZDEBUG") != ""

type query struct {
	decl  map[string]string // symbol -> declaration
	order []string
	strs  map[string]*Term
	ops   map[string]*Term // KApp op -> sample
}

func (q *query) add(t *Term) {
	switch t.Kind {
	case KApp:
		if _, ok := q.ops[t.Op]; !ok {
			q.ops[t.Op] = t
		}
	case KStr:
		q.strs[t.Op] = t
	}
}

func declOf(t *Term) string {
	var b strings.Builder
	fmt.Fprintf(&b, "(declare-fun %s (", sym(t.Op))
	for i, a := range t.Args {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(a.Sort.smt())
	}
	fmt.Fprintf(&b, ") %s)\n", t.Sort.smt())
	return b.String()
}

// smt renders the query: assumptions and the negated goal
// queries: one for each case of the negated goal
func (r *Run) queries(assume []*Term, goal *Term) []string {
	var out []string
	for _, c := range cases(goal, false) {
		out = append(out, r.smt(append(append([]*Term{}, assume...), c...)))
	}
	return out
}

const maxCases = 24

var skolemN int

// cases is a disjunctive normal form of t (or of its negation) up to a size, with the existential variables replaced by constants
func cases(t *Term, pos bool) [][]*Term {
	lit := func() [][]*Term {
		if pos {
			return [][]*Term{{t}}
		}
		return [][]*Term{{Not(t)}}
	}
	union := func(xs ...[][]*Term) [][]*Term {
		var out [][]*Term
		for _, x := range xs {
			out = append(out, x...)
		}
		if len(out) > maxCases {
			return lit()
		}
		return out
	}
	prod := func(xs ...[][]*Term) [][]*Term {
		out := [][]*Term{nil}
		for _, x := range xs {
			var n [][]*Term
			for _, a := range out {
				for _, b := range x {
					n = append(n, append(append([]*Term{}, a...), b...))
				}
			}
			if len(n) > maxCases {
				return lit()
			}
			out = n
		}
		return out
	}
	if t == True || t == False {
		if (t == True) == pos {
			return [][]*Term{nil}
		}
		return nil
	}
	switch t.Kind {
	case KForall, KExists:
		if (t.Kind == KExists) != pos {
			return lit()
		}
		m := map[string]*Term{}
		for _, v := range t.Vars {
			skolemN++
			m[v.Op] = App(fmt.Sprintf("sk!%d.%s", skolemN, v.Op), v.Sort)
		}
		return cases(Subst(t.Args[0], m), pos)
	case KOp:
		switch t.Op {
		case "not":
			return cases(t.Args[0], !pos)
		case "and", "or":
			var xs [][][]*Term
			for _, a := range t.Args {
				xs = append(xs, cases(a, pos))
			}
			if (t.Op == "and") == pos {
				return prod(xs...)
			}
			return union(xs...)
		case "=":
			if t.Args[0].Sort == SB {
				a, b := t.Args[0], t.Args[1]
				return union(prod(cases(a, true), cases(b, pos)), prod(cases(a, false), cases(b, !pos)))
			}
		case "ite":
			c := t.Args[0]
			return union(prod(cases(c, true), cases(t.Args[1], pos)), prod(cases(c, false), cases(t.Args[2], pos)))
		}
	}
	return lit()
}

func (r *Run) smt(assume []*Term) string {
	as := propagate(assume)
	q := &query{ops: map[string]*Term{}, strs: map[string]*Term{}}
	collect := func(ts []*Term) { visit(ts, q.add) }
	collect(as)
	q.add(Nil)
	var ax []*Term
	done := map[string]bool{}
	for {
		var todo []string
		for n := range q.ops {
			if !done[n] {
				todo = append(todo, n)
			}
		}
		if len(todo) == 0 {
			break
		}
		sort.Strings(todo)
		for _, n := range todo {
			done[n] = true
			fs := r.opAxioms(q.ops[n])
			collect(fs)
			ax = append(ax, fs...)
		}
	}
	hasOld := q.ops["old!"] != nil
	_ = hasOld
	var b strings.Builder
	b.WriteString("(set-option :smt.mbqi true)\n(set-logic ALL)\n(declare-sort S 0)\n(declare-sort R 0)\n")
	all := append(append([]*Term{}, ax...), as...)
	free := map[string]*Term{}
	var names []string
	for n := range q.ops {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		b.WriteString(declOf(q.ops[n]))
	}
	visit(all, func(t *Term) {
		if t.Kind == KVar {
			free[t.Op] = t
		}
	})
	fv := map[string]*Term{}
	for _, t := range all {
		for v := range t.vars {
			fv[v] = free[v]
		}
	}
	for _, n := range sortedKeys(fv) {
		fmt.Fprintf(&b, "(declare-fun %s () %s)\n", sym(n), fv[n].Sort.smt())
	}
	var lits []string
	for _, s := range sortedKeys(q.strs) {
		n := sym(strName(s))
		fmt.Fprintf(&b, "(declare-fun %s () S)\n", n)
		lits = append(lits, n)
		if q.ops["strlen"] != nil {
			fmt.Fprintf(&b, "(assert (= (strlen %s) %d))\n", n, len(s))
		}
	}
	if q.ops["strlen"] != nil && q.strs[""] != nil {
		e := sym(strName(""))
		fmt.Fprintf(&b, "(assert (forall ((s S)) (! (and (>= (strlen s) 0) (=> (= (strlen s) 0) (= s %s))) :pattern ((strlen s)))))\n", e)
	}
	if len(lits) > 1 {
		fmt.Fprintf(&b, "(assert (distinct %s))\n", strings.Join(lits, " "))
	}
	// formats with different beginnings have different results
	var fm []string
	for _, n := range names {
		if _, ok := r.eng.fmts[n]; ok {
			fm = append(fm, n)
		}
	}
	apart := func(x, y string) bool { return !strings.HasPrefix(x, y) && !strings.HasPrefix(y, x) }
	if len(fm) > 0 {
		b.WriteString("(declare-fun fk! (S) Int)\n")
		for i, n := range fm {
			ok := true
			for _, m := range fm {
				ok = ok && (m == n || apart(r.eng.fmts[n], r.eng.fmts[m]))
			}
			if ok {
				t := q.ops[n]
				vs := argVars(t)
				b.WriteString("(assert " + quantSym(vs, fmt.Sprintf("(= (fk! %s) %d)", applySym(t, vs), i+1), applySym(t, vs)) + ")\n")
			}
		}
		for _, s := range sortedKeys(q.strs) {
			ok := true
			for _, m := range fm {
				ok = ok && r.eng.fmts[m] != "" && !strings.HasPrefix(s, r.eng.fmts[m])
			}
			if ok {
				fmt.Fprintf(&b, "(assert (= (fk! %s) 0))\n", sym(strName(s)))
			}
		}
	}
	// reference kinds
	kinds := 0
	kc := map[string]int{}
	for _, n := range names {
		t := q.ops[n]
		if h := headKind(t); t.Sort == SR && h != "" {
			if h == "al" || h == "clo" {
				h = n
			}
			if _, ok := kc[h]; !ok {
				kinds++
				kc[h] = kinds
			}
		}
	}
	if kinds > 0 {
		b.WriteString("(declare-fun hk! (R) Int)\n")
		for _, n := range names {
			t := q.ops[n]
			if t.Sort != SR || headKind(t) == "" {
				continue
			}
			h := headKind(t)
			if h == "al" || h == "clo" {
				h = n
			}
			vs := argVars(t)
			f := fmt.Sprintf("(= (hk! %s) %d)", applySym(t, vs), kc[h])
			b.WriteString("(assert " + quantSym(vs, f, applySym(t, vs)) + ")\n")
		}
	}
	// shared ground terms
	cnt := map[int]int{}
	visit(all, func(t *Term) {
		for _, a := range t.Args {
			cnt[a.id]++
		}
	})
	defs := map[int]string{}
	visit(all, func(t *Term) {
		if t.vars == nil && cnt[t.id] > 1 && t.size > 6 && t.Kind != KForall && t.Kind != KExists {
			n := fmt.Sprintf("d!%d", t.id)
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, t.Sort.smt(), smtTerm(t, defs))
			defs[t.id] = n
		}
	})
	for _, t := range all {
		fmt.Fprintf(&b, "(assert %s)\n", smtTerm(t, defs))
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

func argVars(t *Term) []*Term {
	var vs []*Term
	for i, a := range t.Args {
		vs = append(vs, Var(fmt.Sprintf("a%d%c", i, a.Sort), a.Sort))
	}
	return vs
}

func applySym(t *Term, vs []*Term) string {
	if len(vs) == 0 {
		return sym(t.Op)
	}
	s := "(" + sym(t.Op)
	for _, v := range vs {
		s += " " + v.Op
	}
	return s + ")"
}

func quantSym(vs []*Term, f, pat string) string {
	if len(vs) == 0 {
		return f
	}
	s := "(forall ("
	for _, v := range vs {
		s += "(" + v.Op + " " + v.Sort.smt() + ")"
	}
	return s + ") (! " + f + " :pattern (" + pat + ")))"
}

// mkApp builds an application without simplification
func mkApp(op string, s Sort, args ...*Term) *Term {
	return mk(&Term{Kind: KApp, Op: op, Sort: s, Args: args})
}

// opAxioms: what is known of a function symbol
func (r *Run) opAxioms(t *Term) []*Term {
	var out []*Term
	vs := argVars(t)
	app := mkApp(t.Op, t.Sort, vs...)
	rawEq := func(a, b *Term) *Term { return op("=", SB, a, b) }
	old := func(x *Term) *Term { return mkApp("old!", SB, x) }
	wire := func(x *Term) *Term { return mkApp("wire!", SB, x) }
	pat := func(f *Term) { out = append(out, ForallP(vs, f, app)) }
	if injective[t.Op] || isAlloc(t) {
		for k, v := range vs {
			n := fmt.Sprintf("inv!%s.%d", t.Op, k)
			pat(rawEq(mkApp(n, v.Sort, app), v))
		}
	}
	if t.Sort == SR {
		switch h := headKind(t); {
		case h == "nil":
			out = append(out, old(Nil))
		case h == "al":
			pat(Not(old(app)))
		case h == "el" || strings.HasPrefix(h, "fa!"):
			pat(rawEq(old(app), old(vs[0])))
		case h != "" && len(vs) == 0:
			out = append(out, old(app))
		}
	}
	if t.Op == "wire!" {
		x := vs[0]
		out = append(out, ForallP(vs, Implies(old(x), wire(x)), app))
	}
	if strings.HasPrefix(t.Op, "h.") {
		a := r.arrs[strings.TrimPrefix(t.Op, "h.")]
		if a != nil {
			out = append(out, r.baseAxioms(a, vs, app)...)
		}
	}
	return out
}

// ForallP is a quantifier with a trigger
func ForallP(vs []*Term, f, trig *Term) *Term {
	if f == True || len(vs) == 0 {
		return f
	}
	return mk(&Term{Kind: KForall, Sort: SB, Vars: vs, Args: []*Term{op("!pat", SB, f, trig)}})
}

func (r *Run) baseAxioms(a *Arr, vs []*Term, app *Term) []*Term {
	var out []*Term
	add := func(f *Term) { out = append(out, ForallP(vs, f, app)) }
	raw := func(o string, args ...*Term) *Term { return op(o, SB, args...) }
	if a.Sort == SR && len(vs) > 0 && vs[0].Sort == SR {
		add(Implies(mkApp("old!", SB, vs[0]), mkApp("old!", SB, app)))
		if a.Kind == "field" || a.Kind == "el" {
			add(Implies(mkApp("wire!", SB, vs[0]), mkApp("wire!", SB, app)))
		}
	}
	if a.Kind != "ghost" && len(vs) > 0 && vs[0].Sort == SR {
		nilapp := mk(&Term{Kind: KApp, Op: app.Op, Sort: app.Sort, Args: append([]*Term{Nil}, vs[1:]...)})
		out = append(out, ForallP(vs[1:], raw("=", nilapp, zeroSort(app.Sort)), nilapp))
	}
	if a.Typ == nil {
		return out
	}
	if a.Kind == "ghost" {
		return out
	}
	ls := layout(a.Typ)
	if len(ls) <= a.Comp {
		return out
	}
	base := strings.TrimSuffix(a.Base, ls[a.Comp].Path)
	sib := func(k int) *Term { return mkApp(base+ls[k].Path, ls[k].Sort, vs...) }
	switch u := a.Typ.Underlying().(type) {
	case *types.Slice:
		if len(ls) == 3 && a.Comp > 0 {
			add(raw("<=", Zero, app))
			if a.Comp == 2 {
				add(Implies(raw("=", sib(0), Nil), raw("=", app, Zero)))
			}
		}
	case *types.Interface:
		if a.Comp == 0 {
			add(Implies(raw("=", app, Zero), raw("=", sib(1), Nil)))
			if impls, closed := r.eng.closedImpls(a.Typ); closed {
				cs := []*Term{raw("=", app, Zero)}
				for _, c := range impls {
					cs = append(cs, raw("=", app, r.eng.tagOf(c)))
				}
				add(Or(cs...))
				add(Or(raw("=", app, Zero), Not(raw("=", sib(1), Nil))))
			}
		}
	case *types.Pointer:
		isMsg := r.eng.isMessage(u.Elem())
		if a.Kind == "el" && isMsg {
			add(Implies(And(mkApp("wire!", SB, vs[0]), Not(raw("=", vs[0], Nil))), Not(raw("=", app, Nil))))
		}
		if a.Kind == "field" && a.Own != nil && isOneofWrapper(a.Own) && isMsg {
			add(Implies(And(mkApp("wire!", SB, vs[0]), Not(raw("=", vs[0], Nil))), Not(raw("=", app, Nil))))
		}
	case *types.Basic:
		if u.Info()&types.IsUnsigned != 0 {
			add(raw("<=", Zero, app))
		}
	}
	return out
}

func (e *Engine) isMessage(t types.Type) bool {
	return types.NewMethodSet(types.NewPointer(t)).Lookup(nil, "ProtoReflect") != nil
}

type result struct {
	status string // discharged, failed, vacuous, reachable
	solver string
	secs   float64
	detail string
}

type solver struct {
	name string
	args func(file string, secs int) []string
}

var z3path = func() string {
	if p, err := exec.LookPath("z3-new"); err == nil {
		return p
	}
	return "z3"
}()

var solvers = []solver{
	{"z3", func(f string, s int) []string { return []string{z3path, "-smt2", fmt.Sprintf("-T:%d", s), f} }},
	{"z3-nombqi", func(f string, s int) []string {
		return []string{z3path, "-smt2", fmt.Sprintf("-T:%d", s), "smt.mbqi=false", "smt.relevancy=0", f}
	}},
	{"cvc5", func(f string, s int) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", s*1000), "--full-saturate-quant", f}
	}},
	{"z3-eager", func(f string, s int) []string {
		return []string{"z3", "-smt2", fmt.Sprintf("-T:%d", s), "smt.mbqi=false", "smt.qi.eager_threshold=20", f}
	}},
	{"z3-split", func(f string, s int) []string {
		return []string{z3path, "-smt2", fmt.Sprintf("-T:%d", s), "auto_config=false", "smt.mbqi=false", "smt.case_split=3", f}
	}},
	{"z3-eager7", func(f string, s int) []string {
		return []string{z3path, "-smt2", fmt.Sprintf("-T:%d", s), "smt.mbqi=false", "smt.qi.eager_threshold=7", "smt.random_seed=5", f}
	}},
}

// at most so many solver processes at a time
var procs = make(chan bool, 8)

func runSolver(ctx context.Context, s solver, file string, secs int) (string, string) {
	procs <- true
	defer func() { <-procs }()
	if ctx.Err() != nil {
		return "timeout", ""
	}
	a := s.args(file, secs)
	cmd := exec.CommandContext(ctx, a[0], a[1:]...)
	var o bytes.Buffer
	cmd.Stdout = &o
	cmd.Stderr = &o
	cmd.Run()
	for _, l := range strings.Split(o.String(), "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" || l == "unknown" {
			return l, o.String()
		}
	}
	if strings.Contains(o.String(), "error") {
		return "error", o.String()
	}
	return "timeout", o.String()
}

func solve(dir string, n string, text string, vacuity bool, first, rest int) result {
	file := filepath.Join(dir, n+".smt2")
	os.WriteFile(file, []byte(text), 0o644)
	t0 := time.Now()
	if vacuity {
		st, out := runSolver(context.Background(), solvers[1], file, 2)
		if st == "unsat" {
			return result{"vacuous", "z3", time.Since(t0).Seconds(), "the assumptions are contradictory"}
		}
		if st == "error" {
			return result{"failed", "z3", time.Since(t0).Seconds(), clip(out)}
		}
		return result{"reachable", "z3", time.Since(t0).Seconds(), st}
	}
	st, out := runSolver(context.Background(), solvers[1], file, first)
	if st == "unsat" {
		return result{"discharged", "z3", time.Since(t0).Seconds(), ""}
	}
	if st == "error" {
		return result{"failed", "z3", time.Since(t0).Seconds(), clip(out)}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type ans struct {
		s, st, out string
	}
	ch := make(chan ans, len(solvers))
	var wg sync.WaitGroup
	var use []solver
	use = append(use, solvers[3], solvers[0], solvers[2], solvers[5], solvers[4])
	if st == "timeout" {
		use = append(use, solvers[1])
	}
	for _, s := range use {
		wg.Add(1)
		go func(s solver) {
			defer wg.Done()
			st, o := runSolver(ctx, s, file, rest)
			ch <- ans{s.name, st, o}
		}(s)
	}
	var why []string
	for range use {
		a := <-ch
		if a.st == "unsat" {
			cancel()
			return result{"discharged", strings.Split(a.s, "-")[0], time.Since(t0).Seconds(), ""}
		}
		why = append(why, a.s+": "+a.st)
		if a.st == "sat" {
			cancel()
			break
		}
	}
	return result{"failed", "", time.Since(t0).Seconds(), strings.Join(why, ", ")}
}

func clip(s string) string {
	if len(s) > 400 {
		s = s[:400]
	}
	return s
}

// propagate simplifies facts with the ground literals among them
func propagate(in []*Term) []*Term {
	known := map[int]*Term{}
	var as []*Term
	for _, t := range in {
		as = append(as, conjs(t)...)
	}
	for round := 0; round < 6; round++ {
		n := len(known)
		lit := map[int]bool{}
		for i, t := range as {
			a, v := t, True
			if a.Kind == KOp && a.Op == "not" {
				a, v = a.Args[0], False
			}
			if a.vars == nil && a.Kind != KForall && a.Kind != KExists && !(a.Kind == KOp && (a.Op == "and" || a.Op == "or" || a.Op == "ite")) && a != True && a != False {
				if known[a.id] == nil {
					known[a.id] = v
				}
				if known[a.id] == v {
					lit[i] = true
				}
			}
		}
		if len(known) == n && round > 0 {
			break
		}
		cache := map[int]*Term{}
		var out []*Term
		seen := map[int]bool{}
		for i, t := range as {
			if !lit[i] {
				t = replaceKnown(t, known, cache)
			}
			for _, c := range conjs(t) {
				if c != True && !seen[c.id] {
					seen[c.id] = true
					out = append(out, c)
				}
			}
		}
		as = out
	}
	return as
}

func replaceKnown(t *Term, known, cache map[int]*Term) *Term {
	if v := known[t.id]; v != nil {
		return v
	}
	if len(t.Args) == 0 {
		return t
	}
	if v := cache[t.id]; v != nil {
		return v
	}
	var as []*Term
	ch := false
	for _, a := range t.Args {
		x := replaceKnown(a, known, cache)
		if x != a {
			ch = true
		}
		as = append(as, x)
	}
	v := t
	if ch {
		v = rebuild(t, as)
	}
	cache[t.id] = v
	return v
}
