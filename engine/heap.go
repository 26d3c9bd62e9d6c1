package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Val is a Go value flattened to its components.
type Val []*Term

type Leaf struct {
	Path string
	Sort Sort
}

var layouts = map[types.Type][]Leaf{}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func isErrorType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// internal state of protobuf messages has no components
func skipField(f *types.Var) bool {
	n, ok := f.Type().(*types.Named)
	if ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "google.golang.org/protobuf/internal") {
		return true
	}
	return f.Name() == "sizeCache" || f.Name() == "unknownFields" || f.Name() == "state"
}

func layout(t types.Type) []Leaf {
	if l, ok := layouts[t]; ok {
		return l
	}
	var out []Leaf
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			out = []Leaf{{"", SB}}
		case u.Info()&types.IsInteger != 0:
			out = []Leaf{{"", SI}}
		case u.Info()&types.IsString != 0:
			out = []Leaf{{"", SS}}
		default:
			out = []Leaf{{"", SR}}
		}
	case *types.Slice:
		if isByteSlice(t) {
			out = []Leaf{{"", SS}}
		} else {
			out = []Leaf{{".seq", SR}, {".$off", SI}, {".len", SI}}
		}
	case *types.Interface:
		out = []Leaf{{".tag", SI}, {".ref", SR}}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if skipField(f) {
				continue
			}
			for _, l := range layout(f.Type()) {
				out = append(out, Leaf{"." + f.Name() + l.Path, l.Sort})
			}
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			for _, l := range layout(u.At(i).Type()) {
				out = append(out, Leaf{fmt.Sprintf(".%d%s", i, l.Path), l.Sort})
			}
		}
	default:
		out = []Leaf{{"", SR}}
	}
	layouts[t] = out
	return out
}

func zeroSort(s Sort) *Term {
	switch s {
	case SB:
		return False
	case SI:
		return Zero
	case SS:
		return Str("")
	}
	return Nil
}

func zeroVal(t types.Type) Val {
	var v Val
	for _, l := range layout(t) {
		v = append(v, zeroSort(l.Sort))
	}
	return v
}

// fieldRange returns the component range of field i of struct type t
func fieldRange(t types.Type, i int) (int, int) {
	st := t.Underlying().(*types.Struct)
	n := 0
	for k := 0; k < i; k++ {
		if !skipField(st.Field(k)) {
			n += len(layout(st.Field(k).Type()))
		}
	}
	m := 0
	if !skipField(st.Field(i)) {
		m = len(layout(st.Field(i).Type()))
	}
	return n, n + m
}

func tupleRange(t *types.Tuple, i int) (int, int) {
	n := 0
	for k := 0; k < i; k++ {
		n += len(layout(t.At(k).Type()))
	}
	return n, n + len(layout(t.At(i).Type()))
}

func typeName(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		return "*" + typeName(p.Elem())
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// arr describes one array of the heap: a field, element, cell, map or ghost array component.
type Arr struct {
	Name string
	Keys []Sort
	Sort Sort
	Kind string     // field, el, cell, mapval, maphas, ghost, hash
	Typ  types.Type // type of the leaf (field/element type), for wire invariants
	Comp int
	Own  types.Type // struct owning the field
	Log  []*Entry
	Base string
}

// Entry is one write, or a bulk write when bulk is set.
type Entry struct {
	seq   int
	guard *Term
	keys  []*Term
	val   *Term
	vars  []*Term // bulk: key variables; has and val range over them
	has   *Term
	tag   string
}

func (r *Run) arr(name string, kind string, keys []Sort, s Sort, typ types.Type, comp int, own types.Type) *Arr {
	a, ok := r.arrs[name]
	if !ok {
		a = &Arr{Name: name, Keys: keys, Sort: s, Kind: kind, Typ: typ, Comp: comp, Own: own, Base: "h." + name}
		r.arrs[name] = a
		r.arrOrder = append(r.arrOrder, name)
		if s == SR {
			inputFn[a.Base] = true
		}
	}
	return a
}

func fieldArrName(own types.Type, f string) string { return typeName(own) + "." + f }

var kR = []Sort{SR}
var kRI = []Sort{SR, SI}

// leafArrs returns the arrays that hold a leaf-typed location, with its keys, from its address.
func (r *Run) locate(addr *Term, t types.Type) (arrs []*Arr, keys []*Term) {
	ls := layout(t)
	if addr.Kind == KApp && strings.HasPrefix(addr.Op, "fa!") {
		fi := r.eng.fieldOf[addr.Op]
		for k, l := range ls {
			arrs = append(arrs, r.arr(fieldArrName(fi.own, fi.name)+l.Path, "field", kR, l.Sort, t, k, fi.own))
		}
		return arrs, addr.Args
	}
	if addr.Kind == KApp && addr.Op == "el!" {
		for k, l := range ls {
			arrs = append(arrs, r.arr("el."+typeName(t)+l.Path, "el", kRI, l.Sort, t, k, nil))
		}
		return arrs, addr.Args
	}
	for k, l := range ls {
		arrs = append(arrs, r.arr("cell."+typeName(t)+l.Path, "cell", kR, l.Sort, t, k, nil))
	}
	return arrs, []*Term{addr}
}

type fieldInfo struct {
	own  types.Type
	name string
}

func (e *Engine) faName(own types.Type, f string) string {
	n := "fa!" + typeName(own) + "." + f
	if _, ok := e.fieldOf[n]; !ok {
		e.fieldOf[n] = fieldInfo{own, f}
		injective[n] = true
	}
	return n
}

func fieldAddr(e *Engine, own types.Type, f string, base *Term) *Term {
	if base.Kind == KOp && base.Op == "ite" {
		return Ite(base.Args[0], fieldAddr(e, own, f, base.Args[1]), fieldAddr(e, own, f, base.Args[2]))
	}
	return App(e.faName(own, f), SR, base)
}

func (r *Run) load(addr *Term, t types.Type, g *Term, limit int) Val {
	if st, ok := t.Underlying().(*types.Struct); ok {
		var v Val
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if skipField(f) {
				continue
			}
			v = append(v, r.load(fieldAddr(r.eng, t, f.Name(), addr), f.Type(), g, limit)...)
		}
		return v
	}
	if addr.Kind == KOp && addr.Op == "ite" && hasLeafHead(addr) {
		a := r.load(addr.Args[1], t, g, limit)
		b := r.load(addr.Args[2], t, g, limit)
		return iteVal(addr.Args[0], a, b)
	}
	arrs, keys := r.locate(addr, t)
	var v Val
	for _, a := range arrs {
		v = append(v, r.read(a, keys, g, limit))
	}
	return v
}

func hasLeafHead(t *Term) bool {
	if t.Kind == KOp && t.Op == "ite" {
		return hasLeafHead(t.Args[1]) || hasLeafHead(t.Args[2])
	}
	return t.Kind == KApp && (strings.HasPrefix(t.Op, "fa!") || t.Op == "el!")
}

func (r *Run) store(addr *Term, t types.Type, v Val, g *Term) {
	if st, ok := t.Underlying().(*types.Struct); ok {
		n := 0
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if skipField(f) {
				continue
			}
			k := len(layout(f.Type()))
			r.store(fieldAddr(r.eng, t, f.Name(), addr), f.Type(), v[n:n+k], g)
			n += k
		}
		return
	}
	if addr.Kind == KOp && addr.Op == "ite" && hasLeafHead(addr) {
		r.store(addr.Args[1], t, v, And(g, addr.Args[0]))
		r.store(addr.Args[2], t, v, And(g, Not(addr.Args[0])))
		return
	}
	arrs, keys := r.locate(addr, t)
	for i, a := range arrs {
		r.write(a, keys, v[i], g)
	}
}

func (r *Run) write(a *Arr, keys []*Term, val, g *Term) {
	if len(keys) > 0 && keys[0].Kind == KOp && keys[0].Op == "ite" && keys[0].size < 60 {
		k := keys[0]
		rest := keys[1:]
		r.write(a, append([]*Term{k.Args[1]}, rest...), val, And(g, k.Args[0]))
		r.write(a, append([]*Term{k.Args[2]}, rest...), val, And(g, Not(k.Args[0])))
		return
	}
	r.seq++
	a.Log = append(a.Log, &Entry{seq: r.seq, guard: g, keys: keys, val: val})
}

func (r *Run) havocArr(a *Arr, g *Term, tag string) {
	n := r.freshName("hv." + a.Name)
	kv := r.keyVars(a)
	r.bulkEntry(a, g, kv, True, App(n, a.Sort, append(r.idxArgs(), kv...)...), tag)
}

func (e *Entry) at(keys []*Term) (*Term, *Term) {
	if e.vars == nil {
		return eqKeys(e.keys, keys), e.val
	}
	m := map[string]*Term{}
	for i, v := range e.vars {
		m[v.Op] = keys[i]
	}
	h := Subst(e.has, m)
	if h == False {
		return False, nil
	}
	return h, Subst(e.val, m)
}

// locals of specification code are visible whatever state is being read
func specLocal(e *Entry) bool {
	return e.vars == nil && len(e.keys) > 0 && isSpecRef(e.keys[0])
}

func isSpecRef(t *Term) bool {
	if t.Kind != KApp {
		return false
	}
	if strings.HasPrefix(t.Op, "al!sp") {
		return true
	}
	return (strings.HasPrefix(t.Op, "fa!") || t.Op == "el!") && isSpecRef(t.Args[0])
}

func eqKeys(a, b []*Term) *Term {
	var cs []*Term
	for i := range a {
		c := Eq(a[i], b[i])
		if c == False {
			return False
		}
		cs = append(cs, c)
	}
	return And(cs...)
}

const noLimit = 1 << 60

func (r *Run) read(a *Arr, keys []*Term, g *Term, limit int) *Term {
	// reads through a conditional reference are conditional reads
	if len(keys) > 0 && keys[0].Kind == KOp && keys[0].Op == "ite" && keys[0].size < 200 {
		k := keys[0]
		rest := keys[1:]
		x := r.read(a, append([]*Term{k.Args[1]}, rest...), And(g, k.Args[0]), limit)
		y := r.read(a, append([]*Term{k.Args[2]}, rest...), And(g, Not(k.Args[0])), limit)
		return Ite(k.Args[0], x, y)
	}
	type alt struct{ c, v *Term }
	var alts []alt
	var bottom *Term
	known := g
	for i := len(a.Log) - 1; i >= 0; i-- {
		e := a.Log[i]
		if e.seq > limit && !specLocal(e) {
			continue
		}
		eg := under(e.guard, known)
		if eg == False {
			continue
		}
		c, v := e.at(keys)
		if c == False {
			continue
		}
		c = under(And(eg, c), known)
		if c == False {
			continue
		}
		if c == True {
			bottom = v
			break
		}
		alts = append(alts, alt{c, v})
	}
	if bottom == nil {
		bottom = r.base(a, keys)
	}
	t := bottom
	for i := len(alts) - 1; i >= 0; i-- {
		t = Ite(alts[i].c, alts[i].v, t)
	}
	return t
}

// slices in memory start at offset 0 of a sequence of their own: they are values (see append value semantics)
func (r *Run) base(a *Arr, keys []*Term) *Term {
	if a.Sort == SI && strings.HasSuffix(a.Name, ".$off") {
		return Zero
	}
	return App(a.Base, a.Sort, keys...)
}

var conjCache = map[int]map[int]bool{}

func conjs(t *Term) []*Term {
	if t.Kind == KOp && t.Op == "and" {
		return t.Args
	}
	return []*Term{t}
}

func conjSet(t *Term) map[int]bool {
	if s, ok := conjCache[t.id]; ok {
		return s
	}
	s := map[int]bool{}
	for _, c := range conjs(t) {
		s[c.id] = true
	}
	conjCache[t.id] = s
	return s
}

// under simplifies guard t knowing that g holds
func under(t, g *Term) *Term {
	if t == True || t == False {
		return t
	}
	ks := conjSet(g)
	var out []*Term
	for _, c := range conjs(t) {
		if ks[c.id] {
			continue
		}
		if ks[Not(c).id] {
			return False
		}
		if c.Kind == KOp && c.Op == "or" {
			var ds []*Term
			sat := false
			for _, d := range c.Args {
				dd := under(d, g)
				if dd == True {
					sat = true
					break
				}
				if dd != False {
					ds = append(ds, dd)
				}
			}
			if sat {
				continue
			}
			c = Or(ds...)
			if c == False {
				return False
			}
		}
		out = append(out, c)
	}
	return And(out...)
}

// orGuards is a disjunction of path conditions, merging pairs that differ in one literal only
func orGuards(gs []*Term) *Term {
	cur := append([]*Term{}, gs...)
	for changed := true; changed; {
		changed = false
		for i := 0; i < len(cur) && !changed; i++ {
			for j := i + 1; j < len(cur) && !changed; j++ {
				if m := mergeGuards(cur[i], cur[j]); m != nil {
					cur[i] = m
					cur = append(cur[:j], cur[j+1:]...)
					changed = true
				}
			}
		}
	}
	if len(cur) > 1 {
		// factor the common part
		common := map[int]bool{}
		for id := range conjSet(cur[0]) {
			common[id] = true
		}
		for _, g := range cur[1:] {
			s := conjSet(g)
			for id := range common {
				if !s[id] {
					delete(common, id)
				}
			}
		}
		if len(common) > 0 {
			var pre, alts []*Term
			for _, c := range conjs(cur[0]) {
				if common[c.id] {
					pre = append(pre, c)
				}
			}
			for _, g := range cur {
				var rest []*Term
				for _, c := range conjs(g) {
					if !common[c.id] {
						rest = append(rest, c)
					}
				}
				alts = append(alts, And(rest...))
			}
			return And(append(pre, Or(alts...))...)
		}
	}
	return Or(cur...)
}

func mergeGuards(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a == False {
		return b
	}
	if b == False {
		return a
	}
	sa, sb := conjSet(a), conjSet(b)
	var da, db []*Term
	for _, c := range conjs(a) {
		if !sb[c.id] {
			da = append(da, c)
		}
	}
	for _, c := range conjs(b) {
		if !sa[c.id] {
			db = append(db, c)
		}
	}
	if len(da) == 0 { // b implies a
		return a
	}
	if len(db) == 0 {
		return b
	}
	if Not(And(da...)) == And(db...) || And(da...) == Not(And(db...)) {
		var out []*Term
		for _, c := range conjs(a) {
			if sb[c.id] {
				out = append(out, c)
			}
		}
		return And(out...)
	}
	if len(da) == 1 && len(db) == 1 {
		// a switch's chain: (x or p) ... handled by factoring
	}
	return nil
}

func iteVal(c *Term, a, b Val) Val {
	v := make(Val, len(a))
	for i := range a {
		v[i] = Ite(c, a[i], b[i])
	}
	return v
}

func substVal(v Val, m map[string]*Term) Val {
	o := make(Val, len(v))
	for i := range v {
		o[i] = Subst(v[i], m)
	}
	return o
}
