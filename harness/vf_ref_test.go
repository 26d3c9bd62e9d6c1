// Executable oracles used to turn a failed obligation into a concrete failing
// input (and as the bounded stand-in for code outside the verifier's reach).
// They are written from the property statements, never from the code.
package test_test

import (
	"fmt"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/sourcenetwork/zanzi/pkg/domain"
)

// ---------------------------------------------------------------- expressions

type rTree struct {
	op          string // "", "+", "&", "-"
	left, right *rTree
	rule        string // "this", "cu", "ttu"
	a, b        string
}

func (t *rTree) String() string {
	if t == nil {
		return "<nil>"
	}
	switch {
	case t.op != "":
		return fmt.Sprintf("(%v %s %v)", t.left, t.op, t.right)
	case t.rule == "this":
		return "_this"
	case t.rule == "cu":
		return fmt.Sprintf("cu:%q", t.a)
	}
	return fmt.Sprintf("ttu:%q:%q", t.a, t.b)
}

type rTok struct{ kind, text string }

func refLex(in string) ([]rTok, bool) {
	var toks []rTok
	rs := in
	for len(rs) > 0 {
		switch {
		case strings.HasPrefix(rs, "->"):
			toks = append(toks, rTok{"->", ""})
			rs = rs[2:]
			continue
		case strings.ContainsRune("+&-()", rune(rs[0])):
			toks = append(toks, rTok{rs[:1], ""})
			rs = rs[1:]
			continue
		}
		r, w := utf8.DecodeRuneInString(rs)
		if unicode.IsSpace(r) {
			rs = rs[w:]
			continue
		}
		n := 0
		for n < len(rs) {
			r, w := utf8.DecodeRuneInString(rs[n:])
			if r == utf8.RuneError && w <= 1 {
				break
			}
			if !(unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_') {
				break
			}
			n += w
		}
		if n == 0 {
			return nil, false
		}
		if rs[:n] == "_this" {
			toks = append(toks, rTok{"this", ""})
		} else {
			toks = append(toks, rTok{"id", rs[:n]})
		}
		rs = rs[n:]
	}
	return toks, true
}

// refParse parses: expr := term (op term)* ; term := _this | id | id->id | "(" expr ")"
func refParse(in string) (*rTree, bool) {
	toks, ok := refLex(in)
	if !ok {
		return nil, false
	}
	pos := 0
	peek := func(k int) string {
		if pos+k < len(toks) {
			return toks[pos+k].kind
		}
		return ""
	}
	var expr func() *rTree
	term := func() *rTree {
		switch {
		case peek(0) == "this":
			pos++
			return &rTree{rule: "this"}
		case peek(0) == "id" && peek(1) == "->" && peek(2) == "id":
			t := &rTree{rule: "ttu", a: toks[pos].text, b: toks[pos+2].text}
			pos += 3
			return t
		case peek(0) == "id":
			t := &rTree{rule: "cu", a: toks[pos].text}
			pos++
			return t
		case peek(0) == "(":
			pos++
			t := expr()
			if t == nil || peek(0) != ")" {
				return nil
			}
			pos++
			return t
		}
		return nil
	}
	expr = func() *rTree {
		acc := term()
		if acc == nil {
			return nil
		}
		for {
			k := peek(0)
			if k != "+" && k != "&" && k != "-" {
				return acc
			}
			pos++
			r := term()
			if r == nil {
				return nil
			}
			acc = &rTree{op: k, left: acc, right: r}
		}
	}
	t := expr()
	if t == nil || pos != len(toks) {
		return nil, false
	}
	return t, true
}

// fromDomainTree maps a structured tree; ok is false if it is incomplete
func fromDomainTree(t *domain.RelationExpressionTree) (*rTree, bool) {
	switch n := t.GetNode().(type) {
	case *domain.RelationExpressionTree_OpNode:
		l, ok1 := fromDomainTree(n.OpNode.GetLeft())
		r, ok2 := fromDomainTree(n.OpNode.GetRight())
		op, ok3 := map[domain.Operator]string{domain.Operator_UNION: "+", domain.Operator_INTERSECTION: "&", domain.Operator_DIFFERENCE: "-"}[n.OpNode.GetOperator()]
		if !ok1 || !ok2 || !ok3 {
			return nil, false
		}
		return &rTree{op: op, left: l, right: r}, true
	case *domain.RelationExpressionTree_Rule:
		switch r := n.Rule.GetRule().(type) {
		case *domain.Rule_This:
			return &rTree{rule: "this"}, true
		case *domain.Rule_Cu:
			return &rTree{rule: "cu", a: r.Cu.GetTargetRelation()}, true
		case *domain.Rule_Ttu:
			return &rTree{rule: "ttu", a: r.Ttu.GetTuplesetRelation(), b: r.Ttu.GetComputedUsersetRelation()}, true
		}
	}
	return nil, false
}

func toDomainTree(t *rTree) *domain.RelationExpressionTree {
	switch {
	case t.op == "+":
		return domain.UnionNode(toDomainTree(t.left), toDomainTree(t.right))
	case t.op == "&":
		return domain.IntersectionNode(toDomainTree(t.left), toDomainTree(t.right))
	case t.op == "-":
		return domain.DifferenceNode(toDomainTree(t.left), toDomainTree(t.right))
	case t.rule == "this":
		return domain.ThisNode()
	case t.rule == "cu":
		return domain.CUNode(t.a)
	}
	return domain.TTUNode(t.a, t.b)
}

func relTree(r *domain.Relation) (*rTree, bool) {
	switch e := r.GetRelationExpression().GetExpression().(type) {
	case *domain.RelationExpression_Expr:
		return refParse(e.Expr)
	case *domain.RelationExpression_Tree:
		return fromDomainTree(e.Tree)
	}
	return nil, false
}

// ---------------------------------------------------------------- policies

func findResource(p *domain.Policy, name string) *domain.Resource {
	for _, r := range p.GetResources() {
		if r.GetName() == name {
			return r
		}
	}
	return nil
}

func findRelation(p *domain.Policy, res, rel string) *domain.Relation {
	for _, r := range p.GetResources() {
		if r.GetName() != res {
			continue
		}
		for _, l := range r.GetRelations() {
			if l.GetName() == rel {
				return l
			}
		}
	}
	return nil
}

// refValidPolicy decides property C14
func refValidPolicy(p *domain.Policy) (string, bool) {
	if p.GetId() == "" {
		return "no id", false
	}
	names := map[string]bool{}
	for _, r := range p.GetResources() {
		if r.GetName() == "" || names[r.GetName()] {
			return "resource name", false
		}
		names[r.GetName()] = true
		rels := map[string]bool{}
		for _, l := range r.GetRelations() {
			if l.GetName() == "" || rels[l.GetName()] {
				return "relation name", false
			}
			rels[l.GetName()] = true
		}
	}
	for _, r := range p.GetResources() {
		for _, l := range r.GetRelations() {
			t, ok := relTree(l)
			if !ok {
				return "expression of " + l.GetName(), false
			}
			bad, isBad := "", false
			var walk func(t *rTree)
			walk = func(t *rTree) {
				if t.op != "" {
					walk(t.left)
					walk(t.right)
				} else if t.rule != "this" && findRelation(p, r.GetName(), t.a) == nil {
					bad, isBad = t.a, true
				}
			}
			walk(t)
			if isBad {
				return "unknown relation " + bad, false
			}
			if l.GetSubjectRestriction() != nil {
				switch s := l.GetSubjectRestriction().GetSubjectRestriction().(type) {
				case *domain.SubjectRestriction_UniversalSet:
				case *domain.SubjectRestriction_RestrictionSet:
					for _, e := range s.RestrictionSet.GetRestrictions() {
						switch x := e.GetEntry().(type) {
						case *domain.SubjectRestrictionSet_Restriction_Entity:
							if findResource(p, x.Entity.GetResourceName()) == nil {
								return "restriction resource", false
							}
						case *domain.SubjectRestrictionSet_Restriction_EntitySet:
							if findRelation(p, x.EntitySet.GetResourceName(), x.EntitySet.GetRelationName()) == nil {
								return "restriction relation", false
							}
						default:
							return "restriction entry", false
						}
					}
				default:
					return "restriction variant", false
				}
			}
		}
	}
	return "", true
}

// ---------------------------------------------------------------- relationships

const (
	kEntity = iota
	kSet
	kWild
)

type mRel struct {
	ORes, OId, Rel  string
	Kind            int
	SRes, SId, SRel string
}

func (m mRel) String() string {
	s := fmt.Sprintf("%q:%q#%q@", m.ORes, m.OId, m.Rel)
	switch m.Kind {
	case kEntity:
		return s + fmt.Sprintf("%q:%q", m.SRes, m.SId)
	case kSet:
		return s + fmt.Sprintf("%q:%q#%q", m.SRes, m.SId, m.SRel)
	}
	return s + fmt.Sprintf("%q:*", m.SRes)
}

func (m mRel) domain() *domain.Relationship {
	r := &domain.Relationship{Object: domain.NewEntity(m.ORes, m.OId), Relation: m.Rel}
	switch m.Kind {
	case kEntity:
		r.Subject = &domain.Subject{Subject: &domain.Subject_Entity{Entity: domain.NewEntity(m.SRes, m.SId)}}
	case kSet:
		r.Subject = &domain.Subject{Subject: &domain.Subject_EntitySet{EntitySet: &domain.EntitySet{Entity: domain.NewEntity(m.SRes, m.SId), Relation: m.SRel}}}
	default:
		r.Subject = &domain.Subject{Subject: &domain.Subject_ResourceSet{ResourceSet: &domain.ResourceSet{ResourceName: m.SRes}}}
	}
	return r
}

// fromDomainRel maps a relationship; ok is false if it is incomplete
func fromDomainRel(r *domain.Relationship) (m mRel, ok bool) {
	m = mRel{ORes: r.GetObject().GetResource(), OId: r.GetObject().GetId(), Rel: r.GetRelation()}
	ok = m.ORes != "" && m.OId != "" && m.Rel != ""
	switch s := r.GetSubject().GetSubject().(type) {
	case *domain.Subject_Entity:
		m.Kind, m.SRes, m.SId = kEntity, s.Entity.GetResource(), s.Entity.GetId()
		ok = ok && m.SRes != "" && m.SId != ""
	case *domain.Subject_EntitySet:
		m.Kind, m.SRes, m.SId, m.SRel = kSet, s.EntitySet.GetEntity().GetResource(), s.EntitySet.GetEntity().GetId(), s.EntitySet.GetRelation()
		ok = ok && m.SRes != "" && m.SId != "" && m.SRel != ""
	case *domain.Subject_ResourceSet:
		m.Kind, m.SRes = kWild, s.ResourceSet.GetResourceName()
		ok = ok && m.SRes != ""
	default:
		return m, false
	}
	return m, ok
}

// refAllowed decides property C06 (the policy exists and the relationship is complete)
func refAllowed(p *domain.Policy, m mRel) bool {
	rel := findRelation(p, m.ORes, m.Rel)
	if rel == nil {
		return false
	}
	if m.Kind == kSet {
		if findRelation(p, m.SRes, m.SRel) == nil {
			return false
		}
	} else if findResource(p, m.SRes) == nil {
		return false
	}
	switch s := rel.GetSubjectRestriction().GetSubjectRestriction().(type) {
	case *domain.SubjectRestriction_UniversalSet:
		return true
	case *domain.SubjectRestriction_RestrictionSet:
		for _, e := range s.RestrictionSet.GetRestrictions() {
			switch x := e.GetEntry().(type) {
			case *domain.SubjectRestrictionSet_Restriction_Entity:
				if m.Kind != kSet && x.Entity.GetResourceName() == m.SRes {
					return true
				}
			case *domain.SubjectRestrictionSet_Restriction_EntitySet:
				if m.Kind == kSet && x.EntitySet.GetResourceName() == m.SRes && x.EntitySet.GetRelationName() == m.SRel {
					return true
				}
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- selectors

func selectorComplete(s *domain.RelationshipSelector) bool {
	return s.GetObjectSelector().GetSelector() != nil && s.GetRelationSelector().GetSelector() != nil && s.GetSubjectSelector().GetSelector() != nil
}

func subjectResource(s *domain.Subject) string {
	switch x := s.GetSubject().(type) {
	case *domain.Subject_Entity:
		return x.Entity.GetResource()
	case *domain.Subject_EntitySet:
		return x.EntitySet.GetEntity().GetResource()
	case *domain.Subject_ResourceSet:
		return x.ResourceSet.GetResourceName()
	}
	return ""
}

// refValidSelector decides property C19 for an existing policy
func refValidSelector(p *domain.Policy, s *domain.RelationshipSelector) bool {
	if !selectorComplete(s) {
		return false
	}
	objRes, anyObj := "", false
	switch o := s.ObjectSelector.Selector.(type) {
	case *domain.ObjectSelector_Wildcard:
		anyObj = true
	case *domain.ObjectSelector_ObjectSpec:
		objRes = o.ObjectSpec.GetResource()
	case *domain.ObjectSelector_ResourceSpec:
		objRes = o.ResourceSpec
	}
	if !anyObj && findResource(p, objRes) == nil {
		return false
	}
	if n, ok := s.RelationSelector.Selector.(*domain.RelationSelector_RelationName); ok {
		if anyObj {
			found := false
			for _, r := range p.GetResources() {
				found = found || findRelation(p, r.GetName(), n.RelationName) != nil
			}
			if !found {
				return false
			}
		} else if findRelation(p, objRes, n.RelationName) == nil {
			return false
		}
	}
	switch o := s.SubjectSelector.Selector.(type) {
	case *domain.SubjectSelector_SubjectSpec:
		return findResource(p, subjectResource(o.SubjectSpec)) != nil
	case *domain.SubjectSelector_ResourceSpec:
		return findResource(p, o.ResourceSpec) != nil
	}
	return true
}

// refMatches decides whether m satisfies a complete selector (property C10)
func refMatches(s *domain.RelationshipSelector, m mRel) bool {
	switch o := s.ObjectSelector.Selector.(type) {
	case *domain.ObjectSelector_ObjectSpec:
		if o.ObjectSpec.GetResource() != m.ORes || o.ObjectSpec.GetId() != m.OId {
			return false
		}
	case *domain.ObjectSelector_ResourceSpec:
		if o.ResourceSpec != m.ORes {
			return false
		}
	}
	if n, ok := s.RelationSelector.Selector.(*domain.RelationSelector_RelationName); ok && n.RelationName != m.Rel {
		return false
	}
	switch o := s.SubjectSelector.Selector.(type) {
	case *domain.SubjectSelector_ResourceSpec:
		return o.ResourceSpec == m.SRes
	case *domain.SubjectSelector_SubjectSpec:
		switch x := o.SubjectSpec.GetSubject().(type) {
		case *domain.Subject_Entity:
			return m.Kind == kEntity && x.Entity.GetResource() == m.SRes && x.Entity.GetId() == m.SId
		case *domain.Subject_EntitySet:
			return m.Kind == kSet && x.EntitySet.GetEntity().GetResource() == m.SRes && x.EntitySet.GetEntity().GetId() == m.SId && x.EntitySet.GetRelation() == m.SRel
		case *domain.Subject_ResourceSet:
			return m.Kind == kWild && x.ResourceSet.GetResourceName() == m.SRes
		}
		return false
	}
	return true
}

// ---------------------------------------------------------------- graph semantics

type gNode struct {
	kind         int // kEntity, kSet, kWild
	res, id, rel string
}

func (n gNode) pretty() string {
	switch n.kind {
	case kWild:
		return fmt.Sprintf("(%v:*)", n.res)
	case kSet:
		if n.rel != "" {
			return fmt.Sprintf("(%v:%v, %v)", n.res, n.id, n.rel)
		}
	}
	return fmt.Sprintf("(%v:%v)", n.res, n.id)
}

func (m mRel) source() gNode { return gNode{kSet, m.ORes, m.OId, m.Rel} }
func (m mRel) dest() gNode {
	if m.Kind == kWild {
		return gNode{kWild, m.SRes, "", ""}
	}
	return gNode{m.Kind, m.SRes, m.SId, m.SRel}
}

type graph struct {
	pol  *domain.Policy
	succ map[gNode][]gNode
}

func newGraph(p *domain.Policy, rels map[mRel]*mRec) *graph {
	g := &graph{pol: p, succ: map[gNode][]gNode{}}
	for r := range rels {
		g.succ[r.source()] = append(g.succ[r.source()], r.dest())
	}
	for k := range g.succ {
		s := g.succ[k]
		sort.Slice(s, func(i, j int) bool { return fmt.Sprint(s[i]) < fmt.Sprint(s[j]) })
	}
	return g
}

// formula of a set node
type form struct {
	op   string // "or" (rule), "+", "&", "-", "bad"
	subs []*form
	node *gNode // for leafs of a rule
}

func (g *graph) ruleNodes(t *rTree, n gNode) ([]gNode, bool) {
	switch t.rule {
	case "this":
		return g.succ[n], true
	case "cu":
		return []gNode{{kSet, n.res, n.id, t.a}}, true
	}
	var out []gNode
	for _, s := range g.succ[gNode{kSet, n.res, n.id, t.a}] {
		if s.kind == kWild {
			return nil, false
		}
		out = append(out, gNode{kSet, s.res, s.id, t.b})
	}
	return out, true
}

func (g *graph) formula(n gNode) *form {
	rel := findRelation(g.pol, n.res, n.rel)
	if rel == nil {
		return &form{op: "bad"}
	}
	t, ok := relTree(rel)
	if !ok {
		return &form{op: "bad"}
	}
	var build func(t *rTree) *form
	build = func(t *rTree) *form {
		if t.op != "" {
			return &form{op: t.op, subs: []*form{build(t.left), build(t.right)}}
		}
		ns, ok := g.ruleNodes(t, n)
		if !ok {
			return &form{op: "bad"}
		}
		f := &form{op: "or"}
		for i := range ns {
			f.subs = append(f.subs, &form{node: &ns[i]})
		}
		return f
	}
	return build(t)
}

type decision struct {
	bad          bool // an unevaluable node is reachable
	unstratified bool
	lo, hi       bool // decision with unevaluable sets empty / full
}

// decide computes the least solution for one subject (property C01)
func (g *graph) decide(root gNode, subj gNode) decision {
	forms := map[gNode]*form{}
	var order []gNode
	type edge struct {
		to  gNode
		neg bool
	}
	deps := map[gNode][]edge{}
	var d decision
	var visit func(n gNode)
	var collect func(n gNode, f *form, neg bool)
	collect = func(n gNode, f *form, neg bool) {
		if f.op == "bad" {
			d.bad = true
			return
		}
		if f.node != nil {
			if f.node.kind == kSet {
				deps[n] = append(deps[n], edge{*f.node, neg})
				visit(*f.node)
			}
			return
		}
		for i, s := range f.subs {
			collect(n, s, neg || (f.op == "-" && i == 1))
		}
	}
	visit = func(n gNode) {
		if _, ok := forms[n]; ok {
			return
		}
		f := g.formula(n)
		forms[n] = f
		collect(n, f, false)
		order = append(order, n)
	}
	visit(root)

	// strongly connected components (Tarjan)
	idx, low, comp := map[gNode]int{}, map[gNode]int{}, map[gNode]int{}
	on := map[gNode]bool{}
	var stack []gNode
	next, nc := 0, 0
	var comps [][]gNode
	var scc func(n gNode)
	scc = func(n gNode) {
		idx[n], low[n] = next, next
		next++
		stack = append(stack, n)
		on[n] = true
		for _, e := range deps[n] {
			if _, ok := idx[e.to]; !ok {
				scc(e.to)
				low[n] = min(low[n], low[e.to])
			} else if on[e.to] {
				low[n] = min(low[n], idx[e.to])
			}
		}
		if low[n] == idx[n] {
			var c []gNode
			for {
				m := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[m] = false
				comp[m] = nc
				c = append(c, m)
				if m == n {
					break
				}
			}
			comps = append(comps, c)
			nc++
		}
	}
	scc(root)
	for n, es := range deps {
		for _, e := range es {
			if e.neg && comp[n] == comp[e.to] {
				d.unstratified = true
			}
		}
	}
	eval := func(badVal bool) bool {
		val := map[gNode]bool{}
		var ev func(f *form) bool
		ev = func(f *form) bool {
			switch {
			case f.op == "bad":
				return badVal
			case f.node != nil:
				switch f.node.kind {
				case kSet:
					return val[*f.node]
				case kWild:
					return f.node.res == subj.res
				}
				return f.node.res == subj.res && f.node.id == subj.id
			case f.op == "-":
				return ev(f.subs[0]) && !ev(f.subs[1])
			case f.op == "&":
				return ev(f.subs[0]) && ev(f.subs[1])
			}
			r := false
			for _, s := range f.subs {
				r = ev(s) || r
			}
			return r
		}
		for _, c := range comps { // dependencies come first
			for changed := true; changed; {
				changed = false
				for _, n := range c {
					if v := ev(forms[n]); v && !val[n] {
						val[n] = true
						changed = true
					}
				}
			}
		}
		return val[root]
	}
	if !d.unstratified {
		d.lo, d.hi = eval(false), eval(true)
	}
	return d
}

// expected shape of Expand's goal tree (property C04); children of a rule are sorted
type xTree struct {
	kind string // PathNode, ORNode, ANDNode, DifferenceNode
	node string
	subs []*xTree
}

func (t *xTree) canon() string {
	if t == nil {
		return "-"
	}
	parts := make([]string, len(t.subs))
	for i, s := range t.subs {
		parts[i] = s.canon()
	}
	if t.kind == "ORNode" || t.kind == "ANDNode" {
		sort.Strings(parts)
	}
	return t.kind + t.node + "[" + strings.Join(parts, " ") + "]"
}

// expand returns nil when an unevaluable node is met; over when the tree gets too large
func (g *graph) expand(root gNode, budget *int) (t *xTree, bad bool, over bool) {
	trail := map[gNode]bool{}
	var path func(n gNode) *xTree
	path = func(n gNode) *xTree {
		*budget--
		if *budget < 0 {
			over = true
			return nil
		}
		x := &xTree{kind: "PathNode", node: n.pretty()}
		if n.kind != kSet || trail[n] {
			return x
		}
		trail[n] = true
		defer delete(trail, n)
		var conv func(f *form) *xTree
		conv = func(f *form) *xTree {
			if over || bad {
				return nil
			}
			switch {
			case f.op == "bad":
				bad = true
				return nil
			case f.node != nil:
				return path(*f.node)
			}
			k := map[string]string{"or": "ORNode", "+": "ORNode", "&": "ANDNode", "-": "DifferenceNode"}[f.op]
			y := &xTree{kind: k}
			for _, s := range f.subs {
				y.subs = append(y.subs, conv(s))
			}
			return y
		}
		x.subs = append(x.subs, conv(g.formula(n)))
		return x
	}
	t = path(root)
	return t, bad, over
}
