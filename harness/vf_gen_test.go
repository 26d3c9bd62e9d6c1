package test_test

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"google.golang.org/protobuf/proto"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

// dictionary of constants found in the source of the current tree
var dictStr []string
var dictInt []int

func loadDict() {
	var d struct {
		Strings []string
		Ints    []int
	}
	b, err := os.ReadFile(os.Getenv("VF_DICT"))
	if err == nil {
		json.Unmarshal(b, &d)
	}
	for _, s := range d.Strings {
		if s != "" && len(s) < 40 && s == strings.ToValidUTF8(s, "") {
			dictStr = append(dictStr, s)
		}
	}
	for _, n := range d.Ints {
		if n > 1 && n <= 400 {
			dictInt = append(dictInt, n)
		}
	}
	if len(dictInt) == 0 {
		dictInt = []int{2, 10, 16, 64}
	}
}

var idPool = []string{"1", "2", "3", "a", "b", "ab", "c", "bc"}
var hostileIds = []string{"a/b", "a:b", "a#b", "*", "/", " ", "a b", "é", "世界", `"`, `a"b`, `\`, "a\\", "\x00", "a\x00b", "\n", "0", "-1", "A", "a\"\"b", "%s", "%!q", "root", "user", "…", "this", "_this", "10", "01", "1/2", ",", "(", ")", "\u202e", "a/", "/a", "//", "x,y", "nil", "null", "true", "😀"}
var identNames = []string{"user", "group", "doc", "folder", "reader", "owner", "member", "parent", "a", "b", "ab", "c", "bc", "x1", "_x", "_thisx", "_this1", "This", "é", "_", "世", "reader2", "readers", "1", "10", "0"}
var hostileNames = []string{"a/b", "b/c", "a b", `a"`, "a:b", "*", "_this", "re-ader", "a->b", "\\", " ", "a,b", "#", "'", "a\nb", "(", "user ", "User"}

func (h *H) pick(s []string) string { return s[h.rng.Intn(len(s))] }

func (h *H) id() string {
	switch k := h.rng.Intn(20); {
	case k < 13:
		return h.pick(idPool)
	case k < 17:
		return h.pick(hostileIds)
	case k < 18 && len(dictStr) > 0:
		return h.pick(dictStr)
	case k < 19:
		return strings.Repeat(h.pick(idPool), 1+h.rng.Intn(80))
	}
	return h.pick(idPool) + h.pick(hostileIds) + h.pick(idPool)
}

func (h *H) ident() string { return h.pick(identNames) }

func (h *H) polId() string {
	base := []string{"p", "q", "1", "2", "p/", "p/q", "/p", "pp", "P", "70", "7071", "p\x00", `p"`, "p%2F", "2/p", "1/", "/", "p////in/z", "é", " ", "p ", "p\n", "..", "*", "10", "p:q", "p-q", "3/p", "p/2", "a", "ÿ", "\U0010FFFF", "\u007f"}
	switch h.rng.Intn(8) {
	case 0:
		return h.id()
	case 1:
		if len(dictStr) > 0 {
			return h.pick(dictStr)
		}
	case 2:
		return h.pick(base) + h.pick(base)
	}
	return h.pick(base)
}

// genTree draws a rewrite expression over rels
func (h *H) genTree(rels, foreign []string, depth int, diff bool) *rTree {
	if depth == 0 || h.rng.Intn(3) == 0 {
		switch h.rng.Intn(4) {
		case 0, 1:
			return &rTree{rule: "this"}
		case 2:
			return &rTree{rule: "cu", a: h.pick(rels)}
		}
		return &rTree{rule: "ttu", a: h.pick(rels), b: h.pick(append(append([]string{}, rels...), foreign...))}
	}
	ops := []string{"+", "+", "&", "-"}
	if !diff {
		ops = ops[:3]
	}
	return &rTree{op: h.pick(ops), left: h.genTree(rels, foreign, depth-1, diff), right: h.genTree(rels, foreign, depth-1, diff)}
}

func isIdent(s string) bool {
	t, ok := refParse(s)
	return ok && t.rule == "cu" && t.a == s
}

func treeTextable(t *rTree) bool {
	if t.op != "" {
		return treeTextable(t.left) && treeTextable(t.right)
	}
	return t.rule == "this" || isIdent(t.a) && (t.rule == "cu" || isIdent(t.b))
}

// text prints a tree, with free white space and redundant parentheses
func (h *H) text(t *rTree, top bool) string {
	sp := func() string { return h.pick([]string{"", "", " ", "  ", "\t", "\n", "\u00a0"}) }
	var s string
	switch {
	case t.op != "":
		l := h.text(t.left, true)
		if t.left.op != "" && h.rng.Intn(2) == 0 {
			l = "(" + sp() + l + sp() + ")"
		}
		r := h.text(t.right, true)
		if t.right.op != "" {
			r = "(" + sp() + r + sp() + ")"
		}
		s = l + sp() + t.op + sp() + r
	case t.rule == "this":
		s = "_this"
	case t.rule == "cu":
		s = t.a
	default:
		s = t.a + sp() + "->" + sp() + t.b
	}
	if h.rng.Intn(8) == 0 {
		s = "(" + sp() + s + sp() + ")"
	}
	return s
}

func (h *H) expr(t *rTree) *domain.RelationExpression {
	if treeTextable(t) && h.rng.Intn(3) > 0 {
		return &domain.RelationExpression{Expression: &domain.RelationExpression_Expr{Expr: h.text(t, true)}}
	}
	return &domain.RelationExpression{Expression: &domain.RelationExpression_Tree{Tree: toDomainTree(t)}}
}

type polOpts struct {
	open     bool // universal restrictions, so that graphs are rich
	diff     bool
	hostile  bool
	thisBias bool
}

// genPolicy draws a valid policy
func (h *H) genPolicy(id string, o polOpts) *domain.Policy {
	p := &domain.Policy{Id: id, Name: h.pick(idPool), Description: h.pick(hostileIds)}
	if h.rng.Intn(3) == 0 {
		p.Attributes = map[string]string{h.id(): h.id()}
	}
	name := func(used map[string]bool, base []string) string {
		for {
			n := h.pick(base)
			if o.hostile && h.rng.Intn(4) == 0 {
				n = h.pick(hostileNames)
			}
			if len(dictStr) > 0 && h.rng.Intn(40) == 0 {
				n = h.pick(dictStr)
			}
			if !used[n] {
				used[n] = true
				return n
			}
		}
	}
	used := map[string]bool{}
	type rr struct {
		name string
		rels []string
	}
	var all []rr
	var every []string
	resBase := []string{"user", "group", "doc", "folder"}
	if o.hostile {
		resBase = identNames
	}
	n := 2 + h.rng.Intn(3)
	for i := 0; i < n; i++ {
		r := rr{name: name(used, resBase)}
		ru := map[string]bool{}
		for j, k := 0, h.rng.Intn(5); j < k || (i == 0 && j == 0); j++ {
			l := name(ru, []string{"reader", "owner", "member", "parent", "writer", "viewer", "a", "ab", "b", "c", "bc"})
			r.rels = append(r.rels, l)
			every = append(every, l)
		}
		all = append(all, r)
	}
	for _, r := range all {
		res := &domain.Resource{Name: r.name, Description: h.pick(idPool)}
		for _, l := range r.rels {
			depth := h.rng.Intn(4)
			t := h.genTree(r.rels, every, depth, o.diff)
			if (o.thisBias && h.rng.Intn(2) == 0) || h.rng.Intn(3) == 0 {
				t = &rTree{rule: "this"}
			}
			rel := &domain.Relation{Name: l, Description: h.pick(hostileIds), RelationExpression: h.expr(t)}
			k := h.rng.Intn(10)
			switch {
			case o.open || k < 5:
				rel.SubjectRestriction = &domain.SubjectRestriction{SubjectRestriction: &domain.SubjectRestriction_UniversalSet{UniversalSet: &domain.UniversalSet{}}}
			case k == 5: // no restriction
			default:
				set := &domain.SubjectRestrictionSet{}
				for i, c := 0, h.rng.Intn(4); i < c; i++ {
					x := all[h.rng.Intn(len(all))]
					if len(x.rels) > 0 && h.rng.Intn(2) == 0 {
						set.Restrictions = append(set.Restrictions, &domain.SubjectRestrictionSet_Restriction{Entry: &domain.SubjectRestrictionSet_Restriction_EntitySet{EntitySet: &domain.EntitySetRestriction{ResourceName: x.name, RelationName: h.pick(x.rels)}}})
					} else {
						set.Restrictions = append(set.Restrictions, &domain.SubjectRestrictionSet_Restriction{Entry: &domain.SubjectRestrictionSet_Restriction_Entity{Entity: &domain.EntityRestriction{ResourceName: x.name}}})
					}
				}
				rel.SubjectRestriction = &domain.SubjectRestriction{SubjectRestriction: &domain.SubjectRestriction_RestrictionSet{RestrictionSet: set}}
			}
			res.Relations = append(res.Relations, rel)
		}
		p.Resources = append(p.Resources, res)
	}
	return p
}

// damage makes one change to a policy, which usually makes it invalid
func (h *H) damage(p *domain.Policy) *domain.Policy {
	p = proto.Clone(p).(*domain.Policy)
	res := p.Resources[h.rng.Intn(len(p.Resources))]
	var rel *domain.Relation
	for k := 0; k < 10 && rel == nil; k++ {
		res = p.Resources[h.rng.Intn(len(p.Resources))]
		if len(res.Relations) > 0 {
			rel = res.Relations[h.rng.Intn(len(res.Relations))]
		}
	}
	switch h.rng.Intn(16) {
	case 0:
		p.Id = ""
	case 1:
		res.Name = ""
	case 2:
		res.Name = p.Resources[h.rng.Intn(len(p.Resources))].Name
	case 3:
		p.Resources = append(p.Resources, &domain.Resource{Name: p.Resources[h.rng.Intn(len(p.Resources))].Name})
	}
	if rel == nil {
		return p
	}
	badTrees := []*domain.RelationExpressionTree{nil, {}, domain.NewOpNode(nil, domain.Operator_UNION, domain.ThisNode()), domain.NewOpNode(domain.ThisNode(), domain.Operator_UNION, nil),
		domain.NewOpNode(domain.ThisNode(), domain.Operator(7), domain.ThisNode()), domain.NewOpNode(domain.ThisNode(), domain.Operator(-1), domain.ThisNode()),
		domain.CUNode("nope"), domain.TTUNode("nope", "nope"), domain.TTUNode("nope", rel.Name), domain.UnionNode(domain.ThisNode(), domain.CUNode("nope")), domain.DifferenceNode(domain.CUNode("nope"), domain.ThisNode()),
		domain.IntersectionNode(domain.UnionNode(domain.ThisNode(), domain.TTUNode("nope", rel.Name)), domain.ThisNode()),
		{Node: &domain.RelationExpressionTree_Rule{Rule: &domain.Rule{}}}, domain.CUNode(""), domain.UnionNode(domain.ThisNode(), &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_Rule{Rule: &domain.Rule{}}}),
		domain.UnionNode(domain.UnionNode(domain.ThisNode(), &domain.RelationExpressionTree{}), domain.ThisNode()), domain.TTUNode(rel.Name, "nope")}
	badExprs := []string{"", " ", "_this +", "+ _this", "(", "()", "_this)", "(_this", "_this _this", "a -> ", "-> a", "_this->" + rel.Name, rel.Name + "->_this", "nope", "nope->" + rel.Name, "_this + nope", "_this $", "_this,", rel.Name + "->" + rel.Name + "->" + rel.Name, "_this - (nope)", "_this & (" + rel.Name + " + nope->x)", "_thisx", "_this1", "_this_", "a.b", "_this + ((_this)", rel.Name + "->nope", "_this | _this", "-", "_this--_this", "_this ->"}
	set := func(rs ...*domain.SubjectRestrictionSet_Restriction) {
		rel.SubjectRestriction = &domain.SubjectRestriction{SubjectRestriction: &domain.SubjectRestriction_RestrictionSet{RestrictionSet: &domain.SubjectRestrictionSet{Restrictions: rs}}}
	}
	good := &domain.SubjectRestrictionSet_Restriction{Entry: &domain.SubjectRestrictionSet_Restriction_Entity{Entity: &domain.EntityRestriction{ResourceName: res.Name}}}
	switch h.rng.Intn(16) {
	case 0:
		rel.Name = ""
	case 1:
		rel.Name = res.Relations[h.rng.Intn(len(res.Relations))].Name
	case 2:
		res.Relations = append(res.Relations, proto.Clone(rel).(*domain.Relation))
	case 3:
		rel.RelationExpression = nil
	case 4:
		rel.RelationExpression = &domain.RelationExpression{}
	case 5, 6, 7:
		t := badTrees[h.rng.Intn(len(badTrees))]
		if t == nil {
			t = &domain.RelationExpressionTree{}
		}
		rel.RelationExpression = &domain.RelationExpression{Expression: &domain.RelationExpression_Tree{Tree: t}}
	case 8, 9, 10:
		rel.RelationExpression = &domain.RelationExpression{Expression: &domain.RelationExpression_Expr{Expr: h.pick(badExprs)}}
	case 11:
		rel.SubjectRestriction = &domain.SubjectRestriction{}
	case 12:
		set(good, &domain.SubjectRestrictionSet_Restriction{Entry: &domain.SubjectRestrictionSet_Restriction_Entity{Entity: &domain.EntityRestriction{ResourceName: "nope"}}})
	case 13:
		set(&domain.SubjectRestrictionSet_Restriction{Entry: &domain.SubjectRestrictionSet_Restriction_EntitySet{EntitySet: &domain.EntitySetRestriction{ResourceName: res.Name, RelationName: "nope"}}}, good)
	case 14:
		set(good, &domain.SubjectRestrictionSet_Restriction{})
	case 15:
		other := p.Resources[h.rng.Intn(len(p.Resources))].Name
		set(&domain.SubjectRestrictionSet_Restriction{Entry: &domain.SubjectRestrictionSet_Restriction_EntitySet{EntitySet: &domain.EntitySetRestriction{ResourceName: other, RelationName: rel.Name}}})
	}
	return p
}

// genRel draws a relationship, most of the time over the names of p
func (h *H) genRel(p *domain.Policy, ids []string) mRel {
	var m mRel
	res := func() *domain.Resource { return p.Resources[h.rng.Intn(len(p.Resources))] }
	var r *domain.Resource
	for k := 0; k < 10; k++ {
		if r = res(); len(r.Relations) > 0 {
			break
		}
	}
	m.ORes, m.OId = r.Name, h.pick(ids)
	if len(r.Relations) > 0 {
		m.Rel = r.Relations[h.rng.Intn(len(r.Relations))].Name
	} else {
		m.Rel = "nope"
	}
	s := res()
	m.SRes = s.Name
	switch h.rng.Intn(5) {
	case 0, 1:
		m.Kind, m.SId = kEntity, h.pick(ids)
	case 2, 3:
		if len(s.Relations) > 0 {
			m.Kind, m.SId, m.SRel = kSet, h.pick(ids), s.Relations[h.rng.Intn(len(s.Relations))].Name
		} else {
			m.Kind, m.SId = kEntity, h.pick(ids)
		}
	default:
		m.Kind = kWild
	}
	if h.rng.Intn(12) == 0 { // a near miss
		switch h.rng.Intn(4) {
		case 0:
			m.Rel = h.pick(identNames)
		case 1:
			m.SRes = h.pick(identNames)
		case 2:
			m.ORes = h.pick(identNames)
		case 3:
			if m.Kind == kSet {
				m.SRel = h.pick(identNames)
			}
		}
	}
	return m
}

// twist returns a relationship that is easily confused with m
func (h *H) twist(m mRel) mRel {
	t := m
	switch h.rng.Intn(9) {
	case 0:
		t.OId = m.OId + "/" + m.Rel
	case 1:
		t.Kind, t.SId, t.SRel = kEntity, "*", ""
	case 2:
		t.Kind, t.SId, t.SRel = kWild, "", ""
	case 3:
		if m.Kind == kEntity {
			t.Kind, t.SRel = kSet, m.Rel
		} else if m.Kind == kSet {
			t.Kind, t.SRel = kEntity, ""
		}
	case 4: // move a character over a field boundary
		if len([]rune(m.OId)) > 1 {
			r := []rune(m.OId)
			t.OId, t.Rel = string(r[:len(r)-1]), string(r[len(r)-1:])+m.Rel
		}
	case 5:
		t.SId = m.SId + m.SRel
		if m.Kind == kWild {
			t = m
		}
	case 6:
		t.OId = strings.ToUpper(m.OId)
	case 7:
		t.OId = m.OId + " "
	case 8:
		if m.Kind != kWild {
			t.SId = m.OId
			t.OId = m.SId
		}
	}
	return t
}

func (h *H) genSelector(p *domain.Policy, rels []mRel) *domain.RelationshipSelector {
	s := &domain.RelationshipSelector{ObjectSelector: &domain.ObjectSelector{}, RelationSelector: &domain.RelationSelector{}, SubjectSelector: &domain.SubjectSelector{}}
	m := rels[h.rng.Intn(len(rels))]
	m2 := m
	if h.rng.Intn(2) == 0 {
		m2 = rels[h.rng.Intn(len(rels))]
	}
	if h.rng.Intn(8) == 0 {
		m = h.twist(m)
	}
	if h.rng.Intn(10) == 0 {
		m.ORes = h.ident()
	}
	if h.rng.Intn(10) == 0 {
		m2.SRes = h.ident()
	}
	if h.rng.Intn(10) == 0 {
		m.Rel = h.ident()
	}
	switch h.rng.Intn(3) {
	case 0:
		s.ObjectSelector.Selector = &domain.ObjectSelector_Wildcard{Wildcard: &domain.WildcardSelector{}}
	case 1:
		s.ObjectSelector.Selector = &domain.ObjectSelector_ObjectSpec{ObjectSpec: domain.NewEntity(m.ORes, m.OId)}
	case 2:
		s.ObjectSelector.Selector = &domain.ObjectSelector_ResourceSpec{ResourceSpec: m.ORes}
	}
	switch h.rng.Intn(3) {
	case 0:
		s.RelationSelector.Selector = &domain.RelationSelector_RelationName{RelationName: m.Rel}
	default:
		s.RelationSelector.Selector = &domain.RelationSelector_Wildcard{Wildcard: &domain.WildcardSelector{}}
	}
	switch h.rng.Intn(3) {
	case 0:
		s.SubjectSelector.Selector = &domain.SubjectSelector_Wildcard{Wildcard: &domain.WildcardSelector{}}
	case 1:
		s.SubjectSelector.Selector = &domain.SubjectSelector_SubjectSpec{SubjectSpec: m2.domain().Subject}
	case 2:
		s.SubjectSelector.Selector = &domain.SubjectSelector_ResourceSpec{ResourceSpec: m2.SRes}
	}
	return s
}

func structDef(p *domain.Policy) *api.PolicyDefinition {
	return &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: proto.Clone(p).(*domain.Policy)}}
}

func (h *H) appData() []byte {
	switch h.rng.Intn(4) {
	case 0:
		return nil
	case 1:
		return []byte{0, 255, byte(h.rng.Intn(256))}
	}
	return []byte(fmt.Sprintf("data %d", h.rng.Intn(1000)))
}

// setup draws the universe of one history
func (h *H) setup(o polOpts, npol, nrel int) {
	seen := map[string]bool{}
	for len(h.pids) < npol {
		id := h.polId()
		if len(h.pids) > 0 && h.rng.Intn(3) == 0 { // easily confused with another id
			b := h.pids[0]
			id = h.pick([]string{b + "/", b + b, "/" + b, strings.ToUpper(b), b + "/" + b, fmt.Sprintf("%x", b), b + "\x00", b + "1", "1" + b, b + "////in/z"})
		}
		if id == "" || seen[id] {
			continue
		}
		seen[id] = true
		h.pids = append(h.pids, id)
	}
	base := h.genPolicy(h.pids[0], o)
	h.pols = map[string][]*domain.Policy{}
	for i, id := range h.pids {
		for k := 0; k < 2; k++ {
			p := proto.Clone(base).(*domain.Policy)
			if k == 1 || (i > 0 && h.rng.Intn(2) == 0) {
				p = h.genPolicy(id, o)
			}
			p.Id = id
			h.pols[id] = append(h.pols[id], p)
		}
	}
	ids := []string{h.id(), h.id()}
	if h.rng.Intn(2) == 0 {
		ids = append(ids, h.id())
	}
	seenRel := map[mRel]bool{}
	for k := 0; len(h.rels) < nrel && k < nrel*20; k++ {
		m := h.genRel(base, ids)
		if len(h.rels) > 0 && h.rng.Intn(6) == 0 {
			m = h.twist(h.rels[h.rng.Intn(len(h.rels))])
		}
		if _, ok := fromDomainRel(m.domain()); !ok || seenRel[m] {
			continue
		}
		seenRel[m] = true
		h.rels = append(h.rels, m)
	}
	for k := 0; k < 6; k++ {
		m := h.rels[h.rng.Intn(len(h.rels))]
		m2 := h.rels[h.rng.Intn(len(h.rels))]
		s := gNode{kind: kEntity, res: m2.SRes, id: m2.SId}
		if m2.Kind == kWild {
			s.id = h.pick(ids)
		}
		h.probes = append(h.probes, probe{m.source(), s})
	}
}
