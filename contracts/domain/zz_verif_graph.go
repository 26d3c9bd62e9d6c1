package domain

import vt "github.com/sourcenetwork/zanzi/internal/utils"

// VNode is a node of the relation graph by its components.
type VNode struct {
	Kind         int // 1 entity, 2 entity set, 3 wildcard
	Res, Id, Rel string
}

// VQuery is what a search is about: the policy and the subject (none for Expand).
type VQuery struct {
	Pol       *Policy
	Some      bool
	GRes, GId string
}

// VNodeOf is the node by its components
//
//vc:abbrev
func VNodeOf(n *RelationNode) VNode {
	switch x := n.GetNode().(type) {
	case *RelationNode_Entity:
		return VNode{1, x.Entity.GetObject().GetResource(), x.Entity.GetObject().GetId(), ""}
	case *RelationNode_EntitySet:
		return VNode{2, x.EntitySet.GetObject().GetResource(), x.EntitySet.GetObject().GetId(), x.EntitySet.GetRelation()}
	case *RelationNode_Wildcard:
		return VNode{3, x.Wildcard.GetResource(), "", ""}
	}
	return VNode{}
}

// VNodeOK: a complete node
func VNodeOK(n *RelationNode) bool {
	switch x := n.GetNode().(type) {
	case *RelationNode_Entity:
		return x.Entity.GetObject() != nil
	case *RelationNode_EntitySet:
		return x.EntitySet.GetObject() != nil
	case *RelationNode_Wildcard:
		return x.Wildcard != nil
	}
	return false
}

// VRK is the key of the relationship between an entity set and a node
func VRK(pid string, n, m VNode) VRelKey {
	return VRelKey{Pid: pid, ObjRes: n.Res, ObjId: n.Id, Rel: n.Rel, Kind: m.Kind, SRes: m.Res, SId: m.Id, SRel: m.Rel}
}

// VNid is the id of a node; VlNodeId shows that Id is a function of the components, and an injective one
//
//vc:uninterp
//vc:injective
func VNid(n VNode) string { return "" }

//vc:extern (*github.com/sourcenetwork/zanzi/pkg/domain.RelationNode).Id
func vxNodeId(n *RelationNode, id string) {
	vt.VRequires("node", VNodeOK(n))
	vt.VEnsures("id", id == VNid(VNodeOf(n)))
}

//vc:lemma
//vc:props C01 C02 C05 C17
func VlNodeId(a, b *RelationNode) {
	vt.VRequires("nodes", VNodeOK(a) && VNodeOK(b))
	vt.VEnsures("C01 C02 C05 C17: nodes have the same id exactly when they are the same", (a.Id() == b.Id()) == (VNodeOf(a) == VNodeOf(b)))
}

// Trails: finite sets of node ids
//
//vc:uninterp
func VTrailHas(t string, id string) bool { return false }

//vc:uninterp
func VTrailAdd(t string, id string) string { return "" }

//vc:uninterp
func VTrailNone() string { return "" }

//vc:axiom
func VaxTrail(t, id, x string) {
	vt.VEnsures("add", VTrailHas(VTrailAdd(t, id), x) == (x == id || VTrailHas(t, x)))
}

//vc:axiom
func VaxTrailNone(x string) {
	vt.VEnsures("none", !VTrailHas(VTrailNone(), x))
}

// VRelOf is the relation of the resource
//
//vc:uninterp
func VRelOf(p *Policy, resource, relation string) *Relation { return nil }

// VSucc: the rule evaluates to the node m at the entity set n
//
//vc:def
func VSucc(rule *Rule, n, m VNode, p *Policy) bool {
	switch r := rule.GetRule().(type) {
	case *Rule_This:
		return VRels.Has(VRK(p.GetId(), n, m))
	case *Rule_Cu:
		return m == VNode{2, n.Res, n.Id, r.Cu.GetTargetRelation()}
	case *Rule_Ttu:
		set := VNode{2, n.Res, n.Id, r.Ttu.GetTuplesetRelation()}
		return m.Kind == 2 && m.Rel == r.Ttu.GetComputedUsersetRelation() && vt.VExists(func(kind int, rel string) bool {
			return (kind == 1 || kind == 2) && VRels.Has(VRK(p.GetId(), set, VNode{kind, m.Res, m.Id, rel}))
		})
	}
	return false
}

// VGoal: the node is the subject, or stands for it
func VGoal(n VNode, q VQuery) bool {
	return q.Some && (n.Kind == 1 && n.Res == q.GRes && n.Id == q.GId || n.Kind == 3 && n.Res == q.GRes)
}

// VD: the subject is a member of the node, by a derivation in which no node occurs below itself and none is on the trail.
// For expressions without difference this is membership in the least solution (a derivation of minimal height repeats no node).
//
//vc:def
func VD(n VNode, trail string, q VQuery) bool {
	if VTrailHas(trail, VNid(n)) {
		return false
	}
	if VGoal(n, q) {
		return true
	}
	return n.Kind == 2 && VRelE(VRelOf(q.Pol, n.Res, n.Rel), n, VTrailAdd(trail, VNid(n)), q)
}

// VR: the subject is a member of the rule's set
//
//vc:def
func VR(rule *Rule, n VNode, trail string, q VQuery) bool {
	return vt.VExists(func(m VNode) bool { return VSucc(rule, n, m, q.Pol) && VD(m, trail, q) })
}

// VE: the subject is a member of the expression's set
//
//vc:def
func VE(t *RelationExpressionTree, n VNode, trail string, q VQuery) bool {
	switch x := t.GetNode().(type) {
	case *RelationExpressionTree_Rule:
		return VR(x.Rule, n, trail, q)
	case *RelationExpressionTree_OpNode:
		l, r := VE(x.OpNode.GetLeft(), n, trail, q), VE(x.OpNode.GetRight(), n, trail, q)
		switch x.OpNode.GetOperator() {
		case Operator_UNION:
			return l || r
		case Operator_INTERSECTION:
			return l && r
		case Operator_DIFFERENCE:
			return l && !r
		}
	}
	return false
}

// VExprE is VE of the tree the text stands for
//
//vc:uninterp
func VExprE(expr string, n VNode, trail string, q VQuery) bool { return false }

// VRelE is VE of the relation's expression
func VRelE(r *Relation, n VNode, trail string, q VQuery) bool {
	switch x := r.GetRelationExpression().GetExpression().(type) {
	case *RelationExpression_Expr:
		return VExprE(x.Expr, n, trail, q)
	case *RelationExpression_Tree:
		return VE(x.Tree, n, trail, q)
	}
	return false
}

// VParsed: the tree is what the text stands for
//
//vc:uninterp
func VParsed(expr string, t *RelationExpressionTree) bool { return false }

// Termination. VUn: the nodes a search of the policy can come across. They start with the origin of the search and are closed
// under the rules of the policy's expressions; there are finitely many: a rule gives stored subjects, the object itself or the
// object of a stored subject, with a stored relation or one named in the policy.
//
//vc:uninterp
func VUn(p *Policy, id string) bool { return false }

// VPart: the expression is (part of) one of the policy's
//
//vc:uninterp
func VPart(p *Policy, t *RelationExpressionTree) bool { return false }

//vc:axiom
func VaxPart(p *Policy, t *RelationExpressionTree) {
	if VPart(p, t) {
		if x, ok := t.GetNode().(*RelationExpressionTree_OpNode); ok {
			vt.VEnsures("operands", VPart(p, x.OpNode.GetLeft()) && VPart(p, x.OpNode.GetRight()))
		}
	}
}

//vc:axiom
func VaxUn(p *Policy, t *RelationExpressionTree, n, m VNode) {
	x, ok := t.GetNode().(*RelationExpressionTree_Rule)
	vt.VEnsures("closed", !(VPart(p, t) && ok && VUn(p, VNid(n)) && VSucc(x.Rule, n, m, p)) || VUn(p, VNid(m)))
}

// VaxOrigin: the search considered is the one from this node
//
//vc:axiom
func VaxOrigin(p *Policy, n VNode) {
	vt.VEnsures("origin", VUn(p, VNid(n)))
}
