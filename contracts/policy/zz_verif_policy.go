package policy

import (
	vt "github.com/sourcenetwork/zanzi/internal/utils"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

// vRuleOK: the relations a rule names belong to the resource
func vRuleOK(r *domain.Rule, resource string, p *domain.Policy) bool {
	switch x := r.GetRule().(type) {
	case *domain.Rule_This:
		return true
	case *domain.Rule_Cu:
		return vHasRelation(p, resource, x.Cu.GetTargetRelation())
	case *domain.Rule_Ttu:
		return vHasRelation(p, resource, x.Ttu.GetTuplesetRelation())
	}
	return false
}

// vTreeOK: a complete tree of known operators and rules over relations of the resource
//
//vc:def
func vTreeOK(t *domain.RelationExpressionTree, resource string, p *domain.Policy) bool {
	switch n := t.GetNode().(type) {
	case *domain.RelationExpressionTree_Rule:
		return vRuleOK(n.Rule, resource, p)
	case *domain.RelationExpressionTree_OpNode:
		switch n.OpNode.GetOperator() {
		case domain.Operator_UNION, domain.Operator_INTERSECTION, domain.Operator_DIFFERENCE:
			return vTreeOK(n.OpNode.GetLeft(), resource, p) && vTreeOK(n.OpNode.GetRight(), resource, p)
		}
	}
	return false
}

// vExprOK: the expression parses, and its tree is complete and names relations of the resource
//
//vc:uninterp
func vExprOK(expr string, resource string, p *domain.Policy) bool { return false }

//vc:uninterp
func vExprParses(expr string) bool { return false }

//vc:extern github.com/sourcenetwork/zanzi/internal/relation_expression_parser.Parse
func vxParse(expr string, tree *domain.RelationExpressionTree, err error) {
	vt.VFresh(tree)
	vt.VEnsures("parses", (err == nil) == vExprParses(expr))
	vt.VEnsures("tree", err != nil || tree != nil && vt.VWire(tree) && domain.VWellFormed(tree))
	vt.VEnsures("meaning", err != nil || vt.VForall(func(resource string, p *domain.Policy) bool {
		return vTreeOK(tree, resource, p) == vExprOK(expr, resource, p)
	}))
	vt.VEnsures("membership", err != nil || vt.VForall(func(n domain.VNode, trail string, q domain.VQuery) bool {
		return domain.VE(tree, n, trail, q) == domain.VExprE(expr, n, trail, q)
	}))
	vt.VEnsures("parsed", err != nil || domain.VParsed(expr, tree))
}

//vc:contract GetExpressionTree
//vc:props C01 C04
func vcGetExpressionTree(r *domain.Relation, tree *domain.RelationExpressionTree, err error) {
	vt.VRequires("wire", r != nil && vt.VWire(r))
	vt.VEnsures("tree", err != nil || vt.VWire(tree) && (!vComplete(r) || tree != nil && domain.VWellFormed(tree)))
	vt.VEnsures("membership", err != nil || vt.VForall(func(n domain.VNode, trail string, q domain.VQuery) bool {
		return domain.VE(tree, n, trail, q) == domain.VRelE(r, n, trail, q)
	}))
	vt.VEnsures("of the relation", err != nil || VTreeFor(r, tree))
	vt.VEnsures("outcome", (err == nil) == vHasTree(r))
	vt.VEnsures("meaning", err != nil || vt.VForall(func(resource string, p *domain.Policy) bool {
		return vMeans(r, tree, resource, p)
	}))
}

func vHasTree(r *domain.Relation) bool {
	switch x := r.GetRelationExpression().GetExpression().(type) {
	case *domain.RelationExpression_Expr:
		return vExprParses(x.Expr)
	case *domain.RelationExpression_Tree:
		return true
	}
	return false
}

func vMeans(r *domain.Relation, tree *domain.RelationExpressionTree, resource string, p *domain.Policy) bool {
	x, ok := r.GetRelationExpression().GetExpression().(*domain.RelationExpression_Expr)
	return !ok || vTreeOK(tree, resource, p) == vExprOK(x.Expr, resource, p)
}

// vComplete: the tree of the relation, if it has one, is complete
func vComplete(r *domain.Relation) bool {
	x, ok := r.GetRelationExpression().GetExpression().(*domain.RelationExpression_Tree)
	return !ok || x.Tree != nil && domain.VWellFormed(x.Tree)
}

// VComplete: so are those of the policy
func VComplete(p *domain.Policy) bool {
	return vt.VForall(func(i, j int) bool {
		return !(0 <= i && i < len(p.GetResources()) && 0 <= j && j < len(p.GetResources()[i].GetRelations())) || vComplete(p.GetResources()[i].GetRelations()[j])
	})
}

func VUniqueNames(p *domain.Policy) bool { return vUniqueNames(p) }

//vc:axiom
func VaxRelOf(p *domain.Policy, i, j int) {
	if 0 <= i && i < len(p.GetResources()) && 0 <= j && j < len(p.GetResources()[i].GetRelations()) && vUniqueNames(p) {
		vt.VEnsures("relation", domain.VRelOf(p, p.GetResources()[i].GetName(), p.GetResources()[i].GetRelations()[j].GetName()) == p.GetResources()[i].GetRelations()[j])
	}
}

//vc:contract (*ValidPolicySpec).wellFormedTree
//vc:props C14
func vcWellFormedTree(s *ValidPolicySpec, tree *domain.RelationExpressionTree, err error) {
	vt.VRequires("wire", vt.VWire(tree))
	vt.VUse(func() bool { return domain.VWellFormed(tree) })
	vt.VEnsures("a tree passes exactly when it is complete", (err == nil) == domain.VWellFormed(tree))
}

//vc:lemma
//vc:props C14
func vlTree(t *domain.RelationExpressionTree, resource string, p *domain.Policy) {
	vt.VDecreases(domain.VSize(t))
	domain.VaxSize(t)
	vt.VUse(func() bool { return domain.VWellFormed(t) })
	vt.VUse(func() bool { return vTreeOK(t, resource, p) })
	vt.VUse(func() bool { return vt.VForall(func(r *domain.Rule) bool { return domain.VInTree(t, r) }) })
	if n, ok := t.GetNode().(*domain.RelationExpressionTree_OpNode); ok {
		vlTree(n.OpNode.GetLeft(), resource, p)
		vlTree(n.OpNode.GetRight(), resource, p)
	}
	vt.VEnsures("a tree is right when it is complete and all its rules are", vTreeOK(t, resource, p) ==
		(domain.VWellFormed(t) && vt.VForall(func(r *domain.Rule) bool { return !domain.VInTree(t, r) || vRuleOK(r, resource, p) })))
}

// vRelationExpressionOK: the relation's expression is right
func vRelationExpressionOK(rel *domain.Relation, resource string, p *domain.Policy) bool {
	switch x := rel.GetRelationExpression().GetExpression().(type) {
	case *domain.RelationExpression_Expr:
		return vExprParses(x.Expr) && vExprOK(x.Expr, resource, p)
	case *domain.RelationExpression_Tree:
		return vTreeOK(x.Tree, resource, p)
	}
	return false
}

// vRestrictionOK: a restriction names what the policy declares
func vRestrictionOK(rel *domain.Relation, p *domain.Policy) bool {
	if rel.GetSubjectRestriction() == nil {
		return true
	}
	switch x := rel.GetSubjectRestriction().GetSubjectRestriction().(type) {
	case *domain.SubjectRestriction_UniversalSet:
		return true
	case *domain.SubjectRestriction_RestrictionSet:
		return vt.VForall(func(i int) bool {
			if i < 0 || i >= len(x.RestrictionSet.GetRestrictions()) {
				return true
			}
			switch e := x.RestrictionSet.GetRestrictions()[i].GetEntry().(type) {
			case *domain.SubjectRestrictionSet_Restriction_Entity:
				return vHasResource(p, e.Entity.GetResourceName())
			case *domain.SubjectRestrictionSet_Restriction_EntitySet:
				return vHasRelation(p, e.EntitySet.GetResourceName(), e.EntitySet.GetRelationName())
			}
			return false
		})
	}
	return false
}

// vPolicyValid: the policy is well formed
func vPolicyValid(p *domain.Policy) bool {
	return p.GetId() != "" && vNamed(p) && vUniqueNames(p) && vt.VForall(func(i, k int) bool {
		return !(0 <= i && i < len(p.GetResources()) && 0 <= k && k < len(p.GetResources()[i].GetRelations())) ||
			vRelationExpressionOK(p.GetResources()[i].GetRelations()[k], p.GetResources()[i].GetName(), p) &&
				vRestrictionOK(p.GetResources()[i].GetRelations()[k], p)
	})
}

//vc:contract (*ValidPolicySpec).UniqueResourceAndRelationsNames
//vc:props C14
func vcUniqueNames(s *ValidPolicySpec, policy *domain.Policy, err error) {
	vt.VRequires("wire", policy != nil && vt.VWire(policy))
	vt.VEnsures("names are unique", (err == nil) == vUniqueNames(policy))
}

// vTableOf: the look-up table declares what the policy declares
func vTableOf(lut PolicyLookUpTable, p *domain.Policy) bool {
	return vt.VForall(func(res string) bool {
		return (lut.GetResource(res) != nil) == vHasResource(p, res)
	}) && vt.VForall(func(res, rel string) bool {
		return (lut.GetRelation(res, rel) != nil) == vHasRelation(p, res, rel)
	})
}

//vc:contract (*ValidPolicySpec).SubjectRestrictionsConsistent
//vc:props C14
func vcRestrictions(s *ValidPolicySpec, policy *domain.Policy, lut PolicyLookUpTable, err error) {
	vt.VRequires("wire", policy != nil && vt.VWire(policy))
	vt.VRequires("table", vTableOf(lut, policy))
	vt.VEnsures("restrictions name what the policy declares", (err == nil) == vt.VForall(func(i, k int) bool {
		return !(0 <= i && i < len(policy.GetResources()) && 0 <= k && k < len(policy.GetResources()[i].GetRelations())) ||
			vRestrictionOK(policy.GetResources()[i].GetRelations()[k], policy)
	}))
}

//vc:contract (*ValidPolicySpec).RelationExpressionWellDefined
//vc:props C14
func vcExpressions(s *ValidPolicySpec, policy *domain.Policy, lut PolicyLookUpTable, err error) {
	vt.VRequires("wire", policy != nil && vt.VWire(policy))
	vt.VRequires("table", vTableOf(lut, policy))
	vt.VUse(func() bool { return vt.VForall(func(t *domain.RelationExpressionTree, resource string) bool { vlTree(t, resource, policy); return true }) })
	vt.VEnsures("expressions are right", (err == nil) == vt.VForall(func(i, k int) bool {
		return !(0 <= i && i < len(policy.GetResources()) && 0 <= k && k < len(policy.GetResources()[i].GetRelations())) ||
			vRelationExpressionOK(policy.GetResources()[i].GetRelations()[k], policy.GetResources()[i].GetName(), policy)
	}))
}

//vc:contract (*ValidPolicySpec).Verify
//vc:props C14
//vc:top
func vcVerify(s *ValidPolicySpec, policy *domain.Policy, err error) {
	vt.VRequires("wire", policy != nil && vt.VWire(policy))
	vt.VEnsures("a policy passes exactly when it is well formed", (err == nil) == vPolicyValid(policy))
}

// VTreeFor: the tree is the relation's
func VTreeFor(r *domain.Relation, tree *domain.RelationExpressionTree) bool {
	switch x := r.GetRelationExpression().GetExpression().(type) {
	case *domain.RelationExpression_Expr:
		return domain.VParsed(x.Expr, tree)
	case *domain.RelationExpression_Tree:
		return x.Tree == tree
	}
	return false
}

func VStoreInv() bool { return vStoreInv() }

// VlValid: a valid policy has unique names and complete expressions
//
//vc:lemma
//vc:props C01 C03 C04
func VlValid(p *domain.Policy) {
	vt.VRequires("valid", p != nil && vt.VWire(p) && vPolicyValid(p))
	vt.VUse(func() bool {
		return vt.VForall(func(i, k int) bool {
			if 0 <= i && i < len(p.GetResources()) && 0 <= k && k < len(p.GetResources()[i].GetRelations()) {
				if x, ok := p.GetResources()[i].GetRelations()[k].GetRelationExpression().GetExpression().(*domain.RelationExpression_Tree); ok {
					vlTree(x.Tree, p.GetResources()[i].GetName(), p)
				}
			}
			return true
		})
	})
	vt.VEnsures("C01 C03 C04: unique names", VUniqueNames(p))
	vt.VEnsures("C01 C03 C04: complete expressions", VComplete(p))
}

// VaxPartOf: the expressions of the policy's relations are the policy's
//
//vc:axiom
func VaxPartOf(p *domain.Policy, resource, relation string, t *domain.RelationExpressionTree) {
	vt.VEnsures("part", !VTreeFor(domain.VRelOf(p, resource, relation), t) || domain.VPart(p, t))
}
