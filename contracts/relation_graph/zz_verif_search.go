package relation_graph

import (
	"context"

	"github.com/sourcenetwork/zanzi/internal/policy"
	vt "github.com/sourcenetwork/zanzi/internal/utils"
	"github.com/sourcenetwork/zanzi/pkg/domain"
	"github.com/sourcenetwork/zanzi/pkg/types"
)

//vc:interface relation_graph.NodeRepository.GetSucessors
func viGetSucessors(r NodeRepository, ctx context.Context, pid string, node *domain.EntitySetNode, nodes []*domain.RelationNode, err error) {
	VsGetSucessors(pid, node, nodes, err)
}

func vSetOf(n *domain.EntitySetNode) domain.VNode {
	return domain.VNode{2, n.GetObject().GetResource(), n.GetObject().GetId(), n.GetRelation()}
}

// vNodes: complete nodes
func vNodes(nodes []*domain.RelationNode) bool {
	return vt.VForall(func(i int) bool {
		return !(0 <= i && i < len(nodes)) || nodes[i] != nil && vt.VWire(nodes[i]) && domain.VNodeOK(nodes[i])
	})
}

// VsGetSucessors is the contract of GetSucessors
func VsGetSucessors(pid string, node *domain.EntitySetNode, nodes []*domain.RelationNode, err error) {
	vt.VRequires("node", node != nil && node.Object != nil)
	vt.VFresh(nodes)
	vt.VEnsures("C17: a read fails only if the store does", !domain.VStoreOK() || err == nil)
	if err == nil {
		n := vSetOf(node)
		vt.VEnsures("C17: complete nodes", vNodes(nodes))
		vt.VEnsures("C17 C01 C09: only subjects of stored relationships", vt.VForall(func(i int) bool {
			return !(0 <= i && i < len(nodes)) || domain.VRels.Has(domain.VRK(pid, n, domain.VNodeOf(nodes[i])))
		}))
		vt.VEnsures("C17 C01: every subject of a stored relationship", vt.VForall(func(m domain.VNode) bool {
			return !domain.VRels.Has(domain.VRK(pid, n, m)) || vt.VExists(func(i int) bool { return 0 <= i && i < len(nodes) && domain.VNodeOf(nodes[i]) == m })
		}))
		vt.VEnsures("C17: each subject once", vt.VForall(func(i, j int) bool {
			return !(0 <= i && i < j && j < len(nodes)) || domain.VNodeOf(nodes[i]) != domain.VNodeOf(nodes[j])
		}))
	}
}

func vEval(e *evaluator) bool { return e != nil && e.repository != nil && e.logger != nil }

//vc:contract buildTupleToUsersetNode
//vc:props C01 C04
func vcTTUNode(node *domain.RelationNode, rel string, out *domain.RelationNode, err error) {
	vt.VRequires("node", node != nil && vt.VWire(node) && domain.VNodeOK(node))
	vt.VFresh(out)
	n := domain.VNodeOf(node)
	vt.VEnsures("C01: a wildcard has no relations", (err == nil) == (n.Kind == 1 || n.Kind == 2))
	vt.VEnsures("C01 C04: the relation of the subject", err != nil || out != nil && vt.VWire(out) && domain.VNodeOK(out) && domain.VNodeOf(out) == domain.VNode{2, n.Res, n.Id, rel})
}

//vc:contract (*evaluator).evaluateComputedUserset
//vc:props C01 C04
func vcEvalCU(e *evaluator, rule *domain.ComputedUserset, node *domain.EntitySetNode, nodes []*domain.RelationNode) {
	vt.VRequires("rule", rule != nil && node != nil && node.Object != nil && vt.VWire(node) && vt.VWire(rule))
	n := vSetOf(node)
	vt.VEnsures("C01 C04: the named relation of the object", vNodes(nodes) && len(nodes) == 1 && domain.VNodeOf(nodes[0]) == domain.VNode{2, n.Res, n.Id, rule.GetTargetRelation()})
}

//vc:contract (*evaluator).evaluateTupleToUserset
//vc:props C01 C04
func vcEvalTTU(e *evaluator, ctx context.Context, pid string, rule *domain.TupleToUserset, node *domain.EntitySetNode, nodes []*domain.RelationNode, err error) {
	vt.VRequires("evaluator", vEval(e))
	vt.VRequires("rule", rule != nil && node != nil && node.Object != nil && vt.VWire(node) && vt.VWire(rule))
	if err == nil {
		n := vSetOf(node)
		set := domain.VNode{2, n.Res, n.Id, rule.GetTuplesetRelation()}
		rel := rule.GetComputedUsersetRelation()
		vt.VEnsures("complete nodes", vNodes(nodes))
		vt.VEnsures("C01 C04: only relations of stored subjects", vt.VForall(func(i int) bool {
			return !(0 <= i && i < len(nodes)) || domain.VNodeOf(nodes[i]).Kind == 2 && domain.VNodeOf(nodes[i]).Rel == rel && vt.VExists(func(kind int, r string) bool {
				return (kind == 1 || kind == 2) && domain.VRels.Has(domain.VRK(pid, set, domain.VNode{kind, domain.VNodeOf(nodes[i]).Res, domain.VNodeOf(nodes[i]).Id, r}))
			})
		}))
		vt.VEnsures("C01 C04: the relation of every stored subject", vt.VForall(func(m domain.VNode) bool {
			return !((m.Kind == 1 || m.Kind == 2) && domain.VRels.Has(domain.VRK(pid, set, m))) ||
				vt.VExists(func(i int) bool {
					return 0 <= i && i < len(nodes) && domain.VNodeOf(nodes[i]) == domain.VNode{2, m.Res, m.Id, rel}
				})
		}))
	}
}

//vc:contract (*evaluator).Evaluate
//vc:props C01 C04
func vcEvaluate(e *evaluator, ctx context.Context, pid string, rule *domain.Rule, node *domain.EntitySetNode, nodes []*domain.RelationNode, err error) {
	vt.VRequires("evaluator", vEval(e))
	vt.VRequires("rule", rule != nil && vt.VWire(rule) && node != nil && node.Object != nil && vt.VWire(node))
	if err == nil {
		n := vSetOf(node)
		vt.VUse(func() bool {
			return vt.VForall(func(m domain.VNode, p *domain.Policy) bool { return domain.VSucc(rule, n, m, p) })
		})
		vt.VEnsures("complete nodes", vNodes(nodes))
		vt.VEnsures("C01 C04: only nodes of the rule", vt.VForall(func(i int, m domain.VNode, p *domain.Policy) bool {
			return !(0 <= i && i < len(nodes) && p.GetId() == pid && m == domain.VNodeOf(nodes[i])) || domain.VSucc(rule, n, m, p)
		}))
		vt.VEnsures("C01 C04: every node of the rule", vt.VForall(func(m domain.VNode, p *domain.Policy) bool {
			return !(p.GetId() == pid && domain.VSucc(rule, n, m, p)) || vt.VExists(func(i int) bool { return 0 <= i && i < len(nodes) && domain.VNodeOf(nodes[i]) == m })
		}))
	}
}

// vG: the subject is a member of the set an unexplored goal tree stands for
//
//vc:def
func vG(t GoalTree, trail string, q domain.VQuery) bool {
	switch x := t.(type) {
	case *ORNode:
		return vt.VExists(func(i int) bool { return 0 <= i && i < len(x.Paths) && vG(x.Paths[i], trail, q) })
	case *ANDNode:
		return vt.VForall(func(i int) bool { return !(0 <= i && i < len(x.Paths)) || vG(x.Paths[i], trail, q) })
	case *DifferenceNode:
		return vG(x.Left, trail, q) && !vG(x.Right, trail, q)
	case *PathNode:
		return domain.VD(domain.VNodeOf(x.RelationNode), trail, q)
	}
	return false
}

// vIn, vKid: the operands of a union or intersection
func vIn(t GoalTree, i int) bool {
	switch x := t.(type) {
	case *ORNode:
		return 0 <= i && i < len(x.Paths)
	case *ANDNode:
		return 0 <= i && i < len(x.Paths)
	}
	return false
}

func vKid(t GoalTree, i int) GoalTree {
	switch x := t.(type) {
	case *ORNode:
		return x.Paths[i]
	case *ANDNode:
		return x.Paths[i]
	}
	return nil
}

func vIsPath(t GoalTree) bool {
	_, ok := t.(*PathNode)
	return ok
}

// vTree: one of the four kinds of node
func vTree(t GoalTree) bool {
	switch x := t.(type) {
	case *ORNode:
		return x != nil
	case *ANDNode:
		return x != nil
	case *DifferenceNode:
		return x != nil
	case *PathNode:
		return x != nil
	}
	return false
}

// vOK: a complete goal tree; operands of intersection and difference are themselves operations
//
//vc:def
func vOK(t GoalTree) bool {
	if !vTree(t) {
		return false
	}
	switch x := t.(type) {
	case *ORNode:
		return x.Result == SearchResult_UNKNOWN && vt.VForall(func(i int) bool { return !(0 <= i && i < len(x.Paths)) || vOK(x.Paths[i]) && vTree(x.Paths[i]) })
	case *ANDNode:
		return x.Result == SearchResult_UNKNOWN && len(x.Paths) > 0 && vt.VForall(func(i int) bool {
			return !(0 <= i && i < len(x.Paths)) || vOK(x.Paths[i]) && vTree(x.Paths[i]) && !vIsPath(x.Paths[i])
		})
	case *DifferenceNode:
		return x.Result == SearchResult_UNKNOWN && vOK(x.Left) && vOK(x.Right) && vTree(x.Left) && vTree(x.Right) && !vIsPath(x.Right)
	case *PathNode:
		return x.Result == SearchResult_UNKNOWN && x.Path == nil && vt.VWire(x.RelationNode) && domain.VNodeOK(x.RelationNode)
	}
	return false
}

func vBuilder(b *goalTreeBuilder) bool { return b != nil && vEval(&b.evaluator) && b.logger != nil }

//vc:contract (*goalTreeBuilder).buildGoalForRule
//vc:props C01 C02 C04
func vcBuildRule(b *goalTreeBuilder, ctx context.Context, pid string, rule *domain.Rule, node *domain.EntitySetNode, tree GoalTree, err error) {
	vt.VRequires("builder", vBuilder(b))
	vt.VRequires("rule", rule != nil && vt.VWire(rule) && node != nil && node.Object != nil && vt.VWire(node))
	if err == nil {
		n := vSetOf(node)
		vt.VUse(func() bool { return vOK(tree) })
		vt.VUse(func() bool { return vt.VForall(func(i int) bool { return !vIn(tree, i) || vOK(vKid(tree, i)) }) })
		vt.VUse(func() bool { return vt.VForall(func(trail string, q domain.VQuery) bool { return vG(tree, trail, q) }) })
		vt.VUse(func() bool {
			return vt.VForall(func(i int, trail string, q domain.VQuery) bool { return !vIn(tree, i) || vG(vKid(tree, i), trail, q) })
		})
		vt.VUse(func() bool {
			return vt.VForall(func(trail string, q domain.VQuery) bool { return domain.VR(rule, n, trail, q) })
		})
		vt.VEnsures("C01 C04: a goal tree", vOK(tree) && vTree(tree) && !vIsPath(tree))
		vt.VEnsures("C01: the tree stands for the rule", vt.VForall(func(trail string, q domain.VQuery) bool {
			return q.Pol.GetId() != pid || vG(tree, trail, q) == domain.VR(rule, n, trail, q)
		}))
		vt.VUse(func() bool {
			return vt.VForall(func(out GoalTree, trail string, p *domain.Policy) bool { return vEx(tree, out, trail, p) })
		})
		vt.VUse(func() bool {
			return vt.VForall(func(i int, out GoalTree, trail string, p *domain.Policy) bool {
				return !vIn(tree, i) || vEx(vKid(tree, i), out, trail, p)
			})
		})
		vt.VUse(func() bool {
			return vt.VForall(func(out GoalTree, trail string, p *domain.Policy) bool { return vXRule(rule, n, out, trail, p) })
		})
		vt.VEnsures("C04: explored, the tree is the expansion of the rule", vt.VForall(func(out GoalTree, trail string, p *domain.Policy) bool {
			return p.GetId() != pid || !vEx(tree, out, trail, p) || vXRule(rule, n, out, trail, p)
		}))
		vt.VUse(func() bool { return vt.VForall(func(p *domain.Policy) bool { return vU(tree, p) }) })
		vt.VUse(func() bool {
			return vt.VForall(func(i int, p *domain.Policy) bool { return !vIn(tree, i) || vU(vKid(tree, i), p) })
		})
		vt.VEnsures("C02: nodes of the rule", vt.VForall(func(p *domain.Policy) bool {
			return p.GetId() != pid || !vt.VForall(func(m domain.VNode) bool { return !domain.VSucc(rule, n, m, p) || domain.VUn(p, domain.VNid(m)) }) || vU(tree, p)
		}))
	}
}

//vc:contract (*goalTreeBuilder).buildGoalTree
//vc:props C01 C02 C04
func vcBuildGoalTree(b *goalTreeBuilder, ctx context.Context, pid string, expr *domain.RelationExpressionTree, node *domain.EntitySetNode, tree GoalTree, err error) {
	vt.VRequires("builder", vBuilder(b))
	vt.VUse(func() bool { return domain.VWellFormed(expr) && domain.VWellFormed(nil) })
	vt.VRequires("expression", vt.VWire(expr) && domain.VWellFormed(expr) && node != nil && node.Object != nil && vt.VWire(node))
	vt.VEntry(func() { domain.VaxSize(expr) })
	vt.VDecreases(domain.VSize(expr))
	if err == nil {
		n := vSetOf(node)
		vt.VUse(func() bool { return vOK(tree) })
		vt.VUse(func() bool { return vt.VForall(func(trail string, q domain.VQuery) bool { return vG(tree, trail, q) }) })
		vt.VUse(func() bool {
			return vt.VForall(func(trail string, q domain.VQuery) bool { return domain.VE(expr, n, trail, q) })
		})
		vt.VEnsures("C01 C04: a goal tree", vOK(tree) && vTree(tree) && !vIsPath(tree))
		vt.VEnsures("C01: the tree stands for the expression", vt.VForall(func(trail string, q domain.VQuery) bool {
			return q.Pol.GetId() != pid || vG(tree, trail, q) == domain.VE(expr, n, trail, q)
		}))
		vt.VUse(func() bool {
			return vt.VForall(func(out GoalTree, trail string, p *domain.Policy) bool { return vEx(tree, out, trail, p) })
		})
		vt.VUse(func() bool {
			return vt.VForall(func(out GoalTree, trail string, p *domain.Policy) bool { return vX(expr, n, out, trail, p) })
		})
		vt.VEnsures("C04: explored, the tree is the expansion of the expression", vt.VForall(func(out GoalTree, trail string, p *domain.Policy) bool {
			return p.GetId() != pid || !vEx(tree, out, trail, p) || vX(expr, n, out, trail, p)
		}))
		vt.VUse(func() bool { return vt.VForall(func(p *domain.Policy) bool { return vU(tree, p) }) })
		vt.VUse(func() bool { return vt.VForall(func(p *domain.Policy) bool { domain.VaxPart(p, expr); return true }) })
		vt.VUse(func() bool {
			return vt.VForall(func(p *domain.Policy, m domain.VNode) bool { domain.VaxUn(p, expr, n, m); return true })
		})
		vt.VEnsures("C02: nodes of the policy", vt.VForall(func(p *domain.Policy) bool {
			return p.GetId() != pid || !domain.VPart(p, expr) || !domain.VUn(p, domain.VNid(n)) || vU(tree, p)
		}))
	}
}

//vc:contract (*goalTreeBuilder).Build
//vc:props C01 C02 C04
func vcBuild(b *goalTreeBuilder, ctx context.Context, pol *domain.Policy, node *domain.RelationNode, tree GoalTree, err error) {
	vt.VRequires("builder", vBuilder(b))
	vt.VRequires("policy", pol != nil && vt.VWire(pol) && policy.VUniqueNames(pol) && policy.VComplete(pol))
	vt.VRequires("node", node != nil && vt.VWire(node) && domain.VNodeOK(node) && domain.VNodeOf(node).Kind == 2)
	if err == nil {
		vt.VUse(func() bool { return vt.VForall(func(i, j int) bool { policy.VaxRelOf(pol, i, j); return true }) })
		n := domain.VNodeOf(node)
		vt.VEnsures("C01 C04: a goal tree", vOK(tree) && vTree(tree) && !vIsPath(tree))
		vt.VEnsures("C01: the tree stands for the relation", vt.VForall(func(trail string, q domain.VQuery) bool {
			return q.Pol != pol || vG(tree, trail, q) == domain.VRelE(domain.VRelOf(pol, n.Res, n.Rel), n, trail, q)
		}))
		vt.VUse(func() bool {
			return vt.VForall(func(e string, t *domain.RelationExpressionTree, out GoalTree, trail string) bool {
				vaxXExpr(e, t, n, out, trail, pol)
				return true
			})
		})
		vt.VEnsures("C04: explored, the tree is the expansion of the relation", vt.VForall(func(out GoalTree, trail string) bool {
			return !vEx(tree, out, trail, pol) || vXRel(domain.VRelOf(pol, n.Res, n.Rel), n, out, trail, pol)
		}))
		vt.VUse(func() bool {
			return vt.VForall(func(t *domain.RelationExpressionTree) bool { policy.VaxPartOf(pol, n.Res, n.Rel, t); return true })
		})
		vt.VEnsures("C02: nodes of the policy", !domain.VUn(pol, domain.VNid(n)) || vU(tree, pol))
	}
}

// vU: the paths of the tree are nodes the search can come across
//
//vc:def
func vU(t GoalTree, p *domain.Policy) bool {
	switch x := t.(type) {
	case *ORNode:
		return vt.VForall(func(i int) bool { return !(0 <= i && i < len(x.Paths)) || vU(x.Paths[i], p) })
	case *ANDNode:
		return vt.VForall(func(i int) bool { return !(0 <= i && i < len(x.Paths)) || vU(x.Paths[i], p) })
	case *DifferenceNode:
		return vU(x.Left, p) && vU(x.Right, p)
	case *PathNode:
		return domain.VUn(p, domain.VNid(domain.VNodeOf(x.RelationNode)))
	}
	return true
}

// vDepth is the height of an unexplored tree
//
//vc:uninterp
func vDepth(t GoalTree) int { return 0 }

//vc:axiom
func vaxDepth(t GoalTree) {
	vt.VEnsures("height", vDepth(t) >= 0)
	if vOK(t) {
		vt.VEnsures("operands", vt.VForall(func(i int) bool { return !vIn(t, i) || 0 <= vDepth(vKid(t, i)) && vDepth(vKid(t, i)) < vDepth(t) }))
		if x, ok := t.(*DifferenceNode); ok {
			vt.VEnsures("sides", 0 <= vDepth(x.Left) && vDepth(x.Left) < vDepth(t) && 0 <= vDepth(x.Right) && vDepth(x.Right) < vDepth(t))
		}
	}
}

// vJust: in an explored tree every result follows from the children (unknown: not explored, or a cycle)
//
//vc:def
func vJust(t GoalTree, q domain.VQuery) bool {
	if vRes(t) == SearchResult_UNKNOWN {
		return true
	}
	ok := vRes(t) == SearchResult_SUCCESS
	if !ok && vRes(t) != SearchResult_FAILURE {
		return false
	}
	switch x := t.(type) {
	case *ORNode:
		return ok == vt.VExists(func(i int) bool { return 0 <= i && i < len(x.Paths) && vRes(x.Paths[i]) == SearchResult_SUCCESS }) &&
			vt.VForall(func(i int) bool { return !(0 <= i && i < len(x.Paths)) || vTree(x.Paths[i]) && vJust(x.Paths[i], q) })
	case *ANDNode:
		return ok == vt.VForall(func(i int) bool { return !(0 <= i && i < len(x.Paths)) || vRes(x.Paths[i]) == SearchResult_SUCCESS }) &&
			vt.VForall(func(i int) bool { return !(0 <= i && i < len(x.Paths)) || vTree(x.Paths[i]) && vJust(x.Paths[i], q) })
	case *DifferenceNode:
		return ok == (vRes(x.Left) == SearchResult_SUCCESS && vRes(x.Right) != SearchResult_SUCCESS) &&
			vTree(x.Left) && vTree(x.Right) && vJust(x.Left, q) && vJust(x.Right, q)
	case *PathNode:
		if x.Path == nil {
			return ok == domain.VGoal(domain.VNodeOf(x.RelationNode), q)
		}
		return ok == (domain.VGoal(domain.VNodeOf(x.RelationNode), q) || vRes(x.Path) == SearchResult_SUCCESS) && vTree(x.Path) && vJust(x.Path, q)
	}
	return false
}

// vX: out is the full expansion of the expression at the entity set n
//
//vc:def
func vX(t *domain.RelationExpressionTree, n domain.VNode, out GoalTree, trail string, pol *domain.Policy) bool {
	switch x := t.GetNode().(type) {
	case *domain.RelationExpressionTree_Rule:
		return vXRule(x.Rule, n, out, trail, pol)
	case *domain.RelationExpressionTree_OpNode:
		l, r := x.OpNode.GetLeft(), x.OpNode.GetRight()
		switch x.OpNode.GetOperator() {
		case domain.Operator_UNION:
			or, ok := out.(*ORNode)
			return ok && len(or.Paths) == 2 && vX(l, n, or.Paths[0], trail, pol) && vX(r, n, or.Paths[1], trail, pol)
		case domain.Operator_INTERSECTION:
			and, ok := out.(*ANDNode)
			return ok && len(and.Paths) == 2 && vX(l, n, and.Paths[0], trail, pol) && vX(r, n, and.Paths[1], trail, pol)
		case domain.Operator_DIFFERENCE:
			diff, ok := out.(*DifferenceNode)
			return ok && vX(l, n, diff.Left, trail, pol) && vX(r, n, diff.Right, trail, pol)
		}
	}
	return false
}

// vXRule: a path for each node of the rule, and no other
//
//vc:def
func vXRule(rule *domain.Rule, n domain.VNode, out GoalTree, trail string, pol *domain.Policy) bool {
	or, ok := out.(*ORNode)
	return ok && vt.VForall(func(i int, m domain.VNode) bool {
		return !(0 <= i && i < len(or.Paths) && m == domain.VNodeOf(vPath(or.Paths[i]).RelationNode)) || domain.VSucc(rule, n, m, pol)
	}) && vt.VForall(func(i int) bool {
		return !(0 <= i && i < len(or.Paths)) || vIsPath(or.Paths[i]) && vXPath(or.Paths[i], trail, pol)
	}) && vt.VForall(func(m domain.VNode) bool {
		return !domain.VSucc(rule, n, m, pol) || vt.VExists(func(i int) bool {
			return 0 <= i && i < len(or.Paths) && m == domain.VNodeOf(vPath(or.Paths[i]).RelationNode)
		})
	})
}

func vPath(t GoalTree) *PathNode {
	p, _ := t.(*PathNode)
	return p
}

// vXPath: the path is expanded unless it is cyclic or has no relation
//
//vc:def
func vXPath(out GoalTree, trail string, pol *domain.Policy) bool {
	p, ok := out.(*PathNode)
	if !ok {
		return false
	}
	n := domain.VNodeOf(p.RelationNode)
	if domain.VTrailHas(trail, domain.VNid(n)) || n.Kind != 2 {
		return p.Path == nil
	}
	return vXRel(domain.VRelOf(pol, n.Res, n.Rel), n, p.Path, domain.VTrailAdd(trail, domain.VNid(n)), pol)
}

// vXExpr is vX of the tree the text stands for
//
//vc:uninterp
func vXExpr(expr string, n domain.VNode, out GoalTree, trail string, pol *domain.Policy) bool {
	return false
}

//vc:axiom
func vaxXExpr(expr string, t *domain.RelationExpressionTree, n domain.VNode, out GoalTree, trail string, pol *domain.Policy) {
	vt.VEnsures("the text stands for the tree", !domain.VParsed(expr, t) || vX(t, n, out, trail, pol) == vXExpr(expr, n, out, trail, pol))
}

func vXRel(r *domain.Relation, n domain.VNode, out GoalTree, trail string, pol *domain.Policy) bool {
	switch x := r.GetRelationExpression().GetExpression().(type) {
	case *domain.RelationExpression_Expr:
		return vXExpr(x.Expr, n, out, trail, pol)
	case *domain.RelationExpression_Tree:
		return vX(x.Tree, n, out, trail, pol)
	}
	return false
}

// vEx: out is the unexplored tree with every path expanded
//
//vc:def
func vEx(t, out GoalTree, trail string, pol *domain.Policy) bool {
	switch x := t.(type) {
	case *ORNode:
		or, ok := out.(*ORNode)
		return ok && len(or.Paths) == len(x.Paths) && vt.VForall(func(i int) bool { return !(0 <= i && i < len(x.Paths)) || vEx(x.Paths[i], or.Paths[i], trail, pol) })
	case *ANDNode:
		and, ok := out.(*ANDNode)
		return ok && len(and.Paths) == len(x.Paths) && vt.VForall(func(i int) bool { return !(0 <= i && i < len(x.Paths)) || vEx(x.Paths[i], and.Paths[i], trail, pol) })
	case *DifferenceNode:
		diff, ok := out.(*DifferenceNode)
		return ok && vEx(x.Left, diff.Left, trail, pol) && vEx(x.Right, diff.Right, trail, pol)
	case *PathNode:
		p, ok := out.(*PathNode)
		return ok && p.RelationNode == x.RelationNode && vXPath(out, trail, pol)
	}
	return false
}

// vQ is what a search of the goal is about
func vQ(pol *domain.Policy, goal *Goal) domain.VQuery {
	if goal.Target == nil {
		return domain.VQuery{pol, false, "", ""}
	}
	t := domain.VNodeOf(goal.Target)
	return domain.VQuery{pol, true, t.Res, t.Id}
}

// vAt: the nodes seen are those of the trail
func vAt(s *Searcher, trail string) bool {
	return vt.VForall(func(x string) bool {
		_, ok := s.seenNodes[x]
		return ok == domain.VTrailHas(trail, x)
	})
}

func vSearcher(s *Searcher) bool {
	return s != nil && s.logger != nil && s.seenNodes != nil && vBuilder(&s.builder)
}

func vGoal(goal *Goal) bool {
	return goal != nil && (goal.Target == nil || vt.VWire(goal.Target) && domain.VNodeOK(goal.Target) && domain.VNodeOf(goal.Target).Kind == 1)
}

func vPolicy(pol *domain.Policy) bool {
	return pol != nil && vt.VWire(pol) && policy.VUniqueNames(pol) && policy.VComplete(pol)
}

func vRes(t GoalTree) SearchResult {
	switch x := t.(type) {
	case *ORNode:
		return x.Result
	case *ANDNode:
		return x.Result
	case *DifferenceNode:
		return x.Result
	case *PathNode:
		return x.Result
	}
	return SearchResult_UNKNOWN
}

// vlRaw: an unexplored tree has no results
//
//vc:lemma
//vc:props C03
func vlRaw(t GoalTree, q domain.VQuery) {
	vt.VRequires("tree", vTree(t) && vOK(t))
	vt.VUse(func() bool { return vOK(t) })
	vt.VUse(func() bool { return vJust(t, q) })
	vt.VEnsures("C03: not explored", vRes(t) == SearchResult_UNKNOWN && vJust(t, q))
}

// vsEnds: every call explores an operand, or a node that is not on the trail
func vsEnds(s *Searcher, pol *domain.Policy, tree GoalTree, phase int) {
	vt.VUse(func() bool { return vU(tree, pol) })
	vt.VRequires("C02: nodes of the policy", vU(tree, pol))
	vt.VEntry(func() { vaxDepth(tree) })
	vt.VDecreases3(vt.VLeft(s.seenNodes, func(id string) bool { return domain.VUn(pol, id) }), vDepth(tree), phase)
}

// vsSearch is the contract of the functions that search a goal tree
func vsSearch(s *Searcher, pol *domain.Policy, tree GoalTree, goal *Goal, out GoalTree, err error) {
	vt.VRequires("searcher", vSearcher(s))
	vt.VRequires("policy", vPolicy(pol))
	vt.VRequires("goal", vGoal(goal))
	vt.VUse(func() bool { return vOK(tree) })
	vt.VRequires("tree", vTree(tree) && vOK(tree))
	if err == nil {
		vt.VUse(func() bool { return vt.VForall(func(trail string) bool { return vG(tree, trail, vQ(pol, goal)) }) })
		vt.VUse(func() bool { return vJust(out, vQ(pol, goal)) })
		vt.VUse(func() bool {
			return vt.VForall(func(i int) bool {
				if vIn(tree, i) {
					vlRaw(vKid(tree, i), vQ(pol, goal))
				}
				return true
			})
		})
		vt.VEnsures("C01 C03 C04: a tree", vTree(out))
		vt.VEnsures("C03: every result follows from the children", vJust(out, vQ(pol, goal)))
		vt.VEnsures("C01 C03: operations are decided", vIsPath(tree) || vRes(out) == SearchResult_SUCCESS || vRes(out) == SearchResult_FAILURE)
		vt.VUse(func() bool { return vt.VForall(func(trail string) bool { return vEx(tree, out, trail, pol) }) })
		vt.VEnsures("C04: nothing is found without a subject", goal.Target != nil || vRes(out) != SearchResult_SUCCESS)
		vt.VEnsures("C04: without a subject everything is expanded", goal.Target != nil || vt.VForall(func(trail string) bool {
			return !vAt(s, trail) || vEx(tree, out, trail, pol)
		}))
		vt.VEnsures("C01 C02 C03: the subject is found exactly when it is a member", vt.VForall(func(trail string) bool {
			return !vAt(s, trail) || (vRes(out) == SearchResult_SUCCESS) == vG(tree, trail, vQ(pol, goal))
		}))
	}
}

//vc:contract (*Searcher).search
//vc:props C01 C02 C03 C04
//vc:group search
func vcSearch(s *Searcher, ctx context.Context, pol *domain.Policy, tree GoalTree, goal *Goal, out GoalTree, err error) {
	vsEnds(s, pol, tree, 1)
	vsSearch(s, pol, tree, goal, out, err)
}

//vc:contract (*Searcher).searchAND
//vc:props C01 C02 C03 C04
//vc:group search
func vcSearchAND(s *Searcher, ctx context.Context, pol *domain.Policy, tree *ANDNode, goal *Goal, out GoalTree, err error) {
	vsEnds(s, pol, tree, 0)
	vsSearch(s, pol, tree, goal, out, err)
}

//vc:contract (*Searcher).searchOR
//vc:props C01 C02 C03 C04
//vc:group search
func vcSearchOR(s *Searcher, ctx context.Context, pol *domain.Policy, tree *ORNode, goal *Goal, out GoalTree, err error) {
	vsEnds(s, pol, tree, 0)
	vsSearch(s, pol, tree, goal, out, err)
}

//vc:contract (*Searcher).searchDifference
//vc:props C01 C02 C03 C04
//vc:group search
func vcSearchDiff(s *Searcher, ctx context.Context, pol *domain.Policy, tree *DifferenceNode, goal *Goal, out GoalTree, err error) {
	vsEnds(s, pol, tree, 0)
	vsSearch(s, pol, tree, goal, out, err)
}

//vc:contract (*Searcher).searchPath
//vc:props C01 C02 C03 C04
//vc:group search
func vcSearchPath(s *Searcher, ctx context.Context, pol *domain.Policy, tree *PathNode, goal *Goal, out GoalTree, err error) {
	vt.VUse(func() bool { return vt.VForall(func(t, id, x string) bool { domain.VaxTrail(t, id, x); return true }) })
	if err == nil {
		vt.VUse(func() bool {
			return vt.VForall(func(trail string) bool { return domain.VD(domain.VNodeOf(tree.RelationNode), trail, vQ(pol, goal)) })
		})
	}
	if err == nil {
		vt.VUse(func() bool { return vt.VForall(func(trail string) bool { return vXPath(out, trail, pol) }) })
	}
	vsEnds(s, pol, tree, 0)
	vsSearch(s, pol, tree, goal, out, err)
}

//vc:interface relation_graph.NodeRepository.ListEdges
func viListEdges(r NodeRepository, ctx context.Context, pid string, pairs []types.Pair[*domain.RelationNode, *domain.RelationNode], err error) {
	VsListEdges(pid, pairs, err)
}

func vFirst(p types.Pair[*domain.RelationNode, *domain.RelationNode]) *domain.RelationNode {
	return p.First()
}

func vSecond(p types.Pair[*domain.RelationNode, *domain.RelationNode]) *domain.RelationNode {
	return p.Second()
}

// VsListEdges is the contract of ListEdges
func VsListEdges(pid string, pairs []types.Pair[*domain.RelationNode, *domain.RelationNode], err error) {
	vt.VFresh(pairs)
	vt.VEnsures("C05 C17: a read fails only if the store does", !domain.VStoreOK() || err == nil)
	if err == nil {
		vt.VEnsures("C05 C17: complete nodes", vt.VForall(func(i int) bool {
			return !(0 <= i && i < len(pairs)) || vFirst(pairs[i]) != nil && vt.VWire(vFirst(pairs[i])) && domain.VNodeOK(vFirst(pairs[i])) && domain.VNodeOf(vFirst(pairs[i])).Kind == 2 &&
				vSecond(pairs[i]) != nil && vt.VWire(vSecond(pairs[i])) && domain.VNodeOK(vSecond(pairs[i]))
		}))
		vt.VEnsures("C05 C17 C09: only stored relationships", vt.VForall(func(i int) bool {
			return !(0 <= i && i < len(pairs)) || domain.VRels.Has(domain.VRK(pid, domain.VNodeOf(vFirst(pairs[i])), domain.VNodeOf(vSecond(pairs[i]))))
		}))
		vt.VEnsures("C05 C17: every stored relationship", vt.VForall(func(n, m domain.VNode) bool {
			return !(n.Kind == 2 && domain.VRels.Has(domain.VRK(pid, n, m))) || vt.VExists(func(i int) bool {
				return 0 <= i && i < len(pairs) && domain.VNodeOf(vFirst(pairs[i])) == n && domain.VNodeOf(vSecond(pairs[i])) == m
			})
		}))
		vt.VEnsures("C05 C17: each relationship once", vt.VForall(func(i, j int) bool {
			return !(0 <= i && i < j && j < len(pairs)) || domain.VNodeOf(vFirst(pairs[i])) != domain.VNodeOf(vFirst(pairs[j])) || domain.VNodeOf(vSecond(pairs[i])) != domain.VNodeOf(vSecond(pairs[j]))
		}))
	}
}
