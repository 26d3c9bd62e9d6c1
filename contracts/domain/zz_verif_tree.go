package domain

import vt "github.com/sourcenetwork/zanzi/internal/utils"

// VSize is the number of nodes of an expression tree; messages are finite trees.
//
//vc:uninterp
func VSize(t *RelationExpressionTree) int { return 0 }

//vc:axiom
func VaxSize(t *RelationExpressionTree) {
	vt.VEnsures("size", VSize(t) >= 0)
	if o, ok := t.GetNode().(*RelationExpressionTree_OpNode); ok {
		vt.VEnsures("operands", VSize(o.OpNode.GetLeft()) >= 0 && VSize(o.OpNode.GetRight()) >= 0)
		vt.VEnsures("operands are smaller", VSize(o.OpNode.GetLeft()) < VSize(t) && VSize(o.OpNode.GetRight()) < VSize(t))
	}
}

// VWellFormed: every operation has a known operator and both operands
//
//vc:def
func VWellFormed(t *RelationExpressionTree) bool {
	switch n := t.GetNode().(type) {
	case *RelationExpressionTree_Rule:
		return true
	case *RelationExpressionTree_OpNode:
		switch n.OpNode.GetOperator() {
		case Operator_UNION, Operator_INTERSECTION, Operator_DIFFERENCE:
			return VWellFormed(n.OpNode.GetLeft()) && VWellFormed(n.OpNode.GetRight())
		}
	}
	return false
}

// VInTree: r is a rule of the tree
//
//vc:def
func VInTree(t *RelationExpressionTree, r *Rule) bool {
	switch n := t.GetNode().(type) {
	case *RelationExpressionTree_Rule:
		return n.Rule == r
	case *RelationExpressionTree_OpNode:
		return VInTree(n.OpNode.GetLeft(), r) || VInTree(n.OpNode.GetRight(), r)
	}
	return false
}

//vc:contract (*RelationExpressionTree).getRules
//vc:props C14
func vcGetRules(tree *RelationExpressionTree, acc []*Rule, res []*Rule) {
	vt.VRequires("tree", tree != nil && vt.VWire(tree) && VWellFormed(tree))
	vt.VUse(func() bool { return VWellFormed(tree) && VWellFormed(nil) })
	vt.VUse(func() bool { return vt.VForall(func(r *Rule) bool { return VInTree(tree, r) }) })
	vt.VRequires("collected rules", vt.VForall(func(i int) bool { return !(0 <= i && i < len(acc)) || acc[i] != nil && vt.VWire(acc[i]) }))
	vt.VEnsures("rules are complete", vt.VForall(func(i int) bool { return !(0 <= i && i < len(res)) || res[i] != nil && vt.VWire(res[i]) }))
	vt.VEnsures("rules are collected", vt.VForall(func(r *Rule) bool {
		return vt.VExists(func(i int) bool { return 0 <= i && i < len(res) && res[i] == r }) ==
			(VInTree(tree, r) || vt.VExists(func(i int) bool { return 0 <= i && i < len(acc) && acc[i] == r }))
	}))
}
