package domain

import vt "github.com/sourcenetwork/zanzi/internal/utils"

// Expression trees as values: free constructors, and the value of a tree of messages

//vc:uninterp
//vc:injective
func VThisV() *RelationExpressionTree { return nil }

//vc:uninterp
//vc:injective
func VCUV(relation string) *RelationExpressionTree { return nil }

//vc:uninterp
//vc:injective
func VTTUV(tupleset, relation string) *RelationExpressionTree { return nil }

//vc:uninterp
//vc:injective
func VOpV(left *RelationExpressionTree, op Operator, right *RelationExpressionTree) *RelationExpressionTree {
	return nil
}

//vc:uninterp
func VNoneV() *RelationExpressionTree { return nil }

// VVal: the value of a tree
//
//vc:def
func VVal(t *RelationExpressionTree) *RelationExpressionTree {
	switch n := t.GetNode().(type) {
	case *RelationExpressionTree_Rule:
		switch r := n.Rule.GetRule().(type) {
		case *Rule_This:
			return VThisV()
		case *Rule_Cu:
			return VCUV(r.Cu.GetTargetRelation())
		case *Rule_Ttu:
			return VTTUV(r.Ttu.GetTuplesetRelation(), r.Ttu.GetComputedUsersetRelation())
		}
	case *RelationExpressionTree_OpNode:
		return VOpV(VVal(n.OpNode.GetLeft()), n.OpNode.GetOperator(), VVal(n.OpNode.GetRight()))
	}
	return VNoneV()
}

//vc:contract ThisNode
//vc:props C15 C14
func vcThisNode(t *RelationExpressionTree) {
	vt.VUse(func() bool { return VVal(t) == nil })
	vt.VUse(func() bool { return VWellFormed(t) })
	vt.VFresh(t)
	vt.VEnsures("C14: complete", VWellFormed(t))
	vt.VEnsures("C15: _this", t != nil && VVal(t) == VThisV())
}

//vc:contract CUNode
//vc:props C15 C14
func vcCUNode(relation string, t *RelationExpressionTree) {
	vt.VUse(func() bool { return VVal(t) == nil })
	vt.VUse(func() bool { return VWellFormed(t) })
	vt.VFresh(t)
	vt.VEnsures("C14: complete", VWellFormed(t))
	vt.VEnsures("C15: computed userset", t != nil && VVal(t) == VCUV(relation))
}

//vc:contract TTUNode
//vc:props C15 C14
func vcTTUNode(tupleset, relation string, t *RelationExpressionTree) {
	vt.VUse(func() bool { return VVal(t) == nil })
	vt.VUse(func() bool { return VWellFormed(t) })
	vt.VFresh(t)
	vt.VEnsures("C14: complete", VWellFormed(t))
	vt.VEnsures("C15: tuple to userset", t != nil && VVal(t) == VTTUV(tupleset, relation))
}

//vc:contract NewOpNode
//vc:props C15 C14
func vcNewOpNode(left *RelationExpressionTree, op Operator, right *RelationExpressionTree, t *RelationExpressionTree) {
	vt.VUse(func() bool { return VVal(t) == nil })
	vt.VUse(func() bool { return VWellFormed(t) })
	vt.VFresh(t)
	vt.VEnsures("C14: complete", !VWellFormed(left) || !VWellFormed(right) || op != Operator_UNION && op != Operator_INTERSECTION && op != Operator_DIFFERENCE || VWellFormed(t))
	vt.VEnsures("C15: operation", t != nil && VVal(t) == VOpV(VVal(left), op, VVal(right)))
}
