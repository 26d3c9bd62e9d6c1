package relation_graph

import (
	"context"

	"github.com/sourcenetwork/zanzi/internal/policy"
	vt "github.com/sourcenetwork/zanzi/internal/utils"
	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

//vc:contract (*Searcher).Search
//vc:props C01 C02 C03 C04
func vcSearchTop(s *Searcher, ctx context.Context, pol *domain.Policy, origin *domain.RelationNode, goal *Goal, out GoalTree, err error) {
	vt.VRequires("searcher", vSearcher(s))
	vt.VRequires("policy", vPolicy(pol))
	vt.VRequires("goal", vGoal(goal))
	vt.VRequires("origin", origin != nil && vt.VWire(origin) && domain.VNodeOK(origin))
	vt.VEntry(func() { domain.VaxOrigin(pol, domain.VNodeOf(origin)) })
	vt.VUse(func() bool { return vt.VForall(func(t GoalTree) bool { return !vIsPath(t) || vU(t, pol) }) })
	if err == nil {
		n := domain.VNodeOf(origin)
		vt.VUse(func() bool { return vt.VForall(func(t GoalTree) bool { return !vIsPath(t) || vOK(t) }) })
		vt.VUse(func() bool {
			return vt.VForall(func(t GoalTree, trail string) bool { return !vIsPath(t) || vG(t, trail, vQ(pol, goal)) })
		})
		vt.VUse(func() bool {
			return vt.VForall(func(t GoalTree, trail string) bool { return !vIsPath(t) || vEx(t, out, trail, pol) })
		})
		vt.VEnsures("C01 C03 C04: a tree", vTree(out))
		vt.VEnsures("C03: every result follows from the children", vJust(out, vQ(pol, goal)))
		vt.VEnsures("C01 C03: the subject is found exactly when it is a member", vt.VForall(func(trail string) bool {
			return !vAt(s, trail) || (vRes(out) == SearchResult_SUCCESS) == domain.VD(n, trail, vQ(pol, goal))
		}))
		vt.VEnsures("C04: without a subject everything is expanded", goal.Target != nil || vt.VForall(func(trail string) bool {
			return !vAt(s, trail) || vIsPath(out) && vPath(out).RelationNode == origin && vXPath(out, trail, pol)
		}))
	}
}

// vText is the text of a goal tree in a format
//
//vc:uninterp
func vText(f api.ExplainFormat, t GoalTree) string { return "" }

func vFormat(s GoalTreeSerializer) api.ExplainFormat {
	switch s.(type) {
	case *spewSerializer:
		return api.ExplainFormat_SPEW
	case *jsonSerializer:
		return api.ExplainFormat_JSON
	case *dotSerializer:
		return api.ExplainFormat_DOT
	}
	return -1
}

//vc:interface relation_graph.GoalTreeSerializer.Serialize
func viSerialize(s GoalTreeSerializer, t GoalTree, text string, err error) {
	vt.VRequires("tree", vTree(t))
	vt.VEnsures("C03 C04: every tree has a text", err == nil)
	vt.VEnsures("C03 C04: the text of the tree", text == vText(vFormat(s), t))
}

func vKnownFormat(f api.ExplainFormat) bool {
	return f == api.ExplainFormat_SPEW || f == api.ExplainFormat_JSON || f == api.ExplainFormat_DOT
}

func vService(s *Service) bool {
	return s != nil && s.logger != nil && s.repository != nil && s.policyRepository != nil
}

func vAccess(r *domain.AccessRequest) bool { return r.GetObject() != nil && r.GetSubject() != nil }

// vAllowed: the subject is a member of the relation of the object under the stored policy
func vAllowed(pid string, r *domain.AccessRequest) bool {
	n := domain.VNode{2, r.GetObject().GetResource(), r.GetObject().GetId(), r.GetRelation()}
	return domain.VD(n, domain.VTrailNone(), vRequested(pid, r))
}

func vRequested(pid string, r *domain.AccessRequest) domain.VQuery {
	return domain.VQuery{domain.VPolicies.Get(pid).Policy, true, r.GetSubject().GetResource(), r.GetSubject().GetId()}
}

func vStart() {
	vt.VEntry(func() {
		vt.VForall(func(id string) bool {
			if domain.VPolicies.Has(id) {
				policy.VlValid(domain.VPolicies.Get(id).Policy)
			}
			return true
		})
	})
	vt.VUse(func() bool { return vt.VForall(func(x string) bool { domain.VaxTrailNone(x); return true }) })
}

//vc:contract (*Service).Check
//vc:props C01
//vc:top
func vcCheck(s *Service, ctx context.Context, req *api.CheckRequest, resp *api.CheckResponse, err error) {
	vt.VRequires("service", vService(s) && req != nil && vt.VWire(req))
	vt.VRequires("store", policy.VStoreInv())
	vStart()
	vt.VEnsures("C01: a decision or an error", (err == nil) == (resp.GetResult() != nil) && (err == nil) == (resp != nil))
	if err == nil {
		vt.VEnsures("C01 C12: only of a stored policy and a complete request", domain.VPolicies.Has(req.GetPolicyId()) && vAccess(req.GetAccessRequest()))
		vt.VEnsures("C01 C02: authorized exactly when the subject is a member", resp.GetResult().GetAuthorized() == vAllowed(req.GetPolicyId(), req.GetAccessRequest()))
	}
}

//vc:contract (*Service).ExplainCheck
//vc:props C03
//vc:top
func vcExplainCheck(s *Service, ctx context.Context, req *api.ExplainCheckRequest, resp *api.ExplainCheckResponse, err error) {
	vt.VRequires("service", vService(s) && req != nil && vt.VWire(req))
	vt.VRequires("store", policy.VStoreInv())
	vStart()
	vt.VEnsures("C03: a decision or an error", (err == nil) == (resp != nil))
	if err == nil {
		vt.VEnsures("C03: only of a stored policy, a complete request and a known format", domain.VPolicies.Has(req.GetPolicyId()) && vAccess(req.GetAccessRequest()) && vKnownFormat(req.GetFormat()))
		vt.VEnsures("C03: authorized exactly when the subject is a member", resp.GetAuthorized() == vAllowed(req.GetPolicyId(), req.GetAccessRequest()))
		vt.VEnsures("C03: the format is named", resp.GetFormat() == req.GetFormat())
		vt.VEnsures("C03: the text is that of a tree that justifies the decision", vt.VExists(func(t GoalTree) bool {
			return resp.GetGoalTree() == vText(req.GetFormat(), t) && vTree(t) && (vRes(t) == SearchResult_SUCCESS) == resp.GetAuthorized() && vJust(t, vRequested(req.GetPolicyId(), req.GetAccessRequest()))
		}))
	}
}

//vc:contract (*Service).Expand
//vc:props C04
//vc:top
func vcExpand(s *Service, ctx context.Context, req *api.ExpandRequest, resp *api.ExpandResponse, err error) {
	vt.VRequires("service", vService(s) && req != nil && vt.VWire(req))
	vt.VRequires("store", policy.VStoreInv())
	vStart()
	vt.VEnsures("C04: an answer or an error", (err == nil) == (resp != nil))
	if err == nil {
		vt.VEnsures("C04: only of a stored policy, a complete root and a known format", domain.VPolicies.Has(req.GetPolicyId()) && domain.VNodeOK(req.GetRoot()) && vKnownFormat(req.GetFormat()))
		vt.VEnsures("C04: the format is named", resp.GetFormat() == req.GetFormat())
		vt.VEnsures("C04: the text is that of the full expansion of the root", vt.VExists(func(t GoalTree) bool {
			return resp.GetGoalTree() == vText(req.GetFormat(), t) && vIsPath(t) && vPath(t).RelationNode == req.GetRoot() && vXPath(t, domain.VTrailNone(), domain.VPolicies.Get(req.GetPolicyId()).Policy)
		}))
	}
}

// The walk over the relationships and the rendering of its result are bounded (harness): only their use is specified.

//vc:uninterp
func vWalkOf(t *domain.RelationTree, policyId string) bool { return false }

//vc:uninterp
func vDot(t *domain.RelationTree) string { return "" }

//vc:extern (*github.com/sourcenetwork/zanzi/internal/relation_graph.walker).Walk
func vxWalk(w *walker, ctx context.Context, pol *domain.Policy, t *domain.RelationTree, err error) {
	vt.VRequires("policy", pol != nil)
	vt.VEnsures("forest of the policy's relationships", err != nil || t != nil && vWalkOf(t, pol.GetId()))
}

//vc:extern (*github.com/sourcenetwork/zanzi/internal/relation_graph.RelationTreeDOTSerializer).Serialize
func vxSerializeDot(s *RelationTreeDOTSerializer, t *domain.RelationTree, text string, err error) {
	vt.VRequires("tree", t != nil)
	vt.VEnsures("text", err != nil || text == vDot(t))
}

//vc:contract (*Service).DumpRelationships
//vc:props C05
//vc:top
func vcDump(s *Service, ctx context.Context, req *api.DumpRelationshipsRequest, resp *api.DumpRelationshipResponse, err error) {
	vt.VRequires("service", vService(s) && req != nil && vt.VWire(req))
	vt.VRequires("store", policy.VStoreInv())
	vt.VEnsures("C05: a dump or an error", (err == nil) == (resp != nil))
	if err == nil {
		vt.VEnsures("C05: only of a stored policy in a known format", domain.VPolicies.Has(req.GetPolicyId()) && req.GetFormat() == api.DumpRelationshipsRequest_DOT)
		vt.VEnsures("C05 C09: the text is that of the forest of this policy's relationships", vt.VExists(func(t *domain.RelationTree) bool {
			return vWalkOf(t, req.GetPolicyId()) && resp.GetDot() == vDot(t)
		}))
	}
}
