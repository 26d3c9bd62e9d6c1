package policy

import (
	"context"

	vt "github.com/sourcenetwork/zanzi/internal/utils"
	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

// vStoreInv: stored policies are well formed and stored under their id, stored relationships are complete
func vStoreInv() bool {
	return vt.VForall(func(id string) bool {
		return !domain.VPolicies.Has(id) || domain.VPolicies.Get(id).Policy != nil && vt.VWire(domain.VPolicies.Get(id).Policy) &&
			vPolicyValid(domain.VPolicies.Get(id).Policy) && domain.VPolicies.Get(id).Policy.Id == id
	}) && domain.VKeysOK()
}

func vService(s *Service) bool { return s != nil && s.repository != nil }

//vc:contract (*Service).SetRelationship
//vc:props C06 C07 C08 C09
//vc:top
func vcSetRelationship(s *Service, ctx context.Context, req *api.SetRelationshipRequest, resp *api.SetRelationshipResponse, err error) {
	vt.VRequires("service", vService(s) && req != nil && vt.VWire(req))
	vt.VRequires("store", vStoreInv() && domain.VStoreOK())
	ok := vt.VOld(func() bool {
		return domain.VPolicies.Has(req.PolicyId) && vAllowed(req.Relationship, domain.VPolicies.Get(req.PolicyId).Policy)
	})
	key := domain.VKey(req.PolicyId, req.Relationship)
	vt.VEnsures("C06: accepted exactly when the policy exists and allows it", (err == nil) == ok)
	vt.VEnsures("C06: a response exactly on success", (resp != nil) == (err == nil))
	vt.VEnsures("C08: overwritten is reported", err != nil || resp.RecordOverwritten == vt.VOld(func() bool { return domain.VRels.Has(key) }))
	vt.VSet(&domain.VRels, func(k domain.VRelKey) (bool, []byte) {
		if ok && k == key {
			return true, req.AppData
		}
		return domain.VRels.Has(k), domain.VRels.Get(k)
	})
	vt.VHavoc(&domain.VRelCreated)
	vt.VEnsures("C07 C08 C09: other creation times are kept", vt.VForall(func(k domain.VRelKey) bool {
		return ok && k == key || domain.VRelCreated.Has(k) == vt.VOld(func() bool { return domain.VRelCreated.Has(k) }) && domain.VRelCreated.Get(k) == vt.VOld(func() *vTime { return domain.VRelCreated.Get(k) })
	}))
	vt.VEnsures("C06: the store stays consistent", vStoreInv())
}
