package policy

import (
	"context"

	vt "github.com/sourcenetwork/zanzi/internal/utils"
	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

// vYamlOK, vYaml: the policy a YAML document defines
//
//vc:uninterp
func vYamlOK(yaml string) bool { return false }

//vc:uninterp
func vYaml(yaml string) *domain.Policy { return nil }

//vc:extern github.com/sourcenetwork/zanzi/pkg/policy_definition.PolicyFromYaml
func vxPolicyFromYaml(yaml string, p *domain.Policy, err error) {
	vt.VEnsures("reads", (err == nil) == vYamlOK(yaml))
	vt.VEnsures("policy", err != nil || p != nil && p == vYaml(yaml) && vt.VWire(p))
}

func vDefOK(d *api.PolicyDefinition) bool {
	switch x := d.GetDefinition().(type) {
	case *api.PolicyDefinition_Policy:
		return true
	case *api.PolicyDefinition_PolicyYaml:
		return vYamlOK(x.PolicyYaml)
	}
	return false
}

// vDef is the policy the definition gives
func vDef(d *api.PolicyDefinition) *domain.Policy {
	switch x := d.GetDefinition().(type) {
	case *api.PolicyDefinition_Policy:
		return x.Policy
	case *api.PolicyDefinition_PolicyYaml:
		return vYaml(x.PolicyYaml)
	}
	return nil
}

// vSamePolicies: policies other than id are as they were
func vSamePolicies(id string) bool {
	return vt.VForall(func(x string) bool {
		return x == id || domain.VPolicies.Has(x) == vt.VOld(func() bool { return domain.VPolicies.Has(x) }) &&
			domain.VPolicies.Get(x).Policy == vt.VOld(func() *domain.Policy { return domain.VPolicies.Get(x).Policy }) &&
			string(domain.VPolicies.Get(x).AppData) == vt.VOld(func() string { return string(domain.VPolicies.Get(x).AppData) }) &&
			domain.VPolicies.Get(x).Created == vt.VOld(func() *vTime { return domain.VPolicies.Get(x).Created })
	})
}

//vc:contract (*Service).CreatePolicy
//vc:props C07 C09 C13 C14
//vc:top
func vcCreatePolicy(s *Service, ctx context.Context, req *api.CreatePolicyRequest, resp *api.CreatePolicyResponse, err error) {
	vt.VRequires("service", vService(s) && req != nil && vt.VWire(req))
	vt.VRequires("store", vStoreInv() && domain.VStoreOK())
	p := vDef(req.PolicyDefinition)
	ok := vt.VOld(func() bool {
		return vDefOK(req.PolicyDefinition) && vPolicyValid(p) && !domain.VPolicies.Has(p.Id)
	})
	vt.VEnsures("C13 C14: accepted exactly when the policy is valid and its id is free", (err == nil) == ok)
	vt.VEnsures("C13: a response exactly on success", (resp != nil) == (err == nil))
	vt.VHavoc(&domain.VPolicies)
	if ok {
		vt.VEnsures("C13: the policy is stored under its id", domain.VPolicies.Has(p.Id) && domain.VPolicies.Get(p.Id).Policy == p && string(domain.VPolicies.Get(p.Id).AppData) == string(req.AppData))
		vt.VEnsures("C13: the stored record is returned", resp.Record != nil && resp.Record.Policy == p && string(resp.Record.AppData) == string(req.AppData) && resp.Record.CreatedAt == domain.VPolicies.Get(p.Id).Created)
		vt.VEnsures("C09 C13: other policies are as they were", vSamePolicies(p.Id))
	} else {
		vt.VEnsures("C07 C13: a refused policy changes nothing", vt.VForall(func(x string) bool { return vSamePolicies(x) }))
	}
	vt.VEnsures("C14: the store stays consistent", vStoreInv())
}

//vc:contract (*Service).UpdatePolicy
//vc:props C07 C09 C13 C14
//vc:top
func vcUpdatePolicy(s *Service, ctx context.Context, req *api.UpdatePolicyRequest, resp *api.UpdatePolicyResponse, err error) {
	vt.VRequires("service", vService(s) && req != nil && vt.VWire(req))
	vt.VRequires("store", vStoreInv() && domain.VStoreOK())
	p := vDef(req.PolicyDefinition)
	ok := vt.VOld(func() bool {
		return vDefOK(req.PolicyDefinition) && vPolicyValid(p) && domain.VPolicies.Has(p.Id)
	})
	vt.VEnsures("C13 C14: accepted exactly when the policy is valid and its id is in use", (err == nil) == ok)
	vt.VEnsures("C13: a response exactly on success", (resp != nil) == (err == nil))
	vt.VSet(&domain.VPolicies, func(x string) (bool, domain.VPol) {
		if ok && x == p.Id {
			return true, domain.VPol{Policy: p, AppData: req.AppData, Created: domain.VPolicies.Get(x).Created}
		}
		return domain.VPolicies.Has(x), domain.VPolicies.Get(x)
	})
	vt.VEnsures("C14: the store stays consistent", vStoreInv())
}

// vCountAll: the last search found all relationships of the policy, n of them
func vCountAll(n uint64, pid string) bool {
	return vt.VForall(func(i int) bool {
		return !(0 <= i && i < int(n)) || domain.VScratchEnum.Get(i).Pid == pid && domain.VRels.Has(domain.VScratchEnum.Get(i))
	}) && vt.VForall(func(k domain.VRelKey) bool {
		return !(k.Pid == pid && domain.VRels.Has(k)) || vt.VExists(func(i int) bool { return 0 <= i && i < int(n) && domain.VScratchEnum.Get(i) == k })
	}) && vt.VForall(func(i, j int) bool {
		return !(0 <= i && i < j && j < int(n)) || domain.VScratchEnum.Get(i) != domain.VScratchEnum.Get(j)
	})
}

//vc:contract (*Service).DeletePolicy
//vc:props C09 C12
//vc:top
func vcDeletePolicy(s *Service, ctx context.Context, req *api.DeletePolicyRequest, resp *api.DeletePolicyResponse, err error) {
	vt.VRequires("service", vService(s) && req != nil && vt.VWire(req))
	vt.VRequires("store", vStoreInv() && domain.VStoreOK())
	vt.VUse(func() bool {
		return vt.VForall(func(sel *domain.RelationshipSelector, k domain.VRelKey) bool { return domain.VSelects(sel, k) })
	})
	had := vt.VOld(func() bool { return domain.VPolicies.Has(req.Id) })
	vt.VEnsures("C12: succeeds", err == nil && resp != nil)
	vt.VEnsures("C12: found is reported", resp.Found == had)
	if had {
		n := resp.GetRelationshipsRemoved()
		vt.VEnsures("C12: the number of removed relationships is reported", vt.VOld(func() bool { return vCountAll(n, req.Id) }))
	} else {
		vt.VEnsures("C12: nothing is removed", resp.RelationshipsRemoved == 0)
	}
	vt.VSet(&domain.VPolicies, func(x string) (bool, domain.VPol) {
		return domain.VPolicies.Has(x) && x != req.Id, domain.VPolicies.Get(x)
	})
	vt.VSet(&domain.VRels, func(k domain.VRelKey) (bool, []byte) {
		return domain.VRels.Has(k) && !(had && k.Pid == req.Id), domain.VRels.Get(k)
	})
	vt.VSet(&domain.VRelCreated, func(k domain.VRelKey) (bool, *vTime) {
		return domain.VRelCreated.Has(k) && !(had && k.Pid == req.Id), domain.VRelCreated.Get(k)
	})
	vt.VEnsures("C12: the store stays consistent", vStoreInv())
}

//vc:contract (*Service).GetPolicy
//vc:props C07 C09 C12 C13
//vc:top
func vcGetPolicy(s *Service, ctx context.Context, req *api.GetPolicyRequest, resp *api.GetPolicyResponse, err error) {
	vt.VRequires("service", vService(s) && req != nil && vt.VWire(req))
	vt.VRequires("store", vStoreInv() && domain.VStoreOK())
	vt.VEnsures("C13: succeeds", err == nil && resp != nil)
	vt.VEnsures("C13 C12 C09: a record exactly for a stored policy", (resp.Record != nil) == domain.VPolicies.Has(req.Id))
	if resp.Record != nil {
		vt.VEnsures("C13 C09: the record holds what is stored", resp.Record.Policy == domain.VPolicies.Get(req.Id).Policy &&
			string(resp.Record.AppData) == string(domain.VPolicies.Get(req.Id).AppData) && resp.Record.CreatedAt == domain.VPolicies.Get(req.Id).Created)
	}
}

//vc:contract (*Service).ListPolicyIds
//vc:props C07 C12 C13
//vc:top
func vcListPolicyIds(s *Service, ctx context.Context, req *api.ListPolicyIdsRequest, resp *api.ListPolicyIdsResponse, err error) {
	vt.VRequires("service", vService(s) && req != nil && vt.VWire(req))
	vt.VRequires("store", vStoreInv() && domain.VStoreOK())
	vt.VEnsures("C13: succeeds", err == nil && resp != nil)
	vt.VEnsures("C13 C12: listed ids are stored", vt.VForall(func(i int) bool {
		return !(0 <= i && i < len(resp.Records)) || resp.Records[i] != nil && domain.VPolicies.Has(resp.Records[i].Id)
	}))
	vt.VEnsures("C13: stored ids are listed", vt.VForall(func(x string) bool {
		return !domain.VPolicies.Has(x) || vt.VExists(func(i int) bool { return 0 <= i && i < len(resp.Records) && resp.Records[i].GetId() == x })
	}))
	vt.VEnsures("C13: ids are listed once", vt.VForall(func(i, j int) bool {
		return !(0 <= i && i < j && j < len(resp.Records)) || resp.Records[i].GetId() != resp.Records[j].GetId()
	}))
}

//vc:contract (*Service).DeleteRelationship
//vc:props C07 C08 C09 C11
//vc:top
func vcDeleteRelationship(s *Service, ctx context.Context, req *api.DeleteRelationshipRequest, resp *api.DeleteRelationshipResponse, err error) {
	vt.VRequires("service", vService(s) && req != nil && vt.VWire(req))
	vt.VRequires("store", vStoreInv() && domain.VStoreOK())
	key := domain.VKey(req.PolicyId, req.Relationship)
	ok := vRequiredFields(req.Relationship)
	vt.VEnsures("C11: succeeds exactly for a complete relationship", (err == nil) == ok && (resp != nil) == ok)
	vt.VEnsures("C08 C11: found is reported", err != nil || resp.Found == vt.VOld(func() bool { return domain.VRels.Has(key) }))
	vt.VSet(&domain.VRels, func(k domain.VRelKey) (bool, []byte) {
		return domain.VRels.Has(k) && !(ok && k == key), domain.VRels.Get(k)
	})
	vt.VSet(&domain.VRelCreated, func(k domain.VRelKey) (bool, *vTime) {
		return domain.VRelCreated.Has(k) && !(ok && k == key), domain.VRelCreated.Get(k)
	})
	vt.VEnsures("C11: the store stays consistent", vStoreInv())
}

//vc:contract (*Service).GetRelationship
//vc:props C07 C08 C09 C11 C17
//vc:top
func vcGetRelationship(s *Service, ctx context.Context, req *api.GetRelationshipRequest, resp *api.GetRelationshipResponse, err error) {
	vt.VRequires("service", vService(s) && req != nil && vt.VWire(req))
	vt.VRequires("store", vStoreInv() && domain.VStoreOK())
	ok := vRequiredFields(req.Relationship)
	key := domain.VKey(req.PolicyId, req.Relationship)
	vt.VEnsures("C08: succeeds exactly for a complete relationship", (err == nil) == ok && (resp != nil) == ok)
	if err == nil {
		vt.VEnsures("C08 C09 C11 C17: a record exactly for a stored relationship", (resp.Record != nil) == domain.VRels.Has(key))
		if resp.Record != nil {
			vt.VEnsures("C08 C09 C17: the record holds what is stored", vRecordOf(resp.Record, req.PolicyId) && domain.VKey(req.PolicyId, resp.Record.Relationship) == key)
		}
	}
}

//vc:contract (*Service).FindRelationshipRecords
//vc:props C07 C09 C10 C17 C19
//vc:top
func vcFindRelationshipRecords(s *Service, ctx context.Context, req *api.FindRelationshipRecordsRequest, resp *api.FindRelationshipRecordsResponse, err error) {
	vt.VRequires("service", vService(s) && req != nil && vt.VWire(req))
	vt.VRequires("store", vStoreInv() && domain.VStoreOK())
	ok := domain.VPolicies.Has(req.PolicyId) && vSelectorValid(req.Selector, domain.VPolicies.Get(req.PolicyId).Policy)
	vt.VEnsures("C19: accepted exactly when the policy exists and the selector names what it declares", (err == nil) == ok)
	vt.VEnsures("C10: a response exactly on success", (resp != nil) == ok)
	if err == nil {
		vt.VEnsures("C10 C09: records hold what is stored", vt.VForall(func(i int) bool {
			return !(0 <= i && i < len(resp.GetResult().GetRecords())) || vRecordOf(resp.GetResult().GetRecords()[i], req.PolicyId)
		}))
		vt.VEnsures("C10 C17 C09: exactly the matching relationships", domain.VEnumerates(len(resp.GetResult().GetRecords()), func(i int) domain.VRelKey {
			return domain.VKey(req.PolicyId, resp.GetResult().GetRecords()[i].GetRelationship())
		}, req.PolicyId, req.Selector))
	}
}

//vc:contract (*Service).DeleteRelationships
//vc:props C07 C09 C11
//vc:top
func vcDeleteRelationships(s *Service, ctx context.Context, req *api.DeleteRelationshipsRequest, resp *api.DeleteRelationshipsResponse, err error) {
	vt.VRequires("service", vService(s) && req != nil && vt.VWire(req))
	vt.VRequires("store", vStoreInv() && domain.VStoreOK())
	ok := vSelectorComplete(req.Selector)
	vt.VEnsures("C11: succeeds exactly for a complete selector", (err == nil) == ok && (resp != nil) == ok)
	if err == nil {
		n := resp.GetRecordsAffected()
		vt.VEnsures("C11: the number of removed relationships is reported", vt.VOld(func() bool { return domain.VFoundAre(n, req.PolicyId, req.Selector) }))
	}
	vt.VSet(&domain.VRels, func(k domain.VRelKey) (bool, []byte) {
		return domain.VRels.Has(k) && !(ok && k.Pid == req.PolicyId && domain.VMatchesKey(req.Selector, k)), domain.VRels.Get(k)
	})
	vt.VSet(&domain.VRelCreated, func(k domain.VRelKey) (bool, *vTime) {
		return domain.VRelCreated.Has(k) && !(ok && k.Pid == req.PolicyId && domain.VMatchesKey(req.Selector, k)), domain.VRelCreated.Get(k)
	})
	vt.VEnsures("C11: the store stays consistent", vStoreInv())
}
