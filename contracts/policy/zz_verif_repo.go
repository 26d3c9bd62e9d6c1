package policy

import (
	"google.golang.org/protobuf/types/known/timestamppb"
	"context"

	vt "github.com/sourcenetwork/zanzi/internal/utils"
	"github.com/sourcenetwork/zanzi/pkg/domain"
	"github.com/sourcenetwork/zanzi/pkg/types"
)

//vc:interface policy.Repository.GetPolicy
func viGetPolicy(s Repository, ctx context.Context, id string, rec *domain.PolicyRecord, err error) {
	VsGetPolicy(id, rec, err)
}

// VsGetPolicy is the contract of GetPolicy
func VsGetPolicy(id string, rec *domain.PolicyRecord, err error) {
	vt.VFresh(rec)
	vt.VEnsures("C13 C09: a read fails only if the store does", !domain.VStoreOK() || err == nil)
	vt.VEnsures("C13: no record with an error", err == nil || rec == nil)
	vt.VEnsures("C13 C12 C09: a record exactly for a stored policy", err != nil || (rec != nil) == domain.VPolicies.Has(id))
	if rec != nil {
		vt.VEnsures("C13 C09: definition", rec.Policy == domain.VPolicies.Get(id).Policy)
		vt.VEnsures("C13 C09: app data", string(rec.AppData) == string(domain.VPolicies.Get(id).AppData))
		vt.VEnsures("C13 C09: creation time", rec.CreatedAt == domain.VPolicies.Get(id).Created)
	}
}

//vc:interface policy.Repository.SetPolicy
func viSetPolicy(s Repository, ctx context.Context, rec *domain.PolicyRecord, found types.RecordFound, err error) {
	VsSetPolicy(rec, found, err)
}

func VsSetPolicy(rec *domain.PolicyRecord, found types.RecordFound, err error) {
	vt.VRequires("record", rec != nil && rec.Policy != nil)
	vt.VEnsures("C13: a write fails only if the store does", !domain.VStoreOK() || err == nil)
	vt.VEnsures("C13: found", err != nil || bool(found) == vt.VOld(func() bool { return domain.VPolicies.Has(rec.Policy.Id) }))
	if err != nil {
		vt.VHavoc(&domain.VPolicies)
	} else {
		vt.VSet(&domain.VPolicies, func(id string) (bool, domain.VPol) {
			if id == rec.Policy.Id {
				return true, domain.VPol{Policy: rec.Policy, AppData: rec.AppData, Created: rec.CreatedAt}
			}
			return domain.VPolicies.Has(id), domain.VPolicies.Get(id)
		})
	}
}

//vc:interface policy.Repository.DeletePolicy
func viDeletePolicy(s Repository, ctx context.Context, id string, found types.RecordFound, err error) {
	VsDeletePolicy(id, found, err)
}

func VsDeletePolicy(id string, found types.RecordFound, err error) {
	vt.VEnsures("C12: a deletion fails only if the store does", !domain.VStoreOK() || err == nil)
	vt.VEnsures("C12: found", err != nil || bool(found) == vt.VOld(func() bool { return domain.VPolicies.Has(id) }))
	if err != nil {
		vt.VHavoc(&domain.VPolicies)
	} else {
		vt.VSet(&domain.VPolicies, func(x string) (bool, domain.VPol) {
			return domain.VPolicies.Has(x) && x != id, domain.VPolicies.Get(x)
		})
	}
}

//vc:interface policy.Repository.ListPolicyIds
func viListPolicyIds(s Repository, ctx context.Context, ids []string, err error) {
	VsListPolicyIds(ids, err)
}

func VsListPolicyIds(ids []string, err error) {
	vt.VFresh(ids)
	vt.VEnsures("C13: listing fails only if the store does", !domain.VStoreOK() || err == nil)
	if err == nil {
		vt.VEnsures("C13 C12 C09: listed ids are stored", vt.VForall(func(i int) bool { return !(0 <= i && i < len(ids)) || domain.VPolicies.Has(ids[i]) }))
		vt.VEnsures("C13 C12 C09: stored ids are listed", vt.VForall(func(x string) bool {
			return !domain.VPolicies.Has(x) || vt.VExists(func(i int) bool { return 0 <= i && i < len(ids) && ids[i] == x })
		}))
		vt.VEnsures("C13: ids are listed once", vt.VForall(func(i, j int) bool { return !(0 <= i && i < j && j < len(ids)) || ids[i] != ids[j] }))
	}
}

//vc:interface policy.Repository.SetRelationship
func viSetRelationship(s Repository, ctx context.Context, rec *domain.RelationshipRecord, over bool, err error) {
	VsSetRelationship(rec, over, err)
}

func VsSetRelationship(rec *domain.RelationshipRecord, over bool, err error) {
	vt.VRequires("record", rec != nil && rec.Relationship != nil && vt.VWire(rec.Relationship) && domain.VComplete(rec.Relationship))
	vt.VEnsures("C08: a write fails only if the store does", !domain.VStoreOK() || err == nil)
	key := domain.VKey(rec.PolicyId, rec.Relationship)
	vt.VEnsures("C08: overwritten", err != nil || over == vt.VOld(func() bool { return domain.VRels.Has(key) }))
	if err != nil {
		vt.VHavoc(&domain.VRels)
		vt.VHavoc(&domain.VRelCreated)
	} else {
		vt.VSet(&domain.VRels, func(k domain.VRelKey) (bool, []byte) {
			if k == key {
				return true, rec.AppData
			}
			return domain.VRels.Has(k), domain.VRels.Get(k)
		})
		vt.VSet(&domain.VRelCreated, func(k domain.VRelKey) (bool, *vTime) {
			if k == key {
				return true, rec.CreatedAt
			}
			return domain.VRelCreated.Has(k), domain.VRelCreated.Get(k)
		})
	}
}

//vc:interface policy.Repository.DeleteRelationship
func viDeleteRelationship(s Repository, ctx context.Context, pid string, rel *domain.Relationship, found types.RecordFound, err error) {
	VsDeleteRelationship(pid, rel, found, err)
}

func VsDeleteRelationship(pid string, rel *domain.Relationship, found types.RecordFound, err error) {
	vt.VRequires("relationship", rel != nil && vt.VWire(rel) && domain.VComplete(rel))
	vt.VEnsures("C11: a deletion fails only if the store does", !domain.VStoreOK() || err == nil)
	key := domain.VKey(pid, rel)
	vt.VEnsures("C08 C11: found", err != nil || bool(found) == vt.VOld(func() bool { return domain.VRels.Has(key) }))
	if err != nil {
		vt.VHavoc(&domain.VRels)
		vt.VHavoc(&domain.VRelCreated)
	} else {
		vt.VSet(&domain.VRels, func(k domain.VRelKey) (bool, []byte) {
			return domain.VRels.Has(k) && k != key, domain.VRels.Get(k)
		})
		vt.VSet(&domain.VRelCreated, func(k domain.VRelKey) (bool, *vTime) {
			return domain.VRelCreated.Has(k) && k != key, domain.VRelCreated.Get(k)
		})
	}
}

//vc:interface policy.Repository.GetRelationship
func viGetRelationship(s Repository, ctx context.Context, pid string, rel *domain.Relationship, rec *domain.RelationshipRecord, err error) {
	VsGetRelationship(pid, rel, rec, err)
}

// vRecordOf: the record holds what is stored under the key
func vRecordOf(rec *domain.RelationshipRecord, pid string) bool {
	k := domain.VKey(pid, rec.GetRelationship())
	return rec != nil && rec.PolicyId == pid && rec.Relationship != nil && vt.VWire(rec.Relationship) && domain.VRels.Has(k) &&
		string(rec.AppData) == string(domain.VRels.Get(k)) && rec.CreatedAt == domain.VRelCreated.Get(k)
}

func VsGetRelationship(pid string, rel *domain.Relationship, rec *domain.RelationshipRecord, err error) {
	vt.VRequires("relationship", rel != nil && vt.VWire(rel) && domain.VComplete(rel))
	vt.VFresh(rec)
	vt.VEnsures("C08: a read fails only if the store does", !domain.VStoreOK() || err == nil)
	vt.VEnsures("C08: no record with an error", err == nil || rec == nil)
	vt.VEnsures("C08 C09 C11 C17: a record exactly for a stored relationship", err != nil || (rec != nil) == domain.VRels.Has(domain.VKey(pid, rel)))
	if rec != nil {
		vt.VEnsures("C08 C09: the record of the relationship", vRecordOf(rec, pid) && domain.VKey(pid, rec.Relationship) == domain.VKey(pid, rel))
	}
}

//vc:interface policy.Repository.FindRelationships
func viFindRelationships(s Repository, ctx context.Context, pid string, sel *domain.RelationshipSelector, rels []*domain.Relationship, err error) {
	VsFindRelationships(pid, sel, rels, err)
}

func VsFindRelationships(pid string, sel *domain.RelationshipSelector, rels []*domain.Relationship, err error) {
	vt.VRequires("wire", vt.VWire(sel))
	vt.VFresh(rels)
	vt.VEnsures("C10: a search fails only for an incomplete selector or a failing store", (err == nil || !vSelectorComplete(sel)) || !domain.VStoreOK())
	vt.VEnsures("C10: an incomplete selector is refused", err != nil || vSelectorComplete(sel))
	if err == nil {
		vt.VEnsures("C10 C17: relationships are complete", vt.VForall(func(i int) bool { return !(0 <= i && i < len(rels)) || rels[i] != nil && vt.VWire(rels[i]) && domain.VComplete(rels[i]) }))
		at := func(i int) domain.VRelKey { return domain.VKey(pid, rels[i]) }
		vt.VEnsures("C10 C17 C09: stored and matching relationships only", domain.VEnumSound(len(rels), at, pid, sel))
		vt.VEnsures("C10 C17 C09: all matching relationships", domain.VEnumAll(len(rels), at, pid, sel))
		vt.VEnsures("C10: each relationship once", domain.VEnumOnce(len(rels), at))
		vt.VAssign(&domain.VScratchEnum, func(i int) (bool, domain.VRelKey) { return true, domain.VKey(pid, rels[i]) })
	}
}

//vc:interface policy.Repository.FindRelationshipRecords
func viFindRelationshipRecords(s Repository, ctx context.Context, pid string, sel *domain.RelationshipSelector, recs []*domain.RelationshipRecord, err error) {
	VsFindRelationshipRecords(pid, sel, recs, err)
}

func VsFindRelationshipRecords(pid string, sel *domain.RelationshipSelector, recs []*domain.RelationshipRecord, err error) {
	vt.VRequires("wire", vt.VWire(sel))
	vt.VFresh(recs)
	vt.VEnsures("C10: a search fails only for an incomplete selector or a failing store", (err == nil || !vSelectorComplete(sel)) || !domain.VStoreOK())
	vt.VEnsures("C10: an incomplete selector is refused", err != nil || vSelectorComplete(sel))
	if err == nil {
		vt.VEnsures("C10: records hold what is stored", vt.VForall(func(i int) bool { return !(0 <= i && i < len(recs)) || vRecordOf(recs[i], pid) }))
		at := func(i int) domain.VRelKey { return domain.VKey(pid, recs[i].GetRelationship()) }
		vt.VEnsures("C10 C17 C09: stored and matching relationships only", domain.VEnumSound(len(recs), at, pid, sel))
		vt.VEnsures("C10 C17 C09: all matching relationships", domain.VEnumAll(len(recs), at, pid, sel))
		vt.VEnsures("C10: each relationship once", domain.VEnumOnce(len(recs), at))
	}
}

//vc:interface policy.Repository.DeleteRelationships
func viDeleteRelationships(s Repository, ctx context.Context, pid string, sel *domain.RelationshipSelector, n uint64, err error) {
	VsDeleteRelationships(pid, sel, n, err)
}

func VsDeleteRelationships(pid string, sel *domain.RelationshipSelector, n uint64, err error) {
	vt.VRequires("wire", vt.VWire(sel))
	vt.VEnsures("C11: a deletion fails only for an incomplete selector or a failing store", (err == nil || !vSelectorComplete(sel)) || !domain.VStoreOK())
	vt.VEnsures("C11: an incomplete selector is refused", err != nil || vSelectorComplete(sel))
	vt.VHavoc(&domain.VScratchEnum)
	found := func(i int) domain.VRelKey { return domain.VScratchEnum.Get(i) }
	if err == nil {
		vt.VEnsures("C11 C12: the number of removed relationships is reported", vt.VOld(func() bool { return domain.VEnumerates(int(n), found, pid, sel) }))
	}
	if err != nil && vSelectorComplete(sel) {
		vt.VHavoc(&domain.VRels)
		vt.VHavoc(&domain.VRelCreated)
	} else {
		vt.VSet(&domain.VRels, func(k domain.VRelKey) (bool, []byte) {
			return domain.VRels.Has(k) && !(err == nil && k.Pid == pid && domain.VMatchesKey(sel, k)), domain.VRels.Get(k)
		})
		vt.VSet(&domain.VRelCreated, func(k domain.VRelKey) (bool, *vTime) {
			return domain.VRelCreated.Has(k) && !(err == nil && k.Pid == pid && domain.VMatchesKey(sel, k)), domain.VRelCreated.Get(k)
		})
	}
}

type vTime = timestamppb.Timestamp
