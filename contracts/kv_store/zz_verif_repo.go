package kv_store

import (
	"context"

	rcdb "github.com/sourcenetwork/raccoondb"

	vt "github.com/sourcenetwork/zanzi/internal/utils"
	"github.com/sourcenetwork/zanzi/internal/policy"
	"github.com/sourcenetwork/zanzi/pkg/domain"
	"github.com/sourcenetwork/zanzi/pkg/types"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// namespaces of the store under consideration
//
//vc:uninterp
func vBase1() string { return "" }

//vc:uninterp
func vBase2() string { return "" }

//vc:uninterp
func vBase3() string { return "" }

func vKvOK(kv *KVStore) bool {
	return kv != nil && vPolNs(kv.policyStore) == vBase1() && vNs(kv.relationshipPrefixKV) == vBase2() && vNs(kv.relationshipDataPrefixKV) == vBase3() &&
		kv.relationshipPrefixKV != nil && kv.relationshipDataPrefixKV != nil
}

func vRepoOK(r *policyRepository) bool {
	return r != nil && vKvOK(r.kvStore) && r.relationshipIDer != nil && vIderKeyed(r.relationshipIDer)
}

//vc:contract NewKVStore
//vc:props C08 C09 C13
//vc:top
func vcNewKVStore(store rcdb.KVStore, out KVStore, err error) {
	vt.VEnsures("C08 C09 C13: policies, relationships and their data have separate namespaces", vPolNs(out.policyStore) == vNs(out.policyPrefixKV) &&
		vNs(out.policyPrefixKV) != vNs(out.relationshipPrefixKV) && vNs(out.policyPrefixKV) != vNs(out.relationshipDataPrefixKV) && vNs(out.relationshipPrefixKV) != vNs(out.relationshipDataPrefixKV))
	vt.VEnsures("C08: succeeds", err == nil && out.relationshipPrefixKV != nil && out.relationshipDataPrefixKV != nil)
}

//vc:contract newPolicyRepository
//vc:props C08 C10 C11
//vc:top
func vcNewPolicyRepository(store *KVStore, out policyRepository) {
	vt.VEnsures("C08 C10 C11: relationships are identified by the keys of their nodes", out.kvStore == store && out.relationshipIDer != nil && vIderKeyed(out.relationshipIDer))
}

func vTypeKind(t RelationType) int {
	switch t {
	case RelationType_OBJECT:
		return 1
	case RelationType_OBJECT_SET:
		return 2
	case RelationType_RESOURCE_SET:
		return 3
	}
	return 0
}

func vNs2(pid string) string { return vJoin(vBase2(), string(policyKeyPrefix(pid))) }
func vNs3(pid string) string { return vJoin(vBase3(), string(policyKeyPrefix(pid))) }

// vSrc, vDst: the keys of the object and of the subject
func vSrc(k domain.VRelKey) string { return vNK(RelationType_OBJECT_SET, k.ObjRes, k.ObjId, k.Rel) }

func vStored(k domain.VRelKey, t RelationType) (bool, vData) {
	src, dst := vSrc(k), vNK(t, k.SRes, k.SId, k.SRel)
	return gEdge.Has(vEdgeKey{vNs2(k.Pid), src, dst}), gData.Get(vObjKey{vNs3(k.Pid), vPair(src, dst)})
}

func vEntry(k domain.VRelKey) (bool, vData) {
	if domain.VKeyOK(k) {
		switch k.Kind {
		case 1:
			return vStored(k, RelationType_OBJECT)
		case 2:
			return vStored(k, RelationType_OBJECT_SET)
		case 3:
			return vStored(k, RelationType_RESOURCE_SET)
		}
	}
	return false, vData{}
}

func vKeyOfEdge(pid string, c vEdge) domain.VRelKey {
	return domain.VRelKey{Pid: pid, ObjRes: c.SRes, ObjId: c.SId, Rel: c.SRel, Kind: vTypeKind(c.DType), SRes: c.DRes, SId: c.DId, SRel: c.DRel}
}

//vc:model pkg/domain.VRels
func vmRels(k domain.VRelKey) (bool, []byte) {
	has, d := vEntry(k)
	return has, d.AppData
}

//vc:model pkg/domain.VRelCreated
func vmRelCreated(k domain.VRelKey) (bool, *timestamppb.Timestamp) {
	has, d := vEntry(k)
	return has, d.Created
}

//vc:model pkg/domain.VPolicies
func vmPolicies(id string) (bool, domain.VPol) {
	return gPol.Has(vObjKey{vBase1(), id}), gPol.Get(vObjKey{vBase1(), id})
}

// vRep: every relationship has its data, and edges are the relationships they are stored under
func vRep() bool {
	return vt.VForall(func(pid, a, b string) bool {
		return gEdge.Has(vEdgeKey{vNs2(pid), a, b}) == gData.Has(vObjKey{vNs3(pid), vPair(a, b)})
	}) && vt.VForall(func(pid, a, b string) bool {
		c := gEdge.Get(vEdgeKey{vNs2(pid), a, b})
		return !gEdge.Has(vEdgeKey{vNs2(pid), a, b}) || c.SType == RelationType_OBJECT_SET && a == vNK(c.SType, c.SRes, c.SId, c.SRel) && b == vNK(c.DType, c.DRes, c.DId, c.DRel) &&
			domain.VKeyOK(vKeyOfEdge(pid, c))
	})
}

//vc:contract (*policyRepository).GetPolicy
//vc:props C09 C12 C13
//vc:top
func vcRepoGetPolicy(r *policyRepository, ctx context.Context, id string, rec *domain.PolicyRecord, err error) {
	vt.VRequires("repository", vRepoOK(r))
	policy.VsGetPolicy(id, rec, err)
}

//vc:contract (*policyRepository).SetPolicy
//vc:props C07 C09 C13
//vc:top
//vc:inline
func vcRepoSetPolicy(r *policyRepository, ctx context.Context, rec *domain.PolicyRecord, found types.RecordFound, err error) {
	vt.VRequires("repository", vRepoOK(r))
	vt.VHavoc(&gPol)
	policy.VsSetPolicy(rec, found, err)
}

//vc:contract (*policyRepository).DeletePolicy
//vc:props C07 C09 C12
//vc:top
//vc:inline
func vcRepoDeletePolicy(r *policyRepository, ctx context.Context, id string, found types.RecordFound, err error) {
	vt.VRequires("repository", vRepoOK(r))
	vt.VHavoc(&gPol)
	policy.VsDeletePolicy(id, found, err)
}

//vc:contract (*policyRepository).SetRelationship
//vc:props C07 C08 C09 C17
//vc:top
//vc:inline
func vcRepoSetRelationship(r *policyRepository, ctx context.Context, rec *domain.RelationshipRecord, over bool, err error) {
	vt.VRequires("repository", vRepoOK(r) && vRep())
	vt.VHavoc(&gEdge)
	vt.VHavoc(&gData)
	policy.VsSetRelationship(rec, over, err)
	vt.VEnsures("C08: relationships keep their data", err != nil || vRep())
}

//vc:contract (*policyRepository).DeleteRelationship
//vc:props C07 C08 C09 C11 C17
//vc:top
//vc:inline
func vcRepoDeleteRelationship(r *policyRepository, ctx context.Context, pid string, rel *domain.Relationship, found types.RecordFound, err error) {
	vt.VRequires("repository", vRepoOK(r) && vRep())
	vt.VHavoc(&gEdge)
	vt.VHavoc(&gData)
	policy.VsDeleteRelationship(pid, rel, found, err)
	vt.VEnsures("C08 C11: relationships keep their data", err != nil || vRep())
}

//vc:contract (*policyRepository).GetRelationship
//vc:props C08 C09 C11 C17
//vc:top
func vcRepoGetRelationship(r *policyRepository, ctx context.Context, pid string, rel *domain.Relationship, rec *domain.RelationshipRecord, err error) {
	vt.VRequires("repository", vRepoOK(r) && vRep())
	policy.VsGetRelationship(pid, rel, rec, err)
}

//vc:contract (*policyRepository).FindRelationships
//vc:props C09 C10 C11 C17
//vc:top
func vcRepoFindRelationships(r *policyRepository, ctx context.Context, pid string, sel *domain.RelationshipSelector, rels []*domain.Relationship, err error) {
	vt.VRequires("repository", vRepoOK(r) && vRep())
	policy.VsFindRelationships(pid, sel, rels, err)
}

//vc:contract (*policyRepository).FindRelationshipRecords
//vc:props C09 C10 C17
//vc:top
func vcRepoFindRelationshipRecords(r *policyRepository, ctx context.Context, pid string, sel *domain.RelationshipSelector, recs []*domain.RelationshipRecord, err error) {
	vt.VRequires("repository", vRepoOK(r) && vRep())
	policy.VsFindRelationshipRecords(pid, sel, recs, err)
}

//vc:contract (*relationshipMapper).FromInternal
//vc:props C10 C11
func vcFromInternal(m *relationshipMapper, e *Relationship, out domain.Relationship) {
	vt.VRequires("edge", e != nil && e.Source != nil && e.Dest != nil && e.Source.Type == RelationType_OBJECT_SET && domain.VKeyOK(vKeyOfEdge("", vContent(e))))
	vt.VFresh(out.Object)
	vt.VFresh(out.Subject)
	vt.VEnsures("complete", vt.VWire(&out) && domain.VComplete(&out))
	vt.VEnsures("components", domain.VKey("", &out) == vKeyOfEdge("", vContent(e)))
}
