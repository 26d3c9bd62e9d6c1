package domain

import (
	vt "github.com/sourcenetwork/zanzi/internal/utils"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// The contents of the store, as every operation sees it. Messages in it are values: a reference stands for its contents.

// VRelKey identifies a relationship of a policy by its components.
type VRelKey struct {
	Pid, ObjRes, ObjId, Rel string
	Kind                    int // 1 entity, 2 entity set, 3 wildcard
	SRes, SId, SRel         string
}

type VPol struct {
	Policy  *Policy
	AppData []byte
	Created *timestamppb.Timestamp
}

var VPolicies vt.VGhost[string, VPol]
var VRels vt.VGhost[VRelKey, []byte]

// VScratchEnum: the relationships the last search found, in order
var VScratchEnum vt.VGhost[int, VRelKey]
var VRelCreated vt.VGhost[VRelKey, *timestamppb.Timestamp]

// VStoreOK: the underlying store does not fail
//
//vc:uninterp
func VStoreOK() bool { return true }

// VKey is the key of a complete relationship
func VKey(pid string, r *Relationship) VRelKey {
	k := VRelKey{Pid: pid, ObjRes: r.GetObject().GetResource(), ObjId: r.GetObject().GetId(), Rel: r.GetRelation()}
	switch s := r.GetSubject().GetSubject().(type) {
	case *Subject_Entity:
		k.Kind, k.SRes, k.SId = 1, s.Entity.GetResource(), s.Entity.GetId()
	case *Subject_EntitySet:
		k.Kind, k.SRes, k.SId, k.SRel = 2, s.EntitySet.GetEntity().GetResource(), s.EntitySet.GetEntity().GetId(), s.EntitySet.GetRelation()
	case *Subject_ResourceSet:
		k.Kind, k.SRes = 3, s.ResourceSet.GetResourceName()
	}
	return k
}

// VKeyOK: the key of a complete relationship
func VKeyOK(k VRelKey) bool {
	if k.ObjRes == "" || k.ObjId == "" || k.Rel == "" || k.SRes == "" {
		return false
	}
	return k.Kind == 1 && k.SId != "" && k.SRel == "" || k.Kind == 2 && k.SId != "" && k.SRel != "" || k.Kind == 3 && k.SId == "" && k.SRel == ""
}

// VComplete: the relationship names everything it has to
func VComplete(r *Relationship) bool { return VKeyOK(VKey("", r)) }

// VKeysOK: only complete relationships are stored
func VKeysOK() bool {
	return vt.VForall(func(k VRelKey) bool { return !VRels.Has(k) || VKeyOK(k) })
}

// VMatchesKey: the relationship with this key satisfies the selector
func VMatchesKey(s *RelationshipSelector, k VRelKey) bool {
	k.Pid = ""
	return VSelects(s, k)
}

// VSelects is VMatchesKey for the components other than the policy
//
//vc:def
func VSelects(s *RelationshipSelector, k VRelKey) bool {
	switch o := s.GetObjectSelector().GetSelector().(type) {
	case *ObjectSelector_ObjectSpec:
		if o.ObjectSpec.GetResource() != k.ObjRes || o.ObjectSpec.GetId() != k.ObjId {
			return false
		}
	case *ObjectSelector_ResourceSpec:
		if o.ResourceSpec != k.ObjRes {
			return false
		}
	}
	switch x := s.GetRelationSelector().GetSelector().(type) {
	case *RelationSelector_RelationName:
		if k.Rel != x.RelationName {
			return false
		}
	}
	switch x := s.GetSubjectSelector().GetSelector().(type) {
	case *SubjectSelector_SubjectSpec:
		switch y := x.SubjectSpec.GetSubject().(type) {
		case *Subject_Entity:
			return k.Kind == 1 && k.SRes == y.Entity.GetResource() && k.SId == y.Entity.GetId()
		case *Subject_EntitySet:
			return k.Kind == 2 && y.EntitySet.GetEntity() != nil && k.SRes == y.EntitySet.GetEntity().GetResource() && k.SId == y.EntitySet.GetEntity().GetId() && k.SRel == y.EntitySet.GetRelation()
		case *Subject_ResourceSet:
			return k.Kind == 3 && k.SRes == y.ResourceSet.GetResourceName()
		}
		return false
	case *SubjectSelector_ResourceSpec:
		return k.SRes == x.ResourceSpec
	}
	return true
}

// VFoundAre: the last search found the matching relationships of the policy
func VFoundAre(n uint64, pid string, s *RelationshipSelector) bool {
	return VEnumerates(int(n), func(i int) VRelKey { return VScratchEnum.Get(i) }, pid, s)
}

// VListed: the records are the matching relationships of the policy, each once
func VEnumerates(n int, at func(i int) VRelKey, pid string, s *RelationshipSelector) bool {
	return VEnumSound(n, at, pid, s) && VEnumAll(n, at, pid, s) && VEnumOnce(n, at)
}

func VEnumSound(n int, at func(i int) VRelKey, pid string, s *RelationshipSelector) bool {
	return vt.VForall(func(i int) bool {
		return !(0 <= i && i < n) || at(i).Pid == pid && VRels.Has(at(i)) && VMatchesKey(s, at(i))
	})
}

func VEnumAll(n int, at func(i int) VRelKey, pid string, s *RelationshipSelector) bool {
	return vt.VForall(func(k VRelKey) bool {
		return !(k.Pid == pid && VRels.Has(k) && VMatchesKey(s, k)) || vt.VExists(func(i int) bool { return 0 <= i && i < n && at(i) == k })
	})
}

func VEnumOnce(n int, at func(i int) VRelKey) bool {
	return vt.VForall(func(i, j int) bool {
		return !(0 <= i && i < j && j < n) || at(i) != at(j)
	})
}
