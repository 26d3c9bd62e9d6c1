package policy

import (
	"github.com/sourcenetwork/zanzi/pkg/domain"
	vt "github.com/sourcenetwork/zanzi/internal/utils"
)

// vNamed: resources and relations have names
func vNamed(p *domain.Policy) bool {
	return vt.VForall(func(i int) bool {
		return !(0 <= i && i < len(p.GetResources())) || p.GetResources()[i].GetName() != ""
	}) && vt.VForall(func(i, k int) bool {
		return !(0 <= i && i < len(p.GetResources()) && 0 <= k && k < len(p.GetResources()[i].GetRelations())) ||
			p.GetResources()[i].GetRelations()[k].GetName() != ""
	})
}

// vSubjectResource is the resource of a subject
func vSubjectResource(s *domain.Subject) string {
	switch x := s.GetSubject().(type) {
	case *domain.Subject_Entity:
		return x.Entity.GetResource()
	case *domain.Subject_EntitySet:
		return x.EntitySet.GetEntity().GetResource()
	case *domain.Subject_ResourceSet:
		return x.ResourceSet.GetResourceName()
	}
	return ""
}

// vSelectorValid: the selector names only what the policy declares
func vSelectorValid(s *domain.RelationshipSelector, p *domain.Policy) bool {
	resource := ""
	anyObject := false
	switch o := s.GetObjectSelector().GetSelector().(type) {
	case *domain.ObjectSelector_ObjectSpec:
		resource = o.ObjectSpec.GetResource()
	case *domain.ObjectSelector_ResourceSpec:
		resource = o.ResourceSpec
	case *domain.ObjectSelector_Wildcard:
		anyObject = true
	default:
		return false
	}
	if !anyObject && !vHasResource(p, resource) {
		return false
	}
	switch r := s.GetRelationSelector().GetSelector().(type) {
	case *domain.RelationSelector_RelationName:
		if anyObject {
			if !vt.VExists(func(i, j int) bool {
				return i >= 0 && i < len(p.GetResources()) && j >= 0 && j < len(p.GetResources()[i].GetRelations()) &&
					p.GetResources()[i].GetRelations()[j].GetName() == r.RelationName
			}) {
				return false
			}
		} else if !vHasRelation(p, resource, r.RelationName) {
			return false
		}
	case *domain.RelationSelector_Wildcard:
	default:
		return false
	}
	switch x := s.GetSubjectSelector().GetSelector().(type) {
	case *domain.SubjectSelector_SubjectSpec:
		return vHasResource(p, vSubjectResource(x.SubjectSpec))
	case *domain.SubjectSelector_ResourceSpec:
		return vHasResource(p, x.ResourceSpec)
	case *domain.SubjectSelector_Wildcard:
		return true
	}
	return false
}

//vc:contract (*ValidSelectorSpec).Satisfies
//vc:props C19
func vcSelectorSatisfies(s *ValidSelectorSpec, selector *domain.RelationshipSelector, policy *domain.Policy, err error) {
	vt.VRequires("wire", vt.VWire(selector) && policy != nil && vt.VWire(policy))
	vt.VRequires("names", vNamed(policy) && vUniqueNames(policy))
	vt.VEnsures("C19: a selector passes exactly when it names what the policy declares", (err == nil) == vSelectorValid(selector, policy))
}

// vSameEntity, vSameSubject: equal components
func vSameEntity(a, b *domain.Entity) bool {
	return (a == nil) == (b == nil) && a.GetResource() == b.GetResource() && a.GetId() == b.GetId()
}

func vSameSubject(a, b *domain.Subject) bool {
	if (a == nil) != (b == nil) {
		return false
	}
	switch x := a.GetSubject().(type) {
	case *domain.Subject_Entity:
		y, ok := b.GetSubject().(*domain.Subject_Entity)
		return ok && vSameEntity(x.Entity, y.Entity)
	case *domain.Subject_EntitySet:
		y, ok := b.GetSubject().(*domain.Subject_EntitySet)
		return ok && vSameEntity(x.EntitySet.GetEntity(), y.EntitySet.GetEntity()) && x.EntitySet.GetRelation() == y.EntitySet.GetRelation()
	case *domain.Subject_ResourceSet:
		y, ok := b.GetSubject().(*domain.Subject_ResourceSet)
		return ok && x.ResourceSet.GetResourceName() == y.ResourceSet.GetResourceName()
	}
	return b.GetSubject() == nil
}

// vMatches: the relationship satisfies the selector
func vMatches(s *domain.RelationshipSelector, r *domain.Relationship) bool {
	switch o := s.GetObjectSelector().GetSelector().(type) {
	case *domain.ObjectSelector_ObjectSpec:
		if !vSameEntity(o.ObjectSpec, r.GetObject()) {
			return false
		}
	case *domain.ObjectSelector_ResourceSpec:
		if r.GetObject().GetResource() != o.ResourceSpec {
			return false
		}
	}
	switch x := s.GetRelationSelector().GetSelector().(type) {
	case *domain.RelationSelector_RelationName:
		if r.GetRelation() != x.RelationName {
			return false
		}
	}
	switch x := s.GetSubjectSelector().GetSelector().(type) {
	case *domain.SubjectSelector_SubjectSpec:
		return vSameSubject(x.SubjectSpec, r.GetSubject())
	case *domain.SubjectSelector_ResourceSpec:
		return r.GetSubject().GetSubject() != nil && vSubjectResource(r.GetSubject()) == x.ResourceSpec
	}
	return true
}

// vSelectorComplete: every part of the selector is set
func vSelectorComplete(s *domain.RelationshipSelector) bool {
	return s.GetObjectSelector().GetSelector() != nil && s.GetRelationSelector().GetSelector() != nil && s.GetSubjectSelector().GetSelector() != nil
}

//vc:lemma
//vc:props C10 C11
func vlSelectorMatcher(selector *domain.RelationshipSelector, r *domain.Relationship) {
	vt.VRequires("wire", vt.VWire(selector) && r != nil && vt.VWire(r))
	spec, err := NewSelectorMatcher(selector)
	vt.VEnsures("a selector is usable exactly when it is complete", (err == nil) == vSelectorComplete(selector))
	if err == nil {
		vt.VEnsures("a relationship is selected exactly when it matches", spec.Satisfies(r) == vMatches(selector, r))
	}
}

//vc:lemma
//vc:props C10 C11
func vlMatchesKey(selector *domain.RelationshipSelector, r *domain.Relationship, pid string) {
	vt.VRequires("wire", vt.VWire(selector) && r != nil && vt.VWire(r) && domain.VComplete(r))
	vt.VUse(func() bool { return domain.VMatchesKey(selector, domain.VKey(pid, r)) })
	vt.VEnsures("matching is a matter of the relationship's components", vMatches(selector, r) == domain.VMatchesKey(selector, domain.VKey(pid, r)))
}

// vSpecSel is the selector a matcher was made from. Callers see a matcher through the two contracts below;
// vlSelectorMatcher and vlMatchesKey establish them for the code.
//
//vc:uninterp
func vSpecSel(s RelationshipSelectorSpec) *domain.RelationshipSelector { return nil }

//vc:extern github.com/sourcenetwork/zanzi/internal/policy.NewSelectorMatcher
func vxNewSelectorMatcher(selector *domain.RelationshipSelector, out RelationshipSelectorSpec, err error) {
	vt.VRequires("wire", vt.VWire(selector))
	vt.VEnsures("usable", (err == nil) == vSelectorComplete(selector))
	vt.VEnsures("selector", err != nil || vSpecSel(out) == selector)
}

//vc:extern (*github.com/sourcenetwork/zanzi/internal/policy.RelationshipSelectorSpec).Satisfies
func vxMatcherSatisfies(s *RelationshipSelectorSpec, r *domain.Relationship, ok bool) {
	vt.VRequires("relationship", s != nil && r != nil && vt.VWire(r) && domain.VComplete(r))
	vt.VEnsures("matches", ok == domain.VMatchesKey(vSpecSel(*s), domain.VKey("", r)))
}
