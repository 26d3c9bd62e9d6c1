package policy

import (
	"github.com/sourcenetwork/zanzi/pkg/domain"
	vt "github.com/sourcenetwork/zanzi/internal/utils"
)

// vSubjectAllowedBy: the restriction set has an entry for the kind of subject
func vSubjectAllowedBy(s *domain.Subject, set *domain.SubjectRestrictionSet) bool {
	return vt.VExists(func(i int) bool {
		if i < 0 || i >= len(set.GetRestrictions()) {
			return false
		}
		switch e := set.GetRestrictions()[i].GetEntry().(type) {
		case *domain.SubjectRestrictionSet_Restriction_Entity:
			switch x := s.GetSubject().(type) {
			case *domain.Subject_Entity:
				return e.Entity.GetResourceName() == x.Entity.GetResource()
			case *domain.Subject_ResourceSet:
				return e.Entity.GetResourceName() == x.ResourceSet.GetResourceName()
			}
		case *domain.SubjectRestrictionSet_Restriction_EntitySet:
			switch x := s.GetSubject().(type) {
			case *domain.Subject_EntitySet:
				return e.EntitySet.GetResourceName() == x.EntitySet.GetEntity().GetResource() &&
					e.EntitySet.GetRelationName() == x.EntitySet.GetRelation()
			}
		}
		return false
	})
}

//vc:contract (*SubjectRestrictionSpec).satisfiesRestrictionSet
//vc:props C06
func vcSatisfiesRestrictionSet(s *SubjectRestrictionSpec, subject *domain.Subject, set *domain.SubjectRestrictionSet, err error) {
	vt.VRequires("subject", subject != nil && set != nil)
	vt.VRequires("wire", vt.VWire(subject) && vt.VWire(set))
	vt.VRequires("complete", subject.GetEntitySet() == nil || subject.GetEntitySet().Entity != nil)
	vt.VRequires("kind", subject.Subject != nil)
	vt.VEnsures("a subject passes exactly when an entry allows it", (err == nil) == vSubjectAllowedBy(subject, set))
}

// vHasResource, vHasRelation: the policy declares the resource, the relation
func vHasResource(p *domain.Policy, resource string) bool {
	return vt.VExists(func(i int) bool {
		return i >= 0 && i < len(p.GetResources()) && p.GetResources()[i].GetName() == resource
	})
}

func vHasRelation(p *domain.Policy, resource, relation string) bool {
	return vt.VExists(func(i, j int) bool {
		return i >= 0 && i < len(p.GetResources()) && p.GetResources()[i].GetName() == resource &&
			j >= 0 && j < len(p.GetResources()[i].GetRelations()) && p.GetResources()[i].GetRelations()[j].GetName() == relation
	})
}

func vUniqueNames(p *domain.Policy) bool {
	return vt.VForall(func(i, j int) bool {
		return !(0 <= i && i < j && j < len(p.GetResources())) || p.GetResources()[i].GetName() != p.GetResources()[j].GetName()
	}) && vt.VForall(func(i, k, l int) bool {
		return !(0 <= i && i < len(p.GetResources()) && 0 <= k && k < l && l < len(p.GetResources()[i].GetRelations())) ||
			p.GetResources()[i].GetRelations()[k].GetName() != p.GetResources()[i].GetRelations()[l].GetName()
	})
}

func vRequiredFields(r *domain.Relationship) bool {
	if r.GetObject().GetResource() == "" || r.GetObject().GetId() == "" || r.GetRelation() == "" {
		return false
	}
	switch s := r.GetSubject().GetSubject().(type) {
	case *domain.Subject_Entity:
		return s.Entity.GetResource() != "" && s.Entity.GetId() != ""
	case *domain.Subject_EntitySet:
		return s.EntitySet.GetEntity().GetResource() != "" && s.EntitySet.GetEntity().GetId() != "" && s.EntitySet.GetRelation() != ""
	case *domain.Subject_ResourceSet:
		return s.ResourceSet.GetResourceName() != ""
	}
	return false
}

func vSymbolsDeclared(r *domain.Relationship, p *domain.Policy) bool {
	if !vHasResource(p, r.GetObject().GetResource()) || !vHasRelation(p, r.GetObject().GetResource(), r.GetRelation()) {
		return false
	}
	switch s := r.GetSubject().GetSubject().(type) {
	case *domain.Subject_Entity:
		return vHasResource(p, s.Entity.GetResource())
	case *domain.Subject_EntitySet:
		return vHasRelation(p, s.EntitySet.GetEntity().GetResource(), s.EntitySet.GetRelation())
	case *domain.Subject_ResourceSet:
		return vHasResource(p, s.ResourceSet.GetResourceName())
	}
	return false
}

// vRestrictionAllows: the restriction of the relationship's relation admits its subject
func vRestrictionAllows(r *domain.Relationship, p *domain.Policy) bool {
	return vt.VExists(func(i, j int) bool {
		if i < 0 || i >= len(p.GetResources()) || p.GetResources()[i].GetName() != r.GetObject().GetResource() {
			return false
		}
		if j < 0 || j >= len(p.GetResources()[i].GetRelations()) || p.GetResources()[i].GetRelations()[j].GetName() != r.GetRelation() {
			return false
		}
		switch x := p.GetResources()[i].GetRelations()[j].GetSubjectRestriction().GetSubjectRestriction().(type) {
		case *domain.SubjectRestriction_UniversalSet:
			return true
		case *domain.SubjectRestriction_RestrictionSet:
			return vSubjectAllowedBy(r.GetSubject(), x.RestrictionSet)
		}
		return false
	})
}

func vAllowed(r *domain.Relationship, p *domain.Policy) bool {
	return vRequiredFields(r) && vSymbolsDeclared(r, p) && vRestrictionAllows(r, p)
}

// vAllowedL: the same, in terms of the look-up table
func vAllowedL(r *domain.Relationship, l PolicyLookUpTable) bool {
	if !vRequiredFields(r) || l.GetResource(r.GetObject().GetResource()) == nil {
		return false
	}
	rel := l.GetRelation(r.GetObject().GetResource(), r.GetRelation())
	if rel == nil {
		return false
	}
	switch s := r.GetSubject().GetSubject().(type) {
	case *domain.Subject_Entity:
		if l.GetResource(s.Entity.GetResource()) == nil {
			return false
		}
	case *domain.Subject_EntitySet:
		if l.GetRelation(s.EntitySet.GetEntity().GetResource(), s.EntitySet.GetRelation()) == nil {
			return false
		}
	case *domain.Subject_ResourceSet:
		if l.GetResource(s.ResourceSet.GetResourceName()) == nil {
			return false
		}
	}
	switch x := rel.GetSubjectRestriction().GetSubjectRestriction().(type) {
	case *domain.SubjectRestriction_UniversalSet:
		return true
	case *domain.SubjectRestriction_RestrictionSet:
		return vSubjectAllowedBy(r.GetSubject(), x.RestrictionSet)
	}
	return false
}

//vc:contract (*AllowedRelationshipSpec).Satisfies
//vc:props C06
func vcAllowedSatisfies(s *AllowedRelationshipSpec, relationship *domain.Relationship, lut PolicyLookUpTable, err error) {
	vt.VRequires("wire", vt.VWire(relationship))
	vt.VRequires("table", vt.VForall(func(k string) bool { return lut.relations[k] == nil || vt.VWire(lut.relations[k]) }))
	vt.VEnsures("C06: a relationship passes exactly when the table allows it", (err == nil) == vAllowedL(relationship, lut))
}

// vLut: the table answers for the policy
func vLut(l PolicyLookUpTable, p *domain.Policy) bool {
	return vt.VForall(func(res string) bool {
		return (l.GetResource(res) != nil) == vHasResource(p, res)
	}) && vt.VForall(func(res, rel string) bool {
		return (l.GetRelation(res, rel) != nil) == vHasRelation(p, res, rel)
	}) && vt.VForall(func(i, j int) bool {
		if i < 0 || i >= len(p.GetResources()) || j < 0 || j >= len(p.GetResources()[i].GetRelations()) {
			return true
		}
		return l.GetRelation(p.GetResources()[i].GetName(), p.GetResources()[i].GetRelations()[j].GetName()) == p.GetResources()[i].GetRelations()[j]
	})
}

//vc:contract NewPolicyLookUpTable
//vc:props C06 C14
func vcNewPolicyLookUpTable(policy *domain.Policy, lut PolicyLookUpTable) {
	vt.VRequires("wire", policy != nil && vt.VWire(policy))
	vt.VFresh(lut.relations)
	vt.VFresh(lut.resources)
	vt.VEnsures("maps", lut.relations != nil && lut.resources != nil)
	vt.VEnsures("resources of the table", vt.VForall(func(res string) bool {
		return (lut.GetResource(res) != nil) == vHasResource(policy, res)
	}))
	vt.VEnsures("relations of the table", vt.VForall(func(res, rel string) bool {
		return (lut.GetRelation(res, rel) != nil) == vHasRelation(policy, res, rel)
	}))
	vt.VEnsures("relations of the table are messages", vt.VForall(func(k string) bool { return lut.relations[k] == nil || vt.VWire(lut.relations[k]) }))
	if vUniqueNames(policy) {
		vt.VEnsures("the table finds the policy's relations", vLut(lut, policy))
	}
}

//vc:lemma
//vc:props C06
func vlAllowed(p *domain.Policy, r *domain.Relationship, l PolicyLookUpTable) {
	vt.VRequires("wire", p != nil && vt.VWire(p) && vt.VWire(r) && vUniqueNames(p) && vLut(l, p))
	vt.VEnsures("C06: the table allows what the policy allows", vAllowedL(r, l) == vAllowed(r, p))
}
