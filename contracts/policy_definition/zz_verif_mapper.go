package policy_definition

import (
	"sort"
	"strings"

	vt "github.com/sourcenetwork/zanzi/internal/utils"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

// vRestriction: the restriction a type stands for
func vRestriction(r *domain.SubjectRestrictionSet_Restriction, t string) bool {
	resource, relation, found := strings.Cut(t, ":")
	switch x := r.GetEntry().(type) {
	case *domain.SubjectRestrictionSet_Restriction_Entity:
		return !found && x.Entity != nil && x.Entity.GetResourceName() == resource
	case *domain.SubjectRestrictionSet_Restriction_EntitySet:
		return found && x.EntitySet != nil && x.EntitySet.GetResourceName() == resource && x.EntitySet.GetRelationName() == relation
	}
	return false
}

func vStar(types []string) bool {
	return vt.VExists(func(i int) bool { return 0 <= i && i < len(types) && types[i] == "*" })
}

// vTypes: the restriction a list of types stands for
func vTypes(r *domain.SubjectRestriction, types []string) bool {
	switch x := r.GetSubjectRestriction().(type) {
	case *domain.SubjectRestriction_UniversalSet:
		return vStar(types) && x.UniversalSet != nil
	case *domain.SubjectRestriction_RestrictionSet:
		rs := x.RestrictionSet.GetRestrictions()
		return !vStar(types) && x.RestrictionSet != nil && len(rs) == len(types) && vt.VForall(func(i int) bool {
			return !(0 <= i && i < len(types)) || rs[i] != nil && vRestriction(rs[i], types[i])
		})
	}
	return false
}

//vc:contract mapSubjectRestrictionElem
//vc:props C16
func vcRestrictionElem(elem string, r *domain.SubjectRestrictionSet_Restriction) {
	vt.VFresh(r)
	vt.VEnsures("C16: a type is a resource or a resource and a relation", r != nil && vt.VWire(r) && vRestriction(r, elem))
}

//vc:contract mapSubjectRestriction
//vc:props C16
func vcRestriction(types []string, r *domain.SubjectRestriction) {
	vt.VFresh(r)
	vt.VEnsures("C16: types give the restriction", r != nil && vt.VWire(r) && vTypes(r, types))
}

// vRelationOf: the relation has the contents of its definition
func vRelationOf(r *domain.Relation, d *RelationDefinition) bool {
	x, ok := r.GetRelationExpression().GetExpression().(*domain.RelationExpression_Expr)
	return r.GetDescription() == d.Doc && r.GetRelationExpression() != nil && ok && x.Expr == d.Expr && vTypes(r.GetSubjectRestriction(), d.Types)
}

//vc:contract mapRelation
//vc:props C16
func vcMapRelation(d *RelationDefinition, r *domain.Relation) {
	vt.VRequires("definition", d != nil)
	vt.VFresh(r)
	vt.VEnsures("C16: a relation has the contents of its definition", r != nil && vt.VWire(r) && r.GetName() == d.name && vRelationOf(r, d))
}

func vHasRel(d *ResourceDefinition, k string) bool {
	_, ok := d.Relations[k]
	return ok
}

func vHasRes(d *PolicyDefinition, k string) bool {
	_, ok := d.Resources[k]
	return ok
}

// vRelsNamed: relation definitions carry their keys
func vRelsNamed(d *ResourceDefinition) bool {
	return vt.VForall(func(k string) bool { return !vHasRel(d, k) || d.Relations[k] != nil && d.Relations[k].name == k })
}

// vDefNamed: so do the resource definitions
func vDefNamed(d *PolicyDefinition) bool {
	return vt.VForall(func(k string) bool { return !vHasRes(d, k) || d.Resources[k] != nil && d.Resources[k].name == k }) &&
		vt.VForall(func(k, l string) bool {
			return !(vHasRes(d, k) && vHasRel(d.Resources[k], l)) || d.Resources[k].Relations[l] != nil && d.Resources[k].Relations[l].name == l
		})
}

// vRelationsOf: a relation for each definition, in order of their names
func vRelationsOf(rs []*domain.Relation, d *ResourceDefinition) bool {
	return vt.VForall(func(i int) bool {
		return !(0 <= i && i < len(rs)) || rs[i] != nil && vHasRel(d, rs[i].GetName()) && vRelationOf(rs[i], d.Relations[rs[i].GetName()])
	}) && vt.VForall(func(k string) bool {
		return !vHasRel(d, k) || vt.VExists(func(i int) bool { return 0 <= i && i < len(rs) && rs[i].GetName() == k })
	}) && vt.VForall(func(i, j int) bool {
		return !(0 <= i && i < j && j < len(rs)) || rs[i].GetName() != rs[j].GetName() && !(rs[j].GetName() < rs[i].GetName())
	})
}

//vc:contract mapResource
//vc:props C16
func vcMapResource(d *ResourceDefinition, r *domain.Resource) {
	vt.VRequires("definition", d != nil && vRelsNamed(d))
	vt.VFresh(r)
	vt.VEnsures("C16: a resource has the contents of its definition", r != nil && vt.VWire(r) && r.GetName() == d.name && r.GetDescription() == d.Doc)
	vt.VEnsures("C16: relations by name", vRelationsOf(r.GetRelations(), d))
}

func vSortable[T comparable](x sortable[T, string]) {
	vt.VModifies(x.items)
	vt.VEnsures("in order", vt.VForall(func(i, j int) bool { return !(0 <= i && i < j && j < len(x.items)) || !x.Less(j, i) }))
	vt.VEnsures("none lost", vt.VForall(func(i int) bool {
		return !(0 <= i && i < len(x.items)) || vt.VExists(func(j int) bool {
			return 0 <= j && j < len(x.items) && x.items[j] == vt.VOld(func() T { return x.items[i] })
		})
	}))
	vt.VEnsures("none added", vt.VForall(func(i int) bool {
		return !(0 <= i && i < len(x.items)) || vt.VExists(func(j int) bool {
			return 0 <= j && j < len(x.items) && x.items[i] == vt.VOld(func() T { return x.items[j] })
		})
	}))
	vt.VEnsures("none repeated", !vt.VForall(func(i, j int) bool {
		return !(0 <= i && i < j && j < len(x.items)) || vt.VOld(func() T { return x.items[i] }) != vt.VOld(func() T { return x.items[j] })
	}) || vt.VForall(func(i, j int) bool {
		return !(0 <= i && i < j && j < len(x.items)) || x.items[i] != x.items[j]
	}))
}

// vxSort: sorting permutes the items, given that the methods do what sort.Interface asks (see below)
//
//vc:extern sort.Sort
func vxSort(data sort.Interface) {
	a, isA := data.(sortable[*ResourceDefinition, string])
	b, isB := data.(sortable[*RelationDefinition, string])
	vt.VRequires("definitions", isA || isB)
	if isA {
		vSortable(a)
	}
	if isB {
		vSortable(b)
	}
}

//vc:contract sortable[*ResourceDefinition,string].Len
//vc:props C16
func vcLen(s sortable[*ResourceDefinition, string], n int) {
	vt.VEnsures("C16: the number of items", n == len(s.items))
}

//vc:contract sortable[*ResourceDefinition,string].Swap
//vc:props C16
func vcSwap(s sortable[*ResourceDefinition, string], i, j int) {
	vt.VRequires("indexes", 0 <= i && i < len(s.items) && 0 <= j && j < len(s.items))
	vt.VModifies(s.items)
	vt.VEnsures("C16: the items are swapped", vt.VForall(func(k int) bool {
		if k == i {
			return s.items[i] == vt.VOld(func() *ResourceDefinition { return s.items[j] })
		}
		if k == j {
			return s.items[j] == vt.VOld(func() *ResourceDefinition { return s.items[i] })
		}
		return !(0 <= k && k < len(s.items)) || s.items[k] == vt.VOld(func() *ResourceDefinition { return s.items[k] })
	}))
}

//vc:contract MapPolicyDefinition
//vc:props C16
//vc:top
func vcMapPolicy(d *PolicyDefinition, p *domain.Policy) {
	vt.VRequires("definition", d != nil && vDefNamed(d))
	vt.VFresh(p)
	vt.VEnsures("C16: the contents of the definition", p != nil && vt.VWire(p) && p.GetId() == d.Id && p.GetName() == d.Name && p.GetDescription() == d.Doc)
	vt.VEnsures("C16: attributes", vt.VForall(func(k string) bool {
		v, ok := p.GetAttributes()[k]
		w, has := d.Attributes[k]
		return ok == has && (!ok || v == w)
	}))
	rs := p.GetResources()
	vt.VEnsures("C16: resources by name", vt.VForall(func(i int) bool {
		return !(0 <= i && i < len(rs)) || rs[i] != nil && vHasRes(d, rs[i].GetName()) && rs[i].GetDescription() == d.Resources[rs[i].GetName()].Doc &&
			vRelationsOf(rs[i].GetRelations(), d.Resources[rs[i].GetName()])
	}))
	vt.VEnsures("C16: every resource", vt.VForall(func(k string) bool {
		return !vHasRes(d, k) || vt.VExists(func(i int) bool { return 0 <= i && i < len(rs) && rs[i].GetName() == k })
	}))
	vt.VEnsures("C16: in order of their names", vt.VForall(func(i, j int) bool {
		return !(0 <= i && i < j && j < len(rs)) || rs[i].GetName() != rs[j].GetName() && !(rs[j].GetName() < rs[i].GetName())
	}))
}

//vc:extern golang.org/x/exp/slices.Contains
func vxContains(s []string, v string, found bool) {
	vt.VEnsures("contains", found == vt.VExists(func(i int) bool { return 0 <= i && i < len(s) && s[i] == v }))
}

//vc:extern slices.Contains
func vxContains2(s []string, v string, found bool) { vxContains(s, v, found) }

// What a YAML document says: uninterpreted functions of its text, except for the shape the decoder promises.
//
//vc:uninterp
func vYValid(t string) bool { return false }

//vc:uninterp
func vYText(t string, field int) string { return "" }

//vc:uninterp
func vYAttr(t, k string) (bool, string) { return false, "" }

//vc:uninterp
func vYRes(t, k string) bool { return false }

//vc:uninterp
func vYResDoc(t, k string) string { return "" }

//vc:uninterp
func vYRel(t, k, l string) bool { return false }

//vc:uninterp
func vYRelText(t, k, l string, field int) string { return "" }

//vc:uninterp
func vYTypes(t, k, l string) int { return 0 }

//vc:uninterp
func vYType(t, k, l string, i int) string { return "" }

// vDocRel, vDocRes: the contents of an entry; one without contents is null
func vDocRel(d *RelationDefinition, t, k, l string) bool {
	if d == nil {
		return vYRelText(t, k, l, 0) == "" && vYRelText(t, k, l, 1) == "" && vYTypes(t, k, l) == 0
	}
	return d.Doc == vYRelText(t, k, l, 0) && d.Expr == vYRelText(t, k, l, 1) && len(d.Types) == vYTypes(t, k, l) &&
		vt.VForall(func(i int) bool { return !(0 <= i && i < len(d.Types)) || d.Types[i] == vYType(t, k, l, i) })
}

func vDocRes(d *ResourceDefinition, t, k string) bool {
	if d == nil {
		return vYResDoc(t, k) == "" && vt.VForall(func(l string) bool { return !vYRel(t, k, l) })
	}
	return d.Doc == vYResDoc(t, k) &&
		vt.VForall(func(l string) bool { return vHasRel(d, l) == vYRel(t, k, l) })
}

func vDoc(d *PolicyDefinition, t string) bool {
	return d.Id == vYText(t, 0) && d.Name == vYText(t, 1) && d.Doc == vYText(t, 2) &&
		vt.VForall(func(k string) bool {
			v, ok := d.Attributes[k]
			has, w := vYAttr(t, k)
			return ok == has && (!ok || v == w)
		}) &&
		vt.VForall(func(k string) bool {
			return vHasRes(d, k) == vYRes(t, k) && (!vHasRes(d, k) || vDocRes(d.Resources[k], t, k))
		}) &&
		vt.VForall(func(k, l string) bool {
			return !(vHasRes(d, k) && d.Resources[k] != nil && vHasRel(d.Resources[k], l)) || vDocRel(d.Resources[k].Relations[l], t, k, l)
		})
}

// vcUnmarshal is assumed (the loops that name the entries write to the map they range over); executions check it
//
//vc:extern github.com/sourcenetwork/zanzi/pkg/policy_definition.UnmarshalPolicyDefinition
func vcUnmarshal(text string, def *PolicyDefinition, err error) {
	vt.VFresh(def)
	vt.VEnsures("C16: a document is accepted exactly when valid", (err == nil) == vYValid(text))
	vt.VEnsures("C16: entries are named by their keys", err != nil || def != nil && vDefNamed(def))
	vt.VEnsures("C16: the contents of the document", err != nil || vDoc(def, text))
}

// vTypesY, vRelsY: restriction and relations as the document has them
func vTypesY(r *domain.SubjectRestriction, t, k, l string) bool {
	star := vt.VExists(func(i int) bool { return 0 <= i && i < vYTypes(t, k, l) && vYType(t, k, l, i) == "*" })
	switch x := r.GetSubjectRestriction().(type) {
	case *domain.SubjectRestriction_UniversalSet:
		return star && x.UniversalSet != nil
	case *domain.SubjectRestriction_RestrictionSet:
		rs := x.RestrictionSet.GetRestrictions()
		return !star && x.RestrictionSet != nil && len(rs) == vYTypes(t, k, l) && vt.VForall(func(i int) bool {
			return !(0 <= i && i < len(rs)) || rs[i] != nil && vRestriction(rs[i], vYType(t, k, l, i))
		})
	}
	return false
}

func vRelY(r *domain.Relation, t, k string) bool {
	x, ok := r.GetRelationExpression().GetExpression().(*domain.RelationExpression_Expr)
	l := r.GetName()
	return vYRel(t, k, l) && r.GetDescription() == vYRelText(t, k, l, 0) && ok && x.Expr == vYRelText(t, k, l, 1) && vTypesY(r.GetSubjectRestriction(), t, k, l)
}

//vc:contract PolicyFromYaml
//vc:proveonly
//vc:props C16
//vc:top
func vcFromYaml(text string, p *domain.Policy, err error) {
	vt.VFresh(p)
	vt.VEnsures("C16: a document is accepted exactly when valid", (err == nil) == vYValid(text))
	if err == nil {
		vt.VEnsures("C16: the contents of the document", p != nil && vt.VWire(p) && p.GetId() == vYText(text, 0) && p.GetName() == vYText(text, 1) && p.GetDescription() == vYText(text, 2))
		vt.VEnsures("C16: attributes", vt.VForall(func(k string) bool {
			v, ok := p.GetAttributes()[k]
			has, w := vYAttr(text, k)
			return ok == has && (!ok || v == w)
		}))
		rs := p.GetResources()
		vt.VEnsures("C16: resources", vt.VForall(func(i int) bool {
			return !(0 <= i && i < len(rs)) || rs[i] != nil && vYRes(text, rs[i].GetName()) && rs[i].GetDescription() == vYResDoc(text, rs[i].GetName())
		}))
		vt.VEnsures("C16: every resource", vt.VForall(func(k string) bool {
			return !vYRes(text, k) || vt.VExists(func(i int) bool { return 0 <= i && i < len(rs) && rs[i].GetName() == k })
		}))
		vt.VEnsures("C16: resources in order of their names", vt.VForall(func(i, j int) bool {
			return !(0 <= i && i < j && j < len(rs)) || rs[i].GetName() != rs[j].GetName() && !(rs[j].GetName() < rs[i].GetName())
		}))
		vt.VEnsures("C16: relations", vt.VForall(func(i, j int) bool {
			return !(0 <= i && i < len(rs) && 0 <= j && j < len(rs[i].GetRelations())) || rs[i].GetRelations()[j] != nil && vRelY(rs[i].GetRelations()[j], text, rs[i].GetName())
		}))
		vt.VEnsures("C16: every relation", vt.VForall(func(i int, l string) bool {
			return !(0 <= i && i < len(rs) && vYRel(text, rs[i].GetName(), l)) || vt.VExists(func(j int) bool {
				return 0 <= j && j < len(rs[i].GetRelations()) && rs[i].GetRelations()[j].GetName() == l
			})
		}))
		vt.VEnsures("C16: relations in order of their names", vt.VForall(func(i, j, k int) bool {
			return !(0 <= i && i < len(rs) && 0 <= j && j < k && k < len(rs[i].GetRelations())) || rs[i].GetRelations()[j].GetName() != rs[i].GetRelations()[k].GetName() && !(rs[i].GetRelations()[k].GetName() < rs[i].GetRelations()[j].GetName())
		}))
	}
}
