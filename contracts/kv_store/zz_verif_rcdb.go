package kv_store

import (
	"strings"

	rcdb "github.com/sourcenetwork/raccoondb"
	"google.golang.org/protobuf/types/known/timestamppb"

	vt "github.com/sourcenetwork/zanzi/internal/utils"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

// Contracts of raccoondb, assumed: its stores are maps, one for each namespace (chain of prefixes) and type of record.

type vObjKey struct{ Ns, Id string }
type vEdgeKey struct{ Ns, Src, Dst string }
type vEdge struct {
	SRes, SId, SRel string
	SType           RelationType
	DRes, DId, DRel string
	DType           RelationType
}
type vData struct {
	AppData []byte
	Created *timestamppb.Timestamp
}

var gPol vt.VGhost[vObjKey, domain.VPol]
var gData vt.VGhost[vObjKey, vData]
var gEdge vt.VGhost[vEdgeKey, vEdge]

//vc:uninterp
func vNs(kv rcdb.KVStore) string { return "" }

//vc:uninterp
//vc:injective
func vJoin(ns, prefix string) string { return "" }

// vNK is the key of a node; vlKeyFaithful shows that Key is a function of the fields, and an injective one
//
//vc:uninterp
//vc:injective
func vNK(t RelationType, resource, id, relation string) string { return "" }

// vPair is the id of an edge: the keys of its nodes, which have a fixed length
//
//vc:uninterp
//vc:injective
func vPair(src, dst string) string { return "" }

//vc:extern (*github.com/sourcenetwork/zanzi/internal/store/kv_store.relationNodeKeyer).Key
func vxKey(t *relationNodeKeyer, node *RelationNode, key []byte) {
	vt.VRequires("node", node != nil)
	vt.VEnsures("key", string(key) == vNK(node.Type, node.Resource, node.Id, node.Relation))
}

//vc:lemma
//vc:props C01 C08 C09 C10 C11 C17
func vlKeyFaithful(a, b *RelationNode) {
	vt.VRequires("nodes", a != nil && b != nil)
	k := &relationNodeKeyer{}
	same := a.Type == b.Type && a.Resource == b.Resource && a.Id == b.Id && a.Relation == b.Relation
	vt.VEnsures("C01 C08 C09 C10 C11 C17: nodes have the same key exactly when they have the same fields", (string(k.Key(a)) == string(k.Key(b))) == same)
}

//vc:extern github.com/sourcenetwork/raccoondb.NewWrapperKV
func vxNewWrapperKV(store rcdb.KVStore, prefix []byte, out rcdb.KVStore) {
	vt.VRequires("C09: a prefix without separator", !strings.Contains(string(prefix), "/"))
	vt.VEnsures("namespace", out != nil && vNs(out) == vJoin(vNs(store), string(prefix)))
}

//vc:uninterp
func vPolNs(s rcdb.ObjectStore[*domain.PolicyRecord]) string { return "" }

//vc:extern github.com/sourcenetwork/raccoondb.NewObjStore
func vxNewPolStore(kv rcdb.KVStore, m rcdb.Marshaler[*domain.PolicyRecord], ider rcdb.Ider[*domain.PolicyRecord], out rcdb.ObjectStore[*domain.PolicyRecord]) {
	_, ok := ider.(*policyIDer)
	vt.VRequires("ider", ok)
	vt.VEnsures("namespace", vPolNs(out) == vNs(kv))
}

//vc:extern (*github.com/sourcenetwork/raccoondb.ObjectStore[Obj]).HasById
func vxPolHas(s *rcdb.ObjectStore[*domain.PolicyRecord], id []byte, has bool, err error) {
	vt.VRequires("store", s != nil)
	vt.VEnsures("error", !domain.VStoreOK() || err == nil)
	vt.VEnsures("has", err != nil || has == gPol.Has(vObjKey{vPolNs(*s), string(id)}))
}

//vc:uninterp
func vPolOptEmpty(o rcdb.Option[*domain.PolicyRecord]) bool { return false }

//vc:uninterp
func vPolOptVal(o rcdb.Option[*domain.PolicyRecord]) *domain.PolicyRecord { return nil }

//vc:extern (*github.com/sourcenetwork/raccoondb.Option[T]).IsEmpty
func vxPolOptEmpty(o *rcdb.Option[*domain.PolicyRecord], e bool) {
	vt.VRequires("option", o != nil)
	vt.VEnsures("empty", e == vPolOptEmpty(*o))
}

//vc:extern (*github.com/sourcenetwork/raccoondb.Option[T]).Value
func vxPolOptVal(o *rcdb.Option[*domain.PolicyRecord], v *domain.PolicyRecord) {
	vt.VRequires("C18: the option has a value", o != nil && !vPolOptEmpty(*o))
	vt.VEnsures("value", v == vPolOptVal(*o))
}

//vc:extern (*github.com/sourcenetwork/raccoondb.ObjectStore[Obj]).GetObject
func vxPolGet(s *rcdb.ObjectStore[*domain.PolicyRecord], id []byte, opt rcdb.Option[*domain.PolicyRecord], err error) {
	vt.VRequires("store", s != nil)
	k := vObjKey{vPolNs(*s), string(id)}
	r := vPolOptVal(opt)
	vt.VEnsures("error", !domain.VStoreOK() || err == nil)
	vt.VEnsures("present", err != nil || vPolOptEmpty(opt) == !gPol.Has(k))
	if err == nil && !vPolOptEmpty(opt) {
		vt.VEnsures("record", r != nil && vt.VIsNew(r) && r.Policy == gPol.Get(k).Policy && string(r.AppData) == string(gPol.Get(k).AppData) && r.CreatedAt == gPol.Get(k).Created)
	}
}

//vc:extern (*github.com/sourcenetwork/raccoondb.ObjectStore[Obj]).SetObject
func vxPolSet(s *rcdb.ObjectStore[*domain.PolicyRecord], rec *domain.PolicyRecord, err error) {
	vt.VRequires("record", s != nil && rec != nil && rec.Policy != nil)
	k := vObjKey{vPolNs(*s), string((&policyIDer{}).Id(rec))}
	vt.VEnsures("error", !domain.VStoreOK() || err == nil)
	if err != nil {
		vt.VHavoc(&gPol)
	} else {
		vt.VSet(&gPol, func(x vObjKey) (bool, domain.VPol) {
			if x == k {
				return true, domain.VPol{Policy: rec.Policy, AppData: rec.AppData, Created: rec.CreatedAt}
			}
			return gPol.Has(x), gPol.Get(x)
		})
	}
}

//vc:extern (*github.com/sourcenetwork/raccoondb.ObjectStore[Obj]).DeleteById
func vxPolDelete(s *rcdb.ObjectStore[*domain.PolicyRecord], id []byte, err error) {
	vt.VRequires("store", s != nil)
	k := vObjKey{vPolNs(*s), string(id)}
	vt.VEnsures("error", !domain.VStoreOK() || err == nil)
	if err != nil {
		vt.VHavoc(&gPol)
	} else {
		vt.VSet(&gPol, func(x vObjKey) (bool, domain.VPol) { return gPol.Has(x) && x != k, gPol.Get(x) })
	}
}

//vc:uninterp
func vDataNs(s rcdb.ObjectStore[*RelationshipData]) string { return "" }

//vc:extern github.com/sourcenetwork/raccoondb.NewObjStore
func vxNewDataStore(kv rcdb.KVStore, m rcdb.Marshaler[*RelationshipData], ider rcdb.Ider[*RelationshipData], out rcdb.ObjectStore[*RelationshipData]) {
	_, ok := ider.(*relationshipDataIDer)
	vt.VRequires("ider", ok)
	vt.VEnsures("namespace", vDataNs(out) == vNs(kv))
}

//vc:uninterp
func vDataOptEmpty(o rcdb.Option[*RelationshipData]) bool { return false }

//vc:uninterp
func vDataOptVal(o rcdb.Option[*RelationshipData]) *RelationshipData { return nil }

//vc:extern (*github.com/sourcenetwork/raccoondb.Option[T]).IsEmpty
func vxDataOptEmpty(o *rcdb.Option[*RelationshipData], e bool) {
	vt.VRequires("option", o != nil)
	vt.VEnsures("empty", e == vDataOptEmpty(*o))
}

//vc:extern (*github.com/sourcenetwork/raccoondb.Option[T]).Value
func vxDataOptVal(o *rcdb.Option[*RelationshipData], v *RelationshipData) {
	vt.VRequires("C18: the option has a value", o != nil && !vDataOptEmpty(*o))
	vt.VEnsures("value", v == vDataOptVal(*o))
}

//vc:extern (*github.com/sourcenetwork/raccoondb.ObjectStore[Obj]).GetObject
func vxDataGet(s *rcdb.ObjectStore[*RelationshipData], id []byte, opt rcdb.Option[*RelationshipData], err error) {
	vt.VRequires("store", s != nil)
	k := vObjKey{vDataNs(*s), string(id)}
	r := vDataOptVal(opt)
	vt.VEnsures("error", !domain.VStoreOK() || err == nil)
	vt.VEnsures("present", err != nil || vDataOptEmpty(opt) == !gData.Has(k))
	if err == nil && !vDataOptEmpty(opt) {
		vt.VEnsures("record", r != nil && vt.VIsNew(r) && string(r.AppData) == string(gData.Get(k).AppData) && r.CreatedAt == gData.Get(k).Created)
	}
}

//vc:extern (*github.com/sourcenetwork/raccoondb.ObjectStore[Obj]).SetObject
func vxDataSet(s *rcdb.ObjectStore[*RelationshipData], rec *RelationshipData, err error) {
	vt.VRequires("record", s != nil && rec != nil)
	k := vObjKey{vDataNs(*s), string((&relationshipDataIDer{}).Id(rec))}
	vt.VEnsures("error", !domain.VStoreOK() || err == nil)
	if err != nil {
		vt.VHavoc(&gData)
	} else {
		vt.VSet(&gData, func(x vObjKey) (bool, vData) {
			if x == k {
				return true, vData{AppData: rec.AppData, Created: rec.CreatedAt}
			}
			return gData.Has(x), gData.Get(x)
		})
	}
}

//vc:extern (*github.com/sourcenetwork/raccoondb.ObjectStore[Obj]).DeleteById
func vxDataDelete(s *rcdb.ObjectStore[*RelationshipData], id []byte, err error) {
	vt.VRequires("store", s != nil)
	k := vObjKey{vDataNs(*s), string(id)}
	vt.VEnsures("error", !domain.VStoreOK() || err == nil)
	if err != nil {
		vt.VHavoc(&gData)
	} else {
		vt.VSet(&gData, func(x vObjKey) (bool, vData) { return gData.Has(x) && x != k, gData.Get(x) })
	}
}


//vc:uninterp
func vEdgeNs(s rcdb.RaccoonStore[*Relationship, *RelationNode]) string { return "" }

//vc:extern github.com/sourcenetwork/raccoondb.NewRaccoonStore
func vxNewRaccoonStore(schema rcdb.RaccoonSchema[*Relationship, *RelationNode], out rcdb.RaccoonStore[*Relationship, *RelationNode]) {
	_, ok := schema.Keyer.(*relationNodeKeyer)
	vt.VRequires("keyer", ok)
	vt.VRequires("indexes", len(schema.Indexes) == 0)
	vt.VEnsures("namespace", vEdgeNs(out) == vNs(schema.Store))
}

//vc:uninterp
func vEdgeOptEmpty(o rcdb.Option[*Relationship]) bool { return false }

//vc:uninterp
func vEdgeOptVal(o rcdb.Option[*Relationship]) *Relationship { return nil }

//vc:extern (*github.com/sourcenetwork/raccoondb.Option[T]).IsEmpty
func vxEdgeOptEmpty(o *rcdb.Option[*Relationship], e bool) {
	vt.VRequires("option", o != nil)
	vt.VEnsures("empty", e == vEdgeOptEmpty(*o))
}

//vc:extern (*github.com/sourcenetwork/raccoondb.Option[T]).Value
func vxEdgeOptVal(o *rcdb.Option[*Relationship], v *Relationship) {
	vt.VRequires("C18: the option has a value", o != nil && !vEdgeOptEmpty(*o))
	vt.VEnsures("value", v == vEdgeOptVal(*o))
}

func vSrcKey(e *Relationship) string {
	return vNK(e.Source.Type, e.Source.Resource, e.Source.Id, e.Source.Relation)
}

func vDstKey(e *Relationship) string {
	return vNK(e.Dest.Type, e.Dest.Resource, e.Dest.Id, e.Dest.Relation)
}

func vContent(e *Relationship) vEdge {
	return vEdge{e.Source.Resource, e.Source.Id, e.Source.Relation, e.Source.Type, e.Dest.Resource, e.Dest.Id, e.Dest.Relation, e.Dest.Type}
}

//vc:extern (*github.com/sourcenetwork/raccoondb.RaccoonStore[Edg, N]).Get
func vxEdgeGet(s *rcdb.RaccoonStore[*Relationship, *RelationNode], src, dst *RelationNode, opt rcdb.Option[*Relationship], err error) {
	vt.VRequires("nodes", s != nil && src != nil && dst != nil)
	k := vEdgeKey{vEdgeNs(*s), vNK(src.Type, src.Resource, src.Id, src.Relation), vNK(dst.Type, dst.Resource, dst.Id, dst.Relation)}
	vt.VEnsures("error", !domain.VStoreOK() || err == nil)
	vt.VEnsures("present", err != nil || vEdgeOptEmpty(opt) == !gEdge.Has(k))
}

//vc:extern (*github.com/sourcenetwork/raccoondb.RaccoonStore[Edg, N]).Set
func vxEdgeSet(s *rcdb.RaccoonStore[*Relationship, *RelationNode], e *Relationship, err error) {
	vt.VRequires("edge", s != nil && e != nil && e.Source != nil && e.Dest != nil)
	k := vEdgeKey{vEdgeNs(*s), vSrcKey(e), vDstKey(e)}
	vt.VEnsures("error", !domain.VStoreOK() || err == nil)
	if err != nil {
		vt.VHavoc(&gEdge)
	} else {
		vt.VSet(&gEdge, func(x vEdgeKey) (bool, vEdge) {
			if x == k {
				return true, vContent(e)
			}
			return gEdge.Has(x), gEdge.Get(x)
		})
	}
}

//vc:extern (*github.com/sourcenetwork/raccoondb.RaccoonStore[Edg, N]).Delete
func vxEdgeDelete(s *rcdb.RaccoonStore[*Relationship, *RelationNode], e *Relationship, err error) {
	vt.VRequires("edge", s != nil && e != nil && e.Source != nil && e.Dest != nil)
	k := vEdgeKey{vEdgeNs(*s), vSrcKey(e), vDstKey(e)}
	vt.VEnsures("error", !domain.VStoreOK() || err == nil)
	if err != nil {
		vt.VHavoc(&gEdge)
	} else {
		vt.VSet(&gEdge, func(x vEdgeKey) (bool, vEdge) { return gEdge.Has(x) && x != k, gEdge.Get(x) })
	}
}

// vEdges: the list holds the edges of the namespace under the keys accepted by from, each once
func vEdges(ns string, rels []*Relationship, from func(src string) bool) {
	vt.VEnsures("edges", vt.VForall(func(i int) bool {
		return !(0 <= i && i < len(rels)) || rels[i] != nil && rels[i].Source != nil && rels[i].Dest != nil && from(vSrcKey(rels[i])) &&
			gEdge.Has(vEdgeKey{ns, vSrcKey(rels[i]), vDstKey(rels[i])}) && gEdge.Get(vEdgeKey{ns, vSrcKey(rels[i]), vDstKey(rels[i])}) == vContent(rels[i])
	}))
	vt.VEnsures("all edges", vt.VForall(func(a, b string) bool {
		return !(gEdge.Has(vEdgeKey{ns, a, b}) && from(a)) || vt.VExists(func(i int) bool { return 0 <= i && i < len(rels) && vSrcKey(rels[i]) == a && vDstKey(rels[i]) == b })
	}))
	vt.VEnsures("edges once", vt.VForall(func(i, j int) bool {
		return !(0 <= i && i < j && j < len(rels)) || vSrcKey(rels[i]) != vSrcKey(rels[j]) || vDstKey(rels[i]) != vDstKey(rels[j])
	}))
}

//vc:extern (*github.com/sourcenetwork/raccoondb.RaccoonStore[Edg, N]).List
func vxEdgeList(s *rcdb.RaccoonStore[*Relationship, *RelationNode], rels []*Relationship, err error) {
	vt.VRequires("store", s != nil)
	vt.VFresh(rels)
	vt.VEnsures("error", !domain.VStoreOK() || err == nil)
	if err == nil {
		vEdges(vEdgeNs(*s), rels, func(string) bool { return true })
	}
}

//vc:extern (*github.com/sourcenetwork/raccoondb.RaccoonStore[Edg, N]).GetSucessors
func vxEdgeSucessors(s *rcdb.RaccoonStore[*Relationship, *RelationNode], n *RelationNode, rels []*Relationship, err error) {
	vt.VRequires("node", s != nil && n != nil)
	vt.VFresh(rels)
	vt.VEnsures("error", !domain.VStoreOK() || err == nil)
	if err == nil {
		vEdges(vEdgeNs(*s), rels, func(src string) bool { return src == vNK(n.Type, n.Resource, n.Id, n.Relation) })
	}
}

//vc:uninterp
func vIderKeyed(i rcdb.Ider[*Relationship]) bool { return false }

//vc:extern github.com/sourcenetwork/raccoondb.IderFromNodeKeyer
func vxIderFromNodeKeyer(k rcdb.NodeKeyer[*RelationNode], out rcdb.Ider[*Relationship]) {
	_, ok := k.(*relationNodeKeyer)
	vt.VEnsures("ider", out != nil && vIderKeyed(out) == ok)
}

//vc:interface raccoon.Ider.Id
func viEdgeId(i rcdb.Ider[*Relationship], e *Relationship, id []byte) {
	vt.VRequires("ider", vIderKeyed(i) && e != nil && e.Source != nil && e.Dest != nil)
	vt.VEnsures("id", string(id) == vPair(vSrcKey(e), vDstKey(e)))
}

//vc:extern github.com/sourcenetwork/raccoondb.ProtoMarshaler
func vxPolMarshaler(f func() *domain.PolicyRecord, m rcdb.Marshaler[*domain.PolicyRecord]) {
	vt.VEnsures("marshaler", m != nil)
}

//vc:extern github.com/sourcenetwork/raccoondb.ProtoMarshaler
func vxDataMarshaler(f func() *RelationshipData, m rcdb.Marshaler[*RelationshipData]) {
	vt.VEnsures("marshaler", m != nil)
}

//vc:extern github.com/sourcenetwork/raccoondb.ProtoMarshaler
func vxEdgeMarshaler(f func() *Relationship, m rcdb.Marshaler[*Relationship]) {
	vt.VEnsures("marshaler", m != nil)
}
