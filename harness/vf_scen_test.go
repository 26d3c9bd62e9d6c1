package test_test

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/awalterschulze/gographviz"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"gopkg.in/yaml.v3"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
	"github.com/sourcenetwork/zanzi/pkg/types"
)

func scenarios(prop string) []scenario {
	hist := func(o polOpts, npol, nrel, nops int) func(*H) {
		return func(h *H) { h.setup(o, npol, nrel); h.history(nops) }
	}
	storeMix := []scenario{
		{3, hist(polOpts{open: true, thisBias: true, hostile: true}, 3, 14, 25)},
		{2, hist(polOpts{diff: true}, 2, 10, 25)},
		{1, hist(polOpts{open: true, thisBias: true, hostile: true}, 2, 8, 60)},
		{1, bulk},
	}
	if prop == "C09" || prop == "C12" || prop == "C13" {
		storeMix = append(storeMix, scenario{1, manyPolicies})
	}
	switch prop {
	case "C01":
		return []scenario{{4, graphCase(false)}, {24, tight(false)}, {1, hist(polOpts{open: true}, 2, 12, 20)}, {1, bulkGraph}}
	case "C02":
		return []scenario{{3, graphCase(true)}, {10, tight(true)}, {2, cyclic}, {1, bulkGraph}, {1, hist(polOpts{open: true, diff: true}, 1, 12, 12)}}
	case "C03":
		return []scenario{{3, graphCase(true)}, {10, tight(true)}, {1, bulkGraph}}
	case "C04":
		return []scenario{{4, expandCase}, {8, tight(true)}, {1, cyclic}, {1, bulkGraph}}
	case "C05":
		return []scenario{{4, dumpCase}, {1, cyclic}, {1, bulkGraph}}
	case "C06":
		return []scenario{{3, admission}, {1, hist(polOpts{hostile: true}, 2, 12, 20)}}
	case "C10", "C19":
		return []scenario{{3, finder}, {1, bulk}, {1, hist(polOpts{open: true, hostile: true}, 2, 10, 20)}}
	case "C11":
		return append(storeMix, scenario{2, deleter})
	case "C14":
		return []scenario{{4, validity}, {1, hist(polOpts{}, 2, 6, 15)}}
	case "C15":
		return []scenario{{1, grammar}}
	case "C16":
		return []scenario{{1, yamlCase}}
	case "C17":
		return append(storeMix, scenario{3, graphCase(true)})
	case "C18":
		return []scenario{{4, malformed}, {1, hist(polOpts{open: true, hostile: true}, 2, 8, 10)}, {1, graphCase(true)}}
	case "C20":
		return []scenario{{1, containers}}
	}
	return storeMix
}

// ---------------------------------------------------------------- histories

func (h *H) history(nops int) {
	h.battery("start", "", true)
	// most policies exist most of the time
	for _, id := range h.pids {
		if h.stop {
			return
		}
		h.create(structDef(h.pols[id][0]), h.pols[id][0], true, "", h.appData(), false)
	}
	for k := 0; k < nops && !h.stop; k++ {
		id := h.pids[h.rng.Intn(len(h.pids))]
		m := h.rels[h.rng.Intn(len(h.rels))]
		if k%8 == 7 {
			h.reopen()
		}
		switch x := h.rng.Intn(40); {
		case x < 16:
			h.set(id, m.domain(), h.appData())
		case x < 21:
			h.deleteRel(id, m.domain())
		case x < 24:
			h.deleteRels(id, h.genSelector(h.pols[id][0], h.rels))
		case x < 26:
			p := h.pols[id][h.rng.Intn(2)]
			h.update(structDef(p), p, true, "", h.appData(), false)
		case x < 27:
			p := h.pols[id][h.rng.Intn(2)]
			h.create(structDef(p), p, true, "", h.appData(), false)
		case x < 28:
			h.deletePolicy(id)
		case x < 29:
			p := h.damage(h.pols[id][h.rng.Intn(2)])
			why, ok := refValidPolicy(p)
			if h.rng.Intn(2) == 0 {
				h.update(structDef(p), p, ok, why, h.appData(), false)
			} else {
				h.create(structDef(p), p, ok, why, h.appData(), false)
			}
		case x < 31:
			// refused: incomplete or misnamed
			d := m.domain()
			switch h.rng.Intn(6) {
			case 0:
				d.Subject = nil
			case 1:
				d.Object.Id = ""
			case 2:
				d.Relation = "nope"
			case 3:
				d.Object = nil
			case 4:
				id = "unknown policy"
			case 5:
				d.Object.Resource = "nope"
			}
			switch h.rng.Intn(3) {
			case 0:
				h.deleteRel(id, d)
			default:
				h.set(id, d, h.appData())
			}
		case x < 32:
			s := h.genSelector(h.pols[id][0], h.rels)
			switch h.rng.Intn(3) {
			case 0:
				s.ObjectSelector = nil
			case 1:
				s.RelationSelector.Selector = nil
			case 2:
				s.SubjectSelector = nil
			}
			h.deleteRels(id, s)
		case x < 35:
			v, c := h.find(id, h.genSelector(h.pols[id][0], h.rels))
			if v != "" {
				h.fail([]string{"C19"}, "%s", v)
			}
			if c != "" {
				h.fail([]string{"C10"}, "%s", c)
			}
			h.battery("FindRelationshipRecords", "", true)
		default:
			p := h.probes[h.rng.Intn(len(h.probes))]
			var g *graph
			if cur := h.m[id]; cur != nil {
				g = newGraph(cur.pol, cur.rels)
			}
			switch h.rng.Intn(3) {
			case 0:
				for _, f := range h.check(id, g, p.obj, p.subj) {
					h.fail(f.tags, "%s", f.msg)
				}
			case 1:
				h.explain(id, g, p.obj, p.subj)
			case 2:
				h.dump(id, h.m[id])
			}
			h.battery("graph query", "", true)
		}
	}
}

// bulk builds larger stores, with sizes drawn around the constants of the source
func bulk(h *H) {
	h.setup(polOpts{open: true, thisBias: true}, 2, 6)
	for _, id := range h.pids {
		h.create(structDef(h.pols[id][0]), h.pols[id][0], true, "", nil, false)
	}
	id := h.pids[0]
	n := h.size()
	base := h.pols[id][0]
	var added []mRel
	for i := 0; i < n && !h.stop; i++ {
		m := h.genRel(base, []string{"1"})
		if m.Kind != kWild && h.rng.Intn(3) > 0 {
			m.SId = fmt.Sprintf("s%d", i)
		} else {
			m.OId = fmt.Sprintf("o%d", i)
		}
		cur, ok := h.m[id]
		if !ok {
			return
		}
		if !refAllowed(cur.pol, m) {
			continue
		}
		var resp *api.SetRelationshipResponse
		err, p := h.call("SetRelationship", m.String(), func() (e error) {
			resp, e = h.ps.SetRelationship(h.ctx, &api.SetRelationshipRequest{PolicyId: id, Relationship: m.domain(), AppData: []byte(fmt.Sprint(i))})
			return
		})
		if p {
			return
		}
		if err != nil {
			h.fail([]string{"C06"}, "SetRelationship(%v) refused: %v", m, err)
			return
		}
		_, present := cur.rels[m]
		if resp.GetRecordOverwritten() != present {
			h.fail([]string{"C08"}, "SetRelationship(%q, %v) overwritten=%v, want %v", id, m, resp.GetRecordOverwritten(), present)
		}
		old := cur.rels[m]
		_ = old
		cur.rels[m] = &mRec{app: []byte(fmt.Sprint(i)), t0: timeNow().Add(-1e9), t1: timeNow().Add(1e9)}
		added = append(added, m)
	}
	if len(added) == 0 {
		return
	}
	h.rels = append(h.rels, added[:min(len(added), 20)]...)
	h.battery("SetRelationship", id, false)
	for i, m := range added {
		if i%7 == 0 || len(added) < 40 {
			if msg := h.getRel(id, m); msg != "" {
				h.fail([]string{"C08"}, "%s", msg)
			}
		}
	}
	for k := 0; k < 4 && !h.stop; k++ {
		s := h.genSelector(base, added)
		v, c := h.find(id, s)
		if v != "" {
			h.fail([]string{"C19"}, "%s", v)
		}
		if c != "" {
			h.fail([]string{"C10"}, "%s", c)
		}
	}
	h.dump(id, h.m[id])
	if h.rng.Intn(2) == 0 {
		h.deleteRels(id, h.genSelector(base, added))
	}
	if !h.stop {
		h.deletePolicy(id)
	}
}

// manyPolicies: the policies are those created and not deleted, however many there are
func manyPolicies(h *H) {
	h.setup(polOpts{open: true, thisBias: true}, 1, 3)
	base := h.pols[h.pids[0]][0]
	n := h.size()
	var ids []string
	for i := 0; i < n && !h.stop; i++ {
		p := proto.Clone(base).(*domain.Policy)
		p.Id = fmt.Sprintf("%s%d", h.pick([]string{"p", "", "é", "p/", "世"}), i)
		h.create(structDef(p), p, true, "", []byte(fmt.Sprint(i)), false)
		ids = append(ids, p.Id)
	}
	verify := func() {
		if h.stop {
			return
		}
		if m := h.listIds(); m != "" {
			h.fail([]string{"C13", "C12", "C09"}, "%s", m)
		}
		for _, id := range ids {
			if m := h.getPolicy(id); m != "" {
				h.fail([]string{"C13", "C12", "C09"}, "%s", m)
				return
			}
		}
	}
	verify()
	for i := range ids {
		if i%3 == h.rng.Intn(3) && !h.stop {
			h.deletePolicy(ids[i])
		}
	}
	verify()
}

func (h *H) size() int {
	switch h.rng.Intn(4) {
	case 0:
		return min(dictInt[h.rng.Intn(len(dictInt))]+h.rng.Intn(4)-1, 300)
	case 1:
		return 20 + h.rng.Intn(120)
	}
	return 5 + h.rng.Intn(40)
}

// ---------------------------------------------------------------- graph queries

func (h *H) buildStore(o polOpts, nrel int) (string, *mPol) {
	for try := 0; try < 20; try++ {
		h.pids, h.rels, h.probes = nil, nil, nil
		h.setup(o, 1, nrel)
		id := h.pids[0]
		p := h.pols[id][0]
		err, pn := h.call("CreatePolicy", short(p), func() (e error) {
			_, e = h.ps.CreatePolicy(h.ctx, &api.CreatePolicyRequest{PolicyDefinition: structDef(p)})
			return
		})
		if pn || h.stop {
			return "", nil
		}
		if err != nil {
			h.fail([]string{"C14"}, "valid policy refused: %v: %s", err, short(p))
			return "", nil
		}
		cur := &mPol{pol: p, rels: map[mRel]*mRec{}}
		h.m[id] = cur
		h.rng.Shuffle(len(h.rels), func(i, j int) { h.rels[i], h.rels[j] = h.rels[j], h.rels[i] })
		for _, m := range h.rels {
			h.put(id, cur, m)
		}
		if len(cur.rels) > 0 {
			return id, cur
		}
		h.call("DeletePolicy", id, func() (e error) { _, e = h.ps.DeletePolicy(h.ctx, &api.DeletePolicyRequest{Id: id}); return })
		delete(h.m, id)
	}
	return "", nil
}

func (h *H) put(id string, cur *mPol, m mRel) {
	want := refAllowed(cur.pol, m)
	err, pn := h.call("SetRelationship", m.String(), func() (e error) {
		_, e = h.ps.SetRelationship(h.ctx, &api.SetRelationshipRequest{PolicyId: id, Relationship: m.domain()})
		return
	})
	if pn {
		return
	}
	if (err == nil) != want {
		h.fail([]string{"C06"}, "SetRelationship(%v) error=%v, want allowed=%v; policy %s", m, err, want, short(cur.pol))
	}
	if err == nil && want {
		cur.rels[m] = &mRec{}
	}
}

func graphCase(all bool) func(h *H) {
	return func(h *H) {
		o := polOpts{open: h.rng.Intn(4) > 0, diff: h.rng.Intn(2) == 0, thisBias: h.rng.Intn(2) == 0, hostile: h.rng.Intn(3) == 0}
		id, cur := h.buildStore(o, 4+h.rng.Intn(12))
		if cur == nil || h.stop {
			return
		}
		for round := 0; round < 3 && !h.stop; round++ {
			g := newGraph(cur.pol, cur.rels)
			for k := 0; k < 10 && !h.stop; k++ {
				m, m2 := h.rels[h.rng.Intn(len(h.rels))], h.rels[h.rng.Intn(len(h.rels))]
				obj := m.source()
				if r := findResource(cur.pol, obj.res); r != nil && len(r.Relations) > 0 && h.rng.Intn(2) == 0 {
					obj.rel = r.Relations[h.rng.Intn(len(r.Relations))].Name
				}
				subj := gNode{kind: kEntity, res: m2.SRes, id: m2.SId}
				if m2.Kind == kWild {
					subj.id = h.pick(idPool)
				}
				if h.rng.Intn(10) == 0 {
					subj.res = h.pick(identNames)
				}
				if h.rng.Intn(20) == 0 {
					obj.rel = "nope"
				}
				if h.tooBig(g, obj) {
					continue
				}
				for _, f := range h.check(id, g, obj, subj) {
					h.fail(f.tags, "%s", f.msg)
				}
				if all && !h.stop && h.rng.Intn(2) == 0 {
					h.explain(id, g, obj, subj)
				}
				if all && !h.stop && h.rng.Intn(4) == 0 {
					h.expand(id, g, obj)
				}
				if all && !h.stop {
					if msg := h.directSubjects(id, g, obj); msg != "" {
						h.fail([]string{"C17"}, "%s", msg)
					}
				}
			}
			// change the store a little: decisions must follow
			m := h.rels[h.rng.Intn(len(h.rels))]
			if _, ok := cur.rels[m]; ok {
				err, _ := h.call("DeleteRelationship", m.String(), func() (e error) {
					_, e = h.ps.DeleteRelationship(h.ctx, &api.DeleteRelationshipRequest{PolicyId: id, Relationship: m.domain()})
					return
				})
				if err == nil {
					delete(cur.rels, m)
				}
			} else {
				h.put(id, cur, m)
			}
		}
	}
}

// tight: few nodes, many edges between them, so that sets meet each other on several branches and inside cycles
func tight(all bool) func(h *H) {
	return func(h *H) {
		rels := []string{"m", "r", "s", "t"}[:2+h.rng.Intn(3)]
		tree := func() *rTree {
			leaf := func() *rTree {
				switch h.rng.Intn(5) {
				case 0, 1:
					return &rTree{rule: "cu", a: h.pick(rels)}
				case 2:
					return &rTree{rule: "ttu", a: h.pick(rels), b: h.pick(rels)}
				}
				return &rTree{rule: "this"}
			}
			t := leaf()
			ops := []string{"+", "&", "&", "-"}
			if h.rng.Intn(2) == 0 {
				ops = ops[:3]
			}
			for k := h.rng.Intn(3); k > 0; k-- {
				if h.rng.Intn(2) == 0 {
					t = &rTree{op: h.pick(ops), left: t, right: leaf()}
				} else {
					t = &rTree{op: h.pick(ops), left: leaf(), right: t}
				}
			}
			return t
		}
		id := "p"
		res := &domain.Resource{Name: "g"}
		for i, l := range rels {
			t := tree()
			if i == 0 || h.rng.Intn(3) == 0 {
				t = &rTree{rule: "this"}
			}
			res.Relations = append(res.Relations, &domain.Relation{Name: l, RelationExpression: h.expr(t), SubjectRestriction: &domain.SubjectRestriction{SubjectRestriction: &domain.SubjectRestriction_UniversalSet{UniversalSet: &domain.UniversalSet{}}}})
		}
		p := &domain.Policy{Id: id, Name: "p", Resources: []*domain.Resource{{Name: "u"}, res}}
		err, pn := h.call("CreatePolicy", short(p), func() (e error) {
			_, e = h.ps.CreatePolicy(h.ctx, &api.CreatePolicyRequest{PolicyDefinition: structDef(p)})
			return
		})
		if pn || h.stop {
			return
		}
		if err != nil {
			h.fail([]string{"C14"}, "valid policy refused: %v: %s", err, short(p))
			return
		}
		cur := &mPol{pol: p, rels: map[mRel]*mRec{}}
		h.m[id] = cur
		var nodes []gNode
		ids := []string{"0", "1", "2"}[:1+h.rng.Intn(3)]
		for _, l := range rels {
			for _, i := range ids {
				nodes = append(nodes, gNode{kSet, "g", i, l})
			}
		}
		h.rng.Shuffle(len(nodes), func(i, j int) { nodes[i], nodes[j] = nodes[j], nodes[i] })
		hub := nodes[:min(len(nodes), 2+h.rng.Intn(4))]
		one := func() gNode {
			if h.rng.Intn(3) > 0 {
				return hub[h.rng.Intn(len(hub))]
			}
			return nodes[h.rng.Intn(len(nodes))]
		}
		for k := 2 + h.rng.Intn(8); k > 0 && !h.stop; k-- {
			a, b := one(), one()
			if h.rng.Intn(8) == 0 {
				h.put(id, cur, mRel{a.res, a.id, a.rel, kEntity, b.res, b.id, ""})
			} else {
				h.put(id, cur, mRel{a.res, a.id, a.rel, kSet, b.res, b.id, b.rel})
			}
		}
		for k := 1 + h.rng.Intn(4); k > 0 && !h.stop; k-- {
			a := one()
			if h.rng.Intn(12) == 0 {
				h.put(id, cur, mRel{a.res, a.id, a.rel, kWild, "u", "", ""})
			} else {
				h.put(id, cur, mRel{a.res, a.id, a.rel, kEntity, "u", h.pick([]string{"x", "x", "y"}), ""})
			}
		}
		g := newGraph(cur.pol, cur.rels)
		for _, n := range nodes {
			if h.stop || h.tooBig(g, n) {
				return
			}
			for _, subj := range []gNode{{kind: kEntity, res: "u", id: "x"}, {kind: kEntity, res: "u", id: "y"}, {kind: kEntity, res: "g", id: "0"}} {
				if subj.res == "g" && h.rng.Intn(4) > 0 {
					continue
				}
				for _, f := range h.check(id, g, n, subj) {
					h.fail(f.tags, "%s", f.msg)
				}
				if all && !h.stop && h.rng.Intn(2) == 0 {
					h.explain(id, g, n, subj)
				}
			}
			if all && !h.stop && h.rng.Intn(2) == 0 {
				h.expand(id, g, n)
			}
		}
	}
}

// tooBig tells whether the goal tree of n is too large to be searched here
func (h *H) tooBig(g *graph, n gNode) bool {
	b := 20000
	_, _, over := g.expand(n, &b)
	return over
}

func cyclic(h *H) {
	o := polOpts{open: true, diff: h.rng.Intn(3) == 0, thisBias: true}
	id, cur := h.buildStore(o, 2)
	if cur == nil || h.stop {
		return
	}
	var nodes []gNode
	for _, r := range cur.pol.Resources {
		for _, l := range r.Relations {
			for i := 0; i < 2; i++ {
				nodes = append(nodes, gNode{kSet, r.Name, strconv.Itoa(i), l.Name})
			}
		}
	}
	if len(nodes) > 6 {
		h.rng.Shuffle(len(nodes), func(i, j int) { nodes[i], nodes[j] = nodes[j], nodes[i] })
		nodes = nodes[:6]
	}
	for k := 0; k < 3+h.rng.Intn(9); k++ {
		a, b := nodes[h.rng.Intn(len(nodes))], nodes[h.rng.Intn(len(nodes))]
		h.put(id, cur, mRel{a.res, a.id, a.rel, kSet, b.res, b.id, b.rel})
	}
	a := nodes[h.rng.Intn(len(nodes))]
	h.put(id, cur, mRel{a.res, a.id, a.rel, kEntity, a.res, "leaf", ""})
	g := newGraph(cur.pol, cur.rels)
	h.dump(id, cur)
	for _, n := range nodes {
		if h.stop || h.tooBig(g, n) {
			return
		}
		for _, f := range h.check(id, g, n, gNode{kind: kEntity, res: a.res, id: "leaf"}) {
			h.fail(append(f.tags, "C02"), "%s", f.msg)
		}
		h.explain(id, g, n, gNode{kind: kEntity, res: a.res, id: "leaf"})
		h.expand(id, g, n)
	}
}

// bulkGraph: long chains and wide sets
func bulkGraph(h *H) {
	id := "p"
	this := func() *domain.RelationExpression {
		return &domain.RelationExpression{Expression: &domain.RelationExpression_Expr{Expr: "_this"}}
	}
	uni := func() *domain.SubjectRestriction {
		return &domain.SubjectRestriction{SubjectRestriction: &domain.SubjectRestriction_UniversalSet{UniversalSet: &domain.UniversalSet{}}}
	}
	e := func(s string) *domain.RelationExpression {
		return &domain.RelationExpression{Expression: &domain.RelationExpression_Expr{Expr: s}}
	}
	pol := &domain.Policy{Id: id, Resources: []*domain.Resource{{Name: "user"}, {Name: "g", Relations: []*domain.Relation{
		{Name: "m", RelationExpression: this(), SubjectRestriction: uni()},
		{Name: "n", RelationExpression: e("_this + m"), SubjectRestriction: uni()},
		{Name: "x", RelationExpression: e("n - ban"), SubjectRestriction: uni()},
		{Name: "y", RelationExpression: e("(m & n) + up->y"), SubjectRestriction: uni()},
		{Name: "ban", RelationExpression: this(), SubjectRestriction: uni()},
		{Name: "up", RelationExpression: this(), SubjectRestriction: uni()},
	}}}}
	err, p := h.call("CreatePolicy", short(pol), func() (e error) {
		_, e = h.ps.CreatePolicy(h.ctx, &api.CreatePolicyRequest{PolicyDefinition: structDef(pol)})
		return
	})
	if p || err != nil {
		if err != nil {
			h.fail([]string{"C14"}, "valid policy refused: %v", err)
		}
		return
	}
	cur := &mPol{pol: pol, rels: map[mRel]*mRec{}}
	h.m[id] = cur
	n := h.size()
	if n > 130 {
		n = 130
	}
	chain := h.rng.Intn(3)
	for i := 0; i < n && !h.stop; i++ {
		a := strconv.Itoa(i)
		switch chain {
		case 0: // a chain of sets
			h.put(id, cur, mRel{"g", a, "m", kSet, "g", strconv.Itoa(i + 1), "m"})
		case 1: // a wide set
			h.put(id, cur, mRel{"g", "0", "m", kEntity, "user", a, ""})
			if i%5 == 0 {
				h.put(id, cur, mRel{"g", "0", "ban", kEntity, "user", a, ""})
			}
			if i%9 == 0 {
				h.put(id, cur, mRel{"g", "0", "m", kSet, "g", "h" + a, "m"})
			}
		case 2: // a chain of arrows
			h.put(id, cur, mRel{"g", a, "up", kEntity, "g", strconv.Itoa(i + 1), ""})
		}
	}
	last := strconv.Itoa(n)
	h.put(id, cur, mRel{"g", last, "m", kEntity, "user", "leaf", ""})
	if h.rng.Intn(2) == 0 {
		h.put(id, cur, mRel{"g", last, "m", kSet, "g", "0", "m"})
		h.put(id, cur, mRel{"g", last, "up", kEntity, "g", "0", ""})
	}
	g := newGraph(pol, cur.rels)
	for _, rel := range []string{"m", "n", "x", "y"} {
		for _, o := range []string{"0", last, strconv.Itoa(n / 2)} {
			for _, u := range []string{"leaf", "0", strconv.Itoa(n - 1), "zz"} {
				if h.stop {
					return
				}
				obj, subj := gNode{kSet, "g", o, rel}, gNode{kind: kEntity, res: "user", id: u}
				if h.tooBig(g, obj) {
					continue
				}
				for _, f := range h.check(id, g, obj, subj) {
					h.fail(append(f.tags, "C02"), "%s", f.msg)
				}
				if u == "leaf" {
					h.explain(id, g, obj, subj)
					h.expand(id, g, obj)
				}
			}
		}
	}
	h.dump(id, cur)
}

// ---- goal trees

type goal struct {
	kind, node, result string
	subs               []*goal
	id                 string
}

func parseDOT(dot string) (*gographviz.Graph, error) {
	ast, err := gographviz.ParseString(dot)
	if err != nil {
		return nil, err
	}
	g := gographviz.NewGraph()
	if err := gographviz.Analyse(ast, g); err != nil {
		return nil, err
	}
	return g, nil
}

// parseGoalDOT rebuilds the goal tree from its DOT form
func parseGoalDOT(dot string) (*goal, error) {
	g, err := parseDOT(dot)
	if err != nil {
		return nil, fmt.Errorf("malformed DOT: %v", err)
	}
	nodes := map[string]*goal{}
	for _, n := range g.Nodes.Nodes {
		x := &goal{id: n.Name}
		if lab, ok := n.Attrs["label"]; ok {
			s, err := strconv.Unquote(lab)
			if err != nil {
				return nil, fmt.Errorf("label %s: %v", lab, err)
			}
			i := strings.Index(s, "\n")
			if i < 0 {
				return nil, fmt.Errorf("label %q", s)
			}
			x.kind = s[:i]
			j := strings.LastIndex(s, "\nresult: ")
			if j < 0 {
				return nil, fmt.Errorf("label %q", s)
			}
			x.result = s[j+len("\nresult: "):]
			if x.kind == "PathNode" {
				mid := strings.TrimPrefix(s[i:j], "\nrelation node: ")
				k := strings.LastIndex(mid, "\nreason: ")
				if k < 0 {
					return nil, fmt.Errorf("label %q", s)
				}
				x.node = mid[:k]
			}
		}
		nodes[n.Name] = x
	}
	type ch struct {
		n   int
		sub *goal
	}
	kids := map[string][]ch{}
	for _, e := range g.Edges.Edges {
		s, err := strconv.Unquote(e.Dst)
		if err != nil {
			s = e.Dst
		}
		n, err := strconv.Atoi(s)
		if err != nil {
			return nil, fmt.Errorf("edge to %s", e.Dst)
		}
		if nodes[e.Src] == nil || nodes[e.Dst] == nil {
			return nil, fmt.Errorf("edge %s -> %s without nodes", e.Src, e.Dst)
		}
		kids[e.Src] = append(kids[e.Src], ch{n, nodes[e.Dst]})
	}
	for s, c := range kids {
		sort.Slice(c, func(i, j int) bool { return c[i].n < c[j].n })
		for _, x := range c {
			nodes[s].subs = append(nodes[s].subs, x.sub)
		}
	}
	if r := nodes["root"]; r != nil && len(r.subs) == 1 {
		return r.subs[0], nil
	}
	return nil, fmt.Errorf("DOT has no single root")
}

type jGoal struct {
	Result       string
	Paths        []*jGoal
	Left, Right  *jGoal
	Path         *jGoal
	RelationNode *struct {
		Node map[string]map[string]any
	}
}

func (j *jGoal) canon() string {
	if j == nil {
		return "-"
	}
	var parts []string
	for _, p := range j.Paths {
		parts = append(parts, p.canon())
	}
	k := "N"
	switch {
	case j.RelationNode != nil:
		k = "PathNode"
		if j.Path != nil {
			parts = append(parts, j.Path.canon())
		}
	case j.Left != nil || j.Right != nil:
		parts = append(parts, j.Left.canon(), j.Right.canon())
	}
	return k + ":" + j.Result + "[" + strings.Join(parts, " ") + "]"
}

func (g *goal) canon() string {
	var parts []string
	for _, p := range g.subs {
		parts = append(parts, p.canon())
	}
	k := "N"
	if g.kind == "PathNode" {
		k = g.kind
	}
	return k + ":" + g.result + "[" + strings.Join(parts, " ") + "]"
}

// consistent verifies every result follows from the children (property C03)
func (g *goal) consistent(subj gNode) string {
	for i, s := range g.subs {
		if g.kind == "ANDNode" && i > 0 && s.result == "UNKNOWN" && g.subs[i-1].result != "SUCCESS" {
			break // operands after the one that failed need not be evaluated
		}
		if g.kind == "ORNode" && i > 0 && s.result == "UNKNOWN" && g.subs[i-1].result == "SUCCESS" {
			break
		}
		if g.kind == "DifferenceNode" && i == 1 && s.result == "UNKNOWN" && g.subs[0].result != "SUCCESS" {
			break
		}
		if m := s.consistent(subj); m != "" {
			return m
		}
	}
	count := func(r string) (n int) {
		for _, s := range g.subs {
			if s.result == r {
				n++
			}
		}
		return
	}
	want := g.result
	switch g.kind {
	case "ORNode":
		want = "FAILURE"
		if count("SUCCESS") > 0 {
			want = "SUCCESS"
		}
	case "ANDNode":
		switch {
		case count("SUCCESS") == len(g.subs):
			want = "SUCCESS"
		case g.result == "FAILURE" && len(g.subs) > count("SUCCESS"):
			want = "FAILURE"
		default:
			want = "not SUCCESS"
		}
	case "DifferenceNode":
		if len(g.subs) != 2 {
			return "difference without two operands"
		}
		want = "FAILURE"
		if g.subs[0].result == "SUCCESS" && g.subs[1].result != "SUCCESS" {
			want = "SUCCESS"
		}
	case "PathNode":
		hit := g.node == subj.pretty() || g.node == gNode{kind: kWild, res: subj.res}.pretty()
		switch {
		case len(g.subs) == 1:
			want = g.subs[0].result
		case len(g.subs) > 1:
			return "path with several children"
		case g.result == "UNKNOWN":
			// unexplored or cyclic
		case hit:
			want = "SUCCESS"
		default:
			want = "FAILURE"
		}
	default:
		return "unknown node kind " + g.kind
	}
	if want != g.result {
		return fmt.Sprintf("%s %s has result %s, its children give %s", g.kind, g.node, g.result, want)
	}
	return ""
}

func sane(n gNode) bool {
	ok := func(s string) bool { return !strings.ContainsAny(s, ",:()*\n") }
	return ok(n.res) && ok(n.id) && ok(n.rel)
}

func (h *H) explain(id string, g *graph, obj, subj gNode) {
	ar := &domain.AccessRequest{Object: domain.NewEntity(obj.res, obj.id), Relation: obj.rel, Subject: domain.NewEntity(subj.res, subj.id)}
	var cresp *api.CheckResponse
	cerr, p := h.call("Check", short(ar), func() (e error) {
		cresp, e = h.gs.Check(h.ctx, &api.CheckRequest{PolicyId: id, AccessRequest: ar})
		return
	})
	if p {
		return
	}
	trees := map[api.ExplainFormat]string{}
	for _, f := range []api.ExplainFormat{api.ExplainFormat_SPEW, api.ExplainFormat_JSON, api.ExplainFormat_DOT, api.ExplainFormat(3), api.ExplainFormat(-1)} {
		if h.stop {
			return
		}
		req := &api.ExplainCheckRequest{PolicyId: id, AccessRequest: ar, Format: f}
		var resp *api.ExplainCheckResponse
		err, p := h.call("ExplainCheck", short(req), func() (e error) { resp, e = h.gs.ExplainCheck(h.ctx, req); return })
		if p {
			return
		}
		if f != api.ExplainFormat_SPEW && f != api.ExplainFormat_JSON && f != api.ExplainFormat_DOT {
			if err == nil {
				h.fail([]string{"C03"}, "ExplainCheck accepted unknown format %d", f)
			}
			continue
		}
		if (err == nil) != (cerr == nil) {
			h.fail([]string{"C03"}, "ExplainCheck(%s) error=%v but Check error=%v: %s", f, err, cerr, short(req))
			return
		}
		if err != nil {
			continue
		}
		if resp.GetAuthorized() != cresp.GetResult().GetAuthorized() {
			h.fail([]string{"C03"}, "ExplainCheck(%s) authorized=%v but Check answers %v: %s", f, resp.GetAuthorized(), cresp.GetResult().GetAuthorized(), short(req))
		}
		if resp.GetFormat() != f {
			h.fail([]string{"C03"}, "ExplainCheck(%s) reports format %s", f, resp.GetFormat())
		}
		trees[f] = resp.GetGoalTree()
	}
	if cerr != nil || h.stop || len(trees) != 3 {
		return
	}
	h.verifyTrees("C03", trees, func(t *goal) string {
		want := "SUCCESS"
		if !cresp.GetResult().GetAuthorized() {
			want = "FAILURE"
		}
		if t.kind != "PathNode" || t.node != obj.pretty() {
			return fmt.Sprintf("tree is rooted at %s %s, want %s", t.kind, t.node, obj.pretty())
		}
		if t.result != want && !(want == "FAILURE" && t.result == "UNKNOWN") {
			return fmt.Sprintf("root has result %s, decision is %v", t.result, want)
		}
		if !sane(subj) {
			return ""
		}
		for m := range h.m[id].rels {
			if !sane(m.source()) || !sane(m.dest()) {
				return ""
			}
		}
		return t.consistent(subj)
	})
}

func (h *H) verifyTrees(tag string, trees map[api.ExplainFormat]string, judge func(*goal) string) *goal {
	t, err := parseGoalDOT(trees[api.ExplainFormat_DOT])
	if err != nil {
		h.fail([]string{tag}, "DOT goal tree: %v:\n%s", err, trees[api.ExplainFormat_DOT])
		return nil
	}
	if m := judge(t); m != "" {
		h.fail([]string{tag}, "DOT goal tree: %s:\n%s", m, trees[api.ExplainFormat_DOT])
		return t
	}
	var j *jGoal
	if err := json.Unmarshal([]byte(trees[api.ExplainFormat_JSON]), &j); err != nil {
		h.fail([]string{tag}, "JSON goal tree: %v:\n%s", err, trees[api.ExplainFormat_JSON])
		return t
	}
	if j.canon() != t.canon() {
		h.fail([]string{tag}, "JSON and DOT goal trees differ:\n%s\n%s", trees[api.ExplainFormat_JSON], trees[api.ExplainFormat_DOT])
	}
	// every node of the tree is in the dump (which may show a node more than once, by its parent)
	if s, n := trees[api.ExplainFormat_SPEW], t.nodes(); !strings.Contains(s, "PathNode") || strings.Count(s, "SearchResult)") < n {
		h.fail([]string{tag}, "SPEW goal tree lacks some of the %d nodes: %s", n, s)
	}
	return t
}

func (g *goal) nodes() int {
	n := 1
	for _, s := range g.subs {
		n += s.nodes()
	}
	return n
}

func (n gNode) relationNode() *domain.RelationNode {
	switch n.kind {
	case kEntity:
		return &domain.RelationNode{Node: &domain.RelationNode_Entity{Entity: &domain.EntityNode{Object: domain.NewEntity(n.res, n.id)}}}
	case kWild:
		return &domain.RelationNode{Node: &domain.RelationNode_Wildcard{Wildcard: &domain.WildcardNode{Resource: n.res}}}
	}
	return &domain.RelationNode{Node: &domain.RelationNode_EntitySet{EntitySet: &domain.EntitySetNode{Object: domain.NewEntity(n.res, n.id), Relation: n.rel}}}
}

func (h *H) expandCall(id string, n gNode, f api.ExplainFormat) (*goal, error, bool) {
	req := &api.ExpandRequest{PolicyId: id, Root: n.relationNode(), Format: f}
	var resp *api.ExpandResponse
	err, p := h.call("Expand", short(req), func() (e error) { resp, e = h.gs.Expand(h.ctx, req); return })
	if p || err != nil {
		return nil, err, p
	}
	t, err := parseGoalDOT(resp.GetGoalTree())
	return t, err, false
}

func (h *H) expand(id string, g *graph, n gNode) {
	b := 3000
	want, bad, over := g.expand(n, &b)
	if over {
		return
	}
	trees := map[api.ExplainFormat]string{}
	for _, f := range []api.ExplainFormat{api.ExplainFormat_SPEW, api.ExplainFormat_JSON, api.ExplainFormat_DOT, api.ExplainFormat(3)} {
		req := &api.ExpandRequest{PolicyId: id, Root: n.relationNode(), Format: f}
		var resp *api.ExpandResponse
		err, p := h.call("Expand", short(req), func() (e error) { resp, e = h.gs.Expand(h.ctx, req); return })
		if p || h.stop {
			return
		}
		if f == api.ExplainFormat(3) {
			if err == nil {
				h.fail([]string{"C04"}, "Expand accepted an unknown format")
			}
			continue
		}
		if bad {
			if err == nil {
				h.fail([]string{"C04"}, "Expand(%v) succeeded although a reachable node cannot be evaluated", n)
			}
			continue
		}
		if err != nil {
			h.fail([]string{"C04"}, "Expand(%q, %v) failed: %v; policy %s", id, n, err, short(g.pol))
			return
		}
		if resp.GetFormat() != f {
			h.fail([]string{"C04"}, "Expand(%s) reports format %s", f, resp.GetFormat())
		}
		trees[f] = resp.GetGoalTree()
	}
	if bad || h.stop {
		return
	}
	h.verifyTrees("C04", trees, func(t *goal) string {
		if got := t.shape().canon(); got != want.canon() {
			return fmt.Sprintf("Expand(%q, %v) gives\n%s\nwant\n%s\npolicy %s relationships %v", id, n, got, want.canon(), short(g.pol), g.succ)
		}
		return ""
	})
}

func (g *goal) shape() *xTree {
	x := &xTree{kind: g.kind, node: g.node}
	for _, s := range g.subs {
		x.subs = append(x.subs, s.shape())
	}
	return x
}

func expandCase(h *H) {
	o := polOpts{open: true, diff: h.rng.Intn(2) == 0, thisBias: h.rng.Intn(2) == 0}
	id, cur := h.buildStore(o, 3+h.rng.Intn(10))
	if cur == nil || h.stop {
		return
	}
	g := newGraph(cur.pol, cur.rels)
	for k := 0; k < 10 && !h.stop; k++ {
		m := h.rels[h.rng.Intn(len(h.rels))]
		n := m.source()
		switch h.rng.Intn(8) {
		case 0:
			n = m.dest()
		case 1:
			n.rel = "nope"
		}
		h.expand(id, g, n)
	}
	if !h.stop {
		if _, err, p := h.expandCall("unknown policy", gNode{kSet, "a", "b", "c"}, api.ExplainFormat_DOT); !p && err == nil {
			h.fail([]string{"C04"}, "Expand succeeded for an unknown policy")
		}
	}
}

// ---- dump

func (h *H) dump(id string, cur *mPol) {
	for _, f := range []api.DumpRelationshipsRequest_DumpFormat{api.DumpRelationshipsRequest_DOT, 5} {
		req := &api.DumpRelationshipsRequest{PolicyId: id, Format: f}
		var resp *api.DumpRelationshipResponse
		err, p := h.call("DumpRelationships", short(req), func() (e error) { resp, e = h.gs.DumpRelationships(h.ctx, req); return })
		if p || h.stop {
			return
		}
		if cur == nil || f != api.DumpRelationshipsRequest_DOT {
			if err == nil {
				h.fail([]string{"C05"}, "DumpRelationships succeeded for policy known=%v format=%v", cur != nil, f)
			}
			continue
		}
		if err != nil {
			h.fail([]string{"C05"}, "DumpRelationships(%q) failed: %v", id, err)
			return
		}
		if msg := dumpMismatch(resp.GetDot(), cur); msg != "" {
			h.fail([]string{"C05"}, "DumpRelationships(%q): %s; relationships %v;\n%s", id, msg, keys(cur.rels), resp.GetDot())
			if strings.HasPrefix(msg, "edges") {
				h.fail([]string{"C17"}, "DumpRelationships(%q): %s; relationships %v;\n%s", id, msg, keys(cur.rels), resp.GetDot())
			}
		}
	}
}

func keys(m map[mRel]*mRec) (out []string) {
	for r := range m {
		out = append(out, r.String())
	}
	sort.Strings(out)
	return
}

func dumpMismatch(dot string, cur *mPol) string {
	g, err := parseDOT(dot)
	if err != nil {
		return fmt.Sprintf("malformed DOT: %v", err)
	}
	lab := map[string]string{}
	seenLab := map[string]int{}
	for _, n := range g.Nodes.Nodes {
		s, err := strconv.Unquote(n.Attrs["label"])
		if err != nil {
			return fmt.Sprintf("label of %s: %v", n.Name, err)
		}
		lab[n.Name] = s
		seenLab[s]++
	}
	root := ""
	in := map[string]bool{}
	for _, e := range g.Edges.Edges {
		in[e.Dst] = true
	}
	for _, n := range g.Nodes.Nodes {
		if lab[n.Name] == "root" && !in[n.Name] {
			root = n.Name
		}
	}
	if root == "" {
		return "no root node"
	}
	var got, want []string
	adj := map[string][]string{}
	for _, e := range g.Edges.Edges {
		adj[e.Src] = append(adj[e.Src], e.Dst)
		if e.Src == root {
			continue
		}
		got = append(got, lab[e.Src]+" -> "+lab[e.Dst])
	}
	labels := map[string]int{}
	nodes := map[gNode]bool{}
	for m := range cur.rels {
		want = append(want, m.source().pretty()+" -> "+m.dest().pretty())
		for _, n := range []gNode{m.source(), m.dest()} {
			if !nodes[n] {
				nodes[n] = true
				labels[n.pretty()]++
			}
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		return fmt.Sprintf("edges are %q, want %q", got, want)
	}
	for l, n := range labels {
		if seenLab[l] != n {
			return fmt.Sprintf("%d nodes labelled %q, want %d", seenLab[l], l, n)
		}
	}
	seen := map[string]bool{}
	var walk func(n string)
	walk = func(n string) {
		if seen[n] {
			return
		}
		seen[n] = true
		for _, k := range adj[n] {
			walk(k)
		}
	}
	walk(root)
	for _, n := range g.Nodes.Nodes {
		if !seen[n.Name] {
			return fmt.Sprintf("node %q is not reachable from the root", lab[n.Name])
		}
	}
	return ""
}

func dumpCase(h *H) {
	o := polOpts{open: true, thisBias: true, hostile: h.rng.Intn(2) == 0}
	id, cur := h.buildStore(o, 1+h.rng.Intn(14))
	if cur == nil || h.stop {
		return
	}
	for k := 0; k < 3 && !h.stop; k++ {
		h.dump(id, cur)
		for m := range cur.rels {
			h.call("DeleteRelationship", m.String(), func() (e error) {
				_, e = h.ps.DeleteRelationship(h.ctx, &api.DeleteRelationshipRequest{PolicyId: id, Relationship: m.domain()})
				return
			})
			delete(cur.rels, m)
			break
		}
	}
	h.dump(id, cur)
	h.dump("unknown", nil)
}

// ---------------------------------------------------------------- admission, selectors, validity

func admission(h *H) {
	o := polOpts{hostile: h.rng.Intn(3) == 0}
	h.setup(o, 1, 8)
	id := h.pids[0]
	p := h.pols[id][0]
	if _, pn := h.call("CreatePolicy", short(p), func() (e error) {
		_, e = h.ps.CreatePolicy(h.ctx, &api.CreatePolicyRequest{PolicyDefinition: structDef(p)})
		return
	}); pn {
		return
	}
	h.m[id] = &mPol{pol: p, rels: map[mRel]*mRec{}}
	ids := []string{h.id(), h.id()}
	for k := 0; k < 60 && !h.stop; k++ {
		d := h.genRel(p, ids).domain()
		switch h.rng.Intn(30) {
		case 0:
			d.Object = nil
		case 1:
			d.Subject = nil
		case 2:
			d.Subject.Subject = nil
		case 3:
			d.Relation = ""
		case 4:
			d.Object.Id = ""
		case 5:
			d.Object.Resource = ""
		case 6:
			d.Subject = &domain.Subject{Subject: &domain.Subject_EntitySet{EntitySet: &domain.EntitySet{Relation: d.Relation}}}
		case 7:
			d.Subject = &domain.Subject{Subject: &domain.Subject_EntitySet{EntitySet: &domain.EntitySet{Entity: domain.NewEntity(d.Object.Resource, "1")}}}
		case 8:
			d.Subject = &domain.Subject{Subject: &domain.Subject_ResourceSet{ResourceSet: &domain.ResourceSet{}}}
		case 9:
			d.Subject = &domain.Subject{Subject: &domain.Subject_Entity{Entity: &domain.Entity{Resource: d.Object.Resource}}}
		case 10:
			d.Subject = &domain.Subject{Subject: &domain.Subject_Entity{Entity: &domain.Entity{Id: "1"}}}
		}
		m, complete := fromDomainRel(d)
		pid := id
		if h.rng.Intn(30) == 0 {
			pid = h.polId() + "x"
		}
		want := complete && pid == id && refAllowed(p, m)
		err, pn := h.call("SetRelationship", short(d), func() (e error) {
			_, e = h.ps.SetRelationship(h.ctx, &api.SetRelationshipRequest{PolicyId: pid, Relationship: d})
			return
		})
		if pn {
			return
		}
		if (err == nil) != want {
			h.fail([]string{"C06"}, "SetRelationship(%s) error=%v, want allowed=%v; policy %s", short(d), err, want, short(p))
			return
		}
		if err == nil {
			h.m[id].rels[m] = &mRec{t0: timeNow().Add(-1e9), t1: timeNow().Add(1e9)}
		}
	}
	if _, c := h.find(id, anySelector()); c != "" { // refused ones are not stored
		h.fail([]string{"C06", "C10"}, "%s", c)
	}
}

func finder(h *H) {
	o := polOpts{open: true, hostile: h.rng.Intn(2) == 0, thisBias: true}
	h.setup(o, 2, 14)
	for _, id := range h.pids {
		h.create(structDef(h.pols[id][0]), h.pols[id][0], true, "", nil, false)
	}
	for _, m := range h.rels {
		for _, id := range h.pids {
			if cur := h.m[id]; cur != nil && h.rng.Intn(4) > 0 {
				app := h.appData()
				var err error
				err, p := h.call("SetRelationship", m.String(), func() (e error) {
					_, e = h.ps.SetRelationship(h.ctx, &api.SetRelationshipRequest{PolicyId: id, Relationship: m.domain(), AppData: app})
					return
				})
				if p {
					return
				}
				if err == nil && refAllowed(cur.pol, m) {
					cur.rels[m] = &mRec{app: app, t0: timeNow().Add(-1e9), t1: timeNow().Add(1e9)}
				}
			}
		}
	}
	for k := 0; k < 40 && !h.stop; k++ {
		id := h.pids[h.rng.Intn(len(h.pids))]
		s := h.genSelector(h.pols[id][0], h.rels)
		switch h.rng.Intn(25) {
		case 0:
			s.ObjectSelector = nil
		case 1:
			s.RelationSelector = nil
		case 2:
			s.SubjectSelector = nil
		case 3:
			s.ObjectSelector.Selector = nil
		case 4:
			s.RelationSelector.Selector = nil
		case 5:
			s.SubjectSelector.Selector = nil
		case 6:
			s.SubjectSelector.Selector = &domain.SubjectSelector_SubjectSpec{SubjectSpec: &domain.Subject{}}
		case 7:
			s.ObjectSelector.Selector = &domain.ObjectSelector_ObjectSpec{ObjectSpec: &domain.Entity{}}
		case 8:
			id = "unknown policy"
		}
		v, c := h.find(id, s)
		if v != "" {
			h.fail([]string{"C19"}, "%s", v)
		}
		if c != "" {
			h.fail([]string{"C10"}, "%s", c)
		}
	}
}

func deleter(h *H) {
	o := polOpts{open: true, hostile: h.rng.Intn(2) == 0, thisBias: true}
	h.setup(o, 2, 16)
	for _, id := range h.pids {
		h.create(structDef(h.pols[id][0]), h.pols[id][0], true, "", nil, false)
		for _, m := range h.rels {
			if h.stop {
				return
			}
			if cur := h.m[id]; cur != nil && refAllowed(cur.pol, m) && h.rng.Intn(4) > 0 {
				app := h.appData()
				err, p := h.call("SetRelationship", m.String(), func() (e error) {
					_, e = h.ps.SetRelationship(h.ctx, &api.SetRelationshipRequest{PolicyId: id, Relationship: m.domain(), AppData: app})
					return
				})
				if p || err != nil {
					return
				}
				cur.rels[m] = &mRec{app: app, t0: timeNow().Add(-1e9), t1: timeNow().Add(1e9)}
			}
		}
	}
	h.battery("start", "", true)
	for k := 0; k < 4 && !h.stop; k++ {
		id := h.pids[h.rng.Intn(len(h.pids))]
		h.deleteRels(id, h.genSelector(h.pols[id][0], h.rels))
	}
}

func validity(h *H) {
	o := polOpts{hostile: h.rng.Intn(2) == 0, diff: true}
	h.pids = []string{h.polId()}
	if h.pids[0] == "" {
		return
	}
	ok0 := h.genPolicy(h.pids[0], o)
	h.rels = []mRel{{"a", "b", "c", kEntity, "d", "e", ""}}
	for k := 0; k < 12 && !h.stop; k++ {
		p := ok0
		for j := h.rng.Intn(3); j > 0; j-- {
			p = h.damage(p)
		}
		why, ok := refValidPolicy(p)
		if cur := h.m[p.Id]; cur != nil && h.rng.Intn(3) > 0 {
			h.update(structDef(p), p, ok, why, nil, false)
		} else {
			if cur != nil {
				h.call("DeletePolicy", p.Id, func() (e error) { _, e = h.ps.DeletePolicy(h.ctx, &api.DeletePolicyRequest{Id: p.Id}); return })
				delete(h.m, p.Id)
			}
			h.create(structDef(p), p, ok, why, nil, false)
		}
	}
}

// ---------------------------------------------------------------- grammar

func (h *H) randomExpr() string {
	pieces := []string{"_this", "a", "b", "ab", "_x", "_thisx", "_this_", "é1", "世界", "+", "&", "-", "->", "(", ")", " ", "\t", "\n", "", "$", ",", ".", ">", "- >", "--", "_", "1", "\u00a0", "\u2028", "|", "*", "/", "\x00", "\xff", "ǅ", "²", "٣", "‿", "\ufffd"}
	n := h.rng.Intn(10)
	s := ""
	for i := 0; i < n; i++ {
		s += h.pick(pieces)
	}
	return s
}

func grammar(h *H) {
	for k := 0; k < 30 && !h.stop; k++ {
		var in string
		switch h.rng.Intn(3) {
		case 0:
			in = h.randomExpr()
		default:
			t := h.genTree([]string{"a", "b", "ab", "_x", "_thisx", "é1", "世界", "x1", "1", "This", "_"}, []string{"q"}, h.rng.Intn(5), true)
			in = h.text(t, true)
			if h.rng.Intn(3) == 0 { // a small edit
				rs := []rune(in)
				i := h.rng.Intn(len(rs) + 1)
				switch h.rng.Intn(3) {
				case 0:
					if i < len(rs) {
						rs = append(rs[:i:i], rs[i+1:]...)
					}
				case 1:
					rs = append(rs[:i:i], append([]rune(h.randomExpr()), rs[i:]...)...)
				case 2:
					if i < len(rs) {
						rs = append(rs[:i:i], append([]rune{rs[i], rs[i]}, rs[i+1:]...)...)
					}
				}
				in = string(rs)
			}
			if h.rng.Intn(40) == 0 { // long expressions
				n := h.size()
				in = "_this" + strings.Repeat(h.pick([]string{"+a", " - b ", "&a->b"}), n)
			}
			if h.rng.Intn(20) == 0 { // long names and gaps
				n := h.size()
				in = h.pick([]string{"", "_this + ", "_"}) + strings.Repeat(h.pick([]string{"a", "世", "x1", "_this"}), n) + strings.Repeat(h.pick([]string{"", " ", "\t\n"}), n) + h.pick([]string{"->a", "", "&(b)", "-> " + strings.Repeat("b", n)})
			}
			if h.rng.Intn(40) == 0 {
				n := h.size()
				in = strings.Repeat("(", n) + in + strings.Repeat(")", n)
			}
		}
		h.parseOne(in)
	}
}

// throughService checks the acceptance of an expression by CreatePolicy
func (h *H) throughService(in string) {
	want, ok := refParse(in)
	p := &domain.Policy{Id: "p", Resources: []*domain.Resource{{Name: "r"}}}
	add := func(name, expr string) {
		p.Resources[0].Relations = append(p.Resources[0].Relations, &domain.Relation{Name: name, RelationExpression: &domain.RelationExpression{Expression: &domain.RelationExpression_Expr{Expr: expr}},
			SubjectRestriction: wantRestriction([]string{"*"})})
	}
	names := map[string]bool{"the relation": true}
	var walk func(t *rTree)
	walk = func(t *rTree) {
		if t == nil {
			return
		}
		if t.op != "" {
			walk(t.left)
			walk(t.right)
		} else if t.rule != "this" && !names[t.a] {
			names[t.a] = true
			add(t.a, "_this")
		}
	}
	if ok {
		walk(want)
	}
	add("the relation", in)
	delete(h.m, "p")
	err, pn := h.call("DeletePolicy", "p", func() error { _, e := h.ps.DeletePolicy(h.ctx, &api.DeletePolicyRequest{Id: "p"}); return e })
	if pn || err != nil {
		return
	}
	err, pn = h.call("CreatePolicy", strconv.Quote(in), func() error {
		_, e := h.ps.CreatePolicy(h.ctx, &api.CreatePolicyRequest{PolicyDefinition: structDef(p)})
		return e
	})
	if pn {
		return
	}
	if (err == nil) != ok {
		h.fail([]string{"C15", "C14"}, "policy with expression %q: error=%v, want accepted=%v", in, err, ok)
	}
}

func (h *H) parseOne(in string) {
	if h.rng.Intn(6) == 0 || !haveGlue {
		h.throughService(in)
		if h.stop || !haveGlue {
			return
		}
	}
	want, ok := refParse(in)
	var got *domain.RelationExpressionTree
	err, p := h.call("Parse", strconv.Quote(in), func() (e error) { got, e = parseExpression(in); return })
	if p {
		return
	}
	if (err == nil) != ok {
		h.fail([]string{"C15"}, "Parse(%q) error=%v, want accepted=%v", in, err, ok)
		return
	}
	if err != nil {
		return
	}
	gt, complete := fromDomainTree(got)
	if !complete || gt.String() != want.String() {
		h.fail([]string{"C15"}, "Parse(%q) = %v, want %v", in, gt, want)
		return
	}
	if !treeTextable(want) {
		return
	}
	txt := got.RelationExpression()
	again, err := parseExpression(txt)
	if err != nil || !proto.Equal(again, got) {
		h.fail([]string{"C15"}, "Parse(%q) prints as %q, which parses to %v (%v)", in, txt, again, err)
	}
	t2 := toDomainTree(want)
	if txt2 := t2.RelationExpression(); true {
		if x, ok := refParse(txt2); !ok || x.String() != want.String() {
			h.fail([]string{"C15"}, "tree %v prints as %q, which denotes %v", want, txt2, x)
		}
	}
}

// ---------------------------------------------------------------- YAML

func yamlCase(h *H) {
	o := polOpts{}
	h.pids = []string{h.polId()}
	doc := map[string]any{"id": h.pids[0]}
	want := &domain.Policy{Id: h.pids[0]}
	if h.rng.Intn(2) == 0 {
		want.Name = h.id()
		doc["name"] = want.Name
	}
	if h.rng.Intn(2) == 0 {
		want.Description = h.pick(hostileIds)
		doc["doc"] = want.Description
	}
	if h.rng.Intn(3) == 0 {
		want.Attributes = map[string]string{h.id(): h.id(), "k": ""}
		doc["attributes"] = want.Attributes
	}
	p := h.genPolicy(h.pids[0], o)
	resources := map[string]any{}
	if h.rng.Intn(6) == 0 {
		n := h.size()
		if n > 60 {
			n = 60
		}
		for i := 0; i < n; i++ {
			p.Resources = append(p.Resources, &domain.Resource{Name: fmt.Sprintf("r%d", i)})
		}
	}
	for _, r := range p.Resources {
		if len(r.Relations) == 0 && h.rng.Intn(2) == 0 {
			resources[r.Name] = nil
			want.Resources = append(want.Resources, &domain.Resource{Name: r.Name})
			continue
		}
		res := map[string]any{}
		wr := &domain.Resource{Name: r.Name}
		if h.rng.Intn(2) == 0 {
			wr.Description = h.pick(hostileIds)
			res["doc"] = wr.Description
		}
		rels := map[string]any{}
		for _, l := range r.Relations {
			t, _ := relTree(l)
			if !treeTextable(t) {
				t = &rTree{rule: "this"}
			}
			e := h.text(t, true)
			if strings.ContainsAny(e, "\n\t\u00a0") {
				e = strings.NewReplacer("\n", " ", "\t", " ", "\u00a0", " ").Replace(e)
			}
			x := map[string]any{"expr": e}
			wl := &domain.Relation{Name: l.Name, RelationExpression: &domain.RelationExpression{Expression: &domain.RelationExpression_Expr{Expr: e}}}
			if h.rng.Intn(2) == 0 {
				wl.Description = h.pick(idPool)
				x["doc"] = wl.Description
			}
			var tys []string
			for i, c := 0, h.rng.Intn(4); i < c; i++ {
				y := p.Resources[h.rng.Intn(len(p.Resources))]
				s := y.Name
				if len(y.Relations) > 0 && h.rng.Intn(2) == 0 {
					s += ":" + y.Relations[h.rng.Intn(len(y.Relations))].Name
				}
				tys = append(tys, s)
			}
			if h.rng.Intn(4) == 0 {
				k := h.rng.Intn(len(tys) + 1)
				tys = append(tys[:k:k], append([]string{"*"}, tys[k:]...)...)
			}
			if tys != nil {
				x["types"] = tys
			}
			wl.SubjectRestriction = wantRestriction(tys)
			rels[l.Name] = x
			wr.Relations = append(wr.Relations, wl)
		}
		sort.Slice(wr.Relations, func(i, j int) bool { return wr.Relations[i].Name < wr.Relations[j].Name })
		if len(rels) > 0 {
			res["relations"] = rels
		}
		resources[r.Name] = res
		want.Resources = append(want.Resources, wr)
	}
	sort.Slice(want.Resources, func(i, j int) bool { return want.Resources[i].Name < want.Resources[j].Name })
	if h.rng.Intn(8) == 0 && len(resources) > 0 { // a relation placeholder without body
		for n, r := range resources {
			if m, ok := r.(map[string]any); ok {
				rels, _ := m["relations"].(map[string]any)
				if rels == nil {
					rels = map[string]any{}
					m["relations"] = rels
				}
				rels["zz_empty"] = nil
				for _, w := range want.Resources {
					if w.Name == n {
						w.Relations = append(w.Relations, &domain.Relation{Name: "zz_empty", RelationExpression: &domain.RelationExpression{Expression: &domain.RelationExpression_Expr{}}, SubjectRestriction: wantRestriction(nil)})
						sort.Slice(w.Relations, func(i, j int) bool { return w.Relations[i].Name < w.Relations[j].Name })
					}
				}
				break
			}
		}
	}
	if len(resources) > 0 {
		doc["resources"] = resources
	}
	b, err := yaml.Marshal(doc)
	if err != nil {
		return
	}
	// yaml.v3 does not write every string so that it reads back the same
	var back map[string]any
	j0, _ := json.Marshal(doc)
	if err := yaml.Unmarshal(b, &back); err != nil {
		b = j0
	} else if j1, _ := json.Marshal(back); string(j0) != string(j1) {
		b = j0
	}
	back = nil
	if err := yaml.Unmarshal(b, &back); err != nil {
		return
	} else if j1, _ := json.Marshal(back); string(j0) != string(j1) {
		return
	}
	h.rels = []mRel{{"a", "b", "c", kEntity, "d", "e", ""}}
	// the mapping itself
	var got *domain.Policy
	merr, pn := h.call("PolicyFromYaml", string(b), func() (e error) { got, e = policyFromYaml(string(b)); return })
	if pn {
		return
	}
	if merr != nil && haveGlue {
		h.fail([]string{"C16"}, "YAML document refused: %v:\n%s", merr, b)
		return
	}
	if haveGlue && !proto.Equal(got, want) {
		h.fail([]string{"C16"}, "YAML document gives %s, want %s:\n%s", short(got), short(want), b)
		return
	}
	why, ok := refValidPolicy(want)
	def := &api.PolicyDefinition{Definition: &api.PolicyDefinition_PolicyYaml{PolicyYaml: string(b)}}
	if want.Id != "" {
		h.create(def, want, ok, why, nil, true)
		if !h.stop && ok {
			h.update(def, want, ok, why, []byte("x"), true)
		}
	}
	for _, bad := range []string{"id: [", "id: x\nunknown: 1\n", "id: x\nresources:\n  a:\n    nope: 1\n", "id: x\nresources:\n  a:\n    relations:\n      b:\n        what: 1\n", "{", "a: b: c", "- a", "id: x\nresources: 3\n", "\tid: x", "", "just text"} {
		err, pn := h.call("PolicyFromYaml", bad, func() (e error) { _, e = policyFromYaml(bad); return })
		if !pn && err == nil {
			h.fail([]string{"C16"}, "document %q was not refused", bad)
		}
		err, pn = h.call("CreatePolicy", bad, func() (e error) {
			_, e = h.ps.CreatePolicy(h.ctx, &api.CreatePolicyRequest{PolicyDefinition: &api.PolicyDefinition{Definition: &api.PolicyDefinition_PolicyYaml{PolicyYaml: bad}}})
			return
		})
		if !pn && err == nil {
			h.fail([]string{"C16", "C14"}, "CreatePolicy accepted the YAML document %q", bad)
		}
	}
}

func wantRestriction(tys []string) *domain.SubjectRestriction {
	for _, t := range tys {
		if t == "*" {
			return &domain.SubjectRestriction{SubjectRestriction: &domain.SubjectRestriction_UniversalSet{UniversalSet: &domain.UniversalSet{}}}
		}
	}
	set := &domain.SubjectRestrictionSet{}
	for _, t := range tys {
		if i := strings.Index(t, ":"); i >= 0 {
			set.Restrictions = append(set.Restrictions, &domain.SubjectRestrictionSet_Restriction{Entry: &domain.SubjectRestrictionSet_Restriction_EntitySet{EntitySet: &domain.EntitySetRestriction{ResourceName: t[:i], RelationName: t[i+1:]}}})
		} else {
			set.Restrictions = append(set.Restrictions, &domain.SubjectRestrictionSet_Restriction{Entry: &domain.SubjectRestrictionSet_Restriction_Entity{Entity: &domain.EntityRestriction{ResourceName: t}}})
		}
	}
	return &domain.SubjectRestriction{SubjectRestriction: &domain.SubjectRestriction_RestrictionSet{RestrictionSet: set}}
}

// ---------------------------------------------------------------- malformed requests

// mutateMsg clears or randomizes parts of a message
func (h *H) mutateMsg(m protoreflect.Message, depth int) {
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		switch {
		case fd.IsMap():
		case fd.IsList():
			if fd.Kind() == protoreflect.MessageKind {
				l := m.Mutable(fd).List()
				for j := 0; j < l.Len(); j++ {
					h.mutateMsg(l.Get(j).Message(), depth+1)
				}
				if h.rng.Intn(15) == 0 {
					l.Append(l.NewElement())
				}
				if h.rng.Intn(15) == 0 {
					m.Clear(fd)
				}
			}
		case fd.Kind() == protoreflect.MessageKind:
			if m.Has(fd) {
				if h.rng.Intn(9) == 0 {
					m.Clear(fd)
				} else if h.rng.Intn(12) == 0 {
					m.Set(fd, m.NewField(fd))
				} else {
					h.mutateMsg(m.Mutable(fd).Message(), depth+1)
				}
			} else if h.rng.Intn(12) == 0 && depth < 6 {
				m.Set(fd, m.NewField(fd))
			}
		case fd.Kind() == protoreflect.StringKind:
			switch h.rng.Intn(14) {
			case 0:
				if m.Has(fd) || fd.ContainingOneof() == nil {
					m.Set(fd, protoreflect.ValueOfString(""))
				}
			case 1:
				if m.Has(fd) || fd.ContainingOneof() == nil {
					m.Set(fd, protoreflect.ValueOfString(h.id()))
				}
			}
		case fd.Kind() == protoreflect.EnumKind:
			if h.rng.Intn(10) == 0 {
				m.Set(fd, protoreflect.ValueOfEnum(protoreflect.EnumNumber(h.rng.Intn(5)-1)))
			}
		}
	}
}

func wire[T proto.Message](h *H, m T) (T, bool) {
	b, err := proto.Marshal(m)
	if err != nil {
		return m, false
	}
	n := m.ProtoReflect().New().Interface()
	if proto.Unmarshal(b, n) != nil {
		return m, false
	}
	return n.(T), true
}

func nodeComplete(n *domain.RelationNode) bool {
	switch x := n.GetNode().(type) {
	case *domain.RelationNode_EntitySet:
		return x.EntitySet.GetObject() != nil
	case *domain.RelationNode_Entity:
		return x.Entity.GetObject() != nil
	case *domain.RelationNode_Wildcard:
		return true
	}
	return false
}

func malformed(h *H) {
	id, cur := h.buildStore(polOpts{open: true, diff: true}, 5)
	if cur == nil || h.stop {
		return
	}
	must := func(op string, req proto.Message, err error, refuse bool) {
		if refuse && err == nil {
			h.fail([]string{"C18"}, "%s accepted an incomplete request: %s", op, short(req))
		}
	}
	for k := 0; k < 40 && !h.stop; k++ {
		m := h.rels[h.rng.Intn(len(h.rels))]
		mut := func(x proto.Message) { h.mutateMsg(x.ProtoReflect(), 0) }
		switch h.rng.Intn(14) {
		case 0, 1:
			req := &api.CreatePolicyRequest{PolicyDefinition: structDef(h.pols[id][1])}
			req.PolicyDefinition.GetPolicy().Id = "fresh"
			mut(req)
			if req, ok := wire(h, req); ok {
				err, p := h.call("CreatePolicy", short(req), func() (e error) { _, e = h.ps.CreatePolicy(h.ctx, req); return })
				if !p {
					must("CreatePolicy", req, err, req.GetPolicyDefinition().GetDefinition() == nil)
					if pl := req.GetPolicyDefinition().GetPolicy(); pl != nil && err == nil {
						if why, ok := refValidPolicy(pl); !ok {
							h.fail([]string{"C14"}, "CreatePolicy accepted an invalid policy (%s): %s", why, short(req))
						}
						h.graphSafety(pl)
					}
					if pl := req.GetPolicyDefinition().GetPolicy(); err == nil && pl.GetId() != id {
						h.call("DeletePolicy", pl.GetId(), func() (e error) {
							_, e = h.ps.DeletePolicy(h.ctx, &api.DeletePolicyRequest{Id: pl.GetId()})
							return
						})
					}
				}
			}
		case 2:
			req := &api.UpdatePolicyRequest{PolicyDefinition: structDef(h.pols[id][1])}
			mut(req)
			if req, ok := wire(h, req); ok {
				err, p := h.call("UpdatePolicy", short(req), func() (e error) { _, e = h.ps.UpdatePolicy(h.ctx, req); return })
				if !p {
					must("UpdatePolicy", req, err, req.GetPolicyDefinition().GetDefinition() == nil)
					if pl := req.GetPolicyDefinition().GetPolicy(); err == nil && pl.GetId() == id {
						cur.pol = pl
					}
				}
			}
		case 3:
			req := &api.SetRelationshipRequest{PolicyId: id, Relationship: m.domain()}
			mut(req)
			if req, ok := wire(h, req); ok {
				err, p := h.call("SetRelationship", short(req), func() (e error) { _, e = h.ps.SetRelationship(h.ctx, req); return })
				if !p {
					_, c := fromDomainRel(req.GetRelationship())
					must("SetRelationship", req, err, !c)
				}
			}
		case 4:
			req := &api.DeleteRelationshipRequest{PolicyId: id, Relationship: m.domain()}
			mut(req)
			if req, ok := wire(h, req); ok {
				err, p := h.call("DeleteRelationship", short(req), func() (e error) { _, e = h.ps.DeleteRelationship(h.ctx, req); return })
				if !p {
					_, c := fromDomainRel(req.GetRelationship())
					must("DeleteRelationship", req, err, !c)
				}
			}
		case 5:
			req := &api.GetRelationshipRequest{PolicyId: id, Relationship: m.domain()}
			mut(req)
			if req, ok := wire(h, req); ok {
				err, p := h.call("GetRelationship", short(req), func() (e error) { _, e = h.ps.GetRelationship(h.ctx, req); return })
				if !p {
					_, c := fromDomainRel(req.GetRelationship())
					must("GetRelationship", req, err, !c)
				}
			}
		case 6, 7:
			req := &api.FindRelationshipRecordsRequest{PolicyId: id, Selector: h.genSelector(cur.pol, h.rels)}
			mut(req)
			if req, ok := wire(h, req); ok {
				err, p := h.call("FindRelationshipRecords", short(req), func() (e error) { _, e = h.ps.FindRelationshipRecords(h.ctx, req); return })
				if !p {
					must("FindRelationshipRecords", req, err, !selectorComplete(req.GetSelector()))
				}
			}
		case 8:
			req := &api.DeleteRelationshipsRequest{PolicyId: id, Selector: h.genSelector(cur.pol, h.rels)}
			mut(req)
			if req, ok := wire(h, req); ok {
				err, p := h.call("DeleteRelationships", short(req), func() (e error) { _, e = h.ps.DeleteRelationships(h.ctx, req); return })
				if !p {
					must("DeleteRelationships", req, err, !selectorComplete(req.GetSelector()))
				}
			}
		case 9:
			req := &api.CheckRequest{PolicyId: id, AccessRequest: &domain.AccessRequest{Object: domain.NewEntity(m.ORes, m.OId), Relation: m.Rel, Subject: domain.NewEntity(m.SRes, m.SId)}}
			mut(req)
			if req, ok := wire(h, req); ok {
				err, p := h.call("Check", short(req), func() (e error) { _, e = h.gs.Check(h.ctx, req); return })
				if !p {
					must("Check", req, err, req.GetAccessRequest().GetObject() == nil || req.GetAccessRequest().GetSubject() == nil)
				}
			}
		case 10:
			req := &api.ExplainCheckRequest{PolicyId: id, AccessRequest: &domain.AccessRequest{Object: domain.NewEntity(m.ORes, m.OId), Relation: m.Rel, Subject: domain.NewEntity(m.SRes, m.SId)}}
			mut(req)
			if req, ok := wire(h, req); ok {
				err, p := h.call("ExplainCheck", short(req), func() (e error) { _, e = h.gs.ExplainCheck(h.ctx, req); return })
				if !p {
					must("ExplainCheck", req, err, req.GetAccessRequest().GetObject() == nil || req.GetAccessRequest().GetSubject() == nil)
				}
			}
		case 11:
			n := m.source()
			if h.rng.Intn(2) == 0 {
				n = m.dest()
			}
			req := &api.ExpandRequest{PolicyId: id, Root: n.relationNode()}
			mut(req)
			if req, ok := wire(h, req); ok {
				err, p := h.call("Expand", short(req), func() (e error) { _, e = h.gs.Expand(h.ctx, req); return })
				if !p {
					must("Expand", req, err, !nodeComplete(req.GetRoot()))
				}
			}
		case 12:
			req := &api.DumpRelationshipsRequest{PolicyId: id}
			mut(req)
			h.call("DumpRelationships", short(req), func() (e error) { _, e = h.gs.DumpRelationships(h.ctx, req); return })
		case 13:
			h.call("GetPolicy", "", func() (e error) { _, e = h.ps.GetPolicy(h.ctx, &api.GetPolicyRequest{}); return })
			h.call("DeletePolicy", "", func() (e error) { _, e = h.ps.DeletePolicy(h.ctx, &api.DeletePolicyRequest{}); return })
			h.call("ListPolicyIds", "", func() (e error) { _, e = h.ps.ListPolicyIds(h.ctx, &api.ListPolicyIdsRequest{}); return })
		}
	}
}

// graphSafety queries every relation of an accepted policy
func (h *H) graphSafety(p *domain.Policy) {
	for _, r := range p.GetResources() {
		for _, l := range r.GetRelations() {
			req := &api.CheckRequest{PolicyId: p.Id, AccessRequest: &domain.AccessRequest{Object: domain.NewEntity(r.Name, "1"), Relation: l.Name, Subject: domain.NewEntity("u", "1")}}
			h.call("Check", short(req), func() (e error) { _, e = h.gs.Check(h.ctx, req); return })
			if h.stop {
				return
			}
		}
	}
}

// ---------------------------------------------------------------- containers

func containers(h *H) {
	tag := []string{"C20"}
	opTags["container"] = tag
	ids := []string{"a", "b", "ab", "", "c", h.id(), h.id()}
	g := types.New[string]()
	d := types.NewMapDiGraph()
	nodes := map[string]string{}
	dnodes := map[string]string{}
	type ed struct{ a, b string }
	edges := map[ed]bool{}
	dedges := map[ed]string{}
	for k := 0; k < 40 && !h.stop; k++ {
		a, b, v := h.pick(ids), h.pick(ids), fmt.Sprint(k)
		h.call("container", fmt.Sprintf("%d %q %q", k, a, b), func() error {
			switch h.rng.Intn(6) {
			case 0, 1:
				g.SetNode(a, v)
				nodes[a] = v
			case 2, 3:
				_, ok1 := nodes[a]
				_, ok2 := nodes[b]
				err := g.SetEdge(a, b)
				if (err == nil) != (ok1 && ok2) {
					h.fail(tag, "MapGraph.SetEdge(%q, %q) error=%v, endpoints exist=%v,%v", a, b, err, ok1, ok2)
				}
				if ok1 && ok2 {
					edges[ed{a, b}] = true
				}
			case 4:
				d.AddNode(&types.GraphNode{Id: a, Data: v})
				dnodes[a] = v
			case 5:
				d.AddEdge(&types.GraphEdge{Source: a, Dest: b, Label: v})
				dedges[ed{a, b}] = v
			}
			for _, x := range ids {
				o := g.GetNode(x)
				want, ok := nodes[x]
				if o.IsEmpty() == ok || (ok && o.Value() != want) {
					h.fail(tag, "MapGraph.GetNode(%q) wrong, want %q %v", x, want, ok)
				}
				var ws, wa, gs, ga []string
				for e := range edges {
					if e.a == x {
						ws = append(ws, nodes[e.b])
					}
					if e.b == x {
						wa = append(wa, nodes[e.a])
					}
				}
				gs = append(gs, g.GetSucessors(x)...)
				ga = append(ga, g.GetAncestors(x)...)
				for _, s := range [][]string{ws, wa, gs, ga} {
					sort.Strings(s)
				}
				if fmt.Sprint(ws) != fmt.Sprint(gs) {
					h.fail(tag, "MapGraph.GetSucessors(%q) = %v, want %v", x, gs, ws)
				}
				if fmt.Sprint(wa) != fmt.Sprint(ga) {
					h.fail(tag, "MapGraph.GetAncestors(%q) = %v, want %v", x, ga, wa)
				}
				n := d.GetNode(x)
				w, ok := dnodes[x]
				if (n != nil) != ok || (ok && n.GetData() != w) {
					h.fail(tag, "MapDiGraph.GetNode(%q) = %v, want %q %v", x, n, w, ok)
				}
				for _, y := range ids {
					lab, ok := dedges[ed{x, y}]
					f := d.ForwardEdges[x].GetEdges()[y]
					bk := d.BackEdges[y].GetEdges()[x]
					if (f != nil) != ok || (bk != nil) != ok || (ok && (f.Label != lab || bk.Label != lab || f.Source != x || f.Dest != y)) {
						h.fail(tag, "MapDiGraph edge %q->%q: forward %v backward %v, want %q %v", x, y, f, bk, lab, ok)
					}
				}
			}
			nf, nb := 0, 0
			for _, m := range d.ForwardEdges {
				nf += len(m.GetEdges())
			}
			for _, m := range d.BackEdges {
				nb += len(m.GetEdges())
			}
			if nf != len(dedges) || nb != len(dedges) {
				h.fail(tag, "MapDiGraph has %d forward and %d backward edges, want %d", nf, nb, len(dedges))
			}
			return nil
		})
	}
}
