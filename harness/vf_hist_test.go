package test_test

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"

	rcdb "github.com/sourcenetwork/raccoondb"
	zanzi "github.com/sourcenetwork/zanzi"
	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
	"github.com/sourcenetwork/zanzi/pkg/types"
)

// ---------------------------------------------------------------- runner

type mRec struct {
	app     []byte
	t0, t1  time.Time
	created *timestamppb.Timestamp // once observed
}

type mPol struct {
	pol     *domain.Policy
	app     []byte
	created *timestamppb.Timestamp
	rels    map[mRel]*mRec
}

type failure struct {
	tags []string
	msg  string
}

type H struct {
	kv    rcdb.KVStore // nil: the default store
	rng   *rand.Rand
	ps    api.PolicyServiceServer
	gs    api.RelationGraphServer
	ctx   context.Context
	m     map[string]*mPol
	log   []string
	prop  string
	fails []failure
	stop  bool

	pids    []string
	pols    map[string][]*domain.Policy
	rels    []mRel
	probes  []probe
	lastBad map[string]bool
	opCount map[string]int
	calls   int
}

type probe struct {
	obj  gNode
	subj gNode
}

var opTags = map[string][]string{
	"Check": {"C01", "C02", "C18"}, "ExplainCheck": {"C03", "C02", "C18"}, "Expand": {"C04", "C02", "C18"},
	"DumpRelationships": {"C05", "C02", "C18"}, "SetRelationship": {"C06", "C18"}, "DeleteRelationship": {"C11", "C08", "C18"},
	"DeleteRelationships": {"C11", "C18"}, "GetRelationship": {"C08", "C18"}, "FindRelationshipRecords": {"C10", "C19", "C18"},
	"DeletePolicy": {"C12", "C18"}, "CreatePolicy": {"C13", "C14", "C18"}, "UpdatePolicy": {"C13", "C14", "C18"},
	"GetPolicy": {"C13", "C18"}, "ListPolicyIds": {"C13", "C18"},
	"Parse": {"C15", "C14", "C18"}, "PolicyFromYaml": {"C16", "C18"}, "container": {"C20"},
}

var stateFile *os.File
var curCase int64
var curSeed int64

func note(op, desc string) {
	if stateFile != nil {
		s := fmt.Sprintf("%d %d %s %s %s\n", curSeed, curCase, strings.Join(opTags[op], ","), op, desc)
		if len(s) > 4000 {
			s = s[:4000] + "\n"
		}
		stateFile.Truncate(0)
		stateFile.WriteAt([]byte(s), 0)
	}
}

var watchdog = make(chan string, 4096)

func (h *H) fail(tags []string, format string, args ...any) {
	f := failure{tags, fmt.Sprintf(format, args...)}
	h.fails = append(h.fails, f)
	if has(tags, h.prop) {
		h.stop = true
	}
}

func has(tags []string, p string) bool {
	for _, t := range tags {
		if t == p {
			return true
		}
	}
	return false
}

var opDeadline = 20 * time.Second
var lastBeat = make(chan struct{}, 1)

// call runs one operation; a panic or a hang is a failure of the operation
func (h *H) call(op, desc string, f func() error) (err error, panicked bool) {
	h.log = append(h.log, op+" "+desc)
	h.calls++
	if h.opCount != nil {
		h.opCount[op]++
	}
	note(op, desc)
	timer := time.AfterFunc(opDeadline, func() {
		fmt.Fprintf(os.Stderr, "VFHANG %s %s\n", op, desc)
		os.Exit(77)
	})
	defer timer.Stop()
	defer func() {
		if r := recover(); r != nil {
			panicked = true
			st := string(debug.Stack())
			if len(st) > 1500 {
				st = st[:1500]
			}
			h.fail(opTags[op], "%s panicked on %s: %v\n%s", op, desc, r, st)
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return f(), false
}

func newH(prop string, seed int64) *H {
	h := &H{rng: rand.New(rand.NewSource(seed)), ctx: context.Background(),
		m: map[string]*mPol{}, prop: prop, lastBad: map[string]bool{}, opCount: map[string]int{}}
	if seed%2 == 0 {
		h.kv = rcdb.NewMemKV()
		h.reopen()
		return h
	}
	z, err := zanzi.New(zanzi.WithLogger(&types.NoopLogger{}))
	if err != nil {
		panic(err)
	}
	h.ps, h.gs = z.GetPolicyService(), z.GetRelationGraphService()
	return h
}

// reopen: what has been stored is there for another instance on the same store
func (h *H) reopen() {
	if h.kv == nil {
		return
	}
	z, err := zanzi.New(zanzi.WithLogger(&types.NoopLogger{}), zanzi.WithKVStore(h.kv))
	if err != nil {
		panic(err)
	}
	h.ps, h.gs = z.GetPolicyService(), z.GetRelationGraphService()
}

func short(m proto.Message) string {
	b, err := json.Marshal(m)
	if err != nil {
		return fmt.Sprint(m)
	}
	return string(b)
}

// ---------------------------------------------------------------- operations against the model

func (h *H) create(def *api.PolicyDefinition, want *domain.Policy, wantOk bool, why string, app []byte, yamlTag bool) {
	req := &api.CreatePolicyRequest{PolicyDefinition: def, AppData: app}
	var resp *api.CreatePolicyResponse
	t0 := time.Now()
	err, p := h.call("CreatePolicy", short(req), func() (e error) { resp, e = h.ps.CreatePolicy(h.ctx, req); return })
	t1 := time.Now()
	if p || h.stop {
		return
	}
	exists := false
	if want != nil {
		_, exists = h.m[want.Id]
	}
	id := want.GetId()
	switch {
	case err == nil && !wantOk:
		h.fail([]string{"C14"}, "CreatePolicy accepted an invalid policy (%s): %s", why, short(req))
		return
	case err == nil && exists:
		h.fail([]string{"C13"}, "CreatePolicy succeeded although policy id %q is in use", id)
		return
	case err != nil && wantOk && !exists:
		tags := []string{"C14", "C13"}
		if yamlTag {
			tags = append(tags, "C16")
		}
		h.fail(tags, "CreatePolicy refused a valid policy with a fresh id: %v: %s", err, short(req))
		h.battery("CreatePolicy", "", true)
		return
	case err != nil:
		h.battery("CreatePolicy", "", true)
		return
	}
	got := resp.GetRecord()
	if !proto.Equal(got.GetPolicy(), want) {
		tags := []string{"C13"}
		if yamlTag {
			tags = []string{"C16"}
		}
		h.fail(tags, "CreatePolicy returned policy %s, want %s", short(got.GetPolicy()), short(want))
		return
	}
	if !bytes.Equal(got.GetAppData(), app) {
		h.fail([]string{"C13"}, "CreatePolicy returned app data %q, want %q", got.GetAppData(), app)
	}
	h.checkTime("CreatePolicy", []string{"C13"}, got.GetCreatedAt(), t0, t1)
	h.m[id] = &mPol{pol: proto.Clone(want).(*domain.Policy), app: app, created: got.GetCreatedAt(), rels: map[mRel]*mRec{}}
	h.battery("CreatePolicy", id, false)
}

func (h *H) checkTime(op string, tags []string, ts *timestamppb.Timestamp, t0, t1 time.Time) {
	if ts == nil || ts.AsTime().Before(t0.Add(-2*time.Second)) || ts.AsTime().After(t1.Add(2*time.Second)) {
		h.fail(tags, "%s: creation time %v is not the time of the call %v", op, ts, t0.UTC())
	}
}

func (h *H) update(def *api.PolicyDefinition, want *domain.Policy, wantOk bool, why string, app []byte, yamlTag bool) {
	req := &api.UpdatePolicyRequest{PolicyDefinition: def, AppData: app}
	err, p := h.call("UpdatePolicy", short(req), func() (e error) { _, e = h.ps.UpdatePolicy(h.ctx, req); return })
	if p || h.stop {
		return
	}
	cur, exists := h.m[want.GetId()]
	switch {
	case err == nil && !wantOk:
		h.fail([]string{"C14"}, "UpdatePolicy accepted an invalid policy (%s): %s", why, short(req))
		return
	case err == nil && !exists:
		h.fail([]string{"C13"}, "UpdatePolicy succeeded although policy id %q is not in use", want.GetId())
		return
	case err != nil && wantOk && exists:
		tags := []string{"C14", "C13"}
		if yamlTag {
			tags = append(tags, "C16")
		}
		h.fail(tags, "UpdatePolicy refused a valid policy whose id exists: %v: %s", err, short(req))
		h.battery("UpdatePolicy", "", true)
		return
	case err != nil:
		h.battery("UpdatePolicy", "", true)
		return
	}
	cur.pol, cur.app = proto.Clone(want).(*domain.Policy), app
	h.battery("UpdatePolicy", want.Id, false)
}

func (h *H) deletePolicy(id string) {
	var resp *api.DeletePolicyResponse
	err, p := h.call("DeletePolicy", strconv.Quote(id), func() (e error) {
		resp, e = h.ps.DeletePolicy(h.ctx, &api.DeletePolicyRequest{Id: id})
		return
	})
	if p || h.stop {
		return
	}
	if err != nil {
		h.fail([]string{"C12"}, "DeletePolicy(%q) failed: %v", id, err)
		return
	}
	cur, exists := h.m[id]
	if resp.GetFound() != exists {
		h.fail([]string{"C12"}, "DeletePolicy(%q) found=%v, want %v", id, resp.GetFound(), exists)
	}
	n := 0
	if exists {
		n = len(cur.rels)
	}
	if resp.GetRelationshipsRemoved() != uint64(n) {
		h.fail([]string{"C12"}, "DeletePolicy(%q) reports %d relationships removed, want %d", id, resp.GetRelationshipsRemoved(), n)
	}
	delete(h.m, id)
	h.battery("DeletePolicy", id, false)
	if exists && h.rng.Intn(2) == 0 && !h.stop { // a policy created later under the same id starts empty
		h.create(&api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: proto.Clone(cur.pol).(*domain.Policy)}}, cur.pol, true, "", []byte("again"), false)
	}
}

func (h *H) set(pid string, r *domain.Relationship, app []byte) {
	req := &api.SetRelationshipRequest{PolicyId: pid, Relationship: r, AppData: app}
	var resp *api.SetRelationshipResponse
	t0 := time.Now()
	err, p := h.call("SetRelationship", short(req), func() (e error) { resp, e = h.ps.SetRelationship(h.ctx, req); return })
	t1 := time.Now()
	if p || h.stop {
		return
	}
	m, complete := fromDomainRel(r)
	cur, exists := h.m[pid]
	want := exists && complete && refAllowed(cur.pol, m)
	if (err == nil) != want {
		h.fail([]string{"C06"}, "SetRelationship error=%v, want allowed=%v: policy exists=%v complete=%v: %s", err, want, exists, complete, short(req))
	}
	if err != nil {
		h.battery("SetRelationship", "", true)
		return
	}
	if !want {
		return // the model has no such state
	}
	_, present := cur.rels[m]
	if resp.GetRecordOverwritten() != present {
		h.fail([]string{"C08"}, "SetRelationship(%q, %v) overwritten=%v, want %v", pid, m, resp.GetRecordOverwritten(), present)
	}
	cur.rels[m] = &mRec{app: app, t0: t0, t1: t1}
	h.battery("SetRelationship", pid, false)
}

func (h *H) deleteRel(pid string, r *domain.Relationship) {
	req := &api.DeleteRelationshipRequest{PolicyId: pid, Relationship: r}
	var resp *api.DeleteRelationshipResponse
	err, p := h.call("DeleteRelationship", short(req), func() (e error) { resp, e = h.ps.DeleteRelationship(h.ctx, req); return })
	if p || h.stop {
		return
	}
	m, complete := fromDomainRel(r)
	if err != nil {
		if complete && h.m[pid] != nil {
			h.fail([]string{"C11", "C08"}, "DeleteRelationship failed: %v: %s", err, short(req))
		}
		h.battery("DeleteRelationship", "", true)
		return
	}
	if !complete {
		h.fail([]string{"C18"}, "DeleteRelationship accepted an incomplete relationship: %s", short(req))
		return
	}
	present := false
	if cur := h.m[pid]; cur != nil {
		_, present = cur.rels[m]
		delete(cur.rels, m)
	}
	if resp.GetFound() != present {
		h.fail([]string{"C08", "C11"}, "DeleteRelationship(%q, %v) found=%v, want %v", pid, m, resp.GetFound(), present)
	}
	h.battery("DeleteRelationship", pid, false)
}

func (h *H) deleteRels(pid string, s *domain.RelationshipSelector) {
	req := &api.DeleteRelationshipsRequest{PolicyId: pid, Selector: s}
	var resp *api.DeleteRelationshipsResponse
	err, p := h.call("DeleteRelationships", short(req), func() (e error) { resp, e = h.ps.DeleteRelationships(h.ctx, req); return })
	if p || h.stop {
		return
	}
	if err != nil {
		if cur := h.m[pid]; cur != nil && selectorComplete(s) && refValidSelector(cur.pol, s) {
			h.fail([]string{"C11"}, "DeleteRelationships failed: %v: %s", err, short(req))
		}
		h.battery("DeleteRelationships", "", true)
		return
	}
	if !selectorComplete(s) {
		h.fail([]string{"C18"}, "DeleteRelationships accepted an incomplete selector: %s", short(req))
		return
	}
	n := 0
	if cur := h.m[pid]; cur != nil {
		for m := range cur.rels {
			if refMatches(s, m) {
				n++
				delete(cur.rels, m)
			}
		}
	}
	if resp.GetRecordsAffected() != uint64(n) {
		h.fail([]string{"C11"}, "DeleteRelationships(%q, %s) reports %d, want %d", pid, short(s), resp.GetRecordsAffected(), n)
	}
	h.battery("DeleteRelationships", pid, false)
}

// ---------------------------------------------------------------- reads

func (h *H) recordMismatch(pid string, m mRel, want *mRec, got *domain.RelationshipRecord) string {
	gm, ok := fromDomainRel(got.GetRelationship())
	switch {
	case !ok || gm != m:
		return fmt.Sprintf("relationship %v, want %v", short(got.GetRelationship()), m)
	case got.GetPolicyId() != pid:
		return fmt.Sprintf("policy id %q, want %q", got.GetPolicyId(), pid)
	case !bytes.Equal(got.GetAppData(), want.app):
		return fmt.Sprintf("app data %q, want %q (%v)", got.GetAppData(), want.app, m)
	}
	ts := got.GetCreatedAt()
	if want.created == nil {
		if ts == nil || ts.AsTime().Before(want.t0.Add(-2*time.Second)) || ts.AsTime().After(want.t1.Add(2*time.Second)) {
			return fmt.Sprintf("creation time %v, want about %v", ts, want.t0.UTC())
		}
		want.created = ts
	} else if !proto.Equal(want.created, ts) {
		return fmt.Sprintf("creation time %v, earlier read gave %v", ts, want.created)
	}
	return ""
}

func (h *H) getPolicy(id string) string {
	var resp *api.GetPolicyResponse
	err, p := h.call("GetPolicy", strconv.Quote(id), func() (e error) { resp, e = h.ps.GetPolicy(h.ctx, &api.GetPolicyRequest{Id: id}); return })
	if p {
		return "panic"
	}
	cur := h.m[id]
	switch {
	case err != nil:
		return fmt.Sprintf("GetPolicy(%q) failed: %v", id, err)
	case cur == nil && resp.GetRecord() != nil:
		return fmt.Sprintf("GetPolicy(%q) returned a record for an unknown id: %s", id, short(resp))
	case cur == nil:
		return ""
	case resp.GetRecord() == nil:
		return fmt.Sprintf("GetPolicy(%q) returned no record", id)
	case !proto.Equal(resp.Record.GetPolicy(), cur.pol):
		return fmt.Sprintf("GetPolicy(%q) returned %s, want %s", id, short(resp.Record.Policy), short(cur.pol))
	case !bytes.Equal(resp.Record.GetAppData(), cur.app):
		return fmt.Sprintf("GetPolicy(%q) app data %q, want %q", id, resp.Record.AppData, cur.app)
	case !proto.Equal(resp.Record.GetCreatedAt(), cur.created):
		return fmt.Sprintf("GetPolicy(%q) creation time %v, want %v", id, resp.Record.CreatedAt, cur.created)
	}
	return ""
}

func (h *H) listIds() string {
	var resp *api.ListPolicyIdsResponse
	err, p := h.call("ListPolicyIds", "", func() (e error) { resp, e = h.ps.ListPolicyIds(h.ctx, &api.ListPolicyIdsRequest{}); return })
	if p {
		return "panic"
	}
	if err != nil {
		return fmt.Sprintf("ListPolicyIds failed: %v", err)
	}
	var got, want []string
	for _, r := range resp.GetRecords() {
		got = append(got, r.GetId())
	}
	for id := range h.m {
		want = append(want, id)
	}
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		return fmt.Sprintf("ListPolicyIds returned %q, want %q", got, want)
	}
	return ""
}

func (h *H) getRel(pid string, m mRel) string {
	req := &api.GetRelationshipRequest{PolicyId: pid, Relationship: m.domain()}
	var resp *api.GetRelationshipResponse
	err, p := h.call("GetRelationship", fmt.Sprintf("%q %v", pid, m), func() (e error) { resp, e = h.ps.GetRelationship(h.ctx, req); return })
	if p {
		return "panic"
	}
	var want *mRec
	if cur := h.m[pid]; cur != nil {
		want = cur.rels[m]
	}
	switch {
	case err != nil && h.m[pid] != nil:
		return fmt.Sprintf("GetRelationship(%q, %v) failed: %v", pid, m, err)
	case err != nil:
		return ""
	case want == nil && resp.GetRecord() != nil:
		return fmt.Sprintf("GetRelationship(%q, %v) returned a record for an absent relationship: %s", pid, m, short(resp))
	case want == nil:
		return ""
	case resp.GetRecord() == nil:
		return fmt.Sprintf("GetRelationship(%q, %v) returned no record for a stored relationship", pid, m)
	}
	if d := h.recordMismatch(pid, m, want, resp.Record); d != "" {
		return fmt.Sprintf("GetRelationship(%q, %v): %s", pid, m, d)
	}
	return ""
}

// find returns mismatches: validity (C19) and content (C10)
func (h *H) find(pid string, s *domain.RelationshipSelector) (valid string, content string) {
	req := &api.FindRelationshipRecordsRequest{PolicyId: pid, Selector: s}
	var resp *api.FindRelationshipRecordsResponse
	err, p := h.call("FindRelationshipRecords", short(req), func() (e error) { resp, e = h.ps.FindRelationshipRecords(h.ctx, req); return })
	if p {
		return "panic", "panic"
	}
	cur := h.m[pid]
	want := cur != nil && refValidSelector(cur.pol, s)
	if (err == nil) != want {
		valid = fmt.Sprintf("FindRelationshipRecords error=%v, want valid=%v (policy exists=%v): %s", err, want, cur != nil, short(req))
		if err != nil {
			return valid, ""
		}
		return valid, ""
	}
	if err != nil {
		return "", ""
	}
	seen := map[mRel]bool{}
	for _, r := range resp.GetResult().GetRecords() {
		m, ok := fromDomainRel(r.GetRelationship())
		rec := cur.rels[m]
		if !ok || rec == nil || !refMatches(s, m) {
			return "", fmt.Sprintf("FindRelationshipRecords(%q, %s) returned %s which is not stored or does not match", pid, short(s), short(r))
		}
		if seen[m] {
			return "", fmt.Sprintf("FindRelationshipRecords(%q, %s) returned %v twice", pid, short(s), m)
		}
		seen[m] = true
		if d := h.recordMismatch(pid, m, rec, r); d != "" {
			return "", fmt.Sprintf("FindRelationshipRecords(%q, %s): %s", pid, short(s), d)
		}
	}
	for m := range cur.rels {
		if refMatches(s, m) && !seen[m] {
			return "", fmt.Sprintf("FindRelationshipRecords(%q, %s) did not return stored relationship %v", pid, short(s), m)
		}
	}
	return "", ""
}

func anySelector() *domain.RelationshipSelector {
	b := domain.SelectorBuilder{}
	b.AnyObject().AnyRelation().AnySubject()
	s := b.Build()
	return &s
}

// battery performs the same reads after every operation and compares them with the model.
// refused tells that the operation was refused (or is a read) and must not have any effect.
func (h *H) battery(op, pid string, refused bool) {
	if h.stop {
		return
	}
	bad := map[string]bool{}
	report := func(key, readPid string, readTags []string, msg string) {
		if msg == "" {
			return
		}
		bad[key] = true
		tags := append([]string{}, readTags...)
		if !h.lastBad[key] {
			if refused {
				tags = append(tags, "C07")
			} else {
				if readPid != pid {
					tags = append(tags, "C09")
				}
				switch op {
				case "DeleteRelationship":
					tags = append(tags, "C11")
				case "DeleteRelationships":
					tags = append(tags, "C11")
				case "DeletePolicy":
					tags = append(tags, "C12")
				case "UpdatePolicy", "CreatePolicy":
					if readPid == pid && !strings.HasPrefix(key, "walk") && !strings.HasPrefix(key, "check") {
						tags = append(tags, "C13")
					}
				case "SetRelationship":
					if strings.HasPrefix(key, "rel") {
						tags = append(tags, "C08")
					}
				}
			}
		}
		h.fail(tags, "after %s: %s", op, msg)
	}
	report("list", pid, []string{"C13"}, h.listIds())
	for _, id := range h.pids {
		report("pol"+id, id, []string{"C13"}, h.getPolicy(id))
		if h.stop {
			return
		}
		cur := h.m[id]
		for i, m := range h.rels {
			if cur == nil && i%5 != 0 {
				continue
			}
			report(fmt.Sprint("rel", id, i), id, []string{"C08"}, h.getRel(id, m))
			if h.stop {
				return
			}
		}
		if cur == nil {
			continue
		}
		v, c := h.find(id, anySelector())
		report("findv"+id, id, []string{"C19"}, v)
		report("find"+id, id, []string{"C10", "C17"}, c)
		if h.stop {
			return
		}
		g := newGraph(cur.pol, cur.rels)
		for i, p := range h.probes {
			report(fmt.Sprint("walk", id, i), id, []string{"C17"}, h.directSubjects(id, g, p.obj))
			if h.stop {
				return
			}
			if i%2 == 0 {
				for _, f := range h.check(id, g, p.obj, p.subj) {
					report(fmt.Sprint("check", id, i), id, f.tags, f.msg)
				}
			}
			if h.stop {
				return
			}
		}
	}
	h.lastBad = bad
}

// directSubjects compares what the graph engine sees directly under a _this relation
func (h *H) directSubjects(pid string, g *graph, n gNode) string {
	rel := findRelation(g.pol, n.res, n.rel)
	if rel == nil {
		return ""
	}
	t, ok := relTree(rel)
	if !ok || t.rule != "this" {
		return ""
	}
	for _, s := range g.succ[n] {
		if s.kind == kSet { // the subtree may be large or not evaluable
			b := 2000
			if _, bad, over := g.expand(n, &b); bad || over {
				return ""
			}
		}
	}
	tree, err, p := h.expandCall(pid, n, api.ExplainFormat_DOT)
	if p {
		return "panic"
	}
	if err != nil {
		return fmt.Sprintf("Expand(%q, %v) failed: %v", pid, n, err)
	}
	if len(tree.subs) != 1 {
		return ""
	}
	var got, want []string
	for _, c := range tree.subs[0].subs {
		got = append(got, c.node)
	}
	for _, s := range g.succ[n] {
		want = append(want, s.pretty())
	}
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		return fmt.Sprintf("policy %q: graph engine sees subjects %q directly under %v, stored subjects are %q", pid, got, n.pretty(), want)
	}
	return ""
}

func (h *H) check(pid string, g *graph, obj, subj gNode) []failure {
	req := &api.CheckRequest{PolicyId: pid, AccessRequest: &domain.AccessRequest{Object: domain.NewEntity(obj.res, obj.id), Relation: obj.rel, Subject: domain.NewEntity(subj.res, subj.id)}}
	var resp *api.CheckResponse
	err, p := h.call("Check", short(req), func() (e error) { resp, e = h.gs.Check(h.ctx, req); return })
	if p {
		return nil
	}
	if g == nil {
		if err == nil {
			return []failure{{[]string{"C01"}, fmt.Sprintf("Check answered %v for an unknown policy %q", resp, pid)}}
		}
		return nil
	}
	d := g.decide(obj, subj)
	if d.unstratified {
		return nil
	}
	if msg := decisionMismatch("Check", d, err, resp.GetResult().GetAuthorized()); msg != "" {
		return []failure{{[]string{"C01"}, fmt.Sprintf("policy %q %v subject %v: %s; policy=%s relationships=%v", pid, obj.pretty(), subj.pretty(), msg, short(g.pol), g.succ)}}
	}
	return nil
}

func decisionMismatch(op string, d decision, err error, got bool) string {
	switch {
	case err != nil && !d.bad:
		return fmt.Sprintf("%s failed although every node can be evaluated: %v", op, err)
	case err == nil && d.lo != d.hi:
		return fmt.Sprintf("%s answered %v although the decision depends on a node which cannot be evaluated", op, got)
	case err == nil && got != d.lo:
		return fmt.Sprintf("%s answered %v, want %v", op, got, d.lo)
	}
	return ""
}

// ---------------------------------------------------------------- entry point

func envInt(k string, d int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(k), 10, 64); err == nil {
		return v
	}
	return d
}

type scenario struct {
	weight int
	run    func(h *H)
}

// TestVF explores cases for one property until its time is up.
func TestVF(t *testing.T) {
	prop := os.Getenv("VF_PROP")
	if prop == "" {
		t.Skip()
	}
	debug.SetMaxStack(128 << 20)
	seed := envInt("VF_SEED", 1)
	ms := envInt("VF_MS", 5000)
	only := envInt("VF_CASE", -1)
	start := envInt("VF_START", 0)
	maxCases := envInt("VF_MAXCASES", 1<<40)
	opDeadline = time.Duration(envInt("VF_OPDEADLINE_MS", 20000)) * time.Millisecond
	if p := os.Getenv("VF_STATE"); p != "" {
		f, err := os.Create(p)
		if err != nil {
			t.Fatal(err)
		}
		stateFile = f
	}
	curSeed = seed
	loadDict()
	list := scenarios(prop)
	total := 0
	for _, s := range list {
		total += s.weight
	}
	deadline := time.Now().Add(time.Duration(ms) * time.Millisecond)
	cases, calls := int64(0), 0
	nontrivial := map[string]bool{}
	other := map[string]string{}
	ops := map[string]int{}
	for c := start; cases < maxCases && (only >= 0 || time.Now().Before(deadline)); c++ {
		if only >= 0 {
			c = only
		}
		curCase = c
		h := newH(prop, seed*1000003+c)
		k := int(c) % total // round robin over the scenarios
		idx := 0
		for k >= list[idx].weight {
			k -= list[idx].weight
			idx++
		}
		list[idx].run(h)
		cases++
		calls += h.calls
		for o, n := range h.opCount {
			ops[o] += n
		}
		if h.calls > 2 {
			sum := fnv(strings.Join(h.log, "\n"))
			nontrivial[sum] = true
		}
		for _, f := range h.fails {
			if has(f.tags, prop) {
				writeFailure(prop, seed, c, f, h.log)
				t.Fatalf("VFAIL %s case %d: %s", prop, c, f.msg)
			}
			if _, ok := other[strings.Join(f.tags, ",")]; !ok && len(other) < 20 {
				other[strings.Join(f.tags, ",")] = f.msg
			}
		}
		if only >= 0 {
			break
		}
	}
	writeSummary(prop, seed, cases, calls, len(nontrivial), ops, other)
}

func fnv(s string) string {
	x := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		x ^= uint64(s[i])
		x *= 1099511628211
	}
	return strconv.FormatUint(x, 16)
}

func writeFailure(prop string, seed, c int64, f failure, log []string) {
	p := os.Getenv("VF_FAIL")
	if p == "" {
		return
	}
	if len(log) > 400 {
		log = append(append([]string{}, log[:200]...), log[len(log)-200:]...)
	}
	b, _ := json.MarshalIndent(map[string]any{"property": prop, "tags": f.tags, "message": f.msg, "seed": seed, "case": c, "history": log}, "", " ")
	os.WriteFile(p, b, 0o644)
}

func writeSummary(prop string, seed, cases int64, calls, distinct int, ops map[string]int, other map[string]string) {
	p := os.Getenv("VF_SUMMARY")
	if p == "" {
		return
	}
	b, _ := json.MarshalIndent(map[string]any{"property": prop, "seed": seed, "cases": cases, "operations": calls, "distinct": distinct, "operations_by_kind": ops, "other_discrepancies": other}, "", " ")
	os.WriteFile(p, b, 0o644)
}
