From cf963dc228459f7cc9995d63f201b0ccf28cd1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:51 +0000
Subject: [PATCH 01/20] fix: search trail must not leak into sibling branches

Nodes visited in one branch were treated as cycles in every other branch, so
'reader & writer' denied a subject in both sets and 'reader - banned' authorized
a banned subject.
---
 internal/relation_graph/searcher.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/relation_graph/searcher.go b/internal/relation_graph/searcher.go
index d6625ba..670210a 100644
--- a/internal/relation_graph/searcher.go
+++ b/internal/relation_graph/searcher.go
@@ -183,15 +183,17 @@ func (s *Searcher) searchPath(ctx context.Context, policy *domain.Policy, node *
 		Reason:       node.Reason,
 	}
 
-	// add trail
-	// use cached value
+	// seenNodes is the trail of nodes between the search origin and this node:
+	// a node is only a duplicate (ie. a cycle) if it's its own ancestor.
+	// The node leaves the trail once its branch has been explored, as siblings branches may
+	// legitimately reach it.
 	nodeId := node.RelationNode.Id()
 	if _, ok := s.seenNodes[nodeId]; ok {
 		s.logger.Debugf("duplicated node - terminating brach: %v", node.RelationNode)
 		return pathNode, nil
-	} else {
-		s.seenNodes[nodeId] = struct{}{}
 	}
+	s.seenNodes[nodeId] = struct{}{}
+	defer delete(s.seenNodes, nodeId)
 
 	spec := GoalFoundSpec{}
 	found := spec.Found(node, goal)
-- 
2.43.0


From b635a2f652517a2ae064c7f41c5bd600ca00eefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:10 +0000
Subject: [PATCH 02/20] fix: relationship data must be stored per policy

The data store ignored the policy id, so setting, reading or deleting a relationship
under one policy read, overwrote or removed the record of another policy.
---
 internal/store/kv_store/kv_store.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/store/kv_store/kv_store.go b/internal/store/kv_store/kv_store.go
index 3b1d167..fcd3892 100644
--- a/internal/store/kv_store/kv_store.go
+++ b/internal/store/kv_store/kv_store.go
@@ -60,7 +60,8 @@ func (kv *KVStore) getRelationshipDataStore(policyId string) *rcdb.ObjectStore[*
 	factory := func() *RelationshipData { return &RelationshipData{} }
 	marshaler := rcdb.ProtoMarshaler[*RelationshipData](factory)
 	ider := relationshipDataIDer{}
-	store := rcdb.NewObjStore[*RelationshipData](kv.relationshipDataPrefixKV, marshaler, &ider)
+	policyKV := rcdb.NewWrapperKV(kv.relationshipDataPrefixKV, []byte(policyId))
+	store := rcdb.NewObjStore[*RelationshipData](policyKV, marshaler, &ider)
 	return &store
 }
 
-- 
2.43.0


From 09c772c75695873a07bc7e36f3e87435c0357a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:57 +0000
Subject: [PATCH 03/20] fix: EntitySet subject's resource name was its relation

Subject.GetResourceName returned the relation of an EntitySet, so selectors with an
EntitySet subject were validated against the wrong name.
---
 pkg/domain/relationship.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/domain/relationship.go b/pkg/domain/relationship.go
index ebad6d7..4913473 100644
--- a/pkg/domain/relationship.go
+++ b/pkg/domain/relationship.go
@@ -84,7 +84,7 @@ func (s *Subject) GetResourceName() string {
 	case *Subject_Entity:
 		return subj.Entity.Resource
 	case *Subject_EntitySet:
-		return subj.EntitySet.Relation
+		return subj.EntitySet.Entity.GetResource()
 	case *Subject_ResourceSet:
 		return subj.ResourceSet.ResourceName
 	}
-- 
2.43.0


From 5dcd31a77feb59c19fd0d29c4f6d3980a097906a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:00 +0000
Subject: [PATCH 04/20] fix: compare selector entities by value

reflect.DeepEqual also compares the internal protobuf state, so a selector which had been
printed or received over the wire did not match any relationship.
---
 internal/policy/selector_matcher.go          | 29 ++++++++++++++++++++
 internal/store/kv_store/policy_repository.go |  2 +-
 2 files changed, 30 insertions(+), 1 deletion(-)
 create mode 100644 internal/policy/selector_matcher.go

diff --git a/internal/policy/selector_matcher.go b/internal/policy/selector_matcher.go
new file mode 100644
index 0000000..db28371
--- /dev/null
+++ b/internal/policy/selector_matcher.go
@@ -0,0 +1,29 @@
+package policy
+
+import (
+	"google.golang.org/protobuf/proto"
+
+	"github.com/sourcenetwork/zanzi/pkg/domain"
+)
+
+// NewSelectorMatcher returns the RelationshipSelectorSpec of selector which compares
+// the selected object and subject by value: messages with equal contents
+// match regardless of their internal protobuf state.
+func NewSelectorMatcher(selector *domain.RelationshipSelector) (RelationshipSelectorSpec, error) {
+	spec, err := NewSelectorSpec(selector)
+	if err != nil {
+		return spec, err
+	}
+
+	if s, ok := selector.ObjectSelector.Selector.(*domain.ObjectSelector_ObjectSpec); ok {
+		spec.objectPredicate = func(r *domain.Relationship) bool {
+			return proto.Equal(s.ObjectSpec, r.Object)
+		}
+	}
+	if s, ok := selector.SubjectSelector.Selector.(*domain.SubjectSelector_SubjectSpec); ok {
+		spec.subjectPredicate = func(r *domain.Relationship) bool {
+			return proto.Equal(s.SubjectSpec, r.Subject)
+		}
+	}
+	return spec, nil
+}
diff --git a/internal/store/kv_store/policy_repository.go b/internal/store/kv_store/policy_repository.go
index bff9aa1..e85b4b0 100644
--- a/internal/store/kv_store/policy_repository.go
+++ b/internal/store/kv_store/policy_repository.go
@@ -155,7 +155,7 @@ func (r *policyRepository) FindRelationships(ctx context.Context, policyId strin
 		return nil, err
 	}
 
-	spec, err := policy.NewSelectorSpec(selector)
+	spec, err := policy.NewSelectorMatcher(selector)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 64c6fd507dabab4ecf7447ff301e72c43cb1e682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:03 +0000
Subject: [PATCH 05/20] fix: tuple to userset over a wildcard subject crashed
 Check

The computed node had no object and the search dereferenced it.
---
 internal/relation_graph/rule_evaluator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/relation_graph/rule_evaluator.go b/internal/relation_graph/rule_evaluator.go
index 371d80a..7fcb552 100644
--- a/internal/relation_graph/rule_evaluator.go
+++ b/internal/relation_graph/rule_evaluator.go
@@ -117,7 +117,9 @@ func buildTupleToUsersetNode(node *domain.RelationNode, computedRelation string)
 	case *domain.RelationNode_Entity:
 		entitySetNode.Object = nodeType.Entity.Object
 	case *domain.RelationNode_Wildcard:
-		//TODO not sure how I should go about this scenario yet...
+		// a wildcard denotes every entity in a resource, which can't be enumerated
+		// therefore the computed userset is undefined
+		return nil, fmt.Errorf("building tuple to userset node: wildcard tupleset node %v: %w", node, domain.ErrInvalidVariant)
 	default:
 		return nil, fmt.Errorf("building tuple to userset node: node %v: %w", node, domain.ErrInvalidVariant)
 	}
-- 
2.43.0


From 0b797495e96157b43379435194f134a85950f549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:06 +0000
Subject: [PATCH 06/20] fix: ExplainCheck did not report the format of the goal
 tree

---
 internal/relation_graph/service.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/relation_graph/service.go b/internal/relation_graph/service.go
index 85e9298..3b17c4d 100644
--- a/internal/relation_graph/service.go
+++ b/internal/relation_graph/service.go
@@ -133,6 +133,7 @@ func (s *Service) ExplainCheck(
 	return &api.ExplainCheckResponse{
 		GoalTree:   serialized,
 		Authorized: found,
+		Format:     req.Format,
 	}, nil
 }
 
-- 
2.43.0


From b3873945f6b7d680c3781ce6977877050f54ed04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:09 +0000
Subject: [PATCH 07/20] fix: identifiers beginning with _this were split in two
 tokens

---
 internal/relation_expression_parser/lexer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/relation_expression_parser/lexer.go b/internal/relation_expression_parser/lexer.go
index 011258e..2000cfe 100644
--- a/internal/relation_expression_parser/lexer.go
+++ b/internal/relation_expression_parser/lexer.go
@@ -161,7 +161,11 @@ func (l *Lexer) lexIdentifier() bool {
 	count := l.stepWhile(isIdentifierRune)
 	ok := count > 0
 	if ok {
-		l.emit(tokenIdentifier)
+		typ := tokenIdentifier
+		if l.input[l.startPos:l.currPos] == domain.ThisLexeme {
+			typ = tokenThis
+		}
+		l.emit(typ)
 	}
 
 	return ok
@@ -177,7 +181,6 @@ func (l *Lexer) scan() {
 		} else if l.lexTerminal(tokenUnion, domain.UnionLexeme) {
 		} else if l.lexTerminal(tokenDifference, domain.DifferenceLexeme) {
 		} else if l.lexTerminal(tokenIntersection, domain.IntersectionLexeme) {
-		} else if l.lexTerminal(tokenThis, domain.ThisLexeme) {
 		} else if l.lexIdentifier() {
 		} else if char, _ := l.peek(); unicode.IsSpace(char) {
 			l.skipSpaces()
-- 
2.43.0


From 75329dff80ae4084d2297286cbdf26be0f9603d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:12 +0000
Subject: [PATCH 08/20] fix: JSON goal trees could not be serialized

Parent pointers make the goal tree cyclic, so encoding/json always failed.
---
 internal/relation_graph/types.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/relation_graph/types.go b/internal/relation_graph/types.go
index 4c2cea0..11bb01b 100644
--- a/internal/relation_graph/types.go
+++ b/internal/relation_graph/types.go
@@ -25,7 +25,7 @@ type GoalTree interface {
 // The ORNode is satisfied if the Goal is found in *any*
 // Paths
 type ORNode struct {
-	Parent GoalTree
+	Parent GoalTree `json:"-"`
 	Result SearchResult
 	Paths  []GoalTree
 }
@@ -37,7 +37,7 @@ func (n *ORNode) SetParent(p GoalTree)    { n.Parent = p }
 // The ANDNode is satisfied if the Goal is found in *all*
 // Paths
 type ANDNode struct {
-	Parent GoalTree
+	Parent GoalTree `json:"-"`
 	Result SearchResult
 	Paths  []GoalTree
 }
@@ -49,7 +49,7 @@ func (n *ANDNode) SetParent(p GoalTree)    { n.Parent = p }
 // A DifferenceNode is satisfied if the Goal is found
 // on the Left GoalTree but not on the Right.
 type DifferenceNode struct {
-	Parent GoalTree
+	Parent GoalTree `json:"-"`
 	Result SearchResult
 	Left   GoalTree
 	Right  GoalTree
@@ -92,7 +92,7 @@ func (r SearchResult) MarshalJSON() ([]byte, error) {
 
 // PathNode represents a possible search path in the GoalTree
 type PathNode struct {
-	Parent       GoalTree
+	Parent       GoalTree `json:"-"`
 	Result       SearchResult
 	RelationNode *domain.RelationNode
 	Path         GoalTree
-- 
2.43.0


From 33a4e2c1ff10e2a0d98ad76bc923eb1467d119fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:45 +0000
Subject: [PATCH 09/20] fix: Expand skipped the operands of an intersection

Without a target every path fails, so the AND node stopped after its first operand.
---
 internal/relation_graph/searcher.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/relation_graph/searcher.go b/internal/relation_graph/searcher.go
index 670210a..9a2db62 100644
--- a/internal/relation_graph/searcher.go
+++ b/internal/relation_graph/searcher.go
@@ -95,6 +95,10 @@ func (s *Searcher) searchAND(ctx context.Context, policy *domain.Policy, tree *A
 		// ANDNode requires that all Paths to the Goal are found
 		if newPath.GetResult() == SearchResult_FAILURE {
 			foundAll = false
+			if goal.Target == nil {
+				// Expand has no target, every path must be walked
+				continue
+			}
 			s.logger.Debugf("AND Node terminated: node %v did not reach path", newPath)
 			break
 		}
-- 
2.43.0


From 1fe49f5525905ec1a14f05a9be428a8a86a80bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:48 +0000
Subject: [PATCH 10/20] fix: selecting a relation over any object crashed
 FindRelationshipRecords

A wildcard object selector names no resource and the missing resource was dereferenced.
---
 internal/policy/spec.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/policy/spec.go b/internal/policy/spec.go
index b387c56..bb821c7 100644
--- a/internal/policy/spec.go
+++ b/internal/policy/spec.go
@@ -383,8 +383,21 @@ func (s *ValidSelectorSpec) validRelationSelector(objSelector *domain.ObjectSele
 
 	relName := relSelector.GetRelationName()
 
+	if objSelector.GetWildcard() != nil {
+		// the relation may belong to any of the Policy's resources
+		for _, resource := range policy.Resources {
+			if resource.GetRelationByName(relName) != nil {
+				return nil
+			}
+		}
+		return fmt.Errorf("relation %v: %w", relName, ErrRelationNotFound)
+	}
+
 	resourceName := s.getObjectSelectorResourceName(objSelector)
 	resource := policy.GetResourceByName(resourceName)
+	if resource == nil {
+		return fmt.Errorf("resource %v: %w", resourceName, ErrResourceNotFound)
+	}
 	relation := resource.GetRelationByName(relName)
 	if relation == nil {
 		return fmt.Errorf("relation %v: %w", relName, ErrRelationNotFound)
-- 
2.43.0


From 0b9b6a97a2e20b022d2c764b15b330a7788f8ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:52 +0000
Subject: [PATCH 11/20] fix: incomplete relationship selectors crashed the
 service

A request without a selector, or without one of its parts, is now an invalid variant error.
---
 internal/policy/selector_matcher.go |  6 ++++++
 internal/policy/spec.go             | 12 ++++++------
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/internal/policy/selector_matcher.go b/internal/policy/selector_matcher.go
index db28371..329e977 100644
--- a/internal/policy/selector_matcher.go
+++ b/internal/policy/selector_matcher.go
@@ -1,6 +1,8 @@
 package policy
 
 import (
+	"fmt"
+
 	"google.golang.org/protobuf/proto"
 
 	"github.com/sourcenetwork/zanzi/pkg/domain"
@@ -10,6 +12,10 @@ import (
 // the selected object and subject by value: messages with equal contents
 // match regardless of their internal protobuf state.
 func NewSelectorMatcher(selector *domain.RelationshipSelector) (RelationshipSelectorSpec, error) {
+	if selector.GetObjectSelector() == nil || selector.GetRelationSelector() == nil || selector.GetSubjectSelector() == nil {
+		return RelationshipSelectorSpec{}, fmt.Errorf("RelationshipSelector %v: %w", selector, domain.ErrInvalidVariant)
+	}
+
 	spec, err := NewSelectorSpec(selector)
 	if err != nil {
 		return spec, err
diff --git a/internal/policy/spec.go b/internal/policy/spec.go
index bb821c7..e9ad580 100644
--- a/internal/policy/spec.go
+++ b/internal/policy/spec.go
@@ -338,17 +338,17 @@ func (s *SubjectRestrictionSpec) satisfiesRestriction(restriction *domain.Subjec
 type ValidSelectorSpec struct{}
 
 func (s *ValidSelectorSpec) Satisfies(selector *domain.RelationshipSelector, policy *domain.Policy) error {
-	err := s.validObjectSelector(selector.ObjectSelector, policy)
+	err := s.validObjectSelector(selector.GetObjectSelector(), policy)
 	if err != nil {
 		return fmt.Errorf("object selector invalid: policy %v: %w", policy.Id, err)
 	}
 
-	err = s.validRelationSelector(selector.ObjectSelector, selector.RelationSelector, policy)
+	err = s.validRelationSelector(selector.GetObjectSelector(), selector.GetRelationSelector(), policy)
 	if err != nil {
 		return fmt.Errorf("relation selector invalid: policy %v: %w", policy.Id, err)
 	}
 
-	err = s.validSubjectSelector(selector.SubjectSelector, policy)
+	err = s.validSubjectSelector(selector.GetSubjectSelector(), policy)
 	if err != nil {
 		return fmt.Errorf("subject selector invalid: policy %v: %w", policy.Id, err)
 	}
@@ -357,7 +357,7 @@ func (s *ValidSelectorSpec) Satisfies(selector *domain.RelationshipSelector, pol
 }
 
 func (s *ValidSelectorSpec) validObjectSelector(selector *domain.ObjectSelector, policy *domain.Policy) error {
-	switch s := selector.Selector.(type) {
+	switch s := selector.GetSelector().(type) {
 	case *domain.ObjectSelector_ObjectSpec:
 		resource := policy.GetResourceByName(s.ObjectSpec.Resource)
 		if resource == nil {
@@ -407,7 +407,7 @@ func (s *ValidSelectorSpec) validRelationSelector(objSelector *domain.ObjectSele
 }
 
 func (s *ValidSelectorSpec) getObjectSelectorResourceName(objSelector *domain.ObjectSelector) string {
-	switch s := objSelector.Selector.(type) {
+	switch s := objSelector.GetSelector().(type) {
 	case *domain.ObjectSelector_ObjectSpec:
 		return s.ObjectSpec.Resource
 	case *domain.ObjectSelector_ResourceSpec:
@@ -417,7 +417,7 @@ func (s *ValidSelectorSpec) getObjectSelectorResourceName(objSelector *domain.Ob
 }
 
 func (s *ValidSelectorSpec) validSubjectSelector(selector *domain.SubjectSelector, policy *domain.Policy) error {
-	switch s := selector.Selector.(type) {
+	switch s := selector.GetSelector().(type) {
 	case *domain.SubjectSelector_ResourceSpec:
 		resource := policy.GetResourceByName(s.ResourceSpec)
 		if resource == nil {
-- 
2.43.0


From 767e3f5c764681462759d3cda2c4873aa19f3593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:56 +0000
Subject: [PATCH 12/20] fix: malformed policies were accepted or crashed the
 service

The generated Validate() does not enforce the required fields, so policies without an id,
with unnamed resources or relations or with incomplete relation expression trees were
accepted, and a policy without a definition, a relation expression or a subject restriction
crashed the service.
---
 internal/policy/helpers.go |  4 +--
 internal/policy/spec.go    | 50 ++++++++++++++++++++++++++++++++++----
 2 files changed, 47 insertions(+), 7 deletions(-)

diff --git a/internal/policy/helpers.go b/internal/policy/helpers.go
index 588caf0..e2e99ff 100644
--- a/internal/policy/helpers.go
+++ b/internal/policy/helpers.go
@@ -21,7 +21,7 @@ func GetExpressionTree(r *domain.Relation) (*domain.RelationExpressionTree, erro
 	var tree *domain.RelationExpressionTree
 	var err error
 
-	switch t := r.RelationExpression.Expression.(type) {
+	switch t := r.GetRelationExpression().GetExpression().(type) {
 	case *domain.RelationExpression_Expr:
 		tree, err = parser.Parse(t.Expr)
 		if err != nil {
@@ -40,7 +40,7 @@ func GetPolicyFromDefinition(d *api.PolicyDefinition) (*domain.Policy, error) {
 	var policy *domain.Policy
 	var err error
 
-	switch definition := d.Definition.(type) {
+	switch definition := d.GetDefinition().(type) {
 	case *api.PolicyDefinition_Policy:
 		policy = definition.Policy
 	case *api.PolicyDefinition_PolicyYaml:
diff --git a/internal/policy/spec.go b/internal/policy/spec.go
index e9ad580..362604b 100644
--- a/internal/policy/spec.go
+++ b/internal/policy/spec.go
@@ -17,13 +17,13 @@ func (s *ValidPolicySpec) Verify(policy *domain.Policy) error {
 }
 
 func (s *ValidPolicySpec) verify(policy *domain.Policy) error {
-	lut := NewPolicyLookUpTable(policy)
-
-	if err := s.UniqueResourceAndRelationsNames(policy); err != nil {
+	if err := s.RequiredFieldsPresent(policy); err != nil {
 		return err
 	}
 
-	if err := s.RequiredFieldsPresent(policy); err != nil {
+	lut := NewPolicyLookUpTable(policy)
+
+	if err := s.UniqueResourceAndRelationsNames(policy); err != nil {
 		return err
 	}
 
@@ -38,7 +38,23 @@ func (s *ValidPolicySpec) verify(policy *domain.Policy) error {
 	return nil
 }
 
+// RequiredFieldsPresent verifies the fields declared as required in the Policy's proto definition
 func (s *ValidPolicySpec) RequiredFieldsPresent(policy *domain.Policy) error {
+	if policy.Id == "" {
+		return fmt.Errorf("missing id: %w", ErrInvalidPolicy)
+	}
+
+	for _, resource := range policy.Resources {
+		if resource.Name == "" {
+			return fmt.Errorf("resource missing name: %w", ErrInvalidPolicy)
+		}
+		for _, relation := range resource.Relations {
+			if relation.Name == "" {
+				return fmt.Errorf("resource %v: relation missing name: %w", resource.Name, ErrInvalidPolicy)
+			}
+		}
+	}
+
 	return policy.Validate()
 }
 
@@ -82,6 +98,10 @@ func (s *ValidPolicySpec) RelationExpressionWellDefined(policy *domain.Policy, l
 			if err != nil {
 				return fmt.Errorf("resoruce %v: relation %v: %w", resource.Name, relation.Name, err)
 			}
+			err = s.wellFormedTree(tree)
+			if err != nil {
+				return fmt.Errorf("resoruce %v: relation %v: %w", resource.Name, relation.Name, err)
+			}
 			rules := tree.GetRules()
 			for _, rule := range rules {
 				err := s.policyContainsRelationsInRule(resource.Name, relation.Name, lut, rule)
@@ -94,6 +114,26 @@ func (s *ValidPolicySpec) RelationExpressionWellDefined(policy *domain.Policy, l
 	return nil
 }
 
+// wellFormedTree verifies every operation in a relation expression tree has a known operator and both its operands
+func (s *ValidPolicySpec) wellFormedTree(tree *domain.RelationExpressionTree) error {
+	switch node := tree.GetNode().(type) {
+	case *domain.RelationExpressionTree_Rule:
+		return nil
+	case *domain.RelationExpressionTree_OpNode:
+		switch node.OpNode.GetOperator() {
+		case domain.Operator_UNION, domain.Operator_INTERSECTION, domain.Operator_DIFFERENCE:
+		default:
+			return fmt.Errorf("operator %v: %w", node.OpNode.GetOperator(), ErrRelExpTree)
+		}
+		if err := s.wellFormedTree(node.OpNode.GetLeft()); err != nil {
+			return err
+		}
+		return s.wellFormedTree(node.OpNode.GetRight())
+	default:
+		return fmt.Errorf("tree node %v: %w: %w", node, ErrRelExpTree, domain.ErrInvalidVariant)
+	}
+}
+
 func (s *ValidPolicySpec) policyContainsRelationsInRule(resource, relation string, lut PolicyLookUpTable, rule *domain.Rule) error {
 	switch r := rule.Rule.(type) {
 	case *domain.Rule_Cu:
@@ -257,7 +297,7 @@ func (s *SubjectRestrictionSpec) Satisfies(relationship *domain.Relationship, ta
 
 	var err error
 
-	switch restriction := relation.SubjectRestriction.SubjectRestriction.(type) {
+	switch restriction := relation.GetSubjectRestriction().GetSubjectRestriction().(type) {
 	case *domain.SubjectRestriction_UniversalSet:
 		err = nil
 	case *domain.SubjectRestriction_RestrictionSet:
-- 
2.43.0


From 1344a4772319ac403ae38e1fad25c44200841fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:59 +0000
Subject: [PATCH 13/20] fix: incomplete relationships were accepted or crashed
 the service

The generated Validate() does not enforce the required fields. Relationships missing an
object, relation, subject or any of their names and ids are now refused.
---
 internal/policy/service.go | 12 ++++++++++++
 internal/policy/spec.go    | 19 +++++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/internal/policy/service.go b/internal/policy/service.go
index dc5d1ab..de1231f 100644
--- a/internal/policy/service.go
+++ b/internal/policy/service.go
@@ -199,6 +199,12 @@ func (s *Service) DeleteRelationship(
 	req *api.DeleteRelationshipRequest) (*api.DeleteRelationshipResponse, error) {
 	repo := s.getPolicyRepository()
 
+	spec := AllowedRelationshipSpec{}
+	err := spec.requiredFields(req.Relationship)
+	if err != nil {
+		return nil, fmt.Errorf("delete Relationship: %w", err)
+	}
+
 	found, err := repo.DeleteRelationship(ctx, req.PolicyId, req.Relationship)
 	if err != nil {
 		return nil, fmt.Errorf("delete Relationship: %w", err)
@@ -214,6 +220,12 @@ func (s *Service) GetRelationship(
 	req *api.GetRelationshipRequest) (*api.GetRelationshipResponse, error) {
 	repo := s.getPolicyRepository()
 
+	spec := AllowedRelationshipSpec{}
+	err := spec.requiredFields(req.Relationship)
+	if err != nil {
+		return nil, fmt.Errorf("get relationship: %w", err)
+	}
+
 	record, err := repo.GetRelationship(ctx, req.PolicyId, req.Relationship)
 	if err != nil {
 		return nil, fmt.Errorf("get relationship: %w", err)
diff --git a/internal/policy/spec.go b/internal/policy/spec.go
index 362604b..61b9f4c 100644
--- a/internal/policy/spec.go
+++ b/internal/policy/spec.go
@@ -217,9 +217,28 @@ func (s *AllowedRelationshipSpec) requiredFields(relationship *domain.Relationsh
 	if err != nil {
 		return fmt.Errorf("relationship %v: %w", relationship, ErrInvalidRelationship)
 	}
+
+	valid := s.entityComplete(relationship.GetObject()) && relationship.GetRelation() != ""
+	switch subject := relationship.GetSubject().GetSubject().(type) {
+	case *domain.Subject_Entity:
+		valid = valid && s.entityComplete(subject.Entity)
+	case *domain.Subject_EntitySet:
+		valid = valid && s.entityComplete(subject.EntitySet.GetEntity()) && subject.EntitySet.GetRelation() != ""
+	case *domain.Subject_ResourceSet:
+		valid = valid && subject.ResourceSet.GetResourceName() != ""
+	default:
+		valid = false
+	}
+	if !valid {
+		return fmt.Errorf("relationship %v: missing required fields: %w", relationship, ErrInvalidRelationship)
+	}
 	return nil
 }
 
+func (s *AllowedRelationshipSpec) entityComplete(entity *domain.Entity) bool {
+	return entity.GetResource() != "" && entity.GetId() != ""
+}
+
 // checkSymbols verifies that the symbols referred to in a Relationship are valid within a Policy
 // eg. validates the resources and relation names
 func (s *AllowedRelationshipSpec) checkSymbols(relationship *domain.Relationship, lut PolicyLookUpTable) error {
-- 
2.43.0


From 9bc252fc40ea9082117d3aabce31ef26327c58a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:03 +0000
Subject: [PATCH 14/20] fix: incomplete graph requests crashed the service

Check, ExplainCheck and Expand dereferenced the access request or root node of requests
which did not set them.
---
 internal/relation_graph/service.go | 37 ++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/internal/relation_graph/service.go b/internal/relation_graph/service.go
index 3b17c4d..909e39a 100644
--- a/internal/relation_graph/service.go
+++ b/internal/relation_graph/service.go
@@ -30,6 +30,10 @@ type Service struct {
 func (s *Service) Check(
 	ctx context.Context,
 	req *api.CheckRequest) (*api.CheckResponse, error) {
+	if err := validAccessRequest(req.AccessRequest); err != nil {
+		return nil, fmt.Errorf("check: %w: %w", api.ErrInvalidRequest, err)
+	}
+
 	pol, err := s.policyRepository.GetPolicy(ctx, req.PolicyId)
 	if err != nil {
 		return nil, fmt.Errorf("check: %w: %w", api.ErrInternal, err)
@@ -80,6 +84,10 @@ func (s *Service) Check(
 func (s *Service) ExplainCheck(
 	ctx context.Context,
 	req *api.ExplainCheckRequest) (*api.ExplainCheckResponse, error) {
+	if err := validAccessRequest(req.AccessRequest); err != nil {
+		return nil, fmt.Errorf("check: %w: %w", api.ErrInvalidRequest, err)
+	}
+
 	serializer, err := SerializerFactory(req.Format)
 	if err != nil {
 		return nil, fmt.Errorf("check: %w: %w", api.ErrInvalidRequest, err)
@@ -140,6 +148,10 @@ func (s *Service) ExplainCheck(
 func (s *Service) Expand(
 	ctx context.Context,
 	req *api.ExpandRequest) (*api.ExpandResponse, error) {
+	if err := validRootNode(req.Root); err != nil {
+		return nil, fmt.Errorf("expand: %w: %w", api.ErrInvalidRequest, err)
+	}
+
 	serializer, err := SerializerFactory(req.Format)
 	if err != nil {
 		return nil, fmt.Errorf("expand: %w: %w", api.ErrInvalidRequest, err)
@@ -210,3 +222,28 @@ func (s *Service) DumpRelationships(
 
 	return response, nil
 }
+
+// validAccessRequest verifies the request names the object and subject it's about
+func validAccessRequest(req *domain.AccessRequest) error {
+	if req.GetObject() == nil || req.GetSubject() == nil {
+		return fmt.Errorf("access request %v: missing object or subject", req)
+	}
+	return nil
+}
+
+// validRootNode verifies node is a complete RelationNode
+func validRootNode(node *domain.RelationNode) error {
+	valid := false
+	switch n := node.GetNode().(type) {
+	case *domain.RelationNode_EntitySet:
+		valid = n.EntitySet.GetObject() != nil
+	case *domain.RelationNode_Entity:
+		valid = n.Entity.GetObject() != nil
+	case *domain.RelationNode_Wildcard:
+		valid = n.Wildcard != nil
+	}
+	if !valid {
+		return fmt.Errorf("root node %v: %w", node, domain.ErrInvalidVariant)
+	}
+	return nil
+}
-- 
2.43.0


From e087e058346b58cf4303343da9a601dc0dd503df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:19 +0000
Subject: [PATCH 15/20] fix: distinct relationships could share a store key

The node key hashed the concatenation of its fields, so eg. the subjects group:1#member and
group:1member collided and one relationship overwrote the other.
---
 internal/store/kv_store/model.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/store/kv_store/model.go b/internal/store/kv_store/model.go
index 659156d..47b5468 100644
--- a/internal/store/kv_store/model.go
+++ b/internal/store/kv_store/model.go
@@ -2,6 +2,7 @@ package kv_store
 
 import (
 	"crypto/sha256"
+	"fmt"
 
 	rcdb "github.com/sourcenetwork/raccoondb"
 
@@ -24,9 +25,8 @@ type relationNodeKeyer struct{}
 
 func (t *relationNodeKeyer) Key(node *RelationNode) []byte {
 	hasher := sha256.New()
-	hasher.Write([]byte(node.Resource))
-	hasher.Write([]byte(node.Id))
-	hasher.Write([]byte(node.Relation))
+	// fields are quoted so that no two distinct nodes hash the same bytes
+	fmt.Fprintf(hasher, "%d%q%q%q", node.Type, node.Resource, node.Id, node.Relation)
 	return hasher.Sum(nil)
 }
 
-- 
2.43.0


From 879383d53cee0f72b187dff84e68984cbb9554ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:24 +0000
Subject: [PATCH 16/20] fix: distinct relation nodes could share an id

Ids and names may contain the separator, so eg. doc:a/b#c and doc:a#b/c were taken for
the same node and the search treated the second one as a cycle.
---
 pkg/domain/relation_graph.go | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/pkg/domain/relation_graph.go b/pkg/domain/relation_graph.go
index a40e222..4847b12 100644
--- a/pkg/domain/relation_graph.go
+++ b/pkg/domain/relation_graph.go
@@ -35,26 +35,15 @@ func (n *RelationNode) IsTerminalNode() bool {
 // Hash produces an Id of a RelationNode which uniquely identifies it.
 func (n *RelationNode) Id() string {
 	hasher := sha256.New()
-	separator := []byte{byte('/')}
 
-	// since Ids and Relations are required, it's impossible
-	// for users to created an entity node which would cause a clash
+	// each variant has its own tag and fields are quoted, so that no two distinct nodes hash the same bytes
 	switch node := n.Node.(type) {
 	case *RelationNode_EntitySet:
-		hasher.Write([]byte(node.EntitySet.Object.Resource))
-		hasher.Write(separator)
-		hasher.Write([]byte(node.EntitySet.Object.Id))
-		hasher.Write(separator)
-		hasher.Write([]byte(node.EntitySet.Relation))
+		fmt.Fprintf(hasher, "entity_set%q%q%q", node.EntitySet.Object.Resource, node.EntitySet.Object.Id, node.EntitySet.Relation)
 	case *RelationNode_Entity:
-		hasher.Write([]byte(node.Entity.Object.Resource))
-		hasher.Write(separator)
-		hasher.Write([]byte(node.Entity.Object.Id))
-		hasher.Write(separator)
+		fmt.Fprintf(hasher, "entity%q%q", node.Entity.Object.Resource, node.Entity.Object.Id)
 	case *RelationNode_Wildcard:
-		hasher.Write([]byte(node.Wildcard.Resource))
-		hasher.Write(separator)
-		hasher.Write(separator)
+		fmt.Fprintf(hasher, "wildcard%q", node.Wildcard.Resource)
 	default:
 	}
 
-- 
2.43.0


From a00f6b9f5fec68fc3d22833287a739ae399dc916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:26 +0000
Subject: [PATCH 17/20] fix: policy ids containing separators shared the key
 space of other policies

Relationships of a policy with id such as 'p////in/x' were listed by policy 'p'.
---
 internal/store/kv_store/kv_store.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/store/kv_store/kv_store.go b/internal/store/kv_store/kv_store.go
index fcd3892..3e93e90 100644
--- a/internal/store/kv_store/kv_store.go
+++ b/internal/store/kv_store/kv_store.go
@@ -1,6 +1,8 @@
 package kv_store
 
 import (
+	"encoding/hex"
+
 	rcdb "github.com/sourcenetwork/raccoondb"
 
 	"github.com/sourcenetwork/zanzi/internal/policy"
@@ -47,7 +49,7 @@ func (kv *KVStore) getPolicyStore() *rcdb.ObjectStore[*domain.PolicyRecord] {
 func (kv *KVStore) getRelationshipStore(policyId string) rcdb.RaccoonStore[*Relationship, *RelationNode] {
 	factory := func() *Relationship { return &Relationship{} }
 	marshaler := rcdb.ProtoMarshaler[*Relationship](factory)
-	store := rcdb.NewWrapperKV(kv.relationshipPrefixKV, []byte(policyId))
+	store := rcdb.NewWrapperKV(kv.relationshipPrefixKV, policyKeyPrefix(policyId))
 	schema := rcdb.RaccoonSchema[*Relationship, *RelationNode]{
 		Store:     store,
 		Keyer:     &relationNodeKeyer{},
@@ -60,7 +62,7 @@ func (kv *KVStore) getRelationshipDataStore(policyId string) *rcdb.ObjectStore[*
 	factory := func() *RelationshipData { return &RelationshipData{} }
 	marshaler := rcdb.ProtoMarshaler[*RelationshipData](factory)
 	ider := relationshipDataIDer{}
-	policyKV := rcdb.NewWrapperKV(kv.relationshipDataPrefixKV, []byte(policyId))
+	policyKV := rcdb.NewWrapperKV(kv.relationshipDataPrefixKV, policyKeyPrefix(policyId))
 	store := rcdb.NewObjStore[*RelationshipData](policyKV, marshaler, &ider)
 	return &store
 }
@@ -74,3 +76,10 @@ func (kv *KVStore) GetRelationNodeRepository() relation_graph.NodeRepository {
 	repo := newNodeRepository(kv)
 	return &repo
 }
+
+// policyKeyPrefix maps a policy id into a key prefix.
+// Ids are user defined and could contain raccoondb's key separator, in which case
+// the key space of a policy would fall within the key space of another one.
+func policyKeyPrefix(policyId string) []byte {
+	return []byte(hex.EncodeToString([]byte(policyId)))
+}
-- 
2.43.0


From 7d2d3946576373e639f307585275a69a0720279b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:29 +0000
Subject: [PATCH 18/20] fix: DumpRelationships overflowed the stack on cyclic
 relationships

Cycles reachable from a root recursed forever, cycles without a root were left out of the
dump and the relationships of a node with several ancestors were dumped once for each.
---
 .../relation_tree_serializer.go               | 13 ++++++++---
 internal/relation_graph/walker.go             | 23 +++++++++++++++++++
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/internal/relation_graph/relation_tree_serializer.go b/internal/relation_graph/relation_tree_serializer.go
index 166b9e4..bbfe7c3 100644
--- a/internal/relation_graph/relation_tree_serializer.go
+++ b/internal/relation_graph/relation_tree_serializer.go
@@ -16,7 +16,8 @@ func (s *RelationTreeDOTSerializer) Serialize(tree *domain.RelationTree) (string
 	graph.SetDir(directed) //directed graph true
 	graph.SetName(relationTreeGraphName)
 
-	err := s.handleNode(nil, tree, graph)
+	visited := make(map[*domain.RelationTree]struct{})
+	err := s.handleNode(nil, tree, graph, visited)
 	if err != nil {
 		return "", err
 	}
@@ -24,7 +25,7 @@ func (s *RelationTreeDOTSerializer) Serialize(tree *domain.RelationTree) (string
 	return graph.String(), nil
 }
 
-func (s *RelationTreeDOTSerializer) handleNode(parent *domain.RelationTree, node *domain.RelationTree, graph *gographviz.Graph) error {
+func (s *RelationTreeDOTSerializer) handleNode(parent *domain.RelationTree, node *domain.RelationTree, graph *gographviz.Graph, visited map[*domain.RelationTree]struct{}) error {
 	id := s.nodeId(node.Node)
 	label := s.nodeLabel(node.Node)
 
@@ -43,8 +44,14 @@ func (s *RelationTreeDOTSerializer) handleNode(parent *domain.RelationTree, node
 		}
 	}
 
+	// trees share nodes and may contain cycles
+	if _, ok := visited[node]; ok {
+		return nil
+	}
+	visited[node] = struct{}{}
+
 	for _, child := range node.Children {
-		err := s.handleNode(node, child, graph)
+		err := s.handleNode(node, child, graph, visited)
 		if err != nil {
 			return err
 		}
diff --git a/internal/relation_graph/walker.go b/internal/relation_graph/walker.go
index 4362410..e7e6ab6 100644
--- a/internal/relation_graph/walker.go
+++ b/internal/relation_graph/walker.go
@@ -42,8 +42,20 @@ func (w *walker) Walk(ctx context.Context, policy *domain.Policy) (*domain.Relat
 	}
 
 	rootChildren := make([]*domain.RelationTree, 0, len(orphans))
+	visited := make(map[*domain.RelationTree]struct{}, len(trees))
 	for orphan := range orphans {
 		rootChildren = append(rootChildren, trees[orphan])
+		w.visit(trees[orphan], visited)
+	}
+
+	// every node in a cycle has an ancestor, therefore nodes which are
+	// unreachable from the orphans need one of their own as a root
+	for _, edge := range edges {
+		tree := w.getTree(edge.First(), trees)
+		if _, ok := visited[tree]; !ok {
+			rootChildren = append(rootChildren, tree)
+			w.visit(tree, visited)
+		}
 	}
 
 	return &domain.RelationTree{
@@ -62,3 +74,14 @@ func (w *walker) getTree(node *domain.RelationNode, trees map[string]*domain.Rel
 	}
 	return tree
 }
+
+// visit marks all trees reachable from tree
+func (w *walker) visit(tree *domain.RelationTree, visited map[*domain.RelationTree]struct{}) {
+	if _, ok := visited[tree]; ok {
+		return
+	}
+	visited[tree] = struct{}{}
+	for _, child := range tree.Children {
+		w.visit(child, visited)
+	}
+}
-- 
2.43.0


From 8cb4de41d40aadbf6762013660d5cbeba82713f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:33 +0000
Subject: [PATCH 19/20] fix: DOT dumps were malformed for ids containing quotes

Labels are quoted and the errors of child nodes are no longer dropped.
---
 internal/relation_graph/goal_tree_serializer.go     | 12 ++++++------
 internal/relation_graph/relation_tree_serializer.go |  4 +++-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/internal/relation_graph/goal_tree_serializer.go b/internal/relation_graph/goal_tree_serializer.go
index 6b2753c..4780544 100644
--- a/internal/relation_graph/goal_tree_serializer.go
+++ b/internal/relation_graph/goal_tree_serializer.go
@@ -3,6 +3,7 @@ package relation_graph
 import (
 	"encoding/json"
 	"fmt"
+	"strconv"
 
 	"github.com/awalterschulze/gographviz"
 	"github.com/davecgh/go-spew/spew"
@@ -51,13 +52,13 @@ func (s *dotSerializer) Serialize(goalTree GoalTree) (string, error) {
 func (s *dotSerializer) handleGoalTree(parentId string, tree GoalTree, graph *gographviz.Graph) error {
 	switch node := tree.(type) {
 	case *PathNode:
-		s.handlePathNode(parentId, node, graph)
+		return s.handlePathNode(parentId, node, graph)
 	case *ORNode:
-		s.handleORNode(parentId, node, graph)
+		return s.handleORNode(parentId, node, graph)
 	case *ANDNode:
-		s.handleANDNode(parentId, node, graph)
+		return s.handleANDNode(parentId, node, graph)
 	case *DifferenceNode:
-		s.handleDifferenceNode(parentId, node, graph)
+		return s.handleDifferenceNode(parentId, node, graph)
 	case nil:
 		break
 	default:
@@ -180,8 +181,7 @@ func (s *dotSerializer) nextId() string {
 
 // sprintf formats a string and wraps it with quotes
 func (s *dotSerializer) sprintf(format string, args ...any) string {
-	format = "\"" + format + "\""
-	return fmt.Sprintf(format, args...)
+	return strconv.Quote(fmt.Sprintf(format, args...))
 }
 
 func SerializerFactory(model api.ExplainFormat) (GoalTreeSerializer, error) {
diff --git a/internal/relation_graph/relation_tree_serializer.go b/internal/relation_graph/relation_tree_serializer.go
index bbfe7c3..5954678 100644
--- a/internal/relation_graph/relation_tree_serializer.go
+++ b/internal/relation_graph/relation_tree_serializer.go
@@ -1,6 +1,8 @@
 package relation_graph
 
 import (
+	"strconv"
+
 	"github.com/awalterschulze/gographviz"
 
 	"github.com/sourcenetwork/zanzi/pkg/domain"
@@ -75,5 +77,5 @@ func (s *RelationTreeDOTSerializer) nodeLabel(node *domain.RelationNode) string
 }
 
 func (s *RelationTreeDOTSerializer) wrap(str string) string {
-	return "\"" + str + "\""
+	return strconv.Quote(str)
 }
-- 
2.43.0


From 9bb9fc87a000e0a03e40b670f8f4b39cad3b4f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:35 +0000
Subject: [PATCH 20/20] fix: listing policies blocked the store

The iterator was never closed, so it kept the in memory store locked and every write
afterwards waited forever.
---
 internal/store/kv_store/kv_store.go          |  2 ++
 internal/store/kv_store/policy_repository.go | 26 +++++++++++++-------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/internal/store/kv_store/kv_store.go b/internal/store/kv_store/kv_store.go
index 3e93e90..feae862 100644
--- a/internal/store/kv_store/kv_store.go
+++ b/internal/store/kv_store/kv_store.go
@@ -29,6 +29,7 @@ func NewKVStore(store rcdb.KVStore) (KVStore, error) {
 
 	return KVStore{
 		baseKV:                   store,
+		policyPrefixKV:           policyPrefixWrapper,
 		policyStore:              policyStore,
 		relationshipPrefixKV:     rcdb.NewWrapperKV(store, relationshipStorePrefix),
 		relationshipDataPrefixKV: rcdb.NewWrapperKV(store, relationshipDataStorePrefix),
@@ -37,6 +38,7 @@ func NewKVStore(store rcdb.KVStore) (KVStore, error) {
 
 type KVStore struct {
 	baseKV                   rcdb.KVStore
+	policyPrefixKV           rcdb.KVStore
 	policyStore              rcdb.ObjectStore[*domain.PolicyRecord]
 	relationshipPrefixKV     rcdb.KVStore
 	relationshipDataPrefixKV rcdb.KVStore
diff --git a/internal/store/kv_store/policy_repository.go b/internal/store/kv_store/policy_repository.go
index e85b4b0..ed9ed38 100644
--- a/internal/store/kv_store/policy_repository.go
+++ b/internal/store/kv_store/policy_repository.go
@@ -14,6 +14,9 @@ import (
 
 var _ policy.Repository = (*policyRepository)(nil)
 
+// maxPolicyId is greater than any UTF-8 string
+var maxPolicyId []byte = []byte{255}
+
 func newPolicyRepository(store *KVStore) policyRepository {
 	nodeKeyer := relationNodeKeyer{}
 	ider := rcdb.IderFromNodeKeyer[*Relationship, *RelationNode](&nodeKeyer)
@@ -78,15 +81,20 @@ func (r *policyRepository) DeletePolicy(ctx context.Context, id string) (types.R
 }
 
 func (r *policyRepository) ListPolicyIds(context.Context) ([]string, error) {
-    store := r.kvStore.getPolicyStore()
-    ids, err := store.ListIds()
-    if err != nil {
-        return nil, fmt.Errorf("list policy ids: %w", err)
-    }
-
-    return utils.MapSlice(ids, func(id []byte) string {
-        return string(id)
-    }), nil
+	// ObjectStore.ListIds is unbounded and leaks its iterator, which may hold the store's lock.
+	// Ids are UTF-8 strings, therefore they all sort before maxPolicyId
+	iter := r.kvStore.policyPrefixKV.Iterator(nil, maxPolicyId)
+	defer iter.Close()
+
+	var ids []string
+	for ; iter.Valid(); iter.Next() {
+		ids = append(ids, string(iter.Key()))
+	}
+	if err := iter.Error(); err != nil {
+		return nil, fmt.Errorf("list policy ids: %w", err)
+	}
+
+	return ids, nil
 }
 
 func (r *policyRepository) SetRelationship(ctx context.Context, record *domain.RelationshipRecord) (bool, error) {
-- 
2.43.0

