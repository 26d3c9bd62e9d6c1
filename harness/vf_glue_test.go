package test_test

import (
	"time"

	parser "github.com/sourcenetwork/zanzi/internal/relation_expression_parser"
	"github.com/sourcenetwork/zanzi/pkg/domain"
	"github.com/sourcenetwork/zanzi/pkg/policy_definition"
)

const haveGlue = true

func timeNow() time.Time { return time.Now() }

func parseExpression(s string) (*domain.RelationExpressionTree, error) { return parser.Parse(s) }

func policyFromYaml(s string) (*domain.Policy, error) { return policy_definition.PolicyFromYaml(s) }
