package relation_expression_parser

import (
	vt "github.com/sourcenetwork/zanzi/internal/utils"
	"github.com/sourcenetwork/zanzi/pkg/domain"
	"github.com/sourcenetwork/zanzi/pkg/types"
)

// The grammar over a sequence of tokens.
//
//	term := THIS | IDENT ARROW IDENT | IDENT | BEGIN expr END
//	expr := term (op term)*

// vTTU: the tokens start with identifier arrow identifier
//
//vc:inline
func vTTU(ts []token) bool {
	return len(ts) > 2 && ts[0].Type == tokenIdentifier && ts[1].Type == tokenArrow && ts[2].Type == tokenIdentifier
}

// vTermOK: a term starts here
//
//vc:def
func vTermOK(ts []token) bool {
	if len(ts) == 0 {
		return false
	}
	if ts[0].Type == tokenThis || ts[0].Type == tokenIdentifier {
		return true
	}
	return vGroupOK(ts)
}

// vGroupOK: a parenthesized expression starts here
//
//vc:def
func vGroupOK(ts []token) bool {
	if len(ts) == 0 || ts[0].Type != tokenGroupBegin || !vTermOK(ts[1:]) {
		return false
	}
	n := vExprN(ts[1:])
	return n+1 < len(ts) && ts[n+1].Type == tokenGroupEnd
}

// vTermN: the number of tokens of the term
//
//vc:def
func vTermN(ts []token) int {
	if ts[0].Type == tokenThis {
		return 1
	}
	if vTTU(ts) {
		return 3
	}
	if ts[0].Type == tokenIdentifier {
		return 1
	}
	return vExprN(ts[1:]) + 2
}

// vTermV: the tree of the term
//
//vc:def
func vTermV(ts []token) Term {
	if ts[0].Type == tokenThis {
		return domain.VThisV()
	}
	if vTTU(ts) {
		return domain.VTTUV(ts[0].Lexeme, ts[2].Lexeme)
	}
	if ts[0].Type == tokenIdentifier {
		return domain.VCUV(ts[0].Lexeme)
	}
	return vExprV(ts[1:])
}

// vPos: where the k-th operator-term pair starts
//
//vc:def
func vPos(ts []token, k int) int {
	if k <= 0 {
		return 0
	}
	q := vPos(ts, k-1)
	return q + 1 + vTermN(ts[q+1:])
}

func vIsOp(t tokenType) bool {
	return t == tokenUnion || t == tokenDifference || t == tokenIntersection
}

func vOp(t tokenType) domain.Operator {
	switch t {
	case tokenUnion:
		return domain.Operator_UNION
	case tokenIntersection:
		return domain.Operator_INTERSECTION
	}
	return domain.Operator_DIFFERENCE
}

// vPairOK: an operator-term pair starts here
//
//vc:inline
func vPairOK(ts []token) bool {
	return len(ts) > 0 && vIsOp(ts[0].Type) && vTermOK(ts[1:])
}

// vMore: there is a k-th pair
//
//vc:inline
func vMore(ts []token, k int) bool { return vPairOK(ts[vPos(ts, k):]) }

// vNum: the number of pairs; pairs are not empty, so there is a first index without one
//
//vc:uninterp
func vNum(ts []token) int { return 0 }

//vc:axiom
func vaxNum(ts []token, k int) {
	vt.VEnsures("counts", vNum(ts) >= 0 && !vMore(ts, vNum(ts)) && (k < 0 || k >= vNum(ts) || vMore(ts, k)))
}

// vAcc: the tree of head and the first k pairs, grouped to the left
//
//vc:def
func vAcc(head Term, ts []token, k int) Term {
	if k <= 0 {
		return head
	}
	q := vPos(ts, k-1)
	return domain.VOpV(vAcc(head, ts, k-1), vOp(ts[q].Type), vTermV(ts[q+1:]))
}

//vc:def
func vExprN(ts []token) int {
	n := vTermN(ts)
	return n + vPos(ts[n:], vNum(ts[n:]))
}

//vc:def
func vExprV(ts []token) Term {
	n := vTermN(ts)
	return vAcc(vTermV(ts), ts[n:], vNum(ts[n:]))
}

//vc:contract thisParser
//vc:props C15 C14
func vcThis(tokens []token, t Term, err error, tail []token) {
	vt.VEnsures("C15: accepts _this only", (err == nil) == (len(tokens) > 0 && tokens[0].Type == tokenThis))
	vt.VEnsures("C15: consumes it", err != nil || vt.VSame(tail, tokens[1:]))
	vt.VEnsures("C14: a complete tree", err != nil || domain.VWellFormed(t))
	vt.VEnsures("C15: its tree", err != nil || t != nil && domain.VVal(t) == domain.VThisV())
}

//vc:contract computedUsersetParser
//vc:props C15 C14
func vcCU(tokens []token, t Term, err error, tail []token) {
	vt.VEnsures("C15: accepts identifiers only", (err == nil) == (len(tokens) > 0 && tokens[0].Type == tokenIdentifier))
	vt.VEnsures("C15: consumes it", err != nil || vt.VSame(tail, tokens[1:]))
	vt.VEnsures("C14: a complete tree", err != nil || domain.VWellFormed(t))
	vt.VEnsures("C15: its tree", err != nil || t != nil && domain.VVal(t) == domain.VCUV(tokens[0].Lexeme))
}

//vc:contract tupleToUsersetParser
//vc:props C15 C14
func vcTTU(tokens []token, t Term, err error, tail []token) {
	vt.VEnsures("C15: accepts identifier arrow identifier only", (err == nil) == vTTU(tokens))
	vt.VEnsures("C15: consumes it", err != nil || vt.VSame(tail, tokens[3:]))
	vt.VEnsures("C14: a complete tree", err != nil || domain.VWellFormed(t))
	vt.VEnsures("C15: its tree", err != nil || t != nil && domain.VVal(t) == domain.VTTUV(tokens[0].Lexeme, tokens[2].Lexeme))
}

//vc:contract setOpParser
//vc:props C15 C14
func vcSetOp(tokens []token, op domain.Operator, err error, tail []token) {
	vt.VEnsures("C15: accepts operators only", (err == nil) == (len(tokens) > 0 && vIsOp(tokens[0].Type)))
	vt.VEnsures("C15: consumes it", err != nil || vt.VSame(tail, tokens[1:]))
	vt.VEnsures("C15: its operator", err != nil || op == vOp(tokens[0].Type))
}

//vc:contract subexprParser
//vc:props C15 C14
func vcSubexpr(tokens []token, t Term, err error, tail []token) {
	vt.VUse(func() bool { return vGroupOK(tokens) })
	vt.VEnsures("C15: accepts parenthesized expressions only", (err == nil) == vGroupOK(tokens))
	vt.VEnsures("C15: consumes it", err != nil || vExprN(tokens[1:]) > 0 && vt.VSame(tail, tokens[vExprN(tokens[1:])+2:]))
	vt.VEnsures("C14: a complete tree", err != nil || domain.VWellFormed(t))
	vt.VEnsures("C15: its tree", err != nil || t != nil && domain.VVal(t) == vExprV(tokens[1:]))
}

//vc:contract opTermParser
//vc:props C15 C14
func vcOpTerm(tokens []token, p types.Pair[domain.Operator, Term], err error, tail []token) {
	vt.VEntry(func() {
		vt.VUse(func() bool { return vTermOK(tokens[1:]) })
		vt.VUse(func() bool { return vTermN(tokens[1:]) == 0 })
		vt.VUse(func() bool { return vTermV(tokens[1:]) == nil })
	})
	vt.VEnsures("C15: accepts an operator and a term", (err == nil) == vPairOK(tokens))
	vt.VEnsures("C15: consumes them", err != nil || vTermN(tokens[1:]) > 0 && vt.VSame(tail, tokens[1+vTermN(tokens[1:]):]))
	vt.VEnsures("C15: the operator", err != nil || p.First() == vOp(tokens[0].Type))
	vt.VEnsures("C14: a complete tree", err != nil || domain.VWellFormed(p.Second()))
	vt.VEnsures("C15: the term", err != nil || p.Second() != nil && domain.VVal(p.Second()) == vTermV(tokens[1:]))
}

//vc:invariant many[Pair[Operator,Term]]$1 0
func viPairs(tokens, tail []token, vj int) bool {
	vt.VUse(func() bool { return vPos(tokens, vj) == 0 })
	vt.VUse(func() bool { vaxNum(tokens, vj); return true })
	return vPos(tokens, vj) >= 0 && vNum(tokens) >= vj && vt.VSame(tail, tokens[vPos(tokens, vj):])
}

//vc:invariant expressionParser 0
func viFold(tokens []token, acc Term, vj int) bool {
	vt.VUse(func() bool { return vTermN(tokens) == 0 })
	vt.VUse(func() bool { return vTermV(tokens) == nil })
	vt.VUse(func() bool { return vAcc(vTermV(tokens), tokens[vTermN(tokens):], vj) == nil })
	return acc != nil && domain.VWellFormed(acc) && domain.VVal(acc) == vAcc(vTermV(tokens), tokens[vTermN(tokens):], vj)
}

//vc:contract expressionParser
//vc:props C15 C14
func vcExpression(tokens []token, t Term, err error, tail []token) {
	vt.VUse(func() bool { return vTermOK(tokens) })
	vt.VUse(func() bool { return vTermN(tokens) == 0 })
	vt.VUse(func() bool { return vTermV(tokens) == nil })
	vt.VUse(func() bool { return vExprN(tokens) == 0 })
	vt.VUse(func() bool { return vExprV(tokens) == nil })
	vt.VUse(func() bool { vaxNum(tokens[vTermN(tokens):], 0); return true })
	vt.VUse(func() bool { return vPos(tokens[vTermN(tokens):], 0) == 0 })
	vt.VUse(func() bool { return vAcc(vTermV(tokens), tokens[vTermN(tokens):], 0) == nil })
	vt.VEnsures("C15: accepts expressions only", (err == nil) == vTermOK(tokens))
	vt.VEnsures("C15: consumes it", err != nil || vExprN(tokens) > 0 && vt.VSame(tail, tokens[vExprN(tokens):]))
	vt.VEnsures("C14: a complete tree", err != nil || domain.VWellFormed(t))
	vt.VEnsures("C15: its tree", err != nil || t != nil && domain.VVal(t) == vExprV(tokens))
}

// The lexer runs in a goroutine and hands its tokens over a channel: what it produces is assumed here (vLexed) and covered by
// bounded executions.

//vc:uninterp
func vLexed(input string) []token { return nil }

//vc:uninterp
func vInput(ch <-chan token) string { return "" }

//vc:extern github.com/sourcenetwork/zanzi/internal/relation_expression_parser.NewLexer
func vxNewLexer(input string, l Lexer, ch <-chan token) {
	vt.VEnsures("reads the input", vInput(ch) == input)
}

//vc:extern (*github.com/sourcenetwork/zanzi/internal/relation_expression_parser.Lexer).Lex
func vxLex(l *Lexer) {}

//vc:extern github.com/sourcenetwork/zanzi/internal/utils.ConsumeChan
func vxConsumeChan(ch <-chan token, ts []token) {
	vt.VEnsures("all tokens", len(ts) > 0 && !vt.VIsNew(ts) && vt.VSame(ts, vLexed(vInput(ch))))
}

// vAllEof: no tokens but the end of the input
//
//vc:def
func vAllEof(ts []token) bool {
	return len(ts) == 0 || ts[0].Type == tokenEof && vAllEof(ts[1:])
}

//vc:invariant many[token]$1 0
func viEof(tokens, tail []token, vj int) bool {
	vt.VUse(func() bool { return vAllEof(tail) })
	return vj <= len(tokens) && vt.VSame(tail, tokens[vj:]) && vAllEof(tokens) == vAllEof(tail)
}

// vAccepts: the tokens are an expression and nothing else
//
//vc:inline
func vAccepts(ts []token) bool {
	return ts[len(ts)-1].Type != tokenError && vTermOK(ts) && vAllEof(ts[vExprN(ts):])
}

//vc:contract Parse
//vc:props C15 C14
//vc:top
//vc:proveonly
func vcParse(expression string, t Term, err error) {
	vt.VUse(func() bool { return vAllEof(vLexed(expression)[vExprN(vLexed(expression)):]) })
	vt.VEnsures("C15: accepts expressions of the grammar only", err != nil || vAccepts(vLexed(expression)))
	vt.VEnsures("C15: accepts every expression of the grammar", err == nil || !vAccepts(vLexed(expression)))
	vt.VEnsures("C15: the tree of the expression, grouped to the left", err != nil || t != nil && domain.VVal(t) == vExprV(vLexed(expression)))
	vt.VEnsures("C14: a complete tree of known operators", err != nil || domain.VWellFormed(t))
}
