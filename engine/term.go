package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Sorts: B (Bool), I (mathematical Int), S (string, uninterpreted), R (reference, uninterpreted)
type Sort byte

const (
	SB Sort = 'B'
	SI Sort = 'I'
	SS Sort = 'S'
	SR Sort = 'R'
)

func (s Sort) smt() string {
	switch s {
	case SB:
		return "Bool"
	case SI:
		return "Int"
	case SS:
		return "S"
	}
	return "R"
}

type Kind byte

const (
	KApp    Kind = iota // uninterpreted function application / constant
	KVar                // bound variable or loop index
	KInt                // integer literal
	KBool               // boolean literal
	KStr                // string literal
	KOp                 // interpreted operator, name in Op
	KForall             // Args[0] body, Vars
	KExists
)

type Term struct {
	Kind Kind
	Op   string // operator, function or variable name
	Args []*Term
	Sort Sort
	I    int64
	Vars []*Term
	id   int
	size int
	vars map[string]bool // free variables (nil when none)
}

var termTab = map[string]*Term{}
var termCount int

func key(t *Term) string {
	var b strings.Builder
	b.WriteByte(byte('0' + t.Kind))
	b.WriteByte(byte(t.Sort))
	b.WriteString(t.Op)
	b.WriteByte('|')
	if t.Kind == KInt || t.Kind == KBool {
		b.WriteString(strconv.FormatInt(t.I, 10))
	}
	for _, a := range t.Args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	for _, v := range t.Vars {
		b.WriteByte(';')
		b.WriteString(strconv.Itoa(v.id))
	}
	return b.String()
}

func mk(t *Term) *Term {
	k := key(t)
	if x, ok := termTab[k]; ok {
		return x
	}
	termCount++
	t.id = termCount
	t.size = 1
	add := func(n string) {
		if t.vars == nil {
			t.vars = map[string]bool{}
		}
		t.vars[n] = true
	}
	if t.Kind == KVar {
		add(t.Op)
	}
	for _, a := range t.Args {
		t.size += a.size
		for v := range a.vars {
			bound := false
			for _, x := range t.Vars {
				if x.Op == v {
					bound = true
				}
			}
			if !bound {
				add(v)
			}
		}
	}
	termTab[k] = t
	return t
}

var True = mk(&Term{Kind: KBool, Sort: SB, I: 1})
var False = mk(&Term{Kind: KBool, Sort: SB, I: 0})
var Nil = mk(&Term{Kind: KApp, Op: "nil", Sort: SR})
var Zero = Int(0)
var One = Int(1)

func Int(n int64) *Term          { return mk(&Term{Kind: KInt, Sort: SI, I: n}) }
func Str(s string) *Term         { return mk(&Term{Kind: KStr, Sort: SS, Op: s}) }
func Var(n string, s Sort) *Term { return mk(&Term{Kind: KVar, Op: n, Sort: s}) }
func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}
func App(n string, s Sort, args ...*Term) *Term {
	if t := simpApp(n, s, args); t != nil {
		return t
	}
	return mk(&Term{Kind: KApp, Op: n, Sort: s, Args: args})
}
func op(n string, s Sort, args ...*Term) *Term {
	return mk(&Term{Kind: KOp, Op: n, Sort: s, Args: args})
}

// functions with a known left inverse: inv(f(.., x, ..)) = x
type inv2 struct {
	f   string
	arg int
}

var inverseOf2 = map[string]inv2{}

// inv is the k-th argument of x = op(...)
func inv(op string, k int, s Sort, x *Term) *Term {
	n := fmt.Sprintf("inv!%s.%d", op, k)
	inverseOf2[n] = inv2{op, k}
	return App(n, s, x)
}

func simpApp(n string, s Sort, args []*Term) *Term {
	if len(args) > 0 && args[0] == Nil && strings.HasPrefix(n, "h.") {
		return zeroSort(s)
	}
	if f, ok := inverseOf2[n]; ok && len(args) == 1 {
		a := args[0]
		if a.Kind == KApp && a.Op == f.f {
			return a.Args[f.arg]
		}
		if a.Kind == KOp && a.Op == "ite" {
			return Ite(a.Args[0], App(n, s, a.Args[1]), App(n, s, a.Args[2]))
		}
	}
	return nil
}

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.Kind == KOp && a.Op == "not":
		return a.Args[0]
	}
	return op("not", SB, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == False {
			return false
		}
		if a == True || seen[a.id] {
			return true
		}
		if a.Kind == KOp && a.Op == "and" {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[Not(a).id] {
			return false
		}
		seen[a.id] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return op("and", SB, out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == True {
			return false
		}
		if a == False || seen[a.id] {
			return true
		}
		if a.Kind == KOp && a.Op == "or" {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[Not(a).id] {
			return false
		}
		seen[a.id] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return True
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return op("or", SB, out...)
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if c.Kind == KOp && c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if c.Kind == KOp && c.Op == "=" && b.size < 1500 {
		// fields of nil are zero, so a nil-safe getter is a field access
		var x *Term
		if c.Args[0] == Nil {
			x = c.Args[1]
		} else if c.Args[1] == Nil {
			x = c.Args[0]
		}
		if x != nil && !isConst(x) {
			bn := replaceKnown(b, map[int]*Term{x.id: Nil}, map[int]*Term{})
			if bn == a {
				return b
			}
			if a.size < 1500 {
				if an := replaceKnown(a, map[int]*Term{x.id: Nil}, map[int]*Term{}); an == bn {
					return b
				} else {
					a = an
				}
			}
		}
	}
	if a.Sort == SB {
		switch {
		case a == True && b == False:
			return c
		case a == False && b == True:
			return Not(c)
		case a == True:
			return Or(c, b)
		case b == False:
			return And(c, a)
		case a == False:
			return And(Not(c), b)
		case b == True:
			return Or(Not(c), a)
		}
	}
	if a.Kind == KOp && a.Op == "ite" && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Kind == KOp && b.Op == "ite" && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	return op("ite", a.Sort, c, a, b)
}

func isAlloc(t *Term) bool { return t.Kind == KApp && strings.HasPrefix(t.Op, "al!") }
func isConst(t *Term) bool {
	return t.Kind == KInt || t.Kind == KBool || t.Kind == KStr || t == Nil || (isAlloc(t) && len(t.Args) == 0)
}

// input functions and constants: their values existed before the function under analysis started
var inputFn = map[string]bool{}

func isInput(t *Term) bool {
	if t == Nil {
		return true
	}
	if t.Kind != KApp || !inputFn[t.Op] {
		return false
	}
	return len(t.Args) == 0 || t.Args[0].Sort != SR || isInput(t.Args[0])
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq of different sorts: %s %s", a, b))
	}
	if a.Sort == SB {
		switch {
		case a == True:
			return b
		case b == True:
			return a
		case a == False:
			return Not(b)
		case b == False:
			return Not(a)
		}
	}
	if a.Kind == b.Kind && (a.Kind == KInt || a.Kind == KStr || a.Kind == KBool) {
		return False
	}
	if a.Sort == SR {
		if isAlloc(a) && isAlloc(b) {
			if a.Op != b.Op {
				return False
			}
			var cs []*Term
			for i := range a.Args {
				cs = append(cs, Eq(a.Args[i], b.Args[i]))
			}
			return And(cs...)
		}
		if isAlloc(a) && isInput(b) || isAlloc(b) && isInput(a) {
			return False
		}
		if predates(a, b) || predates(b, a) {
			return False
		}
		if isClo(a) && isClo(b) && a.Op != b.Op {
			return False
		}
		if ha, hb := headKind(a), headKind(b); ha != "" && hb != "" && ha != hb {
			return False
		}
	}
	if a.Kind == KApp && b.Kind == KApp && a.Op == b.Op && injective[a.Op] {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	// push equalities with constants into ite
	if isConst(b) && a.Kind == KOp && a.Op == "ite" {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if isConst(a) && b.Kind == KOp && b.Op == "ite" {
		return Ite(b.Args[0], Eq(b.Args[1], a), Eq(b.Args[2], a))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return op("=", SB, a, b)
}

// predates: the result a of a call was returned before the object b was allocated. Symbols are numbered in the order
// of execution; within loops the order is known for the same iterations.
func predates(a, b *Term) bool {
	if !isAlloc(b) || a.Kind != KApp || !strings.HasPrefix(a.Op, "ret.") {
		return false
	}
	i, j := strings.IndexByte(a.Op, '!'), strings.TrimLeft(b.Op[3:], "abcdefghijklmnopqrstuvwxyz")
	if i < 0 {
		return false
	}
	n, m := leadingInt(a.Op[i+1:]), leadingInt(j)
	if n < 0 || m < 0 || n >= m {
		return false
	}
	for k := 0; k < len(a.Args) && k < len(b.Args); k++ {
		if a.Args[k] != b.Args[k] {
			return false
		}
	}
	return true
}

func leadingInt(s string) int {
	n, ok := 0, false
	for _, c := range s {
		if c < '0' || c > '9' {
			break
		}
		n, ok = n*10+int(c-'0'), true
	}
	if !ok {
		return -1
	}
	return n
}

// headKind classifies constructor applications; different classes never denote the same reference
func headKind(t *Term) string {
	if t == Nil {
		return "nil"
	}
	if t.Kind != KApp {
		return ""
	}
	switch {
	case isAlloc(t):
		return "al"
	case t.Op == "el!":
		return "el"
	case strings.HasPrefix(t.Op, "fa!"), strings.HasPrefix(t.Op, "box!"), strings.HasPrefix(t.Op, "gl!"), strings.HasPrefix(t.Op, "errv!"):
		return t.Op
	case isClo(t):
		return "clo"
	}
	return ""
}

var injective = map[string]bool{}

func isClo(t *Term) bool { return t.Kind == KApp && strings.HasPrefix(t.Op, "clo!") }

func Add(a, b *Term) *Term {
	if a.Kind == KInt && b.Kind == KInt {
		return Int(a.I + b.I)
	}
	if a.Kind == KInt && a.I == 0 {
		return b
	}
	if b.Kind == KInt && b.I == 0 {
		return a
	}
	if a.Kind == KInt {
		a, b = b, a
	}
	// (x + c1) + c2
	if b.Kind == KInt && a.Kind == KOp && a.Op == "+" && a.Args[1].Kind == KInt {
		return Add(a.Args[0], Int(a.Args[1].I+b.I))
	}
	// x + (y + c)
	if b.Kind == KOp && b.Op == "+" && b.Args[1].Kind == KInt {
		return Add(Add(a, b.Args[0]), b.Args[1])
	}
	if a.Kind == KOp && a.Op == "+" && a.Args[1].Kind == KInt && b.Kind != KInt {
		return Add(Add(a.Args[0], b), a.Args[1])
	}
	// x - y + y
	if a.Kind == KOp && a.Op == "-" && a.Args[1] == b {
		return a.Args[0]
	}
	if b.Kind == KOp && b.Op == "-" && b.Args[1] == a {
		return b.Args[0]
	}
	return op("+", SI, a, b)
}

func Sub(a, b *Term) *Term {
	if b.Kind == KInt {
		return Add(a, Int(-b.I))
	}
	if a == b {
		return Zero
	}
	// (x + c) - x
	if a.Kind == KOp && a.Op == "+" {
		if a.Args[0] == b {
			return a.Args[1]
		}
		if a.Args[1] == b {
			return a.Args[0]
		}
		if a.Args[1].Kind == KInt {
			return Add(Sub(a.Args[0], b), a.Args[1])
		}
	}
	return op("-", SI, a, b)
}

func Mul(a, b *Term) *Term {
	if a.Kind == KInt && b.Kind == KInt {
		return Int(a.I * b.I)
	}
	if a.Kind == KInt && a.I == 1 {
		return b
	}
	if b.Kind == KInt && b.I == 1 {
		return a
	}
	return op("*", SI, a, b)
}

func Lt(a, b *Term) *Term { return Not(Le(b, a)) }

func Le(a, b *Term) *Term {
	if a.Kind == KInt && b.Kind == KInt {
		return Bool(a.I <= b.I)
	}
	if a == b {
		return True
	}
	d := Sub(a, b)
	if d.Kind == KInt {
		return Bool(d.I <= 0)
	}
	return op("<=", SB, a, b)
}

func Forall(vs []*Term, body *Term) *Term { return quant(KForall, vs, body) }
func Exists(vs []*Term, body *Term) *Term { return quant(KExists, vs, body) }

func quant(k Kind, vs []*Term, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	body = byLiterals(body, vs)
	if body == True || body == False {
		return body
	}
	var used []*Term
	for _, v := range vs {
		if body.vars[v.Op] {
			used = append(used, v)
		}
	}
	if len(used) == 0 {
		return body
	}
	if body.Kind == k {
		return mk(&Term{Kind: k, Sort: SB, Vars: append(append([]*Term{}, used...), body.Vars...), Args: body.Args})
	}
	return mk(&Term{Kind: k, Sort: SB, Vars: used, Args: []*Term{body}})
}

// byLiterals simplifies the other members of a conjunction (disjunction) under its comparisons of bound variables
func byLiterals(t *Term, vs []*Term) *Term {
	for round := 0; round < 3; round++ {
		if t.Kind != KOp || t.Op != "and" && t.Op != "or" {
			return t
		}
		conj := t.Op == "and"
		members := make([]*Term, 0, len(t.Args))
		for _, a := range t.Args {
			if x := a; x.Kind == KOp && x.Op == "not" && x.Args[0].Kind == KOp && (conj && x.Args[0].Op == "or" || !conj && x.Args[0].Op == "and") {
				for _, y := range x.Args[0].Args {
					members = append(members, Not(y))
				}
				continue
			}
			members = append(members, a)
		}
		facts := map[int]*Term{}
		lit := map[int]bool{}
		for _, a := range members {
			x, pos := a, true
			if x.Kind == KOp && x.Op == "not" {
				x, pos = x.Args[0], false
			}
			if x.Kind != KOp || x.Op != "<=" {
				continue
			}
			for _, v := range vs {
				if x.vars[v.Op] {
					facts[x.id], lit[a.id] = Bool(pos == conj), true
					break
				}
			}
		}
		if len(facts) == 0 {
			return t
		}
		memo := map[int]*Term{}
		var f func(x *Term) *Term
		f = func(x *Term) *Term {
			if r, ok := facts[x.id]; ok {
				return r
			}
			if x.vars == nil || len(x.Args) == 0 || x.Kind == KOp && x.Op == "!pat" {
				return x
			}
			if r, ok := memo[x.id]; ok {
				return r
			}
			as := make([]*Term, len(x.Args))
			same := true
			for i, a := range x.Args {
				as[i] = f(a)
				same = same && as[i] == a
			}
			r := x
			if !same {
				r = rebuild(x, as)
			}
			memo[x.id] = r
			return r
		}
		same := true
		var as []*Term
		for _, a := range members {
			b := a
			if !lit[a.id] {
				b = f(a)
			}
			same = same && a == b
			as = append(as, b)
		}
		if same {
			return t
		}
		if conj {
			t = And(as...)
		} else {
			t = Or(as...)
		}
	}
	return t
}

// Subst replaces variables by name; bound variables never clash because names are unique.
func Subst(t *Term, m map[string]*Term) *Term {
	memo := map[int]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		hit := false
		for v := range t.vars {
			if _, ok := m[v]; ok {
				hit = true
				break
			}
		}
		if !hit {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		var r *Term
		if t.Kind == KVar {
			r = m[t.Op]
		} else {
			as := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				as[i] = f(a)
			}
			r = rebuild(t, as)
		}
		memo[t.id] = r
		return r
	}
	return f(t)
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.Kind {
	case KApp:
		return App(t.Op, t.Sort, as...)
	case KForall:
		return Forall(t.Vars, as[0])
	case KExists:
		return Exists(t.Vars, as[0])
	case KOp:
		switch t.Op {
		case "not":
			return Not(as[0])
		case "and":
			return And(as...)
		case "or":
			return Or(as...)
		case "ite":
			return Ite(as[0], as[1], as[2])
		case "=":
			return Eq(as[0], as[1])
		case "+":
			return Add(as[0], as[1])
		case "-":
			return Sub(as[0], as[1])
		case "*":
			return Mul(as[0], as[1])
		case "<=":
			return Le(as[0], as[1])
		}
		return op(t.Op, t.Sort, as...)
	}
	return t
}

func (t *Term) String() string { return smtTerm(t, nil) }

func sym(n string) string {
	ok := true
	for _, c := range n {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_!.@$-", c)) {
			ok = false
		}
	}
	if ok && n != "" && !(n[0] >= '0' && n[0] <= '9') {
		return n
	}
	return "|" + strings.NewReplacer("|", "!", "\\", "!").Replace(n) + "|"
}

func strName(s string) string { return "str!" + strconv.QuoteToASCII(s) }

func smtTerm(t *Term, names map[int]string) string {
	var b strings.Builder
	var w func(t *Term, top bool)
	w = func(t *Term, top bool) {
		if !top {
			if n, ok := names[t.id]; ok {
				b.WriteString(n)
				return
			}
		}
		switch t.Kind {
		case KInt:
			if t.I < 0 {
				fmt.Fprintf(&b, "(- %d)", -t.I)
			} else {
				fmt.Fprintf(&b, "%d", t.I)
			}
		case KBool:
			if t.I == 1 {
				b.WriteString("true")
			} else {
				b.WriteString("false")
			}
		case KStr:
			b.WriteString(sym(strName(t.Op)))
		case KVar:
			b.WriteString(sym(t.Op))
		case KApp, KOp:
			if t.Op == "!pat" {
				b.WriteString("(! ")
				w(t.Args[0], false)
				b.WriteString(" :pattern (")
				w(t.Args[1], false)
				b.WriteString("))")
				return
			}
			n := t.Op
			if t.Kind == KApp {
				n = sym(n)
			}
			if len(t.Args) == 0 {
				b.WriteString(n)
				return
			}
			b.WriteByte('(')
			b.WriteString(n)
			for _, a := range t.Args {
				b.WriteByte(' ')
				w(a, false)
			}
			b.WriteByte(')')
		case KForall, KExists:
			q := "forall"
			if t.Kind == KExists {
				q = "exists"
			}
			b.WriteString("(" + q + " (")
			for _, v := range t.Vars {
				fmt.Fprintf(&b, "(%s %s)", sym(v.Op), v.Sort.smt())
			}
			b.WriteString(") ")
			if ps := loopPatterns(t); len(ps) > 0 {
				b.WriteString("(! ")
				w(t.Args[0], false)
				for _, p := range ps {
					b.WriteString(" :pattern (")
					w(p, false)
					b.WriteByte(')')
				}
				b.WriteString("))")
				return
			}
			w(t.Args[0], false)
			b.WriteByte(')')
		}
	}
	w(t, true)
	return b.String()
}

// loopPatterns: facts about every iteration of a loop apply wherever something of the iteration is mentioned
func loopPatterns(t *Term) []*Term {
	if t.Kind != KForall || len(t.Vars) != 1 || !strings.HasSuffix(t.Vars[0].Op, ".fin") || t.Args[0].Op == "!pat" {
		return nil
	}
	v := t.Vars[0]
	var out []*Term
	visit([]*Term{t.Args[0]}, func(x *Term) {
		if x.Kind != KApp || len(x.Args) == 0 || !x.vars[v.Op] || len(x.vars) != 1 || len(out) >= 24 {
			return
		}
		for _, a := range x.Args {
			if a != v && (a.vars != nil || a.size > 3 || a.Kind == KOp) {
				return
			}
		}
		out = append(out, x)
	})
	return out
}

// visit calls f once for every distinct subterm
func visit(ts []*Term, f func(*Term)) {
	seen := map[int]bool{}
	var w func(*Term)
	w = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.Args {
			w(a)
		}
		f(t)
	}
	for _, t := range ts {
		w(t)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
