package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const errTag = 1

func (r *Run) bv(p string, s Sort) *Term {
	r.fresh++
	return Var(fmt.Sprintf("%s!%d", p, r.fresh), s)
}

func (r *Run) call(f *Frame, cc *ssa.CallCommon, in ssa.Instruction, g *Term) []Val {
	var args []Val
	for _, a := range cc.Args {
		args = append(args, r.val(f, a))
	}
	var fnv Val
	if _, ok := cc.Value.(*ssa.Builtin); !ok {
		fnv = r.val(f, cc.Value)
	}
	return r.callWith(f, cc, in, fnv, args, g)
}

func (r *Run) callWith(f *Frame, cc *ssa.CallCommon, in ssa.Instruction, fnv Val, args []Val, g *Term) []Val {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return r.builtin(f, b, cc, in, args, g)
	}
	if cc.IsInvoke() {
		return r.invoke(f, cc, in, fnv, args, g)
	}
	if fn, ok := cc.Value.(*ssa.Function); ok {
		return r.callFn(f, fn, args, nil, g, in)
	}
	// function value
	return r.callTerm(f, fnv[0], cc, in, args, g)
}

func (r *Run) callTerm(f *Frame, t *Term, cc *ssa.CallCommon, in ssa.Instruction, args []Val, g *Term) []Val {
	if t.Kind == KOp && t.Op == "ite" {
		c := underBool(t.Args[0], g)
		if c == True {
			return r.callTerm(f, t.Args[1], cc, in, args, g)
		}
		if c == False {
			return r.callTerm(f, t.Args[2], cc, in, args, g)
		}
		a := r.callTerm(f, t.Args[1], cc, in, args, And(g, c))
		b := r.callTerm(f, t.Args[2], cc, in, args, And(g, Not(c)))
		for i := range a {
			a[i] = iteVal(c, a[i], b[i])
		}
		return a
	}
	if t == Nil {
		r.oblige("safety", "call of a nil function", r.where(in), r.safetyTags(), g, False)
		if r.quiet == 0 {
			r.assume(Not(g), "checked")
		}
		var out []Val
		res := cc.Signature().Results()
		for i := 0; i < res.Len(); i++ {
			out = append(out, zeroVal(res.At(i).Type()))
		}
		return out
	}
	clo := r.clos[t.Op]
	if clo == nil || t.Kind != KApp {
		if h := r.eng.fnContract(r, t, cc); h != nil {
			return h(f, args, g, in)
		}
		r.stuck("call of an unknown function value %s", t)
	}
	m := map[string]*Term{}
	for i, x := range clo.idx {
		if i < len(t.Args) && x != t.Args[i] && x.Kind == KVar {
			m[x.Op] = t.Args[i]
		}
	}
	var free []Val
	for _, b := range clo.bind {
		free = append(free, substVal(b, m))
	}
	return r.callFn(f, clo.fn, args, free, g, in)
}

func results(v []Val) Val {
	var o Val
	for _, x := range v {
		o = append(o, x...)
	}
	return o
}

func (r *Run) callFn(f *Frame, fn *ssa.Function, args, free []Val, g *Term, in ssa.Instruction) []Val {
	if v, ok := r.intrinsic(f, fn, args, g, in); ok {
		return v
	}
	limit := noLimit
	if f != nil {
		limit = f.limit
	}
	if r.eng.uninterp[fn] {
		return r.uninterpCall(fn, args)
	}
	if r.quiet == 0 {
		if c := r.eng.contractFor(fn); c != nil {
			return r.apply(c, fn.Signature, args, g, in, shortName(fn))
		}
	}
	if v, ok := r.model(f, fn, args, g, in); ok {
		return v
	}
	if fn.Blocks == nil || !r.eng.inlinable(fn) {
		r.stuck("call of unmodelled function %s", fn)
	}
	return r.inline(fn, args, free, g, limit)
}

func (r *Run) uninterpCall(fn *ssa.Function, args []Val) []Val {
	flat := results(args)
	var out []Val
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		var v Val
		for _, l := range layout(res.At(i).Type()) {
			n := fmt.Sprintf("u!%s.%d%s", fn.Name(), i, l.Path)
			r.eng.unint[n] = fn
			if r.eng.injectiveFn[fn] {
				injective[n] = true
			}
			v = append(v, App(n, l.Sort, flat...))
		}
		out = append(out, v)
	}
	return out
}

func (r *Run) invoke(f *Frame, cc *ssa.CallCommon, in ssa.Instruction, recv Val, args []Val, g *Term) []Val {
	tag, ref := recv[0], recv[1]
	it := cc.Value.Type()
	res := cc.Signature().Results()
	if c := r.eng.ifaceContract(it, cc.Method.Name()); c != nil && r.quiet == 0 {
		if goal := Not(Eq(tag, Zero)); goal != True {
			r.oblige("safety", "method call on a nil interface", r.where(in), r.safetyTags(), g, goal)
		}
		return r.apply(c, cc.Signature(), append([]Val{recv}, args...), g, in, typeName(it)+"."+cc.Method.Name())
	}
	if tag.Kind == KInt {
		if tag.I == 0 {
			r.oblige("safety", "method call on a nil interface", r.where(in), r.safetyTags(), g, False)
			if r.quiet == 0 {
				r.assume(Not(g), "checked")
			}
			var out []Val
			for i := 0; i < res.Len(); i++ {
				out = append(out, zeroVal(res.At(i).Type()))
			}
			return out
		}
		if t := r.eng.tagTypes[int(tag.I)]; t != nil {
			m := r.eng.prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name())
			if m == nil {
				r.stuck("no method %s on %s", cc.Method.Name(), t)
			}
			return r.callFn(f, m, append([]Val{r.unbox(ref, t)}, args...), nil, g, in)
		}
	}
	if tag.Kind == KOp && tag.Op == "ite" {
		c := underBool(tag.Args[0], g)
		pick := func(k int) Val {
			rf := ref
			if ref.Kind == KOp && ref.Op == "ite" && ref.Args[0] == tag.Args[0] {
				rf = ref.Args[k]
			}
			return Val{tag.Args[k], rf}
		}
		if c == True {
			return r.invoke(f, cc, in, pick(1), args, g)
		}
		if c == False {
			return r.invoke(f, cc, in, pick(2), args, g)
		}
		a := r.invoke(f, cc, in, pick(1), args, And(g, c))
		b := r.invoke(f, cc, in, pick(2), args, And(g, Not(c)))
		for i := range a {
			a[i] = iteVal(c, a[i], b[i])
		}
		return a
	}
	if impls, closed := r.eng.closedImpls(it); closed {
		goal := Not(Eq(tag, Zero))
		if !conjSet(g)[goal.id] {
			r.oblige("safety", "method call on a nil interface", r.where(in), r.safetyTags(), g, goal)
			if r.quiet == 0 {
				r.assume(Implies(g, goal), "checked")
			}
		}
		var out []Val
		for i := len(impls) - 1; i >= 0; i-- {
			t := impls[i]
			c := Eq(tag, r.eng.tagOf(t))
			m := r.eng.prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name())
			gg := And(g, c)
			if gg == False {
				continue
			}
			v := r.callFn(f, m, append([]Val{r.unbox(ref, t)}, args...), nil, gg, in)
			if out == nil {
				out = v
			} else {
				for k := range v {
					out[k] = iteVal(c, v[k], out[k])
				}
			}
		}
		return out
	}
	if v, ok := r.invokeModel(f, it, cc, recv, args, g, in); ok {
		return v
	}
	r.stuck("call of %s on an unknown implementation of %s", cc.Method.Name(), it)
	return nil
}

func (r *Run) builtin(f *Frame, b *ssa.Builtin, cc *ssa.CallCommon, in ssa.Instruction, args []Val, g *Term) []Val {
	one := func(t *Term) []Val { return []Val{{t}} }
	switch b.Name() {
	case "len", "cap":
		switch t := cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			if len(args[0]) == 3 {
				if b.Name() == "cap" {
					return one(r.freshTerm("cap", SI))
				}
				return one(args[0][2])
			}
			return one(r.strlen(args[0][0]))
		case *types.Basic:
			return one(r.strlen(args[0][0]))
		case *types.Map:
			n := r.freshTerm("maplen", SI)
			r.assume(Le(Zero, n), "map length")
			return one(n)
		case *types.Array:
			return one(Int(t.Len()))
		}
	case "append":
		return []Val{r.append(cc.Args[0].Type(), args[0], args[1], cc.Args[1].Type(), g)}
	case "copy":
		d, s := args[0], args[1]
		if len(d) != 3 || len(s) != 3 {
			break
		}
		n := Ite(Le(d[2], s[2]), d[2], s[2])
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		lim := r.seq
		r.elemBulk(d[0], et, g, "copy", func(i *Term, k int) (*Term, *Term) {
			rel := Sub(i, d[1])
			pl := r.places(elAddr(s[0], Add(s[1], rel)), et)[k]
			return And(Le(Zero, rel), Lt(rel, n)), r.read(pl.a, pl.keys, g, lim)
		})
		return one(n)
	case "delete":
		mt := cc.Args[0].Type().Underlying().(*types.Map)
		r.mapDelete(args[0][0], mt, args[1], g)
		return nil
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		r.nilCheck(in, g, args[0][0], "nil receiver")
		return []Val{args[0]}
	case "close":
		return nil
	}
	r.stuck("builtin %s", b.Name())
	return nil
}

func (r *Run) strlen(t *Term) *Term {
	if t.Kind == KStr {
		return Int(int64(len(t.Op)))
	}
	return App("strlen", SI, t)
}

// append has value semantics: the result is a new sequence
func (r *Run) append(st types.Type, a, b Val, bt types.Type, g *Term) Val {
	if isByteSlice(st) {
		return Val{cat(a[0], b[0])}
	}
	et := st.Underlying().(*types.Slice).Elem()
	lim := r.seq
	// single element (the usual append(s, v)): b is a slice of a new array of length 1
	single := b[2] == One && b[1] == Zero
	if single {
		elem := r.load(elAddr(b[0], Zero), et, g, noLimit)
		if ai := r.accs[a[0].Op]; ai != nil && a[0].Kind == KApp && a[1] == Zero {
			r.store(elAddr(a[0], a[2]), et, elem, g)
			return Val{a[0], Zero, Add(a[2], One)}
		}
		if a[2] == Zero {
			ref := r.allocRef("ap")
			r.appends[ref.id] = &appendInfo{base: a, elem: elem, elemT: et}
			r.store(elAddr(ref, Zero), et, elem, g)
			return Val{ref, Zero, One}
		}
		ref := r.allocRef("ap")
		r.appends[ref.id] = &appendInfo{base: a, elem: elem, elemT: et}
		r.elemBulk(ref, et, g, "append", func(i *Term, k int) (*Term, *Term) {
			pl := r.places(elAddr(a[0], Add(a[1], i)), et)[k]
			return And(Le(Zero, i), Lt(i, a[2])), r.read(pl.a, pl.keys, g, lim)
		})
		r.store(elAddr(ref, a[2]), et, elem, g)
		return Val{ref, Zero, Add(a[2], One)}
	}
	if b[2] == Zero {
		return a
	}
	ref := r.allocRef("ap")
	r.appends[ref.id] = &appendInfo{base: a, many: true}
	r.elemBulk(ref, et, g, "append", func(i *Term, k int) (*Term, *Term) {
		pa := r.places(elAddr(a[0], Add(a[1], i)), et)[k]
		rel := Sub(i, a[2])
		pb := r.places(elAddr(b[0], Add(b[1], rel)), et)[k]
		return And(Le(Zero, i), Lt(i, Add(a[2], b[2]))), Ite(Lt(i, a[2]), r.read(pa.a, pa.keys, g, lim), r.read(pb.a, pb.keys, g, lim))
	})
	return Val{ref, Zero, Add(a[2], b[2])}
}

// model gives the meaning of functions outside the repository (and of generated code)
func (r *Run) model(f *Frame, fn *ssa.Function, args []Val, g *Term, in ssa.Instruction) ([]Val, bool) {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		pkg = o.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	res := fn.Signature.Results()
	havoc := func() []Val {
		var out []Val
		for i := 0; i < res.Len(); i++ {
			out = append(out, r.freshVal("ext."+fn.Name(), res.At(i).Type()))
		}
		return out
	}
	newErr := func() []Val {
		e := r.freshTerm("err", SR)
		r.assume(Not(Eq(e, Nil)), "new error")
		return []Val{{Int(errTag), e}}
	}
	switch name {
	case "fmt.Errorf", "errors.New":
		return newErr(), true
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		return []Val{{r.format(fn.Name(), args, g)}}, true
	case "fmt.Fprintf":
		if r.fprintf(args, g, in) {
			return havoc(), true
		}
		return nil, false
	case "crypto/sha256.New":
		h := r.allocRef("sha")
		a := r.arr("hash.content", "cell", kR, SS, nil, 0, nil)
		r.write(a, []*Term{h}, Str(""), g)
		return []Val{{Int(shaTag), h}}, true
	case "crypto/sha256.Sum256":
		return nil, false
	case "strings.Contains":
		a, b := args[0][0], args[1][0]
		if a.Kind == KStr && b.Kind == KStr {
			if strings.Contains(a.Op, b.Op) {
				return []Val{{True}}, true
			}
			return []Val{{False}}, true
		}
		if a.Kind == KApp && a.Op == "hex" && b.Kind == KStr && strings.Trim(b.Op, "0123456789abcdef") != "" {
			return []Val{{False}}, true
		}
		return []Val{{App("contains!", SB, a, b)}}, true
	case "encoding/hex.EncodeToString":
		return []Val{{r.injFn("hex", args[0][0])}}, true
	case "(*encoding/base64.Encoding).EncodeToString":
		return []Val{{r.injFn("base64", args[1][0])}}, true
	case "google.golang.org/protobuf/proto.Equal":
		return []Val{{r.protoEqual(args[0], args[1], g, f.limit)}}, true
	case "reflect.DeepEqual":
		return []Val{{r.freshTerm("deepequal", SB)}}, true
	case "google.golang.org/protobuf/types/known/timestamppb.Now":
		v := r.freshVal("now", res.At(0).Type())
		r.assume(Not(Eq(v[0], Nil)), "timestamp")
		return []Val{v}, true
	case "strings.Cut":
		s, sep := args[0][0], args[1][0]
		found := App("cut.found", SB, s, sep)
		return []Val{{Ite(found, App("cut.before", SS, s, sep), s)}, {Ite(found, App("cut.after", SS, s, sep), Str(""))}, {found}}, true
	}
	if strings.HasSuffix(name, ".Validate") && r.eng.isRepo(fn) {
		// generated validation: the only failures it can report are listed in the trusted base
		v := r.freshVal("validate", res.At(0).Type())
		r.validateModel(fn, args[0], v, g, f)
		return []Val{v}, true
	}
	if strings.HasSuffix(name, ").String") && r.eng.isProtoMethod(fn) {
		recv := fn.Signature.Recv().Type()
		t := deref(recv)
		if _, ok := t.Underlying().(*types.Struct); ok {
			content := r.load(args[0][0], t, g, f.limit)
			n := "prototext!" + typeName(t)
			onlyStr := true
			for _, c := range content {
				if c.Sort != SS && c.Sort != SI {
					onlyStr = false
				}
			}
			if onlyStr {
				injective[n] = true
				r.note("the protobuf text form of " + typeName(t) + " is an injective function of its fields")
			}
			return []Val{{App(n, SS, content...)}}, true
		}
		return havoc(), true
	}
	switch pkg {
	case "fmt", "strings", "strconv", "errors", "unicode", "unicode/utf8", "encoding/json", "bytes", "github.com/davecgh/go-spew/spew", "time", "math", "encoding/base64", "encoding/hex", "log", "reflect":
		r.note("calls of " + pkg + " have no effect on the program's data")
		return havoc(), true
	}
	return nil, false
}

const shaTag = 2

func (r *Run) injFn(n string, x *Term) *Term {
	injective[n] = true
	r.note(n + " is injective")
	return App(n, SS, x)
}

func (r *Run) invokeModel(f *Frame, it types.Type, cc *ssa.CallCommon, recv Val, args []Val, g *Term, in ssa.Instruction) ([]Val, bool) {
	res := cc.Signature().Results()
	tn := typeName(it)
	var out []Val
	for i := 0; i < res.Len(); i++ {
		out = append(out, r.freshVal("inv."+cc.Method.Name(), res.At(i).Type()))
	}
	switch tn {
	case "types.Logger":
		r.note("loggers have no effect on the program's data")
		return out, true
	case "error", "fmt.Stringer", "context.Context", "constraints.Ordered":
		return out, true
	case "hash.Hash":
		if cc.Method.Name() == "Sum" {
			a := r.arr("hash.content", "cell", kR, SS, nil, 0, nil)
			return []Val{{r.injFn("sha256", r.read(a, []*Term{recv[1]}, g, noLimit))}}, true
		}
		if cc.Method.Name() == "Write" {
			a := r.arr("hash.content", "cell", kR, SS, nil, 0, nil)
			r.write(a, []*Term{recv[1]}, cat(r.read(a, []*Term{recv[1]}, g, noLimit), args[0][0]), g)
			return out, true
		}
	}
	return nil, false
}

// variadic reads the elements of a ...any argument of known length
func (r *Run) variadic(v Val, g *Term) ([]Val, bool) {
	if v[2].Kind != KInt {
		return nil, false
	}
	et := types.NewInterfaceType(nil, nil)
	var out []Val
	for i := int64(0); i < v[2].I; i++ {
		out = append(out, r.load(elAddr(v[0], Add(v[1], Int(i))), r.eng.anyType(et), g, noLimit))
	}
	return out, true
}

// format: an uninterpreted function of format and arguments; injective when every verb delimits its argument
func (r *Run) format(name string, args []Val, g *Term) *Term {
	if name != "Sprintf" || args[0][0].Kind != KStr {
		return r.freshTerm("fmt", SS)
	}
	fs := args[0][0].Op
	as, ok := r.variadic(args[1], g)
	if !ok {
		return r.freshTerm("fmt", SS)
	}
	var parts []*Term
	for _, a := range as {
		// strings and integers by value, others opaque
		if a[1].Kind == KApp && strings.HasPrefix(a[1].Op, "box!") && len(a[1].Args) == 1 && (a[1].Args[0].Sort == SS || a[1].Args[0].Sort == SI) {
			parts = append(parts, a[1].Args[0])
		} else {
			return r.freshTerm("fmt", SS)
		}
	}
	return r.formatTerm(fs, parts)
}

func (r *Run) formatTerm(fs string, parts []*Term) *Term {
	lit, verbs, ok := splitFormat(fs)
	if !ok || len(verbs) != len(parts) {
		return r.freshTerm("fmt", SS)
	}
	if len(parts) == 0 {
		return Str(lit[0])
	}
	n := "fmt!" + fs
	delimited := true
	for i, v := range verbs {
		switch {
		case v == 'q' && parts[i].Sort == SS:
		case v == 'd' && parts[i].Sort == SI:
			// digits must be followed by something that is not a digit
			if i+1 < len(verbs) && lit[i+1] == "" && verbs[i+1] != 'q' {
				delimited = false
			}
			if len(lit[i+1]) > 0 && lit[i+1][0] >= '0' && lit[i+1][0] <= '9' {
				delimited = false
			}
		default:
			delimited = false
		}
	}
	sorts := ""
	for _, p := range parts {
		sorts += string(p.Sort)
	}
	n += "/" + sorts
	if delimited {
		injective[n] = true
		r.note("formatting with %q and %d is injective in its arguments")
		pre := lit[0]
		if verbs[0] == 'q' {
			pre += "\""
		}
		r.eng.fmts[n] = pre
	}
	return App(n, SS, parts...)
}

func splitFormat(fs string) (lit []string, verbs []byte, ok bool) {
	cur := ""
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			cur += string(fs[i])
			continue
		}
		i++
		if i >= len(fs) {
			return nil, nil, false
		}
		if fs[i] == '%' {
			cur += "%"
			continue
		}
		if !strings.ContainsRune("vqdsx", rune(fs[i])) {
			return nil, nil, false
		}
		lit = append(lit, cur)
		cur = ""
		verbs = append(verbs, fs[i])
	}
	return append(lit, cur), verbs, true
}

// fprintf into a hash
func (r *Run) fprintf(args []Val, g *Term, in ssa.Instruction) bool {
	w := args[0]
	if w[0] != Int(shaTag) {
		return false
	}
	a := r.arr("hash.content", "cell", kR, SS, nil, 0, nil)
	t := r.format("Sprintf", args[1:], g)
	old := r.read(a, []*Term{w[1]}, g, noLimit)
	r.write(a, []*Term{w[1]}, cat(old, t), g)
	return true
}
