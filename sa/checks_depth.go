package main

// C24: how deep calls can nest.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

const maxNesting = 200000

// Calls is a call graph of the repository.
type Calls struct {
	P    *Prog
	next map[*ssa.Function][]*ssa.Function
	site map[[2]*ssa.Function][]ssa.Instruction
	// functions whose address is taken, by signature
	taken map[string][]*ssa.Function
	fns   []*ssa.Function
}

func newCalls(P *Prog, roots ...*ssa.Function) *Calls {
	g := &Calls{P: P, next: map[*ssa.Function][]*ssa.Function{}, site: map[[2]*ssa.Function][]ssa.Instruction{}, taken: map[string][]*ssa.Function{}}
	// everything that may be called through a function value or an interface
	seen := map[*ssa.Function]bool{}
	var all []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		if p := pkgOf(f); p == nil || !strings.HasPrefix(p.Path(), modPath) {
			return
		}
		seen[f] = true
		all = append(all, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if h, ok := (*op).(*ssa.Function); ok {
						add(h)
						if c, ok := in.(ssa.CallInstruction); !ok || c.Common().Value != h {
							k := sigKey(h)
							g.taken[k] = append(g.taken[k], h)
						}
					}
				}
			}
		}
	}
	for _, f := range P.fns {
		add(f)
	}
	for _, p := range P.spkgs {
		if p.Pkg.Path() != specPath {
			add(p.Func("init"))
		}
	}
	for _, f := range all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, h := range g.callees(in, all) {
					g.edge(f, h, in)
				}
			}
		}
	}
	reached := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || reached[f] {
			return
		}
		reached[f] = true
		g.fns = append(g.fns, f)
		for _, h := range g.next[f] {
			walk(h)
		}
	}
	for _, f := range roots {
		walk(f)
	}
	return g
}

func sigKey(f *ssa.Function) string {
	s := f.Signature
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()).String()
}

func (g *Calls) edge(f, h *ssa.Function, in ssa.Instruction) {
	k := [2]*ssa.Function{f, h}
	if g.site[k] == nil {
		g.next[f] = append(g.next[f], h)
	}
	g.site[k] = append(g.site[k], in)
}

// callees gives the functions an instruction may call; those whose address it takes count too.
func (g *Calls) callees(in ssa.Instruction, all []*ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	c, isCall := in.(ssa.CallInstruction)
	for _, op := range in.Operands(nil) {
		if h, ok := (*op).(*ssa.Function); ok && len(h.Blocks) > 0 {
			if isCall && c.Common().Value != h && c.Common().StaticCallee() != nil && g.P.inRepo(c.Common().StaticCallee()) {
				continue // (passed to a function of the repository, which calls it by its signature)
			}
			if _, ok := in.(*ssa.MakeClosure); ok && !deferredOnly(in.(*ssa.MakeClosure)) {
				continue // (called by its signature)
			}
			if !isCall {
				if _, ok := in.(*ssa.MakeClosure); !ok {
					continue
				}
			}
			r = append(r, h)
		}
	}
	if !isCall {
		return r
	}
	cc := c.Common()
	switch {
	case cc.IsInvoke():
		it, _ := cc.Value.Type().Underlying().(*types.Interface)
		for _, f := range all {
			if rv := f.Signature.Recv(); rv != nil && f.Name() == cc.Method.Name() && it != nil && types.Implements(rv.Type(), it) {
				r = append(r, f)
			}
		}
	case cc.StaticCallee() == nil:
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			break
		}
		if s, ok := cc.Value.Type().Underlying().(*types.Signature); ok {
			r = append(r, g.taken[types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()).String()]...)
		}
	default:
		if f := cc.StaticCallee(); !g.P.inRepo(f) {
			// a library function may call the functions it is given
			for _, a := range cc.Args {
				if m, ok := a.(*ssa.MakeClosure); ok {
					r = append(r, m.Fn.(*ssa.Function))
				}
			}
		} else if len(f.Blocks) > 0 {
			r = append(r, f)
		}
	}
	return r
}

func deferredOnly(m *ssa.MakeClosure) bool {
	for _, u := range *m.Referrers() {
		if _, ok := u.(*ssa.Defer); !ok {
			return false
		}
	}
	return true
}

// cyclesOf gives the sets of functions of the graph that call one another.
func (g *Calls) cyclesOf(without map[*ssa.Function]bool) [][]*ssa.Function {
	reach := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range g.fns {
		m := map[*ssa.Function]bool{}
		work := []*ssa.Function{f}
		for len(work) > 0 {
			h := work[len(work)-1]
			work = work[:len(work)-1]
			if without[h] {
				continue
			}
			for _, k := range g.next[h] {
				if !without[k] && !m[k] {
					m[k] = true
					work = append(work, k)
				}
			}
		}
		reach[f] = m
	}
	done := map[*ssa.Function]bool{}
	var out [][]*ssa.Function
	for _, f := range g.fns {
		if done[f] || !reach[f][f] {
			continue
		}
		var set []*ssa.Function
		for _, h := range g.fns {
			if reach[f][h] && reach[h][f] {
				set = append(set, h)
				done[h] = true
			}
		}
		sort.Slice(set, func(i, j int) bool { return fnName(set[i]) < fnName(set[j]) })
		out = append(out, set)
	}
	return out
}

// counterField is a field of a structure that holds a count.
type counterField struct {
	t types.Type // of the structure
	i int
}

func (c counterField) String() string {
	return typeStr(c.t) + "." + c.t.Underlying().(*types.Struct).Field(c.i).Name()
}

// fieldOf gives the field an address stands for.
func fieldOf(v ssa.Value) (counterField, bool) {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return counterField{}, false
	}
	p, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return counterField{}, false
	}
	return counterField{p.Elem(), fa.Field}, true
}

func (c counterField) same(d counterField) bool { return c.i == d.i && types.Identical(c.t, d.t) }

// loadOf gives the field a value was loaded from, and what was added since.
func loadOf(v ssa.Value) (counterField, int64, bool) {
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			f, ok := fieldOf(v.X)
			return f, 0, ok
		}
	case *ssa.BinOp:
		k, ok := v.Y.(*ssa.Const)
		x := v.X
		if !ok && v.Op == token.ADD {
			k, ok = v.X.(*ssa.Const)
			x = v.Y
		}
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
			return counterField{}, 0, false
		}
		n, _ := constant.Int64Val(k.Value)
		f, d, ok := loadOf(x)
		switch {
		case !ok:
		case v.Op == token.ADD:
			return f, d + n, true
		case v.Op == token.SUB:
			return f, d - n, true
		}
	}
	return counterField{}, 0, false
}

// guard describes the check of the depth in a function.
type guard struct {
	field counterField
	check *ssa.If
	limit int64
	ok    *ssa.BasicBlock // where the function goes on
}

// guards finds comparisons of a counter with a constant that end the function by an error.
func (w *ErrFlow) guards(f *ssa.Function) []guard {
	var gs []guard
	for _, b := range f.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, y, op := c.X, c.Y, c.Op
		if _, ok := x.(*ssa.Const); ok {
			x, y = y, x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		}
		k, ok := y.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
			continue
		}
		n, _ := constant.Int64Val(k.Value)
		fd, _, ok := loadOf(x)
		if !ok {
			continue
		}
		deep, fine := b.Succs[0], b.Succs[1]
		switch op {
		case token.GEQ, token.GTR, token.EQL:
		case token.LSS, token.LEQ, token.NEQ:
			deep, fine = fine, deep
		default:
			continue
		}
		fails := true
		w.walk(deep, 0, known{}, nil, func(at ssa.Instruction, why string) { fails = false })
		if fails {
			gs = append(gs, guard{fd, iff, n, fine})
		}
	}
	return gs
}

type depthCheck struct {
	*ErrFlow
	g *Calls
}

// guarded tells whether the calls f makes within the cycle come after a check of the
// depth and an increment, which is taken back only when they have returned.
func (d *depthCheck) guarded(f *ssa.Function, in map[*ssa.Function]bool) (counterField, bool) {
	var calls []ssa.Instruction
	for h := range in {
		for _, s := range d.g.site[[2]*ssa.Function{f, h}] {
			if _, ok := s.(*ssa.Defer); !ok {
				calls = append(calls, s)
			}
		}
	}
	for _, gd := range d.guards(f) {
		if gd.limit <= 0 || gd.limit > maxNesting {
			continue
		}
		var incs, decs []ssa.Instruction
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if a, ok := fieldOf(st.Addr); ok && a.same(gd.field) {
						if l, n, ok := loadOf(st.Val); ok && l.same(gd.field) && n > 0 {
							incs = append(incs, in)
						} else {
							decs = append(decs, in)
						}
					}
				}
			}
		}
		ok := len(incs) == 1
		for _, c := range calls {
			if len(incs) == 0 || !gd.ok.Dominates(c.Block()) || len(gd.ok.Preds) != 1 && gd.ok != c.Block() {
				ok = false
				break
			}
			if i := incs[0]; !(i.Block().Dominates(c.Block()) && (i.Block() != c.Block() || precedes(i, c))) {
				ok = false
			}
		}
		// no call after the count was taken back
		for _, x := range decs {
			b, i := after(x)
			seen := map[*ssa.BasicBlock]bool{}
			var walk func(b *ssa.BasicBlock, i int)
			walk = func(b *ssa.BasicBlock, i int) {
				for ; i < len(b.Instrs); i++ {
					for _, c := range append(append([]ssa.Instruction{}, calls...), decs...) {
						if b.Instrs[i] == c {
							ok = false
						}
					}
				}
				for _, s := range b.Succs {
					if !seen[s] {
						seen[s] = true
						walk(s, 0)
					}
				}
			}
			walk(b, i)
		}
		if ok && d.counted(f, gd.field, len(decs), in) {
			return gd.field, true
		}
	}
	return counterField{}, false
}

// counted tells whether nothing else changes the count.
func (d *depthCheck) counted(f *ssa.Function, c counterField, decs int, in map[*ssa.Function]bool) bool {
	deferred := 0
	for _, h := range d.g.fns {
		if h == f {
			continue
		}
		own := h.Parent() == f
		for _, b := range h.Blocks {
			for _, x := range b.Instrs {
				switch x := x.(type) {
				case *ssa.Store:
					a, ok := fieldOf(x.Addr)
					if !ok || !a.same(c) {
						if p, ok := x.Addr.Type().Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), c.t) && in[h] {
							d.r.viol("unbounded", shortFn(h), d.P.instrPos(x), "the structure with the depth "+c.String()+" is overwritten during the recursion", "")
						}
						continue
					}
					l, n, ok := loadOf(x.Val)
					k, isK := x.Val.(*ssa.Const)
					switch {
					case own && ok && l.same(c) && n == -1 && d.onlyDeferred(f, h):
						deferred++
					case isK && k.Value != nil && constant.Sign(k.Value) >= 0 && !in[h] && !d.from(in, h):
						// (set up before)
					default:
						d.r.viol("unbounded", shortFn(h), d.P.instrPos(x), "the depth "+c.String()+" is changed outside the function that checks it", "")
						return false
					}
				case *ssa.Alloc:
					if types.Identical(x.Type().(*types.Pointer).Elem(), c.t) && (in[h] || d.from(in, h)) {
						d.r.viol("unbounded", shortFn(h), d.P.instrPos(x), "a new "+typeStr(c.t)+" is made during the recursion: its depth begins at zero", "")
						return false
					}
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, x := range b.Instrs {
			if a, ok := x.(*ssa.Alloc); ok && types.Identical(a.Type().(*types.Pointer).Elem(), c.t) {
				return false
			}
		}
	}
	return deferred+min(decs, 1) <= 1
}

// from tells whether h is reached from the functions of a cycle.
func (d *depthCheck) from(in map[*ssa.Function]bool, h *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	for f := range in {
		work = append(work, f)
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, k := range d.g.next[f] {
			if k == h {
				return true
			}
			if !seen[k] {
				seen[k] = true
				work = append(work, k)
			}
		}
	}
	return false
}

// onlyDeferred tells whether the closure h of f is deferred, once and not in a loop.
func (d *depthCheck) onlyDeferred(f, h *ssa.Function) bool {
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			uses := false
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(h) {
					uses = true
				}
			}
			if !uses {
				continue
			}
			switch in := in.(type) {
			case *ssa.MakeClosure:
				if !deferredOnly(in) {
					return false
				}
				n += len(*in.Referrers())
			case *ssa.Defer:
				n++
			default:
				return false
			}
			// (a block that can be reached again from itself is in a loop)
			seen := map[*ssa.BasicBlock]bool{}
			var walk func(x *ssa.BasicBlock)
			walk = func(x *ssa.BasicBlock) {
				for _, s := range x.Succs {
					if !seen[s] {
						seen[s] = true
						walk(s)
					}
				}
			}
			walk(b)
			if seen[b] {
				return false
			}
		}
	}
	return n == 1
}

// ofDocument tells whether a function takes (part of) a document and nothing of an expression.
func (d *depthCheck) ofDocument(f *ssa.Function) bool {
	doc := false
	for p := range f.Signature.Params().Variables() {
		t := p.Type()
		switch u := t.Underlying().(type) {
		case *types.Interface:
			if u.NumMethods() == 0 {
				doc = true
			} else if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/paths" {
				return false
			}
		case *types.Slice:
			if i, ok := u.Elem().Underlying().(*types.Interface); ok && i.NumMethods() == 0 {
				doc = true
			}
		case *types.Map:
			if i, ok := u.Elem().Underlying().(*types.Interface); ok && i.NumMethods() == 0 {
				doc = true
			}
		case *types.Pointer:
			if n, ok := u.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/paths" {
				return false
			}
		}
	}
	return doc
}

func names(fs []*ssa.Function) string {
	var n []string
	for _, f := range fs {
		n = append(n, shortFn(f))
	}
	return strings.Join(n, ", ")
}

func depthJob(what string, roots func(P *Prog) []*ssa.Function, eval bool) *Job {
	return &Job{Name: what, Run: func(P *Prog, r *Result) {
		d := &depthCheck{newErrFlow(P, r), newCalls(P, roots(P)...)}
		r.Count["functions"] += len(d.g.fns)
		for _, f := range d.g.fns {
			r.Fns[shortFn(f)] = true
		}
		gone := map[*ssa.Function]bool{}
		for _, set := range d.g.cyclesOf(nil) {
			r.Count["recursions"]++
			in := map[*ssa.Function]bool{}
			for _, f := range set {
				in[f] = true
			}
			for _, f := range set {
				if c, ok := d.guarded(f, in); ok {
					gone[f] = true
					r.Count["guards of the depth"]++
					_ = c
				}
			}
		}
		left := d.g.cyclesOf(gone)
		if len(left) > 0 && !eval {
			left = settledByArgs(P, r, left)
		}
		for _, set := range left {
			if eval {
				all := true
				for _, f := range set {
					top := f
					for top.Parent() != nil {
						top = top.Parent()
					}
					all = all && (d.ofDocument(f) || d.ofDocument(top))
				}
				if all {
					r.Count["recursions on the document"]++
					continue
				}
			}
			r.viol("unbounded", shortFn(set[0]), P.pos(set[0].Pos()), "recursion without a limit on its depth: "+names(set), fmt.Sprint(len(set), " functions"))
		}
		if eval {
			return
		}
		// no tree is printed on the way
		for _, f := range d.g.fns {
			for _, b := range f.Blocks {
				if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); ok {
					continue
				}
				for _, in := range b.Instrs {
					mi, ok := in.(*ssa.MakeInterface)
					x := ssa.Value(nil)
					if ok {
						x = mi.X
					} else if ci, ok := in.(*ssa.ChangeInterface); ok {
						x = ci.X
					} else {
						continue
					}
					if d.tree(x.Type()) && formatted(in.(ssa.Value)) {
						r.viol("unbounded", shortFn(f), P.instrPos(in), "a tree is formatted, which recurs as deep as it is", typeStr(x.Type()))
					}
				}
			}
		}
	}}
}

// settledByArgs leaves the recursions of the parser that are not bounded by their constant
// arguments: with the calls told apart by them, as the analysis of the parser finds them, no
// call comes back to where it began.
func settledByArgs(P *Prog, r *Result, sets [][]*ssa.Function) [][]*ssa.Function {
	splitInts = map[[2]instance]string{}
	cl := lexClasses(P)
	met := map[*ssa.Function]bool{}
	for _, n := range []string{"zzParsePath", "zzParseScriptExpression"} {
		newParse(P, newResult(), n, cl, nil)
	}
	for e := range splitInts {
		met[e[0].f], met[e[1].f] = true, true
	}
	var left [][]*ssa.Function
	for _, set := range sets {
		in := map[*ssa.Function]bool{}
		ok := true
		for _, f := range set {
			in[f] = true
			ok = ok && met[f]
		}
		next := map[instance][]instance{}
		for e := range splitInts {
			if in[e[0].f] && in[e[1].f] {
				next[e[0]] = append(next[e[0]], e[1])
				ok = ok && e[0].id >= 0 && e[1].id >= 0
			}
		}
		for e := range next {
			seen := map[instance]bool{}
			var walk func(x instance)
			walk = func(x instance) {
				for _, y := range next[x] {
					if !seen[y] {
						seen[y] = true
						walk(y)
					}
				}
			}
			walk(e)
			ok = ok && !seen[e]
		}
		if ok {
			r.Count["recursions bounded by constant arguments"]++
			r.Count["calls with constant arguments"] += len(next)
		} else {
			left = append(left, set)
		}
	}
	return left
}

// tree tells whether values of type t may be trees of expressions.
func (d *depthCheck) tree(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath+"/paths" {
		return false
	}
	switch n.Obj().Name() {
	case "Expr", "Val", "Inner", "Step", "Path", "Slice":
		return true
	}
	return false
}

// formatted tells whether v becomes an argument of a function of package fmt.
func formatted(v ssa.Value) bool {
	for _, u := range *v.Referrers() {
		st, ok := u.(*ssa.Store)
		if !ok {
			continue
		}
		ia, ok := st.Addr.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		a, ok := ia.X.(*ssa.Alloc)
		if !ok {
			continue
		}
		for _, w := range *a.Referrers() {
			sl, ok := w.(*ssa.Slice)
			if !ok {
				continue
			}
			for _, x := range *sl.Referrers() {
				if c, ok := x.(*ssa.Call); ok {
					if f := c.Common().StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "fmt" {
						return true
					}
				}
			}
		}
	}
	return false
}

func init() {
	register(&CheckDef{ID: "C24", Limit: 5 * time.Minute,
		Rule: "in the call graph (static calls, interface methods, function values by signature) from Compile, ParsePath, ParseScriptExpression and mach.Compile, every cycle passes through a function whose calls into the cycle come after a comparison of a depth counter with a constant of at most 200000 (which ends in an error) and its increment; the counter is not changed, taken back early or made anew anywhere else, and no tree is formatted with fmt; from Eval, every other cycle is of functions of document values only.",
		Jobs: func(P *Prog, th bool) []*Job {
			return []*Job{
				depthJob("compiling", func(P *Prog) []*ssa.Function {
					return []*ssa.Function{P.fn("", "Compile"), P.fn("", "MustCompile"), P.fn("paths", "ParsePath"), P.fn("paths", "ParseScriptExpression"), P.fn("mach", "Compile")}
				}, false),
				depthJob("evaluating", func(P *Prog) []*ssa.Function {
					return []*ssa.Function{P.fn("", "*JSONPath.Eval"), P.fn("mach", "*Program.Run")}
				}, true),
			}
		},
		Min: map[string]int{"functions": 60, "recursions": 2, "guards of the depth": 1},
	})
}
