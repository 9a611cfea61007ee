package main

// Where errors go: C10 (mach, jsonpath), C11 and C22.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ErrFlow follows errors from the calls that return them.
type ErrFlow struct {
	P     *Prog
	r     *Result
	busy  map[*ssa.Function]bool
	fails map[*ssa.Function]int // 1: every way out is an error or a failing exit; 2: not
	never map[*ssa.Function]int // 1: never returns
	wraps map[string]int
	// handled tells whether branching on a comparison of the error with another value settles it
	sentinel func(call *ssa.Call, v ssa.Value) bool
	// exits: whether the command may stop by a failing exit instead of returning an error
	exits bool
	// stop ends a path at an instruction
	stop func(in ssa.Instruction) bool
}

func newErrFlow(P *Prog, r *Result) *ErrFlow {
	return &ErrFlow{P: P, r: r, busy: map[*ssa.Function]bool{}, fails: map[*ssa.Function]int{}, never: map[*ssa.Function]int{}, wraps: map[string]int{}}
}

var errorT = types.Universe.Lookup("error").Type()

func lastIsError(t types.Type) (int, bool) {
	switch t := t.(type) {
	case *types.Tuple:
		if n := t.Len(); n > 0 && types.Identical(t.At(n-1).Type(), errorT) {
			return n - 1, true
		}
	default:
		return 0, types.Identical(t, errorT)
	}
	return 0, false
}

// isExit recognises os.Exit and tells whether its status is a failure.
func isExit(c ssa.CallInstruction) (exit, fail bool) {
	f := c.Common().StaticCallee()
	if f == nil || f.String() != "os.Exit" {
		return
	}
	if k, ok := c.Common().Args[0].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
		return true, constant.Sign(k.Value) != 0
	}
	return true, false
}

// neverReturns tells whether f always ends by exit or panic.
func (w *ErrFlow) neverReturns(f *ssa.Function) bool {
	if f == nil || len(f.Blocks) == 0 {
		return false
	}
	switch w.never[f] {
	case 1:
		return true
	case 2, 3:
		return false
	}
	w.never[f] = 3
	seen := map[*ssa.BasicBlock]bool{}
	ret := false
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || ret {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Call:
				if e, _ := isExit(in); e {
					return
				}
				if w.neverReturns(in.Common().StaticCallee()) {
					return
				}
			case *ssa.Return:
				ret = true
				return
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(f.Blocks[0])
	if ret {
		w.never[f] = 2
	} else {
		w.never[f] = 1
	}
	return !ret
}

// alwaysFails tells whether every way out of f returns a non-nil error.
func (w *ErrFlow) alwaysFails(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	switch f.String() {
	case "fmt.Errorf", "errors.New":
		return true
	}
	if len(f.Blocks) == 0 {
		return false
	}
	if _, ok := lastIsError(f.Signature.Results()); !ok {
		return false
	}
	switch w.fails[f] {
	case 1:
		return true
	case 2, 3:
		return false
	}
	w.fails[f] = 3
	ok := true
	for _, b := range f.Blocks {
		if rt, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is && !w.isError(rt.Results[len(rt.Results)-1], nil) {
			ok = false
		}
	}
	w.fails[f] = 2
	if ok {
		w.fails[f] = 1
	}
	return ok
}

// known is a set of values known not to be nil (or places holding such).
type known map[ssa.Value]bool

// isError tells whether v is surely a non-nil error.
func (w *ErrFlow) isError(v ssa.Value, k known) bool {
	if k[v] {
		return true
	}
	switch v := v.(type) {
	case *ssa.MakeInterface:
		if _, ok := v.X.(*ssa.Const); ok {
			return true
		}
		switch v.X.Type().Underlying().(type) {
		case *types.Pointer:
			_, ok := v.X.(*ssa.Alloc)
			return ok || k[v.X]
		}
		return true
	case *ssa.ChangeInterface:
		return w.isError(v.X, k)
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL {
			return w.errVar(g)
		}
	case *ssa.Call:
		return w.errCall(v, k)
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return w.errCall(c, k)
		}
	case *ssa.Phi:
		for _, x := range v.Edges {
			if x == v || !w.isError(x, k) {
				return false
			}
		}
		return true
	}
	return false
}

func (w *ErrFlow) errCall(c *ssa.Call, k known) bool {
	f := c.Common().StaticCallee()
	if w.alwaysFails(f) {
		return true
	}
	if f == nil {
		return false
	}
	for i, a := range c.Common().Args {
		if k[a] && types.Identical(a.Type(), errorT) {
			if f.String() == "errors.Join" || w.wrapper(f, i) {
				return true
			}
		}
	}
	return false
}

// wrapper tells whether f returns a non-nil error when its i-th argument is one.
func (w *ErrFlow) wrapper(f *ssa.Function, i int) bool {
	if len(f.Blocks) == 0 || i >= len(f.Params) {
		return false
	}
	if _, ok := lastIsError(f.Signature.Results()); !ok {
		return false
	}
	key := fmt.Sprint(f.String(), " ", i)
	switch w.wraps[key] {
	case 1:
		return true
	case 2, 3:
		return false
	}
	w.wraps[key] = 3
	bad := ""
	w.walk(f.Blocks[0], 0, known{f.Params[i]: true}, nil, func(pos ssa.Instruction, why string) { bad = why })
	w.wraps[key] = 2
	if bad == "" {
		w.wraps[key] = 1
	}
	return bad == ""
}

// errVar tells whether a package variable holds an error set once, at its declaration.
func (w *ErrFlow) errVar(g *ssa.Global) bool {
	if !types.Identical(g.Type().(*types.Pointer).Elem(), errorT) {
		return false
	}
	if g.Pkg == nil || w.P.spkgs[g.Pkg.Pkg.Path()] == nil {
		return strings.HasPrefix(g.Name(), "Err") || g.Name() == "EOF"
	}
	n := 0
	fns := append([]*ssa.Function{}, w.P.fns...)
	if in := g.Pkg.Func("init"); in != nil {
		fns = append(fns, in)
	}
	seen := map[*ssa.Function]bool{}
	for _, f := range fns {
		if seen[f] {
			continue
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == g {
					n++
					if f.Name() != "init" || !w.isError(st.Val, nil) {
						return false
					}
				}
			}
		}
	}
	return n == 1
}

// walk goes along all paths from instruction i of b on, on which the values of k are not
// nil, and calls bad where the function is left without an error.
func (w *ErrFlow) walk(b *ssa.BasicBlock, i int, k known, call *ssa.Call, bad func(at ssa.Instruction, why string)) {
	type visit struct {
		b *ssa.BasicBlock
		k string
	}
	seen := map[visit]bool{}
	keyOf := func(k known) string {
		var n []string
		for _, b := range b.Parent().Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok && k[v] {
					n = append(n, v.Name())
				}
			}
		}
		return strings.Join(n, ",")
	}
	var block func(b *ssa.BasicBlock, i int, k known)
	edge := func(from, to *ssa.BasicBlock, k known) {
		n := known{}
		for v := range k {
			n[v] = true
		}
		p := 0
		for j, x := range to.Preds {
			if x == from {
				p = j
			}
		}
		for _, in := range to.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			delete(n, phi)
			if w.isError(phi.Edges[p], k) {
				n[phi] = true
			}
		}
		v := visit{to, keyOf(n)}
		if seen[v] {
			return
		}
		seen[v] = true
		block(to, 0, n)
	}
	block = func(b *ssa.BasicBlock, i int, k known) {
		for ; i < len(b.Instrs); i++ {
			if w.stop != nil && w.stop(b.Instrs[i]) {
				return
			}
			switch in := b.Instrs[i].(type) {
			case *ssa.Phi:
			case *ssa.Call:
				delete(k, in)
				if e, fail := isExit(in); e {
					if !fail {
						bad(in, "the command may exit successfully although an error was found")
					} else if !w.exits {
						bad(in, "the process exits")
					}
					return
				}
				if w.neverReturns(in.Common().StaticCallee()) {
					if w.exits {
						return // (how it exits is looked at where it does)
					}
					return
				}
				if w.isError(in, k) {
					k[in] = true
				}
			case *ssa.Store:
				if w.isError(in.Val, k) {
					k[in.Addr] = true
				} else {
					delete(k, in.Addr)
				}
			case *ssa.UnOp:
				delete(k, in)
				if in.Op == token.MUL && k[in.X] {
					k[in] = true
				}
			case *ssa.Return:
				n := len(in.Results)
				if _, ok := lastIsError(b.Parent().Signature.Results()); !ok {
					bad(in, "the function is left although an error was found")
				} else if !w.isError(in.Results[n-1], k) {
					bad(in, "the function may return no error although one was found")
				}
				return
			case *ssa.Panic:
				return
			case *ssa.If:
				t, f := true, true
				var learn ssa.Value // what is not nil on one of the edges
				onT := false
				switch c := in.Cond.(type) {
				case *ssa.BinOp:
					x, y := c.X, c.Y
					if isNilConst(x) {
						x, y = y, x
					}
					if k[x] && isNilConst(y) {
						if c.Op == token.EQL {
							t = false
						} else if c.Op == token.NEQ {
							f = false
						}
					} else if isNilConst(y) && types.Identical(x.Type(), errorT) && (c.Op == token.EQL || c.Op == token.NEQ) {
						learn, onT = x, c.Op == token.NEQ
					} else if call != nil && w.sentinel != nil {
						for _, xy := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
							if k[xy[0]] && w.sentinel(call, xy[1]) {
								if c.Op == token.EQL {
									t = false
								} else if c.Op == token.NEQ {
									f = false
								}
							}
						}
					}
				case *ssa.Call:
					if g := c.Common().StaticCallee(); g != nil && g.String() == "errors.Is" && call != nil && w.sentinel != nil && k[c.Common().Args[0]] && w.sentinel(call, c.Common().Args[1]) {
						t = false
					}
				case *ssa.UnOp:
					if g, ok := c.X.(*ssa.Call); ok && c.Op == token.NOT {
						if h := g.Common().StaticCallee(); h != nil && h.String() == "errors.Is" && call != nil && w.sentinel != nil && k[g.Common().Args[0]] && w.sentinel(call, g.Common().Args[1]) {
							f = false
						}
					}
				}
				with := func(on bool) known {
					if learn == nil || on != onT {
						return k
					}
					n := known{learn: true}
					for v := range k {
						n[v] = true
					}
					return n
				}
				if t {
					edge(b, b.Succs[0], with(true))
				}
				if f {
					edge(b, b.Succs[1], with(false))
				}
				return
			default:
				if v, ok := in.(ssa.Value); ok {
					delete(k, v)
					if w.isError(v, k) {
						k[v] = true
					}
				}
			}
		}
		for _, s := range b.Succs {
			edge(b, s, k)
		}
	}
	n := known{}
	for v := range k {
		n[v] = true
	}
	block(b, i, n)
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// function checks every call of f that returns an error.
func (w *ErrFlow) function(f *ssa.Function, exempt func(c *ssa.Call) bool) {
	for _, b := range f.Blocks {
		for i, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				if _, is := lastIsError(d.Common().Signature().Results()); is {
					// the error of a deferred call is lost
					c := d.Common().StaticCallee()
					if c == nil || c.Name() != "Close" {
						w.r.viol("dropped", shortFn(f), w.P.instrPos(in), "the error of a deferred call is lost", calleeName(d))
					}
				}
				continue
			}
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			n, is := lastIsError(resultsOf(c))
			if !is || exempt != nil && exempt(c) {
				continue
			}
			w.r.Count["errors followed"]++
			k := known{}
			var ev ssa.Value
			if _, tup := c.Type().(*types.Tuple); !tup {
				ev = c
			} else {
				for _, u := range *c.Referrers() {
					if x, ok := u.(*ssa.Extract); ok && x.Index == n {
						ev = x
					}
				}
			}
			if ev == nil || ev.Referrers() == nil || len(*ev.Referrers()) == 0 {
				w.r.viol("dropped", shortFn(f), w.P.instrPos(in), "the error of "+calleeName(c)+" is not looked at", "")
				continue
			}
			k[ev] = true
			// (start after the extraction, which would otherwise take it for something new)
			sb, si := b, i+1
			if x, ok := ev.(*ssa.Extract); ok && x.Block() == b {
				for j, y := range b.Instrs {
					if y == ssa.Instruction(x) {
						si = j + 1
					}
				}
			}
			w.walk(sb, si, k, c, func(at ssa.Instruction, why string) {
				w.r.viol("dropped", shortFn(f), w.P.instrPos(in), "the error of "+calleeName(c)+" may be lost: "+why, w.P.instrPos(at))
			})
		}
	}
	w.r.Fns[shortFn(f)] = true
}

func resultsOf(c *ssa.Call) types.Type {
	if t, ok := c.Type().(*types.Tuple); ok {
		return t
	}
	return c.Type()
}

func calleeName(c ssa.CallInstruction) string {
	if f := c.Common().StaticCallee(); f != nil {
		return shortFn(f)
	}
	if c.Common().IsInvoke() {
		return c.Common().Method.Name()
	}
	return c.Common().Value.Name()
}

// reach gives the functions of the repository reachable from f by static calls and closures.
func (P *Prog) reach(f *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || !P.inRepo(f) {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						walk(g)
					}
				}
			}
		}
	}
	walk(f)
	return out
}

// errorJobs follows the errors of the code generator and of Compile.
func errorJobs(id string) []*Job {
	return []*Job{{Name: "errors of the code generator", Run: func(P *Prog, r *Result) {
		w := newErrFlow(P, r)
		fns := map[*ssa.Function]bool{}
		for _, f := range P.reach(P.fn("mach", "Compile")) {
			if pkgOf(f).Path() == modPath+"/mach" {
				fns[f] = true
			}
		}
		if f := P.fn("", "Compile"); f != nil {
			fns[f] = true
		}
		for _, f := range P.fns {
			if fns[f] {
				w.function(f, func(c *ssa.Call) bool {
					g := c.Common().StaticCallee()
					return w.alwaysFails(g) || g != nil && w.neverFails(g)
				})
			}
		}
	}}}
}

// neverFails: functions documented never to return an error.
func (w *ErrFlow) neverFails(f *ssa.Function) bool {
	switch n := f.String(); {
	case strings.HasPrefix(n, "(*strings.Builder).Write"), strings.HasPrefix(n, "(*bytes.Buffer).Write"):
		return true
	}
	return false
}
