package main

// C22: the jpath command.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type cmdCheck struct {
	*ErrFlow
	fns     []*ssa.Function
	writers map[*ssa.Function]bool // functions that write to standard error
}

func callTo(in ssa.Instruction, names ...string) *ssa.Call {
	c, ok := in.(*ssa.Call)
	if !ok {
		return nil
	}
	f := c.Common().StaticCallee()
	if f == nil {
		return nil
	}
	for _, n := range names {
		if f.String() == n {
			return c
		}
	}
	return nil
}

// usesGlobal tells whether a call is given (what is loaded from) a variable such as os.Stderr.
func usesGlobal(c *ssa.Call, name string) bool {
	var is func(v ssa.Value) bool
	is = func(v ssa.Value) bool {
		switch v := v.(type) {
		case *ssa.UnOp:
			g, ok := v.X.(*ssa.Global)
			return ok && g.String() == name
		case *ssa.MakeInterface:
			return is(v.X)
		case *ssa.ChangeInterface:
			return is(v.X)
		}
		return false
	}
	for _, a := range c.Common().Args {
		if is(a) {
			return true
		}
	}
	return false
}

func isEOF(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	return ok && g.String() == "io.EOF"
}

const (
	decodeFn = "(*encoding/json.Decoder).Decode"
	scanFn   = "(*bufio.Scanner).Scan"
	flushFn  = "(*bufio.Writer).Flush"
)

func (w *cmdCheck) tellsUser(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	if usesGlobal(c, "os.Stderr") {
		return true
	}
	f := c.Common().StaticCallee()
	return f != nil && (w.writers[f] || f.Pkg != nil && f.Pkg.Pkg.Path() == "log")
}

// paths calls bad for each way from instruction i of b that ends, or meets an
// instruction of next, before one of pass. Ends by a non-nil error or a failing exit do not count.
func (w *cmdCheck) paths(b *ssa.BasicBlock, i int, pass, next func(in ssa.Instruction) bool, bad func(at ssa.Instruction)) {
	old := w.stop
	defer func() { w.stop = old }()
	w.stop = func(in ssa.Instruction) bool {
		if pass(in) {
			return true
		}
		if next != nil && next(in) {
			bad(in)
			return true
		}
		return false
	}
	w.walk(b, i, known{}, nil, func(at ssa.Instruction, why string) { bad(at) })
}

func after(in ssa.Instruction) (*ssa.BasicBlock, int) {
	b := in.Block()
	for i, x := range b.Instrs {
		if x == in {
			return b, i + 1
		}
	}
	return b, 0
}

// outcome gives the blocks a test of v leads to.
func outcome(v ssa.Value) (yes, no *ssa.BasicBlock) {
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.If:
			return u.Block().Succs[0], u.Block().Succs[1]
		case *ssa.UnOp:
			if u.Op == token.NOT {
				n, y := outcome(u)
				return y, n
			}
		}
	}
	return nil, nil
}

// success gives where a function goes on when the error of a call is nil.
func (w *cmdCheck) success(c *ssa.Call) (b *ssa.BasicBlock) {
	var ev ssa.Value = c
	if t, ok := c.Type().(*types.Tuple); ok {
		for _, u := range *c.Referrers() {
			if x, ok := u.(*ssa.Extract); ok && x.Index == t.Len()-1 {
				ev = x
			}
		}
	}
	for _, u := range *ev.Referrers() {
		bo, ok := u.(*ssa.BinOp)
		if !ok || !isNilConst(bo.X) && !isNilConst(bo.Y) {
			continue
		}
		yes, no := outcome(bo)
		if bo.Op == token.EQL && yes != nil {
			return yes
		}
		if bo.Op == token.NEQ && no != nil {
			return no
		}
	}
	return nil
}

func (w *cmdCheck) check() {
	r := w.r
	at := func(in ssa.Instruction) string { return w.P.instrPos(in) }
	for changed := true; changed; {
		changed = false
		for _, f := range w.fns {
			if w.writers[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if w.tellsUser(in) {
						w.writers[f] = true
						changed = true
					}
				}
			}
		}
	}
	anyOf := func(names ...string) func(in ssa.Instruction) bool {
		return func(in ssa.Instruction) bool { return callTo(in, names...) != nil }
	}
	reads := anyOf(decodeFn, scanFn)
	for _, f := range w.fns {
		fails := w.neverReturns(f)
		if !fails {
			w.function(f, func(c *ssa.Call) bool {
				g := c.Common().StaticCallee()
				switch {
				case g == nil:
					return false
				case w.alwaysFails(g), w.neverFails(g):
					return true
				case g.String() == "(*os.File).Close":
					return true // (of a file that was only read)
				case usesGlobal(c, "os.Stderr"):
					return true
				}
				return false
			})
		} else {
			r.Fns[shortFn(f)] = true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				nb, ni := after(in)
				switch {
				case callTo(in, "os.Exit") != nil:
					r.Count["exits"]++
					_, fail := isExit(c)
					told, flushed := false, false
					for _, x := range f.Blocks {
						for _, y := range x.Instrs {
							if !x.Dominates(b) || x == b && !precedes(y, in) {
								continue
							}
							told = told || w.tellsUser(y)
							flushed = flushed || callTo(y, flushFn) != nil
						}
					}
					if fail && !told {
						r.viol("silent", shortFn(f), at(in), "the command may fail without a message", "")
					}
					if !fail && !fails {
						r.viol("status", shortFn(f), at(in), "the command may exit with status zero before its end", "")
					}
					if !fail && fails {
						r.viol("status", shortFn(f), at(in), "the command may exit with an unknown status or zero after a failure", "")
					}
					if !flushed && (fails || w.begun(f, in)) {
						r.viol("flush", shortFn(f), at(in), "the command may exit without writing the results there are", "")
					}
				case callTo(in, "bufio.NewWriter", "bufio.NewWriterSize") != nil:
					r.Count["writers"]++
					if f.Name() == "main" {
						w.paths(nb, ni, anyOf(flushFn), nil, func(x ssa.Instruction) {
							r.viol("flush", shortFn(f), at(x), "the command may end without writing its results", "")
						})
					}
				case callTo(in, scanFn) != nil:
					r.Count["reads"]++
					yes, no := outcome(c)
					if yes == nil {
						r.viol("undecided", shortFn(f), at(in), "the result of Scan is not tested", "")
						continue
					}
					w.paths(no, 0, anyOf("(*bufio.Scanner).Err"), nil, func(x ssa.Instruction) {
						r.viol("read-error", shortFn(f), at(in), "the end of the lines is taken for the end of the input without asking for a read error", at(x))
					})
					w.paths(yes, 0, reads, nil, func(x ssa.Instruction) {
						r.viol("unread", shortFn(f), at(in), "the rest of the input may be left unread without an error", at(x))
					})
					w.evaluates(f, in, yes, reads)
				case callTo(in, decodeFn) != nil:
					r.Count["reads"]++
					ok := w.success(c)
					if ok == nil {
						r.viol("undecided", shortFn(f), at(in), "the error of Decode is not compared with nil", "")
						continue
					}
					w.paths(ok, 0, reads, nil, func(x ssa.Instruction) {
						r.viol("unread", shortFn(f), at(in), "the rest of the input may be left unread without an error", at(x))
					})
					w.evaluates(f, in, ok, reads)
				case callTo(in, "(*"+modPath+".JSONPath).Eval") != nil:
					r.Count["evaluations"]++
					ok := w.success(c)
					if ok == nil {
						r.viol("undecided", shortFn(f), at(in), "the error of Eval is not compared with nil", "")
						continue
					}
					written := func(x ssa.Instruction) bool { return w.given(x, c) }
					w.paths(ok, 0, written, reads, func(x ssa.Instruction) {
						r.viol("unwritten", shortFn(f), at(in), "the results of an evaluation may not be written", at(x))
					})
				}
			}
		}
	}
}

// evaluates: what was read at in is evaluated before reading on.
func (w *cmdCheck) evaluates(f *ssa.Function, in ssa.Instruction, from *ssa.BasicBlock, reads func(ssa.Instruction) bool) {
	w.paths(from, 0, func(x ssa.Instruction) bool {
		c, ok := x.(*ssa.Call)
		if !ok {
			return false
		}
		g := c.Common().StaticCallee()
		if g == nil {
			return false
		}
		for _, h := range w.P.reach(g) {
			if h.String() == "(*"+modPath+".JSONPath).Eval" {
				return true
			}
		}
		return false
	}, reads, func(x ssa.Instruction) {
		w.r.viol("skipped", shortFn(f), w.P.instrPos(in), "a value that was read may not be evaluated", w.P.instrPos(x))
	})
}

// given tells whether a call is given the results of another.
func (w *cmdCheck) given(in ssa.Instruction, of *ssa.Call) bool {
	c, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	var from func(v ssa.Value, d int) bool
	from = func(v ssa.Value, d int) bool {
		if d > 8 {
			return false
		}
		switch v := v.(type) {
		case *ssa.Extract:
			return v.Tuple == of && v.Index == 0
		case *ssa.MakeInterface:
			return from(v.X, d+1)
		case *ssa.ChangeType:
			return from(v.X, d+1)
		case *ssa.ChangeInterface:
			return from(v.X, d+1)
		case *ssa.Phi:
			for _, e := range v.Edges {
				if from(e, d+1) {
					return true
				}
			}
		case *ssa.UnOp:
			if a, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
				for _, u := range *a.Referrers() {
					if s, ok := u.(*ssa.Store); ok && s.Addr == a && from(s.Val, d+1) {
						return true
					}
				}
			}
		}
		return false
	}
	if b, ok := c.Common().Value.(*ssa.Builtin); ok && b.Name() == "len" {
		return false
	}
	for _, a := range c.Common().Args {
		if from(a, 0) {
			return true
		}
	}
	return false
}

// begun tells whether the writer of the results may exist by then.
func (w *cmdCheck) begun(f *ssa.Function, in ssa.Instruction) bool {
	if f.Name() != "main" {
		return true
	}
	for _, b := range f.Blocks {
		for _, x := range b.Instrs {
			if callTo(x, "bufio.NewWriter", "bufio.NewWriterSize") != nil {
				nb, ni := after(x)
				hit := false
				w.paths(nb, ni, func(y ssa.Instruction) bool {
					if y == in {
						hit = true
					}
					return hit
				}, nil, func(ssa.Instruction) {})
				if hit {
					return true
				}
			}
		}
	}
	return false
}

func precedes(a, b ssa.Instruction) bool {
	for _, x := range a.Block().Instrs {
		if x == a {
			return x != b
		}
		if x == b {
			return false
		}
	}
	return false
}

func init() {
	register(&CheckDef{ID: "C22",
		Rule: "in package cmd/jpath: on every path after a call that returned an error (other than io.EOF from Decode), the function returns an error or the command exits with a non-zero constant status after a message to standard error; every exit after the output buffer exists, and the end of main, is preceded by Flush; the end of a Scanner's lines is followed by a look at its error; after each value read the reader reads on, and the value is evaluated and its results written before that.",
		Jobs: func(P *Prog, th bool) []*Job {
			return []*Job{{Name: "jpath", Run: func(P *Prog, r *Result) {
				w := &cmdCheck{ErrFlow: newErrFlow(P, r), writers: map[*ssa.Function]bool{}}
				w.exits = true
				w.sentinel = func(c *ssa.Call, v ssa.Value) bool { return callTo(c, decodeFn) != nil && isEOF(v) }
				for _, f := range P.fns {
					if pkgOf(f) != nil && pkgOf(f).Path() == modPath+"/cmd/jpath" {
						w.fns = append(w.fns, f)
					}
				}
				w.check()
			}}}
		},
		Min: map[string]int{"errors followed": 8, "exits": 1, "reads": 1, "evaluations": 1},
	})
}
