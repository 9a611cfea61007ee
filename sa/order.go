package main

// Order of map iteration: every loop over a map must have the same effect for every order, but for the order
// of the values it appends or sends.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mapLoop examines one range over a map, reporting what depends on the order.
type mapLoop struct {
	P    *Prog
	fn   *ssa.Function
	next *ssa.Next
	rng  *ssa.Range
	in   map[int]bool
	head *ssa.BasicBlock
	rep  func(in ssa.Instruction, text string)
	// a sequence is built in the order of iteration
	seq     bool
	seqVals []ssa.Value
}

func (l *mapLoop) inside(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return ok && in.Block() != nil && l.in[in.Block().Index]
}

// mapLoops lists the loops over maps of a function.
func mapLoops(P *Prog, fn *ssa.Function) []*mapLoop {
	var r []*mapLoop
	fi := fnInfo(fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			nx, ok := in.(*ssa.Next)
			if !ok || nx.IsString {
				continue
			}
			rg, ok := nx.Iter.(*ssa.Range)
			if !ok {
				continue
			}
			l := &mapLoop{P: P, fn: fn, next: nx, rng: rg, head: b, in: fi.loopOf[b.Index]}
			if l.in == nil {
				l.in = map[int]bool{b.Index: true} // a body that always leaves
				// everything dominated by the true branch, up to the exits, counts as the body
				if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
					for _, x := range fn.Blocks {
						if br.Block().Succs[0].Dominates(x) {
							l.in[x.Index] = true
						}
					}
				}
			}
			r = append(r, l)
		}
	}
	return r
}

// acc tells how a value carried round the loop changes, following v back to the loop's start.
type accum struct {
	seen   map[ssa.Value]bool
	consts map[string]bool
	app    bool // appended to
	add    bool // added to
	bad    string
	badAt  ssa.Value
}

func (l *mapLoop) follow(a *accum, ph *ssa.Phi, load func(ssa.Value) bool, v ssa.Value) {
	if a.seen[v] {
		return
	}
	a.seen[v] = true
	fail := func(why string) {
		if a.bad == "" {
			a.bad, a.badAt = why, v
		}
	}
	self := func(x ssa.Value) bool { // does x come from the carried value?
		seen := map[ssa.Value]bool{}
		var f func(x ssa.Value) bool
		f = func(x ssa.Value) bool {
			if seen[x] || !l.inside(x) {
				return false
			}
			seen[x] = true
			if ph != nil && x == ssa.Value(ph) || load != nil && load(x) {
				return true
			}
			switch x := x.(type) {
			case *ssa.Phi:
				for _, e := range x.Edges {
					if f(e) {
						return true
					}
				}
			case *ssa.BinOp:
				return f(x.X) || f(x.Y)
			case *ssa.Call:
				for _, y := range x.Call.Args {
					if f(y) {
						return true
					}
				}
			case *ssa.Extract:
				return f(x.Tuple)
			case *ssa.Slice:
				return f(x.X)
			case *ssa.Convert:
				return f(x.X)
			case *ssa.ChangeType:
				return f(x.X)
			}
			return false
		}
		return f(x)
	}
	if ph != nil && v == ssa.Value(ph) || load != nil && load(v) {
		return
	}
	if !l.inside(v) {
		a.consts[v.Name()+":"+v.String()] = true
		return
	}
	switch v := v.(type) {
	case *ssa.Phi:
		for i, e := range v.Edges {
			if v.Block() == l.head && !l.in[v.Block().Preds[i].Index] {
				continue
			}
			l.follow(a, ph, load, e)
		}
		return
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				a.app = true
				l.follow(a, ph, load, v.Call.Args[0])
				return
			case "min", "max":
				for _, x := range v.Call.Args {
					if self(x) {
						l.follow(a, ph, load, x)
					}
				}
				return
			}
			break
		}
		for _, x := range v.Call.Args {
			if self(x) && types.Identical(x.Type(), v.Type()) {
				if _, ok := v.Type().Underlying().(*types.Slice); ok {
					a.app = true
					l.follow(a, ph, load, x)
					return
				}
			}
		}
	case *ssa.ChangeType:
		l.follow(a, ph, load, v.X)
		return
	case *ssa.BinOp:
		t, _ := v.Type().Underlying().(*types.Basic)
		if t == nil || t.Info()&types.IsInteger == 0 {
			break
		}
		switch v.Op {
		case token.ADD, token.OR, token.AND, token.XOR, token.MUL:
			if self(v.X) != self(v.Y) {
				a.add = true
				if self(v.X) {
					l.follow(a, ph, load, v.X)
				} else {
					l.follow(a, ph, load, v.Y)
				}
				return
			}
		case token.SUB:
			if self(v.X) && !self(v.Y) {
				a.add = true
				l.follow(a, ph, load, v.X)
				return
			}
		}
	}
	// the least or greatest so far
	if ph != nil && v.Referrers() != nil {
		for _, u := range *v.Referrers() {
			if c, ok := u.(*ssa.BinOp); ok && l.inside(c) {
				switch c.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ:
					if c.X == ssa.Value(ph) || c.Y == ssa.Value(ph) {
						return
					}
				}
			}
		}
	}
	fail("is set from the member met last")
}

func (l *mapLoop) judge(a *accum, at ssa.Instruction, what string) {
	switch {
	case a.bad != "":
		l.rep(at, what+" "+a.bad)
	case len(a.consts) > 1 || len(a.consts) == 1 && (a.app || a.add):
		l.rep(at, what+" is set in different ways by different members")
	case a.app:
		l.seq = true
	}
}

func newAccum() *accum { return &accum{seen: map[ssa.Value]bool{}, consts: map[string]bool{}} }

// check reports each effect of the loop that depends on the order of members.
func (l *mapLoop) check() {
	// values carried round the loop
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		a := newAccum()
		for i, e := range ph.Edges {
			if l.in[l.head.Preds[i].Index] {
				l.follow(a, ph, nil, e)
			}
		}
		name := ph.Comment
		if name == "" {
			name = ph.Name()
		}
		l.judge(a, ph, name)
		if a.app {
			l.seqVals = append(l.seqVals, ph)
		}
	}
	// what leaves the loop before its end
	outcomes := map[string]ssa.Instruction{}
	for _, b := range l.fn.Blocks {
		if !l.in[b.Index] {
			continue
		}
		if len(b.Instrs) == 0 {
			continue
		}
		last := b.Instrs[len(b.Instrs)-1]
		if rt, ok := last.(*ssa.Return); ok { // a body that always leaves
			l.outcome(outcomes, rt, b, nil)
		}
		if b == l.head {
			continue
		}
		for _, s := range b.Succs {
			if !l.in[s.Index] {
				l.outcome(outcomes, last, s, b)
			}
		}
	}
	if len(outcomes) > 1 {
		var at ssa.Instruction
		for _, x := range outcomes {
			if at == nil || x.Block().Index < at.Block().Index {
				at = x
			}
		}
		l.rep(at, "the loop ends in different ways according to the member met first")
	}
	for _, b := range l.fn.Blocks {
		if !l.in[b.Index] {
			continue
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				l.store(in)
			case *ssa.MapUpdate:
				l.update(in)
			case *ssa.Send:
				l.seq = true
			}
		}
	}
	if l.seq && l.local() && !l.sorted() {
		l.rep(l.next, "a sequence is built in the order of iteration over a map made here, and not sorted")
	}
}

// outcome notes what happens after leaving the loop for block s from block b.
func (l *mapLoop) outcome(outs map[string]ssa.Instruction, at ssa.Instruction, s, b *ssa.BasicBlock) {
	val := func(v ssa.Value) string {
		if c, ok := v.(*ssa.Const); ok {
			return "const " + c.String()
		}
		if mi, ok := v.(*ssa.MakeInterface); ok {
			if c, ok := mi.X.(*ssa.Const); ok {
				return "const " + c.String() + " of " + mi.Type().String()
			}
		}
		if l.inside(v) {
			l.rep(at, "the result is that of the member met first")
		}
		return v.Name()
	}
	key := ""
	from := b
	for n := 0; n < 8; n++ {
		last := s.Instrs[len(s.Instrs)-1]
		plain := true
		for _, in := range s.Instrs[:len(s.Instrs)-1] {
			switch in := in.(type) {
			case *ssa.Phi:
				for k, p := range s.Preds {
					if p == from {
						key += fmt.Sprintf("phi %s=%s;", in.Name(), val(in.Edges[k]))
						break
					}
				}
			case *ssa.DebugRef, *ssa.MakeInterface, *ssa.RunDefers:
			default:
				plain = false
			}
		}
		if _, ok := last.(*ssa.Panic); ok {
			return
		}
		if rt, ok := last.(*ssa.Return); ok && plain {
			key = "" // only the results count
			for _, v := range rt.Results {
				if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s && from != nil {
					for k, p := range s.Preds {
						if p == from {
							v = ph.Edges[k]
							break
						}
					}
				}
				key += "return " + val(v) + ";"
			}
			break
		}
		if _, ok := last.(*ssa.Jump); ok && plain && key == "" {
			from, s = s, s.Succs[0]
			continue
		}
		key += fmt.Sprintf("block %d", s.Index)
		// values of the loop's body used outside it
		break
	}
	if _, ok := outs[key]; !ok {
		outs[key] = at
	}
	for _, blk := range l.fn.Blocks {
		if l.in[blk.Index] {
			continue
		}
		for _, in := range blk.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if _, ok := in.(*ssa.Return); ok {
				continue // examined above
			}
			for _, op := range in.Operands(nil) {
				if *op != nil && l.inside(*op) {
					if ph, ok := (*op).(*ssa.Phi); ok && ph.Block() == l.head {
						continue
					}
					if (*op).(ssa.Instruction).Block() == l.head {
						continue
					}
					if blk != l.head && s != nil && (blk == s || s.Dominates(blk)) {
						l.rep(in, "what follows uses a value of the member met first")
					}
				}
			}
		}
	}
}

func (l *mapLoop) store(in *ssa.Store) {
	var base ssa.Value = in.Addr
	switch a := in.Addr.(type) {
	case *ssa.IndexAddr:
		if l.inside(a.Index) || l.inside(a.X) {
			if !l.inside(a.X) {
				l.seq = true
				l.seqVals = append(l.seqVals, a.X)
			}
			return
		}
	case *ssa.FieldAddr:
		base = a.X
	}
	if l.inside(base) {
		return // storage of this turn
	}
	same := func(x ssa.Value) bool {
		if x == in.Addr {
			return true
		}
		f, ok := x.(*ssa.FieldAddr)
		g, ok2 := in.Addr.(*ssa.FieldAddr)
		return ok && ok2 && f.X == g.X && f.Field == g.Field
	}
	load := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		return ok && u.Op == token.MUL && same(u.X)
	}
	a := newAccum()
	l.follow(a, nil, load, in.Val)
	l.judge(a, in, "what is stored")
	if a.app {
		l.seqVals = append(l.seqVals, in.Addr)
	}
}

func (l *mapLoop) update(in *ssa.MapUpdate) {
	if l.inside(in.Map) {
		return
	}
	key := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.Extract:
				return x.Tuple == ssa.Value(l.next) && x.Index == 1
			case *ssa.ChangeType:
				v = x.X
				continue
			case *ssa.MakeInterface:
				v = x.X
				continue
			}
			return false
		}
	}
	if key(in.Key) || !l.inside(in.Value) {
		return
	}
	load := func(v ssa.Value) bool {
		if e, ok := v.(*ssa.Extract); ok && e.Index == 0 {
			v = e.Tuple
		}
		k, ok := v.(*ssa.Lookup)
		return ok && k.X == in.Map && k.Index == in.Key
	}
	a := newAccum()
	l.follow(a, nil, load, in.Value)
	l.judge(a, in, "the map's entry")
}

// local: the map is made in this function.
func (l *mapLoop) local() bool {
	seen := map[ssa.Value]bool{}
	var f func(v ssa.Value) bool
	f = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.MakeMap:
			return true
		case *ssa.Phi:
			for _, e := range v.Edges {
				if f(e) {
					return true
				}
			}
		case *ssa.ChangeType:
			return f(v.X)
		case *ssa.UnOp:
			if v.Op == token.MUL && v.X.Referrers() != nil {
				for _, u := range *v.X.Referrers() {
					if s, ok := u.(*ssa.Store); ok && s.Addr == v.X && f(s.Val) {
						return true
					}
				}
			}
		}
		return false
	}
	return f(l.rng.X)
}

// sorted: something in the function is sorted after the loop.
func (l *mapLoop) sorted() bool {
	for _, b := range l.fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || l.in[b.Index] {
				continue
			}
			f := c.Call.StaticCallee()
			if f == nil {
				continue
			}
			n := f.String()
			if o := f.Origin(); o != nil {
				n = o.String()
			}
			if (strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort")) && l.head.Dominates(b) {
				return true
			}
		}
	}
	return false
}

// orderJob applies the rule to every loop over a map in the packages that evaluate.
func orderJob() *Job {
	return &Job{Name: "loops over maps", Run: func(P *Prog, r *Result) {
		for _, fn := range P.fns {
			if p := pkgOf(fn).Path(); strings.Contains(p, "/cmd/") {
				continue
			}
			r.Count["functions searched for loops over maps"]++
			for _, l := range mapLoops(P, fn) {
				l.rep = func(in ssa.Instruction, text string) {
					r.viol("map-order", shortFn(fn), P.instrPos(in), "range over a map: "+text, "the result depends on the order of iteration")
				}
				l.check()
				r.Count["loops over maps examined"]++
			}
		}
	}}
}
