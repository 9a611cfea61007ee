package main

// Abstract semantics of SSA instructions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) get(st *State, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Global:
		return Ptr{O: e.globalObj(v)}
	case *ssa.Function:
		return Fn{F: v}
	case *ssa.Builtin:
		return Fn{B: v.Name()}
	}
	if x, ok := st.regs[v]; ok {
		return x
	}
	return Top{v.Type()}
}

func (e *Engine) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	switch {
	case isBoolT(t):
		return cBool(constant.BoolVal(c.Value))
	case isInt(t):
		if k, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return cInt(k)
		}
		return Lin{freshInt("bigconst", minI, maxI), 0}
	case isFlt(t):
		f, _ := constant.Float64Val(c.Value)
		return fltConst(f)
	case isStr(t):
		return strConst(constant.StringVal(c.Value))
	}
	if isIface(t) {
		return Top{t}
	}
	return Top{t}
}

func (e *Engine) set(st *State, v ssa.Value, x Value) []*State {
	st.regs[v] = x
	return []*State{st}
}

// needsConcrete lists the operands that must not be a choice of alternatives.
func needsConcrete(in ssa.Instruction) []ssa.Value {
	switch in := in.(type) {
	case *ssa.UnOp:
		return []ssa.Value{in.X}
	case *ssa.BinOp:
		return []ssa.Value{in.X, in.Y}
	case *ssa.Store:
		return []ssa.Value{in.Addr}
	case *ssa.FieldAddr:
		return []ssa.Value{in.X}
	case *ssa.Field:
		return []ssa.Value{in.X}
	case *ssa.IndexAddr:
		return []ssa.Value{in.X, in.Index}
	case *ssa.Index:
		return []ssa.Value{in.X, in.Index}
	case *ssa.Lookup:
		return []ssa.Value{in.X, in.Index}
	case *ssa.Slice:
		return []ssa.Value{in.X}
	case *ssa.MapUpdate:
		return []ssa.Value{in.Map, in.Key}
	case *ssa.TypeAssert:
		return []ssa.Value{in.X}
	case *ssa.Range:
		return []ssa.Value{in.X}
	case *ssa.Next:
		return []ssa.Value{in.Iter}
	case *ssa.Send:
		return []ssa.Value{in.Chan}
	case *ssa.Convert:
		return []ssa.Value{in.X}
	case *ssa.ChangeInterface:
		return nil
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				return in.Call.Args[:1]
			case "print", "println":
				return nil
			}
			return in.Call.Args
		}
		return []ssa.Value{in.Call.Value}
	case *ssa.Go:
		return []ssa.Value{in.Call.Value}
	case *ssa.Defer:
		return []ssa.Value{in.Call.Value}
	case *ssa.SliceToArrayPointer:
		return []ssa.Value{in.X}
	}
	return nil
}

// chose notes that v, one of several alternatives, is the one: a slice's length is within its capacity.
func (s *State) chose(v Value) {
	if i, ok := v.(Ifc); ok {
		v = i.V
	}
	if x, ok := v.(Slc); ok {
		s.addDiff(x.Len, x.Cap, 0)
	}
}

func (e *Engine) step(fr *Frame, st *State, in ssa.Instruction) []*State {
	for _, op := range needsConcrete(in) {
		if op == nil {
			continue
		}
		if u, ok := st.regs[op].(Uni); ok {
			var out []*State
			for _, a := range u.A {
				s := st.clone()
				s.regs[op] = a
				if s.chose(a); s.bot {
					continue
				}
				out = append(out, e.step(fr, s, in)...)
			}
			return out
		}
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		return e.alloc(fr, st, in)
	case *ssa.UnOp:
		return e.unop(fr, st, in)
	case *ssa.BinOp:
		return e.binop(fr, st, in)
	case *ssa.Store:
		p, ok := e.get(st, in.Addr).(Ptr)
		if !ok {
			e.derefCheck(fr, st, in, e.get(st, in.Addr))
			return nil
		}
		v := e.get(st, in.Val)
		if e.nodes != nil {
			e.nodes.store(st, in, p, v)
		}
		if e.onStore != nil {
			e.onStore(e, fr, st, in, p, v)
		}
		return e.store(fr, st, in, p, v)
	case *ssa.FieldAddr:
		x := e.get(st, in.X)
		if t, ok := x.(Top); ok {
			_ = t
			return e.set(st, in, Top{in.Type()})
		}
		p, ok := x.(Ptr)
		if !ok {
			e.derefCheck(fr, st, in, x)
			return nil
		}
		return e.set(st, in, Ptr{p.O, append(append([]PE{}, p.Path...), PE{F: in.Field})})
	case *ssa.Field:
		switch x := e.get(st, in.X).(type) {
		case Strct:
			return e.set(st, in, x.F[in.Field])
		}
		return e.set(st, in, e.topVal("field", in.Type()))
	case *ssa.IndexAddr:
		return e.indexAddr(fr, st, in)
	case *ssa.Index:
		return e.index(fr, st, in)
	case *ssa.Lookup:
		return e.lookup(fr, st, in)
	case *ssa.Slice:
		return e.slice(fr, st, in)
	case *ssa.MakeSlice:
		return e.makeSlice(fr, st, in)
	case *ssa.MakeMap:
		o := e.newObj(fr, st, in, &Obj{kind: 'm', typ: in.Type()})
		return e.set(st, in, MapV{o})
	case *ssa.MakeChan:
		sz := toLin2(e.get(st, in.Size))
		x := &Obj{kind: 'h', typ: in.Type(), qok: true}
		if k, ok := st.cval(sz); !ok || k != 0 {
			x.ch.Buf = true
		}
		o := e.newObj(fr, st, in, x)
		return e.set(st, in, ChanV{o})
	case *ssa.MakeClosure:
		var free []Value
		for _, b := range in.Bindings {
			free = append(free, e.get(st, b))
		}
		return e.set(st, in, Fn{F: in.Fn.(*ssa.Function), Free: free})
	case *ssa.MakeInterface:
		if e.nodes != nil {
			if v, ok := e.nodes.iface(st, in.Type(), in.X.Type(), e.get(st, in.X)); ok {
				return e.set(st, in, v)
			}
		}
		return e.set(st, in, e.makeIface(st, in.X.Type(), e.get(st, in.X)))
	case *ssa.ChangeInterface:
		return e.set(st, in, e.get(st, in.X))
	case *ssa.ChangeType:
		return e.set(st, in, e.get(st, in.X))
	case *ssa.Convert:
		return e.set(st, in, e.convert(fr, st, in, e.get(st, in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		e.unsupported(fr, in, "type-parameter conversion")
		return e.set(st, in, e.topVal("conv", in.Type()))
	case *ssa.TypeAssert:
		return e.typeAssert(fr, st, in)
	case *ssa.Extract:
		switch t := e.get(st, in.Tuple).(type) {
		case Tup:
			return e.set(st, in, t.V[in.Index])
		case Uni:
			var out []*State
			for _, a := range t.A {
				s := st.clone()
				s.regs[in.Tuple] = a
				out = append(out, e.step(fr, s, in)...)
			}
			return out
		}
		return e.set(st, in, e.topVal("extract", in.Type()))
	case *ssa.Call:
		return e.call(fr, st, in, &in.Call, in)
	case *ssa.Defer:
		d := deferred{site: in, call: &in.Call}
		if in.Call.IsInvoke() {
			d.fn = e.get(st, in.Call.Value)
		} else {
			d.fn = e.get(st, in.Call.Value)
		}
		for _, a := range in.Call.Args {
			d.args = append(d.args, e.get(st, a))
		}
		st.dfr = append(st.dfr, d)
		if len(st.dfr) > 40 {
			panic(tooMuch{"deferred calls in a loop of " + shortFn(fr.fn)})
		}
		return []*State{st}
	case *ssa.RunDefers:
		return e.runDefers(fr, st)
	case *ssa.Go:
		return e.goStmt(fr, st, in)
	case *ssa.Send:
		return e.send(fr, st, in)
	case *ssa.Range:
		x := e.get(st, in.X)
		if m, ok := x.(MapV); ok && !m.O.isVirt() {
			if y := e.obj(st, m.O); y != nil && y.flags&flDoc != 0 && y.mk == nil && !y.many && len(y.ents) <= 3 {
				// the members of a document's object, in every order
				var out []*State
				for _, p := range permutations(len(y.ents)) {
					t := st.clone()
					var l []Value
					for _, i := range p {
						l = append(l, y.ents[i].K, y.ents[i].V)
					}
					o := e.newObj(fr, t, in, &Obj{kind: 'i', typ: in.X.Type(), val: Tup{l}})
					out = append(out, e.set(t, in, Ptr{O: o})...)
				}
				return out
			}
		}
		o := e.newObj(fr, st, in, &Obj{kind: 'i', typ: in.X.Type(), val: x})
		return e.set(st, in, Ptr{O: o})
	case *ssa.Next:
		return e.next(fr, st, in)
	case *ssa.MapUpdate:
		return e.mapUpdate(fr, st, in)
	case *ssa.Select:
		return e.selectStmt(fr, st, in)
	case *ssa.SliceToArrayPointer:
		e.unsupported(fr, in, "slice to array conversion")
		return e.set(st, in, Top{in.Type()})
	}
	e.unsupported(fr, in, fmt.Sprintf("%T", in))
	if v, ok := in.(ssa.Value); ok {
		return e.set(st, v, e.topVal("unsupported", v.Type()))
	}
	return []*State{st}
}

func toLin2(v Value) Lin {
	switch v := v.(type) {
	case Lin:
		return v
	case Bl:
		return toLin(v)
	case Bits:
		return Lin{term(KInt, "bits", 0, maxI, v), 0}
	}
	return Lin{freshInt("unk", minI, maxI), 0}
}

// derefCheck reports a dereference of something that is not certainly a pointer to storage.
func (e *Engine) derefCheck(fr *Frame, st *State, in ssa.Instruction, v Value) {
	switch v.(type) {
	case Nil:
		e.oblige("nil", fr, st, in, false, "dereference", func() string { return "the pointer may be nil" })
	default:
		e.oblige("nil", fr, st, in, false, "dereference", func() string { return "nothing is known about the pointer (" + vStr(v) + ")" })
	}
}

// ---- storage ----

func (e *Engine) newObj(fr *Frame, st *State, in ssa.Instruction, x *Obj) ObjID {
	n := ObjName{site: siteName(in)}
	if e.concrete {
		for e.obj(st, objID(n)) != nil {
			n.gen++
		}
	}
	o := objID(n)
	e.placeObj(st, o, x)
	if e.initing {
		x.flags |= flGlobal
	}
	if e.onAlloc != nil {
		e.onAlloc(e, fr, st, in, o)
	}
	return o
}

// placeObj puts a new object under name o, ageing the one that had it.
func (e *Engine) placeObj(st *State, o ObjID, x *Obj) {
	if e.obj(st, o) != nil {
		e.age(st, o)
	}
	st.heap.set(o, x)
}

func oldName(o ObjID) ObjID {
	n := objtab[o]
	n.old = true
	return objID(n)
}

// age turns the most recent object of a site into one of the older ones.
func (e *Engine) age(st *State, o ObjID) {
	cur := st.obj(o)
	if cur == nil {
		return
	}
	// only when something still refers to it
	old := oldName(o)
	ref := false
	chk := func(v Value) { forObjs(v, func(q ObjID) { ref = ref || q == o }) }
	for _, v := range st.regs {
		chk(v)
	}
	for _, v := range st.gh.m {
		chk(v)
	}
	for _, d := range st.dfr {
		chk(d.fn)
		for _, a := range d.args {
			chk(a)
		}
	}
	if !ref {
		for q, x := range st.heap.m {
			if q != o {
				x.forVals(chk)
			}
		}
	}
	if !ref && cur.flags&flInput == 0 {
		st.heap.del(o)
		return
	}
	m := &Mapper{Obj: func(q ObjID) ObjID {
		if q == o {
			return old
		}
		return q
	}}
	e.renameObjs(st, m)
	cur = st.obj(o)
	st.heap.del(o)
	if prev := st.obj(old); prev != nil {
		st.heap.set(old, e.mergeObj(st, prev, cur))
	} else {
		n := cur.copy()
		st.heap.set(old, n)
	}
}

// renameObjs applies an object renaming to the whole state.
func (e *Engine) renameObjs(st *State, m *Mapper) {
	for r, v := range st.regs {
		st.regs[r] = m.val(v)
	}
	for g, v := range mapCopy(st.gh.m) {
		st.gh.set(g, m.val(v))
	}
	for q, x := range mapCopy(st.heap.m) {
		hit := false
		x.forVals(func(v Value) {
			forObjs(v, func(o ObjID) {
				if m.Obj(o) != o {
					hit = true
				}
			})
		})
		if hit {
			st.heap.set(q, x.mapVals(m))
		}
	}
	for i := range st.dfr {
		st.dfr[i].fn = m.val(st.dfr[i].fn)
		st.dfr[i].args = m.vals(st.dfr[i].args)
	}
}

// mergeObj joins two objects of one state into a summary.
func (e *Engine) mergeObj(st *State, a, b *Obj) *Obj {
	j := newJoiner(st, st, false)
	j.generic = true
	a2 := a.copy()
	a2.many = true
	n := j.joinObj(a2, b)
	n.many = true
	// facts of new symbols
	j.R.heap.set(1, n)
	j.facts()
	e.addFacts(st, j.R, nil)
	return n
}

// weakVal joins two values of one state (the result stands for either).
func (e *Engine) weakVal(st *State, a, b Value, generic bool) Value {
	return weakVal(st, a, b, generic)
}

func weakVal(st *State, a, b Value, generic bool) Value {
	if a == nil {
		return b
	}
	if b == nil || sameVal(a, b) {
		return a
	}
	j := newJoiner(st, st, false)
	j.generic = generic
	v := j.val(a, b)
	j.R.gh.set("v", v)
	j.facts()
	addFacts(st, j.R, nil)
	return v
}

// addFacts adds the facts of r (selected by skip) to st.
func (e *Engine) addFacts(st, r *State, m *Mapper) { addFacts(st, r, m) }

func addFacts(st, r *State, m *Mapper) {
	mv := func(v Value) Value {
		if m == nil {
			return v
		}
		return m.val(v)
	}
	for s, x := range r.rng.m {
		st.meetLin(toLin(mv(Lin{s, 0})), x)
		if st.bot {
			return
		}
	}
	for k, c := range r.zone.m {
		x, y := Lin{}, Lin{}
		if k.a != 0 {
			x = toLin(mv(Lin{k.a, 0}))
		}
		if k.b != 0 {
			y = toLin(mv(Lin{k.b, 0}))
		}
		st.addDiff(x, y, c)
		if st.bot {
			return
		}
	}
	for s, f := range r.fm.m {
		st.fmeet(mv(Flt{s}).(Flt).S, f)
	}
	for k, f := range r.fc.m {
		st.fcmpMeet(mv(Flt{k.a}).(Flt).S, mv(Flt{k.b}).(Flt).S, f)
	}
	for s, f := range r.sf.m {
		st.strMeet(mv(Str{s}).(Str).S, f)
	}
	for s, f := range r.tm.m {
		switch o := mv(Opq{s}).(type) {
		case Opq:
			st.tmMeet(o.S, f)
		case Ifc:
			if f&typeBit(o.T) == 0 {
				st.bot = true
			}
		case Nil:
			if f&1 == 0 {
				st.bot = true
			}
		}
	}
}

func (e *Engine) alloc(fr *Frame, st *State, in *ssa.Alloc) []*State {
	t := in.Type().(*types.Pointer).Elem()
	o := e.newObj(fr, st, in, e.newObjOf(t))
	return e.set(st, in, Ptr{O: o})
}

// elemAt reads element i of array object o; several states when the index may meet known cells.
func (e *Engine) elemAt(st *State, o ObjID, i Lin, f func(*State, Value) []*State) []*State {
	if o.isVirt() {
		n := o.name()
		return f(st, opqTermV("oe", n.virt, []Value{i}))
	}
	x := e.obj(st, o)
	if x == nil {
		return f(st, Top{types.Typ[types.Int]})
	}
	if x.many {
		v := e.unzone(st, x).def
		for _, c := range x.cells {
			v = e.weakVal(st, v, c.V, true)
		}
		if v == nil {
			return nil
		}
		return f(st, inst(st, v))
	}
	for _, c := range x.cells {
		if c.I == i {
			return f(st, c.V)
		}
		if c.I.B == i.B {
			continue
		}
	}
	var out []*State
	rest := st
	for _, c := range x.cells {
		d1, d2 := rest.diffL(c.I, i), rest.diffL(i, c.I)
		if d1 == 0 && d2 == 0 {
			s := rest
			return append(out, f(s, c.V)...)
		}
		if d1 < 0 || d2 < 0 {
			continue
		}
		t := rest.clone()
		t.eqLin(c.I, i)
		if !t.bot {
			out = append(out, f(t, c.V)...)
		}
		rest = rest.clone()
		rest.neLin(c.I, i)
		if rest.bot {
			return out
		}
	}
	if z := x.z; z != nil && !rest.lt(i, z.lo) && !rest.leq(z.hi, i) {
		t := rest.clone()
		t.addDiff(z.lo, i, 0)
		t.addDiff(i, z.hi, -1)
		if !t.bot {
			out = append(out, f(t, z.v)...)
		}
	}
	if x.def == nil {
		return out
	}
	return append(out, f(rest, inst(rest, x.def))...)
}

// getPath follows struct fields (and constant indices) into a value.
func (e *Engine) getPath(st *State, v Value, path []PE) Value {
	for _, p := range path {
		s, ok := v.(Strct)
		if !ok {
			return nil
		}
		if p.F >= 0 {
			v = s.F[p.F]
			continue
		}
		if k, ok := st.cval(p.I); ok && k >= 0 && k < int64(len(s.F)) {
			v = s.F[k]
			continue
		}
		var r Value
		for _, x := range s.F {
			r = e.weakVal(st, r, x, true)
		}
		if r == nil {
			return nil
		}
		v = inst(st, r)
	}
	return v
}

func (e *Engine) setPath(st *State, v Value, path []PE, n Value, weak bool) Value {
	if len(path) == 0 {
		if weak {
			return e.weakVal(st, v, n, true)
		}
		return n
	}
	s, ok := v.(Strct)
	if !ok {
		return v
	}
	f := append([]Value{}, s.F...)
	p := path[0]
	if p.F >= 0 {
		f[p.F] = e.setPath(st, f[p.F], path[1:], n, weak)
	} else if k, ok := st.cval(p.I); ok && k >= 0 && k < int64(len(f)) {
		f[k] = e.setPath(st, f[k], path[1:], n, weak)
	} else {
		for i := range f {
			f[i] = e.setPath(st, f[i], path[1:], n, true)
		}
	}
	return Strct{f}
}

// load reads through p.
func (e *Engine) load(st *State, p Ptr, t types.Type, f func(*State, Value) []*State) []*State {
	x := e.obj(st, p.O)
	if p.O.isVirt() && len(p.Path) > 0 && p.Path[0].F < 0 {
		return e.elemAt(st, p.O, p.Path[0].I, func(s *State, v Value) []*State {
			if r := e.getPath(s, v, p.Path[1:]); r != nil {
				v = r
			}
			return f(s, v)
		})
	}
	if x == nil {
		return f(st, e.topVal("unknown storage", t))
	}
	switch x.kind {
	case 'c':
		v := e.getPath(st, x.val, p.Path)
		if v == nil {
			return f(st, e.topVal("unknown field", t))
		}
		if x.many {
			v = inst(st, v)
			if e.nodes != nil {
				e.nodes.load(st, p, v)
			}
		}
		if e.nodes != nil {
			v = e.nodes.loaded(x.typ, p.Path, v)
		}
		return f(st, v)
	case 'a':
		if len(p.Path) == 0 {
			// whole array
			a, ok := x.typ.Underlying().(*types.Array)
			if ok && a.Len() <= 64 {
				fs := make([]Value, a.Len())
				for i := range fs {
					e.elemAt(st, p.O, cInt(int64(i)), func(s *State, v Value) []*State {
						fs[i] = v
						return nil
					})
				}
				return f(st, Strct{fs})
			}
			return f(st, Top{t})
		}
		return e.elemAt(st, p.O, p.Path[0].I, func(s *State, v Value) []*State {
			if len(p.Path) > 1 {
				v = e.getPath(s, v, p.Path[1:])
				if v == nil {
					v = e.topVal("unknown element", t)
				}
			}
			return f(s, v)
		})
	}
	return f(st, e.topVal("unknown storage", t))
}

// wrote reports a write to protected storage.
func (e *Engine) wrote(fr *Frame, st *State, in ssa.Instruction, o ObjID) {
	if o.isVirt() {
		if info(o.name().virt).prov == "doc" {
			e.event("write-doc", fr, in, "writes to the document ("+o.String()+")")
		} else {
			e.event("write-unknown", fr, in, "writes to storage it was only given ("+o.String()+")")
		}
		return
	}
	x := e.obj(st, o)
	if x == nil {
		return
	}
	if x.flags&flDoc != 0 {
		e.event("write-doc", fr, in, "writes to the document ("+o.String()+")")
	}
	if x.flags&flProg != 0 {
		e.event("write-prog", fr, in, "writes to the compiled path ("+o.String()+")")
	}
	if x.flags&flGlobal != 0 && !e.initing {
		e.event("write-global", fr, in, "writes to package-level state ("+o.String()+")")
	}
	if x.flags&flShared != 0 {
		e.event("write-shared", fr, in, "writes to storage lent to a running goroutine ("+o.String()+")")
	}
}

func (e *Engine) store(fr *Frame, st *State, in ssa.Instruction, p Ptr, v Value) []*State {
	e.wrote(fr, st, in, p.O)
	x := e.obj(st, p.O)
	if x == nil {
		return []*State{st}
	}
	if x.grew {
		e.unsupported(fr, in, "store into storage that an append may have extended elsewhere")
	}
	if e.nodes != nil {
		v = e.nodes.forget(x.typ, p.Path, v)
	}
	n := x.copy()
	switch x.kind {
	case 'c':
		n.val = e.setPath(st, x.val, p.Path, v, x.many)
		st.heap.set(p.O, n)
	case 'a':
		if len(p.Path) == 0 {
			if s, ok := v.(Strct); ok && !x.many {
				n.cells, n.def, n.z = nil, nil, nil
				for i, y := range s.F {
					n.cells = append(n.cells, ACell{cInt(int64(i)), y})
				}
			} else {
				n.cells, n.def, n.z = nil, Top{types.Typ[types.Int]}, nil
			}
			st.heap.set(p.O, n)
			break
		}
		i := p.Path[0].I
		if len(p.Path) > 1 {
			var out []*State
			rs := e.elemAt(st, p.O, i, func(s *State, old Value) []*State {
				nv := e.setPath(s, old, p.Path[1:], v, x.many)
				out = append(out, e.store1(s, p.O, i, nv)...)
				return nil
			})
			_ = rs
			return out
		}
		return e.store1(st, p.O, i, v)
	}
	return []*State{st}
}

// store1 writes element i of array object o.
func (e *Engine) store1(st *State, o ObjID, i Lin, v Value) []*State {
	x := e.obj(st, o)
	n := x.copy()
	if x.many {
		n.def = e.weakVal(st, x.def, v, true)
		st.heap.set(o, n)
		return []*State{st}
	}
	var cells []ACell
	for _, c := range x.cells {
		if c.I == i {
			continue
		}
		if c.I.B == i.B {
			cells = append(cells, c)
			continue
		}
		d1, d2 := st.diffL(c.I, i), st.diffL(i, c.I)
		switch {
		case d1 == 0 && d2 == 0:
		case d1 < 0 || d2 < 0:
			cells = append(cells, c)
		default:
			cells = append(cells, ACell{c.I, e.weakVal(st, c.V, v, false)})
		}
	}
	cells = append(cells, ACell{i, v})
	n.cells = cells
	n.wrote(st, i, Lin{i.B, i.K + 1})
	st.heap.set(o, n)
	return []*State{st}
}

// foldCells merges the exact cells of an array into its default.
func (e *Engine) foldCells(st *State, x *Obj) *Obj {
	n := e.unzone(st, x).copy()
	for _, c := range x.cells {
		n.def = e.weakVal(st, n.def, c.V, true)
	}
	n.cells = nil
	return n
}

func (e *Engine) unop(fr *Frame, st *State, in *ssa.UnOp) []*State {
	x := e.get(st, in.X)
	switch in.Op {
	case token.MUL:
		p, ok := x.(Ptr)
		if !ok {
			if t, ok := x.(Top); ok {
				_ = t
				e.derefCheck(fr, st, in, x)
				return e.set(st, in, e.topVal("deref", in.Type()))
			}
			e.derefCheck(fr, st, in, x)
			return nil
		}
		return e.load(st, p, in.Type(), func(s *State, v Value) []*State { return e.set(s, in, v) })
	case token.NOT:
		b, ok := x.(Bl)
		if !ok {
			return e.set(st, in, freshBool("not"))
		}
		if v, ok := st.bval(b); ok {
			return e.set(st, in, cBool(!v))
		}
		t := st.clone()
		t.meetRange(b.S, rng1(1, 1))
		st.meetRange(b.S, rng1(0, 0))
		return append(e.set(t, in, cBool(false)), e.set(st, in, cBool(true))...)
	case token.SUB:
		if isFlt(in.Type()) {
			if f, ok := x.(Flt); ok {
				return e.set(st, in, e.fneg(st, f))
			}
			return e.set(st, in, freshFlt("neg"))
		}
		if isInt(in.Type()) {
			return e.set(st, in, e.intSub(st, cInt(0), toLin2(x), in.Type()))
		}
	case token.XOR:
		if l, ok := x.(Lin); ok {
			if k, ok := st.cval(l); ok {
				lo, hi := intRange(in.Type())
				if ^k >= lo && ^k <= hi {
					return e.set(st, in, cInt(^k))
				}
			}
		}
		return e.set(st, in, e.topVal("xor", in.Type()))
	case token.ARROW:
		return e.recv(fr, st, in)
	}
	return e.set(st, in, e.topVal("unop", in.Type()))
}

func (e *Engine) fneg(st *State, f Flt) Value {
	i := info(f.S)
	if i.op == "fconst" {
		return fltConst(-i.fval)
	}
	if i.op == "fneg" {
		return i.args[0]
	}
	t := term(KFlt, "fneg", 0, 0, f)
	m := st.fmask(f.S)
	r := m & (fZero | fNaN)
	if m&fNeg != 0 {
		r |= fPos
	}
	if m&fPos != 0 {
		r |= fNeg
	}
	st.fmeet(t, r)
	return Flt{t}
}

// ---- integers ----

func (e *Engine) wrapTerm(st *State, op string, t types.Type, a ...Value) Lin {
	lo, hi := intRange(t)
	bits, sg := intBits(t)
	if !sg && bits == 64 {
		lo = minI // the value may exceed what is represented: do not claim non-negativity
	}
	return Lin{term(KInt, fmt.Sprintf("%s%d", op, bits), lo, hi, a...), 0}
}

func addOvf(a, b int64) (int64, bool) {
	c := a + b
	return c, (b > 0 && c < a) || (b < 0 && c > a)
}

// within reports whether x+y stays inside the type for all values of the ranges.
func sumRange(x, y RSet) (lo, hi int64, ok bool) {
	if x.empty() || y.empty() {
		return 0, 0, true
	}
	l, o1 := addOvf(x.lo(), y.lo())
	h, o2 := addOvf(x.hi(), y.hi())
	return l, h, !o1 && !o2
}

func (e *Engine) intAdd(st *State, a, b Lin, t types.Type) Value {
	if k, ok := st.cval(a); ok {
		a = cInt(k)
	}
	if k, ok := st.cval(b); ok {
		b = cInt(k)
	}
	if a.B == 0 && b.B != 0 {
		a, b = b, a
	}
	ra, rb := st.rangeOf(a), st.rangeOf(b)
	lo, hi, ok := sumRange(ra, rb)
	tl, th := intRange(t)
	if !ok || lo < tl || hi > th {
		if a.B == 0 && b.B == 0 {
			if bits, sg := intBits(t); sg && bits == 64 {
				return cInt(a.K + b.K)
			}
		}
		// differences may bound the sum: a + b with b <= c - a is not expressible here
		if b.B < a.B {
			a, b = b, a
		}
		return e.wrapTerm(st, "addw", t, a, b)
	}
	if b.B == 0 {
		return Lin{a.B, a.K + b.K}
	}
	// cancel: (x - y) + y
	for _, p := range [][2]Lin{{a, b}, {b, a}} {
		if i := info(p[0].B); i.op == "sub" {
			if m, ok := i.args[1].(Lin); ok && m.B == p[1].B {
				s := i.args[0].(Lin)
				return Lin{s.B, s.K + p[0].K + p[1].K - m.K}
			}
		}
	}
	if b.B < a.B {
		a, b = b, a
	}
	s := term(KInt, "add", minI, maxI, Lin{a.B, 0}, Lin{b.B, 0})
	r := Lin{s, a.K + b.K}
	st.meetLin(r, rng1(lo, hi))
	st.addDiff(r, a, rb.hi())
	st.addDiff(a, r, neg(rb.lo()))
	st.addDiff(r, b, ra.hi())
	st.addDiff(b, r, neg(ra.lo()))
	return r
}

func neg(k int64) int64 {
	if k == minI {
		return maxI
	}
	return -k
}

func (e *Engine) intSub(st *State, a, b Lin, t types.Type) Value {
	if k, ok := st.cval(a); ok {
		a = cInt(k)
	}
	if k, ok := st.cval(b); ok {
		b = cInt(k)
	}
	tl, th := intRange(t)
	if a.B == b.B {
		k := a.K - b.K
		if k >= tl && k <= th {
			return cInt(k)
		}
	}
	ra, rb := st.rangeOf(a), st.rangeOf(b)
	if b.B == 0 && b.K != minI {
		lo, hi, ok := sumRange(ra, rng1(-b.K, -b.K))
		if ok && lo >= tl && hi <= th {
			return Lin{a.B, a.K - b.K}
		}
	}
	ok := rb.lo() != minI
	var lo, hi int64
	if ok {
		lo, hi, ok = sumRange(ra, rng1(-rb.hi(), -rb.lo()))
	}
	d1, d2 := st.diffL(a, b), st.diffL(b, a)
	if ok {
		if d1 != inf && d1 < hi {
			hi = d1
		}
		if d2 != inf && -d2 > lo {
			lo = -d2
		}
	}
	if !ok || lo < tl || hi > th {
		if b.B == 0 && a.B == 0 {
			if bits, sg := intBits(t); sg && bits == 64 {
				return cInt(a.K - b.K)
			}
		}
		return e.wrapTerm(st, "subw", t, a, b)
	}
	// cancel: (x + y) - y
	if i := info(a.B); a.B != 0 && i.op == "add" {
		for k := 0; k < 2; k++ {
			if i.args[k].(Lin).B == b.B {
				o := i.args[1-k].(Lin)
				return Lin{o.B, o.K + a.K - b.K}
			}
		}
	}
	if i := info(a.B); a.B != 0 && i.op == "sub" { // (x - y) - x  is  -y : left alone
	}
	s := term(KInt, "sub", minI, maxI, Lin{a.B, 0}, Lin{b.B, 0})
	r := Lin{s, a.K - b.K}
	st.meetLin(r, rng1(lo, hi))
	st.addDiff(r, a, neg(rb.lo()))
	st.addDiff(a, r, rb.hi())
	return r
}

func (e *Engine) intMul(st *State, a, b Lin, t types.Type) Value {
	ka, oka := st.cval(a)
	kb, okb := st.cval(b)
	if oka && okb {
		if ka == 0 || kb == 0 {
			return cInt(0)
		}
		c := ka * kb
		lo, hi := intRange(t)
		if c/kb == ka && !(ka == -1 && kb == minI) && !(kb == -1 && ka == minI) && c >= lo && c <= hi {
			return cInt(c)
		}
		if bits, sg := intBits(t); sg && bits == 64 {
			return cInt(c)
		}
	}
	if oka && ka == 1 {
		return b
	}
	if okb && kb == 1 {
		return a
	}
	if oka && ka == 0 || okb && kb == 0 {
		return cInt(0)
	}
	if b.B < a.B || b.B == a.B && b.K < a.K {
		a, b = b, a
	}
	r := e.wrapTerm(st, "mul", t, a, b)
	ra, rb := st.rangeOf(a), st.rangeOf(b)
	const lim = int64(1) << 31
	if !ra.empty() && !rb.empty() && ra.lo() > -lim && ra.hi() < lim && rb.lo() > -lim && rb.hi() < lim {
		c := []int64{ra.lo() * rb.lo(), ra.lo() * rb.hi(), ra.hi() * rb.lo(), ra.hi() * rb.hi()}
		sort.Slice(c, func(i, j int) bool { return c[i] < c[j] })
		lo, hi := intRange(t)
		if c[0] >= lo && c[3] <= hi {
			st.meetLin(r, rng1(c[0], c[3]))
		}
	}
	return r
}

func (e *Engine) intDiv(fr *Frame, st *State, in ssa.Instruction, op token.Token, a, b Lin, t types.Type) []*valState {
	// divisor must not be zero
	if st.rangeOf(b).has(0) {
		e.oblige("div", fr, st, in, false, "integer division", func() string { return "the divisor " + vStr(b) + " may be zero" })
		st.neLin(b, cInt(0))
		if st.bot {
			return nil
		}
	} else {
		e.oblige("div", fr, st, in, true, "integer division", nil)
	}
	ka, oka := st.cval(a)
	kb, okb := st.cval(b)
	name := "quo"
	if op == token.REM {
		name = "rem"
	}
	if oka && okb && !(ka == minI && kb == -1) {
		if op == token.QUO {
			return []*valState{{st, cInt(ka / kb)}}
		}
		return []*valState{{st, cInt(ka % kb)}}
	}
	if okb && kb == 1 {
		if op == token.QUO {
			return []*valState{{st, a}}
		}
		return []*valState{{st, cInt(0)}}
	}
	r := e.wrapTerm(st, name, t, a, b)
	ra := st.rangeOf(a)
	if okb && kb > 0 {
		if op == token.REM {
			lo, hi := -(kb - 1), kb-1
			if ra.lo() >= 0 {
				lo = 0
			}
			if ra.hi() <= 0 {
				hi = 0
			}
			st.meetLin(r, rng1(lo, hi))
		} else {
			st.meetLin(r, rng1(ra.lo()/kb, ra.hi()/kb))
		}
	} else if op == token.QUO && ra.lo() >= 0 && st.rangeOf(b).lo() > 0 {
		st.meetLin(r, rng1(0, ra.hi()))
	} else if op == token.REM && ra.lo() >= 0 {
		st.meetLin(r, rng1(0, ra.hi()))
		if st.rangeOf(b).lo() > 0 {
			st.addDiff(r, b, -1)
		}
	}
	return []*valState{{st, r}}
}

type valState struct {
	st *State
	v  Value
}

// ---- bit fields ----

func mask(n uint) uint64 {
	if n >= 64 {
		return math.MaxUint64
	}
	return 1<<n - 1
}

func (e *Engine) toBits(st *State, v Value, n uint) (Bits, bool) {
	switch v := v.(type) {
	case Bits:
		v.N = n
		if v.O >= n {
			v.W = 0
		} else if v.O+v.W > n {
			v.W = n - v.O
		}
		v.C &= mask(n)
		return v, true
	case Lin:
		if k, ok := st.cval(v); ok {
			return Bits{N: n, C: uint64(k) & mask(n)}, true
		}
		return Bits{N: n, W: n, V: v}, true
	case Bl:
		return e.toBits(st, toLin(v), n)
	}
	return Bits{}, false
}

// normBits returns a plain integer when the bit field is one.
func (e *Engine) normBits(st *State, b Bits, t types.Type) Value {
	if b.W > 0 {
		if k, ok := st.cval(b.V); ok {
			b.C |= (uint64(k) & mask(b.W)) << b.O
			b.W = 0
		}
	}
	bits, sg := intBits(t)
	if b.W == 0 {
		c := b.C & mask(bits)
		if sg {
			sh := 64 - bits
			return cInt(int64(c<<sh) >> sh)
		}
		if c > math.MaxInt64 {
			return Lin{freshInt("big", minI, maxI), 0}
		}
		return cInt(int64(c))
	}
	if b.O == 0 && b.C == 0 {
		r := st.rangeOf(b.V)
		if !r.empty() && r.lo() >= 0 && (b.W >= 63 || r.hi() <= int64(mask(b.W))) {
			return b.V
		}
		if sg && b.W == bits && bits < 64 && !r.empty() && r.lo() >= -(1<<(bits-1)) && r.hi() < 1<<(bits-1) {
			return b.V
		}
		if sg && b.W == 64 {
			return b.V
		}
	}
	return b
}

func (e *Engine) bitop(st *State, op token.Token, x, y Value, t types.Type) Value {
	bits, sg := intBits(t)
	a, ok1 := e.toBits(st, x, bits)
	b, ok2 := e.toBits(st, y, bits)
	if !ok1 || !ok2 {
		return e.topVal("bits", t)
	}
	full := a.W == bits && b.W == bits
	switch op {
	case token.AND:
		if a.W == 0 {
			a, b = b, a
		}
		if b.W == 0 {
			m := b.C
			if f, ok := fieldAnd(a, m); ok {
				return e.normBits(st, f, t)
			}
			// unknown bits of a masked by m
			if int64(m) >= 0 {
				return Lin{term(KInt, "and", 0, int64(m), a, cInt(int64(m))), 0}
			}
		}
	case token.AND_NOT:
		if b.W == 0 {
			if f, ok := fieldAnd(a, ^b.C&mask(bits)); ok {
				return e.normBits(st, f, t)
			}
		}
	case token.OR, token.XOR, token.ADD:
		if a.W == 0 {
			a, b = b, a
		}
		if b.W == 0 {
			fm := mask(a.W) << a.O
			if b.C&fm == 0 && (b.C&a.C == 0 || op == token.OR) {
				a.C |= b.C
				return e.normBits(st, a, t)
			}
		} else if !full && a.C&b.C == 0 {
			// disjoint fields: only one may be kept symbolic
		}
	case token.SHL:
		if b.W == 0 && b.C < 64 {
			k := uint(b.C)
			if a.W == bits && a.O == 0 && a.C == 0 {
				// plain integer shifted: multiplication when it fits
				r := st.rangeOf(a.V)
				lo, hi := intRange(t)
				if !r.empty() && k < 62 && r.lo() >= lo>>k && r.hi() <= hi>>k && r.lo() >= -(1<<(62-k)) && r.hi() <= 1<<(62-k) {
					if r.lo() >= 0 && k > 0 {
						w := uint(1)
						for w < 62 && int64(mask(w)) < r.hi() {
							w++
						}
						return e.normBits(st, Bits{N: bits, W: w, O: k, V: a.V}, t)
					}
				}
			}
			a.O += k
			a.C = a.C << k & mask(bits)
			if a.O >= bits {
				a.W = 0
			} else if a.O+a.W > bits {
				a.W = bits - a.O
			}
			return e.normBits(st, a, t)
		}
	case token.SHR:
		if b.W == 0 && b.C < 64 {
			k := uint(b.C)
			if a.W == 0 {
				return e.normBits(st, shrConst(a, k, sg), t)
			}
			top := a.O+a.W == bits
			if a.O >= k {
				if sg && top {
					// arithmetic shift: the field keeps its sign
					if a.O == k && a.C>>k == 0 {
						r := st.rangeOf(a.V)
						if !r.empty() && a.W < 64 && r.lo() >= -(1<<(a.W-1)) && r.hi() < 1<<(a.W-1) {
							return a.V
						}
						lo, hi := -(int64(1) << (a.W - 1)), int64(1)<<(a.W-1)-1
						return Lin{term(KInt, fmt.Sprintf("sext%d", a.W), lo, hi, a.V), 0}
					}
				} else {
					a.O -= k
					a.C >>= k
					return e.normBits(st, a, t)
				}
			}
			if a.W == bits && a.O == 0 {
				r := st.rangeOf(a.V)
				if !r.empty() && (sg || r.lo() >= 0) {
					q := Lin{term(KInt, fmt.Sprintf("shr%d", k), minI, maxI, a.V), 0}
					st.meetLin(q, rng1(r.lo()>>k, r.hi()>>k))
					return q
				}
			}
		}
	}
	return e.topVal("bits", t)
}

func shrConst(a Bits, k uint, sg bool) Bits {
	if sg {
		sh := 64 - a.N
		v := int64(a.C<<sh) >> sh
		a.C = uint64(v>>k) & mask(a.N)
	} else {
		a.C >>= k
	}
	return a
}

func fieldAnd(a Bits, m uint64) (Bits, bool) {
	fm := mask(a.W) << a.O
	a.C &= m
	switch m & fm {
	case fm:
		return a, true
	case 0:
		a.W = 0
		return a, true
	}
	// a contiguous low part of the field
	f := (m & fm) >> a.O
	w := uint(0)
	for w < 64 && f&(1<<w) != 0 {
		w++
	}
	if f == mask(w) {
		a.W = w
		return a, true
	}
	return a, false
}

// ---- comparisons and binary operators ----

func (e *Engine) boolSplit(st *State, v ssa.Value, yes, no func(*State)) []*State {
	t := st.clone()
	yes(t)
	no(st)
	var out []*State
	if !t.bot {
		out = append(out, e.set(t, v, cBool(true))...)
	}
	if !st.bot {
		out = append(out, e.set(st, v, cBool(false))...)
	}
	return out
}

// predSplit splits on a 0/1 term.
func (e *Engine) predSplit(st *State, v ssa.Value, s Sym) []*State {
	return e.boolSplit(st, v, func(t *State) { t.meetRange(s, rng1(1, 1)) }, func(t *State) { t.meetRange(s, rng1(0, 0)) })
}

func (e *Engine) binop(fr *Frame, st *State, in *ssa.BinOp) []*State {
	x, y := e.get(st, in.X), e.get(st, in.Y)
	switch in.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return e.compare(fr, st, in, in.Op, x, y, in.X.Type())
	}
	t := in.Type()
	switch {
	case isStr(t):
		a, ok1 := x.(Str)
		b, ok2 := y.(Str)
		if in.Op == token.ADD && ok1 && ok2 {
			return e.set(st, in, e.concat(st, a, b))
		}
		return e.set(st, in, freshStr("cat"))
	case isFlt(t):
		a, ok1 := x.(Flt)
		b, ok2 := y.(Flt)
		if !ok1 || !ok2 {
			return e.set(st, in, freshFlt("flt"))
		}
		return e.set(st, in, e.fltOp(st, in.Op, a, b))
	case isInt(t):
		switch in.Op {
		case token.ADD, token.SUB, token.MUL, token.QUO, token.REM:
			_, bx := x.(Bits)
			_, by := y.(Bits)
			if (bx || by) && in.Op == token.ADD {
				return e.set(st, in, e.bitop(st, token.ADD, x, y, t))
			}
			a, b := toLin2(x), toLin2(y)
			switch in.Op {
			case token.ADD:
				return e.set(st, in, e.intAdd(st, a, b, t))
			case token.SUB:
				return e.set(st, in, e.intSub(st, a, b, t))
			case token.MUL:
				return e.set(st, in, e.intMul(st, a, b, t))
			}
			var out []*State
			for _, vs := range e.intDiv(fr, st, in, in.Op, a, b, t) {
				out = append(out, e.set(vs.st, in, vs.v)...)
			}
			return out
		}
		if in.Op == token.SHL || in.Op == token.SHR {
			if l, ok := y.(Lin); ok {
				if r := st.rangeOf(l); !r.empty() && r.lo() < 0 {
					if _, sg := intBits(in.Y.Type()); sg {
						e.oblige("shift", fr, st, in, false, "shift count", func() string { return "the shift count may be negative" })
					}
				}
			}
		}
		return e.set(st, in, e.bitop(st, in.Op, x, y, t))
	}
	return e.set(st, in, e.topVal("binop", t))
}

func (e *Engine) concat(st *State, a, b Str) Value {
	ca, ok1 := st.sval(a)
	cb, ok2 := st.sval(b)
	if ok1 && ok2 {
		return strConst(ca + cb)
	}
	if ok1 && ca == "" {
		return b
	}
	if ok2 && cb == "" {
		return a
	}
	r := Str{term(KStr, "cat", 0, 0, a, b)}
	la, lb, lr := st.strLen(a), st.strLen(b), st.strLen(r)
	st.meetLin(lr, rng1(satAdd(st.rangeOf(la).lo(), st.rangeOf(lb).lo()), maxI))
	return r
}

func (e *Engine) fltOp(st *State, op token.Token, a, b Flt) Value {
	ia, ib := info(a.S), info(b.S)
	if ia.op == "fconst" && ib.op == "fconst" {
		switch op {
		case token.ADD:
			return fltConst(ia.fval + ib.fval)
		case token.SUB:
			return fltConst(ia.fval - ib.fval)
		case token.MUL:
			return fltConst(ia.fval * ib.fval)
		case token.QUO:
			return fltConst(ia.fval / ib.fval)
		}
	}
	if op == token.SUB && ia.op == "fconst" && ia.fval == 0 && !math.Signbit(ia.fval) {
		// 0 - x differs from -x only in the sign of zero: keep it apart
	}
	if (op == token.ADD || op == token.MUL) && b.S < a.S {
		a, b = b, a
	}
	return Flt{term(KFlt, "f"+op.String(), 0, 0, a, b)}
}

func flipOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func (e *Engine) compare(fr *Frame, st *State, in ssa.Value, op token.Token, x, y Value, t types.Type) []*State {
	neg := op == token.NEQ
	fin := func(ss []*State) []*State {
		if neg {
			for _, s := range ss {
				b := s.regs[in].(Bl)
				if b.S == 0 {
					s.regs[in] = cBool(b.C == 0)
				}
			}
		}
		return ss
	}
	_, tx := x.(Top)
	_, ty := y.(Top)
	if tx || ty {
		return e.set(st, in, freshBool("cmp"))
	}
	switch {
	case isInt(t):
		return e.compareInt(st, in, op, x, y)
	case isFlt(t):
		a, ok1 := x.(Flt)
		b, ok2 := y.(Flt)
		if !ok1 || !ok2 {
			return e.set(st, in, freshBool("cmp"))
		}
		var yes uint8
		switch op {
		case token.EQL, token.NEQ:
			yes = cEQ
		case token.LSS:
			yes = cLT
		case token.LEQ:
			yes = cLT | cEQ
		case token.GTR:
			yes = cGT
		case token.GEQ:
			yes = cGT | cEQ
		}
		m := st.fcmp(a.S, b.S)
		switch {
		case m&^yes == 0:
			return e.set(st, in, cBool(!neg))
		case m&yes == 0:
			return e.set(st, in, cBool(neg))
		}
		return fin(e.boolSplit(st, in, func(s *State) { s.fcmpMeet(a.S, b.S, yes) }, func(s *State) { s.fcmpMeet(a.S, b.S, cAll&^yes) }))
	case isBoolT(t):
		a, ok1 := x.(Bl)
		b, ok2 := y.(Bl)
		if !ok1 || !ok2 {
			return e.set(st, in, freshBool("cmp"))
		}
		if a == b {
			return e.set(st, in, cBool(!neg))
		}
		va, ka := st.bval(a)
		vb, kb := st.bval(b)
		if ka && kb {
			return e.set(st, in, cBool((va == vb) != neg))
		}
		if ka {
			a, b, va, vb, ka, kb = b, a, vb, va, kb, ka
		}
		if kb {
			w := int64(0)
			if vb {
				w = 1
			}
			return fin(e.boolSplit(st, in, func(s *State) { s.meetRange(a.S, rng1(w, w)) }, func(s *State) { s.meetRange(a.S, rng1(1-w, 1-w)) }))
		}
		// both unknown: enumerate
		var out []*State
		for _, w := range []int64{0, 1} {
			for _, u := range []int64{0, 1} {
				s := st.clone()
				s.meetRange(a.S, rng1(w, w))
				s.meetRange(b.S, rng1(u, u))
				if !s.bot {
					out = append(out, e.set(s, in, cBool((w == u) != neg))...)
				}
			}
		}
		return out
	case isStr(t):
		a, ok1 := x.(Str)
		b, ok2 := y.(Str)
		if !ok1 || !ok2 {
			return e.set(st, in, freshBool("cmp"))
		}
		return e.compareStr(st, in, op, a, b)
	}
	// references and interfaces: only == and !=
	if types.IsInterface(t) {
		e.comparable(fr, st, in.(ssa.Instruction), x, y)
	}
	switch e.identical(fr, st, in, x, y, t) {
	case 1:
		return e.set(st, in, cBool(!neg))
	case 0:
		return e.set(st, in, cBool(neg))
	}
	// undecided
	if o, ok := y.(Opq); ok {
		if _, ok := x.(Opq); !ok {
			x, y = y, x
			_ = o
		}
	}
	if o, ok := x.(Opq); ok {
		switch b := y.(type) {
		case Nil:
			return fin(e.boolSplit(st, in, func(s *State) { s.tmMeet(o.S, 1) }, func(s *State) { s.tmMeet(o.S, ^TMask(1)) }))
		case Ifc:
			bit := typeBit(b.T)
			var out []*State
			no := st.clone()
			no.tmMeet(o.S, ^bit)
			if !no.bot {
				out = append(out, e.set(no, in, cBool(neg))...)
			}
			st.tmMeet(o.S, bit)
			if st.bot {
				return out
			}
			if !types.Comparable(b.T) {
				return out
			}
			return append(out, e.compare(fr, st, in, op, st.payload(o.S, b.T), b.V, b.T)...)
		}
	}
	a, ok1 := x.(Ifc)
	b, ok2 := y.(Ifc)
	if ok1 && ok2 && types.Identical(a.T, b.T) {
		return e.compare(fr, st, in, op, a.V, b.V, a.T)
	}
	return e.set(st, in, freshBool("cmp"))
}

// identical compares references: 1 equal, 0 different, -1 unknown.
// comparable obliges the dynamic types of two interface values to be comparable when they are the same.
func (e *Engine) comparable(fr *Frame, st *State, in ssa.Instruction, x, y Value) {
	set := func(v Value) (TMask, bool) {
		switch v := v.(type) {
		case Nil:
			return 1, true
		case Ifc:
			return typeBit(v.T), true
		case Opq:
			return st.tmask(v.S), true
		}
		return 0, false
	}
	mx, ok1 := set(x)
	my, ok2 := set(y)
	if !ok1 && !ok2 {
		e.oblige("uncomparable", fr, st, in, false, "interface comparison", func() string { return "compares values of unknown types" })
		return
	}
	m := mx & my
	if !ok1 {
		m = my
	}
	if !ok2 {
		m = mx
	}
	for _, t := range bitsTypes(m) {
		if t != nil && !types.Comparable(t) {
			e.oblige("uncomparable", fr, st, in, false, "interface comparison", func() string { return "may compare values of uncomparable type " + typeKey(t) })
			return
		}
	}
	e.oblige("uncomparable", fr, st, in, true, "interface comparison", nil)
}

func (e *Engine) identical(fr *Frame, st *State, in ssa.Value, x, y Value, t types.Type) int {
	isNil := func(v Value) int {
		switch v := v.(type) {
		case Nil:
			return 1
		case Opq:
			m := st.tmask(v.S)
			if m == 1 {
				return 1
			}
			if m&1 == 0 {
				return 0
			}
			return -1
		case Top:
			return -1
		}
		return 0
	}
	nx, ny := isNil(x), isNil(y)
	if nx == 1 && ny == 1 {
		return 1
	}
	if nx == 1 && ny == 0 || nx == 0 && ny == 1 {
		return 0
	}
	if nx != 0 || ny != 0 {
		return -1
	}
	switch a := x.(type) {
	case Ptr:
		b, ok := y.(Ptr)
		if !ok {
			return -1
		}
		if a.O != b.O {
			if oldName(a.O) == b.O || oldName(b.O) == a.O {
				return 0 // the most recent object differs from the older ones
			}
			return 0
		}
		ob := e.obj(st, a.O)
		if ob == nil || ob.many || a.O.isVirt() {
			return -1
		}
		if valKey(a) == valKey(b) {
			return 1
		}
		for i := range a.Path {
			if i < len(b.Path) && a.Path[i].F >= 0 && b.Path[i].F >= 0 && a.Path[i].F != b.Path[i].F {
				return 0
			}
		}
		return -1
	case ChanV:
		b, ok := y.(ChanV)
		if ok && a.O != b.O {
			return 0
		}
		if ok && !e.obj(st, a.O).many {
			return 1
		}
		return -1
	case Ifc:
		b, ok := y.(Ifc)
		if ok && !types.Identical(a.T, b.T) {
			return 0
		}
		if ok {
			switch a.T.Underlying().(type) {
			case *types.Pointer, *types.Chan:
				return e.identical(fr, st, in, a.V, b.V, a.T)
			}
		}
		return -1
	case Opq:
		if b, ok := y.(Ifc); ok {
			if st.tmask(a.S)&typeBit(b.T) == 0 {
				return 0
			}
		}
		return -1
	case Fn, MapV, Slc:
		return -1
	case Strct:
		b, ok := y.(Strct)
		if ok && sameVal(a, b) {
			return 1
		}
		return -1
	}
	return -1
}

func (e *Engine) compareInt(st *State, in ssa.Value, op token.Token, x, y Value) []*State {
	neg := op == token.NEQ
	if b, ok := x.(Bits); ok {
		return e.compareBits(st, in, op, b, y)
	}
	if b, ok := y.(Bits); ok {
		return e.compareBits(st, in, flipOp(op), b, x)
	}
	a, b := toLin2(x), toLin2(y)
	switch op {
	case token.EQL, token.NEQ:
		if !a.eqPossible(st, b) {
			return e.set(st, in, cBool(neg))
		}
		if st.diffL(a, b) <= 0 && st.diffL(b, a) <= 0 {
			return e.set(st, in, cBool(!neg))
		}
		t := st.clone()
		t.eqLin(a, b)
		st.neLin(a, b)
		var out []*State
		if !t.bot {
			out = append(out, e.set(t, in, cBool(!neg))...)
		}
		if e.concrete && !st.bot && st.diffL(a, b) >= 0 && st.diffL(b, a) >= 0 {
			// two unknowns: keep the inequality as an order
			if _, ok := st.cval(a); !ok {
				if _, ok := st.cval(b); !ok {
					t := st.clone()
					t.addDiff(a, b, -1)
					if !t.bot {
						out = append(out, e.set(t, in, cBool(neg))...)
					}
					st.addDiff(b, a, -1)
				}
			}
		}
		if !st.bot {
			out = append(out, e.set(st, in, cBool(neg))...)
		}
		return out
	case token.GTR, token.GEQ:
		a, b = b, a
		op = flipOp(op)
	}
	c := int64(0)
	if op == token.LSS {
		c = -1
	}
	if st.diffL(a, b) <= c {
		return e.set(st, in, cBool(true))
	}
	if st.diffL(b, a) <= -c-1 {
		return e.set(st, in, cBool(false))
	}
	return e.boolSplit(st, in, func(s *State) { s.addDiff(a, b, c) }, func(s *State) { s.addDiff(b, a, -c-1) })
}

func (a Lin) eqPossible(st *State, b Lin) bool {
	if a.B == b.B {
		return a.K == b.K
	}
	if st.diffL(a, b) < 0 || st.diffL(b, a) < 0 {
		return false
	}
	return !st.rangeOf(a).meet(st.rangeOf(b)).empty()
}

func (e *Engine) compareBits(st *State, in ssa.Value, op token.Token, a Bits, y Value) []*State {
	l, ok := y.(Lin)
	if ok {
		if k, ok := st.cval(l); ok && (op == token.EQL || op == token.NEQ) {
			m := ^(mask(a.W) << a.O) & mask(a.N)
			if a.C&m != uint64(k)&m {
				return e.set(st, in, cBool(op == token.NEQ))
			}
		}
	}
	return e.set(st, in, Bl{S: term(KInt, "bitcmp"+op.String(), 0, 1, a, y)})
}

func (e *Engine) compareStr(st *State, in ssa.Value, op token.Token, a, b Str) []*State {
	ca, ok1 := st.sval(a)
	cb, ok2 := st.sval(b)
	if ok1 && ok2 {
		var r bool
		switch op {
		case token.EQL:
			r = ca == cb
		case token.NEQ:
			r = ca != cb
		case token.LSS:
			r = ca < cb
		case token.LEQ:
			r = ca <= cb
		case token.GTR:
			r = ca > cb
		case token.GEQ:
			r = ca >= cb
		}
		return e.set(st, in, cBool(r))
	}
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		if a == b {
			return e.set(st, in, cBool(!neg))
		}
		if ok1 {
			a, b, cb, ok2 = b, a, ca, true
		}
		t := st.clone()
		if ok2 {
			t.strMeet(a.S, StrFact{true, []string{cb}})
			st.strMeet(a.S, StrFact{false, []string{cb}})
		} else {
			s := e.seq(a, b)
			t.meetRange(s, rng1(1, 1))
			st.meetRange(s, rng1(0, 0))
			if !t.bot {
				if f, ok := t.strFact(a.S); ok {
					t.strMeet(b.S, f)
				}
				if !t.bot {
					if f, ok := t.strFact(b.S); ok {
						t.strMeet(a.S, f)
					}
				}
				if !t.bot {
					t.eqLin(t.strLen(a), t.strLen(b))
				}
			}
		}
		var out []*State
		if !t.bot {
			out = append(out, e.set(t, in, cBool(!neg))...)
		}
		if !st.bot {
			out = append(out, e.set(st, in, cBool(neg))...)
		}
		return out
	}
	// order: a<b is slt(a,b); a<=b is !slt(b,a)
	neg := false
	switch op {
	case token.GTR:
		a, b = b, a
	case token.LEQ:
		a, b, neg = b, a, true
	case token.GEQ:
		neg = true
	}
	if a == b {
		return e.set(st, in, cBool(neg))
	}
	s := term(KInt, "slt", 0, 1, a, b)
	if k, ok := st.baseRange(s).single(); ok {
		return e.set(st, in, cBool((k == 1) != neg))
	}
	t := st.clone()
	t.meetRange(s, rng1(1, 1))
	t.meetRange(term(KInt, "slt", 0, 1, b, a), rng1(0, 0))
	t.meetRange(e.seq(a, b), rng1(0, 0))
	st.meetRange(s, rng1(0, 0))
	var out []*State
	if !t.bot {
		out = append(out, e.set(t, in, cBool(!neg))...)
	}
	if !st.bot {
		out = append(out, e.set(st, in, cBool(neg))...)
	}
	return out
}

func (e *Engine) seq(a, b Str) Sym {
	if b.S < a.S {
		a, b = b, a
	}
	return term(KInt, "seq", 0, 1, a, b)
}

// ---- interfaces ----

func (e *Engine) makeIface(st *State, t types.Type, v Value) Value {
	if u, ok := v.(Uni); ok {
		var a []Value
		for _, x := range u.A {
			a = append(a, e.makeIface(st, t, x))
		}
		return mkUni(a)
	}
	// payload of an opaque value put back into an interface
	return Ifc{t, v}
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	if t == nil {
		return false
	}
	if types.Implements(t, it) {
		return true
	}
	return false
}

func (e *Engine) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert) []*State {
	x := e.get(st, in.X)
	T := in.AssertedType
	iface := isIface(T)
	ok := func(s *State, v Value) []*State {
		if s.bot {
			return nil
		}
		if in.CommaOk {
			return e.set(s, in, Tup{[]Value{v, cBool(true)}})
		}
		e.oblige("assert", fr, s, in, true, "type assertion to "+typeStr(T), nil)
		return e.set(s, in, v)
	}
	bad := func(s *State, what string) []*State {
		if s.bot {
			return nil
		}
		if in.CommaOk {
			return e.set(s, in, Tup{[]Value{e.zero(T), cBool(false)}})
		}
		e.oblige("assert", fr, s, in, false, "type assertion to "+typeStr(T), func() string {
			return "the value may be " + what
		})
		return nil
	}
	switch x := x.(type) {
	case Nil:
		return bad(st, "nil")
	case Ifc:
		if iface {
			if e.implements(x.T, T.Underlying().(*types.Interface)) {
				return ok(st, x)
			}
			return bad(st, typeStr(x.T))
		}
		if types.Identical(x.T, T) {
			return ok(st, x.V)
		}
		return bad(st, typeStr(x.T))
	case Opq:
		m := st.tmask(x.S)
		var yes TMask
		if iface {
			it := T.Underlying().(*types.Interface)
			for i, t := range dynTypes {
				if m&(1<<uint(i)) != 0 && t != nil && e.implements(t, it) {
					yes |= 1 << uint(i)
				}
			}
		} else {
			yes = typeBit(T)
		}
		var out []*State
		no := st.clone()
		no.tmMeet(x.S, ^yes)
		if !no.bot {
			out = append(out, bad(no, tmStr(no.tmask(x.S)))...)
		}
		st.tmMeet(x.S, yes)
		if !st.bot {
			if iface {
				out = append(out, ok(st, x)...)
			} else {
				out = append(out, ok(st, st.payload(x.S, T))...)
			}
		}
		return out
	}
	// unknown
	if in.CommaOk {
		t := st.clone()
		return append(e.set(t, in, Tup{[]Value{e.zero(T), cBool(false)}}), e.set(st, in, Tup{[]Value{e.topVal("assert", T), cBool(true)}})...)
	}
	e.oblige("assert", fr, st, in, false, "type assertion to "+typeStr(T), func() string { return "nothing is known about the value" })
	return e.set(st, in, e.topVal("assert", T))
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ---- indexing ----

func (e *Engine) inBounds(fr *Frame, st *State, in ssa.Instruction, i, n Lin, what string) bool {
	ok := st.leq(cInt(0), i) && st.lt(i, n)
	e.oblige("index", fr, st, in, ok, what, func() string {
		return fmt.Sprintf("index %s is not shown to be within [0,%s): index in %s, length in %s", vStr(i), vStr(n), st.rangeOf(i), st.rangeOf(n))
	})
	if !ok {
		st.addDiff(cInt(0), i, 0)
		st.addDiff(i, n, -1)
	}
	return !st.bot
}

func (e *Engine) indexAddr(fr *Frame, st *State, in *ssa.IndexAddr) []*State {
	i := toLin2(e.get(st, in.Index))
	switch x := e.get(st, in.X).(type) {
	case Slc:
		if !e.inBounds(fr, st, in, i, x.Len, "slice index") {
			return nil
		}
		return e.set(st, in, Ptr{x.O, []PE{{F: -1, I: linAdd(e, st, x.Off, i)}}})
	case Ptr:
		n := int64(-1)
		if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				n = a.Len()
			}
		}
		if n >= 0 && !e.inBounds(fr, st, in, i, cInt(n), "array index") {
			return nil
		}
		return e.set(st, in, Ptr{x.O, append(append([]PE{}, x.Path...), PE{F: -1, I: i})})
	case Nil:
		if _, ok := in.X.Type().Underlying().(*types.Slice); ok {
			e.inBounds(fr, st, in, i, cInt(0), "slice index")
			return nil
		}
		e.derefCheck(fr, st, in, x)
		return nil
	case StrBytes:
		if !e.inBounds(fr, st, in, i, st.strLen(x.S), "slice index") {
			return nil
		}
		return e.set(st, in, Top{in.Type()})
	}
	e.oblige("index", fr, st, in, false, "slice index", func() string { return "nothing is known about the slice" })
	return e.set(st, in, Top{in.Type()})
}

func linAdd(e *Engine, st *State, a, b Lin) Lin {
	if a == cInt(0) {
		return b
	}
	if b == cInt(0) {
		return a
	}
	return toLin2(e.intAdd(st, a, b, types.Typ[types.Int]))
}

func linSub(e *Engine, st *State, a, b Lin) Lin {
	if b == cInt(0) {
		return a
	}
	return toLin2(e.intSub(st, a, b, types.Typ[types.Int]))
}

func (e *Engine) index(fr *Frame, st *State, in *ssa.Index) []*State {
	i := toLin2(e.get(st, in.Index))
	switch x := e.get(st, in.X).(type) {
	case Str:
		if !e.inBounds(fr, st, in, i, st.strLen(x), "string index") {
			return nil
		}
		return e.set(st, in, st.strByte(x, i))
	case Strct:
		if !e.inBounds(fr, st, in, i, cInt(int64(len(x.F))), "array index") {
			return nil
		}
		v := e.getPath(st, x, []PE{{F: -1, I: i}})
		return e.set(st, in, v)
	}
	e.oblige("index", fr, st, in, false, "index", func() string { return "nothing is known about the operand" })
	return e.set(st, in, e.topVal("index", in.Type()))
}

func (e *Engine) slice(fr *Frame, st *State, in *ssa.Slice) []*State {
	lo := cInt(0)
	if in.Low != nil {
		lo = toLin2(e.get(st, in.Low))
	}
	x := e.get(st, in.X)
	chk := func(hi, limit Lin) bool {
		ok := st.leq(cInt(0), lo) && st.leq(lo, hi) && st.leq(hi, limit)
		e.oblige("slice", fr, st, in, ok, "slice bounds", func() string {
			return fmt.Sprintf("bounds %s:%s are not shown to be within 0:%s (low %s, high %s)", vStr(lo), vStr(hi), vStr(limit), st.rangeOf(lo), st.rangeOf(hi))
		})
		if !ok {
			st.addDiff(cInt(0), lo, 0)
			st.addDiff(lo, hi, 0)
			st.addDiff(hi, limit, 0)
		}
		return !st.bot
	}
	switch x := x.(type) {
	case Slc:
		hi := x.Len
		if in.High != nil {
			hi = toLin2(e.get(st, in.High))
		}
		if !chk(hi, x.Cap) {
			return nil
		}
		cp := x.Cap
		if in.Max != nil {
			cp = toLin2(e.get(st, in.Max))
			ok := st.leq(hi, cp) && st.leq(cp, x.Cap)
			e.oblige("slice", fr, st, in, ok, "slice capacity", nil)
		}
		if y := e.obj(st, x.O); y != nil && !x.O.isVirt() && !st.leq(hi, x.Len) {
			// the spare storage of an array comes into view
			n := y.copy()
			n.hw = nil
			if t, ok := in.Type().Underlying().(*types.Slice); ok && y.z == nil {
				n.def = e.weakVal(st, y.def, e.zero(t.Elem()), true)
			}
			st.heap.set(x.O, n)
		}
		return e.set(st, in, Slc{x.O, linAdd(e, st, x.Off, lo), linSub(e, st, hi, lo), linSub(e, st, cp, lo)})
	case Str:
		n := st.strLen(x)
		hi := n
		if in.High != nil {
			hi = toLin2(e.get(st, in.High))
		}
		if !chk(hi, n) {
			return nil
		}
		return e.set(st, in, e.substr(st, x, lo, hi))
	case Ptr: // pointer to array
		n := int64(0)
		if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				n = a.Len()
			}
		}
		hi := cInt(n)
		if in.High != nil {
			hi = toLin2(e.get(st, in.High))
		}
		if !chk(hi, cInt(n)) {
			return nil
		}
		if len(x.Path) > 0 {
			return e.set(st, in, Top{in.Type()})
		}
		return e.set(st, in, Slc{x.O, lo, linSub(e, st, hi, lo), linSub(e, st, cInt(n), lo)})
	case Nil:
		hi := cInt(0)
		if in.High != nil {
			hi = toLin2(e.get(st, in.High))
		}
		if !chk(hi, cInt(0)) {
			return nil
		}
		return e.set(st, in, Nil{})
	case StrBytes:
		n := st.strLen(x.S)
		hi := n
		if in.High != nil {
			hi = toLin2(e.get(st, in.High))
		}
		if !chk(hi, n) {
			return nil
		}
		return e.set(st, in, StrBytes{e.substr(st, x.S, lo, hi).(Str)})
	}
	e.oblige("slice", fr, st, in, false, "slice bounds", func() string { return "nothing is known about the operand" })
	return e.set(st, in, Top{in.Type()})
}

func (e *Engine) substr(st *State, x Str, lo, hi Lin) Value {
	n := st.strLen(x)
	if lo == cInt(0) && hi == n {
		return x
	}
	if c, ok := st.sval(x); ok {
		a, ok1 := st.cval(lo)
		b, ok2 := st.cval(hi)
		if ok1 && ok2 && a >= 0 && a <= b && b <= int64(len(c)) {
			return strConst(c[a:b])
		}
	}
	r := Str{term(KStr, "substr", 0, 0, x, lo, hi)}
	l := st.strLen(r)
	d := linSub(e, st, hi, lo)
	st.eqLin(l, d)
	return r
}

func (e *Engine) makeSlice(fr *Frame, st *State, in *ssa.MakeSlice) []*State {
	n := toLin2(e.get(st, in.Len))
	c := toLin2(e.get(st, in.Cap))
	if k, ok := st.cval(n); ok {
		n = cInt(k)
	}
	if k, ok := st.cval(c); ok {
		c = cInt(k)
	}
	ok := st.leq(cInt(0), n) && st.leq(n, c)
	e.oblige("makeslice", fr, st, in, ok, "make", func() string {
		return fmt.Sprintf("length %s (in %s) and capacity %s are not shown to be valid", vStr(n), st.rangeOf(n), vStr(c))
	})
	if !ok {
		st.addDiff(cInt(0), n, 0)
		st.addDiff(n, c, 0)
		if st.bot {
			return nil
		}
	}
	el := in.Type().Underlying().(*types.Slice).Elem()
	h := n
	o := e.newObj(fr, st, in, &Obj{kind: 'a', typ: in.Type(), hw: &h, z: &Zone{cInt(0), c, e.zero(el)}})
	return e.set(st, in, Slc{o, cInt(0), n, c})
}

// ---- maps ----

// hashable checks that a key can be used in a map.
func (e *Engine) hashable(fr *Frame, st *State, in ssa.Instruction, k Value) {
	bad := ""
	switch k := k.(type) {
	case Ifc:
		if !types.Comparable(k.T) {
			bad = typeStr(k.T)
		}
	case Opq:
		for _, t := range bitsTypes(st.tmask(k.S)) {
			if t != nil && !types.Comparable(t) {
				bad = typeStr(t)
			}
		}
	case Top:
		bad = "unknown"
	}
	e.oblige("hash", fr, st, in, bad == "", "map key", func() string { return "the key may be of unhashable type " + bad })
}

// keyEq compares map keys: 1, 0 or -1.
func (e *Engine) keyEq(st *State, a, b Value) int {
	if sameVal(a, b) {
		return 1
	}
	switch x := a.(type) {
	case Str:
		y, ok := b.(Str)
		if !ok {
			return 0
		}
		ca, ok1 := st.sval(x)
		cb, ok2 := st.sval(y)
		if ok1 && ok2 {
			if ca == cb {
				return 1
			}
			return 0
		}
		if ok2 {
			ca, x, ok1, cb = cb, y, true, ca
			if f, ok := st.strFact(a.(Str).S); ok && len(sfMeet(f, StrFact{true, []string{ca}}).s) == 0 {
				return 0
			}
		} else if ok1 {
			if f, ok := st.strFact(y.S); ok && len(sfMeet(f, StrFact{true, []string{ca}}).s) == 0 {
				return 0
			}
		} else if k, ok := st.baseRange(e.seq(x, y)).single(); ok {
			return int(k)
		}
		return -1
	case Lin:
		y, ok := b.(Lin)
		if !ok {
			return 0
		}
		if !x.eqPossible(st, y) {
			return 0
		}
		if st.diffL(x, y) <= 0 && st.diffL(y, x) <= 0 {
			return 1
		}
		return -1
	case Ifc:
		y, ok := b.(Ifc)
		if !ok {
			if _, ok := b.(Nil); ok {
				return 0
			}
			return -1
		}
		if !types.Identical(x.T, y.T) {
			return 0
		}
		return e.keyEq(st, x.V, y.V)
	case Flt:
		y := b.(Flt)
		c := st.fcmp(x.S, y.S)
		if c == cEQ {
			return 1
		}
		if c&cEQ == 0 {
			return 0
		}
		return -1
	case Ptr:
		y, ok := b.(Ptr)
		if !ok || x.O != y.O {
			return 0
		}
		if o := e.obj(st, x.O); o == nil || o.many {
			return -1
		}
		return 1
	case Bl:
		y, ok := b.(Bl)
		if !ok {
			return 0
		}
		va, k1 := st.bval(x)
		vb, k2 := st.bval(y)
		if k1 && k2 {
			if va == vb {
				return 1
			}
			return 0
		}
		return -1
	case Nil:
		if _, ok := b.(Nil); ok {
			return 1
		}
		return 0
	case Strct:
		y, ok := b.(Strct)
		if !ok || len(x.F) != len(y.F) {
			return -1
		}
		r := 1
		for i := range x.F {
			switch e.keyEq(st, x.F[i], y.F[i]) {
			case 0:
				return 0
			case -1:
				r = -1
			}
		}
		return r
	}
	return -1
}

func (e *Engine) assumeKeyEq(st *State, a, b Value, eq bool) {
	switch x := a.(type) {
	case Str:
		y, ok := b.(Str)
		if !ok {
			return
		}
		ca, ok1 := st.sval(x)
		cb, ok2 := st.sval(y)
		switch {
		case ok2:
			st.strMeet(x.S, StrFact{eq, []string{cb}})
		case ok1:
			st.strMeet(y.S, StrFact{eq, []string{ca}})
		default:
			k := int64(0)
			if eq {
				k = 1
			}
			st.meetRange(e.seq(x, y), rng1(k, k))
		}
	case Lin:
		if y, ok := b.(Lin); ok {
			if eq {
				st.eqLin(x, y)
			} else {
				st.neLin(x, y)
			}
		}
	case Ifc:
		if y, ok := b.(Ifc); ok {
			e.assumeKeyEq(st, x.V, y.V, eq)
		}
	case Flt:
		if y, ok := b.(Flt); ok {
			if eq {
				st.fcmpMeet(x.S, y.S, cEQ)
			} else {
				st.fcmpMeet(x.S, y.S, cAll&^cEQ)
			}
		}
	}
}

func (e *Engine) lookup(fr *Frame, st *State, in *ssa.Lookup) []*State {
	res := func(s *State, v Value, ok bool) []*State {
		if s.bot {
			return nil
		}
		if in.CommaOk {
			return e.set(s, in, Tup{[]Value{v, cBool(ok)}})
		}
		return e.set(s, in, v)
	}
	x := e.get(st, in.X)
	k := e.get(st, in.Index)
	if s, ok := x.(Str); ok { // string index
		i := toLin2(k)
		if !e.inBounds(fr, st, in, i, st.strLen(s), "string index") {
			return nil
		}
		return e.set(st, in, st.strByte(s, i))
	}
	mt, isMap := in.X.Type().Underlying().(*types.Map)
	if !isMap {
		return e.set(st, in, e.topVal("lookup", in.Type()))
	}
	if isIface(mt.Key()) {
		e.hashable(fr, st, in, k)
	}
	switch m := x.(type) {
	case Nil:
		return res(st, e.zero(mt.Elem()), false)
	case MapV:
		if m.O.isVirt() {
			s := m.O.name().virt
			ks, ok := k.(Str)
			if !ok {
				break
			}
			h := opqTermV("oh", s, []Value{ks}).(Lin)
			t := st.clone()
			t.meetLin(h, rng1(1, 1))
			st.meetLin(h, rng1(0, 0))
			var out []*State
			if !t.bot {
				t.meetLin(opqTermV("om", s, nil).(Lin), rng1(1, maxI))
				out = append(out, res(t, opqTermV("ok", s, []Value{ks}), true)...)
			}
			return append(out, res(st, e.zero(mt.Elem()), false)...)
		}
		o := e.obj(st, m.O)
		if o == nil {
			break
		}
		var out []*State
		rest := st
		for _, en := range o.ents {
			c := e.keyEq(rest, k, en.K)
			if o.many && c == 1 {
				c = -1
			}
			switch c {
			case 1:
				return append(out, res(rest, en.V, true)...)
			case -1:
				t := rest.clone()
				e.assumeKeyEq(t, k, en.K, true)
				if !t.bot {
					out = append(out, res(t, en.V, true)...)
				}
				if !o.many {
					rest = rest.clone()
					e.assumeKeyEq(rest, k, en.K, false)
					if rest.bot {
						return out
					}
				}
			}
		}
		if o.mk != nil && e.keyEq(rest, k, inst(rest, o.mk)) != 0 {
			t := rest.clone()
			out = append(out, res(t, inst(t, o.mv), true)...)
		}
		return append(out, res(rest, e.zero(mt.Elem()), false)...)
	}
	// unknown map
	t := st.clone()
	out := res(t, e.topVal("lookup", mt.Elem()), true)
	return append(out, res(st, e.zero(mt.Elem()), false)...)
}

func (e *Engine) mapUpdate(fr *Frame, st *State, in *ssa.MapUpdate) []*State {
	k, v := e.get(st, in.Key), e.get(st, in.Value)
	mt := in.Map.Type().Underlying().(*types.Map)
	if isIface(mt.Key()) {
		e.hashable(fr, st, in, k)
	}
	switch m := e.get(st, in.Map).(type) {
	case Nil:
		e.oblige("nilmap", fr, st, in, false, "map assignment", func() string { return "the map may be nil" })
		return nil
	case MapV:
		e.wrote(fr, st, in, m.O)
		if m.O.isVirt() {
			return []*State{st}
		}
		o := e.obj(st, m.O)
		if o == nil {
			break
		}
		n := o.copy()
		n.ents = append([]MEnt{}, o.ents...)
		if !o.many {
			for i, en := range n.ents {
				switch e.keyEq(st, k, en.K) {
				case 1:
					n.ents[i].V = v
					st.heap.set(m.O, n)
					return []*State{st}
				case -1:
					// may be the same key
					n.ents[i].V = e.weakVal(st, en.V, v, true)
					n.mk = e.weakVal(st, n.mk, k, true)
					n.mv = e.weakVal(st, n.mv, v, true)
					st.heap.set(m.O, n)
					return []*State{st}
				}
			}
			if len(n.ents) < 120 && n.mk == nil {
				n.ents = append(n.ents, MEnt{k, v})
				st.heap.set(m.O, n)
				return []*State{st}
			}
		}
		n.mk = e.weakVal(st, n.mk, k, true)
		n.mv = e.weakVal(st, n.mv, v, true)
		st.heap.set(m.O, n)
		return []*State{st}
	}
	return []*State{st}
}

// ---- iteration ----

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var r [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			r = append(r, q)
		}
	}
	return r
}

func (e *Engine) next(fr *Frame, st *State, in *ssa.Next) []*State {
	it, ok := e.get(st, in.Iter).(Ptr)
	tt := in.Type().(*types.Tuple)
	done := func(s *State) []*State {
		return e.set(s, in, Tup{[]Value{cBool(false), e.zeroOrInvalid(tt.At(1).Type()), e.zeroOrInvalid(tt.At(2).Type())}})
	}
	yield := func(s *State, k, v Value) []*State {
		return e.set(s, in, Tup{[]Value{cBool(true), k, v}})
	}
	if !ok {
		t := st.clone()
		return append(done(t), yield(st, e.topVal("k", tt.At(1).Type()), e.topVal("v", tt.At(2).Type()))...)
	}
	x := e.obj(st, it.O)
	switch m := x.val.(type) {
	case Nil:
		return done(st)
	case Tup:
		if x.many {
			break
		}
		if len(m.V) == 0 {
			return done(st)
		}
		n := x.copy()
		n.val = Tup{append([]Value{}, m.V[2:]...)}
		st.heap.set(it.O, n)
		return yield(st, m.V[0], m.V[1])
	case Str:
		n := st.strLen(m)
		out := done(st.clone())
		st.meetLin(n, rng1(1, maxI))
		if st.bot {
			return out
		}
		i := Lin{freshInt("ri", 0, maxTextLen), 0}
		st.addDiff(i, n, -1)
		return append(out, yield(st, i, Lin{freshInt("rune", 0, 0x10ffff), 0})...)
	case MapV:
		if m.O.isVirt() {
			s := m.O.name().virt
			om := opqTermV("om", s, nil).(Lin)
			out := done(st.clone())
			st.meetLin(om, rng1(1, maxI))
			if st.bot {
				return out
			}
			k := freshStr("key")
			st.meetLin(opqTermV("oh", s, []Value{k}).(Lin), rng1(1, 1))
			return append(out, yield(st, k, opqTermV("ok", s, []Value{k}))...)
		}
		o := e.obj(st, m.O)
		out := done(st.clone())
		for _, en := range o.ents {
			t := st.clone()
			out = append(out, yield(t, en.K, en.V)...)
		}
		if o.mk != nil {
			t := st.clone()
			out = append(out, yield(t, inst(t, o.mk), inst(t, o.mv))...)
		}
		return out
	}
	t := st.clone()
	return append(done(t), yield(st, e.topVal("k", tt.At(1).Type()), e.topVal("v", tt.At(2).Type()))...)
}

func (e *Engine) zeroOrInvalid(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return cInt(0)
	}
	return e.zero(t)
}

// ---- conversions ----

func (e *Engine) convert(fr *Frame, st *State, in ssa.Instruction, x Value, from, to types.Type) Value {
	switch {
	case isInt(from) && isInt(to):
		bits, _ := intBits(to)
		switch v := x.(type) {
		case Lin:
			lo, hi := intRange(to)
			r := st.rangeOf(v)
			if !r.empty() && r.lo() >= lo && r.hi() <= hi {
				return v
			}
			b, _ := e.toBits(st, v, bits)
			return e.normBits(st, b, to)
		case Bits:
			fb, fs := intBits(from)
			if fs && v.O+v.W == fb && bits > fb {
				return e.topVal("widen", to) // would sign-extend a field at the top
			}
			b, _ := e.toBits(st, v, bits)
			return e.normBits(st, b, to)
		}
		return e.topVal("conv", to)
	case isInt(from) && isFlt(to):
		if l, ok := x.(Lin); ok {
			if k, ok := st.cval(l); ok {
				return fltConst(float64(k))
			}
			return Flt{term(KFlt, "i2f", 0, 0, l)}
		}
		return freshFlt("conv")
	case isFlt(from) && isInt(to):
		if f, ok := x.(Flt); ok {
			if i := info(f.S); i.op == "fconst" && i.fval == math.Trunc(i.fval) && math.Abs(i.fval) < 1<<53 {
				return cInt(int64(i.fval))
			}
			lo, hi := intRange(to)
			bits, _ := intBits(to)
			return Lin{term(KInt, fmt.Sprintf("f2i%d", bits), lo, hi, f), 0}
		}
		return e.topVal("conv", to)
	case isFlt(from) && isFlt(to):
		fb, tb := from.Underlying().(*types.Basic).Kind(), to.Underlying().(*types.Basic).Kind()
		if fb == tb || tb == types.Float64 {
			return x
		}
		if f, ok := x.(Flt); ok {
			return Flt{term(KFlt, "f32", 0, 0, f)}
		}
	case isStr(from) && isStr(to):
		return x
	case isInt(from) && isStr(to):
		if l, ok := x.(Lin); ok {
			if k, ok := st.cval(l); ok {
				return strConst(string(rune(k)))
			}
			return Str{term(KStr, "runestr", 0, 0, l)}
		}
	case isStr(from):
		if s, ok := to.Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				if x, ok := x.(Str); ok {
					return StrBytes{x}
				}
			}
		}
		return e.topVal("conv", to)
	case isStr(to):
		if b, ok := x.(StrBytes); ok {
			return b.S
		}
		return freshStr("conv")
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	return e.topVal("conv", to)
}

// ---- channels ----

// collapseQ forgets the order and number of the values sent on x.
func (e *Engine) collapseQ(st *State, x *Obj) {
	for _, v := range x.q {
		x.elem = e.weakVal(st, x.elem, v, true)
	}
	x.q, x.qok = nil, false
}

func (e *Engine) send(fr *Frame, st *State, in *ssa.Send) []*State {
	c, ok := e.get(st, in.Chan).(ChanV)
	if !ok {
		e.event("chan-unknown", fr, in, "sends on an unknown channel")
		return []*State{st}
	}
	x := e.obj(st, c.O)
	n := x.copy()
	if n.qok && !n.many && len(n.q) < 64 {
		n.q = append(append([]Value{}, n.q...), e.get(st, in.X))
	} else {
		e.collapseQ(st, n)
		n.elem = e.weakVal(st, n.elem, e.get(st, in.X), true)
	}
	st.heap.set(c.O, n)
	if x.ch.Closed {
		e.oblige("chan", fr, st, in, false, "send", func() string { return "sends on a channel that may have been closed" })
	}
	if fr.producer != c.O && !x.ch.Buf {
		e.event("chan-block", fr, in, "sends on a channel outside the goroutine started for it")
	}
	return []*State{st}
}

func (e *Engine) recv(fr *Frame, st *State, in *ssa.UnOp) []*State {
	c, ok := e.get(st, in.X).(ChanV)
	et := in.X.Type().Underlying().(*types.Chan).Elem()
	res := func(s *State, v Value, ok bool) []*State {
		if in.CommaOk {
			return e.set(s, in, Tup{[]Value{v, cBool(ok)}})
		}
		return e.set(s, in, v)
	}
	if !ok {
		e.event("chan-unknown", fr, in, "receives from an unknown channel")
		t := st.clone()
		return append(res(t, e.topVal("recv", et), true), res(st, e.zero(et), false)...)
	}
	x := e.obj(st, c.O)
	if x == nil {
		return res(st, e.topVal("recv", et), true)
	}
	if !x.ch.Started {
		e.event("chan-block", fr, in, "receives from a channel nothing sends on")
	}
	if !x.ch.Closed {
		e.event("chan-noclose", fr, in, "receives from a channel that its sender does not always close")
	}
	var out []*State
	if x.qok && !x.many && len(x.q) > 0 {
		n := x.copy()
		v := n.q[0]
		n.q = append([]Value{}, n.q[1:]...)
		st.heap.set(c.O, n)
		return res(st, v, true)
	}
	if x.elem != nil && !x.qok && !x.ch.Drained {
		t := st.clone()
		out = append(out, res(t, inst(t, x.elem), true)...)
	}
	// closed
	n := x.copy()
	n.ch.Drained = true
	st.heap.set(c.O, n)
	// storage lent to the goroutine comes back
	for _, id := range splitIDs(x.ch.Shared) {
		if o := st.obj(id); o != nil && o.flags&flShared != 0 {
			still := false
			for q, y := range st.heap.m {
				if q != c.O && y.kind == 'h' && !y.ch.Drained && hasID(y.ch.Shared, id) {
					still = true
				}
			}
			if !still {
				m := o.copy()
				m.flags &^= flShared
				st.heap.set(id, m)
			}
		}
	}
	return append(out, res(st, e.zero(et), false)...)
}

func splitIDs(s string) []ObjID {
	var r []ObjID
	for _, f := range strings.Fields(s) {
		var k int
		fmt.Sscanf(f, "%d", &k)
		r = append(r, ObjID(k))
	}
	return r
}
func hasID(s string, o ObjID) bool {
	for _, x := range splitIDs(s) {
		if x == o {
			return true
		}
	}
	return false
}

func (e *Engine) selectStmt(fr *Frame, st *State, in *ssa.Select) []*State {
	e.unsupported(fr, in, "select statement")
	return e.set(st, in, e.topVal("select", in.Type()))
}
