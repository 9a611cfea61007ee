package main

// Nodes of the parser's tree: a value put into the interfaces Expr or Val stands
// for any node; what nodes contain is collected per type of node.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Nodes describes the nodes seen.
type Nodes struct {
	e             *Engine
	expr, val     types.Type // the interfaces
	all           []types.Type
	objs          map[ObjID]types.Type    // representative of a type's nodes
	ops           map[string]map[int]RSet // integer fields, by type
	nilKid        map[string]string       // fields that may be nil
	collect       bool
	exprM, valM   TMask
	error, lexeme types.Type
	onReturn      func(fn *ssa.Function, st *State, failed bool)
	used          map[string]string // what was relied on
}

// payloadHook gives the contents of an opaque interface value of a pointer type.
var payloadHook func(t types.Type) Value

func newNodes(P *Prog, e *Engine) *Nodes {
	n := &Nodes{e: e, objs: map[ObjID]types.Type{}, ops: map[string]map[int]RSet{}, error: types.Universe.Lookup("error").Type(), nilKid: map[string]string{}}
	pk := P.spkgs[modPath+"/paths"].Pkg
	for _, x := range []struct {
		name string
		t    *types.Type
	}{{"Expr", &n.expr}, {"Val", &n.val}} {
		o := pk.Scope().Lookup(x.name)
		if o == nil || !isIface(o.Type()) {
			panic(tooMuch{"no interface paths." + x.name})
		}
		*x.t = o.Type()
	}
	n.lexeme = pk.Scope().Lookup("lexeme").Type()
	// the types the parser's functions convert to nodes
	for _, f := range P.fns {
		if f.Pkg == nil || f.Pkg.Pkg != pk {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok && n.is(mi.Type()) {
					n.saw(mi.X.Type())
				}
			}
		}
	}
	return n
}

// any gives an opaque value of interface type t.
func (n *Nodes) any(t types.Type) Value {
	m := n.valM
	if types.Identical(t, n.expr) {
		m = n.exprM
	}
	n.use("any "+typeStr(t), fmt.Sprint(m))
	return freshOpq("node", m, "")
}

// use notes that an analysis relies on a fact, which must not change later on.
func (n *Nodes) use(what, fact string) {
	if n.used == nil {
		n.used = map[string]string{}
	}
	if _, ok := n.used[what]; !ok {
		n.used[what] = fact
	}
}

// adopt takes over what another analysis has seen.
func (n *Nodes) adopt(o *Nodes) {
	n.all, n.exprM, n.valM = o.all, o.exprM, o.valM
	for k, m := range o.ops {
		n.ops[k] = map[int]RSet{}
		for i, r := range m {
			n.ops[k][i] = r
		}
	}
}

// stale tells whether facts relied on have changed.
func (n *Nodes) stale() bool {
	old := n.used
	n.used = nil
	for w, f := range old {
		now := ""
		if t := strings.TrimPrefix(w, "any "); t != w {
			m := n.valM
			if t == typeStr(n.expr) {
				m = n.exprM
			}
			now = fmt.Sprint(m)
		} else {
			var k string
			var i int
			fmt.Sscanf(w, "field %s %d", &k, &i)
			now = n.ops[k][i].String()
		}
		if now != f {
			return true
		}
	}
	return false
}

func (n *Nodes) is(t types.Type) bool {
	return types.Identical(t, n.expr) || types.Identical(t, n.val)
}

// saw notes a type of node.
func (n *Nodes) saw(t types.Type) {
	for _, x := range n.all {
		if types.Identical(x, t) {
			return
		}
	}
	n.all = append(n.all, t)
	b := typeBit(t)
	if n.e.implements(t, n.expr.Underlying().(*types.Interface)) {
		n.exprM |= b
	}
	n.valM |= b
}

// iface is the value of v, of type t, converted to interface type to.
func (n *Nodes) iface(st *State, to, t types.Type, v Value) (Value, bool) {
	if types.Identical(to, n.error) {
		return n.err(), true
	}
	if !n.is(to) {
		return nil, false
	}
	if _, ok := v.(Nil); ok {
		return nil, false
	}
	if u, ok := v.(Uni); ok {
		for _, a := range u.A {
			n.iface(st, to, t, a)
		}
		return n.any(to), true
	}
	n.saw(t)
	if p, ok := v.(Ptr); ok && len(p.Path) == 0 {
		if x := n.e.obj(st, p.O); x != nil && n.objs[p.O] == nil {
			n.contents(st, t, x.val)
		}
	}
	return n.any(to), true
}

// contents notes what a node holds.
func (n *Nodes) contents(st *State, t types.Type, v Value) {
	s, ok := v.(Strct)
	if !ok {
		return
	}
	for i, f := range s.F {
		n.field(st, t, i, f)
	}
}

func (n *Nodes) field(st *State, t types.Type, i int, f Value) {
	k := typeStr(t)
	switch f := f.(type) {
	case Lin:
		m := n.ops[k]
		if m == nil {
			m = map[int]RSet{}
			n.ops[k] = m
		}
		m[i] = m[i].join(st.rangeOf(f))
	case Slc:
		n.elems(st, k, f)
	}
}

// elems checks the elements of a node's list.
func (n *Nodes) elems(st *State, k string, f Slc) {
	x := n.e.obj(st, f.O)
	if x == nil {
		return
	}
	if l, ok := st.cval(f.Len); ok && l == 0 {
		return
	}
	off, ok := st.cval(f.Off)
	if !ok {
		n.nilKid[k] = "unknown"
		return
	}
	y := st.clone()
	at := Lin{freshInt("kid", 0, maxDocLen), 0}
	y.addDiff(at, f.Len, -1)
	if y.bot {
		return
	}
	n.e.elemAt(y, f.O, Lin{at.B, at.K + off}, func(z *State, v Value) []*State {
		if mayBeNil(z, v) {
			n.nilKid[k] = vStr(v)
		}
		return nil
	})
}

func mayBeNil(st *State, v Value) bool {
	switch v := v.(type) {
	case Nil:
		return true
	case Uni:
		for _, a := range v.A {
			if mayBeNil(st, a) {
				return true
			}
		}
	case Opq:
		return st.tmask(v.S)&1 != 0
	case Top:
		return true
	}
	return false
}

// store notes an assignment into a node.
func (n *Nodes) store(st *State, in ssa.Instruction, p Ptr, v Value) {
	s, ok := in.(*ssa.Store)
	if !ok {
		return
	}
	if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
		t := fa.X.Type()
		for _, x := range n.all {
			if types.Identical(t, x) {
				n.field(st, t, fa.Field, v)
			}
		}
	}
}

// pointee is the representative of the nodes of pointer type t.
func (n *Nodes) pointee(t types.Type) Value {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	o := objID(ObjName{site: "node:" + typeStr(t)})
	if n.e.gheap[o] == nil {
		su, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		x := n.e.newObjOf(pt.Elem())
		x.many = true
		f := make([]Value, su.NumFields())
		for i := range f {
			f[i] = n.e.topVal("node", su.Field(i).Type())
			if s, ok := symOf(f[i]); ok {
				info(s).generic = true
			}
			ft := su.Field(i).Type()
			if sl, ok := ft.Underlying().(*types.Slice); ok && n.is(sl.Elem()) {
				ao := objID(ObjName{site: "kids:" + typeStr(t)})
				el := n.any(sl.Elem()).(Opq)
				info(el.S).generic = true
				n.e.gheap[ao] = &Obj{kind: 'a', typ: types.NewSlice(sl.Elem()), def: el, many: true}
				ln := freshInt("kids", 0, maxDocLen)
				info(ln).generic = true
				f[i] = Slc{ao, cInt(0), Lin{ln, 0}, Lin{ln, 0}}
			} else if n.is(ft) {
				el := n.any(ft).(Opq)
				info(el.S).generic = true
				info(el.S).tm |= 1
				f[i] = el
			}
		}
		x.val = Strct{f}
		n.e.gheap[o] = x
		n.objs[o] = t
	}
	return Ptr{O: o}
}

// load narrows a number loaded from a node.
func (n *Nodes) load(st *State, p Ptr, v Value) {
	t := n.objs[p.O]
	if t == nil {
		return
	}
	m := n.ops[typeStr(t)]
	if len(p.Path) == 1 {
		if l, ok := v.(Lin); ok && m[p.Path[0].F] != nil {
			n.use(fmt.Sprintf("field %s %d", typeStr(t), p.Path[0].F), m[p.Path[0].F].String())
			st.meetLin(l, m[p.Path[0].F])
		}
	}
	if s, ok := v.(Strct); ok && len(p.Path) == 0 {
		for i, f := range s.F {
			if l, ok := f.(Lin); ok && m[i] != nil {
				n.use(fmt.Sprintf("field %s %d", typeStr(t), i), m[i].String())
				st.meetLin(l, m[i])
			}
		}
	}
}

func (n *Nodes) String() string {
	var b []string
	for _, t := range n.all {
		k := typeStr(t)
		s := k
		for i, r := range n.ops[k] {
			s += " " + string(rune('0'+i)) + ":" + r.String()
		}
		if x := n.nilKid[k]; x != "" {
			s += " nil:" + x
		}
		b = append(b, s)
	}
	sort.Strings(b)
	return strings.Join(b, "\n")
}

// err is any error.
func (n *Nodes) err() Value { return freshOpq("err", typeBit(n.e.errT), "") }

// counter reports whether a field of the parser or its parts is a plain int:
// positions and nesting depth, which may be anything.
func (n *Nodes) counter(t types.Type, path []PE) bool {
	return len(path) > 0 && types.Identical(n.fieldType(t, path), types.Typ[types.Int])
}

// fieldType is the type of a part of a struct of the parser's package.
func (n *Nodes) fieldType(t types.Type, path []PE) types.Type {
	no := types.Typ[types.Invalid]
	nt, ok := t.(*types.Named)
	if !ok || nt.Obj().Pkg() == nil || nt.Obj().Pkg().Path() != modPath+"/paths" {
		return no
	}
	for _, pe := range path {
		st, ok := t.Underlying().(*types.Struct)
		if !ok || pe.F < 0 {
			return no
		}
		t = st.Field(pe.F).Type()
	}
	return t
}

// fresh is v of type t with counters as anything.
func (n *Nodes) fresh(t types.Type, v Value) Value {
	switch x := v.(type) {
	case Lin:
		if types.Identical(t, types.Typ[types.Int]) {
			return Lin{freshInt("n", minI, maxI), 0}
		}
	case Strct:
		if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() == len(x.F) {
			r := Strct{make([]Value, len(x.F))}
			for i := range x.F {
				r.F[i] = n.fresh(st.Field(i).Type(), x.F[i])
			}
			return r
		}
	}
	return v
}

// forget is what to store for v: counters are not followed.
func (n *Nodes) forget(t types.Type, path []PE, v Value) Value {
	if _, ok := v.(Lin); ok && n.counter(t, path) {
		return cInt(0)
	}
	return v
}

// loaded is v, read from a struct, with counters as anything.
func (n *Nodes) loaded(t types.Type, path []PE, v Value) Value {
	if x, ok := v.(Ifc); ok && x.T != n.e.errT && n.e.implements(x.T, n.error.Underlying().(*types.Interface)) {
		return n.err()
	}
	return n.fresh(n.fieldType(t, path), v)
}

// tidy drops the lexeme kept by a lexer that is not to deliver it again, or by any
// lexer once an error has been found: it may be anything.
func (n *Nodes) tidy(st *State, failed bool) {
	var os []ObjID
	for o := range st.heap.m {
		os = append(os, o)
	}
	for _, o := range os {
		x := st.obj(o)
		if x.kind != 'c' || x.many {
			continue
		}
		if v, ok := n.tidied(st, x.typ, x.val, failed); ok {
			y := x.copy()
			y.val = v
			st.heap.set(o, y)
		}
	}
}

func (n *Nodes) tidied(st *State, t types.Type, v Value, failed bool) (Value, bool) {
	su, ok := t.Underlying().(*types.Struct)
	s, ok2 := v.(Strct)
	if !ok || !ok2 || su.NumFields() != len(s.F) {
		return v, false
	}
	lex, peek, bools := -1, -1, 0
	for i := 0; i < su.NumFields(); i++ {
		ft := su.Field(i).Type()
		if types.Identical(ft, n.lexeme) {
			lex = i
		} else if types.Identical(ft, types.Typ[types.Bool]) {
			peek = i
			bools++
		}
	}
	r := Strct{append([]Value{}, s.F...)}
	done := false
	if lex >= 0 && bools == 1 {
		b, ok := s.F[peek].(Bl)
		if !ok {
			return v, false
		}
		k, known := st.bval(b)
		if failed {
			r.F[peek] = freshBool("peek")
			done = true
		} else if known && !k {
			r.F[peek] = cBool(false)
			done = true
		}
		if done {
			ls := n.lexeme.Underlying().(*types.Struct)
			f := make([]Value, ls.NumFields())
			for i := range f {
				ft := ls.Field(i).Type()
				switch {
				case types.Identical(ft, n.error):
					f[i] = freshOpq("lexerr", typeBit(n.e.errT)|1, "")
				case isIface(ft):
					f[i] = freshOpq("lexval", typeBit(stringT)|typeBit(int64T)|typeBit(float64T)|1, "")
				default:
					f[i] = n.e.topVal("lextok", ft)
				}
			}
			r.F[lex] = Strct{f}
		}
	}
	for i := range r.F {
		if i == lex {
			continue
		}
		if w, ok := n.tidied(st, su.Field(i).Type(), r.F[i], failed); ok {
			r.F[i] = w
			done = true
		}
	}
	return r, done
}

// returned tidies up after the function that returned vals.
func (n *Nodes) returned(st *State, fn *ssa.Function, vals []Value) {
	if pkgOf(fn) == nil || pkgOf(fn).Path() != modPath+"/paths" {
		return
	}
	rs := fn.Signature.Results()
	failed := false
	if k := len(vals); k > 0 && k == rs.Len() && types.Identical(rs.At(k-1).Type(), n.error) {
		failed = !mayBeNil(st, vals[k-1])
		n.tidy(st, failed)
	}
	if n.onReturn != nil {
		n.onReturn(fn, st, failed)
	}
}

// peekOf finds in a value of type t a lexer and gives its boolean field.
func (n *Nodes) peekOf(t types.Type, v Value) (Bl, bool) {
	su, ok := t.Underlying().(*types.Struct)
	s, ok2 := v.(Strct)
	if !ok || !ok2 || su.NumFields() != len(s.F) {
		return Bl{}, false
	}
	var b Bl
	lex, bools := false, 0
	for i := 0; i < su.NumFields(); i++ {
		ft := su.Field(i).Type()
		if types.Identical(ft, n.lexeme) {
			lex = true
		} else if x, ok := s.F[i].(Bl); ok {
			b = x
			bools++
		}
	}
	if lex && bools == 1 {
		return b, true
	}
	for i := range s.F {
		if b, ok := n.peekOf(su.Field(i).Type(), s.F[i]); ok {
			return b, true
		}
	}
	return Bl{}, false
}
