package main

// Joins, widening, inclusion of abstract states, garbage collection.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func class(v Value) string {
	switch v := v.(type) {
	case nil:
		return "-"
	case Lin:
		return "i"
	case Bl:
		return "b"
	case Flt:
		return "f"
	case Str:
		return "s"
	case Nil:
		return "n"
	case Opq:
		return "o" + info(v.S).prov
	case Ifc:
		return "I" + typeKey(v.T) + "|" + class(v.V)
	case Ptr:
		var b strings.Builder
		b.WriteByte('P')
		b.WriteString(strconv.Itoa(int(v.O)))
		for _, e := range v.Path {
			if e.F >= 0 {
				b.WriteByte('.')
				b.WriteString(strconv.Itoa(e.F))
			} else {
				b.WriteString("[]")
			}
		}
		return b.String()
	case Slc:
		return "S" + strconv.Itoa(int(v.O))
	case MapV:
		return "M" + strconv.Itoa(int(v.O))
	case ChanV:
		return fmt.Sprintf("C%d", v.O)
	case Fn:
		s := "F" + v.B
		if v.F != nil {
			s += fnName(v.F)
		}
		for _, x := range v.Free {
			s += "," + class(x)
		}
		return s
	case Strct:
		return fmt.Sprintf("t%d", len(v.F))
	case Tup:
		return fmt.Sprintf("u%d", len(v.V))
	case Top:
		return "T" + typeKey(v.T)
	case Bits:
		return fmt.Sprintf("B%d,%d,%d,%x", v.N, v.W, v.O, v.C)
	case StrBytes:
		return "y"
	}
	return "?"
}

// virtual objects must be joined as opaque symbols: their class ignores the symbol
func classV(v Value) string {
	switch v := v.(type) {
	case Slc:
		if v.O.isVirt() {
			return "Sv" + info(v.O.name().virt).prov
		}
	case MapV:
		if v.O.isVirt() {
			return "Mv" + info(v.O.name().virt).prov
		}
	case Ptr:
		if v.O.isVirt() {
			return "Pv" + info(v.O.name().virt).prov
		}
	case Ifc:
		return "I" + typeKey(v.T) + "|" + classV(v.V)
	}
	return class(v)
}

// sameClassV reports whether classV(a) == classV(b).
func sameClassV(a, b Value) bool {
	switch a := a.(type) {
	case Lin:
		_, ok := b.(Lin)
		return ok
	case Flt:
		_, ok := b.(Flt)
		return ok
	case Str:
		_, ok := b.(Str)
		return ok
	case Nil:
		_, ok := b.(Nil)
		return ok
	case Bl:
		_, ok := b.(Bl)
		return ok
	case Opq:
		y, ok := b.(Opq)
		return ok && (a == y || info(a.S).prov == info(y.S).prov)
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return false
		}
		if !a.O.isVirt() && !y.O.isVirt() {
			if a.O != y.O || len(a.Path) != len(y.Path) {
				return false
			}
			for i := range a.Path {
				if f, g := a.Path[i].F, y.Path[i].F; f != g && (f >= 0 || g >= 0) {
					return false
				}
			}
			return true
		}
	case Slc:
		y, ok := b.(Slc)
		if !ok {
			return false
		}
		if !a.O.isVirt() && !y.O.isVirt() {
			return a.O == y.O
		}
	case Ifc:
		y, ok := b.(Ifc)
		return ok && (a.T == y.T || typeKey(a.T) == typeKey(y.T)) && sameClassV(a.V, y.V)
	}
	return classV(a) == classV(b)
}

type joiner struct {
	A, B    *State
	R       *State
	widen   bool
	generic bool
	pairs   map[string]Value
	toA     map[Sym]Value // result symbol -> value in A
	toB     map[Sym]Value
	one     map[Sym]int8 // base symbols that occur in one of the states only: 1 in A, 2 in B
	occ     [2]map[Sym]bool
	hard    bool // no thresholds
	full    bool // whole states are joined
	anch    []map[Sym]bool
}

// in reports whether base symbol s occurs in the values of a side.
func (j *joiner) in(side int, s Sym) bool {
	if j.occ[side] == nil {
		o := map[Sym]bool{}
		st := j.A
		if side == 1 {
			st = j.B
		}
		st.forVals(func(v Value) { forSymsDeep(v, o, func(Sym) {}) })
		j.occ[side] = o
	}
	return j.occ[side][s]
}

// fold merges v into w within one of the states.
func (j *joiner) fold(side int, w, v Value) Value {
	st := j.A
	if side == 1 {
		st = j.B
	}
	r := weakVal(st, w, v, true)
	if j.occ[side] != nil {
		forSymsDeep(r, j.occ[side], func(Sym) {})
	}
	return r
}

// defs joins the summary values of both sides; either may be missing.
func (j *joiner) defs(a, b Value) Value {
	if a == nil && b == nil {
		return nil
	}
	if a == nil {
		j.noteSame(b)
		return b
	}
	if b == nil {
		j.noteSame(a)
		return a
	}
	g := j.generic
	j.generic = true
	r := j.val(a, b)
	j.generic = g
	return r
}

func newJoiner(a, b *State, widen bool) *joiner {
	return &joiner{A: a, B: b, R: newState(), widen: widen, pairs: map[string]Value{}, toA: map[Sym]Value{}, toB: map[Sym]Value{}, one: map[Sym]int8{}}
}

// note records that result symbol s stands for a in A and b in B.
func (j *joiner) note(s Sym, a, b Value) {
	if s == 0 {
		return
	}
	if _, ok := j.toA[s]; !ok {
		j.toA[s], j.toB[s] = a, b
	}
}

func (j *joiner) noteSame(v Value) {
	seen := map[Sym]bool{}
	forSymsDeep(v, seen, func(s Sym) {
		i := info(s)
		if i.op == "" {
			if _, ok := j.toA[s]; !ok && j.A != j.B {
				if a, b := j.in(0, s), j.in(1, s); a && !b {
					j.one[s] = 1
				} else if b && !a {
					j.one[s] = 2
				}
			}
			j.note(s, symVal(s), symVal(s))
		}
	})
}

const maxDepth = 7

// isIdent reports whether all base symbols under v denote the same thing in both states (always true: symbols are global names).
func (j *joiner) val(a, b Value) Value {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if sameVal(a, b) {
		j.noteSame(a)
		return a
	}
	ua, aok := a.(Uni)
	ub, bok := b.(Uni)
	if aok || bok {
		la, lb := []Value{a}, []Value{b}
		if aok {
			la = ua.A
		}
		if bok {
			lb = ub.A
		}
		return j.union(la, lb)
	}
	if classV(a) != classV(b) {
		switch a.(type) {
		case Lin, Bits:
			switch b.(type) {
			case Lin, Bits:
				return j.fresh(KInt, a, b)
			}
		}
		if _, ok := a.(Strct); !ok {
			if t, ok := a.(Top); ok {
				return t
			}
			if t, ok := b.(Top); ok {
				return t
			}
			if l, ok := j.oneLen([]Value{a}, []Value{b}); ok {
				a, b = setLen(a, l), setLen(b, l)
				j.noteRest(a)
				j.noteRest(b)
				return mkUni([]Value{a, b})
			}
			j.noteSame(a)
			j.noteSame(b)
			return mkUni([]Value{a, b})
		}
	}
	switch a := a.(type) {
	case Lin:
		return j.lin(a, b.(Lin))
	case Bl:
		b := b.(Bl)
		l := j.sym(KInt, blVal(a), blVal(b), 0, 1)
		return Bl{l.(Lin).B, 0}
	case Flt:
		return j.sym(KFlt, a, b, 0, 0)
	case Str:
		return j.sym(KStr, a, b, 0, 0)
	case Opq:
		return j.sym(KOpq, a, b, 0, 0)
	case Ifc:
		x := j.val(a.V, b.(Ifc).V)
		if u, ok := x.(Uni); ok {
			var l []Value
			for _, y := range u.A {
				l = append(l, Ifc{a.T, y})
			}
			return mkUni(l)
		}
		return Ifc{a.T, x}
	case Ptr:
		b := b.(Ptr)
		p := Ptr{O: j.vobj(a.O, b.O)}
		for i, e := range a.Path {
			if e.F < 0 {
				e.I = j.lin(e.I, b.Path[i].I)
			}
			p.Path = append(p.Path, e)
		}
		return p
	case Slc:
		b := b.(Slc)
		return Slc{j.vobj(a.O, b.O), j.lin(a.Off, b.Off), j.lin(a.Len, b.Len), j.lin(a.Cap, b.Cap)}
	case MapV:
		return MapV{j.vobj(a.O, b.(MapV).O)}
	case ChanV:
		return a
	case Fn:
		return Fn{a.F, j.list(a.Free, b.(Fn).Free), a.B}
	case Strct:
		b := b.(Strct)
		return Strct{j.list(a.F, b.F)}
	case Tup:
		return Tup{j.list(a.V, b.(Tup).V)}
	case Bits:
		b := b.(Bits)
		a.V = j.lin(a.V, b.V)
		return a
	case StrBytes:
		return StrBytes{j.val(a.S, b.(StrBytes).S).(Str)}
	case Top:
		return a
	}
	panic(fmt.Sprintf("join %s %s", vStr(a), vStr(b)))
}

func blVal(b Bl) Lin {
	if b.S == 0 {
		return Lin{0, int64(b.C)}
	}
	return Lin{b.S, 0}
}

func (j *joiner) vobj(a, b ObjID) ObjID {
	if a == b {
		if a.isVirt() {
			j.noteSame(Opq{a.name().virt})
		}
		return a
	}
	x := j.sym(KOpq, Opq{a.name().virt}, Opq{b.name().virt}, 0, 0)
	return virtObj(x.(Opq).S, a.name().vk)
}

func (j *joiner) list(a, b []Value) []Value {
	r := make([]Value, len(a))
	for i := range a {
		r[i] = j.val(a[i], b[i])
	}
	return r
}

// union joins two sets of alternatives, combining those of one class.
func (j *joiner) union(la, lb []Value) Value {
	groups := map[string][2][]Value{}
	var order []string
	put := func(v Value, side int) {
		c := classV(v)
		g, ok := groups[c]
		if !ok {
			order = append(order, c)
		}
		g[side] = append(g[side], v)
		groups[c] = g
	}
	for _, v := range la {
		put(v, 0)
	}
	for _, v := range lb {
		put(v, 1)
	}
	sort.Strings(order)
	l, shared := j.oneLen(la, lb)
	keep := func(v Value) Value {
		if _, ok := sliceIn(v); ok && shared {
			v = setLen(v, l)
			j.noteRest(v)
			return v
		}
		j.noteSame(v)
		return v
	}
	var out []Value
	for _, c := range order {
		g := groups[c]
		switch {
		case len(g[0]) == 0:
			for _, v := range g[1] {
				out = append(out, keep(v))
			}
		case len(g[1]) == 0:
			for _, v := range g[0] {
				out = append(out, keep(v))
			}
		case len(g[0]) == 1 && len(g[1]) == 1:
			out = append(out, j.val(g[0][0], g[1][0]))
		default:
			same := len(g[0]) == len(g[1])
			if same {
				for i := range g[0] {
					if !sameVal(g[0][i], g[1][i]) {
						same = false
					}
				}
			}
			if same {
				for _, v := range g[0] {
					out = append(out, keep(v))
				}
				continue
			}
			// collapse everything of this class to one generic alternative
			all := append(append([]Value{}, g[0]...), g[1]...)
			acc := all[0]
			for _, v := range all[1:] {
				acc = j.generalise(acc, v)
			}
			if _, ok := sliceIn(acc); ok && shared {
				acc = setLen(acc, l)
			}
			out = append(out, acc)
		}
	}
	return mkUni(out)
}

// oneLen joins the lengths of alternatives that are slices, when those of each side have one length.
func (j *joiner) oneLen(la, lb []Value) (Lin, bool) {
	one := func(l []Value) (Lin, bool) {
		var n Lin
		had := false
		for _, v := range l {
			s, ok := sliceIn(v)
			if !ok {
				continue
			}
			if s.O.isVirt() || had && s.Len != n {
				return n, false
			}
			n, had = s.Len, true
		}
		return n, had
	}
	a, ok1 := one(la)
	b, ok2 := one(lb)
	if !ok1 || !ok2 {
		return Lin{}, false
	}
	return j.lin(a, b), true
}

func sliceIn(v Value) (Slc, bool) {
	if i, ok := v.(Ifc); ok {
		v = i.V
	}
	s, ok := v.(Slc)
	return s, ok
}

func setLen(v Value, l Lin) Value {
	switch x := v.(type) {
	case Ifc:
		return Ifc{x.T, setLen(x.V, l)}
	case Slc:
		x.Len = l
		return x
	}
	return v
}

// noteRest notes the symbols of a slice except its length.
func (j *joiner) noteRest(v Value) {
	s, ok := sliceIn(v)
	if !ok {
		j.noteSame(v)
		return
	}
	j.noteSame(Slc{s.O, s.Off, Lin{}, s.Cap})
}

// generalise merges two alternatives of one class without facts.
func (j *joiner) generalise(a, b Value) Value {
	if sameVal(a, b) {
		return a
	}
	switch a := a.(type) {
	case Lin:
		lo, hi := int64(minI), int64(maxI)
		return Lin{freshInt("g", lo, hi), 0}
	case Bl:
		return freshBool("g")
	case Flt:
		return freshFlt("g")
	case Str:
		return freshStr("g")
	case Opq:
		return freshOpq("g", info(a.S).tm|info(b.(Opq).S).tm, info(a.S).prov)
	case Ifc:
		return Ifc{a.T, j.generalise(a.V, b.(Ifc).V)}
	case Ptr:
		b := b.(Ptr)
		p := Ptr{O: a.O}
		if a.O != b.O {
			p.O = virtObj(j.generalise(Opq{a.O.name().virt}, Opq{b.O.name().virt}).(Opq).S, a.O.name().vk)
		}
		for i, e := range a.Path {
			if e.F < 0 {
				e.I = j.generalise(e.I, b.Path[i].I).(Lin)
			}
			p.Path = append(p.Path, e)
		}
		return p
	case Slc:
		b := b.(Slc)
		o := a.O
		if a.O != b.O {
			o = virtObj(j.generalise(Opq{a.O.name().virt}, Opq{b.O.name().virt}).(Opq).S, a.O.name().vk)
		}
		f := func(x, y Lin) Lin {
			if x == y {
				return x
			}
			return Lin{freshInt("g", 0, maxAnyLen), 0}
		}
		return Slc{o, f(a.Off, b.Off), f(a.Len, b.Len), f(a.Cap, b.Cap)}
	case Strct:
		b := b.(Strct)
		r := make([]Value, len(a.F))
		for i := range a.F {
			r[i] = j.generalise(a.F[i], b.F[i])
		}
		return Strct{r}
	case Bits:
		a.V = j.generalise(a.V, b.(Bits).V).(Lin)
		return a
	}
	return a
}

func (j *joiner) lin(a, b Lin) Lin {
	if a == b {
		j.noteSame(a)
		return a
	}
	// pairs that differ by a common constant share a symbol
	ka, kb := a.K, b.K
	d := ka - kb
	key := fmt.Sprintf("L%d,%d,%d", a.B, b.B, d)
	if v, ok := j.pairs[key]; ok {
		base := v.(Tup)
		f := base.V[0].(Lin)
		return Lin{f.B, f.K + ka - base.V[1].(Lin).K}
	}
	r := j.sym(KInt, a, b, minI, maxI).(Lin)
	j.pairs[key] = Tup{[]Value{r, cInt(ka)}}
	return r
}

func (j *joiner) fresh(k SymKind, a, b Value) Value {
	return j.symGen(k, a, b, minI, maxI)
}

func symOf(v Value) (Sym, bool) {
	switch v := v.(type) {
	case Lin:
		return v.B, v.B != 0 && v.K == 0
	case Bl:
		return v.S, v.S != 0
	case Flt:
		return v.S, true
	case Str:
		return v.S, true
	case Opq:
		return v.S, true
	}
	return 0, false
}

// sym joins two scalar values of one kind.
func (j *joiner) sym(k SymKind, a, b Value, lo, hi int64) Value {
	key := fmt.Sprintf("%d|%s|%s", k, valKey(a), valKey(b))
	if v, ok := j.pairs[key]; ok {
		return v
	}
	// structural join of equal operations
	sa, aok := symOf(a)
	sb, bok := symOf(b)
	if aok && bok {
		ia, ib := info(sa), info(sb)
		if ia.op != "" && ia.op == ib.op && len(ia.args) > 0 && len(ia.args) == len(ib.args) && ia.depth < maxDepth && ib.depth < maxDepth {
			args := make([]Value, len(ia.args))
			ok := true
			for i := range args {
				if fmt.Sprintf("%T", ia.args[i]) != fmt.Sprintf("%T", ib.args[i]) {
					ok = false
					break
				}
				args[i] = j.val(ia.args[i], ib.args[i])
				if _, u := args[i].(Uni); u {
					ok = false
					break
				}
			}
			if ok {
				v := rebuild(sa, args)
				if s, isSym := symOf(v); isSym && info(s).depth < maxDepth {
					j.pairs[key] = v
					j.note(s, a, b)
					return v
				}
			}
		}
	}
	v := j.symGen(k, a, b, lo, hi)
	j.pairs[key] = v
	return v
}

func (j *joiner) symGen(k SymKind, a, b Value, lo, hi int64) Value {
	si := &SymInfo{kind: k, name: "j", lo: lo, hi: hi}
	gen := j.generic
	for _, x := range []Value{a, b} {
		if l, ok := x.(Lin); ok && l.B != 0 && info(l.B).generic {
			gen = true
		}
		if s, ok := symOf(x); ok && info(s).generic {
			gen = true
		}
	}
	si.generic = gen
	if k == KOpq {
		ia, ib := info(a.(Opq).S), info(b.(Opq).S)
		si.tm = ia.tm | ib.tm
		si.prov = ia.prov
		si.name = ia.name
	}
	if k == KInt {
		// default range: hull of the defaults
		dlo, dhi := int64(maxI), int64(minI)
		for _, x := range []Value{a, b} {
			var l, h int64
			switch x := x.(type) {
			case Lin:
				if x.B == 0 {
					l, h = x.K, x.K
				} else {
					l, h = satAdd(info(x.B).lo, x.K), satAdd(info(x.B).hi, x.K)
				}
			default:
				l, h = minI, maxI
			}
			dlo, dhi = min(dlo, l), max(dhi, h)
		}
		if j.widen {
			dlo, dhi = lo, hi
			if dlo == 0 && dhi == 0 {
				dlo, dhi = minI, maxI
			}
		}
		si.lo, si.hi = dlo, dhi
		if lo == 0 && hi == 1 {
			si.lo, si.hi = 0, 1
		}
	}
	s := newSym(si)
	_, ba := a.(Bits)
	_, bb := b.(Bits)
	if ba || bb {
		info(s).lo, info(s).hi = minI, maxI
		return symVal(s) // nothing is known about it
	}
	j.note(s, a, b)
	return symVal(s)
}

// mapTo returns the Mapper taking result values to values of A (side 0) or B (side 1).
func (j *joiner) mapTo(side int) *Mapper {
	t := j.toA
	if side == 1 {
		t = j.toB
	}
	return &Mapper{Sym: func(s Sym) Value { return t[s] }}
}

var loThresh = []int64{minI, -maxDocLen * 2, -(1 << 22), -1, 0, 1, 2}
var hiThresh = []int64{-1, 0, 1, 1 << 22, maxTextLen, maxDocLen * 2, maxAnyLen, maxI}

// facts computes the facts of the result for all symbols that occur in it.
func (j *joiner) facts() {
	R := j.R
	// 0: both sides, 1/2: only A/B gives facts
	side := func(s Sym) int8 {
		if len(j.one) == 0 || s == 0 {
			return 0
		}
		if o, ok := j.one[s]; ok {
			return o
		}
		if info(s).op == "" {
			return 0
		}
		var r int8
		forSymsDeep(symVal(s), map[Sym]bool{}, func(x Sym) {
			if o := j.one[x]; o != 0 {
				r = o
			}
		})
		return r
	}
	// symbols occurring
	occ := map[Sym]bool{}
	R.forVals(func(v Value) { forSymsDeep(v, occ, func(Sym) {}) })
	mA, mB := j.mapTo(0), j.mapTo(1)
	// candidate terms with facts in A or B over mapped symbols
	for side, st := range []*State{j.A, j.B} {
		t := j.toA
		if side == 1 {
			t = j.toB
		}
		inv := map[Sym]Value{}
		var rs []Sym
		for r := range t {
			rs = append(rs, r)
		}
		sort.Slice(rs, func(a, b int) bool { return rs[a] < rs[b] })
		for _, r := range rs {
			v := t[r]
			switch x := v.(type) {
			case Lin:
				if x.B != 0 {
					if _, ok := inv[x.B]; !ok {
						inv[x.B] = Lin{r, -x.K}
					}
				}
			default:
				if s, ok := symOf(v); ok {
					if _, ok := inv[s]; !ok {
						inv[s] = symVal(r)
					}
				}
			}
		}
		m := &Mapper{Sym: func(s Sym) Value { return inv[s] }}
		known := func(s Sym) bool {
			ok := true
			forSymsDeep(symVal(s), map[Sym]bool{}, func(x Sym) {
				if info(x).op == "" {
					if _, has := inv[x]; !has {
						ok = false
					}
				}
			})
			return ok
		}
		cand := func(s Sym) {
			if s == 0 || info(s).op == "" || len(info(s).args) == 0 || !known(s) {
				return
			}
			v := m.val(symVal(s))
			if x, ok := symOf(v); ok {
				occ[x] = true
			} else if l, ok := v.(Lin); ok && l.B != 0 {
				occ[l.B] = true
			}
		}
		for s := range st.rng.m {
			cand(s)
		}
		for s := range st.fm.m {
			cand(s)
		}
		for s := range st.sf.m {
			cand(s)
		}
		for s := range st.tm.m {
			cand(s)
		}
		for k := range st.zone.m {
			cand(k.a)
			cand(k.b)
		}
		for k := range st.fc.m {
			if known(k.a) && known(k.b) {
				x, ok1 := symOf(m.val(Flt{k.a}))
				y, ok2 := symOf(m.val(Flt{k.b}))
				if ok1 && ok2 && x != y {
					xa, ya := mA.val(Flt{x}).(Flt), mA.val(Flt{y}).(Flt)
					xb, yb := mB.val(Flt{x}).(Flt), mB.val(Flt{y}).(Flt)
					f := j.A.fcmp(xa.S, ya.S) | j.B.fcmp(xb.S, yb.S)
					if f != R.fcmp(x, y) {
						R.fc.set(sp{x, y}, f&R.fcmp(x, y))
					}
				}
			}
		}
	}
	var syms []Sym
	for s := range occ {
		syms = append(syms, s)
	}
	sort.Slice(syms, func(a, b int) bool { return syms[a] < syms[b] })
	type zs struct {
		s    Sym
		a, b Lin
	}
	var ints []zs
	for _, s := range syms {
		switch info(s).kind {
		case KInt:
			a, b := toLin(mA.val(Lin{s, 0})), toLin(mB.val(Lin{s, 0}))
			ra, rb := j.A.rangeOf(a), j.B.rangeOf(b)
			if j.hard && side(s) == 0 {
				// a bound given up must not come back through a relation to another value
				ra = j.A.baseRange(a.B).shift(a.K)
			}
			var r RSet
			if o := side(s); o == 1 {
				r = ra
			} else if o == 2 {
				r = rb
			} else if ra.empty() || rb.empty() {
				r = ra.join(rb)
			} else if j.widen {
				if rb.subset(ra) {
					r = ra
				} else {
					lo, hi := ra.lo(), ra.hi()
					if rb.lo() < lo {
						for _, t := range loThresh {
							if t <= rb.lo() {
								lo = t
							}
						}
					}
					if j.hard {
						if rb.lo() < lo {
							if rb.lo() >= 0 {
								lo = 0
							} else {
								lo = minI
							}
						}
						if rb.hi() > hi {
							hi = maxI
							if rb.hi() <= maxAnyLen {
								hi = maxAnyLen
							}
						}
					} else if rb.hi() > hi {
						for i := len(hiThresh) - 1; i >= 0; i-- {
							if hiThresh[i] >= rb.hi() {
								hi = hiThresh[i]
							}
						}
					}
					r = rng1(lo, hi)
				}
			} else {
				r = ra.join(rb)
			}
			d := rng1(info(s).lo, info(s).hi)
			r = r.meet(d)
			if !r.eq(d) && !r.empty() {
				R.rng.set(s, r)
			}
			if j.A.inZone(a.B) && a.B != 0 || j.B.inZone(b.B) && b.B != 0 || a != b {
				ints = append(ints, zs{s, a, b})
			}
		case KFlt:
			xa, xb := j.A.fmask(mA.val(Flt{s}).(Flt).S), j.B.fmask(mB.val(Flt{s}).(Flt).S)
			m := xa | xb
			if o := side(s); o == 1 {
				m = xa
			} else if o == 2 {
				m = xb
			}
			if m != R.fmask(s) && info(s).op != "fconst" {
				R.fm.set(s, m&R.fmask(s))
			}
		case KStr:
			if info(s).op == "sconst" {
				continue
			}
			fa, oka := j.A.strFact(mA.val(Str{s}).(Str).S)
			fb, okb := j.B.strFact(mB.val(Str{s}).(Str).S)
			if o := side(s); o == 1 {
				fb, okb = fa, oka
			} else if o == 2 {
				fa, oka = fb, okb
			}
			if f, ok := sfJoin(fa, fb, oka, okb); ok {
				if j.widen && f.eq && len(f.s) > 40 {
					continue
				}
				R.sf.set(s, f)
			}
		case KOpq:
			va, vb := mA.val(Opq{s}), mB.val(Opq{s})
			oa, ok1 := va.(Opq)
			ob, ok2 := vb.(Opq)
			if ok1 && ok2 {
				m := j.A.tmask(oa.S) | j.B.tmask(ob.S)
				if o := side(s); o == 1 {
					m = j.A.tmask(oa.S)
				} else if o == 2 {
					m = j.B.tmask(ob.S)
				}
				if m != info(s).tm {
					R.tm.set(s, m)
				}
			}
		}
	}
	// lengths of strings take part in difference constraints
	have := map[Sym]bool{}
	for _, z := range ints {
		have[z.s] = true
	}
	for _, s := range syms {
		if info(s).kind == KStr && info(s).op != "sconst" {
			l := R.strLen(Str{s})
			if !have[l.B] {
				a, b := j.A.strLen(mA.val(Str{s}).(Str)), j.B.strLen(mB.val(Str{s}).(Str))
				if j.A.inZone(a.B) && a.B != 0 || j.B.inZone(b.B) && b.B != 0 || a != b {
					ints = append(ints, zs{l.B, a, b})
				}
			}
		}
	}
	// difference constraints
	da, db := make([]zdist, len(ints)), make([]zdist, len(ints))
	for i, z := range ints {
		da[i], db[i] = j.A.sssp(z.a.B), j.B.sssp(z.b.B)
	}
	look := func(st *State, d zdist, x, y Lin) int64 {
		if x.B == y.B {
			return x.K - y.K
		}
		c := d.get(y.B)
		if y.B != 0 {
			if v := d.get(0); v != inf {
				r := st.baseRange(y.B)
				if !r.empty() && r.lo() != minI {
					if w := satAdd(v, -r.lo()); w < c {
						c = w
					}
				}
			}
		}
		if c == inf {
			return inf
		}
		return satAdd(satAdd(c, x.K), -y.K)
	}
	sides := make([]int8, len(ints))
	for i, x := range ints {
		sides[i] = side(x.s)
	}
	// A symbol that occurs on one side only may be related to those of both sides only if, on the other side,
	// there is a value for it whatever the values of the others: cut lists those for which there might not be.
	cut := make([]bool, len(ints))
	for i, y := range ints {
		o := sides[i]
		if o == 0 {
			continue
		}
		st, d, ot, od := j.A, da, j.B, db
		if o == 2 {
			st, d, ot, od = j.B, db, j.A, da
		}
		val := func(z zs, o int8) Lin {
			if o == 1 {
				return z.a
			}
			return z.b
		}
		ry := R.baseRange(y.s)
		type edge struct {
			k int // -1 is zero
			c int64
		}
		var in, out []edge // y <= x + c ; x <= y + c
		mixed := false
		for k, x := range ints {
			if sides[k] != 0 || k == i {
				continue
			}
			c1, c2 := look(st, d[i], val(y, o), val(x, o)), look(st, d[k], val(x, o), val(y, o))
			if c1 != inf {
				in = append(in, edge{k, c1})
				mixed = true
			}
			if c2 != inf {
				out = append(out, edge{k, c2})
				mixed = true
			}
		}
		if !mixed {
			continue
		}
		if !ry.empty() {
			if ry.hi() != maxI {
				in = append(in, edge{-1, ry.hi()})
			}
			if ry.lo() != minI {
				out = append(out, edge{-1, neg(ry.lo())})
			}
		}
		for _, p := range out {
			for _, q := range in {
				if p.k == q.k {
					continue
				}
				// implied: out.x - in.x <= p.c + q.c
				w := satAdd(p.c, q.c)
				var c int64 = inf
				switch {
				case p.k < 0:
					r := ot.rangeOf(val(ints[q.k], 3-o))
					if !r.empty() && r.lo() != minI {
						c = neg(r.lo())
					}
				case q.k < 0:
					r := ot.rangeOf(val(ints[p.k], 3-o))
					if !r.empty() && r.hi() != maxI {
						c = r.hi()
					}
				default:
					x, z := val(ints[p.k], 3-o), val(ints[q.k], 3-o)
					c = look(ot, od[p.k], x, z)
					rx, rz := ot.rangeOf(x), ot.rangeOf(z)
					if !rx.empty() && !rz.empty() && rx.hi() != maxI && rz.lo() != minI {
						if v := satAdd(rx.hi(), neg(rz.lo())); v < c {
							c = v
						}
					}
				}
				if c > w {
					cut[i] = true
				}
			}
		}
	}
	for i, x := range ints {
		for k, y := range ints {
			if i == k {
				continue
			}
			o := sides[i]
			if sides[k] != 0 {
				if o != 0 && o != sides[k] {
					continue
				}
				o = sides[k]
			}
			if o != 0 && sides[i] != sides[k] && (cut[i] || cut[k]) {
				continue
			}
			ca, cb := look(j.A, da[i], x.a, y.a), look(j.B, db[i], x.b, y.b)
			c := max(ca, cb)
			if o == 1 {
				c = ca
			} else if o == 2 {
				c = cb
			} else if j.widen && cb > ca {
				c = inf
				for _, t := range []int64{-1, 0, 1} {
					if !j.hard && cb <= t {
						c = t
						break
					}
				}
				if c == inf {
					continue
				}
			}
			if c == inf || j.hard && (c > 1 || o != 0 && sides[i] != sides[k] && c > 0) {
				// (a relation to a symbol of one side would bring back the bound given up for the other)
				continue
			}
			// skip what the ranges already say
			rx, ry := R.baseRange(x.s), R.baseRange(y.s)
			if !rx.empty() && !ry.empty() && rx.hi() != maxI && ry.lo() != minI {
				if w := satAdd(rx.hi(), -ry.lo()); w <= c {
					continue
				}
			}
			if c > 1<<60 || c < -(1<<60) {
				continue
			}
			R.zone.set(sp{x.s, y.s}, c)
		}
	}
	reduceZone(R)
}

// reduceZone drops constraints implied by others (keeps the graph small).
func reduceZone(s *State) {
	if len(s.zone.m) < 3 {
		return
	}
	var ks []sp
	for k := range s.zone.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].a != ks[j].a {
			return ks[i].a > ks[j].a
		}
		return ks[i].b > ks[j].b
	})
	for _, k := range ks {
		c := s.zone.m[k]
		s.zone.del(k)
		if s.diff(k.a, k.b) > c {
			s.zone.set(k, c)
		}
	}
}

// forVals visits all values of the state.
func (s *State) forVals(f func(Value)) {
	for _, v := range s.regs {
		f(v)
	}
	for _, v := range s.gh.m {
		f(v)
	}
	for _, o := range s.heap.m {
		o.forVals(f)
	}
	for _, d := range s.dfr {
		f(d.fn)
		for _, a := range d.args {
			f(a)
		}
	}
}

func (o *Obj) forVals(f func(Value)) {
	if o.val != nil {
		f(o.val)
	}
	for _, c := range o.cells {
		f(c.I)
		f(c.V)
	}
	if o.def != nil {
		f(o.def)
	}
	if o.hw != nil {
		f(*o.hw)
	}
	if o.z != nil {
		f(o.z.lo)
		f(o.z.hi)
		f(o.z.v)
	}
	for _, e := range o.ents {
		f(e.K)
		f(e.V)
	}
	if o.mk != nil {
		f(o.mk)
	}
	if o.mv != nil {
		f(o.mv)
	}
	for _, v := range o.q {
		f(v)
	}
	if o.elem != nil {
		f(o.elem)
	}
}

func (o *Obj) mapVals(m *Mapper) *Obj {
	n := o.copy()
	if o.val != nil {
		n.val = m.val(o.val)
	}
	n.cells = nil
	for _, c := range o.cells {
		n.cells = append(n.cells, ACell{m.lin(c.I), m.val(c.V)})
	}
	if o.def != nil {
		n.def = m.val(o.def)
	}
	if o.hw != nil {
		h := m.lin(*o.hw)
		n.hw = &h
	}
	if o.z != nil {
		n.z = &Zone{m.lin(o.z.lo), m.lin(o.z.hi), m.val(o.z.v)}
	}
	n.ents = nil
	for _, e := range o.ents {
		n.ents = append(n.ents, MEnt{m.val(e.K), m.val(e.V)})
	}
	if o.mk != nil {
		n.mk = m.val(o.mk)
	}
	if o.mv != nil {
		n.mv = m.val(o.mv)
	}
	if len(o.q) > 0 {
		n.q = m.vals(o.q)
	}
	if o.elem != nil {
		n.elem = m.val(o.elem)
	}
	return n
}

// joinObj joins two versions of one object.
func (j *joiner) joinObj(a, b *Obj) *Obj {
	n := a.copy()
	n.many = a.many || b.many
	n.flags = a.flags | b.flags
	sg := j.generic
	defer func() { j.generic = sg }()
	if n.many {
		j.generic = true
	}
	switch a.kind {
	case 'c', 'i':
		n.val = j.val(a.val, b.val)
	case 'a':
		n.z = nil
		n.grew = a.grew || b.grew
		if a.z != nil && b.z != nil && !n.many {
			n.z = &Zone{j.lin(a.z.lo, b.z.lo), j.lin(a.z.hi, b.z.hi), j.val(a.z.v, b.z.v)}
		} else {
			if a.z != nil && !a.written(j.A) {
				a = a.copy()
				a.def = j.fold(0, a.def, a.z.v)
			}
			if b.z != nil && !b.written(j.B) {
				b = b.copy()
				b.def = j.fold(1, b.def, b.z.v)
			}
		}
		n.cells, n.def = j.joinArr(a, b)
		n.hw = nil
		if a.hw != nil && b.hw != nil && !n.many {
			h := j.lin(*a.hw, *b.hw)
			n.hw = &h
		}
	case 'm':
		n.ents = nil
		var ra, rb []MEnt
		ra = append(ra, a.ents...)
		rb = append(rb, b.ents...)
		ka, va, kb, vb := a.mk, a.mv, b.mk, b.mv
		for _, e := range ra {
			found := -1
			for i, f := range rb {
				if sameVal(e.K, f.K) {
					found = i
				}
			}
			if found >= 0 && !n.many {
				n.ents = append(n.ents, MEnt{j.val(e.K, e.K), j.val(e.V, rb[found].V)})
				rb = append(rb[:found:found], rb[found+1:]...)
			} else {
				ka, va = j.fold(0, ka, e.K), j.fold(0, va, e.V)
			}
		}
		for _, e := range rb {
			kb, vb = j.fold(1, kb, e.K), j.fold(1, vb, e.V)
		}
		mk, mv := j.defs(ka, kb), j.defs(va, vb)
		n.mk, n.mv = mk, mv
	case 'h':
		if a.qok && b.qok && !n.many && len(a.q) == len(b.q) {
			n.q = nil
			for i := range a.q {
				n.q = append(n.q, j.val(a.q[i], b.q[i]))
			}
		} else {
			ea, eb := a.elem, b.elem
			for _, v := range a.q {
				ea = j.fold(0, ea, v)
			}
			for _, v := range b.q {
				eb = j.fold(1, eb, v)
			}
			n.q, n.qok = nil, false
			n.elem = j.defs(ea, eb)
		}
		n.ch.Started = a.ch.Started || b.ch.Started
		n.ch.Closed = (a.ch.Closed || !a.ch.Started) && (b.ch.Closed || !b.ch.Started) && (a.ch.Closed || b.ch.Closed)
		n.ch.Drained = a.ch.Drained && b.ch.Drained
		n.ch.Buf = a.ch.Buf && b.ch.Buf
	}
	return n
}

// anchored reports whether an index can be told from the values of the joined state other than array indices.
func (j *joiner) anchored(i Lin) bool {
	if i.B == 0 || !j.full {
		return true
	}
	if j.anch == nil {
		for _, st := range []*State{j.A, j.B, j.R} {
			seen := map[Sym]bool{}
			f := func(v Value) {
				if v != nil {
					forSymsDeep(v, seen, func(Sym) {})
				}
			}
			for _, v := range st.regs {
				f(v)
			}
			for _, d := range st.dfr {
				f(d.fn)
				for _, v := range d.args {
					f(v)
				}
			}
			for _, v := range st.gh.m {
				f(v)
			}
			for _, x := range st.heap.m {
				if x.kind == 'c' || x.kind == 'i' {
					f(x.val)
				}
			}
			j.anch = append(j.anch, seen)
		}
	}
	ok := true
	forSymsDeep(i, map[Sym]bool{}, func(s Sym) {
		if info(s).op == "" && !(j.anch[0][s] && j.anch[1][s] && j.anch[2][s]) {
			ok = false
		}
	})
	return ok
}

// joinArr matches array cells at indices that are equal under the joined symbols.
func (j *joiner) joinArr(a, b *Obj) ([]ACell, Value) {
	da, db := a.def, b.def
	var cells []ACell
	usedA, usedB := map[int]bool{}, map[int]bool{}
	many := a.many || b.many
	if !many {
		// express an index of A through a result symbol, then see whether B has a cell there
		for ia, ca := range a.cells {
			for ib, cb := range b.cells {
				if usedB[ib] {
					continue
				}
				if ca.I == cb.I && j.anchored(ca.I) {
					j.noteSame(ca.I)
					cells = append(cells, ACell{ca.I, j.val(ca.V, cb.V)})
					usedA[ia], usedB[ib] = true, true
					break
				}
				// an existing joined symbol with this pair
				key := fmt.Sprintf("L%d,%d,%d", ca.I.B, cb.I.B, ca.I.K-cb.I.K)
				if v, ok := j.pairs[key]; ok {
					base := v.(Tup)
					f := base.V[0].(Lin)
					idx := Lin{f.B, f.K + ca.I.K - base.V[1].(Lin).K}
					cells = append(cells, ACell{idx, j.val(ca.V, cb.V)})
					usedA[ia], usedB[ib] = true, true
					break
				}
			}
		}
	}
	// a cell only one side knows exactly is folded into the default of that side
	for i, c := range a.cells {
		if !usedA[i] {
			da = j.fold(0, da, c.V)
		}
	}
	for i, c := range b.cells {
		if !usedB[i] {
			db = j.fold(1, db, c.V)
		}
	}
	return cells, j.defs(da, db)
}

// join returns the least upper bound (or a widening) of two states of one program point.
// joinHard is a widening that gives up every unstable bound.
func joinHard(a, b *State) *State { return joinW(a, b, true, true) }

func join(a, b *State, widen bool) *State { return joinW(a, b, widen, false) }

func joinW(a, b *State, widen, hard bool) *State {
	a, b = a.clone(), b.clone()
	j := newJoiner(a, b, widen)
	j.full, j.hard = true, hard
	R := j.R
	var regs []ssa.Value
	for r := range a.regs {
		if _, ok := b.regs[r]; ok {
			regs = append(regs, r)
		}
	}
	sort.Slice(regs, func(i, k int) bool { return regNum(regs[i]) < regNum(regs[k]) })
	for _, r := range regs {
		R.regs[r] = j.val(a.regs[r], b.regs[r])
	}
	for i, d := range a.dfr {
		n := d
		if i < len(b.dfr) {
			n.fn = j.val(d.fn, b.dfr[i].fn)
			n.args = j.list(d.args, b.dfr[i].args)
		}
		R.dfr = append(R.dfr, n)
	}
	var gs []string
	for g := range a.gh.m {
		if _, ok := b.gh.m[g]; ok {
			gs = append(gs, g)
		}
	}
	sort.Strings(gs)
	for _, g := range gs {
		R.gh.set(g, j.val(a.gh.m[g], b.gh.m[g]))
	}
	var os []ObjID
	for o := range a.heap.m {
		os = append(os, o)
	}
	for o := range b.heap.m {
		if _, ok := a.heap.m[o]; !ok {
			os = append(os, o)
		}
	}
	sort.Slice(os, func(i, k int) bool { return os[i] < os[k] })
	// scalar cells first so that array indices can be matched through them
	for pass := 0; pass < 2; pass++ {
		for _, o := range os {
			oa, ob := a.obj(o), b.obj(o)
			k := byte(0)
			if oa != nil {
				k = oa.kind
			} else {
				k = ob.kind
			}
			if (k == 'a' || k == 'm' || k == 'h') != (pass == 1) {
				continue
			}
			switch {
			case oa == nil:
				ob.forVals(j.noteSame)
				R.heap.set(o, ob)
			case ob == nil:
				oa.forVals(j.noteSame)
				R.heap.set(o, oa)
			case oa == ob:
				oa.forVals(j.noteSame)
				R.heap.set(o, oa)
			default:
				R.heap.set(o, j.joinObj(oa, ob))
			}
		}
	}
	R.hist = a.hist
	if len(b.hist) > 0 {
		for h, m := range b.hist {
			for k := range m {
				if !R.hist[h][k] {
					R.setHist(h, R.hist[h], k)
				}
			}
		}
	}
	j.facts()
	if len(a.why) > 0 {
		R.why = a.why
	}
	return R
}

var regNums = map[ssa.Value]int{}

func regNum(v ssa.Value) int { return regNums[v] }

// ---- inclusion ----

type matcher struct {
	A, B *State // A is the smaller
	m    map[Sym]Value
	more []symBind // further values of generic symbols
	fail string
	drop func(R *State) // takes out of the larger state the fact that failed
}

// cover drops facts of n, an upper bound of st, until the comparison of states sees that it is one.
// (The comparison looks at a summary's symbols one at a time and may miss that facts about several go together.)
func cover(n, st *State) bool {
	for i := 0; i < 60; i++ {
		m, ok := leqM(st, n)
		if ok {
			return true
		}
		if m.drop == nil {
			return false
		}
		m.drop(n)
	}
	return false
}

type symBind struct {
	s Sym
	v Value
}

func (m *matcher) no(f string, a ...interface{}) bool {
	if m.fail == "" {
		m.fail = fmt.Sprintf(f, a...)
	}
	return false
}

func (m *matcher) bind(s Sym, v Value) bool {
	if o, ok := m.m[s]; ok {
		if sameVal(o, v) {
			return true
		}
		if info(s).generic {
			m.more = append(m.more, symBind{s, v}) // a generic symbol stands for all of them
			return true
		}
		return m.no("symbol %s is both %s and %s", symStr(s), vStr(o), vStr(v))
	}
	m.m[s] = v
	return true
}

func (m *matcher) lin(a, b Lin) bool {
	if b.B == 0 {
		if a == b {
			return true
		}
		if k, ok := m.A.cval(a); ok && k == b.K {
			return true
		}
		return m.no("%s is not %s", vStr(a), vStr(b))
	}
	if info(b.B).op == "" {
		return m.bind(b.B, Lin{a.B, a.K - b.K})
	}
	if a == b {
		return m.deep(b.B)
	}
	return m.termM(symValOrLin(a), b.B, b.K)
}

func symValOrLin(a Lin) Value { return a }

// deep binds the base symbols under a term that occurs unchanged.
func (m *matcher) deep(s Sym) bool {
	ok := true
	forSymsDeep(symVal(s), map[Sym]bool{}, func(x Sym) {
		if info(x).op == "" && !m.bind(x, symVal(x)) {
			ok = false
		}
	})
	return ok
}

// termM matches value a (minus k) against term b.
func (m *matcher) termM(a Value, b Sym, k int64) bool {
	var s Sym
	switch x := a.(type) {
	case Lin:
		if x.B == 0 || x.K != k {
			return m.no("%s does not match %s", vStr(a), symStr(b))
		}
		s = x.B
	default:
		var ok bool
		s, ok = symOf(a)
		if !ok {
			return m.no("%s does not match %s", vStr(a), symStr(b))
		}
	}
	ia, ib := info(s), info(b)
	if len(ib.args) == 0 {
		if s == b {
			return true
		}
		return m.no("%s is not %s", symStr(s), symStr(b))
	}
	if ia.op != ib.op || len(ia.args) != len(ib.args) {
		return m.no("%s is not a %s", symStr(s), symStr(b))
	}
	for i := range ia.args {
		if !m.val(ia.args[i], ib.args[i]) {
			return false
		}
	}
	return true
}

func (m *matcher) scalar(a Value, as, bs Sym) bool {
	if info(bs).op == "" {
		return m.bind(bs, a)
	}
	if as == bs {
		return m.deep(bs)
	}
	return m.termM(a, bs, 0)
}

func (m *matcher) val(a, b Value) bool {
	if a == nil {
		return true
	}
	if b == nil {
		return m.no("value %s where there was none", vStr(a))
	}
	if _, ok := b.(Top); ok {
		return true
	}
	if ua, ok := a.(Uni); ok {
		for _, x := range ua.A {
			if !m.val(x, b) {
				return false
			}
		}
		return true
	}
	if ub, ok := b.(Uni); ok {
		for _, y := range ub.A {
			if sameClassV(a, y) {
				if p, ok := a.(Ptr); ok && len(p.Path) == 0 && !p.O.isVirt() {
					return true
				}
				if _, ok := a.(Nil); ok {
					return true
				}
				save := map[Sym]Value{}
				for k, v := range m.m {
					save[k] = v
				}
				if m.val(a, y) {
					return true
				}
				m.m = save
			}
		}
		return m.no("alternative %s not among %s", vStr(a), vStr(b))
	}
	if bl, ok := b.(Lin); ok {
		if al, ok := a.(Lin); ok {
			return m.lin(al, bl)
		}
		if ab, ok := a.(Bits); ok && info(bl.B).op == "" && bl.B != 0 {
			_ = ab
			return m.rngFull(bl.B)
		}
		return m.no("kind")
	}
	if !sameClassV(a, b) {
		return m.no("%s is of another class than %s", vStr(a), vStr(b))
	}
	switch b := b.(type) {
	case Bl:
		a := a.(Bl)
		if b.S == 0 {
			if v, ok := m.A.bval(a); ok && v == (b.C == 1) {
				return true
			}
			return m.no("bool %s is not %s", vStr(a), vStr(b))
		}
		if info(b.S).op == "" {
			return m.bind(b.S, blVal(a))
		}
		if a.S == b.S {
			return m.deep(b.S)
		}
		return m.termM(blVal(a), b.S, 0)
	case Flt:
		return m.scalar(a, a.(Flt).S, b.S)
	case Str:
		return m.scalar(a, a.(Str).S, b.S)
	case Opq:
		return m.scalar(a, a.(Opq).S, b.S)
	case Nil:
		return true
	case Ifc:
		return m.val(a.(Ifc).V, b.V)
	case Ptr:
		a := a.(Ptr)
		if !m.vobj(a.O, b.O) {
			return false
		}
		for i, e := range b.Path {
			if e.F < 0 && !m.lin(a.Path[i].I, e.I) {
				return false
			}
		}
		return true
	case Slc:
		a := a.(Slc)
		return m.vobj(a.O, b.O) && m.lin(a.Off, b.Off) && m.lin(a.Len, b.Len) && m.lin(a.Cap, b.Cap)
	case MapV:
		return m.vobj(a.(MapV).O, b.O)
	case ChanV:
		return true
	case Fn:
		return m.list(a.(Fn).Free, b.Free)
	case Strct:
		return m.list(a.(Strct).F, b.F)
	case Tup:
		return m.list(a.(Tup).V, b.V)
	case Bits:
		return m.lin(a.(Bits).V, b.V)
	case StrBytes:
		return m.val(a.(StrBytes).S, b.S)
	}
	return m.no("unhandled %T", b)
}

func (m *matcher) rngFull(s Sym) bool {
	r := m.B.baseRange(s)
	return len(r) == 1 && r.lo() <= 0 && r.hi() >= 1<<32-1
}

func (m *matcher) vobj(a, b ObjID) bool {
	if b.isVirt() {
		return m.val(Opq{a.name().virt}, Opq{b.name().virt})
	}
	return a == b
}

func (m *matcher) list(a, b []Value) bool {
	if len(a) != len(b) {
		return m.no("length")
	}
	for i := range a {
		if !m.val(a[i], b[i]) {
			return false
		}
	}
	return true
}

func (m *matcher) obj(a, b *Obj) bool {
	if a.many && !b.many || a.flags&^b.flags != 0 {
		return m.no("flags")
	}
	switch a.kind {
	case 'c', 'i':
		return m.val(a.val, b.val)
	case 'a':
		used := map[int]bool{}
		for _, cb := range b.cells {
			mm := &Mapper{Sym: func(s Sym) Value { return m.m[s] }}
			// find the cell of A at the corresponding index
			found := false
			var want Lin
			ok := true
			forSymsDeep(cb.I, map[Sym]bool{}, func(s Sym) {
				if info(s).op == "" {
					if _, has := m.m[s]; !has {
						ok = false
					}
				}
			})
			if !ok {
				return m.no("array index %s unmatched", vStr(cb.I))
			}
			want = mm.lin(cb.I)
			for i, ca := range a.cells {
				if ca.I == want {
					if !m.val(ca.V, cb.V) {
						return false
					}
					used[i], found = true, true
				}
			}
			if !found {
				return m.no("array cell %s missing", vStr(cb.I))
			}
		}
		for i, ca := range a.cells {
			if !used[i] {
				if !m.val(ca.V, b.def) {
					return false
				}
			}
		}
		if b.hw != nil {
			if a.hw == nil {
				return m.no("high water mark")
			}
			if !m.lin(*a.hw, *b.hw) {
				return false
			}
		}
		if a.grew && !b.grew {
			return m.no("grew")
		}
		if b.z != nil {
			if a.z == nil {
				return m.no("zone")
			}
			if !m.lin(a.z.lo, b.z.lo) || !m.lin(a.z.hi, b.z.hi) || !m.val(a.z.v, b.z.v) {
				return false
			}
		} else if a.z != nil && !a.written(m.A) && (b.def == nil || !m.val(a.z.v, b.def)) {
			return m.no("zone")
		}
		return m.val(a.def, b.def)
	case 'm':
		used := map[int]bool{}
		for _, eb := range b.ents {
			found := false
			for i, ea := range a.ents {
				if !used[i] && classV(ea.K) == classV(eb.K) {
					if !m.val(ea.K, eb.K) || !m.val(ea.V, eb.V) {
						return false
					}
					used[i], found = true, true
					break
				}
			}
			if !found {
				return m.no("map entry missing")
			}
		}
		for i, ea := range a.ents {
			if !used[i] && (!m.val(ea.K, b.mk) || !m.val(ea.V, b.mv)) {
				return false
			}
		}
		return m.val(a.mk, b.mk) && m.val(a.mv, b.mv)
	case 'h':
		if a.ch.Started && !b.ch.Started || !a.ch.Closed && b.ch.Closed || !a.ch.Drained && b.ch.Drained || !a.ch.Buf && b.ch.Buf {
			return m.no("channel")
		}
		if b.qok {
			if !a.qok || len(a.q) != len(b.q) {
				return m.no("channel queue")
			}
			for i := range a.q {
				if !m.val(a.q[i], b.q[i]) {
					return false
				}
			}
			return true
		}
		for _, v := range a.q {
			if !m.val(v, b.elem) {
				return false
			}
		}
		return m.val(a.elem, b.elem)
	}
	return false
}

// leq reports whether a is included in b, and the values in a of b's symbols.
func leq(a, b *State) (map[Sym]Value, bool) {
	m, ok := leqM(a, b)
	return m.m, ok
}

func leqM(a, b *State) (*matcher, bool) {
	m := &matcher{A: a, B: b, m: map[Sym]Value{}}
	var regs []ssa.Value
	for r := range b.regs {
		if _, ok := a.regs[r]; !ok {
			return m, m.no("register %s", r.Name())
		}
		regs = append(regs, r)
	}
	sort.Slice(regs, func(i, k int) bool { return regNum(regs[i]) < regNum(regs[k]) })
	for _, r := range regs {
		if !m.val(a.regs[r], b.regs[r]) {
			return m, false
		}
	}
	if len(a.dfr) != len(b.dfr) {
		return m, m.no("defers")
	}
	for i, d := range b.dfr {
		if !m.val(a.dfr[i].fn, d.fn) || !m.list(a.dfr[i].args, d.args) {
			return m, false
		}
	}
	var gs []string
	for g := range b.gh.m {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		v, ok := a.gh.m[g]
		if !ok {
			return m, m.no("ghost %s", g)
		}
		if !m.val(v, b.gh.m[g]) {
			return m, false
		}
	}
	var os []ObjID
	for o := range a.heap.m {
		os = append(os, o)
	}
	sort.Slice(os, func(i, k int) bool { return os[i] < os[k] })
	for pass := 0; pass < 2; pass++ {
		for _, o := range os {
			x, y := a.obj(o), b.obj(o)
			if y == nil {
				return m, m.no("object %s", o)
			}
			if (x.kind == 'a' || x.kind == 'm' || x.kind == 'h') != (pass == 1) {
				continue
			}
			if x == y {
				x.forVals(func(v Value) { m.val(v, v) })
				if m.fail != "" {
					return m, false
				}
				continue
			}
			if !m.obj(x, y) {
				return m, false
			}
		}
	}
	return m, m.facts()
}

func (m *matcher) facts() bool {
	mp := &Mapper{Sym: func(s Sym) Value { return m.m[s] }}
	known := func(s Sym) bool {
		ok := true
		forSymsDeep(symVal(s), map[Sym]bool{}, func(x Sym) {
			if info(x).op == "" {
				if _, has := m.m[x]; !has {
					ok = false
				}
			}
		})
		return ok
	}
	seen := map[Sym]bool{}
	chk := func(s Sym) bool { // interval (also default ranges)
		if s == 0 || seen[s] {
			return true
		}
		seen[s] = true
		if !known(s) {
			return true
		}
		switch info(s).kind {
		case KInt:
			a := toLin(mp.val(Lin{s, 0}))
			if !m.A.rangeOf(a).subset(m.B.rangeOf(Lin{s, 0})) {
				m.drop = func(R *State) {
					R.rng.del(s)
					for k := range mapCopy(R.zone.m) {
						if k.a == s || k.b == s {
							R.zone.del(k)
						}
					}
				}
				return m.no("range of %s: %s not in %s", symStr(s), m.A.rangeOf(a), m.B.rangeOf(Lin{s, 0}))
			}
		case KFlt:
			a := mp.val(Flt{s}).(Flt)
			if m.A.fmask(a.S)&^m.B.fmask(s) != 0 {
				m.drop = func(R *State) { R.fm.del(s) }
				return m.no("class of %s", symStr(s))
			}
		case KStr:
			if fb, ok := m.B.strFact(s); ok {
				fa, aok := m.A.strFact(mp.val(Str{s}).(Str).S)
				if !sfImplies(fa, aok, fb) {
					m.drop = func(R *State) { R.sf.del(s) }
					return m.no("string fact of %s", symStr(s))
				}
			}
		case KOpq:
			if o, ok := mp.val(Opq{s}).(Opq); ok {
				if m.A.tmask(o.S)&^m.B.tmask(s) != 0 {
					m.drop = func(R *State) { R.tm.del(s) }
					return m.no("types of %s", symStr(s))
				}
			}
		}
		return true
	}
	for s := range m.m {
		if !chk(s) {
			return false
		}
	}
	for s := range m.B.rng.m {
		if !chk(s) {
			return false
		}
	}
	for s := range m.B.fm.m {
		if !chk(s) {
			return false
		}
	}
	for s := range m.B.sf.m {
		if !chk(s) {
			return false
		}
	}
	for s := range m.B.tm.m {
		if !chk(s) {
			return false
		}
	}
	for k, c := range m.B.zone.m {
		if (k.a == 0 || known(k.a)) && (k.b == 0 || known(k.b)) {
			x, y := Lin{}, Lin{}
			if k.a != 0 {
				x = toLin(mp.val(Lin{k.a, 0}))
			}
			if k.b != 0 {
				y = toLin(mp.val(Lin{k.b, 0}))
			}
			if m.A.diffL(x, y) > c {
				k := k
				m.drop = func(R *State) { R.zone.del(k) }
				return m.no("%s - %s <= %d", symStr(k.a), symStr(k.b), c)
			}
		}
	}
	if len(m.more) > 0 {
		more := m.more
		m.more = nil
		for _, x := range more {
			old := m.m[x.s]
			m.m[x.s] = x.v
			ok := m.facts()
			m.m[x.s] = old
			if !ok {
				return false
			}
		}
	}
	for k, f := range m.B.fc.m {
		if known(k.a) && known(k.b) {
			x, y := mp.val(Flt{k.a}).(Flt), mp.val(Flt{k.b}).(Flt)
			if m.A.fcmp(x.S, y.S)&^f != 0 {
				k := k
				m.drop = func(R *State) { R.fc.del(k) }
				return m.no("float order")
			}
		}
	}
	return true
}

// ---- garbage collection ----

// gc drops unreachable objects and facts about symbols that no longer occur.
func (s *State) gc(extra ...Value) {
	reach := map[ObjID]bool{}
	var work []ObjID
	visit := func(v Value) {
		forObjs(v, func(o ObjID) {
			if !reach[o] && !o.isVirt() {
				reach[o] = true
				work = append(work, o)
			}
		})
	}
	for _, v := range s.regs {
		visit(v)
	}
	for _, v := range s.gh.m {
		visit(v)
	}
	for _, d := range s.dfr {
		visit(d.fn)
		for _, a := range d.args {
			visit(a)
		}
	}
	for _, v := range extra {
		visit(v)
	}
	for o, x := range s.heap.m {
		if x.flags&(flInput|flGlobal) != 0 || x.kind == 'h' {
			if !reach[o] {
				reach[o] = true
				work = append(work, o)
			}
		}
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		if x := s.obj(o); x != nil {
			x.forVals(visit)
		}
	}
	for o := range s.heap.m {
		if !reach[o] {
			s.heap.del(o)
		}
	}
	occ := map[Sym]bool{}
	s.forVals(func(v Value) { forSymsDeep(v, occ, func(Sym) {}) })
	for _, v := range extra {
		forSymsDeep(v, occ, func(Sym) {})
	}
	live := func(x Sym) bool {
		if x == 0 || occ[x] {
			return true
		}
		i := info(x)
		if i.op == "" || len(i.args) == 0 {
			return false
		}
		ok := true
		forSymsDeep(symVal(x), map[Sym]bool{}, func(y Sym) {
			if info(y).op == "" && !occ[y] {
				ok = false
			}
		})
		return ok
	}
	// eliminate dead symbols from the zone, keeping what they imply
	dead := map[Sym]bool{}
	for k := range s.zone.m {
		for _, x := range []Sym{k.a, k.b} {
			if x != 0 && !live(x) {
				dead[x] = true
			}
		}
	}
	if len(dead) > 0 {
		var ds []Sym
		for x := range dead {
			ds = append(ds, x)
		}
		sort.Slice(ds, func(i, j int) bool { return ds[i] < ds[j] })
		for _, x := range ds {
			type e struct {
				y Sym
				c int64
			}
			var in, out []e
			for k, c := range s.zone.m {
				if k.a == x {
					out = append(out, e{k.b, c}) // x - y <= c
				} else if k.b == x {
					in = append(in, e{k.a, c}) // y - x <= c
				}
			}
			r := s.baseRange(x)
			for _, i := range in {
				for _, o := range out {
					if i.y != o.y {
						c := satAdd(i.c, o.c)
						if cur, ok := s.zone.get(sp{i.y, o.y}); !ok || c < cur {
							s.zone.set(sp{i.y, o.y}, c)
						}
					}
				}
				if !r.empty() && r.hi() != maxI && i.y != 0 { // y <= hi + c
					s.meetRange(i.y, rng1(minI, satAdd(r.hi(), i.c)))
				}
			}
			for _, o := range out {
				if !r.empty() && r.lo() != minI && o.y != 0 { // y >= lo - c
					s.meetRange(o.y, rng1(satAdd(r.lo(), -o.c), maxI))
				}
			}
			for _, i := range in {
				s.zone.del(sp{i.y, x})
			}
			for _, o := range out {
				s.zone.del(sp{x, o.y})
			}
		}
	}
	for x := range s.rng.m {
		if !live(x) {
			s.rng.del(x)
		}
	}
	for x := range s.fm.m {
		if !live(x) {
			s.fm.del(x)
		}
	}
	for x := range s.sf.m {
		if !live(x) {
			s.sf.del(x)
		}
	}
	for x := range s.tm.m {
		if !live(x) {
			s.tm.del(x)
		}
	}
	liveF := func(x Sym) bool { return info(x).op == "fconst" || live(x) }
	for k := range s.fc.m {
		if !liveF(k.a) || !liveF(k.b) {
			s.fc.del(k)
		}
	}
}
