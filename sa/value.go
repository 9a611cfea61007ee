package main

// Abstract values and hash-consed symbolic terms.

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Sym names one unknown concrete value (per abstract state a symbol denotes one value).
type Sym int32

type SymKind uint8

const (
	KInt SymKind = iota
	KFlt
	KStr
	KOpq // an interface value whose dynamic type is only known as a set
)

type SymInfo struct {
	kind    SymKind
	op      string // "" for a base symbol
	args    []Value
	lo, hi  int64 // KInt: default range
	name    string
	sval    string  // op "sconst"
	fval    float64 // op "fconst"
	generic bool    // stands for any of several concrete values (summary contents); instantiated on load
	keep    bool    // loop heads keep states with different offsets from this symbol apart
	tm      TMask   // KOpq: default type set
	prov    string  // KOpq: "doc" when the value is part of the document
	depth   int
}

var symtab = []*SymInfo{{name: "zero"}}
var symcons = map[string]Sym{}

func info(s Sym) *SymInfo { return symtab[s] }

func newSym(si *SymInfo) Sym {
	symtab = append(symtab, si)
	return Sym(len(symtab) - 1)
}

func freshInt(name string, lo, hi int64) Sym {
	return newSym(&SymInfo{kind: KInt, lo: lo, hi: hi, name: name})
}
func freshBool(name string) Bl { return Bl{S: freshInt(name, 0, 1)} }
func freshFlt(name string) Flt { return Flt{newSym(&SymInfo{kind: KFlt, name: name})} }
func freshStr(name string) Str { return Str{newSym(&SymInfo{kind: KStr, name: name})} }
func freshOpq(name string, tm TMask, prov string) Opq {
	return Opq{newSym(&SymInfo{kind: KOpq, name: name, tm: tm, prov: prov})}
}

// like makes a fresh base symbol with the default facts of s.
func like(s Sym, generic bool) Sym {
	i := info(s)
	return newSym(&SymInfo{kind: i.kind, lo: i.lo, hi: i.hi, name: i.name, generic: generic, tm: i.tm, prov: i.prov})
}

// term returns the symbol of the term op(args): equal terms are the same symbol.
func term(kind SymKind, op string, lo, hi int64, args ...Value) Sym {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(kind)))
	b.WriteString(op)
	d := 0
	for _, a := range args {
		b.WriteByte(',')
		writeVal(&b, a)
		forSyms(a, func(s Sym) {
			if x := info(s).depth; x > d {
				d = x
			}
		})
	}
	k := b.String()
	if s, ok := symcons[k]; ok {
		return s
	}
	s := newSym(&SymInfo{kind: kind, op: op, args: args, lo: lo, hi: hi, depth: d + 1})
	symcons[k] = s
	return s
}

func strConst(v string) Str {
	k := "S" + v
	if s, ok := symcons[k]; ok {
		return Str{s}
	}
	s := newSym(&SymInfo{kind: KStr, op: "sconst", sval: v})
	symcons[k] = s
	return Str{s}
}

func fltConst(v float64) Flt {
	k := "F" + strconv.FormatUint(math.Float64bits(v), 16)
	if s, ok := symcons[k]; ok {
		return Flt{s}
	}
	s := newSym(&SymInfo{kind: KFlt, op: "fconst", fval: v})
	symcons[k] = s
	return Flt{s}
}

// Value is an abstract value.
type Value interface{}

type Lin struct { // integer: B + K (B == 0: the constant K)
	B Sym
	K int64
}
type Bl struct { // boolean: constant C when S == 0
	S Sym
	C int8
}
type Flt struct{ S Sym }
type Str struct{ S Sym }
type Nil struct{}        // nil pointer, slice, map, chan, func or interface
type Opq struct{ S Sym } // interface value
type Ifc struct {        // interface value with known dynamic type
	T types.Type
	V Value
}
type Ptr struct {
	O    ObjID
	Path []PE
}
type PE struct { // path element: struct field (F>=0) or array element (F<0, I)
	F int
	I Lin
}
type Slc struct {
	O             ObjID
	Off, Len, Cap Lin
}
type MapV struct{ O ObjID }
type ChanV struct{ O ObjID }
type Fn struct {
	F    *ssa.Function
	Free []Value
	B    string // builtin or bound-method marker
}
type Strct struct{ F []Value }
type Tup struct{ V []Value }
type Top struct{ T types.Type }
type Uni struct{ A []Value } // one of several
type Bits struct {           // C | (low W bits of V) << O, within N bits
	N, W, O uint
	C       uint64
	V       Lin
}
type StrBytes struct{ S Str } // []byte converted from a string (read only)

type ObjID int32

type ObjName struct {
	site string // unique name of the allocation site
	ctx  string
	old  bool
	gen  int32 // number of the object at its site, where they are kept apart
	virt Sym   // virtual object: the array/map payload of an opaque interface value
	vk   byte
}

var objtab = []ObjName{{}}
var objcons = map[ObjName]ObjID{}

func objID(n ObjName) ObjID {
	if id, ok := objcons[n]; ok {
		return id
	}
	objtab = append(objtab, n)
	id := ObjID(len(objtab) - 1)
	objcons[n] = id
	return id
}

func virtObj(s Sym, kind byte) ObjID { return objID(ObjName{virt: s, vk: kind}) }

func (o ObjID) name() ObjName { return objtab[o] }
func (o ObjID) isVirt() bool  { return objtab[o].virt != 0 }
func (o ObjID) String() string {
	n := objtab[o]
	if n.virt != 0 {
		return fmt.Sprintf("virt%c(%s)", n.vk, symStr(n.virt))
	}
	s := n.site
	if n.ctx != "" {
		s += "@" + n.ctx
	}
	if n.gen != 0 {
		s += fmt.Sprintf("~%d", n.gen)
	}
	if n.old {
		s += "*"
	}
	return s
}

// dynamic type registry for opaque interface values
type TMask uint64

var dynTypes []types.Type // index 0 is nil
var dynNames []string

const tmOther TMask = 1 << 63

func typeBit(t types.Type) TMask {
	if len(dynTypes) == 0 {
		dynTypes = append(dynTypes, nil)
		dynNames = append(dynNames, "nil")
	}
	if t == nil {
		return 1
	}
	for i, x := range dynTypes {
		if x != nil && types.Identical(x, t) {
			return 1 << uint(i)
		}
	}
	dynTypes = append(dynTypes, t)
	dynNames = append(dynNames, types.TypeString(t, func(p *types.Package) string { return p.Name() }))
	if len(dynTypes) > 62 {
		panic("too many dynamic types")
	}
	return 1 << uint(len(dynTypes)-1)
}

func bitsTypes(m TMask) []types.Type {
	var r []types.Type
	for i := range dynTypes {
		if m&(1<<uint(i)) != 0 {
			r = append(r, dynTypes[i])
		}
	}
	return r
}

func tmStr(m TMask) string {
	var r []string
	for i := range dynTypes {
		if m&(1<<uint(i)) != 0 {
			r = append(r, dynNames[i])
		}
	}
	if m&tmOther != 0 {
		r = append(r, "other")
	}
	return "{" + strings.Join(r, ",") + "}"
}

func cInt(k int64) Lin { return Lin{0, k} }
func cBool(b bool) Bl {
	if b {
		return Bl{0, 1}
	}
	return Bl{0, 0}
}

func typeKey(t types.Type) string {
	if t == nil {
		return "nil"
	}
	return types.TypeString(t, nil)
}

// writeVal writes a canonical, exact rendering of v.
func writeVal(b *strings.Builder, v Value) {
	switch v := v.(type) {
	case nil:
		b.WriteString("<none>")
	case Lin:
		if v.B == 0 {
			fmt.Fprintf(b, "%d", v.K)
		} else {
			fmt.Fprintf(b, "i%d", v.B)
			if v.K != 0 {
				fmt.Fprintf(b, "%+d", v.K)
			}
		}
	case Bl:
		if v.S == 0 {
			fmt.Fprintf(b, "b%d", v.C)
		} else {
			fmt.Fprintf(b, "b#%d", v.S)
		}
	case Flt:
		fmt.Fprintf(b, "f%d", v.S)
	case Str:
		fmt.Fprintf(b, "s%d", v.S)
	case Nil:
		b.WriteString("nil")
	case Opq:
		fmt.Fprintf(b, "o%d", v.S)
	case Ifc:
		b.WriteString("I(")
		b.WriteString(typeKey(v.T))
		b.WriteByte(':')
		writeVal(b, v.V)
		b.WriteByte(')')
	case Ptr:
		fmt.Fprintf(b, "p%d", v.O)
		writePath(b, v.Path)
	case Slc:
		fmt.Fprintf(b, "L%d[", v.O)
		writeVal(b, v.Off)
		b.WriteByte(':')
		writeVal(b, v.Len)
		b.WriteByte(':')
		writeVal(b, v.Cap)
		b.WriteByte(']')
	case MapV:
		fmt.Fprintf(b, "M%d", v.O)
	case ChanV:
		fmt.Fprintf(b, "C%d", v.O)
	case Fn:
		b.WriteString("fn(")
		if v.F != nil {
			b.WriteString(fnName(v.F))
		}
		b.WriteString(v.B)
		for _, x := range v.Free {
			b.WriteByte(',')
			writeVal(b, x)
		}
		b.WriteByte(')')
	case Strct:
		b.WriteByte('{')
		for _, x := range v.F {
			writeVal(b, x)
			b.WriteByte(';')
		}
		b.WriteByte('}')
	case Tup:
		b.WriteByte('<')
		for _, x := range v.V {
			writeVal(b, x)
			b.WriteByte(';')
		}
		b.WriteByte('>')
	case Top:
		b.WriteString("T(" + typeKey(v.T) + ")")
	case Uni:
		b.WriteString("U{")
		for _, x := range v.A {
			writeVal(b, x)
			b.WriteByte('|')
		}
		b.WriteByte('}')
	case Bits:
		fmt.Fprintf(b, "B%d(%x|w%d@%d:", v.N, v.C, v.W, v.O)
		writeVal(b, v.V)
		b.WriteByte(')')
	case StrBytes:
		b.WriteString("by")
		writeVal(b, v.S)
	default:
		panic(fmt.Sprintf("writeVal %T", v))
	}
}

func writePath(b *strings.Builder, p []PE) {
	for _, e := range p {
		if e.F >= 0 {
			fmt.Fprintf(b, ".%d", e.F)
		} else {
			b.WriteByte('[')
			writeVal(b, e.I)
			b.WriteByte(']')
		}
	}
}

func valKey(v Value) string {
	var b strings.Builder
	writeVal(&b, v)
	return b.String()
}

func sameVal(a, b Value) bool { return valKey(a) == valKey(b) }

// forSyms calls f for each symbol occurring directly in v (including those naming virtual objects).
func forSyms(v Value, f func(Sym)) {
	lin := func(l Lin) {
		if l.B != 0 {
			f(l.B)
		}
	}
	obj := func(o ObjID) {
		if n := objtab[o]; n.virt != 0 {
			f(n.virt)
		}
	}
	switch v := v.(type) {
	case Lin:
		lin(v)
	case Bl:
		if v.S != 0 {
			f(v.S)
		}
	case Flt:
		f(v.S)
	case Str:
		f(v.S)
	case Opq:
		f(v.S)
	case Ifc:
		forSyms(v.V, f)
	case Ptr:
		obj(v.O)
		for _, e := range v.Path {
			if e.F < 0 {
				lin(e.I)
			}
		}
	case Slc:
		obj(v.O)
		lin(v.Off)
		lin(v.Len)
		lin(v.Cap)
	case MapV:
		obj(v.O)
	case ChanV:
		obj(v.O)
	case Fn:
		for _, x := range v.Free {
			forSyms(x, f)
		}
	case Strct:
		for _, x := range v.F {
			forSyms(x, f)
		}
	case Tup:
		for _, x := range v.V {
			forSyms(x, f)
		}
	case Uni:
		for _, x := range v.A {
			forSyms(x, f)
		}
	case Bits:
		lin(v.V)
	case StrBytes:
		f(v.S.S)
	}
}

// forSymsDeep also visits the arguments of terms.
func forSymsDeep(v Value, seen map[Sym]bool, f func(Sym)) {
	forSyms(v, func(s Sym) {
		if seen[s] {
			return
		}
		seen[s] = true
		for _, a := range info(s).args {
			forSymsDeep(a, seen, f)
		}
		f(s)
	})
}

// forObjs calls f for each heap object directly referenced by v.
func forObjs(v Value, f func(ObjID)) {
	switch v := v.(type) {
	case Ifc:
		forObjs(v.V, f)
	case Ptr:
		f(v.O)
	case Slc:
		f(v.O)
	case MapV:
		f(v.O)
	case ChanV:
		f(v.O)
	case Fn:
		for _, x := range v.Free {
			forObjs(x, f)
		}
	case Strct:
		for _, x := range v.F {
			forObjs(x, f)
		}
	case Tup:
		for _, x := range v.V {
			forObjs(x, f)
		}
	case Uni:
		for _, x := range v.A {
			forObjs(x, f)
		}
	}
}

// Mapper substitutes symbols and objects in values. Sym returns the replacement of a base symbol, or nil
// to keep it; terms are rebuilt when an argument changed.
type Mapper struct {
	Sym  func(Sym) Value
	Obj  func(ObjID) ObjID
	Uni  func(Value) Value // what becomes of alternatives
	memo map[Sym]Value
}

func (m *Mapper) sym(s Sym) Value { // nil: unchanged
	if s == 0 {
		return nil
	}
	if v, ok := m.memo[s]; ok {
		return v
	}
	if m.memo == nil {
		m.memo = map[Sym]Value{}
	}
	var r Value
	if m.Sym != nil {
		r = m.Sym(s)
	}
	i := info(s)
	if r == nil && i.op != "" && len(i.args) > 0 {
		ch := false
		args := make([]Value, len(i.args))
		for k, a := range i.args {
			args[k] = m.val(a)
			if !sameVal(args[k], a) {
				ch = true
			}
		}
		if ch {
			r = rebuild(s, args)
		}
	}
	m.memo[s] = r
	return r
}

// rebuild makes the term of s with new arguments.
func rebuild(s Sym, args []Value) Value {
	i := info(s)
	switch i.op {
	case "oe", "ok", "ob", "of", "os", "oi", "ol", "om", "oc", "oh":
		if o, ok := args[0].(Opq); ok {
			return opqTermV(i.op, o.S, args[1:])
		}
	case "strlen":
		if x, ok := args[0].(Str); ok && info(x.S).op == "sconst" {
			return cInt(int64(len(info(x.S).sval)))
		}
	}
	if i.op == "seq" {
		x, y := args[0].(Str), args[1].(Str)
		if x == y {
			return cInt(1)
		}
		if info(x.S).op == "sconst" && info(y.S).op == "sconst" {
			return cInt(0)
		}
		if y.S < x.S {
			args[0], args[1] = y, x
		}
	}
	t := term(i.kind, i.op, i.lo, i.hi, args...)
	if i.kind == KOpq && info(t).tm == 0 {
		info(t).tm, info(t).prov = i.tm, i.prov
	}
	return symVal(t)
}

func symVal(s Sym) Value {
	switch info(s).kind {
	case KInt:
		return Lin{s, 0}
	case KFlt:
		return Flt{s}
	case KStr:
		return Str{s}
	}
	return Opq{s}
}

func addK(v Value, k int64) Lin {
	l := toLin(v)
	return Lin{l.B, l.K + k}
}

func toLin(v Value) Lin {
	switch v := v.(type) {
	case Lin:
		return v
	case Bl:
		if v.S == 0 {
			return Lin{0, int64(v.C)}
		}
		return Lin{v.S, 0}
	}
	panic(fmt.Sprintf("toLin %T", v))
}

func (m *Mapper) lin(l Lin) Lin {
	if l.B == 0 {
		return l
	}
	if r := m.sym(l.B); r != nil {
		return addK(r, l.K)
	}
	return l
}

func (m *Mapper) obj(o ObjID) ObjID {
	n := objtab[o]
	if n.virt != 0 {
		if r := m.sym(n.virt); r != nil {
			if q, ok := r.(Opq); ok {
				return virtObj(q.S, n.vk)
			}
			panic("virtual object of a non-opaque value")
		}
		return o
	}
	if m.Obj != nil {
		return m.Obj(o)
	}
	return o
}

func (m *Mapper) vals(vs []Value) []Value {
	if vs == nil {
		return nil
	}
	r := make([]Value, len(vs))
	for i, v := range vs {
		r[i] = m.val(v)
	}
	return r
}

func (m *Mapper) val(v Value) Value {
	switch v := v.(type) {
	case Lin:
		return m.lin(v)
	case Bl:
		if v.S != 0 {
			if r := m.sym(v.S); r != nil {
				l := toLin(r)
				if l.B == 0 {
					return Bl{0, int8(l.K)}
				}
				if l.K != 0 {
					panic("bool offset")
				}
				return Bl{l.B, 0}
			}
		}
		return v
	case Flt:
		if r := m.sym(v.S); r != nil {
			return r.(Flt)
		}
		return v
	case Str:
		if r := m.sym(v.S); r != nil {
			return r.(Str)
		}
		return v
	case Opq:
		if r := m.sym(v.S); r != nil {
			return r
		}
		return v
	case Ifc:
		x := m.val(v.V)
		if u, ok := x.(Uni); ok {
			var a []Value
			for _, y := range u.A {
				a = append(a, Ifc{v.T, y})
			}
			return mkUni(a)
		}
		return Ifc{v.T, x}
	case Ptr:
		p := Ptr{O: m.obj(v.O)}
		if v.Path != nil {
			p.Path = make([]PE, len(v.Path))
			for i, e := range v.Path {
				if e.F < 0 {
					e.I = m.lin(e.I)
				}
				p.Path[i] = e
			}
		}
		return p
	case Slc:
		return Slc{m.obj(v.O), m.lin(v.Off), m.lin(v.Len), m.lin(v.Cap)}
	case MapV:
		return MapV{m.obj(v.O)}
	case ChanV:
		return ChanV{m.obj(v.O)}
	case Fn:
		return Fn{v.F, m.vals(v.Free), v.B}
	case Strct:
		return Strct{m.vals(v.F)}
	case Tup:
		return Tup{m.vals(v.V)}
	case Uni:
		u := mkUni(m.vals(v.A))
		if m.Uni != nil {
			return m.Uni(u)
		}
		return u
	case Bits:
		v.V = m.lin(v.V)
		return v
	case StrBytes:
		return StrBytes{m.val(v.S).(Str)}
	}
	return v
}

// mkUni flattens, deduplicates and sorts alternatives.
func mkUni(a []Value) Value {
	var fl []Value
	seen := map[string]bool{}
	var add func(v Value)
	add = func(v Value) {
		if u, ok := v.(Uni); ok {
			for _, x := range u.A {
				add(x)
			}
			return
		}
		k := valKey(v)
		if !seen[k] {
			seen[k] = true
			fl = append(fl, v)
		}
	}
	for _, v := range a {
		add(v)
	}
	if len(fl) == 1 {
		return fl[0]
	}
	for _, v := range fl {
		if t, ok := v.(Top); ok {
			return t
		}
	}
	sort.Slice(fl, func(i, j int) bool { return altRank(fl[i]) < altRank(fl[j]) })
	return Uni{fl}
}

func altRank(v Value) string {
	switch v := v.(type) {
	case Nil:
		return "0"
	case Ifc:
		return "1" + typeKey(v.T) + "|" + altRank(v.V)
	case Ptr:
		return "2" + v.O.String() + valKey(v)
	case Slc:
		return "3" + v.O.String()
	}
	return "9" + valKey(v)
}

// opaque interface payload terms
func opqInt(op string, s Sym, lo, hi int64) Lin {
	return Lin{term(KInt, op, lo, hi, Opq{s}), 0}
}

const maxDocLen = int64(1) << 48

// maxAnyLen bounds the length of any slice: no address space holds more.
const maxAnyLen = int64(1) << 56

func opqTermV(op string, s Sym, rest []Value) Value {
	switch op {
	case "ob":
		return Lin{term(KInt, "ob", 0, 1, Opq{s}), 0}
	case "of":
		return Flt{term(KFlt, "of", 0, 0, Opq{s})}
	case "os":
		return Str{term(KStr, "os", 0, 0, Opq{s})}
	case "oi":
		return Lin{term(KInt, "oi", minI, maxI, Opq{s}), 0}
	case "ol":
		return opqInt("ol", s, 0, maxDocLen)
	case "oc":
		return opqInt("oc", s, 0, maxDocLen)
	case "om":
		return opqInt("om", s, 0, maxDocLen)
	case "oh":
		return Lin{term(KInt, "oh", 0, 1, append([]Value{Opq{s}}, rest...)...), 0}
	case "oe", "ok":
		t := term(KOpq, op, 0, 0, append([]Value{Opq{s}}, rest...)...)
		if info(t).tm == 0 {
			info(t).tm = info(s).tm
			if info(s).prov == "doc" {
				info(t).tm = docMask
			}
			info(t).prov = info(s).prov
		}
		return Opq{t}
	}
	panic("opqTermV " + op)
}

var docMask TMask // set once the JSON types are known

func symStr(s Sym) string {
	i := info(s)
	switch i.op {
	case "":
		return fmt.Sprintf("%s#%d", i.name, s)
	case "sconst":
		return strconv.Quote(i.sval)
	case "fconst":
		return fmt.Sprint(i.fval)
	}
	var a []string
	for _, x := range i.args {
		a = append(a, vStr(x))
	}
	return i.op + "(" + strings.Join(a, ",") + ")"
}

// vStr renders a value for people.
func vStr(v Value) string {
	switch v := v.(type) {
	case nil:
		return "<none>"
	case Lin:
		if v.B == 0 {
			return fmt.Sprint(v.K)
		}
		if v.K == 0 {
			return symStr(v.B)
		}
		return fmt.Sprintf("%s%+d", symStr(v.B), v.K)
	case Bl:
		if v.S == 0 {
			return fmt.Sprint(v.C == 1)
		}
		return symStr(v.S)
	case Flt:
		return symStr(v.S)
	case Str:
		return symStr(v.S)
	case Nil:
		return "nil"
	case Opq:
		return symStr(v.S)
	case Ifc:
		return types.TypeString(v.T, func(p *types.Package) string { return p.Name() }) + ":" + vStr(v.V)
	case Ptr:
		var b strings.Builder
		for _, e := range v.Path {
			if e.F >= 0 {
				fmt.Fprintf(&b, ".%d", e.F)
			} else {
				b.WriteString("[" + vStr(e.I) + "]")
			}
		}
		return "&" + v.O.String() + b.String()
	case Slc:
		return fmt.Sprintf("%s[%s:+%s:%s]", v.O, vStr(v.Off), vStr(v.Len), vStr(v.Cap))
	case MapV:
		return "map " + v.O.String()
	case ChanV:
		return "chan " + v.O.String()
	case Fn:
		if v.F == nil {
			return "builtin " + v.B
		}
		s := "fn " + fnName(v.F)
		if len(v.Free) > 0 {
			s += "{"
			for _, x := range v.Free {
				s += vStr(x) + ","
			}
			s += "}"
		}
		return s
	case Strct:
		var a []string
		for _, x := range v.F {
			a = append(a, vStr(x))
		}
		return "{" + strings.Join(a, ", ") + "}"
	case Tup:
		var a []string
		for _, x := range v.V {
			a = append(a, vStr(x))
		}
		return "<" + strings.Join(a, ", ") + ">"
	case Top:
		return "any " + types.TypeString(v.T, func(p *types.Package) string { return p.Name() })
	case Uni:
		var a []string
		for _, x := range v.A {
			a = append(a, vStr(x))
		}
		return "(" + strings.Join(a, " | ") + ")"
	case Bits:
		return fmt.Sprintf("bits%d(%#x|%s:%d@%d)", v.N, v.C, vStr(v.V), v.W, v.O)
	case StrBytes:
		return "bytes(" + vStr(v.S) + ")"
	}
	return fmt.Sprintf("?%T", v)
}

func fnName(f *ssa.Function) string { return f.String() }
