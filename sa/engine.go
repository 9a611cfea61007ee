package main

// The abstract interpreter: activations, control flow, joins.

import (
	"fmt"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Oblig is a proof obligation at one construct.
type Oblig struct {
	Rule, Fn, Pos, Text string
	N                   int
	Fails               int
	Why                 string
}

// Event is an observed effect (a write to protected storage and the like).
type Event struct {
	Rule, Fn, Pos, Text string
	N                   int
}

type Engine struct {
	P       *Prog
	globals map[*ssa.Global]ObjID
	gheap   map[ObjID]*Obj
	initing bool
	obl     map[string]*Oblig
	events  map[string]*Event
	memo    map[string]*Summary
	rec     map[*ssa.Function]bool
	recSum  map[string]*RecSum
	recVer  int
	frames  []*Frame
	errT    types.Type
	errObj  *types.Named

	// settings
	exactCap  int // exact disjuncts kept per block before shapes are merged
	shapeCap  int
	coarsePtr bool // pointers of different types may merge
	inlineRec bool // follow recursive calls (the program is concrete)
	quiet     bool // do not record obligations
	concrete  bool // keep every object and every state apart: what runs is (nearly) a concrete program
	ctxDepth  int  // call sites kept in the names of objects
	producer  ObjID

	onCall   func(e *Engine, fr *Frame, st *State, site ssa.Instruction, fn *ssa.Function, args []Value) ([]*Out, bool)
	onAlloc  func(e *Engine, fr *Frame, st *State, in ssa.Instruction, o ObjID)
	nodes    *Nodes // what is known of the parser's tree, if it is abstracted
	onStore  func(e *Engine, fr *Frame, st *State, in ssa.Instruction, p Ptr, v Value)
	onReturn func(e *Engine, fr *Frame, st *State, in *ssa.Return)
	onHead   func(e *Engine, fr *Frame, st *State, b *ssa.BasicBlock)
	onEntry  func(fn *ssa.Function, st *State)
	onEdge   func(e *Engine, fr *Frame, st *State, from, b *ssa.BasicBlock) // to the head of a loop
	onBack   func(e *Engine, fr *Frame, st *State, from, b *ssa.BasicBlock)
	onModel  func(fn *ssa.Function, args []Value, outs []*valState) // after a library function
	peel     bool
	hookFree []Value                 // the captured variables of the function onCall is called with
	keyParam func(t types.Type) bool // constants of this type keep recursive calls apart
	noPass   bool                    // do not keep the passes of loops apart
	pureCall bool                    // what onCall does depends on nothing but the state
	onPanic  func(e *Engine, fr *Frame, st *State, in ssa.Instruction) bool

	steps, maxSteps int
	analysed        map[*ssa.Function]int
	trusted         map[string]int
	unsup           map[string]int
	trace           bool
	over            string
}

// Out is one way a call can come back.
type Out struct {
	st  *State
	ret []Value
}

type Summary struct {
	entry *State
	outs  []*Out
	deps  map[*RecSum]int
	hook  bool
}

type RecSum struct {
	key     string
	fn      *ssa.Function
	entry   *State
	entryN  int
	outs    map[string]*Out
	order   []string
	ver     int
	deps    map[*RecSum]int
	onStack bool
	done    bool
	visits  map[string]int
}

type Frame struct {
	e        *Engine
	fn       *ssa.Function
	fi       *FnInfo
	parent   *Frame
	site     ssa.Instruction
	blocks   map[int]*blockInfo
	outs     map[string]*Out
	order    []string
	coarse   bool
	deps     map[*RecSum]int
	hook     bool
	producer ObjID // channel a goroutine started for sends on
	undec    map[string]bool
	passes   map[string]int
	isRec    bool
	nstates  int
}

type blockInfo struct {
	keys   map[string]*disj
	order  []string
	clean  int // nothing before this index of order is dirty
	groups map[string]*group
}

// group is a set of disjuncts that may be merged: those of one pass of the loops around.
type group struct {
	level int
	order []string
}

const lvlPass = 3 // key level: constants outside collections

type disj struct {
	key    string
	st     *State
	dirty  bool
	visits int
	inst   string
}

func newEngine(P *Prog) *Engine {
	e := &Engine{P: P, globals: map[*ssa.Global]ObjID{}, gheap: map[ObjID]*Obj{}, obl: map[string]*Oblig{}, events: map[string]*Event{},
		memo: map[string]*Summary{}, rec: map[*ssa.Function]bool{}, recSum: map[string]*RecSum{}, analysed: map[*ssa.Function]int{},
		trusted: map[string]int{}, unsup: map[string]int{}, exactCap: 48, shapeCap: 64, ctxDepth: 2, maxSteps: 30_000_000}
	ep := types.NewPackage("errors", "errors")
	tn := types.NewTypeName(0, ep, "errorString", nil)
	named := types.NewNamed(tn, types.NewStruct([]*types.Var{types.NewField(0, ep, "s", types.Typ[types.String], false)}, nil), nil)
	recv := types.NewVar(0, ep, "e", types.NewPointer(named))
	sig := types.NewSignatureType(recv, nil, nil, nil, types.NewTuple(types.NewVar(0, ep, "", types.Typ[types.String])), false)
	named.AddMethod(types.NewFunc(0, ep, "Error", sig))
	e.errObj = named
	e.errT = types.NewPointer(named)
	e.findRecursion()
	return e
}

// the job being run: when it began and how long it may take.
var (
	jobStart = time.Now()
	jobLimit = 10 * time.Minute
)

// dbgCount counts the states followed through each block (SA_COUNT).
var dbgCount map[string]int

func init() {
	if os.Getenv("SA_COUNT") != "" {
		dbgCount = map[string]int{}
	}
	if v, err := time.ParseDuration(os.Getenv("SA_LIMIT")); err == nil {
		jobLimit = v
	}
}

// tooMuch aborts an analysis that exceeds its budget; the caller reports it as undecided.
type tooMuch struct{ why string }

func (e *Engine) tick() {
	e.steps++
	if e.steps > e.maxSteps {
		panic(tooMuch{"step budget exceeded"})
	}
	if e.steps%512 == 0 && time.Since(jobStart) > jobLimit {
		panic(tooMuch{"time budget exceeded"})
	}
	if e.steps%65536 == 0 {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 3<<30 {
			panic(tooMuch{"memory budget exceeded"})
		}
	}
}

func (e *Engine) where(fr *Frame, in ssa.Instruction) (fn, pos string) {
	if in != nil && in.Parent() != nil {
		return shortFn(in.Parent()), e.P.instrPos(in)
	}
	if fr != nil {
		return shortFn(fr.fn), e.P.pos(fr.fn.Pos())
	}
	return "?", "?"
}

func (e *Engine) oblige(rule string, fr *Frame, st *State, in ssa.Instruction, ok bool, text string, why func() string) {
	if e.quiet || e.initing {
		return
	}
	fn, pos := e.where(fr, in)
	k := rule + "|" + fn + "|" + text
	if in != nil {
		k += "|" + siteName(in)
	}
	o := e.obl[k]
	if o == nil {
		o = &Oblig{Rule: rule, Fn: fn, Pos: pos, Text: text}
		e.obl[k] = o
	}
	o.N++
	if !ok {
		o.Fails++
		if o.Why == "" {
			if why != nil {
				o.Why = why()
			}
			if o.Why == "" {
				o.Why = "not shown to hold"
			}
			o.Why += " [" + e.trail(fr) + "]"
			if e.trace {
				fmt.Println("FAILED", k, o.Why)
				fmt.Println(st)
			}
		}
	}
}

func (e *Engine) trail(fr *Frame) string {
	var a []string
	for f := fr; f != nil; f = f.parent {
		s := shortFn(f.fn)
		if f.site != nil {
			s += " (called at " + e.P.instrPos(f.site) + ")"
		}
		a = append(a, s)
		if len(a) > 12 {
			break
		}
	}
	return "in " + strings.Join(a, " < ")
}

func (e *Engine) event(rule string, fr *Frame, in ssa.Instruction, text string) {
	if e.initing {
		return
	}
	fn, pos := e.where(fr, in)
	k := rule + "|" + fn + "|" + text
	if in != nil {
		k += "|" + siteName(in)
	}
	v := e.events[k]
	if v == nil {
		v = &Event{Rule: rule, Fn: fn, Pos: pos, Text: text}
		e.events[k] = v
		if fr != nil {
			v.Text += " [" + e.trail(fr) + "]"
		}
	}
	v.N++
}

// unsupported notes a construct the interpreter does not model.
func (e *Engine) unsupported(fr *Frame, in ssa.Instruction, what string) {
	fn, pos := e.where(fr, in)
	e.unsup[what+" in "+fn+" at "+pos]++
}

// ---- object access ----

func (e *Engine) obj(st *State, o ObjID) *Obj {
	if x, ok := st.heap.get(o); ok {
		return x
	}
	return e.gheap[o]
}

func (e *Engine) globalObj(g *ssa.Global) ObjID {
	if o, ok := e.globals[g]; ok {
		return o
	}
	o := objID(ObjName{site: "global:" + g.String()})
	e.globals[g] = o
	t := g.Type().(*types.Pointer).Elem()
	x := e.newObjOf(t)
	x.flags |= flGlobal
	if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		x.val = e.topVal("global "+g.String(), t)
		if g.String() == "io.EOF" {
			x.val = Ifc{e.errT, Ptr{O: objID(ObjName{site: "io.EOF"})}}
		}
	}
	e.gheap[o] = x
	return o
}

// newObjOf makes a zeroed object for a variable of type t.
func (e *Engine) newObjOf(t types.Type) *Obj {
	if a, ok := t.Underlying().(*types.Array); ok {
		return &Obj{kind: 'a', typ: t, z: &Zone{cInt(0), cInt(a.Len()), e.zero(a.Elem())}}
	}
	return &Obj{kind: 'c', typ: t, val: e.zero(t)}
}

func isIface(t types.Type) bool { return types.IsInterface(t) }

func (e *Engine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return cBool(false)
		case u.Info()&types.IsInteger != 0:
			return cInt(0)
		case u.Info()&types.IsFloat != 0:
			return fltConst(0)
		case u.Info()&types.IsString != 0:
			return strConst("")
		case u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer:
			return Nil{}
		}
		return Top{t}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = e.zero(u.Field(i).Type())
		}
		return Strct{f}
	case *types.Array:
		if u.Len() <= 64 {
			f := make([]Value, u.Len())
			for i := range f {
				f[i] = e.zero(u.Elem())
			}
			return Strct{f}
		}
		return Top{t}
	case *types.Tuple:
		f := make([]Value, u.Len())
		for i := range f {
			f[i] = e.zero(u.At(i).Type())
		}
		return Tup{f}
	}
	return Nil{}
}

// topVal is an unknown value of type t.
func (e *Engine) topVal(name string, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return freshBool(name)
		case u.Info()&types.IsInteger != 0:
			lo, hi := intRange(t)
			return Lin{freshInt(name, lo, hi), 0}
		case u.Info()&types.IsFloat != 0:
			return freshFlt(name)
		case u.Info()&types.IsString != 0:
			return freshStr(name)
		}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = e.topVal(name, u.Field(i).Type())
		}
		return Strct{f}
	case *types.Tuple:
		f := make([]Value, u.Len())
		for i := range f {
			f[i] = e.topVal(name, u.At(i).Type())
		}
		return Tup{f}
	case *types.Interface:
		if types.Identical(t, types.Universe.Lookup("error").Type()) {
			return Uni{[]Value{Nil{}, Ifc{e.errT, Ptr{O: e.extObj("error " + name)}}}}
		}
	}
	return Top{t}
}

// extObj is an object outside the program that nobody looks into.
func (e *Engine) extObj(name string) ObjID {
	o := objID(ObjName{site: "ext:" + name})
	if _, ok := e.gheap[o]; !ok {
		e.gheap[o] = &Obj{kind: 'c', typ: types.Typ[types.Int], val: cInt(0), many: true}
	}
	return o
}

func intRange(t types.Type) (int64, int64) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return minI, maxI
	}
	switch b.Kind() {
	case types.Int8:
		return -128, 127
	case types.Int16:
		return -32768, 32767
	case types.Int32, types.UntypedRune:
		return -1 << 31, 1<<31 - 1
	case types.Uint8:
		return 0, 255
	case types.Uint16:
		return 0, 65535
	case types.Uint32:
		return 0, 1<<32 - 1
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, maxI // values above are not represented: operations producing them yield unknowns
	}
	return minI, maxI
}

func intBits(t types.Type) (uint, bool) { // bits, signed
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, true
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFlt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// inst instantiates the generic symbols of a value freshly.
func inst(st *State, v Value) Value {
	need := false
	seen := map[Sym]bool{}
	forSymsDeep(v, seen, func(s Sym) {
		if info(s).generic {
			need = true
		}
	})
	if !need {
		return v
	}
	nm := map[Sym]Sym{}
	m := &Mapper{Sym: func(s Sym) Value {
		if !info(s).generic {
			return nil
		}
		n, ok := nm[s]
		if !ok {
			n = like(s, false)
			nm[s] = n
		}
		return symVal(n)
	}}
	r := m.val(v)
	copyFacts(st, m, func(s Sym) bool {
		ok := false
		forSymsDeep(symVal(s), map[Sym]bool{}, func(x Sym) {
			if _, has := nm[x]; has {
				ok = true
			}
		})
		return ok
	})
	return r
}

// copyFacts repeats the facts about symbols selected by sel for their images under m.
func copyFacts(st *State, m *Mapper, sel func(Sym) bool) {
	type rr struct {
		s Sym
		r RSet
	}
	var rs []rr
	for s, r := range st.rng.m {
		if sel(s) {
			rs = append(rs, rr{s, r})
		}
	}
	for _, x := range rs {
		st.meetLin(toLin(m.val(Lin{x.s, 0})), x.r)
	}
	var zs []struct {
		k sp
		c int64
	}
	for k, c := range st.zone.m {
		if k.a != 0 && sel(k.a) || k.b != 0 && sel(k.b) {
			zs = append(zs, struct {
				k sp
				c int64
			}{k, c})
		}
	}
	for _, z := range zs {
		x, y := Lin{}, Lin{}
		if z.k.a != 0 {
			x = toLin(m.val(Lin{z.k.a, 0}))
		}
		if z.k.b != 0 {
			y = toLin(m.val(Lin{z.k.b, 0}))
		}
		st.addDiff(x, y, z.c)
	}
	for s, f := range mapCopy(st.fm.m) {
		if sel(s) {
			if x, ok := m.val(Flt{s}).(Flt); ok {
				st.fmeet(x.S, f)
			}
		}
	}
	for s, f := range mapCopy(st.sf.m) {
		if sel(s) {
			if x, ok := m.val(Str{s}).(Str); ok {
				st.strMeet(x.S, f)
			}
		}
	}
	for s, f := range mapCopy(st.tm.m) {
		if sel(s) {
			if x, ok := m.val(Opq{s}).(Opq); ok {
				st.tmMeet(x.S, f)
			}
		}
	}
}

func mapCopy[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

// ---- shapes ----

// shape writes a key of v at a level: 0 exact, 1 constants and structure, 2 structure only.
func (e *Engine) shape(b *strings.Builder, st *State, v Value, lvl int) {
	if lvl == 0 {
		writeVal(b, v)
		return
	}
	switch v := v.(type) {
	case nil:
		b.WriteByte('-')
	case Lin:
		if lvl == 1 || lvl == lvlPass {
			if k, ok := st.cval(v); ok {
				fmt.Fprintf(b, "%d", k)
				return
			}
		}
		if lvl == 1 {
			if r := st.rangeOf(v); !r.empty() && r.hi() < 0 {
				b.WriteByte('-')
			}
		}
		b.WriteByte('i')
	case Bits:
		b.WriteByte('i')
	case Bl:
		if k, ok := st.bval(v); ok {
			fmt.Fprintf(b, "%v", k)
			return
		}
		b.WriteByte('b')
	case Flt:
		b.WriteByte('f')
	case Str:
		b.WriteByte('s')
	case Nil:
		b.WriteByte('n')
	case Opq:
		b.WriteString("o" + info(v.S).prov)
	case Ifc:
		if e.coarsePtr && lvl >= 1 {
			if _, ok := v.T.(*types.Pointer); ok {
				if v.T == e.errT {
					b.WriteString("E")
				} else {
					b.WriteString("IP")
				}
				return
			}
		}
		if v.T == e.errT && lvl >= 2 {
			b.WriteString("E")
			return
		}
		b.WriteString("I" + typeKey(v.T) + "|")
		e.shape(b, st, v.V, lvl)
	case Ptr:
		if lvl >= 2 || e.coarsePtr && len(v.Path) == 0 {
			b.WriteByte('p')
			return
		}
		fmt.Fprintf(b, "p%d.%d", v.O, len(v.Path))
	case Slc:
		if v.O.isVirt() || lvl >= 2 || e.coarsePtr {
			b.WriteByte('S')
		} else {
			fmt.Fprintf(b, "S%d", v.O)
			if lvl == 1 {
				e.shape(b, st, v.Len, lvl)
			}
		}
	case MapV:
		if v.O.isVirt() || lvl >= 2 {
			b.WriteByte('M')
		} else {
			fmt.Fprintf(b, "M%d", v.O)
		}
	case ChanV:
		fmt.Fprintf(b, "C%d", v.O)
	case Fn:
		b.WriteString("F")
		if v.F != nil {
			b.WriteString(fnName(v.F))
		}
		b.WriteString(v.B)
	case Strct:
		b.WriteByte('{')
		for _, x := range v.F {
			e.shape(b, st, x, lvl)
			b.WriteByte(',')
		}
		b.WriteByte('}')
	case Tup:
		b.WriteByte('<')
		for _, x := range v.V {
			e.shape(b, st, x, lvl)
			b.WriteByte(',')
		}
		b.WriteByte('>')
	case Uni:
		// alternatives of pointer kind count as one
		ks := map[string]bool{}
		for _, x := range v.A {
			var c strings.Builder
			e.shape(&c, st, x, lvl)
			ks[c.String()] = true
		}
		var l []string
		for k := range ks {
			l = append(l, k)
		}
		sort.Strings(l)
		b.WriteString(strings.Join(l, "/"))
	case Top:
		b.WriteByte('T')
	case StrBytes:
		b.WriteByte('y')
	default:
		b.WriteByte('?')
	}
}

func (e *Engine) shapeObj(b *strings.Builder, st *State, o ObjID, x *Obj, lvl int) {
	fmt.Fprintf(b, "%d", o)
	if x.many {
		b.WriteString("*")
		if lvl > 0 {
			return
		}
	}
	fmt.Fprintf(b, "!%x", x.flags)
	switch x.kind {
	case 'c', 'i':
		b.WriteByte('=')
		e.shape(b, st, x.val, lvl)
	case 'a':
		if lvl == 0 {
			for _, c := range x.cells {
				writeVal(b, c.I)
				b.WriteByte(':')
				writeVal(b, c.V)
				b.WriteByte(',')
			}
			writeVal(b, x.def)
		} else if lvl == 1 {
			n := 0
			for _, c := range x.cells {
				if k, ok := st.cval(c.I); ok {
					fmt.Fprintf(b, "%d:", k)
					e.shape(b, st, c.V, lvl)
					b.WriteByte(',')
				} else {
					n++
				}
			}
			fmt.Fprintf(b, "+%d", n)
			if x.def == nil {
				b.WriteByte('-')
			}
		}
	case 'm':
		if lvl == 0 {
			for _, c := range x.ents {
				writeVal(b, c.K)
				b.WriteByte(':')
				writeVal(b, c.V)
				b.WriteByte(',')
			}
			writeVal(b, x.mk)
			b.WriteByte(':')
			writeVal(b, x.mv)
		} else if lvl == 1 {
			fmt.Fprintf(b, "m%d", len(x.ents))
		}
	case 'h':
		fmt.Fprintf(b, "%+v", x.ch)
		if lvl < 2 {
			fmt.Fprintf(b, "%v%d", x.qok, len(x.q))
		}
		if lvl == 0 {
			writeVal(b, x.elem)
			for _, v := range x.q {
				b.WriteByte(',')
				writeVal(b, v)
			}
		}
	}
	b.WriteByte(';')
}

func (e *Engine) stateKey(st *State, regs []ssa.Value, lvl int) string {
	var b strings.Builder
	for _, r := range regs {
		if v, ok := st.regs[r]; ok {
			e.shape(&b, st, v, lvl)
		}
		b.WriteByte(';')
	}
	b.WriteByte('|')
	var gs []string
	for g := range st.gh.m {
		if g != "#in" {
			gs = append(gs, g)
		}
	}
	sort.Strings(gs)
	for _, g := range gs {
		b.WriteString(g)
		b.WriteByte('=')
		if l := min(lvl, 1); l == 1 && g[0] == '~' { // counters
			e.shape(&b, st, st.gh.m[g], 2)
		} else {
			e.shape(&b, st, st.gh.m[g], l)
		}
		b.WriteByte(';')
	}
	b.WriteByte('|')
	for _, d := range st.dfr {
		b.WriteString(siteName(d.site))
	}
	b.WriteByte('|')
	var os []ObjID
	for o := range st.heap.m {
		os = append(os, o)
	}
	sort.Slice(os, func(i, k int) bool { return os[i] < os[k] })
	for _, o := range os {
		x := st.obj(o)
		if lvl == 2 && x.flags&flInput == 0 && x.kind != 'h' {
			continue
		}
		if lvl == lvlPass && (x.kind == 'a' || x.kind == 'm' || x.many) {
			continue
		}
		e.shapeObj(&b, st, o, x, lvl)
	}
	return b.String()
}

// norm replaces symbols known to be constant, and identifies equal symbols; with terms, terms are kept rather than symbols.
func (st *State) norm(terms bool) {
	if st.bot {
		return
	}
	for round := 0; round < 4; round++ {
		var occ map[Sym]bool
		kept := func(s Sym) bool {
			if occ == nil {
				occ = map[Sym]bool{}
				st.forVals(func(v Value) { forSymsDeep(v, occ, func(Sym) {}) })
				for k := range st.zone.m {
					occ[k.a], occ[k.b] = true, true
				}
			}
			return occ[s]
		}
		sub := map[Sym]Value{}
		var vals map[Sym]bool
		var again [][2]Lin // terms stay known
		for s, r := range st.rng.m {
			if k, ok := r.single(); ok && info(s).kind == KInt {
				if info(s).op != "" && (terms || !kept(s)) {
					continue // stays as a fact about the term
				}
				sub[s] = cInt(k)
			}
		}
		for k, c := range st.zone.m {
			if k.a == 0 || k.b == 0 || k.a > k.b {
				continue
			}
			if d, ok := st.zone.get(sp{k.b, k.a}); ok && d == -c { // a - b == c
				if sub[k.a] != nil || sub[k.b] != nil {
					continue
				}
				// replace the term or the younger symbol
				x, y, off := k.b, k.a, -c // b = a - c
				if info(k.b).op == "" && (info(k.a).op != "" || info(k.b).keep && !info(k.a).keep) {
					x, y, off = k.a, k.b, c
				}
				if terms && info(x).op != "" && info(y).op == "" {
					x, y, off = y, x, -off
				}
				if info(x).op != "" && info(y).op != "" || occursIn(x, y) {
					continue
				}
				if info(x).lo == 0 && info(x).hi == 1 {
					continue
				}
				if info(x).op != "" {
					if vals == nil {
						vals = map[Sym]bool{}
						st.forVals(func(v Value) { forSymsDeep(v, vals, func(Sym) {}) })
					}
					if !vals[x] {
						continue // stays as a fact about the term
					}
					again = append(again, [2]Lin{{x, 0}, {y, off}})
				}
				sub[x] = Lin{y, off}
			}
		}
		// strings known to be one constant
		for s, f := range st.sf.m {
			if f.eq && len(f.s) == 1 && info(s).op == "" {
				sub[s] = strConst(f.s[0])
			}
		}
		if len(sub) == 0 {
			return
		}
		// apply only base symbols and whole terms
		m := &Mapper{Sym: func(s Sym) Value { return sub[s] }}
		st.substitute(m, sub)
		if st.bot {
			return
		}
		for _, p := range again {
			st.addDiff(p[0], p[1], 0)
			st.addDiff(p[1], p[0], 0)
			if st.bot {
				return
			}
		}
	}
}

// collapse merges alternatives that are slices of the same storage (or of storage of the same kind).
func (st *State) collapse() {
	dup := false
	var look func(v Value)
	look = func(v Value) {
		switch v := v.(type) {
		case Uni:
			seen := map[string]bool{}
			for _, x := range v.A {
				look(x)
				if c, ok := sliceClass(x); ok {
					dup = dup || seen[c]
					seen[c] = true
				}
			}
		case Ifc:
			look(v.V)
		case Strct:
			for _, x := range v.F {
				look(x)
			}
		case Tup:
			for _, x := range v.V {
				look(x)
			}
		case Fn:
			for _, x := range v.Free {
				look(x)
			}
		}
	}
	st.forVals(look)
	if !dup {
		return
	}
	memo := map[string]Value{}
	lin := func(a, b Lin) Lin {
		if a == b {
			return a
		}
		s := freshInt("g", minI, maxI)
		r := st.rangeOf(a).join(st.rangeOf(b))
		st.meetRange(s, r)
		return Lin{s, 0}
	}
	var merge func(a, b Value) Value
	merge = func(a, b Value) Value {
		if x, ok := a.(Ifc); ok {
			return Ifc{x.T, merge(x.V, b.(Ifc).V)}
		}
		x, y := a.(Slc), b.(Slc)
		o := x.O
		if x.O != y.O {
			p, q := x.O.name().virt, y.O.name().virt
			m := st.tmask(p) | st.tmask(q)
			o = virtObj(freshOpq("g", m, info(p).prov).S, x.O.name().vk)
		}
		n := Slc{o, lin(x.Off, y.Off), lin(x.Len, y.Len), lin(x.Cap, y.Cap)}
		rel := func(a1, b1, a2, b2, a3, b3 Lin) {
			c := st.diffL(a1, b1)
			if d := st.diffL(a2, b2); d > c {
				c = d
			}
			if c < inf {
				st.addDiff(a3, b3, c)
			}
		}
		rel(x.Len, x.Cap, y.Len, y.Cap, n.Len, n.Cap)
		return n
	}
	m := &Mapper{Uni: func(v Value) Value {
		u, ok := v.(Uni)
		if !ok {
			return v
		}
		k := valKey(u)
		if r, ok := memo[k]; ok {
			return r
		}
		by := map[string]int{}
		var out []Value
		for _, x := range u.A {
			c, ok := sliceClass(x)
			if i, had := by[c]; ok && had {
				out[i] = merge(out[i], x)
				continue
			}
			if ok {
				by[c] = len(out)
			}
			out = append(out, x)
		}
		r := mkUni(out)
		memo[k] = r
		return r
	}}
	st.substitute(m, map[Sym]Value{})
}

func sliceClass(v Value) (string, bool) {
	switch x := v.(type) {
	case Slc:
		return classV(v), true
	case Ifc:
		if _, ok := x.V.(Slc); ok {
			return classV(v), true
		}
	}
	return "", false
}

func occursIn(x, y Sym) bool {
	f := false
	forSymsDeep(symVal(y), map[Sym]bool{}, func(s Sym) {
		if s == x {
			f = true
		}
	})
	return f
}

// substitute rewrites all values and facts of the state.
func (st *State) substitute(m *Mapper, sub map[Sym]Value) {
	for r, v := range st.regs {
		n := m.val(v)
		st.regs[r] = n
	}
	for g, v := range mapCopy(st.gh.m) {
		if g == "#in" {
			continue
		}
		st.gh.set(g, m.val(v))
	}
	for o, x := range mapCopy(st.heap.m) {
		st.heap.set(o, x.mapVals(m))
	}
	for i := range st.dfr {
		st.dfr[i].fn = m.val(st.dfr[i].fn)
		st.dfr[i].args = m.vals(st.dfr[i].args)
	}
	inSyms := map[Sym]bool{}
	if v, ok := st.gh.get("#in"); ok {
		forSyms(v, func(s Sym) { inSyms[s] = true })
	}
	// move facts
	rng := mapCopy(st.rng.m)
	for s, r := range rng {
		v := m.val(symVal(s))
		if l, ok := v.(Lin); ok && (l.B != s || l.K != 0) {
			if !inSyms[s] && (info(s).op == "" || sub[s] == nil) {
				st.rng.del(s)
			}
			if l.B == 0 {
				if !r.has(l.K) {
					st.bot = true
					return
				}
			} else {
				st.meetLin(l, r)
			}
			if st.bot {
				return
			}
		}
	}
	zn := mapCopy(st.zone.m)
	for k, c := range zn {
		x, y := Lin{}, Lin{}
		if k.a != 0 {
			x = toLin(m.val(Lin{k.a, 0}))
		}
		if k.b != 0 {
			y = toLin(m.val(Lin{k.b, 0}))
		}
		if (k.a == 0 || x.B == k.a && x.K == 0) && (k.b == 0 || y.B == k.b && y.K == 0) {
			continue
		}
		keep := inSyms[k.a] || inSyms[k.b]
		if !keep {
			st.zone.del(k)
		}
		st.addDiff(x, y, c)
		if st.bot {
			return
		}
	}
	for s, f := range mapCopy(st.fm.m) {
		if x := m.val(Flt{s}).(Flt); x.S != s {
			st.fmeet(x.S, f)
		}
	}
	for k, f := range mapCopy(st.fc.m) {
		x, y := m.val(Flt{k.a}).(Flt), m.val(Flt{k.b}).(Flt)
		if x.S != k.a || y.S != k.b {
			st.fc.del(k)
			st.fcmpMeet(x.S, y.S, f)
		}
	}
	for s, f := range mapCopy(st.sf.m) {
		if x := m.val(Str{s}).(Str); x.S != s {
			if !inSyms[s] {
				st.sf.del(s)
			}
			st.strMeet(x.S, f)
		}
	}
	for s, f := range mapCopy(st.tm.m) {
		if x, ok := m.val(Opq{s}).(Opq); ok && x.S != s {
			st.tmMeet(x.S, f)
		}
	}
}

// ---- control flow ----

func (e *Engine) exec(fn *ssa.Function, entry *State, parent *Frame, site ssa.Instruction, isRec bool) *Frame {
	fr := &Frame{e: e, fn: fn, fi: fnInfo(fn), parent: parent, site: site, blocks: map[int]*blockInfo{}, outs: map[string]*Out{},
		deps: map[*RecSum]int{}, undec: map[string]bool{}, isRec: isRec}
	fr.producer = e.producer
	e.frames = append(e.frames, fr)
	if len(e.frames) > 400 {
		panic(tooMuch{"call depth in " + shortFn(fn)})
	}
	e.analysed[fn]++
	st := entry.clone()
	if e.onEntry != nil {
		e.onEntry(fn, st)
	}
	fr.arrive(st, nil, fn.Blocks[0])
	for {
		// next dirty disjunct in iteration order
		var bd *disj
		bi := -1
		for i, b := range fr.blocks {
			if bi >= 0 && fr.fi.prio[i] >= fr.fi.prio[bi] {
				continue
			}
			for ; b.clean < len(b.order); b.clean++ {
				if d := b.keys[b.order[b.clean]]; d != nil && d.dirty {
					bd, bi = d, i
					break
				}
			}
		}
		if bd == nil {
			break
		}
		bd.dirty = false
		bd.visits++
		if dbgCount != nil {
			dbgCount[fmt.Sprintf("%s/%d", shortFn(fn), bi)]++
		}
		fr.runBlock(fn.Blocks[bi], bd.st.clone(), bd)
	}
	e.frames = e.frames[:len(e.frames)-1]
	return fr
}

// loopsAt lists the loop heads whose loop contains block b, outermost first.
func (fi *FnInfo) loopsAt(b int) []int {
	var r []int
	for h, l := range fi.loopOf {
		if l != nil && l[b] {
			r = append(r, h)
		}
	}
	sort.Slice(r, func(i, j int) bool {
		li, lj := len(fi.loopOf[r[i]]), len(fi.loopOf[r[j]])
		if li != lj {
			return li > lj
		}
		return r[i] < r[j]
	})
	return r
}

func (fr *Frame) liveRegs(b int) []ssa.Value {
	var r []ssa.Value
	for v := range fr.fi.live[b] {
		r = append(r, v)
	}
	for _, in := range fr.fn.Blocks[b].Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			r = append(r, p)
		} else {
			break
		}
	}
	sort.Slice(r, func(i, k int) bool { return regNum(r[i]) < regNum(r[k]) })
	return r
}

// arrive merges st, coming from block pred, into block b (phis already assigned).
func (fr *Frame) arrive(st *State, pred, b *ssa.BasicBlock) {
	e := fr.e
	if st.bot {
		return
	}
	live := fr.fi.live[b.Index]
	for r := range st.regs {
		if live[r] {
			continue
		}
		if p, ok := r.(*ssa.Phi); ok && p.Block() == b {
			continue
		}
		delete(st.regs, r)
	}
	if !fr.fi.join[b.Index] && pred != nil { // nothing to merge with
		for k := range mapCopy(st.gh.m) {
			if strings.HasPrefix(k, "#l") || strings.HasPrefix(k, "#p") || strings.HasPrefix(k, "#h") {
				var h int
				fmt.Sscanf(k[2:], "%d", &h)
				if l := fr.fi.loopOf[h]; l == nil || !l[b.Index] {
					st.gh.del(k)
				}
			}
		}
		fr.runBlock(b, st, nil)
		return
	}
	if !e.concrete {
		st.collapse()
	}
	st.gc()
	st.norm(e.concrete)
	if st.bot {
		return
	}
	// loop instances
	head := fr.fi.head[b.Index]
	back := head && pred != nil && b.Dominates(pred)
	if len(fr.fi.loopOf) > 0 {
		for k := range mapCopy(st.gh.m) {
			if strings.HasPrefix(k, "#l") || strings.HasPrefix(k, "#p") || strings.HasPrefix(k, "#h") {
				var h int
				fmt.Sscanf(k[2:], "%d", &h)
				if l := fr.fi.loopOf[h]; l == nil || !l[b.Index] || h == b.Index && !back {
					st.gh.del(k)
				}
			}
		}
	}
	bi := fr.blocks[b.Index]
	if bi == nil {
		bi = &blockInfo{keys: map[string]*disj{}, groups: map[string]*group{}}
		fr.blocks[b.Index] = bi
	}
	regs := fr.liveRegs(b.Index)
	gid := fr.instOf(st, b.Index)
	fixed := -1 // level that does not change
	if e.concrete {
	} else if head && !back {
		// a new instance of the loop
		k := ""
		fixed = 1
		if g := bi.groups[gid+"in"]; g != nil && len(g.order) > e.shapeCap {
			k = e.stateKey(st, regs, 2)
			fixed = 2
		} else {
			k = e.stateKey(st, regs, 1)
		}
		st.gh.set(fmt.Sprintf("#l%d", b.Index), strConst(fmt.Sprintf("%d:%s%s", b.Index, gid, k)))
		st.setHist(b.Index, nil, "")
		gid += "in"
	} else if head && !e.concrete {
		st.gh.del(fmt.Sprintf("#p%d", b.Index))
		inst := fr.instOf(st, b.Index)
		if fr.undec[inst] || e.noPass {
			fixed, gid = 2, inst
		} else {
			// the passes of a loop whose test is decided are kept apart
			k := e.stateKey(st, regs, lvlPass)
			st.gh.set(fmt.Sprintf("#p%d", b.Index), strConst(k))
			gid = inst + "pass" + k
			if st.hist[b.Index][k] {
				fixed = 2
				gid += "again"
			} else {
				st.setHist(b.Index, st.hist[b.Index], k)
			}
			if bi.groups[gid] == nil {
				if fr.passes == nil {
					fr.passes = map[string]int{}
				}
				fr.passes[inst]++
				if fr.passes[inst] > 600 {
					fr.undec[inst] = true
					st.gh.del(fmt.Sprintf("#p%d", b.Index))
					fixed, gid = 2, inst
				}
			}
		}
	}
	g := bi.groups[gid]
	if g == nil {
		g = &group{}
		bi.groups[gid] = g
	}
	lvl := g.level
	if e.concrete {
		fixed = 0
		fr.nstates++
		if fr.nstates > 100_000 {
			panic(tooMuch{"too many states in " + shortFn(fr.fn)})
		}
	}
	if fixed >= 0 {
		lvl = fixed
	}
	key := gid + "@" + fmt.Sprint(lvl) + e.stateKey(st, regs, lvl)
	if e.concrete {
		var fb strings.Builder
		e.writeFacts(&fb, st)
		key += fb.String()
	}
	d := bi.keys[key]
	if d == nil {
		if dbgBlock != "" && dbgBlock == fmt.Sprintf("%s/%d", shortFn(fr.fn), b.Index) {
			fmt.Println("+++ new", key)
		}
		d = &disj{key: key, st: st, dirty: true}
		bi.keys[key] = d
		bi.order = append(bi.order, key)
		g.order = append(g.order, key)
		if fixed < 0 {
			cap := e.exactCap
			if g.level >= 1 {
				cap = e.shapeCap * 3
			}
			if g.level < 2 && len(g.order) > cap {
				g.level++
				// rekey the group
				var old []*disj
				for _, k := range g.order {
					old = append(old, bi.keys[k])
					delete(bi.keys, k)
				}
				g.order = nil
				for _, x := range old {
					nk := gid + "@" + fmt.Sprint(g.level) + e.stateKey(x.st, regs, g.level)
					if y := bi.keys[nk]; y != nil {
						if _, ok := leq(x.st, y.st); !ok {
							y.st = join(y.st, x.st, false)
							y.dirty = true
						}
					} else {
						bi.keys[nk] = x
						x.key = nk
						g.order = append(g.order, nk)
					}
				}
				bi.order, bi.clean = nil, 0
				for k := range bi.keys {
					bi.order = append(bi.order, k)
				}
				sort.Strings(bi.order)
			}
		}
		return
	}
	if _, ok := leq(st, d.st); ok {
		return
	}
	widen := head && d.visits > 3
	var n *State
	if widen && d.visits > 8 {
		n = joinHard(d.st, st)
	} else {
		n = join(d.st, st, widen)
	}
	n.gc()
	if widen {
		cover(n, st)
	}
	if dbgBlock != "" && dbgBlock == fmt.Sprintf("%s/%d", shortFn(fr.fn), b.Index) {
		m0, _ := leqM(st, d.st)
		fmt.Println("=== visit", d.visits, "widen", widen, "fail", m0.fail, "old:")
		fmt.Println(d.st)
		fmt.Println("--- new:")
		fmt.Println(st)
		fmt.Println("--- joined:")
		fmt.Println(n)
		_, ok := leq(st, n)
		_, ok2 := leq(d.st, n)
		m1, _ := leqM(st, n)
		m2, _ := leqM(d.st, n)
		fmt.Println("--- new<=joined", ok, m1.fail, "old<=joined", ok2, m2.fail)
	}
	d.st = n
	d.dirty = true
	bi.clean = 0
	if d.visits > 60 {
		panic(tooMuch{fmt.Sprintf("no fixpoint in %s block %d", shortFn(fr.fn), b.Index)})
	}
}

func (fr *Frame) runBlock(b *ssa.BasicBlock, st *State, d *disj) {
	e := fr.e
	if e.onHead != nil && fr.fi.head[b.Index] {
		e.onHead(e, fr, st, b)
	}
	if dbgAt != "" && dbgAt == fmt.Sprintf("%s/%d", shortFn(fr.fn), b.Index) {
		fmt.Println("AT", dbgAt)
		fmt.Println(st)
	}
	cur := []*State{st}
	for _, in := range b.Instrs {
		if len(cur) == 0 {
			return
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			for _, s := range cur {
				e.tick()
				v, ok := e.get(s, in.Cond).(Bl)
				if !ok {
					v = freshBool("cond")
				}
				c, known := s.bval(v)
				if fr.fi.head[b.Index] && (!known || v.S != 0 || len(cur) > 1 || !e.constTest(s, in.Cond)) {
					l := fr.fi.loopOf[b.Index]
					if l != nil && (!l[b.Succs[0].Index] || !l[b.Succs[1].Index]) {
						if dbgUndec {
							fmt.Println("UNDEC", shortFn(fr.fn), b.Index, known, vStr(v), len(cur), e.get(s, in.Cond))
						}
						fr.undecided(s, b.Index)
					}
				}
				if known {
					if c {
						fr.goTo(s, b, b.Succs[0])
					} else {
						fr.goTo(s, b, b.Succs[1])
					}
					continue
				}
				t := s.clone()
				t.meetRange(v.S, rng1(1, 1))
				fr.goTo(t, b, b.Succs[0])
				s.meetRange(v.S, rng1(0, 0))
				fr.goTo(s, b, b.Succs[1])
			}
			return
		case *ssa.Jump:
			if fr.fi.head[b.Index] {
				// a loop without a test in its head is never unrolled
				for _, s := range cur {
					fr.undecided(s, b.Index)
				}
			}
			for _, s := range cur {
				fr.goTo(s, b, b.Succs[0])
			}
			return
		case *ssa.Return:
			for _, s := range cur {
				e.tick()
				for _, s2 := range e.runDefers(fr, s) {
					fr.ret(s2, in)
				}
			}
			return
		case *ssa.Panic:
			for _, s := range cur {
				if e.onPanic != nil && e.onPanic(e, fr, s, in) {
					continue
				}
				e.oblige("panic", fr, s, in, false, "explicit panic", func() string { return "the call of panic is reachable" })
			}
			return
		}
		var nx []*State
		for _, s := range cur {
			e.tick()
			for _, r := range e.step(fr, s, in) {
				if !r.bot {
					nx = append(nx, r)
				}
			}
		}
		cur = nx
		if len(cur) > 3000 {
			panic(tooMuch{"too many paths in a block of " + shortFn(fr.fn)})
		}
	}
}

// instOf identifies the instances (and passes) of the loops around block b that st belongs to.
func (fr *Frame) instOf(st *State, b int) string {
	inst := ""
	for _, h := range fr.fi.loopsAt(b) {
		if v, ok := st.gh.get(fmt.Sprintf("#l%d", h)); ok {
			inst += info(v.(Str).S).sval + "/"
		}
		if v, ok := st.gh.get(fmt.Sprintf("#p%d", h)); ok {
			inst += info(v.(Str).S).sval + "/"
		}
	}
	return inst
}

// undecided marks the loop with head b, as entered by st, as one whose passes are merged.
func (fr *Frame) undecided(st *State, b int) {
	k := fmt.Sprintf("#p%d", b)
	v, ok := st.gh.get(k)
	st.gh.del(k)
	fr.undec[fr.instOf(st, b)] = true
	if ok {
		st.gh.set(k, v)
	}
}

func (s *State) setHist(h int, old map[string]bool, k string) {
	n := map[int]map[string]bool{}
	for x, m := range s.hist {
		n[x] = m
	}
	m := map[string]bool{}
	for x := range old {
		m[x] = true
	}
	if k != "" {
		m[k] = true
	}
	n[h] = m
	s.hist = n
}

func (fr *Frame) goTo(st *State, from, to *ssa.BasicBlock) {
	if st.bot {
		return
	}
	if e := fr.e; fr.fi.head[to.Index] {
		back := to.Dominates(from)
		if e.onEdge != nil {
			e.onEdge(e, fr, st, from, to)
		}
		if back && e.onBack != nil {
			e.onBack(e, fr, st, from, to)
		}
		if e.peel { // keep the first round of each loop apart
			st.gh.set(fmt.Sprintf("#h%df", to.Index), cBool(!back))
		}
	}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			// an If with both edges to one block
			break
		}
	}
	var vals []Value
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, fr.e.get(st, p.Edges[pi]))
	}
	for i, p := range phis {
		st.regs[p] = vals[i]
	}
	fr.arrive(st, from, to)
}

// ret records a return.
func (fr *Frame) ret(st *State, in *ssa.Return) {
	e := fr.e
	if st.bot {
		return
	}
	if e.onReturn != nil {
		e.onReturn(e, fr, st, in)
		if st.bot {
			return
		}
	}
	var vals []Value
	if in != nil {
		for _, r := range in.Results {
			vals = append(vals, e.get(st, r))
		}
	} else if n := fr.fn.Signature.Results().Len(); n > 0 {
		for i := 0; i < n; i++ {
			vals = append(vals, e.zero(fr.fn.Signature.Results().At(i).Type()))
		}
	}
	s := st.clone()
	s.regs = map[ssa.Value]Value{}
	for k := range mapCopy(s.gh.m) {
		if strings.HasPrefix(k, "#l") || strings.HasPrefix(k, "#h") || k == "#ent" {
			s.gh.del(k)
		}
	}
	if e.nodes != nil {
		e.nodes.returned(s, fr.fn, vals)
	}
	s.gh.set("#ret", Tup{vals})
	s.gc()
	s.norm(fr.e.concrete)
	if s.bot {
		return
	}
	if dbgRet != "" && dbgRet == shortFn(fr.fn) {
		fmt.Println("RET", dbgRet, vStr(Tup{vals}))
		fmt.Println(s)
	}
	lvl := 0
	if fr.coarse {
		lvl = 1
	}
	if fr.isRec {
		lvl = 2
	}
	key := e.outKey(s, lvl)
	if e.concrete {
		var fb strings.Builder
		e.writeFacts(&fb, s)
		key += fb.String()
	}
	if o := fr.outs[key]; o != nil {
		if _, ok := leq(s, o.st); ok {
			return
		}
		o.st = join(o.st, s, false)
		return
	}
	fr.outs[key] = &Out{st: s}
	fr.order = append(fr.order, key)
	cap := e.exactCap
	if fr.coarse || e.concrete {
		return
	}
	if len(fr.order) > cap && !fr.isRec {
		fr.coarse = true
		old, oo := fr.outs, fr.order
		fr.outs, fr.order = map[string]*Out{}, nil
		for _, k := range oo {
			x := old[k]
			nk := e.outKey(x.st, 1)
			if y := fr.outs[nk]; y != nil {
				y.st = join(y.st, x.st, false)
			} else {
				fr.outs[nk] = x
				fr.order = append(fr.order, nk)
			}
		}
	}
}

func (e *Engine) outKey(st *State, lvl int) string {
	return e.stateKey(st, nil, lvl) + func() string {
		var b strings.Builder
		v, _ := st.gh.get("#ret")
		if lvl == 0 {
			for _, x := range v.(Tup).V {
				if l, ok := x.(Lin); ok && l.B != 0 {
					r := st.rangeOf(l)
					fmt.Fprintf(&b, "%v%v ", r.empty() || r.lo() >= 0, r.empty() || r.hi() < 0)
				}
			}
		}
		if lvl < 2 {
			return b.String()
		}
		e.shape(&b, st, v, lvl)
		return b.String()
	}()
}

var dbgUndec = os.Getenv("SA_UNDEC") != ""
var dbgAt = os.Getenv("SA_AT")
var dbgRet = os.Getenv("SA_RET")
var dbgBlock = os.Getenv("SA_BLOCK")

// constTest reports whether the comparison behind a loop's test is of values known exactly.
// (A loop over a collection of which only the least size is known must not be unrolled that many times.)
func (e *Engine) constTest(st *State, cond ssa.Value) bool {
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return true
	}
	for _, x := range []ssa.Value{b.X, b.Y} {
		switch v := e.get(st, x).(type) {
		case Lin:
			if _, ok := st.cval(v); !ok {
				return false
			}
		}
	}
	return true
}
