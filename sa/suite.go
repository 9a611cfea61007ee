package main

// What the checks share: runs of whole expressions, observation points, shaped documents, comparison with the reference.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var (
	sliceAny  types.Type
	mapAny    types.Type
	emptyI    types.Type
	machMask  TMask // everything an operator can meet that JSON or an expression produces
	int64T    = types.Typ[types.Int64]
	float64T  = types.Typ[types.Float64]
	stringT   = types.Typ[types.String]
	boolT     = types.Typ[types.Bool]
	kindNames = []string{"nil", "bool", "int64", "float64", "string", "array", "object", "missing"}
)

func setupKinds() {
	sliceAny, mapAny = docTypes[4], docTypes[5]
	machMask = docMask | typeBit(int64T)
}

var dbgObs = os.Getenv("SA_OBS") != ""

// Suite is an engine with observation points.
type Suite struct {
	P   *Prog
	e   *Engine
	r   *Result
	any map[string]func(st *State) []*valState         // values of calls any1(), any2(), ...
	obs func(fr *Frame, st *State, args []Value) Value // obs(...): its result is the call's
	n   int                                            // observations
	// user hook, before the others
	hook func(e *Engine, fr *Frame, st *State, site ssa.Instruction, fn *ssa.Function, args []Value) ([]*Out, bool)
}

func newSuite(P *Prog, r *Result) *Suite {
	e := newEngine(P)
	s := &Suite{P: P, e: e, r: r, any: map[string]func(*State) []*valState{}}
	if err := e.runInit(); err != nil {
		panic(tooMuch{"initialisation: " + err.Error()})
	}
	e.steps = 0
	e.obl = map[string]*Oblig{}
	e.events = map[string]*Event{}
	call := P.fn("mach", "call")
	e.onCall = func(e *Engine, fr *Frame, st *State, site ssa.Instruction, fn *ssa.Function, args []Value) ([]*Out, bool) {
		if s.hook != nil {
			if o, ok := s.hook(e, fr, st, site, fn, args); ok {
				return o, ok
			}
		}
		if fn != call || len(args) != 2 {
			return nil, false
		}
		id, ok := args[0].(Str)
		if !ok {
			return nil, false
		}
		name, ok := st.sval(id)
		if !ok {
			return nil, false
		}
		if f := s.any[name]; f != nil {
			var out []*Out
			for _, x := range f(st) {
				x.st.gh.set(name, x.v)
				out = append(out, &Out{x.st, []Value{x.v, Nil{}}})
			}
			return out, true
		}
		if name == "obs" && s.obs != nil {
			sl, ok := args[1].(Slc)
			var vs []Value
			if ok {
				n, ok := st.cval(sl.Len)
				cs, _ := e.contents(st, sl)
				if ok {
					vs = make([]Value, n)
					for _, c := range cs {
						if k, ok := st.cval(c.I); ok && k < n {
							vs[k] = c.V
						}
					}
				}
			}
			s.n++
			v := s.obs(fr, st, vs)
			if v == nil {
				v = Nil{}
			}
			return []*Out{{st, []Value{v, Nil{}}}}, true
		}
		return nil, false
	}
	return s
}

// expand splits unions and opaque values into states with values of known dynamic type.
func (e *Engine) expand(st *State, v Value) []*valState {
	switch v := v.(type) {
	case Uni:
		var out []*valState
		for _, a := range v.A {
			out = append(out, e.expand(st.clone(), a)...)
		}
		return out
	case Opq:
		var out []*valState
		for _, t := range bitsTypes(st.tmask(v.S)) {
			x := st.clone()
			x.tmMeet(v.S, typeBit(t))
			if x.bot {
				continue
			}
			if t == nil {
				out = append(out, &valState{x, Nil{}})
			} else if t == e.errT {
				out = append(out, &valState{x, Ifc{t, Ptr{O: e.extObj("error")}}})
			} else {
				out = append(out, &valState{x, Ifc{t, x.payload(v.S, t)}})
			}
		}
		return out
	}
	return []*valState{{st, v}}
}

func (e *Engine) isErr(t types.Type) bool {
	return t != nil && e.implements(t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface))
}

// same tells whether two interface values are certainly the same value in st, all errors counting as the same.
// It splits on undecided booleans.
func (e *Engine) same(st *State, a, b Value) (bool, string) {
	for _, x := range e.expand(st.clone(), a) {
		for _, y := range e.expand(x.st.clone(), b) {
			if y.st.bot {
				continue
			}
			// the type split of b may have decided a
			if ok, why := e.same1(y.st, x.v, y.v); !ok {
				return false, why
			}
		}
	}
	return true, ""
}

func (e *Engine) same1(st *State, a, b Value) (bool, string) {
	no := func() (bool, string) {
		return false, fmt.Sprintf("%s where %s is expected", e.show(st, a), e.show(st, b))
	}
	_, n1 := a.(Nil)
	_, n2 := b.(Nil)
	if n1 || n2 {
		if n1 && n2 {
			return true, ""
		}
		return no()
	}
	x, ok1 := a.(Ifc)
	y, ok2 := b.(Ifc)
	if !ok1 || !ok2 {
		return no()
	}
	if e.isErr(x.T) && e.isErr(y.T) {
		return true, ""
	}
	if !types.Identical(x.T, y.T) {
		return no()
	}
	if sameVal(x.V, y.V) {
		return true, ""
	}
	switch v := x.V.(type) {
	case Bl:
		w := y.V.(Bl)
		for _, s := range e.splitBool(st, v) {
			for _, t := range e.splitBool(s, w) {
				p, ok1 := t.bval(v)
				q, ok2 := t.bval(w)
				if !ok1 || !ok2 || p != q {
					return no()
				}
			}
		}
		return true, ""
	case Lin:
		if w, ok := y.V.(Lin); ok && st.leq(v, w) && st.leq(w, v) {
			return true, ""
		}
	case Flt:
		if w, ok := y.V.(Flt); ok {
			if st.fmask(v.S) == fNaN && st.fmask(w.S) == fNaN || st.fcmp(v.S, w.S) == cEQ {
				return true, ""
			}
			i, j := info(v.S), info(w.S)
			if i.op == "fconst" && j.op == "fconst" && i.fval == j.fval {
				return true, ""
			}
		}
	case Str:
		if w, ok := y.V.(Str); ok {
			p, ok1 := st.sval(v)
			q, ok2 := st.sval(w)
			if ok1 && ok2 && p == q {
				return true, ""
			}
			if k, ok := st.baseRange(e.seq(v, w)).single(); ok && k == 1 {
				return true, ""
			}
		}
	case Slc:
		if w, ok := y.V.(Slc); ok && v.O == w.O && v.Off == w.Off && st.leq(v.Len, w.Len) && st.leq(w.Len, v.Len) {
			return true, ""
		}
	}
	return no()
}

func (e *Engine) splitBool(st *State, b Bl) []*State {
	if _, ok := st.bval(b); ok {
		return []*State{st}
	}
	y := st.clone()
	n := st.clone()
	y.meetRange(b.S, rng1(1, 1))
	n.meetRange(b.S, rng1(0, 0))
	var out []*State
	for _, s := range []*State{y, n} {
		if !s.bot {
			out = append(out, s)
		}
	}
	return out
}

func (e *Engine) show(st *State, v Value) string {
	switch v := v.(type) {
	case Ifc:
		if e.isErr(v.T) {
			return "no value"
		}
		switch x := v.V.(type) {
		case Bl:
			if p, ok := st.bval(x); ok {
				return fmt.Sprint(p)
			}
		case Lin:
			if k, ok := st.cval(x); ok {
				return fmt.Sprintf("int64 %d", k)
			}
		}
		return typeStr(v.T) + " " + vStr(v.V)
	case Nil:
		return "nil"
	}
	return vStr(v)
}

// ---- operand values ----

func (s *Suite) missing() Value { return Ifc{s.e.errT, Ptr{O: s.e.extObj("missing")}} }

// kindVal is an arbitrary value of a kind; arrays and objects hold anything.
func (s *Suite) kindVal(st *State, name, kind string) Value {
	switch kind {
	case "nil":
		return Nil{}
	case "bool":
		return Ifc{boolT, freshBool(name)}
	case "int64":
		return Ifc{int64T, Lin{freshInt(name, minI, maxI), 0}}
	case "float64":
		return Ifc{float64T, freshFlt(name)}
	case "string":
		return Ifc{stringT, freshStr(name)}
	case "array", "object":
		t := sliceAny
		if kind == "object" {
			t = mapAny
		}
		o := freshOpq(name, machMask|typeBit(s.e.errT), "any")
		st.tmMeet(o.S, typeBit(t))
		return Ifc{t, st.payload(o.S, t)}
	case "missing":
		return s.missing()
	}
	panic(kind)
}

func (s *Suite) anyKind(name, kind string) func(st *State) []*valState {
	return func(st *State) []*valState { return []*valState{{st, s.kindVal(st, name, kind)}} }
}

// ---- shaped documents and operands ----

type Doc interface{}
type DArr []Doc
type DMem struct {
	K string
	V Doc
}
type DMap []DMem

// Leaves: nil, bool, float64, int64, string as constants; DAny for an arbitrary value of the named kinds.
type DAny struct{ Name, Kinds string }

func (s *Suite) build(st *State, d Doc, name string, fl Flags) Value {
	switch d := d.(type) {
	case nil:
		return Nil{}
	case bool:
		return Ifc{boolT, cBool(d)}
	case float64:
		return Ifc{float64T, fltConst(d)}
	case int64:
		return Ifc{int64T, cInt(d)}
	case string:
		return Ifc{stringT, strConst(d)}
	case DAny:
		var m TMask
		ks := strings.Fields(d.Kinds)
		for _, k := range ks {
			switch k {
			case "nil":
				m |= 1
			case "bool":
				m |= typeBit(boolT)
			case "int64":
				m |= typeBit(int64T)
			case "float64":
				m |= typeBit(float64T)
			case "string":
				m |= typeBit(stringT)
			case "array":
				m |= typeBit(sliceAny)
			case "object":
				m |= typeBit(mapAny)
			case "missing":
				m |= typeBit(s.e.errT)
			}
		}
		if len(ks) == 1 {
			return s.kindVal(st, d.Name, ks[0])
		}
		prov := "doc"
		if fl&flDoc == 0 {
			prov = "any"
		}
		return freshOpq(d.Name, m, prov)
	case DArr:
		o := objID(ObjName{site: "doc:" + name})
		x := &Obj{kind: 'a', typ: sliceAny, flags: fl}
		n := int64(len(d))
		for i, c := range d {
			x.cells = append(x.cells, ACell{cInt(int64(i)), s.build(st, c, fmt.Sprintf("%s[%d]", name, i), fl)})
		}
		x.def = Nil{}
		st.heap.set(o, x)
		return Ifc{sliceAny, Slc{o, cInt(0), cInt(n), cInt(n)}}
	case DMap:
		o := objID(ObjName{site: "doc:" + name})
		x := &Obj{kind: 'm', typ: mapAny, flags: fl}
		for _, m := range d {
			x.ents = append(x.ents, MEnt{strConst(m.K), s.build(st, m.V, name+"."+m.K, fl)})
		}
		st.heap.set(o, x)
		return Ifc{mapAny, MapV{o}}
	}
	panic(fmt.Sprintf("build %T", d))
}

// ---- runs ----

type runOpt struct {
	inlineEval bool // follow recursion concretely in evaluation too (shaped documents)
	concrete   bool // keep all states of the evaluation apart (implies inlineEval)
}

// run takes an expression through Compile and Eval; f sees each outcome.
func (s *Suite) run(t *Tmpl, root func(st *State) Value, opt runOpt, f func(o *RunOut)) (accepted, rejected int) {
	e := s.e
	var outs []*RunOut
	err := e.analyse(func() {
		outs, accepted, rejected = nil, 0, 0
		s.n = 0
		st := newState()
		good, bad := e.compileTmpl(t, st)
		accepted, rejected = len(good), bad
		for _, g := range good {
			// everything there is by now belongs to the compiled path
			for o, x := range mapCopy(g.st.heap.m) {
				n := x.copy()
				n.flags |= flProg
				g.st.heap.set(o, n)
			}
			rv := root(g.st)
			save := e.inlineRec
			e.inlineRec = opt.inlineEval || opt.concrete
			e.concrete = opt.concrete
			outs = append(outs, e.evalTmpl(g, rv)...)
			e.inlineRec, e.concrete = save, false
		}
	})
	if err != nil {
		s.r.viol("undecided", t.text, "", "analysis of "+t.text+" did not finish", err.Error())
	}
	for _, o := range outs {
		if f != nil {
			f(o)
		}
	}
	s.r.Count["evaluations of expressions followed"]++
	s.r.Count["outcomes"] += len(outs)
	return
}

// finish records what every run must satisfy and the coverage.
func (s *Suite) finish() {
	s.collect(nil)
}

func (s *Suite) collect(skip func(o *Oblig) bool) {
	e, r := s.e, s.r
	for _, o := range e.failures() {
		if skip != nil && skip(o) {
			continue
		}
		r.viol(o.Rule, o.Fn, o.Pos, o.Text, o.Why)
	}
	var ks []string
	for k := range e.unsup {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r.viol("undecided", "", "", k, "the analysis does not model this construct")
	}
	for _, o := range e.obl {
		r.Count["obligations"]++
		r.Count["obligation instances"] += o.N
		if o.Fails > 0 {
			r.Count["obligations failed"]++
		}
	}
	for f := range e.analysed {
		if s.P.inRepo(f) && pkgOf(f).Path() != specPath {
			r.Fns[shortFn(f)] = true
		}
	}
	for n := range e.trusted {
		r.Trusted[n] = true
	}
	r.Count["abstract steps"] += e.steps
}

// spec applies a function of the reference semantics.
func (s *Suite) spec(fr *Frame, st *State, name string, args ...Value) []*valState {
	fn := s.P.spkgs[specPath].Func(name)
	if fn == nil {
		panic(tooMuch{"no reference function " + name})
	}
	e := s.e
	q, rec, con := e.quiet, e.inlineRec, e.concrete
	e.quiet, e.inlineRec, e.concrete = true, true, true
	defer func() { e.quiet, e.inlineRec, e.concrete = q, rec, con }()
	return e.callFn(fr, st.clone(), nil, fn, args, nil)
}

// against compares v with the reference in every state the reference comes back in.
func (s *Suite) against(fr *Frame, st *State, what string, v Value, name string, args ...Value) {
	rs := s.spec(fr, st, name, args...)
	if len(rs) == 0 {
		s.r.viol("undecided", what, "", what+": the reference has no outcome", "")
	}
	for _, r := range rs {
		s.r.Count["comparisons with the reference"]++
		if ok, why := s.e.same(r.st, v, r.v); !ok {
			if dbgObs {
				fmt.Println("=== observed", vStr(v), "in")
				fmt.Println(st)
				fmt.Println("--- reference", vStr(r.v), "in")
				fmt.Println(r.st)
			}
			var as []string
			for _, a := range args {
				as = append(as, s.e.show(r.st, a))
			}
			s.r.viol("denotation", what, "", what+" gives a different value from the reference", why+" for operands "+strings.Join(as, ", "))
		}
	}
}
