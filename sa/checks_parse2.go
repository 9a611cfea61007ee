package main

// The parser, given what the lexers were shown to deliver.

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Parse is the analysis of a parser entry.
type Parse struct {
	*Suite
	entry   string
	classes map[string][]lexClass // per lexer
	lexers  map[*ssa.Function]string
	lexeme  *types.Struct
	n       int
	lexM    TMask
	nodes   *Nodes
	bound   map[int64]int // tokens that come at most so often
	scc     map[*ssa.Function]int
	edges   map[[2]*ssa.Function]string // calls in recursions before which nothing was consumed
	pass    bool
	accepts func(st *State, v Value)
}

// classesOf gives the kinds of lexemes of a scan, those without value or error merged.
func (s *Scan) classesOf() []lexClass {
	var ks []string
	for k := range s.seen {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []lexClass
	for _, k := range ks {
		r = append(r, s.seen[k])
	}
	return r
}

func newParse(P *Prog, r *Result, entry string, classes map[string][]lexClass, bound map[int64]int) *Parse {
	var known *Nodes
	for i := 0; i < 4; i++ {
		rr := newResult()
		s := parseOnce(P, rr, entry, classes, bound, known)
		if !s.nodes.stale() {
			r.merge(rr)
			s.r = r
			return s
		}
		known = s.nodes
		r.Count["runs repeated with more kinds of nodes"]++
	}
	panic(tooMuch{"the kinds of nodes are not settled"})
}

func parseOnce(P *Prog, r *Result, entry string, classes map[string][]lexClass, bound map[int64]int, known *Nodes) *Parse {
	s := &Parse{Suite: newSuite(P, r), entry: entry, classes: classes, lexers: map[*ssa.Function]string{}, bound: bound, edges: map[[2]*ssa.Function]string{}}
	s.e.exactCap = 1
	s.e.envKnobs()
	s.nodes = newNodes(P, s.e)
	s.e.nodes = s.nodes
	if known != nil {
		s.nodes.adopt(known)
	}
	payloadHook = s.nodes.pointee
	lexTypes = nil
	for _, cs := range classes {
		for _, c := range cs {
			if c.err {
				continue
			}
			m := typeBit(nil)
			switch c.val {
			case "string":
				m = typeBit(stringT)
			case "int64":
				m = typeBit(int64T)
			case "float64":
				m = typeBit(float64T)
			case "nil":
			default:
				panic(tooMuch{"lexeme value of type " + c.val})
			}
			s.lexM |= m
			lexTypes = append(lexTypes, struct {
				toks RSet
				m    TMask
			}{rng1(c.lo, c.hi), m})
		}
	}
	fn := s.harnessFn(entry)
	path, expr := s.harnessFn("zzPath_"), s.harnessFn("zzExpr_")
	for _, f := range P.fns {
		if f.Signature.Recv() == nil || pkgOf(f).Path() != modPath+"/paths" {
			continue
		}
		switch f.Name() {
		case "lexPath", "lexExpr", "lexRegexp":
			s.lexers[f] = "zzL" + f.Name()[1:]
		}
	}
	s.lexeme = P.spkgs[modPath+"/paths"].Pkg.Scope().Lookup("lexeme").Type().Underlying().(*types.Struct)
	s.e.pureCall = true
	s.e.noPass = bound == nil
	if bound != nil {
		s.e.concrete = true
	}
	token := P.spkgs[modPath+"/paths"].Pkg.Scope().Lookup("tokEOF").Type()
	s.e.keyParam = func(t types.Type) bool {
		return types.Identical(t, token) || splitInts != nil && types.Identical(t, types.Typ[types.Int])
	}
	s.hook = func(e *Engine, fr *Frame, st *State, site ssa.Instruction, f *ssa.Function, args []Value) ([]*Out, bool) {
		if f == path || f == expr {
			s.n++
			s.result(st, args[0], args[1])
			return []*Out{{st, nil}}, true
		}
		if pkgOf(f) != nil && pkgOf(f).Path() == "regexp" && f.Name() == "Compile" {
			x := st.clone()
			x.gh.set("errd", cBool(true))
			return []*Out{{st, []Value{Ptr{O: e.extObj("regexp")}, Nil{}}}, {x, []Value{Nil{}, e.newErr(x, site)}}}, true
		}
		if n := s.lexers[f]; n != "" && s.classes[n] != nil {
			if s.pass {
				s.pass = false
				return nil, false
			}
			return s.next(fr, st, site, f, n, args)
		}
		if pkgOf(f) == nil || pkgOf(f).Path() != modPath+"/paths" || fr == nil || fr.parent == nil {
			return nil, false
		}
		if s.pass {
			s.pass = false
			return nil, false
		}
		if rs := f.Signature.Results(); bound != nil && f.Signature.Recv() != nil && rs.Len() == 2 && types.Identical(rs.At(0).Type(), s.nodes.expr) && types.Identical(rs.At(1).Type(), s.nodes.error) {
			// expressions as a whole: any, or an error
			var out []*Out
			for _, x := range s.settle(st) {
				y := x.clone()
				s.nodes.tidy(y, true)
				y.gh.set("errd", cBool(true))
				y.gh.set("~ltok", cInt(noTok))
				out = append(out, &Out{x, []Value{s.nodes.any(s.nodes.expr), Nil{}}}, &Out{y, []Value{Nil{}, s.nodes.err()}})
			}
			return out, true
		}
		xs := []*State{st}
		if !s.lexemeParam(f) {
			xs = s.settle(st)
		}
		var out []*Out
		fv := e.hookFree
		for _, x := range xs {
			if s.scc[f] != 0 && s.scc[f] == s.scc[fr.fn] {
				r.Count["recursive calls"]++
				if c, known := flag(x, "cons"); !known || !c {
					s.edges[[2]*ssa.Function{fr.fn, f}] = s.pos(site)
				}
			}
			if rs := f.Signature.Results(); rs.Len() > 0 && types.Identical(rs.At(rs.Len()-1).Type(), s.nodes.error) {
				s.nodes.tidy(x, false)
			}
			lp, lb := mustGet(x, "lparen").(Lin), mustGet(x, "lbrack").(Lin)
			cons, _ := flag(x, "cons")
			caller, _ := x.gh.get("~inst")
			if splitInts != nil {
				inst := intArgs(x, f, args)
				if s.scc[f] != 0 && s.scc[f] == s.scc[fr.fn] {
					from := int64(-1)
					if l, ok := caller.(Lin); ok {
						if k, ok := x.cval(l); ok {
							from = k
						}
					}
					splitInts[[2]instance{{fr.fn, from}, {f, inst}}] = s.pos(site)
				}
				x.gh.set("~inst", cInt(inst))
			}
			x.gh.set("lparen", cInt(0))
			x.gh.set("lbrack", cInt(0))
			x.gh.set("cons", cBool(false))
			s.pass = true
			failed := false
			dup := map[string]bool{}
			for _, y := range e.callFn(fr, x, site, f, args, fv) {
				if bound != nil {
					// (whoever gets an error only passes it on: one of them will do)
					if vs := retVals(f, y.v); len(vs) > 1 && types.Identical(f.Signature.Results().At(len(vs)-1).Type(), s.nodes.error) && !mayBeNil(y.st, vs[len(vs)-1]) {
						if failed {
							continue
						}
						failed = true
					}
					// likewise for outcomes that differ only by the names of unknowns
					k := alphaName(y.st.String() + vStr(y.v))
					if dup[k] {
						continue
					}
					dup[k] = true
				}
				s.level(y.st, "lparen", lp)
				s.level(y.st, "lbrack", lb)
				if splitInts != nil && caller != nil {
					y.st.gh.set("~inst", caller)
				}
				if c, known := flag(y.st, "cons"); c && known {
					s.consumed(y.st)
				}
				if cons {
					y.st.gh.set("cons", cBool(true))
				}
				out = append(out, &Out{y.st, retVals(f, y.v)})
			}
		}
		return out, true
	}
	s.scc = recursions(P)
	s.nodes.onReturn = func(fn *ssa.Function, st *State, failed bool) {
		rs := fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if types.Identical(rs.At(i).Type(), s.nodes.lexeme) {
				return
			}
		}
		if failed {
			st.gh.set("errd", cBool(true))
			st.gh.set("~ltok", cInt(noTok))
			st.gh.set("lparen", cInt(0))
			st.gh.set("lbrack", cInt(0))
			st.gh.set("cons", cBool(true))
			return
		}
		s.settled(st)
	}
	s.e.onEdge = func(e *Engine, fr *Frame, st *State, from, b *ssa.BasicBlock) {
		if pkgOf(fr.fn) == nil || pkgOf(fr.fn).Path() != modPath+"/paths" {
			return
		}
		s.settled(st)
		if !b.Dominates(from) || fr.fn == fn || counted(fr.fi, b) {
			return
		}
		if bound != nil {
			return
		}
		r.Count["loops"]++
		c, known := flag(st, fmt.Sprintf("#h%d", b.Index))
		if ed, _ := flag(st, "errd"); !ed && !(c && known) {
			r.viol("progress", shortFn(fr.fn), s.pos(b.Instrs[len(b.Instrs)-1]), "a round of this loop of "+shortFn(fr.fn)+" may consume nothing", fmt.Sprint("block ", b.Index))
		}
	}
	s.e.onHead = func(e *Engine, fr *Frame, st *State, b *ssa.BasicBlock) {
		if pkgOf(fr.fn) != nil && pkgOf(fr.fn).Path() == modPath+"/paths" {
			st.gh.set(fmt.Sprintf("#h%d", b.Index), cBool(false))
		}
	}
	err := s.e.analyse(func() {
		st := newState()
		st.gh.set("errd", cBool(false))
		st.gh.set("~ltok", cInt(noTok))
		st.gh.set("lparen", cInt(0))
		st.gh.set("lbrack", cInt(0))
		st.gh.set("cons", cBool(false))
		s.n = 0
		s.e.callFn(nil, st, nil, fn, []Value{freshStr("text")}, nil)
	})
	if err != nil {
		panic(tooMuch{err.Error()})
	}
	if bound == nil {
		s.cycles()
	}
	return s
}

// instance is a function with its constant arguments.
type instance struct {
	f  *ssa.Function
	id int64 // in instIDs, 0 without arguments, -1 if they are unknown
}

// splitInts, when set, keeps calls with different constant arguments apart and collects the
// calls in recursions.
var (
	splitInts map[[2]instance]string
	instIDs   = map[string]int64{}
)

// intArgs gives the constant integer arguments of a call.
func intArgs(st *State, f *ssa.Function, args []Value) int64 {
	k := ""
	for i, p := range f.Params {
		if !types.Identical(p.Type(), types.Typ[types.Int]) {
			continue
		}
		l, ok := args[i].(Lin)
		if !ok {
			return -1
		}
		n, ok := st.cval(l)
		if !ok {
			return -1
		}
		k += fmt.Sprint(" ", n)
	}
	if k == "" {
		return 0
	}
	if instIDs[k] == 0 {
		instIDs[k] = int64(len(instIDs) + 1)
	}
	return instIDs[k]
}

var numbered = regexp.MustCompile(`[a-zA-Z_0-9]+#[0-9]+`)

// alphaName renames the unknowns in a state's text in order of occurrence.
func alphaName(s string) string {
	m := map[string]string{}
	return numbered.ReplaceAllStringFunc(s, func(n string) string {
		if m[n] == "" {
			m[n] = fmt.Sprint("?", len(m))
		}
		return m[n]
	})
}

// next delivers any lexeme of a lexer.
func (s *Parse) next(fr *Frame, st *State, site ssa.Instruction, f *ssa.Function, name string, args []Value) ([]*Out, bool) {
	p, ok := args[0].(Ptr)
	if !ok {
		panic(tooMuch{"unknown lexer " + vStr(args[0])})
	}
	if name != "zzLexRegexp" {
		if pk, ok := s.peek(st, p); ok {
			if v, known := st.bval(pk); known && v {
				return s.again(fr, st, site, f, args), true
			} else if !known {
				var out []*Out
				for _, x := range s.e.splitBool(st, pk) {
					o, _ := s.next(fr, x, site, f, name, args)
					out = append(out, o...)
				}
				return out, true
			}
		}
	}
	var out []*Out
	for _, x := range s.settle(st) {
		out = append(out, s.deliver(x, name)...)
	}
	return out, true
}

// again delivers the lexeme that was looked at.
func (s *Parse) again(fr *Frame, st *State, site ssa.Instruction, f *ssa.Function, args []Value) []*Out {
	var out []*Out
	s.pass = true
	for _, o := range s.e.callFn(fr, st, site, f, args, nil) {
		lx, ok := o.v.(Strct)
		if !ok {
			panic(tooMuch{"unknown lexeme " + vStr(o.v)})
		}
		if s.bound == nil {
			o.st.gh.set("~ltok", s.tokOf(lx))
		}
		out = append(out, &Out{o.st, []Value{o.v}})
	}
	return out
}

func (s *Parse) tokOf(lx Strct) Value {
	for i := range lx.F {
		if s.lexeme.Field(i).Name() == "tok" {
			return lx.F[i]
		}
	}
	panic(tooMuch{"lexemes have no token"})
}

func (s *Parse) deliver(st *State, name string) []*Out {
	var out []*Out
	plain := RSet(nil)
	mk := func(x *State, tok Lin, val, err Value) {
		lx := Strct{make([]Value, s.lexeme.NumFields())}
		for i := range lx.F {
			switch ft := s.lexeme.Field(i).Type(); {
			case s.lexeme.Field(i).Name() == "tok":
				lx.F[i] = tok
			case s.e.isErr(ft):
				lx.F[i] = err
			default:
				lx.F[i] = val
			}
		}
		if s.bound == nil {
			x.gh.set("~ltok", tok)
		}
		out = append(out, &Out{x, []Value{lx}})
	}
	for _, c := range s.classes[name] {
		if !c.err && c.val != "string" {
			// (names are apart: the parser may turn them into other tokens)
			plain = plain.join(rng1(c.lo, c.hi))
			continue
		}
		x := st.clone()
		var err Value = Nil{}
		if c.err {
			err = s.e.newErr(x, nil)
			x.gh.set("errd", cBool(true))
		}
		tok := Lin{freshInt("tok", minI, maxI), 0}
		x.meetLin(tok, rng1(c.lo, c.hi))
		if k, ok := x.cval(tok); ok {
			tok = cInt(k)
		}
		var val Value = Nil{}
		switch c.val {
		case "string":
			val = Ifc{stringT, freshStr("lexval")}
		case "int64":
			val = Ifc{int64T, Lin{freshInt("lexval", minI, maxI), 0}}
		case "float64":
			val = Ifc{float64T, freshFlt("lexval")}
		case "nil":
		default:
			panic(tooMuch{"lexeme value of type " + c.val})
		}
		mk(x, tok, val, err)
	}
	anyOf := func(x *State, set RSet) {
		if set.empty() {
			return
		}
		tok := Lin{freshInt("tok", minI, maxI), 0}
		x.meetLin(tok, set)
		v := term(KOpq, "lexval", 0, 0, tok)
		info(v).tm = s.lexM
		mk(x, tok, Opq{v}, Nil{})
	}
	if s.bound != nil {
		var ks []int64
		for k := range s.bound {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		for _, k := range ks {
			one := plain.meet(rng1(k, k))
			if one.empty() {
				continue
			}
			plain = plain.without(k)
			g := fmt.Sprint("left", k)
			left := int64(s.bound[k])
			if v, ok := st.gh.get(g); ok {
				left = v.(Lin).K
			}
			if left > 0 {
				x := st.clone()
				x.gh.set(g, cInt(left-1))
				anyOf(x, one)
			}
		}
	}
	anyOf(st.clone(), plain)
	return out
}

const noTok = -1 << 40

func (s *Parse) tok(n string) int64 {
	k, ok := s.P.tokConst(n)
	if !ok {
		panic(tooMuch{"no constant " + n})
	}
	return k
}

// lexemeParam tells whether f takes a lexeme: it may be about to put it back.
func (s *Parse) lexemeParam(f *ssa.Function) bool {
	for _, p := range f.Params {
		if types.Identical(p.Type(), s.nodes.lexeme) {
			return true
		}
	}
	return false
}

// level adds to a count of open brackets, as long as it stays small.
func (s *Parse) level(st *State, name string, d Lin) {
	v := mustGet(st, name).(Lin)
	k := v.K + d.K
	if e, known := flag(st, "errd"); e && known {
		k = 0 // (it must not be accepted anyway)
	} else if v.B != 0 || d.B != 0 || v.K == lostLevel || d.K == lostLevel || k < -8 || k > 8 {
		k = lostLevel
	}
	st.gh.set(name, cInt(k))
}

const lostLevel = 99

// consumed notes that some of the text has been consumed.
func (s *Parse) consumed(st *State) {
	st.gh.set("cons", cBool(true))
	for k := range mapCopy(st.gh.m) {
		if strings.HasPrefix(k, "#h") {
			st.gh.set(k, cBool(true))
		}
	}
}

// recursions numbers the functions of package paths that may call themselves.
func recursions(P *Prog) map[*ssa.Function]int {
	next := map[*ssa.Function][]*ssa.Function{}
	var fns []*ssa.Function
	for _, f := range P.fns {
		if pkgOf(f) == nil || pkgOf(f).Path() != modPath+"/paths" {
			continue
		}
		fns = append(fns, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						next[f] = append(next[f], g)
					}
				}
			}
		}
	}
	scc := map[*ssa.Function]int{}
	reach := func(f *ssa.Function) map[*ssa.Function]bool {
		m := map[*ssa.Function]bool{}
		work := append([]*ssa.Function{}, next[f]...)
		for len(work) > 0 {
			g := work[len(work)-1]
			work = work[:len(work)-1]
			if !m[g] {
				m[g] = true
				work = append(work, next[g]...)
			}
		}
		return m
	}
	rs := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range fns {
		rs[f] = reach(f)
	}
	n := 0
	for _, f := range fns {
		if !rs[f][f] || scc[f] != 0 {
			continue
		}
		n++
		for _, g := range fns {
			if rs[f][g] && rs[g][f] {
				scc[g] = n
			}
		}
	}
	return scc
}

func retVals(f *ssa.Function, v Value) []Value {
	switch f.Signature.Results().Len() {
	case 0:
		return nil
	case 1:
		return []Value{v}
	}
	return v.(Tup).V
}

// settled accounts for the last lexeme where there are no two ways to do so.
func (s *Parse) settled(st *State) {
	if xs := s.settle(st); len(xs) == 1 && xs[0] != st {
		*st = *xs[0]
	}
}

// result checks what an entry returned.
func (s *Parse) result(st *State, v, err Value) {
	s.n++
	for _, x := range s.e.expand(st.clone(), err) {
		_, noErr := x.v.(Nil)
		for _, y := range s.e.expand(x.st.clone(), v) {
			_, none := y.v.(Nil)
			if sl, ok := y.v.(Slc); ok && sl.O == 0 {
				none = true
			}
			switch y.v.(type) {
			case Nil, Slc, Opq, Ifc, Ptr:
			default:
				s.r.viol("undecided", s.entry, "", "unknown result "+vStr(y.v), "")
			}
			s.r.Count["results"]++
			switch {
			case noErr && none:
				s.r.viol("pair", s.entry, "", "neither a value nor an error is returned", "")
			case !noErr && !none:
				s.r.viol("pair", s.entry, "", "a value is returned together with an error", vStr(y.v))
			}
			if !noErr || none || s.entry == "mach.Compile" {
				continue
			}
			for _, z := range s.settle(y.st) {
				s.acceptance(z, y.v)
			}
		}
	}
}

func (s *Parse) acceptance(st *State, v Value) {
	if dbgObs {
		fmt.Println("ACCEPT", vStr(v), st)
	}
	if s.bound != nil {
		return
	}
	s.r.Count["acceptances"]++
	if b, known := flag(st, "errd"); b || !known {
		s.r.viol("swallowed", s.entry, "", "a text may be accepted although an error was found in it", "")
	}
	if t := mustGet(st, "~ltok"); t != Value(cInt(s.tok("tokEOF"))) {
		s.r.viol("trailing", s.entry, "", "a text may be accepted before its end is reached", "")
	}
	for _, n := range []string{"lparen", "lbrack"} {
		if k, ok := st.cval(mustGet(st, n).(Lin)); !ok || k != 0 {
			s.r.viol("unclosed", s.entry, "", "a text may be accepted although its brackets do not match", n)
		}
	}
	if s.accepts != nil {
		s.accepts(st, v)
	}
}

// cycles finds recursions that need not consume anything.
func (s *Parse) cycles() {
	next := map[*ssa.Function][]*ssa.Function{}
	for e := range s.edges {
		next[e[0]] = append(next[e[0]], e[1])
	}
	for e, pos := range s.edges {
		seen := map[*ssa.Function]bool{}
		work := []*ssa.Function{e[1]}
		for len(work) > 0 {
			f := work[len(work)-1]
			work = work[:len(work)-1]
			if f == e[0] {
				s.r.viol("progress", shortFn(e[0]), pos, "recursion of "+shortFn(e[0])+" that need not consume anything", "")
				break
			}
			if !seen[f] {
				seen[f] = true
				work = append(work, next[f]...)
			}
		}
	}
	s.r.Count["calls in recursions that consume nothing before"] += len(s.edges)
}

// settle accounts for the last lexeme delivered, unless the parser has only looked at it.
func (s *Parse) settle(st *State) []*State {
	if s.bound != nil {
		return []*State{st}
	}
	v, ok := st.gh.get("~ltok")
	t, _ := v.(Lin)
	eof, bad := s.tok("tokEOF"), s.tok("tokError")
	if !ok || t == cInt(noTok) || t == cInt(eof) || t == cInt(bad) {
		return []*State{st}
	}
	pk, ok := s.anyPeek(st)
	if !ok {
		return []*State{st}
	}
	k, known := st.bval(pk)
	if known && k {
		// it is not consumed yet
		x := st.clone()
		x.gh.set("~ltok", cInt(noTok))
		return []*State{x}
	}
	if !known {
		var out []*State
		for _, x := range s.e.splitBool(st, pk) {
			out = append(out, s.settle(x)...)
		}
		return out
	}
	rest := st.rangeOf(t)
	var out []*State
	add := func(set RSet, paren, brack, got int64, keep bool) {
		in := rest.meet(set)
		if in.empty() {
			return
		}
		for _, r := range set {
			for x := r.lo; x <= r.hi; x++ {
				rest = rest.without(x)
			}
		}
		x := st.clone()
		x.meetLin(t, in)
		if x.bot {
			return
		}
		s.level(x, "lparen", cInt(paren))
		s.level(x, "lbrack", cInt(brack))
		if got > 0 {
			s.consumed(x)
		}
		if keep {
			k, _ := in.single()
			x.gh.set("~ltok", cInt(k))
		} else {
			x.gh.set("~ltok", cInt(noTok))
		}
		out = append(out, x)
	}
	add(rng1(eof, eof), 0, 0, 0, true)
	add(rng1(bad, bad), 0, 0, 0, true)
	add(rng1('(', '(').join(rng1(s.tok("tokFilter"), s.tok("tokFilter"))), 1, 0, 1, false)
	add(rng1(')', ')'), -1, 0, 1, false)
	add(rng1('[', '['), 0, 1, 1, false)
	add(rng1(']', ']'), 0, -1, 1, false)
	all := rest
	add(all, 0, 0, 1, false)
	return out
}

// anyPeek finds the lexer of the state.
func (s *Parse) anyPeek(st *State) (Bl, bool) {
	var found []Bl
	for o := range st.heap.m {
		x := st.obj(o)
		if x.kind != 'c' || x.many {
			continue
		}
		if b, ok := s.nodes.peekOf(x.typ, x.val); ok {
			found = append(found, b)
		}
	}
	if len(found) != 1 {
		return Bl{}, false
	}
	return found[0], true
}

func (s *Parse) lexStruct(st *State, p Ptr) (o ObjID, x *Obj, v Strct, ok bool) {
	x = s.e.obj(st, p.O)
	if x == nil {
		return
	}
	v, ok = s.e.getPath(st, x.val, p.Path).(Strct)
	return p.O, x, v, ok
}

// peek gives the lexer's only boolean field.
func (s *Parse) peek(st *State, p Ptr) (Bl, bool) {
	_, _, v, ok := s.lexStruct(st, p)
	if !ok {
		panic(tooMuch{"unknown lexer"})
	}
	n := 0
	var b Bl
	for _, f := range v.F {
		if x, ok := f.(Bl); ok {
			n++
			b = x
		}
	}
	return b, n == 1
}
