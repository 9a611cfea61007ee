package main

// The lexer and the parser: C01, C07, C09, C10, C23, C24.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Scan is the analysis of the harness for one lexer.
type Scan struct {
	*Suite
	name     string
	rdT      types.Type              // *rd
	leafs    map[string]map[int]bool // per rule, the integer fields of the reader that still satisfy it
	seen     map[string]lexClass
	inv      map[int]bool // integer fields of the reader known to lie within the text
	heads    map[string]bool
	accepted func(st *State, tok string, rs RSet, val Value) // a lexeme without an error
	more     int
	prefix   []RSet // the first bytes of the text, when it is read from its start
}

// lexClass is a kind of lexeme.
type lexClass struct {
	lo, hi int64  // token
	val    string // type of the value
	err    bool
}

func (s *Suite) harnessFn(name string) *ssa.Function {
	fn := s.P.fn("paths", name)
	if fn == nil {
		panic(tooMuch{"the harness does not fit the code: " + s.P.noHarness})
	}
	return fn
}

// tokConst gives the value of a constant of package paths.
func (P *Prog) tokConst(name string) (int64, bool) {
	c, ok := P.spkgs[modPath+"/paths"].Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(constant.ToInt(c.Val()))
}

// ints gives the integer fields of a structure, in order.
func ints(v Value) []Lin {
	switch v := v.(type) {
	case Lin:
		return []Lin{v}
	case Strct:
		var r []Lin
		for _, f := range v.F {
			r = append(r, ints(f)...)
		}
		return r
	}
	return nil
}

func strs(v Value) []Str {
	switch v := v.(type) {
	case Str:
		return []Str{v}
	case Strct:
		var r []Str
		for _, f := range v.F {
			r = append(r, strs(f)...)
		}
		return r
	}
	return nil
}

// reader gives the contents of the reader.
func (s *Suite) reader(st *State) Value {
	p, ok := st.gh.get("rd")
	if !ok {
		return nil
	}
	q, ok := p.(Ptr)
	if !ok {
		return nil
	}
	if x := s.e.obj(st, q.O); x != nil {
		return x.val
	}
	return nil
}

// narrow keeps of a rule's fields those for which ok holds and tells whether any is left.
func (s *Scan) narrow(rule string, n int, ok func(i int) bool) bool {
	m := s.leafs[rule]
	if m == nil {
		m = map[int]bool{}
		for i := 0; i < n; i++ {
			m[i] = true
		}
		s.leafs[rule] = m
	}
	for i := range m {
		if i >= n || !ok(i) {
			delete(m, i)
		}
	}
	return len(m) > 0
}

func flag(st *State, name string) (val, known bool) {
	v, ok := st.gh.get(name)
	if !ok {
		return false, true
	}
	return st.bval(v.(Bl))
}

func (s *Scan) longest() int64 {
	if s.more >= 0 {
		return int64(len(s.prefix) + s.more)
	}
	return maxI
}

// lexemeOf takes a lexeme apart.
func (s *Suite) lexemeOf(st *State, v Value) (tok Lin, val, err Value) {
	sv, ok := v.(Strct)
	if !ok {
		return
	}
	t := s.P.spkgs[modPath+"/paths"].Pkg.Scope().Lookup("lexeme").Type().Underlying().(*types.Struct)
	for i, f := range sv.F {
		switch ft := t.Field(i).Type(); {
		case t.Field(i).Name() == "tok":
			tok, _ = f.(Lin)
		case s.e.isErr(ft):
			err = f
		case isIface(ft):
			val = f
		}
	}
	return
}

func (s *Suite) dynTypes(st *State, v Value) []string {
	m := map[string]bool{}
	for _, x := range s.e.expand(st.clone(), v) {
		switch y := x.v.(type) {
		case Nil:
			m["nil"] = true
		case Ifc:
			m[typeStr(y.T)] = true
		default:
			m["?"] = true
		}
	}
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// scan analyses one lexer on an arbitrary text.
func newScan(P *Prog, r *Result, name string, prefix []RSet) *Scan {
	return newScanUpTo(P, r, name, prefix, -1)
}

// newScanUpTo does so for texts that begin as prefix says, and continue for some more bytes at most.
func newScanUpTo(P *Prog, r *Result, name string, prefix []RSet, more int) *Scan {
	s := &Scan{more: more, Suite: newSuite(P, r), name: name, prefix: prefix, leafs: map[string]map[int]bool{}, seen: map[string]lexClass{}, heads: map[string]bool{}}
	s.e.exactCap = 1
	s.e.envKnobs()
	fn := s.harnessFn(name)
	reader, lexeme := s.harnessFn("zzReader_"), s.harnessFn("zzLexeme_")
	eofTok, ok := P.tokConst("tokEOF")
	if !ok {
		panic(tooMuch{"no constant tokEOF"})
	}
	s.e.pureCall = true
	s.e.peel = true
	s.hook = func(e *Engine, fr *Frame, st *State, site ssa.Instruction, f *ssa.Function, args []Value) ([]*Out, bool) {
		switch f {
		case reader:
			st.gh.set("rd", args[0])
			s.rdT = f.Signature.Params().At(0).Type()
			st.gh.set("eof", cBool(false))
			st.gh.set("bad", cBool(false))
			s.anywhere(st)
			st.gh.set("last", cInt(-1))
			return []*Out{{st, nil}}, true
		case lexeme:
			s.lexeme(st, args[0], eofTok)
			return []*Out{{st, nil}}, true
		}
		return nil, false
	}
	s.e.onModel = func(f *ssa.Function, args []Value, outs []*valState) {
		switch f.String() {
		case "(*strings.Builder).WriteByte":
			for _, o := range outs {
				c, ok1 := args[1].(Lin)
				l, ok2 := mustGet(o.st, "last").(Lin)
				if ok1 && ok2 && name != "zzLexRegexp" && o.st.rangeOf(c).lo() < 0x20 && o.st.leq(c, l) && o.st.leq(l, c) {
					r.viol("control", name, "", "a control character of the text may become part of a value", "")
				}
				r.Count["bytes kept"]++
			}
		case "strconv.ParseInt", "strconv.Atoi", "strconv.ParseFloat":
			for _, o := range outs {
				if base, ok := args[min(1, len(args)-1)].(Lin); f.Name() == "ParseInt" && ok {
					if k, ok := o.st.cval(base); ok && k != 10 {
						continue
					}
				}
				if t, ok := o.v.(Tup); ok {
					if _, ok := t.V[1].(Nil); !ok {
						o.st.gh.set("bad", cBool(true))
					}
				}
			}
		}
	}
	s.e.onReturn = func(e *Engine, fr *Frame, st *State, in *ssa.Return) {
		r := fr.fn.Signature.Recv()
		if r == nil || s.rdT == nil || !types.Identical(r.Type(), s.rdT) || in == nil || len(in.Results) != 1 {
			return
		}
		v, ok := e.get(st, in.Results[0]).(Lin)
		if !ok {
			return
		}
		st.gh.set("last", v)
		if rs := st.rangeOf(v); rs.has(-1) {
			if _, ok := st.cval(v); !ok {
				r := s.r
				r.viol("eof", shortFn(fr.fn), s.pos(in), shortFn(fr.fn)+" may return end of text or a byte without the analysis telling which", "")
				return
			}
			st.gh.set("eof", cBool(true))
			x := s.reader(st)
			is, ss := ints(x), strs(x)
			s.r.Count["ends of text"]++
			if len(ss) != 1 || !s.narrow("eof", len(is), func(i int) bool { return st.leq(st.strLen(ss[0]), is[i]) }) {
				s.r.viol("early-end", shortFn(fr.fn), s.pos(in), shortFn(fr.fn)+" may report the end of the text before its last byte", "")
			}
		}
	}
	s.e.onHead = func(e *Engine, fr *Frame, st *State, b *ssa.BasicBlock) {
		var at []Value
		for _, x := range ints(s.reader(st)) {
			at = append(at, x)
		}
		st.gh.set(fmt.Sprintf("#h%d", b.Index), Tup{at})
	}
	s.e.onBack = func(e *Engine, fr *Frame, st *State, from, b *ssa.BasicBlock) {
		if fr.fn == fn || !P.inRepo(fr.fn) {
			return
		}
		k := fmt.Sprintf("%s/%d", shortFn(fr.fn), b.Index)
		s.heads[k] = true
		if counted(fr.fi, b) {
			return
		}
		v, _ := st.gh.get(fmt.Sprintf("#h%d", b.Index))
		was, _ := v.(Tup)
		is := ints(s.reader(st))
		if !s.narrow("progress", len(is), func(i int) bool {
			if i >= len(was.V) {
				return false
			}
			w, ok := was.V[i].(Lin)
			return ok && st.lt(w, is[i])
		}) {
			s.r.viol("progress", shortFn(fr.fn), s.pos(b.Instrs[len(b.Instrs)-1]), "a round of this loop of "+shortFn(fr.fn)+" may leave the reader where it was", fmt.Sprint("block ", b.Index))
		}
	}
	err := s.e.analyse(func() {
		st := newState()
		var args []Value
		for i, p := range fn.Params {
			if i == 0 {
				text := freshStr("text")
				if len(s.prefix) > 0 {
					st.meetLin(st.strLen(text), rng1(int64(len(s.prefix)), s.longest()))
				}
				for i, b := range s.prefix {
					st.meetLin(toLin(st.strByte(text, cInt(int64(i)))), b)
				}
				args = append(args, text)
			} else {
				args = append(args, s.e.topVal(p.Name(), p.Type()))
			}
		}
		s.e.callFn(nil, st, nil, fn, args, nil)
	})
	if err != nil {
		panic(tooMuch{err.Error()})
	}
	return s
}

func (s *Suite) pos(in ssa.Instruction) string {
	for _, x := range in.Block().Instrs {
		if x == in || !in.Pos().IsValid() && x.Pos().IsValid() {
			if x.Pos().IsValid() {
				return s.P.pos(x.Pos())
			}
		}
	}
	return s.P.pos(in.Parent().Pos())
}

// anywhere puts the reader at any place of the text.
func (s *Scan) anywhere(st *State) {
	p := mustGet(st, "rd").(Ptr)
	if s.prefix != nil {
		var at []Value
		for _, x := range ints(s.e.obj(st, p.O).val) {
			at = append(at, x)
		}
		st.gh.set("start", Tup{at})
		return
	}
	x := s.e.obj(st, p.O).copy()
	ss := strs(x.val)
	n := 0
	var at []Value
	var fill func(v Value) Value
	fill = func(v Value) Value {
		switch v := v.(type) {
		case Lin:
			y := Lin{freshInt(fmt.Sprintf("at%d", n), minI, maxI), 0}
			if m := s.inv; (m == nil || m[n]) && len(ss) == 1 {
				st.meetLin(y, rng1(0, maxI))
				st.addDiff(y, st.strLen(ss[0]), 0)
			}
			n++
			at = append(at, y)
			return y
		case Strct:
			r := Strct{append([]Value{}, v.F...)}
			for i := range r.F {
				r.F[i] = fill(r.F[i])
			}
			return r
		}
		return v
	}
	x.val = fill(x.val)
	st.heap.set(p.O, x)
	st.gh.set("start", Tup{at})
}

func mustGet(st *State, name string) Value {
	v, ok := st.gh.get(name)
	if !ok {
		panic(tooMuch{"no ghost " + name})
	}
	return v
}

// lexeme checks one lexeme.
func (s *Scan) lexeme(st *State, v Value, eofTok int64) {
	tok, val, err := s.lexemeOf(st, v)
	if err == nil || val == nil {
		s.r.viol("undecided", s.name, "", "unknown lexeme "+vStr(v), "")
		return
	}
	rs := st.rangeOf(tok)
	_, noErr := err.(Nil)
	for _, t := range s.dynTypes(st, val) {
		c := lexClass{rs.lo(), rs.hi(), t, !noErr}
		s.seen[fmt.Sprintf("%d-%d %s err=%v", c.lo, c.hi, c.val, c.err)] = c
	}
	if dbgObs {
		fmt.Println("LEX", vStr(v), st)
	}
	s.r.Count["lexemes"]++
	x := s.reader(st)
	is, ss := ints(x), strs(x)
	if !s.narrow("within", len(is), func(i int) bool {
		return len(ss) == 1 && st.leq(cInt(0), is[i]) && st.leq(is[i], st.strLen(ss[0]))
	}) {
		s.r.viol("outside", s.name, "", "the reader may get outside the text", "")
	}
	if !noErr {
		if _, ok := err.(Ifc); !ok {
			s.r.viol("undecided", s.name, "", "the lexeme's error may be nil or not", vStr(err))
		}
		return
	}
	t := s.tokName(rs)
	types := strings.Join(s.dynTypes(st, val), " ")
	want := map[string]string{"tokID": "string", "tokString": "string", "tokRE": "string", "tokInt": "int64", "tokReal": "float64"}
	if w := want[t]; w != "" && types != w {
		s.r.viol("value", s.name, "", "the value of "+t+" may be of type "+types+" instead of "+w, "")
	}
	if t == "" {
		for k := range want {
			if c, ok := s.P.tokConst(k); ok && rs.has(c) {
				s.r.viol("undecided", s.name, "", "a lexeme may or may not be "+k, "")
			}
		}
	}
	if t == "tokError" {
		s.r.viol("error", s.name, "", "tokError without an error", "")
	}
	eof, known := flag(st, "eof")
	switch {
	case t == "tokEOF":
		if !known || !eof {
			s.r.viol("early-end", s.name, "", "tokEOF before the end of the text", "")
		}
	case rs.has(eofTok):
		s.r.viol("undecided", s.name, "", "a lexeme may or may not be tokEOF", "")
	case t == "tokString" || t == "tokRE":
		if !known || eof {
			s.r.viol("lex-open", s.name, "", t+" may end with the text instead of its delimiter", "")
		}
	}
	if bad, known := flag(st, "bad"); bad || !known {
		s.r.viol("swallowed", s.name, "", "a lexeme without an error although a number does not fit or is malformed", "")
	}
	if t == "tokInt" || t == "tokReal" {
		s.r.Count["numbers"]++
	}
	if t != "tokEOF" && t != "tokString" { // (a string has at least its delimiters)
		was, _ := mustGet(st, "start").(Tup)
		if !s.narrow("consumes", len(is), func(i int) bool {
			w, ok := was.V[i].(Lin)
			return ok && st.lt(w, is[i])
		}) {
			s.r.viol("consumes", s.name, "", "a lexeme other than the end of the text may consume nothing of it", t+" "+s.e.show(st, val)+" "+vStr(mustGet(st, "start"))+" "+vStr(x)+" "+func() string {
				if dbgObs {
					return fmt.Sprint(st)
				}
				return ""
			}())
		}
	}
	if s.accepted != nil {
		s.accepted(st, t, rs, val)
	}

}

// tokName gives the name of a token's constant.
func (s *Suite) tokName(rs RSet) string {
	k, ok := rs.single()
	if !ok {
		return ""
	}
	sc := s.P.spkgs[modPath+"/paths"].Pkg.Scope()
	for _, n := range sc.Names() {
		if !strings.HasPrefix(n, "tok") {
			continue
		}
		if c, ok := s.P.tokConst(n); ok && c == k {
			return n
		}
	}
	if k > 0 && k < 0x80 {
		return string(rune(k))
	}
	return ""
}

// counted tells whether a loop counts up or down to a limit.
func counted(fi *FnInfo, h *ssa.BasicBlock) bool {
	l := fi.loopOf[h.Index]
	var backs []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			backs = append(backs, p)
		}
	}
	inLoop := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && l[in.Block().Index]
	}
	always := func(b *ssa.BasicBlock) bool {
		for _, p := range backs {
			if !b.Dominates(p) {
				return false
			}
		}
		return true
	}
	leaves := func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if !l[s.Index] {
				return true
			}
		}
		return false
	}
	for bi := range l {
		b := h.Parent().Blocks[bi]
		if !always(b) || !leaves(b) {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if x, ok := iff.Cond.(*ssa.Extract); ok {
			if _, ok := x.Tuple.(*ssa.Next); ok && x.Index == 0 {
				return true
			}
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		for _, xy := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
			ind, lim := xy[0], xy[1]
			if inLoop(lim) {
				if call, ok := lim.(*ssa.Call); !ok || inLoop(call.Call.Args[0]) {
					continue
				}
			}
			if bo, ok := ind.(*ssa.BinOp); ok {
				if _, ok := bo.Y.(*ssa.Const); ok {
					ind = bo.X
				}
			}
			phi, ok := ind.(*ssa.Phi)
			if !ok || phi.Block() != h {
				continue
			}
			good := true
			for i, p := range h.Preds {
				if !h.Dominates(p) {
					continue
				}
				bo, ok := phi.Edges[i].(*ssa.BinOp)
				if !ok || bo.X != phi {
					good = false
					break
				}
				k, ok := bo.Y.(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.Int || constant.Sign(k.Value) == 0 {
					good = false
				}
			}
			if good {
				return true
			}
		}
	}
	return false
}
