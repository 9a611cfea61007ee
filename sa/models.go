package main

// Models of the functions outside the repository.

import (
	"go/types"
	"math"
	"slices"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf16"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// pure functions of strings, numbers and the like: their results are terms of their arguments.
var pureFns = map[string]bool{}

func init() {
	for _, n := range strings.Fields(`
		strings.Contains strings.HasPrefix strings.HasSuffix strings.Index strings.IndexByte strings.IndexRune strings.LastIndex strings.LastIndexByte
		strings.ContainsRune strings.ContainsAny strings.EqualFold strings.Compare strings.Count strings.IndexAny
		strings.ToLower strings.ToUpper strings.TrimSpace strings.Trim strings.TrimLeft strings.TrimRight strings.TrimPrefix strings.TrimSuffix
		strings.Replace strings.ReplaceAll strings.Repeat
		strconv.Itoa strconv.FormatInt strconv.FormatFloat strconv.FormatUint strconv.FormatBool strconv.Quote strconv.CanBackquote
		math.Ceil math.Floor math.Trunc math.Round math.Abs math.Mod math.Pow math.Sqrt math.Max math.Min math.Remainder math.Copysign math.Float64bits math.Signbit
		unicode.IsLetter unicode.IsDigit unicode.IsSpace unicode.IsUpper unicode.IsLower unicode.IsControl unicode.IsPrint unicode.IsNumber unicode.ToLower unicode.ToUpper unicode.IsPunct
		unicode/utf8.RuneCountInString unicode/utf8.RuneLen unicode/utf8.ValidRune unicode/utf8.ValidString unicode/utf8.RuneCount
		unicode/utf16.IsSurrogate unicode/utf16.DecodeRune`) {
		pureFns[n] = true
	}
}

// functions without an effect on program state the checks look at, and with unknown results
func harmless(name string) bool {
	for _, p := range []string{"fmt.Print", "fmt.Fprint", "fmt.Sprint", "fmt.Errorf", "fmt.Append", "strings.", "strconv.", "unicode.", "unicode/", "math.", "math/bits.", "errors.",
		"regexp.", "(*regexp.Regexp).", "(*strings.Builder).", "(strings.Builder).", "sync.", "(*sync.", "sync/atomic.", "os.", "(*os.", "io.", "bufio.", "(*bufio.", "flag.",
		"encoding/json.", "(*encoding/json.", "(encoding/json.", "bytes.", "(*bytes.", "time.", "log.", "math/rand", "reflect.", "(reflect.", "(*text/", "slices.", "maps.", "sort.", "cmp.", "context.", "(*strings.", "(time.", "runtime.", "(*math/", "runtime/debug."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// predStates splits st on the 0/1 term s.
func predStates(st *State, s Sym) (yes, no *State) {
	if k, ok := st.baseRange(s).single(); ok {
		if k == 1 {
			return st, nil
		}
		return nil, st
	}
	t := st.clone()
	t.meetRange(s, rng1(1, 1))
	st.meetRange(s, rng1(0, 0))
	if t.bot {
		t = nil
	}
	if st.bot {
		return t, nil
	}
	return t, st
}

func resultType(fn *ssa.Function) types.Type {
	r := fn.Signature.Results()
	if r.Len() == 1 {
		return r.At(0).Type()
	}
	return r
}

func (e *Engine) newErr(st *State, site ssa.Instruction) Value {
	if e.initing && site != nil {
		o := objID(ObjName{site: "err:" + siteName(site)})
		for st.obj(o) != nil {
			o = objID(ObjName{site: o.name().site + "'"})
		}
		st.heap.set(o, &Obj{kind: 'c', typ: e.errObj, val: Strct{[]Value{freshStr("errtext")}}, flags: flGlobal})
		return Ifc{e.errT, Ptr{O: o}}
	}
	if e.nodes != nil {
		return e.nodes.err()
	}
	n := "error"
	if site != nil {
		n = "error from " + shortFn(site.Parent())
	}
	return Ifc{e.errT, Ptr{O: e.extObj(n)}}
}

func (e *Engine) model(fr *Frame, st *State, site ssa.Instruction, fn *ssa.Function, args []Value) []*valState {
	for i, a := range args {
		if u, ok := a.(Uni); ok {
			var out []*valState
			for _, x := range u.A {
				n := append([]Value{}, args...)
				n[i] = x
				out = append(out, e.model(fr, st.clone(), site, fn, n)...)
			}
			return out
		}
	}
	if fn.Name() == "init" && fn.Signature.Recv() == nil {
		return []*valState{{st, Tup{}}}
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	e.trusted[name]++
	one := func(v Value) []*valState { return []*valState{{st, v}} }
	top := func() []*valState { return one(e.topVal(name, resultType(fn))) }
	pred := func(s Sym) []*valState {
		y, n := predStates(st, s)
		var out []*valState
		if y != nil {
			out = append(out, &valState{y, cBool(true)})
		}
		if n != nil {
			out = append(out, &valState{n, cBool(false)})
		}
		return out
	}
	// split on s: value with a nil error, or zero with an error
	fallible := func(s Sym, good func(*State) Value, zero Value) []*valState {
		y, n := predStates(st, s)
		var out []*valState
		if y != nil {
			out = append(out, &valState{y, Tup{[]Value{good(y), Nil{}}}})
		}
		if n != nil {
			out = append(out, &valState{n, Tup{[]Value{zero, e.newErr(n, site)}}})
		}
		return out
	}
	str := func(i int) (Str, bool) {
		if i >= len(args) {
			return Str{}, false
		}
		s, ok := args[i].(Str)
		return s, ok
	}
	// nil receivers of methods of outside types
	if fn.Signature.Recv() != nil && len(args) > 0 {
		if _, ok := args[0].(Nil); ok {
			if _, p := fn.Signature.Recv().Type().(*types.Pointer); p {
				e.oblige("nil", fr, st, site, false, "method "+fn.Name(), func() string { return "the receiver may be nil" })
				return nil
			}
		} else if _, p := fn.Signature.Recv().Type().(*types.Pointer); p {
			if _, ok := args[0].(Top); ok {
				e.oblige("nil", fr, st, site, false, "method "+fn.Name(), func() string { return "nothing is known about the receiver" })
			} else {
				e.oblige("nil", fr, st, site, true, "method "+fn.Name(), nil)
			}
		}
	}
	switch name {
	case "errors.New", "fmt.Errorf":
		return one(e.newErr(st, site))
	case "errors.Is", "errors.As":
		if len(args) == 2 && name == "errors.Is" && sameVal(args[0], args[1]) {
			return one(cBool(true))
		}
		if _, ok := args[0].(Nil); ok {
			return one(cBool(false))
		}
		return one(freshBool("errors.Is"))
	case "fmt.Sprint":
		if s, ok := args[0].(Slc); ok {
			if cells, _ := e.contents(st, s); len(cells) == 1 {
				if k, ok := st.cval(s.Len); ok && k == 1 {
					if v, ok := e.sprint(st, cells[0].V); ok {
						return one(v)
					}
				}
			}
		}
		return one(freshStr("sprint"))
	case "fmt.Sprintf":
		return e.sprintf(fr, st, site, args)
	case "fmt.Printf", "fmt.Print", "fmt.Println", "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		return one(Tup{[]Value{Lin{freshInt("n", 0, maxDocLen), 0}, e.topVal(name, types.Universe.Lookup("error").Type())}})
	case "strings.Contains", "strings.HasPrefix", "strings.HasSuffix":
		a, ok1 := str(0)
		b, ok2 := str(1)
		if !ok1 || !ok2 {
			return one(freshBool(name))
		}
		ca, ok1 := st.sval(a)
		cb, ok2 := st.sval(b)
		if ok1 && ok2 {
			switch name {
			case "strings.Contains":
				return one(cBool(strings.Contains(ca, cb)))
			case "strings.HasPrefix":
				return one(cBool(strings.HasPrefix(ca, cb)))
			}
			return one(cBool(strings.HasSuffix(ca, cb)))
		}
		return pred(term(KInt, name, 0, 1, a, b))
	case "strconv.ParseInt", "strconv.Atoi":
		s, ok := str(0)
		base, bits := int64(10), int64(64)
		if name == "strconv.ParseInt" {
			base, _ = st.cval(toLin2(args[1]))
			bits, _ = st.cval(toLin2(args[2]))
			if bits == 0 {
				bits = 64
			}
		}
		if !ok || bits < 1 || bits > 64 {
			return top()
		}
		if c, ok := st.sval(s); ok {
			v, err := strconv.ParseInt(c, int(base), int(bits))
			if err != nil {
				return one(Tup{[]Value{cInt(v), e.newErr(st, site)}})
			}
			return one(Tup{[]Value{cInt(v), Nil{}}})
		}
		lo, hi := int64(minI), int64(maxI)
		if bits < 64 {
			lo, hi = -(1 << uint(bits-1)), 1<<uint(bits-1)-1
		}
		sfx := strconv.Itoa(int(base)) + "/" + strconv.Itoa(int(bits))
		// on error the value is 0, or the nearest representable one
		return fallible(term(KInt, "isint"+sfx, 0, 1, s), func(t *State) Value {
			t.meetLin(t.strLen(s), rng1(1, maxI))
			return Lin{term(KInt, "parseint"+sfx, lo, hi, s), 0}
		}, Lin{term(KInt, "clipint"+sfx, lo, hi, s), 0})
	case "strconv.ParseUint":
		s, ok := str(0)
		base, ok1 := st.cval(toLin2(args[1]))
		bits, ok2 := st.cval(toLin2(args[2]))
		if !ok || !ok1 || !ok2 || bits < 1 || bits >= 64 {
			return top()
		}
		if c, ok := st.sval(s); ok {
			v, err := strconv.ParseUint(c, int(base), int(bits))
			if err == nil {
				return one(Tup{[]Value{cInt(int64(v)), Nil{}}})
			}
			return one(Tup{[]Value{cInt(int64(v)), e.newErr(st, site)}})
		}
		hi := int64(1)<<uint(bits) - 1
		sfx := strconv.Itoa(int(base)) + "/" + strconv.Itoa(int(bits))
		return fallible(term(KInt, "isuint"+sfx, 0, 1, s), func(t *State) Value {
			return Lin{term(KInt, "parseuint"+sfx, 0, hi, s), 0}
		}, Lin{term(KInt, "clipuint"+sfx, 0, hi, s), 0})
	case "strconv.ParseFloat":
		s, ok := str(0)
		if !ok {
			return top()
		}
		if k, ok := st.cval(toLin2(args[1])); !ok || k != 64 {
			return fallible(term(KInt, "isfloat32", 0, 1, s), func(*State) Value { return Flt{term(KFlt, "parsefloat32", 0, 0, s)} }, freshFlt("pf"))
		}
		if c, ok := st.sval(s); ok {
			v, err := strconv.ParseFloat(c, 64)
			if err != nil {
				return one(Tup{[]Value{fltConst(v), e.newErr(st, site)}})
			}
			return one(Tup{[]Value{fltConst(v), Nil{}}})
		}
		return fallible(term(KInt, "isfloat", 0, 1, s), func(t *State) Value {
			t.meetLin(t.strLen(s), rng1(1, maxI))
			return Flt{term(KFlt, "parsefloat", 0, 0, s)}
		}, Flt{term(KFlt, "clipfloat", 0, 0, s)})
	case "strconv.ParseBool":
		s, ok := str(0)
		if !ok {
			return top()
		}
		return fallible(term(KInt, "isboolstr", 0, 1, s), func(*State) Value { return freshBool("parsebool") }, cBool(false))
	case "strconv.Unquote":
		s, ok := str(0)
		if !ok {
			return top()
		}
		return fallible(term(KInt, "isquoted", 0, 1, s), func(*State) Value { return Str{term(KStr, "unquote", 0, 0, s)} }, strConst(""))
	case "math.NaN":
		return one(fltConst(math.NaN()))
	case "math.Inf":
		if k, ok := st.cval(toLin2(args[0])); ok {
			return one(fltConst(math.Inf(int(k))))
		}
		return one(freshFlt("inf"))
	case "math.IsNaN":
		f, ok := args[0].(Flt)
		if !ok {
			return one(freshBool("isnan"))
		}
		var out []*valState
		t := st.clone()
		t.fmeet(f.S, fNaN)
		if !t.bot {
			out = append(out, &valState{t, cBool(true)})
		}
		st.fmeet(f.S, fAll&^fNaN)
		if !st.bot {
			out = append(out, &valState{st, cBool(false)})
		}
		return out
	case "math.IsInf":
		f, ok := args[0].(Flt)
		if !ok {
			return top()
		}
		if i := info(f.S); i.op == "fconst" {
			if k, ok := st.cval(toLin2(args[1])); ok {
				return one(cBool(math.IsInf(i.fval, int(k))))
			}
		}
		return pred(term(KInt, "isinf", 0, 1, f, args[1]))
	case "math.Ceil", "math.Floor", "math.Abs", "math.Trunc", "math.Round":
		if f, ok := args[0].(Flt); ok {
			if i := info(f.S); i.op == "fconst" {
				g := map[string]func(float64) float64{"math.Ceil": math.Ceil, "math.Floor": math.Floor, "math.Abs": math.Abs, "math.Trunc": math.Trunc, "math.Round": math.Round}[name]
				return one(fltConst(g(i.fval)))
			}
			t := term(KFlt, name, 0, 0, f)
			if name == "math.Abs" {
				// the same as the comparison x < 0 ? -x : x up to the sign of zero
				m := st.fmask(f.S)
				var out []*valState
				if m&fNeg != 0 {
					s := st.clone()
					s.fmeet(f.S, fNeg)
					out = append(out, &valState{s, e.fneg(s, f)})
				}
				if m&^fNeg != 0 {
					st.fmeet(f.S, fAll&^fNeg)
					out = append(out, &valState{st, f})
				}
				return out
			}
			return one(Flt{t})
		}
	case "regexp.Compile", "regexp.MustCompile", "regexp.CompilePOSIX":
		s, ok := str(0)
		if !ok {
			s = freshStr("re")
		}
		good := func(t *State) Value {
			return Ptr{O: e.extObj2("regexp", s)}
		}
		y, n := predStates(st, term(KInt, "reok:"+strings.TrimPrefix(name, "regexp.Must"), 0, 1, s))
		var out []*valState
		if name == "regexp.MustCompile" {
			if y != nil {
				out = append(out, &valState{y, good(y)})
			}
			if n != nil {
				e.oblige("panic", fr, n, site, false, "regexp.MustCompile", func() string { return "the regular expression may be invalid" })
			}
			return out
		}
		if y != nil {
			out = append(out, &valState{y, Tup{[]Value{good(y), Nil{}}}})
		}
		if n != nil {
			out = append(out, &valState{n, Tup{[]Value{Nil{}, e.newErr(n, site)}}})
		}
		return out
	case "(*regexp.Regexp).MatchString":
		s, ok := str(1)
		if !ok {
			return top()
		}
		return pred(term(KInt, "rematch", 0, 1, args[0], s))
	case "(*regexp.Regexp).String":
		return one(freshStr("re"))
	case "(*regexp.Regexp).Split", "(*regexp.Regexp).FindAllString", "strings.Split", "strings.Fields", "strings.SplitN":
		n := Lin{freshInt("splitlen", 0, maxDocLen), 0}
		o := e.newObj(fr, st, site, &Obj{kind: 'a', typ: resultType(fn), def: Str{newSym(&SymInfo{kind: KStr, name: "piece", generic: true})}})
		return one(Slc{o, cInt(0), n, n})
	case "unicode/utf8.RuneCountInString":
		if s, ok := str(0); ok {
			if c, ok := st.sval(s); ok {
				return one(cInt(int64(utf8.RuneCountInString(c))))
			}
			l := Lin{term(KInt, "runecount", 0, maxTextLen, s), 0}
			st.addDiff(l, st.strLen(s), 0)
			return one(l)
		}
	case "unicode/utf8.DecodeRuneInString":
		if s, ok := str(0); ok {
			if c, ok := st.sval(s); ok {
				r, n := utf8.DecodeRuneInString(c)
				return one(Tup{[]Value{cInt(int64(r)), cInt(int64(n))}})
			}
			// width 0 when empty, else 1..4
			var out []*valState
			t := st.clone()
			t.strMeet(s.S, StrFact{true, []string{""}})
			if !t.bot {
				out = append(out, &valState{t, Tup{[]Value{cInt(utf8.RuneError), cInt(0)}}})
			}
			st.strMeet(s.S, StrFact{false, []string{""}})
			if !st.bot {
				w := Lin{term(KInt, "runewidth", 1, 4, s), 0}
				st.addDiff(w, st.strLen(s), 0)
				out = append(out, &valState{st, Tup{[]Value{Lin{term(KInt, "rune", 0, 0x10FFFF, s), 0}, w}}})
			}
			return out
		}
	case "unicode/utf16.IsSurrogate":
		if l, ok := args[0].(Lin); ok {
			if k, ok := st.cval(l); ok {
				return one(cBool(utf16.IsSurrogate(rune(k))))
			}
			var out []*valState
			for _, r := range []struct {
				v      bool
				lo, hi int64
			}{{true, 0xd800, 0xdfff}, {false, minI, 0xd7ff}, {false, 0xe000, maxI}} {
				t := st.clone()
				t.meetLin(l, rng1(r.lo, r.hi))
				if !t.bot {
					out = append(out, &valState{t, cBool(r.v)})
				}
			}
			return out
		}
	case "unicode/utf16.DecodeRune":
		return one(Lin{freshInt("rune", 0, 0x10FFFF), 0})
	case "unicode.IsLetter", "unicode.IsDigit", "unicode.IsSpace", "unicode.IsUpper", "unicode.IsLower", "unicode.IsControl", "unicode.IsPrint", "unicode.IsNumber":
		if l, ok := args[0].(Lin); ok {
			f := map[string]func(rune) bool{"unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsSpace": unicode.IsSpace,
				"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsControl": unicode.IsControl, "unicode.IsPrint": unicode.IsPrint, "unicode.IsNumber": unicode.IsNumber}[name]
			if k, ok := st.cval(l); ok && k >= -1<<31 && k < 1<<31 {
				return one(cBool(f(rune(k))))
			}
			t := term(KInt, name, 0, 1, l)
			y, n := predStates(st, t)
			var out []*valState
			if y != nil {
				y.meetLin(l, rng1(0, 0x10FFFF)) // no rune outside Unicode is in a class
				if !y.bot {
					out = append(out, &valState{y, cBool(true)})
				}
			}
			if n != nil {
				out = append(out, &valState{n, cBool(false)})
			}
			return out
		}
	case "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune", "(*strings.Builder).WriteString", "(*strings.Builder).String", "(*strings.Builder).Len", "(*strings.Builder).Reset", "(*strings.Builder).Grow":
		return e.strBuilder(fr, st, site, fn, args)
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		return one(Tup{})
	case "sort.Strings", "sort.Slice", "sort.SliceStable", "slices.Sort", "slices.SortFunc", "sort.Sort", "sort.Stable", "slices.SortStableFunc", "slices.Reverse":
		if v, ok := args[0].(Ifc); ok {
			args[0] = v.V
		}
		if s, ok := args[0].(Slc); ok {
			e.wrote(fr, st, site, s.O)
			if x := e.obj(st, s.O); x != nil && x.kind == 'a' && !s.O.isVirt() {
				if out := e.sortExact(st, s, x, name); out != nil {
					return out
				}
				n := e.foldCells(st, x)
				st.heap.set(s.O, n)
			}
		}
		return one(Tup{})
	case "os.Exit":
		return nil
	}
	if strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "(*sync") {
		e.unsupported(fr, site, "synchronisation "+name)
	}
	if pureFns[name] {
		all := true
		for i := range args {
			if _, ok := st.constOf(args[i]); !ok {
				all = false
			}
		}
		if all {
			if v, ok := constCall(name, st, args); ok {
				return one(v)
			}
		}
		rt := resultType(fn)
		var as []Value
		for _, a := range args {
			if _, ok := a.(StrBytes); ok {
				return top()
			}
			if !isTermArg(a) {
				return top()
			}
			as = append(as, a)
		}
		switch {
		case isBoolT(rt):
			return pred(term(KInt, name, 0, 1, as...))
		case isInt(rt):
			lo, hi := intRange(rt)
			l := Lin{term(KInt, name, lo, hi, as...), 0}
			if strings.HasPrefix(name, "strings.Index") || strings.HasPrefix(name, "strings.LastIndex") {
				st.meetLin(l, rng1(-1, maxTextLen))
				st.addDiff(l, st.strLen(as[0].(Str)), 0)
				if b, ok := as[1].(Str); ok {
					if c, ok := st.sval(b); ok && c != "" {
						st.addDiff(l, st.strLen(as[0].(Str)), -1)
					}
				} else {
					st.addDiff(l, st.strLen(as[0].(Str)), -1)
				}
			}
			return one(l)
		case isFlt(rt):
			return one(Flt{term(KFlt, name, 0, 0, as...)})
		case isStr(rt):
			return one(Str{term(KStr, name, 0, 0, as...)})
		}
		return top()
	}
	if !harmless(name) {
		e.unsupported(fr, site, "call of "+name)
	}
	// an unknown function may write through what it is given
	for i, a := range args {
		if i == 0 && fn.Signature.Recv() != nil {
			continue
		}
		if s, ok := a.(Slc); ok {
			if strings.HasPrefix(name, "fmt.") {
				continue
			}
			if !strings.HasPrefix(name, "strings.") && !strings.HasPrefix(name, "bytes.") {
				e.wrote(fr, st, site, s.O)
			}
		}
	}
	return top()
}

func isTermArg(v Value) bool {
	switch v.(type) {
	case Lin, Flt, Str, Bl, Nil:
		return true
	}
	return false
}

func (s *State) constOf(v Value) (interface{}, bool) {
	switch v := v.(type) {
	case Lin:
		return s.cval(v)
	case Str:
		return s.sval(v)
	case Bl:
		return s.bval(v)
	case Flt:
		if i := info(v.S); i.op == "fconst" {
			return i.fval, true
		}
	}
	return nil, false
}

func constCall(name string, st *State, args []Value) (Value, bool) {
	S := func(i int) string { x, _ := st.sval(args[i].(Str)); return x }
	I := func(i int) int64 { x, _ := st.cval(args[i].(Lin)); return x }
	F := func(i int) float64 { return info(args[i].(Flt).S).fval }
	switch name {
	case "strconv.Itoa":
		return strConst(strconv.FormatInt(I(0), 10)), true
	case "strconv.FormatInt":
		return strConst(strconv.FormatInt(I(0), int(I(1)))), true
	case "strconv.Quote":
		return strConst(strconv.Quote(S(0))), true
	case "strconv.CanBackquote":
		return cBool(strconv.CanBackquote(S(0))), true
	case "strings.Index":
		return cInt(int64(strings.Index(S(0), S(1)))), true
	case "strings.IndexByte":
		return cInt(int64(strings.IndexByte(S(0), byte(I(1))))), true
	case "strings.IndexRune":
		return cInt(int64(strings.IndexRune(S(0), rune(I(1))))), true
	case "strings.ContainsRune":
		return cBool(strings.ContainsRune(S(0), rune(I(1)))), true
	case "strings.ToLower":
		return strConst(strings.ToLower(S(0))), true
	case "strings.ToUpper":
		return strConst(strings.ToUpper(S(0))), true
	case "strings.ReplaceAll":
		return strConst(strings.ReplaceAll(S(0), S(1), S(2))), true
	case "strings.TrimPrefix":
		return strConst(strings.TrimPrefix(S(0), S(1))), true
	case "strings.TrimSuffix":
		return strConst(strings.TrimSuffix(S(0), S(1))), true
	case "math.Mod":
		return fltConst(math.Mod(F(0), F(1))), true
	case "math.Max":
		return fltConst(math.Max(F(0), F(1))), true
	case "math.Min":
		return fltConst(math.Min(F(0), F(1))), true
	}
	return nil, false
}

// extObj2 is an outside object that depends on v only (equal arguments give the same object).
func (e *Engine) extObj2(name string, v Value) ObjID {
	return e.extObj(name + "(" + valKey(v) + ")")
}

// sprint is fmt.Sprint of one operand.
func (e *Engine) sprint(st *State, v Value) (Value, bool) {
	switch v := v.(type) {
	case Ifc:
		b, ok := v.T.(*types.Basic)
		if !ok {
			return nil, false
		}
		switch {
		case b.Info()&types.IsString != 0:
			return v.V, true
		case b.Info()&types.IsInteger != 0:
			l, ok := v.V.(Lin)
			if !ok {
				return nil, false
			}
			if k, ok := st.cval(l); ok {
				return strConst(strconv.FormatInt(k, 10)), true
			}
			return Str{term(KStr, "strconv.Itoa", 0, 0, l)}, true
		case b.Info()&types.IsBoolean != 0:
			if x, ok := v.V.(Bl); ok {
				if k, ok := st.bval(x); ok {
					return strConst(strconv.FormatBool(k)), true
				}
				return Str{term(KStr, "sprintbool", 0, 0, x)}, true
			}
		case b.Info()&types.IsFloat != 0:
			if x, ok := v.V.(Flt); ok {
				return Str{term(KStr, "sprintflt", 0, 0, x)}, true
			}
		}
	}
	return nil, false
}

func (e *Engine) sprintf(fr *Frame, st *State, site ssa.Instruction, args []Value) []*valState {
	r := freshStr("sprintf")
	if f, ok := args[0].(Str); ok {
		if c, ok := st.sval(f); ok {
			// the operand's own method when the format is a single verb
			if c == "%v" || c == "%s" || c == "%d" {
				if s, ok := args[1].(Slc); ok {
					if cells, _ := e.contents(st, s); len(cells) == 1 {
						if v, ok := e.sprint(st, cells[0].V); ok {
							return []*valState{{st, v}}
						}
					}
				}
			}
			i := strings.IndexByte(c, '%')
			if i < 0 {
				if _, ok := args[1].(Nil); ok {
					return []*valState{{st, f}}
				}
				i = len(c)
			}
			if i > 0 {
				st.meetLin(st.strLen(r), rng1(int64(i), maxI))
			}
		}
	}
	return []*valState{{st, r}}
}

// strBuilder models strings.Builder: its first field holds the contents.
func (e *Engine) strBuilder(fr *Frame, st *State, site ssa.Instruction, fn *ssa.Function, args []Value) []*valState {
	p, ok := args[0].(Ptr)
	res := func(s *State, v Value) *valState {
		switch fn.Name() {
		case "WriteByte":
			return &valState{s, Nil{}}
		case "WriteRune", "WriteString":
			return &valState{s, Tup{[]Value{Lin{freshInt("n", 0, maxTextLen), 0}, Nil{}}}}
		case "String":
			return &valState{s, v}
		case "Len":
			if x, ok := v.(Str); ok {
				return &valState{s, s.strLen(x)}
			}
			return &valState{s, Lin{freshInt("len", 0, maxTextLen), 0}}
		}
		return &valState{s, Tup{}}
	}
	if !ok {
		return []*valState{res(st, freshStr("built"))}
	}
	x := e.obj(st, p.O)
	if x == nil {
		return []*valState{res(st, freshStr("built"))}
	}
	cur := e.getPath(st, x.val, p.Path)
	var s Str
	if f, ok := cur.(Strct); ok && len(f.F) > 0 {
		if y, ok := f.F[0].(Str); ok {
			s = y
		} else if _, ok := f.F[0].(Nil); ok {
			s = strConst("") // the zero Builder
		} else {
			s = freshStr("built")
		}
		if i := info(s.S); i.generic {
			s = freshStr("built")
		}
		var add Str
		switch fn.Name() {
		case "WriteByte", "WriteRune":
			l, ok := args[1].(Lin)
			if !ok {
				add = freshStr("rune")
			} else if k, ok := st.cval(l); ok {
				if fn.Name() == "WriteByte" {
					add = strConst(string([]byte{byte(k)}))
				} else {
					add = strConst(string(rune(k)))
				}
			} else {
				add = Str{term(KStr, fn.Name(), 0, 0, l)}
				st.meetLin(st.strLen(add), rng1(1, 4))
			}
		case "WriteString":
			add, ok = args[1].(Str)
			if !ok {
				add = freshStr("text")
			}
		case "Reset":
			f2 := append([]Value{}, f.F...)
			f2[0] = strConst("")
			n := x.copy()
			n.val = e.setPath(st, x.val, p.Path, Strct{f2}, x.many)
			st.heap.set(p.O, n)
			return []*valState{res(st, nil)}
		default:
			return []*valState{res(st, s)}
		}
		e.wrote(fr, st, site, p.O)
		var r Value = e.concat(st, s, add)
		if info(r.(Str).S).depth > 4 {
			f := freshStr("built")
			ln := st.strLen(f)
			st.meetLin(ln, st.rangeOf(st.strLen(r.(Str))))
			r = f
		}
		f2 := append([]Value{}, f.F...)
		f2[0] = r
		n := x.copy()
		n.val = e.setPath(st, x.val, p.Path, Strct{f2}, x.many)
		st.heap.set(p.O, n)
		return []*valState{res(st, r)}
	}
	return []*valState{res(st, freshStr("built"))}
}

// sortExact orders the elements of a slice of known length: by value when they are constant strings or numbers,
// otherwise, for up to three elements, in every possible way.
func (e *Engine) sortExact(st *State, s Slc, x *Obj, name string) []*valState {
	if n, ok := st.cval(s.Len); ok && n == 0 {
		return []*valState{{st, Tup{}}}
	}
	els, why := e.listOf(st, s)
	off, ok := st.cval(s.Off)
	if why != "" || !ok || x.many {
		return nil
	}
	put := func(st *State, els []Value) *valState {
		n := e.obj(st, s.O).copy()
		n.cells = nil
		for _, c := range x.cells {
			if k, ok := st.cval(c.I); !ok || k < off || k >= off+int64(len(els)) {
				n.cells = append(n.cells, c)
			}
		}
		for i, v := range els {
			n.cells = append(n.cells, ACell{cInt(off + int64(i)), v})
		}
		st.heap.set(s.O, n)
		return &valState{st, Tup{}}
	}
	if name == "slices.Reverse" {
		slices.Reverse(els)
		return []*valState{put(st, els)}
	}
	if name == "sort.Strings" || name == "slices.Sort" {
		strs, ints := true, true
		for _, v := range els {
			_, ok1 := v.(Str)
			_, ok2 := v.(Lin)
			if ok1 {
				_, ok1 = st.sval(v.(Str))
			}
			if ok2 {
				_, ok2 = st.cval(v.(Lin))
			}
			strs, ints = strs && ok1, ints && ok2
		}
		if strs {
			sort.SliceStable(els, func(i, j int) bool {
				a, _ := st.sval(els[i].(Str))
				b, _ := st.sval(els[j].(Str))
				return a < b
			})
			return []*valState{put(st, els)}
		}
		if ints {
			sort.SliceStable(els, func(i, j int) bool {
				a, _ := st.cval(els[i].(Lin))
				b, _ := st.cval(els[j].(Lin))
				return a < b
			})
			return []*valState{put(st, els)}
		}
	}
	if len(els) > 3 {
		return nil
	}
	var out []*valState
	for _, p := range permutations(len(els)) {
		var vs []Value
		for _, i := range p {
			vs = append(vs, els[i])
		}
		out = append(out, put(st.clone(), vs))
	}
	return out
}
