package main

// C01, C07, C09, C10, C23: from text to program.

import (
	"fmt"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ruleOf tells which properties a rule of the lexer and parser analyses belongs to.
var ruleOf = map[string][]string{
	"eof":       {"C09"},
	"early-end": {"C09"},
	"trailing":  {"C09"},
	"unclosed":  {"C09"},
	"lex-open":  {"C09", "C10"},
	"swallowed": {"C10"},
	"control":   {"C10"},
	"accepted":  {"C10"},
	"value":     {"C01"},
	"outside":   {"C23"},
	"consumes":  {"C23"},
	"progress":  {"C23"},
	"pair":      {"C07"},
	"undecided": {"C01", "C07", "C09", "C10", "C23"},
}

// only runs f and keeps of what it reports what belongs to a property.
func only(id string, r *Result, f func(r *Result)) {
	rr := newResult()
	defer func() {
		var keep []*Viol
		for _, v := range rr.Viols {
			own, known := ruleOf[v.Rule]
			if !known && id == "C01" {
				keep = append(keep, v)
			}
			for _, o := range own {
				if o == id {
					keep = append(keep, v)
					break
				}
			}
		}
		rr.Viols = keep
		r.merge(rr)
	}()
	f(rr)
}

var lexNames = []string{"zzLexPath", "zzLexExpr", "zzLexRegexp"}

func lexJobs(id string) []*Job {
	var js []*Job
	for _, n := range lexNames {
		n := n
		js = append(js, &Job{Name: "lexer " + n[2:], Run: func(P *Prog, r *Result) {
			only(id, r, func(r *Result) {
				newScan(P, r, n, nil).collect(nil)
			})
		}})
	}
	return js
}

func lexClasses(P *Prog) map[string][]lexClass {
	cl := map[string][]lexClass{}
	for _, l := range lexNames {
		cl[l] = newScan(P, newResult(), l, nil).classesOf()
	}
	return cl
}

func parseJobs(id string, th bool) []*Job {
	var js []*Job
	for _, n := range []string{"zzParsePath", "zzParseScriptExpression"} {
		n := n
		js = append(js, &Job{Name: "parser " + n[7:], Run: func(P *Prog, r *Result) {
			only(id, r, func(r *Result) {
				cl := lexClasses(P)
				s := newParse(P, r, n, cl, nil)
				if id != "C01" {
					s.collect(nil)
					return
				}
				// explicit panics that depend on the contents of lists of several
				// values are looked at again with short lists
				var seen map[string]bool
				s.collect(func(o *Oblig) bool {
					if o.Rule != "panic" {
						return false
					}
					if seen == nil {
						seen = s.panicsBounded(cl, th)
					}
					r.Count["panics decided with bounded lists"]++
					return !seen[o.Fn+" "+o.Pos]
				})
			})
		}})
	}
	return js
}

// panicsBounded runs the parser with short lists, keeping all states apart, and gives the
// explicit panics that are still reachable.
func (s *Parse) panicsBounded(cl map[string][]lexClass, th bool) map[string]bool {
	b := map[int64]int{'[': 1, '.': 1, s.tok("tokNest"): 1, ',': 1}
	if th {
		b[','] = 2
	}
	t := newParse(s.P, s.r, s.entry, cl, b)
	m := map[string]bool{}
	for _, o := range t.e.failures() {
		if o.Rule == "panic" {
			m[o.Fn+" "+o.Pos] = true
		}
	}
	for _, o := range s.e.failures() {
		if o.Rule != "panic" {
			continue
		}
		looked := false
		for f := range t.e.analysed {
			looked = looked || shortFn(f) == o.Fn
		}
		if !looked {
			m[o.Fn+" "+o.Pos] = true
		}
	}
	return m
}

// badStarts are beginnings of texts that no lexeme has.
func badStarts(P *Prog) []*Job {
	set := func(s string) RSet {
		var r RSet
		for i := 0; i < len(s); i++ {
			r = r.join(rng1(int64(s[i]), int64(s[i])))
		}
		return r
	}
	not := func(r RSet) RSet {
		all := rng1(0, 255)
		for _, x := range r {
			for k := x.lo; k <= x.hi; k++ {
				all = all.without(k)
			}
		}
		return all
	}
	ctrl := rng1(0, 31)
	any := rng1(32, 127)
	for _, k := range []int64{'"', '\'', '\\'} {
		any = any.without(k)
	}
	hex := set("0123456789abcdefABCDEF")
	digit := set("0123456789")
	space := set(" \t\r\n\f\v\b")
	nospace := not(space)
	odd := rng1(1, 31).meet(nospace).join(set("\x7f"))
	var js []*Job
	add := func(lexer, what string, p ...RSet) {
		js = append(js, &Job{Name: lexer[2:] + ": " + what, Run: func(P *Prog, r *Result) {
			only("C10", r, func(r *Result) {
				// first with a short rest, which shows what is accepted at once
				for _, more := range []int{3, -1} {
					s := newScanUpTo(P, r, lexer, p, more)
					var ks []string
					for k := range s.seen {
						ks = append(ks, k)
					}
					sort.Strings(ks)
					bad := false
					for _, k := range ks {
						if !s.seen[k].err {
							r.viol("accepted", lexer, "", "a text that begins with "+what+" may give a lexeme without an error", k)
							bad = true
						}
					}
					if len(ks) == 0 {
						r.viol("undecided", lexer, "", "no outcome for a text that begins with "+what, "")
					}
					s.undecided()
					if bad {
						return
					}
				}
				r.Count["kinds of bad text"]++
			})
		}})
	}
	for _, l := range lexNames[:2] {
		if l == "zzLexPath" {
			add(l, "a character of no token", odd.join(set("!#%&+/;<=>@^`{|}~\\")))
			add(l, "a minus without a digit", set("-"), not(digit).meet(nospace))
			add(l, "a question mark without a parenthesis", set("?"), not(set("(")).meet(nospace))
		} else {
			add(l, "a character of no token", odd.join(set("#:;?^`{}\\")))
			add(l, "a number with a bad exponent", digit, set("."), digit, set("eE"), not(digit.join(set("+-"))))
			add(l, "a number with an exponent without digits", digit, set("."), digit, set("eE"), set("+-"), not(digit))
		}
		for _, q := range []string{"\"", "'"} {
			other := "'"
			if q == other {
				other = "\""
			}
			add(l, "a string with a control character after "+q, set(q), ctrl)
			add(l, "a string with a control character later than "+q, set(q), any, ctrl)
			esc := not(set("\\/tfnrbu" + q + other))
			add(l, "a string with a bad escape after "+q, set(q), set("\\"), esc)
			add(l, "a string with a bad escape later than "+q, set(q), any, set("\\"), esc)
			p := []RSet{set(q), set("\\"), set("u")}
			for i := 0; i < 4; i++ {
				add(l, fmt.Sprintf("a string with a bad hexadecimal digit %d after %s", i+1, q), append(append([]RSet{}, p...), not(hex))...)
				p = append(p, hex)
			}
		}
	}
	return js
}

func init() {
	wait := 5 * time.Minute
	trusted := []string{"the models of strings.Builder, strconv, utf16 and regexp.Compile"}
	register(&CheckDef{ID: "C01", Limit: wait, Trusted: trusted,
		Rule: "every operation that can panic (nil dereference, index, slice bounds, type assertion, division, shift, map or slice creation, comparison of uncomparable values, explicit panic) reached by the abstract interpretation of the lexers on an arbitrary text, of ParsePath and ParseScriptExpression on arbitrary lexemes, and of Compile on each kind of expression, is proved not to; each kind of lexeme has a value of the type its users assert.",
		Jobs: func(P *Prog, th bool) []*Job {
			return append(append(lexJobs("C01"), parseJobs("C01", th)...), compileJobs(P, th)...)
		},
		Min: map[string]int{"lexemes": 20, "acceptances": 2, "expressions compiled": 100, "obligations": 200},
	})
	register(&CheckDef{ID: "C07", Limit: wait, Trusted: trusted,
		Rule: "every path by which ParsePath, ParseScriptExpression, Compile, mach.Compile (for each kind of expression; and each of its failing returns) and Eval (for each kind of expression on an arbitrary document) return gives a value that is not nil and no error, or nil and an error; MustCompile comes back, with a value, exactly on the paths on which Compile returns no error.",
		Jobs: func(P *Prog, th bool) []*Job {
			js := append(parseJobs("C07", th), rootJob(), failJob())
			js = append(js, codeJob(P, th)...)
			return append(js, genJobs(P, th, func(s *Suite, o *RunOut) { s.pairs("Eval", o.st, o.vals, o.err) }, func(s *Suite) { s.undecided() })...)
		},
		Min: map[string]int{"results": 1000, "expressions": 600, "results of mach.Compile": 600, "failing returns": 1, "ends of Compile and MustCompile": 5},
	})
	register(&CheckDef{ID: "C09", Limit: wait, Trusted: trusted,
		Rule: "the reader reports the end of the text only at its end; a lexer meets the end inside a literal only with an error; on every path on which ParsePath or ParseScriptExpression returns without error, the last lexeme taken was the end of the text, and as many brackets and parentheses were closed as opened.",
		Jobs: func(P *Prog, th bool) []*Job { return append(lexJobs("C09"), parseJobs("C09", th)...) },
		Min:  map[string]int{"lexemes": 20, "acceptances": 2, "ends of text": 10},
	})
	register(&CheckDef{ID: "C10", Limit: wait, Trusted: trusted,
		Rule: "no path of a lexer on which a conversion or escape failed or a control character was found in a string, or whose text begins with one of the enumerated kinds of malformed text, gives a lexeme without error; no path of ParsePath or ParseScriptExpression on which a lexer, regexp.Compile or a parsing function reported an error returns without one; in mach.Compile and jsonpath.Compile every error a callee returns reaches the caller.",
		Jobs: func(P *Prog, th bool) []*Job {
			return append(append(append(lexJobs("C10"), parseJobs("C10", th)...), badStarts(P)...), errorJobs("C10")...)
		},
		Min: map[string]int{"lexemes": 20, "acceptances": 2, "kinds of bad text": 20, "errors followed": 10},
	})
	register(&CheckDef{ID: "C23", Limit: wait, Trusted: trusted,
		Rule: "in the lexers, every round of every loop that is not a counted loop moves the reader forward, within the text; every lexeme other than the end of text and errors consumes some of it; in the parser, every round of every loop and every cycle of calls consumes a lexeme other than the end of text, or ends in an error.",
		Jobs: func(P *Prog, th bool) []*Job { return append(lexJobs("C23"), parseJobs("C23", th)...) },
		Min:  map[string]int{"lexemes": 20, "acceptances": 2, "loops": 50, "recursive calls": 10},
	})
}

// compileJobs follows Compile on each kind of expression.
func compileJobs(P *Prog, th bool) []*Job {
	var texts []string
	for _, t := range genTmpls(P, th) {
		texts = append(texts, t.text)
	}
	texts = append(texts, "$[777001]", "$[777001:777002:777001]", "$[777001,777002]", "$[?(777001 + @.a)]", "$.777001", "$..[777001]", "$..[777001,'a']")
	const at = 40
	var js []*Job
	for i := 0; i < len(texts); i += at {
		part := texts[i:min(i+at, len(texts))]
		js = append(js, &Job{Name: fmt.Sprintf("Compile %d-%d", i, i+len(part)-1), Run: func(P *Prog, r *Result) {
			for _, text := range part {
				s := newSuite(P, r)
				t := &Tmpl{text: text, holes: map[int64]Value{777001: Lin{freshInt("H1", minI, maxI), 0}, 777002: Lin{freshInt("H2", minI, maxI), 0}}}
				acc := 0
				err := s.e.analyse(func() {
					good, _ := s.e.compileTmpl(t, newState())
					acc = len(good)
				})
				if err != nil {
					panic(tooMuch{text + ": " + err.Error()})
				}
				if acc == 0 {
					r.viol("coverage", text, "", text+" is not accepted", "")
				}
				r.Count["expressions compiled"]++
				s.collect(nil)
			}
		}})
	}
	return js
}

// C07: one result.

// pairs checks the two results of a function: a value that is not nil, or an error.
func (s *Suite) pairs(what string, st *State, v, err Value) {
	for _, x := range s.e.expand(st.clone(), err) {
		_, noErr := x.v.(Nil)
		for _, y := range s.e.expand(x.st.clone(), v) {
			_, none := y.v.(Nil)
			if sl, ok := y.v.(Slc); ok && sl.O == 0 {
				none = true
			}
			s.r.Count["results"]++
			switch {
			case noErr && none:
				s.r.viol("pair", what, "", what+": neither a value nor an error is returned", "")
			case !noErr && !none:
				s.r.viol("pair", what, "", what+": a value is returned together with an error", vStr(y.v))
			}
		}
	}
}

// rootJob follows jsonpath.Compile and MustCompile, given any outcome of the parser and the code generator.
func rootJob() *Job {
	return &Job{Name: "Compile and MustCompile", Run: func(P *Prog, r *Result) {
		pp, mc := P.fn("paths", "ParsePath"), P.fn("mach", "Compile")
		comp, must := P.fn("", "Compile"), P.fn("", "MustCompile")
		if pp == nil || mc == nil || comp == nil || must == nil {
			panic(tooMuch{"Compile, MustCompile, ParsePath or mach.Compile is missing"})
		}
		for _, fails := range []string{"", "parse", "code"} {
			s := newSuite(P, r)
			s.e.pureCall = true
			called := map[string]bool{}
			s.hook = func(e *Engine, fr *Frame, st *State, site ssa.Instruction, f *ssa.Function, args []Value) ([]*Out, bool) {
				which := ""
				switch f {
				case pp:
					which = "parse"
				case mc:
					which = "code"
				default:
					return nil, false
				}
				called[which] = true
				if which == fails {
					return []*Out{{st, []Value{Nil{}, e.newErr(st, site)}}}, true
				}
				if which == "parse" {
					o := objID(ObjName{site: "path"})
					st.heap.set(o, &Obj{kind: 'a', typ: f.Signature.Results().At(0).Type(), many: true})
					n := Lin{freshInt("steps", 0, maxDocLen), 0}
					return []*Out{{st, []Value{Slc{o, cInt(0), n, n}, Nil{}}}}, true
				}
				return []*Out{{st, []Value{Ptr{O: e.extObj("program")}, Nil{}}}}, true
			}
			ends, panics := 0, 0
			s.e.onPanic = func(e *Engine, fr *Frame, st *State, in ssa.Instruction) bool {
				panics++
				return true
			}
			run := func(f *ssa.Function) (outs []*valState) {
				err := s.e.analyse(func() {
					outs, panics = nil, 0
					outs = s.e.callFn(nil, newState(), nil, f, []Value{freshStr("text")}, nil)
				})
				if err != nil {
					panic(tooMuch{err.Error()})
				}
				return
			}
			for _, x := range run(comp) {
				v := x.v.(Tup).V
				s.pairs("Compile", x.st, v[0], v[1])
				for _, a := range s.alts(v[1]) {
					_, ok := a.(Nil)
					if fails == "" && !ok {
						r.viol("pair", "Compile", "", "Compile may return an error where neither the parser nor the code generator does", "")
					}
					if fails != "" && ok {
						r.viol("pair", "Compile", "", "Compile may return no error where the parser or the code generator does", fails)
					}
				}
				ends++
			}
			if panics > 0 {
				r.viol("pair", "Compile", "", "Compile may panic", fails)
			}
			for _, x := range run(must) {
				ends++
				if fails != "" {
					r.viol("pair", "MustCompile", "", "MustCompile may come back where Compile returns an error", fails)
				}
				for _, a := range s.alts(x.v) {
					if _, ok := a.(Nil); ok {
						r.viol("pair", "MustCompile", "", "MustCompile may return nil", fails)
					}
				}
			}
			if fails == "" && panics > 0 {
				r.viol("pair", "MustCompile", "", "MustCompile may panic where Compile returns no error", "")
			}
			if fails != "" && panics == 0 {
				r.viol("pair", "MustCompile", "", "MustCompile does not panic where Compile returns an error", fails)
			}
			if !called["parse"] || fails != "parse" && !called["code"] {
				r.viol("undecided", "Compile", "", "Compile does not call paths.ParsePath and mach.Compile", "")
			}
			r.Count["ends of Compile and MustCompile"] += ends + panics
			s.undecided()
		}
	}}
}

// codeJob looks at the results of the code generator's Compile for each kind of expression.
func codeJob(P *Prog, th bool) []*Job {
	var js []*Job
	mc := P.fn("mach", "Compile")
	ts := genTmpls(P, th)
	const at = 60
	for i := 0; i < len(ts); i += at {
		part := ts[i:min(i+at, len(ts))]
		js = append(js, &Job{Name: fmt.Sprintf("mach.Compile %d-%d", i, i+len(part)-1), Run: func(P *Prog, r *Result) {
			for _, t := range part {
				s := newSuite(P, r)
				s.e.onReturn = func(e *Engine, fr *Frame, st *State, in *ssa.Return) {
					if fr.fn == mc && len(in.Results) == 2 {
						r.Count["results of mach.Compile"]++
						s.pairs("mach.Compile", st, e.get(st, in.Results[0]), e.get(st, in.Results[1]))
					}
				}
				err := s.e.analyse(func() { s.e.compileTmpl(&Tmpl{text: t.text}, newState()) })
				if err != nil {
					panic(tooMuch{t.text + ": " + err.Error()})
				}
				s.undecided()
			}
		}})
	}
	return js
}

// failing checks, for the functions of the code generator, what is returned with an error.
func failJob() *Job {
	return &Job{Name: "failing returns of mach.Compile", Run: func(P *Prog, r *Result) {
		w := newErrFlow(P, r)
		for _, f := range []*ssa.Function{P.fn("mach", "Compile")} {
			for _, b := range f.Blocks {
				rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok || len(rt.Results) != 2 || isNilConst(rt.Results[1]) {
					continue
				}
				r.Count["failing returns"]++
				if !isNilConst(rt.Results[0]) && !w.sameCall(rt.Results[0], rt.Results[1]) {
					r.viol("pair", shortFn(f), w.P.instrPos(rt), "a value may be returned together with an error", "")
				}
			}
		}
	}}
}

// sameCall tells whether both are the results of one call.
func (w *ErrFlow) sameCall(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Extract)
	y, ok2 := b.(*ssa.Extract)
	return ok1 && ok2 && x.Tuple == y.Tuple
}
