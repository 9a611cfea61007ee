package main

// C02-C08, C12: every kind of expression on an arbitrary document.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// genT is an expression to follow on an arbitrary document.
type genT struct {
	text   string
	mayErr bool // evaluation may come back with an error
}

var genSteps = []string{".a", ".*", "['a']", "[1]", "[-1]", ".1", "[*]", "['a',-1]", "[b,'x',1:3:2]", "[1:3]", "[3:0:-1]", "[::0]", "..a", "..*", "..[1]", "..['a','b']", "..['a',1:3]", "..[0:2]", "..[2:0:-1]", "..[*]", "..[?(@.x)]", "[?(@.x)]",
	".(@.k)", "[($.k)]", "..($.k)", "..[(@.k)]", "[(1):(@.k):($.k)]"}

// steps with integers of any value
var genHoles = []string{"[777001]", ".777001", "['a',777001]", "..[777001]", "[777001:777002]", "[777001:777002:777003]", "[::777003]", "[777001::777003]", "[:777002:777003]",
	"[777001:777002:777003,'a',777001]", "..[777001:777002:777003]", "[(777001)]", ".(777001)", "[?(@[777001])]", "..[(777001)]"}

// steps standing for a class of steps that the machine runs in the same way
var genClass = []string{".a", "[*]", "['a',-1]", "[3:0:-1]", "..a", "..*", "..['a',1:3]", "..[?(@.x)]", "[?(@.x)]", "[($.k)]"}

var binOps = []string{"+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "&&", "||", "=~", "in", "nin"}

func mayFail(op string) bool { return op == "=~" || op == "in" || op == "nin" }

// genExprs are expressions covering each operator and function with each kind of operand.
func genExprs(P *Prog) []genT {
	var ts []genT
	add := func(err bool, f string, a ...interface{}) { ts = append(ts, genT{fmt.Sprintf(f, a...), err}) }
	for _, op := range binOps {
		add(mayFail(op), "any1() %s any2()", op)
		for _, o := range []string{"foo", "/a/"} {
			add(mayFail(op), "%s %s any2()", o, op)
			add(mayFail(op), "any1() %s %s", op, o)
		}
		add(mayFail(op), "foo %s /a/", op)
		add(mayFail(op), "/a/ %s foo", op)
		add(mayFail(op), "[any1()] %s [any2(),1]", op)
	}
	for _, o := range []string{"any1()", "foo", "/a/", "[]", "[any1(),any2()]"} {
		for _, f := range []string{"%s", "-%s", "!%s", "%s.a", "%s.length", "%s[any3()]", "%s[foo]", "%s[/a/]", "any3()[%s]", "%s['a']", "%s[0].a", "[%s,%s]"} {
			add(false, "%s", strings.ReplaceAll(f, "%s", o))
		}
	}
	for _, o := range []string{"1", "8388607", "4194304", "-4194305", "9223372036854775807", "1.5", "'s'", `"s"`, "true", "false", "null", "@", "$", "@.a.b", "$.a[0]", "@[1]", "@['a']", "@.length", "(1)"} {
		add(false, "%s", o)
	}
	for _, f := range funcNames(P) {
		add(true, "%s()", f)
		add(true, "%s(any1())", f)
		add(true, "%s(foo)", f)
		add(true, "%s(/a/)", f)
		add(true, "%s([])", f)
		add(true, "%s([any1(),any2()])", f)
		add(true, "%s(any1(),any2())", f)
		add(true, "%s(foo,/a/)", f)
		add(true, "%s(/a/,foo)", f)
		add(true, "%s(any1(),any2(),any3())", f)
	}
	add(true, "nosuch(1)")
	return ts
}

// genTmpls is the family of expressions the checks of evaluation go through.
func genTmpls(P *Prog, thorough bool) []genT {
	ts := []genT{{"$", false}, {"$..['a',-1,b,1:3]", false}}
	for _, s := range genSteps {
		ts = append(ts, genT{"$" + s, false})
	}
	for _, s := range genHoles {
		ts = append(ts, genT{"$" + s, false})
		if thorough || !strings.Contains(s, "'a'") {
			ts = append(ts, genT{"$.*" + s, false})
		}
	}
	class := map[string]bool{}
	for _, a := range genClass {
		class[a] = true
	}
	for _, a := range genSteps {
		for _, b := range genSteps {
			if !thorough && !class[a] && !class[b] {
				continue
			}
			ts = append(ts, genT{"$" + a + b, false})
		}
	}
	for _, x := range genExprs(P) {
		ts = append(ts, genT{"$[?(" + x.text + ")]", x.mayErr}, genT{"$[(" + x.text + ")]", x.mayErr})
		if thorough {
			ts = append(ts, genT{"$.(" + x.text + ")", x.mayErr}, genT{"$..[?(" + x.text + ")]", x.mayErr}, genT{"$..[(" + x.text + ")]", x.mayErr})
		}
	}
	if thorough {
		for _, a := range genClass {
			for _, b := range genClass {
				for _, c := range genClass {
					ts = append(ts, genT{"$" + a + b + c, false})
				}
			}
		}
	}
	return ts
}

// funcNames lists the functions expressions can call: those documented, and those in the program's table when it can be found.
func funcNames(P *Prog) []string {
	var r []string
	for f := range arity {
		r = append(r, f)
	}
	sort.Strings(r)
	return r
}

// genJob follows one expression on an arbitrary document; f looks at the outcomes, g at the rest of what was recorded.
func genJob(t genT, f func(s *Suite, o *RunOut), g func(s *Suite)) *Job {
	return &Job{Name: t.text, Run: func(P *Prog, r *Result) {
		s := newSuite(P, r)
		for _, n := range []string{"any1", "any2", "any3"} {
			n := n
			s.any[n] = func(st *State) []*valState {
				return []*valState{{st, freshOpq(n, machMask|typeBit(s.e.errT), "any")}}
			}
		}
		root := func(st *State) Value { return freshOpq("doc", docMask, "doc") }
		tm := &Tmpl{text: t.text}
		if strings.Contains(t.text, fmt.Sprint(holeBase)[:3]) {
			// integers of any value
			tm.holes = map[int64]Value{}
			for i := int64(1); i <= 3; i++ {
				tm.holes[holeBase+i] = Lin{freshInt("H", minI, maxI), 0}
			}
		}
		acc, rej := s.run(tm, root, runOpt{}, func(o *RunOut) {
			if f != nil {
				f(s, o)
			}
		})
		if acc == 0 {
			r.viol("coverage", t.text, "", fmt.Sprintf("%s: accepted on %d paths, rejected on %d", t.text, acc, rej), "")
		}
		r.Count["expressions"]++
		if g != nil {
			g(s)
		} else {
			s.undecided()
		}
		s.cover()
	}}
}

func genJobs(P *Prog, thorough bool, f func(s *Suite, o *RunOut), g func(s *Suite)) []*Job {
	var js []*Job
	for _, t := range genTmpls(P, thorough) {
		js = append(js, genJob(t, f, g))
	}
	return js
}

// events turns recorded events of some kinds into violations.
func (s *Suite) eventsAre(kinds string) {
	var ks []string
	for k := range s.e.events {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		ev := s.e.events[k]
		for _, f := range strings.Fields(kinds) {
			if ev.Rule == f {
				text, _, _ := strings.Cut(ev.Text, " [")
				s.r.viol(ev.Rule, ev.Fn, ev.Pos, text, ev.Text)
			}
		}
	}
	s.r.Count["kinds of effect looked for"] = len(strings.Fields(kinds))
}

// docVal tells whether a value is certainly the document or part of it.
func (s *Suite) docVal(st *State, v Value) bool {
	isDoc := func(y Sym) bool { return info(y).prov == "doc" }
	arg := func(y Sym) bool {
		i := info(y)
		if len(i.args) == 0 {
			return false
		}
		o, ok := i.args[0].(Opq)
		return ok && isDoc(o.S)
	}
	switch v := v.(type) {
	case Opq:
		return isDoc(v.S)
	case Uni:
		for _, a := range v.A {
			if !s.docVal(st, a) {
				return false
			}
		}
		return true
	case Ifc:
		switch x := v.V.(type) {
		case Bl:
			return x.S != 0 && info(x.S).op == "ob" && arg(x.S)
		case Lin:
			return x.B != 0 && x.K == 0 && info(x.B).op == "oi" && arg(x.B)
		case Flt:
			return info(x.S).op == "of" && arg(x.S)
		case Str:
			return info(x.S).op == "os" && arg(x.S)
		case MapV:
			return x.O.isVirt() && isDoc(x.O.name().virt)
		case Slc:
			if !x.O.isVirt() || !isDoc(x.O.name().virt) {
				return false
			}
			ol := opqTermV("ol", x.O.name().virt, nil).(Lin)
			k, ok := st.cval(x.Off)
			return ok && k == 0 && st.leq(x.Len, ol) && st.leq(ol, x.Len)
		}
	}
	return false
}

func (s *Suite) alts(v Value) []Value {
	if u, ok := v.(Uni); ok {
		return u.A
	}
	return []Value{v}
}

func init() {
	none := func(s *Suite, o *RunOut) {}
	register(&CheckDef{ID: "C02",
		Rule: "every operation that can panic (nil dereference, index, slice bounds, type assertion, division, shift, map or slice creation, comparison of uncomparable values, explicit panic, close or send on a closed channel) reached by the abstract interpretation of Eval, for each kind of expression on an arbitrary document, is proved not to.",
		Jobs: func(P *Prog, th bool) []*Job {
			return genJobs(P, th, none, func(s *Suite) { s.collect(nil) })
		},
		Min: map[string]int{"expressions": 600},
	})
	register(&CheckDef{ID: "C03",
		Rule: "no store, append, copy, sort or map update reached by the abstract interpretation of Eval, for each kind of expression on an arbitrary document, has the storage of the document (or storage that may be the document's) as its target.",
		Jobs: func(P *Prog, th bool) []*Job {
			return genJobs(P, th, none, func(s *Suite) { s.undecided(); s.eventsAre("write-doc write-unknown") })
		},
		Min: map[string]int{"expressions": 600},
	})
	register(&CheckDef{ID: "C04",
		Rule: "no store, append, copy, sort or map update reached by the abstract interpretation of Eval, for each kind of expression on an arbitrary document, has as its target storage that existed before Eval was called (the compiled path, its program, package-level variables), nor storage lent to a goroutine that has not finished with it.",
		Jobs: func(P *Prog, th bool) []*Job {
			return genJobs(P, th, none, func(s *Suite) { s.undecided(); s.eventsAre("write-prog write-global write-shared go-shape") })
		},
		Min: map[string]int{"expressions": 600},
	})
	register(&CheckDef{ID: "C05",
		Rule: "on every path of Eval, for each kind of expression on an arbitrary document, each element of the result is a term standing for the document or a part of it.",
		Jobs: func(P *Prog, th bool) []*Job {
			return genJobs(P, th, func(s *Suite, o *RunOut) {
				for _, v := range s.alts(o.vals) {
					sl, ok := v.(Slc)
					if !ok {
						continue
					}
					cs, d := s.e.contents(o.st, sl)
					for _, c := range cs {
						s.r.Count["result elements"]++
						if !s.docVal(o.st, c.V) {
							s.r.viol("invented", "", "", "a result is not part of the document", s.e.show(o.st, c.V))
						}
					}
					if d != nil {
						s.r.Count["result elements"]++
						if !s.docVal(o.st, d) {
							s.r.viol("invented", "", "", "a result is not part of the document", s.e.show(o.st, d))
						}
					}
				}
			}, nil)
		},
		Min: map[string]int{"expressions": 600, "result elements": 500},
	})
	register(&CheckDef{ID: "C06",
		Rule: "on every path of Eval, for each kind of expression on an arbitrary document, the result's array is an object created by this Eval, not reachable from the compiled path, a package-level variable or another result, and not the storage of the document.",
		Jobs: func(P *Prog, th bool) []*Job {
			return genJobs(P, th, func(s *Suite, o *RunOut) {
				for _, v := range s.alts(o.vals) {
					if sl, ok := v.(Slc); ok {
						s.r.Count["result arrays"]++
						if why := s.notFresh(o.st, sl); why != "" {
							s.r.viol("shared-result", "", "", "the result's storage is not the caller's alone", why)
						}
					} else if _, ok := v.(Nil); !ok {
						s.r.viol("shared-result", "", "", "unknown result", vStr(v))
					}
				}
			}, nil)
		},
		Min: map[string]int{"expressions": 600, "result arrays": 500},
	})
	register(&CheckDef{ID: "C08",
		Rule: "each goroutine Eval starts is the only sender on one channel, closes it on every path, and on every path by which Eval returns (with results or an error) that channel has been received from until closed, for each kind of expression on an arbitrary document.",
		Jobs: func(P *Prog, th bool) []*Job {
			return genJobs(P, th, func(s *Suite, o *RunOut) {
				for id, x := range o.st.heap.m {
					if x.kind == 'h' && x.ch.Started {
						s.r.Count["goroutines started"]++
						if !x.ch.Drained {
							s.r.viol("goroutine-left", "", id.String(), "Eval may return while a goroutine it started is still sending", vStr(o.vals)+" "+vStr(o.err))
						}
					}
				}
			}, func(s *Suite) {
				s.undecided()
				s.eventsAre("chan-noclose chan-block chan-unknown go-shape")
			})
		},
		Min: map[string]int{"expressions": 600},
	})
	register(&CheckDef{ID: "C12",
		Rule: "for each kind of expression, on an arbitrary document, no path of Eval meets an operation without implementation, a missing operand or a bad branch, and none returns an error unless the expression contains a call, =~, in or nin.",
		Jobs: func(P *Prog, th bool) []*Job {
			var js []*Job
			for _, t := range genTmpls(P, th) {
				t := t
				js = append(js, genJob(t, func(s *Suite, o *RunOut) {
					if _, ok := o.err.(Nil); !ok && !t.mayErr {
						s.r.viol("error", t.text, "", "evaluation of "+t.text+" may come back with an error", s.e.show(o.st, o.err))
					}
				}, func(s *Suite) { s.collect(nil) }))
			}
			return js
		},
		Min: map[string]int{"expressions": 600},
	})
}

// notFresh says why the storage of a result might be somebody else's, or nothing.
func (s *Suite) notFresh(st *State, sl Slc) string {
	if sl.O == 0 {
		return ""
	}
	if sl.O.isVirt() {
		return "it is storage of " + sl.O.String()
	}
	x := s.e.obj(st, sl.O)
	if x == nil {
		return "it is unknown"
	}
	if x.flags&(flDoc|flProg|flGlobal|flShared|flInput) != 0 {
		return fmt.Sprintf("%s existed before this Eval or is lent", sl.O.String())
	}
	// reachable from what outlives Eval
	seen := map[ObjID]bool{}
	var visit func(v Value)
	bad := false
	visit = func(v Value) {
		forObjs(v, func(o ObjID) {
			if o == sl.O {
				bad = true
			}
			if seen[o] {
				return
			}
			seen[o] = true
			if y := s.e.obj(st, o); y != nil {
				y.forVals(visit)
			}
		})
	}
	for o, y := range st.heap.m {
		if y.flags&(flGlobal|flProg) != 0 && !seen[o] {
			seen[o] = true
			y.forVals(visit)
		}
	}
	if bad {
		return sl.O.String() + " can be reached from the compiled path or a package-level variable"
	}
	return ""
}

// undecided reports only what kept the analysis from being complete.
func (s *Suite) undecided() { s.collect(func(o *Oblig) bool { return true }) }

func (s *Suite) cover() {}

var _ = types.Identical
