package main

// C26: $ is the whole document and @ the candidate.

import (
	"fmt"
	"strings"
)

// atForms put observations of @ and $ at different places of an expression; each is evaluated exactly once per candidate.
// In obs(k, @, $, rest...) the rest, two by two, must be the same @ and $ again.
var atForms = []string{
	"obs(1,@,$)",
	"obs(1,@,$,@,$)",
	"obs(1,@,$) && true",
	"obs(1,@,$) || false",
	"!obs(1,@,$)",
	"1 in [1,@.a,$.a] && obs(1,@,$)",
	"(@.a || $.a || 1) && obs(1,@,$)",
	"(@ == $ || 1) && obs(1,@,$)",
	"($.a == @.a) == obs(1,@,$)",
	"1 + length(@) == 2 || obs(1,@,$) || obs(2,@,$)",
	"[$.a,@.a] == [obs(1,@,$),@['a']]",
	"obs(2,@,$,@,$) || obs(1,@,$)",
	"obs(2,@,$) && obs(1,@,$)",
	"obs(1,@,$,@,$) in [obs(2,@,$),keys(@),keys($)]",
	"count([@,$,obs(1,@,$)]) > 1",
}

// atPrefixes come before the step under observation.
var atPrefixes = [][]sstep{
	nil, {one("[*]", wildT{})}, {one(".a", "a")}, {nest("..a", "a")}, {nest("..*", wildT{})}, {one("[1,0]", 1, 0)}, {one(".a", "a"), one("[*]", wildT{})},
	{{text: "[?(true)]", all: true}}, {{text: "..[?(true)]", all: true, nest: true}},
}

// atStep is the step under observation, around an expression.
type atStep struct {
	form string
	nest bool
}

var atSteps = []atStep{
	{"[?(%s)]", false}, {"..[?(%s)]", true}, {"..[(%s)]", true}, {"..(%s)", true},
}

// atJob checks what obs sees against the candidates of the document's shape.
func atJob(d Doc, pre []sstep, st atStep, form string) *Job {
	text := "$"
	for _, p := range pre {
		text += p.text
	}
	text += fmt.Sprintf(st.form, form)
	name := text + " on " + docText(d)
	return &Job{Name: name, Run: func(P *Prog, r *Result) {
		s := newSuite(P, r)
		d := strLeaves(nameLeaves(d, "root"))
		s.traced(nil, func(t *State, args []Value) {
			r.Count["observations"]++
			at := s.nameOf(t, args[1])
			for i := 1; i < len(args); i++ {
				n := s.nameOf(t, args[i])
				if i%2 == 0 && n != "root" && !(n == "?" && !isStruct(d)) {
					r.viol("root", name, "", "in "+name+" $ is not the document", s.e.show(t, args[i]))
				}
				if i%2 == 1 && n != at {
					r.viol("candidate", name, "", "in "+name+" @ changes within one evaluation", s.e.show(t, args[i])+" after "+at)
				}
			}
		})
		if form != atForms[0] {
			// what is decided on one candidate matters to the others in one form only
			obs := s.obs
			s.obs = func(fr *Frame, st *State, args []Value) Value {
				obs(fr, st, args)
				return Ifc{boolT, cBool(true)}
			}
		}
		cur := nseq{{node{"root", d}}}
		for _, p := range pre {
			if p.all {
				cur = cur.cands(p)
			} else {
				cur = cur.step(p)
			}
		}
		cand := cur.cands(sstep{nest: st.nest})
		n := 0
		acc, _ := s.run(&Tmpl{text: text}, func(st *State) Value { return s.build(st, d, "root", flDoc) }, runOpt{concrete: true}, func(o *RunOut) {
			n++
			if _, ok := o.err.(Nil); !ok {
				return
			}
			for k := 1; k <= 2; k++ {
				if (k == 2) != strings.HasPrefix(form, "obs(2") || strings.HasPrefix(form, "1 + length") {
					continue // evaluated only for some of the candidates
				}
				names, why := s.seen(o.st, k)
				if why == "" && !cand.has(names) {
					why = fmt.Sprintf("@ is %v in turn, not %s", names, cand)
				}
				if why != "" {
					r.viol("candidates", name, "", "in "+name+" @ is something else than the candidates in turn", why)
				}
				r.Count["sequences of candidates compared"]++
			}
		})
		if acc == 0 || n == 0 {
			r.viol("coverage", name, "", name+" is not evaluated", "")
		}
		r.Count["expressions on shapes"]++
		s.undecided()
	}}
}

// besides puts every function and operator before an observation.
func besides(P *Prog) []string {
	var r []string
	call := func(f string, args ...string) {
		r = append(r, fmt.Sprintf("(%s(%s) || 1) && obs(1,@,$,@,$)", f, strings.Join(args, ",")))
	}
	for _, f := range funcNames(P) {
		switch arity[f] {
		case -1:
			call(f)
			call(f, "1")
			call(f, "@", "$")
		case 1:
			call(f, "@")
			call(f, "1")
			call(f, "$")
		case 2:
			if f == "tokenize" { // a loop over the text
				call(f, "1", "2")
				continue
			}
			call(f, "@", "'a'")
			call(f, "'a'", "$.a")
			call(f, "$", "@")
		default:
			call(f, "@", "1", "2")
		}
	}
	for _, op := range binOps {
		switch op {
		case "=~":
			r = append(r, "('a' =~ /b/ || 1) && obs(1,@,$,@,$)")
		case "in", "nin":
			r = append(r, "(@ "+op+" [1] || 1) && obs(1,@,$,@,$)")
		default:
			r = append(r, "((@.a "+op+" $.a) || 1) && obs(1,@,$,@,$)", "((1 "+op+" 2) || 1) && obs(1,@,$,@,$)")
		}
	}
	for _, x := range []string{"-1", "!@", "@.length", "$.length", "@.a", "@['a']", "@[0]", "$[0]", "[]", "[1]", "null", "true", "'s'", "/a/", "1.5", "8388607", "foo"} {
		r = append(r, "("+x+" || 1) && obs(1,@,$,@,$)")
	}
	return r
}

// strLeaves makes every leaf an arbitrary string.
func strLeaves(d Doc) Doc {
	switch d := d.(type) {
	case DAny:
		return DAny{d.Name, "string string"}
	case DArr:
		r := DArr{}
		for _, c := range d {
			r = append(r, strLeaves(c))
		}
		return r
	case DMap:
		r := DMap{}
		for _, m := range d {
			r = append(r, DMem{m.K, strLeaves(m.V)})
		}
		return r
	}
	return d
}

// seen gives the candidates obs(k, ...) saw.
func (s *Suite) seen(st *State, k int) (names []string, why string) {
	t, ok := st.gh.get(fmt.Sprintf("trace%d", k))
	if !ok {
		return
	}
	vs := t.(Tup).V
	for i := 0; i < len(vs); i += 2 {
		n := s.nameOf(st, vs[i])
		if n == "" {
			return nil, "@ is " + s.e.show(st, vs[i])
		}
		names = append(names, n)
	}
	return
}

// outJob checks that outside filters and recursive steps @ has no member.
func outJob(d Doc, pre string, form string) *Job {
	text := "$" + pre + form
	name := text + " on " + docText(d)
	return &Job{Name: name, Run: func(P *Prog, r *Result) {
		s := newSuite(P, r)
		d := strLeaves(nameLeaves(d, "root"))
		obs := 0
		s.traced(nil, func(t *State, args []Value) {
			obs++
			r.Count["observations"]++
			if v, ok := args[1].(Ifc); !ok || !s.e.isErr(v.T) {
				r.viol("outside", name, "", "in "+name+" @ has a member", s.e.show(t, args[1]))
			}
			if n := s.nameOf(t, args[2]); n != "root" && !(n == "?" && !isStruct(d)) {
				r.viol("root", name, "", "in "+name+" $ is not the document", s.e.show(t, args[2]))
			}
		})
		acc, _ := s.run(&Tmpl{text: text}, func(st *State) Value { return s.build(st, d, "root", flDoc) }, runOpt{concrete: true}, nil)
		if acc == 0 || obs == 0 {
			r.viol("coverage", name, "", name+" is not evaluated", "")
		}
		r.Count["expressions outside candidates"]++
		s.undecided()
	}}
}

// anyRootJob checks, on a document of unknown content, that $ is the document and that @ does not change within one evaluation.
func anyRootJob(text string) *Job {
	return &Job{Name: text, Run: func(P *Prog, r *Result) {
		s := newSuite(P, r)
		obs := 0
		s.obs = func(fr *Frame, st *State, args []Value) Value {
			obs++
			if len(args) < 3 {
				return nil
			}
			doc, _ := st.gh.get("doc")
			for i := 1; i < len(args); i++ {
				if i%2 == 0 {
					if same, why := s.e.same(st, args[i], doc); !same && !sameVal(args[i], doc) {
						r.viol("root", text, "", "in "+text+" $ is not the document", s.e.show(st, args[i])+" "+why)
					}
				} else if same, _ := s.e.same(st, args[i], args[1]); !same && !sameVal(args[i], args[1]) {
					r.viol("candidate", text, "", "in "+text+" @ changes within one evaluation", s.e.show(st, args[i]))
				}
			}
			return Ifc{boolT, freshBool("keep")}
		}
		acc, _ := s.run(&Tmpl{text: text}, func(st *State) Value {
			doc := freshOpq("doc", docMask, "doc")
			st.gh.set("doc", doc)
			return doc
		}, runOpt{}, nil)
		if acc == 0 { // after some steps there are no candidates
			r.viol("coverage", text, "", text+" is not evaluated", "")
		}
		r.Count["observations"] += obs
		r.Count["expressions on unknown documents"]++
		s.undecided()
	}}
}

func init() {
	register(&CheckDef{ID: "C26",
		Rule: "wherever obs(@,$) stands in a filter, in a recursive step's computed selector, before, after and inside other expressions and calls, on documents of each shape in a family, the sequence of values @ takes is one of the candidate sequences of the shape and $ is the document; outside them @.a and @['a'] are missing; on documents of unknown content $ is the document at every evaluation.",
		Jobs: func(P *Prog, th bool) []*Job {
			var js []*Job
			fits := func(d Doc, pre []sstep, st atStep) (ok bool) {
				defer func() {
					if recover() != nil {
						ok = false
					}
				}()
				cur := nseq{{node{"root", nameLeaves(d, "root")}}}
				for _, p := range pre {
					if p.all {
						cur = cur.cands(p)
					} else {
						cur = cur.step(p)
					}
				}
				cur = cur.cands(sstep{nest: st.nest})
				return len(cur) <= 60 && len(cur[0]) <= 5
			}
			for di, d := range selDocs[1:] {
				for pi, pre := range atPrefixes {
					for si, st := range atSteps {
						if !fits(d, pre, st) {
							continue
						}
						for fi, f := range atForms {
							if !th && (di+pi+si+fi)%5 != 0 && !(pi == 0 && si < 2 && di > 6 && di < 11) {
								continue
							}
							if si >= 2 && strings.Contains(f, "obs(2,@,$) &&") {
								continue
							}
							js = append(js, atJob(d, pre, st, f))
						}
					}
				}
			}
			for _, d := range selDocs[1:] {
				for _, pre := range []string{"", "[*]", ".a", "[?(true)]", "..[?(true)]", "..a", "..[(0)]", "[?(@.a)]"} {
					for _, f := range []string{"[(obs(1,@.a,$))]", ".(obs(1,@.a,$))", "[(obs(1,@['a'],$))]"} {
						js = append(js, outJob(d, pre, f))
					}
				}
			}
			for i, f := range besides(P) {
				for j, st := range atSteps {
					for k, d := range []Doc{selDocs[5], selDocs[4], selDocs[9]} {
						if th || (i+j+k)%4 == 0 || j == 0 && k == 0 {
							js = append(js, atJob(d, nil, st, f))
						}
					}
				}
			}
			for _, pre := range append([]string{""}, genSteps...) {
				for _, st := range []string{"[?(%s)]", "..[?(%s)]", "..[(%s)]"} {
					for i, f := range []string{"obs(1,@,$,@,$)", "obs(1,@,$,@,$) && obs(1,@,$)"} {
						if i > 0 && pre != "" && !th {
							continue
						}
						js = append(js, anyRootJob("$"+pre+fmt.Sprintf(st, f)))
					}
				}
				js = append(js, anyRootJob("$"+pre+"[(obs(1,$,$))]"))
			}
			return js
		},
		Min: map[string]int{"expressions on shapes": 500, "sequences of candidates compared": 1000, "expressions outside candidates": 300, "expressions on unknown documents": 100, "observations": 3000},
	})
}
