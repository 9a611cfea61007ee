package main

// C20: evaluation is deterministic up to the order of members.

import (
	"fmt"
	"sort"
	"strings"
)

// print gives a text for a value of known content, the same for equal values.
func (s *Suite) print(st *State, v Value, depth int) string {
	if depth > 8 {
		return "..."
	}
	switch v := v.(type) {
	case Nil:
		return "null"
	case Ifc:
		if s.e.isErr(v.T) {
			return "nothing"
		}
		switch x := v.V.(type) {
		case Slc:
			els, why := s.e.listOf(st, x)
			if why != "" {
				return "array?" + s.e.show(st, v)
			}
			var r []string
			for _, e := range els {
				r = append(r, s.print(st, e, depth+1))
			}
			return "[" + strings.Join(r, ",") + "]"
		case MapV:
			o := s.e.obj(st, x.O)
			if o == nil || o.kind != 'm' {
				return "object?" + s.e.show(st, v)
			}
			var r []string
			for _, m := range o.ents {
				r = append(r, s.print(st, Ifc{stringT, m.K}, depth+1)+":"+s.print(st, m.V, depth+1))
			}
			sort.Strings(r)
			return "{" + strings.Join(r, ",") + "}"
		}
	}
	return s.e.show(st, v)
}

// many tells whether a document has an object with more than one member.
func many(d Doc) bool {
	switch d := d.(type) {
	case DArr:
		for _, c := range d {
			if many(c) {
				return true
			}
		}
	case DMap:
		if len(d) > 1 {
			return true
		}
		for _, m := range d {
			if many(m.V) {
				return true
			}
		}
	}
	return false
}

// detJob compares the outcomes of an expression on a document over all orders of members and schedules.
func detJob(text string, d Doc) *Job {
	name := text + " on " + docText(d)
	return &Job{Name: name, Run: func(P *Prog, r *Result) {
		s := newSuite(P, r)
		s.obs = func(fr *Frame, st *State, args []Value) Value {
			var t Tup
			if old, ok := st.gh.get("trace"); ok {
				t.V = append(t.V, old.(Tup).V...)
			}
			t.V = append(t.V, args...)
			st.gh.set("trace", t)
			return Ifc{boolT, cBool(true)}
		}
		n := 0
		var first, firstSeq string
		acc, _ := s.run(&Tmpl{text: text}, func(st *State) Value { return s.build(st, d, "root", flDoc) }, runOpt{concrete: true}, func(o *RunOut) {
			n++
			var bag, seq []string
			if _, ok := o.err.(Nil); !ok {
				bag = append(bag, "error")
			} else if _, ok := o.vals.(Nil); !ok {
				sl, ok := o.vals.(Slc)
				if !ok {
					r.viol("undecided", name, "", "the results of "+name+" are not known", vStr(o.vals))
					return
				}
				els, why := s.e.listOf(o.st, sl)
				if why != "" {
					r.viol("undecided", name, "", "the results of "+name+" are not known", why)
					return
				}
				for _, e := range els {
					bag = append(bag, s.print(o.st, e, 0))
				}
			}
			if t, ok := o.st.gh.get("trace"); ok && bag == nil || ok && bag[0] != "error" {
				for _, v := range t.(Tup).V {
					bag = append(bag, "seen "+s.print(o.st, v, 0))
				}
			}
			seq = append(seq, bag...)
			sort.Strings(bag)
			b, q := strings.Join(bag, "; "), strings.Join(seq, "; ")
			if n == 1 {
				first, firstSeq = b, q
			}
			if b != first {
				r.viol("results", name, "", name+" gives different results from one run to the next", fmt.Sprintf("%s, or %s", first, b))
			} else if !many(d) && q != firstSeq {
				r.viol("order", name, "", name+" gives its results in different orders", fmt.Sprintf("%s, or %s", firstSeq, q))
			}
		})
		if acc == 0 || n == 0 {
			r.viol("coverage", name, "", name+" is not evaluated", "")
		}
		r.Count["outcomes compared"] += n
		r.Count["expressions on documents"]++
		s.undecided()
		s.eventsAre("write-prog write-global write-shared go-shape chan-unknown")
	}}
}

var detDocs = []Doc{
	DMap{{"a", int64(1)}, {"b", "s"}, {"c", nil}},
	DMap{{"a", DMap{{"a", 1.5}, {"b", "t"}}}, {"b", DMap{{"a", 1.5}, {"b", "t"}, {"c", true}}}},
	DMap{{"a", DArr{2.5, "x"}}, {"b", DArr{"x", 2.5, "y"}}},
	DArr{DMap{{"a", 1.5}, {"b", 2.5}}, DMap{{"b", 2.5}, {"a", 1.5}}, "z"},
	DArr{DArr{1.5, 2.5}, DArr{3.5}, "s", nil, DMap{{"a", "q"}}},
	DMap{{"a", DMap{{"a", DArr{1.5}}, {"b", nil}}}, {"b", 4.5}},
	DMap{{"a", DMap{{"x", 1.5}, {"y", 2.5}, {"z", "s"}}}, {"b", DMap{{"x", 1.5}, {"y", 2.5}, {"z", "t"}}}},
	DArr{1.5, "s", int64(2)},
}

func detExprs(P *Prog) []string {
	var r []string
	add := func(f string, a ...interface{}) { r = append(r, fmt.Sprintf(f, a...)) }
	for _, f := range funcNames(P) {
		switch arity[f] {
		case -1:
			add("%s(@,$.a,1)", f)
			add("%s(@)", f)
		case 1:
			add("%s(@)", f)
			add("%s($)", f)
			add("%s([@,1,2])", f)
		case 2:
			if f == "tokenize" { // a loop over the text
				add("%s(@,1)", f)
				continue
			}
			add("%s(@,$.a)", f)
			add("%s($,true)", f)
			add("%s('x','x')", f)
		default:
			add("%s(@,1,2)", f)
		}
	}
	for _, op := range binOps {
		if op == "=~" {
			continue
		}
		add("@ %s $", op)
		add("@.a %s $.b", op)
		add("@ %s [@,$.a]", op)
		add("[$.a,@] %s [$.b,$.a]", op)
	}
	add("$.a == $.b")
	add("$[0] == $[1]")
	add("@.length + $.length")
	add("!@")
	add("-@.a")
	add("@['a']")
	add("@[0]")
	add("[@,[$,@.a]]")
	add("length(keys(@))")
	add("keys(@) == keys($)")
	return r
}

func init() {
	register(&CheckDef{ID: "C20",
		Rule: "for each kind of step and pair of steps, and each operator and function applied to whole objects, on documents whose objects have several members, the abstract interpretation that follows every order of members (in each range over a map apart) and every order of goroutine steps ends with the same error-ness and the same bag of results and of computed values, in the same order where no object has several members; no outside function without a deterministic model is called, and nothing an earlier evaluation could have left behind is written (the compiled path, package variables). Beside that, for every loop over a map in the packages that evaluate: no value carried round or out of the loop, and no store made in it, depends on the order (appending, sending and adding integers apart; all early exits give the same constants; the order of a map made on the way does not reach a sequence unless it is sorted).",
		Jobs: func(P *Prog, th bool) []*Job {
			js := []*Job{orderJob()}
			for i, d := range detDocs {
				for _, a := range append([]string{"[1,0]", "[0,1,2]", "['b','a']", "..[1,0]", "['']", "['','a']", "[?(true)]", "..[?(true)]", "[?(@.a)]", "..[?(@.b)]"}, genSteps...) {
					js = append(js, detJob("$"+a, d))
				}
				for j, a := range genClass {
					if i == 6 {
						break // three members twice: too many orders for pairs of steps
					}
					for k, b := range genClass {
						if th || (i+j+k)%3 == 0 {
							js = append(js, detJob("$"+a+b, d))
						}
					}
				}
				for _, x := range detExprs(P) {
					js = append(js, detJob("$[?(obs(@,"+x+"))]", d))
					if th {
						js = append(js, detJob("$..[?(obs(@,"+x+"))]", d))
					}
				}
			}
			seen := map[string]bool{}
			for _, x := range genExprs(P) {
				t := genT{"$[?(" + x.text + ")]", x.mayErr}
				if !seen[t.text] {
					seen[t.text] = true
					js = append(js, genJob(t, nil, func(s *Suite) {
						s.undecided()
						s.eventsAre("write-prog write-global write-shared go-shape chan-unknown")
					}))
				}
			}
			return js
		},
		Min: map[string]int{"expressions on documents": 600, "outcomes compared": 3000, "expressions": 200},
	})
}
