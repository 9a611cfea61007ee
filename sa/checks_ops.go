package main

// C14-C17, C21: operators and functions against the reference semantics.

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var specOf = map[string]string{"+": "Add", "-": "Sub", "*": "Mul", "/": "Div", "%": "Mod", "<": "LT", "<=": "LE", ">=": "GE", ">": "GT",
	"==": "EQ", "!=": "NE", "||": "Or", "&&": "And"}

var oneElem = func(s *Suite) func(st *State) Value {
	return func(st *State) Value { return s.build(st, DArr{nil}, "root", flDoc) }
}

// mustNotFail: an expression whose evaluation may not come back with an error.
func (s *Suite) mustNotFail(what string) func(o *RunOut) {
	return func(o *RunOut) {
		if _, ok := o.err.(Nil); !ok {
			s.r.viol("error", what, "", what+": evaluation may come back with an error", s.e.show(o.st, o.err))
		}
	}
}

// binJob compares a op b with the reference for operands of the given kinds.
func binJob(op, ka, kb string) *Job {
	return &Job{Name: fmt.Sprintf("%s %s %s", ka, op, kb), Run: func(P *Prog, r *Result) {
		s := newSuite(P, r)
		s.any["any1"] = s.anyKind("a", ka)
		s.any["any2"] = s.anyKind("b", kb)
		what := fmt.Sprintf("%s %s %s", ka, op, kb)
		s.obs = func(fr *Frame, st *State, args []Value) Value {
			a, _ := st.gh.get("any1")
			b, _ := st.gh.get("any2")
			s.against(fr, st, what, args[0], specOf[op], a, b)
			return nil
		}
		s.run(&Tmpl{text: "$[?(obs(any1() " + op + " any2()))]"}, oneElem(s), runOpt{concrete: true}, s.mustNotFail(what))
		if s.n == 0 {
			r.viol("coverage", what, "", what+" is never evaluated", "")
		}
		r.Count["operand kind combinations"]++
		s.finish()
	}}
}

func unJob(text, fn, ka string) *Job {
	return &Job{Name: strings.ReplaceAll(text, "any1()", ka), Run: func(P *Prog, r *Result) {
		s := newSuite(P, r)
		s.any["any1"] = s.anyKind("a", ka)
		what := strings.ReplaceAll(text, "any1()", ka)
		s.obs = func(fr *Frame, st *State, args []Value) Value {
			a, _ := st.gh.get("any1")
			s.against(fr, st, what, args[0], fn, a)
			return nil
		}
		s.run(&Tmpl{text: "$[?(obs(" + text + "))]"}, oneElem(s), runOpt{concrete: true}, s.mustNotFail(what))
		if s.n == 0 {
			r.viol("coverage", what, "", what+" is never evaluated", "")
		}
		r.Count["operand kind combinations"]++
		s.finish()
	}}
}

func opJobs(ops ...string) []*Job {
	var js []*Job
	for _, op := range ops {
		for _, a := range kindNames {
			for _, b := range kindNames {
				js = append(js, binJob(op, a, b))
			}
		}
	}
	return js
}

func init() {
	register(&CheckDef{ID: "C14",
		Rule: "for every pair of operand kinds, the value the program computes for a+b, a-b, a*b, a/b, a%b and -a (abstract interpretation of Compile and Eval on an expression with arbitrary operands) is, on every path, the same term as the reference semantics gives for those operands.",
		Jobs: func(P *Prog, thorough bool) []*Job {
			js := opJobs("+", "-", "*", "/", "%")
			for _, k := range []string{"bool", "int64", "float64"} {
				js = append(js, unJob("-any1()", "Neg", k))
			}
			return js
		},
		Min: map[string]int{"operand kind combinations": 5*64 + 3, "comparisons with the reference": 5*64 + 3},
	})
	register(&CheckDef{ID: "C15",
		Rule: "for every pair of operand kinds, the value the program computes for a<b, a<=b, a>=b and a>b is, on every path, the value the reference semantics gives.",
		Jobs: func(P *Prog, thorough bool) []*Job { return opJobs("<", "<=", ">=", ">") },
		Min:  map[string]int{"operand kind combinations": 4 * 64, "comparisons with the reference": 4 * 64},
	})
}

var _ ssa.Value
