package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// shaped operand kinds
type opnd struct {
	name string
	mk   func(s *Suite, st *State, tag string) Value
}

func kindOp(k string) opnd {
	return opnd{k, func(s *Suite, st *State, tag string) Value { return s.kindVal(st, tag, k) }}
}

func shapeOp(name string, d func(tag string) Doc) opnd {
	return opnd{name, func(s *Suite, st *State, tag string) Value { return s.build(st, d(tag), "op"+tag, flDoc) }}
}

func elt(tag, k string) Doc {
	if k == "nil" {
		return nil
	}
	return DAny{tag + k, k}
}

func arrOp(ks ...string) opnd {
	return shapeOp("["+strings.Join(ks, ",")+"]", func(tag string) Doc {
		a := DArr{}
		for i, k := range ks {
			a = append(a, elt(fmt.Sprint(tag, i), k))
		}
		return a
	})
}

func objOp(kvs ...string) opnd { // "a:kind"
	return shapeOp("{"+strings.Join(kvs, ",")+"}", func(tag string) Doc {
		m := DMap{}
		for _, kv := range kvs {
			k, v, _ := strings.Cut(kv, ":")
			m = append(m, DMem{k, elt(tag+k, v)})
		}
		return m
	})
}

var primKinds = []string{"nil", "bool", "int64", "float64", "string", "missing"}

func isNumK(k string) bool { return k == "int64" || k == "float64" }

// eqJob compares a op b with the reference (when given) and with b op a.
func eqJob(a, b opnd, ref bool) *Job {
	name := a.name + " == " + b.name
	return &Job{Name: name, Run: func(P *Prog, r *Result) {
		s := newSuite(P, r)
		s.any["any1"] = func(st *State) []*valState {
			if v, ok := st.gh.get("any1"); ok {
				return []*valState{{st, v}}
			}
			return []*valState{{st, a.mk(s, st, "a")}}
		}
		s.any["any2"] = func(st *State) []*valState {
			if v, ok := st.gh.get("any2"); ok {
				return []*valState{{st, v}}
			}
			return []*valState{{st, b.mk(s, st, "b")}}
		}
		s.obs = func(fr *Frame, st *State, args []Value) Value {
			x, _ := st.gh.get("any1")
			y, _ := st.gh.get("any2")
			// arrays of unknown length: a sole element is another matter
			for _, v := range []Value{x, y} {
				if i, ok := v.(Ifc); ok {
					if sl, ok := i.V.(Slc); ok && sl.O.isVirt() {
						st = st.clone()
						st.neLin(sl.Len, cInt(1))
						if st.bot {
							return nil
						}
					}
				}
			}
			if ref {
				s.against(fr, st, name, args[0], "EQ", x, y)
				s.against(fr, st, a.name+" != "+b.name, args[2], "NE", x, y)
			} else {
				s.r.Count["comparisons with the reference"] += 2
			}
			if ok, why := s.e.same(st, args[0], args[1]); !ok {
				r.viol("symmetry", name, "", name+" differs from "+b.name+" == "+a.name, why)
			}
			for _, z := range s.e.splitObs(st, args[0]) {
				if p, ok := z.v.(Ifc); !ok || !types.Identical(p.T, boolT) {
					r.viol("denotation", name, "", name+" is not a boolean", vStr(z.v))
				} else if ok, why := s.e.same(z.st, args[2], Ifc{boolT, s.e.notBl(z.st, p.V.(Bl))}); !ok {
					r.viol("negation", name, "", a.name+" != "+b.name+" is not the negation of "+name, why)
				}
			}
			return nil
		}
		s.run(&Tmpl{text: "$[?(obs(any1() == any2(), any2() == any1(), any1() != any2()))]"}, oneElem(s), runOpt{concrete: true}, s.mustNotFail(name))
		if s.n == 0 {
			r.viol("coverage", name, "", name+" is never evaluated", "")
		}
		r.Count["operand kind combinations"]++
		s.finish()
	}}
}

func (e *Engine) splitObs(st *State, v Value) []*valState {
	var out []*valState
	for _, x := range e.expand(st.clone(), v) {
		if i, ok := x.v.(Ifc); ok {
			if b, ok := i.V.(Bl); ok {
				for _, s := range e.splitBool(x.st, b) {
					out = append(out, &valState{s, x.v})
				}
				continue
			}
		}
		out = append(out, x)
	}
	return out
}

func (e *Engine) notBl(st *State, b Bl) Value {
	p, ok := st.bval(b)
	if !ok {
		return freshBool("not")
	}
	return cBool(!p)
}

// inJob checks a in b and a nin b.
func inJob(a, b opnd) *Job {
	name := a.name + " in " + b.name
	return &Job{Name: name, Run: func(P *Prog, r *Result) {
		s := newSuite(P, r)
		mk := func(n string, o opnd) func(st *State) []*valState {
			return func(st *State) []*valState {
				if v, ok := st.gh.get(n); ok {
					return []*valState{{st, v}}
				}
				return []*valState{{st, o.mk(s, st, n)}}
			}
		}
		s.any["any1"], s.any["any2"] = mk("any1", a), mk("any2", b)
		s.obs = func(fr *Frame, st *State, args []Value) Value {
			x, _ := st.gh.get("any1")
			y, _ := st.gh.get("any2")
			s.against(fr, st, name, args[0], "In", x, y)
			s.against(fr, st, a.name+" nin "+b.name, args[1], "NotIn", x, y)
			return nil
		}
		s.run(&Tmpl{text: "$[?(obs(any1() in any2(), any1() nin any2()))]"}, oneElem(s), runOpt{concrete: true}, s.mustNotFail(name))
		if s.n == 0 {
			r.viol("coverage", name, "", name+" is never evaluated", "")
		}
		r.Count["operand kind combinations"]++
		s.finish()
	}}
}

func eqJobs(thorough bool) []*Job {
	var js []*Job
	for _, a := range primKinds {
		for _, b := range primKinds {
			js = append(js, eqJob(kindOp(a), kindOp(b), true))
		}
		for _, c := range []string{"array", "object"} {
			js = append(js, eqJob(kindOp(a), kindOp(c), true), eqJob(kindOp(c), kindOp(a), true))
		}
		// an array's sole element
		for _, b := range primKinds {
			ref := a == b && a != "bool" || isNumK(a) && isNumK(b)
			if a == "nil" || a == "missing" {
				ref = true // equal to nothing else
			}
			js = append(js, eqJob(kindOp(a), arrOp(b), ref))
			if ref {
				js = append(js, eqJob(arrOp(b), kindOp(a), ref))
			}
		}
		js = append(js, eqJob(kindOp(a), arrOp(), true), eqJob(kindOp(a), objOp(), true), eqJob(kindOp(a), arrOp("float64", "string"), true))
	}
	js = append(js, eqJob(kindOp("array"), kindOp("object"), true), eqJob(kindOp("object"), kindOp("array"), true))
	var shapes []opnd
	shapes = append(shapes, arrOp(), objOp())
	for _, k := range primKinds[:5] {
		shapes = append(shapes, arrOp(k), objOp("a:"+k))
	}
	shapes = append(shapes,
		arrOp("missing"), arrOp("float64", "float64"), arrOp("float64", "string"), arrOp("string", "bool"), arrOp("nil", "float64"), arrOp("float64", "float64", "float64"),
		objOp("b:float64"), objOp("a:float64", "b:float64"), objOp("b:float64", "a:float64"), objOp("a:float64", "c:nil"), objOp("a:float64", "b:nil"), objOp("b:nil"),
		shapeOp("[[number]]", func(t string) Doc { return DArr{DArr{elt(t, "float64")}} }),
		shapeOp("[[number],number]", func(t string) Doc { return DArr{DArr{elt(t, "float64")}, elt(t+"2", "float64")} }),
		shapeOp("[{a:number}]", func(t string) Doc { return DArr{DMap{{"a", elt(t, "float64")}}} }),
		shapeOp("{a:[number]}", func(t string) Doc { return DMap{{"a", DArr{elt(t, "float64")}}} }),
		shapeOp("{a:{b:string}}", func(t string) Doc { return DMap{{"a", DMap{{"b", elt(t, "string")}}}} }),
	)
	for _, a := range shapes {
		for _, b := range shapes {
			js = append(js, eqJob(a, b, !openEq(a, b)))
		}
	}
	for _, a := range primKinds {
		if a == "missing" {
			continue
		}
		for _, b := range []opnd{arrOp(), arrOp("float64"), arrOp("string", "float64"), arrOp("nil", "bool", "string")} {
			js = append(js, inJob(kindOp(a), b))
		}
	}
	js = append(js, inJob(arrOp("float64"), shapeOp("[[number],{}]", func(t string) Doc { return DArr{DArr{elt(t, "float64")}, DMap{}} })))
	return js
}

// openEq: an element compared with an array of one element is left open.
func openEq(a, b opnd) bool {
	nested := func(x opnd) bool { return strings.HasPrefix(x.name, "[[") || x.name == "{a:[number]}" }
	return nested(a) != nested(b) || nested(a) && a.name != b.name
}

func keepJob(text, kind string, keepRoot bool) *Job {
	name := "filter " + text + " of " + kind
	return &Job{Name: name, Run: func(P *Prog, r *Result) {
		s := newSuite(P, r)
		s.any["any1"] = s.anyKind("a", kind)
		n := 0
		s.run(&Tmpl{text: text}, oneElem(s), runOpt{concrete: true}, func(o *RunOut) {
			s.mustNotFail(name)(o)
			a, ok := o.st.gh.get("any1")
			if !ok {
				return
			}
			n++
			sl, ok := o.vals.(Slc)
			if !ok {
				return
			}
			kept := Value(Ifc{boolT, cBool(true)})
			if k, ok := o.st.cval(sl.Len); ok && k == 0 {
				kept = Ifc{boolT, cBool(false)}
			} else if !ok || k != 1 {
				r.viol("denotation", name, "", name+" does not select the candidate or nothing", vStr(sl))
				return
			}
			s.against(nil, o.st, name, kept, "Keep", a)
		})
		if n == 0 {
			r.viol("coverage", name, "", name+" is never evaluated", "")
		}
		r.Count["operand kind combinations"]++
		s.finish()
	}}
}

// fnJob calls a function with n arguments of any kind: an error exactly when the count is wrong.
func fnJob(fn string, n int, ok bool) *Job {
	name := fmt.Sprintf("%s with %d arguments", fn, n)
	return &Job{Name: name, Run: func(P *Prog, r *Result) {
		s := newSuite(P, r)
		var as []string
		for i := 1; i <= n; i++ {
			a := fmt.Sprintf("any%d", i)
			s.any[a] = func(st *State) []*valState {
				return []*valState{{st, freshOpq(a, machMask|typeBit(s.e.errT), "any")}}
			}
			as = append(as, a+"()")
		}
		s.obs = func(fr *Frame, st *State, args []Value) Value { return nil }
		good := 0
		s.run(&Tmpl{text: "$[?(obs(" + fn + "(" + strings.Join(as, ",") + ")))]"}, oneElem(s), runOpt{}, func(o *RunOut) {
			for _, x := range s.e.expand(o.st.clone(), o.err) {
				if _, nilErr := x.v.(Nil); nilErr == ok {
					good++
				} else if ok {
					r.viol("arity", name, "", name+" makes evaluation fail", s.e.show(x.st, x.v))
				} else {
					r.viol("arity", name, "", name+" does not make evaluation fail", "")
				}
			}
		})
		if good == 0 {
			r.viol("arity", name, "", name+" never comes back as documented", "")
		}
		r.Count["function calls by argument count"]++
		s.finish()
	}}
}

// rejJob: an argument of a kind the function does not accept yields no value.
func rejJob(fn string, args []string, want string) *Job {
	name := fn + "(" + strings.Join(args, ",") + ")"
	return &Job{Name: name, Run: func(P *Prog, r *Result) {
		s := newSuite(P, r)
		var as []string
		for i, k := range args {
			a := fmt.Sprintf("any%d", i+1)
			s.any[a] = s.anyKind(a, k)
			as = append(as, a+"()")
		}
		s.obs = func(fr *Frame, st *State, args []Value) Value {
			exp := s.missing()
			if want == "nil" {
				exp = Nil{}
			}
			r.Count["comparisons with the reference"]++
			if ok, why := s.e.same(st, args[0], exp); !ok {
				r.viol("denotation", name, "", name+" yields a value", why)
			}
			return nil
		}
		s.run(&Tmpl{text: "$[?(obs(" + fn + "(" + strings.Join(as, ",") + ")))]"}, oneElem(s), runOpt{}, s.mustNotFail(name))
		if s.n == 0 {
			r.viol("coverage", name, "", name+" is never evaluated", "")
		}
		r.Count["argument kinds rejected"]++
		s.finish()
	}}
}

// callJob compares a call with the reference.
func callJob(fn, ref string, ops ...opnd) *Job {
	var names []string
	for _, o := range ops {
		names = append(names, o.name)
	}
	name := fn + "(" + strings.Join(names, ",") + ")"
	return &Job{Name: name, Run: func(P *Prog, r *Result) {
		s := newSuite(P, r)
		var as []string
		for i, o := range ops {
			a := fmt.Sprintf("any%d", i+1)
			s.any[a] = func(st *State) []*valState { return []*valState{{st, o.mk(s, st, a)}} }
			as = append(as, a+"()")
		}
		s.obs = func(fr *Frame, st *State, args []Value) Value {
			var vs []Value
			for i := range ops {
				v, _ := st.gh.get(fmt.Sprintf("any%d", i+1))
				vs = append(vs, v)
			}
			s.against(fr, st, name, args[0], ref, vs...)
			return nil
		}
		s.run(&Tmpl{text: "$[?(obs(" + fn + "(" + strings.Join(as, ",") + ")))]"}, oneElem(s), runOpt{concrete: true}, s.mustNotFail(name))
		if s.n == 0 {
			r.viol("coverage", name, "", name+" is never evaluated", "")
		}
		r.Count["argument kinds accepted"]++
		s.finish()
	}}
}

// keysJob: the names of an object's members, each once.
func keysJob(ks ...string) *Job {
	var kvs []string
	for _, k := range ks {
		kvs = append(kvs, k+":float64")
	}
	o := objOp(kvs...)
	name := "keys(" + o.name + ")"
	return &Job{Name: name, Run: func(P *Prog, r *Result) {
		s := newSuite(P, r)
		s.any["any1"] = func(st *State) []*valState { return []*valState{{st, o.mk(s, st, "a")}} }
		s.obs = func(fr *Frame, st *State, args []Value) Value {
			r.Count["comparisons with the reference"]++
			for _, x := range s.e.expand(st.clone(), args[0]) {
				got, why := s.e.listOf(x.st, x.v)
				if why != "" {
					r.viol("denotation", name, "", name+" is not the list of the names", why)
					continue
				}
				seen := map[string]int{}
				ok := len(got) == len(ks)
				for _, g := range got {
					i, _ := g.(Ifc)
					z, isStr := i.V.(Str)
					if !isStr {
						ok = false
						continue
					}
					if c, known := x.st.sval(z); known {
						seen[c]++
						continue
					}
					// sorting leaves one of the names in each place
					if f, has := x.st.strFact(z.S); !has || !f.eq {
						ok = false
					} else {
						for _, c := range f.s {
							found := false
							for _, k := range ks {
								found = found || k == c
							}
							ok = ok && found
						}
					}
				}
				for _, n := range seen {
					ok = ok && n == 1
				}
				if !ok {
					r.viol("denotation", name, "", name+" is not the list of the names", vStr(x.v))
				}
			}
			return nil
		}
		s.run(&Tmpl{text: "$[?(obs(keys(any1())))]"}, oneElem(s), runOpt{concrete: true}, s.mustNotFail(name))
		if s.n == 0 {
			r.viol("coverage", name, "", name+" is never evaluated", "")
		}
		r.Count["argument kinds accepted"]++
		s.finish()
	}}
}

// listOf gives the elements of an array value of known length.
func (e *Engine) listOf(st *State, v Value) ([]Value, string) {
	if i, ok := v.(Ifc); ok {
		v = i.V
	}
	sl, ok := v.(Slc)
	if !ok {
		return nil, "not an array: " + vStr(v)
	}
	n, ok := st.cval(sl.Len)
	if !ok {
		return nil, "unknown length: " + vStr(sl)
	}
	cs, def := e.contents(st, sl)
	out := make([]Value, n)
	for _, c := range cs {
		if k, ok := st.cval(c.I); ok && k >= 0 && k < n {
			out[k] = c.V
		} else {
			def = Top{}
		}
	}
	for k := range out {
		if out[k] == nil {
			if def == nil {
				return nil, fmt.Sprintf("element %d is not known", k)
			}
			if _, isTop := def.(Top); isTop {
				return nil, fmt.Sprintf("element %d is not known", k)
			}
			out[k] = inst(st, def)
		}
	}
	return out, ""
}

var arity = map[string]int{"abs": 1, "avg": 1, "ceil": 1, "contains": 2, "ends_with": 2, "floor": 1, "keys": 1, "length": 1, "max": -1, "min": -1,
	"prod": 1, "starts_with": 2, "sum": 1, "to_number": 1, "tokenize": 2}

func init() {
	register(&CheckDef{ID: "C16",
		Rule: "for every pair of operand kinds, and for arrays and objects of the listed shapes with arbitrary leaves, the values computed for a==b and a!=b are on every path what the reference semantics gives, a==b is the same as b==a, and != its negation; likewise in and nin over arrays of up to three elements.",
		Assume: []string{"deeper or larger arrays and objects behave as the shapes analysed (elements are compared by the same rule)",
			"the comparison of a primitive with an array's sole element of another type is left open, apart from symmetry"},
		Jobs: func(P *Prog, thorough bool) []*Job { return eqJobs(thorough) },
		Min:  map[string]int{"operand kind combinations": 700},
	})
	register(&CheckDef{ID: "C17",
		Rule: "for every pair of operand kinds, the value computed for a||b, a&&b and !a is on every path the operand (or boolean) the reference semantics gives; a filter, in [?()] and ..[?()], keeps its candidate exactly in the states where the filter's value is truthy.",
		Jobs: func(P *Prog, thorough bool) []*Job {
			js := opJobs("||", "&&")
			for _, k := range kindNames {
				js = append(js, unJob("!any1()", "Not", k), keepJob("$[?(any1())]", k, false), keepJob("$..[?(any1())]", k, true))
			}
			return js
		},
		Min: map[string]int{"operand kind combinations": 2*64 + 3*8, "comparisons with the reference": 2*64 + 4*8},
	})
	register(&CheckDef{ID: "C21",
		Rule:   "each documented function, called with 0 to 4 arguments of any kind, makes Eval fail exactly when the count is not the documented one, and so does any other name; with an argument of a kind it does not accept it yields no value (null for length); on accepted kinds abs, ceil, floor, contains, starts_with, ends_with, length, to_number and keys yield what the reference semantics gives.",
		Assume: []string{"keys is compared on objects of up to three members"},
		Jobs: func(P *Prog, thorough bool) []*Job {
			var js []*Job
			var names []string
			for f := range arity {
				names = append(names, f)
			}
			sortStrings(names)
			for _, f := range names {
				for n := 0; n <= 4; n++ {
					js = append(js, fnJob(f, n, arity[f] < 0 || arity[f] == n))
				}
			}
			for _, f := range []string{"nosuch", "Length", "size", "concat", "lengt", "length2", "abs_"} {
				for n := 0; n <= 2; n++ {
					js = append(js, fnJob(f, n, false))
				}
			}
			accept := map[string][]string{"abs": {"int64", "float64"}, "ceil": {"int64", "float64"}, "floor": {"int64", "float64"}, "to_number": {"int64", "float64", "string"},
				"avg": {"array"}, "sum": {"array"}, "prod": {"array"}, "keys": {"object"}, "length": {"string", "array", "object"}, "max": {"array"}, "min": {"array"}}
			for _, f := range names {
				acc, ok := accept[f]
				if !ok {
					continue
				}
				for _, k := range kindNames {
					if !contains(acc, k) {
						w := "missing"
						if f == "length" {
							w = "nil"
						}
						js = append(js, rejJob(f, []string{k}, w))
					}
				}
			}
			for _, f := range []string{"starts_with", "ends_with", "tokenize"} {
				for _, a := range kindNames {
					for _, b := range kindNames {
						if a != "string" || b != "string" {
							js = append(js, rejJob(f, []string{a, b}, "missing"))
						}
					}
				}
			}
			for _, a := range kindNames {
				for _, b := range kindNames {
					if a != "array" && (a != "string" || b != "string") {
						js = append(js, rejJob("contains", []string{a, b}, "missing"))
					}
				}
			}
			for f, ref := range map[string]string{"abs": "Abs", "ceil": "Ceil", "floor": "Floor", "length": "Length", "to_number": "ToNumber"} {
				for _, k := range accept[f] {
					js = append(js, callJob(f, ref, kindOp(k)))
				}
			}
			for f, ref := range map[string]string{"starts_with": "StartsWith", "ends_with": "EndsWith", "contains": "Contains"} {
				js = append(js, callJob(f, ref, kindOp("string"), kindOp("string")))
			}
			for _, a := range []opnd{arrOp(), arrOp("float64"), arrOp("string", "float64"), arrOp("nil", "bool", "string")} {
				for _, b := range primKinds {
					js = append(js, callJob("contains", "Contains", a, kindOp(b)))
				}
			}
			for _, a := range []opnd{arrOp(), arrOp("float64"), arrOp("nil", "bool", "string"), objOp(), objOp("a:nil"), objOp("a:float64", "b:nil")} {
				js = append(js, callJob("length", "Length", a))
			}
			js = append(js, keysJob(), keysJob("a"), keysJob("b", "a"), keysJob("c", "a", "b"))
			sortJobs(js)
			return js
		},
		Min: map[string]int{"function calls by argument count": 90, "argument kinds rejected": 300, "argument kinds accepted": 40},
	})
}

func contains(a []string, x string) bool {
	for _, y := range a {
		if x == y {
			return true
		}
	}
	return false
}
func sortStrings(a []string) { sort.Strings(a) }
func sortJobs(js []*Job) {
	sort.SliceStable(js, func(i, j int) bool { return js[i].Name < js[j].Name })
}
