package main

// C25: names of operations and tokens.

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// formatted replaces formatting by a lone verb by the method it stands for.
func (s *Suite) formatted(e *Engine, fr *Frame, st *State, site ssa.Instruction, f *ssa.Function, args []Value) ([]*Out, bool) {
	verb := "%v"
	rest := 0
	switch f.String() {
	case "fmt.Sprintf":
		rest = 1
		c, ok := args[0].(Str)
		if !ok {
			return nil, false
		}
		verb, ok = st.sval(c)
		if !ok {
			return nil, false
		}
	case "fmt.Sprint":
	default:
		return nil, false
	}
	meth := map[string]string{"%#v": "GoString", "%v": "String", "%s": "String", "%+v": "String"}[verb]
	sl, ok := args[rest].(Slc)
	if n, k := st.cval(sl.Len); !ok || !k || n != 1 || meth == "" {
		return nil, false
	}
	off, _ := st.cval(sl.Off)
	var out []*Out
	done := true
	e.elemAt(st, sl.O, cInt(off), func(x *State, v Value) []*State {
		i, ok := v.(Ifc)
		if !ok {
			done = false
			return nil
		}
		m := s.P.ssa.MethodSets.MethodSet(i.T).Lookup(pkgOfType(i.T), meth)
		if m == nil {
			done = false
			return nil
		}
		g := s.P.ssa.MethodValue(m)
		if g == nil {
			done = false
			return nil
		}
		for _, r := range e.callFn(fr, x, site, g, []Value{i.V}, nil) {
			out = append(out, &Out{r.st, []Value{r.v}})
		}
		return nil
	})
	return out, done
}

func pkgOfType(t types.Type) *types.Package {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

// constsOf gives the constants of a type of package paths.
func constsOf(P *Prog, typ string) (names []string, vals []int64) {
	sc := P.spkgs[modPath+"/paths"].Pkg.Scope()
	t := sc.Lookup(typ)
	if t == nil {
		panic(tooMuch{"no type paths." + typ})
	}
	for _, n := range sc.Names() {
		c, ok := sc.Lookup(n).(*types.Const)
		if !ok || !types.Identical(c.Type(), t.Type()) {
			continue
		}
		if v, ok := constant.Int64Val(constant.ToInt(c.Val())); ok {
			names = append(names, n)
			vals = append(vals, v)
		}
	}
	return
}

func nameJob(typ string, extra []int64) *Job {
	return &Job{Name: "names of " + typ, Run: func(P *Prog, r *Result) {
		names, vals := constsOf(P, typ)
		for _, v := range extra {
			names = append(names, fmt.Sprintf("%q", rune(v)))
			vals = append(vals, v)
		}
		for _, meth := range []string{"GoString", "String"} {
			f := P.fn("paths", typ+"."+meth)
			if f == nil {
				panic(tooMuch{"no method paths." + typ + "." + meth})
			}
			of := map[string]string{}
			num := map[string]int64{}
			for i, n := range names {
				s := newSuite(P, r)
				s.hook = s.formatted
				s.e.concrete, s.e.inlineRec = true, true
				err := s.e.analyse(func() {
					for _, o := range s.e.callFn(nil, newState(), nil, f, []Value{cInt(vals[i])}, nil) {
						r.Count["names"]++
						v, ok := o.v.(Str)
						text, known := "", false
						if ok {
							text, known = o.st.sval(v)
						}
						switch {
						case !known:
							r.viol("undecided", typ, "", meth+" of "+n+" is not a known text", vStr(o.v))
						case text == "":
							r.viol("nameless", typ, "", meth+" of "+n+" may be empty", "")
						case meth == "GoString" && of[text] != "" && num[text] != vals[i]:
							r.viol("ambiguous", typ, "", n+" and "+of[text]+" have the same name", text)
						}
						of[text], num[text] = n, vals[i]
					}
				})
				if err != nil {
					panic(tooMuch{err.Error()})
				}
				s.collect(nil)
			}
		}
		r.Count["constants"] += len(names)
	}}
}

// textJobs renders the program and the steps of each kind of expression.
func textJobs(P *Prog, th bool) []*Job {
	var js []*Job
	mc := P.fn("mach", "Compile")
	prog := P.fn("mach", "*Program.String")
	step := P.fn("paths", "*Step.String")
	if mc == nil || prog == nil || step == nil {
		return []*Job{{Name: "text", Run: func(P *Prog, r *Result) { panic(tooMuch{"no String of mach.Program or paths.Step"}) }}}
	}
	ts := genTmpls(P, th)
	for _, x := range []string{"$[99999999]", "$[-99999999]", "$[4194303]", "$[4194304]", "$[-4194304]", "$[-4194305]", "$[1:99999999:2]", "$[?(99999999)]", "$[?(@ == 4194304)]", "$[?(1.5)]", "$[?(@.a =~ /b/)]"} {
		ts = append(ts, genT{x, false})
	}
	const at = 60
	for i := 0; i < len(ts); i += at {
		part := ts[i:min(i+at, len(ts))]
		js = append(js, &Job{Name: fmt.Sprintf("text of %d-%d", i, i+len(part)-1), Run: func(P *Prog, r *Result) {
			for _, t := range part {
				s := newSuite(P, r)
				var progs []*valState
				s.hook = func(e *Engine, fr *Frame, st *State, site ssa.Instruction, f *ssa.Function, args []Value) ([]*Out, bool) {
					if f == mc {
						sl, ok := args[0].(Slc)
						if !ok {
							panic(tooMuch{"unknown path"})
						}
						n, ok := st.cval(sl.Len)
						off, ok2 := st.cval(sl.Off)
						if !ok || !ok2 {
							panic(tooMuch{"path of unknown length"})
						}
						for i := int64(0); i < n; i++ {
							e.elemAt(st.clone(), sl.O, cInt(off+i), func(x *State, v Value) []*State {
								s.rendered(x, step, v, t.text)
								return nil
							})
						}
					}
					return s.formatted(e, fr, st, site, f, args)
				}
				s.e.onReturn = func(e *Engine, fr *Frame, st *State, in *ssa.Return) {
					if fr.fn == mc && len(in.Results) == 2 {
						if _, ok := e.get(st, in.Results[1]).(Nil); ok {
							progs = append(progs, &valState{st.clone(), e.get(st, in.Results[0])})
						}
					}
				}
				err := s.e.analyse(func() {
					progs = nil
					s.e.compileTmpl(&Tmpl{text: t.text}, newState())
					for _, p := range progs {
						s.e.concrete, s.e.inlineRec = true, true
						s.rendered(p.st, prog, p.v, t.text)
						s.e.concrete, s.e.inlineRec = false, false
					}
				})
				if err != nil {
					panic(tooMuch{t.text + ": " + err.Error()})
				}
				if len(progs) == 0 {
					r.viol("coverage", t.text, "", t.text+" is not compiled", "")
				}
				s.collect(nil)
			}
		}})
	}
	return js
}

func (s *Suite) rendered(st *State, f *ssa.Function, v Value, what string) {
	s.r.Count["texts of programs and steps"]++
	outs := s.e.callFn(nil, st, nil, f, []Value{v}, nil)
	if len(outs) == 0 {
		s.r.viol("nameless", shortFn(f), "", shortFn(f)+" does not come back for "+what, "")
	}
	for _, o := range outs {
		if t, ok := o.v.(Str); ok {
			if k, known := o.st.sval(t); known && k == "" && what != "$" {
				s.r.viol("nameless", shortFn(f), "", shortFn(f)+" may be empty for "+what, "")
			}
		}
	}
}

func init() {
	register(&CheckDef{ID: "C25",
		Rule: "for each constant of types Op and token, and each printable ASCII token, GoString and String, followed by constant propagation through the tables they use, give a text that is not empty, GoString a different one for each; for each kind of expression, no operation that can panic is reached in the methods that render its steps and its compiled program.",
		Jobs: func(P *Prog, th bool) []*Job {
			var ascii []int64
			for c := int64(33); c < 127; c++ {
				ascii = append(ascii, c)
			}
			return append([]*Job{nameJob("Op", nil), nameJob("token", ascii)}, textJobs(P, th)...)
		},
		Min: map[string]int{"names": 200, "constants": 60, "texts of programs and steps": 600},
	})
}
