package main

// C11: operands of a program, from the code generator to the machine.

import (
	"fmt"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// constOf is a constant of an expression and the value the machine must see.
type constOf struct {
	text string
	val  func(t *Tmpl, i int64) Value
	show string
}

var anyConsts = []constOf{
	{"%d", func(t *Tmpl, i int64) Value {
		v := Lin{freshInt(fmt.Sprint("H", i), minI, maxI), 0}
		t.holes[holeBase+i] = v
		return Ifc{int64T, v}
	}, "any integer"},
	{"%d", func(t *Tmpl, i int64) Value {
		v := Lin{freshInt(fmt.Sprint("H", i), 1<<22-1, 1<<22+1), 0}
		t.holes[holeBase+i] = v
		return Ifc{int64T, v}
	}, "an integer near the largest that fits"},
	{"'text%d'", func(t *Tmpl, i int64) Value {
		v := freshStr(fmt.Sprint("S", i))
		t.sh[fmt.Sprint("text", holeBase+i)] = v
		return Ifc{stringT, v}
	}, "any string"},
	{"%d.5", func(t *Tmpl, i int64) Value {
		v := freshFlt(fmt.Sprint("F", i))
		t.fh[float64(holeBase+i)+0.5] = v
		return Ifc{float64T, v}
	}, "any number"},
	{"true", func(t *Tmpl, i int64) Value { return Ifc{boolT, cBool(true)} }, "true"},
	{"false", func(t *Tmpl, i int64) Value { return Ifc{boolT, cBool(false)} }, "false"},
	{"null", func(t *Tmpl, i int64) Value { return Nil{} }, "null"},
	{"0", func(t *Tmpl, i int64) Value { return Ifc{int64T, cInt(0)} }, "0"},
	{"0.0", func(t *Tmpl, i int64) Value { return Ifc{float64T, fltConst(0)} }, "0.0"},
	{"'0'", func(t *Tmpl, i int64) Value { return Ifc{stringT, strConst("0")} }, "'0'"},
	{"9000000", func(t *Tmpl, i int64) Value { return Ifc{int64T, cInt(9000000)} }, "9000000"},
	{"9000000.0", func(t *Tmpl, i int64) Value { return Ifc{float64T, fltConst(9000000)} }, "9000000.0"},
	{"'9000000'", func(t *Tmpl, i int64) Value { return Ifc{stringT, strConst("9000000")} }, "'9000000'"},
}

// havoc makes the programs of a state begin with unknown, and any number of, values and orders.
func (s *Suite) havoc(st *State, prog *types.Named, orders bool) int {
	n := 0
	str := prog.Underlying().(*types.Struct)
	for o, x := range mapCopy(st.heap.m) {
		if x.typ == nil || !types.Identical(x.typ, prog) {
			continue
		}
		v, ok := x.val.(Strct)
		if !ok {
			continue
		}
		f := append([]Value{}, v.F...)
		for i := range f {
			sl, ok := str.Field(i).Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			if _, ok := sl.Elem().Underlying().(*types.Interface); !ok && !orders {
				continue
			}
			a := objID(ObjName{site: fmt.Sprint("program", o, ".", i)})
			st.heap.set(a, &Obj{kind: 'a', typ: sl.Elem(), many: true, def: s.e.topVal("before", sl.Elem())})
			ln := Lin{freshInt("size"+str.Field(i).Name(), 0, 1<<31-1), 0}
			f[i] = Slc{a, cInt(0), ln, ln}
			n++
		}
		y := x.copy()
		y.val = Strct{f}
		st.heap.set(o, y)
	}
	return n
}

// bigProgram makes the code generator go on from a program of any size.
func (s *Suite) bigProgram(prog *types.Named, mc *ssa.Function, orders bool, found *int) {
	save := s.hook
	s.hook = func(e *Engine, fr *Frame, st *State, site ssa.Instruction, f *ssa.Function, args []Value) ([]*Out, bool) {
		if save != nil {
			if o, ok := save(e, fr, st, site, f, args); ok {
				return o, ok
			}
		}
		if fr != nil && fr.fn == mc && f != mc {
			if done, _ := flag(st, "big"); !done {
				if n := s.havoc(st, prog, orders); n > 0 {
					*found = n
					st.gh.set("big", cBool(true))
				}
			}
		}
		return nil, false
	}
}

func namedType(P *Prog, pkg, name string) *types.Named {
	p := P.spkgs[modPath+"/"+pkg]
	if p == nil {
		return nil
	}
	if o := p.Pkg.Scope().Lookup(name); o != nil {
		n, _ := o.Type().(*types.Named)
		return n
	}
	return nil
}

// constJob: the constants of an expression, as the machine sees them.
func constJob(cs []constOf, form string, big bool) *Job {
	var ns []string
	for _, c := range cs {
		ns = append(ns, c.show)
	}
	what := fmt.Sprintf(form, strings.Join(ns, ", "))
	if big {
		what += " in a program of any number of values"
	}
	return &Job{Name: what, Run: func(P *Prog, r *Result) {
		s := newSuite(P, r)
		t := &Tmpl{holes: map[int64]Value{}, sh: map[string]Value{}, fh: map[float64]Value{}}
		var want []Value
		var text []string
		for i, c := range cs {
			x := c.text
			if strings.Contains(x, "%d") {
				x = fmt.Sprintf(x, holeBase+int64(i)+1)
			}
			text = append(text, x)
			want = append(want, c.val(t, int64(i)+1))
		}
		t.text = fmt.Sprintf(form, strings.Join(text, ", "))
		mc := P.fn("mach", "Compile")
		s.hook = func(e *Engine, fr *Frame, st *State, site ssa.Instruction, f *ssa.Function, args []Value) ([]*Out, bool) {
			if f == mc {
				for i, w := range want {
					if x, ok := w.(Ifc); ok {
						st.gh.set(fmt.Sprint("want", i), x.V)
					}
				}
			}
			return nil, false
		}
		if big {
			n := 0
			s.bigProgram(namedType(P, "mach", "Program"), mc, false, &n)
			defer func() {
				if n == 0 {
					r.viol("coverage", what, "", "no program was found to enlarge", "")
				}
			}()
		}
		s.obs = func(fr *Frame, st *State, args []Value) Value {
			if len(args) != len(want) {
				r.viol("operand", what, "", fmt.Sprintf("%s: %d operands instead of %d", what, len(args), len(want)), "")
				return nil
			}
			for i := range want {
				r.Count["constants compared"]++
				w := want[i]
				if x, ok := w.(Ifc); ok {
					w = Ifc{x.T, mustGet(st, fmt.Sprint("want", i))}
				}
				if ok, why := s.e.same(st, args[i], w); !ok {
					r.viol("operand", what, "", fmt.Sprintf("%s: operand %d is not what was compiled", what, i+1), why)
				}
			}
			return nil
		}
		s.run(t, oneElem(s), runOpt{concrete: true}, s.mustNotFail(what))
		if s.n == 0 {
			r.viol("coverage", what, "", what+" is never evaluated", "")
		}
		r.Count["lists of constants"]++
		s.collect(nil)
	}}
}

// encoded notes each value put in a field of a word.
func (s *Suite) encoded() {
	s.e.onStore = func(e *Engine, fr *Frame, st *State, in ssa.Instruction, p Ptr, v Value) {
		b, ok := v.(Bits)
		if !ok || b.W == 0 || b.N == b.O || b.N-b.O >= 64 || pkgOf(fr.fn) == nil || pkgOf(fr.fn).Path() != modPath+"/mach" {
			return
		}
		s.r.Count["encodings"]++
		if w := b.N - b.O; fitsIn(st, b.V, w) {
			s.r.Count["operands shown to fit"]++
			return
		}
		for i := 0; ; i++ {
			k := fmt.Sprintf("enc%d:%d:%s", i, b.N-b.O, s.pos(in))
			if w, ok := st.gh.get(k); !ok || w == Value(b.V) {
				st.gh.set(k, b.V)
				return
			}
		}
	}
}

// fits checks that what was encoded could be.
func (s *Suite) fits(what string, st *State) {
	for k := range mapCopy(st.gh.m) {
		if !strings.HasPrefix(k, "enc") {
			continue
		}
		var i int
		var w uint
		fmt.Sscanf(k, "enc%d:%d:", &i, &w)
		v, _ := st.gh.get(k)
		l, ok := v.(Lin)
		if !ok {
			s.r.viol("range", what, "", what+": an operand of unknown size is encoded", vStr(v))
			continue
		}
		s.r.Count["operands shown to fit"]++
		if !fitsIn(st, l, w) {
			pos := strings.SplitN(k, ":", 3)[2]
			s.r.viol("range", what, pos, fmt.Sprintf("an operand that need not fit its field of %d bits is encoded, and no error returned", w), fmt.Sprint(what, ": ", vStr(l), " in ", st.rangeOf(l)))
		}
	}
}

// fitsIn tells whether a value fits a signed field of w bits.
func fitsIn(st *State, l Lin, w uint) bool {
	c := st.clone()
	c.tighten(l.B)
	rg := c.rangeOf(l)
	return rg.empty() || rg.lo() >= -(1<<(w-1)) && rg.hi() < 1<<(w-1)
}

// fitJob: each operand encoded by a successful mach.Compile fits, wherever in a program.
func fitJob(texts []string) *Job {
	return &Job{Name: fmt.Sprintf("operands of %s ... in a program of any size", texts[0]), Run: func(P *Prog, r *Result) {
		mc, prog := P.fn("mach", "Compile"), namedType(P, "mach", "Program")
		for _, text := range texts {
			s := newSuite(P, r)
			n := 0
			s.bigProgram(prog, mc, true, &n)
			s.encoded()
			s.e.onReturn = func(e *Engine, fr *Frame, st *State, in *ssa.Return) {
				if fr.fn == mc && len(in.Results) == 2 {
					r.Count["results of mach.Compile"]++
					if mayBeNil(st, e.get(st, in.Results[1])) {
						s.fits(text, st)
					}
				}
			}
			t := &Tmpl{text: text, holes: map[int64]Value{777001: Lin{freshInt("H1", minI, maxI), 0}, 777002: Lin{freshInt("H2", minI, maxI), 0}}}
			err := s.e.analyse(func() { s.e.compileTmpl(t, newState()) })
			if err != nil {
				panic(tooMuch{text + ": " + err.Error()})
			}
			if n < 2 {
				r.viol("coverage", text, "", "the program's values and orders were not found", text)
			}
			r.Count["expressions compiled into large programs"]++
			s.undecided()
		}
	}}
}

// countJob: an operation with any number of operands (in the path or in an expression).
func countJob(text string, min int64, big bool) *Job {
	return &Job{Name: "any number of operands in " + text, Run: func(P *Prog, r *Result) {
		mc, prog := P.fn("mach", "Compile"), namedType(P, "mach", "Program")
		s := newSuite(P, r)
		n, grown := 0, 0
		s.hook = func(e *Engine, fr *Frame, st *State, site ssa.Instruction, f *ssa.Function, args []Value) ([]*Out, bool) {
			if f != mc {
				return nil, false
			}
			e.concrete = false
			for o, x := range mapCopy(st.heap.m) {
				v, ok := x.val.(Strct)
				if !ok || x.typ == nil {
					continue
				}
				str, ok := x.typ.Underlying().(*types.Struct)
				if !ok {
					continue
				}
				fs := append([]Value{}, v.F...)
				hit := false
				for i := range fs {
					sl, ok := fs[i].(Slc)
					if !ok {
						continue
					}
					if k, ok := st.cval(sl.Len); !ok || k < min {
						continue
					}
					cs, _ := e.contents(st, sl)
					var last Value
					for _, c := range cs {
						last = c.V
					}
					elem := str.Field(i).Type().Underlying().(*types.Slice).Elem()
					a := objID(ObjName{site: fmt.Sprint("operands", o, ".", i)})
					y := &Obj{kind: 'a', typ: elem, many: true, def: last}
					for _, c := range cs[:len(cs)-1] {
						y.cells = append(y.cells, c)
					}
					st.heap.set(a, y)
					ln := Lin{freshInt("count", int64(len(cs)), 1<<31-1), 0}
					fs[i] = Slc{a, cInt(0), ln, ln}
					hit = true
				}
				if hit {
					grown++
					y := x.copy()
					y.val = Strct{fs}
					st.heap.set(o, y)
				}
			}
			return nil, false
		}
		if big {
			s.bigProgram(prog, mc, true, &n)
		}
		s.encoded()
		ends := 0
		s.e.onReturn = func(e *Engine, fr *Frame, st *State, in *ssa.Return) {
			if fr.fn == mc && len(in.Results) == 2 {
				ends++
				if mayBeNil(st, e.get(st, in.Results[1])) {
					s.fits(text, st)
				}
			}
		}
		err := s.e.analyse(func() { s.e.compileTmpl(&Tmpl{text: text}, newState()) })
		if err != nil {
			panic(tooMuch{text + ": " + err.Error()})
		}
		if big && n < 2 || grown == 0 || ends == 0 {
			r.viol("coverage", text, "", "the program or the operands were not found", text)
		}
		r.Count["operations with any number of operands"]++
		s.undecided()
	}}
}

func init() {
	register(&CheckDef{ID: "C11", Limit: 5 * time.Minute,
		Rule: "every list of constants of an expression (of any value, for integers, strings and numbers; all pairs of kinds) reaches the machine, over Compile and Eval, as the same values of the same kinds, in a program with any number of other values as well; in a program that already has any number of values and orders, every operand that mach.Compile packs into a field of a word on a path on which it returns no error fits that field.",
		Jobs: func(P *Prog, th bool) []*Job {
			var js []*Job
			for i, a := range anyConsts {
				js = append(js, constJob([]constOf{a}, "$[?(obs(%s))]", false), constJob([]constOf{a}, "$[?(obs(%s))]", true))
				for _, b := range anyConsts {
					js = append(js, constJob([]constOf{a, b}, "$[?(obs(%s))]", false))
				}
				_ = i
			}
			var many []constOf
			for i := int64(0); i < 20; i++ {
				n := 9000001 + i
				many = append(many, constOf{fmt.Sprint(n), func(t *Tmpl, _ int64) Value { return Ifc{int64T, cInt(n)} }, fmt.Sprint(n)},
					constOf{fmt.Sprintf("'%d'", n), func(t *Tmpl, _ int64) Value { return Ifc{stringT, strConst(fmt.Sprint(n))} }, fmt.Sprintf("'%d'", n)},
					constOf{fmt.Sprintf("%d.5", n), func(t *Tmpl, _ int64) Value { return Ifc{float64T, fltConst(float64(n) + 0.5)} }, fmt.Sprintf("%d.5", n)},
					anyConsts[4+i%9])
			}
			js = append(js, constJob(many, "$[?(obs(%s))]", false))
			texts := []string{"$[777001]", "$[777001:777002]", "$[777001,'a',777002]", "$.a", "$.777001", "$.*", "$['a']", "$..a", "$..[777001]", "$..[777001,777002]", "$..*", "$..[?(@.a)]", "$[?(@.a == 777001)]", "$[(@.length - 777001)]", "$[?(777001.5 < @.a)]", "$[?(@ =~ /a/)]", "$[?(length(@.a, 777001, 'x'))]", "$[?(@.a in [1,777001,'x'])]", "$[?(@[777001] || !true && null)]", "$.a[?(@.b)].c..d[?(@.e)]"}
			for i := 0; i < len(texts); i += 5 {
				js = append(js, fitJob(texts[i:min(i+5, len(texts))]))
			}
			for _, text := range []string{"$[1,2,3]", "$..[1,2,3]", "$[(length(1,2,3))]", "$[([1,2,3])]"} {
				js = append(js, countJob(text, 3, !strings.Contains(text, "length")))
			}
			return js
		},
		Min: map[string]int{"operations with any number of operands": 4, "constants compared": 300, "lists of constants": 150, "expressions compiled into large programs": 20, "operands shown to fit": 20},
	})
}
