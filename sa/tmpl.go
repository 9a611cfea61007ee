package main

// Templates: expressions whose literals may be placeholders for arbitrary values,
// taken through Compile and Eval by the abstract interpreter.

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// placeholder literals: the parser sees the number, everything after it an arbitrary value.
const holeBase = 777000

type Tmpl struct {
	text  string
	holes map[int64]Value  // integer constants to replace
	sh    map[string]Value // string constants to replace
	fh    map[float64]Value
	keep  bool // leave each integer hole's value in the ghost "hole<i>"
}

func (t *Tmpl) fill(st *State) {
	if len(t.holes)+len(t.sh)+len(t.fh) == 0 {
		return
	}
	var f func(v Value) Value
	fs := func(vs []Value) []Value {
		r := make([]Value, len(vs))
		for i := range vs {
			r[i] = f(vs[i])
		}
		return r
	}
	f = func(v Value) Value {
		switch v := v.(type) {
		case Lin:
			if v.B == 0 {
				if n, ok := t.holes[v.K]; ok {
					return n
				}
			}
		case Str:
			if c := info(v.S); c.op == "sconst" {
				if n, ok := t.sh[c.sval]; ok {
					return n
				}
			}
		case Flt:
			if c := info(v.S); c.op == "fconst" {
				if n, ok := t.fh[c.fval]; ok {
					return n
				}
			}
		case Ifc:
			return Ifc{v.T, f(v.V)}
		case Strct:
			return Strct{fs(v.F)}
		case Tup:
			return Tup{fs(v.V)}
		case Uni:
			return mkUni(fs(v.A))
		}
		return v
	}
	if t.keep {
		for k, v := range t.holes {
			st.gh.set(fmt.Sprintf("hole%d", k-holeBase), v)
		}
	}
	for o, x := range mapCopy(st.heap.m) {
		n := x.copy()
		if n.val != nil {
			n.val = f(n.val)
		}
		n.cells = nil
		for _, c := range x.cells {
			n.cells = append(n.cells, ACell{c.I, f(c.V)})
		}
		if n.def != nil {
			n.def = f(n.def)
		}
		st.heap.set(o, n)
	}
}

type RunOut struct {
	st   *State
	vals Value // Slc or Nil
	err  Value
}

// compile takes the text through Compile; it returns the states in which it was accepted.
func (e *Engine) compileTmpl(t *Tmpl, st *State) (good []*valState, bad int) {
	cf := e.P.fn("", "Compile")
	mc := e.P.fn("mach", "Compile")
	save := e.onCall
	e.onCall = func(e *Engine, fr *Frame, st *State, site ssa.Instruction, fn *ssa.Function, args []Value) ([]*Out, bool) {
		if fn == mc {
			t.fill(st)
			if len(t.holes)+len(t.sh)+len(t.fh) != 0 {
				for f := fr; f != nil; f = f.parent {
					f.hook = true // what is computed from here on depends on more than the text
				}
			}
		}
		if save != nil {
			return save(e, fr, st, site, fn, args)
		}
		return nil, false
	}
	e.inlineRec, e.concrete = true, true
	defer func() { e.onCall, e.inlineRec, e.concrete = save, false, false }()
	for _, r := range e.callFn(nil, st, nil, cf, []Value{strConst(t.text)}, nil) {
		v := r.v.(Tup).V
		if _, ok := v[1].(Nil); ok {
			good = append(good, &valState{r.st, v[0]})
		} else {
			bad++
		}
	}
	return
}

// evalTmpl evaluates a compiled path on root.
func (e *Engine) evalTmpl(c *valState, root Value) []*RunOut {
	ef := e.P.fn("", "*JSONPath.Eval")
	var out []*RunOut
	for _, r := range e.callFn(nil, c.st, nil, ef, []Value{c.v, root}, nil) {
		v := r.v.(Tup).V
		out = append(out, &RunOut{r.st, v[0], v[1]})
	}
	return out
}

func debugTmpl(P *Prog, text string) {
	e := newEngine(P)
	e.trace = os.Getenv("SA_FAIL") != ""
	if err := e.runInit(); err != nil {
		fmt.Println("init:", err)
	}
	e.steps = 0
	e.obl = map[string]*Oblig{}
	t := &Tmpl{text: text, holes: map[int64]Value{777001: Lin{freshInt("H1", minI, maxI), 0}, 777002: Lin{freshInt("H2", minI, maxI), 0}}}
	err := e.analyse(func() {
		st := newState()
		good, bad := e.compileTmpl(t, st)
		fmt.Println("accepted", len(good), "rejected", bad, "steps", e.steps)
		for _, g := range good {
			if verbose {
				fmt.Println(g.st)
			}
			root := freshOpq("doc", docMask, "doc")
			for _, o := range e.evalTmpl(g, root) {
				fmt.Println("OUT", vStr(o.vals), vStr(o.err))
				if s, ok := o.vals.(Slc); ok {
					c, d := e.contents(o.st, s)
					for _, x := range c {
						fmt.Println("    ", vStr(x.I), vStr(x.V))
					}
					if d != nil {
						fmt.Println("     *", vStr(d))
					}
				}
				if verbose {
					fmt.Println(strings.TrimSpace(o.st.String()))
				}
			}
		}
	})
	if err != nil {
		fmt.Println("ERROR", err)
	}
	e.report()
}
