package main

// C13: grouping. The value of an expression without parentheses is compared with the value of the same
// operations carried out one at a time, each in an expression of its own.

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var precLevel = map[string]int{"*": 7, "/": 7, "%": 7, "+": 6, "-": 6, "<": 5, "<=": 5, ">": 5, ">=": 5, "=~": 5, "in": 5, "nin": 5, "==": 4, "!=": 4, "&&": 3, "||": 2}

// gnode is an operation or an operand.
type gnode struct {
	op   string // binary, unary ("u-", "u!") or postfix (".a", "[0]")
	l, r *gnode
	text string // operand
}

// group groups operands and operators by precedence, binary operators of a level from the left.
func groupOps(opnds []*gnode, ops []string) *gnode {
	if len(ops) == 0 {
		return opnds[0]
	}
	// the last operator of the lowest level is applied last
	at := 0
	for i, o := range ops {
		if precLevel[o] <= precLevel[ops[at]] {
			at = i
		}
	}
	return &gnode{op: ops[at], l: groupOps(opnds[:at+1], ops[:at]), r: groupOps(opnds[at+1:], ops[at+1:])}
}

// staged gives the expressions that carry out the operations of n one at a time; the last one is the whole.
func (n *gnode) staged(seq *[]string) string {
	if n.op == "" {
		return n.text
	}
	var t string
	switch {
	case n.op[0] == 'u':
		t = n.op[1:] + n.l.staged(seq)
	case n.r == nil:
		t = n.l.staged(seq) + n.op
	default:
		l := n.l.staged(seq)
		t = l + " " + n.op + " " + n.r.staged(seq)
	}
	*seq = append(*seq, t)
	return fmt.Sprintf("get%d()", len(*seq))
}

func precJob(flat string, tree *gnode, kinds map[string]opnd) *Job {
	var ks []string
	for i := 1; i <= 4; i++ {
		if o, ok := kinds[fmt.Sprintf("any%d", i)]; ok {
			ks = append(ks, o.name)
		}
	}
	name := flat + " of " + strings.Join(ks, ", ")
	return &Job{Name: name, Run: func(P *Prog, r *Result) {
		var seq []string
		tree.staged(&seq)
		last := seq[len(seq)-1]
		seq = seq[:len(seq)-1]
		pre := "$"
		for i, x := range seq {
			pre += fmt.Sprintf("[?(set%d(%s))]", i+1, x)
		}
		mk := func() *Suite {
			s := newSuite(P, r)
			for n, o := range kinds {
				n, o := n, o
				s.any[n] = func(st *State) []*valState {
					if v, ok := st.gh.get(n); ok {
						return []*valState{{st, v}}
					}
					return []*valState{{st, o.mk(s, st, n)}}
				}
			}
			call := P.fn("mach", "call")
			s.hook = func(e *Engine, fr *Frame, st *State, site ssa.Instruction, fn *ssa.Function, args []Value) ([]*Out, bool) {
				if fn != call || len(args) != 2 {
					return nil, false
				}
				id, _ := args[0].(Str)
				n, _ := st.sval(id)
				if v, ok := strings.CutPrefix(n, "get"); ok {
					if x, ok := st.gh.get("val" + v); ok {
						return []*Out{{st, []Value{x, Nil{}}}}, true
					}
				}
				if v, ok := strings.CutPrefix(n, "set"); ok {
					if sl, ok := args[1].(Slc); ok {
						cs, _ := e.contents(st, sl)
						if len(cs) == 1 {
							st.gh.set("val"+v, cs[0].V)
							return []*Out{{st, []Value{Ifc{boolT, cBool(true)}, Nil{}}}}, true
						}
					}
				}
				return nil, false
			}
			return s
		}
		root := func(s *Suite) func(st *State) Value {
			return func(st *State) Value {
				var d Doc
				for i := 0; i <= len(seq); i++ {
					d = DArr{d}
				}
				return s.build(st, d, "root", flDoc)
			}
		}
		// does carrying out the operations fail?
		fails := func(text string) (good, bad int) {
			s := mk()
			s.obs = func(fr *Frame, st *State, args []Value) Value { return nil }
			s.run(&Tmpl{text: text}, root(s), runOpt{concrete: true}, func(o *RunOut) {
				if _, ok := o.err.(Nil); ok {
					good++
				} else {
					bad++
				}
			})
			s.undecided()
			return
		}
		r.Count["groupings"]++
		good, bad := fails(pre + "[?(obs(" + last + "))]")
		switch {
		case good > 0 && bad > 0:
			r.viol("coverage", name, "", name+": the operands do not tell whether the operation fails", "")
		case good == 0 && bad == 0:
			r.viol("coverage", name, "", name+" is never evaluated", "")
		case bad > 0:
			r.Count["groupings that fail"]++
			if good, bad := fails(strings.Repeat("[0]", 0) + "$[?(obs(" + flat + "))]"); good > 0 || bad == 0 {
				r.viol("grouping", name, "", name+" has a value, where the operations as they should be grouped fail", "")
			}
		default:
			s := mk()
			s.obs = func(fr *Frame, st *State, args []Value) Value {
				r.Count["groupings compared"]++
				if ok, why := s.e.same(st, args[0], args[1]); !ok {
					r.viol("grouping", name, "", name+" is not grouped as "+strings.Join(append(append([]string{}, seq...), last), "; "), why)
				}
				return nil
			}
			s.run(&Tmpl{text: pre + "[?(obs(" + flat + ", " + last + "))]"}, root(s), runOpt{concrete: true}, func(o *RunOut) {
				if _, ok := o.err.(Nil); !ok {
					r.viol("grouping", name, "", name+" fails, where the operations as they should be grouped do not", s.e.show(o.st, o.err))
				}
			})
			if s.n == 0 {
				r.viol("coverage", name, "", name+" is never evaluated", "")
			}
			s.undecided()
		}
	}}
}

func chainJob(ops []string, prim string) *Job {
	kinds := map[string]opnd{}
	var opnds []*gnode
	var texts []string
	for i := 0; i <= len(ops); i++ {
		n := fmt.Sprintf("any%d", i+1)
		t := n + "()"
		switch {
		case i > 0 && ops[i-1] == "=~":
			t = "/a/"
		case i > 0 && (ops[i-1] == "in" || ops[i-1] == "nin"):
			kinds[n] = arrOp("int64")
		case i < len(ops) && ops[i] == "=~":
			kinds[n] = kindOp("string")
		default:
			kinds[n] = kindOp(prim)
		}
		opnds = append(opnds, &gnode{text: t})
		texts = append(texts, t)
	}
	flat := texts[0]
	for i, o := range ops {
		flat += " " + o + " " + texts[i+1]
	}
	return precJob(flat, groupOps(opnds, ops), kinds)
}

func init() {
	register(&CheckDef{ID: "C13",
		Rule: "for every pair of binary operators (and chains of three, and unary operators and selections beside each operator), the value of the expression without parentheses is, on every path and for arbitrary operands, the same term as the value of the operations carried out one at a time in the documented grouping.",
		Jobs: func(P *Prog, th bool) []*Job {
			var js []*Job
			for _, a := range binOps {
				for _, b := range binOps {
					js = append(js, chainJob([]string{a, b}, "int64"))
				}
			}
			o1, o2 := &gnode{text: "any1()"}, &gnode{text: "any2()"}
			obj, arr := shapeOp("{a:number}", func(t string) Doc { return DMap{{"a", elt(t, "float64")}} }), arrOp("float64")
			num := kindOp("int64")
			for _, op := range binOps {
				if op == "=~" || op == "in" || op == "nin" {
					r := "any2()"
					k := map[string]opnd{"any1": num, "any2": arr}
					if op == "=~" {
						r = "/a/"
						k = map[string]opnd{"any1": kindOp("string")}
					}
					if op != "=~" {
						js = append(js, precJob("-any1() "+op+" "+r, &gnode{op: op, l: &gnode{op: "u-", l: o1}, r: &gnode{text: r}}, k))
						js = append(js, precJob("!any1() "+op+" "+r, &gnode{op: op, l: &gnode{op: "u!", l: o1}, r: &gnode{text: r}}, k))
						k2 := map[string]opnd{"any1": num, "any2": shapeOp("{a:[number]}", func(t string) Doc { return DMap{{"a", DArr{elt(t, "float64")}}} })}
						js = append(js, precJob("any1() "+op+" any2().a", &gnode{op: op, l: o1, r: &gnode{op: ".a", l: o2}}, k2))
					}
					k3 := map[string]opnd{"any1": shapeOp("{a:string}", func(t string) Doc { return DMap{{"a", elt(t, "string")}} }), "any2": arr}
					js = append(js, precJob("any1().a "+op+" "+r, &gnode{op: op, l: &gnode{op: ".a", l: o1}, r: &gnode{text: r}}, k3))
					continue
				}
				two := func(a, b opnd) map[string]opnd { return map[string]opnd{"any1": a, "any2": b} }
				for _, u := range []string{"-", "!"} {
					js = append(js, precJob(u+"any1() "+op+" any2()", &gnode{op: op, l: &gnode{op: "u" + u, l: o1}, r: o2}, two(num, num)))
					js = append(js, precJob("any1() "+op+" "+u+"any2()", &gnode{op: op, l: o1, r: &gnode{op: "u" + u, l: o2}}, two(num, num)))
				}
				for p, o := range map[string]opnd{".a": obj, "[0]": arr, "['a']": obj} {
					js = append(js, precJob("any1()"+p+" "+op+" any2()", &gnode{op: op, l: &gnode{op: p, l: o1}, r: o2}, two(o, num)))
					js = append(js, precJob("any1() "+op+" any2()"+p, &gnode{op: op, l: o1, r: &gnode{op: p, l: o2}}, two(num, o)))
				}
			}
			for _, u := range []string{"-", "!"} {
				js = append(js, precJob(u+"any1().a", &gnode{op: "u" + u, l: &gnode{op: ".a", l: o1}}, map[string]opnd{"any1": obj}))
				js = append(js, precJob(u+"any1()[0]", &gnode{op: "u" + u, l: &gnode{op: "[0]", l: o1}}, map[string]opnd{"any1": arr}))
			}
			reps := []string{"*", "-", "<", "==", "&&", "||"}
			if th {
				reps = binOps
			}
			for _, a := range reps {
				for _, b := range reps {
					for _, c := range reps {
						js = append(js, chainJob([]string{a, b, c}, "int64"))
					}
				}
			}
			return js
		},
		Min: map[string]int{"groupings": 500, "groupings compared": 400},
	})
}
