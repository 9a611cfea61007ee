package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var docTypes []types.Type // nil, bool, float64, string, []interface{}, map[string]interface{}

func setupDoc() {
	empty := types.NewInterfaceType(nil, nil)
	empty.Complete()
	docTypes = []types.Type{nil, types.Typ[types.Bool], types.Typ[types.Float64], types.Typ[types.String], types.NewSlice(empty), types.NewMap(types.Typ[types.String], empty)}
	for _, t := range docTypes {
		docMask |= typeBit(t)
	}
}

// runInit interprets the package initialisers; the heap they leave is the initial state of everything else.
func (e *Engine) runInit() error {
	e.initing = true
	defer func() { e.initing = false }()
	st := newState()
	var paths []string
	for p := range e.P.spkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	ctx := e.ctxDepth
	e.ctxDepth = 4
	defer func() { e.ctxDepth = ctx }()
	return e.analyse(func() {
		st = newState()
		for _, p := range paths {
			f := e.P.spkgs[p].Func("init")
			if f == nil {
				continue
			}
			rs := e.callFn(nil, st, nil, f, nil, nil)
			if len(rs) == 0 {
				panic(tooMuch{"initialisation of " + p + " does not return"})
			}
			st = rs[0].st
			if len(rs) > 1 {
				for _, r := range rs[1:] {
					st = join(st, r.st, false)
				}
			}
		}
		for o, x := range st.heap.m {
			n := x.copy()
			n.flags |= flGlobal
			e.gheap[o] = n
		}
		_ = ssa.Value(nil)
	})
}

func (e *Engine) failures() []*Oblig {
	var r []*Oblig
	for _, o := range e.obl {
		if o.Fails > 0 {
			r = append(r, o)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Pos+r[i].Rule < r[j].Pos+r[j].Rule })
	return r
}

func (e *Engine) report() {
	var ks []string
	for k := range e.obl {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	n := 0
	for _, k := range ks {
		o := e.obl[k]
		if o.Fails > 0 {
			fmt.Printf("FAIL %s %s %s %s: %s\n", o.Rule, o.Pos, o.Fn, o.Text, o.Why)
		}
		n += o.N
	}
	fmt.Printf("%d obligations, %d instances, %d steps\n", len(ks), n, e.steps)
	ks = nil
	for k := range e.events {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("EVENT %s %s %s %s x%d\n", e.events[k].Rule, e.events[k].Pos, e.events[k].Fn, e.events[k].Text, e.events[k].N)
	}
	for k, n := range e.unsup {
		fmt.Printf("UNSUP %s x%d\n", k, n)
	}
}

// argument values by type, for experiments
func (e *Engine) anyArg(name string, t types.Type) Value {
	if i, ok := t.Underlying().(*types.Interface); ok && i.NumMethods() == 0 {
		return freshOpq(name, docMask, "doc")
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		if i, ok := s.Elem().Underlying().(*types.Interface); ok && i.NumMethods() == 0 {
			o := freshOpq(name, typeBit(t), "doc")
			_ = s
			return Slc{virtObj(o.S, 'a'), cInt(0), opqTermV("ol", o.S, nil).(Lin), opqTermV("oc", o.S, nil).(Lin)}
		}
	}
	return e.topVal(name, t)
}

func debugFn(P *Prog, rel, name string) {
	e := newEngine(P)
	if err := e.runInit(); err != nil {
		fmt.Println("init:", err)
	}
	fmt.Println("init steps", e.steps)
	e.steps = 0
	e.obl = map[string]*Oblig{}
	e.envKnobs()
	fn := P.fn(rel, name)
	if fn == nil {
		fmt.Println("no function", rel, name)
		return
	}
	err := e.analyse(func() {
		st := newState()
		var args []Value
		for _, p := range fn.Params {
			v := e.anyArg(p.Name(), p.Type())
			if s, ok := v.(Slc); ok {
				st.addDiff(s.Len, s.Cap, 0)
			}
			args = append(args, v)
		}
		for _, r := range e.callFn(nil, st, nil, fn, args, nil) {
			fmt.Println("OUT", vStr(r.v))
			if verbose {
				fmt.Println(strings.TrimSpace(r.st.String()))
			}
		}
	})
	if err != nil {
		fmt.Println("ERROR", err)
	}
	e.report()
}
