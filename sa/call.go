package main

// Calls: projection of the caller's state, summaries, recursion, goroutines, built-in functions.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// restart is raised when a function turns out to be recursive; the analysis starts again knowing that.
type restart struct{ fn *ssa.Function }

func (e *Engine) findRecursion() {}

// analyse runs f, starting again when recursion is discovered.
func (e *Engine) analyse(f func()) (err error) {
	for n := 0; n < 60; n++ {
		again := false
		func() {
			defer func() {
				if x := recover(); x != nil {
					e.frames = nil
					e.producer = 0
					for _, s := range e.recSum {
						s.onStack = false
					}
					switch t := x.(type) {
					case restart:
						e.rec[t.fn] = true
						e.memo = map[string]*Summary{}
						e.recSum = map[string]*RecSum{}
						again = true
					case tooMuch:
						err = fmt.Errorf("%s", t.why)
					default:
						panic(x)
					}
				}
			}()
			f()
		}()
		if !again {
			return err
		}
	}
	return fmt.Errorf("recursion not resolved")
}

// canonical symbols
func canonSym(n int, like Sym, k int64) Sym {
	i := info(like)
	lo, hi := satAdd(i.lo, k), satAdd(i.hi, k)
	key := fmt.Sprintf("P%d|%d|%d|%d|%d|%s|%v|%v", n, i.kind, lo, hi, i.tm, i.prov, i.generic, i.keep)
	if s, ok := symcons[key]; ok {
		return s
	}
	nm := fmt.Sprintf("p%d", n)
	if i.generic {
		nm += "g"
	}
	s := newSym(&SymInfo{kind: i.kind, lo: lo, hi: hi, name: nm, generic: i.generic, keep: i.keep, tm: i.tm, prov: i.prov})
	symcons[key] = s
	return s
}

type projection struct {
	entry *State
	inv   map[Sym]Value
	key   string
}

func (e *Engine) project(st *State, fn *ssa.Function, args, free []Value) *projection {
	T := newState()
	for i, p := range fn.Params {
		if i < len(args) {
			T.regs[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			T.regs[p] = free[i]
		}
	}
	for g, v := range st.gh.m {
		if !strings.HasPrefix(g, "#") {
			T.gh.set(g, v)
		}
	}
	// reachable heap
	var work []ObjID
	visit := func(v Value) {
		forObjs(v, func(o ObjID) {
			if o.isVirt() {
				return
			}
			if _, ok := T.heap.get(o); ok {
				return
			}
			if x := st.obj(o); x != nil {
				T.heap.set(o, x)
				work = append(work, o)
			}
		})
	}
	for _, v := range T.regs {
		visit(v)
	}
	for _, v := range T.gh.m {
		visit(v)
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		st.obj(o).forVals(visit)
	}
	T.rng, T.zone, T.fm, T.fc, T.sf, T.tm = st.rng.clone(), st.zone.clone(), st.fm.clone(), st.fc.clone(), st.sf.clone(), st.tm.clone()
	T.gc()
	// symbols that occur directly
	direct := map[Sym]bool{}
	T.forVals(func(v Value) { forSyms(v, func(s Sym) { direct[s] = true }) })
	inv := map[Sym]Value{}
	memo := map[Sym]Value{}
	failed := map[Sym]bool{}
	n := 0
	var mapVal func(v Value) (Value, bool)
	var mapSym func(s Sym, k int64) (Value, bool)
	canon := func(s Sym, k int64) Value {
		n++
		c := canonSym(n, s, k)
		if info(s).kind == KInt {
			inv[c] = Lin{s, k}
			return Lin{c, -k}
		}
		inv[c] = symVal(s)
		return symVal(c)
	}
	mapSym = func(s Sym, k int64) (Value, bool) {
		if s == 0 {
			return cInt(0), true
		}
		if v, ok := memo[s]; ok {
			return v, true
		}
		if failed[s] {
			return nil, false
		}
		i := info(s)
		if i.op == "" {
			if !direct[s] {
				failed[s] = true
				return nil, false
			}
			if k != 0 {
				r := T.baseRange(s)
				if r.empty() || i.generic {
					k = 0
				} else if _, o := addOvf(r.lo(), k); o {
					k = 0
				} else if _, o := addOvf(r.hi(), k); o {
					k = 0
				} else if i.lo == minI && k < 0 || i.hi == maxI && k > 0 {
					k = 0
				}
			}
			v := canon(s, k)
			memo[s] = v
			return v, true
		}
		if len(i.args) == 0 {
			memo[s] = symVal(s)
			return symVal(s), true
		}
		nargs := make([]Value, len(i.args))
		ok := i.depth < maxDepth
		for j, a := range i.args {
			if !ok {
				break
			}
			nargs[j], ok = mapVal(a)
		}
		if ok {
			v := rebuild(s, nargs)
			memo[s] = v
			return v, true
		}
		if direct[s] {
			v := canon(s, 0)
			memo[s] = v
			return v, true
		}
		failed[s] = true
		return nil, false
	}
	mapVal = func(v Value) (Value, bool) {
		ok := true
		forSyms(v, func(s Sym) {
			if _, o := mapSym(s, 0); !o {
				ok = false
			}
		})
		if !ok {
			return nil, false
		}
		m := &Mapper{Sym: func(s Sym) Value { return memo[s] }}
		return m.val(v), true
	}
	// visit in a fixed order, ints first so that offsets are normalised
	pre := func(v Value) {
		var walk func(v Value)
		walk = func(v Value) {
			switch v := v.(type) {
			case Lin:
				if v.B != 0 && info(v.B).op == "" {
					mapSym(v.B, v.K)
				}
			case Strct:
				for _, x := range v.F {
					walk(x)
				}
			case Tup:
				for _, x := range v.V {
					walk(x)
				}
			}
			mapVal(v)
		}
		walk(v)
	}
	E := newState()
	var regs []ssa.Value
	for r := range T.regs {
		regs = append(regs, r)
	}
	sort.Slice(regs, func(i, j int) bool { return regNum(regs[i]) < regNum(regs[j]) })
	fnInfo(fn)
	sort.Slice(regs, func(i, j int) bool { return regNum(regs[i]) < regNum(regs[j]) })
	mp := &Mapper{Sym: func(s Sym) Value { return memo[s] }}
	for _, r := range regs {
		pre(T.regs[r])
		E.regs[r] = mp.val(T.regs[r])
	}
	var gs []string
	for g := range T.gh.m {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		v := T.gh.m[g]
		pre(v)
		E.gh.set(g, mp.val(v))
	}
	var os []ObjID
	for o := range T.heap.m {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i] < os[j] })
	for _, o := range os {
		T.heap.m[o].forVals(pre)
	}
	mp.memo = nil
	for _, o := range os {
		x := T.heap.m[o].mapVals(mp)
		x.flags |= flInput
		E.heap.set(o, x)
	}
	// facts
	okSym := func(s Sym) bool { _, ok := mapSym(s, 0); return ok }
	for _, s := range sortedSyms(T.rng.m) {
		if okSym(s) {
			E.meetLin(toLin(mp.val(Lin{s, 0})), T.rng.m[s])
		}
	}
	for k, c := range T.zone.m {
		if (k.a == 0 || okSym(k.a)) && (k.b == 0 || okSym(k.b)) {
			x, y := Lin{}, Lin{}
			if k.a != 0 {
				x = toLin(mp.val(Lin{k.a, 0}))
			}
			if k.b != 0 {
				y = toLin(mp.val(Lin{k.b, 0}))
			}
			if x.B != 0 && y.B != 0 && x.B != y.B {
				E.zone.set(sp{x.B, y.B}, satAdd(satAdd(c, -x.K), y.K))
			}
		}
	}
	for s, f := range T.fm.m {
		if okSym(s) {
			E.fmeet(mp.val(Flt{s}).(Flt).S, f)
		}
	}
	for k, f := range T.fc.m {
		if okSym(k.a) && okSym(k.b) {
			E.fcmpMeet(mp.val(Flt{k.a}).(Flt).S, mp.val(Flt{k.b}).(Flt).S, f)
		}
	}
	for s, f := range T.sf.m {
		if okSym(s) {
			E.strMeet(mp.val(Str{s}).(Str).S, f)
		}
	}
	for s, f := range T.tm.m {
		if okSym(s) {
			if o, ok := mp.val(Opq{s}).(Opq); ok {
				E.tmMeet(o.S, f)
			}
		}
	}
	// atomised symbols carry the range known for the term
	for c, v := range inv {
		if l, ok := v.(Lin); ok {
			r := st.rangeOf(l)
			if !r.empty() {
				E.meetRange(c, r)
			}
		}
		if f, ok := v.(Flt); ok {
			E.fmeet(c, st.fmask(f.S))
		}
		if o, ok := v.(Opq); ok {
			E.tmMeet(c, st.tmask(o.S))
		}
		if s, ok := v.(Str); ok {
			if f, ok := st.strFact(s.S); ok {
				E.strMeet(c, f)
			}
		}
	}
	var in []Value
	var cs []Sym
	for c := range inv {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i] < cs[j] })
	for _, c := range cs {
		in = append(in, symVal(c))
	}
	E.gh.set("#in", Tup{in})
	E.bot = E.bot || st.bot
	return &projection{E, inv, ""}
}

func sortedSyms[V any](m map[Sym]V) []Sym {
	var r []Sym
	for s := range m {
		r = append(r, s)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// exactKey is a complete rendering of an entry state.
func (e *Engine) exactKey(fn *ssa.Function, st *State) string {
	var b strings.Builder
	b.WriteString(fnName(fn))
	fmt.Fprintf(&b, "~%d~%v~%v~", e.producer, e.concrete, e.inlineRec)
	var regs []ssa.Value
	for r := range st.regs {
		regs = append(regs, r)
	}
	sort.Slice(regs, func(i, j int) bool { return regNum(regs[i]) < regNum(regs[j]) })
	b.WriteString(e.stateKey(st, regs, 0))
	if v, ok := st.gh.get("#in"); ok {
		writeVal(&b, v)
	}
	e.writeFacts(&b, st)
	return b.String()
}

func (e *Engine) writeFacts(b *strings.Builder, st *State) {
	var fs []string
	for s, r := range st.rng.m {
		fs = append(fs, fmt.Sprintf("r%d%v", s, r))
	}
	for k, c := range st.zone.m {
		fs = append(fs, fmt.Sprintf("z%d,%d,%d", k.a, k.b, c))
	}
	for s, m := range st.fm.m {
		fs = append(fs, fmt.Sprintf("m%d,%d", s, m))
	}
	for k, c := range st.fc.m {
		fs = append(fs, fmt.Sprintf("c%d,%d,%d", k.a, k.b, c))
	}
	for s, m := range st.sf.m {
		fs = append(fs, fmt.Sprintf("s%d,%v,%q", s, m.eq, m.s))
	}
	for s, m := range st.tm.m {
		fs = append(fs, fmt.Sprintf("t%d,%d", s, m))
	}
	sort.Strings(fs)
	b.WriteString(strings.Join(fs, ";"))
}

func (r *RecSum) stamp() int { return r.ver }

func depsValid(d map[*RecSum]int) bool {
	for r, v := range d {
		if r.ver != v {
			return false
		}
	}
	return true
}

func (e *Engine) noteDeps(fr *Frame, d map[*RecSum]int) {
	if fr == nil {
		return
	}
	for r, v := range d {
		if o, ok := fr.deps[r]; !ok || v < o {
			fr.deps[r] = v
		}
	}
}

// callFn calls fn in state st; each result is a state with the returned values.
func (e *Engine) callFn(fr *Frame, st *State, site ssa.Instruction, fn *ssa.Function, args, free []Value) []*valState {
	e.tick()
	if e.onCall != nil {
		e.hookFree = free
		if outs, ok := e.onCall(e, fr, st, site, fn, args); ok {
			for f := fr; f != nil && !e.pureCall; f = f.parent {
				f.hook = true
			}
			var r []*valState
			for _, o := range outs {
				r = append(r, &valState{o.st, retVal(o.ret)})
			}
			return r
		}
	}
	if len(fn.Blocks) == 0 || !e.P.inRepo(fn) && fn.Synthetic == "" {
		outs := e.model(fr, st, site, fn, args)
		if e.onModel != nil {
			e.onModel(fn, args, outs)
		}
		return outs
	}
	pr := e.project(st, fn, args, free)
	if pr.entry.bot {
		return nil
	}
	if !e.inlineRec {
		if e.rec[fn] {
			return e.callRec(fr, st, site, fn, pr)
		}
		for f := fr; f != nil; f = f.parent {
			if f.fn == fn {
				panic(restart{fn})
			}
		}
	}
	key := e.exactKey(fn, pr.entry)
	sum := e.memo[key]
	if sum == nil || !depsValid(sum.deps) {
		nf := e.exec(fn, pr.entry, fr, site, false)
		sum = &Summary{entry: pr.entry, deps: nf.deps, hook: nf.hook}
		for _, k := range nf.order {
			sum.outs = append(sum.outs, nf.outs[k])
		}
		if nf.hook {
			for f := fr; f != nil; f = f.parent {
				f.hook = true
			}
		} else {
			e.memo[key] = sum
		}
	}
	e.noteDeps(fr, sum.deps)
	var res []*valState
	for _, o := range sum.outs {
		if r := e.importOut(fr, st, site, pr.entry, pr.inv, o, false); r != nil {
			res = append(res, r)
		}
	}
	return res
}

func retVal(v []Value) Value {
	switch len(v) {
	case 0:
		return Tup{}
	case 1:
		return v[0]
	}
	return Tup{v}
}

var dbgRec = os.Getenv("SA_REC") != ""

func (e *Engine) callRec(fr *Frame, st *State, site ssa.Instruction, fn *ssa.Function, pr *projection) []*valState {
	var regs []ssa.Value
	for _, p := range fn.Params {
		regs = append(regs, p)
	}
	for _, p := range fn.FreeVars {
		regs = append(regs, p)
	}
	key := fmt.Sprintf("%s~%d~", fnName(fn), e.producer) + e.stateKey(pr.entry, regs, 2)
	if e.keyParam != nil {
		for i, p := range fn.Params {
			if l, ok := pr.entry.regs[p].(Lin); ok && e.keyParam(p.Type()) {
				if k, ok := pr.entry.cval(l); ok {
					key += fmt.Sprintf("~%d=%d", i, k)
				}
			}
		}
	}
	S := e.recSum[key]
	if S == nil {
		S = &RecSum{key: key, fn: fn, entry: pr.entry, outs: map[string]*Out{}, deps: map[*RecSum]int{}}
		e.recSum[key] = S
		if dbgRec {
			fmt.Println("RECNEW", key)
		}
		e.recVer++
		S.ver = e.recVer
	}
	// the lists of entry symbols play no part in the comparison
	bare := func(s *State) *State { n := s.clone(); n.gh.del("#in"); return n }
	mine := bare(pr.entry)
	m, ok := leq(mine, bare(S.entry))
	if !ok {
		S.entryN++
		n := join(bare(S.entry), mine, S.entryN > 2)
		cover(n, mine)
		n.fixIn()
		n.gc()
		S.entry = n
		S.done = false
		e.recVer++
		S.ver = e.recVer
		if S.entryN > 40 {
			panic(tooMuch{"no stable entry of recursive " + shortFn(fn)})
		}
		m, ok = leq(mine, bare(S.entry))
		if !ok {
			mm, _ := leqM(mine, bare(S.entry))
			panic(tooMuch{"join does not cover a recursive call of " + shortFn(fn) + ": " + mm.fail})
		}
	}
	if !S.onStack && (!S.done || !depsValid(S.deps)) {
		e.solveRec(fr, site, S)
		// the entry may have grown meanwhile
		m, ok = leq(mine, bare(S.entry))
		if !ok {
			panic(tooMuch{"entry of recursive " + shortFn(fn) + " shrank"})
		}
	}
	if fr != nil {
		if o, ok := fr.deps[S]; !ok || S.ver < o {
			fr.deps[S] = S.ver
		}
		if S.onStack {
			// what it rests on is looked at again in the next round, and S.ver tells if that matters
			now := map[*RecSum]int{}
			for r := range S.deps {
				now[r] = r.ver
			}
			e.noteDeps(fr, now)
		} else {
			e.noteDeps(fr, S.deps)
		}
	}
	// symbols of the summary's entry stand for values of the caller
	back := &Mapper{Sym: func(s Sym) Value { return pr.inv[s] }}
	inv := map[Sym]Value{}
	for s, v := range m {
		inv[s] = back.val(v)
	}
	var res []*valState
	for _, k := range append([]string{}, S.order...) {
		if r := e.importOut(fr, st, site, S.entry, inv, S.outs[k], true); r != nil {
			res = append(res, r)
		}
	}
	return res
}

// fixIn refreshes the list of symbols an entry state is expressed in.
func (st *State) fixIn() {
	st.gh.del("#in")
	occ := map[Sym]bool{}
	st.forVals(func(v Value) { forSymsDeep(v, occ, func(Sym) {}) })
	var cs []Sym
	for s := range occ {
		if info(s).op == "" {
			cs = append(cs, s)
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i] < cs[j] })
	var in []Value
	for _, c := range cs {
		in = append(in, symVal(c))
	}
	st.gh.set("#in", Tup{in})
}

func (e *Engine) solveRec(fr *Frame, site ssa.Instruction, S *RecSum) {
	outer := true
	for f := fr; f != nil; f = f.parent {
		if f.isRec {
			outer = false
		}
	}
	for iter := 0; ; iter++ {
		if iter > 40 {
			panic(tooMuch{"no fixpoint of recursive " + shortFn(S.fn)})
		}
		mark := e.recVer
		if dbgRec {
			fmt.Println("RECSOLVE", shortFn(S.fn), outer, iter, e.steps, len(S.outs), "from", func() string {
				if fr != nil {
					return shortFn(fr.fn)
				}
				return ""
			}())
		}
		S.onStack = true
		S.entry.fixIn()
		ent := S.entry
		nf := e.exec(S.fn, ent, fr, site, true)
		S.onStack = false
		if nf.hook && fr != nil {
			for f := fr; f != nil; f = f.parent {
				f.hook = true
			}
		}
		S.deps = nf.deps
		changed := false
		if S.entry != ent {
			changed = true
		} else {
			for _, k := range nf.order {
				o := nf.outs[k]
				old := S.outs[k]
				if old == nil {
					if dbgRec {
						fmt.Println("RECOUT", shortFn(S.fn), k)
					}
					S.outs[k] = o
					S.order = append(S.order, k)
					changed = true
					continue
				}
				if _, ok := leq(o.st, old.st); ok {
					continue
				}
				if S.visits == nil {
					S.visits = map[string]int{}
				}
				S.visits[k]++
				if dbgRec {
					mm, _ := leqM(o.st, old.st)
					fmt.Println("REC", shortFn(S.fn), S.visits[k], len(S.outs), mm.fail, "KEY", k)
				}
				n := join(old.st, o.st, S.visits[k] > 4)
				n.gc()
				S.outs[k] = &Out{st: n}
				changed = true
				if S.visits[k] > 40 {
					panic(tooMuch{"results of recursive " + shortFn(S.fn) + " do not stabilise"})
				}
			}
			S.done = true
		}
		if changed {
			e.recVer++
			S.ver = e.recVer
		}
		delete(S.deps, S)
		if !outer {
			if changed {
				S.done = false
			}
			return
		}
		if e.recVer == mark {
			S.done = true
			return
		}
	}
}

// importOut applies outcome o of a call to the caller's state.
func (e *Engine) importOut(fr *Frame, st0 *State, site ssa.Instruction, entry *State, inv map[Sym]Value, o *Out, rec bool) *valState {
	st := st0.clone()
	O := o.st
	memo := map[Sym]Sym{}
	var fresh []Sym
	m := &Mapper{Sym: func(s Sym) Value {
		if v, ok := inv[s]; ok {
			return v
		}
		i := info(s)
		if i.op != "" {
			return nil
		}
		n, ok := memo[s]
		if !ok {
			n = like(s, i.generic)
			info(n).keep = i.keep
			memo[s] = n
			fresh = append(fresh, n)
		}
		return symVal(n)
	}}
	// names of new objects
	suffix := ""
	if site != nil {
		suffix = "<" + siteName(site)
	}
	rename := map[ObjID]ObjID{}
	taken := map[ObjID]bool{}
	var newIDs []ObjID
	var ids []ObjID
	for q := range O.heap.m {
		ids = append(ids, q)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, q := range ids {
		x := O.heap.m[q]
		if x.flags&flInput != 0 {
			// an input, possibly aged inside
			continue
		}
		if _, was := entry.heap.get(q); was && objtab[q].old {
			continue
		}
		n := objtab[q]
		if e.concrete {
			for {
				o := objID(n)
				if st.obj(o) == nil && !taken[o] {
					taken[o] = true
					break
				}
				n.gen++
			}
		} else if !rec && strings.Count(n.ctx, "<") < e.ctxDepth && suffix != "" {
			n.ctx += suffix
		}
		rename[q] = objID(n)
		newIDs = append(newIDs, q)
	}
	// inputs that were aged inside the callee
	aged := map[ObjID]bool{}
	for q := range entry.heap.m {
		if objtab[q].old {
			continue
		}
		x, ok := O.heap.get(q)
		if !ok || x.flags&flInput == 0 {
			if y, ok := O.heap.get(oldName(q)); ok && y.flags&flInput != 0 {
				aged[q] = true
			}
		}
	}
	for q := range aged {
		e.forceAge(st, q)
	}
	// collisions with names in the caller
	for _, q := range newIDs {
		n := rename[q]
		if objtab[n].old {
			continue
		}
		if st.obj(n) != nil && !aged[n] {
			e.forceAge(st, n)
			aged[n] = true
		}
	}
	m.Obj = func(q ObjID) ObjID {
		if r, ok := rename[q]; ok {
			return r
		}
		if aged[q] {
			return oldName(q)
		}
		return q
	}
	// storage
	for _, q := range ids {
		x := O.heap.m[q]
		if _, isNew := rename[q]; isNew {
			n := x.mapVals(m)
			n.flags &^= flInput
			t := rename[q]
			if prev := st.obj(t); prev != nil { // summary names
				st.heap.set(t, e.mergeObj(st, prev, n))
			} else {
				st.heap.set(t, n)
			}
			continue
		}
		if was, ok := entry.heap.get(q); ok && was == x {
			continue // untouched
		}
		n := x.mapVals(m)
		t := m.Obj(q)
		cur := st.obj(t)
		var fl Flags
		if c := st0.obj(q); c != nil {
			fl = c.flags & flInput
		} else if cur != nil {
			fl = cur.flags & flInput
		}
		n.flags = n.flags&^flInput | fl
		if t != q && cur != nil {
			n.many = true
			st.heap.set(t, e.mergeObj(st, cur, n))
		} else {
			st.heap.set(t, n)
		}
	}
	if st.bot {
		return nil
	}
	// ghosts
	for g, v := range O.gh.m {
		if !strings.HasPrefix(g, "#") {
			st.gh.set(g, m.val(v))
		}
	}
	rv, _ := O.gh.get("#ret")
	ret := m.val(rv).(Tup).V
	// facts
	for s, r := range O.rng.m {
		if old, ok := entry.rng.get(s); ok && old.eq(r) {
			continue
		}
		st.meetLin(toLin(m.val(Lin{s, 0})), r)
		if st.bot {
			return nil
		}
	}
	for k, c := range O.zone.m {
		if old, ok := entry.zone.get(k); ok && old == c {
			continue
		}
		x, y := Lin{}, Lin{}
		if k.a != 0 {
			x = toLin(m.val(Lin{k.a, 0}))
		}
		if k.b != 0 {
			y = toLin(m.val(Lin{k.b, 0}))
		}
		st.addDiff(x, y, c)
		if st.bot {
			return nil
		}
	}
	for s, f := range O.fm.m {
		if x, ok := m.val(Flt{s}).(Flt); ok {
			st.fmeet(x.S, f)
			if st.bot {
				return nil
			}
		}
	}
	for k, f := range O.fc.m {
		st.fcmpMeet(m.val(Flt{k.a}).(Flt).S, m.val(Flt{k.b}).(Flt).S, f)
		if st.bot {
			return nil
		}
	}
	for s, f := range O.sf.m {
		if x, ok := m.val(Str{s}).(Str); ok {
			st.strMeet(x.S, f)
			if st.bot {
				return nil
			}
		}
	}
	for s, f := range O.tm.m {
		switch x := m.val(Opq{s}).(type) {
		case Opq:
			st.tmMeet(x.S, f)
		case Ifc:
			if f&typeBit(x.T) == 0 {
				return nil
			}
		case Nil:
			if f&1 == 0 {
				return nil
			}
		}
		if st.bot {
			return nil
		}
	}
	return &valState{st, retVal(ret)}
}

// forceAge makes o one of the older objects of its site.
func (e *Engine) forceAge(st *State, o ObjID) {
	cur := st.obj(o)
	if cur == nil {
		return
	}
	old := oldName(o)
	m := &Mapper{Obj: func(q ObjID) ObjID {
		if q == o {
			return old
		}
		return q
	}}
	e.renameObjs(st, m)
	cur = st.obj(o)
	st.heap.del(o)
	if prev := st.obj(old); prev != nil {
		st.heap.set(old, e.mergeObj(st, prev, cur))
	} else {
		st.heap.set(old, cur.copy())
	}
}

// ---- call instructions ----

func (e *Engine) call(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, dst ssa.Value) []*State {
	var args []Value
	for _, a := range c.Args {
		args = append(args, e.get(st, a))
	}
	var out []*State
	for _, r := range e.callValue(fr, st, in, c, e.get(st, c.Value), args) {
		if r.st.bot {
			continue
		}
		if dst != nil {
			r.st.regs[dst] = r.v
		}
		out = append(out, r.st)
	}
	return out
}

func (e *Engine) callValue(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, fv Value, args []Value) []*valState {
	resT := func() types.Type {
		s := c.Signature().Results()
		if s.Len() == 1 {
			return s.At(0).Type()
		}
		return s
	}
	if u, ok := fv.(Uni); ok {
		var out []*valState
		for _, a := range u.A {
			out = append(out, e.callValue(fr, st.clone(), in, c, a, args)...)
		}
		return out
	}
	if c.IsInvoke() {
		switch x := fv.(type) {
		case Nil:
			e.oblige("nil", fr, st, in, false, "method call "+c.Method.Name(), func() string { return "the interface value may be nil" })
			return nil
		case Ifc:
			return e.invoke(fr, st, in, c, x, args)
		case Opq:
			var out []*valState
			m := st.tmask(x.S)
			for i := range dynTypes {
				if m&(1<<uint(i)) == 0 {
					continue
				}
				s := st.clone()
				s.tmMeet(x.S, 1<<uint(i))
				if s.bot {
					continue
				}
				if dynTypes[i] == nil {
					e.oblige("nil", fr, s, in, false, "method call "+c.Method.Name(), func() string { return "the interface value may be nil" })
					continue
				}
				out = append(out, e.invoke(fr, s, in, c, Ifc{dynTypes[i], s.payload(x.S, dynTypes[i])}, args)...)
			}
			return out
		}
		e.unsupported(fr, in, "method call on an unknown value")
		return []*valState{{st, e.topVal("invoke", resT())}}
	}
	switch f := fv.(type) {
	case Fn:
		if f.F == nil {
			return e.builtin(fr, st, in, c, f.B, args)
		}
		return e.callFn(fr, st, in, f.F, args, f.Free)
	case Nil:
		e.oblige("nil", fr, st, in, false, "function call", func() string { return "the function value may be nil" })
		return nil
	}
	e.oblige("nil", fr, st, in, false, "function call", func() string { return "nothing is known about the function value" })
	return []*valState{{st, e.topVal("call", resT())}}
}

func (e *Engine) invoke(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, x Ifc, args []Value) []*valState {
	if x.T == e.errT {
		// the text of an error from outside
		return []*valState{{st, freshStr("errtext")}}
	}
	fn := e.P.ssa.LookupMethod(x.T, c.Method.Pkg(), c.Method.Name())
	if fn == nil {
		e.unsupported(fr, in, "method "+c.Method.Name()+" of "+typeStr(x.T))
		s := c.Signature().Results()
		var t types.Type = s
		if s.Len() == 1 {
			t = s.At(0).Type()
		}
		return []*valState{{st, e.topVal("invoke", t)}}
	}
	return e.callFn(fr, st, in, fn, append([]Value{x.V}, args...), nil)
}

func (e *Engine) runDefers(fr *Frame, st *State) []*State {
	cur := []*State{st}
	for {
		again := false
		var nx []*State
		for _, s := range cur {
			if len(s.dfr) == 0 {
				nx = append(nx, s)
				continue
			}
			again = true
			d := s.dfr[len(s.dfr)-1]
			s.dfr = s.dfr[:len(s.dfr)-1]
			for _, r := range e.callValue(fr, s, d.site, d.call, d.fn, d.args) {
				if !r.st.bot {
					nx = append(nx, r.st)
				}
			}
		}
		cur = nx
		if !again {
			return cur
		}
	}
}

// lend marks storage as lent to a goroutine.
func lend(st *State, shared []ObjID) string {
	var idl []string
	for _, o := range shared {
		if z := st.obj(o); z != nil {
			w := z.copy()
			w.flags |= flShared
			st.heap.set(o, w)
			idl = append(idl, fmt.Sprint(int(o)))
		}
	}
	return strings.Join(idl, " ")
}

func (e *Engine) goStmt(fr *Frame, st *State, in *ssa.Go) []*State {
	fv := e.get(st, in.Call.Value)
	var args []Value
	for _, a := range in.Call.Args {
		args = append(args, e.get(st, a))
	}
	lent := append([]Value{}, args...)
	if f, ok := fv.(Fn); ok {
		lent = append(lent, f.Free...)
	}
	var ch ObjID
	nch := 0
	seen := map[ObjID]bool{}
	var shared []ObjID
	var visit func(v Value)
	visit = func(v Value) {
		if c, ok := v.(ChanV); ok {
			if !seen[c.O] {
				nch++
				ch = c.O
			}
		}
		forObjs(v, func(o ObjID) {
			if seen[o] || o.isVirt() {
				return
			}
			seen[o] = true
			x := st.obj(o)
			if x == nil {
				return
			}
			if x.kind != 'h' {
				shared = append(shared, o)
			} else if _, ok := v.(ChanV); !ok {
				nch++
				ch = o
			}
			x.forVals(visit)
		})
	}
	for _, v := range lent {
		visit(v)
	}
	if nch != 1 {
		e.event("go-shape", fr, in, fmt.Sprintf("starts a goroutine with %d channels: not analysed", nch))
		return []*State{st}
	}
	x := st.obj(ch).copy()
	if x.ch.Started {
		e.event("go-shape", fr, in, "starts a second sender on one channel")
	}
	x.ch.Started = true
	st.heap.set(ch, x)
	save := e.producer
	e.producer = ch
	base := st.clone()
	var j *State
	rs := e.callValue(fr, st, in, &in.Call, fv, args)
	e.producer = save
	for _, r := range rs {
		if r.st.bot {
			continue
		}
		if j == nil {
			j = r.st
		} else {
			j = join(j, r.st, false)
		}
	}
	if j == nil {
		if dbgObs {
			fmt.Println("NOCLOSE", base)
		}
		e.event("chan-noclose", fr, in, "the goroutine never finishes")
		j = base
	}
	// few exact sequences of sends: one state for each
	exact := len(rs) <= 6 || e.concrete && len(rs) <= 200
	for _, r := range rs {
		if r.st.bot {
			continue
		}
		if y := r.st.obj(ch); y == nil || !y.qok || y.many {
			exact = false
		}
	}
	if exact && j != nil {
		var out []*State
		for _, r := range rs {
			if r.st.bot {
				continue
			}
			n := r.st.obj(ch).copy()
			n.ch.Started = true
			n.ch.Shared = lend(r.st, shared)
			r.st.heap.set(ch, n)
			out = append(out, r.st)
		}
		return out
	}
	if j != nil {
		if y := j.obj(ch); y != nil && y.qok {
			y = y.copy()
			e.collapseQ(j, y)
			j.heap.set(ch, y)
		}
	}
	// nothing the goroutine learns is known to this function: only its sends count
	res := base
	y := j.obj(ch)
	if y != nil {
		n := res.obj(ch).copy()
		jn := newJoiner(j, j, false)
		_ = jn
		// rebuild in a state with the facts of both
		keepChan := y.copy()
		n.elem, n.ch, n.q, n.qok = keepChan.elem, keepChan.ch, keepChan.q, keepChan.qok
		if n.elem != nil {
			seen := map[Sym]bool{}
			forSymsDeep(n.elem, seen, func(Sym) {})
			sel := func(s Sym) bool {
				if !seen[s] {
					return false
				}
				g := false
				forSymsDeep(symVal(s), map[Sym]bool{}, func(x Sym) { g = g || info(x).generic })
				return g
			}
			for s, r := range j.rng.m {
				if sel(s) {
					res.rng.set(s, r)
				}
			}
			for s, r := range j.tm.m {
				if sel(s) {
					res.tm.set(s, r)
				}
			}
			for k, c := range j.zone.m {
				if (k.a == 0 || seen[k.a]) && (k.b == 0 || seen[k.b]) || sel(k.a) || sel(k.b) {
					res.zone.set(k, c)
				}
			}
		}
		// new objects the channel's values refer to
		var work []ObjID
		add := func(v Value) {
			forObjs(v, func(o ObjID) {
				if o.isVirt() || res.obj(o) != nil {
					return
				}
				if z := j.obj(o); z != nil {
					res.heap.set(o, z)
					work = append(work, o)
				}
			})
		}
		add(n.elem)
		for len(work) > 0 {
			o := work[len(work)-1]
			work = work[:len(work)-1]
			res.obj(o).forVals(add)
		}
		n.ch.Shared = lend(res, shared)
		n.ch.Started = true
		res.heap.set(ch, n)
	}
	return []*State{res}
}

// ---- built-in functions ----

func (e *Engine) builtin(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, name string, args []Value) []*valState {
	one := func(v Value) []*valState { return []*valState{{st, v}} }
	// resolve alternatives of the operands
	for i, a := range args {
		if u, ok := a.(Uni); ok && name != "append" || ok && i == 0 {
			var out []*valState
			for _, x := range u.A {
				n := append([]Value{}, args...)
				n[i] = x
				t := st.clone()
				if t.chose(x); t.bot {
					continue
				}
				out = append(out, e.builtin(fr, t, in, c, name, n)...)
			}
			return out
		}
	}
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case Slc:
			if name == "cap" {
				return one(x.Cap)
			}
			return one(x.Len)
		case Str:
			return one(st.strLen(x))
		case StrBytes:
			return one(st.strLen(x.S))
		case Nil:
			return one(cInt(0))
		case MapV:
			if x.O.isVirt() {
				return one(opqTermV("om", x.O.name().virt, nil))
			}
			if o := e.obj(st, x.O); o != nil && o.mk == nil && !o.many {
				return one(cInt(int64(len(o.ents))))
			}
			return one(Lin{freshInt("maplen", 0, maxDocLen), 0})
		case Strct:
			return one(cInt(int64(len(x.F))))
		case Ptr:
			if p, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				if a, ok := p.Elem().Underlying().(*types.Array); ok {
					return one(cInt(a.Len()))
				}
			}
		}
		return one(Lin{freshInt("len", 0, maxDocLen), 0})
	case "append":
		return e.appendTo(fr, st, in, c, args)
	case "copy":
		return e.copyTo(fr, st, in, args)
	case "close":
		ch, ok := args[0].(ChanV)
		if !ok {
			e.oblige("chan", fr, st, in, false, "close", func() string { return "closes an unknown or nil channel" })
			return one(Tup{})
		}
		x := st.obj(ch.O).copy()
		if x.ch.Closed {
			e.oblige("chan", fr, st, in, false, "close", func() string { return "the channel may already have been closed" })
		}
		x.ch.Closed = true
		st.heap.set(ch.O, x)
		return one(Tup{})
	case "recover":
		return one(Nil{})
	case "print", "println":
		return one(Tup{})
	case "delete":
		if m, ok := args[0].(MapV); ok {
			e.wrote(fr, st, in, m.O)
			if o := e.obj(st, m.O); o != nil && !m.O.isVirt() {
				n := o.copy()
				n.ents = nil
				for _, en := range o.ents {
					switch e.keyEq(st, args[1], en.K) {
					case 1:
						if o.many {
							n.ents = append(n.ents, en)
						}
					case 0:
						n.ents = append(n.ents, en)
					default:
						n.mk = e.weakVal(st, n.mk, en.K, true)
						n.mv = e.weakVal(st, n.mv, en.V, true)
					}
				}
				st.heap.set(m.O, n)
			}
		}
		return one(Tup{})
	case "ssa:wrapnilchk":
		if _, ok := args[0].(Nil); ok {
			e.oblige("nil", fr, st, in, false, "method call through a nil pointer", nil)
			return nil
		}
		return one(args[0])
	case "min", "max":
		if isInt(c.Args[0].Type()) {
			cur := []*valState{{st, args[0]}}
			for _, a := range args[1:] {
				var nx []*valState
				for _, vs := range cur {
					x, y := toLin2(vs.v), toLin2(a)
					t := vs.st.clone()
					t.addDiff(x, y, 0) // x <= y
					vs.st.addDiff(y, x, -1)
					lo, hi := Value(x), Value(y)
					if name == "max" {
						lo, hi = y, x
					}
					if !t.bot {
						nx = append(nx, &valState{t, lo})
					}
					if !vs.st.bot {
						nx = append(nx, &valState{vs.st, hi})
					}
				}
				cur = nx
			}
			return cur
		}
		return one(e.topVal(name, c.Signature().Results().At(0).Type()))
	case "clear":
		if m, ok := args[0].(MapV); ok {
			e.wrote(fr, st, in, m.O)
		}
		if s, ok := args[0].(Slc); ok {
			e.wrote(fr, st, in, s.O)
		}
		e.unsupported(fr, in, "clear")
		return one(Tup{})
	case "real", "imag", "complex":
	}
	e.unsupported(fr, in, "built-in "+name)
	s := c.Signature()
	if s != nil && s.Results().Len() == 1 {
		return one(e.topVal(name, s.Results().At(0).Type()))
	}
	return one(Tup{})
}

// contents returns the cells (indexed from 0) and default of what a slice covers.
func (e *Engine) contents(st *State, s Slc) ([]ACell, Value) {
	st.tighten(s.Len.B)
	if k, ok := st.cval(s.Len); ok && k == 0 {
		return nil, nil
	}
	if s.O.isVirt() {
		v := s.O.name().virt
		if k, ok := st.cval(s.Len); ok && k <= 8 {
			var cs []ACell
			for i := int64(0); i < k; i++ {
				cs = append(cs, ACell{cInt(i), opqTermV("oe", v, []Value{linAdd(e, st, s.Off, cInt(i))})})
			}
			return cs, nil
		}
		g := newSym(&SymInfo{kind: KInt, lo: 0, hi: maxDocLen, name: "gi", generic: true})
		st.addDiff(Lin{g, 0}, linAdd(e, st, s.Off, s.Len), -1)
		if s.Off != cInt(0) {
			st.addDiff(s.Off, Lin{g, 0}, 0)
		}
		return nil, opqTermV("oe", v, []Value{Lin{g, 0}})
	}
	x := e.obj(st, s.O)
	if x == nil {
		return nil, Top{types.Typ[types.Int]}
	}
	if x.many {
		x = e.foldCells(st, x)
		return nil, x.def
	}
	var cs []ACell
	def := e.zoned(st, x, x.def, s.Off, linAdd(e, st, s.Off, s.Len))
	// is each element one of the cells?
	k, fixed := st.cval(s.Len)
	if !fixed {
		k, fixed = st.cval(s.Cap)
	}
	if fixed && k <= int64(len(x.cells)) {
		all := map[int64]bool{}
		for _, c := range x.cells {
			if q, ok := st.cval(linSub(e, st, c.I, s.Off)); ok && q >= 0 && q < k {
				all[q] = true
			}
		}
		if int64(len(all)) == k {
			def = nil
		}
	}
	for _, c := range x.cells {
		i := linSub(e, st, c.I, s.Off)
		in1, in2 := st.leq(cInt(0), i), st.lt(i, s.Len)
		if in1 && in2 {
			cs = append(cs, ACell{i, c.V})
			continue
		}
		if st.lt(i, cInt(0)) || st.leq(s.Len, i) {
			continue
		}
		def = e.weakVal(st, def, c.V, true)
	}
	return cs, def
}

func (e *Engine) appendTo(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, args []Value) []*valState {
	if len(args) == 1 {
		return []*valState{{st, args[0]}}
	}
	if u, ok := args[1].(Uni); ok {
		var out []*valState
		for _, a := range u.A {
			t := st.clone()
			if t.chose(a); t.bot {
				continue
			}
			out = append(out, e.appendTo(fr, t, in, c, []Value{args[0], a})...)
		}
		return out
	}
	var src Slc
	switch x := args[0].(type) {
	case Nil:
		src = Slc{0, cInt(0), cInt(0), cInt(0)}
	case Slc:
		src = x
	default:
		return []*valState{{st, Top{c.Args[0].Type()}}}
	}
	var add Slc
	switch x := args[1].(type) {
	case Nil:
		return []*valState{{st, args[0]}}
	case Slc:
		add = x
	default:
		// bytes of a string and the like
		o := e.newObj(fr, st, in, &Obj{kind: 'a', typ: c.Args[0].Type(), def: e.topVal("appended", c.Args[0].Type().Underlying().(*types.Slice).Elem())})
		n := Lin{freshInt("len", 0, maxDocLen), 0}
		return []*valState{{st, Slc{o, cInt(0), n, n}}}
	}
	if x := e.obj(st, src.O); src.O != 0 && !src.O.isVirt() && x != nil && x.hw != nil {
		if st.addDiff(linAdd(e, st, src.Off, src.Len), *x.hw, 0); st.bot {
			return nil
		}
		st.tighten(src.Len.B)
		if k, ok := st.cval(src.Len); ok {
			src.Len = cInt(k)
		}
	}
	if k, ok := st.cval(add.Len); ok && k == 0 {
		return []*valState{{st, args[0]}}
	}
	var out []*valState
	if !st.leq(cInt(1), add.Len) {
		// nothing to append
		t := st.clone()
		t.eqLin(add.Len, cInt(0))
		if !t.bot {
			out = append(out, &valState{t, args[0]})
		}
		st.addDiff(cInt(1), add.Len, 0)
		if st.bot {
			return out
		}
	}
	n := linAdd(e, st, src.Len, add.Len)
	if !e.concrete && n.B != 0 {
		for _, l := range []Lin{src.Len, add.Len, n} {
			if l.B == 0 {
				continue
			}
			if st.meetRange(l.B, rng1(minI, maxAnyLen-l.K)); st.bot {
				return out
			}
		}
	}
	spare := false
	if src.O != 0 && !st.leq(src.Cap, src.Len) {
		spare = true
		if st.lt(src.Cap, n) {
			spare = false
		}
	}
	if spare {
		if src.O.isVirt() {
			e.wrote(fr, st, in, src.O)
		} else if x := e.obj(st, src.O); x != nil && x.flags&(flDoc|flProg|flGlobal|flShared) != 0 {
			e.wrote(fr, st, in, src.O)
		}
	}
	// growing in place matters only when another slice may see the storage beyond the length
	if spare && !src.O.isVirt() {
		x := e.obj(st, src.O)
		if x != nil && !(x.hw != nil && (*x.hw == linAdd(e, st, src.Off, src.Len))) {
			t := st.clone()
			t.addDiff(n, src.Cap, 0)
			if !t.bot {
				cs, def := e.contents(t, add)
				end := linAdd(e, t, src.Off, src.Len)
				ok := true
				if _, isC := t.cval(add.Len); isC && def == nil {
					for _, cl := range cs {
						e.store1(t, src.O, linAdd(e, t, end, cl.I), cl.V)
					}
				} else {
					y := e.obj(t, src.O).copy()
					y.def = e.weakVal(t, y.def, def, true)
					for _, cl := range cs {
						y.def = e.weakVal(t, y.def, cl.V, true)
					}
					y.wrote(t, end, linAdd(e, t, end, add.Len))
					t.heap.set(src.O, y)
				}
				if ok && !t.bot {
					y := e.obj(t, src.O).copy()
					if y.hw != nil && !t.leq(*y.hw, linAdd(e, t, end, add.Len)) {
						y.hw = nil
					} else if y.hw != nil {
						h := linAdd(e, t, end, add.Len)
						y.hw = &h
					}
					t.heap.set(src.O, y)
					out = append(out, &valState{t, Slc{src.O, src.Off, n, src.Cap}})
				}
			}
			st.addDiff(src.Cap, n, -1)
			if st.bot {
				return out
			}
		} else if x != nil {
			if x.grew {
				e.unsupported(fr, in, "appends to storage that an earlier append may already have extended")
			}
			y := x.copy()
			y.grew = true
			st.heap.set(src.O, y)
		}
	}
	var cells []ACell
	var def Value
	if src.O != 0 {
		cells, def = e.contents(st, src)
	}
	ac, ad := e.contents(st, add)
	for _, cl := range ac {
		cells = append(cells, ACell{linAdd(e, st, src.Len, cl.I), cl.V})
	}
	if ad != nil {
		def = e.weakVal(st, def, ad, true)
	}
	h := n
	// registers first: the new object may age the one just read
	save := Tup{nil}
	for _, cl := range cells {
		save.V = append(save.V, cl.I, cl.V)
	}
	if def == nil {
		save.V = append(save.V, Nil{})
	} else {
		save.V = append(save.V, def)
	}
	st.gh.set("#app", save)
	o := e.newObj(fr, st, in, &Obj{kind: 'a', typ: c.Args[0].Type()})
	sv, _ := st.gh.get("#app")
	st.gh.del("#app")
	vs := sv.(Tup).V
	x := st.obj(o)
	x.cells = nil
	for i := 0; i+1 < len(vs); i += 2 {
		x.cells = append(x.cells, ACell{vs[i].(Lin), vs[i+1]})
	}
	if def != nil {
		x.def = vs[len(vs)-1]
	}
	x.hw = &h
	var cp Lin
	cp = Lin{freshInt("cap", 0, maxDocLen*4), 0}
	st.addDiff(n, cp, 0)
	if st.bot {
		return out
	}
	return append(out, &valState{st, Slc{o, cInt(0), n, cp}})
}

func (e *Engine) copyTo(fr *Frame, st *State, in ssa.Instruction, args []Value) []*valState {
	d, ok1 := args[0].(Slc)
	s, ok2 := args[1].(Slc)
	if _, ok := args[0].(Nil); ok {
		return []*valState{{st, cInt(0)}}
	}
	if _, ok := args[1].(Nil); ok {
		return []*valState{{st, cInt(0)}}
	}
	if !ok1 {
		return []*valState{{st, Lin{freshInt("n", 0, maxDocLen), 0}}}
	}
	if k, ok := st.cval(d.Len); ok && k == 0 {
		return []*valState{{st, cInt(0)}}
	}
	if ok2 {
		if k, ok := st.cval(s.Len); ok && k == 0 {
			return []*valState{{st, cInt(0)}}
		}
	}
	e.wrote(fr, st, in, d.O)
	if d.O.isVirt() {
		return []*valState{{st, Lin{freshInt("n", 0, maxDocLen), 0}}}
	}
	x := e.obj(st, d.O)
	if !ok2 {
		n := x.copy()
		n.def = Top{types.Typ[types.Int]}
		n.cells, n.z = nil, nil
		st.heap.set(d.O, n)
		return []*valState{{st, Lin{freshInt("n", 0, maxDocLen), 0}}}
	}
	var n Lin
	switch {
	case st.leq(s.Len, d.Len):
		n = s.Len
	case st.leq(d.Len, s.Len):
		n = d.Len
		s.Len = d.Len
	default:
		n = Lin{freshInt("n", 0, maxDocLen), 0}
		st.addDiff(n, s.Len, 0)
		st.addDiff(n, d.Len, 0)
		s.Len = n
	}
	if st.bot {
		return nil
	}
	cs, def := e.contents(st, s)
	x = e.obj(st, d.O)
	full := !x.many && d.Off == cInt(0) && st.leq(d.Len, n) && st.leq(d.Cap, d.Len)
	y := x.copy()
	if full {
		y.cells, y.def, y.z = nil, def, nil
		for _, c := range cs {
			y.cells = append(y.cells, c)
		}
		st.heap.set(d.O, y)
		return []*valState{{st, n}}
	}
	if def != nil {
		for _, c := range y.cells {
			y.def = e.weakVal(st, y.def, c.V, true)
		}
		y.cells = nil
		y.def = e.weakVal(st, y.def, def, true)
		for _, c := range cs {
			y.def = e.weakVal(st, y.def, c.V, true)
		}
		if !y.many {
			y.wrote(st, d.Off, linAdd(e, st, d.Off, n))
		}
		st.heap.set(d.O, y)
		return []*valState{{st, n}}
	}
	for _, c := range cs {
		e.store1(st, d.O, linAdd(e, st, d.Off, c.I), c.V)
	}
	return []*valState{{st, n}}
}
