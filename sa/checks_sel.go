package main

// C18, C19, C20, C26: what is selected, in which order. Documents have a fixed shape and arbitrary leaves;
// the values selected are compared with what the documentation says, worked out here on the shape itself.

import (
	"fmt"
	"sort"
	"strings"
)

// node is a value of a shaped document, under the name build gives it.
type node struct {
	name string
	d    Doc
}

// nseq is a set of possible sequences of nodes.
type nseq [][]node

const maxSeqs = 3000

func kids(n node) []node {
	var r []node
	switch d := n.d.(type) {
	case DArr:
		for i, c := range d {
			r = append(r, node{fmt.Sprintf("%s[%d]", n.name, i), c})
		}
	case DMap:
		for _, m := range d {
			r = append(r, node{n.name + "." + m.K, m.V})
		}
	}
	return r
}

func isStruct(d Doc) bool {
	switch d.(type) {
	case DArr, DMap:
		return true
	}
	return false
}

func permute(ns []node) [][]node {
	if len(ns) <= 1 {
		return [][]node{ns}
	}
	var r [][]node
	for i := range ns {
		rest := append(append([]node{}, ns[:i]...), ns[i+1:]...)
		for _, p := range permute(rest) {
			r = append(r, append([]node{ns[i]}, p...))
		}
	}
	return r
}

// orders gives the orders in which the elements or members of n may come.
func orders(n node) nseq {
	if _, ok := n.d.(DMap); ok {
		return permute(kids(n))
	}
	return nseq{kids(n)}
}

func seqKey(s []node) string {
	var b strings.Builder
	for _, n := range s {
		b.WriteString(n.name)
		b.WriteByte(' ')
	}
	return b.String()
}

// then gives the sequences of a each followed by one of b.
func (a nseq) then(b nseq) nseq {
	seen := map[string]bool{}
	var r nseq
	for _, x := range a {
		for _, y := range b {
			z := append(append([]node{}, x...), y...)
			if k := seqKey(z); !seen[k] {
				seen[k] = true
				r = append(r, z)
			}
		}
	}
	if len(r) > maxSeqs {
		panic(tooMuch{"too many orders of members"})
	}
	return r
}

// each applies f to each node of each sequence, in order.
func (a nseq) each(f func(n node) nseq) nseq {
	seen := map[string]bool{}
	var r nseq
	for _, x := range a {
		acc := nseq{nil}
		for _, n := range x {
			acc = acc.then(f(n))
		}
		for _, z := range acc {
			if k := seqKey(z); !seen[k] {
				seen[k] = true
				r = append(r, z)
			}
		}
	}
	return r
}

// walk gives the arrays and objects in n, each before those it contains.
func walk(n node) nseq {
	if !isStruct(n.d) {
		return nseq{nil}
	}
	r := nseq{}
	for _, o := range orders(n) {
		acc := nseq{{n}}
		for _, k := range o {
			acc = acc.then(walk(k))
		}
		r = append(r, acc...)
	}
	return dedup(r)
}

func dedup(a nseq) nseq {
	seen := map[string]bool{}
	var r nseq
	for _, x := range a {
		if k := seqKey(x); !seen[k] {
			seen[k] = true
			r = append(r, x)
		}
	}
	return r
}

// sstep is a step of a path: selectors, or (filter > 0) a filter.
type sstep struct {
	text   string
	nest   bool
	sels   []interface{} // "*" as wildT{}, string, int, [3]*int
	dotInt bool          // .n: no negative index
	filter int
	all    bool // a filter that always holds
}
type wildT struct{}

func pick(n node, sel interface{}, dotInt bool) nseq {
	switch s := sel.(type) {
	case wildT:
		return orders(n)
	case string:
		if d, ok := n.d.(DMap); ok {
			for _, m := range d {
				if m.K == s {
					return nseq{{node{n.name + "." + s, m.V}}}
				}
			}
		}
	case int:
		if d, ok := n.d.(DArr); ok {
			i := s
			if i < 0 && !dotInt {
				i += len(d)
			}
			if i >= 0 && i < len(d) {
				return nseq{{kids(n)[i]}}
			}
		}
	case [3]*int:
		if d, ok := n.d.(DArr); ok {
			var r []node
			ks := kids(n)
			for _, i := range refSlice(s, len(d)) {
				r = append(r, ks[i])
			}
			return nseq{r}
		}
	}
	return nseq{nil}
}

// refSlice gives the indices [start:end:stride] selects of an array of length l.
func refSlice(s [3]*int, l int) []int {
	stride := 1
	if s[2] != nil {
		stride = *s[2]
	}
	var r []int
	if stride == 0 {
		return nil
	}
	norm := func(p *int, def, lo, hi int) int {
		if p == nil {
			return def
		}
		x := *p
		if x < 0 {
			x += l
		}
		return max(lo, min(hi, x))
	}
	if stride > 0 {
		for i, e := norm(s[0], 0, 0, l), norm(s[1], l, 0, l); i < e; i += stride {
			r = append(r, i)
		}
	} else {
		for i, e := norm(s[0], l-1, -1, l-1), norm(s[1], -1, -1, l-1); i > e; i += stride {
			r = append(r, i)
		}
	}
	return r
}

func (a nseq) step(st sstep) nseq {
	visit := func(n node) nseq {
		acc := nseq{nil}
		for _, s := range st.sels {
			acc = acc.then(pick(n, s, st.dotInt))
		}
		return acc
	}
	if st.nest {
		return a.each(func(n node) nseq { return walk(n).each(visit) })
	}
	return a.each(visit)
}

// candidates of a filter
func (a nseq) cands(st sstep) nseq {
	if st.nest {
		return a.each(walk)
	}
	return a.each(orders)
}

// ---- matching what the analysis found ----

// nameOf gives the name of the node of the document that v is: "?" for null, "" for none.
func (s *Suite) nameOf(st *State, v Value) string {
	opq := func(y Sym) string {
		if i := info(y); i.op == "" && i.prov == "doc" {
			return i.name
		}
		return ""
	}
	of := func(y Sym) string {
		if i := info(y); len(i.args) > 0 {
			if o, ok := i.args[0].(Opq); ok {
				return opq(o.S)
			}
		}
		return ""
	}
	switch v := v.(type) {
	case Nil:
		return "?"
	case Opq:
		return opq(v.S)
	case Ifc:
		switch x := v.V.(type) {
		case Slc:
			if x.O == 0 || x.O.isVirt() {
				return ""
			}
			n, ok := strings.CutPrefix(x.O.name().site, "doc:")
			y := s.e.obj(st, x.O)
			if !ok || y == nil || x.Off != cInt(0) {
				return ""
			}
			if k, ok := st.cval(x.Len); !ok || k != int64(len(y.cells)) {
				return ""
			}
			return n
		case MapV:
			if x.O.isVirt() {
				return ""
			}
			n, ok := strings.CutPrefix(x.O.name().site, "doc:")
			if !ok {
				return ""
			}
			return n
		case Bl:
			return of(x.S)
		case Lin:
			return of(x.B)
		case Flt:
			return of(x.S)
		case Str:
			return of(x.S)
		}
	}
	return ""
}

// listOf2 gives the names of the elements of a result.
func (s *Suite) resultNames(st *State, v Value) ([]string, string) {
	sl, ok := v.(Slc)
	if !ok {
		if _, ok := v.(Nil); ok {
			return nil, ""
		}
		return nil, "the result is " + vStr(v)
	}
	els, why := s.e.listOf(st, sl)
	if why != "" {
		return nil, why
	}
	var r []string
	for _, x := range els {
		n := s.nameOf(st, x)
		if n == "" {
			return nil, "a result is " + s.e.show(st, x)
		}
		r = append(r, n)
	}
	return r, ""
}

func (a nseq) has(names []string) bool {
	for _, x := range a {
		if len(x) != len(names) {
			continue
		}
		ok := true
		for i, n := range x {
			if n.name != names[i] && !(names[i] == "?" && !isStruct(n.d)) {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func (a nseq) String() string {
	var r []string
	for i, x := range a {
		if i == 4 {
			r = append(r, "...")
			break
		}
		r = append(r, "["+strings.TrimSpace(seqKey(x))+"]")
	}
	return strings.Join(r, " or ")
}

// leaf stands for an arbitrary scalar of the document, named after its place.
type leaf struct{}

func nameLeaves(d Doc, name string) Doc {
	switch d := d.(type) {
	case leaf:
		return DAny{name, "nil bool float64 string"}
	case DArr:
		r := DArr{}
		for i, c := range d {
			r = append(r, nameLeaves(c, fmt.Sprintf("%s[%d]", name, i)))
		}
		return r
	case DMap:
		r := DMap{}
		for _, m := range d {
			r = append(r, DMem{m.K, nameLeaves(m.V, name+"."+m.K)})
		}
		return r
	}
	return d
}

func docText(d Doc) string {
	switch d := d.(type) {
	case leaf, DAny:
		return "x"
	case DArr:
		var r []string
		for _, c := range d {
			r = append(r, docText(c))
		}
		return "[" + strings.Join(r, ",") + "]"
	case DMap:
		var r []string
		for _, m := range d {
			r = append(r, m.K+":"+docText(m.V))
		}
		return "{" + strings.Join(r, ",") + "}"
	}
	return fmt.Sprintf("%#v", d)
}

// traced notes what obs(k, @, $, ...) was given and answers with an arbitrary truth value.
func (s *Suite) traced(root *Value, extra func(st *State, args []Value)) {
	s.obs = func(fr *Frame, st *State, args []Value) Value {
		k := "?"
		if len(args) > 0 {
			if i, ok := args[0].(Ifc); ok {
				if l, ok := i.V.(Lin); ok {
					if c, ok := st.cval(l); ok {
						k = fmt.Sprint(c)
					}
				}
			}
		}
		if len(args) < 2 {
			return nil
		}
		b := freshBool("keep")
		var t Tup
		if old, ok := st.gh.get("trace" + k); ok {
			t.V = append(t.V, old.(Tup).V...)
		}
		t.V = append(t.V, args[1], b)
		st.gh.set("trace"+k, t)
		if extra != nil {
			extra(st, args)
		}
		return Ifc{boolT, b}
	}
}

// trace gives the candidates obs(k, ...) saw and which of them it accepted.
func (s *Suite) trace(st *State, k int) (names []string, kept []bool, why string) {
	t, ok := st.gh.get(fmt.Sprintf("trace%d", k))
	if !ok {
		return
	}
	vs := t.(Tup).V
	for i := 0; i < len(vs); i += 2 {
		n := s.nameOf(st, vs[i])
		if n == "" {
			return nil, nil, "@ is " + s.e.show(st, vs[i])
		}
		b, ok := st.bval(vs[i+1].(Bl))
		if !ok {
			return nil, nil, "the decision on " + n + " does not matter"
		}
		names, kept = append(names, n), append(kept, b)
	}
	return
}

// selCheck compares one outcome with the reference.
func (s *Suite) selCheck(o *RunOut, d Doc, steps []sstep) string {
	cur := nseq{{node{"root", d}}}
	if _, ok := o.err.(Nil); !ok {
		return "evaluation fails"
	}
	for i, st := range steps {
		if st.filter == 0 {
			cur = cur.step(st)
			continue
		}
		names, kept, why := s.trace(o.st, st.filter)
		if why != "" {
			return why
		}
		c := cur.cands(st)
		if !c.has(names) {
			return fmt.Sprintf("the filter of step %d considers [%s], not %s", i+1, strings.Join(names, " "), c)
		}
		seen := map[string]bool{}
		var next nseq
		for _, x := range c {
			if !(nseq{x}).has(names) {
				continue
			}
			var r []node
			for j, n := range x {
				if kept[j] {
					r = append(r, n)
				}
			}
			if k := seqKey(r); !seen[k] {
				seen[k] = true
				next = append(next, r)
			}
		}
		cur = next
	}
	names, why := s.resultNames(o.st, o.vals)
	if why != "" {
		return why
	}
	if !cur.has(names) {
		return fmt.Sprintf("the results are [%s], not %s", strings.Join(names, " "), cur)
	}
	return ""
}

func selJob(rule string, d Doc, steps []sstep, look func(s *Suite, st *State, root Value, args []Value)) *Job {
	text := "$"
	for _, s := range steps {
		text += s.text
	}
	name := text + " on " + docText(d)
	return &Job{Name: name, Run: func(P *Prog, r *Result) {
		s := newSuite(P, r)
		d := nameLeaves(d, "root")
		var root Value
		s.traced(&root, func(st *State, args []Value) {
			if look != nil {
				look(s, st, root, args)
			}
		})
		n := 0
		acc, _ := s.run(&Tmpl{text: text}, func(st *State) Value { root = s.build(st, d, "root", flDoc); return root }, runOpt{concrete: true}, func(o *RunOut) {
			n++
			if why := s.selCheck(o, d, steps); why != "" {
				r.viol(rule, name, "", name+" selects something else", why)
			}
		})
		if acc == 0 || n == 0 {
			r.viol("coverage", name, "", name+" is not evaluated", "")
		}
		r.Count["selections compared"] += n
		r.Count["expressions on shapes"]++
		s.undecided()
	}}
}

var selDocs = []Doc{
	leaf{}, DArr{}, DMap{}, DArr{leaf{}}, DMap{{"a", leaf{}}},
	DArr{leaf{}, leaf{}, leaf{}},
	DMap{{"a", leaf{}}, {"b", leaf{}}, {"c", leaf{}}},
	DArr{DArr{leaf{}, leaf{}}, DArr{leaf{}}},
	DArr{DMap{{"a", leaf{}}}, DMap{{"b", leaf{}}}, DMap{{"a", leaf{}}}},
	DMap{{"a", DArr{leaf{}, leaf{}}}, {"b", DMap{{"a", leaf{}}}}},
	DArr{DArr{}, leaf{}, DMap{}, DArr{leaf{}}},
	DMap{{"a", DMap{{"a", DMap{{"a", leaf{}}}}}}},
	DArr{DArr{DArr{leaf{}}}, leaf{}},
	DMap{{"a", DArr{DMap{{"a", leaf{}}}, leaf{}}}, {"b", leaf{}}},
	DArr{DMap{{"a", DArr{leaf{}}}, {"b", leaf{}}}, DArr{leaf{}, DMap{{"a", leaf{}}}}},
}

func ip(i int) *int { return &i }

func one(text string, sels ...interface{}) sstep { return sstep{text: text, sels: sels} }
func nest(text string, sels ...interface{}) sstep {
	return sstep{text: text, sels: sels, nest: true}
}

var selSteps = []sstep{
	one("[*]", wildT{}), one(".*", wildT{}), one(".a", "a"), one("['a']", "a"), one("[0]", 0), one("[-1]", -1), {text: ".0", sels: []interface{}{0}, dotInt: true},
	one("['b','a']", "b", "a"), one("[1,0,-1,1]", 1, 0, -1, 1), one("['a',0,1:3]", "a", 0, [3]*int{ip(1), ip(3), nil}), one("[0:2]", [3]*int{ip(0), ip(2), nil}), one("[::-1]", [3]*int{nil, nil, ip(-1)}),
	nest("..a", "a"), nest("..*", wildT{}), nest("..[*]", wildT{}), nest("..[0]", 0), nest("..[-1]", -1), nest("..['b','a',0]", "b", "a", 0), nest("..[1:]", [3]*int{ip(1), nil, nil}),
}

func filt(k int) sstep { return sstep{text: fmt.Sprintf("[?(obs(%d,@,$))]", k), filter: k} }
func nfilt(k int) sstep {
	return sstep{text: fmt.Sprintf("..[?(obs(%d,@,$))]", k), filter: k, nest: true}
}

// small keeps out combinations whose number of orders explodes.
func small(d Doc, steps []sstep) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	cur := nseq{{node{"root", d}}}
	n := 0
	for _, st := range steps {
		if st.filter > 0 {
			cur = cur.cands(st)
			for _, x := range cur {
				n = max(n, len(x))
			}
		} else {
			cur = cur.step(st)
		}
	}
	return len(cur) <= 300 && n <= 6
}

func init() {
	register(&CheckDef{ID: "C19",
		Rule: "for each kind of step and pair of steps, on documents of each shape in a family with arbitrary scalars as leaves, on every path and for every order of members, the sequence of results and the sequence of candidates a filter considers are among those the reference gives for the shape.",
		Jobs: func(P *Prog, th bool) []*Job {
			var js []*Job
			add := func(d Doc, steps ...sstep) {
				if small(d, steps) {
					js = append(js, selJob("selection", d, steps, nil))
				}
			}
			firsts := []int{0, 4, 7, 12, 13, 15, 17}
			for _, d := range selDocs {
				for _, a := range selSteps {
					add(d, a)
				}
				add(d, filt(1))
				add(d, nfilt(1))
			}
			for i, d := range selDocs {
				if i < 7 && !th {
					continue
				}
				for _, ai := range firsts {
					a := selSteps[ai]
					for _, bi := range firsts {
						add(d, a, selSteps[bi])
					}
					add(d, a, filt(1))
					add(d, filt(1), a)
					add(d, nfilt(1), a)
					add(d, a, nfilt(1))
					if th {
						for _, bi := range firsts {
							add(d, a, filt(1), selSteps[bi])
							add(d, filt(1), a, selSteps[bi])
						}
					}
				}
				add(d, filt(1), filt(2))
				add(d, nfilt(1), filt(2))
				add(d, filt(1), nfilt(2))
			}
			return js
		},
		Min: map[string]int{"expressions on shapes": 500, "selections compared": 2000},
	})
}

var _ = sort.Strings

// ---- C18 ----

func sliceText(s [3]string) string {
	t := "[" + s[0] + ":" + s[1]
	if s[2] != "" {
		t += ":" + s[2]
	}
	return t + "]"
}

// bound is a class of values of a slice's bound: one value, or everything beyond one.
type bound struct {
	k   int // the value, or (beyond != 0) the nearest value of the class
	inf int // -1: and everything below; 1: and everything above
	no  bool
}

func (b bound) String() string {
	switch {
	case b.no:
		return "omitted"
	case b.inf < 0:
		return fmt.Sprintf("<=%d", b.k)
	case b.inf > 0:
		return fmt.Sprintf(">=%d", b.k)
	}
	return fmt.Sprint(b.k)
}

func bounds(l int) []bound {
	r := []bound{{no: true}}
	for k := -l - 1; k <= l+1; k++ {
		r = append(r, bound{k: k})
	}
	return append(r, bound{k: -l - 2, inf: -1}, bound{k: l + 2, inf: 1})
}

func (b bound) hole(i int64, t *Tmpl) string {
	if b.no {
		return ""
	}
	var v Value
	switch {
	case b.inf < 0:
		v = Lin{freshInt("H", minI, int64(b.k)), 0}
	case b.inf > 0:
		v = Lin{freshInt("H", int64(b.k), maxI), 0}
	default:
		v = cInt(int64(b.k))
	}
	t.holes[holeBase+i] = v
	return fmt.Sprint(holeBase + i)
}

func (b bound) ref() *int {
	if b.no {
		return nil
	}
	return &b.k
}

func sliceJob(l int, stride bound, form string) *Job {
	name := fmt.Sprintf("$"+form+" with stride %s, %d elements", "[start:end:stride]", stride, l)
	return &Job{Name: name, Run: func(P *Prog, r *Result) {
		d := DArr{}
		for i := 0; i < l; i++ {
			d = append(d, leaf{})
		}
		doc := nameLeaves(d, "root")
		s := newSuite(P, r)
		for _, a := range bounds(l) {
			for _, b := range bounds(l) {
				t := &Tmpl{holes: map[int64]Value{}}
				t.text = "$" + fmt.Sprintf(form, sliceText([3]string{a.hole(1, t), b.hole(2, t), stride.hole(3, t)}))
				want := nseq{nil}
				for _, i := range refSlice([3]*int{a.ref(), b.ref(), stride.ref()}, l) {
					want[0] = append(want[0], node{fmt.Sprintf("root[%d]", i), leaf{}})
				}
				what := fmt.Sprintf("start %s, end %s, stride %s, %d elements (%s)", a, b, stride, l, fmt.Sprintf(form, "[start:end:stride]"))
				n := 0
				s.run(t, func(st *State) Value { return s.build(st, doc, "root", flDoc) }, runOpt{concrete: true}, func(o *RunOut) {
					n++
					if _, ok := o.err.(Nil); !ok {
						r.viol("slice", what, "", what+": evaluation fails", "")
						return
					}
					names, why := s.resultNames(o.st, o.vals)
					if why == "" && !want.has(names) {
						why = fmt.Sprintf("selects [%s], not %s", strings.Join(names, " "), want)
					}
					if why != "" {
						r.viol("slice", what, "", what+" selects something else", why)
					}
				})
				if n == 0 {
					r.viol("coverage", what, "", what+" is not evaluated", "")
				}
				r.Count["slices compared"] += n
			}
		}
		s.collect(nil)
	}}
}

// indexJob follows [n] and .n for every n on an array of unknown length.
func indexJob(text string, dot bool, sign int) *Job {
	name := fmt.Sprintf("%s with n of sign %d on an array of any length", text, sign)
	return &Job{Name: name, Run: func(P *Prog, r *Result) {
		s := newSuite(P, r)
		lo, hi := int64(minI), int64(maxI)
		if sign < 0 {
			hi = -1
		} else {
			lo = 0
		}
		n := Lin{freshInt("n", lo, hi), 0}
		t := &Tmpl{text: strings.ReplaceAll(text, "N", fmt.Sprint(holeBase+1)), holes: map[int64]Value{holeBase + 1: n}, keep: true}
		root := func(st *State) Value {
			doc := freshOpq("doc", docMask, "doc")
			st.tmMeet(doc.S, typeBit(sliceAny))
			st.gh.set("doc", doc)
			return Ifc{sliceAny, st.payload(doc.S, sliceAny)}
		}
		cnt := 0
		s.run(t, root, runOpt{}, func(o *RunOut) {
			cnt++
			r.Count["index outcomes"]++
			bad := func(why string) { r.viol("index", name, "", name+" selects something else", why) }
			if _, ok := o.err.(Nil); !ok {
				bad("evaluation fails")
				return
			}
			st := o.st.clone()
			gn, _ := st.gh.get("hole1")
			gd, _ := st.gh.get("doc")
			n, ok1 := gn.(Lin)
			doc, ok2 := gd.(Opq)
			if !ok1 || !ok2 {
				bad("the document is no longer known: " + vStr(gd) + " " + vStr(gn))
				return
			}
			ln := opqTermV("ol", doc.S, nil).(Lin)
			// the state's own idea of n
			in := func(st *State, neg bool) bool { // may n select an element?
				t := st.clone()
				if neg {
					// -len <= n < 0: written as n + len >= 0
					t.meetLin(n, rng1(minI, -1))
					if t.bot {
						return false
					}
					sum := linAdd(s.e, t, n, ln)
					t.meetLin(sum, rng1(0, maxI))
					t.tighten(n.B)
					return !t.bot
				}
				t.addDiff(cInt(0), n, 0)
				t.addDiff(n, ln, -1)
				return !t.bot
			}
			for _, v := range s.alts(o.vals) {
				sl, ok := v.(Slc)
				if !ok {
					bad("the result is " + vStr(v))
					continue
				}
				k, ok := st.cval(sl.Len)
				if !ok {
					bad("the number of results is not known")
					continue
				}
				switch k {
				case 0:
					if in(st, false) {
						bad("nothing, though n may be a valid index")
					}
					if !dot && in(st, true) {
						bad("nothing, though n may be a valid negative index")
					}
				case 1:
					els, why := s.e.listOf(st, sl)
					if why != "" {
						bad(why)
						continue
					}
					want := n
					if sign < 0 {
						if dot {
							bad("a negative index selects something")
							continue
						}
						want = linAdd(s.e, st, n, ln)
					}
					el := opqTermV("oe", doc.S, []Value{want})
					if !sameVal(els[0], el) {
						idx, ok := elemIndex(els[0], doc.S)
						if !ok || !(st.leq(idx, want) && st.leq(want, idx)) {
							bad(fmt.Sprintf("%s, not element %s", vStr(els[0]), vStr(want)))
						}
					}
				default:
					bad(fmt.Sprintf("%d results", k))
				}
			}
		})
		if cnt == 0 {
			r.viol("coverage", name, "", name+" is not evaluated", "")
		}
		s.collect(nil)
	}}
}

// indexShapeJob follows an index, by classes of values, on arrays of one small length, also nested and in unions.
func indexShapeJob(l int) *Job {
	name := fmt.Sprintf("indices of arrays of %d elements", l)
	return &Job{Name: name, Run: func(P *Prog, r *Result) {
		s := newSuite(P, r)
		arr := func() DArr {
			d := DArr{}
			for i := 0; i < l; i++ {
				d = append(d, leaf{})
			}
			return d
		}
		type form struct {
			text string
			doc  Doc
			dot  bool
			ref  func(root node, sel interface{}) nseq
		}
		at := func(n node, sel interface{}) nseq { return pick(n, sel, false) }
		forms := []form{
			{"$[N]", arr(), false, at},
			{"$.N", arr(), true, at},
			{"$[N,0]", arr(), false, func(n node, sel interface{}) nseq { return at(n, sel).then(at(n, 0)) }},
			{"$['a',N]", arr(), false, at},
			{"$.a[N]", DMap{{"a", arr()}}, false, func(n node, sel interface{}) nseq { return at(kids(n)[0], sel) }},
			{"$[*][N]", DArr{arr(), leaf{}, arr()}, false, func(n node, sel interface{}) nseq {
				ks := kids(n)
				return at(ks[0], sel).then(at(ks[2], sel))
			}},
			{"$..[N]", DArr{arr()}, false, func(n node, sel interface{}) nseq { return at(n, sel).then(at(kids(n)[0], sel)) }},
		}
		for _, f := range forms {
			for _, b := range bounds(l) {
				if b.no || f.dot && (b.k < 0 || b.inf < 0) {
					continue
				}
				t := &Tmpl{holes: map[int64]Value{}}
				t.text = strings.ReplaceAll(f.text, "N", b.hole(1, t))
				doc := nameLeaves(f.doc, "root")
				want := f.ref(node{"root", doc}, b.k)
				what := fmt.Sprintf("%s with N %s, arrays of %d elements", f.text, b, l)
				n := 0
				s.run(t, func(st *State) Value { return s.build(st, doc, "root", flDoc) }, runOpt{concrete: true}, func(o *RunOut) {
					n++
					if _, ok := o.err.(Nil); !ok {
						r.viol("index", what, "", what+": evaluation fails", "")
						return
					}
					names, why := s.resultNames(o.st, o.vals)
					if why == "" && !want.has(names) {
						why = fmt.Sprintf("selects [%s], not %s", strings.Join(names, " "), want)
					}
					if why != "" {
						r.viol("index", what, "", what+" selects something else", why)
					}
				})
				if n == 0 {
					r.viol("coverage", what, "", what+" is not evaluated", "")
				}
				r.Count["indices compared"] += n
			}
		}
		s.collect(nil)
	}}
}

// elemIndex gives i when v is element i of the array root.
func elemIndex(v Value, root Sym) (Lin, bool) {
	o, ok := v.(Opq)
	if !ok {
		return Lin{}, false
	}
	i := info(o.S)
	if i.op != "oe" || len(i.args) != 2 {
		return Lin{}, false
	}
	if p, ok := i.args[0].(Opq); !ok || p.S != root {
		return Lin{}, false
	}
	l, ok := i.args[1].(Lin)
	return l, ok
}

func init() {
	register(&CheckDef{ID: "C18",
		Rule: "[n] and .n with an arbitrary 64-bit n on an array of arbitrary length select exactly the documented element; [start:end:stride], with each bound omitted, any value near the length, or any value beyond, selects exactly the documented elements of an array of each small length.",
		Jobs: func(P *Prog, th bool) []*Job {
			var js []*Job
			for _, sign := range []int{-1, 1} {
				js = append(js, indexJob("$[N]", false, sign), indexJob("$['a',N]", false, sign))
				if sign > 0 {
					js = append(js, indexJob("$.N", true, sign))
				}
			}
			top := 4
			if th {
				top = 7
			}
			for l := 0; l <= top; l++ {
				js = append(js, indexShapeJob(l))
				for _, b := range bounds(l) {
					js = append(js, sliceJob(l, b, "%s"))
				}
			}
			return js
		},
		Min: map[string]int{"slices compared": 1000, "index outcomes": 10, "indices compared": 150},
	})
}
