package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- sets of integers as sorted disjoint intervals ----

type iv struct{ lo, hi int64 }
type RSet []iv

const minI, maxI = math.MinInt64, math.MaxInt64

func rng1(lo, hi int64) RSet {
	if lo > hi {
		return nil
	}
	return RSet{{lo, hi}}
}
func (r RSet) empty() bool { return len(r) == 0 }
func (r RSet) lo() int64   { return r[0].lo }
func (r RSet) hi() int64   { return r[len(r)-1].hi }
func (r RSet) has(k int64) bool {
	for _, x := range r {
		if x.lo <= k && k <= x.hi {
			return true
		}
	}
	return false
}
func (r RSet) single() (int64, bool) {
	if len(r) == 1 && r[0].lo == r[0].hi {
		return r[0].lo, true
	}
	return 0, false
}
func (r RSet) meet(s RSet) RSet {
	var o RSet
	i, j := 0, 0
	for i < len(r) && j < len(s) {
		lo, hi := max(r[i].lo, s[j].lo), min(r[i].hi, s[j].hi)
		if lo <= hi {
			o = append(o, iv{lo, hi})
		}
		if r[i].hi < s[j].hi {
			i++
		} else {
			j++
		}
	}
	return o
}
func (r RSet) join(s RSet) RSet {
	all := append(append(RSet{}, r...), s...)
	sort.Slice(all, func(i, j int) bool { return all[i].lo < all[j].lo })
	var o RSet
	for _, x := range all {
		if n := len(o); n > 0 && (o[n-1].hi == maxI || x.lo <= o[n-1].hi+1) {
			if x.hi > o[n-1].hi {
				o[n-1].hi = x.hi
			}
			continue
		}
		o = append(o, x)
	}
	for len(o) > 90 { // merge the closest pair
		b := 0
		for i := 0; i+1 < len(o); i++ {
			if o[i+1].lo-o[i].hi < o[b+1].lo-o[b].hi {
				b = i
			}
		}
		o[b].hi = o[b+1].hi
		o = append(o[:b+1], o[b+2:]...)
	}
	return o
}
func (r RSet) without(k int64) RSet {
	var o RSet
	for _, x := range r {
		if k < x.lo || k > x.hi {
			o = append(o, x)
			continue
		}
		if x.lo < k {
			o = append(o, iv{x.lo, k - 1})
		}
		if k < x.hi {
			o = append(o, iv{k + 1, x.hi})
		}
	}
	return o
}
func satAdd(a, b int64) int64 {
	c := a + b
	if b > 0 && c < a {
		return maxI
	}
	if b < 0 && c > a {
		return minI
	}
	return c
}
func (r RSet) shift(k int64) RSet {
	o := make(RSet, 0, len(r))
	for _, x := range r {
		o = append(o, iv{satAdd(x.lo, k), satAdd(x.hi, k)})
	}
	return o
}
func (r RSet) eq(s RSet) bool {
	if len(r) != len(s) {
		return false
	}
	for i := range r {
		if r[i] != s[i] {
			return false
		}
	}
	return true
}
func (r RSet) subset(s RSet) bool { return r.meet(s).eq(r) }
func (r RSet) String() string {
	var a []string
	for _, x := range r {
		if x.lo == x.hi {
			a = append(a, fmt.Sprint(x.lo))
		} else {
			l, h := fmt.Sprint(x.lo), fmt.Sprint(x.hi)
			if x.lo == minI {
				l = "min"
			}
			if x.hi == maxI {
				h = "max"
			}
			a = append(a, l+".."+h)
		}
	}
	return "{" + strings.Join(a, ",") + "}"
}

// ---- copy-on-write maps ----

type cm[K comparable, V any] struct {
	m  map[K]V
	sh bool
	v  int64 // identifies the contents
}

var cmVersion int64

func (c *cm[K, V]) clone() cm[K, V] { c.sh = true; return cm[K, V]{c.m, true, c.v} }
func (c *cm[K, V]) own() {
	if c.sh || c.m == nil {
		n := make(map[K]V, len(c.m)+4)
		for k, v := range c.m {
			n[k] = v
		}
		c.m, c.sh = n, false
	}
}
func (c *cm[K, V]) set(k K, v V) { c.own(); c.m[k] = v; cmVersion++; c.v = cmVersion }
func (c *cm[K, V]) del(k K) {
	if _, ok := c.m[k]; ok {
		c.own()
		delete(c.m, k)
		cmVersion++
		c.v = cmVersion
	}
}
func (c *cm[K, V]) get(k K) (V, bool) { v, ok := c.m[k]; return v, ok }

type sp struct{ a, b Sym }

// StrFact: finite set of constants, or a finite set of excluded constants.
type StrFact struct {
	eq bool
	s  []string // sorted
}

const (
	fNeg  uint8 = 1 << iota // < 0
	fZero                   // +0 or -0
	fPos                    // > 0
	fNaN
	fAll = fNeg | fZero | fPos | fNaN
)
const (
	cLT uint8 = 1 << iota
	cEQ
	cGT
	cUN  // unordered
	cAll = cLT | cEQ | cGT | cUN
)

// ---- heap objects ----

type Obj struct {
	kind  byte // 'c' cell (any value), 'a' array, 'm' map, 'h' channel, 'i' iterator
	typ   types.Type
	many  bool // stands for several concrete objects
	flags Flags
	val   Value   // 'c','i'
	cells []ACell // 'a': exactly known elements
	def   Value   // 'a': all other elements (nil: none known yet)
	ents  []MEnt  // 'm': known entries (distinct keys)
	mk    Value   // 'm': summary key (nil: no other entries)
	mv    Value   // 'm': summary value
	elem  Value   // 'h': values sent (nil: none), when not listed in q
	q     []Value // 'h': values sent and not yet received, in order
	qok   bool    // 'h': q is exact
	ch    ChanSt
	hw    *Lin  // 'a': no slice of this array reaches beyond this index
	z     *Zone // 'a': the elements not written since the array was made (nil: none)
	grew  bool  // 'a': its storage may have been extended by an append whose result is another object here
}

// Zone is a range of array elements that may still have the zero value v; def says nothing about them.
type Zone struct {
	lo, hi Lin
	v      Value
}

// zoned adds the zero value to v if the elements [lo, hi) of x may include one not yet written.
func (e *Engine) zoned(st *State, x *Obj, v Value, lo, hi Lin) Value {
	if z := x.z; z != nil && !st.leq(z.hi, lo) && !st.leq(hi, z.lo) && !x.written(st) {
		return e.weakVal(st, v, z.v, true)
	}
	return v
}

// unzone forgets which elements of an array were not yet written.
func (e *Engine) unzone(st *State, x *Obj) *Obj {
	if x.z == nil {
		return x
	}
	n := x.copy()
	if !x.written(st) {
		n.def = e.weakVal(st, x.def, x.z.v, true)
	}
	n.z = nil
	return n
}

// written reports whether every element in view of some slice has been written since the array was made.
func (x *Obj) written(st *State) bool {
	z := x.z
	return z == nil || st.leq(z.hi, z.lo) || x.hw != nil && st.leq(*x.hw, z.lo)
}

// wrote notes that the elements [lo, hi) of the array have been written.
func (x *Obj) wrote(st *State, lo, hi Lin) {
	z := x.z
	if z == nil {
		return
	}
	switch {
	case st.leq(lo, z.lo) && st.leq(z.lo, hi):
		x.z = &Zone{hi, z.hi, z.v}
	case st.leq(z.hi, hi) && st.leq(lo, z.hi):
		x.z = &Zone{z.lo, lo, z.v}
	}
}

type ACell struct {
	I Lin
	V Value
}
type MEnt struct{ K, V Value }
type ChanSt struct {
	Started bool // a goroutine that sends on it was started
	Closed  bool // certainly closed once everything was received
	Drained bool
	Buf     bool
	Shared  string // objects lent to the sending goroutine (ids)
}
type Flags uint16

const (
	flGlobal Flags = 1 << iota // reachable from a package-level variable after initialisation
	flProg                     // part of a compiled program
	flDoc
	flShared // lent to a running goroutine
	flInput  // existed when the analysed function was entered
	flSeed
)

func (o *Obj) copy() *Obj { n := *o; return &n }

// State is one disjunct of the abstract state of a function activation.
type State struct {
	regs map[ssa.Value]Value
	heap cm[ObjID, *Obj]
	rng  cm[Sym, RSet]
	zone cm[sp, int64] // a - b <= c
	zg   *zgraph
	fm   cm[Sym, uint8]
	fc   cm[sp, uint8]
	sf   cm[Sym, StrFact]
	tm   cm[Sym, TMask]
	gh   cm[string, Value] // ghost variables of the checks
	dfr  []deferred
	bot  bool
	why  []string                // trail for reports
	hist map[int]map[string]bool // passes seen, by loop head (never modified in place)
}

type deferred struct {
	site ssa.Instruction
	fn   Value
	args []Value
	call *ssa.CallCommon
}

func newState() *State {
	return &State{regs: map[ssa.Value]Value{}}
}

func (s *State) clone() *State {
	n := &State{regs: make(map[ssa.Value]Value, len(s.regs)+2), heap: s.heap.clone(), rng: s.rng.clone(), zone: s.zone.clone(),
		fm: s.fm.clone(), fc: s.fc.clone(), sf: s.sf.clone(), tm: s.tm.clone(), gh: s.gh.clone(), bot: s.bot, hist: s.hist, zg: s.zg}
	for k, v := range s.regs {
		n.regs[k] = v
	}
	n.dfr = append([]deferred{}, s.dfr...)
	n.why = s.why[:len(s.why):len(s.why)]
	return n
}

func (s *State) obj(o ObjID) *Obj { x, _ := s.heap.get(o); return x }

// ---- integer facts ----

func (s *State) baseRange(b Sym) RSet {
	if r, ok := s.rng.get(b); ok {
		return r
	}
	i := info(b)
	return rng1(i.lo, i.hi)
}

// rangeOf returns the possible values of l from interval facts and bounds implied by difference constraints.
func (s *State) rangeOf(l Lin) RSet {
	if l.B == 0 {
		return rng1(l.K, l.K)
	}
	r := s.baseRange(l.B)
	if s.inZone(l.B) {
		hi := s.diff(l.B, 0)
		lo := s.diff(0, l.B)
		a, b := int64(minI), int64(maxI)
		if hi != inf {
			b = hi
		}
		if lo != inf {
			a = -lo
		}
		r = r.meet(rng1(a, b))
	}
	return r.shift(l.K)
}

func (s *State) inZone(b Sym) bool {
	if len(s.zone.m) == 0 {
		return false
	}
	_, ok := s.graph().idx[b]
	return ok
}

const inf = int64(math.MaxInt64)

// zgraph is the graph of the difference constraints and ranges of a state.
type zgraph struct {
	zv, rv int64
	idx    map[Sym]int
	syms   []Sym
	adj    [][]zedge
	dist   [][]int64
}

type zedge struct {
	to int
	c  int64
}

func (s *State) graph() *zgraph {
	if g := s.zg; g != nil && g.zv == s.zone.v && g.rv == s.rng.v {
		return g
	}
	g := &zgraph{zv: s.zone.v, rv: s.rng.v, idx: map[Sym]int{0: 0}, syms: []Sym{0}, adj: [][]zedge{nil}}
	node := func(x Sym) int {
		i, ok := g.idx[x]
		if !ok {
			i = len(g.syms)
			g.idx[x] = i
			g.syms = append(g.syms, x)
			g.adj = append(g.adj, nil)
			r := s.baseRange(x)
			if !r.empty() {
				if r.hi() != maxI { // x - 0 <= hi
					g.adj[i] = append(g.adj[i], zedge{0, r.hi()})
				}
				if r.lo() != minI { // 0 - x <= -lo
					g.adj[0] = append(g.adj[0], zedge{i, -r.lo()})
				}
			}
		}
		return i
	}
	for k, c := range s.zone.m {
		a, b := node(k.a), node(k.b)
		g.adj[a] = append(g.adj[a], zedge{b, c})
	}
	g.dist = make([][]int64, len(g.syms))
	s.zg = g
	return g
}

func (g *zgraph) from(x int) []int64 {
	if d := g.dist[x]; d != nil {
		return d
	}
	n := len(g.syms)
	d := make([]int64, n)
	for i := range d {
		d[i] = inf
	}
	d[x] = 0
	q := []int{x}
	inq := make([]bool, n)
	inq[x] = true
	steps := 0
	for len(q) > 0 {
		y := q[0]
		q = q[1:]
		inq[y] = false
		steps++
		if steps > 4000 {
			break
		}
		for _, e := range g.adj[y] {
			nd := satAdd(d[y], e.c)
			if nd == inf {
				continue
			}
			if nd < -(1 << 62) {
				nd = -(1 << 62)
			}
			if nd < d[e.to] {
				d[e.to] = nd
				if !inq[e.to] {
					inq[e.to] = true
					q = append(q, e.to)
				}
			}
		}
	}
	g.dist[x] = d
	return d
}

// zdist gives the least c known with from - x <= c.
type zdist struct {
	s    *State
	g    *zgraph
	from Sym
	d    []int64 // nil: from is not in the graph
	hi   int64   // and at most hi
}

func (s *State) sssp(from Sym) zdist {
	g := s.graph()
	if i, ok := g.idx[from]; ok {
		return zdist{s, g, from, g.from(i), 0}
	}
	z := zdist{s, g, from, nil, inf}
	if r := s.baseRange(from); !r.empty() && r.hi() != maxI {
		z.hi = r.hi()
	}
	return z
}

func (z zdist) get(x Sym) int64 {
	if x == z.from {
		return 0
	}
	i, ok := z.g.idx[x]
	if z.d != nil {
		if ok {
			return z.d[i]
		}
		return inf
	}
	if !ok || z.hi == inf {
		return inf
	}
	c := z.g.from(0)[i]
	if c == inf {
		return inf
	}
	return satAdd(z.hi, c)
}

// diff returns the least known c with a - b <= c (inf when none).
func (s *State) diff(a, b Sym) int64 {
	if a == b {
		return 0
	}
	d := s.sssp(a)
	best := d.get(b)
	if b != 0 {
		if v := d.get(0); v != inf { // a <= v and b >= lo
			r := s.baseRange(b)
			if !r.empty() && r.lo() != minI {
				if c := satAdd(v, -r.lo()); c < best {
					best = c
				}
			}
		}
	}
	return best
}

// diffL returns the least known c with x - y <= c.
func (s *State) diffL(x, y Lin) int64 {
	if x.B == y.B {
		return satAdd(x.K, -y.K)
	}
	var c int64
	if s.inZone(x.B) || s.inZone(y.B) {
		c = s.diff(x.B, y.B)
	} else {
		hi, lo := int64(0), int64(0)
		if x.B != 0 {
			r := s.baseRange(x.B)
			if r.empty() {
				return -1 << 40
			}
			hi = r.hi()
		}
		if y.B != 0 {
			r := s.baseRange(y.B)
			if r.empty() {
				return -1 << 40
			}
			lo = r.lo()
		}
		if hi == maxI || lo == minI {
			c = inf
		} else {
			c = satAdd(hi, -lo)
			if lo < 0 && hi > 0 && c < 0 {
				c = inf
			}
		}
	}
	if c == inf {
		return inf
	}
	return satAdd(satAdd(c, x.K), -y.K)
}

func (s *State) leq(x, y Lin) bool { return s.diffL(x, y) <= 0 }
func (s *State) lt(x, y Lin) bool  { return s.diffL(x, y) <= -1 }

// addDiff records x - y <= c.
func (s *State) addDiff(x, y Lin, c int64) {
	if s.bot {
		return
	}
	if x.B == y.B {
		if satAdd(x.K, -y.K) > c {
			s.bot = true
		}
		return
	}
	c = satAdd(satAdd(c, -x.K), y.K)
	if c == inf {
		return
	}
	if back := s.diffL(Lin{y.B, 0}, Lin{x.B, 0}); back != inf && satAdd(back, c) < 0 {
		s.bot = true
		return
	}
	switch {
	case y.B == 0:
		s.meetRange(x.B, rng1(minI, c))
	case x.B == 0:
		s.meetRange(y.B, rng1(-c, maxI))
	default:
		if cur := s.diffL(Lin{x.B, 0}, Lin{y.B, 0}); cur <= c {
			return
		}
		s.zone.set(sp{x.B, y.B}, c)
		s.tighten(x.B)
		s.tighten(y.B)
		s.closeEq(x.B, y.B)
	}
}

// closeEq: x - y = c exactly is kept as both constraints; nothing to do here, substitution is done by callers.
func (s *State) closeEq(x, y Sym) {}

func (s *State) tighten(b Sym) {
	if b == 0 || s.bot {
		return
	}
	r := s.baseRange(b)
	n := s.rangeOf(Lin{b, 0})
	if n.empty() {
		s.bot = true
		return
	}
	if !n.eq(r) {
		s.rng.set(b, n)
	}
}

func (s *State) meetRange(b Sym, r RSet) {
	if s.bot {
		return
	}
	if b == 0 {
		if !r.has(0) {
			s.bot = true
		}
		return
	}
	o := s.baseRange(b)
	n := o.meet(r)
	if n.empty() {
		s.bot = true
		return
	}
	if !n.eq(o) {
		s.rng.set(b, n)
		if s.inZone(b) {
			n2 := s.rangeOf(Lin{b, 0})
			if n2.empty() {
				s.bot = true
				return
			}
			if !n2.eq(n) {
				s.rng.set(b, n2)
			}
		}
		s.lenLink(b)
	}
}

// lenLink keeps string facts in step with the string's length.
func (s *State) lenLink(b Sym) {
	i := info(b)
	if i.op == "strlen" {
		r := s.baseRange(b)
		str := i.args[0].(Str)
		if k, ok := r.single(); ok && k == 0 {
			s.strMeet(str.S, StrFact{true, []string{""}})
		} else if !r.has(0) {
			s.strMeet(str.S, StrFact{false, []string{""}})
		}
	}
}

func (s *State) meetLin(l Lin, r RSet) { s.meetRangeK(l.B, r.shift(-l.K), l.K, r) }
func (s *State) meetRangeK(b Sym, r RSet, k int64, orig RSet) {
	if b == 0 {
		if !orig.has(k) {
			s.bot = true
		}
		return
	}
	s.meetRange(b, r)
}

func (s *State) eqLin(x, y Lin) {
	s.addDiff(x, y, 0)
	s.addDiff(y, x, 0)
	if s.bot {
		return
	}
	// propagate the range set
	rx := s.rangeOf(x)
	s.meetLin(y, rx)
	if !s.bot {
		s.meetLin(x, s.rangeOf(y))
	}
}

func (s *State) neLin(x, y Lin) {
	if x.B == y.B {
		if x.K == y.K {
			s.bot = true
		}
		return
	}
	if y.B == 0 {
		s.meetLin(x, rng1(minI, maxI).without(y.K))
		return
	}
	if x.B == 0 {
		s.meetLin(y, rng1(minI, maxI).without(x.K))
		return
	}
	if k, ok := s.rangeOf(y).single(); ok {
		s.meetLin(x, rng1(minI, maxI).without(k))
		return
	}
	if k, ok := s.rangeOf(x).single(); ok {
		s.meetLin(y, rng1(minI, maxI).without(k))
		return
	}
	d1, d2 := s.diffL(x, y), s.diffL(y, x)
	if d1 == 0 && d2 == 0 {
		s.bot = true
		return
	}
	if d1 == 0 {
		s.addDiff(x, y, -1)
	} else if d2 == 0 {
		s.addDiff(y, x, -1)
	}
}

// cval returns the constant value of an integer, using facts.
func (s *State) cval(l Lin) (int64, bool) {
	if l.B == 0 {
		return l.K, true
	}
	if k, ok := s.baseRange(l.B).single(); ok {
		return k + l.K, true
	}
	return 0, false
}

// ---- booleans ----

func (s *State) bval(b Bl) (bool, bool) {
	if b.S == 0 {
		return b.C == 1, true
	}
	if k, ok := s.baseRange(b.S).single(); ok {
		return k == 1, true
	}
	return false, false
}

// ---- strings ----

func (s *State) strFact(y Sym) (StrFact, bool) {
	if info(y).op == "sconst" {
		return StrFact{true, []string{info(y).sval}}, true
	}
	return s.sf.get(y)
}

func (s *State) sval(x Str) (string, bool) {
	if f, ok := s.strFact(x.S); ok && f.eq && len(f.s) == 1 {
		return f.s[0], true
	}
	return "", false
}

func setHas(a []string, x string) bool {
	i := sort.SearchStrings(a, x)
	return i < len(a) && a[i] == x
}
func setAdd(a []string, b ...string) []string {
	m := map[string]bool{}
	for _, x := range a {
		m[x] = true
	}
	for _, x := range b {
		m[x] = true
	}
	var r []string
	for x := range m {
		r = append(r, x)
	}
	sort.Strings(r)
	return r
}

func sfMeet(a, b StrFact) StrFact {
	switch {
	case a.eq && b.eq:
		r := StrFact{eq: true}
		for _, x := range a.s {
			if setHas(b.s, x) {
				r.s = append(r.s, x)
			}
		}
		return r
	case a.eq:
		r := StrFact{eq: true}
		for _, x := range a.s {
			if !setHas(b.s, x) {
				r.s = append(r.s, x)
			}
		}
		return r
	case b.eq:
		return sfMeet(b, a)
	}
	return StrFact{false, setAdd(a.s, b.s...)}
}

func sfJoin(a, b StrFact, aok, bok bool) (StrFact, bool) {
	if !aok || !bok {
		return StrFact{}, false
	}
	switch {
	case a.eq && b.eq:
		u := setAdd(a.s, b.s...)
		if len(u) > 80 {
			return StrFact{}, false
		}
		return StrFact{true, u}, true
	case a.eq:
		return sfJoin(b, a, bok, aok)
	case b.eq:
		var r []string
		for _, x := range a.s {
			if !setHas(b.s, x) {
				r = append(r, x)
			}
		}
		return StrFact{false, r}, len(r) > 0
	}
	var r []string
	for _, x := range a.s {
		if setHas(b.s, x) {
			r = append(r, x)
		}
	}
	return StrFact{false, r}, len(r) > 0
}

func sfImplies(a StrFact, aok bool, b StrFact) bool {
	if !aok {
		return false
	}
	m := sfMeet(a, b)
	if a.eq {
		return len(m.s) == len(a.s)
	}
	if b.eq {
		return false
	}
	return len(m.s) == len(a.s)
}

func (s *State) strMeet(y Sym, f StrFact) {
	if s.bot {
		return
	}
	old, ok := s.strFact(y)
	n := f
	if ok {
		n = sfMeet(old, f)
	}
	if n.eq && len(n.s) == 0 {
		s.bot = true
		return
	}
	if info(y).op == "sconst" {
		return
	}
	if ok && n.eq == old.eq && len(n.s) == len(old.s) {
		return
	}
	s.sf.set(y, n)
	l := s.strLen(Str{y})
	if n.eq {
		r := RSet{}
		for _, x := range n.s {
			r = r.join(rng1(int64(len(x)), int64(len(x))))
		}
		s.meetLin(l, r)
	} else if setHas(n.s, "") {
		s.meetLin(l, rng1(1, maxI))
	}
}

const maxTextLen = int64(1) << 40

func (s *State) strLen(x Str) Lin {
	i := info(x.S)
	if i.op == "sconst" {
		return cInt(int64(len(i.sval)))
	}
	return Lin{term(KInt, "strlen", 0, maxTextLen, x), 0}
}

func (s *State) strByte(x Str, i Lin) Value {
	if c, ok := s.sval(x); ok {
		if k, ok := s.cval(i); ok && k >= 0 && k < int64(len(c)) {
			return cInt(int64(c[k]))
		}
	}
	return Lin{term(KInt, "idx", 0, 255, x, i), 0}
}

// ---- floats ----

func (s *State) fmask(f Sym) uint8 {
	i := info(f)
	if i.op == "fconst" {
		switch {
		case i.fval != i.fval:
			return fNaN
		case i.fval < 0:
			return fNeg
		case i.fval > 0:
			return fPos
		}
		return fZero
	}
	if m, ok := s.fm.get(f); ok {
		return m
	}
	if i.op == "i2f" {
		r := s.rangeOf(i.args[0].(Lin))
		m := uint8(0)
		if r.lo() < 0 {
			m |= fNeg
		}
		if r.hi() > 0 {
			m |= fPos
		}
		if r.has(0) {
			m |= fZero
		}
		return m
	}
	return fAll
}

func (s *State) fmeet(f Sym, m uint8) {
	o := s.fmask(f)
	n := o & m
	if n == 0 {
		s.bot = true
		return
	}
	if n != o {
		i := info(f)
		if i.op == "fconst" {
			return
		}
		if i.op == "i2f" {
			r := RSet{}
			if n&fNeg != 0 {
				r = r.join(rng1(minI, -1))
			}
			if n&fZero != 0 {
				r = r.join(rng1(0, 0))
			}
			if n&fPos != 0 {
				r = r.join(rng1(1, maxI))
			}
			s.meetLin(i.args[0].(Lin), r)
			return
		}
		s.fm.set(f, n)
	}
}

// fcmp returns the possible orderings of x against y.
func (s *State) fcmp(x, y Sym) uint8 {
	ix, iy := info(x), info(y)
	if ix.op == "fconst" && iy.op == "fconst" {
		a, b := ix.fval, iy.fval
		switch {
		case a < b:
			return cLT
		case a > b:
			return cGT
		case a == b:
			return cEQ
		}
		return cUN
	}
	mx, my := s.fmask(x), s.fmask(y)
	var m uint8
	if (mx|my)&fNaN != 0 {
		m |= cUN
	}
	lt := mx&fNeg != 0 && my&(fNeg|fZero|fPos) != 0 || mx&fZero != 0 && my&fPos != 0 || mx&fPos != 0 && my&fPos != 0
	gt := my&fNeg != 0 && mx&(fNeg|fZero|fPos) != 0 || my&fZero != 0 && mx&fPos != 0 || mx&fPos != 0 && my&fPos != 0
	eq := mx&my&(fNeg|fZero|fPos) != 0
	if lt {
		m |= cLT
	}
	if gt {
		m |= cGT
	}
	if eq {
		m |= cEQ
	}
	if x == y {
		return m & (cEQ | cUN)
	}
	if f, ok := s.fc.get(sp{x, y}); ok {
		m &= f
	}
	if f, ok := s.fc.get(sp{y, x}); ok {
		m &= flipC(f)
	}
	return m
}

func flipC(m uint8) uint8 {
	r := m & (cEQ | cUN)
	if m&cLT != 0 {
		r |= cGT
	}
	if m&cGT != 0 {
		r |= cLT
	}
	return r
}

func (s *State) fcmpMeet(x, y Sym, m uint8) {
	o := s.fcmp(x, y)
	n := o & m
	if n == 0 {
		s.bot = true
		return
	}
	if n == o {
		return
	}
	if x > y {
		x, y, n = y, x, flipC(n)
	}
	if x != y {
		s.fc.set(sp{x, y}, n)
	}
	if n&cUN == 0 {
		s.fmeet(x, fNeg|fZero|fPos)
		s.fmeet(y, fNeg|fZero|fPos)
	}
	if s.bot {
		return
	}
	// class refinement
	ref := func(a, b Sym, n uint8) { // refine a given ordering a?b
		mb := s.fmask(b)
		var ok uint8
		for _, ca := range []uint8{fNeg, fZero, fPos, fNaN} {
			for _, cb := range []uint8{fNeg, fZero, fPos, fNaN} {
				if mb&cb == 0 {
					continue
				}
				var p uint8
				switch {
				case ca == fNaN || cb == fNaN:
					p = cUN
				case ca < cb:
					p = cLT
				case ca > cb:
					p = cGT
				case ca == fZero:
					p = cEQ
				default:
					p = cLT | cEQ | cGT
				}
				if p&n != 0 {
					ok |= ca
				}
			}
		}
		s.fmeet(a, ok)
	}
	ref(x, y, n)
	if !s.bot {
		ref(y, x, flipC(n))
	}
}

// ---- opaque interface values ----

func (s *State) tmask(o Sym) TMask {
	m, ok := s.tm.get(o)
	i := info(o)
	if !ok {
		m = i.tm
	}
	if i.op == "lexval" {
		m &= lexMask(s.rangeOf(i.args[0].(Lin)))
	}
	return m
}

// lexTypes tells which tokens come with a value of which types.
var lexTypes []struct {
	toks RSet
	m    TMask
}

func lexMask(r RSet) TMask {
	var m TMask
	for _, c := range lexTypes {
		if !c.toks.meet(r).empty() {
			m |= c.m
		}
	}
	return m
}

func (s *State) tmMeet(o Sym, m TMask) {
	n := s.tmask(o) & m
	if n == 0 {
		s.bot = true
		return
	}
	if n != s.tmask(o) {
		s.tm.set(o, n)
	}
}

// payload returns the value carried by opaque o when its dynamic type is t.
func (s *State) payload(o Sym, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			l := opqTermV("ob", o, nil).(Lin)
			return Bl{l.B, 0}
		case u.Info()&types.IsFloat != 0:
			return opqTermV("of", o, nil)
		case u.Info()&types.IsString != 0:
			return opqTermV("os", o, nil)
		case u.Kind() == types.Int64:
			return opqTermV("oi", o, nil)
		}
	case *types.Slice:
		ln := opqTermV("ol", o, nil).(Lin)
		cp := opqTermV("oc", o, nil).(Lin)
		s.addDiff(ln, cp, 0)
		return Slc{virtObj(o, 'a'), cInt(0), ln, cp}
	case *types.Map:
		return MapV{virtObj(o, 'm')}
	case *types.Pointer:
		if payloadHook != nil {
			if v := payloadHook(t); v != nil {
				return v
			}
		}
	}
	return Top{t}
}

func (s *State) String() string {
	var b strings.Builder
	type rv struct {
		n string
		v Value
	}
	var rs []rv
	for r, v := range s.regs {
		rs = append(rs, rv{r.Name(), v})
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].n < rs[j].n })
	for _, r := range rs {
		fmt.Fprintf(&b, "  %s = %s\n", r.n, vStr(r.v))
	}
	var os []ObjID
	for o := range s.heap.m {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i] < os[j] })
	for _, o := range os {
		x := s.obj(o)
		fmt.Fprintf(&b, "  %s [%c many=%v fl=%x]: ", o, x.kind, x.many, x.flags)
		switch x.kind {
		case 'a':
			for _, c := range x.cells {
				fmt.Fprintf(&b, "[%s]=%s ", vStr(c.I), vStr(c.V))
			}
			fmt.Fprintf(&b, "[*]=%s", vStr(x.def))
			if x.z != nil {
				fmt.Fprintf(&b, " [%s:%s]=%s", vStr(x.z.lo), vStr(x.z.hi), vStr(x.z.v))
			}
			if x.hw != nil {
				fmt.Fprintf(&b, " hw=%s", vStr(*x.hw))
			}
		case 'm':
			for _, c := range x.ents {
				fmt.Fprintf(&b, "%s:%s ", vStr(c.K), vStr(c.V))
			}
			fmt.Fprintf(&b, "*%s:%s", vStr(x.mk), vStr(x.mv))
		case 'h':
			fmt.Fprintf(&b, "elem %s q %v %s %+v", vStr(x.elem), x.qok, vStr(Tup{x.q}), x.ch)
		default:
			b.WriteString(vStr(x.val))
		}
		b.WriteByte('\n')
	}
	var f []string
	for k, r := range s.rng.m {
		f = append(f, symStr(k)+" in "+r.String())
	}
	for k, c := range s.zone.m {
		f = append(f, fmt.Sprintf("%s - %s <= %d", symStr(k.a), symStr(k.b), c))
	}
	for k, m := range s.fm.m {
		f = append(f, fmt.Sprintf("fclass %s %b", symStr(k), m))
	}
	for k, m := range s.fc.m {
		f = append(f, fmt.Sprintf("fcmp %s %s %b", symStr(k.a), symStr(k.b), m))
	}
	for k, m := range s.sf.m {
		f = append(f, fmt.Sprintf("str %s eq=%v %q", symStr(k), m.eq, m.s))
	}
	for k, m := range s.tm.m {
		f = append(f, fmt.Sprintf("type %s %s", symStr(k), tmStr(m)))
	}
	for k, m := range s.gh.m {
		f = append(f, fmt.Sprintf("ghost %s=%s", k, vStr(m)))
	}
	sort.Strings(f)
	for _, x := range f {
		b.WriteString("  | " + x + "\n")
	}
	return b.String()
}
