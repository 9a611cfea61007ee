package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// FnInfo caches control-flow facts of a function.
type FnInfo struct {
	fn     *ssa.Function
	prio   []int // block index -> position in the iteration order (loops before what follows them)
	head   []bool
	join   []bool
	live   []map[ssa.Value]bool // live-in, excluding phis of the block
	loopOf []map[int]bool       // head block -> blocks of its natural loop
	idx    map[ssa.Instruction]int
}

var fninfos = map[*ssa.Function]*FnInfo{}

func fnInfo(fn *ssa.Function) *FnInfo {
	if fi, ok := fninfos[fn]; ok {
		return fi
	}
	n := len(fn.Blocks)
	fi := &FnInfo{fn: fn, prio: make([]int, n), head: make([]bool, n), join: make([]bool, n), live: make([]map[ssa.Value]bool, n),
		loopOf: make([]map[int]bool, n), idx: map[ssa.Instruction]int{}}
	fninfos[fn] = fi
	k := len(regNums)
	num := func(v ssa.Value) {
		if _, ok := regNums[v]; !ok {
			k++
			regNums[v] = k
		}
	}
	for _, p := range fn.Params {
		num(p)
	}
	for _, p := range fn.FreeVars {
		num(p)
	}
	c := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			fi.idx[in] = c
			c++
			if v, ok := in.(ssa.Value); ok {
				num(v)
			}
		}
		fi.join[b.Index] = len(b.Preds) > 1
	}
	// loops (reducible): back edge = edge to a dominator
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				fi.head[s.Index] = true
				l := fi.loopOf[s.Index]
				if l == nil {
					l = map[int]bool{s.Index: true}
					fi.loopOf[s.Index] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l[x.Index] {
						continue
					}
					l[x.Index] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	// iteration order: reverse postorder, exits of the innermost loop explored first
	seen := make([]bool, n)
	var post []int
	inner := func(b int) map[int]bool {
		var best map[int]bool
		for h := range fi.loopOf {
			if l := fi.loopOf[h]; l != nil && l[b] && (best == nil || len(l) < len(best)) {
				best = l
			}
		}
		return best
	}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		l := inner(b.Index)
		for pass := 0; pass < 2; pass++ {
			for _, s := range b.Succs {
				out := l != nil && !l[s.Index]
				if out == (pass == 0) && !seen[s.Index] {
					dfs(s)
				}
			}
		}
		post = append(post, b.Index)
	}
	if n > 0 {
		dfs(fn.Blocks[0])
		if fn.Recover != nil && !seen[fn.Recover.Index] {
			dfs(fn.Recover)
		}
	}
	for i, b := range post {
		fi.prio[b] = len(post) - i
	}
	// liveness
	for i := range fi.live {
		fi.live[i] = map[ssa.Value]bool{}
	}
	isReg := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			l := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range fi.live[s.Index] {
					l[v] = true
				}
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					// a block may be a predecessor twice
					for k, p := range s.Preds {
						if p == b && isReg(ph.Edges[k]) {
							l[ph.Edges[k]] = true
						}
					}
					_ = pi
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					delete(l, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && isReg(*op) {
						l[*op] = true
					}
				}
			}
			if len(l) != len(fi.live[i]) {
				ch = true
			} else {
				for v := range l {
					if !fi.live[i][v] {
						ch = true
						break
					}
				}
			}
			fi.live[i] = l
		}
	}
	return fi
}

// siteName names an instruction independently of line numbers.
func siteName(in ssa.Instruction) string {
	fi := fnInfo(in.Parent())
	return fmt.Sprintf("%s#%d", shortFn(in.Parent()), fi.idx[in])
}

func shortFn(f *ssa.Function) string {
	s := f.RelString(nil)
	if p := pkgOf(f); p != nil {
		s = f.RelString(p)
		if p.Name() != "" {
			s = p.Name() + "." + s
		}
	}
	return s
}
