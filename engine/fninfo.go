package main

import (
	"golang.org/x/tools/go/ssa"
)

// FnInfo caches register numbering, loop nesting, block order and liveness.
type FnInfo struct {
	fn     *ssa.Function
	id     int
	reg    map[ssa.Value]int
	nreg   int
	order  []int   // block index -> position in a loop-contiguous order
	loops  [][]int // block index -> enclosing loop ids, outermost first
	header []int   // loop id -> header block index
	nloops int
	livein [][]bool
	liveAt map[[2]int][]int
	inLoop []map[int]bool // loop id -> set of blocks
}

func newFnInfo(fn *ssa.Function, id int) *FnInfo {
	fi := &FnInfo{fn: fn, id: id, reg: map[ssa.Value]int{}, liveAt: map[[2]int][]int{}}
	add := func(v ssa.Value) {
		fi.reg[v] = fi.nreg
		fi.nreg++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.computeLoops()
	fi.computeLive()
	return fi
}

func (fi *FnInfo) computeLoops() {
	fn := fi.fn
	n := len(fn.Blocks)
	fi.order = make([]int, n)
	fi.loops = make([][]int, n)
	if n == 0 {
		return
	}
	// reverse postorder
	rpo := make([]int, 0, n)
	seen := make([]bool, n)
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s.Index] {
				dfs(s)
			}
		}
		rpo = append(rpo, b.Index)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover.Index] {
		// place the recover block last
		var tail []int
		save := rpo
		rpo = nil
		dfs(fn.Recover)
		tail = rpo
		rpo = append(tail, save...)
	}
	for i, j := 0, len(rpo)-1; i < j; i, j = i+1, j-1 {
		rpo[i], rpo[j] = rpo[j], rpo[i]
	}
	pos := make([]int, n)
	for i := range pos {
		pos[i] = -1
	}
	for i, b := range rpo {
		pos[b] = i
	}
	// natural loops: back edges t->h with h dominating t
	body := map[int]map[int]bool{}
	var heads []int
	for _, bi := range rpo {
		b := fn.Blocks[bi]
		for _, s := range b.Succs {
			if s.Dominates(b) {
				m := body[s.Index]
				if m == nil {
					m = map[int]bool{s.Index: true}
					body[s.Index] = m
					heads = append(heads, s.Index)
				}
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if m[x.Index] {
						continue
					}
					m[x.Index] = true
					st = append(st, x.Preds...)
				}
			}
		}
	}
	// sort heads by rpo; outermost loops come first for nesting
	for i := range heads {
		for j := i + 1; j < len(heads); j++ {
			if pos[heads[j]] < pos[heads[i]] {
				heads[i], heads[j] = heads[j], heads[i]
			}
		}
	}
	fi.header = heads
	fi.nloops = len(heads)
	for li, h := range heads {
		fi.inLoop = append(fi.inLoop, body[h])
		for b := range body[h] {
			fi.loops[b] = append(fi.loops[b], li)
		}
	}
	for b := range fi.loops { // outermost first: bigger bodies first (heads are in rpo order already)
		ls := fi.loops[b]
		for i := range ls {
			for j := i + 1; j < len(ls); j++ {
				if len(fi.inLoop[ls[j]]) > len(fi.inLoop[ls[i]]) {
					ls[i], ls[j] = ls[j], ls[i]
				}
			}
		}
	}
	// loop-contiguous order: emit in rpo, but when a loop header is reached,
	// emit its whole body (recursively) before anything else
	emitted := make([]bool, n)
	k := 0
	var emit func(set map[int]bool)
	emit = func(set map[int]bool) {
		for _, b := range rpo {
			if emitted[b] || (set != nil && !set[b]) {
				continue
			}
			li := -1
			for i, h := range heads {
				if h == b {
					li = i
				}
			}
			emitted[b] = true
			fi.order[b] = k
			k++
			if li >= 0 {
				emit(fi.inLoop[li])
			}
		}
	}
	emit(nil)
}

func (fi *FnInfo) computeLive() {
	fn := fi.fn
	n := len(fn.Blocks)
	live := make([][]bool, n) // live-in after phis (phis are defined at entry)
	for i := range live {
		live[i] = make([]bool, fi.nreg)
	}
	changed := true
	for changed {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := fi.liveOut(b, live)
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if _, ok := ins.(*ssa.Phi); ok {
					break
				}
				fi.xfer(ins, cur)
			}
			for r, v := range cur {
				if v && !live[i][r] {
					live[i][r] = true
					changed = true
				}
			}
		}
	}
	fi.livein = live
}

func (fi *FnInfo) xfer(ins ssa.Instruction, cur []bool) {
	if v, ok := ins.(ssa.Value); ok {
		cur[fi.reg[v]] = false
	}
	for _, op := range ins.Operands(nil) {
		if *op == nil {
			continue
		}
		if r, ok := fi.reg[*op]; ok {
			cur[r] = true
		}
	}
}

func (fi *FnInfo) liveOut(b *ssa.BasicBlock, live [][]bool) []bool {
	cur := make([]bool, fi.nreg)
	for _, s := range b.Succs {
		in := append([]bool(nil), live[s.Index]...)
		var phis []*ssa.Phi
		for _, ins := range s.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, p)
			in[fi.reg[p]] = false
		}
		for _, p := range phis {
			for k, pr := range s.Preds {
				if pr == b {
					if r, ok := fi.reg[p.Edges[k]]; ok {
						in[r] = true
					}
				}
			}
		}
		for r, v := range in {
			if v {
				cur[r] = true
			}
		}
	}
	return cur
}

// liveRegs lists the registers live just before instruction ip of block b.
func (fi *FnInfo) liveRegs(b *ssa.BasicBlock, ip int) []int {
	k := [2]int{b.Index, ip}
	if r, ok := fi.liveAt[k]; ok {
		return r
	}
	cur := fi.liveOut(b, fi.livein)
	for j := len(b.Instrs) - 1; j >= ip; j-- {
		ins := b.Instrs[j]
		if _, ok := ins.(*ssa.Phi); ok {
			break
		}
		fi.xfer(ins, cur)
	}
	var out []int
	for r, v := range cur {
		if v {
			out = append(out, r)
		}
	}
	fi.liveAt[k] = out
	return out
}
