package ai

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// fnInfo is the control structure of a function.
type fnInfo struct {
	fn    *ssa.Function
	rpo   []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*loopInfo // by header
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
	after map[ssa.Instruction]map[ssa.Value]bool
	pos   map[ssa.Value]int
	dead  map[*ssa.BasicBlock][]*ssa.Alloc // variables overwritten before they are read again
	bad   string
}

type loopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func (x *Interp) info(fn *ssa.Function) *fnInfo {
	if fi := x.infos[fn]; fi != nil {
		return fi
	}
	fi := &fnInfo{fn: fn, loops: map[*ssa.BasicBlock]*loopInfo{}, live: map[*ssa.BasicBlock]map[ssa.Value]bool{},
		after: map[ssa.Instruction]map[ssa.Value]bool{}, pos: map[ssa.Value]int{}}
	x.infos[fn] = fi
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo = append(fi.rpo, post[i])
	}
	num := map[*ssa.BasicBlock]int{}
	for i, b := range fi.rpo {
		num[b] = i
	}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if num[s] <= num[b] { // retreating edge
				if !s.Dominates(b) {
					fi.bad = "irreducible control flow"
					continue
				}
				l := fi.loops[s]
				if l == nil {
					l = &loopInfo{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					c := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[c] {
						continue
					}
					l.blocks[c] = true
					work = append(work, c.Preds...)
				}
			}
		}
	}
	// An RPO in which the blocks of a loop are not contiguous is fine: the
	// region walker handles a loop as one node.
	n := 0
	for _, p := range fn.Params {
		fi.pos[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		fi.pos[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				fi.pos[v] = n
				n++
			}
		}
	}
	fi.liveness()
	fi.cells()
	return fi
}

func tracked(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return v != nil
}

func (fi *fnInfo) liveness() {
	out := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fi.fn.Blocks {
		fi.live[b] = map[ssa.Value]bool{}
		out[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fi.rpo) - 1; i >= 0; i-- {
			b := fi.rpo[i]
			o := out[b]
			for _, s := range b.Succs {
				idx := -1
				for k, p := range s.Preds {
					if p == b {
						idx = k
					}
				}
				for v := range fi.live[s] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					if !o[v] {
						o[v] = true
						changed = true
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if v := ph.Edges[idx]; tracked(v) && !o[v] {
						o[v] = true
						changed = true
					}
				}
			}
			l := map[ssa.Value]bool{}
			for v := range o {
				l[v] = true
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if c, ok := in.(ssa.CallInstruction); ok {
					m := map[ssa.Value]bool{}
					for v := range l {
						m[v] = true
					}
					if v, ok := c.(ssa.Value); ok {
						delete(m, v)
					}
					fi.after[in] = m
				}
				if v, ok := in.(ssa.Value); ok {
					if _, isPhi := in.(*ssa.Phi); !isPhi {
						delete(l, v)
					} else {
						l[v] = true // defined at the entry of the block
						continue
					}
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && tracked(*op) {
						l[*op] = true
					}
				}
			}
			for v := range l {
				if !fi.live[b][v] {
					fi.live[b][v] = true
					changed = true
				}
			}
		}
	}
}

// order lists the registers of a frame in a fixed order.
func (x *Interp) order(f *Frame) []ssa.Value {
	fi := x.info(f.Fn)
	vs := make([]ssa.Value, 0, len(f.Env))
	for v := range f.Env {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return fi.pos[vs[i]] < fi.pos[vs[j]] })
	return vs
}

// cells finds the local variables whose contents do not matter at the start of
// a block: those that every path stores as a whole before using them.
func (fi *fnInfo) cells() {
	fi.dead = map[*ssa.BasicBlock][]*ssa.Alloc{}
	for _, b := range fi.fn.Blocks {
		for _, in := range b.Instrs {
			a, ok := in.(*ssa.Alloc)
			if !ok || a.Heap {
				continue
			}
			of := map[ssa.Value]bool{a: true}
			esc := false
			var walk func(v ssa.Value)
			walk = func(v ssa.Value) {
				for _, r := range *v.Referrers() {
					switch r := r.(type) {
					case *ssa.FieldAddr:
						of[r] = true
						walk(r)
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						esc = esc || of[r.Val]
					default:
						esc = true
					}
				}
			}
			walk(a)
			if esc {
				continue
			}
			// live where a use comes before a store of the whole
			use := func(b *ssa.BasicBlock) int {
				for _, in := range b.Instrs {
					if in == ssa.Instruction(a) {
						return -1
					}
					if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
						return -1
					}
					switch in := in.(type) {
					case *ssa.Store:
						if of[in.Addr] {
							return 1
						}
					case *ssa.UnOp:
						if of[in.X] {
							return 1
						}
					}
				}
				return 0
			}
			live := map[*ssa.BasicBlock]bool{}
			for changed := true; changed; {
				changed = false
				for _, b := range fi.fn.Blocks {
					if live[b] {
						continue
					}
					u := use(b)
					l := u == 1
					if u == 0 {
						for _, s := range b.Succs {
							l = l || live[s]
						}
					}
					if l {
						live[b], changed = true, true
					}
				}
			}
			for _, b := range fi.rpo {
				if !live[b] {
					fi.dead[b] = append(fi.dead[b], a)
				}
			}
		}
	}
}
