package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract interpretation of SSA over value graphs.  States carry a condition
// (decision diagram) and are merged at every control-flow join; loops with a
// constant trip count are unrolled, the others are summarised by widening.
// Nothing is executed and no solver is involved: branches are decided only by
// the interval facts and the diagram of the path condition.

type State struct {
	pc  *B
	mem map[*Obj]Val
}

func (s *State) clone() *State {
	m := make(map[*Obj]Val, len(s.mem)+8)
	for k, v := range s.mem {
		m[k] = v
	}
	return &State{s.pc, m}
}

type Oblig struct {
	fn    *ssa.Function
	pos   token.Pos
	kind  string
	bad   bool
	cond  *B
	pc    *B
	stack string
}

type modelFn func(in *Interp, c *callCtx) (Val, bool)

type callCtx struct {
	st   *State
	args []Val
	fn   *ssa.Function
	sig  *types.Signature
	pos  token.Pos
	call ssa.CallInstruction
	rep  *State // set by a model that forks
}

type Interp struct {
	blsG1, blsG2 func(c *callCtx, i int) *T
	permUsed     int
	opq          []opaqueCall
	p            *Prog
	tt           *Terms
	base         map[*Obj]Val
	globals      map[*ssa.Global]*Obj
	models       map[string]modelFn
	info         map[*ssa.Function]*fnInfo
	factMemo     map[int]*Facts
	factCost     int
	nobj         int
	obl          map[string]*Oblig
	oblOrder     []string
	stack        []*ssa.Function
	bitSelect    bool
	maskPoly     bool
	unk          []string // constructs the analysis could not interpret
	unkSeen      map[string]bool
	nsteps       int
	maxSteps     int
	rands        int
	reads        []*ReadEv
	trace        bool
	skipLoops    map[string]bool
	calls        map[string]int
	quiet        int // >0: obligations are not recorded
	events       []Event
	inited       bool
	initing      bool
	errObjs      map[string]*Obj
}

// Event: something a model wants the checks to see (random reads, hash calls).
type Event struct {
	kind string
	pc   *B
	fn   *ssa.Function
	pos  token.Pos
	t    []*T
	v    Val
}

type ReadEv struct {
	name string
	n    *T
	fn   *ssa.Function
	pos  token.Pos
}

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loop
	// exit tests on loop-varying values decided during this iteration
	decided int
	vary    map[ssa.Value]bool
}

// varies: does this exit test depend on a value that changes from iteration to
// iteration (a header phi, or memory reached through a pointer)?
func (in *Interp) varies(L *loop, v ssa.Value) bool {
	if L.vary == nil {
		L.vary = map[ssa.Value]bool{}
	}
	if r, ok := L.vary[v]; ok {
		return r
	}
	L.vary[v] = false
	ins, ok := v.(ssa.Instruction)
	if !ok || !L.blocks[ins.Block()] {
		return false
	}
	r := false
	switch x := v.(type) {
	case *ssa.Phi:
		if x.Block() == L.header {
			r = true
			break
		}
		for _, e := range x.Edges {
			if in.varies(L, e) {
				r = true
			}
		}
	default:
		for _, o := range ins.Operands(nil) {
			if *o == nil {
				continue
			}
			if _, call := v.(*ssa.Call); call && isBigInt(derefT((*o).Type())) {
				r = true
			}
			if in.varies(L, *o) {
				r = true
			}
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if _, al := u.X.(*ssa.Alloc); al {
				r = true
			}
		}
	}
	L.vary[v] = r
	return r
}

type fnInfo struct {
	fn    *ssa.Function
	idx   map[ssa.Value]int
	rpo   []*ssa.BasicBlock
	inner map[*ssa.BasicBlock]*loop
	heads map[*ssa.BasicBlock]*loop
}

type frame struct {
	fi    *fnInfo
	binds []Val
	rets  []retArr
	depth int
}

type retArr struct {
	st  *State
	val Val
}

type arr struct {
	from, to *ssa.BasicBlock
	edge     int
	st       *State
	env      []Val
}

func NewInterp(p *Prog) *Interp {
	in := &Interp{p: p, tt: NewTerms(), base: map[*Obj]Val{}, globals: map[*ssa.Global]*Obj{}, models: map[string]modelFn{},
		info: map[*ssa.Function]*fnInfo{}, factMemo: map[int]*Facts{}, obl: map[string]*Oblig{}, unkSeen: map[string]bool{},
		maxSteps: 30000000, calls: map[string]int{}}
	in.trace = os.Getenv("VERIF_TRACE") != ""
	return in
}

func (in *Interp) newObj(name string, t types.Type, pos token.Pos) *Obj {
	in.nobj++
	return &Obj{id: in.nobj, name: fmt.Sprintf("%s#%d", name, in.nobj), typ: t, pos: pos}
}

func (in *Interp) note(why string) {
	if len(in.stack) > 0 {
		why += " in " + short(in.stack[len(in.stack)-1])
	}
	if !in.unkSeen[why] {
		in.unkSeen[why] = true
		in.unk = append(in.unk, why)
	}
}

// ---- control-flow structure ----

func (in *Interp) fnInfo(fn *ssa.Function) *fnInfo {
	if fi := in.info[fn]; fi != nil {
		return fi
	}
	fi := &fnInfo{fn: fn, idx: map[ssa.Value]int{}, inner: map[*ssa.BasicBlock]*loop{}, heads: map[*ssa.BasicBlock]*loop{}}
	add := func(v ssa.Value) { fi.idx[v] = len(fi.idx) }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo = append(fi.rpo, post[i])
	}
	for _, b := range fi.rpo {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// natural loops
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.heads[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.heads[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	var ls []*loop
	for _, l := range fi.heads {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if len(ls[i].blocks) != len(ls[j].blocks) {
			return len(ls[i].blocks) < len(ls[j].blocks)
		}
		return ls[i].header.Index < ls[j].header.Index
	})
	for i, l := range ls {
		for b := range l.blocks {
			if fi.inner[b] == nil {
				fi.inner[b] = l
			}
		}
		for _, m := range ls[i+1:] {
			if m != l && m.blocks[l.header] {
				l.parent = m
				break
			}
		}
	}
	in.info[fn] = fi
	return fi
}

// ---- execution ----

type abortErr struct{ why string }

// CallFn runs fn from st; it returns the merged result and state (nil if no
// path returns).
func (in *Interp) CallFn(fn *ssa.Function, args, binds []Val, st *State) (Val, *State) {
	if len(fn.Blocks) == 0 {
		in.note("no body: " + short(fn))
		return in.unknown(fn.Signature.Results(), "call "+fn.Name()), st
	}
	rec := 0
	for _, f := range in.stack {
		if f == fn {
			rec++
		}
	}
	if rec > 3 || len(in.stack) > 80 {
		in.note("recursion: " + short(fn))
		return in.resultUnknown(fn.Signature, "recursion "+fn.Name()), st
	}
	in.stack = append(in.stack, fn)
	if in.trace {
		fmt.Fprintln(os.Stderr, strings.Repeat(" ", len(in.stack)), short(fn))
	}
	in.calls[short(fn)]++
	defer func() { in.stack = in.stack[:len(in.stack)-1] }()
	fi := in.fnInfo(fn)
	fr := &frame{fi: fi, binds: binds}
	env := make([]Val, len(fi.idx))
	for i, p := range fn.Params {
		if i < len(args) {
			env[fi.idx[p]] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			env[fi.idx[p]] = binds[i]
		}
	}
	in.runBlocks(fr, nil, []arr{{to: fn.Blocks[0], edge: -1, st: st, env: env}}, nil)
	if len(fr.rets) == 0 {
		return nil, nil
	}
	sts := make([]*State, len(fr.rets))
	vals := make([]Val, len(fr.rets))
	for i, r := range fr.rets {
		sts[i], vals[i] = r.st, r.val
	}
	m, gs := in.mergeStates(sts)
	return in.mergeV(gs, vals), m
}

func (in *Interp) resultUnknown(sig *types.Signature, why string) Val {
	switch sig.Results().Len() {
	case 0:
		return &TupleV{}
	case 1:
		return in.unknown(sig.Results().At(0).Type(), why)
	}
	return in.unknown(sig.Results(), why)
}

func (in *Interp) mergeStates(sts []*State) (*State, []*B) {
	tt := in.tt
	if len(sts) == 1 {
		return sts[0], []*B{tt.True}
	}
	pc := tt.False
	for _, s := range sts {
		pc = tt.BOr(pc, s.pc)
	}
	gs := make([]*B, len(sts))
	for i, s := range sts {
		gs[i] = tt.Constrain(s.pc, pc)
	}
	out := &State{pc: pc, mem: make(map[*Obj]Val, len(sts[0].mem)+8)}
	keys := map[*Obj]bool{}
	for _, s := range sts {
		for k := range s.mem {
			keys[k] = true
		}
	}
	for k := range keys {
		var cs []*B
		var vs []Val
		allSame := true
		for i, s := range sts {
			v, ok := s.mem[k]
			if !ok {
				v, ok = in.base[k]
				if !ok {
					continue // not allocated on this path
				}
			}
			if len(vs) > 0 && vs[0] != v {
				allSame = false
			}
			cs = append(cs, gs[i])
			vs = append(vs, v)
		}
		if allSame {
			out.mem[k] = vs[0]
		} else {
			out.mem[k] = in.mergeV(cs, vs)
		}
	}
	return out, gs
}

// mergeArr merges arrivals at block b, computing its phis.
func (in *Interp) mergeArr(fr *frame, b *ssa.BasicBlock, as []arr) (*State, []Val) {
	fi := fr.fi
	var phis []*ssa.Phi
	for _, i := range b.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	for k := range as {
		if as[k].edge < 0 {
			continue
		}
		vals := make([]Val, len(phis))
		for i, p := range phis {
			vals[i] = in.eval(fr, as[k].env, p.Edges[as[k].edge])
		}
		if len(phis) > 0 {
			e := append([]Val{}, as[k].env...)
			for i, p := range phis {
				e[fi.idx[p]] = vals[i]
			}
			as[k].env = e
		}
	}
	if len(as) == 1 {
		return as[0].st, as[0].env
	}
	sts := make([]*State, len(as))
	for i := range as {
		sts[i] = as[i].st
	}
	st, gs := in.mergeStates(sts)
	env := make([]Val, len(as[0].env))
	for s := range env {
		var cs []*B
		var vs []Val
		allSame := true
		for i := range as {
			v := as[i].env[s]
			if v == nil {
				continue
			}
			if len(vs) > 0 && vs[0] != v {
				allSame = false
			}
			cs = append(cs, gs[i])
			vs = append(vs, v)
		}
		switch {
		case len(vs) == 0:
		case allSame:
			env[s] = vs[0]
		case len(vs) < len(as):
			// defined on some arrivals only: cannot be used past the join
		default:
			env[s] = in.mergeV(cs, vs)
		}
	}
	return st, env
}

// runBlocks processes the blocks of loop L (nil: the whole function).  When
// head is non-nil the arrivals at the loop header are already merged.
func (in *Interp) runBlocks(fr *frame, L *loop, starts []arr, head *arr) (outs []arr) {
	fi := fr.fi
	pending := map[*ssa.BasicBlock][]arr{}
	inRegion := func(b *ssa.BasicBlock) bool { return L == nil || L.blocks[b] }
	deliver := func(a arr, from *loop) {
		if !inRegion(a.to) || (L != nil && a.to == L.header) {
			outs = append(outs, a)
			return
		}
		pending[a.to] = append(pending[a.to], a)
	}
	for _, a := range starts {
		pending[a.to] = append(pending[a.to], a)
	}
	for _, b := range fi.rpo {
		if !inRegion(b) {
			continue
		}
		var st *State
		var env []Val
		if head != nil && b == head.to {
			st, env = head.st, head.env
		} else {
			as := pending[b]
			if len(as) == 0 {
				continue
			}
			delete(pending, b)
			if M := fi.heads[b]; M != nil && M != L {
				for _, a := range in.execLoop(fr, M, as) {
					deliver(a, M)
				}
				continue
			}
			st, env = in.mergeArr(fr, b, as)
		}
		if !in.feasible(st.pc) {
			continue
		}
		for _, a := range in.execBlock(fr, L, b, st, env) {
			deliver(a, nil)
		}
	}
	return outs
}

func edgeIndex(from, to *ssa.BasicBlock, nth int) int {
	n := 0
	for i, p := range to.Preds {
		if p == from {
			if n == nth {
				return i
			}
			n++
		}
	}
	return 0
}

func (in *Interp) execBlock(fr *frame, L *loop, b *ssa.BasicBlock, st *State, env []Val) []arr {
	fi := fr.fi
	tt := in.tt
	// env is owned by this path from here on
	env = append([]Val{}, env...)
	for _, ins := range b.Instrs {
		in.nsteps++
		if in.nsteps > in.maxSteps {
			panic(abortErr{"step budget exhausted"})
		}
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			return []arr{{from: b, to: b.Succs[0], edge: edgeIndex(b, b.Succs[0], 0), st: st, env: env}}
		case *ssa.If:
			c, ok := in.eval(fr, env, x.Cond).(*B)
			if !ok {
				in.note("branch on unknown value")
				c = tt.Var(tt.Fresh("unk:branch", nil, nil))
			}
			c = in.decide(c, st.pc)
			s0, s1 := b.Succs[0], b.Succs[1]
			e0, e1 := edgeIndex(b, s0, 0), edgeIndex(b, s1, 0)
			if s0 == s1 {
				e1 = edgeIndex(b, s1, 1)
			}
			if L := fi.inner[b]; L != nil && c.isTerm() && L.blocks[s0] != L.blocks[s1] {
				if in.varies(L, x.Cond) {
					L.decided++
				}
			}
			if c == tt.True {
				return []arr{{from: b, to: s0, edge: e0, st: st, env: env}}
			}
			if c == tt.False {
				return []arr{{from: b, to: s1, edge: e1, st: st, env: env}}
			}
			st2 := st.clone()
			st.pc = tt.BAnd(st.pc, c)
			st2.pc = tt.BAnd(st2.pc, tt.BNot(c))
			return []arr{{from: b, to: s0, edge: e0, st: st, env: env}, {from: b, to: s1, edge: e1, st: st2, env: env}}
		case *ssa.Return:
			var v Val
			switch len(x.Results) {
			case 0:
				v = &TupleV{}
			case 1:
				v = in.eval(fr, env, x.Results[0])
			default:
				t := &TupleV{}
				for _, r := range x.Results {
					t.el = append(t.el, in.eval(fr, env, r))
				}
				v = t
			}
			fr.rets = append(fr.rets, retArr{st, v})
			return nil
		case *ssa.Panic:
			in.oblige("explicit panic", x.Pos(), tt.False, st)
			return nil
		default:
			v := in.step(fr, env, ins, &st)
			if st == nil || st.pc == tt.False {
				return nil
			}
			if val, ok := ins.(ssa.Value); ok {
				env[fi.idx[val]] = v
			}
		}
	}
	return nil
}

// oblige records that safe must hold here; the path continues under safe.
func (in *Interp) oblige(kind string, pos token.Pos, safe *B, st *State) {
	tt := in.tt
	s := in.decide(safe, st.pc)
	var fn *ssa.Function
	if len(in.stack) > 0 {
		fn = in.stack[len(in.stack)-1]
	}
	if in.quiet == 0 {
		k := fmt.Sprintf("%s|%d|%s", kind, pos, short(fn))
		o := in.obl[k]
		if o == nil {
			o = &Oblig{fn: fn, pos: pos, kind: kind}
			in.obl[k] = o
			in.oblOrder = append(in.oblOrder, k)
		}
		if s != tt.True && !o.bad {
			o.bad, o.cond, o.pc = true, s, st.pc
			for _, f := range in.stack {
				o.stack += " > " + short(f)
			}
		}
	}
	if s != tt.True {
		st.pc = tt.BAnd(st.pc, s)
		if !in.feasible(st.pc) {
			st.pc = tt.False
		}
	}
}

// ---- loops ----

func (in *Interp) execLoop(fr *frame, M *loop, entries []arr) []arr {
	tt := in.tt
	st, env := in.mergeArr(fr, M.header, entries)
	if !in.feasible(st.pc) {
		return nil
	}
	var exits []arr
	st0, env0 := st.clone(), env
	for it := 0; ; it++ {
		if it > 70000 {
			panic(abortErr{"loop bound"})
		}
		M.decided = 0
		saveEx := len(exits)
		save := st.clone()
		saveRand := in.rands
		outs := in.runBlocks(fr, M, nil, &arr{to: M.header, st: st, env: env})
		var backs []arr
		for _, o := range outs {
			if o.to == M.header {
				if in.feasible(o.st.pc) {
					backs = append(backs, o)
				}
			} else {
				exits = append(exits, o)
			}
		}
		if len(backs) == 0 {
			return in.mergeExits(fr, exits)
		}
		if M.decided == 0 {
			// no exit test was settled: summarise from the state before this iteration
			in.rands = saveRand
			if it == 0 {
				st, env = st0, env0
			} else {
				st = save
			}
			exits = exits[:saveEx]
			if gs := in.splitGuards(fr, M, st, env); len(gs) > 1 {
				for _, g := range gs {
					sg := st.clone()
					sg.pc = tt.BAnd(st.pc, g)
					if in.feasible(sg.pc) {
						exits = append(exits, in.summarise(fr, M, sg, append([]Val{}, env...))...)
					}
				}
				return in.mergeExits(fr, exits)
			}
			return in.mergeExits(fr, append(exits, in.summarise(fr, M, st, env)...))
		}
		st, env = in.mergeArr(fr, M.header, backs)
	}
}

// splitGuards: a loop over a byte string that is one of a few alternatives is
// summarised once per alternative.
func (in *Interp) splitGuards(fr *frame, M *loop, st *State, env []Val) []*B {
	tt := in.tt
	gs := []*B{tt.True}
	for _, i := range M.header.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			continue
		}
		sl, ok := p.Type().Underlying().(*types.Slice)
		if !ok || !isByteT(sl.Elem()) {
			continue
		}
		var part []*B
		for _, a := range in.alts(env[fr.fi.idx[p]], st.pc) {
			s, ok := a.v.(*SliceV)
			if !ok || s.o == nil {
				part = append(part, a.g)
				continue
			}
			sg := &State{tt.BAnd(st.pc, a.g), st.mem}
			c, ok := in.sliceContent(s, sg).(*T)
			if !ok {
				part = append(part, a.g)
				continue
			}
			for _, b := range in.alts(c, sg.pc) {
				part = append(part, tt.BAnd(a.g, b.g))
			}
		}
		if len(part) < 2 {
			continue
		}
		var next []*B
		for _, g := range gs {
			for _, h := range part {
				x := tt.BAnd(g, h)
				if in.feasible(tt.BAnd(st.pc, x)) {
					next = append(next, x)
				}
			}
		}
		if len(next) > 16 {
			return nil
		}
		gs = next
	}
	return gs
}

// mergeExits merges arrivals that take the same exit edge (keeps fan-in small).
func (in *Interp) mergeExits(fr *frame, as []arr) []arr {
	if len(as) <= 1 {
		return as
	}
	type key struct {
		f, t *ssa.BasicBlock
		e    int
	}
	m := map[key][]arr{}
	var order []key
	for _, a := range as {
		if !in.feasible(a.st.pc) {
			continue
		}
		k := key{a.from, a.to, a.edge}
		if m[k] == nil {
			order = append(order, k)
		}
		m[k] = append(m[k], a)
	}
	var out []arr
	for _, k := range order {
		l := m[k]
		if len(l) == 1 {
			out = append(out, l[0])
			continue
		}
		sts := make([]*State, len(l))
		for i := range l {
			sts[i] = l[i].st
		}
		st, gs := in.mergeStates(sts)
		env := make([]Val, len(l[0].env))
		for s := range env {
			var cs []*B
			var vs []Val
			same := true
			for i := range l {
				v := l[i].env[s]
				if v == nil {
					continue
				}
				if len(vs) > 0 && vs[0] != v {
					same = false
				}
				cs = append(cs, gs[i])
				vs = append(vs, v)
			}
			if len(vs) > 0 && same {
				env[s] = vs[0]
			} else if len(vs) == len(l) {
				env[s] = in.mergeV(cs, vs)
			}
		}
		out = append(out, arr{from: k.f, to: k.t, edge: k.e, st: st, env: env})
	}
	return out
}

type widened struct {
	plain bool // absorbs anything
	build func(m *T) Val
	next  func(v Val, st *State) bool
}

// summarise a loop of unknown trip count: a generic iteration m >= 0.
func (in *Interp) summarise(fr *frame, M *loop, st0 *State, env0 []Val) []arr {
	tt := in.tt
	fi := fr.fi
	mAtom := tt.Fresh("iter:"+fr.fi.fn.Name(), big0, pow2m(62))
	var phis []*ssa.Phi
	for _, i := range M.header.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	wphi := map[*ssa.Phi]*widened{}
	wobj := map[*Obj]*widened{}
	sumObj := map[*ssa.Phi]*Obj{}
	inst := func(m *T) (*State, []Val) {
		st := st0.clone()
		env := append([]Val{}, env0...)
		for o, w := range wobj {
			st.mem[o] = w.build(m)
		}
		for _, p := range phis {
			if w := wphi[p]; w != nil {
				v := w.build(m)
				if sl, ok := v.(*sliceSummary); ok {
					o := sumObj[p]
					st.mem[o] = sl.content
					v = &SliceV{o: o, off: tt.Int(0), ln: sl.content.len, cp: sl.content.len, nilc: tt.False}
				}
				env[fi.idx[p]] = v
			}
		}
		return st, env
	}
	run := func(m *T) (exits, backs []arr) {
		st, env := inst(m)
		for _, o := range in.runBlocks(fr, M, nil, &arr{to: M.header, st: st, env: env}) {
			if o.to == M.header {
				if in.feasible(o.st.pc) {
					backs = append(backs, o)
				}
			} else {
				exits = append(exits, o)
			}
		}
		return
	}
	for round := 0; ; round++ {
		if round > 8 {
			panic(abortErr{"loop summary does not stabilise in " + short(fr.fi.fn)})
		}
		in.quiet++
		_, backs := run(mAtom)
		in.quiet--
		if len(backs) == 0 {
			break
		}
		cur, curEnv := inst(mAtom)
		bst, benv := in.mergeArr(fr, M.header, backs)
		changed := false
		for _, p := range phis {
			v0, v1 := curEnv[fi.idx[p]], benv[fi.idx[p]]
			if w := wphi[p]; w != nil {
				if w.plain || w.next(v1, bst) {
					continue
				}
				wphi[p] = in.widenPlain(p.Type(), v0, v1, cur, bst, p.Name())
				if sumObj[p] == nil {
					sumObj[p] = in.newObj("loop."+p.Name(), nil, p.Pos())
				}
				changed = true
				continue
			}
			if same(v0, v1) {
				continue
			}
			wphi[p] = in.widenVal(p, v0, v1, cur, bst, mAtom)
			sumObj[p] = in.newObj("loop."+p.Name(), nil, p.Pos())
			changed = true
		}
		for o, v1 := range bst.mem {
			v0, ok := cur.mem[o]
			if !ok {
				v0, ok = in.base[o]
				if !ok {
					continue
				}
			}
			if w := wobj[o]; w != nil {
				continue
			}
			if same(v0, v1) {
				continue
			}
			isSum := false
			for _, s := range sumObj {
				if s == o {
					isSum = true
				}
			}
			if isSum {
				continue
			}
			fz := in.freshLike(v0, v1, o.name)
			wobj[o] = &widened{plain: true, build: func(*T) Val { return fz }}
			changed = true
		}
		if !changed {
			break
		}
	}
	exits, _ := run(mAtom)
	if m := in.closedForm(fr, M, mAtom, st0, inst); m != nil {
		ex2, backs := run(m)
		_ = backs
		return ex2
	}
	return exits
}

// closedForm: the first branch of the loop is a single test  k*m + r < 0
// (stay), with r independent of m: the loop exits at m = max(0, ceil(-r/k)).
func (in *Interp) closedForm(fr *frame, M *loop, mAtom *T, st0 *State, inst func(*T) (*State, []Val)) *T {
	tt := in.tt
	h := M.header
	last, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	st, env := inst(mAtom)
	env = append([]Val{}, env...)
	in.quiet++
	defer func() { in.quiet-- }()
	for _, ins := range h.Instrs[:len(h.Instrs)-1] {
		switch ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Call:
			if _, b := ins.(*ssa.Call).Call.Value.(*ssa.Builtin); !b {
				return nil
			}
		}
		v := in.step(fr, env, ins, &st)
		if st == nil {
			return nil
		}
		if val, ok := ins.(ssa.Value); ok {
			env[fr.fi.idx[val]] = v
		}
	}
	c, ok := in.eval(fr, env, last.Cond).(*B)
	if !ok || c.isTerm() {
		return nil
	}
	if !M.blocks[h.Succs[0]] {
		c = tt.BNot(c)
	}
	// c must be a single literal
	if !c.hi.isTerm() || !c.lo.isTerm() || c.v.op != "lt0" {
		return nil
	}
	p := c.v.args[0]
	if c.hi != tt.True { // !(p<0) <=> -p-1 < 0
		p = tt.AddI(tt.Neg(p), -1)
	}
	k := big.NewInt(0)
	for _, m := range p.monos() {
		for _, v := range m.vs {
			if v == mAtom {
				if len(m.vs) != 1 {
					return nil
				}
				k = m.co
			}
		}
	}
	if k.Cmp(big1) != 0 {
		return nil
	}
	r := tt.Sub(p, mAtom)
	if dependsOn(r, mAtom) {
		return nil
	}
	x := tt.Neg(r)
	lo, hi := in.rangeOf(x, st0.pc)
	if lo != nil && lo.Sign() >= 0 {
		return x
	}
	if hi != nil && hi.Sign() <= 0 {
		return tt.Int(0)
	}
	g := tt.Lt(x, tt.Int(0))
	return tt.Choice([]*B{g, tt.BNot(g)}, []*T{tt.Int(0), x})
}

func dependsOn(t, a *T) bool {
	seen := map[*T]bool{}
	var rec func(t *T) bool
	rec = func(t *T) bool {
		if t == a {
			return true
		}
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		for _, m := range t.ms {
			for _, v := range m.vs {
				if rec(v) {
					return true
				}
			}
		}
		for _, m := range t.anf {
			for _, v := range m.vs {
				if rec(v) {
					return true
				}
			}
		}
		for _, v := range t.args {
			if rec(v) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

type sliceSummary struct{ content *T }

func (in *Interp) freshLike(v0, v1 Val, name string) Val {
	tt := in.tt
	switch x := v0.(type) {
	case *T:
		if isBytes(x) {
			y, ok := v1.(*T)
			if ok && isBytes(y) && y.len == x.len {
				return tt.BIn("loop:"+name+itoa(tt.next()), x.len)
			}
			return tt.BIn("loop:"+name+itoa(tt.next()), tt.Fresh("looplen:"+name, big0, pow2m(62)))
		}
		if y, ok := v1.(*T); ok && x.lo != nil && y.lo != nil && x.lo.Sign() >= 0 && y.lo.Sign() >= 0 {
			return tt.Fresh("loop:"+name, big0, nil)
		}
		return tt.Fresh("loop:"+name, nil, nil)
	case *B:
		return tt.Var(tt.Fresh("loop:"+name, nil, nil))
	case *AggV:
		y, ok := v1.(*AggV)
		if ok && len(y.el) == len(x.el) {
			out := &AggV{el: make([]Val, len(x.el))}
			for i := range x.el {
				if same(x.el[i], y.el[i]) {
					out.el[i] = x.el[i]
				} else {
					out.el[i] = in.freshLike(x.el[i], y.el[i], name)
				}
			}
			return out
		}
	case *StreamV:
		if y, ok := v1.(*StreamV); ok && y.key == x.key && y.iv == x.iv {
			return &StreamV{x.key, x.iv, tt.Fresh("streampos", big0, nil)}
		}
	case *HashV:
		if y, ok := v1.(*HashV); ok && y.alg == x.alg && y.key == x.key {
			return &HashV{x.alg, x.key, tt.BIn("loop:"+name+itoa(tt.next()), tt.Fresh("looplen:"+name, big0, pow2m(62)))}
		}
	}
	return &UnkV{"loop " + name}
}

func (in *Interp) widenPlain(t types.Type, v0, v1 Val, s0, s1 *State, name string) *widened {
	tt := in.tt
	var f Val
	if bits, s, ok := intType(t); ok {
		lo, hi := typeRange(bits, s)
		f = tt.Fresh("loop:"+name, lo, hi)
	} else if isBoolT(t) {
		f = tt.Var(tt.Fresh("loop:"+name, nil, nil))
	} else if sl, ok := t.Underlying().(*types.Slice); ok && isByteT(sl.Elem()) {
		l := tt.Fresh("looplen:"+name, big0, pow2m(62))
		f = &sliceSummary{tt.BIn("loop:"+name+itoa(tt.next()), l)}
	} else if isStringT(t) {
		f = tt.BIn("loop:"+name+itoa(tt.next()), tt.Fresh("looplen:"+name, big0, pow2m(62)))
	} else {
		f = &UnkV{"loop " + name}
	}
	return &widened{plain: true, build: func(*T) Val { return f }}
}

func (in *Interp) widenVal(p *ssa.Phi, v0, v1 Val, s0, s1 *State, mAtom *T) *widened {
	tt := in.tt
	if x, ok := v0.(*T); ok {
		if y, ok := v1.(*T); ok && !isBytes(x) {
			d := tt.Sub(y, x)
			if bits, s, okT := intType(p.Type()); okT && d.IsConst() && !dependsOn(x, mAtom) {
				lo, hi := typeRange(bits, s)
				return &widened{
					build: func(m *T) Val {
						v := tt.Add(x, tt.Mul(d, m))
						if v.lo != nil && v.lo.Cmp(lo) >= 0 || v.hi != nil && v.hi.Cmp(hi) <= 0 || s {
							return v
						}
						return tt.Wrap(v, bits, s)
					},
					next: func(v Val, st *State) bool {
						t, ok := v.(*T)
						want := tt.Add(x, tt.Mul(d, tt.AddI(mAtom, 1)))
						return ok && (t == want || t == tt.Wrap(want, bits, s))
					},
				}
			}
		}
	}
	a, ok1 := in.resV(v0, s0.pc).(*SliceV)
	b, ok2 := in.resV(v1, s1.pc).(*SliceV)
	if ok1 && ok2 {
		c0, k0 := in.sliceContent(a, s0).(*T)
		c1, k1 := in.sliceContent(b, s1).(*T)
		if k0 && k1 {
			c0, c1 = in.canonB(c0, s0.pc), in.canonB(c1, s1.pc)
		}
		if k0 && k1 && c0.op != "choice" {
			// prepend pattern
			for step := int64(1); step <= 2; step++ {
				if tt.BCat(tt.BZeros(tt.Int(step)), c0) == c1 || tt.bcatRaw(tt.BZeros(tt.Int(step)), c0) == c1 {
					st := step
					mk := func(m *T) *T { return tt.BCat(tt.BZeros(tt.Scale(m, bi(st))), c0) }
					return &widened{
						build: func(m *T) Val { return &sliceSummary{mk(m)} },
						next: func(v Val, s *State) bool {
							sl, ok := v.(*SliceV)
							if !ok {
								return false
							}
							c, ok := in.sliceContent(sl, s).(*T)
							return ok && in.canonB(c, s.pc) == mk(tt.AddI(mAtom, 1))
						},
					}
				}
			}
			if c0 == c1 {
				return &widened{build: func(*T) Val { return &sliceSummary{c0} }, next: func(v Val, s *State) bool {
					sl, ok := v.(*SliceV)
					if !ok {
						return false
					}
					c, ok := in.sliceContent(sl, s).(*T)
					return ok && c == c0
				}}
			}
		}
	}
	return in.widenPlain(p.Type(), v0, v1, s0, s1, p.Name())
}

func (tt *Terms) bcatRaw(a, b *T) *T { return tt.BCat(a, b) }

// ---- memory ----

func (in *Interp) objVal(st *State, o *Obj) Val {
	if v, ok := st.mem[o]; ok {
		return v
	}
	if v, ok := in.base[o]; ok {
		return v
	}
	return &UnkV{"uninitialised " + o.name}
}

func (in *Interp) loadPath(st *State, o *Obj, path []Sel) Val {
	v := in.objVal(st, o)
	return in.project(v, path, st)
}

func (in *Interp) project(v Val, path []Sel, st *State) Val {
	tt := in.tt
	for i, s := range path {
		switch x := v.(type) {
		case *AggV:
			if s.t == nil {
				if s.i < 0 || s.i >= len(x.el) {
					return &UnkV{"index out of aggregate"}
				}
				v = x.el[s.i]
				continue
			}
			idx := in.res(s.t, st.pc)
			if idx.IsConst() {
				k := int(idx.c.Int64())
				if k < 0 || k >= len(x.el) {
					return &UnkV{"index"}
				}
				v = x.el[k]
				continue
			}
			lo, hi := in.rangeOf(idx, st.pc)
			l, h := 0, len(x.el)-1
			if lo != nil && lo.IsInt64() && int(lo.Int64()) > l {
				l = int(lo.Int64())
			}
			if hi != nil && hi.IsInt64() && int(hi.Int64()) < h {
				h = int(hi.Int64())
			}
			if h-l > 300 || h < l {
				return &UnkV{"symbolic index"}
			}
			var cs []*B
			var vs []Val
			for k := l; k <= h; k++ {
				c := tt.Eq(idx, tt.Int(int64(k)))
				if k == h && len(cs) > 0 {
					c = tt.True
					for _, d := range cs {
						c = tt.BAnd(c, tt.BNot(d))
					}
				}
				if !in.feasible(tt.BAnd(st.pc, c)) {
					continue
				}
				cs = append(cs, c)
				vs = append(vs, in.project(x.el[k], path[i+1:], st))
			}
			return in.mergeV(cs, vs)
		case *T:
			if isBytes(x) {
				idx := s.t
				if idx == nil {
					idx = tt.Int(int64(s.i))
				}
				v = in.bAt(in.resB(x, st.pc), in.res(idx, st.pc), st.pc)
				continue
			}
			return &UnkV{"projection of integer"}
		case *ChoiceV:
			var cs []*B
			var vs []Val
			for _, a := range in.alts(x, st.pc) {
				cs = append(cs, a.g)
				vs = append(vs, in.project(a.v, path[i:], st))
			}
			if len(cs) == 1 {
				return vs[0]
			}
			return in.mergeV(cs, vs)
		case *UnkV:
			return x
		default:
			return &UnkV{fmt.Sprintf("projection of %T", v)}
		}
	}
	return v
}

func (in *Interp) update(v Val, path []Sel, nv Val, st *State) Val {
	tt := in.tt
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	switch x := v.(type) {
	case *AggV:
		out := &AggV{el: append([]Val{}, x.el...)}
		idx := s.t
		if idx != nil {
			idx = in.res(idx, st.pc)
		}
		if idx == nil || idx.IsConst() {
			k := s.i
			if idx != nil {
				k = int(idx.c.Int64())
			}
			if k < 0 || k >= len(x.el) {
				return v
			}
			out.el[k] = in.update(x.el[k], path[1:], nv, st)
			return out
		}
		for k := range out.el {
			c := in.decide(tt.Eq(idx, tt.Int(int64(k))), st.pc)
			if c == tt.False {
				continue
			}
			u := in.update(x.el[k], path[1:], nv, st)
			out.el[k] = in.mergeV([]*B{c, tt.BNot(c)}, []Val{u, x.el[k]})
		}
		return out
	case *T:
		if isBytes(x) && len(path) == 1 {
			idx := s.t
			if idx == nil {
				idx = tt.Int(int64(s.i))
			}
			bv, ok := nv.(*T)
			if !ok {
				bv = tt.Fresh("unk:byte", big0, bi(255))
			}
			return in.bWrite(in.resB(x, st.pc), in.res(idx, st.pc), tt.byteSeg(bv), st.pc)
		}
	case *ChoiceV:
		var cs []*B
		var vs []Val
		for _, a := range in.alts(x, st.pc) {
			cs = append(cs, a.g)
			vs = append(vs, in.update(a.v, path, nv, st))
		}
		if len(cs) == 1 {
			return vs[0]
		}
		return in.mergeV(cs, vs)
	}
	return &UnkV{"update of unknown"}
}

func (tt *Terms) byteSeg(b *T) *T {
	if b.op == "choice" && len(b.args) <= 8 {
		var vs []*T
		for _, a := range b.args {
			vs = append(vs, tt.BByte(a))
		}
		return tt.Choice(b.cs, vs)
	}
	return tt.BByte(b)
}

// derefs lists the non-nil pointer alternatives and obliges non-nilness.
func (in *Interp) derefs(p Val, st *State, pos token.Pos) []galt {
	tt := in.tt
	as := in.alts(p, st.pc)
	var out []galt
	bad := tt.False
	for _, a := range as {
		switch x := a.v.(type) {
		case *PtrV:
			if x.o == nil {
				bad = tt.BOr(bad, a.g)
				continue
			}
		case *UnkV:
		default:
			_ = x
		}
		out = append(out, a)
	}
	if bad != tt.False {
		in.oblige("nil dereference", pos, tt.BNot(bad), st)
	}
	return out
}

func (in *Interp) load(p Val, st *State, pos token.Pos, t types.Type) Val {
	as := in.derefs(p, st, pos)
	var cs []*B
	var vs []Val
	for _, a := range as {
		switch x := a.v.(type) {
		case *PtrV:
			cs = append(cs, a.g)
			v := in.loadPath(st, x.o, x.path)
			if u, ok := v.(*UnkV); ok && t != nil {
				_ = u
				if _, _, k := intType(t); k || isBigInt(t) || isBoolT(t) {
					v = in.unknown(t, u.why)
				}
			}
			vs = append(vs, v)
		default:
			in.note("load through unknown pointer")
			cs = append(cs, a.g)
			if t != nil {
				vs = append(vs, in.unknown(t, "load"))
			} else {
				vs = append(vs, &UnkV{"load"})
			}
		}
	}
	if len(vs) == 0 {
		return &UnkV{"dead load"}
	}
	if len(vs) == 1 {
		return in.resV(vs[0], st.pc)
	}
	return in.mergeV(cs, vs)
}

func (in *Interp) store(p Val, v Val, st *State, pos token.Pos) {
	tt := in.tt
	as := in.derefs(p, st, pos)
	for _, a := range as {
		x, ok := a.v.(*PtrV)
		if !ok {
			in.note("store through unknown pointer")
			continue
		}
		if x.o.view {
			in.note("store through an unsafe view")
		}
		old := in.objVal(st, x.o)
		nv := in.update(old, x.path, v, st)
		if len(as) > 1 {
			nv = in.mergeV([]*B{a.g, tt.BNot(a.g)}, []Val{nv, old})
		}
		st.mem[x.o] = nv
	}
}

// content of a byte slice as a byte-string term (other element types: AggV)
func (in *Interp) sliceContent(s *SliceV, st *State) Val {
	tt := in.tt
	if s.o == nil {
		return tt.BEmpty()
	}
	v := in.loadPath(st, s.o, s.path)
	switch x := v.(type) {
	case *T:
		if isBytes(x) {
			return in.bRange(in.resB(x, st.pc), in.res(s.off, st.pc), in.res(s.ln, st.pc), st.pc)
		}
	case *AggV:
		off, ln := in.res(s.off, st.pc), in.res(s.ln, st.pc)
		if off.IsConst() && ln.IsConst() {
			o, l := int(off.c.Int64()), int(ln.c.Int64())
			if o >= 0 && l >= 0 && o+l <= len(x.el) {
				return &AggV{el: x.el[o : o+l]}
			}
		}
	case *ChoiceV:
		var cs []*B
		var vs []Val
		for _, a := range in.alts(x, st.pc) {
			if t, ok := a.v.(*T); ok && isBytes(t) {
				p := tt.BAnd(st.pc, a.g)
				cs = append(cs, a.g)
				vs = append(vs, in.bRange(t, in.res(s.off, p), in.res(s.ln, p), p))
			} else {
				return &UnkV{"slice content"}
			}
		}
		return in.mergeV(cs, vs)
	}
	return &UnkV{"slice content"}
}

// bytesOf: content term of a []byte / string / byte-array value.
func (in *Interp) bytesOf(v Val, st *State) *T {
	tt := in.tt
	switch x := v.(type) {
	case *T:
		if isBytes(x) {
			return in.resB(x, st.pc)
		}
	case *SliceV:
		if t, ok := in.sliceContent(x, st).(*T); ok {
			return t
		}
	case *PtrV:
		if x.o != nil {
			if t, ok := in.loadPath(st, x.o, x.path).(*T); ok && isBytes(t) {
				return t
			}
		}
	case *ChoiceV:
		var cs []*B
		var vs []*T
		for _, a := range in.alts(x, st.pc) {
			s2 := &State{tt.BAnd(st.pc, a.g), st.mem}
			cs = append(cs, a.g)
			vs = append(vs, in.bytesOf(a.v, s2))
		}
		if len(vs) == 1 {
			return vs[0]
		}
		if len(vs) > 0 {
			return tt.Choice(cs, vs)
		}
	}
	return tt.BIn("unk:bytes"+itoa(tt.next()), tt.Fresh("unk:len", big0, pow2m(62)))
}

func (in *Interp) newBytes(t *T, st *State, name string) *SliceV {
	o := in.newObj(name, nil, token.NoPos)
	st.mem[o] = t
	return &SliceV{o: o, off: in.tt.Int(0), ln: t.len, cp: t.len, nilc: in.tt.False}
}

// ---- expressions ----

func (in *Interp) eval(fr *frame, env []Val, v ssa.Value) Val {
	tt := in.tt
	switch x := v.(type) {
	case *ssa.Const:
		return in.constVal(x)
	case *ssa.Global:
		return &PtrV{o: in.global(x)}
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		return &UnkV{"builtin"}
	}
	i, ok := fr.fi.idx[v]
	if !ok {
		return &UnkV{"unbound " + v.Name()}
	}
	r := env[i]
	if r == nil {
		return &UnkV{"undefined " + v.Name()}
	}
	_ = tt
	return r
}

func (in *Interp) constVal(c *ssa.Const) Val {
	tt := in.tt
	if c.Value == nil {
		return in.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Int:
		if _, _, ok := intType(c.Type()); ok {
			b, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
			return tt.Const(b)
		}
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return tt.True
		}
		return tt.False
	case constant.String:
		return tt.BLit(constant.StringVal(c.Value))
	}
	return &UnkV{"constant " + c.String()}
}

func (in *Interp) global(g *ssa.Global) *Obj {
	if o := in.globals[g]; o != nil {
		return o
	}
	o := in.newObj(shortS(g.String()), derefT(g.Type()), g.Pos())
	o.name = shortS(g.String())
	in.globals[g] = o
	in.base[o] = in.globalInit(g)
	return o
}

func (in *Interp) globalInit(g *ssa.Global) Val {
	t := derefT(g.Type())
	if g.Pkg != nil && (g.Pkg.Pkg.Path() == modPath || len(g.Pkg.Pkg.Path()) > len(modPath) && g.Pkg.Pkg.Path()[:len(modPath)+1] == modPath+"/") {
		return in.zero(t)
	}
	switch g.String() {
	case "crypto/rand.Reader":
		return &IfaceV{model: "rand", v: &PtrV{o: in.newObj("rand.Reader", nil, g.Pos())}}
	}
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return &IfaceV{model: "error", v: &PtrV{o: in.newObj(g.String(), nil, g.Pos())}}
	}
	if s, ok := t.Underlying().(*types.Struct); ok && s.NumFields() == 0 {
		return in.zero(t)
	}
	return &UnkV{"library global " + g.String()}
}

func (in *Interp) asInt(v Val, t types.Type) *T {
	if x, ok := v.(*T); ok {
		return x
	}
	bits, s, ok := intType(t)
	if cv, k := v.(*ChoiceV); k {
		var ts []*T
		for _, a := range cv.vs {
			ts = append(ts, in.asInt(a, t))
		}
		return in.tt.Choice(cv.cs, ts)
	}
	if !ok {
		bits, s = 64, true
	}
	lo, hi := typeRange(bits, s)
	return in.tt.Fresh("unk:int", lo, hi)
}

// step interprets one non-control instruction.
func (in *Interp) step(fr *frame, env []Val, ins ssa.Instruction, stp **State) Val {
	tt := in.tt
	st := *stp
	ev := func(v ssa.Value) Val { return in.eval(fr, env, v) }
	switch x := ins.(type) {
	case *ssa.Alloc:
		t := derefT(x.Type())
		name := x.Comment
		if name == "" {
			name = x.Name()
		}
		o := in.newObj(name, t, x.Pos())
		st.mem[o] = in.zero(t)
		return &PtrV{o: o}
	case *ssa.BinOp:
		return in.binop(x.Op, ev(x.X), ev(x.Y), x.X.Type(), x.Y.Type(), st, x.Pos())
	case *ssa.UnOp:
		return in.unop(x, ev(x.X), st)
	case *ssa.ChangeType:
		return ev(x.X)
	case *ssa.ChangeInterface:
		return ev(x.X)
	case *ssa.Convert:
		return in.convert(ev(x.X), x.X.Type(), x.Type(), st, x.Pos())
	case *ssa.MultiConvert:
		return in.convert(ev(x.X), x.X.Type(), x.Type(), st, x.Pos())
	case *ssa.MakeInterface:
		return &IfaceV{typ: x.X.Type(), v: ev(x.X)}
	case *ssa.MakeClosure:
		f := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.bind = append(f.bind, ev(b))
		}
		return f
	case *ssa.MakeMap:
		return &MapV{o: in.newObj("map", x.Type(), x.Pos())}
	case *ssa.MakeChan:
		return &UnkV{"chan"}
	case *ssa.MakeSlice:
		return in.makeSlice(x, in.asInt(ev(x.Len), x.Len.Type()), in.asInt(ev(x.Cap), x.Cap.Type()), st)
	case *ssa.Extract:
		return in.extract(ev(x.Tuple), x.Index, x.Type())
	case *ssa.Field:
		return in.project(ev(x.X), []Sel{{i: x.Field}}, st)
	case *ssa.FieldAddr:
		return in.addr(ev(x.X), Sel{i: x.Field}, st, x.Pos())
	case *ssa.Index:
		return in.index(x, ev(x.X), in.asInt(ev(x.Index), x.Index.Type()), st)
	case *ssa.IndexAddr:
		return in.indexAddr(x, ev(x.X), in.asInt(ev(x.Index), x.Index.Type()), st)
	case *ssa.Lookup:
		if isStringT(x.X.Type()) {
			b := in.bytesOf(ev(x.X), st)
			i := in.asInt(ev(x.Index), x.Index.Type())
			in.oblige("index out of range", x.Pos(), tt.BAnd(tt.Le(tt.Int(0), i), tt.Lt(i, b.len)), st)
			return in.bAt(b, in.res(i, st.pc), st.pc)
		}
		in.note("map lookup")
		return in.unknown(x.Type(), "map")
	case *ssa.MapUpdate:
		in.note("map update")
		return nil
	case *ssa.Range, *ssa.Next:
		in.note("range over map or string")
		return in.unknown(ins.(ssa.Value).Type(), "range")
	case *ssa.Slice:
		return in.slice(x, fr, env, st)
	case *ssa.SliceToArrayPointer:
		n := derefT(x.Type()).Underlying().(*types.Array).Len()
		s, ok := ev(x.X).(*SliceV)
		if !ok {
			return &UnkV{"slice to array pointer"}
		}
		in.oblige("slice to array conversion", x.Pos(), tt.Le(tt.Int(n), s.ln), st)
		if s.off.IsConst() && s.off.c.Sign() == 0 && s.o != nil {
			return &PtrV{o: s.o, path: s.path}
		}
		return &UnkV{"slice to array pointer"}
	case *ssa.Store:
		in.store(ev(x.Addr), ev(x.Val), st, x.Pos())
		return nil
	case *ssa.TypeAssert:
		return in.typeAssert(x, ev(x.X), st)
	case *ssa.Call:
		return in.call(fr, env, x, stp)
	case *ssa.Defer:
		n := ""
		if f := x.Call.StaticCallee(); f != nil {
			n = f.String()
		}
		if n != "(*sync.Mutex).Unlock" && n != "(*sync.RWMutex).Unlock" && n != "(*sync.RWMutex).RUnlock" {
			in.note("defer")
		}
		return nil
	case *ssa.RunDefers:
		return nil
	case *ssa.Go, *ssa.Send:
		in.note("concurrency")
		return nil
	case *ssa.Select:
		in.note("select")
		return in.unknown(x.Type(), "select")
	}
	in.note(fmt.Sprintf("instruction %T", ins))
	if v, ok := ins.(ssa.Value); ok {
		return in.unknown(v.Type(), "instr")
	}
	return nil
}

func (in *Interp) extract(v Val, i int, t types.Type) Val {
	switch x := v.(type) {
	case *TupleV:
		if i < len(x.el) {
			return x.el[i]
		}
	case *ChoiceV:
		var vs []Val
		for _, a := range x.vs {
			vs = append(vs, in.extract(a, i, t))
		}
		return in.mergeV(x.cs, vs)
	}
	return in.unknown(t, "extract")
}

func (in *Interp) addr(p Val, s Sel, st *State, pos token.Pos) Val {
	as := in.derefs(p, st, pos)
	var cs []*B
	var vs []Val
	for _, a := range as {
		cs = append(cs, a.g)
		if x, ok := a.v.(*PtrV); ok {
			vs = append(vs, &PtrV{o: x.o, path: append(append([]Sel{}, x.path...), s)})
		} else {
			vs = append(vs, a.v)
		}
	}
	if len(vs) == 0 {
		return &UnkV{"dead"}
	}
	if len(vs) == 1 {
		return vs[0]
	}
	return in.mergeV(cs, vs)
}

func (in *Interp) index(x *ssa.Index, v Val, i *T, st *State) Val {
	tt := in.tt
	n := int64(-1)
	if a, ok := x.X.Type().Underlying().(*types.Array); ok {
		n = a.Len()
	}
	if n >= 0 {
		in.oblige("index out of range", x.Pos(), tt.BAnd(tt.Le(tt.Int(0), i), tt.Lt(i, tt.Int(n))), st)
	} else if isStringT(x.X.Type()) {
		b := in.bytesOf(v, st)
		in.oblige("index out of range", x.Pos(), tt.BAnd(tt.Le(tt.Int(0), i), tt.Lt(i, b.len)), st)
		return in.bAt(b, in.res(i, st.pc), st.pc)
	}
	i = in.res(i, st.pc)
	if i.IsConst() {
		return in.project(v, []Sel{{i: int(i.c.Int64())}}, st)
	}
	return in.project(v, []Sel{{t: i}}, st)
}

func (in *Interp) indexAddr(x *ssa.IndexAddr, v Val, i *T, st *State) Val {
	tt := in.tt
	i = in.res(i, st.pc)
	sel := func(t *T) Sel {
		if t.IsConst() {
			return Sel{i: int(t.c.Int64())}
		}
		return Sel{t: t}
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		n := pt.Elem().Underlying().(*types.Array).Len()
		in.oblige("index out of range", x.Pos(), tt.BAnd(tt.Le(tt.Int(0), i), tt.Lt(i, tt.Int(n))), st)
		if st.pc == tt.False {
			return &UnkV{"dead"}
		}
		return in.addr(v, sel(in.res(i, st.pc)), st, x.Pos())
	}
	as := in.alts(v, st.pc)
	var cs []*B
	var vs []Val
	safe := tt.False
	for _, a := range as {
		s, ok := a.v.(*SliceV)
		if !ok {
			in.note("index of unknown slice")
			cs = append(cs, a.g)
			vs = append(vs, &UnkV{"element of unknown slice"})
			safe = tt.BOr(safe, a.g)
			continue
		}
		safe = tt.BOr(safe, tt.BAnd(a.g, tt.BAnd(tt.Le(tt.Int(0), i), tt.Lt(i, s.ln))))
		if s.o == nil {
			continue
		}
		cs = append(cs, a.g)
		vs = append(vs, &PtrV{o: s.o, path: append(append([]Sel{}, s.path...), sel(in.res(tt.Add(s.off, i), st.pc)))})
	}
	in.oblige("index out of range", x.Pos(), safe, st)
	if len(vs) == 0 || st.pc == tt.False {
		st.pc = tt.False
		return &UnkV{"dead"}
	}
	if len(vs) == 1 {
		return vs[0]
	}
	return in.mergeV(cs, vs)
}

func (in *Interp) makeSlice(x *ssa.MakeSlice, ln, cp *T, st *State) Val {
	tt := in.tt
	el := x.Type().Underlying().(*types.Slice).Elem()
	in.oblige("make with negative length", x.Pos(), tt.BAnd(tt.Le(tt.Int(0), ln), tt.Le(ln, cp)), st)
	ln, cp = in.res(ln, st.pc), in.res(cp, st.pc)
	o := in.newObj("make", nil, x.Pos())
	if isByteT(el) {
		st.mem[o] = tt.BZeros(cp)
	} else if cp.IsConst() && cp.c.IsInt64() && cp.c.Int64() < 1<<16 {
		a := &AggV{}
		z := in.zero(el)
		for i := int64(0); i < cp.c.Int64(); i++ {
			a.el = append(a.el, z)
		}
		st.mem[o] = a
	} else {
		st.mem[o] = &UnkV{"slice of symbolic length"}
	}
	return &SliceV{o: o, off: tt.Int(0), ln: ln, cp: cp, nilc: tt.False}
}

func (in *Interp) slice(x *ssa.Slice, fr *frame, env []Val, st *State) Val {
	tt := in.tt
	v := in.eval(fr, env, x.X)
	opt := func(e ssa.Value) *T {
		if e == nil {
			return nil
		}
		return in.asInt(in.eval(fr, env, e), e.Type())
	}
	lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
	as := in.alts(v, st.pc)
	var cs []*B
	var vs []Val
	safe := tt.False
	nilbad := tt.False
	type res struct {
		g *B
		f func() Val
	}
	var rs []res
	for _, a := range as {
		a := a
		var s *SliceV
		isStr := false
		var str *T
		switch y := a.v.(type) {
		case *SliceV:
			s = y
		case *PtrV: // pointer to array
			if y.o == nil {
				nilbad = tt.BOr(nilbad, a.g)
				continue
			}
			n := tt.Int(derefT(x.X.Type()).Underlying().(*types.Array).Len())
			s = &SliceV{o: y.o, path: y.path, off: tt.Int(0), ln: n, cp: n, nilc: tt.False}
		case *T:
			if isBytes(y) {
				isStr, str = true, y
				s = &SliceV{off: tt.Int(0), ln: y.len, cp: y.len, nilc: tt.False}
			}
		}
		if s == nil {
			in.note("slice of unknown value")
			safe = tt.BOr(safe, a.g)
			rs = append(rs, res{a.g, func() Val { return &UnkV{"slice of unknown"} }})
			continue
		}
		l, h, m := lo, hi, mx
		if l == nil {
			l = tt.Int(0)
		}
		if h == nil {
			h = s.ln
		}
		if m == nil {
			m = s.cp
		}
		ok := tt.BAll(tt.Le(tt.Int(0), l), tt.Le(l, h), tt.Le(h, m), tt.Le(m, s.cp))
		if hi == nil && mx == nil {
			ok = tt.BAnd(tt.Le(tt.Int(0), l), tt.Le(l, s.ln))
		}
		safe = tt.BOr(safe, tt.BAnd(a.g, ok))
		rs = append(rs, res{a.g, func() Val {
			p := tt.BAnd(st.pc, a.g)
			l2, h2, m2 := in.res(l, p), in.res(h, p), in.res(m, p)
			if isStr {
				return in.bRange(str, l2, tt.Sub(h2, l2), p)
			}
			return &SliceV{s.o, s.path, in.res(tt.Add(s.off, l2), p), in.res(tt.Sub(h2, l2), p), in.res(tt.Sub(m2, l2), p), s.nilc}
		}})
	}
	if nilbad != tt.False {
		in.oblige("nil dereference", x.Pos(), tt.BNot(nilbad), st)
	}
	if st.pc != tt.False {
		in.oblige("slice bounds out of range", x.Pos(), tt.BOr(safe, nilbad), st)
	}
	if st.pc == tt.False {
		return &UnkV{"dead"}
	}
	for _, r := range rs {
		if !in.feasible(tt.BAnd(st.pc, r.g)) {
			continue
		}
		cs = append(cs, r.g)
		vs = append(vs, r.f())
	}
	if len(vs) == 0 {
		st.pc = tt.False
		return &UnkV{"dead"}
	}
	if len(vs) == 1 {
		return vs[0]
	}
	return in.mergeV(cs, vs)
}

func (in *Interp) unop(x *ssa.UnOp, v Val, st *State) Val {
	tt := in.tt
	switch x.Op {
	case token.MUL:
		return in.load(v, st, x.Pos(), x.Type())
	case token.NOT:
		if b, ok := v.(*B); ok {
			return tt.BNot(b)
		}
		return in.unknown(x.Type(), "not")
	case token.SUB:
		bits, s, ok := intType(x.Type())
		if !ok {
			return &UnkV{"neg"}
		}
		return in.mapT(in.asInt(v, x.Type()), st.pc, func(t *T, _ *B) *T { return tt.Wrap(tt.Neg(t), bits, s) })
	case token.XOR:
		bits, s, ok := intType(x.Type())
		if !ok {
			return &UnkV{"compl"}
		}
		return in.mapT(in.asInt(v, x.Type()), st.pc, func(t *T, _ *B) *T {
			if s {
				return tt.AddI(tt.Neg(t), -1)
			}
			if tt.limb {
				return tt.Sub(tt.Const(pow2m(bits)), t)
			}
			return tt.Not(t, bits)
		})
	}
	in.note("unary " + x.Op.String())
	return in.unknown(x.Type(), "unop")
}

// mapT lifts a function over a choice term.
func (in *Interp) mapT(t *T, pc *B, f func(*T, *B) *T) *T {
	if t.op == "choice" && len(t.args) <= 12 {
		as := in.alts(t, pc)
		if len(as) == 1 {
			return f(as[0].v.(*T), pc)
		}
		var cs []*B
		var vs []*T
		for _, a := range as {
			cs = append(cs, a.g)
			vs = append(vs, f(a.v.(*T), in.tt.BAnd(pc, a.g)))
		}
		if len(vs) > 0 {
			return in.tt.Choice(cs, vs)
		}
	}
	return f(t, pc)
}

func (in *Interp) map2(a, b *T, pc *B, f func(a, b *T, pc *B) *T) *T {
	tt := in.tt
	if (a.op == "choice" || b.op == "choice") && !tt.limb {
		xs, ys := in.alts(a, pc), in.alts(b, pc)
		if len(xs)*len(ys) <= 24 {
			var cs []*B
			var vs []*T
			for _, x := range xs {
				p := tt.BAnd(pc, x.g)
				for _, y := range ys {
					q := tt.BAnd(p, y.g)
					if !in.feasible(q) {
						continue
					}
					cs = append(cs, tt.BAnd(x.g, y.g))
					vs = append(vs, f(x.v.(*T), y.v.(*T), q))
				}
			}
			if len(vs) == 1 {
				return vs[0]
			}
			if len(vs) > 0 {
				return tt.Choice(cs, vs)
			}
		}
	}
	return f(a, b, pc)
}

func (in *Interp) convert(v Val, from, to types.Type, st *State, pos token.Pos) Val {
	bits, s, ok := intType(to)
	if _, _, k := intType(from); ok && k {
		return in.mapT(in.asInt(v, from), st.pc, func(t *T, pc *B) *T { return in.wrapF(t, bits, s, pc) })
	}
	if b, fl := to.Underlying().(*types.Basic); fl && b.Info()&types.IsFloat != 0 {
		if t, k := v.(*T); k && t.IsConst() && t.c.IsInt64() {
			return FltV(float64(t.c.Int64()))
		}
		if f, k := v.(FltV); k && b.Kind() == types.Float64 {
			return f
		}
	}
	if f, k := v.(FltV); k && ok && float64(f) > -1e15 && float64(f) < 1e15 {
		return in.wrapF(in.tt.Int(int64(f)), bits, s, st.pc)
	}
	fs, fok := from.Underlying().(*types.Slice)
	ts, tok := to.Underlying().(*types.Slice)
	switch {
	case isStringT(to) && fok && isByteT(fs.Elem()):
		return in.bytesOf(v, st)
	case tok && isByteT(ts.Elem()) && isStringT(from):
		return in.newBytes(in.bytesOf(v, st), st, "bytes")
	case isStringT(to) && isStringT(from):
		return v
	}
	if pt, ok := to.Underlying().(*types.Pointer); ok {
		if u, ok := v.(*UnsafeV); ok {
			if types.Identical(u.typ, to) {
				return u.v
			}
			if r := in.unsafeView(u, pt, st); r != nil {
				return r
			}
			in.note("unsafe conversion to " + to.String())
			return in.unknown(to, "unsafe")
		}
		return v
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return &UnsafeV{v, from}
	}
	in.note("conversion to " + to.String())
	return in.unknown(to, "convert")
}

// unsafeView: a read-only view of an array of integers with another element
// size, as a copy (little-endian).
func (in *Interp) unsafeView(u *UnsafeV, to *types.Pointer, st *State) Val {
	tt := in.tt
	p, ok := u.v.(*PtrV)
	up, ok2 := u.typ.Underlying().(*types.Pointer)
	at, ok3 := to.Elem().Underlying().(*types.Array)
	if !ok || !ok2 || !ok3 || p.o == nil || len(p.path) == 0 {
		return nil
	}
	fb, _, k1 := intType(up.Elem())
	tb, _, k2 := intType(at.Elem())
	last := p.path[len(p.path)-1]
	off := tt.Int(int64(last.i))
	if last.t != nil {
		off = in.res(last.t, st.pc)
	}
	if !k1 || !k2 || !off.IsConst() {
		return nil
	}
	base := in.resV(in.loadPath(st, p.o, p.path[:len(p.path)-1]), st.pc)
	o := int(off.c.Int64())
	var bs []*T
	n := int(at.Len()) * tb / 8
	switch x := base.(type) {
	case *T:
		if !isBytes(x) || fb != 8 {
			return nil
		}
		x = in.resB(x, st.pc)
		if !x.len.IsConst() {
			return nil
		}
		for i := o; i < int(x.len.c.Int64()) && len(bs) < n; i++ {
			bs = append(bs, in.bAt(x, tt.Int(int64(i)), st.pc))
		}
	case *AggV:
		for i := o; i < len(x.el); i++ {
			e, ok := x.el[i].(*T)
			if !ok {
				return nil
			}
			for j := 0; j < fb/8; j++ {
				bs = append(bs, tt.Wrap(tt.Shr(e, 8*j), 8, false))
			}
		}
	default:
		return nil
	}
	ob := in.newObj("view", nil, token.NoPos)
	ob.view = true
	if tb == 8 {
		var l []*T
		for i := 0; i < n; i++ {
			if i < len(bs) {
				l = append(l, tt.BByte(bs[i]))
			} else {
				return nil
			}
		}
		st.mem[ob] = tt.BCat(l...)
		return &PtrV{o: ob}
	}
	a := &AggV{}
	for i := 0; i < int(at.Len()); i++ {
		w := tt.Int(0)
		for j := 0; j < tb/8; j++ {
			k := i*tb/8 + j
			if k >= len(bs) {
				w = nil
				break
			}
			w = tt.Add(w, tt.Scale(bs[k], pow2(8*j)))
		}
		if w == nil {
			a.el = append(a.el, &UnkV{"memory beyond the array"})
			continue
		}
		a.el = append(a.el, w)
	}
	st.mem[ob] = a
	return &PtrV{o: ob}
}

func isInfo(t types.Type, i types.BasicInfo) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&i != 0
}

func (in *Interp) binop(op token.Token, a, b Val, ta, tb types.Type, st *State, pos token.Pos) Val {
	tt := in.tt
	switch op {
	case token.EQL:
		return in.equal(a, b, ta, st)
	case token.NEQ:
		return tt.BNot(in.equal(a, b, ta, st))
	}
	if isStringT(ta) {
		x, y := in.bytesOf(a, st), in.bytesOf(b, st)
		if op == token.ADD {
			return tt.BCat(x, y)
		}
		in.note("string comparison")
		return tt.Var(tt.Fresh("unk:strcmp", nil, nil))
	}
	bits, signed, ok := intType(ta)
	if !ok {
		if isBoolT(ta) {
			x, k1 := a.(*B)
			y, k2 := b.(*B)
			if k1 && k2 {
				switch op {
				case token.AND, token.LAND:
					return tt.BAnd(x, y)
				case token.OR, token.LOR:
					return tt.BOr(x, y)
				}
			}
		}
		in.note("binary operator on " + ta.String())
		return &UnkV{"binop"}
	}
	x, y := in.asInt(a, ta), in.asInt(b, tb)
	switch op {
	case token.LSS:
		return tt.Lt(x, y)
	case token.LEQ:
		return tt.Le(x, y)
	case token.GTR:
		return tt.Lt(y, x)
	case token.GEQ:
		return tt.Le(y, x)
	}
	if op == token.QUO || op == token.REM {
		in.oblige("division by zero", pos, tt.BNot(tt.Eq0(y)), st)
	}
	if (op == token.SHL || op == token.SHR) && y.lo == nil || y.lo != nil && y.lo.Sign() < 0 && (op == token.SHL || op == token.SHR) {
		in.oblige("negative shift", pos, tt.Le(tt.Int(0), y), st)
	}
	return in.map2(x, y, st.pc, func(x, y *T, pc *B) *T { return in.arith(op, x, y, bits, signed, pc) })
}

func (in *Interp) arith(op token.Token, x, y *T, bits int, signed bool, pc *B) *T {
	tt := in.tt
	lo, hi := typeRange(bits, signed)
	switch op {
	case token.ADD:
		return in.wrapF(tt.Add(x, y), bits, signed, pc)
	case token.SUB:
		return in.wrapF(tt.Sub(x, y), bits, signed, pc)
	case token.MUL:
		return in.wrapF(tt.Mul(x, y), bits, signed, pc)
	case token.QUO, token.REM:
		x, y = in.res(x, pc), in.res(y, pc)
		if x.IsConst() && y.IsConst() && y.c.Sign() != 0 {
			if op == token.QUO {
				return tt.Wrap(tt.Const(new(big.Int).Quo(x.c, y.c)), bits, signed)
			}
			return tt.Const(new(big.Int).Rem(x.c, y.c))
		}
		l, h := in.rangeOf(x, pc)
		if y.IsConst() && y.c.Sign() > 0 && l != nil && l.Sign() >= 0 {
			if h != nil && h.Cmp(y.c) < 0 {
				if op == token.QUO {
					return tt.Int(0)
				}
				return x
			}
			k := y.c.BitLen() - 1
			if y.c.Cmp(pow2(k)) == 0 {
				if op == token.QUO {
					return tt.Shr(x, k)
				}
				return tt.LowBits(x, k)
			}
			var qh *big.Int
			if h != nil {
				qh = new(big.Int).Quo(h, y.c)
			}
			q := tt.Atom("quo", y.c.Text(16), 0, new(big.Int).Quo(l, y.c), qh, x)
			if op == token.QUO {
				return q
			}
			return tt.Atom("rem", y.c.Text(16), 0, big0, new(big.Int).Sub(y.c, big1), x)
		}
		return tt.Atom("t"+op.String(), "", 0, lo, hi, x, y)
	case token.SHL:
		y = in.res(y, pc)
		if y.IsConst() && y.c.IsInt64() {
			if y.c.Int64() >= int64(bits) {
				return tt.Int(0)
			}
			return in.wrapF(tt.Scale(x, pow2(int(y.c.Int64()))), bits, signed, pc)
		}
		return tt.Atom("shl", "", bits, lo, hi, x, y)
	case token.SHR:
		y = in.res(y, pc)
		if y.IsConst() && y.c.IsInt64() {
			k := int(y.c.Int64())
			if k > 4*bits {
				k = 4 * bits
			}
			if tt.limb {
				if l, h := in.rangeOf(x, pc); tt.phi && l != nil && h != nil {
					if l, h = new(big.Int).Rsh(l, uint(k)), new(big.Int).Rsh(h, uint(k)); l.Cmp(h) == 0 {
						return tt.Const(l)
					}
				}
				return tt.opaque(tt.Shr(x, k))
			}
			return tt.Shr(x, k)
		}
		var h *big.Int
		l := lo
		if x.lo != nil && x.lo.Sign() >= 0 {
			l, h = big0, x.hi
		} else {
			h = hi
		}
		return tt.Atom("shrs", "", bits, l, h, x, y)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		x, y = in.res(x, pc), in.res(y, pc)
		if op == token.AND_NOT {
			op = token.AND
			if y.IsConst() {
				y = tt.Const(new(big.Int).And(new(big.Int).Not(y.c), pow2m(bits)))
				if signed && x.IsConst() {
					return tt.Wrap(tt.Const(new(big.Int).And(new(big.Int).Mod(x.c, pow2(bits)), y.c)), bits, signed)
				}
			} else {
				y = tt.Not(tt.Wrap(y, bits, false), bits)
			}
		}
		if op == token.AND {
			// low-bit masks keep arithmetic structure
			if x.IsConst() {
				x, y = y, x
			}
			if y.IsConst() && y.c.Sign() >= 0 {
				k := y.c.BitLen()
				if y.c.Sign() == 0 {
					return tt.Int(0)
				}
				if y.c.Cmp(pow2m(k)) == 0 {
					if tt.phi && in.fits(x, pc, big0, y.c) {
						return x
					}
					if r := tt.LowBits(x, k); r.op != "wrap" || x.op != "anf" {
						return r
					}
				}
			}
		}
		neg := func(t *T) bool { return t.lo == nil || t.lo.Sign() < 0 }
		back := signed && (neg(x) || neg(y))
		if neg(x) {
			x = tt.Wrap(x, bits, false)
		}
		if neg(y) {
			y = tt.Wrap(y, bits, false)
		}
		var r *T
		switch op {
		case token.AND:
			r = tt.And(x, y, bits)
		case token.OR:
			r = tt.Or(x, y, bits)
		default:
			r = tt.Xor(x, y, bits)
		}
		if back || signed {
			r = tt.Wrap(r, bits, signed)
		}
		return r
	}
	in.note("operator " + op.String())
	return tt.Fresh("unk:op", lo, hi)
}

// wrapF wraps unless the path facts exclude overflow.
func (in *Interp) wrapF(t *T, bits int, signed bool, pc *B) *T {
	lo, hi := typeRange(bits, signed)
	if within(t, lo, hi) {
		return t
	}
	if pc != in.tt.True {
		l, h := in.rangeOf(t, pc)
		if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
			return t
		}
	}
	if in.tt.phi && pc != in.tt.True && in.fits(t, pc, lo, hi) {
		return t
	}
	return in.tt.Wrap(t, bits, signed)
}

// bytesEq: byte-wise equality of two byte strings.
func (in *Interp) bytesEq(a, b *T, pc *B) *B {
	tt := in.tt
	if a == b {
		return tt.True
	}
	for _, sw := range []bool{false, true} {
		x, y := a, b
		if sw {
			x, y = b, a
		}
		if x.op == "choice" && len(x.args) <= 16 {
			r := tt.False
			for i, v := range x.args {
				r = tt.BOr(r, tt.BAnd(x.cs[i], in.bytesEq(v, y, tt.BAnd(pc, x.cs[i]))))
			}
			return r
		}
	}
	la, lb := in.res(a.len, pc), in.res(b.len, pc)
	if la.IsConst() && lb.IsConst() {
		if la.c.Cmp(lb.c) != 0 {
			return tt.False
		}
		if n := la.c.Int64(); n <= 128 {
			r := tt.True
			for i := n - 1; i >= 0; i-- {
				r = tt.BAnd(tt.Eq(in.bAt(a, tt.Int(i), pc), in.bAt(b, tt.Int(i), pc)), r)
			}
			return r
		}
	}
	if d := in.decide(tt.Eq(la, lb), pc); d == tt.False {
		return tt.False
	}
	s := sort2(a, b)
	return tt.BAnd(tt.Eq(la, lb), tt.Var(tt.Atom("beq", "", 0, nil, nil, s...)))
}

func (in *Interp) equal(a, b Val, t types.Type, st *State) *B {
	tt := in.tt
	switch x := a.(type) {
	case *T:
		y, ok := b.(*T)
		if !ok {
			break
		}
		if isBytes(x) != isBytes(y) {
			break
		}
		if isBytes(x) {
			return in.bytesEq(in.resB(x, st.pc), in.resB(y, st.pc), st.pc)
		}
		return tt.Eq(x, y)
	case *B:
		if y, ok := b.(*B); ok {
			return tt.BNot(tt.BXor(x, y))
		}
	}
	// structured values
	as, bs := in.alts(a, st.pc), in.alts(b, st.pc)
	r := tt.False
	for _, x := range as {
		for _, y := range bs {
			g := tt.BAnd(x.g, y.g)
			if !in.feasible(tt.BAnd(g, st.pc)) {
				continue
			}
			r = tt.BOr(r, tt.BAnd(g, in.equal1(x.v, y.v, t, st)))
		}
	}
	return r
}

func (in *Interp) equal1(a, b Val, t types.Type, st *State) *B {
	tt := in.tt
	unk := func() *B {
		in.note("comparison of unknown values")
		return tt.Var(tt.Fresh("unk:eq", nil, nil))
	}
	switch x := a.(type) {
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok {
			return unk()
		}
		if x.o != y.o {
			return tt.False
		}
		if samePath(x.path, y.path) {
			return tt.True
		}
		return unk()
	case *SliceV:
		y, ok := b.(*SliceV)
		if !ok {
			return unk()
		}
		if y.o == nil {
			return x.nilc
		}
		return y.nilc
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok {
			return unk()
		}
		if (x.fn == nil) != (y.fn == nil) {
			return tt.False
		}
		return tt.True
	case *MapV:
		return tt.False
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			return unk()
		}
		if x.v == nil || y.v == nil {
			if x.v == nil && y.v == nil {
				return tt.True
			}
			return tt.False
		}
		if x.model != y.model || (x.typ == nil) != (y.typ == nil) {
			return tt.False
		}
		if x.typ != nil && !types.Identical(x.typ, y.typ) {
			return tt.False
		}
		return in.equal(x.v, y.v, nil, st)
	case *AggV:
		y, ok := b.(*AggV)
		if ok && len(x.el) == len(y.el) {
			if f := montOf(x, y); f != nil {
				// elements are kept reduced: equal limbs are equal elements
				return tt.eq0C(tt.map2(in.feOf(f, x, st), in.feOf(f, y, st), func(a, b *T) *T { return tt.Mod(tt.Sub(a, b), f.p) }))
			}
			r := tt.True
			for i := range x.el {
				r = tt.BAnd(r, in.equal(x.el[i], y.el[i], nil, st))
			}
			return r
		}
	case *T, *B:
		return in.equal(a, b, t, st)
	}
	return unk()
}

func (in *Interp) typeAssert(x *ssa.TypeAssert, v Val, st *State) Val {
	tt := in.tt
	as := in.alts(v, st.pc)
	okc := tt.False
	var cs []*B
	var vs []Val
	for _, a := range as {
		i, ok := a.v.(*IfaceV)
		if !ok {
			in.note("type assertion on unknown value")
			okc = tt.BOr(okc, tt.BAnd(a.g, tt.Var(tt.Fresh("unk:assert", nil, nil))))
			cs = append(cs, a.g)
			vs = append(vs, in.unknown(x.AssertedType, "assert"))
			continue
		}
		hit := false
		var r Val
		if i.v != nil && i.typ != nil {
			if it, k := x.AssertedType.Underlying().(*types.Interface); k {
				hit = types.Implements(i.typ, it)
				r = i
			} else {
				hit = types.Identical(i.typ, x.AssertedType)
				r = i.v
			}
		}
		if i.v != nil && i.typ == nil { // model object
			hit = in.modelImplements(i.model, x.AssertedType)
			r = i
		}
		cs = append(cs, a.g)
		if hit {
			okc = tt.BOr(okc, a.g)
			vs = append(vs, r)
		} else {
			vs = append(vs, in.zero(x.AssertedType))
		}
	}
	var r Val
	if len(vs) == 1 {
		r = vs[0]
	} else {
		r = in.mergeV(cs, vs)
	}
	if x.CommaOk {
		return &TupleV{[]Val{r, okc}}
	}
	in.oblige("type assertion", x.Pos(), okc, st)
	return r
}

func (in *Interp) modelImplements(model string, t types.Type) bool { return false }

// ---- calls ----

func (in *Interp) call(fr *frame, env []Val, x *ssa.Call, stp **State) Val {
	st := *stp
	com := x.Common()
	var args []Val
	for _, a := range com.Args {
		args = append(args, in.eval(fr, env, a))
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		return in.builtin(b.Name(), x, com, args, st)
	}
	if com.IsInvoke() {
		recv := in.eval(fr, env, com.Value)
		return in.forkOver(recv, stp, func(v Val, s *State) (Val, *State) {
			return in.invoke(v, com, args, s, x)
		})
	}
	fv := in.eval(fr, env, com.Value)
	return in.forkOver(fv, stp, func(v Val, s *State) (Val, *State) {
		f, ok := v.(*FuncV)
		if !ok {
			in.note("call of unknown function")
			return in.resultUnknown(com.Signature(), "call"), s
		}
		if f.fn == nil {
			in.oblige("nil function call", x.Pos(), in.tt.False, s)
			return nil, nil
		}
		return in.callFunc(f.fn, args, f.bind, s, x)
	})
}

// forkOver evaluates f for every alternative of v and merges.
func (in *Interp) forkOver(v Val, stp **State, f func(Val, *State) (Val, *State)) Val {
	st := *stp
	as := in.alts(v, st.pc)
	if len(as) == 1 {
		r, s := f(as[0].v, st)
		*stp = s
		return r
	}
	var sts []*State
	var vs []Val
	for _, a := range as {
		s := st.clone()
		s.pc = in.tt.BAnd(st.pc, a.g)
		r, s2 := f(a.v, s)
		if s2 != nil && s2.pc != in.tt.False {
			sts = append(sts, s2)
			vs = append(vs, r)
		}
	}
	if len(sts) == 0 {
		*stp = nil
		return nil
	}
	m, gs := in.mergeStates(sts)
	*stp = m
	return in.mergeV(gs, vs)
}

func (in *Interp) invoke(v Val, com *ssa.CallCommon, args []Val, st *State, x ssa.CallInstruction) (Val, *State) {
	i, ok := v.(*IfaceV)
	if !ok {
		in.note("method call on unknown interface value ." + com.Method.Name())
		in.havocArgs(args, st)
		return in.resultUnknown(com.Signature(), "invoke "+com.Method.Name()), st
	}
	if i.v == nil {
		in.oblige("nil interface call", x.Pos(), in.tt.False, st)
		return nil, nil
	}
	if i.typ == nil {
		name := "model:" + i.model + "." + com.Method.Name()
		if m := in.models[name]; m != nil {
			c := &callCtx{st: st, args: append([]Val{i.v}, args...), sig: com.Signature(), pos: x.Pos(), call: x}
			if r, ok := m(in, c); ok {
				return r, c.state()
			}
		}
		in.note("unmodelled method " + name)
		in.havocArgs(args, st)
		return in.resultUnknown(com.Signature(), name), st
	}
	ms := in.p.SSA.MethodSets.MethodSet(i.typ)
	sel := ms.Lookup(com.Method.Pkg(), com.Method.Name())
	if sel == nil {
		in.note("no method " + com.Method.Name())
		return in.resultUnknown(com.Signature(), "invoke"), st
	}
	fn := in.p.SSA.MethodValue(sel)
	return in.callFunc(fn, append([]Val{i.v}, args...), nil, st, x)
}

func (c *callCtx) state() *State {
	if c.rep != nil {
		return c.rep
	}
	if c.st.pc == nil {
		return nil
	}
	return c.st
}

func (in *Interp) callFunc(fn *ssa.Function, args, binds []Val, st *State, x ssa.CallInstruction) (Val, *State) {
	name := shortS(fn.String())
	if fn.Name() == "init" && fn.Pkg != nil && fn == fn.Pkg.Func("init") {
		return &TupleV{}, st // package initialisers are run by RunInit
	}
	if m := in.models[name]; m != nil {
		c := &callCtx{st: st, args: args, fn: fn, sig: fn.Signature, call: x}
		if x != nil {
			c.pos = x.Pos()
		}
		in.calls[name]++
		if r, ok := m(in, c); ok {
			return r, c.state()
		}
	}
	if in.p.InRepo(fn) || in.interpretStd(fn) {
		if len(fn.Blocks) > 0 {
			return in.CallFn(fn, args, binds, st)
		}
	}
	in.note("unmodelled function " + name)
	in.havocArgs(args, st)
	return in.resultUnknown(fn.Signature, name), st
}

// library code that is interpreted rather than modelled
var stdInterp = map[string]bool{
	"github.com/drand/kyber/sign/bls": true, "github.com/drand/kyber/group/mod": true, "encoding/binary": true, "io": true, "slices": true, "bytes": true, "math/bits": true, "strings": true, "crypto/elliptic": false,
	"errors": false, "cmp": true, "unicode/utf8": true,
}

func (in *Interp) interpretStd(fn *ssa.Function) bool {
	if shortS(fn.String()) == "(crypto/cipher.StreamReader).Read" {
		return true
	}
	pp := pkgPathOf(fn)
	return stdInterp[pp] || fn.Synthetic != ""
}

func (in *Interp) havocArgs(args []Val, st *State) {
	for _, a := range args {
		for _, g := range in.alts(a, st.pc) {
			switch x := g.v.(type) {
			case *SliceV:
				if x.o != nil {
					if t, ok := in.objVal(st, x.o).(*T); ok && isBytes(t) && len(x.path) == 0 {
						st.mem[x.o] = in.tt.BIn("unk:havoc"+itoa(in.tt.next()), t.len)
					} else {
						st.mem[x.o] = &UnkV{"havoc"}
					}
				}
			case *PtrV:
				if x.o != nil {
					if x.o.typ != nil {
						st.mem[x.o] = in.unknown(x.o.typ, "havoc")
					} else {
						st.mem[x.o] = &UnkV{"havoc"}
					}
				}
			}
		}
	}
}

func (in *Interp) lenOf(v Val, t types.Type, st *State) *T {
	tt := in.tt
	switch x := v.(type) {
	case *SliceV:
		return in.res(x.ln, st.pc)
	case *T:
		if isBytes(x) {
			return in.res(x.len, st.pc)
		}
	case *ChoiceV:
		var cs []*B
		var vs []*T
		for _, a := range in.alts(x, st.pc) {
			cs = append(cs, a.g)
			vs = append(vs, in.lenOf(a.v, t, st))
		}
		if len(vs) == 1 {
			return vs[0]
		}
		return tt.Choice(cs, vs)
	case *PtrV:
		if a, ok := derefT(t).Underlying().(*types.Array); ok {
			return tt.Int(a.Len())
		}
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return tt.Int(a.Len())
	}
	return tt.Fresh("unk:len", big0, pow2m(62))
}

func (in *Interp) minT(a, b *T, pc *B) *T {
	tt := in.tt
	if cs, vs := tt.splitCases(a); cs != nil {
		a = tt.Choice(cs, vs)
	}
	if cs, vs := tt.splitCases(b); cs != nil {
		b = tt.Choice(cs, vs)
	}
	c := in.decide(tt.Le(a, b), pc)
	if c == tt.True {
		return a
	}
	if c == tt.False {
		return b
	}
	if in.decide(tt.Le(b, a), pc) == tt.True {
		return b
	}
	return tt.Choice([]*B{c, tt.BNot(c)}, []*T{a, b})
}

func (in *Interp) builtin(name string, x *ssa.Call, com *ssa.CallCommon, args []Val, st *State) Val {
	tt := in.tt
	switch name {
	case "len":
		return in.lenOf(args[0], com.Args[0].Type(), st)
	case "cap":
		if s, ok := args[0].(*SliceV); ok {
			return s.cp
		}
		return in.lenOf(args[0], com.Args[0].Type(), st)
	case "copy":
		return in.copyB(args[0], args[1], com.Args[0].Type(), st)
	case "append":
		return in.appendB(args[0], args[1], com.Args[0].Type(), com.Args[1].Type(), st)
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		in.oblige("nil dereference", x.Pos(), in.tt.BNot(in.nilCond(args[0], st)), st)
		return args[0]
	case "min", "max":
		r := in.asInt(args[0], x.Type())
		for _, a := range args[1:] {
			b := in.asInt(a, x.Type())
			if name == "min" {
				r = in.minT(r, b, st.pc)
			} else {
				c := in.decide(tt.Le(r, b), st.pc)
				r = tt.Choice([]*B{c, tt.BNot(c)}, []*T{b, r})
			}
		}
		return r
	case "clear":
		if s, ok := args[0].(*SliceV); ok && s.o != nil {
			if t, ok := in.objVal(st, s.o).(*T); ok && isBytes(t) && len(s.path) == 0 {
				st.mem[s.o] = in.bWrite(t, s.off, tt.BZeros(s.ln), st.pc)
				return nil
			}
		}
	case "recover":
		return &IfaceV{}
	}
	in.note("builtin " + name)
	return in.unknown(x.Type(), name)
}

func elemOf(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// writeBytes stores data at the start of dst (a byte slice value).
func (in *Interp) writeBytes(dst Val, data *T, st *State) {
	tt := in.tt
	as := in.alts(dst, st.pc)
	for _, a := range as {
		s, ok := a.v.(*SliceV)
		if !ok || s.o == nil {
			continue
		}
		if data.len.IsConst() && data.len.c.Sign() == 0 {
			continue
		}
		p := tt.BAnd(st.pc, a.g)
		s2 := &State{p, st.mem}
		old := in.objVal(st, s.o)
		cur, ok := in.project(old, s.path, s2).(*T)
		if !ok || !isBytes(cur) {
			in.note("byte write to unknown memory")
			continue
		}
		nv := in.bWrite(cur, in.res(s.off, p), data, p)
		upd := in.update(old, s.path, nv, s2)
		if len(as) > 1 {
			upd = in.mergeV([]*B{a.g, tt.BNot(a.g)}, []Val{upd, old})
		}
		st.mem[s.o] = upd
	}
}

func (in *Interp) copyB(d, s Val, dt types.Type, st *State) Val {
	tt := in.tt
	el := elemOf(dt)
	ld := in.lenOf(d, dt, st)
	if isByteT(el) {
		src := in.bytesOf(s, st)
		n := in.minT(ld, in.res(src.len, st.pc), st.pc)
		if n.op == "choice" {
			// handle each case
			var cs []*B
			var vs []*T
			for _, a := range in.alts(n, st.pc) {
				p := tt.BAnd(st.pc, a.g)
				cs = append(cs, a.g)
				vs = append(vs, in.bRange(src, tt.Int(0), a.v.(*T), p))
			}
			data := tt.Choice(cs, vs)
			in.writeBytes(d, data, st)
			return n
		}
		in.writeBytes(d, in.bRange(src, tt.Int(0), n, st.pc), st)
		return n
	}
	ds, ok1 := d.(*SliceV)
	ss, ok2 := s.(*SliceV)
	if ok1 && ok2 && ds.o != nil && ss.o != nil {
		sc, k1 := in.sliceContent(ss, st).(*AggV)
		off := in.res(ds.off, st.pc)
		n := in.minT(ld, in.res(ss.ln, st.pc), st.pc)
		if k1 && n.IsConst() && off.IsConst() {
			whole, k := in.loadPath(st, ds.o, ds.path).(*AggV)
			if k {
				out := &AggV{el: append([]Val{}, whole.el...)}
				for i := 0; i < int(n.c.Int64()); i++ {
					out.el[int(off.c.Int64())+i] = sc.el[i]
				}
				st.mem[ds.o] = in.update(in.objVal(st, ds.o), ds.path, out, st)
				return n
			}
		}
	}
	if ok1 && ds.o == nil || ok2 && ss.o == nil {
		return tt.Int(0)
	}
	in.note("copy of unknown slices")
	if ok1 {
		in.havocArgs([]Val{ds}, st)
	}
	return tt.Fresh("unk:copy", big0, pow2m(62))
}

func (in *Interp) appendB(a, b Val, ta, tb types.Type, st *State) Val {
	tt := in.tt
	el := elemOf(ta)
	if isByteT(el) {
		// every alternative of the first operand yields its own result
		return in.liftAlts(a, st, func(v Val, pc *B) Val {
			s, ok := v.(*SliceV)
			st2 := &State{pc, st.mem}
			add := in.bytesOf(b, st2)
			if !ok {
				in.note("append to unknown slice")
				return in.newBytes(tt.BCat(in.bytesOf(v, st2), add), st, "append")
			}
			// in place when the capacity is known to suffice
			if s.o != nil && s.cp.IsConst() {
				nl := tt.Add(s.ln, add.len)
				if in.decide(tt.Le(nl, s.cp), pc) == tt.True && !(add.len.IsConst() && add.len.c.Sign() == 0) && pc == st.pc {
					in.writeBytes(&SliceV{s.o, s.path, tt.Add(s.off, s.ln), add.len, add.len, tt.False}, add, st)
					return &SliceV{s.o, s.path, s.off, in.res(nl, pc), s.cp, tt.False}
				}
			}
			var cur *T
			if s.o == nil {
				cur = tt.BEmpty()
			} else {
				cur = in.bytesOf(s, st2)
			}
			if add.len.IsConst() && add.len.c.Sign() == 0 {
				return s
			}
			r := in.newBytes(tt.BCat(cur, add), st, "append")
			r.nilc = tt.BAnd(s.nilc, tt.Eq0(add.len))
			return r
		})
	}
	s, ok1 := a.(*SliceV)
	t, ok2 := b.(*SliceV)
	if ok1 && ok2 {
		var l []Val
		if s.o != nil {
			c, ok := in.sliceContent(s, st).(*AggV)
			if !ok {
				ok1 = false
			} else {
				l = append(l, c.el...)
			}
		}
		if t.o != nil {
			c, ok := in.sliceContent(t, st).(*AggV)
			if !ok {
				ok1 = false
			} else {
				l = append(l, c.el...)
			}
		}
		if ok1 {
			o := in.newObj("append", nil, token.NoPos)
			st.mem[o] = &AggV{el: l}
			n := tt.Int(int64(len(l)))
			return &SliceV{o: o, off: tt.Int(0), ln: n, cp: n, nilc: tt.BAnd(s.nilc, tt.Eq0(t.ln))}
		}
	}
	in.note("append of unknown slices")
	return &UnkV{"append"}
}

func (in *Interp) liftAlts(v Val, st *State, f func(Val, *B) Val) Val {
	as := in.alts(v, st.pc)
	if len(as) == 1 {
		return f(as[0].v, st.pc)
	}
	var cs []*B
	var vs []Val
	for _, a := range as {
		cs = append(cs, a.g)
		vs = append(vs, f(a.v, in.tt.BAnd(st.pc, a.g)))
	}
	if len(vs) == 0 {
		return &UnkV{"dead"}
	}
	return in.mergeV(cs, vs)
}
