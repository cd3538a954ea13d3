package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// H evaluates entry points of the top-level package on input classes.
type H struct {
	p  *Prog
	r  *Report
	in *Interp
	tt *Terms

	special []map[*T]*big.Int // inputs tried first when a witness is sought
}

func newH(p *Prog, r *Report) *H {
	in := NewInterp(p)
	in.Std()
	in.RunInit("owcrypt")
	in.modelCurves()
	in.modelSchemes()
	h := &H{p: p, r: r, in: in, tt: in.tt}
	h.drain("init")
	return h
}

// drain turns what the interpreter did not understand into undecided entries.
func (h *H) drain(key string) {
	in := h.in
	for _, u := range in.unk {
		h.r.Undecided(key+"/model", u)
	}
	in.unk, in.unkSeen = nil, map[string]bool{}
}

func (h *H) run(key string, fn *ssa.Function, args func(st *State) []Val) *Run {
	in := h.in
	st := in.newState()
	in.obl, in.oblOrder, in.reads = map[string]*Oblig{}, nil, nil
	rn := in.Call(fn, st, args(st)...)
	h.drain(key)
	h.r.Count("entry_point_classes", 1)
	h.r.Count("interpreted_steps", in.nsteps)
	if rn.st == nil {
		h.r.Undecided(key, "no path returns")
		return nil
	}
	return rn
}

func (h *H) sc(fn *ssa.Function) *specCheck {
	return &specCheck{r: h.r, in: h.in, pos: h.p.Pos(fn.Pos())}
}

func (h *H) sel(name string) (*T, bool) {
	v, ok := h.p.constOf(name)
	if !ok {
		h.r.Undecided("anchor/"+name, "selector constant no longer resolves")
		return nil, false
	}
	return h.tt.Const(new(big.Int).SetUint64(v)), true
}

func (h *H) num(name string) *T {
	t, ok := h.sel(name)
	if !ok {
		return h.tt.Int(-1)
	}
	return t
}

// sym: a byte string of unknown length.
func (h *H) sym(name string) *T {
	return h.tt.BIn(name, h.tt.In("len:"+name, 0, 1<<40))
}

func (h *H) fix(name string, n int64) *T { return h.tt.BIn(name, h.tt.Int(n)) }

// sl: bytes [off, off+n) of b under pc as a big-endian number.
func (h *H) num32(b *T, off int64, pc *B) *T {
	return h.tt.Val(h.in.bRange(b, h.tt.Int(off), h.tt.Int(32), pc))
}

func (h *H) lenIs(b *T, n int64) *B { return h.tt.Eq(b.len, h.tt.Int(n)) }

// atoms collects the atoms of a term with the given op.
func atomsT(t *T, op string, out map[*T]bool, seen map[*T]bool, bs map[*B]bool) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	if t.op == op {
		out[t] = true
	}
	for _, a := range t.args {
		atomsT(a, op, out, seen, bs)
	}
	for _, m := range t.ms {
		for _, v := range m.vs {
			atomsT(v, op, out, seen, bs)
		}
	}
	for _, m := range t.anf {
		for _, v := range m.vs {
			atomsT(v, op, out, seen, bs)
		}
	}
	for _, c := range t.cs {
		atomsB(c, op, out, seen, bs)
	}
	atomsT(t.len, op, out, seen, bs)
}

func atomsB(b *B, op string, out map[*T]bool, seen map[*T]bool, bs map[*B]bool) {
	if b == nil || b.isTerm() || bs[b] {
		return
	}
	bs[b] = true
	atomsT(b.v, op, out, seen, bs)
	atomsB(b.hi, op, out, seen, bs)
	atomsB(b.lo, op, out, seen, bs)
}

func atomList(op string, ts []*T, cs ...*B) []*T {
	out, seen, bs := map[*T]bool{}, map[*T]bool{}, map[*B]bool{}
	for _, t := range ts {
		atomsT(t, op, out, seen, bs)
	}
	for _, c := range cs {
		atomsB(c, op, out, seen, bs)
	}
	var l []*T
	for t := range out {
		l = append(l, t)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

// linPart: t = co*a + rest with a occurring linearly; ok tells whether a occurs nowhere else.
func (tt *Terms) linPart(t, a *T) (co *big.Int, rest *T, ok bool) {
	co = big0
	var ms []mono
	for _, m := range t.monos() {
		if len(m.vs) == 1 && m.vs[0] == a {
			co = m.co
			continue
		}
		ms = append(ms, m)
	}
	rest = tt.fromList(ms)
	return co, rest, !dependsOn(rest, a)
}

// over: the alternatives of a term under pc, choices inside linear combinations
// included.
func (in *Interp) over(t *T, pc *B) []galt {
	tt := in.tt
	t = in.res(t, pc)
	ch := []*T{}
	if t.op == "choice" {
		ch = append(ch, t)
	} else {
		for _, m := range t.monos() {
			for _, v := range m.vs {
				if v.op == "choice" {
					ch = append(ch, v)
				}
			}
		}
	}
	if len(ch) == 0 {
		return []galt{{tt.True, t}}
	}
	var out []galt
	for _, a := range in.alts(ch[0], pc) {
		c := tt.BAnd(pc, a.g)
		t2 := tt.Subst(t, func(x *T) *T {
			if x == ch[0] {
				return a.v.(*T)
			}
			return nil
		})
		if t == ch[0] {
			t2 = a.v.(*T)
		}
		for _, b := range in.over(t2, c) {
			out = append(out, galt{tt.BAnd(a.g, b.g), b.v})
		}
	}
	return out
}

func (h *H) detail(what string, t *T) func() string {
	return func() string { return what + ": " + clip(t.String(), 600) }
}

// retIs: the uint16 result i equals the named constant.
func (h *H) retIs(rn *Run, i int, name string) *B {
	return h.in.decide(h.tt.Eq(rn.Int(i, h.tt.True), h.num(name)), rn.st.pc)
}

// iff checks that two conditions agree on every path.
func (s *specCheck) iff(key string, got, want, pc *B) bool {
	tt := s.in.tt
	pc = s.in.normPC(pc)
	got, want = s.in.decide(got, pc), s.in.decide(want, pc)
	x := s.in.decide(tt.BXor(got, want), pc)
	if x == tt.False {
		s.r.OK(key, s.pos, "")
		return true
	}
	if os.Getenv("VERIF_WITNESS") != "" {
		ga, wa := map[*T]bool{}, map[*T]bool{}
		supp(got, ga, map[*B]bool{})
		supp(want, wa, map[*B]bool{})
		for t := range ga {
			if !wa[t] {
				fmt.Println("   only got:", clip(t.str(-8), 3000))
			}
		}
		for t := range wa {
			if !ga[t] {
				fmt.Println("   only want:", clip(t.str(-8), 3000))
			}
		}
	}
	a := tt.BAnd(pc, tt.BAnd(got, tt.BNot(want)))
	b := tt.BAnd(pc, tt.BAnd(want, tt.BNot(got)))
	if unknownB(x, map[*T]bool{}, map[*B]bool{}) == "" {
		if found, _ := s.in.witnessed(tt.BAnd(pc, x), 4); found {
			s.badIff(key, a, b)
			return false
		}
	}
	a, b = s.in.deep(a, pc), s.in.deep(b, pc)
	bad := tt.BOr(a, b)
	if bad == tt.False {
		s.r.OK(key, s.pos, "")
		return true
	}
	if u := unknownB(bad, map[*T]bool{}, map[*B]bool{}); u != "" {
		s.r.Undecided(key, "depends on "+u)
		return false
	}
	if done, ok := s.quiet(key, tt.BAnd(pc, bad)); done {
		return ok
	}
	s.badIff(key, a, b)
	return false
}

func supp(b *B, out map[*T]bool, seen map[*B]bool) {
	if b.isTerm() || seen[b] {
		return
	}
	seen[b] = true
	out[b.v] = true
	supp(b.hi, out, seen)
	supp(b.lo, out, seen)
}

func (s *specCheck) badIff(key string, a, b *B) {
	tt := s.in.tt
	d := ""
	if a != tt.False {
		d += "holds although it must not when " + clip(witness(tt, a), 900)
	}
	if b != tt.False {
		d += "; does not hold although it must when " + clip(witness(tt, b), 900)
	}
	s.r.Bad(key, s.pos, d)
}

// deep removes infeasible cubes of a small condition.
func (in *Interp) deep(c, pc *B) *B {
	tt := in.tt
	n := 0
	var rec func(b *B, p *B) *B
	rec = func(b *B, p *B) *B {
		n++
		if b.isTerm() || n > 800 {
			return b
		}
		v := tt.Var(b.v)
		hi, lo := tt.False, tt.False
		if ph := tt.BAnd(p, v); in.feasible(ph) {
			hi = rec(in.decide(b.hi, ph), ph)
		}
		if pl := tt.BAnd(p, tt.BNot(v)); in.feasible(pl) {
			lo = rec(in.decide(b.lo, pl), pl)
		}
		return tt.Ite(v, hi, lo)
	}
	return rec(in.decide(c, pc), pc)
}

// witness prints one path of a condition.
func witness(tt *Terms, b *B) string {
	s := ""
	for !b.isTerm() {
		if s != "" {
			s += " & "
		}
		if b.hi != tt.False {
			s += b.v.str(2)
			b = b.hi
		} else {
			s += "!" + b.v.str(2)
			b = b.lo
		}
	}
	return s
}

var _ = fmt.Sprint
