package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Harness: run one entry point on a class of inputs and compare what it
// computes with what the specification says, as terms.

type Run struct {
	in  *Interp
	fn  *ssa.Function
	st  *State // after the call (nil: no path returns)
	res []Val
	tt  *Terms
}

// bytesArg: an input byte slice of the given length (not nil).
func (in *Interp) bytesArg(name string, n int, st *State) (*SliceV, *T) {
	t := in.tt.BIn(name, in.tt.Int(int64(n)))
	return in.sliceArg(t, st), t
}

func (in *Interp) sliceArg(t *T, st *State) *SliceV {
	o := in.newObj("arg", nil, token.NoPos)
	st.mem[o] = t
	return &SliceV{o: o, off: in.tt.Int(0), ln: t.len, cp: t.len, nilc: in.tt.False}
}

func (in *Interp) newState() *State { return &State{in.tt.True, map[*Obj]Val{}} }

func (in *Interp) Call(fn *ssa.Function, st *State, args ...Val) *Run {
	in.nsteps = 0
	v, s := in.CallFn(fn, args, nil, st)
	r := &Run{in: in, fn: fn, st: s, tt: in.tt}
	if s == nil {
		return r
	}
	if t, ok := v.(*TupleV); ok {
		r.res = t.el
	} else {
		r.res = []Val{v}
	}
	return r
}

// Bytes of result i under condition c.
func (r *Run) Bytes(i int, c *B) *T {
	s := &State{r.tt.BAnd(r.st.pc, c), r.st.mem}
	return r.in.resB(r.in.bytesOf(r.in.resV(r.res[i], s.pc), s), s.pc)
}

func (r *Run) Int(i int, c *B) *T {
	s := &State{r.tt.BAnd(r.st.pc, c), r.st.mem}
	return r.in.res(r.in.intOf(r.in.resV(r.res[i], s.pc), s), s.pc)
}

// IsNil: condition under which result i (slice, pointer or interface) is nil.
func (r *Run) IsNil(i int) *B { return r.in.nilCond(r.res[i], r.st) }

func (in *Interp) nilCond(v Val, st *State) *B {
	tt := in.tt
	c := tt.False
	for _, a := range in.alts(v, st.pc) {
		switch x := a.v.(type) {
		case *SliceV:
			c = tt.BOr(c, tt.BAnd(a.g, x.nilc))
		case *PtrV:
			if x.o == nil {
				c = tt.BOr(c, a.g)
			}
		case *IfaceV:
			if x.v == nil {
				c = tt.BOr(c, a.g)
			}
		}
	}
	return c
}

// Bool: result i as a condition.
func (r *Run) Bool(i int) *B {
	if b, ok := r.res[i].(*B); ok {
		return r.in.decide(b, r.st.pc)
	}
	return r.tt.Var(r.tt.Fresh("unk:bool", nil, nil))
}

// unknownIn lists atoms the analysis does not understand.
func unknownT(t *T, seen map[*T]bool) string {
	if t == nil || seen[t] {
		return ""
	}
	seen[t] = true
	if (t.op == "fresh" || t.op == "in") && strings.HasPrefix(t.s, "unk:") {
		return t.s
	}
	for _, a := range t.args {
		if s := unknownT(a, seen); s != "" {
			return s
		}
	}
	for _, m := range t.ms {
		for _, v := range m.vs {
			if s := unknownT(v, seen); s != "" {
				return s
			}
		}
	}
	for _, m := range t.anf {
		for _, v := range m.vs {
			if s := unknownT(v, seen); s != "" {
				return s
			}
		}
	}
	for _, c := range t.cs {
		if s := unknownB(c, seen, map[*B]bool{}); s != "" {
			return s
		}
	}
	return unknownT(t.len, seen)
}

func unknownB(b *B, seen map[*T]bool, bs map[*B]bool) string {
	if b == nil || b.isTerm() || bs[b] {
		return ""
	}
	bs[b] = true
	if s := unknownT(b.v, seen); s != "" {
		return s
	}
	if s := unknownB(b.hi, seen, bs); s != "" {
		return s
	}
	return unknownB(b.lo, seen, bs)
}

// check helpers ------------------------------------------------------------

// EqT: two terms are the same value under pc.
func (in *Interp) EqT(a, b *T, pc *B) *B {
	if isBytes(a) || isBytes(b) {
		if !isBytes(a) || !isBytes(b) {
			return in.tt.False
		}
		a, b = in.canonB(a, pc), in.canonB(b, pc)
		return in.decide(in.bytesEq(a, b, pc), pc)
	}
	return in.decide(in.tt.Eq(in.res(a, pc), in.res(b, pc)), pc)
}

// canonB resolves the choices and sub-ranges inside a byte string under pc,
// also below hash functions.
func (in *Interp) canonB(t *T, pc *B) *T {
	return in.canonM(t, pc, map[*T]*T{})
}

func (in *Interp) canonM(t *T, pc *B, memo map[*T]*T) *T {
	tt := in.tt
	t = in.resB(t, pc)
	if r, ok := memo[t]; ok {
		return r
	}
	r := t
	switch t.op {
	case "cat":
		var l []*T
		for _, s := range t.args {
			l = append(l, in.canonM(s, pc, memo))
		}
		r = tt.BCat(l...)
	case "hash":
		var l []*T
		for _, s := range t.args {
			l = append(l, in.canonM(s, pc, memo))
		}
		r = tt.BHash(t.s, int(t.len.c.Int64()), l...)
	case "sub":
		b := in.canonM(t.args[0], pc, memo)
		off, ln := in.res(t.args[1], pc), in.res(t.len, pc)
		if off.IsConst() && off.c.Sign() == 0 && (ln == b.len || ln == in.res(b.len, pc)) {
			r = b
		} else {
			r = in.bRange(b, off, ln, pc)
		}
	case "byte":
		r = tt.BByte(in.res(t.args[0], pc))
	case "be":
		r = tt.BE(in.canonN(t.args[0], pc, memo), t.n)
	case "choice":
		as := in.alts(t, pc)
		var cs []*B
		var vs []*T
		for _, a := range as {
			cs = append(cs, a.g)
			vs = append(vs, in.canonB(a.v.(*T), tt.BAnd(pc, a.g)))
		}
		if len(vs) > 0 {
			r = tt.Choice(cs, vs)
		}
	}
	memo[t] = r
	return r
}

// canonN: numbers; residues of byte strings are canonicalised too.
func (in *Interp) canonN(t *T, pc *B, memo map[*T]*T) *T {
	tt := in.tt
	t = in.res(t, pc)
	return tt.Subst(t, func(a *T) *T {
		if a.op == "val" {
			b := in.canonM(a.args[0], pc, memo)
			if b != a.args[0] {
				return tt.Val(b)
			}
		}
		return nil
	})
}

type specCheck struct {
	r   *Report
	in  *Interp
	pos string
	id  string
	und int
}

// Expect reports whether cond holds on every path of state pc.
func (s *specCheck) Expect(key string, cond *B, pc *B, detail func() string) bool {
	in, tt := s.in, s.in.tt
	pc = in.normPC(pc)
	c := in.decide(cond, pc)
	if c == tt.True {
		s.r.OK(key, s.pos, "")
		return true
	}
	bad := tt.BAnd(pc, tt.BNot(c))
	if !in.feasible(bad) {
		s.r.OK(key, s.pos, "")
		return true
	}
	if u := unknownB(c, map[*T]bool{}, map[*B]bool{}); u != "" {
		s.r.Undecided(key, "depends on "+u)
		return false
	}
	if done, ok := s.quiet(key, bad); done {
		return ok
	}
	d := ""
	if detail != nil {
		d = detail()
	}
	s.r.Bad(key, s.pos, d)
	return false
}

// quiet: a condition that looks satisfiable but has no path consistent under
// random interpretation is no violation.
func (s *specCheck) quiet(key string, bad *B) (done, ok bool) {
	in, tt := s.in, s.in.tt
	if found, _ := in.witnessed(bad, 4); found {
		return false, false
	}
	w := in.unify(bad, tt.True)
	if !in.feasible(w) || !in.feasible(in.deep(w, tt.True)) {
		s.r.Count("random_interpretation", 1)
		s.r.OK(key, s.pos, "")
		return true, true
	}
	found, cut := in.witnessed(w, 400)
	if found {
		return false, false
	}
	if cut {
		s.r.Undecided(key, "too many paths in the difference")
		return true, false
	}
	s.r.Count("random_interpretation", 1)
	s.r.OK(key, s.pos, "")
	return true, true
}

func (s *specCheck) ExpectT(key, what string, got, want *T, pc *B) bool {
	if u := unknownT(got, map[*T]bool{}); u != "" && got != want {
		s.r.Undecided(key, "depends on "+u)
		return false
	}
	eq := s.in.EqT(got, want, pc)
	if eq != s.in.tt.True && s.in.sameRandom(got, want, s.in.normPC(pc)) {
		s.r.Count("random_interpretation", 1)
		s.r.OK(key, s.pos, "")
		return true
	}
	return s.Expect(key, eq, pc, func() string {
		return fmt.Sprintf("%s is %s, must be %s", what, clip(got.String(), 700), clip(want.String(), 500))
	})
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

var byteSliceT = types.NewSlice(types.Typ[types.Uint8])
