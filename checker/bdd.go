package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Conditions: reduced ordered decision diagrams over boolean atoms (terms).
type B struct {
	id int
	v  *T
	hi *B
	lo *B
}

type lit struct {
	v   *T
	pos bool
}

func (b *B) isTerm() bool { return b.v == nil }

func (tt *Terms) node(v *T, hi, lo *B) *B {
	if hi == lo {
		return hi
	}
	k := fmt.Sprintf("%d,%d,%d", v.id, hi.id, lo.id)
	if b := tt.btab[k]; b != nil {
		return b
	}
	b := &B{id: len(tt.ball), v: v, hi: hi, lo: lo}
	tt.ball = append(tt.ball, b)
	tt.btab[k] = b
	return b
}

func (tt *Terms) Var(v *T) *B { return tt.node(v, tt.True, tt.False) }

func (tt *Terms) cof(b *B, v *T) (*B, *B) {
	if b.isTerm() || b.v != v {
		return b, b
	}
	return b.hi, b.lo
}

func (tt *Terms) Ite(c, a, b *B) *B {
	if c == tt.True {
		return a
	}
	if c == tt.False {
		return b
	}
	if a == b {
		return a
	}
	if a == tt.True && b == tt.False {
		return c
	}
	k := [3]int{c.id, a.id, b.id}
	if r := tt.iteMemo[k]; r != nil {
		return r
	}
	v := c.v
	if !a.isTerm() && a.v.id < v.id {
		v = a.v
	}
	if !b.isTerm() && b.v.id < v.id {
		v = b.v
	}
	c1, c0 := tt.cof(c, v)
	a1, a0 := tt.cof(a, v)
	b1, b0 := tt.cof(b, v)
	r := tt.node(v, tt.Ite(c1, a1, b1), tt.Ite(c0, a0, b0))
	tt.iteMemo[k] = r
	return r
}

func (tt *Terms) BAnd(a, b *B) *B      { return tt.Ite(a, b, tt.False) }
func (tt *Terms) BOr(a, b *B) *B       { return tt.Ite(a, tt.True, b) }
func (tt *Terms) BNot(a *B) *B         { return tt.Ite(a, tt.False, tt.True) }
func (tt *Terms) BXor(a, b *B) *B      { return tt.Ite(a, tt.BNot(b), b) }
func (tt *Terms) Implies(a, b *B) bool { return tt.BAnd(a, tt.BNot(b)) == tt.False }
func (tt *Terms) BAll(bs ...*B) *B {
	r := tt.True
	for _, b := range bs {
		r = tt.BAnd(r, b)
	}
	return r
}

// Constrain: generalised cofactor of f with respect to care set c.
func (tt *Terms) Constrain(f, c *B) *B {
	if c == tt.True || f.isTerm() {
		return f
	}
	if c == tt.False {
		return tt.False
	}
	if f == c {
		return tt.True
	}
	k := [2]int{f.id, c.id}
	if r := tt.conMemo[k]; r != nil {
		return r
	}
	v := f.v
	if !c.isTerm() && c.v.id < v.id {
		v = c.v
	}
	f1, f0 := tt.cof(f, v)
	c1, c0 := tt.cof(c, v)
	var r *B
	switch {
	case c1 == tt.False:
		r = tt.Constrain(f0, c0)
	case c0 == tt.False:
		r = tt.Constrain(f1, c1)
	default:
		r = tt.node(v, tt.Constrain(f1, c1), tt.Constrain(f0, c0))
	}
	tt.conMemo[k] = r
	return r
}

// Lits: literals implied by b.
func (tt *Terms) Lits(b *B) []lit {
	if b.isTerm() {
		return nil
	}
	if l, ok := tt.litMemo[b.id]; ok {
		return l
	}
	var out []lit
	if b.lo == tt.False {
		out = append(append(out, lit{b.v, true}), tt.Lits(b.hi)...)
	} else if b.hi == tt.False {
		out = append(append(out, lit{b.v, false}), tt.Lits(b.lo)...)
	} else {
		x := map[lit]bool{}
		for _, l := range tt.Lits(b.hi) {
			x[l] = true
		}
		for _, l := range tt.Lits(b.lo) {
			if x[l] {
				out = append(out, l)
			}
		}
	}
	tt.litMemo[b.id] = out
	return out
}

// Support lists the atoms b depends on.
func (tt *Terms) Support(b *B) []*T {
	seen := map[*B]bool{}
	vs := map[*T]bool{}
	var rec func(b *B)
	rec = func(b *B) {
		if b.isTerm() || seen[b] {
			return
		}
		seen[b] = true
		vs[b.v] = true
		rec(b.hi)
		rec(b.lo)
	}
	rec(b)
	var out []*T
	for v := range vs {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// Cofactor by a literal.
func (tt *Terms) Assume(b *B, v *T, pos bool) *B {
	x := tt.Var(v)
	if !pos {
		x = tt.BNot(x)
	}
	return tt.Constrain(b, x)
}

func (b *B) String() string { return b.str(0) }
func (b *B) str(d int) string {
	if b.isTerm() {
		if b.id == 1 {
			return "T"
		}
		return "F"
	}
	if d > 14 {
		return "…"
	}
	v := b.v.str(d / 2)
	if b.hi.isTerm() && b.lo.isTerm() {
		if b.hi.id == 1 {
			return v
		}
		return "!" + v
	}
	var ps []string
	if !(b.hi.isTerm() && b.hi.id == 0) {
		if b.hi.isTerm() {
			ps = append(ps, v)
		} else {
			ps = append(ps, v+" & "+b.hi.str(d+1))
		}
	}
	if !(b.lo.isTerm() && b.lo.id == 0) {
		if b.lo.isTerm() {
			ps = append(ps, "!"+v)
		} else {
			ps = append(ps, "!"+v+" & "+b.lo.str(d+1))
		}
	}
	return "(" + strings.Join(ps, " | ") + ")"
}

// ---- comparison atoms ----

// Lt0: p < 0.
func (tt *Terms) Lt0(p *T) *B {
	if p.hi != nil && p.hi.Sign() < 0 {
		return tt.True
	}
	if p.lo != nil && p.lo.Sign() >= 0 {
		return tt.False
	}
	if p.lo != nil && p.lo.Cmp(bi(-1)) == 0 {
		return tt.Eq0(tt.AddI(p, 1)) // p in {-1,0,...}: p<0 iff p+1==0
	}
	if p.hi != nil && p.hi.Sign() == 0 {
		return tt.BNot(tt.Eq0(p))
	}
	if p.op == "choice" {
		return tt.liftB(p, tt.Lt0)
	}
	if r := tt.splitPoly(p, tt.Lt0); r != nil {
		return r
	}
	// canonical sign: highest monomial positive
	ms := p.monos()
	if ms[len(ms)-1].co.Sign() < 0 {
		return tt.BNot(tt.Lt0(tt.AddI(tt.Neg(p), -1)))
	}
	// divide by gcd of non-constant coefficients
	g := new(big.Int)
	for _, m := range ms {
		if len(m.vs) > 0 {
			g.GCD(nil, nil, g, new(big.Int).Abs(m.co))
		}
	}
	if g.Cmp(big1) > 0 {
		var out []mono
		for _, m := range ms {
			if len(m.vs) > 0 {
				out = append(out, mono{new(big.Int).Quo(m.co, g), m.vs})
			} else {
				// q*g + c < 0  <=>  q < -c/g  <=> q - ceil(-c/g) < 0 ; floor(c/g) works: q + floor(c/g) < 0 iff q*g + c < 0
				out = append(out, mono{floorDiv(m.co, g), nil})
			}
		}
		var o2 []mono
		for _, m := range out {
			if m.co.Sign() != 0 {
				o2 = append(o2, m)
			}
		}
		return tt.Lt0(tt.fromList(o2))
	}
	return tt.Var(tt.Atom("lt0", "", 0, nil, nil, p))
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, b, new(big.Int))
	_ = m
	return q
}

// onCurve applies y^2 = x^3 + ax + b to the coordinates of known points.
func (tt *Terms) onCurve(p *T) *T {
	m := hx(p.s)
	w := curveByP(m)
	if w == nil {
		return p
	}
	r, hit := tt.Int(0), false
	for _, mo := range p.args[0].monos() {
		f := -1
		for i := 0; i+1 < len(mo.vs); i++ {
			if mo.vs[i] == mo.vs[i+1] && mo.vs[i].op == "py" && mo.vs[i].s == w.name {
				f = i
			}
		}
		if f < 0 {
			r = tt.Add(r, tt.fromList([]mono{mo}))
			continue
		}
		hit = true
		x := tt.Atom("px", w.name, 0, big0, new(big.Int).Sub(w.p, big1), mo.vs[f].args[0])
		t := tt.Add(tt.Add(tt.Mul(x, tt.Mul(x, x)), tt.Scale(x, w.a)), tt.Const(w.b))
		t = tt.Scale(t, mo.co)
		for i, v := range mo.vs {
			if i != f && i != f+1 {
				t = tt.Mul(t, v)
			}
		}
		r = tt.Add(r, t)
	}
	if !hit {
		return p
	}
	return tt.Mod(r, m)
}

// Eq0: p == 0.
func (tt *Terms) Eq0(p *T) *B {
	if p.IsConst() {
		if p.c.Sign() == 0 {
			return tt.True
		}
		return tt.False
	}
	if (p.lo != nil && p.lo.Sign() > 0) || (p.hi != nil && p.hi.Sign() < 0) {
		return tt.False
	}
	if p.op == "choice" {
		return tt.liftB(p, tt.Eq0)
	}
	if tt.zeroHook != nil {
		if r := tt.zeroHook(p); r != nil {
			return r
		}
	}
	if r := tt.splitPoly(p, tt.Eq0); r != nil {
		return r
	}
	if p.op == "mod" {
		if m := hx(p.s); leadNeg(p.args[0], m) {
			return tt.Eq0(tt.Mod(tt.Neg(p.args[0]), m))
		}
	}
	if p.op == "mod" {
		if q := tt.onCurve(p); q != p {
			return tt.Eq0(q)
		}
	}
	if p.op == "inv" {
		// the inverse of 0 is 0
		return tt.Eq0(tt.Mod(p.args[0], hx(p.s)))
	}
	if p.op == "mod" {
		if v, q := tt.commonInv(p.args[0], p.s); v != nil {
			return tt.BOr(tt.Eq0(v), tt.Eq0(tt.Mod(q, hx(p.s))))
		}
	}
	if p.op == "jz" {
		// the representative of the identity has Z = 0; no other point has ordinate 0
		_, y := tt.coords(curveByName(p.s), p.args[0])
		return tt.Eq0(y)
	}
	if p.op == "px" && tt.jac {
		// 0 for the identity
		if i := tt.identityIf(p); i != nil {
			return tt.BOr(i, tt.Var(tt.Atom("eq0", "", 0, nil, nil, p)))
		}
	}
	if p.op == "py" {
		// the order is odd: only the identity has ordinate 0
		if w := curveByName(p.s); w != nil && !w.ed {
			if k, ok := tt.genCoef(p.args[0]); ok {
				return tt.Eq0(tt.Mod(k, w.n))
			}
		}
	}
	ms := p.monos()
	if ms[len(ms)-1].co.Sign() < 0 {
		return tt.Eq0(tt.Neg(p))
	}
	// boolean-valued atoms in {0,1}
	if len(ms) == 1 && len(ms[0].vs) == 1 && ms[0].co.Cmp(big1) != 0 {
		return tt.Eq0(ms[0].vs[0])
	}
	if o := tt.ors[p.id]; o != nil {
		r := tt.True
		for _, x := range o {
			r = tt.BAnd(r, tt.Eq0(x))
		}
		return r
	}
	if p.op == "anf" && len(p.anf) == 1 && len(p.anf[0].vs) == 1 {
		// the high bits of a value
		v, m := p.anf[0].vs[0], p.anf[0].mask
		k := int(m.TrailingZeroBits())
		if k > 0 && v.lo != nil && v.lo.Sign() >= 0 && v.hi != nil && v.hi.BitLen() <= p.n && new(big.Int).Xor(m, pow2m(v.hi.BitLen())).Cmp(pow2m(k)) == 0 {
			return tt.Lt(v, tt.Const(pow2(k)))
		}
	}
	if p.op == "anf" && len(p.anf) == 2 && len(p.anf[0].vs) <= 1 && len(p.anf[1].vs) == 1 {
		// x ^ y == 0
		a, ok1 := tt.anfVar(p.anf[0], p.n)
		b, ok2 := tt.anfVar(p.anf[1], p.n)
		if ok1 && ok2 {
			return tt.Eq(a, b)
		}
	}
	if len(ms) == 2 && len(ms[0].vs) <= 1 && len(ms[1].vs) == 1 {
		// x - y == 0 with x or y a combination of bits: x ^ y == 0
		if x, y, ok := tt.bitPair(ms); ok {
			w := max(x.hi.BitLen(), y.hi.BitLen())
			if d := tt.Xor(x, y, w); d.op == "anf" {
				return tt.Eq0(d)
			}
		}
	}
	if len(ms) == 2 && len(ms[0].vs) == 0 && len(ms[1].vs) == 1 && ms[1].co.Cmp(big1) == 0 {
		// v + c == 0 with v a 0/1 atom
		v := ms[1].vs[0]
		if v.lo != nil && v.hi != nil && v.lo.Sign() == 0 && v.hi.Cmp(big1) == 0 && ms[0].co.Cmp(bi(-1)) == 0 {
			return tt.BNot(tt.Eq0(v))
		}
	}
	return tt.Var(tt.Atom("eq0", "", 0, nil, nil, p))
}

// commonInv: an inverse that divides every monomial of t, and the quotient.
func (tt *Terms) commonInv(t *T, ms string) (*T, *T) {
	l := t.monos()
	if len(l) == 0 {
		return nil, nil
	}
	for _, v := range l[0].vs {
		if v.op != "inv" || v.s != ms {
			continue
		}
		var out []mono
		for _, m := range l {
			at := -1
			for i, w := range m.vs {
				if w == v {
					at = i
				}
			}
			if at < 0 {
				break
			}
			out = append(out, mono{m.co, append(append([]*T{}, m.vs[:at]...), m.vs[at+1:]...)})
		}
		if len(out) == len(l) {
			return v, tt.fromList(out)
		}
	}
	return nil, nil
}

// bitPair: the two sides of x - y when both are non-negative and one is a
// boolean polynomial of several monomials.
func (tt *Terms) bitPair(ms []mono) (x, y *T, ok bool) {
	bits := false
	side := func(m mono, neg bool) *T {
		if len(m.vs) == 0 {
			c := new(big.Int).Set(m.co)
			if neg {
				c.Neg(c)
			}
			if c.Sign() < 0 {
				return nil
			}
			return tt.Const(c)
		}
		if m.co.CmpAbs(big1) != 0 || (m.co.Sign() < 0) != neg {
			return nil
		}
		v := m.vs[0]
		if v.lo == nil || v.hi == nil || v.lo.Sign() < 0 {
			return nil
		}
		bits = bits || v.op == "anf" && len(v.anf) > 1
		return v
	}
	if y, x = side(ms[0], true), side(ms[1], false); x == nil || y == nil {
		if y, x = side(ms[1], true), side(ms[0], false); x == nil || y == nil {
			return nil, nil, false
		}
	}
	return x, y, bits
}

func (tt *Terms) anfVar(m amono, w int) (*T, bool) {
	if len(m.vs) == 0 {
		return tt.Const(m.mask), true
	}
	v := m.vs[0]
	if v.lo == nil || v.hi == nil || v.lo.Sign() < 0 || v.hi.BitLen() > w || m.mask.Cmp(pow2m(v.hi.BitLen())) != 0 {
		return nil, false
	}
	return v, true
}

func (tt *Terms) liftB(p *T, f func(*T) *B) *B {
	r := tt.False
	for i, a := range p.args {
		r = tt.BOr(r, tt.BAnd(p.cs[i], f(a)))
	}
	return r
}

// splitPoly: f(c*x + rest) with x a selection, by cases of x.
func (tt *Terms) splitPoly(p *T, f func(*T) *B) *B {
	cs, vs := tt.splitCases(p)
	if cs == nil {
		return nil
	}
	r := tt.False
	for i, a := range vs {
		r = tt.BOr(r, tt.BAnd(cs[i], f(a)))
	}
	return r
}

// splitCases: c*x + rest with x a selection, as one selection.
func (tt *Terms) splitCases(p *T) ([]*B, []*T) {
	if isBytes(p) || p.IsConst() {
		return nil, nil
	}
	ms := p.monos()
	if len(ms) < 2 {
		return nil, nil
	}
	at := -1
	for i, m := range ms {
		for _, v := range m.vs {
			if v.op == "choice" {
				if len(m.vs) > 1 || at >= 0 || len(v.args) > 4 {
					return nil, nil
				}
				at = i
			}
		}
	}
	if at < 0 {
		return nil, nil
	}
	x := ms[at].vs[0]
	co := tt.Const(ms[at].co)
	rest := tt.Sub(p, tt.Mul(co, x))
	var vs []*T
	for _, a := range x.args {
		vs = append(vs, tt.Add(rest, tt.Mul(co, a)))
	}
	return x.cs, vs
}

func (tt *Terms) Lt(a, b *T) *B { return tt.cmpT(a, b, func(d *T) *B { return tt.Lt0(d) }) }
func (tt *Terms) Le(a, b *T) *B { return tt.BNot(tt.Lt(b, a)) }
func (tt *Terms) Eq(a, b *T) *B { return tt.cmpT(a, b, func(d *T) *B { return tt.Eq0(d) }) }

func (tt *Terms) cmpT(a, b *T, f func(*T) *B) *B {
	if a.op == "choice" {
		r := tt.False
		for i, x := range a.args {
			r = tt.BOr(r, tt.BAnd(a.cs[i], tt.cmpT(x, b, f)))
		}
		return r
	}
	if b.op == "choice" {
		r := tt.False
		for i, x := range b.args {
			r = tt.BOr(r, tt.BAnd(b.cs[i], tt.cmpT(a, x, f)))
		}
		return r
	}
	// cmp3(p) compared with a constant
	if a.op == "cmp3" && b.IsConst() {
		// sign(p) - c
		return tt.cmp3(a, b.c, f)
	}
	if b.op == "cmp3" && a.IsConst() {
		neg := tt.Cmp3(tt.Neg(b.args[0]))
		if neg.op == "cmp3" {
			return tt.cmp3(neg, new(big.Int).Neg(a.c), f)
		}
	}
	return f(tt.Sub(a, b))
}

// evaluate f(sign(p) - c) by cases, merged back into one canonical condition
func (tt *Terms) cmp3(a *T, c *big.Int, f func(*T) *B) *B {
	p := a.args[0]
	v := func(s int64) bool { return f(tt.Const(new(big.Int).Sub(bi(s), c))) == tt.True }
	n, z, q := v(-1), v(0), v(1)
	switch {
	case n && z && q:
		return tt.True
	case !n && !z && !q:
		return tt.False
	case n && !z && !q:
		return tt.Lt0(p)
	case n && z && !q:
		return tt.BNot(tt.Lt0(tt.Neg(p)))
	case !n && z && !q:
		return tt.Eq0(p)
	case n && !z && q:
		return tt.BNot(tt.Eq0(p))
	case !n && z && q:
		return tt.BNot(tt.Lt0(p))
	default:
		return tt.Lt0(tt.Neg(p))
	}
}

// Cmp3: sign of p as an integer.
func (tt *Terms) Cmp3(p *T) *T {
	if p.lo != nil && p.lo.Sign() > 0 {
		return tt.Int(1)
	}
	if p.hi != nil && p.hi.Sign() < 0 {
		return tt.Int(-1)
	}
	if p.IsConst() {
		return tt.Int(int64(p.c.Sign()))
	}
	lo, hi := bi(-1), big1
	if p.lo != nil && p.lo.Sign() >= 0 {
		lo = big0
	}
	if p.hi != nil && p.hi.Sign() <= 0 {
		hi = big0
	}
	return tt.Atom("cmp3", "", 0, lo, hi, p)
}

// Choice builds a guarded selection of integer (or byte-string) terms.
// cofactor of b at v = val.
func (tt *Terms) cofactor(b *B, v *T, val bool, memo map[*B]*B) *B {
	if b.isTerm() {
		return b
	}
	if b.v == v {
		if val {
			return b.hi
		}
		return b.lo
	}
	if r := memo[b]; r != nil {
		return r
	}
	r := tt.Ite(tt.Var(b.v), tt.cofactor(b.hi, v, val, memo), tt.cofactor(b.lo, v, val, memo))
	memo[b] = r
	return r
}

// identityIf: the condition that the point whose coordinate v is is the identity.
func (tt *Terms) identityIf(v *T) *B {
	if v.op == "mod" {
		ms := v.args[0].monos()
		if m := hx(v.s); len(ms) > 0 {
			for _, x := range ms[0].vs {
				if x.op == "G" || x.op == "aff" {
					if w := curveByName(x.s); w != nil && !w.ed && w.n.Cmp(m) == 0 {
						_, y := tt.coords(w, v)
						return tt.Eq0(y)
					}
				}
			}
		}
		if len(ms) != 1 || len(ms[0].vs) != 1 {
			return nil
		}
		v = ms[0].vs[0]
	}
	if v.op != "px" && v.op != "py" {
		return nil
	}
	w := curveByName(v.s)
	if w == nil || w.ed {
		return nil
	}
	return tt.Eq0(tt.Py(w, v.args[0]))
}

func (tt *Terms) Choice(cs []*B, vs []*T) *T {
	acc := map[*T]*B{}
	var order []*T
	var add func(c *B, v *T)
	add = func(c *B, v *T) {
		if c == tt.False {
			return
		}
		if v.op == "choice" {
			for i, a := range v.args {
				add(tt.BAnd(c, v.cs[i]), a)
			}
			return
		}
		if acc[v] == nil {
			acc[v] = c
			order = append(order, v)
		} else {
			acc[v] = tt.BOr(acc[v], c)
		}
	}
	for i, v := range vs {
		add(cs[i], v)
	}
	if len(order) == 0 {
		return tt.Const(big0)
	}
	if len(order) == 1 {
		return order[0]
	}
	if z := tt.Int(0); tt.jac && acc[z] != nil {
		// the identity's coordinates are 0: "0 if P is the identity, else x(P)" is x(P)
		left, to := acc[z], map[*T]*B{}
		for _, v := range order {
			i := tt.identityIf(v)
			if i == nil || i.isTerm() {
				continue
			}
			part := tt.BAnd(left, i)
			if i.hi.isTerm() && i.lo.isTerm() {
				// only where v is what is chosen otherwise
				part = tt.BAnd(part, tt.cofactor(acc[v], i.v, i.lo == tt.True, map[*B]*B{}))
			}
			to[v] = part
			left = tt.BAnd(left, tt.BNot(part))
		}
		if left == tt.False {
			var l []*T
			for _, v := range order {
				if v == z {
					continue
				}
				if to[v] != nil {
					acc[v] = tt.BOr(acc[v], to[v])
				}
				l = append(l, v)
			}
			order = l
			if len(order) == 1 {
				return order[0]
			}
		}
	}
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	var sb strings.Builder
	sb.WriteString("choice")
	var gs []*B
	lo, hi := order[0].lo, order[0].hi
	var ln *T
	sameLen := true
	for i, v := range order {
		fmt.Fprintf(&sb, "|%d?%d", acc[v].id, v.id)
		gs = append(gs, acc[v])
		lo, hi = minB(lo, v.lo), maxB(hi, v.hi)
		if i == 0 {
			ln = v.len
		} else if v.len != ln {
			sameLen = false
		}
	}
	if !sameLen {
		var ls []*T
		for _, v := range order {
			ls = append(ls, v.len)
		}
		ok := true
		for _, l := range ls {
			if l == nil {
				ok = false
			}
		}
		if ok {
			ln = tt.Choice(gs, ls)
		} else {
			ln = nil
		}
	}
	if tt.phi && lo != nil && hi != nil && ln == nil {
		return tt.mk("phi"+sb.String(), func() *T {
			lo, hi := lo, hi
			for i, v := range order {
				l, h := tt.rangeUnder(v, gs[i])
				if i == 0 {
					lo, hi = l, h
				} else {
					lo, hi = minB(lo, l), maxB(hi, h)
				}
			}
			return &T{op: "phi", args: order, cs: gs, lo: lo, hi: hi}
		})
	}
	return tt.mk(sb.String(), func() *T { return &T{op: "choice", args: order, cs: gs, lo: lo, hi: hi, len: ln} })
}
