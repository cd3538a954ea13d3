package main

import (
	"fmt"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// SM2 prime field: nine limbs of 29 and 28 bits, Montgomery factor 2^257.
// Values that differ by branch are atoms whose range is the union of the
// ranges the alternatives have under their conditions; identities are decided
// by writing each such atom as a sum of alternatives times 0/1 indicators.

func init() { checks["C25"] = checkC25 }

func checkC25(p *Prog, r *Report) {
	r.Explain = "Each routine is evaluated over unknown limbs within the documented bounds (2^30 and 2^29). Words are polynomials over limbs, floors and low-bit fields; where control flow joins, a word is an atom that stands for the alternatives with their conditions, with the range they have under these conditions. Shown are: the value of the output limbs, written with 0/1 indicators of the conditions, equals the exact result modulo the SM2 prime (so no word wraps and every carry and borrow is accounted for), and output limbs are within the bounds the next operation needs. A value that cannot be shown equal is reported only with limbs for which the extracted terms differ."
	jobs := []func(sub *Report){
		func(sub *Report) { newHOn(p, sub, "owcrypt").sm2Degree() },
		func(sub *Report) { newHOn(p, sub, "owcrypt").sm2Linear() },
		func(sub *Report) { newHOn(p, sub, "owcrypt").sm2Product() },
		func(sub *Report) { newHOn(p, sub, "owcrypt").sm2Convert() },
	}
	r.parallel(len(jobs), func(i int, sub *Report) { jobs[i](sub) })
}

const sm2Pk = "owcrypt.sm2_std"

// sm2Bound: bounds of the limbs of an operand.
func sm2Bound() ([]*big.Int, []*big.Int) {
	var lo, hi []*big.Int
	for i := 0; i < 9; i++ {
		lo, hi = append(lo, big0), append(hi, pow2m(30-i&1))
	}
	return lo, hi
}

// sm2Large: bounds of the limbs of a product of two operands.
func sm2Large() (*limbField, []*big.Int, []*big.Int) {
	f := &limbField{name: "sm2 product"}
	var lo, hi []*big.Int
	off := uint(0)
	for i := 0; i < 17; i++ {
		h := new(big.Int)
		for j := max(0, i-8); j <= min(8, i); j++ {
			m := new(big.Int).Mul(pow2m(30-j&1), pow2m(30-(i-j)&1))
			h.Add(h, m.Lsh(m, uint(j&(i-j)&1)))
		}
		f.off, lo, hi = append(f.off, off), append(lo, big0), append(hi, h)
		off += uint(29 - i&1)
	}
	return f, lo, hi
}

func (h *H) sm2Phi() *big.Int {
	tt := h.tt
	tt.limb, tt.phi, tt.maxPoly = true, true, 1<<16
	tt.rangeUnder = func(t *T, c *B) (*big.Int, *big.Int) { return h.in.splitRange(t, c, 2) }
	return curveByName("sm2").p
}

// phiCongruent: t is 0 modulo p for all values of the atoms.
func (h *H) phiCongruent(key string, f *ssa.Function, t *T, p *big.Int, vars []*T) bool {
	pos := h.p.Pos(f.Pos())
	d := &phiPoly{tt: h.tt, m: map[string]*phiMono{}, p: p}
	h.tt.open = true
	ok := d.run(t)
	h.tt.open = false
	for _, x := range d.m {
		ok = ok && new(big.Int).Mod(x.co, p).Sign() == 0
	}
	if ok {
		h.r.OK(key, pos, "")
		return true
	}
	if w := h.sample(vars, []*T{t}, func(v []*big.Int) bool { return new(big.Int).Mod(v[0], p).Sign() != 0 }); w != "" {
		h.r.Bad(key, pos, "the result is not congruent to the exact one for "+w)
		return false
	}
	h.r.Undecided(key, "congruence not shown")
	return false
}

// sm2Limbs: the output limbs are within bounds.
func (h *H) sm2Limbs(key string, f *ssa.Function, l []*T, vars []*T) {
	_, hi := sm2Bound()
	for i := range l {
		h.limbRange(fmt.Sprintf("%s/limb %d", key, i), f, l[i], big0, hi[i], vars)
	}
}

func (h *H) sm2Func(name string) *ssa.Function {
	f := h.pkgFn("owcrypt", "sm2_std"+name)
	if f == nil {
		h.r.Undecided(name, "no such function")
	}
	return f
}

// sm2Degree: the Montgomery reduction of a product.
func (h *H) sm2Degree() {
	tt := h.tt
	p := h.sm2Phi()
	f := h.sm2Func("ReduceDegree")
	if f == nil {
		return
	}
	lf, lo, hi := sm2Large()
	var b *AggV
	var sum *T
	var out Val
	rn := h.run("ReduceDegree", f, func(st *State) []Val {
		b, sum = h.limbsIn("b", lf, lo, hi)
		a := &AggV{}
		for i := 0; i < 9; i++ {
			a.el = append(a.el, tt.Atom("var", "old"+itoa(i), 0, big0, pow2m(32)))
		}
		out = h.place("out", a, st)
		return []Val{out, h.place("b", b, st)}
	})
	if rn == nil {
		return
	}
	vars := aggVars(b)
	h.sparse(vars)
	l, v := h.limbsOut(feSM2, out, rn.st)
	if v == nil {
		h.r.Undecided("ReduceDegree", "the result is not a limb vector")
		return
	}
	if !h.phiCongruent("ReduceDegree/value", f, tt.Sub(tt.Scale(v, pow2(257)), sum), p, vars) {
		return
	}
	h.sm2Limbs("ReduceDegree", f, l, vars)
}

// sparse adds samples with few nonzero limbs.
func (h *H) sparse(vars []*T) {
	add := func(m map[*T]*big.Int) { h.special = append(h.special, m) }
	put := func(m map[*T]*big.Int, v *T, x *big.Int) {
		if x.Cmp(v.hi) > 0 {
			x = v.hi
		}
		m[v] = x
	}
	for i, v := range vars {
		for _, x := range []*big.Int{big1, pow2(12), pow2m(28), pow2m(29), pow2(28), pow2(29), v.hi} {
			m := map[*T]*big.Int{}
			put(m, v, x)
			add(m)
			for j := 1; j <= 9; j++ {
				if i+j < len(vars) {
					for _, y := range []*big.Int{big1, pow2m(28), pow2m(29)} {
						m := map[*T]*big.Int{}
						put(m, v, x)
						put(m, vars[i+j], y)
						add(m)
					}
				}
			}
		}
	}
}

// sm2Linear: addition, subtraction, carry reduction and copies.
func (h *H) sm2Linear() {
	tt := h.tt
	p := h.sm2Phi()
	for _, x := range []struct {
		name   string
		args   int
		result func(a, b *T) *T
	}{
		{"Add", 2, func(a, b *T) *T { return tt.Add(a, b) }},
		{"Sub", 2, func(a, b *T) *T { return tt.Sub(a, b) }},
		{"Dup", 1, func(a, b *T) *T { return a }},
	} {
		f := h.sm2Func(x.name)
		if f == nil {
			continue
		}
		for _, sh := range [][]int{{0, 1, 2}, {0, 0, 2}, {0, 1, 0}, {0, 1, 1}, {0, 0, 0}} {
			if x.args < 2 && sh[2] != 2 {
				continue
			}
			key := x.name
			if sh[1] != 1 || sh[2] != 2 {
				key += fmt.Sprint("/shared ", sh[:x.args+1])
			}
			agg, val, ptr := make([]*AggV, 3), make([]*T, 3), make([]Val, 3)
			rn := h.run(key, f, func(st *State) []Val {
				lo, hi := sm2Bound()
				for i := 0; i <= x.args; i++ {
					if sh[i] < i {
						agg[i], val[i], ptr[i] = agg[sh[i]], val[sh[i]], ptr[sh[i]]
						continue
					}
					agg[i], val[i] = h.limbsIn(string(rune('o'+i)), feSM2, lo, hi)
					ptr[i] = h.place("arg"+itoa(i), agg[i], st)
				}
				return append([]Val{}, ptr[:x.args+1]...)
			})
			if rn == nil {
				continue
			}
			vars := aggVars(agg[0])
			for i := 1; i <= x.args; i++ {
				if sh[i] == i {
					vars = append(vars, aggVars(agg[i])...)
				}
			}
			h.special = nil
			h.sparse(vars)
			l, v := h.limbsOut(feSM2, ptr[0], rn.st)
			if v == nil {
				h.r.Undecided(key, "the result is not a limb vector")
				continue
			}
			if !h.phiCongruent(key+"/value", f, tt.Sub(v, x.result(val[1], val[2])), p, vars) {
				continue
			}
			h.sm2Limbs(key, f, l, vars)
			for i := 1; i <= x.args; i++ {
				if sh[i] == i {
					_, s := h.limbsOut(feSM2, ptr[i], rn.st)
					h.r.Check(s == val[i], key+"/operand "+itoa(i)+" kept", h.p.Pos(f.Pos()), "the operand is modified")
				}
			}
		}
	}
	f := h.sm2Func("ReduceCarry")
	if f == nil {
		return
	}
	for c := int64(0); c < 8; c++ {
		key := fmt.Sprint("ReduceCarry/", c)
		var a *AggV
		var s *T
		var out Val
		rn := h.run(key, f, func(st *State) []Val {
			lo, hi := sm2Bound()
			for i := range hi {
				hi[i] = pow2m(29 - i&1)
			}
			a, s = h.limbsIn("a", feSM2, lo, hi)
			out = h.place("a", a, st)
			return []Val{out, tt.Int(c)}
		})
		if rn == nil {
			continue
		}
		l, v := h.limbsOut(feSM2, out, rn.st)
		if v == nil {
			h.r.Undecided(key, "the result is not a limb vector")
			continue
		}
		h.special = nil
		want := tt.Add(s, tt.Const(new(big.Int).Mul(bi(c), pow2(257))))
		if h.phiCongruent(key+"/value", f, tt.Sub(v, want), p, aggVars(a)) {
			h.sm2Limbs(key, f, l, aggVars(a))
		}
	}
}

// sm2Product: the limbs of products, as handed to the reduction.
func (h *H) sm2Product() {
	in, tt := h.in, h.tt
	tt.limb, tt.maxPoly = true, 1<<16
	lf, _, lhi := sm2Large()
	var calls int
	var limbs []*T
	var got *T
	var red *AggV
	in.def(sm2Pk+"ReduceDegree", func(in *Interp, c *callCtx) (Val, bool) {
		limbs, got = h.limbsOut(lf, c.args[1], c.st)
		calls++
		red = &AggV{}
		for i := 0; i < 9; i++ {
			red.el = append(red.el, tt.Atom("var", "red"+itoa(i), 0, big0, pow2m(30-i&1)))
		}
		in.store(c.args[0], red, c.st, c.pos)
		return &TupleV{}, true
	})
	for _, x := range []struct {
		name string
		args int
	}{{"Mul", 2}, {"Square", 1}} {
		f := h.sm2Func(x.name)
		if f == nil {
			continue
		}
		for _, sh := range [][]int{{0, 1, 2}, {0, 0, 2}, {0, 1, 0}, {0, 1, 1}, {0, 0, 0}} {
			if x.args < 2 && sh[2] != 2 {
				continue
			}
			key := x.name
			if sh[1] != 1 || sh[2] != 2 {
				key += fmt.Sprint("/shared ", sh[:x.args+1])
			}
			agg, val, ptr := make([]*AggV, 3), make([]*T, 3), make([]Val, 3)
			calls = 0
			rn := h.run(key, f, func(st *State) []Val {
				lo, hi := sm2Bound()
				for i := 0; i <= x.args; i++ {
					if sh[i] < i {
						agg[i], val[i], ptr[i] = agg[sh[i]], val[sh[i]], ptr[sh[i]]
						continue
					}
					agg[i], val[i] = h.limbsIn(string(rune('o'+i)), feSM2, lo, hi)
					ptr[i] = h.place("arg"+itoa(i), agg[i], st)
				}
				return append([]Val{}, ptr[:x.args+1]...)
			})
			if rn == nil {
				continue
			}
			vars := aggVars(agg[0])
			for i := 1; i <= x.args; i++ {
				if sh[i] == i {
					vars = append(vars, aggVars(agg[i])...)
				}
			}
			out, _ := in.deref(ptr[0], rn.st).(*AggV)
			if calls != 1 || got == nil || out == nil {
				h.r.Undecided(key, "not one product handed to the reduction")
				continue
			}
			same := true
			for i := range out.el {
				same = same && out.el[i] == red.el[i]
			}
			if !same {
				h.r.Undecided(key, "the result is not that of the reduction")
				continue
			}
			h.special = nil
			want := tt.Mul(val[1], val[x.args])
			h.limbEq(key+"/value", f, got, want, vars)
			for i, l := range limbs {
				h.limbRange(fmt.Sprintf("%s/product limb %d", key, i), f, l, big0, lhi[i], vars)
			}
			for i := 1; i <= x.args; i++ {
				if sh[i] == i {
					_, s := h.limbsOut(feSM2, ptr[i], rn.st)
					h.r.Check(s == val[i], key+"/operand "+itoa(i)+" kept", h.p.Pos(f.Pos()), "the operand is modified")
				}
			}
		}
	}
}

// sm2Convert: conversion from and to integers.
func (h *H) sm2Convert() {
	in, tt := h.in, h.tt
	p := h.sm2Phi()
	if f := h.sm2Func("ToBig"); f != nil {
		var a *AggV
		var s *T
		rn := h.run("ToBig", f, func(st *State) []Val {
			lo, hi := sm2Bound()
			a, s = h.limbsIn("a", feSM2, lo, hi)
			return []Val{h.place("a", a, st)}
		})
		if rn != nil {
			ri := new(big.Int).ModInverse(pow2(257), p)
			got := in.bigVal(rn.res[0], &callCtx{st: rn.st})
			h.limbEq("ToBig", f, got, tt.Mod(tt.Scale(s, ri), p), aggVars(a))
		}
	}
	if f := h.sm2Func("FromBig"); f != nil {
		v := tt.Atom("var", "v", 0, big0, pow2m(256))
		var out Val
		rn := h.run("FromBig", f, func(st *State) []Val {
			a := &AggV{}
			for i := 0; i < 9; i++ {
				a.el = append(a.el, tt.Atom("var", "old"+itoa(i), 0, big0, pow2m(32)))
			}
			out = h.place("X", a, st)
			return []Val{out, in.newBig(v, st)}
		})
		if rn != nil {
			l, s := h.limbsOut(feSM2, out, rn.st)
			if s == nil {
				h.r.Undecided("FromBig", "the result is not a limb vector")
				return
			}
			h.phiCongruent("FromBig/value", f, tt.Sub(s, tt.Scale(v, pow2(257))), p, []*T{v})
			h.sm2Limbs("FromBig", f, l, []*T{v})
		}
	}
}

// phiPoly: a polynomial over atoms and conditions (as 0/1 values).
type phiMono struct {
	co *big.Int
	hs []*T // conditions
	v  *T   // at most one atom
}

type phiPoly struct {
	tt *Terms
	m  map[string]*phiMono
	p  *big.Int
}

var errPhi = fmt.Errorf("not linear")

// run writes t over conditions and final atoms.
func (d *phiPoly) run(t *T) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if x != errPhi {
				panic(x)
			}
			ok = false
		}
	}()
	d.add(big1, nil, t)
	d.expand()
	return true
}

// atIs: the condition "x is i" of an atom and a constant.
func (d *phiPoly) atIs(h *T) (*T, *big.Int) {
	if h.op != "eq0" {
		return nil, nil
	}
	var x *T
	k, c := big1, new(big.Int)
	for _, m := range h.args[0].monos() {
		switch {
		case len(m.vs) == 0:
			c = m.co
		case len(m.vs) == 1 && x == nil:
			x, k = m.vs[0], m.co
		default:
			return nil, nil
		}
	}
	q, r := new(big.Int).QuoRem(new(big.Int).Neg(c), k, new(big.Int))
	if x == nil || r.Sign() != 0 {
		return nil, nil
	}
	return x, q
}

func (d *phiPoly) put(co *big.Int, hs []*T, v *T) {
	// x = 0 where eq0(x)
	if v != nil {
		for _, h := range hs {
			if h.op == "eq0" && partOf(v, h.args[0]) {
				return
			}
		}
	}
	// h and h' cannot both hold
	for i, h := range hs {
		for _, g := range hs[:i] {
			if x, a := d.atIs(h); x != nil {
				if y, b := d.atIs(g); y == x && a.Cmp(b) != 0 {
					return
				}
			}
		}
	}
	k := ""
	for _, h := range hs {
		k += itoa(h.id) + ","
	}
	if v != nil {
		k += "|" + itoa(v.id)
	}
	x := d.m[k]
	if x == nil {
		x = &phiMono{new(big.Int), hs, v}
		d.m[k] = x
	}
	x.co = new(big.Int).Add(x.co, co)
	if x.co.Sign() == 0 {
		delete(d.m, k)
	}
}

// partOf: some bits of x.
func partOf(v, x *T) bool {
	for ; ; v = v.args[0] {
		if v == x || x.op == "shr" && v.op == "shr" && v.args[0] == x.args[0] && v.n >= x.n {
			return true
		}
		if v.op != "field" && v.op != "shr" {
			return false
		}
	}
}

// add: co * product of hs * t
func (d *phiPoly) add(co *big.Int, hs []*T, t *T) {
	for _, x := range t.monos() {
		c := new(big.Int).Mul(co, x.co)
		if len(x.vs) == 0 {
			d.put(c, hs, nil)
			continue
		}
		if len(x.vs) > 1 {
			panic(errPhi)
		}
		d.put(c, hs, x.vs[0])
	}
}

// addIf: co * hs * [b] * t
func (d *phiPoly) addIf(co *big.Int, hs []*T, b *B, t *T) {
	if b == d.tt.False {
		return
	}
	if b == d.tt.True {
		d.add(co, hs, t)
		return
	}
	for _, h := range hs {
		if h == b.v {
			d.addIf(co, hs, b.hi, t)
			return
		}
	}
	g := append([]*T{}, hs...)
	i := 0
	for i < len(g) && g[i].id < b.v.id {
		i++
	}
	g = append(g[:i], append([]*T{b.v}, g[i:]...)...)
	d.addIf(co, g, b.hi, t)
	d.addIf(co, hs, b.lo, t)
	d.addIf(new(big.Int).Neg(co), g, b.lo, t)
}

func (d *phiPoly) def(a *T) *T {
	tt := d.tt
	switch {
	case a.op == "mod" && hx(a.s).Cmp(d.p) == 0:
		return a.args[0]
	case a.op == "field":
		return tt.Sub(a.args[0], tt.Scale(tt.Shr(a.args[0], a.n), pow2(a.n)))
	case a.op == "shr" && a.args[0].op == "field" && a.args[0].n > a.n:
		f := a.args[0]
		return tt.Sub(tt.Shr(f.args[0], a.n), tt.Scale(tt.Shr(f.args[0], f.n), pow2(f.n-a.n)))
	}
	return nil
}

func (d *phiPoly) expand() {
	for n := 0; ; n++ {
		if n > 20000 || len(d.m) > 20000 {
			panic(errPhi)
		}
		var top *T
		for _, x := range d.m {
			if x.v != nil && (top == nil || x.v.id > top.id) && (x.v.op == "phi" || d.def(x.v) != nil) {
				top = x.v
			}
		}
		if top == nil {
			d.counters()
			return
		}
		var l []*phiMono
		for k, x := range d.m {
			if x.v == top {
				l = append(l, x)
				delete(d.m, k)
			}
		}
		for _, x := range l {
			if top.op == "phi" {
				for i, c := range top.cs {
					d.addIf(x.co, x.hs, c, top.args[i])
				}
			} else {
				d.add(x.co, x.hs, d.def(top))
			}
		}
	}
}

// counters replaces an atom with a small range by the conditions on it: its
// value is the sum of i * [x = i].
func (d *phiPoly) counters() {
	at := map[*T]map[int64]*T{}
	for _, x := range d.m {
		for _, h := range x.hs {
			q, c := d.atIs(h)
			if q == nil {
				continue
			}
			if at[q] == nil {
				at[q] = map[int64]*T{}
			}
			at[q][c.Int64()] = h
		}
	}
	for x, hs := range at {
		if x.lo == nil || x.hi == nil || x.lo.BitLen() > 4 || x.hi.BitLen() > 4 {
			continue
		}
		lo, hi := x.lo.Int64(), x.hi.Int64()
		// the value with no condition of its own
		m, n := lo, 0
		for i := lo; i <= hi; i++ {
			if hs[i] == nil {
				m = i
				n++
			}
		}
		if n > 1 {
			continue
		}
		for k, y := range d.m {
			if y.v != x {
				continue
			}
			delete(d.m, k)
			d.put(new(big.Int).Mul(y.co, bi(m)), y.hs, nil)
			for i := lo; i <= hi; i++ {
				if i != m {
					d.addIf(new(big.Int).Mul(y.co, bi(i-m)), y.hs, d.tt.Var(hs[i]), d.tt.Int(1))
				}
			}
		}
	}
}
