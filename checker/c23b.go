package main

import (
	"fmt"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// monosMod: the polynomial a residue stands for, by monomial.
func (tt *Terms) monosMod(t *T) (map[string]*big.Int, bool) {
	if t.op == "mod" && t.s == blsP.Text(16) {
		t = t.args[0]
	}
	l := map[string]*big.Int{}
	for _, m := range t.monos() {
		for _, v := range m.vs {
			if v.op != "var" {
				return nil, false
			}
		}
		l[mkey(m.vs)] = new(big.Int).Mod(m.co, blsP)
	}
	return l, true
}

// inSpan: whether v is a combination of the vectors g modulo the prime.
func inSpan(v map[string]*big.Int, g []map[string]*big.Int, p *big.Int) bool {
	type row struct {
		piv string
		v   map[string]*big.Int
	}
	var rows []row
	red := func(x map[string]*big.Int) map[string]*big.Int {
		y := map[string]*big.Int{}
		for k, c := range x {
			if c.Sign() != 0 {
				y[k] = new(big.Int).Set(c)
			}
		}
		for _, r := range rows {
			c, ok := y[r.piv]
			if !ok {
				continue
			}
			c = new(big.Int).Set(c)
			for k, d := range r.v {
				e := y[k]
				if e == nil {
					e = new(big.Int)
				}
				e = new(big.Int).Sub(e, new(big.Int).Mul(c, d))
				e.Mod(e, p)
				if e.Sign() == 0 {
					delete(y, k)
				} else {
					y[k] = e
				}
			}
		}
		return y
	}
	for _, x := range g {
		y := red(x)
		for k, c := range y {
			i := modInv(c, p)
			for j := range y {
				y[j] = mulm(p, y[j], i)
			}
			rows = append(rows, row{k, y})
			break
		}
	}
	return len(red(v)) == 0
}

// cyclotomic: squaring valid in the cyclotomic subgroup.
func (h *H) cyclotomic(w tower, al map[*ssa.Function]map[string]bool) {
	in, tt, r := h.in, h.tt, h.r
	f, recv := h.towerFn("fp12", "cyclotomicSquare")
	if f == nil {
		return
	}
	r.Count("operations", 1)
	a := w.fresh("x", 12)
	vec := func(c [2]*T) (map[string]*big.Int, bool) {
		v := map[string]*big.Int{}
		for i := 0; i < 2; i++ {
			m, ok := tt.monosMod(c[i])
			if !ok {
				return nil, false
			}
			for k, c := range m {
				v[fmt.Sprint(i, ":", k)] = c
			}
		}
		return v, true
	}
	// a^(p^4) a = a^(p^2) and a a^(p^6) = 1
	rel := append(w.lin(w.mul(w.frob(a, 4), a), w.frob(a, 2), 1, -1), w.lin(w.mul(w.frob(a, 6), a), w.one(6), 1, -1)...)
	var gens []map[string]*big.Int
	for _, c := range rel {
		for _, u := range [][2]*T{w.q.num(1, 0), w.q.num(0, 1)} {
			if v, ok := vec(w.q.mul(c, u)); ok {
				gens = append(gens, v)
			}
		}
	}
	sq := w.mul(a, a)
	for q := range al[f] {
		cls := strings.Fields(q)
		if len(cls) != 2 {
			r.Undecided("fp12.cyclotomicSquare", "operands of unexpected kind")
			continue
		}
		key := "fp12.cyclotomicSquare"
		var c *PtrV
		rn := h.run(key, f, func(st *State) []Val {
			x := h.place("x", w.val(a, 12), st)
			c = x
			if cls[0] != cls[1] {
				c = h.place("c", w.val(w.zero(6), 12), st)
			} else {
				key += " in place"
			}
			return append(recv(st), c, x)
		})
		if rn == nil {
			continue
		}
		got := w.of(in.load(c, rn.st, 0, nil), 12, rn.st)
		for n := range got {
			k := fmt.Sprint(key, "/", n)
			d := w.lin(got[n:n+1], sq[n:n+1], 1, -1)[0]
			v, ok := vec(d)
			if !ok {
				r.Undecided(k, "the coefficient is not a polynomial in the operand's")
				continue
			}
			if inSpan(v, gens, blsP) {
				r.OK(k, h.p.Pos(f.Pos()), "")
				continue
			}
			// confirm with an element of the subgroup
			z := w.cycloSample(int64(n))
			sub := func(t *T) *T {
				return tt.Mod(tt.Subst(polyOf(t), func(v *T) *T {
					for i := range a {
						for j := 0; j < 2; j++ {
							if a[i][j] == v {
								return z[i][j]
							}
						}
					}
					return nil
				}), blsP)
			}
			d0, d1 := sub(d[0]), sub(d[1])
			if d0.IsConst() && d1.IsConst() && (d0.c.Sign() != 0 || d1.c.Sign() != 0) {
				r.Bad(k, h.p.Pos(f.Pos()), fmt.Sprintf("coefficient %d of the square of an element of the cyclotomic subgroup differs from that of the product: %s", n, clip(got[n][0].String(), 400)))
			} else {
				r.Undecided(k, "not derived from the relations of the subgroup")
			}
		}
	}
}

func polyOf(t *T) *T {
	if t.op == "mod" {
		return t.args[0]
	}
	return t
}

// cycloSample: an element of the cyclotomic subgroup, by constant folding.
func (w tower) cycloSample(seed int64) [][2]*T {
	tt := w.h.tt
	var z [][2]*T
	x := bi(seed + 3)
	for i := 0; i < 6; i++ {
		var c [2]*T
		for j := range c {
			x = new(big.Int).Exp(new(big.Int).Add(x, bi(7)), bi(65537), blsP)
			c[j] = tt.Const(x)
		}
		z = append(z, c)
	}
	e := new(big.Int).Sub(new(big.Int).Exp(blsP, bi(12), nil), bi(2))
	inv := w.one(6)
	for i := e.BitLen() - 1; i >= 0; i-- {
		inv = w.mul(inv, inv)
		if e.Bit(i) == 1 {
			inv = w.mul(inv, z)
		}
	}
	y := w.mul(w.frob(z, 6), inv)
	return w.mul(w.frob(y, 2), y)
}

// towerPowers: exponentiation by tracking the exponent of one base.
func (h *H) towerPowers() {
	e := h.exponents(12)
	for _, n := range []int{6, 12} {
		if n == 6 {
			e = h.exponents(6)
		} else {
			e = h.exponents(12)
		}
		for _, name := range []string{"exp", "cyclotomicExp"} {
			f, recv := h.towerFn("fp"+itoa(n), name)
			if f == nil {
				continue
			}
			h.r.Count("operations", 1)
			base := tt1(h, e, name)
			for _, k := range []*big.Int{big0, big1, bi(2), bi(3), bi(10), bi(0xb5), blsX, blsR} {
				for _, inPlace := range []bool{false, true} {
					if inPlace && k.Cmp(bi(10)) != 0 {
						continue
					}
					key := fmt.Sprintf("fp%d.%s by %s", n, name, clip(k.Text(16), 12))
					if inPlace {
						key += " in place"
					}
					var c *PtrV
					rn := h.run(key, f, func(st *State) []Val {
						v, _ := shapeWords(e.shape, e.d.val(base))
						x := h.place("x", v, st)
						c = x
						if !inPlace {
							z, _ := shapeWords(e.shape, e.d.val(h.tt.Int(0)))
							c = h.place("c", z, st)
						}
						return append(recv(st), c, x, h.in.newBig(h.tt.Const(k), st))
					})
					if rn == nil {
						continue
					}
					e.check(key, f, c, rn, func(got *big.Int) bool {
						x := new(big.Int).Mul(k, base.c)
						return got.Cmp(x.Mod(x, e.m)) == 0
					})
				}
			}
			e.flush(f)
		}
	}
}

func tt1(h *H, e *expTrack, name string) *T {
	if name == "exp" {
		return h.tt.Int(1)
	}
	return h.tt.Const(e.easy)
}

// expTrack: elements of the field as powers of one non-zero element.
type expTrack struct {
	h     *H
	d     *dlogWords
	shape []int
	m     *big.Int // order of the multiplicative group
	easy  *big.Int // exponents that lead into the cyclotomic subgroup
	wrong map[string]bool
	pos   map[string]string
	cyc   int
}

func (h *H) exponents(n int) *expTrack {
	in, tt := h.in, h.tt
	in.def(blsPk+"cfgArch", func(in *Interp, c *callCtx) (Val, bool) { return &TupleV{}, true })
	r1 := new(big.Int).Mod(pow2(384), blsP)
	var unit []*big.Int
	for k := 0; k < n; k++ {
		for i := 0; i < 6; i++ {
			if k > 0 {
				unit = append(unit, big0)
			} else {
				unit = append(unit, new(big.Int).And(new(big.Int).Rsh(r1, uint(64*i)), pow2m(64)))
			}
		}
	}
	e := &expTrack{h: h, d: &dlogWords{h, 6 * n, unit}, shape: []int{3, 2, 6}, wrong: map[string]bool{}, pos: map[string]string{}}
	if n == 12 {
		e.shape = []int{2, 3, 2, 6}
	}
	pk := func(k int) *big.Int { return new(big.Int).Exp(blsP, bi(int64(k)), nil) }
	e.m = subOne(pk(n))
	e.easy = new(big.Int).Mul(subOne(pk(6)), new(big.Int).Add(pk(2), big1))
	tp := "(*" + blsPk + "fp" + itoa(n) + ")."
	op := func(name string, dst int, args []int, f func(c *callCtx, x []*big.Int) *big.Int) {
		in.def(tp+name, func(in *Interp, c *callCtx) (Val, bool) {
			var x []*big.Int
			for _, i := range args {
				l := flatWords(in, in.deref(c.args[i], c.st), c.st, nil)
				if zeroWords(l) {
					// 0, and so is every product with it
					v, _ := shapeWords(e.shape, l)
					in.store(c.args[dst], v, c.st, c.pos)
					return &TupleV{}, true
				}
				v, ok := e.d.of(l)
				if !ok || !v.IsConst() {
					return nil, false
				}
				x = append(x, v.c)
			}
			z := f(c, x)
			if z == nil {
				return nil, false
			}
			v, _ := shapeWords(e.shape, e.d.val(tt.Const(z.Mod(z, e.m))))
			in.store(c.args[dst], v, c.st, c.pos)
			return &TupleV{}, true
		})
	}
	add := func(c *callCtx, x []*big.Int) *big.Int { return new(big.Int).Add(x[0], x[1]) }
	dbl := func(c *callCtx, x []*big.Int) *big.Int { return new(big.Int).Add(x[0], x[0]) }
	op("mul", 1, []int{2, 3}, add)
	op("mulAssign", 1, []int{1, 2}, add)
	op("square", 1, []int{2}, dbl)
	op("squareAssign", 1, []int{1}, dbl)
	op("inverse", 1, []int{2}, func(c *callCtx, x []*big.Int) *big.Int { return new(big.Int).Neg(x[0]) })
	if n == 12 {
		op("conjugate", 1, []int{2}, func(c *callCtx, x []*big.Int) *big.Int { return new(big.Int).Mul(x[0], pk(6)) })
		op("cyclotomicSquare", 1, []int{2}, func(c *callCtx, x []*big.Int) *big.Int {
			e.cyc++
			if new(big.Int).Mod(x[0], e.easy).Sign() != 0 {
				e.wrong[h.p.Pos(c.pos)] = true
			}
			return new(big.Int).Add(x[0], x[0])
		})
	}
	fr := func(k int) func(c *callCtx, x []*big.Int) *big.Int {
		return func(c *callCtx, x []*big.Int) *big.Int {
			p := in.res(in.intOf(c.args[k], c.st), c.st.pc)
			if !p.IsConst() || p.c.BitLen() > 8 {
				return nil
			}
			return new(big.Int).Mul(x[0], pk(int(p.c.Int64())))
		}
	}
	op("frobeniusMap", 1, []int{2}, fr(3))
	op("frobeniusMapAssign", 1, []int{1}, fr(2))
	return e
}

func (e *expTrack) check(key string, f *ssa.Function, c *PtrV, rn *Run, ok func(got *big.Int) bool) {
	h := e.h
	l := flatWords(h.in, h.in.load(c, rn.st, 0, nil), rn.st, nil)
	if zeroWords(l) {
		h.r.Bad(key, h.p.Pos(f.Pos()), "the result is 0")
		return
	}
	got, is := e.d.of(l)
	if !is || !got.IsConst() {
		h.r.Undecided(key, "result of unexpected form")
		return
	}
	h.r.Check(ok(got.c), key, h.p.Pos(f.Pos()), "the exponent is "+clip(got.c.Text(16), 200))
}

// flush reports squarings that hold in the cyclotomic subgroup only, applied outside it.
func (e *expTrack) flush(f *ssa.Function) {
	for at := range e.wrong {
		e.h.r.Bad("cyclotomic/"+short(f), at, "cyclotomic squaring of an element that need not lie in the cyclotomic subgroup")
	}
	if e.cyc > 0 && len(e.wrong) == 0 {
		e.h.r.OK("cyclotomic/"+short(f), e.h.p.Pos(f.Pos()), "")
	}
	e.wrong, e.cyc = map[string]bool{}, 0
}

// finalExponent: the exponentiation that ends the pairing raises to a multiple,
// prime to the group order, of (p^12-1)/r.
func (h *H) finalExponent() {
	in, r := h.in, h.r
	f := h.methodFn("bls12_381/bls", "Engine", "finalExp")
	mk := h.p.Func("bls12_381/bls", "", "NewEngine")
	if f == nil || mk == nil {
		r.Undecided("finalExp", "the final exponentiation no longer resolves")
		return
	}
	e := h.exponents(12)
	var c *PtrV
	rn := h.run("finalExp", f, func(st *State) []Val {
		ev, s2 := in.CallFn(mk, nil, nil, st)
		if s2 != nil {
			st.pc, st.mem = s2.pc, s2.mem
		}
		v, _ := shapeWords(e.shape, e.d.val(h.tt.Int(1)))
		c = h.place("f", v, st)
		return []Val{ev, c}
	})
	if rn == nil {
		return
	}
	cof := new(big.Int).Div(e.m, blsR)
	e.check("finalExp", f, c, rn, func(got *big.Int) bool {
		q, m := new(big.Int).DivMod(got, cof, new(big.Int))
		return m.Sign() == 0 && new(big.Int).GCD(nil, nil, q, blsR).Cmp(big1) == 0
	})
	e.flush(f)
}

func zeroWords(l []*T) bool {
	for _, x := range l {
		if !x.IsConst() || x.c.Sign() != 0 {
			return false
		}
	}
	return true
}
