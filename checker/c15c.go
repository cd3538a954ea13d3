package main

import (
	"fmt"
	"go/token"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// The helpers of package bls that the point codec and the hash to the curve
// rest on.

// words: a value of the limb array type with one unknown per word.
func (h *H) words(name string, n int) (*AggV, []*T) {
	a := &AggV{}
	var l []*T
	for i := 0; i < n; i++ {
		w := h.tt.Atom("var", name, i, big0, pow2m(64))
		l = append(l, w)
		a.el = append(a.el, w)
	}
	return a, l
}

// place: a new object holding v.
func (h *H) place(name string, v Val, st *State) *PtrV {
	o := h.in.newObj(name, nil, token.NoPos)
	st.mem[o] = v
	return &PtrV{o: o}
}

func (h *H) blsRawChecks() {
	p, r, tt := h.p, h.r, h.tt
	pk := "bls12_381/bls"
	a, aw := h.words("a", 6)
	b, bw := h.words("b", 6)
	two := func(st *State) []Val { return []Val{h.place("a", a, st), h.place("b", b, st)} }
	same, zero := tt.True, tt.True
	for i := range aw {
		same = tt.BAnd(same, tt.Eq(aw[i], bw[i]))
		zero = tt.BAnd(zero, tt.Eq0(aw[i]))
	}
	for _, n := range []struct{ recv, name string }{{"*fe", "Equals"}, {"*fe", "equal"}, {"", "equal"}} {
		if f := needFn(p, r, pk, n.recv, n.name); f != nil {
			if rn := h.run("word-level "+n.recv+"."+n.name, f, two); rn != nil {
				h.sc(f).iff("word-level "+n.recv+"."+n.name, rn.Bool(0), same, rn.st.pc)
			}
		}
	}
	for _, n := range []struct{ recv, name string }{{"*fe", "IsZero"}, {"*fe", "isZero"}, {"", "isZero"}} {
		if f := needFn(p, r, pk, n.recv, n.name); f != nil {
			if rn := h.run("word-level "+n.recv+"."+n.name, f, func(st *State) []Val { return two(st)[:1] }); rn != nil {
				h.sc(f).iff("word-level "+n.recv+"."+n.name, rn.Bool(0), zero, rn.st.pc)
			}
		}
	}
	if f := needFn(p, r, pk, "*fe", "Cmp"); f != nil {
		if rn := h.run("word-level Cmp", f, two); rn != nil {
			lt, gt, eq := tt.False, tt.False, tt.True
			for i := 5; i >= 0; i-- {
				lt = tt.BOr(lt, tt.BAnd(eq, tt.Lt(aw[i], bw[i])))
				gt = tt.BOr(gt, tt.BAnd(eq, tt.Lt(bw[i], aw[i])))
				eq = tt.BAnd(eq, tt.Eq(aw[i], bw[i]))
			}
			s, res := h.sc(f), rn.Int(0, tt.True)
			s.iff("word-level Cmp/below", tt.Lt0(res), lt, rn.st.pc)
			s.iff("word-level Cmp/above", tt.Lt(tt.Int(0), res), gt, rn.st.pc)
			s.Expect("word-level Cmp/values", tt.BOr(tt.Eq0(res), tt.BOr(tt.Eq(res, tt.Int(1)), tt.Eq(res, tt.Int(-1)))), rn.st.pc, h.detail("returns", res))
		}
	}
}

// blsRootChecks: square roots, residuosity and leaving the Montgomery form,
// with multiplication given.
func (h *H) blsRootChecks() {
	p, r, tt, in := h.p, h.r, h.tt, h.in
	pk := "bls12_381/bls"
	top := new(big.Int).Sub(blsP, big1)
	a := tt.Atom("var", "a", 0, big0, top)
	delete(in.models, blsPk+"fromMont")
	delete(in.models, blsPk+"sqrt")
	delete(in.models, "(*"+blsPk+"fp2).sqrt")
	if f := needFn(p, r, pk, "", "fromMont"); f != nil {
		var c *PtrV
		rn := h.run("fromMont", f, func(st *State) []Val {
			c = h.place("c", in.feVal(feBls, tt.Int(0)), st)
			return []Val{c, h.place("a", in.feVal(feBls, a), st)}
		})
		if rn != nil {
			// the words of the result, read as an element, are a/R
			rinv := new(big.Int).ModInverse(pow2(384), blsP)
			got := in.blsFe(in.load(c, rn.st, 0, nil), rn.st)
			h.sc(f).ExpectT("fromMont", "the element", in.res(got, rn.st.pc), tt.Mod(tt.Scale(a, rinv), blsP), rn.st.pc)
		}
	}
	quarter := new(big.Int).Rsh(new(big.Int).Add(blsP, big1), 2)
	half := new(big.Int).Rsh(new(big.Int).Sub(blsP, big1), 1)
	q34 := new(big.Int).Rsh(new(big.Int).Sub(blsP, bi(3)), 2)
	fexp := func(a *T, e *big.Int) *T { return tt.Atom("fexp", "bls", 0, big0, top, a, tt.Const(e)) }
	in.def(blsPk+"exp", func(in *Interp, c *callCtx) (Val, bool) {
		e := in.bigVal(c.args[2], c)
		if !e.IsConst() {
			return nil, false
		}
		x := in.blsFe(in.deref(c.args[1], c.st), c.st)
		in.store(c.args[0], in.feVal(feBls, fexp(x, e.c)), c.st, c.pos)
		return &TupleV{}, true
	})
	if f := needFn(p, r, pk, "", "sqrt"); f != nil {
		for _, alias := range []bool{false, true} {
			var c *PtrV
			key := "sqrt"
			if alias {
				key = "sqrt in place"
			}
			rn := h.run(key, f, func(st *State) []Val {
				x := h.place("a", in.feVal(feBls, a), st)
				c = x
				if !alias {
					c = h.place("c", in.feVal(feBls, tt.Int(0)), st)
				}
				return []Val{c, x}
			})
			if rn == nil {
				continue
			}
			s, w := h.sc(f), fexp(a, quarter)
			s.ExpectT(key+"/root", "the root", in.res(in.blsFe(in.load(c, rn.st, 0, nil), rn.st), rn.st.pc), w, rn.st.pc)
			s.iff(key+"/found", rn.Bool(0), tt.Eq0(tt.Mod(tt.Sub(a, tt.Mul(w, w)), blsP)), rn.st.pc)
		}
	}
	if f := needFn(p, r, pk, "", "isQuadraticNonResidue"); f != nil {
		if rn := h.run("isQuadraticNonResidue", f, func(st *State) []Val { return []Val{h.place("a", in.feVal(feBls, a), st)} }); rn != nil {
			h.sc(f).iff("isQuadraticNonResidue", rn.Bool(0), tt.BNot(tt.Eq0(tt.Mod(tt.Sub(fexp(a, half), tt.Int(1)), blsP))), rn.st.pc)
		}
	}
	// square roots in the quadratic extension
	f := needFn(p, r, pk, "*fp2", "sqrt")
	nf := needFn(p, r, pk, "", "newFp2")
	if f == nil || nf == nil {
		return
	}
	e2 := func(x [2]*T, e *big.Int, i int) *T {
		return tt.mapTs(x[:], func(x []*T) *T {
			return tt.Atom("fexp2", "bls", i, big0, top, append(append([]*T{}, x...), tt.Const(e))...)
		})
	}
	in.def("(*"+blsPk+"fp2).exp", func(in *Interp, c *callCtx) (Val, bool) {
		e := in.bigVal(c.args[3], c)
		if !e.IsConst() {
			return nil, false
		}
		x := in.blsFe2(in.deref(c.args[2], c.st), c.st)
		in.store(c.args[1], in.fe2Val([2]*T{e2(x, e.c, 0), e2(x, e.c, 1)}), c.st, c.pos)
		return &TupleV{}, true
	})
	A := [2]*T{a, tt.Atom("var", "a", 1, big0, top)}
	var c *PtrV
	for _, alias := range []bool{false, true} {
		key := "fp2.sqrt"
		if alias {
			key += " in place"
		}
		rn := h.run(key, f, func(st *State) []Val {
			fv, s2 := in.CallFn(nf, nil, nil, st)
			if s2 != nil {
				st.pc, st.mem = s2.pc, s2.mem
			}
			x := h.place("a", in.fe2Val(A), st)
			c = x
			if !alias {
				c = h.place("c", in.fe2Val([2]*T{tt.Int(0), tt.Int(0)}), st)
			}
			return []Val{fv, c, x}
		})
		if rn == nil {
			continue
		}
		s := h.sc(f)
		// Algorithm 9 of Adj and Rodriguez-Henriquez: a1 = a^((p-3)/4), alpha = a1^2 a, x0 = a1 a
		a1 := [2]*T{e2(A, q34, 0), e2(A, q34, 1)}
		alpha := fe2Mul(tt, fe2Mul(tt, a1, a1), A)
		x0 := fe2Mul(tt, a1, A)
		minus := tt.BAnd(tt.Eq0(tt.Mod(tt.AddI(alpha[0], 1), blsP)), tt.Eq0(alpha[1]))
		b := [2]*T{tt.Mod(tt.AddI(alpha[0], 1), blsP), alpha[1]}
		y := fe2Mul(tt, [2]*T{e2(b, half, 0), e2(b, half, 1)}, x0)
		yy := fe2Mul(tt, y, y)
		is := tt.BAnd(tt.Eq0(tt.Mod(tt.Sub(yy[0], A[0]), blsP)), tt.Eq0(tt.Mod(tt.Sub(yy[1], A[1]), blsP)))
		pc := rn.st.pc
		s.iff(key+"/found", rn.Bool(0), tt.BOr(in.decide(minus, pc), in.decide(is, pc)), pc)
		want := [2][2]*T{{tt.Mod(tt.Neg(x0[1]), blsP), x0[0]}, y}
		st := rn.st
		got := in.blsFe2(in.load(c, st, 0, nil), st)
		for i := 0; i < 2; i++ {
			m := in.normPC(tt.BAnd(pc, in.decide(minus, pc)))
			s.ExpectT(fmt.Sprint(key, "/root ", i, " when alpha is -1"), "the coefficient", in.res(got[i], m), in.res(want[0][i], m), m)
			m = in.normPC(tt.BAnd(pc, tt.BNot(in.decide(minus, pc))))
			s.ExpectT(fmt.Sprint(key, "/root ", i), "the coefficient", in.res(got[i], m), in.res(want[1][i], m), m)
		}
	}
}

// dlogWords: values that stand for known multiples (or powers) of one base,
// kept in the words of a limb array.
type dlogWords struct {
	h    *H
	n    int // words
	unit []*big.Int
}

func (d *dlogWords) val(e *T) []*T {
	var l []*T
	for j := 0; j < d.n; j++ {
		if e.IsConst() && e.c.Sign() == 0 {
			l = append(l, d.h.tt.Const(d.unit[j]))
			continue
		}
		l = append(l, d.h.tt.Atom("limb", "dl", j, big0, pow2m(64), e))
	}
	return l
}

func (d *dlogWords) of(ls []*T) (*T, bool) {
	same := true
	for j, l := range ls {
		same = same && l.IsConst() && l.c.Cmp(d.unit[j]) == 0
	}
	if same {
		return d.h.tt.Int(0), true
	}
	for j, l := range ls {
		if l.op != "limb" || l.s != "dl" || l.n != j || l.args[0] != ls[0].args[0] {
			return nil, false
		}
	}
	return ls[0].args[0], true
}

func flatWords(in *Interp, v Val, st *State, out []*T) []*T {
	if a, ok := in.resV(v, st.pc).(*AggV); ok {
		for _, e := range a.el {
			out = flatWords(in, e, st, out)
		}
		return out
	}
	return append(out, in.res(in.intOf(v, st), st.pc))
}

func shapeWords(shape []int, l []*T) (Val, []*T) {
	if len(shape) == 0 {
		return l[0], l[1:]
	}
	a := &AggV{}
	for i := 0; i < shape[0]; i++ {
		var v Val
		v, l = shapeWords(shape[1:], l)
		a.el = append(a.el, v)
	}
	return a, l
}

// blsLadders: exponentiation and scalar multiplication by tracking exponents.
func (h *H) blsLadders(points bool) {
	p, r, tt, in := h.p, h.r, h.tt, h.in
	pk := "bls12_381/bls"
	in.def(blsPk+"cfgArch", func(in *Interp, c *callCtx) (Val, bool) { return &TupleV{}, true })
	r1 := new(big.Int).Mod(pow2(384), blsP)
	unit := func(ks ...int) []*big.Int {
		var l []*big.Int
		for _, k := range ks {
			for i := 0; i < 6; i++ {
				if k == 0 {
					l = append(l, big0)
				} else {
					l = append(l, new(big.Int).And(new(big.Int).Rsh(r1, uint(64*i)), pow2m(64)))
				}
			}
		}
		return l
	}
	numbers := []*big.Int{big0, big1, bi(2), bi(3), bi(10), bi(0xb5)}
	type ladder struct {
		d     *dlogWords
		shape []int
	}
	// mix defines name(dst, x, y) as addition of exponents; ix are argument positions
	mix := func(l ladder, name string, dst, x, y int) {
		in.def(name, func(in *Interp, c *callCtx) (Val, bool) {
			a, ok := l.d.of(flatWords(in, in.deref(c.args[x], c.st), c.st, nil))
			b, ok2 := l.d.of(flatWords(in, in.deref(c.args[y], c.st), c.st, nil))
			if !ok || !ok2 {
				return nil, false
			}
			v, _ := shapeWords(l.shape, l.d.val(tt.Add(a, b)))
			in.store(c.args[dst], v, c.st, c.pos)
			if dst == 1 && x != 1 {
				return c.args[dst], true
			}
			return &TupleV{}, true
		})
	}
	base := tt.Int(1)
	try := func(key string, l ladder, f *ssa.Function, recv *ssa.Function, es []*big.Int, inPlace bool, eArg bool) {
		for _, e := range es {
			k := key + " " + clip(e.Text(16), 12)
			var c *PtrV
			rn := h.run(k, f, func(st *State) []Val {
				var args []Val
				if recv != nil {
					var ra []Val
					for range recv.Params {
						ra = append(ra, &PtrV{})
					}
					rv, s2 := in.CallFn(recv, ra, nil, st)
					if s2 != nil {
						st.pc, st.mem = s2.pc, s2.mem
					}
					args = append(args, rv)
				}
				v, _ := shapeWords(l.shape, l.d.val(base))
				x := h.place("x", v, st)
				c = x
				if !inPlace {
					z, _ := shapeWords(l.shape, l.d.val(tt.Int(0)))
					c = h.place("c", z, st)
					args = append(args, c)
				}
				args = append(args, x)
				if eArg {
					args = append(args, in.newBig(tt.Const(e), st))
				}
				return args
			})
			if rn == nil {
				continue
			}
			got, ok := l.d.of(flatWords(in, in.load(c, rn.st, 0, nil), rn.st, nil))
			if !ok {
				r.Undecided(k, "result of unexpected form")
				continue
			}
			h.sc(f).ExpectT(k, "the multiple", got, tt.Const(e), rn.st.pc)
		}
	}
	if !points {
		quarter := new(big.Int).Rsh(new(big.Int).Add(blsP, big1), 2)
		half := new(big.Int).Rsh(new(big.Int).Sub(blsP, big1), 1)
		q34 := new(big.Int).Rsh(new(big.Int).Sub(blsP, bi(3)), 2)
		l1 := ladder{&dlogWords{h, 6, unit(1)}, []int{6}}
		for _, n := range []string{"mulADX", "mulNoADX"} {
			mix(l1, blsPk+n, 0, 1, 2)
		}
		if f := needFn(p, r, pk, "", "exp"); f != nil {
			try("exp by", l1, f, nil, append(numbers, quarter, half), false, true)
		}
		l2 := ladder{&dlogWords{h, 12, unit(1, 0)}, []int{2, 6}}
		mix(l2, "(*"+blsPk+"fp2).mul", 1, 2, 3)
		mix(l2, "(*"+blsPk+"fp2).square", 1, 2, 2)
		if f := needFn(p, r, pk, "*fp2", "exp"); f != nil {
			try("fp2.exp by", l2, f, needFn(p, r, pk, "", "newFp2"), append(numbers, half, q34), false, true)
		}
		return
	}
	g2 := blsCofactorG2()
	effG2 := new(big.Int).Mul(g2, new(big.Int).Sub(new(big.Int).Mul(bi(3), new(big.Int).Mul(blsX, blsX)), bi(3)))
	for _, g := range []struct {
		n    string
		zero []int
		sh   []int
		eff  *big.Int
	}{{"1", []int{0, 0, 0}, []int{3, 6}, new(big.Int).Add(blsX, big1)}, {"2", []int{0, 0, 0, 0, 0, 0}, []int{3, 2, 6}, effG2}} {
		l := ladder{&dlogWords{h, 6 * len(g.zero), unit(g.zero...)}, g.sh}
		nm := "(*" + blsPk + "G" + g.n + ")."
		mix(l, nm+"Add", 1, 2, 3)
		mix(l, nm+"Double", 1, 2, 2)
		recv := needFn(p, r, pk, "", "NewG"+g.n)
		if f := needFn(p, r, pk, "*G"+g.n, "MulScalar"); f != nil {
			try("G"+g.n+".MulScalar by", l, f, recv, append(numbers, blsR, subOne(blsR)), false, true)
		}
		if f := needFn(p, r, pk, "*G"+g.n, "ClearCofactor"); f != nil {
			try("G"+g.n+".ClearCofactor multiplies by", l, f, recv, []*big.Int{g.eff}, true, false)
		}
		// the subgroup test: r times the point is the identity
		if f := needFn(p, r, pk, "*G"+g.n, "InCorrectSubgroup"); f != nil {
			var seen []*T
			ans := tt.Var(tt.Atom("isidentity", g.n, 0, nil, nil))
			in.def(nm+"IsZero", func(in *Interp, c *callCtx) (Val, bool) {
				e, ok := l.d.of(flatWords(in, in.deref(c.args[1], c.st), c.st, nil))
				if !ok {
					return nil, false
				}
				seen = append(seen, e)
				return ans, true
			})
			key := "G" + g.n + ".InCorrectSubgroup"
			rn := h.run(key, f, func(st *State) []Val {
				var ra []Val
				for range recv.Params {
					ra = append(ra, &PtrV{})
				}
				rv, s2 := in.CallFn(recv, ra, nil, st)
				if s2 != nil {
					st.pc, st.mem = s2.pc, s2.mem
				}
				v, _ := shapeWords(l.shape, l.d.val(base))
				return []Val{rv, h.place("x", v, st)}
			})
			delete(in.models, nm+"IsZero")
			if rn != nil {
				s := h.sc(f)
				s.iff(key, rn.Bool(0), ans, rn.st.pc)
				for i, e := range seen {
					s.ExpectT(fmt.Sprint(key, "/multiple tested ", i), "the multiple", e, tt.Const(blsR), rn.st.pc)
				}
				if len(seen) == 0 {
					r.Undecided(key, "identity test not recognised")
				}
			}
		}
	}
}

// blsCofactorG2: the cofactor of the twist's order-r subgroup.
func blsCofactorG2() *big.Int {
	x := new(big.Int).Neg(blsX)
	v := new(big.Int)
	for _, c := range []int64{1, -4, 5, 0, -4, 6, -4, -4, 13} {
		v.Add(v.Mul(v, x), bi(c))
	}
	return v.Div(v, bi(9))
}
