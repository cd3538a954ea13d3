package main

import (
	"fmt"
	"math/big"
	"strings"
)

// C29: the pairing engine computes the product of optimal ate pairings.

func init() { checks["C29"] = checkC29 }

func checkC29(p *Prog, r *Report) {
	r.Explain = "Three layers. The line and point formulas of the Miller loop are evaluated on unknown points; that they double and add and yield the coefficients of the tangent or chord are polynomial identities over the quadratic extension, decided by normal forms modulo the curve equation. The loop itself is evaluated with those steps as formal lines: the value it leaves is a formal product of line evaluations, compared with the one the loop parameter prescribes, for no, one and two pairs, with the identity on either side. The final exponentiation is evaluated on powers of one element, and the exponent compared with (p^12-1)/r."
	r.Assume = append(r.Assume, "the extension tower computes its fields (property C23)", "points of pairs lie in the subgroups of order r")
	jobs := []func(sub *Report){
		func(sub *Report) { newHOn(p, sub, "bls12_381/bls").millerSteps() },
		func(sub *Report) { newHOn(p, sub, "bls12_381/bls").millerLoop() },
		func(sub *Report) { newHOn(p, sub, "bls12_381/bls").finalExponent() },
	}
	r.parallel(len(jobs), func(i int, sub *Report) { jobs[i](sub) })
}

func (h *H) engine() func(st *State) []Val { return h.maker("bls12_381/bls", "NewEngine") }

// millerSteps: the formulas.
func (h *H) millerSteps() {
	in, tt := h.in, h.tt
	id := newPolyID(h, blsP)
	w := h.modelFp2Opaque(id)
	c := &curveImpl{id: id, a: tt.Int(0), b: id.k(4, id.add(tt.Int(1), w.u)), hom: true, put: w.put, get: w.get}
	recv := h.engine()
	step := func(name string, r0 []*T, q []*T, sum affine, at affine, n, d *T) {
		f := h.methodFn("bls12_381/bls", "Engine", name)
		if f == nil {
			h.r.Undecided(name, "the step no longer resolves")
			return
		}
		var co, rp, qp *PtrV
		rn := h.run(name, f, func(st *State) []Val {
			args := recv(st)
			co = h.place("coeff", c.val([]*T{id.v("c0"), id.v("c1"), id.v("c2")}), st)
			rp = h.place("r", c.val(r0), st)
			args = append(args, co, rp)
			if q != nil {
				qp = h.place("q", c.val(q), st)
				args = append(args, qp)
			}
			return args
		})
		if rn == nil {
			return
		}
		h.r.Count("classes", 1)
		pos := h.p.Pos(f.Pos())
		c.is(name+"/point", pos, in.load(rp, rn.st, 0, nil), rn.st, &sum)
		if q != nil {
			c.is(name+"/second operand", pos, in.load(qp, rn.st, 0, nil), rn.st, &affine{q[0], q[1], tt.Int(1)})
		}
		a, ok := in.resV(in.load(co, rn.st, 0, nil), rn.st.pc).(*AggV)
		if !ok || len(a.el) != 3 {
			h.r.Undecided(name, "coefficients of unexpected form")
			return
		}
		id.cases([]*T{c.get(a.el[0], rn.st), c.get(a.el[1], rn.st), c.get(a.el[2], rn.st)}, rn.st.pc, func(l []*T, g *B) {
			id.identity(name+"/line constant", pos, id.sub(id.mul(l[0], d), id.mul(l[2], id.sub(id.mul(n, at.xn), id.mul(at.yn, d)))), g, "the constant coefficient must be (slope*x - y) times that of the ordinate")
			id.identity(name+"/line slope", pos, id.add(id.mul(l[1], d), id.mul(l[2], n)), g, "the coefficient of the abscissa must be -slope times that of the ordinate")
			if id.zero(tt.Mod(l[2], id.p)) != tt.False {
				h.r.Undecided(name+"/line", "cannot tell that the line is not vertical or zero")
			} else {
				h.r.OK(name+"/line", pos, "")
			}
		})
	}
	p := c.point("p", id.v("p.x"))
	n, d := id.k(3, id.mul(p.xn, p.xn)), id.k(2, p.yn)
	step("doublingStep", c.scaled(p, id.nonzero("z")), nil, c.tangent(p), p, n, d)
	s := c.point("s", id.v("s.x"))
	dx := id.nonzero("d")
	t := c.point("t", id.add(s.xn, dx))
	step("additionStep", c.scaled(s, id.nonzero("z")), c.scaled(t, tt.Int(1)), c.chord(s, t, dx), t, id.sub(t.yn, s.yn), dx)
}

// formal objects kept in words: the i-th word of a point, a line, a scaled
// coefficient of a line, a value in the target field.
type formal struct {
	h  *H
	hi *big.Int // largest word, 2^64-1 when nil
}

func (w formal) words(kind string, n int, args ...*T) []*T {
	var l []*T
	hi := w.hi
	if hi == nil {
		hi = pow2m(64)
	}
	for i := 0; i < n; i++ {
		l = append(l, w.h.tt.Atom("formal", kind, i, big0, hi, args...))
	}
	return l
}

func (w formal) val(shape []int, kind string, args ...*T) Val {
	n := 1
	for _, k := range shape {
		n *= k
	}
	v, _ := shapeWords(shape, w.words(kind, n, args...))
	return v
}

// of: the object n words starting at word i belong to.
func (w formal) of(v Val, st *State, kind string) (args []*T, first int, ok bool) {
	l := flatWords(w.h.in, v, st, nil)
	for i, x := range l {
		if x.op != "formal" || x.s != kind {
			return nil, 0, false
		}
		if i == 0 {
			args, first = x.args, x.n
			continue
		}
		if x.n != first+i || !sameTerms(x.args, args) {
			return nil, 0, false
		}
	}
	return args, first, len(l) > 0
}

func sameTerms(a, b []*T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (h *H) millerLoop() {
	in, tt := h.in, h.tt
	w := formal{h: h}
	bad := map[string]string{}
	junk := int64(0)
	at := func(c *callCtx) string { return h.p.Pos(c.pos) }
	wrong := func(c *callCtx, what string) { bad[at(c)] = what }
	// unknown: an operand the formal evaluation does not follow
	unknown := func(c *callCtx, dst int, shape []int) (Val, bool) {
		in.note("operands of the loop the analysis does not follow")
		junk++
		in.store(c.args[dst], w.val(shape, "junk", tt.Int(junk)), c.st, c.pos)
		return &TupleV{}, true
	}
	piece := func(v Val, st *State) bool {
		if _, _, ok := w.of(v, st, "line"); ok {
			return true
		}
		con := true
		for _, x := range flatWords(in, v, st, nil) {
			con = con && x.IsConst()
			if x.op == "formal" && strings.HasPrefix(x.s, "part") {
				_, _, ok := w.of(v, st, x.s)
				return ok
			}
		}
		return con
	}
	void := func() (Val, bool) { return &TupleV{}, true }
	ld := func(c *callCtx, i int) Val { return in.deref(c.args[i], c.st) }
	in.def(blsPk+"cfgArch", func(in *Interp, c *callCtx) (Val, bool) { return void() })
	shapes := map[string][]int{"1": {3, 6}, "2": {3, 2, 6}}
	for g, shape := range shapes {
		g, shape := g, shape
		recv := "(*" + blsPk + "G" + g + ")."
		aff := func(t *T) *T { return tt.Atom("affine", "", 0, nil, nil, t) }
		in.def(recv+"IsZero", func(in *Interp, c *callCtx) (Val, bool) {
			v := ld(c, 1)
			if _, _, ok := w.of(v, c.st, "g"+g); ok {
				return tt.False, true
			}
			l := flatWords(in, v, c.st, nil)
			for _, x := range l[len(l)*2/3:] {
				if !x.IsConst() || x.c.Sign() != 0 {
					return nil, false
				}
			}
			return tt.True, true
		})
		in.def(recv+"IsAffine", func(in *Interp, c *callCtx) (Val, bool) {
			if a, _, ok := w.of(ld(c, 1), c.st, "g"+g); ok {
				if a[0].op == "affine" {
					return tt.True, true
				}
				return tt.Var(tt.Atom("isaffine", g, 0, nil, nil, a[0])), true
			}
			return nil, false
		})
		in.def(recv+"Affine", func(in *Interp, c *callCtx) (Val, bool) {
			if a, _, ok := w.of(ld(c, 1), c.st, "g"+g); ok && a[0].op != "affine" {
				in.store(c.args[1], w.val(shape, "g"+g, aff(a[0])), c.st, c.pos)
			}
			return c.args[1], true
		})
		in.def(recv+"Neg", func(in *Interp, c *callCtx) (Val, bool) {
			v := ld(c, 2)
			if a, _, ok := w.of(v, c.st, "g"+g); ok {
				t := tt.Neg(a[0])
				if a[0].op == "affine" {
					t = aff(tt.Neg(a[0].args[0]))
				}
				v = w.val(shape, "g"+g, t)
			}
			in.store(c.args[1], v, c.st, c.pos)
			return c.args[1], true
		})
	}
	pt := func(v Val, st *State, g string, needAffine bool) *T {
		a, i, ok := w.of(v, st, "g"+g)
		if !ok || i != 0 {
			return nil
		}
		if a[0].op == "affine" {
			return a[0].args[0]
		}
		if needAffine {
			return nil
		}
		return a[0]
	}
	eng := "(*" + blsPk + "Engine)."
	lineShape := []int{3, 2, 6}
	in.def(eng+"doublingStep", func(in *Interp, c *callCtx) (Val, bool) {
		r := pt(ld(c, 2), c.st, "2", false)
		if r == nil {
			in.store(c.args[2], w.val(shapes["2"], "junk", tt.Int(1)), c.st, c.pos)
			return unknown(c, 1, lineShape)
		}
		in.store(c.args[1], w.val(lineShape, "line", tt.Atom("tangent", "", 0, nil, nil, r)), c.st, c.pos)
		in.store(c.args[2], w.val(shapes["2"], "g2", tt.Add(r, r)), c.st, c.pos)
		return void()
	})
	in.def(eng+"additionStep", func(in *Interp, c *callCtx) (Val, bool) {
		r, q := pt(ld(c, 2), c.st, "2", false), pt(ld(c, 3), c.st, "2", true)
		if r == nil || q == nil {
			if r != nil && pt(ld(c, 3), c.st, "2", false) != nil {
				wrong(c, "an addition step with a point that is not affine")
			}
			in.store(c.args[2], w.val(shapes["2"], "junk", tt.Int(1)), c.st, c.pos)
			return unknown(c, 1, lineShape)
		}
		in.store(c.args[1], w.val(lineShape, "line", tt.Atom("chord", "", 0, nil, nil, r, q)), c.st, c.pos)
		in.store(c.args[2], w.val(shapes["2"], "g2", tt.Add(r, q)), c.st, c.pos)
		return void()
	})
	in.def("(*"+blsPk+"fp2).mulByFq", func(in *Interp, c *callCtx) (Val, bool) {
		a, i, ok1 := w.of(ld(c, 2), c.st, "line")
		b, j, ok2 := w.of(ld(c, 3), c.st, "g1")
		if ok1 && i%12 == 0 && !ok2 && constWords(flatWords(in, ld(c, 3), c.st, nil)) {
			wrong(c, "a line evaluated at the identity")
			return unknown(c, 1, []int{2, 6})
		}
		if ok2 && j%6 == 0 && !ok1 && constWords(flatWords(in, ld(c, 2), c.st, nil)) {
			wrong(c, "a line that is constant, of a pair with the identity in the second group")
			return unknown(c, 1, []int{2, 6})
		}
		if !ok1 || !ok2 || i%12 != 0 || j%6 != 0 {
			return unknown(c, 1, []int{2, 6})
		}
		if b[0].op != "affine" {
			wrong(c, "a line evaluated at a point that is not affine")
			return unknown(c, 1, []int{2, 6})
		}
		in.store(c.args[1], w.val([]int{2, 6}, fmt.Sprint("part", i/12, ".", j/6), a[0], b[0].args[0]), c.st, c.pos)
		return void()
	})
	tgt := []int{2, 3, 2, 6}
	one := func(v Val, st *State) bool {
		r := new(big.Int).Mod(pow2(384), blsP)
		for i, x := range flatWords(in, v, st, nil) {
			k := big0
			if i < 6 {
				k = new(big.Int).And(new(big.Int).Rsh(r, uint(64*i)), pow2m(64))
			}
			if !x.IsConst() || x.c.Cmp(k) != 0 {
				return false
			}
		}
		return true
	}
	value := func(v Val, st *State, kind string) *T {
		if one(v, st) {
			return tt.Int(0)
		}
		if a, i, ok := w.of(v, st, kind); ok && i == 0 {
			return a[0]
		}
		return nil
	}
	fp12 := "(*" + blsPk + "fp12)."
	keep := func(c *callCtx, i int, t *T) (Val, bool) {
		in.store(c.args[i], w.val(tgt, "miller", t), c.st, c.pos)
		return void()
	}
	in.def(fp12+"mulBy014Assign", func(in *Interp, c *callCtx) (Val, bool) {
		f := value(ld(c, 1), c.st, "miller")
		a0, i, ok0 := w.of(ld(c, 2), c.st, "line")
		a1, _, ok1 := w.of(ld(c, 3), c.st, "part1.0")
		a2, _, ok2 := w.of(ld(c, 4), c.st, "part2.1")
		if f == nil || !piece(ld(c, 2), c.st) || !piece(ld(c, 3), c.st) || !piece(ld(c, 4), c.st) {
			return unknown(c, 1, tgt)
		}
		if !ok0 || !ok1 || !ok2 || i != 0 || a0[0] != a1[0] || a1[0] != a2[0] || a1[1] != a2[1] {
			wrong(c, "the product is not with the constant coefficient, the slope times the abscissa and the last coefficient times the ordinate of one line at one point")
			return keep(c, 1, f)
		}
		return keep(c, 1, tt.Add(f, tt.Atom("at", "", 0, nil, nil, a0[0], a1[1])))
	})
	un := func(name string, dst, src int, k int64) {
		in.def(fp12+name, func(in *Interp, c *callCtx) (Val, bool) {
			f := value(ld(c, src), c.st, "miller")
			if f == nil {
				return unknown(c, dst, tgt)
			}
			return keep(c, dst, tt.Scale(f, bi(k)))
		})
	}
	un("square", 1, 2, 2)
	un("squareAssign", 1, 1, 2)
	un("conjugate", 1, 2, -1)
	bin := func(name string, dst int, src ...int) {
		in.def(fp12+name, func(in *Interp, c *callCtx) (Val, bool) {
			a, b := value(ld(c, src[0]), c.st, "miller"), value(ld(c, src[1]), c.st, "miller")
			if a == nil || b == nil {
				return unknown(c, dst, tgt)
			}
			return keep(c, dst, tt.Add(a, b))
		})
	}
	bin("mul", 1, 2, 3)
	bin("mulAssign", 1, 1, 2)
	in.def(eng+"finalExp", func(in *Interp, c *callCtx) (Val, bool) {
		f := value(ld(c, 1), c.st, "miller")
		if f == nil {
			return unknown(c, 1, tgt)
		}
		if f.IsConst() {
			return void()
		}
		in.store(c.args[1], w.val(tgt, "final", f), c.st, c.pos)
		return void()
	})
	in.def(fp12+"equal ("+"*"+blsPk+"fe12).equal", func(in *Interp, c *callCtx) (Val, bool) {
		k := len(c.args) - 2
		a, b := value(ld(c, k), c.st, "final"), value(ld(c, k+1), c.st, "final")
		if a == nil || b == nil {
			in.note("a comparison of values that are no pairing products")
			return tt.Var(tt.Atom("junk", "", int(c.pos), nil, nil)), true
		}
		return tt.Eq0(tt.Sub(a, b)), true
	})
	in.def(fp12+"isOne ("+"*"+blsPk+"fe12).isOne", func(in *Interp, c *callCtx) (Val, bool) {
		a := value(ld(c, len(c.args)-1), c.st, "final")
		if a == nil {
			in.note("a comparison of values that are no pairing products")
			return tt.Var(tt.Atom("junk", "", int(c.pos), nil, nil)), true
		}
		return tt.Eq0(a), true
	})
	// the optimal ate loop over the bits of |x|, which is negative
	ate := func(P, Q *T) *T {
		f, r := tt.Int(0), Q
		for i := blsX.BitLen() - 2; i >= 0; i-- {
			f = tt.Add(f, f)
			f = tt.Add(f, tt.Atom("at", "", 0, nil, nil, tt.Atom("tangent", "", 0, nil, nil, r), P))
			r = tt.Add(r, r)
			if blsX.Bit(i) == 1 {
				f = tt.Add(f, tt.Atom("at", "", 0, nil, nil, tt.Atom("chord", "", 0, nil, nil, r, Q), P))
				r = tt.Add(r, Q)
			}
		}
		return tt.Neg(f)
	}
	P := func(i int) *T { return tt.Atom("var", "P", i, nil, nil) }
	Q := func(i int) *T { return tt.Atom("var", "Q", i, nil, nil) }
	type op struct {
		name string
		p, q *T // nil: the identity
	}
	cases := []struct {
		name string
		ops  []op
	}{
		{"no pair", nil},
		{"one pair", []op{{"AddPair", P(0), Q(0)}}},
		{"one inverted pair", []op{{"AddPairInv", P(0), Q(0)}}},
		{"two pairs", []op{{"AddPair", P(0), Q(0)}, {"AddPair", P(1), Q(1)}}},
		{"a pair and an inverted pair", []op{{"AddPair", P(0), Q(0)}, {"AddPairInv", P(1), Q(1)}}},
		{"three pairs", []op{{"AddPairInv", P(0), Q(0)}, {"AddPair", P(1), Q(1)}, {"AddPair", P(2), Q(2)}}},
		{"identity in the first group", []op{{"AddPair", nil, Q(0)}}},
		{"identity in the second group", []op{{"AddPair", P(0), nil}}},
		{"identity in the first group, inverted", []op{{"AddPairInv", nil, Q(0)}}},
		{"identity and a pair", []op{{"AddPair", P(0), nil}, {"AddPair", P(1), Q(1)}, {"AddPair", nil, Q(2)}}},
		{"one pair after a reset", []op{{"AddPair", P(0), Q(0)}, {"Reset", nil, nil}, {"AddPair", P(1), Q(1)}}},
		{"two pairs after a reset of three", []op{{"AddPair", P(0), Q(0)}, {"AddPair", P(1), Q(1)}, {"AddPairInv", P(2), Q(2)}, {"Reset", nil, nil}, {"AddPair", P(3), Q(3)}, {"AddPairInv", P(4), Q(4)}}},
		{"one pair after a result of two", []op{{"AddPair", P(0), Q(0)}, {"AddPair", P(1), Q(1)}, {"Result", nil, nil}, {"AddPair", P(2), Q(2)}}},
		{"one pair after a result", []op{{"AddPair", P(0), Q(0)}, {"Result", nil, nil}, {"AddPair", P(1), Q(1)}}},
	}
	m := func(name string) func(st *State, args ...Val) Val {
		f := h.methodFn("bls12_381/bls", "Engine", name)
		return func(st *State, args ...Val) Val {
			if f == nil {
				in.note("method " + name + " no longer resolves")
				return &OpaqueV{}
			}
			v, s2 := in.CallFn(f, args, nil, st)
			if s2 != nil {
				st.pc, st.mem = s2.pc, s2.mem
			} else {
				in.note(name + " does not return")
			}
			return v
		}
	}
	mk := h.engine()
	for _, last := range []string{"Result", "Check"} {
		f := h.methodFn("bls12_381/bls", "Engine", last)
		if f == nil {
			h.r.Undecided(last, "the method no longer resolves")
			continue
		}
		for _, cs := range cases {
			key := last + " of " + cs.name
			for k := range bad {
				delete(bad, k)
			}
			want := tt.Int(0)
			rn := h.run(key, f, func(st *State) []Val {
				e := mk(st)[0]
				for i, o := range cs.ops {
					switch o.name {
					case "Reset", "Result":
						m(o.name)(st, e)
						want = tt.Int(0)
						continue
					}
					place := func(g string, t *T) *PtrV {
						v := w.val(shapes[g], "g"+g, tt.Int(0))
						if t != nil {
							v = w.val(shapes[g], "g"+g, t)
						} else {
							n := map[string]int{"1": 18, "2": 36}[g]
							var l []*T
							r := new(big.Int).Mod(pow2(384), blsP)
							for k := 0; k < n; k++ {
								c := big0
								if k >= n/3 && k < n/3+6 {
									c = new(big.Int).And(new(big.Int).Rsh(r, uint(64*(k-n/3))), pow2m(64))
								}
								l = append(l, tt.Const(c))
							}
							v, _ = shapeWords(shapes[g], l)
						}
						return h.place(fmt.Sprint("p", i, g), v, st)
					}
					m(o.name)(st, e, place("1", o.p), place("2", o.q))
					if o.p != nil && o.q != nil {
						pp := o.p
						if o.name == "AddPairInv" {
							pp = tt.Neg(pp)
						}
						want = tt.Add(want, ate(pp, o.q))
					}
				}
				return []Val{e}
			})
			pos := h.p.Pos(f.Pos())
			h.r.Count("classes", 1)
			if len(bad) > 0 {
				for k, v := range bad {
					h.r.Bad(key+"/line", k, v)
				}
				h.r.Und = h.r.Und[:0]
				continue
			}
			if rn == nil {
				continue
			}
			if last == "Check" {
				h.sc(f).iff(key, rn.Bool(0), tt.Eq0(want), rn.st.pc)
				continue
			}
			got := value(in.load(rn.res[0], rn.st, 0, nil), rn.st, "final")
			if got == nil {
				if value(in.load(rn.res[0], rn.st, 0, nil), rn.st, "miller") != nil {
					h.r.Bad(key, pos, "the final exponentiation is missing")
					continue
				}
				h.r.Undecided(key, "result of unexpected form")
				continue
			}
			d := tt.Sub(got, want)
			if d.IsConst() && d.c.Sign() == 0 {
				h.r.OK(key, pos, "")
				continue
			}
			h.r.Bad(key, pos, "the product of lines differs from the optimal ate pairing by "+clip(d.String(), 400))
		}
	}
}

func constWords(l []*T) bool {
	for _, t := range l {
		if !t.IsConst() {
			return false
		}
	}
	return len(l) > 0
}
