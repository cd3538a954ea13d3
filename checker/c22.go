package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// C22: the point formulas compute the group law.

func init() { checks["C22"] = checkC22 }

func checkC22(p *Prog, r *Report) {
	r.Explain = "The point addition, doubling, negation, comparison and conversion routines of each curve are evaluated from their source on points written through affine coordinates and an arbitrary scale factor; every coordinate they produce is a polynomial, and the chord-and-tangent law (or the Edwards law) becomes polynomial identities, decided by normal forms modulo the prime and the curve equations. One run per class of operands: identity on either side, equal, opposite, equal ordinates, generic; and per way of sharing storage between operands and destination."
	r.Assume = append(r.Assume, "field operations implement their field (their limb arithmetic is a separate matter)")
	jobs := []func(sub *Report){
		func(sub *Report) { newHOn(p, sub, "bls12_381/bls").blsG1Law() },
		func(sub *Report) { newHOn(p, sub, "bls12_381/bls").blsG2Law() },
		func(sub *Report) { newHOn(p, sub, "pasta").pastaLaw() },
		func(sub *Report) { newHOn(p, sub, "owcrypt").secpLaw() },
		func(sub *Report) { newHOn(p, sub, "owcrypt").sm2Law() },
		func(sub *Report) { newHOn(p, sub, "owcrypt").sm2Ladder("ScalarMult") },
		func(sub *Report) { newHOn(p, sub, "owcrypt").sm2Ladder("ScalarBaseMult") },
		func(sub *Report) { newHOn(p, sub, edPk).edLaw() },
		func(sub *Report) { newHOn(p, sub, edPk).edLadders() },
	}
	r.parallel(len(jobs), func(i int, sub *Report) { jobs[i](sub) })
}

func (h *H) blsG1Law() {
	in := h.in
	in.modelBlsField()
	id := newPolyID(h, blsP)
	c := &curveImpl{id: id, a: h.tt.Int(0), b: h.tt.Int(4),
		put: func(e *T) Val { return in.feVal(feBls, id.nf(e)) },
		get: func(v Val, st *State) *T { return in.blsFe(v, st) }}
	h.blsLaw(c, "G1")
}

func (h *H) blsG2Law() {
	id := newPolyID(h, blsP)
	w := h.modelFp2Opaque(id)
	c := &curveImpl{id: id, a: h.tt.Int(0), b: id.k(4, id.add(h.tt.Int(1), w.u)),
		put: w.put, get: w.get}
	h.blsLaw(c, "G2")
}

// maker: the value a constructor returns, with nil for its parameters.
func (h *H) maker(pkg, name string) func(st *State) []Val {
	mk := h.p.Func(pkg, "", name)
	return func(st *State) []Val {
		if mk == nil {
			return []Val{&PtrV{}}
		}
		var ra []Val
		for range mk.Params {
			ra = append(ra, &PtrV{})
		}
		v, s2 := h.in.CallFn(mk, ra, nil, st)
		if s2 != nil {
			st.pc, st.mem = s2.pc, s2.mem
		}
		return []Val{v}
	}
}

func (h *H) blsLaw(c *curveImpl, g string) {
	pk := "bls12_381/bls"
	recv := h.maker(pk, "New"+g)
	m := func(name string) *ssa.Function { return h.methodFn(pk, g, name) }
	c.shortWeierstrass(g, m, recv)
}

// shortWeierstrass: the operations of a group object g.Op(r, p, q).
func (c *curveImpl) shortWeierstrass(g string, m func(name string) *ssa.Function, recv func(st *State) []Val) {
	id, h := c.id, c.id.h
	in, tt := h.in, h.tt
	if f := m("Add"); f != nil {
		for _, k := range c.addCases(false) {
			c.groupOp(g+".Add", f, k, true, recv, true)
		}
	}
	if f := m("Sub"); f != nil {
		for _, k := range c.addCases(false) {
			if k.name == "0:0:0+Q" {
				continue
			}
			k.p2 = []*T{k.p2[0], id.neg(k.p2[1]), k.p2[2]}
			if k.a2 != nil {
				k.a2 = &affine{k.a2.xn, id.neg(k.a2.yn), k.a2.d}
			}
			c.groupOp(g+".Sub (of the negative) ", f, k, true, recv, true)
		}
	}
	one := func(name string, f func(q affine) *affine) {
		fn := m(name)
		if fn == nil {
			return
		}
		q := c.point("q", id.v("q.x"))
		c.groupOp(g+"."+name, fn, wcase{name: "of Q", p1: c.scaled(q, id.nonzero("q.z")), sum: f(q), a1: &q}, false, recv, true)
		c.groupOp(g+"."+name, fn, wcase{name: "of O", p1: []*T{id.v("ox"), id.v("oy"), tt.Int(0)}}, false, recv, true)
		c.groupOp(g+"."+name, fn, wcase{name: "of 0:0:0", p1: []*T{tt.Int(0), tt.Int(0), tt.Int(0)}}, false, recv, true)
	}
	one("Double", func(q affine) *affine { d := c.tangent(q); return &d })
	one("Neg", func(q affine) *affine { return &affine{q.xn, id.neg(q.yn), q.d} })
	// conversion to affine form
	if f := m("Affine"); f != nil {
		for _, cs := range []string{"Q", "O"} {
			q := c.point("q", id.v("q.x"))
			co := c.scaled(q, id.nonzero("q.z"))
			want := &q
			if cs == "O" {
				co, want = []*T{id.v("ox"), id.v("oy"), tt.Int(0)}, nil
			}
			var pt *PtrV
			key := g + ".Affine of " + cs
			rn := h.run(key, f, func(st *State) []Val {
				pt = h.place("p", c.val(co), st)
				return append(recv(st), pt)
			})
			if rn == nil {
				continue
			}
			h.r.Count("classes", 1)
			at := h.p.Pos(f.Pos())
			c.is(key, at, in.load(pt, rn.st, 0, nil), rn.st, want)
			c.is(key+"/returned", at, in.load(rn.res[0], rn.st, 0, nil), rn.st, want)
			if want != nil {
				a, ok := in.resV(in.load(pt, rn.st, 0, nil), rn.st.pc).(*AggV)
				if !ok {
					continue
				}
				id.cases([]*T{c.get(a.el[2], rn.st)}, rn.st.pc, func(co []*T, gd *B) {
					id.identity(key+"/scale", at, tt.AddI(co[0], -1), gd, "the third coordinate must be 1")
				})
			}
		}
	}
	// predicates
	pred := func(name string, f *ssa.Function, args [][]*T, want *B) {
		key := g + "." + name
		var l []*PtrV
		rn := h.run(key, f, func(st *State) []Val {
			as := recv(st)
			for i, a := range args {
				pt := h.place("p"+itoa(i), c.val(a), st)
				l = append(l, pt)
				as = append(as, pt)
			}
			return as
		})
		if rn == nil {
			return
		}
		h.r.Count("classes", 1)
		h.sc(f).iff(key, rn.Bool(0), want, rn.st.pc)
		for i, pt := range l {
			a, ok := in.resV(in.load(pt, rn.st, 0, nil), rn.st.pc).(*AggV)
			if !ok || len(a.el) != len(args[i]) {
				continue
			}
			for j := range a.el {
				id.cases([]*T{c.get(a.el[j], rn.st)}, rn.st.pc, func(co []*T, gd *B) {
					id.identity(key+"/operand unchanged", h.p.Pos(f.Pos()), tt.Sub(co[0], args[i][j]), gd, "the operand changes")
				})
			}
		}
	}
	B := func(b bool) *B {
		if b {
			return tt.True
		}
		return tt.False
	}
	if f := m("Equal"); f != nil {
		for _, k := range c.addCases(false) {
			pred("Equal "+k.name, f, [][]*T{k.p1, k.p2}, B(k.name == "P+P" || k.name == "O+O"))
		}
	}
	if f := m("IsZero"); f != nil {
		pred("IsZero of O", f, [][]*T{{id.v("x"), id.v("y"), tt.Int(0)}}, tt.True)
		pred("IsZero of Q", f, [][]*T{{id.v("x"), id.v("y"), id.nonzero("z")}}, tt.False)
	}
	if f := m("IsAffine"); f != nil {
		z := id.nonzero("z")
		pred("IsAffine", f, [][]*T{{id.v("x"), id.v("y"), z}}, tt.Eq0(tt.Mod(tt.AddI(z, -1), id.p)))
	}
	if f := m("IsOnCurve"); f != nil {
		x, y, z := id.v("x"), id.v("y"), id.nonzero("z")
		z2 := id.mul(z, z)
		z6 := id.mul(z2, z2, z2)
		eq := id.sub(id.mul(y, y), id.add(id.mul(x, x, x), id.mul(c.a, x, z2, z2), id.mul(c.b, z6)))
		pred("IsOnCurve", f, [][]*T{{x, y, z}}, tt.Eq0(tt.Mod(eq, id.p)))
		pred("IsOnCurve of O", f, [][]*T{{id.v("x"), id.v("y"), tt.Int(0)}}, tt.True)
	}
}

// isAffine checks a pair of coordinates, (0, 0) for the identity.
func (c *curveImpl) isAffine(key, at string, v Val, st *State, want *affine) {
	id := c.id
	if want != nil {
		c.is(key, at, v, st, want)
		return
	}
	a, ok := id.h.in.resV(v, st.pc).(*AggV)
	if !ok {
		id.h.r.Undecided(key, "point of unexpected form")
		return
	}
	var co []*T
	for _, e := range a.el {
		co = append(co, c.get(e, st))
	}
	id.cases(co, st.pc, func(co []*T, g *B) {
		for i, t := range co {
			id.identity(key+"/"+itoa(i), at, t, g, "the coordinates must be (0, 0)")
		}
	})
}

func (h *H) pastaLaw() {
	in, tt := h.in, h.tt
	in.modelPastaField()
	id := newPolyID(h, pastaP)
	c := &curveImpl{id: id, a: tt.Int(0), b: tt.Int(5),
		put: func(e *T) Val { return in.feVal(fePasta, id.nf(e)) },
		get: func(v Val, st *State) *T { return in.feOf(fePasta, v, st) }}
	fn := func(name string) *ssa.Function { return h.pkgFn("pasta", name) }
	// destination by pointer, operands by value
	op := func(name, cs string, args [][]*T, affineOut bool, want *affine) {
		f := fn(name)
		if f == nil {
			return
		}
		key := "pasta." + name + " " + cs
		var r *PtrV
		rn := h.run(key, f, func(st *State) []Val {
			n := 3
			if affineOut {
				n = 2
			}
			r = h.place("r", c.val([]*T{id.v("j"), id.v("j"), id.v("j")}[:n]), st)
			as := []Val{r}
			for _, a := range args {
				as = append(as, c.val(a))
			}
			return as
		})
		if rn == nil {
			return
		}
		h.r.Count("classes", 1)
		at := h.p.Pos(f.Pos())
		if affineOut {
			c.isAffine(key, at, in.load(r, rn.st, 0, nil), rn.st, want)
		} else {
			c.is(key, at, in.load(r, rn.st, 0, nil), rn.st, want)
		}
	}
	flat := func(a *affine) []*T {
		if a == nil {
			return []*T{tt.Int(0), tt.Int(0)}
		}
		return []*T{a.xn, a.yn}
	}
	for _, k := range c.addCases(false) {
		op("GroupAdd", k.name, [][]*T{k.p1, k.p2}, false, k.sum)
		if k.name != "0:0:0+Q" {
			op("AffineAdd", k.name, [][]*T{flat(k.a1), flat(k.a2)}, true, k.sum)
			c.predicate("pasta.AffineEq "+k.name, fn("AffineEq"), [][]*T{flat(k.a1), flat(k.a2)}, tt.boolB(k.name == "P+P" || k.name == "O+O"))
		}
	}
	q := c.point("q", id.v("q.x"))
	z := id.nonzero("q.z")
	co := c.scaled(q, z)
	dbl, neg := c.tangent(q), affine{q.xn, id.neg(q.yn), q.d}
	inf := []*T{id.v("ox"), id.v("oy"), tt.Int(0)}
	op("GroupDbl", "of Q", [][]*T{co}, false, &dbl)
	op("GroupDbl", "of O", [][]*T{inf}, false, nil)
	op("GroupNegate", "of Q", [][]*T{co}, false, &neg)
	op("GroupNegate", "of O", [][]*T{inf}, false, nil)
	op("AffineNegate", "of Q", [][]*T{flat(&q)}, true, &neg)
	op("AffineNegate", "of O", [][]*T{flat(nil)}, true, nil)
	op("AffineToGroup", "of Q", [][]*T{flat(&q)}, false, &q)
	op("AffineToGroup", "of O", [][]*T{flat(nil)}, false, nil)
	op("AffineFromGroup", "of Q", [][]*T{co}, true, &q)
	op("AffineFromGroup", "of O", [][]*T{inf}, true, nil)
	c.predicate("pasta.IsZero of O", fn("IsZero"), [][]*T{inf}, tt.True)
	c.predicate("pasta.IsZero of Q", fn("IsZero"), [][]*T{co}, tt.False)
	c.predicate("pasta.AffineIsZero of O", fn("AffineIsZero"), [][]*T{flat(nil)}, tt.True)
	c.predicate("pasta.AffineIsZero of Q", fn("AffineIsZero"), [][]*T{flat(&q)}, tt.False)
	x, y := id.v("x"), id.v("y")
	eq := id.sub(id.mul(y, y), c.rhs(x))
	c.predicate("pasta.GroupIsOnCurve of O", fn("GroupIsOnCurve"), [][]*T{inf}, tt.True)
	c.predicate("pasta.GroupIsOnCurve", fn("GroupIsOnCurve"), [][]*T{c.scaled(affine{x, y, tt.Int(1)}, z)}, tt.Eq0(tt.Mod(eq, id.p)), tt.BNot(tt.Eq0(tt.Mod(id.sub(z, tt.Int(1)), id.p))))
	c.predicate("pasta.GroupIsOnCurve with Z = 1", fn("GroupIsOnCurve"), [][]*T{{x, y, tt.Int(1)}}, tt.Eq0(tt.Mod(eq, id.p)))
	c.predicate("pasta.AffineIsOnCurve of O", fn("AffineIsOnCurve"), [][]*T{flat(nil)}, tt.True)
	ny := id.nonzero("y")
	eq = id.sub(id.mul(ny, ny), c.rhs(x))
	c.predicate("pasta.AffineIsOnCurve", fn("AffineIsOnCurve"), [][]*T{{x, ny}}, tt.Eq0(tt.Mod(eq, id.p)))
	c.predicate("pasta.AffineIsOnCurve with ordinate 0", fn("AffineIsOnCurve"), [][]*T{{ny, tt.Int(0)}}, tt.Eq0(tt.Mod(c.rhs(ny), id.p)))
}

// global: the value of a package variable after initialisation.
func (h *H) global(pkg, name string, st *State) Val {
	for _, sp := range h.p.RepoSP {
		if sp.Pkg.Path() != modPath+"/"+pkg && (sp.Pkg.Path() != modPath || pkg != "owcrypt") {
			continue
		}
		if g, ok := sp.Members[name].(*ssa.Global); ok {
			return h.in.load(&PtrV{o: h.in.global(g)}, st, 0, g.Type().Underlying().(*types.Pointer).Elem())
		}
	}
	return nil
}

// secpLaw: the Jacobian formulas of secp256k1 over big integers.
func (h *H) secpLaw() {
	in, tt := h.in, h.tt
	P := hx("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
	id := newPolyID(h, P)
	mod := func(e *T) *T { return tt.Mod(id.nf(e), P) }
	c := &curveImpl{id: id, a: tt.Int(0), b: tt.Int(7)}
	c.get = func(v Val, st *State) *T { return in.intOf(v, st) }
	op := func(name, cs string, args []*T, check func(key, at string, co []*T, g *B)) {
		f := h.methodFn("owcrypt", "secp256k1Curve", name)
		if f == nil {
			return
		}
		key := "secp256k1." + name + " " + cs
		var l []*PtrV
		rn := h.run(key, f, func(st *State) []Val {
			recv := h.global("owcrypt", "secp256k1", st)
			if recv == nil {
				in.note("the curve object no longer resolves")
				recv = &PtrV{}
			}
			as := []Val{recv}
			for _, a := range args {
				l = append(l, in.newBig(mod(a), st))
				as = append(as, l[len(l)-1])
			}
			return as
		})
		if rn == nil {
			return
		}
		h.r.Count("classes", 1)
		at := h.p.Pos(f.Pos())
		for i, x := range l {
			id.identity(key+"/operand "+itoa(i)+" unchanged", at, tt.Sub(in.bigVal(x, &callCtx{st: rn.st}), args[i]), rn.st.pc, "the operand changes")
		}
		var co []*T
		for _, v := range rn.res {
			if b, ok := v.(*B); ok {
				co = append(co, in.condT(b, tt.Int(1), tt.Int(0)))
				continue
			}
			co = append(co, in.bigVal(v, &callCtx{st: rn.st}))
		}
		id.cases(co, rn.st.pc, func(co []*T, g *B) { check(key, at, co, g) })
	}
	jac := func(want *affine) func(key, at string, co []*T, g *B) {
		return func(key, at string, co []*T, g *B) { c.leaf(key, at, co, g, want) }
	}
	aff := func(want *affine) func(key, at string, co []*T, g *B) {
		return func(key, at string, co []*T, g *B) {
			if want != nil {
				c.leaf(key, at, co, g, want)
				for i, x := range co {
					h.r.Check(x.lo != nil && x.lo.Sign() >= 0 && x.hi != nil && x.hi.Cmp(P) < 0, key+"/reduced/"+itoa(i), at, "the coordinate need not be reduced modulo the prime")
				}
				return
			}
			for i, x := range co {
				h.r.Check(x.IsConst() && x.c.Sign() == 0, key+"/"+itoa(i), at, "the coordinates of the identity must be (0, 0), not "+clip(x.String(), 200))
			}
		}
	}
	flat := func(a *affine) []*T {
		if a == nil {
			return []*T{tt.Int(0), tt.Int(0)}
		}
		return []*T{a.xn, a.yn}
	}
	for _, k := range c.addCases(false) {
		op("addJacobian", k.name, append(append([]*T{}, k.p1...), k.p2...), jac(k.sum))
		if k.name != "0:0:0+Q" {
			op("Add", k.name, append(flat(k.a1), flat(k.a2)...), aff(k.sum))
		}
	}
	q := c.point("q", id.v("q.x"))
	co := c.scaled(q, id.nonzero("q.z"))
	dbl := c.tangent(q)
	inf := []*T{id.v("ox"), id.v("oy"), tt.Int(0)}
	op("doubleJacobian", "of Q", co, jac(&dbl))
	op("doubleJacobian", "of O", inf, jac(nil))
	op("Double", "of Q", flat(&q), aff(&dbl))
	op("Double", "of O", flat(nil), aff(nil))
	op("affineFromJacobian", "of Q", co, aff(&q))
	op("affineFromJacobian", "of O", inf, aff(nil))
	curve := func(st *State) Val {
		recv := h.global("owcrypt", "secp256k1", st)
		if recv == nil {
			in.note("the curve object no longer resolves")
			recv = &PtrV{}
		}
		return recv
	}
	if f := h.methodFn("owcrypt", "secp256k1Curve", "IsOnCurve"); f != nil {
		x, y := tt.Atom("var", "any x", 0, new(big.Int).Neg(pow2(300)), pow2(300)), tt.Atom("var", "any y", 0, new(big.Int).Neg(pow2(300)), pow2(300))
		if rn := h.run("secp256k1.IsOnCurve", f, func(st *State) []Val {
			return []Val{curve(st), in.newBig(x, st), in.newBig(y, st)}
		}); rn != nil {
			h.r.Count("classes", 1)
			want := tt.Eq0(mod(id.sub(id.mul(y, y), c.rhs(x))))
			for _, v := range []*T{x, y} {
				want = tt.BAnd(want, tt.BAnd(tt.Le(tt.Int(0), v), tt.Lt(v, tt.Const(P))))
			}
			h.sc(f).iff("secp256k1.IsOnCurve", rn.Bool(0), want, rn.st.pc)
		}
	}
	// the ladder, on multiples of one point
	tt.zeroHook = nil
	pt := func(st *State, e *T) *TupleV {
		return &TupleV{[]Val{in.newBig(e, st), in.newBig(tt.Int(0), st), in.newBig(tt.Int(1), st)}}
	}
	rd := func(c *callCtx, i int) *T { return in.bigVal(c.args[i], c) }
	in.def("(*owcrypt.secp256k1Curve).doubleJacobian", func(in *Interp, c *callCtx) (Val, bool) {
		return pt(c.st, tt.Scale(rd(c, 1), bi(2))), true
	})
	in.def("(*owcrypt.secp256k1Curve).addJacobian", func(in *Interp, c *callCtx) (Val, bool) {
		return pt(c.st, tt.Add(rd(c, 1), rd(c, 4))), true
	})
	in.def("(*owcrypt.secp256k1Curve).affineFromJacobian", func(in *Interp, c *callCtx) (Val, bool) {
		return &TupleV{[]Val{in.newBig(rd(c, 1), c.st), in.newBig(rd(c, 2), c.st)}}, true
	})
	ks := []string{"", "\x01\x00", "\x00\xff\x80\x01", string(P.Bytes()), string(new(big.Int).Rsh(P, 3).Bytes()), "\x5a" + string(P.Bytes())}
	for i := 0; i < 256; i++ {
		ks = append(ks, string([]byte{byte(i)}))
	}
	for _, k := range ks {
		for _, name := range []string{"ScalarMult", "ScalarBaseMult"} {
			f := h.methodFn("owcrypt", "secp256k1Curve", name)
			if f == nil {
				continue
			}
			key := fmt.Sprintf("secp256k1.%s by %x", name, k)
			b := tt.Atom("var", "P", 0, big0, new(big.Int).Sub(P, big1))
			want := b
			rn := h.run(key, f, func(st *State) []Val {
				as := []Val{curve(st)}
				if name == "ScalarMult" {
					as = append(as, in.newBig(b, st), in.newBig(tt.Int(0), st))
				} else {
					want = tt.Const(hx("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"))
				}
				return append(as, in.sliceArg(tt.BLit(k), st))
			})
			if rn == nil {
				continue
			}
			h.r.Count("classes", 1)
			h.sc(f).ExpectT(key, "the multiple", in.bigVal(rn.res[0], &callCtx{st: rn.st}), tt.Scale(want, new(big.Int).SetBytes([]byte(k))), rn.st.pc)
		}
	}
}

// predicate: a function of points by value with a yes-or-no result (a boolean, or 1 and 0).
func (c *curveImpl) predicate(key string, f *ssa.Function, args [][]*T, want *B, under ...*B) {
	h := c.id.h
	tt := h.tt
	if f == nil {
		return
	}
	rn := h.run(key, f, func(st *State) []Val {
		var as []Val
		for _, a := range args {
			as = append(as, c.val(a))
		}
		return as
	})
	if rn == nil {
		return
	}
	h.r.Count("classes", 1)
	for _, g := range under {
		rn.st.pc = tt.BAnd(rn.st.pc, g)
	}
	if _, ok := rn.res[0].(*B); ok {
		h.sc(f).iff(key, rn.Bool(0), want, rn.st.pc)
		return
	}
	h.sc(f).iff(key, tt.Eq(rn.Int(0, rn.st.pc), tt.Int(1)), want, rn.st.pc)
}

func (tt *Terms) boolB(b bool) *B {
	if b {
		return tt.True
	}
	return tt.False
}

var _ = big.NewInt
