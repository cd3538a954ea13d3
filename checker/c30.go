package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// C30: point encodings, exponent chains, conversions between the Edwards and
// Montgomery forms, and the Montgomery ladder.

func init() { checks["C30"] = checkC30 }

func checkC30(p *Prog, r *Report) {
	r.Explain = "The two point decoders are evaluated on an unknown encoding with field elements as polynomials modulo 2^255-19: the condition under which they accept and the coordinates they store must equal those of the decoding rule. The exponent chains are evaluated on powers of one element. Conversions between Edwards ordinate and Montgomery abscissa, and the differential formulas of the ladder, are rational functions compared by normal forms; the ladder is run on multiples of an unknown point for listed scalars. Point addition and base-multiple addition of package eddsa are evaluated with points as integer combinations."
	r.Assume = append(r.Assume, "field operations implement their field (their limb arithmetic is a separate matter)")
	jobs := []func(sub *Report){
		func(sub *Report) { newHOn(p, sub, "eddsa", edPk).edDecoding() },
		func(sub *Report) { newHOn(p, sub, "eddsa", edPk).edChains() },
		func(sub *Report) { newHOn(p, sub, "eddsa", edPk).edConversions() },
		func(sub *Report) { newHOn(p, sub, "eddsa", edPk).edPointOps() },
		func(sub *Report) { newHOn(p, sub, "eddsa", edPk).montFormulas() },
		func(sub *Report) { newHOn(p, sub, "eddsa", edPk).montLadder() },
	}
	r.parallel(len(jobs), func(i int, sub *Report) { jobs[i](sub) })
}

func (h *H) edDecoding() {
	in, tt := h.in, h.tt
	in.modelFe25519()
	p := p25519
	mod := func(t *T) *T { return tt.Mod(t, p) }
	mul := func(l ...*T) *T {
		r := l[0]
		for _, x := range l[1:] {
			r = mod(tt.Mul(r, x))
		}
		return r
	}
	d := mulm(p, bi(-121665), modInv(bi(121666), p))
	d.Mod(d, p)
	i4 := new(big.Int).Exp(bi(2), new(big.Int).Rsh(new(big.Int).Sub(p, big1), 2), p)
	s := h.fix("s", 32)
	for _, x := range []struct {
		name string
		f    *ssa.Function
		neg  bool
	}{{"FromBytes", h.methodFn(edPk, "ExtendedGroupElement", "FromBytes"), false}, {"geFromBytesNegateVartime", h.pkgFn("eddsa", "geFromBytesNegateVartime"), true}} {
		if x.f == nil {
			continue
		}
		var e, sp *PtrV
		rn := h.run(x.name, x.f, func(st *State) []Val {
			a := &AggV{}
			for i := 0; i < 4; i++ {
				a.el = append(a.el, in.feVal(fe25519, tt.Atom("var", "junk"+itoa(i), 0, big0, pow2m(250))))
			}
			e, sp = h.place("e", a, st), h.place("s", s, st)
			return []Val{e, sp}
		})
		if rn == nil {
			continue
		}
		h.r.Count("classes", 1)
		pc := rn.st.pc
		y := in.feDecode(s, pc)
		u, v := mod(tt.AddI(tt.Mul(y, y), -1)), mod(tt.AddI(tt.Scale(tt.Mul(y, y), d), 1))
		v3 := mul(v, v, v)
		w := mul(u, v3, v3, v)
		w = tt.Atom("pow22523", "", 0, big0, new(big.Int).Sub(p, big1), w)
		x0 := mul(w, v3, u)
		vxx := mul(x0, x0, v)
		plus, minus := tt.Eq0(mod(tt.Sub(vxx, u))), tt.Eq0(mod(tt.Add(vxx, u)))
		sc := h.sc(x.f)
		sc.iff(x.name+"/accepts", rn.Bool(0), tt.BOr(plus, minus), pc)
		h.sc(x.f).ExpectT(x.name+"/encoding unchanged", "the encoding", in.bytesOf(sp, rn.st), s, pc)
		a, ok := in.resV(in.load(e, rn.st, 0, nil), pc).(*AggV)
		if !ok || len(a.el) != 4 {
			h.r.Undecided(x.name, "point of unexpected form")
			continue
		}
		bit := tt.Shr(in.bAt(s, tt.Int(31), pc), 7)
		for _, root := range []struct {
			name string
			g    *B
			x    *T
		}{{"u/v has the computed root", plus, x0}, {"the computed root needs the square root of -1", tt.BAnd(minus, tt.BNot(plus)), mul(x0, tt.Const(i4))}} {
			g := tt.BAnd(pc, root.g)
			par := in.feOdd(root.x)
			same := tt.Eq(par, bit)
			if x.neg {
				same = tt.BNot(same)
			}
			for _, c := range []struct {
				g *B
				x *T
			}{{same, root.x}, {tt.BNot(same), mod(tt.Neg(root.x))}} {
				g := tt.BAnd(g, c.g)
				st := &State{g, rn.st.mem}
				for i, want := range []*T{c.x, y, tt.Int(1), mul(c.x, y)} {
					got := in.res(in.feOf(fe25519, a.el[i], st), g)
					h.sc(x.f).ExpectT(fmt.Sprint(x.name, "/", root.name, "/", "XYZT"[i:i+1]), "the coordinate", got, want, g)
				}
			}
		}
	}
}

// edChains: exponents.
func (h *H) edChains() {
	in, tt := h.in, h.tt
	w := formal{h: h, hi: pow2m(24)}
	const n = 10
	get := func(c *callCtx, i int) *T {
		v := in.deref(c.args[i], c.st)
		if a, first, ok := w.of(v, c.st, "power"); ok && first == 0 {
			return a[0]
		}
		l := flatWords(in, v, c.st, nil)
		if constWords(l) {
			one := l[0].c.Cmp(big1) == 0
			for _, x := range l[1:] {
				one = one && x.c.Sign() == 0
			}
			if one {
				return tt.Int(0)
			}
		}
		in.note("operand that is no power")
		return tt.Fresh("power", nil, nil)
	}
	put := func(c *callCtx, e *T) (Val, bool) {
		in.store(c.args[0], w.val([]int{n}, "power", e), c.st, c.pos)
		return &TupleV{}, true
	}
	for _, m := range [][2]string{{edPk + ".FeMul", edPk + ".FeSquare"}, {"eddsa.mul", "eddsa.sqr"}} {
		in.def(m[0], func(in *Interp, c *callCtx) (Val, bool) { return put(c, tt.Add(get(c, 1), get(c, 2))) })
		in.def(m[1], func(in *Interp, c *callCtx) (Val, bool) { return put(c, tt.Scale(get(c, 1), bi(2))) })
	}
	p := p25519
	inv := new(big.Int).Sub(p, bi(2))
	root := new(big.Int).Rsh(new(big.Int).Sub(p, bi(5)), 3)
	for _, x := range []struct {
		pkg, name string
		extra     []Val
		want      *big.Int
		what      string
	}{
		{edPk, "FeInvert", nil, inv, "p-2"},
		{edPk, "fePow22523", nil, root, "(p-5)/8"},
		{"eddsa", "fePow22523", nil, root, "(p-5)/8"},
		{"eddsa", "recip", []Val{tt.Int(0)}, inv, "p-2"},
		{"eddsa", "recip", []Val{tt.Int(1)}, root, "(p-5)/8"},
	} {
		f := h.pkgFn(x.pkg, x.name)
		if f == nil {
			continue
		}
		for _, shared := range []bool{false, true} {
			key := x.pkg + "." + x.name + " to the " + x.what
			if shared {
				key += ", in place"
			}
			var out *PtrV
			rn := h.run(key, f, func(st *State) []Val {
				z := h.place("z", w.val([]int{n}, "power", tt.Int(1)), st)
				out = z
				if !shared {
					out = h.place("out", w.val([]int{n}, "junk", tt.Int(0)), st)
				}
				return append([]Val{out, z}, x.extra...)
			})
			if rn == nil {
				continue
			}
			h.r.Count("chains", 1)
			e := get(&callCtx{args: []Val{out}, st: rn.st}, 0)
			h.drain(key)
			m := e
			if e.IsConst() && e.c.Sign() > 0 {
				// z^(p-1) = 1 for z not 0, and 0 stays 0
				m = tt.Const(new(big.Int).Mod(e.c, new(big.Int).Sub(p, big1)))
			}
			h.sc(f).ExpectT(key, "the exponent", m, tt.Const(x.want), rn.st.pc)
		}
	}
}

func (h *H) edConversions() {
	in, tt := h.in, h.tt
	in.modelFe25519()
	p := p25519
	mod := func(t *T) *T { return tt.Mod(t, p) }
	// the wrappers, with the rational maps uninterpreted
	mapOf := func(name string) func(a *T) *T {
		return func(a *T) *T { return tt.Atom("map", name, 0, big0, new(big.Int).Sub(p, big1), mod(a)) }
	}
	for _, n := range []string{"montToEdy", "montFromEdy"} {
		g := mapOf(n)
		in.def("eddsa."+n, func(in *Interp, c *callCtx) (Val, bool) {
			return in.feVal(fe25519, tt.mapC(in.feOf(fe25519, c.args[0], c.st), g)), true
		})
	}
	s := h.fix("s", 32)
	for _, x := range []struct{ name, f string }{{"ConvertXToEd", "montToEdy"}, {"ConvertEdToX", "montFromEdy"}} {
		f := h.pkgFn("eddsa", x.name)
		if f == nil {
			continue
		}
		rn := h.run(x.name, f, func(st *State) []Val { return []Val{s} })
		if rn == nil {
			continue
		}
		h.r.Count("classes", 1)
		pc := rn.st.pc
		v := in.feDecode(s, pc)
		out := in.feEncode(mapOf(x.f)(v))
		good := tt.True
		if x.f == "montToEdy" {
			good = in.bytesEq(in.feEncode(v), s, pc)
		}
		nl := in.nilCond(rn.res[1], rn.st)
		h.sc(f).iff(x.name+"/accepts", nl, good, pc)
		h.sc(f).ExpectT(x.name+"/result", "the converted key", rn.Bytes(0, tt.BAnd(pc, good)), out, tt.BAnd(pc, good))
	}
	delete(in.models, "eddsa.montToEdy")
	delete(in.models, "eddsa.montFromEdy")
	// the maps
	id := newPolyID(h, p)
	in.def(edPk+".FeInvert", func(in *Interp, c *callCtx) (Val, bool) {
		in.store(c.args[0], in.feVal(fe25519, tt.mapC(in.feOf(fe25519, c.args[1], c.st), id.inv)), c.st, c.pos)
		return &TupleV{}, true
	})
	t := id.nonzero("t")
	for _, x := range []struct {
		name string
		cs   string
		arg  *T
		n, d *T
	}{
		{"montToEdy", "u", tt.AddI(t, -1), tt.AddI(t, -2), t},
		{"montToEdy", "u = -1", tt.Const(new(big.Int).Sub(p, big1)), tt.Int(0), tt.Int(1)},
		{"montFromEdy", "y", tt.Sub(tt.Int(1), t), tt.Sub(tt.Int(2), t), t},
		{"montFromEdy", "y = 1", tt.Int(1), tt.Int(0), tt.Int(1)},
	} {
		f := h.pkgFn("eddsa", x.name)
		if f == nil {
			continue
		}
		key := x.name + " of " + x.cs
		rn := h.run(key, f, func(st *State) []Val { return []Val{in.feVal(fe25519, id.nf(x.arg))} })
		if rn == nil {
			continue
		}
		h.r.Count("classes", 1)
		id.cases([]*T{in.feOf(fe25519, rn.res[0], rn.st)}, rn.st.pc, func(co []*T, g *B) {
			id.identity(key, h.p.Pos(f.Pos()), id.sub(id.mul(co[0], x.d), x.n), g, "the image times the denominator minus the numerator must vanish")
		})
	}
}

// edPointOps: sums of decoded points.
func (h *H) edPointOps() {
	in, tt := h.in, h.tt
	in.modelFe25519()
	in.modelEdGroup()
	p1, p2, k := h.fix("p1", 32), h.fix("p2", 32), h.fix("k", 32)
	A, B := tt.edDec(p1), tt.edDec(p2)
	n := ordL
	for _, x := range []struct {
		name string
		args []*T
		sum  *T
	}{
		{"Point_add", []*T{p1, p2}, tt.PLin(edCurve, tt.Int(1), A, tt.Int(1), B)},
		{"ScalarMultBaseAdd", []*T{p1, k}, tt.PLin(edCurve, tt.Int(1), A, tt.Mod(tt.leVal(k), n), tt.Gen(edCurve))},
	} {
		f := h.pkgFn("eddsa", x.name)
		if f == nil {
			continue
		}
		var l []Val
		rn := h.run(x.name, f, func(st *State) []Val {
			for i, a := range x.args {
				l = append(l, h.place("a"+itoa(i), a, st))
			}
			l = append(l, h.place("out", tt.BLit(string(make([]byte, 32))), st))
			return l
		})
		if rn == nil {
			continue
		}
		h.r.Count("classes", 1)
		pc := tt.BAll(rn.st.pc, tt.edValid(p1), tt.edValid(p2))
		zero := h.edIdentity(x.sum)
		h.sc(f).iff(x.name+"/identity", rn.Bool(0), zero, pc)
		fin := tt.BAnd(pc, tt.BNot(zero))
		h.sc(f).ExpectT(x.name+"/sum", "the encoded sum", in.bytesOf(l[2], &State{fin, rn.st.mem}), in.edEnc(x.sum), fin)
		for i, a := range x.args {
			h.sc(f).ExpectT(fmt.Sprint(x.name, "/operand ", i), "the operand", in.bytesOf(l[i], rn.st), a, rn.st.pc)
		}
	}
}

// edIdentity: abscissa 0 and ordinate 1.
func (h *H) edIdentity(P *T) *B {
	tt := h.tt
	x, y := tt.coords(edCurve, P)
	z := h.in.bytesEq(h.in.feEncode(x), tt.BLit(string(make([]byte, 32))), tt.True)
	one := make([]byte, 32)
	one[0] = 1
	return tt.BAnd(z, h.in.bytesEq(h.in.feEncode(y), tt.BLit(string(one)), tt.True))
}

var long10 = &limbField{name: "long10", off: fe25519.off, lo: bi(-1 << 31), hi: bi(1 << 31)}

// montFormulas: the differential formulas of y^2 = x^3 + 486662 x^2 + x.
func (h *H) montFormulas() {
	in, tt := h.in, h.tt
	p := p25519
	long10.p = p
	id := newPolyID(h, p)
	put := func(e *T) Val { return in.feVal(long10, id.nf(e)) }
	get := func(v Val, st *State) *T { return h.longOf(v, st) }
	h.modelLong10(id)
	a := bi(486662)
	rhs := func(x *T) *T { return id.add(id.mul(x, x, x), tt.Scale(id.mul(x, x), a), x) }
	point := func(n string, x *T) *T {
		y := id.nonzero(n)
		id.rules = append(id.rules, polyRule{[]*T{y, y}, rhs(x)})
		return y
	}
	x1 := id.v("x1")
	y1 := point("y1", x1)
	t := id.nonzero("t")
	x2 := id.add(x1, t)
	y2 := point("y2", x2)
	z1, z2 := id.nonzero("z1"), id.nonzero("z2")
	x := func(s *T) (n *T) { // numerator of ((y2-y1)/(x2-x1))^2 - A - x1 - x2 over t^2
		return id.sub(id.mul(s, s), id.mul(t, t, id.add(tt.Const(a), x1, x2)))
	}
	sum, diff := x(id.sub(y2, y1)), x(id.add(y2, y1))
	run := func(key string, f *ssa.Function, args []*T) ([]*PtrV, *Run) {
		var l []*PtrV
		rn := h.run(key, f, func(st *State) []Val {
			var as []Val
			for i, e := range args {
				if e == nil {
					e = id.v("junk")
				}
				pt := h.place("a"+itoa(i), put(e), st)
				l, as = append(l, pt), append(as, pt)
			}
			return as
		})
		return l, rn
	}
	val := func(pt *PtrV, rn *Run) *T { return get(in.load(pt, rn.st, 0, nil), rn.st) }
	if f := h.pkgFn("eddsa", "montPrep"); f != nil {
		X, Z := id.v("X"), id.v("Z")
		if l, rn := run("montPrep", f, []*T{nil, nil, X, Z}); rn != nil {
			h.r.Count("classes", 1)
			id.identity("montPrep/sum", h.p.Pos(f.Pos()), id.sub(val(l[0], rn), id.add(X, Z)), rn.st.pc, "t1 - (X + Z) must vanish")
			id.identity("montPrep/difference", h.p.Pos(f.Pos()), id.sub(val(l[1], rn), id.sub(X, Z)), rn.st.pc, "t2 - (X - Z) must vanish")
		}
	}
	pm := func(x, z *T) (*T, *T) { return id.mul(id.add(x, tt.Int(1)), z), id.mul(id.sub(x, tt.Int(1)), z) }
	inf := func(n string) (*T, *T) { X := id.nonzero(n); return X, X } // X + 0, X - 0
	if f := h.pkgFn("eddsa", "montAdd"); f != nil {
		s1, d1 := pm(x1, z1)
		s2, d2 := pm(x2, z2)
		si, di := inf("i")
		q1, e1 := pm(x1, z2)
		for _, c := range []struct {
			name           string
			a, b, c, d, dx *T
			n, den         *T // the abscissa of the sum; den 0 for the identity
		}{
			{"P, Q", s1, d1, s2, d2, id.mul(diff, id.inv(t), id.inv(t)), sum, id.mul(t, t)},
			{"O, Q", si, di, q1, e1, x1, x1, tt.Int(1)},
			{"P, O", q1, e1, si, di, x1, x1, tt.Int(1)},
		} {
			key := "montAdd of " + c.name
			l, rn := run(key, f, []*T{c.a, c.b, c.c, c.d, nil, nil, c.dx})
			if rn == nil {
				continue
			}
			h.r.Count("classes", 1)
			id.identity(key, h.p.Pos(f.Pos()), id.sub(id.mul(val(l[4], rn), c.den), id.mul(val(l[5], rn), c.n)), rn.st.pc, "X*den - Z*num must vanish")
			id.identity(key+"/difference unchanged", h.p.Pos(f.Pos()), id.sub(val(l[6], rn), c.dx), rn.st.pc, "the difference changes")
			for i, w := range []*T{c.c, c.d} {
				id.identity(key+"/second operand unchanged", h.p.Pos(f.Pos()), id.sub(val(l[2+i], rn), w), rn.st.pc, "the second operand changes before it is doubled")
			}
		}
	}
	if f := h.pkgFn("eddsa", "montDbl"); f != nil {
		s1, d1 := pm(x1, z1)
		x12 := id.mul(x1, x1)
		n := id.mul(id.sub(x12, tt.Int(1)), id.sub(x12, tt.Int(1)))
		d := id.k(4, id.mul(x1, id.add(x12, tt.Scale(x1, a), tt.Int(1))))
		l, rn := run("montDbl", f, []*T{nil, nil, s1, d1, nil, nil})
		if rn != nil {
			h.r.Count("classes", 1)
			id.identity("montDbl", h.p.Pos(f.Pos()), id.sub(id.mul(val(l[4], rn), d), id.mul(val(l[5], rn), n)), rn.st.pc, "X*den - Z*num must vanish")
		}
		si, di := inf("i")
		if l, rn := run("montDbl of O", f, []*T{nil, nil, si, di, nil, nil}); rn != nil {
			h.r.Count("classes", 1)
			id.identity("montDbl of O", h.p.Pos(f.Pos()), val(l[5], rn), rn.st.pc, "Z must vanish")
		}
	}
	if f := h.pkgFn("eddsa", "xToY2"); f != nil {
		if l, rn := run("xToY2", f, []*T{nil, nil, x1}); rn != nil {
			h.r.Count("classes", 1)
			id.identity("xToY2", h.p.Pos(f.Pos()), id.sub(val(l[1], rn), rhs(x1)), rn.st.pc, "y2 - (x^3 + 486662 x^2 + x) must vanish")
		}
	}
	_ = y1
}

// longOf: the element ten limbs hold, small constants added to single limbs included.
func (h *H) longOf(v Val, st *State) *T {
	in, tt := h.in, h.tt
	l := flatWords(in, v, st, nil)
	if len(l) == 10 {
		add := new(big.Int)
		ok := true
		for i, x := range l {
			if x.op == "poly" {
				ms := x.monos()
				var at *T
				c := new(big.Int)
				for _, m := range ms {
					switch {
					case len(m.vs) == 0:
						c = m.co
					case len(m.vs) == 1 && m.co.Cmp(big1) == 0 && at == nil:
						at = m.vs[0]
					default:
						ok = false
					}
				}
				if at != nil && ok && c.Sign() != 0 {
					l[i] = at
					add.Add(add, new(big.Int).Lsh(c, long10.off[i]))
				}
			}
		}
		if ok && add.Sign() != 0 {
			return tt.Add(in.feLimbs(long10, l, st.pc), tt.Const(add))
		}
	}
	return in.feOf(long10, v, st)
}

func (h *H) modelLong10(id *polyID) {
	in, tt := h.in, h.tt
	get := func(c *callCtx, i int) *T { return h.longOf(in.deref(c.args[i], c.st), c.st) }
	put := func(c *callCtx, e *T) (Val, bool) {
		in.store(c.args[0], in.feVal(long10, id.nf(e)), c.st, c.pos)
		return &TupleV{}, true
	}
	def := func(name string, f func(c *callCtx) *T) {
		in.def("eddsa."+name, func(in *Interp, c *callCtx) (Val, bool) { return put(c, f(c)) })
	}
	def("add", func(c *callCtx) *T { return id.add(get(c, 1), get(c, 2)) })
	def("sub", func(c *callCtx) *T { return id.sub(get(c, 1), get(c, 2)) })
	def("mul", func(c *callCtx) *T { return id.mul(get(c, 1), get(c, 2)) })
	def("sqr", func(c *callCtx) *T { return id.mul(get(c, 1), get(c, 1)) })
	def("cpy", func(c *callCtx) *T { return get(c, 1) })
	def("set", func(c *callCtx) *T { return in.intOf(c.args[1], c.st) })
	def("mulSmall", func(c *callCtx) *T { return id.mul(get(c, 1), in.intOf(c.args[2], c.st)) })
	_ = tt
}

// montLadder: the ladder on multiples, one concrete scalar at a time.
func (h *H) montLadder() {
	in, tt := h.in, h.tt
	p := p25519
	w := formal{h: h, hi: pow2m(24)}
	ten := []int{10}
	wrong := ""
	unknown := func() *T {
		in.note("a coordinate the analysis does not follow")
		return tt.Fresh("multiple", nil, nil)
	}
	// elements are polynomials until they enter the ladder
	long10.p = p
	id := newPolyID(h, p)
	tt.zeroHook = nil
	h.modelLong10(id)
	base, given := tt.Atom("var", "G", 0, nil, nil), tt.Atom("var", "P", 0, nil, nil)
	a := bi(486662)
	gx := tt.Int(9)
	tx := id.nonzero("Px-9")
	px := id.add(tx, gx)
	rhs := func(x *T) *T { return id.add(id.mul(x, x, x), tt.Scale(id.mul(x, x), a), x) }
	py := id.nonzero("Py")
	id.rules = append(id.rules, polyRule{[]*T{py, py}, rhs(px)})
	// of the two ordinates of a point the even one is meant
	gy := tt.Const(hx("5f51e65e475f794b1fe122d388b72eb36dc2b28192839e4dd6163a5d81312c14"))
	slope := func(s *T) *T {
		q := id.mul(s, id.inv(tx))
		return id.sub(id.mul(q, q), id.add(tt.Const(a), px, gx))
	}
	known := map[*T]*T{gx: base, id.nf(px): given, slope(id.sub(py, gy)): tt.Add(given, base), slope(id.add(py, gy)): tt.Sub(given, base)}
	el := func(c *callCtx, i int) *T {
		v := in.deref(c.args[i], c.st)
		for _, x := range flatWords(in, v, c.st, nil) {
			if x.op == "formal" {
				return nil
			}
		}
		return id.nf(h.longOf(v, c.st))
	}
	tag := func(c *callCtx, i int, kind string) *T {
		if a, first, ok := w.of(in.deref(c.args[i], c.st), c.st, kind); ok && first == 0 {
			return a[0]
		}
		return nil
	}
	// affX: the multiple of an abscissa
	affX := func(c *callCtx, i int) *T {
		if a := tag(c, i, "x"); a != nil {
			return a
		}
		if e := el(c, i); e != nil {
			if k := known[e]; k != nil {
				return k
			}
			if id.opaque(e) == "" {
				wrong = "an abscissa that belongs to none of G, P, P+G and P-G: " + clip(e.String(), 200)
				return tt.Atom("var", "no point", 0, nil, nil)
			}
		}
		return nil
	}
	// xz: the multiple at two coordinates
	xz := func(c *callCtx, i int) *T {
		a, b := tag(c, i, "X"), tag(c, i+1, "Z")
		if a != nil && a == b {
			return a
		}
		if a != nil && b != nil {
			wrong = "the coordinates of a point belong to different multiples"
			return a
		}
		z := el(c, i+1)
		switch {
		case z == nil || !z.IsConst():
		case z.c.Cmp(big1) == 0:
			if a := affX(c, i); a != nil {
				return a
			}
		case z.c.Sign() == 0:
			if x := el(c, i); x != nil && id.isNonzero(x) {
				return tt.Int(0)
			}
		}
		return unknown()
	}
	put := func(c *callCtx, i int, kind string, t *T) {
		in.store(c.args[i], w.val(ten, kind, t), c.st, c.pos)
	}
	same := func(a, b *T) bool { return a == b || a == tt.Neg(b) }
	in.def("eddsa.montPrep", func(in *Interp, c *callCtx) (Val, bool) {
		t := xz(c, 2)
		put(c, 0, "plus", t)
		put(c, 1, "minus", t)
		return &TupleV{}, true
	})
	pair := func(c *callCtx, i int) *T {
		a, b := tag(c, i, "plus"), tag(c, i+1, "minus")
		if a == nil || b == nil {
			return unknown()
		}
		if a != b {
			wrong = "the sum and the difference of coordinates belong to different points"
		}
		return a
	}
	in.def("eddsa.montAdd", func(in *Interp, c *callCtx) (Val, bool) {
		a, b := pair(c, 0), pair(c, 2)
		d := affX(c, 6)
		if d == nil {
			d = unknown()
		}
		r := tt.Add(a, b)
		if !same(tt.Sub(a, b), d) {
			if same(r, d) {
				r = tt.Sub(a, b)
			} else {
				wrong = "differential addition with an abscissa that is not that of the difference"
			}
		}
		put(c, 0, "used", tt.Int(0))
		put(c, 1, "used", tt.Int(0))
		put(c, 4, "X", r)
		put(c, 5, "Z", r)
		return &TupleV{}, true
	})
	in.def("eddsa.montDbl", func(in *Interp, c *callCtx) (Val, bool) {
		r := tt.Scale(pair(c, 2), bi(2))
		put(c, 0, "used", tt.Int(0))
		put(c, 1, "used", tt.Int(0))
		put(c, 4, "X", r)
		put(c, 5, "Z", r)
		return &TupleV{}, true
	})
	in.def("eddsa.recip", func(in *Interp, c *callCtx) (Val, bool) {
		if k := in.intOf(c.args[2], c.st); k.IsConst() && k.c.Sign() == 0 {
			if t := tag(c, 1, "Z"); t != nil {
				put(c, 0, "1/Z", t)
				return &TupleV{}, true
			}
			if e := el(c, 1); e != nil {
				in.store(c.args[0], in.feVal(long10, id.inv(e)), c.st, c.pos)
				return &TupleV{}, true
			}
		}
		put(c, 0, "1/Z", unknown())
		return &TupleV{}, true
	})
	root := py // the root a square root of Py^2 is taken to give
	in.def("eddsa.sqrt", func(in *Interp, c *callCtx) (Val, bool) {
		e := el(c, 1)
		if e == nil || e != rhs(px) {
			e = unknown()
		} else {
			e = root
		}
		in.store(c.args[0], in.feVal(long10, e), c.st, c.pos)
		return &TupleV{}, true
	})
	in.def("eddsa.isNegative", func(in *Interp, c *callCtx) (Val, bool) {
		switch el(c, 0) {
		case py:
			return tt.Int(0), true
		case id.neg(py):
			return tt.Int(1), true
		}
		return unknown(), true
	})
	mul := in.models["eddsa.mul"]
	in.def("eddsa.mul", func(in *Interp, c *callCtx) (Val, bool) {
		if el(c, 1) != nil && el(c, 2) != nil {
			return mul(in, c)
		}
		a, b := tag(c, 1, "X"), tag(c, 2, "1/Z")
		if a == nil {
			a, b = tag(c, 2, "X"), tag(c, 1, "1/Z")
		}
		if a == nil || b == nil {
			put(c, 0, "x", unknown())
			return &TupleV{}, true
		}
		if a != b {
			wrong = "an abscissa is divided by the denominator of another point"
		}
		put(c, 0, "x", a)
		return &TupleV{}, true
	})
	G := h.fix("P", 32)
	in.def("eddsa.unpack", func(in *Interp, c *callCtx) (Val, bool) {
		e := px
		if in.bytesOf(c.args[1], c.st) != G {
			e = unknown()
		}
		in.store(c.args[0], in.feVal(long10, e), c.st, c.pos)
		return &TupleV{}, true
	})
	in.def("eddsa.pack", func(in *Interp, c *callCtx) (Val, bool) {
		t := tag(c, 0, "x")
		if t == nil {
			t = unknown()
		}
		in.writeBytes(c.args[1], tt.BIn2("packed", tt.Int(32), t), c.st)
		return &TupleV{}, true
	})
	f := h.pkgFn("eddsa", "core")
	if f == nil {
		return
	}
	var scalars []*big.Int
	for _, x := range []*big.Int{big1, bi(2), bi(3), bi(255), bi(256), pow2m(255), pow2(254), pow2m(256), pow2(255), ordL, new(big.Int).Sub(ordL, big1)} {
		scalars = append(scalars, x)
	}
	for i := int64(1); i <= 12; i++ {
		scalars = append(scalars, new(big.Int).Exp(bi(3+i), bi(501), pow2(256)))
	}
	le := func(k *big.Int) string {
		b := k.FillBytes(make([]byte, 32))
		for i := 0; i < 16; i++ {
			b[i], b[31-i] = b[31-i], b[i]
		}
		return string(b)
	}
	for _, k := range scalars {
		for _, own := range []bool{false, true} {
			key := "core by " + k.Text(16)
			b := base
			if own {
				key += " of a given point"
				b = given
			}
			wrong = ""
			var out, ks Val
			und := len(h.r.Und)
			rn := h.run(key, f, func(st *State) []Val {
				out, ks = in.sliceArg(h.fix("junk", 32), st), in.sliceArg(tt.BLit(le(k)), st)
				as := []Val{out, &SliceV{}, ks, &SliceV{}}
				for i, prm := range f.Params {
					if _, ok := prm.Type().Underlying().(*types.Slice); ok && i < 4 && (i == 1 || i == 3 && !own) {
						as[i] = in.zero(prm.Type())
					}
				}
				if own {
					as[3] = in.sliceArg(G, st)
				}
				return as
			})
			if rn == nil {
				if n := len(h.r.Und); n == und+1 {
					// everything is known here: the call ends in a run-time panic
					h.r.Und = h.r.Und[:und]
					h.r.Bad(key, h.p.Pos(f.Pos()), "the call does not return")
				}
				continue
			}
			h.r.Count("multiples", 1)
			if wrong != "" {
				h.r.Bad(key+"/ladder", h.p.Pos(f.Pos()), wrong)
				continue
			}
			got := in.bytesOf(out, rn.st)
			want := tt.BIn2("packed", tt.Int(32), tt.Scale(b, k))
			if got == tt.BIn2("packed", tt.Int(32), tt.Neg(tt.Scale(b, k))) {
				got = want
			}
			h.sc(f).ExpectT(key, "the abscissa of the multiple", got, want, rn.st.pc)
			h.sc(f).ExpectT(key+"/scalar unchanged", "the scalar", in.bytesOf(ks, rn.st), tt.BLit(le(k)), rn.st.pc)
		}
	}
	// v P + h G
	f = h.pkgFn("eddsa", "Verify")
	if f == nil {
		return
	}
	var hs []*big.Int
	for _, x := range scalars {
		if x.BitLen() > 253 {
			x = new(big.Int).Rsh(x, uint(x.BitLen()-253))
		}
		hs = append(hs, x)
	}
	hs = append(hs, big0)
	for i := range hs {
		for j, r := range []*T{py, id.neg(py)} {
			root = r
			v, e := hs[i], hs[(i*5+j+3)%len(hs)]
			if j == 1 && i%3 == 0 {
				e = scalars[(i+5)%len(scalars)]
			}
			key := fmt.Sprintf("Verify by %s and %s, root %d", v.Text(16), e.Text(16), j)
			wrong = ""
			var out Val
			und := len(h.r.Und)
			rn := h.run(key, f, func(st *State) []Val {
				out = in.sliceArg(h.fix("junk", 32), st)
				return []Val{out, in.sliceArg(tt.BLit(le(v)), st), in.sliceArg(tt.BLit(le(e)), st), in.sliceArg(G, st)}
			})
			if rn == nil {
				if n := len(h.r.Und); n == und+1 {
					h.r.Und = h.r.Und[:und]
					h.r.Bad(key, h.p.Pos(f.Pos()), "the call does not return")
				}
				continue
			}
			h.r.Count("multiples", 1)
			if wrong != "" {
				h.r.Bad(key+"/ladder", h.p.Pos(f.Pos()), wrong)
				continue
			}
			got := in.bytesOf(out, rn.st)
			sum := tt.Add(tt.Scale(given, v), tt.Scale(base, e))
			want := tt.BIn2("packed", tt.Int(32), sum)
			if got == tt.BIn2("packed", tt.Int(32), tt.Neg(sum)) {
				got = want
			}
			h.sc(f).ExpectT(key, "the abscissa of the multiple", got, want, rn.st.pc)
		}
	}
}
