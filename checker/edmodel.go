package main

import (
	"math/big"
)

// Edwards25519: field elements and points as terms.

var edCurve = &wcurve{name: "ed25519", ed: true,
	gx: hx("216936D3CD6E53FEC0A4E231FDD6DC5C692CC7609525A7B2C9562D608F25D51A"),
	gy: hx("6666666666666666666666666666666666666666666666666666666666666658")}

func init() {
	edCurve.p, edCurve.n, edCurve.a, edCurve.b = p25519, ordL, bi(-1), big0
	fe25519.p = p25519
	modNames[p25519.Text(16)] = "p.ed25519"
	modNames[ordL.Text(16)] = "n.ed25519"
}

// leVal: little-endian value.
func (tt *Terms) leVal(b *T) *T { return tt.Val(tt.BRev(b)) }

// leBytes: n little-endian bytes of x.
func (tt *Terms) leBytes(x *T, n int) *T { return tt.BRev(tt.BE(x, n)) }

// feDecode: the field element 32 little-endian bytes stand for (the top bit ignored).
func (in *Interp) feDecode(b *T, pc *B) *T {
	tt := in.tt
	b = in.resB(b, pc)
	if b.op == "choice" {
		var vs []*T
		for i, a := range b.args {
			vs = append(vs, in.feDecode(a, tt.BAnd(pc, b.cs[i])))
		}
		return tt.Choice(b.cs, vs)
	}
	r := tt.BRev(b)
	top := in.bAt(r, tt.Int(0), pc)
	v := tt.And(top, tt.Int(127), 8)
	if v != top {
		r = tt.BCat(tt.BByte(v), in.bRange(r, tt.Int(1), tt.AddI(r.len, -1), pc))
	}
	return tt.Mod(tt.Val(r), p25519)
}

func (in *Interp) feEncode(e *T) *T { return in.tt.leBytes(in.tt.Mod(e, p25519), 32) }

// modelFe25519 replaces the field routines by terms.
func (in *Interp) modelFe25519() {
	tt := in.tt
	f, p := fe25519, p25519
	const pk = "eddsa/edwards25519."
	get := func(in *Interp, c *callCtx, i int) *T { return in.feOf(f, c.args[i], c.st) }
	put := func(in *Interp, c *callCtx, e *T) (Val, bool) {
		in.store(c.args[0], in.feVal(f, e), c.st, c.pos)
		return &TupleV{}, true
	}
	mod := func(e *T) *T { return tt.Mod(e, p) }
	bin := func(name string, g func(a, b *T) *T) {
		in.def(pk+name, func(in *Interp, c *callCtx) (Val, bool) {
			return put(in, c, tt.map2(get(in, c, 1), get(in, c, 2), func(a, b *T) *T { return mod(g(a, b)) }))
		})
	}
	un := func(name string, g func(a *T) *T) {
		in.def(name, func(in *Interp, c *callCtx) (Val, bool) {
			return put(in, c, tt.mapC(get(in, c, 1), func(a *T) *T { return mod(g(a)) }))
		})
	}
	in.def(pk+"FeZero", func(in *Interp, c *callCtx) (Val, bool) { return put(in, c, tt.Int(0)) })
	in.def(pk+"FeOne", func(in *Interp, c *callCtx) (Val, bool) { return put(in, c, tt.Int(1)) })
	bin("FeAdd", tt.Add)
	bin("FeSub", tt.Sub)
	bin("FeMul", tt.Mul)
	un(pk+"FeNeg", tt.Neg)
	un(pk+"FeCopy", func(a *T) *T { return a })
	un(pk+"FeSquare", func(a *T) *T { return tt.Mul(a, a) })
	un(pk+"FeSquare2", func(a *T) *T { return tt.Scale(tt.Mul(a, a), bi(2)) })
	un(pk+"FeInvert", func(a *T) *T { return tt.Inv(a, p) })
	pow := func(a *T) *T {
		if a.IsConst() {
			e := new(big.Int).Rsh(new(big.Int).Sub(p, bi(5)), 3)
			return tt.Const(new(big.Int).Exp(a.c, e, p))
		}
		return tt.Atom("pow22523", "", 0, big0, new(big.Int).Sub(p, big1), a)
	}
	un(pk+"fePow22523", pow)
	un("eddsa.fePow22523", pow)
	in.def(pk+"FeFromBytes", func(in *Interp, c *callCtx) (Val, bool) {
		return put(in, c, in.feDecode(in.bytesOf(c.args[1], c.st), c.st.pc))
	})
	in.def(pk+"FeToBytes", func(in *Interp, c *callCtx) (Val, bool) {
		in.store(c.args[0], tt.mapC(get(in, c, 1), in.feEncode), c.st, c.pos)
		return &TupleV{}, true
	})
	in.def(pk+"FeIsNegative", func(in *Interp, c *callCtx) (Val, bool) {
		return tt.mapC(in.feOf(f, c.args[0], c.st), func(a *T) *T { return in.feOdd(a) }), true
	})
	in.def(pk+"FeIsNonZero", func(in *Interp, c *callCtx) (Val, bool) {
		z := tt.eq0C(in.feOf(f, c.args[0], c.st))
		return in.condT(in.decide(z, c.st.pc), tt.Int(0), tt.Int(1)), true
	})
	in.def(pk+"FeCMove", func(in *Interp, c *callCtx) (Val, bool) {
		b := in.intOf(c.args[2], c.st)
		z := in.decide(tt.Eq0(b), c.st.pc)
		a, g := in.feOf(f, c.args[0], c.st), in.feOf(f, c.args[1], c.st)
		return put(in, c, in.condT(z, a, g))
	})
}

// feOdd: the low bit of the reduced element, as the encoding shows it.
func (in *Interp) feOdd(e *T) *T {
	return in.tt.And(in.bAt(in.feEncode(e), in.tt.Int(0), in.tt.True), in.tt.Int(1), 8)
}

// mapC, map2: through choices.
func (tt *Terms) mapC(t *T, f func(*T) *T) *T {
	if t.op != "choice" {
		return f(t)
	}
	var vs []*T
	for _, a := range t.args {
		vs = append(vs, tt.mapC(a, f))
	}
	return tt.Choice(t.cs, vs)
}

func (tt *Terms) map2(a, b *T, f func(a, b *T) *T) *T {
	return tt.mapC(a, func(x *T) *T { return tt.mapC(b, func(y *T) *T { return f(x, y) }) })
}

func (tt *Terms) eq0C(t *T) *B {
	if t.op != "choice" {
		return tt.Eq0(t)
	}
	r := tt.False
	for i, a := range t.args {
		r = tt.BOr(r, tt.BAnd(t.cs[i], tt.eq0C(a)))
	}
	return r
}

// edPut stores point P into an extended (n=4) or projective (n=3) element.
func (in *Interp) edPut(dst Val, P *T, n int, c *callCtx) {
	tt := in.tt
	co := func(i int) Val {
		return in.feVal(fe25519, tt.mapC(P, func(P *T) *T {
			z := tt.Atom("edz", "", 0, big1, new(big.Int).Sub(p25519, big1), P)
			x, y := tt.coords(edCurve, P)
			switch i {
			case 0:
				return tt.Mod(tt.Mul(x, z), p25519)
			case 1:
				return tt.Mod(tt.Mul(y, z), p25519)
			case 2:
				return z
			}
			return tt.Mod(tt.Mul(tt.Mul(x, y), z), p25519)
		}))
	}
	a := &AggV{}
	for i := 0; i < n; i++ {
		a.el = append(a.el, co(i))
	}
	in.store(dst, a, c.st, c.pos)
}

// edGet reads the point an extended element holds.
func (in *Interp) edGet(v Val, st *State) *T {
	tt := in.tt
	if p, ok := v.(*PtrV); ok {
		v = in.loadPath(st, p.o, p.path)
	}
	a, ok := in.resV(v, st.pc).(*AggV)
	if !ok || len(a.el) < 3 {
		in.note("point of unexpected form")
		return tt.Fresh("edpt", nil, nil)
	}
	var co []*T
	for _, e := range a.el {
		co = append(co, in.feOf(fe25519, e, st))
	}
	return in.edFrom(co, st.pc)
}

func (in *Interp) edFrom(co []*T, pc *B) *T {
	tt := in.tt
	for i, t := range co {
		if t.op == "choice" {
			var cs []*B
			var vs []*T
			for j, g := range t.cs {
				p := tt.BAnd(pc, g)
				if !in.feasible(p) {
					continue
				}
				sub := append([]*T{}, co...)
				sub[i] = t.args[j]
				for k := i + 1; k < len(sub); k++ {
					sub[k] = in.res(sub[k], p)
				}
				cs, vs = append(cs, g), append(vs, in.edFrom(sub, p))
			}
			return tt.Choice(cs, vs)
		}
	}
	z := co[2]
	mod := func(t *T) *T { return tt.Mod(t, p25519) }
	if z.op == "edz" {
		P := z.args[0]
		x, y := tt.coords(edCurve, P)
		X, Y, T := mod(tt.Mul(x, z)), mod(tt.Mul(y, z)), mod(tt.Mul(tt.Mul(x, y), z))
		if co[1] == Y {
			if co[0] == X && (len(co) < 4 || co[3] == T) {
				return P
			}
			if co[0] == mod(tt.Neg(X)) && (len(co) < 4 || co[3] == mod(tt.Neg(T))) {
				return tt.Mod(tt.modNorm(tt.Neg(pointPoly(P)), ordL), ordL)
			}
		}
	}
	if co[0] == tt.Int(0) && co[1] == z && !z.IsConst() || co[0] == tt.Int(0) && co[1] == z && z.IsConst() && z.c.Sign() != 0 {
		return tt.Int(0)
	}
	return tt.Atom("edpt", "", 0, nil, nil, co...)
}

// modelEdGroup replaces the multiplications and the decoding by group terms.
func (in *Interp) modelEdGroup() {
	tt := in.tt
	const pk = "eddsa/edwards25519."
	c := edCurve
	sc := func(in *Interp, x *callCtx, i int, bits int) *T {
		b := in.resB(in.bytesOf(x.args[i], x.st), x.st.pc)
		return tt.mapC(b, func(b *T) *T { return in.leNum(b, x.st.pc) })
	}
	top := func(in *Interp, x *callCtx, i int) {
		b := in.bytesOf(x.args[i], x.st)
		t := in.bAt(b, tt.Int(31), x.st.pc)
		in.oblige("scalar of 2^255 or more", x.pos, tt.Lt(t, tt.Int(128)), x.st)
	}
	in.def(pk+"GeScalarMultBase", func(in *Interp, x *callCtx) (Val, bool) {
		top(in, x, 1)
		in.edPut(x.args[0], tt.PMul(c, sc(in, x, 1, 255), tt.Gen(c)), 4, x)
		return &TupleV{}, true
	})
	in.def(pk+"GeDoubleScalarMultVartime", func(in *Interp, x *callCtx) (Val, bool) {
		top(in, x, 1)
		top(in, x, 3)
		in.edPut(x.args[0], tt.PLin(c, sc(in, x, 1, 255), in.edGet(x.args[2], x.st), sc(in, x, 3, 255), tt.Gen(c)), 3, x)
		return &TupleV{}, true
	})
	in.def(pk+"GePointAddVarTime", func(in *Interp, x *callCtx) (Val, bool) {
		top(in, x, 1)
		top(in, x, 3)
		in.edPut(x.args[0], tt.PLin(c, sc(in, x, 1, 255), in.edGet(x.args[2], x.st), sc(in, x, 3, 255), in.edGet(x.args[4], x.st)), 3, x)
		return &TupleV{}, true
	})
	dec := func(neg bool) modelFn {
		return func(in *Interp, x *callCtx) (Val, bool) {
			b := in.resB(in.bytesOf(x.args[1], x.st), x.st.pc)
			P := tt.mapC(b, func(b *T) *T { return tt.edDec(b) })
			if neg {
				P = tt.mapC(P, func(P *T) *T { return tt.Mod(tt.modNorm(tt.Neg(pointPoly(P)), ordL), ordL) })
			}
			in.edPut(x.args[0], P, 4, x)
			ok := tt.False
			for _, a := range in.alts(b, x.st.pc) {
				ok = tt.BOr(ok, tt.BAnd(a.g, tt.edValid(a.v.(*T))))
			}
			return ok, true
		}
	}
	in.def("(*eddsa/edwards25519.ExtendedGroupElement).FromBytes", dec(false))
	in.def("eddsa.geFromBytesNegateVartime", dec(true))
	in.def(pk+"ScReduce", func(in *Interp, x *callCtx) (Val, bool) {
		in.store(x.args[0], tt.mapC(sc(in, x, 1, 512), func(v *T) *T { return tt.leBytes(tt.Mod(v, ordL), 32) }), x.st, x.pos)
		return &TupleV{}, true
	})
	in.def("eddsa.x25519_sc_reduce", func(in *Interp, x *callCtx) (Val, bool) {
		n := in.bytesOf(x.args[0], x.st).len
		in.oblige("scalar to reduce is not 64 bytes", x.pos, tt.Eq(n, tt.Int(64)), x.st)
		return tt.mapC(sc(in, x, 0, 512), func(v *T) *T { return tt.leBytes(tt.Mod(v, ordL), 32) }), true
	})
	in.def(pk+"ScMulAdd", func(in *Interp, x *callCtx) (Val, bool) {
		v := tt.map2(sc(in, x, 1, 256), sc(in, x, 2, 256), tt.Mul)
		v = tt.map2(v, sc(in, x, 3, 256), tt.Add)
		in.store(x.args[0], tt.mapC(v, func(v *T) *T { return tt.leBytes(tt.Mod(v, ordL), 32) }), x.st, x.pos)
		return &TupleV{}, true
	})
}

// leNum: the little-endian value, masked bytes kept as they are.
func (in *Interp) leNum(b *T, pc *B) *T { return in.tt.leVal(b) }

func (tt *Terms) edDec(b *T) *T { return tt.Atom("eddec", "", 0, nil, nil, b) }
func (tt *Terms) edValid(b *T) *B {
	if b.op == "choice" {
		r := tt.False
		for i, a := range b.args {
			r = tt.BOr(r, tt.BAnd(b.cs[i], tt.edValid(a)))
		}
		return r
	}
	return tt.Var(tt.Atom("edvalid", "", 0, nil, nil, b))
}

// edEnc: the encoding of a point: ordinate, with the abscissa's sign on top.
func (in *Interp) edEnc(P *T) *T {
	tt := in.tt
	return tt.mapC(P, func(P *T) *T {
		x, y := tt.coords(edCurve, P)
		b := in.feEncode(y)
		last := in.bAt(b, tt.Int(31), tt.True)
		last = tt.Xor(last, tt.Scale(in.feOdd(x), bi(128)), 8)
		return tt.BCat(in.bRange(b, tt.Int(0), tt.Int(31), tt.True), tt.BByte(last))
	})
}

// kc: an uninterpreted function of the SHA-256 scheme's Curve25519 code.
func (tt *Terms) kc(name string, args ...*T) *T { return tt.BIn2("kc:"+name, tt.Int(32), args...) }
func (tt *Terms) kcB(name string, args ...*T) *B {
	return tt.Var(tt.Atom("kcB", name, 0, nil, nil, args...))
}

func (in *Interp) modelCurve25519() {
	tt := in.tt
	arg := func(in *Interp, c *callCtx, i int) *T { return in.bytesOf(c.args[i], c.st) }
	put := func(in *Interp, c *callCtx, i int, b *T) {
		nl := in.nilCond(c.args[i], c.st)
		if nl == tt.True {
			return
		}
		in.oblige("output shorter than 32 bytes", c.pos, tt.BOr(nl, tt.Eq(in.bytesOf(c.args[i], c.st).len, tt.Int(32))), c.st)
		in.writeBytes(c.args[i], b, c.st)
	}
	in.def("eddsa.core", func(in *Interp, c *callCtx) (Val, bool) {
		k := arg(in, c, 2)
		as := []*T{k}
		if in.nilCond(c.args[3], c.st) != tt.True {
			as = append(as, arg(in, c, 3))
		}
		put(in, c, 0, tt.kc("P", as...))
		put(in, c, 1, tt.kc("s", as...))
		return &TupleV{}, true
	})
	in.def("eddsa.Sign", func(in *Interp, c *callCtx) (Val, bool) {
		as := []*T{arg(in, c, 1), arg(in, c, 2), arg(in, c, 3)}
		put(in, c, 0, tt.kc("v", as...))
		return tt.kcB("v", as...), true
	})
	in.def("eddsa.Verify", func(in *Interp, c *callCtx) (Val, bool) {
		put(in, c, 0, tt.kc("Y", arg(in, c, 1), arg(in, c, 2), arg(in, c, 3)))
		return &TupleV{}, true
	})
	in.def("eddsa.IsCanonicalPublicKey", func(in *Interp, c *callCtx) (Val, bool) {
		b := arg(in, c, 0)
		return tt.BAnd(in.decide(tt.Eq(b.len, tt.Int(32)), c.st.pc), tt.kcB("canonKey", b)), true
	})
	in.def("eddsa.IsCanonicalSignature", func(in *Interp, c *callCtx) (Val, bool) {
		b := arg(in, c, 0)
		return tt.kcB("canonSig", in.bRange(b, tt.Int(0), tt.Int(32), c.st.pc)), true
	})
}
