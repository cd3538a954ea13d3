package main

import (
	"fmt"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Edwards25519: points through affine coordinates, with the curve equation as
// the rewriting rule x^2 y^2 -> (y^2 - x^2 - 1)/d.

type edPoint struct{ xn, xd, yn, yd *T }

const edPk = "eddsa/edwards25519"

type edLaws struct {
	h  *H
	id *polyID
	d  *T
}

func (e *edLaws) point(name string) (x, y *T) {
	id := e.id
	x, y = id.v(name+".x"), id.v(name+".y")
	lead := []*T{x, x, y, y}
	sort.Slice(lead, func(i, j int) bool { return lead[i].id < lead[j].id })
	y2x2 := id.sub(id.mul(y, y), id.add(id.mul(x, x), id.h.tt.Int(1)))
	id.rules = append(id.rules, polyRule{lead, id.nf(id.h.tt.Scale(y2x2, modInv(e.d.c, id.p)))})
	return x, y
}

// sum of two points; its denominators vanish nowhere, d being no square.
func (e *edLaws) sum(x1, y1, x2, y2 *T) edPoint {
	id, one := e.id, e.h.tt.Int(1)
	D := id.mul(e.d, x1, x2, y1, y2)
	r := edPoint{id.add(id.mul(x1, y2), id.mul(x2, y1)), id.add(one, D), id.add(id.mul(y1, y2), id.mul(x1, x2)), id.sub(one, D)}
	id.nzp = append(id.nzp, r.xd, r.yd)
	return r
}

func (h *H) edLaw() {
	in, tt := h.in, h.tt
	in.modelFe25519()
	id := newPolyID(h, p25519)
	d := mulm(p25519, bi(-121665), modInv(bi(121666), p25519))
	d.Mod(d, p25519)
	e := &edLaws{h, id, tt.Const(d)}
	one := tt.Int(1)
	mod := func(t *T) *T { return tt.Mod(id.nf(t), p25519) }
	// encodings and inverses by normal forms
	ld := func(c *callCtx, i int) *T { return in.feOf(fe25519, c.args[i], c.st) }
	in.def(edPk+".FeInvert", func(in *Interp, c *callCtx) (Val, bool) {
		in.store(c.args[0], in.feVal(fe25519, tt.mapC(ld(c, 1), id.inv)), c.st, c.pos)
		return &TupleV{}, true
	})
	in.def(edPk+".FeToBytes", func(in *Interp, c *callCtx) (Val, bool) {
		in.store(c.args[0], tt.mapC(ld(c, 1), func(a *T) *T { return in.feEncode(mod(a)) }), c.st, c.pos)
		return &TupleV{}, true
	})
	in.def(edPk+".FeIsNegative", func(in *Interp, c *callCtx) (Val, bool) {
		return tt.mapC(ld(c, 0), func(a *T) *T { return in.feOdd(mod(a)) }), true
	})
	agg := func(ts ...*T) Val {
		a := &AggV{}
		for _, t := range ts {
			a.el = append(a.el, in.feVal(fe25519, id.nf(t)))
		}
		return a
	}
	ext := func(x, y, z *T) Val { return agg(id.mul(x, z), id.mul(y, z), z, id.mul(x, y, z)) }
	proj := func(x, y, z *T) Val { return agg(id.mul(x, z), id.mul(y, z), z) }
	pre := func(x, y *T) Val { return agg(id.add(y, x), id.sub(y, x), id.k(2, id.mul(e.d, x, y))) }
	sizes := map[string]int{"ProjectiveGroupElement": 3, "ExtendedGroupElement": 4, "CompletedGroupElement": 4, "PreComputedGroupElement": 3, "CachedGroupElement": 4}
	junk := func(typ string) Val {
		var l []*T
		for i := 0; i < sizes[typ]; i++ {
			l = append(l, id.v("junk"))
		}
		return agg(l...)
	}
	const P, E, C, R, K = "ProjectiveGroupElement", "ExtendedGroupElement", "CompletedGroupElement", "PreComputedGroupElement", "CachedGroupElement"
	meth := func(recv, name string) *ssa.Function { return h.methodFn(edPk, recv, name) }
	call := func(st *State, f *ssa.Function, args ...Val) {
		if f == nil {
			in.note("a step no longer resolves")
			return
		}
		_, s2 := in.CallFn(f, args, nil, st)
		if s2 == nil {
			in.note("a step does not return")
			return
		}
		st.pc, st.mem = s2.pc, s2.mem
	}
	// represents: the element stands for the point.
	represents := func(key, at string, v Val, st *State, want edPoint) {
		a, ok := in.resV(v, st.pc).(*AggV)
		if !ok || len(a.el) < 3 {
			h.r.Undecided(key, "point of unexpected form")
			return
		}
		var co []*T
		for _, x := range a.el {
			co = append(co, in.feOf(fe25519, x, st))
		}
		id.cases(co, st.pc, func(co []*T, g *B) {
			id.identity(key+"/x", at, id.sub(id.mul(co[0], want.xd), id.mul(co[2], want.xn)), g, "abscissa: X*dx - Z*nx must vanish")
			id.identity(key+"/y", at, id.sub(id.mul(co[1], want.yd), id.mul(co[2], want.yn)), g, "ordinate: Y*dy - Z*ny must vanish")
			if len(co) == 4 {
				id.identity(key+"/t", at, id.sub(id.mul(co[0], co[1]), id.mul(co[2], co[3])), g, "X*Y - Z*T must vanish")
			}
			z := id.nf(co[2])
			switch {
			case id.isNonzero(z):
				h.r.OK(key+"/z", at, "")
			case z.IsConst():
				h.r.Bad(key+"/z", at, "the third coordinate is 0")
			default:
				h.r.Undecided(key+"/z", "cannot tell that the third coordinate is not 0: "+clip(z.String(), 200))
			}
		})
	}
	// chain runs steps on placed elements and reads the last destination
	chain := func(key string, f *ssa.Function, prep func(st *State, put func(typ string, v Val) *PtrV) []Val, out string, want edPoint) {
		if f == nil {
			return
		}
		var dst Val
		n := 0
		rn := h.run(key, f, func(st *State) []Val {
			as := prep(st, func(typ string, v Val) *PtrV {
				n++
				if v == nil {
					v = junk(typ)
				}
				return h.place(fmt.Sprint(typ, n), v, st)
			})
			dst = as[0]
			return as[1:]
		})
		if rn == nil {
			return
		}
		h.r.Count("classes", 1)
		represents(key, h.p.Pos(f.Pos()), in.load(dst, rn.st, 0, nil), rn.st, want)
	}
	x1, y1 := e.point("p")
	x2, y2 := e.point("q")
	z1, z2 := id.nonzero("z1"), id.nonzero("z2")
	neg := func(x *T) *T { return id.neg(x) }
	type put = func(string, Val) *PtrV
	for _, out := range []string{P, E} {
		out := out
		to := meth(C, "ToProjective")
		if out == E {
			to = meth(C, "ToExtended")
		}
		for _, op := range []struct {
			name  string
			sub   bool
			mixed bool
		}{{"geAdd", false, false}, {"geSub", true, false}, {"geMixedAdd", false, true}, {"geMixedSub", true, true}} {
			op := op
			f := h.pkgFn(edPk, op.name)
			xx := x2
			if op.sub {
				xx = neg(x2)
			}
			for _, same := range []bool{false, true} {
				a, b := x2, y2
				key := "ed25519." + op.name + ", " + out
				s := e.sum(x1, y1, xx, y2)
				if same {
					// the same point on both sides
					a, b = x1, y1
					m := x1
					if op.sub {
						m = neg(x1)
					}
					s = e.sum(x1, y1, m, y1)
					key += ", equal operands"
				}
				chain(key, to, func(st *State, put put) []Val {
					c := put(C, nil)
					var q *PtrV
					if op.mixed {
						q = put(R, pre(a, b))
					} else {
						q = put(K, nil)
						call(st, meth(E, "ToCached"), put(E, ext(a, b, z2)), q)
					}
					call(st, f, c, put(E, ext(x1, y1, z1)), q)
					r := put(out, nil)
					return []Val{r, c, r}
				}, out, s)
			}
		}
		dbl := e.sum(x1, y1, x1, y1)
		chain("ed25519 projective Double, "+out, to, func(st *State, put put) []Val {
			c, r := put(C, nil), put(out, nil)
			call(st, meth(P, "Double"), put(P, proj(x1, y1, z1)), c)
			return []Val{r, c, r}
		}, out, dbl)
		chain("ed25519 extended Double, "+out, to, func(st *State, put put) []Val {
			c, r := put(C, nil), put(out, nil)
			call(st, meth(E, "Double"), put(E, ext(x1, y1, z1)), c)
			return []Val{r, c, r}
		}, out, dbl)
		chain("ed25519 zero, "+out, meth(out, "Zero"), func(st *State, put put) []Val {
			r := put(out, nil)
			return []Val{r, r}
		}, out, edPoint{tt.Int(0), one, one, one})
		chain("ed25519 adding the pre-computed zero, "+out, to, func(st *State, put put) []Val {
			c, q, r := put(C, nil), put(R, nil), put(out, nil)
			call(st, meth(R, "Zero"), q)
			call(st, h.pkgFn(edPk, "geMixedAdd"), c, put(E, ext(x1, y1, z1)), q)
			return []Val{r, c, r}
		}, out, edPoint{x1, one, y1, one})
	}
	chain("ed25519 extended ToProjective", meth(E, "ToProjective"), func(st *State, put put) []Val {
		r := put(P, nil)
		return []Val{r, put(E, ext(x1, y1, z1)), r}
	}, P, edPoint{x1, one, y1, one})
	// encoding
	for _, typ := range []string{P, E} {
		f := meth(typ, "ToBytes")
		if f == nil {
			continue
		}
		key := "ed25519 " + typ + " ToBytes"
		var s *PtrV
		rn := h.run(key, f, func(st *State) []Val {
			v := ext(x1, y1, z1)
			if typ == P {
				v = proj(x1, y1, z1)
			}
			s = h.place("s", h.fix("junk32", 32), st)
			return []Val{h.place("p", v, st), s}
		})
		if rn == nil {
			continue
		}
		h.r.Count("classes", 1)
		b := in.feEncode(mod(y1))
		last := in.bAt(b, tt.Int(31), tt.True)
		last = tt.Xor(last, tt.Scale(in.feOdd(mod(x1)), bi(128)), 8)
		want := tt.BCat(in.bRange(b, tt.Int(0), tt.Int(31), tt.True), tt.BByte(last))
		h.sc(f).ExpectT(key, "the encoding", in.bytesOf(s, rn.st), want, rn.st.pc)
	}
}

// edLadders: the scalar multiplications on multiples of points, one concrete
// scalar at a time.
func (h *H) edLadders() {
	in, tt := h.in, h.tt
	w := formal{h: h, hi: pow2m(20)}
	c := edCurve
	// the pre-computed points
	p := p25519
	d := mulm(p, bi(-121665), modInv(bi(121666), p))
	d.Mod(d, p)
	add := func(a, b [2]*big.Int) [2]*big.Int {
		D := mulm(p, d, a[0], b[0], a[1], b[1])
		x := new(big.Int).Add(mulm(p, a[0], b[1]), mulm(p, b[0], a[1]))
		y := new(big.Int).Add(mulm(p, a[1], b[1]), mulm(p, a[0], b[0]))
		n, m := new(big.Int).Add(big1, D), new(big.Int).Sub(big1, D)
		return [2]*big.Int{mulm(p, x, modInv(n, p)), mulm(p, y, modInv(m.Mod(m, p), p))}
	}
	known := map[string]*big.Int{"0,1": big0}
	B := [2]*big.Int{c.gx, c.gy}
	enter := func(a [2]*big.Int, k *big.Int) {
		known[a[0].Text(16)+","+a[1].Text(16)] = k
		m := new(big.Int).Sub(p, a[0])
		known[m.Text(16)+","+a[1].Text(16)] = new(big.Int).Neg(k)
	}
	b, k := B, big1
	for i := 0; i < 32; i++ {
		q, n := b, k
		for j := 1; j <= 15; j++ {
			if j <= 8 || i == 0 {
				enter(q, n)
			}
			q, n = add(q, b), new(big.Int).Add(n, k)
		}
		for j := 0; j < 8; j++ {
			b, k = add(b, b), new(big.Int).Lsh(k, 1)
		}
	}
	const E, C, R, K, P = "ExtendedGroupElement", "CompletedGroupElement", "PreComputedGroupElement", "CachedGroupElement", "ProjectiveGroupElement"
	half := modInv(bi(2), p)
	shape := map[string][]int{P: {3, 10}, E: {4, 10}, C: {4, 10}, R: {3, 10}, K: {4, 10}}
	num := func(l []*T) *big.Int {
		s := new(big.Int)
		for i, x := range l {
			if !x.IsConst() {
				return nil
			}
			s.Add(s, new(big.Int).Lsh(x.c, fe25519.off[i]))
		}
		return s.Mod(s, p)
	}
	// get: the multiple an element holds
	get := func(c *callCtx, i int, typ string) *T {
		v := in.deref(c.args[i], c.st)
		if a, first, ok := w.of(v, c.st, typ); ok && first == 0 {
			return a[0]
		}
		l := flatWords(in, v, c.st, nil)
		if len(l) < 30 {
			in.note("point of unexpected form")
			return tt.Fresh("multiple", nil, nil)
		}
		a, b, z := num(l[:10]), num(l[10:20]), num(l[20:30])
		if a == nil || b == nil || z == nil {
			in.note("point of unexpected form")
			return tt.Fresh("multiple", nil, nil)
		}
		if typ == R {
			// y+x, y-x
			x, y := mulm(p, new(big.Int).Sub(a, b), half), mulm(p, new(big.Int).Add(a, b), half)
			x.Mod(x, p)
			a, b = x, y
			if t := mulm(p, bi(2), d, x, y); t.Mod(t, p).Cmp(z) != 0 {
				a = bi(-1)
			}
		} else if z.Sign() != 0 {
			a, b = mulm(p, a, modInv(z, p)), mulm(p, b, modInv(z, p))
		} else {
			a = bi(-1)
		}
		if k := known[a.Text(16)+","+b.Text(16)]; k != nil {
			return tt.Const(k)
		}
		in.note("a point that is no entry of a table")
		return tt.Fresh("multiple", nil, nil)
	}
	put := func(c *callCtx, i int, typ string, t *T) (Val, bool) {
		in.store(c.args[i], w.val(shape[typ], typ, t), c.st, c.pos)
		return &TupleV{}, true
	}
	m := func(recv, name string, f modelFn) { in.def("(*"+edPk+"."+recv+")."+name, f) }
	conv := func(recv, name, to string, k int64) {
		m(recv, name, func(in *Interp, c *callCtx) (Val, bool) {
			return put(c, 1, to, tt.Scale(get(c, 0, recv), bi(k)))
		})
	}
	conv(P, "Double", C, 2)
	conv(E, "Double", C, 2)
	conv(E, "ToCached", K, 1)
	conv(E, "ToProjective", P, 1)
	conv(C, "ToProjective", P, 1)
	conv(C, "ToExtended", E, 1)
	for _, x := range []struct {
		name, q string
		s       int64
	}{{"geAdd", K, 1}, {"geSub", K, -1}, {"geMixedAdd", R, 1}, {"geMixedSub", R, -1}} {
		x := x
		in.def(edPk+"."+x.name, func(in *Interp, c *callCtx) (Val, bool) {
			return put(c, 0, C, tt.Add(get(c, 1, E), tt.Scale(get(c, 2, x.q), bi(x.s))))
		})
	}
	scalars := []*big.Int{big0, big1, bi(2), bi(7), bi(8), bi(9), bi(15), bi(16), bi(17), bi(31), bi(136), bi(255), bi(256),
		ordL, new(big.Int).Sub(ordL, big1), new(big.Int).Add(ordL, big1), new(big.Int).Rsh(ordL, 1), pow2(251), pow2m(252), pow2m(253), pow2(254), pow2m(255)}
	rep := func(b byte) *big.Int {
		l := make([]byte, 32)
		for i := range l {
			l[i] = b
		}
		l[0] &= 127
		return new(big.Int).SetBytes(l)
	}
	for _, b := range []byte{0x11, 0x55, 0x77, 0x78, 0x80, 0x87, 0x88, 0x89, 0xaa, 0xef, 0xf0, 0xf7, 0xf8, 0x0f} {
		scalars = append(scalars, rep(b))
	}
	for i := int64(1); i <= 10; i++ {
		s := new(big.Int).Exp(bi(3+i), bi(501), pow2(255))
		scalars = append(scalars, s)
	}
	le := func(k *big.Int) string {
		b := k.FillBytes(make([]byte, 32))
		for i := 0; i < 16; i++ {
			b[i], b[31-i] = b[31-i], b[i]
		}
		return string(b)
	}
	A, A2 := tt.Atom("var", "A", 0, nil, nil), tt.Atom("var", "B", 0, nil, nil)
	run := func(name, typ string, a, b *big.Int, pts []*T, want *T) {
		f := h.pkgFn(edPk, name)
		if f == nil {
			return
		}
		key := fmt.Sprintf("ed25519.%s by %s", name, a.Text(16))
		if b != nil {
			key += " and " + b.Text(16)
		}
		var r *PtrV
		und := len(h.r.Und)
		rn := h.run(key, f, func(st *State) []Val {
			r = h.place("r", w.val(shape[typ], "junk", tt.Int(0)), st)
			as := []Val{r, h.place("a", tt.BLit(le(a)), st)}
			if len(pts) > 0 {
				as = append(as, h.place("A", w.val(shape[E], E, pts[0]), st), h.place("b", tt.BLit(le(b)), st))
			}
			if len(pts) > 1 {
				as = append(as, h.place("B", w.val(shape[E], E, pts[1]), st))
			}
			return as
		})
		if rn == nil {
			if n := len(h.r.Und); n == und+1 {
				// everything is known here: the call ends in a run-time panic
				h.r.Und = h.r.Und[:und]
				h.r.Bad(key, h.p.Pos(f.Pos()), "the call does not return")
			}
			return
		}
		h.r.Count("multiples", 1)
		got := get(&callCtx{args: []Val{r}, st: rn.st}, 0, typ)
		h.sc(f).ExpectT(key, "the multiple", got, want, rn.st.pc)
	}
	for i, a := range scalars {
		run("GeScalarMultBase", E, a, nil, nil, tt.Const(a))
		b := scalars[(i*7+3)%len(scalars)]
		run("GeDoubleScalarMultVartime", P, a, b, []*T{A}, tt.Add(tt.Scale(A, a), tt.Const(b)))
		run("GePointAddVarTime", P, a, b, []*T{A, A2}, tt.Add(tt.Scale(A, a), tt.Scale(A2, b)))
	}
}
