package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// SM2: Jacobian formulas over nine-limb Montgomery elements.

var feSM2 = &limbField{name: "sm2", off: []uint{0, 29, 57, 86, 114, 143, 171, 200, 228}, r: pow2(257), lo: big0, hi: pow2m(30)}

func (in *Interp) modelFeSM2(id *polyID) {
	tt := in.tt
	f := feSM2
	f.p = curveByName("sm2").p
	const pk = "owcrypt.sm2_std"
	get := func(c *callCtx, i int) *T { return in.feOf(f, c.args[i], c.st) }
	put := func(c *callCtx, e *T) (Val, bool) {
		in.store(c.args[0], in.feVal(f, e), c.st, c.pos)
		return &TupleV{}, true
	}
	bin := func(name string, g func(a, b *T) *T) {
		in.def(pk+name, func(in *Interp, c *callCtx) (Val, bool) { return put(c, tt.map2(get(c, 1), get(c, 2), g)) })
	}
	bin("Add", func(a, b *T) *T { return id.add(a, b) })
	bin("Sub", func(a, b *T) *T { return id.sub(a, b) })
	bin("Mul", func(a, b *T) *T { return id.mul(a, b) })
	in.def(pk+"Square", func(in *Interp, c *callCtx) (Val, bool) {
		return put(c, tt.mapC(get(c, 1), func(a *T) *T { return id.mul(a, a) }))
	})
	in.def(pk+"FromBig", func(in *Interp, c *callCtx) (Val, bool) {
		return put(c, tt.mapC(in.bigVal(c.args[1], c), func(a *T) *T { return id.nf(a) }))
	})
	in.def(pk+"ToBig", func(in *Interp, c *callCtx) (Val, bool) {
		return in.newBig(tt.mapC(get(c, 0), func(a *T) *T { return tt.Mod(id.nf(a), f.p) }), c.st), true
	})
}

func (h *H) sm2Law() {
	in, tt := h.in, h.tt
	w := curveByName("sm2")
	P := w.p
	id := newPolyID(h, P)
	in.modelFeSM2(id)
	c := &curveImpl{id: id, a: tt.Const(new(big.Int).Mod(w.a, P)), b: tt.Const(w.b),
		put: func(e *T) Val { return in.feVal(feSM2, id.nf(e)) },
		get: func(v Val, st *State) *T { return in.feOf(feSM2, v, st) }}
	at := func(f *ssa.Function) string { return h.p.Pos(f.Pos()) }
	curve := func(f *ssa.Function, st *State) Val {
		recv := h.global("owcrypt", "sm2_std", st)
		if recv == nil {
			in.note("the curve object no longer resolves")
			return &PtrV{}
		}
		if _, ok := f.Params[0].Type().Underlying().(*types.Pointer); ok {
			return recv
		}
		return in.load(recv, st, 0, nil)
	}
	// routines on separate coordinates: destinations first or last
	var each func(key, at string, st *State, out []Val, want *affine, isAffine bool)
	each = func(key, at string, st *State, out []Val, want *affine, isAffine bool) {
		var co []*T
		for _, p := range out {
			co = append(co, c.get(in.load(p, st, 0, nil), st))
		}
		id.cases(co, st.pc, func(co []*T, g *B) {
			if isAffine && want == nil {
				for i, t := range co {
					id.identity(key+"/"+itoa(i), at, t, g, "the coordinates must be (0, 0)")
				}
				return
			}
			c.leaf(key, at, co, g, want)
		})
	}
	place := func(st *State, n string, co []*T) []Val {
		var l []Val
		for i, e := range co {
			l = append(l, h.place(n+itoa(i), c.put(e), st))
		}
		return l
	}
	junk := func(n int) []*T {
		var l []*T
		for i := 0; i < n; i++ {
			l = append(l, id.v("junk"))
		}
		return l
	}
	op := func(name, cs string, nout int, outLast, shared bool, args [][]*T, own []*affine, want *affine) {
		f := h.pkgFn("owcrypt", name)
		if f == nil {
			return
		}
		key := "sm2." + name + " " + cs
		if shared {
			key += ", destination is the operand"
		}
		var out []Val
		var ops [][]Val
		rn := h.run(key, f, func(st *State) []Val {
			var as []Val
			for i, a := range args {
				l := place(st, fmt.Sprint("p", i), a)
				ops = append(ops, l)
				as = append(as, l...)
			}
			out = place(st, "r", junk(nout))
			if shared {
				out = ops[0][:nout]
			}
			if outLast {
				return append(as, out...)
			}
			return append(append([]Val{}, out...), as...)
		})
		if rn == nil {
			return
		}
		h.r.Count("classes", 1)
		each(key, at(f), rn.st, out, want, nout == 2)
		for i, l := range ops {
			if shared && i == 0 {
				continue
			}
			for j, p := range l {
				id.cases([]*T{c.get(in.load(p, rn.st, 0, nil), rn.st)}, rn.st.pc, func(co []*T, g *B) {
					id.identity(fmt.Sprint(key, "/operand ", i, " unchanged"), at(f), tt.Sub(co[0], args[i][j]), g, "the operand changes")
				})
			}
		}
	}
	big := func(name, cs string, args []*T, want *affine) {
		f := h.methodFn("owcrypt", "sm2_stdCurve", name)
		if name == "ToAffine" {
			f = h.pkgFn("owcrypt", "sm2_stdToAffine")
		}
		if f == nil {
			return
		}
		key := "sm2." + name + " " + cs
		var l []*PtrV
		rn := h.run(key, f, func(st *State) []Val {
			if name == "ToAffine" {
				return place(st, "p", args)
			}
			as := []Val{curve(f, st)}
			for _, a := range args {
				l = append(l, in.newBig(tt.Mod(id.nf(a), P), st))
				as = append(as, l[len(l)-1])
			}
			return as
		})
		if rn == nil {
			return
		}
		h.r.Count("classes", 1)
		for i, x := range l {
			id.identity(key+"/operand "+itoa(i)+" unchanged", at(f), tt.Sub(in.bigVal(x, &callCtx{st: rn.st}), args[i]), rn.st.pc, "the operand changes")
		}
		var co []*T
		for _, v := range rn.res {
			co = append(co, in.bigVal(v, &callCtx{st: rn.st}))
		}
		id.cases(co, rn.st.pc, func(co []*T, g *B) {
			if want == nil {
				for i, x := range co {
					h.r.Check(x.IsConst() && x.c.Sign() == 0, key+"/"+itoa(i), at(f), "the coordinates of the identity must be (0, 0), not "+clip(x.String(), 200))
				}
				return
			}
			c.leaf(key, at(f), co, g, want)
			for i, x := range co {
				h.r.Check(x.lo != nil && x.lo.Sign() >= 0 && x.hi != nil && x.hi.Cmp(P) < 0, key+"/reduced/"+itoa(i), at(f), "the coordinate need not be reduced modulo the prime")
			}
		})
	}
	flat := func(a *affine) []*T {
		if a == nil {
			return []*T{tt.Int(0), tt.Int(0)}
		}
		return []*T{a.xn, a.yn}
	}
	for _, k := range c.addCases(false) {
		op("sm2_stdPointAdd", k.name, 3, true, false, [][]*T{k.p1, k.p2}, []*affine{k.a1, k.a2}, k.sum)
		if k.name != "0:0:0+Q" {
			big("Add", k.name, append(flat(k.a1), flat(k.a2)...), k.sum)
		}
	}
	for _, k := range c.addCases(true) {
		if k.name == "P+Q" {
			op("sm2_stdPointAddMixed", k.name, 3, false, false, [][]*T{k.p1, k.p2[:2]}, []*affine{k.a1, k.a2}, k.sum)
		}
	}
	q := c.point("q", id.v("q.x"))
	co := c.scaled(q, id.nonzero("q.z"))
	dbl := c.tangent(q)
	inf := []*T{id.v("ox"), id.v("oy"), tt.Int(0)}
	for _, shared := range []bool{false, true} {
		op("sm2_stdPointDouble", "of Q", 3, false, shared, [][]*T{co}, nil, &dbl)
		op("sm2_stdPointDouble", "of O", 3, false, shared, [][]*T{inf}, nil, nil)
		op("sm2_stdPointToAffine", "of Q", 2, false, shared, [][]*T{co}, nil, &q)
		op("sm2_stdPointToAffine", "of O", 2, false, shared, [][]*T{inf}, nil, nil)
	}
	big("ToAffine", "of Q", co, &q)
	big("ToAffine", "of O", inf, nil)
	big("Double", "of Q", flat(&q), &dbl)
	big("Double", "of O", flat(nil), nil)
	if f := h.methodFn("owcrypt", "sm2_stdCurve", "IsOnCurve"); f != nil {
		x, y := tt.Atom("var", "any x", 0, new(bigInt).Neg(pow2(300)), pow2(300)), tt.Atom("var", "any y", 0, new(bigInt).Neg(pow2(300)), pow2(300))
		if rn := h.run("sm2.IsOnCurve", f, func(st *State) []Val {
			return []Val{curve(f, st), in.newBig(x, st), in.newBig(y, st)}
		}); rn != nil {
			h.r.Count("classes", 1)
			want := tt.Eq0(tt.Mod(id.nf(id.sub(id.mul(y, y), c.rhs(x))), P))
			for _, v := range []*T{x, y} {
				want = tt.BAnd(want, tt.BAnd(tt.Le(tt.Int(0), v), tt.Lt(v, tt.Const(P))))
			}
			h.sc(f).iff("sm2.IsOnCurve", rn.Bool(0), want, rn.st.pc)
		}
	}
}

type bigInt = big.Int

// sm2Ladders: the scalar multiplications on multiples of points, one concrete
// scalar at a time.
func (h *H) sm2Ladder(name string) {
	in, tt := h.in, h.tt
	cv := curveByName("sm2")
	P := cv.p
	feSM2.p = P
	w := formal{h: h, hi: pow2m(29)}
	nine := []int{9}
	known := map[string]*big.Int{}
	// the multiples the table of the base point holds
	var mult [8][2]*big.Int
	for j := range mult {
		mult[j] = wmul(cv, new(big.Int).Lsh(big1, uint(32*j)), [2]*big.Int{cv.gx, cv.gy})
	}
	for o := 0; o < 2; o++ {
		for i := 1; i < 16; i++ {
			var Q [2]*big.Int
			k := new(big.Int)
			for j := 0; j < 4; j++ {
				if i>>uint(j)&1 == 1 {
					Q = wadd(cv, Q, mult[2*j+o])
					k.SetBit(k, 32*(2*j+o), 1)
				}
			}
			known[Q[0].Text(16)+","+Q[1].Text(16)] = k
		}
	}
	num := func(v Val, st *State) *big.Int {
		s := new(big.Int)
		for i, x := range flatWords(in, v, st, nil) {
			if !x.IsConst() || i >= 9 {
				return nil
			}
			s.Add(s, new(big.Int).Lsh(x.c, feSM2.off[i]))
		}
		return mulm(P, s, modInv(feSM2.r, P))
	}
	none := tt.Atom("var", "no point", 0, nil, nil)
	unknown := func(what string) *T {
		in.note(what)
		return tt.Fresh("multiple", nil, nil)
	}
	// get: the multiple at three (or two) coordinates starting at argument i;
	// nil for the identity
	get := func(c *callCtx, i, n int) *T {
		var l []Val
		for j := 0; j < n; j++ {
			l = append(l, in.deref(c.args[i+j], c.st))
		}
		for _, kind := range []string{"j", "a"} {
			a, f0, ok0 := w.of(l[0], c.st, kind+"x")
			b, f1, ok1 := w.of(l[1], c.st, kind+"y")
			if !ok0 || !ok1 || f0 != 0 || f1 != 0 || a[0] != b[0] {
				continue
			}
			if n == 2 && kind == "a" {
				return a[0]
			}
			if n == 3 && kind == "a" {
				if z := num(l[2], c.st); z != nil && z.Cmp(big1) == 0 {
					return a[0]
				}
			}
			if n == 3 && kind == "j" {
				if z, f2, ok := w.of(l[2], c.st, "jz"); ok && f2 == 0 && z[0] == a[0] {
					return a[0]
				}
			}
		}
		x, y := num(l[0], c.st), num(l[1], c.st)
		if x == nil || y == nil {
			return unknown("point of unexpected form")
		}
		if n == 3 {
			z := num(l[2], c.st)
			switch {
			case z == nil:
				return unknown("point of unexpected form")
			case z.Sign() == 0:
				return nil
			case z.Cmp(big1) != 0:
				return unknown("a point that is no entry of a table")
			}
		}
		if k := known[x.Text(16)+","+y.Text(16)]; k != nil {
			return tt.Const(k)
		}
		// no entry: (0, 0, 1) converts to (0, 0), and no other result of it is taken
		if x.Sign() == 0 && y.Sign() == 0 {
			return none
		}
		return tt.Atom("var", "a pair that is no entry of the table", 0, nil, nil)
	}
	put := func(c *callCtx, i int, t *T) (Val, bool) {
		for j, k := range []string{"jx", "jy", "jz"} {
			v := Val(&AggV{})
			if t != nil {
				v = w.val(nine, k, t)
			} else {
				for n := 0; n < 9; n++ {
					v.(*AggV).el = append(v.(*AggV).el, tt.Int(0))
				}
			}
			in.store(c.args[i+j], v, c.st, c.pos)
		}
		return &TupleV{}, true
	}
	wrong := tt.Atom("var", "a sum the formula is not made for", 0, nil, nil)
	multiple := func(t *T) bool {
		for _, m := range t.monos() {
			if new(big.Int).Mod(m.co, cv.n).Sign() != 0 {
				return false
			}
		}
		return true
	}
	const pk = "owcrypt.sm2_std"
	in.def(pk+"PointDouble", func(in *Interp, c *callCtx) (Val, bool) {
		t := get(c, 3, 3)
		if t != nil {
			t = tt.Scale(t, bi(2))
		}
		return put(c, 0, t)
	})
	in.def(pk+"PointAdd", func(in *Interp, c *callCtx) (Val, bool) {
		a, b := get(c, 0, 3), get(c, 3, 3)
		switch {
		case a == nil:
			return put(c, 6, b)
		case b == nil:
			return put(c, 6, a)
		case multiple(tt.Add(a, b)):
			return put(c, 6, nil)
		}
		return put(c, 6, tt.Add(a, b))
	})
	in.def(pk+"PointAddMixed", func(in *Interp, c *callCtx) (Val, bool) {
		a, b := get(c, 3, 3), get(c, 6, 2)
		if a == nil || b == nil || multiple(tt.Add(a, b)) || multiple(tt.Sub(a, b)) {
			return put(c, 0, wrong)
		}
		return put(c, 0, tt.Add(a, b))
	})
	coord := func(t *T, k string) *T { return tt.Atom("coord", k, 0, big0, new(big.Int).Sub(P, big1), t) }
	in.def(pk+"ToAffine", func(in *Interp, c *callCtx) (Val, bool) {
		t := get(c, 0, 3)
		if t == nil || t == none {
			return &TupleV{[]Val{in.newBig(tt.Int(0), c.st), in.newBig(tt.Int(0), c.st)}}, true
		}
		return &TupleV{[]Val{in.newBig(coord(t, "x"), c.st), in.newBig(coord(t, "y"), c.st)}}, true
	})
	in.def(pk+"FromBig", func(in *Interp, c *callCtx) (Val, bool) {
		v := in.bigVal(c.args[1], c)
		if v.op == "coord" {
			in.store(c.args[0], w.val(nine, "a"+v.s, v.args[0]), c.st, c.pos)
			return &TupleV{}, true
		}
		return nil, false
	})
	scalars := []*big.Int{big0, cv.n, new(big.Int).Sub(cv.n, big1), new(big.Int).Add(cv.n, big1), new(big.Int).Rsh(cv.n, 1), pow2m(256), pow2(255), pow2m(255), P}
	for i := int64(1); i < 20; i += 3 {
		scalars = append(scalars, bi(i))
	}
	// every digit in every place
	for i := 0; i < 16; i++ {
		k := new(big.Int)
		for j := 0; j < 64; j++ {
			k.Lsh(k, 4).Or(k, bi(int64((i+j*5+j/16)%16)))
		}
		scalars = append(scalars, k)
	}
	for i := int64(1); i <= 8; i++ {
		scalars = append(scalars, new(big.Int).Exp(bi(3+i), bi(501), pow2(256)))
	}
	A := tt.Atom("var", "A", 0, nil, nil)
	if f := h.methodFn("owcrypt", "sm2_stdCurve", name); f != nil {
		for i, k := range scalars {
			l := []string{string(k.FillBytes(make([]byte, 32))), string(k.Bytes())}
			if i > 4 {
				l = l[i%2 : i%2+1]
			}
			for _, ks := range l {
				key := fmt.Sprintf("sm2.%s by %x", name, ks)
				und := len(h.r.Und)
				rn := h.run(key, f, func(st *State) []Val {
					recv := h.global("owcrypt", "sm2_std", st)
					if recv == nil {
						in.note("the curve object no longer resolves")
						recv = &PtrV{}
					}
					if _, ok := f.Params[0].Type().Underlying().(*types.Pointer); !ok {
						recv = in.load(recv, st, 0, nil)
					}
					as := []Val{recv}
					if name == "ScalarMult" {
						as = append(as, in.newBig(coord(A, "x"), st), in.newBig(coord(A, "y"), st))
					}
					return append(as, in.sliceArg(tt.BLit(ks), st))
				})
				if rn == nil {
					if n := len(h.r.Und); n == und+1 {
						// everything is known here: the call ends in a run-time panic
						h.r.Und = h.r.Und[:und]
						h.r.Bad(key, h.p.Pos(f.Pos()), "the call does not return")
					}
					continue
				}
				h.r.Count("multiples", 1)
				m := new(big.Int).Mod(k, cv.n)
				want := tt.Const(m)
				if name == "ScalarMult" {
					want = tt.Scale(A, m)
				}
				for i, xy := range []string{"x", "y"} {
					e := coord(want, xy)
					if m.Sign() == 0 {
						e = tt.Int(0)
					}
					h.sc(f).ExpectT(key+"/"+xy, "the multiple", in.bigVal(rn.res[i], &callCtx{st: rn.st}), e, rn.st.pc)
				}
			}
		}
	}
}
