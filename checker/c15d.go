package main

import (
	"fmt"
	"go/token"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Hashing to the curve: expand_message_xmd, hash_to_field, the simplified SWU
// map, the isogeny and their composition (RFC 9380).

// expandXMD: expand_message_xmd over SHA-256.
func (h *H) expandXMD(msg, dst *T, n int) *T {
	tt, in := h.tt, h.in
	H := func(parts ...*T) *T { return tt.BHash("sha256", 32, tt.BCat(parts...)) }
	by := func(v int) *T { return tt.BLit(string([]byte{byte(v)})) }
	prime := tt.BCat(dst, tt.BByte(dst.len))
	ell := (n + 31) / 32
	b0 := H(tt.BZeros(tt.Int(64)), msg, by(n>>8), by(n), by(0), prime)
	bi := H(b0, by(1), prime)
	out := []*T{bi}
	for i := 2; i <= ell; i++ {
		var x []*T
		for j := 0; j < 32; j++ {
			k := tt.Int(int64(j))
			x = append(x, tt.BByte(tt.Xor(in.bAt(b0, k, tt.True), in.bAt(bi, k, tt.True), 8)))
		}
		bi = H(tt.BCat(x...), by(i), prime)
		out = append(out, bi)
	}
	return in.bRange(tt.BCat(out...), tt.Int(0), tt.Int(int64(n)), tt.True)
}

func (h *H) blsHashToField() {
	p, r, tt, in := h.p, h.r, h.tt, h.in
	pk := "bls12_381/bls"
	msg := h.sym("message")
	for _, dn := range []int64{43, 1, 255} {
		dst := h.fix("dst"+itoa(int(dn)), dn)
		if f := needFn(p, r, pk, "", "expandMsgSHA256XMD"); f != nil {
			for _, n := range []int{64, 128, 256, 48, 32} {
				if dn != 43 && n != 128 {
					continue
				}
				key := fmt.Sprint("expandMsgSHA256XMD of ", n, " bytes, tag of ", dn)
				if rn := h.run(key, f, func(st *State) []Val {
					return []Val{in.sliceArg(msg, st), in.sliceArg(dst, st), tt.Int(int64(n))}
				}); rn != nil {
					s := h.sc(f)
					s.Expect(key+"/succeeds", rn.IsNil(1), rn.st.pc, func() string { return "fails" })
					h.outIs(s, key, rn, 0, rn.IsNil(1), h.expandXMD(msg, dst, n))
				}
			}
		}
	}
	dst := h.fix("dst", 43)
	if f := needFn(p, r, pk, "", "hashToFpXMDSHA256"); f != nil {
		for _, n := range []int{1, 2, 4} {
			key := fmt.Sprint("hashToFpXMDSHA256 of ", n)
			rn := h.run(key, f, func(st *State) []Val {
				return []Val{in.sliceArg(msg, st), in.sliceArg(dst, st), tt.Int(int64(n))}
			})
			if rn == nil {
				continue
			}
			s := h.sc(f)
			s.Expect(key+"/succeeds", rn.IsNil(1), rn.st.pc, func() string { return "fails" })
			u := h.expandXMD(msg, dst, 64*n)
			pc := in.normPC(tt.BAnd(rn.st.pc, rn.IsNil(1)))
			st := &State{pc, rn.st.mem}
			sl, ok := in.resV(rn.res[0], pc).(*SliceV)
			if !ok {
				r.Undecided(key, "result of unexpected form")
				continue
			}
			s.Expect(key+"/count", tt.Eq(sl.ln, tt.Int(int64(n))), pc, func() string { return "another number of elements" })
			for i := 0; i < n; i++ {
				v := in.elemAt(sl, i, st)
				if v == nil {
					r.Undecided(key, "element of unexpected form")
					break
				}
				want := tt.Mod(tt.Val(in.bRange(u, tt.Int(int64(64*i)), tt.Int(64), tt.True)), blsP)
				got := in.res(in.blsFe(in.deref(v, st), st), pc)
				s.ExpectT(fmt.Sprint(key, "/element ", i), "the element", got, want, pc)
			}
		}
	}
}

// elemAt: element i of a slice of pointers.
func (in *Interp) elemAt(s *SliceV, i int, st *State) Val {
	if s.o == nil {
		return nil
	}
	off := in.res(s.off, st.pc)
	if !off.IsConst() {
		return nil
	}
	v := in.loadPath(st, s.o, s.path)
	a, ok := in.resV(v, st.pc).(*AggV)
	k := int(off.c.Int64()) + i
	if !ok || k >= len(a.el) {
		return nil
	}
	return a.el[k]
}

// fld: arithmetic of coefficient pairs; prime-field elements have a zero second
// coefficient.
type fld struct {
	h *H
	k int
}

func (q fld) mul(a, b [2]*T) [2]*T { return fe2Mul(q.h.tt, a, b) }
func (q fld) add(a, b [2]*T) [2]*T { return fe2Add(q.h.tt, a, b) }
func (q fld) num(a ...int64) [2]*T {
	tt := q.h.tt
	x := [2]*T{tt.Mod(tt.Int(a[0]), blsP), tt.Int(0)}
	if len(a) > 1 {
		x[1] = tt.Mod(tt.Int(a[1]), blsP)
	}
	return x
}
func (q fld) val(x [2]*T) Val {
	if q.k == 1 {
		return q.h.in.feVal(feBls, x[0])
	}
	return q.h.in.fe2Val(x)
}
func (q fld) of(v Val, st *State) [2]*T {
	if q.k == 1 {
		return [2]*T{q.h.in.blsFe(v, st), q.h.tt.Int(0)}
	}
	return q.h.in.blsFe2(v, st)
}
func (q fld) fresh(name string) [2]*T {
	top := new(big.Int).Sub(blsP, big1)
	x := [2]*T{q.h.tt.Atom("var", name, 0, big0, top), q.h.tt.Int(0)}
	if q.k == 2 {
		x[1] = q.h.tt.Atom("var", name, 1, big0, top)
	}
	return x
}

func (q fld) square(x [2]*T) *B {
	tt := q.h.tt
	if q.k == 1 {
		return tt.IsSquare(x[0], blsP)
	}
	return tt.isSquare2(x)
}
func (q fld) root(x [2]*T) [2]*T {
	tt := q.h.tt
	if q.k == 1 {
		return [2]*T{tt.Sqrt(x[0], blsP), tt.Int(0)}
	}
	return [2]*T{tt.sqrt2(x, 0), tt.sqrt2(x, 1)}
}
func (q fld) zero(x [2]*T) *B {
	z := q.h.tt.Eq0(x[0])
	if q.k == 2 {
		z = q.h.tt.BAnd(z, q.h.tt.Eq0(x[1]))
	}
	return z
}
func (q fld) inv(x [2]*T) [2]*T {
	tt := q.h.tt
	if q.k == 1 {
		return [2]*T{tt.Inv(x[0], blsP), tt.Int(0)}
	}
	n := tt.Inv(tt.Mod(tt.Add(tt.Mul(x[0], x[0]), tt.Mul(x[1], x[1])), blsP), blsP)
	return [2]*T{tt.Mod(tt.Mul(x[0], n), blsP), tt.Mod(tt.Neg(tt.Mul(x[1], n)), blsP)}
}

// sgn0: the sign of RFC 9380.
func (q fld) sgn0(x [2]*T) *B {
	tt := q.h.tt
	if q.k == 1 {
		return q.h.odd(x[0])
	}
	return tt.Ite(tt.Eq0(x[0]), q.h.odd(x[1]), q.h.odd(x[0]))
}
func (q fld) neg(x [2]*T) [2]*T {
	tt := q.h.tt
	return [2]*T{tt.Mod(tt.Neg(x[0]), blsP), tt.Mod(tt.Neg(x[1]), blsP)}
}

func (h *H) blsMaps(k int) {
	p, r, tt, in := h.p, h.r, h.tt, h.in
	pk := "bls12_381/bls"
	q := fld{h, k}
	g := itoa(k)
	f := needFn(p, r, pk, "", "swuMapG"+g)
	recv := func(st *State) []Val {
		if k == 1 {
			return nil
		}
		v, s2 := in.CallFn(needFn(p, r, pk, "", "newFp2"), nil, nil, st)
		if s2 != nil {
			st.pc, st.mem = s2.pc, s2.mem
		}
		return []Val{v}
	}
	A, Bc, Z := q.num(0, 240), q.num(1012, 1012), q.num(-2, -1)
	if k == 1 {
		A = [2]*T{tt.Const(hexi("144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d")), tt.Int(0)}
		Bc = [2]*T{tt.Const(hexi("12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0")), tt.Int(0)}
		Z = q.num(11)
	}
	if f != nil {
		u := q.fresh("u")
		key := "swuMapG" + g
		rn := h.run(key, f, func(st *State) []Val { return append(recv(st), h.place("u", q.val(u), st)) })
		if rn != nil {
			s := h.sc(f)
			gx := func(x [2]*T) [2]*T { return q.add(q.mul(q.add(q.mul(x, x), A), x), Bc) }
			t := q.mul(Z, q.mul(u, u))
			d := q.add(q.mul(t, t), t)
			mba := q.neg(q.mul(Bc, q.inv(A)))
			for _, zero := range []bool{false, true} {
				c := tt.BNot(q.zero(d))
				x1 := q.mul(mba, q.add(q.num(1, 0), q.inv(d)))
				nm := "generic"
				if zero {
					c = tt.BNot(c)
					x1 = q.mul(Bc, q.inv(q.mul(Z, A)))
					nm = "exceptional"
				}
				for _, second := range []bool{false, true} {
					x, n := x1, nm+" first root"
					g1 := gx(x1)
					// x2 = t x1 and g(x2) = t^3 g(x1)
					g2 := q.mul(q.mul(t, q.mul(t, t)), g1)
					y2 := g1
					cond := tt.BAll(c, q.square(g1), tt.BNot(q.zero(g1)))
					if second {
						x, n, y2 = q.mul(t, x1), nm+" second root", g2
						cond = tt.BAll(c, tt.BNot(q.square(g1)), q.square(g2))
					}
					if k == 2 {
						// a norm is 0 only for 0
						for _, e := range [][2]*T{d, g1} {
							n := tt.Eq0(tt.Mod(tt.Add(tt.Mul(e[0], e[0]), tt.Mul(e[1], e[1])), blsP))
							cond = tt.BAnd(cond, tt.BNot(tt.BXor(n, q.zero(e))))
						}
					}
					pc := in.normPC(tt.BAnd(rn.st.pc, in.decide(cond, rn.st.pc)))
					if !in.feasible(pc) {
						continue
					}
					rt := q.root(y2)
					same := tt.BNot(tt.BXor(q.sgn0(rt), q.sgn0(u)))
					for _, sg := range []*B{same, tt.BNot(same)} {
						pc := in.normPC(tt.BAnd(pc, in.decide(sg, pc)))
						if !in.feasible(pc) {
							continue
						}
						want := rt
						m := n
						if sg != same {
							want = q.neg(rt)
							m += " negated"
						}
						st := &State{pc, rn.st.mem}
						gx := q.of(in.load(in.resV(rn.res[0], pc), st, 0, nil), st)
						gy := q.of(in.load(in.resV(rn.res[1], pc), st, 0, nil), st)
						for i := 0; i < k; i++ {
							s.ExpectT(fmt.Sprint(key, "/", m, "/x", i), "the abscissa", in.res(gx[i], pc), in.res(x[i], pc), pc)
							s.ExpectT(fmt.Sprint(key, "/", m, "/y", i), "the ordinate", in.res(gy[i], pc), in.res(want[i], pc), pc)
						}
					}
				}
			}
		}
	}
	// the isogeny, with the coefficients of the package
	name := "isogenyConstansG1"
	if k == 2 {
		name = "isogenyConstantsG2"
	}
	e := &cEnv{h: h, r: r, st: in.newState()}
	l, _, ok := e.nums(pk, name)
	f = needFn(p, r, pk, "", "isogenyMapG"+g)
	if !ok || f == nil {
		return
	}
	per := len(l) / 24 / k
	Ri := new(big.Int).ModInverse(pow2(384), blsP)
	coef := func(i, j int) [2]*T {
		x := [2]*T{tt.Int(0), tt.Int(0)}
		for c := 0; c < k; c++ {
			o := ((i*per+j)*k + c) * 6
			v := limbsVal(l[o:o+6], pos64[:6])
			x[c] = tt.Const(v.Mul(v, Ri).Mod(v, blsP))
		}
		return x
	}
	x, y := q.fresh("x"), q.fresh("y")
	var px, py *PtrV
	key := "isogenyMapG" + g
	rn := h.run(key, f, func(st *State) []Val {
		px, py = h.place("x", q.val(x), st), h.place("y", q.val(y), st)
		return append(recv(st), px, py)
	})
	if rn == nil {
		return
	}
	var pol [4][2]*T
	for i := range pol {
		pol[i] = coef(i, per-1)
		for j := per - 2; j >= 0; j-- {
			pol[i] = q.add(q.mul(pol[i], x), coef(i, j))
		}
	}
	wx := q.mul(pol[0], q.inv(pol[1]))
	wy := q.mul(y, q.mul(pol[2], q.inv(pol[3])))
	gx, gy := q.of(in.load(px, rn.st, 0, nil), rn.st), q.of(in.load(py, rn.st, 0, nil), rn.st)
	s := h.sc(f)
	for i := 0; i < k; i++ {
		s.ExpectT(fmt.Sprint(key, "/x", i), "the abscissa", in.res(gx[i], rn.st.pc), wx[i], rn.st.pc)
		s.ExpectT(fmt.Sprint(key, "/y", i), "the ordinate", in.res(gy[i], rn.st.pc), wy[i], rn.st.pc)
	}
}

// blsCompose: the order in which the steps of the hash to the curve are
// applied, each step uninterpreted.
func (h *H) blsCompose(k int) {
	p, r, tt, in := h.p, h.r, h.tt, h.in
	q := fld{h, k}
	g := itoa(k)
	pk := "bls12_381/bls"
	top := new(big.Int).Sub(blsP, big1)
	// fun: a function of pairs of coefficients, applied through choices
	fun := func(name string, i int, xs ...*T) *T {
		return tt.mapTs(xs, func(xs []*T) *T { return tt.Atom("fexp", name+g, i, big0, top, xs...) })
	}
	flat := func(xs ...[2]*T) []*T {
		var l []*T
		for _, x := range xs {
			l = append(l, x[0])
			if k == 2 {
				l = append(l, x[1])
			}
		}
		return l
	}
	out := func(name string, i int, xs ...*T) [2]*T {
		o := [2]*T{fun(name, 2*i, xs...), tt.Int(0)}
		if k == 2 {
			o[1] = fun(name, 2*i+1, xs...)
		}
		return o
	}
	add := func(a, b []*T) []*T {
		// addition commutes
		if len(a) > 0 && a[0].id > b[0].id {
			a, b = b, a
		}
		return append(append([]*T{}, a...), b...)
	}
	point := func(co [][2]*T) Val {
		a := &AggV{}
		for _, x := range co {
			a.el = append(a.el, q.val(x))
		}
		return a
	}
	get := func(c *callCtx, i int) []*T {
		co := in.blsCoords(in.deref(c.args[i], c.st), k, c.st)
		for j := range co {
			co[j] = in.res(co[j], c.st.pc)
		}
		return co
	}
	three := func(name string, xs ...*T) [][2]*T {
		return [][2]*T{out(name, 0, xs...), out(name, 1, xs...), out(name, 2, xs...)}
	}
	bcoef := func(msg, dst *T, n, i int) *T {
		return tt.Atom("fexp", "htf", n*16+i, big0, top, msg, dst)
	}
	in.def(blsPk+"hashToFpXMDSHA256", func(in *Interp, c *callCtx) (Val, bool) {
		msg, dst := in.canonB(in.bytesOf(c.args[0], c.st), c.st.pc), in.canonB(in.bytesOf(c.args[1], c.st), c.st.pc)
		n := in.res(in.intOf(c.args[2], c.st), c.st.pc)
		if !n.IsConst() || n.c.Int64() > 8 || n.c.Sign() < 0 {
			return nil, false
		}
		k := int(n.c.Int64())
		a := &AggV{}
		for i := 0; i < k; i++ {
			o := in.newObj("u", nil, token.NoPos)
			c.st.mem[o] = in.feVal(feBls, bcoef(msg, dst, k, i))
			a.el = append(a.el, &PtrV{o: o})
		}
		o := in.newObj("us", nil, token.NoPos)
		c.st.mem[o] = a
		return &TupleV{el: []Val{&SliceV{o: o, off: tt.Int(0), ln: n, cp: n, nilc: tt.False}, &IfaceV{}}}, true
	})
	pos := 0
	if k == 2 {
		pos = 1 // the field object comes first
	}
	in.def(blsPk+"swuMapG"+g, func(in *Interp, c *callCtx) (Val, bool) {
		u := flat(q.of(in.deref(c.args[pos], c.st), c.st))
		res := &TupleV{}
		for i := 0; i < 2; i++ {
			o := in.newObj("swu", nil, token.NoPos)
			c.st.mem[o] = q.val(out("swu", i, u...))
			res.el = append(res.el, &PtrV{o: o})
		}
		return res, true
	})
	in.def(blsPk+"isogenyMapG"+g, func(in *Interp, c *callCtx) (Val, bool) {
		xs := append(flat(q.of(in.deref(c.args[pos], c.st), c.st)), flat(q.of(in.deref(c.args[pos+1], c.st), c.st))...)
		for i := 0; i < 2; i++ {
			in.store(c.args[pos+i], q.val(out("iso", i, xs...)), c.st, c.pos)
		}
		return &TupleV{}, true
	})
	nm := "(*" + blsPk + "G" + g + ")."
	in.def(nm+"Add", func(in *Interp, c *callCtx) (Val, bool) {
		in.store(c.args[1], point(three("add", add(get(c, 2), get(c, 3))...)), c.st, c.pos)
		return c.args[1], true
	})
	in.def(nm+"Affine", func(in *Interp, c *callCtx) (Val, bool) {
		in.store(c.args[1], point(three("affine", get(c, 1)...)), c.st, c.pos)
		return c.args[1], true
	})
	in.def(nm+"ClearCofactor", func(in *Interp, c *callCtx) (Val, bool) {
		in.store(c.args[1], point(three("clear", get(c, 1)...)), c.st, c.pos)
		return &TupleV{}, true
	})
	all := func(p [][2]*T) []*T { return flat(p...) }
	one := q.num(1, 0)
	msg, dst := h.sym("message"), h.fix("dst", 43)
	recv := needFn(p, r, pk, "", "NewG"+g)
	for _, e := range []struct {
		fn string
		n  int
	}{{"HashToCurve", 2}, {"EncodeToPoint", 1}, {"EncodeToCurve", 1}} {
		var f = h.methodFn("bls12_381/bls", "G"+g, e.fn)
		if f == nil || recv == nil {
			if e.fn == "HashToCurve" {
				r.Undecided("G"+g+".HashToCurve", "no such method")
			}
			continue
		}
		key := "G" + g + "." + e.fn
		rn := h.run(key, f, func(st *State) []Val {
			var ra []Val
			for range recv.Params {
				ra = append(ra, &PtrV{})
			}
			rv, s2 := in.CallFn(recv, ra, nil, st)
			if s2 != nil {
				st.pc, st.mem = s2.pc, s2.mem
			}
			return []Val{rv, in.sliceArg(msg, st), in.sliceArg(dst, st)}
		})
		if rn == nil {
			continue
		}
		var pts [][][2]*T
		for i := 0; i < e.n; i++ {
			u := make([]*T, k)
			for j := range u {
				u[j] = bcoef(msg, dst, e.n*k, i*k+j)
			}
			pts = append(pts, [][2]*T{out("swu", 0, u...), out("swu", 1, u...), one})
		}
		var cur [][2]*T
		if e.n == 2 {
			cur = three("affine", all(three("add", add(all(pts[0]), all(pts[1]))...))...)
		} else {
			cur = pts[0]
		}
		iso := flat(cur[0], cur[1])
		cur = [][2]*T{out("iso", 0, iso...), out("iso", 1, iso...), cur[2]}
		cur = three("affine", all(three("clear", all(cur)...))...)
		s := h.sc(f)
		s.Expect(key+"/succeeds", rn.IsNil(1), rn.st.pc, func() string { return "fails" })
		pc := in.normPC(tt.BAnd(rn.st.pc, rn.IsNil(1)))
		st := &State{pc, rn.st.mem}
		got := in.blsCoords(in.load(in.resV(rn.res[0], pc), st, 0, nil), k, st)
		want := all(cur)
		if len(got) != len(want) {
			r.Undecided(key, "no coordinates")
			continue
		}
		for i := range want {
			s.ExpectT(fmt.Sprint(key, "/coordinate ", i), "the coordinate", in.res(got[i], pc), want[i], pc)
		}
	}
}

// methodFn: a method by name, or nil.
func (h *H) methodFn(pkg, recv, name string) *ssa.Function {
	for _, f := range h.p.funcs {
		if f.Name() == name && f.Signature.Recv() != nil && shortS(f.String()) == "(*"+pkg+"."+recv+")."+name {
			return f
		}
	}
	return nil
}
