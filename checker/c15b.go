package main

import (
	"fmt"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Point encodings of package bls, at field level.

type blsCodec struct {
	h    *H
	g    string
	k    int // coefficients per coordinate
	size int64
}

func (q *blsCodec) fn(name string) *ssa.Function {
	return needFn(q.h.p, q.h.r, "bls12_381/bls", "*G"+q.g, name)
}

func (q *blsCodec) recv(st *State) Val {
	f := needFn(q.h.p, q.h.r, "bls12_381/bls", "", "NewG"+q.g)
	if f == nil {
		return nil
	}
	in := q.h.in
	var args []Val
	for range f.Params {
		args = append(args, &PtrV{})
	}
	v, s2 := in.CallFn(f, args, nil, st)
	if s2 != nil {
		st.pc, st.mem = s2.pc, s2.mem
	}
	return v
}

// coord: the coefficients of the coordinate encoded at off (high coefficient first).
func (q *blsCodec) coord(b *T, off int64) []*T {
	in, tt := q.h.in, q.h.tt
	x := make([]*T, q.k)
	for i := 0; i < q.k; i++ {
		x[q.k-1-i] = tt.Val(in.bRange(b, tt.Int(off+48*int64(i)), tt.Int(48), tt.True))
	}
	return x
}

func (q *blsCodec) pad(x []*T) [2]*T {
	if len(x) == 1 {
		return [2]*T{x[0], q.h.tt.Int(0)}
	}
	return [2]*T{x[0], x[1]}
}

func fe2Mul(tt *Terms, a, b [2]*T) [2]*T {
	return [2]*T{tt.Mod(tt.Sub(tt.Mul(a[0], b[0]), tt.Mul(a[1], b[1])), blsP), tt.Mod(tt.Add(tt.Mul(a[0], b[1]), tt.Mul(a[1], b[0])), blsP)}
}
func fe2Add(tt *Terms, a, b [2]*T) [2]*T {
	return [2]*T{tt.Mod(tt.Add(a[0], b[0]), blsP), tt.Mod(tt.Add(a[1], b[1]), blsP)}
}

// rhs: x^3 + b.
func (q *blsCodec) rhs(x []*T) [2]*T {
	tt := q.h.tt
	X := q.pad(x)
	b := [2]*T{tt.Int(4), tt.Int(int64(4 * (q.k - 1)))}
	return fe2Add(tt, fe2Mul(tt, fe2Mul(tt, X, X), X), b)
}

func (q *blsCodec) below(x []*T) *B {
	tt, c := q.h.tt, q.h.tt.True
	for _, e := range x {
		c = tt.BAnd(c, tt.Lt(e, tt.Const(blsP)))
	}
	return c
}

// larger: the ordinate is the lexicographically larger of itself and its negative.
func (q *blsCodec) larger(y []*T) *B {
	tt := q.h.tt
	neg := func(e *T) *T { return tt.Mod(tt.Neg(e), blsP) }
	l0 := tt.mapCs([]*T{y[0]}, func(y []*T) *B { return tt.Lt(neg(y[0]), y[0]) })
	if q.k == 1 {
		return l0
	}
	l1 := tt.mapCs([]*T{y[1]}, func(y []*T) *B { return tt.Lt(neg(y[0]), y[0]) })
	return tt.Ite(tt.eq0C(y[1]), l0, l1)
}

// one: coordinates (x, y, 1).
func (q *blsCodec) affine(x, y []*T) []*T {
	var co []*T
	for _, e := range append(append([]*T{}, x...), y...) {
		co = append(co, q.h.tt.mapC(e, func(e *T) *T { return q.h.tt.Mod(e, blsP) }))
	}
	co = append(co, q.h.tt.Int(1))
	for i := 1; i < q.k; i++ {
		co = append(co, q.h.tt.Int(0))
	}
	return co
}

func (q *blsCodec) coordsAre(key string, rn *Run, c *B, want []*T, s *specCheck) {
	in, tt := q.h.in, q.h.tt
	pc := in.normPC(tt.BAnd(rn.st.pc, c))
	if !in.feasible(pc) {
		q.h.r.Bad(key, s.pos, "never produces a point")
		return
	}
	st := &State{pc, rn.st.mem}
	v := in.load(in.resV(rn.res[0], pc), st, 0, nil)
	got := in.blsCoords(v, q.k, st)
	if len(got) != len(want) {
		q.h.r.Undecided(key, "no coordinates")
		return
	}
	for i := range want {
		s.ExpectT(key+"/"+fmt.Sprint("coordinate ", i), "the coordinate", in.res(got[i], pc), in.res(want[i], pc), pc)
	}
}

func (h *H) blsEncodings(g string, k int, size int64) {
	q := &blsCodec{h, g, k, size}
	in, tt := h.in, h.tt
	bit := func(b *T, m int64) *B { return tt.BNot(tt.Eq0(tt.And(in.bAt(b, tt.Int(0), tt.True), tt.Int(m), 8))) }
	name := "G" + g + "."
	args := func(b *T) func(st *State) []Val {
		return func(st *State) []Val { return []Val{q.recv(st), in.sliceArg(b, st)} }
	}
	zeroPt := append(append(make([]*T, 0), q.zeros()...), q.ones()...)
	zeroPt = append(zeroPt, q.zeros()...)
	if f := q.fn("FromCompressed"); f != nil {
		s := h.sc(f)
		b := h.fix("encoding", size)
		if rn := h.run(name+"FromCompressed", f, args(b)); rn != nil {
			cf, inf, sort := bit(b, 0x80), bit(b, 0x40), bit(b, 0x20)
			x := q.coord(h.byteMask(b, 0, 0x1f, 0), 0)
			fx := q.rhs(x)
			var y []*T
			var sq *B
			if k == 1 {
				y, sq = []*T{tt.Sqrt(fx[0], blsP)}, tt.IsSquare(fx[0], blsP)
			} else {
				y, sq = []*T{tt.sqrt2(fx, 0), tt.sqrt2(fx, 1)}, tt.isSquare2(fx)
			}
			same := tt.BNot(tt.BXor(q.larger(y), sort))
			for i := range y {
				y[i] = tt.Choice([]*B{same, tt.BNot(same)}, []*T{y[i], tt.Mod(tt.Neg(y[i]), blsP)})
			}
			lit := tt.bytesEqLit(in, b, "\xc0"+strings.Repeat("\x00", int(size-1)))
			fin := tt.BAll(tt.BNot(inf), q.below(x), sq, tt.inSub(g, q.affine(x, y)))
			ok := tt.BAnd(cf, tt.BOr(tt.BAnd(inf, lit), fin))
			s.iff(name+"FromCompressed/accepts", rn.IsNil(1), ok, rn.st.pc)
			q.coordsAre(name+"FromCompressed/point", rn, tt.BAnd(cf, fin), q.affine(x, y), s)
			q.coordsAre(name+"FromCompressed/identity", rn, tt.BAll(cf, inf, lit), zeroPt, s)
		}
		n := h.sym("encodingN")
		if rn := h.run(name+"FromCompressed length", f, args(n)); rn != nil {
			s.Expect(name+"FromCompressed length", tt.BOr(tt.Le(tt.Int(size), n.len), tt.BNot(rn.IsNil(1))), rn.st.pc, func() string { return "accepts a short encoding" })
		}
	}
	if f := q.fn("FromUncompressed"); f != nil {
		s := h.sc(f)
		b := h.fix("encoding2", 2*size)
		if rn := h.run(name+"FromUncompressed", f, args(b)); rn != nil {
			cf, inf, sort := bit(b, 0x80), bit(b, 0x40), bit(b, 0x20)
			m := h.byteMask(b, 0, 0x1f, 0)
			x, y := q.coord(m, 0), q.coord(m, size)
			lit := tt.bytesEqLit(in, b, "\x40"+strings.Repeat("\x00", int(2*size-1)))
			fin := tt.BAll(tt.BNot(inf), q.below(x), q.below(y), q.onCurve(x, y), tt.inSub(g, q.affine(x, y)))
			none := tt.BAnd(tt.BNot(cf), tt.BNot(sort))
			s.iff(name+"FromUncompressed/accepts", rn.IsNil(1), tt.BAnd(none, tt.BOr(tt.BAnd(inf, lit), fin)), rn.st.pc)
			q.coordsAre(name+"FromUncompressed/point", rn, tt.BAnd(none, fin), q.affine(x, y), s)
			q.coordsAre(name+"FromUncompressed/identity", rn, tt.BAll(none, inf, lit), zeroPt, s)
		}
		n := h.sym("encodingN")
		if rn := h.run(name+"FromUncompressed length", f, args(n)); rn != nil {
			s.Expect(name+"FromUncompressed length", tt.BOr(tt.Le(tt.Int(2*size), n.len), tt.BNot(rn.IsNil(1))), rn.st.pc, func() string { return "accepts a short encoding" })
		}
	}
	if f := q.fn("FromBytes"); f != nil {
		s := h.sc(f)
		b := h.fix("encoding3", 2*size)
		if rn := h.run(name+"FromBytes", f, args(b)); rn != nil {
			x, y := q.coord(b, 0), q.coord(b, size)
			zero := tt.True
			for _, e := range append(append([]*T{}, x...), y...) {
				zero = tt.BAnd(zero, tt.Eq0(e))
			}
			rng := tt.BAnd(q.below(x), q.below(y))
			s.iff(name+"FromBytes/accepts", rn.IsNil(1), tt.BAnd(rng, tt.BOr(zero, q.onCurve(x, y))), rn.st.pc)
			q.coordsAre(name+"FromBytes/point", rn, tt.BAll(rng, tt.BNot(zero), q.onCurve(x, y)), q.affine(x, y), s)
			q.coordsAre(name+"FromBytes/identity", rn, tt.BAnd(rng, zero), zeroPt, s)
		}
	}
	// encodings of an affine point and of the identity
	var x, y []*T
	for i := 0; i < k; i++ {
		x = append(x, tt.Atom("in", "x"+itoa(i), 0, big0, subOne(blsP)))
		y = append(y, tt.Atom("in", "y"+itoa(i), 0, big0, subOne(blsP)))
	}
	enc := func(co []*T) *T {
		var bs []*T
		for i := k - 1; i >= 0; i-- {
			bs = append(bs, tt.BE(co[i], 48))
		}
		return tt.BCat(bs...)
	}
	flag := func(b *T, f int64) *T { return h.byteMask(b, 0, 0xff, f) }
	for _, e := range []struct {
		n        string
		inf, fin *T
	}{
		{"ToCompressed", tt.BLit("\xc0" + strings.Repeat("\x00", int(size-1))), nil},
		{"ToUncompressed", tt.BLit("\x40" + strings.Repeat("\x00", int(2*size-1))), tt.BCat(enc(x), enc(y))},
		{"ToBytes", tt.BLit(strings.Repeat("\x00", int(2*size))), tt.BCat(enc(x), enc(y))},
	} {
		f := q.fn(e.n)
		if f == nil {
			continue
		}
		s := h.sc(f)
		typ := in.typeNamed("bls12_381/bls", "PointG"+g)
		put := func(co []*T) func(st *State) []Val {
			return func(st *State) []Val {
				a := &AggV{}
				for i := 0; i < 3; i++ {
					if k == 1 {
						a.el = append(a.el, in.feVal(feBls, co[i]))
					} else {
						a.el = append(a.el, in.fe2Val([2]*T{co[2*i], co[2*i+1]}))
					}
				}
				o := in.newObj("point", typ, f.Pos())
				st.mem[o] = a
				return []Val{q.recv(st), &PtrV{o: o}}
			}
		}
		if rn := h.run(name+e.n, f, put(q.affine(x, y))); rn != nil {
			want := e.fin
			if e.n == "ToCompressed" {
				lg := q.larger(y)
				want = tt.Choice([]*B{lg, tt.BNot(lg)}, []*T{flag(enc(x), 0xa0), flag(enc(x), 0x80)})
			}
			s.ExpectT(name+e.n, "the encoding", in.canonB(rn.Bytes(0, tt.True), rn.st.pc), in.canonB(want, rn.st.pc), rn.st.pc)
		}
		id := append(append(append([]*T{}, x...), y...), q.zeros()...)
		if rn := h.run(name+e.n+" of the identity", f, put(id)); rn != nil {
			s.ExpectT(name+e.n+" of the identity", "the encoding", in.canonB(rn.Bytes(0, tt.True), rn.st.pc), e.inf, rn.st.pc)
		}
		// a projective point is made affine first
		z := make([]*T, k)
		for i := range z {
			z[i] = tt.Atom("in", "z"+itoa(i), 0, big0, subOne(blsP))
		}
	}
}

func (q *blsCodec) zeros() []*T {
	var l []*T
	for i := 0; i < q.k; i++ {
		l = append(l, q.h.tt.Int(0))
	}
	return l
}

func (q *blsCodec) ones() []*T {
	l := q.zeros()
	l[0] = q.h.tt.Int(1)
	return l
}

func (q *blsCodec) onCurve(x, y []*T) *B {
	tt := q.h.tt
	Y := q.pad(y)
	l, r := fe2Mul(tt, Y, Y), q.rhs(x)
	c := tt.True
	for i := 0; i < q.k; i++ {
		c = tt.BAnd(c, tt.Eq0(tt.Mod(tt.Sub(l[i], r[i]), blsP)))
	}
	return c
}

func (tt *Terms) bytesEqLit(in *Interp, b *T, s string) *B {
	c := tt.True
	for i := 0; i < len(s); i++ {
		c = tt.BAnd(c, tt.Eq(in.bAt(b, tt.Int(int64(i)), tt.True), tt.Int(int64(s[i]))))
	}
	return c
}

func subOne(x *big.Int) *big.Int { return new(big.Int).Sub(x, big1) }
