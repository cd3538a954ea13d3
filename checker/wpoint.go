package main

import (
	"fmt"
	"math/big"
)

// C17, C18: encodings, decompression and recovery on the Weierstrass curves.

func init() { checks["C17"] = checkC17; checks["C18"] = checkC18 }

var weierCurves = [][2]string{{"ECC_CURVE_SECP256K1", "secp256k1"}, {"ECC_CURVE_SECP256R1", "secp256r1"}, {"ECC_CURVE_SM2_STANDARD", "sm2"}}

// xy: the fixed-width encoding of a point.
func (h *H) xy(w *wcurve, R *T) *T {
	x, y := h.tt.coords(w, R)
	return h.tt.BCat(h.tt.BE(x, 32), h.tt.BE(y, 32))
}

func (h *H) odd(x *T) *B { return h.tt.BNot(h.tt.Eq0(h.tt.Mod(x, bi(2)))) }

// outIs: whenever ok holds, result i is exactly want.
func (h *H) outIs(s *specCheck, key string, rn *Run, i int, ok *B, want *T) {
	pc := h.in.normPC(h.tt.BAnd(rn.st.pc, ok))
	if !h.in.feasible(pc) {
		h.r.Bad(key+"/succeeds", s.pos, "never produces a result")
		return
	}
	h.r.Count("encodings", 1)
	got := h.in.canonB(rn.Bytes(i, ok), pc)
	if !s.Expect(key+"/length", h.tt.Eq(got.len, want.len), pc, h.detail("the result has another length", got)) {
		return
	}
	s.ExpectT(key+"/encoding", "the result", got, want, pc)
}

func (h *H) rhs(w *wcurve, x *T) *T {
	tt := h.tt
	return tt.Mod(tt.Add(tt.Add(tt.Mul(tt.Mul(x, x), x), tt.Mul(tt.Const(w.a), x)), tt.Const(w.b)), w.p)
}

// lift: ordinate of the point with abscissa x whose parity is odd.
func (h *H) lift(w *wcurve, x *T, odd *B) *T {
	tt := h.tt
	y0 := tt.Sqrt(h.rhs(w, x), w.p)
	same := tt.BNot(tt.BXor(h.odd(y0), odd))
	return tt.Choice([]*B{same, tt.BNot(same)}, []*T{y0, tt.Sub(tt.Const(w.p), y0)})
}

func checkC17(p *Prog, r *Report) {
	r.Explain = "Every entry point that outputs a key, point, signature or ephemeral value of a Weierstrass curve, evaluated symbolically; the returned bytes must be the concatenation of 32-byte big-endian encodings of the integers concerned, for every value of those integers (so also those with leading zero bytes)."
	r.Assume = []string{"curve methods implement the group (C22)", "math/big implements its documentation"}
	h := newH(p, r)
	tt := h.tt
	arg := func(t *T, st *State) Val { return h.in.sliceArg(t, st) }
	for _, c := range weierCurves {
		w := curveByName(c[1])
		sel, good := h.sel(c[0])
		if !good {
			return
		}
		G := tt.Gen(w)
		sk := h.fix("scalar", 32)
		d := tt.Val(sk)
		if fn := needFn(p, r, "", "", "GenPubkey"); fn != nil {
			key := "GenPubkey/" + c[0]
			if rn := h.run(key, fn, func(st *State) []Val { return []Val{arg(sk, st), sel} }); rn != nil {
				h.outIs(h.sc(fn), key, rn, 0, h.retIs(rn, 1, "SUCCESS"), h.xy(w, tt.PMul(w, d, G)))
			}
		}
		comp := func(R *T, odd bool) *T {
			x, _ := tt.coords(w, R)
			if odd {
				return tt.BCat(tt.BLit("\x03"), tt.BE(x, 32))
			}
			return tt.BCat(tt.BLit("\x02"), tt.BE(x, 32))
		}
		if fn := needFn(p, r, "", "", "Point_mulBaseG"); fn != nil {
			key := "Point_mulBaseG/" + c[0]
			if rn := h.run(key, fn, func(st *State) []Val { return []Val{arg(sk, st), sel} }); rn != nil {
				R := tt.PMul(w, d, G)
				_, y := tt.coords(w, R)
				ok := tt.BNot(rn.IsNil(0))
				h.outIs(h.sc(fn), key+"/odd", rn, 0, tt.BAnd(ok, h.odd(y)), comp(R, true))
				h.outIs(h.sc(fn), key+"/even", rn, 0, tt.BAnd(ok, tt.BNot(h.odd(y))), comp(R, false))
			}
		}
		pA, pB := h.fix("point", 64), h.fix("point2", 64)
		aff := func(b *T, off int64) *T {
			return tt.Aff(w, tt.Mod(h.num32(b, off, tt.True), w.p), tt.Mod(h.num32(b, off+32, tt.True), w.p))
		}
		if fn := needFn(p, r, "", "", "Point_mulBaseG_add"); fn != nil {
			key := "Point_mulBaseG_add/" + c[0]
			if rn := h.run(key, fn, func(st *State) []Val { return []Val{arg(pA, st), arg(sk, st), sel} }); rn != nil {
				h.outIs(h.sc(fn), key, rn, 0, tt.BNot(rn.IsNil(0)), h.xy(w, tt.PLin(w, d, G, tt.Int(1), aff(pA, 0))))
			}
		}
		for _, n := range []int64{64, 65} {
			qA, qB := h.fix(fmt.Sprint("point", n), n), h.fix(fmt.Sprint("point2-", n), n)
			off := n - 64
			if fn := needFn(p, r, "", "", "Point_add"); fn != nil {
				key := fmt.Sprintf("Point_add/%s/%d bytes", c[0], n)
				if rn := h.run(key, fn, func(st *State) []Val { return []Val{arg(qA, st), arg(qB, st), sel} }); rn != nil {
					h.outIs(h.sc(fn), key, rn, 0, h.retIs(rn, 1, "SUCCESS"), h.xy(w, tt.PAdd(w, aff(qA, off), aff(qB, off))))
				}
			}
			if fn := needFn(p, r, "", "", "Point_mul"); fn != nil {
				key := fmt.Sprintf("Point_mul/%s/%d bytes", c[0], n)
				if rn := h.run(key, fn, func(st *State) []Val { return []Val{arg(qA, st), arg(sk, st), sel} }); rn != nil {
					h.outIs(h.sc(fn), key, rn, 0, h.retIs(rn, 1, "SUCCESS"), h.xy(w, tt.PMul(w, d, aff(qA, off))))
				}
			}
		}
		_ = pB
		if fn := needFn(p, r, "", "", "PointCompress"); fn != nil {
			for _, n := range []int64{64, 65} {
				q := h.fix(fmt.Sprint("uncompressed", n), n)
				key := fmt.Sprintf("PointCompress/%s/%d bytes", c[0], n)
				rn := h.run(key, fn, func(st *State) []Val { return []Val{arg(q, st), sel} })
				if rn == nil {
					continue
				}
				s := h.sc(fn)
				ok := tt.BNot(rn.IsNil(0))
				want := tt.True
				if n == 65 {
					want = tt.Eq(h.in.bAt(q, tt.Int(0), tt.True), tt.Int(4))
				}
				s.iff(key+"/accepts", ok, want, rn.st.pc)
				y := h.in.bAt(q, tt.Int(n-1), rn.st.pc)
				x := h.in.bRange(q, tt.Int(n-64), tt.Int(32), rn.st.pc)
				h.outIs(s, key+"/odd", rn, 0, tt.BAnd(ok, h.odd(y)), tt.BCat(tt.BLit("\x03"), x))
				h.outIs(s, key+"/even", rn, 0, tt.BAnd(ok, tt.BNot(h.odd(y))), tt.BCat(tt.BLit("\x02"), x))
			}
		}
		if fn := needFn(p, r, "", "", "PointDecompress"); fn != nil {
			key := "PointDecompress/" + c[0]
			q := h.fix("compressed", 33)
			if rn := h.run(key, fn, func(st *State) []Val { return []Val{arg(q, st), sel} }); rn != nil {
				s := h.sc(fn)
				ok := tt.BNot(rn.IsNil(0))
				pc := h.in.normPC(tt.BAnd(rn.st.pc, ok))
				x := h.num32(q, 1, pc)
				odd := tt.Eq(h.in.bAt(q, tt.Int(0), pc), tt.Int(3))
				h.outIs(s, key+"/odd", rn, 0, tt.BAnd(ok, odd), tt.BCat(tt.BLit("\x04"), tt.BE(x, 32), tt.BE(h.lift(w, x, tt.True), 32)))
				h.outIs(s, key+"/even", rn, 0, tt.BAnd(ok, tt.BNot(odd)), tt.BCat(tt.BLit("\x04"), tt.BE(x, 32), tt.BE(h.lift(w, x, tt.False), 32)))
			}
		}
		if fn := needFn(p, r, "", "", "GetCurveOrder"); fn != nil {
			key := "GetCurveOrder/" + c[0]
			if rn := h.run(key, fn, func(st *State) []Val { return []Val{sel} }); rn != nil {
				h.outIs(h.sc(fn), key, rn, 0, tt.True, tt.BLit(string(w.n.FillBytes(make([]byte, 32)))))
			}
		}
		// signatures
		msg := h.fix("hash", 32)
		key := "Signature/" + c[0]
		h.signCommon(key, c[0], w, func(st *State) Val { return h.in.nilSlice() }, msg, func(s *specCheck, rn *Run, ok, pc *B, k, px, rest, rv, sv *T) {
			e := tt.Val(msg)
			var r0, s0 *T
			if w.name == "sm2" {
				r0 = tt.Mod(tt.Add(px, e), w.n)
				s0 = tt.Mod(tt.Mul(tt.Sub(k, tt.Mul(r0, tt.Val(h.fix("prikey", 32)))), tt.Inv(tt.AddI(tt.Val(h.fix("prikey", 32)), 1), w.n)), w.n)
			} else {
				r0 = tt.Mod(px, w.n)
				s1 := tt.Mod(tt.Mul(tt.Add(e, tt.Mul(r0, tt.Val(h.fix("prikey", 32)))), tt.Inv(k, w.n)), w.n)
				low := tt.Le(s1, tt.Const(new(big.Int).Rsh(w.n, 1)))
				s0 = tt.Choice([]*B{low, tt.BNot(low)}, []*T{s1, tt.Sub(tt.Const(w.n), s1)})
			}
			r.Count("encodings", 1)
			s.ExpectT(key+"/encoding", "the signature", h.in.canonB(rn.Bytes(0, ok), pc), tt.BCat(tt.BE(r0, 32), tt.BE(s0, 32)), pc)
		})
	}
	h.ephemerals()
	r.Min["encodings"] = 45
}

// ephemerals: the ephemeral public keys and points SM2 operations output.
func (h *H) ephemerals() {
	tt := h.tt
	w := curveByName("sm2")
	sel, _ := h.sel(sm2Sel)
	one := func(s *specCheck, key string, got *T, off, n int64, pc *B) {
		if !s.Expect(key+"/length", tt.Eq(got.len, tt.Int(n)), pc, h.detail("the result has another length", got)) {
			return
		}
		k, _, rest, found := h.nonceOf(w, h.num32(got, off, pc))
		if !found || !rest.IsConst() || rest.c.Sign() != 0 {
			h.r.Bad(key+"/encoding", s.pos, "the abscissa field does not hold the abscissa of a multiple of the base point: "+clip(got.String(), 500))
			return
		}
		h.r.Count("encodings", 1)
		s.ExpectT(key+"/encoding", "the ephemeral point", h.in.bRange(got, tt.Int(off), tt.Int(64), pc), h.xy(w, tt.PMul(w, k, tt.Gen(w))), pc)
	}
	if fn := needFn(h.p, h.r, "", "", "KeyAgreement_initiator_step1"); fn != nil {
		key := "KeyAgreement_initiator_step1"
		if rn := h.run(key, fn, func(st *State) []Val { return []Val{sel} }); rn != nil {
			s := h.sc(fn)
			ok := tt.BNot(rn.IsNil(0))
			pc := h.in.normPC(tt.BAnd(rn.st.pc, ok))
			if h.in.feasible(pc) {
				sk := h.in.canonB(rn.Bytes(0, ok), pc)
				s.Expect(key+"/secret length", tt.Eq(sk.len, tt.Int(32)), pc, h.detail("the ephemeral secret", sk))
				one(s, key, h.in.canonB(rn.Bytes(1, ok), pc), 0, 64, pc)
			}
		}
	}
	for _, role := range kaRoles[1:] {
		if k := h.runKA(role, 16); k != nil {
			one(k.s, role.key, h.in.canonB(k.rn.Bytes(1, k.ok), k.pc), 0, 64, k.pc)
		}
	}
	if fn := needFn(h.p, h.r, "", "", "Encryption"); fn != nil {
		key := "Encryption"
		rn := h.run(key, fn, func(st *State) []Val {
			return []Val{h.in.sliceArg(h.fix("pubkey", 64), st), h.in.sliceArg(h.fix("plain", 5), st), sel}
		})
		if rn != nil {
			s := h.sc(fn)
			ok := h.retIs(rn, 1, "SUCCESS")
			pc := h.in.normPC(tt.BAnd(rn.st.pc, ok))
			if h.in.feasible(pc) {
				one(s, key, h.in.canonB(rn.Bytes(0, ok), pc), 1, 97+5, pc)
			}
		}
	}
}

func checkC18(p *Prog, r *Report) {
	r.Explain = "PointDecompress and RecoverPubkey for every Weierstrass selector over inputs of any length, evaluated symbolically: the condition under which a point is returned is compared with the decoding rule as a decision diagram, the returned coordinates with the curve equation's root of the requested parity; a recovered key must be the formal combination of points the signature equation fixes, and recovery must imply every verification condition."
	r.Assume = []string{"curve methods implement the group (C22)", "big.Int.ModSqrt returns a root exactly for squares"}
	h := newH(p, r)
	tt := h.tt
	for _, c := range weierCurves {
		w := curveByName(c[1])
		sel, good := h.sel(c[0])
		if !good {
			return
		}
		if fn := needFn(p, r, "", "", "PointDecompress"); fn != nil {
			key := "PointDecompress/" + c[0]
			q := h.sym("point")
			if rn := h.run(key, fn, func(st *State) []Val { return []Val{h.in.sliceArg(q, st), sel} }); rn != nil {
				s := h.sc(fn)
				ok := tt.BNot(rn.IsNil(0))
				r.Count("decompressions", 1)
				s.Expect(key+"/length", tt.BOr(tt.BNot(ok), h.lenIs(q, 33)), rn.st.pc, nil)
				pc := h.in.normPC(tt.BAnd(rn.st.pc, h.lenIs(q, 33)))
				x := h.num32(q, 1, pc)
				b0 := h.in.bAt(q, tt.Int(0), pc)
				odd := tt.Eq(b0, tt.Int(3))
				// no point of a curve of odd order has ordinate 0, so both parities exist
				sq := tt.IsSquare(h.rhs(w, x), w.p)
				nz := tt.BNot(tt.Eq0(tt.Sqrt(h.rhs(w, x), w.p)))
				pc = h.in.normPC(tt.BAnd(pc, tt.BOr(tt.BNot(sq), nz)))
				h.acceptance(s, key, ok, pc, []namedB{
					{"prefix 2 or 3", tt.BOr(tt.Eq(b0, tt.Int(2)), odd)},
					{"abscissa reduced", tt.Lt(x, tt.Const(w.p))},
					{"point exists", sq},
				})
				a := h.in.normPC(tt.BAnd(pc, ok))
				if h.in.feasible(a) {
					got := h.in.canonB(rn.Bytes(0, ok), a)
					s.ExpectT(key+"/odd", "the point", got, tt.BCat(tt.BLit("\x04"), tt.BE(x, 32), tt.BE(h.lift(w, x, tt.True), 32)), h.in.normPC(tt.BAnd(a, odd)))
					s.ExpectT(key+"/even", "the point", got, tt.BCat(tt.BLit("\x04"), tt.BE(x, 32), tt.BE(h.lift(w, x, tt.False), 32)), h.in.normPC(tt.BAnd(a, tt.BNot(odd))))
				}
			}
		}
		h.recovery("RecoverPubkey/"+c[0], c[0], w)
	}
	r.Min["decompressions"] = 3
	r.Min["recoveries"] = 3
}

func (h *H) recovery(key, selName string, w *wcurve) {
	tt := h.tt
	fn := needFn(h.p, h.r, "", "", "RecoverPubkey")
	sel, _ := h.sel(selName)
	if fn == nil {
		return
	}
	sig, msg := h.sym("sig"), h.sym("msg")
	rn := h.run(key, fn, func(st *State) []Val {
		return []Val{h.in.sliceArg(sig, st), h.in.sliceArg(msg, st), sel}
	})
	if rn == nil {
		return
	}
	h.r.Count("recoveries", 1)
	s := h.sc(fn)
	ok := h.retIs(rn, 1, "SUCCESS")
	lens := tt.BAnd(h.lenIs(sig, 65), h.lenIs(msg, 32))
	s.Expect(key+"/lengths", tt.BOr(tt.BNot(ok), lens), rn.st.pc, nil)
	s.iff(key+"/failure returns nothing", rn.IsNil(0), tt.BNot(ok), rn.st.pc)
	pc := h.in.normPC(tt.BAnd(rn.st.pc, lens))
	rv, sv, e := h.num32(sig, 0, pc), h.num32(sig, 32, pc), h.num32(msg, 0, pc)
	v := h.in.bAt(sig, tt.Int(64), pc)
	for bit := int64(0); bit < 2; bit++ {
		k := fmt.Sprintf("%s/recovery bit %d", key, bit)
		c := h.in.normPC(tt.BAnd(pc, tt.Eq(v, tt.Int(bit))))
		x1 := rv
		if w.name == "sm2" {
			x1 = tt.Mod(tt.Sub(rv, e), w.n)
		}
		odd := tt.False
		if bit == 1 {
			odd = tt.True
		}
		if w.name == "sm2" {
			// R has the stated parity
		}
		Ry := h.lift(w, x1, odd)
		a := h.in.normPC(tt.BAnd(c, ok))
		if !h.in.feasible(a) {
			h.r.Bad(k+"/succeeds", s.pos, "never succeeds")
			continue
		}
		got := h.in.canonB(rn.Bytes(0, ok), a)
		y := h.in.res(Ry, a)
		R := tt.Aff(w, x1, y)
		if alts := h.in.over(Ry, a); len(alts) > 1 {
			for i, al := range alts {
				aa := h.in.normPC(tt.BAnd(a, al.g))
				h.recoveredIs(s, fmt.Sprintf("%s/%d", k, i), w, got, tt.Aff(w, x1, al.v.(*T)), rv, sv, e, ok, aa)
			}
		} else {
			h.recoveredIs(s, k, w, got, R, rv, sv, e, ok, a)
		}
		h.r.Count("recovery_bits", 1)
		s.Expect(k+"/abscissa exists", tt.BAnd(tt.Lt(x1, tt.Const(w.p)), tt.IsSquare(h.rhs(w, x1), w.p)), a, func() string { return "recovers from an abscissa that belongs to no point" })
	}
	s.Expect(key+"/halves in range", tt.BOr(tt.BNot(ok), tt.BAnd(h.inRange(rv, w.n), h.inRange(sv, w.n))), pc, func() string { return "recovers from halves outside [1, n-1]" })
	s.Expect(key+"/recovery bit", tt.BOr(tt.BNot(ok), tt.Lt(v, tt.Int(2))), pc, func() string { return "accepts a recovery byte other than 0 and 1" })
}

func (h *H) recoveredIs(s *specCheck, key string, w *wcurve, got, R, rv, sv, e *T, ok, pc *B) {
	tt := h.tt
	G := tt.Gen(w)
	var Q *T
	if w.name == "sm2" {
		// R = sG + (r+s)Q
		ti := tt.Inv(tt.Add(rv, sv), w.n)
		Q = tt.PLin(w, ti, R, tt.Neg(tt.Mul(sv, ti)), G)
	} else {
		ri := tt.Inv(rv, w.n)
		Q = tt.PLin(w, tt.Mul(sv, ri), R, tt.Neg(tt.Mul(e, ri)), G)
	}
	qx, qy := tt.coords(w, Q)
	s.ExpectT(key+"/key", "the recovered key", got, tt.BCat(tt.BE(qx, 32), tt.BE(qy, 32)), pc)
}
