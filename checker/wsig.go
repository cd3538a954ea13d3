package main

import (
	"math/big"
)

// C08, C09: the signature equations of the Weierstrass curves.

func (h *H) onCurve(w *wcurve, x, y *T) *B {
	tt := h.tt
	return tt.BAll(tt.Lt(x, tt.Const(w.p)), tt.Lt(y, tt.Const(w.p)), tt.OnCurve(w, x, y))
}

func (h *H) inRange(x *T, n *big.Int) *B {
	return h.tt.BAnd(h.tt.Lt(h.tt.Int(0), x), h.tt.Lt(x, h.tt.Const(n)))
}

// nonceOf: t = px(kG) + rest (mod n): returns k and rest.
func (h *H) nonceOf(w *wcurve, t *T) (k, px, rest *T, ok bool) {
	tt := h.tt
	if t.op == "mod" {
		t = t.args[0]
	}
	for _, a := range atomList("px", []*T{t}) {
		if a.s != w.name {
			continue
		}
		co, rs, lin := tt.linPart(t, a)
		if co.Cmp(big1) != 0 || !lin {
			continue
		}
		P := pointPoly(a.args[0])
		// P = k * G
		var ms []mono
		good := true
		for _, m := range P.monos() {
			gi := -1
			for i, v := range m.vs {
				if v.op == "G" && v.s == w.name {
					gi = i
				} else if v.op == "aff" || v.op == "G" {
					good = false
				}
			}
			if gi < 0 {
				good = false
				break
			}
			vs := append(append([]*T{}, m.vs[:gi]...), m.vs[gi+1:]...)
			ms = append(ms, mono{m.co, vs})
		}
		if !good {
			continue
		}
		return tt.fromList(ms), a, rs, true
	}
	return nil, nil, nil, false
}

var ecdsaCurves = [][2]string{{"ECC_CURVE_SECP256K1", "secp256k1"}, {"ECC_CURVE_SECP256R1", "secp256r1"}}

func (h *H) lensOK(l ...*B) *B { return h.tt.BAll(l...) }

func (h *H) signCommon(key, selName string, w *wcurve, id func(st *State) Val, msg *T, eq func(s *specCheck, rn *Run, ok *B, pc *B, k, px, rest, r, s2 *T)) {
	tt := h.tt
	fn := needFn(h.p, h.r, "", "", "Signature")
	sel, good := h.sel(selName)
	if fn == nil || !good {
		return
	}
	sk := h.fix("prikey", 32)
	rn := h.run(key, fn, func(st *State) []Val {
		return []Val{h.in.sliceArg(sk, st), id(st), h.in.sliceArg(msg, st), sel}
	})
	if rn == nil {
		return
	}
	s := h.sc(fn)
	ok := h.retIs(rn, 2, "SUCCESS")
	pc := tt.BAnd(rn.st.pc, ok)
	if !h.in.feasible(pc) {
		h.r.Bad(key+"/succeeds", s.pos, "signing never succeeds")
		return
	}
	h.r.Count("signing_paths", 1)
	sig := rn.Bytes(0, ok)
	if !s.Expect(key+"/length", tt.Eq(sig.len, tt.Int(64)), pc, h.detail("signature", sig)) {
		return
	}
	rT := h.num32(sig, 0, pc)
	sT := h.num32(sig, 32, pc)
	for i, a := range h.in.over(rT, pc) {
		c := tt.BAnd(pc, a.g)
		r := a.v.(*T)
		if u := unknownT(r, map[*T]bool{}); u != "" {
			h.r.Undecided(key+"/r", "depends on "+u)
			return
		}
		k, px, rest, found := h.nonceOf(w, r)
		if !found {
			h.r.Bad(key+"/r", s.pos, "the first half is "+clip(r.String(), 500)+", which is not built from the abscissa of kG")
			return
		}
		_ = i
		eq(s, rn, ok, c, k, px, rest, r, h.in.res(sT, c))
	}
}

func checkC08(p *Prog, r *Report) {
	r.Explain = "Signature and Verify for the two ECDSA selectors, evaluated symbolically with abstract group arithmetic: the acceptance condition over unconstrained key, digest and signature bytes (every length) is compared with the ECDSA conditions as one decision diagram; each produced (r, s, v) is compared with the signing equations for the nonce k recovered from r = x(kG)."
	r.Assume = []string{"curve methods implement the group (C22)", "crypto/elliptic and math/big implement their documentation", "abscissa/ordinate of a combination of points are treated as unconstrained numbers below p"}
	h := newH(p, r)
	tt := h.tt
	for _, c := range ecdsaCurves {
		w := curveByName(c[1])
		N := tt.Const(w.n)
		half := tt.Const(new(big.Int).Rsh(w.n, 1))
		msg := h.fix("hash", 32)
		e := tt.Val(msg)
		d := tt.Val(h.fix("prikey", 32))
		key := "Signature/" + c[0]
		h.signCommon(key, c[0], w, func(st *State) Val { return h.in.sliceArg(h.sym("ID"), st) }, msg, func(s *specCheck, rn *Run, ok, pc *B, k, px, rest, rv, sv *T) {
			s.ExpectT(key+"/r", "r", rv, tt.Mod(px, w.n), pc)
			s.Expect(key+"/r-nonzero", tt.BNot(tt.Eq0(rv)), pc, h.detail("r may be zero", rv))
			s0 := tt.Mod(tt.Mul(tt.Add(e, tt.Mul(rv, d)), tt.Inv(k, w.n)), w.n)
			low := tt.Le(s0, half)
			want := tt.Choice([]*B{low, tt.BNot(low)}, []*T{s0, tt.Sub(N, s0)})
			// either sign is a valid second half ...
			neg := tt.Mod(tt.Neg(s0), w.n)
			s.Expect(key+"/s", tt.BOr(tt.Eq(sv, s0), tt.BOr(tt.Eq(sv, tt.Sub(N, s0)), tt.Eq(sv, neg))), pc, h.detail("s is "+clip(sv.String(), 400)+", must be plus or minus", s0))
			// ... but only the low one is allowed
			s.ExpectT(key+"/low-s", "s", sv, want, pc)
			s.Expect(key+"/s-nonzero", tt.BNot(tt.Eq0(sv)), pc, h.detail("s may be zero", sv))
			_, py := tt.coords(w, tt.PMul(w, k, tt.Gen(w)))
			odd := tt.BNot(tt.Eq0(tt.Mod(py, bi(2))))
			v := rn.Int(1, ok)
			s.iff(key+"/v", tt.Eq(v, tt.Int(1)), tt.BXor(odd, tt.BNot(low)), pc)
			s.iff(key+"/v0", tt.Eq(v, tt.Int(0)), tt.BNot(tt.BXor(odd, tt.BNot(low))), pc)
		})
		h.verifyECDSA("Verify/"+c[0], c[0], w)
	}
	r.Min["signing_paths"] = 2
	r.Min["verify_paths"] = 2
}

func (h *H) verifyECDSA(key, selName string, w *wcurve) {
	tt := h.tt
	fn := needFn(h.p, h.r, "", "", "Verify")
	sel, good := h.sel(selName)
	if fn == nil || !good {
		return
	}
	pub, msg, sig := h.sym("pubkey"), h.sym("hash"), h.sym("signature")
	rn := h.run(key, fn, func(st *State) []Val {
		return []Val{h.in.sliceArg(pub, st), h.in.sliceArg(h.sym("ID"), st), h.in.sliceArg(msg, st), h.in.sliceArg(sig, st), sel}
	})
	if rn == nil {
		return
	}
	s := h.sc(fn)
	acc := h.retIs(rn, 0, "SUCCESS")
	h.r.Count("verify_paths", 1)
	lens := tt.BAll(h.lenIs(pub, 64), h.lenIs(msg, 32), h.lenIs(sig, 64))
	s.Expect(key+"/lengths", tt.BOr(tt.BNot(acc), lens), rn.st.pc, nil)
	pc := tt.BAnd(rn.st.pc, lens)
	r, sv := h.num32(sig, 0, pc), h.num32(sig, 32, pc)
	x, y := h.num32(pub, 0, pc), h.num32(pub, 32, pc)
	e := h.num32(msg, 0, pc)
	inv := tt.Inv(sv, w.n)
	R := tt.PLin(w, tt.Mul(e, inv), tt.Gen(w), tt.Mul(r, inv), tt.Aff(w, x, y))
	rx, ry := tt.coords(w, R)
	ranges := tt.BAnd(h.inRange(r, w.n), h.inRange(sv, w.n))
	on := h.onCurve(w, x, y)
	fin := tt.BNot(tt.BAnd(tt.Eq0(rx), tt.Eq0(ry)))
	eqn := tt.Eq(tt.Mod(rx, w.n), r)
	h.acceptance(s, key, acc, pc, []namedB{{"range", ranges}, {"public key on curve", on}, {"not infinity", fin}, {"equation", eqn}})
}

type namedB struct {
	n string
	b *B
}

// acceptance compares an acceptance condition with a conjunction, naming the
// conjunct that is not enforced.
func (h *H) acceptance(s *specCheck, key string, acc, pc *B, parts []namedB) {
	tt := h.tt
	all := pc
	for _, q := range parts {
		s.Expect(key+"/requires "+q.n, tt.BOr(tt.BNot(acc), h.in.decide(q.b, all)), all, func() string {
			return "accepts without: " + q.n + " (" + clip(witness(tt, tt.BAnd(all, tt.BNot(h.in.decide(q.b, all)))), 600) + ")"
		})
		all = h.in.normPC(tt.BAnd(all, h.in.decide(q.b, all)))
	}
	s.Expect(key+"/complete", acc, all, func() string {
		return "refuses a signature that meets every condition when " + clip(witness(tt, tt.BAnd(all, tt.BNot(acc))), 900)
	})
}

func init() { checks["C08"] = checkC08; checks["C09"] = checkC09 }

func checkC09(p *Prog, r *Report) {
	r.Explain = "Signature and Verify for the SM2 selector without identifier (the digest is the caller's), evaluated as for C08 and compared with GB/T 32918.2."
	r.Assume = []string{"curve methods implement the group (C22)", "math/big implements its documentation", "abscissa/ordinate of a combination of points are treated as unconstrained numbers below p"}
	h := newH(p, r)
	tt := h.tt
	w := curveByName("sm2")
	N := tt.Const(w.n)
	sel := "ECC_CURVE_SM2_STANDARD"
	msg := h.fix("hash", 32)
	e := tt.Val(msg)
	d := tt.Val(h.fix("prikey", 32))
	key := "Signature/" + sel
	h.signCommon(key, sel, w, func(st *State) Val { return h.in.nilSlice() }, msg, func(s *specCheck, rn *Run, ok, pc *B, k, px, rest, rv, sv *T) {
		s.ExpectT(key+"/r", "r", rv, tt.Mod(tt.Add(px, e), w.n), pc)
		s.Expect(key+"/r-nonzero", tt.BNot(tt.Eq0(rv)), pc, h.detail("r may be zero", rv))
		s.Expect(key+"/r+k-nonzero", tt.BNot(tt.ZeroMod(tt.Add(rv, k), w.n)), pc, h.detail("r+k may be zero, k is", k))
		s0 := tt.Mod(tt.Mul(tt.Sub(k, tt.Mul(rv, d)), tt.Inv(tt.AddI(d, 1), w.n)), w.n)
		s.ExpectT(key+"/s", "s", sv, s0, pc)
		s.Expect(key+"/s-nonzero", tt.BNot(tt.Eq0(sv)), pc, h.detail("s may be zero", sv))
		s.Expect(key+"/1+d-invertible", tt.BNot(tt.ZeroMod(tt.AddI(d, 1), w.n)), pc, nil)
		_, py := tt.coords(w, tt.PMul(w, k, tt.Gen(w)))
		odd := tt.BNot(tt.Eq0(tt.Mod(py, bi(2))))
		s.iff(key+"/v", tt.Eq(rn.Int(1, ok), tt.Int(1)), odd, pc)
	})
	key = "Verify/" + sel
	fn := needFn(p, r, "", "", "Verify")
	selT, good := h.sel(sel)
	if fn == nil || !good {
		return
	}
	pub, sig := h.sym("pubkey"), h.sym("signature")
	msgS := h.sym("hash")
	rn := h.run(key, fn, func(st *State) []Val {
		return []Val{h.in.sliceArg(pub, st), h.in.nilSlice(), h.in.sliceArg(msgS, st), h.in.sliceArg(sig, st), selT}
	})
	if rn == nil {
		return
	}
	s := h.sc(fn)
	acc := h.retIs(rn, 0, "SUCCESS")
	h.r.Count("verify_paths", 1)
	lens := tt.BAll(h.lenIs(pub, 64), h.lenIs(msgS, 32), h.lenIs(sig, 64))
	s.Expect(key+"/lengths", tt.BOr(tt.BNot(acc), lens), rn.st.pc, nil)
	pc := tt.BAnd(rn.st.pc, lens)
	rv, sv := h.num32(sig, 0, pc), h.num32(sig, 32, pc)
	x, y := h.num32(pub, 0, pc), h.num32(pub, 32, pc)
	ev := h.num32(msgS, 0, pc)
	t := tt.Add(rv, sv)
	R := tt.PLin(w, sv, tt.Gen(w), t, tt.Aff(w, x, y))
	rx, ry := tt.coords(w, R)
	h.acceptance(s, key, acc, pc, []namedB{
		{"range", tt.BAnd(h.inRange(rv, w.n), h.inRange(sv, w.n))},
		{"r + s nonzero", tt.BNot(tt.Eq(t, N))},
		{"public key on curve", h.onCurve(w, x, y)},
		{"not infinity", tt.BNot(tt.BAnd(tt.Eq0(rx), tt.Eq0(ry)))},
		{"equation", tt.Eq(tt.Mod(tt.Add(ev, rx), w.n), rv)},
	})
	r.Min["signing_paths"] = 1
	r.Min["verify_paths"] = 1
}
