package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C10, C11, C12: SM2 identity digests, encryption and key agreement.

func init() { checks["C10"] = checkC10; checks["C11"] = checkC11; checks["C12"] = checkC12 }

func (tt *Terms) sm3(parts ...*T) *T { return tt.BHash("sm3", 32, tt.BCat(parts...)) }

// sm2ZA: SM3(ENTL || ID || a || b || Gx || Gy || x || y).
func (h *H) sm2ZA(id, x, y *T, pc *B) *T {
	tt := h.tt
	w := curveByName("sm2")
	c := func(b *big.Int) *T {
		return tt.BLit(string(new(big.Int).Mod(b, w.p).FillBytes(make([]byte, 32))))
	}
	return h.in.canonB(tt.sm3(tt.BE(tt.Mul(tt.Int(8), id.len), 2), id, c(w.a), c(w.b), c(w.gx), c(w.gy), tt.BE(x, 32), tt.BE(y, 32)), pc)
}

// digests splits the sm3 atoms of some terms into those whose input contains
// no further sm3 digest and those built on top of them.
func (h *H) digests(ts []*T, cs ...*B) (leaf, inner []*T) {
	for _, d := range atomList("hash", ts, cs...) {
		if d.s != "sm3" {
			continue
		}
		sub := atomList("hash", d.args)
		n := 0
		for _, x := range sub {
			if x.s == "sm3" {
				n++
			}
		}
		if n == 0 {
			leaf = append(leaf, d)
		} else {
			inner = append(inner, d)
		}
	}
	return
}

func (s *specCheck) leafIs(key string, leaf []*T, want []*T, names []string, pc *B) {
	in, tt := s.in, s.in.tt
	used := make([]bool, len(want))
	for _, l := range leaf {
		// digests over other paths may be present in the condition diagram: decide
		// each under pc.
		hit := tt.False
		for i, w := range want {
			e := in.EqT(l, w, pc)
			if e != tt.True && in.sameRandom(l, w, pc) {
				e = tt.True
			}
			if e == tt.True {
				used[i] = true
			}
			hit = tt.BOr(hit, e)
		}
		s.Expect(key+"/identity digest", hit, pc, func() string {
			return "an identity digest hashes " + clip(l.args[0].String(), 500) + "; expected one of " + clip(fmt.Sprint(want), 1500)
		})
	}
	for i := range want {
		if !used[i] {
			found := false
			for _, l := range leaf {
				if s.in.feasible(tt.BAnd(pc, in.EqT(l, want[i], pc))) {
					found = true
				}
			}
			if !found {
				s.r.Bad(key+"/"+names[i], s.pos, "the identity value of "+names[i]+" is never computed; expected a digest of "+clip(want[i].args[0].String(), 500))
			}
		}
	}
}

const sm2Sel = "ECC_CURVE_SM2_STANDARD"

func checkC10(p *Prog, r *Report) {
	r.Explain = "Signature, Verify and both key-agreement roles for the SM2 selector with an identifier of unconstrained bytes and length, evaluated symbolically: every innermost SM3 digest that reaches a result (or the acceptance condition) must hash exactly the standard's identity transcript of the party concerned, and signing/verification must hash exactly ZA followed by the message on top of it."
	r.Assume = []string{"curve methods implement the group (C22)", "the SM3 object implements the hash contract (C19)"}
	h := newH(p, r)
	tt := h.tt
	w := curveByName("sm2")
	sel, good := h.sel(sm2Sel)
	if !good {
		return
	}
	// signing
	if fn := needFn(p, r, "", "", "Signature"); fn != nil {
		sk, id, msg := h.fix("prikey", 32), h.sym("ID"), h.sym("message")
		key := "Signature"
		rn := h.run(key, fn, func(st *State) []Val {
			return []Val{h.in.sliceArg(sk, st), h.in.sliceArg(id, st), h.in.sliceArg(msg, st), sel}
		})
		if rn != nil {
			s := h.sc(fn)
			ok := h.retIs(rn, 2, "SUCCESS")
			pc := h.in.normPC(tt.BAnd(rn.st.pc, ok))
			s.Expect(key+"/identifier length", tt.BOr(tt.BNot(ok), tt.Lt(id.len, tt.Int(8192))), rn.st.pc, func() string {
				return "signs with an identifier whose bit length does not fit 16 bits"
			})
			pc = h.in.normPC(tt.BAnd(pc, tt.Lt(id.len, tt.Int(8192))))
			x, y := tt.coords(w, tt.PMul(w, tt.Val(sk), tt.Gen(w)))
			za := h.sm2ZA(id, x, y, pc)
			sig := rn.Bytes(0, ok)
			rT := h.num32(sig, 0, pc)
			leaf, inner := h.digests([]*T{h.in.deepRes(rT, pc)})
			s.leafIs(key, leaf, []*T{za}, []string{"the signer"}, pc)
			h.innerIs(s, key, inner, h.in.canonB(tt.sm3(za, msg), pc), pc)
		}
	}
	if fn := needFn(p, r, "", "", "Verify"); fn != nil {
		pub, id, msg, sig := h.fix("pubkey", 64), h.sym("ID"), h.sym("message"), h.fix("signature", 64)
		key := "Verify"
		rn := h.run(key, fn, func(st *State) []Val {
			return []Val{h.in.sliceArg(pub, st), h.in.sliceArg(id, st), h.in.sliceArg(msg, st), h.in.sliceArg(sig, st), sel}
		})
		if rn != nil {
			s := h.sc(fn)
			acc := h.retIs(rn, 0, "SUCCESS")
			s.Expect(key+"/identifier length", tt.BOr(tt.BNot(acc), tt.Lt(id.len, tt.Int(8192))), rn.st.pc, nil)
			pc := h.in.normPC(tt.BAll(rn.st.pc, acc, tt.Lt(id.len, tt.Int(8192))))
			za := h.sm2ZA(id, h.num32(pub, 0, pc), h.num32(pub, 32, pc), pc)
			leaf, inner := h.digests(nil, h.in.decide(acc, h.in.normPC(tt.BAnd(rn.st.pc, tt.Lt(id.len, tt.Int(8192))))))
			s.leafIs(key, leaf, []*T{za}, []string{"the signer"}, pc)
			h.innerIs(s, key, inner, h.in.canonB(tt.sm3(za, msg), pc), pc)
		}
	}
	for _, role := range kaRoles {
		k := h.runKA(role, 16)
		if k == nil {
			continue
		}
		pc := h.in.normPC(tt.BAnd(k.pc, tt.BAnd(tt.Lt(k.idI.len, tt.Int(8192)), tt.Lt(k.idR.len, tt.Int(8192)))))
		k.s.Expect(role.key+"/identifier length", tt.BAnd(tt.Lt(k.idI.len, tt.Int(8192)), tt.Lt(k.idR.len, tt.Int(8192))), k.pc, nil)
		zi, zr := k.ids(pc)
		var ts []*T
		for _, i := range role.outs {
			ts = append(ts, h.in.canonB(k.rn.Bytes(i, k.ok), pc))
		}
		leaf, _ := h.digests(ts)
		k.s.leafIs(role.key, leaf, []*T{zi, zr}, []string{"the initiator", "the responder"}, pc)
	}
	r.Min["entry_point_classes"] = 5
}

// deepRes resolves the choices of a term under pc.
func (in *Interp) deepRes(t *T, pc *B) *T {
	if isBytes(t) {
		return in.canonB(t, pc)
	}
	return in.res(t, pc)
}

func (h *H) innerIs(s *specCheck, key string, inner []*T, want *T, pc *B) {
	tt := h.tt
	if len(inner) == 0 {
		s.r.Bad(key+"/message digest", s.pos, "no digest over the identity value and the message reaches the equation")
	}
	for _, d := range inner {
		e := s.in.EqT(d, want, pc)
		if e != tt.True && s.in.sameRandom(d, want, pc) {
			e = tt.True
		}
		s.Expect(key+"/message digest", e, pc, func() string {
			return "the message digest hashes " + clip(d.args[0].String(), 500) + ", must be the identity value followed by the message"
		})
	}
	_ = tt
}

// ---- key agreement ----

type kaRole struct {
	key, fn   string
	initiator bool
	outs      []int // byte results carrying the key and the tags
}

var kaRoles = []kaRole{
	{"KeyAgreement_initiator_step2", "KeyAgreement_initiator_step2", true, []int{0, 1}},
	{"KeyAgreement_responder_step1", "KeyAgreement_responder_step1", false, []int{0, 2, 3}},
	{"KeyAgreement_responder_ElGamal_step1", "KeyAgreement_responder_ElGamal_step1", false, []int{0, 2, 3}},
}

type kaRun struct {
	h                                *H
	role                             kaRole
	rn                               *Run
	s                                *specCheck
	fn                               *ssa.Function
	ok, pc                           *B
	idI, idR                         *T
	sk, pkI, pkR, tsk, tpI, tpR, sin *T
}

func (h *H) runKA(role kaRole, keylen int64) *kaRun {
	tt := h.tt
	fn := needFn(h.p, h.r, "", "", role.fn)
	sel, good := h.sel(sm2Sel)
	if fn == nil || !good {
		return nil
	}
	k := &kaRun{h: h, role: role, fn: fn}
	k.idI, k.idR = h.sym("IDinitiator"), h.sym("IDresponder")
	k.sk, k.pkI, k.pkR = h.fix("prikey", 32), h.fix("pubkeyInitiator", 64), h.fix("pubkeyResponder", 64)
	k.tsk, k.tpI, k.tpR, k.sin = h.fix("tmpPrikey", 32), h.fix("tmpPubkeyInitiator", 64), h.fix("tmpPubkeyResponder", 64), h.fix("Sin", 32)
	a := func(t *T, st *State) Val { return h.in.sliceArg(t, st) }
	key := fmt.Sprintf("%s/keylen %d", role.key, keylen)
	rn := h.run(key, fn, func(st *State) []Val {
		switch {
		case role.initiator:
			return []Val{a(k.idI, st), a(k.idR, st), a(k.sk, st), a(k.pkI, st), a(k.pkR, st), a(k.tsk, st), a(k.tpI, st), a(k.tpR, st), a(k.sin, st), tt.Int(keylen), sel}
		case role.fn == "KeyAgreement_responder_step1":
			return []Val{a(k.idI, st), a(k.idR, st), a(k.sk, st), a(k.pkR, st), a(k.pkI, st), a(k.tpI, st), tt.Int(keylen), sel}
		}
		return []Val{a(k.idI, st), a(k.idR, st), a(k.sk, st), a(k.pkR, st), a(k.pkI, st), a(k.tpI, st), tt.Int(keylen), a(k.tsk, st), sel}
	})
	if rn == nil {
		return nil
	}
	k.rn, k.s = rn, h.sc(fn)
	k.ok = h.retIs(rn, len(rn.res)-1, "SUCCESS")
	k.pc = h.in.normPC(tt.BAnd(rn.st.pc, k.ok))
	if !h.in.feasible(k.pc) {
		h.r.Bad(key+"/succeeds", k.s.pos, "never succeeds")
		return nil
	}
	return k
}

func (k *kaRun) ids(pc *B) (zi, zr *T) {
	h := k.h
	zi = h.sm2ZA(k.idI, h.num32(k.pkI, 0, pc), h.num32(k.pkI, 32, pc), pc)
	zr = h.sm2ZA(k.idR, h.num32(k.pkR, 0, pc), h.num32(k.pkR, 32, pc), pc)
	return
}

// avf: 2^127 + the low 127 bits of the abscissa of an encoded point.
func (h *H) avf(R *T, pc *B) *T {
	tt := h.tt
	b := tt.Or(h.in.bAt(R, tt.Int(16), pc), tt.Int(0x80), 8)
	return tt.Val(tt.BCat(tt.BByte(b), h.in.bRange(R, tt.Int(17), tt.Int(15), pc)))
}

// sm2KDF: SM3(z||1) || SM3(z||2) || ... truncated to n bytes.
func (h *H) sm2KDF(n int64, z ...*T) *T {
	tt := h.tt
	var l []*T
	for ct := int64(1); (ct-1)*32 < n; ct++ {
		d := tt.sm3(append(append([]*T{}, z...), tt.BE(tt.Int(ct), 4))...)
		if m := n - (ct-1)*32; m < 32 {
			d = tt.bsub(d, tt.Int(0), tt.Int(m))
		}
		l = append(l, d)
	}
	return tt.BCat(l...)
}

func checkC12(p *Prog, r *Report) {
	r.Explain = "Both roles of the SM2 key exchange evaluated symbolically for several key lengths with unconstrained keys, ephemeral values and identifiers: the shared point is compared as a formal combination of points, the key and the confirmation values as digest transcripts, and the success condition as a decision diagram."
	r.Assume = []string{"curve methods implement the group (C22)", "the SM3 object implements the hash contract (C19)", "the identity values themselves are C10"}
	h := newH(p, r)
	tt := h.tt
	w := curveByName("sm2")
	for _, role := range kaRoles {
		for _, kl := range []int64{16, 0, 1, 31, 32, 33, 48, 64, 65, 100, 255, 8191, 8192, 8200} {
			k := h.runKA(role, kl)
			if k == nil {
				continue
			}
			key := fmt.Sprintf("%s/keylen %d", role.key, kl)
			s := k.s
			short := tt.BAll(tt.Lt(k.idI.len, tt.Int(8192)), tt.Lt(k.idR.len, tt.Int(8192)), tt.Lt(tt.Int(0), k.idI.len), tt.Lt(tt.Int(0), k.idR.len))
			pc0 := h.in.normPC(tt.BAnd(k.rn.st.pc, short))
			pc := h.in.normPC(tt.BAnd(k.pc, short))
			if !h.in.feasible(pc) {
				r.Bad(key+"/succeeds", s.pos, "never succeeds")
				continue
			}
			RI, RR := k.tpI, k.tpR
			var tk *T
			given := tt.True
			if role.initiator {
				tk = tt.Val(k.tsk)
			} else {
				RR = h.in.canonB(k.rn.Bytes(1, k.ok), pc)
				if !s.Expect(key+"/ephemeral key length", tt.Eq(RR.len, tt.Int(64)), pc, h.detail("responder's ephemeral key", RR)) {
					continue
				}
				kk, _, rest, found := h.nonceOf(w, h.num32(RR, 0, pc))
				if !found || !rest.IsConst() {
					r.Bad(key+"/ephemeral key", s.pos, "the responder's ephemeral public key is "+clip(RR.String(), 400)+", not a multiple of the base point")
					continue
				}
				_, ey := tt.coords(w, tt.PMul(w, kk, tt.Gen(w)))
				s.ExpectT(key+"/ephemeral ordinate", "the ordinate", h.num32(RR, 32, pc), ey, pc)
				tk = kk
				if role.fn == "KeyAgreement_responder_ElGamal_step1" {
					s.Expect(key+"/given ephemeral", tt.Eq(kk, tt.Val(k.tsk)), pc, h.detail("the ephemeral secret is", kk))
					given = h.inRange(tt.Val(k.tsk), w.n)
				}
			}
			zi, zr := k.ids(pc)
			peerR, peerP, ownR := RR, k.pkR, RI
			if !role.initiator {
				peerR, peerP, ownR = RI, k.pkI, RR
			}
			rx, ry := h.num32(peerR, 0, pc), h.num32(peerR, 32, pc)
			px, py := h.num32(peerP, 0, pc), h.num32(peerP, 32, pc)
			t := tt.Add(tt.Val(k.sk), tt.Mul(h.avf(ownR, pc), tk))
			U := tt.PMul(w, t, tt.PLin(w, tt.Int(1), tt.Aff(w, px, py), h.avf(peerR, pc), tt.Aff(w, rx, ry)))
			ux, uy := tt.coords(w, U)
			x32, y32 := tt.BE(ux, 32), tt.BE(uy, 32)
			wantKey := h.in.canonB(h.sm2KDF(kl, x32, y32, zi, zr), pc)
			s.ExpectT(key+"/key", "the key", h.in.canonB(k.rn.Bytes(0, k.ok), pc), wantKey, pc)
			if kl != 16 {
				continue
			}
			in1 := tt.sm3(x32, zi, zr, RI, RR)
			tag := func(b byte) *T { return h.in.canonB(tt.sm3(tt.BLit(string([]byte{b})), y32, in1), pc) }
			s2, s3 := tag(2), tag(3)
			fin := tt.BNot(tt.BAnd(tt.Eq0(ux), tt.Eq0(uy)))
			parts := []namedB{{"peer ephemeral key on curve", h.onCurve(w, rx, ry)}, {"peer public key on curve", h.onCurve(w, px, py)}}
			if role.initiator {
				s.ExpectT(key+"/S initiator to responder", "the initiator's confirmation", h.in.canonB(k.rn.Bytes(1, k.ok), pc), s3, pc)
				parts = append(parts, namedB{"shared point finite", fin}, namedB{"responder's confirmation", h.in.EqT(s2, k.sin, pc0)})
			} else {
				s.ExpectT(key+"/S expected from initiator", "the inner confirmation", h.in.canonB(k.rn.Bytes(2, k.ok), pc), s3, pc)
				s.ExpectT(key+"/S responder to initiator", "the outer confirmation", h.in.canonB(k.rn.Bytes(3, k.ok), pc), s2, pc)
				parts = append(parts, namedB{"usable ephemeral", given}, namedB{"shared point finite", fin})
				for _, v := range tt.Support(k.rn.st.pc) {
					if v.op == "randerr" {
						parts = append(parts, namedB{"random source", tt.BNot(tt.Var(v))})
					}
				}
				for _, v := range tt.Support(k.ok) {
					if v.op == "randerr" {
						parts = append(parts, namedB{"random source", tt.BNot(tt.Var(v))})
					}
				}
			}
			h.acceptance(s, key, k.ok, pc0, parts)
			for i := range k.rn.res[:len(k.rn.res)-1] {
				s.Expect(fmt.Sprintf("%s/failure releases nothing/%d", key, i), tt.BOr(k.ok, k.rn.IsNil(i)), k.rn.st.pc, func() string {
					return fmt.Sprintf("result %d is returned although the call failed", i)
				})
			}
		}
	}
	// final check of the responder
	if fn := needFn(p, r, "", "", "KeyAgreement_responder_step2"); fn != nil {
		sel, _ := h.sel(sm2Sel)
		a, b := h.sym("Sinitiator"), h.sym("Sresponder")
		key := "KeyAgreement_responder_step2"
		if rn := h.run(key, fn, func(st *State) []Val { return []Val{h.in.sliceArg(a, st), h.in.sliceArg(b, st), sel} }); rn != nil {
			s := h.sc(fn)
			ok := h.retIs(rn, 0, "SUCCESS")
			lens := tt.BAnd(h.lenIs(a, 32), h.lenIs(b, 32))
			s.Expect(key+"/lengths", tt.BOr(tt.BNot(ok), lens), rn.st.pc, nil)
			pc := h.in.normPC(tt.BAnd(rn.st.pc, lens))
			s.iff(key+"/equal", ok, h.in.EqT(a, b, pc), pc)
		}
	}
	if fn := needFn(p, r, "", "", "KeyAgreement_initiator_step1"); fn != nil {
		sel, _ := h.sel(sm2Sel)
		key := "KeyAgreement_initiator_step1"
		if rn := h.run(key, fn, func(st *State) []Val { return []Val{sel} }); rn != nil {
			s := h.sc(fn)
			ok := tt.BNot(rn.IsNil(0))
			s.iff(key+"/both or none", tt.BNot(rn.IsNil(1)), ok, rn.st.pc)
			pc := h.in.normPC(tt.BAnd(rn.st.pc, ok))
			sk, pk := h.in.canonB(rn.Bytes(0, ok), pc), h.in.canonB(rn.Bytes(1, ok), pc)
			s.Expect(key+"/length", tt.BAnd(tt.Eq(sk.len, tt.Int(32)), tt.Eq(pk.len, tt.Int(64))), pc, h.detail("keys", tt.BCat(sk, pk)))
			x, y := tt.coords(w, tt.PMul(w, h.num32(sk, 0, pc), tt.Gen(w)))
			s.ExpectT(key+"/public key", "the ephemeral public key", pk, tt.BCat(tt.BE(x, 32), tt.BE(y, 32)), pc)
			s.Expect(key+"/range", h.inRange(h.num32(sk, 0, pc), w.n), pc, h.detail("the ephemeral secret", sk))
		}
	}
	r.Min["entry_point_classes"] = 20
}

// bytesXor: per-byte exclusive or.
func (h *H) bytesXor(a, b *T, n int64, pc *B) *T {
	tt := h.tt
	var l []*T
	for i := int64(0); i < n; i++ {
		l = append(l, tt.BByte(tt.Xor(h.in.bAt(a, tt.Int(i), pc), h.in.bAt(b, tt.Int(i), pc), 8)))
	}
	return tt.BCat(l...)
}

func (h *H) nonZeroBytes(a *T, n int64, pc *B) *B {
	tt := h.tt
	z := tt.True
	for i := n - 1; i >= 0; i-- {
		z = tt.BAnd(tt.Eq0(h.in.bAt(a, tt.Int(i), pc)), z)
	}
	return tt.BNot(z)
}

// deepSubst replaces an atom in a term, below truncations and shifts too.
func (tt *Terms) deepSubst(t, from, to *T) *T {
	var f func(a *T) *T
	f = func(a *T) *T {
		switch {
		case a == from:
			return to
		case a.op == "wrap" || a.op == "wraps":
			return tt.Wrap(tt.Subst(a.args[0], f), a.n, a.op == "wraps")
		case a.op == "shr":
			return tt.Shr(tt.Subst(a.args[0], f), a.n)
		}
		return nil
	}
	return tt.Subst(t, f)
}

// counters: in a run on a text of unknown length the key derivation is a loop
// of unknown length; every digest of its generic iteration must end in the
// iteration's number as four big-endian bytes.
func (h *H) counters(key string, fn *ssa.Function, args func(st *State) []Val) {
	in, tt := h.in, h.tt
	h.drain(key)
	before := len(h.r.Und)
	rn := h.run(key, fn, args)
	h.r.Und = h.r.Und[:before]
	if rn == nil {
		h.r.Undecided(key, "the run on a text of unknown length does not return")
		return
	}
	s := h.sc(fn)
	n := 0
	var ks []string
	for k, t := range tt.tab {
		if t.op == "hash" && t.s == "sm3" && len(t.args) == 1 {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		d := tt.tab[k].args[0]
		if d.len == nil || !d.len.IsConst() || d.len.c.Int64() < 4 {
			continue
		}
		ctr := tt.Val(in.canonB(in.bRange(d, tt.Int(d.len.c.Int64()-4), tt.Int(4), tt.True), tt.True))
		var it *T
		for _, a := range atomList("fresh", []*T{ctr}) {
			if strings.HasPrefix(a.s, "iter:") {
				it = a
			}
		}
		if it == nil {
			continue
		}
		// the loop summary starts after 0, 1 or 2 unrolled iterations
		first := tt.deepSubst(ctr, it, tt.Int(0))
		if !first.IsConst() {
			continue
		}
		f := first.c.Int64()
		if f < 1 || f > 3 {
			continue
		}
		n++
		bounded := tt.Fresh("iteration", big0, big.NewInt(1<<31-8))
		s.ExpectT(key+"/counter", "the counter of a later iteration", tt.deepSubst(ctr, it, bounded), tt.AddI(bounded, f), tt.True)
	}
	h.r.Count("generic_iterations", n)
	if n == 0 {
		h.r.Undecided(key, "no generic iteration of the key derivation found")
	}
}

var sm2Lens = []int64{1, 2, 31, 32, 33, 63, 64, 65, 96, 100}

func checkC11(p *Prog, r *Report) {
	r.Explain = "Encryption and Decryption for the SM2 selector evaluated symbolically for several plaintext lengths around the digest size, with every byte of key and text unconstrained: produced ciphertexts are compared with the layout term by term, the condition under which plaintext is released is compared with the authenticity condition as a decision diagram."
	r.Assume = []string{"curve methods implement the group (C22)", "the SM3 object implements the hash contract (C19)", "plaintext lengths beyond the listed ones run the same loop bodies"}
	h := newH(p, r)
	tt := h.tt
	w := curveByName("sm2")
	sel, good := h.sel(sm2Sel)
	enc, dec := needFn(p, r, "", "", "Encryption"), needFn(p, r, "", "", "Decryption")
	if !good || enc == nil || dec == nil {
		return
	}
	for _, L := range sm2Lens {
		key := fmt.Sprintf("Encryption/%d bytes", L)
		pub, pt := h.fix("pubkey", 64), h.fix("plain", L)
		rn := h.run(key, enc, func(st *State) []Val { return []Val{h.in.sliceArg(pub, st), h.in.sliceArg(pt, st), sel} })
		if rn != nil {
			s := h.sc(enc)
			ok := h.retIs(rn, 1, "SUCCESS")
			x, y := h.num32(pub, 0, rn.st.pc), h.num32(pub, 32, rn.st.pc)
			h.r.Count("encryption_lengths", 1)
			s.Expect(key+"/requires public key on curve", tt.BOr(tt.BNot(ok), h.in.decide(h.onCurve(w, x, y), rn.st.pc)), rn.st.pc, func() string { return "encrypts under a key that is not a point of the curve" })
			s.Expect(key+"/failure releases nothing", tt.BOr(ok, rn.IsNil(0)), rn.st.pc, nil)
			pc := h.in.normPC(tt.BAnd(rn.st.pc, ok))
			if !h.in.feasible(pc) {
				r.Bad(key+"/succeeds", s.pos, "never succeeds")
				continue
			}
			ct := h.in.canonB(rn.Bytes(0, ok), pc)
			if s.Expect(key+"/length", tt.Eq(ct.len, tt.Int(97+L)), pc, h.detail("ciphertext", ct)) {
				s.Expect(key+"/point format", tt.Eq(h.in.bAt(ct, tt.Int(0), pc), tt.Int(4)), pc, h.detail("ciphertext", ct))
				k, _, rest, found := h.nonceOf(w, h.num32(ct, 1, pc))
				if !found || !rest.IsConst() {
					r.Bad(key+"/C1", s.pos, "the ciphertext does not start with a multiple of the base point: "+clip(ct.String(), 400))
				} else {
					gx, gy := tt.coords(w, tt.PMul(w, k, tt.Gen(w)))
					s.ExpectT(key+"/C1 x", "C1", h.num32(ct, 1, pc), gx, pc)
					s.ExpectT(key+"/C1 y", "C1", h.num32(ct, 33, pc), gy, pc)
					sx, sy := tt.coords(w, tt.PMul(w, k, tt.Aff(w, x, y)))
					x2, y2 := tt.BE(sx, 32), tt.BE(sy, 32)
					s.ExpectT(key+"/C3", "C3", h.in.bRange(ct, tt.Int(65), tt.Int(32), pc), tt.sm3(x2, pt, y2), pc)
					mask := h.sm2KDF(L, x2, y2)
					s.ExpectT(key+"/C2", "C2", h.in.bRange(ct, tt.Int(97), tt.Int(L), pc), h.bytesXor(pt, mask, L, pc), pc)
					s.Expect(key+"/mask", h.nonZeroBytes(mask, L, pc), pc, func() string { return "the mask may be all zero (plaintext sent in the clear)" })
					s.Expect(key+"/nonce nonzero", tt.BNot(tt.ZeroMod(k, w.n)), pc, h.detail("nonce", k))
				}
			}
		}
		key = fmt.Sprintf("Decryption/%d bytes", L)
		sk, c := h.fix("prikey", 32), h.fix("cipher", 97+L)
		rn = h.run(key, dec, func(st *State) []Val { return []Val{h.in.sliceArg(sk, st), h.in.sliceArg(c, st), sel} })
		if rn != nil {
			s := h.sc(dec)
			ok := h.retIs(rn, 1, "SUCCESS")
			pc := rn.st.pc
			h.r.Count("decryption_lengths", 1)
			s.Expect(key+"/failure releases nothing", tt.BOr(ok, rn.IsNil(0)), pc, func() string { return "plaintext is returned although decryption failed" })
			x, y := h.num32(c, 1, pc), h.num32(c, 33, pc)
			sx, sy := tt.coords(w, tt.PMul(w, tt.Val(sk), tt.Aff(w, x, y)))
			x2, y2 := tt.BE(sx, 32), tt.BE(sy, 32)
			mask := h.sm2KDF(L, x2, y2)
			m := h.bytesXor(h.in.bRange(c, tt.Int(97), tt.Int(L), pc), mask, L, pc)
			parts := []namedB{
				{"uncompressed point", tt.Eq(h.in.bAt(c, tt.Int(0), pc), tt.Int(4))},
				{"C1 on curve", h.onCurve(w, x, y)},
				{"private key in range", h.inRange(tt.Val(sk), w.n)},
				{"mask nonzero", h.nonZeroBytes(mask, L, pc)},
			}
			all := pc
			for _, q := range parts {
				all = tt.BAnd(all, h.in.decide(q.b, all))
			}
			parts = append(parts, namedB{"C3 matches", h.in.EqT(h.in.bRange(c, tt.Int(65), tt.Int(32), all), tt.sm3(x2, m, y2), all)})
			h.acceptance(s, key, ok, pc, parts)
			if pc = h.in.normPC(tt.BAnd(pc, ok)); h.in.feasible(pc) {
				s.ExpectT(key+"/plaintext", "the plaintext", h.in.canonB(rn.Bytes(0, ok), pc), m, pc)
			}
		}
	}
	h.counters("Encryption/any length", enc, func(st *State) []Val {
		return []Val{h.in.sliceArg(h.fix("pubkey", 64), st), h.in.sliceArg(tt.BIn("plain", tt.Atom("in", "length", 0, big1, pow2m(36))), st), sel}
	})
	h.counters("Decryption/any length", dec, func(st *State) []Val {
		return []Val{h.in.sliceArg(h.fix("prikey", 32), st), h.in.sliceArg(tt.BIn("cipher", tt.Atom("in", "length", 0, bi(98), pow2m(36))), st), sel}
	})
	for _, L := range []int64{0, 1, 2, 32, 33, 64, 65, 95, 96, 97} {
		key := fmt.Sprintf("Decryption/truncated to %d", L)
		sk, c := h.fix("prikey", 32), h.fix("cipher", L)
		rn := h.run(key, dec, func(st *State) []Val { return []Val{h.in.sliceArg(sk, st), h.in.sliceArg(c, st), sel} })
		if rn != nil {
			s := h.sc(dec)
			ok := h.retIs(rn, 1, "SUCCESS")
			s.Expect(key+"/refused", tt.BNot(ok), rn.st.pc, func() string { return "accepts a truncated ciphertext" })
			s.Expect(key+"/failure releases nothing", tt.BOr(ok, rn.IsNil(0)), rn.st.pc, nil)
		}
	}
	r.Min["encryption_lengths"] = int(len(sm2Lens))
	r.Min["decryption_lengths"] = int(len(sm2Lens))
}
