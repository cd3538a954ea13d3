package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C13: where nonces come from.

func init() { checks["C13"] = checkC13 }

// draws: for each draw of randomness t depends on, which of its bytes it depends on
// (index -1: the whole draw).
func draws(t *T) map[string]map[int64]bool {
	out, seen := map[string]map[int64]bool{}, map[*T]bool{}
	hit := func(n string, i int64) {
		if out[n] == nil {
			out[n] = map[int64]bool{}
		}
		out[n][i] = true
	}
	isRnd := func(t *T) bool { return t != nil && strings.HasPrefix(t.s, "rand#") }
	var walk func(t *T)
	walk = func(t *T) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if isRnd(t) {
			hit(t.s, -1)
			return
		}
		if (t.op == "sub" || t.op == "byteAt") && isRnd(t.args[0]) && len(t.args) > 1 && t.args[1].IsConst() {
			n := int64(1)
			if t.op == "sub" {
				if !t.len.IsConst() {
					return
				}
				n = t.len.c.Int64()
			}
			for i := int64(0); i < n && i < 4096; i++ {
				hit(t.args[0].s, t.args[1].c.Int64()+i)
			}
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, m := range t.ms {
			for _, v := range m.vs {
				walk(v)
			}
		}
		for _, m := range t.anf {
			for _, v := range m.vs {
				walk(v)
			}
		}
	}
	walk(t)
	return out
}

// truncated: a part shorter than 32 bytes of a value that is not itself a draw.
func truncated(t *T) *T {
	seen := map[*T]bool{}
	var walk func(t *T) *T
	walk = func(t *T) *T {
		if t == nil || seen[t] {
			return nil
		}
		seen[t] = true
		if len(t.args) > 0 && t.args[0] != nil && !strings.HasPrefix(t.args[0].s, "rand#") {
			a := t.args[0]
			if (t.op == "sub" && (!t.len.IsConst() || t.len.c.Int64() < 32) || t.op == "byteAt") && len(draws(a)) > 0 {
				return t
			}
			if t.op == "shr" && len(draws(a)) > 0 {
				return t
			}
			if t.op == "px" || t.op == "py" {
				return walk(a)
			}
		}
		for _, a := range t.args {
			if c := walk(a); c != nil {
				return c
			}
		}
		for _, m := range t.ms {
			for _, v := range m.vs {
				if c := walk(v); c != nil {
					return c
				}
			}
		}
		return nil
	}
	return walk(t)
}

// nonce: k (or a value built from it) must depend on all bytes of a long enough
// draw, whose failure makes the operation fail.
func (h *H) nonce(s *specCheck, key string, k *T, want int64, rn *Run, ok *B) {
	tt, in := h.tt, h.in
	if u := unknownT(k, map[*T]bool{}); u != "" {
		h.r.Undecided(key+"/nonce", "depends on "+u)
		return
	}
	ds := draws(k)
	var names []string
	for n := range ds {
		names = append(names, n)
	}
	sort.Strings(names)
	total := int64(0)
	for _, n := range names {
		var ev *ReadEv
		for _, e := range in.reads {
			if e.name == n {
				ev = e
			}
		}
		if ev == nil || !ev.n.IsConst() {
			h.r.Undecided(key+"/nonce", "draw of unknown length")
			return
		}
		ln := ev.n.c.Int64()
		used := ds[n]
		if used[-1] {
			total += ln
		} else {
			total += int64(len(used))
		}
		s.Expect(key+"/failed read aborts", tt.BOr(tt.BNot(ok), tt.BNot(tt.Var(tt.Atom("randerr", n[5:], 0, nil, nil)))), rn.st.pc, func() string {
			return "succeeds although the random source failed at " + h.p.Pos(ev.pos)
		})
	}
	h.r.Count("nonces", 1)
	if len(names) == 0 {
		h.r.Bad(key+"/nonce", s.pos, "the nonce does not depend on the system's random source: "+clip(k.String(), 400))
		return
	}
	if total < want {
		h.r.Bad(key+"/nonce", s.pos, fmt.Sprintf("the nonce depends on %d random bytes only; %d are needed: %s", total, want, clip(k.String(), 400)))
		return
	}
	parts := append(atomList("px", []*T{k}), atomList("py", []*T{k})...)
	if len(parts) == 0 {
		parts = []*T{k}
	}
	for _, q := range parts {
		if q.op == "px" || q.op == "py" {
			q = q.args[0]
		}
		c := truncated(q)
		if c == nil {
			continue
		}
		h.r.Bad(key+"/nonce", s.pos, "only a part of the random value is used: "+clip(c.String(), 300)+" in "+clip(k.String(), 400))
		return
	}
	h.r.OK(key+"/nonce", s.pos, fmt.Sprintf("%d random bytes", total))
}

func checkC13(p *Prog, r *Report) {
	r.Explain = "Every randomised operation evaluated symbolically; the ephemeral secret is recovered from what is output (the coefficient of the base point) and must be a function of all bytes of a draw from crypto/rand long enough for the scheme, lie in [1, n-1] where it is used directly, and success must exclude a failed read. Over the whole program: no other random source is referenced, no package-level memory is written by a function on the way to a random read (so no draw is kept for another call), and every function handed a reader gets crypto/rand.Reader."
	r.Assume = []string{"crypto/rand is the operating system's source", "the ECDSA and SM2 signing nonces come from AES-CTR keyed with a hash over 16 random bytes, the key and the digest, as in the Go standard library they were taken from"}
	h := newH(p, r)
	in, tt := h.in, h.tt
	for _, c := range [][2]string{{"ECC_CURVE_SECP256K1", "secp256k1"}, {"ECC_CURVE_SECP256R1", "secp256r1"}, {sm2Sel, "sm2"}} {
		w := curveByName(c[1])
		key := "Signature/" + c[0]
		fn := needFn(p, r, "", "", "Signature")
		if fn == nil {
			return
		}
		s := h.sc(fn)
		h.signCommon(key, c[0], w, func(st *State) Val { return in.nilSlice() }, h.fix("hash", 32), func(_ *specCheck, rn *Run, ok, pc *B, k, px, rest, rv, sv *T) {
			h.nonce(s, key, k, 16, rn, ok)
			s.Expect(key+"/range", h.inRange(k, w.n), pc, h.detail("the nonce", k))
		})
	}
	w := curveByName("sm2")
	if enc := needFn(p, r, "", "", "Encryption"); enc != nil {
		sel, _ := h.sel(sm2Sel)
		key := "Encryption/" + sm2Sel
		pub, pt := h.fix("pubkey", 64), h.fix("plain", 32)
		if rn := h.run(key, enc, func(st *State) []Val { return []Val{in.sliceArg(pub, st), in.sliceArg(pt, st), sel} }); rn != nil {
			s := h.sc(enc)
			ok := h.retIs(rn, 1, "SUCCESS")
			pc := in.normPC(tt.BAnd(rn.st.pc, ok))
			ct := in.canonB(rn.Bytes(0, ok), pc)
			k, _, rest, found := h.nonceOf(w, h.num32(ct, 1, pc))
			if !found || !rest.IsConst() {
				r.Bad(key+"/nonce", s.pos, "the ciphertext does not start with a multiple of the base point: "+clip(ct.String(), 400))
			} else {
				h.nonce(s, key, k, 32, rn, ok)
				s.Expect(key+"/range", h.inRange(k, w.n), pc, h.detail("the nonce", k))
			}
		}
	}
	for _, role := range kaRoles {
		if role.initiator {
			continue
		}
		k := h.runKA(role, 16)
		if k == nil {
			continue
		}
		RR := in.canonB(k.rn.Bytes(1, k.ok), k.pc)
		kk, _, rest, found := h.nonceOf(w, h.num32(RR, 0, k.pc))
		if !found || !rest.IsConst() {
			r.Bad(role.key+"/nonce", k.s.pos, "the responder's ephemeral public key is "+clip(RR.String(), 400)+", not a multiple of the base point")
			continue
		}
		if role.fn == "KeyAgreement_responder_ElGamal_step1" {
			k.s.Expect(role.key+"/given ephemeral", tt.Eq(kk, tt.Val(k.tsk)), k.pc, h.detail("the ephemeral secret is", kk))
		} else {
			h.nonce(k.s, role.key, kk, 32, k.rn, k.ok)
			for i := range k.rn.res[:len(k.rn.res)-1] {
				// the secret itself is handed to nobody
				b := in.canonB(k.rn.Bytes(i, k.ok), k.pc)
				leak := b.len == tt.Int(32) && tt.Eq(tt.Val(b), kk) != tt.False && h.in.sameRandom(b, tt.BE(kk, 32), k.pc)
				r.Check(!leak, fmt.Sprintf("%s/secret kept/%d", role.key, i), k.s.pos, "the ephemeral secret is returned")
			}
		}
		k.s.Expect(role.key+"/range", h.inRange(kk, w.n), k.pc, h.detail("the ephemeral secret", kk))
	}
	if fn := needFn(p, r, "", "", "KeyAgreement_initiator_step1"); fn != nil {
		sel, _ := h.sel(sm2Sel)
		key := "KeyAgreement_initiator_step1"
		if rn := h.run(key, fn, func(st *State) []Val { return []Val{sel} }); rn != nil {
			s := h.sc(fn)
			ok := tt.BNot(rn.IsNil(0))
			pc := in.normPC(tt.BAnd(rn.st.pc, ok))
			sk := h.num32(in.canonB(rn.Bytes(0, ok), pc), 0, pc)
			h.nonce(s, key, sk, 32, rn, ok)
			s.Expect(key+"/range", h.inRange(sk, w.n), pc, h.detail("the ephemeral secret", sk))
		}
	}
	h.edNonces()
	h.pastaNonce()
	randomSources(p, r)
	r.Min["nonces"] = 8
}

func (h0 *H) edNonces() {
	p, r := h0.p, h0.r
	h := newHOn(p, r, "eddsa", "eddsa/edwards25519")
	in, tt := h.in, h.tt
	in.modelFe25519()
	in.modelEdGroup()
	in.modelCurve25519()
	sk, msg := h.fix("prikey", 32), h.sym("message")
	for _, x := range []struct {
		fn string
		n  int64
	}{{"ED25519_sign", 32}, {"X25519_sign", 64}} {
		f := needFn(p, r, "eddsa", "", x.fn)
		if f == nil {
			continue
		}
		key := "eddsa." + x.fn
		if rn := h.run(key, f, func(st *State) []Val { return []Val{in.sliceArg(sk, st), in.sliceArg(msg, st)} }); rn != nil {
			s := h.sc(f)
			ok := rn.IsNil(1)
			pc := in.normPC(tt.BAnd(rn.st.pc, ok))
			R := in.bRange(in.canonB(rn.Bytes(0, ok), pc), tt.Int(0), tt.Int(32), pc)
			h.nonce(s, key, R, x.n, rn, ok)
		}
	}
}

func (h0 *H) pastaNonce() {
	p, r := h0.p, h0.r
	h := newHOn(p, r, "pasta")
	in, tt := h.in, h.tt
	in.modelPastaField()
	in.modelPastaGroup()
	in.modelPoseidon()
	in.modelMina(1, 0)
	f := needFn(p, r, "pasta", "", "Sign")
	if f == nil {
		return
	}
	sk, msg := h.fix("prikey", 32), h.sym("message")
	key := "pasta.Sign"
	if rn := h.run(key, f, func(st *State) []Val { return []Val{in.sliceArg(sk, st), in.sliceArg(msg, st)} }); rn != nil {
		s := h.sc(f)
		ok := rn.IsNil(1)
		pc := in.normPC(tt.BAnd(rn.st.pc, ok))
		R := in.bRange(in.canonB(rn.Bytes(0, ok), pc), tt.Int(0), tt.Int(32), pc)
		h.nonce(s, key, R, 32, rn, ok)
		if k, _, _, found := h.nonceOf(pallas, tt.Val(R)); found {
			s.Expect(key+"/range", tt.BNot(tt.ZeroMod(k, pallas.n)), pc, h.detail("the nonce", k))
		} else {
			r.Bad(key+"/range", s.pos, "the signature does not start with the abscissa of a multiple of the base point")
		}
	}
}

// randomSources: who may produce randomness, and who may keep it.
func randomSources(p *Prog, r *Report) {
	var reads []*ssa.Function
	n := 0
	for _, fn := range p.funcs {
		pk := pkgPathOf(fn)
		if !strings.HasPrefix(pk, modPath) || fn.Blocks == nil {
			continue
		}
		n++
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range ins.Operands(ops) {
					if *o == nil {
						continue
					}
					var from string
					switch v := (*o).(type) {
					case *ssa.Function:
						from = pkgPathOf(v)
						if v.Object() != nil && v.Object().Pkg() != nil {
							from = v.Object().Pkg().Path()
						}
					case *ssa.Global:
						from = v.Pkg.Pkg.Path()
					default:
						continue
					}
					switch from {
					case "math/rand", "math/rand/v2", "hash/maphash":
						r.Bad("source/"+short(fn), p.Pos(ins.Pos()), fmt.Sprintf("%s draws from %s, which is not the system's random source", short(fn), from))
					case "crypto/rand":
						reads = append(reads, fn)
						if st, ok := ins.(*ssa.Store); ok && *o == st.Addr {
							r.Bad("source/"+short(fn), p.Pos(ins.Pos()), "crypto/rand.Reader is replaced")
						}
						if c, ok := ins.(ssa.CallInstruction); ok {
							r.Check(errorUsed(c), "source/"+short(fn)+"/error", p.Pos(ins.Pos()), "the error of the random source is dropped")
						}
					}
				}
			}
		}
	}
	r.Count("functions_scanned", n)
	r.Count("random_read_sites", len(reads))
	r.Min["random_read_sites"] = 6
	r.OK("source", "", "no other random source is referenced")
	// no state between calls in the functions that read randomness
	e := NewEffects(p)
	e.Run(effectRoots(p))
	sort.Slice(reads, func(i, j int) bool { return reads[i].String() < reads[j].String() })
	seen := map[*ssa.Function]bool{}
	for _, f := range reads {
		if seen[f] {
			continue
		}
		seen[f] = true
		s := e.sums[f]
		if s == nil {
			continue
		}
		bad := token.NoPos
		what := ""
		for _, w := range s.writes {
			if (w.o.kind == oGlobal || w.o.kind == oGDeep) && repoGlobal(w.o.g) {
				bad, what = w.pos, shortS(w.o.g.String())
			}
		}
		r.Check(what == "", "state/"+short(f), p.Pos(bad), "writes package-level memory "+what+": randomness may be kept for another call")
	}
}

// errorUsed: the error result of the call is looked at.
func errorUsed(c ssa.CallInstruction) bool {
	v, ok := c.(*ssa.Call)
	if !ok {
		return true
	}
	tup := v.Call.Signature().Results()
	if tup.Len() == 0 {
		return true
	}
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	if tup.Len() == 1 {
		return len(*refs) > 0
	}
	for _, x := range *refs {
		if ex, ok := x.(*ssa.Extract); ok && ex.Index == tup.Len()-1 {
			if rr := ex.Referrers(); rr != nil && len(*rr) > 0 {
				return true
			}
		}
	}
	return false
}
