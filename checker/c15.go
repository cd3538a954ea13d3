package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C15: BLS12-381 signatures and point decoding.

func init() { checks["C15"] = checkC15 }

const blsDst = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_"

func checkC15(p *Prog, r *Report) {
	r.Explain = "Package bls12_381 (and the kyber signature scheme it runs through) evaluated on unknown keys, messages and signatures with subgroup points as residues modulo the group order and the pairing as multiplication: acceptance of Verify and IsValid-like conditions, the signature, key and sum bytes must equal the scheme's as terms and Boolean functions. Point decoding and encoding in package bls are evaluated at field level on unknown bytes."
	r.Assume = []string{"package bls computes the group operations and the pairing it names (C22, C23)", "the third-party key library computes the compressed multiple of the generator", "points of the order-r subgroups are determined by their logarithm"}
	h := newHOn(p, r, "bls12_381", "bls12_381/bls")
	h.in.modelBlsGroup()
	h.in.modelPhore()
	h.in.modelStrings()
	h.blsTop()
	f := newHOn(p, r, "bls12_381/bls")
	f.in.modelBlsField()
	f.in.modelBlsSqrt2()
	f.blsEncodings("1", 1, 48)
	f.blsEncodings("2", 2, 96)
	newHOn(p, r, "bls12_381/bls").blsRawChecks()
	g := newHOn(p, r, "bls12_381/bls")
	g.in.modelBlsField()
	g.blsRootChecks()
	f2 := newHOn(p, r, "bls12_381/bls")
	f2.in.modelBlsField()
	f2.blsHashToField()
	for k := 1; k <= 2; k++ {
		m := newHOn(p, r, "bls12_381/bls")
		m.in.modelBlsField()
		m.in.modelBlsSqrt2()
		m.blsMaps(k)
		m = newHOn(p, r, "bls12_381/bls")
		m.in.modelBlsField()
		m.blsCompose(k)
	}
	newHOn(p, r, "bls12_381/bls").blsLadders(false)
	newHOn(p, r, "bls12_381/bls").blsLadders(true)
}

func (h *H) blsTop() {
	in, tt, p, r := h.in, h.tt, h.p, h.r
	fn := func(name string) *ssa.Function { return needFn(p, r, "bls12_381", "", name) }
	slice := func(ts ...*T) func(st *State) []Val {
		return func(st *State) []Val {
			var l []Val
			for _, t := range ts {
				l = append(l, in.sliceArg(t, st))
			}
			return l
		}
	}
	sk, skN := h.fix("prikey", 32), h.sym("prikeyN")
	k := tt.Val(sk)
	kOK := tt.BAnd(tt.Lt(k, tt.Const(blsR)), tt.BNot(tt.Eq0(k)))
	red := func(t *T) *T { return tt.Mod(tt.modNorm(t, blsR), blsR) }
	pk, sig := h.fix("pubkey", 48), h.fix("signature", 96)
	if f := fn("GenPublicKey"); f != nil {
		s := h.sc(f)
		if rn := h.run("GenPublicKey", f, slice(sk)); rn != nil {
			s.iff("GenPublicKey/succeeds", rn.IsNil(1), kOK, rn.st.pc)
			h.outIs(s, "GenPublicKey", rn, 0, rn.IsNil(1), tt.g1c(red(k), 48))
		}
		if rn := h.run("GenPublicKey length", f, slice(skN)); rn != nil {
			s.Expect("GenPublicKey length", tt.BOr(h.lenIs(skN, 32), tt.BNot(rn.IsNil(1))), rn.st.pc, func() string { return "accepts a key that is not 32 bytes" })
		}
	}
	tail := h.sym("message")
	for _, sch := range []string{"NUL_", "AUG_"} {
		dst := tt.BLit(blsDst + sch)
		msg := tt.BCat(dst, tail)
		H := tt.hashPoint("g2", tail, dst)
		if f := fn("Sign"); f != nil {
			s := h.sc(f)
			if rn := h.run("Sign "+sch, f, slice(sk, msg)); rn != nil {
				s.iff("Sign "+sch+"/succeeds", rn.IsNil(1), kOK, rn.st.pc)
				h.outIs(s, "Sign "+sch, rn, 0, rn.IsNil(1), tt.g2c(red(tt.Mul(k, H)), 96))
			}
		}
		if f := fn("Verify"); f != nil {
			s := h.sc(f)
			if rn := h.run("Verify "+sch, f, slice(pk, msg, sig)); rn != nil {
				P, S := tt.blsDec("g1", pk), tt.blsDec("g2", sig)
				eq := tt.Eq0(red(tt.Sub(tt.Mul(P, H), S)))
				s.iff("Verify "+sch+"/accepts", rn.Bool(0), tt.BAll(tt.blsOK("g1", pk), tt.blsOK("g2", sig), tt.BNot(tt.Eq0(red(P))), eq), rn.st.pc)
			}
		}
	}
	anyMsg := h.sym("anything")
	tagged := tt.BOr(in.hasPrefix(anyMsg, tt.BLit(blsDst+"NUL_"), tt.True), in.hasPrefix(anyMsg, tt.BLit(blsDst+"AUG_"), tt.True))
	if f := fn("Sign"); f != nil {
		s := h.sc(f)
		if rn := h.run("Sign any message", f, slice(sk, anyMsg)); rn != nil {
			s.iff("Sign any message", rn.IsNil(1), tt.BAnd(tagged, kOK), rn.st.pc)
		}
		if rn := h.run("Sign key length", f, slice(skN, tt.BCat(tt.BLit(blsDst+"NUL_"), tail))); rn != nil {
			s.Expect("Sign key length", tt.BOr(h.lenIs(skN, 32), tt.BNot(rn.IsNil(1))), rn.st.pc, func() string { return "accepts a key that is not 32 bytes" })
		}
	}
	if f := fn("Verify"); f != nil {
		s := h.sc(f)
		pkN, sigN := h.sym("pubkeyN"), h.sym("signatureN")
		for _, x := range []struct {
			what string
			args []*T
			c    *B
		}{{"message without a tag", []*T{pk, anyMsg, sig}, tagged}, {"key length", []*T{pkN, tt.BCat(tt.BLit(blsDst+"AUG_"), tail), sig}, h.lenIs(pkN, 48)}, {"signature length", []*T{pk, tt.BCat(tt.BLit(blsDst+"AUG_"), tail), sigN}, h.lenIs(sigN, 96)}} {
			if rn := h.run("Verify "+x.what, f, slice(x.args...)); rn != nil {
				s.Expect("Verify "+x.what, tt.BOr(x.c, tt.BNot(rn.Bool(0))), rn.st.pc, func() string { return "accepts" })
			}
		}
	}
	if f := fn("ScalarMultBaseAdd"); f != nil {
		s := h.sc(f)
		pt := h.fix("point", 48)
		if rn := h.run("ScalarMultBaseAdd", f, slice(pt, sk)); rn != nil {
			P := tt.blsDec("g1", pt)
			sum := red(tt.Add(P, k))
			valid := tt.BAll(tt.blsOK("g1", pt), tt.Lt(k, tt.Const(blsR)))
			// both decoders accept every point of the subgroup
			dom := tt.BAnd(rn.st.pc, tt.BOr(tt.BNot(tt.blsOK("g1", pt)), tt.blsOK("g1phore", pt)))
			zero := in.decide(tt.Eq0(sum), tt.BAnd(dom, valid))
			s.iff("ScalarMultBaseAdd/identity", rn.Bool(1), tt.BAnd(valid, zero), dom)
			some := tt.BNot(rn.IsNil(0))
			s.iff("ScalarMultBaseAdd/result", some, tt.BAnd(valid, tt.BNot(zero)), dom)
			h.outIs(s, "ScalarMultBaseAdd", rn, 0, some, tt.g1c(sum, 48))
		}
		ptN := h.sym("pointN")
		if rn := h.run("ScalarMultBaseAdd point length", f, slice(ptN, sk)); rn != nil {
			s.Expect("ScalarMultBaseAdd point length", tt.BOr(h.lenIs(ptN, 48), tt.BAnd(rn.IsNil(0), tt.BNot(rn.Bool(1)))), rn.st.pc, func() string { return "accepts" })
		}
		if rn := h.run("ScalarMultBaseAdd scalar length", f, slice(pt, skN)); rn != nil {
			s.Expect("ScalarMultBaseAdd scalar length", tt.BOr(h.lenIs(skN, 32), tt.BAnd(rn.IsNil(0), tt.BNot(rn.Bool(1)))), rn.st.pc, func() string { return "accepts" })
		}
	}
	if f := fn("AggregateSignatures"); f != nil {
		s := h.sc(f)
		for n := 0; n <= 3; n++ {
			var bs []*T
			for i := 0; i < n; i++ {
				bs = append(bs, h.fix("sig"+itoa(i), 96))
			}
			key := "AggregateSignatures of " + itoa(n)
			rn := h.run(key, f, func(st *State) []Val { return []Val{h.sliceOfSlices(bs, st)} })
			if rn == nil {
				continue
			}
			ok, sum := tt.True, tt.Int(0)
			for _, b := range bs {
				ok = tt.BAnd(ok, tt.blsOK("g2", b))
				sum = tt.Add(sum, tt.blsDec("g2", b))
			}
			s.iff(key+"/succeeds", rn.IsNil(1), ok, rn.st.pc)
			h.outIs(s, key, rn, 0, rn.IsNil(1), tt.g2c(red(sum), 96))
		}
	}
}

func (h *H) sliceOfSlices(bs []*T, st *State) Val {
	in, tt := h.in, h.tt
	bt := types.NewSlice(types.Typ[types.Byte])
	a := &AggV{}
	for _, b := range bs {
		a.el = append(a.el, in.sliceArg(b, st))
	}
	o := in.newObj("list", types.NewArray(bt, int64(len(bs))), token.NoPos)
	st.mem[o] = a
	n := tt.Int(int64(len(bs)))
	return &SliceV{o: o, off: tt.Int(0), ln: n, cp: n, nilc: tt.False}
}
