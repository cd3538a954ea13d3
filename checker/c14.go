package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// C14: the Curve25519-family signatures.  Field and group routines are terms
// (modelFe25519, modelEdGroup); the schemes themselves are evaluated.

func init() { checks["C14"] = checkC14 }

func newHOn(p *Prog, r *Report, pkgs ...string) *H {
	in := NewInterp(p)
	in.Std()
	in.RunInit(pkgs...)
	h := &H{p: p, r: r, in: in, tt: in.tt}
	h.drain("init")
	return h
}

// edNum: the value of 32 or 64 little-endian bytes.
func (h *H) le(b *T) *T { return h.tt.leVal(b) }

func (h *H) edMul(k *T) *T { return h.tt.PMul(edCurve, k, h.tt.Gen(edCurve)) }

// byteMask replaces byte i of b by (b[i] & and) | or.
func (h *H) byteMask(b *T, i int, and, or int64) *T {
	tt := h.tt
	v := tt.Or(tt.And(h.in.bAt(b, tt.Int(int64(i)), tt.True), tt.Int(and), 8), tt.Int(or), 8)
	return tt.BCat(h.in.bRange(b, tt.Int(0), tt.Int(int64(i)), tt.True), tt.BByte(v), h.in.bRange(b, tt.Int(int64(i+1)), tt.AddI(b.len, int64(-i-1)), tt.True))
}

func checkC14(p *Prog, r *Report) {
	r.Explain = "The public functions of package eddsa are evaluated on unknown keys, messages and signatures, with field elements as terms modulo 2^255-19, points as integer combinations of the base point and decoded points, and hashes uninterpreted. The returned keys and signatures must equal, byte for byte, the scheme's equations over its transcript; the condition under which verification returns true must equal, as a Boolean function, the scheme's acceptance condition. For the SHA-256 scheme the Curve25519 ladder and its scalar arithmetic are uninterpreted functions and the transcript around them is compared."
	r.Assume = []string{"the edwards25519 routines compute the field and group operations they are named after (C21, C22)", "points of small order are combined with scalars reduced modulo the group order, as the code does"}
	h := newHOn(p, r, "eddsa", "eddsa/edwards25519")
	in, tt := h.in, h.tt
	in.modelFe25519()
	in.modelEdGroup()
	in.modelCurve25519()
	n := ordL
	fn := func(name string) *ssa.Function { return needFn(p, r, "eddsa", "", name) }
	enc := in.edEnc
	sk, skN := h.fix("prikey", 32), h.sym("prikey2")
	msg := h.sym("message")
	pk, sig := h.fix("pubkey", 32), h.fix("signature", 64)
	slice := func(ts ...*T) func(st *State) []Val {
		return func(st *State) []Val {
			var l []Val
			for _, t := range ts {
				l = append(l, in.sliceArg(t, st))
			}
			return l
		}
	}
	H := func(alg string, n int, parts ...*T) *T { return tt.BHash(alg, n, tt.BCat(parts...)) }
	sha512 := func(parts ...*T) *T { return H("sha512", 64, parts...) }
	sha256 := func(parts ...*T) *T { return H("sha256", 32, parts...) }
	modL := func(x *T) *T { return tt.Mod(x, n) }
	lo, hi := func(b *T) *T { return in.bRange(b, tt.Int(0), tt.Int(32), tt.True) }, func(b *T) *T { return in.bRange(b, tt.Int(32), tt.Int(32), tt.True) }
	clamp := func(b *T) *T { return h.byteMask(h.byteMask(b, 0, 248, 0), 31, 127, 64) }
	// montgomery abscissa of an Edwards ordinate and back
	mont := func(y *T) *T { return tt.Mul(tt.Add(tt.Int(1), y), tt.Inv(tt.Sub(tt.Int(1), y), p25519)) }
	edw := func(u *T) *T {
		return tt.Mod(tt.Mul(tt.AddI(u, -1), tt.Inv(tt.AddI(u, 1), p25519)), p25519)
	}
	pubED := enc(h.edMul(h.le(sk)))
	type sch struct {
		name, genPub, sign, verify string
		rand                       int64
		pub                        func() *T
		sig                        func(rnd *T) *T
		acc                        func() *B
	}
	// acceptance of R || s under key point A with challenge c: sB - cA = R
	accept := func(keyb, R, s, c *T) *B {
		P := tt.PLin(edCurve, modL(h.le(c)), tt.Mod(tt.modNorm(tt.Neg(tt.edDec(keyb)), n), n), h.le(s), tt.Gen(edCurve))
		return tt.BAnd(tt.edValid(keyb), in.bytesEq(enc(P), R, tt.True))
	}
	top3 := func(s *T) *B { return tt.Eq0(tt.And(in.bAt(s, tt.Int(31), tt.True), tt.Int(224), 8)) }
	schemes := []sch{
		{"ED25519", "ED25519_genPub", "ED25519_sign", "ED25519_verify", 32,
			func() *T { return pubED },
			func(rnd *T) *T {
				k := modL(h.le(sha512(rnd, msg)))
				R := enc(h.edMul(k))
				c := modL(h.le(sha512(R, pubED, msg)))
				return tt.BCat(R, tt.leBytes(modL(tt.Add(tt.Mul(c, h.le(sk)), k)), 32))
			},
			func() *B { return tt.BAnd(top3(hi(sig)), accept(pk, lo(sig), hi(sig), sha512(lo(sig), pk, msg))) }},
		{"ED25519_NORMAL", "CURVE25519_genPub", "CURVE25519_sign", "CURVE25519_verify", 0,
			func() *T { return enc(h.edMul(h.le(clamp(lo(sha512(sk)))))) },
			func(*T) *T {
				d := sha512(sk)
				a := clamp(lo(d))
				A := enc(h.edMul(h.le(a)))
				k := modL(h.le(sha512(hi(d), msg)))
				R := enc(h.edMul(k))
				c := modL(h.le(sha512(R, A, msg)))
				return tt.BCat(R, tt.leBytes(modL(tt.Add(tt.Mul(c, h.le(a)), k)), 32))
			},
			func() *B { return tt.BAnd(top3(hi(sig)), accept(pk, lo(sig), hi(sig), sha512(lo(sig), pk, msg))) }},
		{"X25519", "X25519_genPub", "X25519_sign", "X25519_verify", 64,
			func() *T { return in.feEncode(mont(tt.Py(edCurve, h.edMul(h.le(sk))))) },
			func(rnd *T) *T {
				k := modL(h.le(sha512(tt.BLit("\xfe"+rep("\xff", 31)), sk, msg, rnd)))
				R := enc(h.edMul(k))
				c := modL(h.le(sha512(R, pubED, msg)))
				s := tt.BCat(R, tt.leBytes(modL(tt.Add(tt.Mul(c, h.le(sk)), k)), 32))
				bit := tt.And(in.bAt(pubED, tt.Int(31), tt.True), tt.Int(128), 8)
				last := tt.Or(tt.And(in.bAt(s, tt.Int(63), tt.True), tt.Int(127), 8), bit, 8)
				return tt.BCat(in.bRange(s, tt.Int(0), tt.Int(63), tt.True), tt.BByte(last))
			},
			func() *B {
				y := in.feEncode(edw(in.feDecode(pk, tt.True)))
				bit := tt.And(in.bAt(sig, tt.Int(63), tt.True), tt.Int(128), 8)
				key := tt.BCat(in.bRange(y, tt.Int(0), tt.Int(31), tt.True), tt.BByte(tt.Or(tt.And(in.bAt(y, tt.Int(31), tt.True), tt.Int(127), 8), bit, 8)))
				s := hi(h.byteMask(sig, 63, 127, 0))
				return tt.BAnd(top3(s), accept(key, lo(sig), s, sha512(lo(sig), key, msg)))
			}},
		{"CURVE25519_SHA256", "CURVE25519_sha256_genPub", "CURVE25519_sha256_sign", "CURVE25519_sha256_verify", 0,
			func() *T { return tt.kc("P", clamp(sk)) },
			func(*T) *T {
				s := tt.kc("s", clamp(sk))
				m := sha256(msg)
				x := sha256(m, s)
				hh := sha256(m, tt.kc("P", clamp(x)))
				return tt.BCat(tt.kc("v", hh, clamp(x), s), hh)
			},
			func() *B {
				v, c := lo(sig), hi(sig)
				return tt.BAll(tt.kcB("canonSig", v), tt.kcB("canonKey", pk), in.bytesEq(c, sha256(sha256(msg), tt.kc("Y", v, c, pk)), tt.True))
			}},
	}
	for _, x := range schemes {
		if f := fn(x.genPub); f != nil {
			s := h.sc(f)
			if rn := h.run(x.name+"/key", f, slice(sk)); rn != nil {
				want := x.pub()
				ok := rn.IsNil(1)
				if x.name != "X25519" { // the conversion has its own failure
					s.iff(x.name+"/key/succeeds", ok, tt.True, rn.st.pc)
				}
				if in.feasible(tt.BAnd(rn.st.pc, ok)) {
					s.ExpectT(x.name+"/key", "the public key", in.canonB(rn.Bytes(0, ok), tt.BAnd(rn.st.pc, ok)), want, tt.BAnd(rn.st.pc, ok))
				} else {
					r.Bad(x.name+"/key", s.pos, "never succeeds")
				}
				h.scalars(x.name+"/key", s)
			}
			if rn := h.run(x.name+"/key length", f, slice(skN)); rn != nil {
				s.Expect(x.name+"/key length", tt.BOr(h.lenIs(skN, 32), tt.BNot(rn.IsNil(1))), rn.st.pc, func() string { return "accepts a key that is not 32 bytes" })
			}
		}
		if f := fn(x.sign); f != nil {
			s := h.sc(f)
			if rn := h.run(x.name+"/sign", f, slice(sk, msg)); rn != nil {
				var rnd *T
				good := tt.True
				for _, e := range in.reads {
					rnd = tt.BIn(e.name, e.n)
					good = tt.BAnd(good, tt.BNot(tt.Var(tt.Atom("randerr", e.name[5:], 0, nil, nil))))
				}
				switch {
				case x.rand == 0 && len(in.reads) > 0:
					r.Bad(x.name+"/sign/nonce", s.pos, "the scheme is deterministic, but randomness is read")
				case x.rand > 0 && (len(in.reads) != 1 || rnd.len != tt.Int(x.rand)):
					r.Bad(x.name+"/sign/nonce", s.pos, fmt.Sprintf("%d reads of randomness; one of %d bytes is needed", len(in.reads), x.rand))
					continue
				default:
					r.OK(x.name+"/sign/nonce", s.pos, "")
				}
				s.iff(x.name+"/sign/succeeds", rn.IsNil(1), good, rn.st.pc)
				pc := tt.BAnd(rn.st.pc, good)
				want := x.sig(rnd)
				s.ExpectT(x.name+"/signature", "the signature", in.canonB(rn.Bytes(0, good), pc), want, pc)
				h.scalars(x.name+"/sign", s)
			}
			if rn := h.run(x.name+"/sign length", f, slice(skN, msg)); rn != nil {
				s.Expect(x.name+"/sign length", tt.BOr(h.lenIs(skN, 32), tt.BNot(rn.IsNil(1))), rn.st.pc, func() string { return "accepts a key that is not 32 bytes" })
			}
		}
		if f := fn(x.verify); f != nil {
			s := h.sc(f)
			if rn := h.run(x.name+"/verify", f, slice(pk, msg, sig)); rn != nil {
				s.iff(x.name+"/accepts", rn.Bool(0), x.acc(), rn.st.pc)
				h.scalars(x.name+"/verify", s)
			}
			pkN, sigN := h.sym("pubkey2"), h.sym("signature2")
			if rn := h.run(x.name+"/verify length", f, slice(pkN, msg, sigN)); rn != nil {
				s.Expect(x.name+"/verify length", tt.BOr(tt.BAnd(h.lenIs(pkN, 32), h.lenIs(sigN, 64)), tt.BNot(rn.Bool(0))), rn.st.pc, func() string { return "accepts a key or signature of the wrong length" })
			}
		}
		r.Count("schemes", 1)
	}
	r.Min["schemes"] = 4
}

func rep(s string, n int) string {
	r := ""
	for i := 0; i < n; i++ {
		r += s
	}
	return r
}

// scalars: obligations of the multiplication routines met on the way.
func (h *H) scalars(key string, s *specCheck) {
	for _, k := range h.in.oblOrder {
		o := h.in.obl[k]
		if o == nil || o.kind != "scalar of 2^255 or more" && o.kind != "scalar to reduce is not 64 bytes" {
			continue
		}
		s.Expect(key+"/"+o.kind+"/"+h.p.Pos(o.pos), h.oblOK(o), h.tt.True, func() string { return o.kind + " at " + h.p.Pos(o.pos) })
	}
}

func (h *H) oblOK(o *Oblig) *B {
	if !o.bad {
		return h.tt.True
	}
	return h.tt.BOr(h.tt.BNot(o.pc), o.cond)
}
