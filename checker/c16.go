package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// C16: Mina signatures.

func init() { checks["C16"] = checkC16 }

// minaHash: the sponge of rate 2 over the elements, from the given state.
func (tt *Terms) minaHash(iv, els []*T) *T {
	st := append([]*T{}, iv...)
	perm := func() {
		var n []*T
		for j := 0; j < 3; j++ {
			n = append(n, tt.permC(j, st))
		}
		st = n
	}
	for i, e := range els {
		if i > 0 && i%2 == 0 {
			perm()
		}
		st[i%2] = tt.map2(st[i%2], e, func(a, b *T) *T { return tt.Mod(tt.Add(a, b), pastaP) })
	}
	perm()
	return st[0]
}

// pastaPt: the point an encoding of the given length stands for, and when there is one.
func (h *H) pastaPt(b *T) (*T, *B) {
	in, tt := h.in, h.tt
	rng := func(off int64) *T { return tt.Val(in.bRange(b, tt.Int(off), tt.Int(32), tt.True)) }
	n := b.len.c.Int64()
	if n == 33 {
		x := rng(1)
		b0 := in.bAt(b, tt.Int(0), tt.True)
		odd := tt.Eq(b0, tt.Int(3))
		fx := h.rhs(pallas, x)
		y := h.lift(pallas, x, odd)
		return tt.Aff(pallas, x, y), tt.BAll(tt.BOr(tt.Eq(b0, tt.Int(2)), odd), tt.Lt(x, tt.Const(pastaP)), tt.IsSquare(fx, pastaP))
	}
	off := n - 64
	x, y := rng(off), rng(off+32)
	ok := tt.BAll(tt.Lt(x, tt.Const(pastaP)), tt.Lt(y, tt.Const(pastaP)), tt.Eq0(tt.Mod(tt.Sub(tt.Mul(y, y), h.rhs(pallas, x)), pastaP)))
	if off == 1 {
		ok = tt.BAnd(ok, tt.Eq(in.bAt(b, tt.Int(0), tt.True), tt.Int(4)))
	}
	return tt.Aff(pallas, x, y), ok
}

func checkC16(p *Prog, r *Report) {
	r.Explain = "Package pasta evaluated on unknown keys, messages and signatures, with field elements as terms modulo the two Pallas primes, points as integer combinations of the base point and decoded points, the permutation and the message parser uninterpreted. Verification must accept exactly under the scheme's condition; a produced signature must be, byte for byte, the scheme's; point operations must decode, combine and encode exactly. The permutation itself is compared with its specification (round constants, x^5, matrix), and absorbing is compared in every sponge position."
	r.Assume = []string{"the field routines compute the field operations they are named after (C24), and the group routines the group operations (C22)", "round constants and matrix are those of C07's fingerprint"}
	h := newHOn(p, r, "pasta")
	in, tt := h.in, h.tt
	in.modelPastaField()
	in.modelPastaGroup()
	fn := func(name string) *ssa.Function { return needFn(p, r, "pasta", "", name) }
	w := pallas
	G := tt.Gen(w)
	slice := func(ts ...*T) func(st *State) []Val {
		return func(st *State) []Val {
			var l []Val
			for _, t := range ts {
				l = append(l, in.sliceArg(t, st))
			}
			return l
		}
	}
	sk := h.fix("prikey", 32)
	d := tt.Val(sk)
	top2 := tt.Eq0(tt.And(in.bAt(sk, tt.Int(0), tt.True), tt.Int(0xC0), 8))
	dOK := tt.BAnd(top2, tt.BNot(tt.Eq0(tt.Mod(d, pastaQ))))
	enc := func(P *T) *T { x, y := tt.coords(w, P); return tt.BCat(tt.BE(x, 32), tt.BE(y, 32)) }
	if f := fn("GenPublicKey"); f != nil {
		s := h.sc(f)
		if rn := h.run("GenPublicKey", f, slice(sk)); rn != nil {
			s.iff("GenPublicKey/succeeds", rn.IsNil(1), dOK, rn.st.pc)
			h.outIs(s, "GenPublicKey", rn, 0, rn.IsNil(1), enc(tt.PMul(w, d, G)))
		}
	}
	skN := h.sym("prikey2")
	if f := fn("GenPublicKey"); f != nil {
		s := h.sc(f)
		if rn := h.run("GenPublicKey length", f, slice(skN)); rn != nil {
			s.Expect("GenPublicKey length", tt.BOr(h.lenIs(skN, 32), tt.BNot(rn.IsNil(1))), rn.st.pc, func() string { return "accepts a key that is not 32 bytes" })
		}
	}
	in.modelPoseidon()
	msg := h.sym("message")
	els := func(s string, n int) []*T {
		var l []*T
		for j := 0; j < n; j++ {
			l = append(l, tt.minaEl(s, j, msg))
		}
		return l
	}
	parsed := tt.BNot(tt.minaBad(msg))
	for _, nn := range [][2]int{{0, 0}, {1, 0}, {2, 1}, {3, 4}} {
		in.modelMina(nn[0], nn[1])
		tag := fmt.Sprintf(" (%d prefix, %d suffix elements)", nn[0], nn[1])
		hash := func(P, rx *T) *T {
			x, y := tt.coords(w, P)
			l := append(els("prefix", nn[0]), x, y, rx)
			return tt.minaHash(els("iv", 3), append(l, els("suffix", nn[1])...))
		}
		if f := fn("Sign"); f != nil {
			s := h.sc(f)
			if rn := h.run("Sign"+tag, f, slice(sk, msg)); rn != nil {
				h.minaSign(s, rn, "Sign"+tag, d, dOK, parsed, enc, hash)
			}
		}
		if f := fn("Verify"); f != nil {
			s := h.sc(f)
			sig := h.fix("signature", 64)
			r, sv := h.num32(sig, 0, tt.True), h.num32(sig, 32, tt.True)
			for _, n := range []int64{33, 64, 65} {
				pk := h.fix(fmt.Sprintf("pubkey%d", n), n)
				key := fmt.Sprintf("Verify, %d-byte key%s", n, tag)
				rn := h.run(key, f, slice(pk, msg, sig))
				if rn == nil {
					continue
				}
				P, pok := h.pastaPt(pk)
				e := tt.mapC(hash(P, r), func(e *T) *T { return tt.Mod(tt.Neg(e), pastaQ) })
				R := in.res(tt.PLin(w, sv, G, e, P), rn.st.pc)
				rm, is := tt.Mod(r, pastaP), tt.False
				for _, a := range in.alts(R, rn.st.pc) {
					x, y := tt.coords(w, a.v.(*T))
					// the identity counts as (0, 0)
					eq := tt.Eq0(tt.Mod(tt.Sub(x, rm), w.p))
					if n == 33 {
						id := tt.Eq0(y)
						is = tt.BOr(is, tt.BAnd(a.g, tt.BOr(tt.BAnd(id, tt.Eq0(rm)), tt.BAll(tt.BNot(id), tt.BNot(h.odd(y)), eq))))
						continue
					}
					is = tt.BOr(is, tt.BAll(a.g, tt.BNot(h.odd(y)), eq))
				}
				acc := tt.BAll(pok, tt.Lt(r, tt.Const(pastaP)), tt.Lt(sv, tt.Const(pastaQ)), parsed, is)
				_, py := tt.coords(w, P)
				// the group order is odd: no point has ordinate 0
				s.iff(key+"/accepts", rn.Bool(0), acc, tt.BAnd(rn.st.pc, tt.BNot(tt.BAnd(pok, tt.Eq0(py)))))
			}
		}
	}
	if f := fn("Verify"); f != nil {
		s := h.sc(f)
		sigN, pkN := h.sym("signatureN"), h.sym("pubkeyN")
		if rn := h.run("Verify signature length", f, slice(h.fix("pubkey64", 64), msg, sigN)); rn != nil {
			s.Expect("Verify signature length", tt.BOr(h.lenIs(sigN, 64), tt.BNot(rn.Bool(0))), rn.st.pc, func() string { return "accepts a signature that is not 64 bytes" })
		}
		if rn := h.run("Verify key length", f, slice(pkN, msg, h.fix("signature", 64))); rn != nil {
			len3 := tt.BOr(h.lenIs(pkN, 33), tt.BOr(h.lenIs(pkN, 64), h.lenIs(pkN, 65)))
			s.Expect("Verify key length", tt.BOr(len3, tt.BNot(rn.Bool(0))), rn.st.pc, func() string { return "accepts a key of another length" })
		}
	}
	h.pastaPoints(fn, slice)
	h.pastaSponge()
	pastaPermutation(p, r)
}

// pastaPoints: decoding, and the point operations.
func (h *H) pastaPoints(fn func(string) *ssa.Function, slice func(ts ...*T) func(st *State) []Val) {
	in, tt := h.in, h.tt
	w := pallas
	type op struct {
		name   string
		points int
		scalar bool
		base   bool
	}
	num := h.fix("scalar", 32)
	k := tt.Val(num)
	small := tt.Eq0(tt.And(in.bAt(num, tt.Int(0), tt.True), tt.Int(0xC0), 8))
	for _, o := range []op{{"PointDecompress", 1, false, false}, {"PointAdd", 2, false, false}, {"PointMul", 1, true, false}, {"PointMulBaseGAdd", 1, true, true}} {
		f := fn(o.name)
		if f == nil {
			continue
		}
		s := h.sc(f)
		for _, l1 := range []int64{33, 64, 65} {
			for _, l2 := range []int64{33, 64, 65} {
				if o.points == 1 && l2 != 33 || o.points == 2 && (l1 == 65 && l2 == 65 || l1 == 33 && l2 == 33) {
					continue
				}
				a, b := h.fix(fmt.Sprintf("point%d", l1), l1), h.fix(fmt.Sprintf("second%d", l2), l2)
				key := fmt.Sprintf("%s, %d bytes", o.name, l1)
				args := []*T{a}
				if o.points == 2 {
					key += fmt.Sprintf(" and %d", l2)
					args = append(args, b)
				}
				if o.scalar {
					args = append(args, num)
				}
				rn := h.run(key, f, slice(args...))
				if rn == nil {
					continue
				}
				P, ok := h.pastaPt(a)
				_, py := tt.coords(w, P)
				dom := tt.BNot(tt.BAnd(ok, tt.Eq0(py))) // no point of odd order has ordinate 0
				R := P
				switch {
				case o.points == 2:
					Q, okb := h.pastaPt(b)
					_, qy := tt.coords(w, Q)
					dom = tt.BAnd(dom, tt.BNot(tt.BAnd(okb, tt.Eq0(qy))))
					ok = tt.BAnd(ok, okb)
					R = tt.PAdd(w, P, Q)
				case o.base:
					ok = tt.BAnd(ok, small)
					R = tt.PAdd(w, tt.PMul(w, k, tt.Gen(w)), P)
				case o.scalar:
					R = tt.PMul(w, k, P)
				}
				pc := tt.BAnd(rn.st.pc, dom)
				R = in.res(R, tt.BAnd(pc, ok))
				var want *T
				var cs []*B
				var vs []*T
				zero := tt.False
				for _, x := range in.alts(R, tt.BAnd(pc, ok)) {
					cx, cy := tt.coords(w, x.v.(*T))
					z := tt.Eq0(cy)
					zero = tt.BOr(zero, tt.BAnd(x.g, z))
					e := tt.BCat(tt.BE(tt.Mod(cx, w.p), 32), tt.BE(tt.Mod(cy, w.p), 32))
					if o.name == "PointDecompress" {
						e = tt.BCat(tt.BLit("\x04"), e)
					}
					cs, vs = append(cs, x.g), append(vs, e)
				}
				want = vs[0]
				if len(vs) > 1 {
					want = tt.Choice(cs, vs)
				}
				if o.name != "PointDecompress" {
					ok = tt.BAnd(ok, tt.BNot(zero))
				}
				s.iff(key+"/succeeds", rn.IsNil(1), ok, pc)
				pc = tt.BAnd(pc, ok)
				s.ExpectT(key+"/result", "the result", in.canonB(rn.Bytes(0, ok), pc), want, pc)
			}
		}
		n := h.sym("pointN")
		args := []*T{n}
		if o.points == 2 {
			args = append(args, h.fix("second33", 33))
		}
		if o.scalar {
			args = append(args, num)
		}
		if rn := h.run(o.name+" length", f, slice(args...)); rn != nil {
			len3 := tt.BOr(h.lenIs(n, 33), tt.BOr(h.lenIs(n, 64), h.lenIs(n, 65)))
			s.Expect(o.name+" length", tt.BOr(len3, tt.BNot(rn.IsNil(1))), rn.st.pc, func() string { return "accepts a point of another length" })
		}
	}
}

// pastaSponge: absorbing one element in every position of the sponge, and the digest.
func (h *H) pastaSponge() {
	in, tt, p, r := h.in, h.tt, h.p, h.r
	init := needFn(p, r, "pasta", "", "NewPoseidonCtx3W")
	upd := needFn(p, r, "pasta", "", "PoseidonUpdate")
	dig := needFn(p, r, "pasta", "", "PoseidonDigest")
	if init == nil || upd == nil || dig == nil {
		return
	}
	ctxT := init.Signature.Results().At(0).Type()
	sT, ok := ctxT.Underlying().(*types.Struct)
	if !ok {
		r.Bad("sponge", p.Pos(init.Pos()), "no sponge context")
		return
	}
	iState, iAbs := fieldIx(sT, "State"), fieldIx(sT, "Absorbed")
	if iState < 0 || iAbs < 0 {
		r.Undecided("sponge", "the context has other fields")
		return
	}
	var st3 []*T
	for j := 0; j < 3; j++ {
		st3 = append(st3, tt.Atom("in", fmt.Sprintf("state%d", j), 0, big0, new(big.Int).Sub(pastaP, big1)))
	}
	el := tt.Atom("in", "element", 0, big0, new(big.Int).Sub(pastaP, big1))
	var o *Obj
	mk := func(st *State, abs int) Val {
		v, s2 := in.callFunc(init, nil, nil, st, nil)
		if s2 != nil {
			st.pc, st.mem = s2.pc, s2.mem
		}
		a, good := in.resV(v, st.pc).(*AggV)
		if !good {
			return nil
		}
		a = &AggV{el: append([]Val{}, a.el...)}
		sv, good := a.el[iState].(*AggV)
		if !good {
			return nil
		}
		sv = &AggV{el: append([]Val{}, sv.el...)}
		for j := 0; j < 3; j++ {
			sv.el[j] = in.feVal(fePasta, st3[j])
		}
		a.el[iState], a.el[iAbs] = sv, tt.Int(int64(abs))
		o = in.newObj("ctx", ctxT, init.Pos())
		st.mem[o] = a
		return &PtrV{o: o}
	}
	perm := func(s []*T) []*T { return []*T{tt.permC(0, s), tt.permC(1, s), tt.permC(2, s)} }
	s := h.sc(upd)
	for abs := 0; abs <= 2; abs++ {
		key := fmt.Sprintf("sponge/absorb at position %d", abs)
		rn := h.run(key, upd, func(st *State) []Val {
			c := mk(st, abs)
			arr := in.newObj("input", types.NewArray(sT.Field(iState).Type().Underlying().(*types.Array).Elem(), 1), upd.Pos())
			st.mem[arr] = &AggV{el: []Val{in.feVal(fePasta, el)}}
			one := tt.Int(1)
			return []Val{c, &SliceV{o: arr, off: tt.Int(0), ln: one, cp: one, nilc: tt.False}}
		})
		if rn == nil || o == nil {
			continue
		}
		a, good := in.objVal(rn.st, o).(*AggV)
		if !good {
			r.Undecided(key, "context of unexpected form")
			continue
		}
		want, at := st3, abs
		if abs == 2 {
			want, at = perm(st3), 0
		}
		want = append([]*T{}, want...)
		want[at] = tt.Mod(tt.Add(want[at], el), pastaP)
		sv, _ := in.resV(a.el[iState], rn.st.pc).(*AggV)
		for j := 0; j < 3 && sv != nil; j++ {
			s.ExpectT(fmt.Sprintf("%s/state %d", key, j), "the state", in.feOf(fePasta, sv.el[j], rn.st), want[j], rn.st.pc)
		}
		s.ExpectT(key+"/count", "the number of absorbed elements", in.intOf(a.el[iAbs], rn.st), tt.Int(int64(at+1)), rn.st.pc)
	}
	for abs := 0; abs <= 2; abs++ {
		key := fmt.Sprintf("sponge/digest at position %d", abs)
		if rn := h.run(key, dig, func(st *State) []Val { return []Val{mk(st, abs)} }); rn != nil {
			h.sc(dig).ExpectT(key, "the digest", in.canonB(rn.Bytes(0, tt.True), rn.st.pc), tt.BE(tt.permC(0, st3), 32), rn.st.pc)
		}
	}
}

// pastaPermutation: the permutation against its specification, x^5 kept as one symbol.
func pastaPermutation(p *Prog, r *Report) {
	h := newHOn(p, r, "pasta")
	in, tt := h.in, h.tt
	in.modelPastaField()
	f := needFn(p, r, "pasta", "", "PerMutation3W")
	init := needFn(p, r, "pasta", "", "NewPoseidonCtx3W")
	pow := needFn(p, r, "pasta", "", "FieldPow")
	if f == nil || init == nil || pow == nil {
		return
	}
	x := tt.Atom("in", "x", 0, big0, new(big.Int).Sub(pastaP, big1))
	var out *Obj
	if rn := h.run("x^5", pow, func(st *State) []Val {
		fT := pow.Signature.Params().At(1).Type()
		out = in.newObj("out", fT, pow.Pos())
		st.mem[out] = in.zero(fT)
		return []Val{&PtrV{o: out}, in.feVal(fePasta, x), tt.Int(5)}
	}); rn != nil {
		x2 := tt.Mul(x, x)
		h.sc(pow).ExpectT("x^5", "the power", in.feOf(fePasta, in.objVal(rn.st, out), rn.st), tt.Mod(tt.Mul(tt.Mul(x2, x2), x), pastaP), rn.st.pc)
	}
	e := &cEnv{h: h, r: r, st: in.newState()}
	tab := func(name string) [][]*T {
		l, _, ok := e.nums("pasta", name)
		if !ok || len(l)%12 != 0 {
			return nil
		}
		var o [][]*T
		for i := 0; i < len(l); i += 12 {
			var row []*T
			for j := i; j < i+12; j += 4 {
				v := new(big.Int)
				for k := 3; k >= 0; k-- {
					v.Add(v.Lsh(v, 64), l[j+k])
				}
				row = append(row, tt.Const(mulm(pastaP, v, modInv(fePasta.r, pastaP))))
			}
			o = append(o, row)
		}
		return o
	}
	keys, m := tab("RoundKeys3W"), tab("MdsMatrix3W")
	if len(keys) != 64 || len(m) != 3 {
		r.Bad("permutation/tables", p.Pos(f.Pos()), fmt.Sprintf("%d round keys and %d matrix rows", len(keys), len(m)))
		return
	}
	p5 := func(x *T) *T {
		return tt.Atom("powmod", "5/"+pastaP.Text(16), 0, big0, new(big.Int).Sub(pastaP, big1), x)
	}
	in.def("pasta.FieldPow", func(in *Interp, c *callCtx) (Val, bool) {
		e := in.intOf(c.args[2], c.st)
		if e != tt.Int(5) {
			return nil, false
		}
		in.store(c.args[0], in.feVal(fePasta, tt.mapC(in.feOf(fePasta, c.args[1], c.st), p5)), c.st, c.pos)
		return &TupleV{}, true
	})
	var st3 []*T
	for j := 0; j < 3; j++ {
		st3 = append(st3, tt.Atom("in", fmt.Sprintf("state%d", j), 0, big0, new(big.Int).Sub(pastaP, big1)))
	}
	ctxT := init.Signature.Results().At(0).Type()
	iState := fieldIx(ctxT.Underlying().(*types.Struct), "State")
	var o *Obj
	rn := h.run("permutation", f, func(st *State) []Val {
		v, s2 := in.callFunc(init, nil, nil, st, nil)
		if s2 != nil {
			st.pc, st.mem = s2.pc, s2.mem
		}
		o = in.newObj("ctx", ctxT, f.Pos())
		a := &AggV{el: append([]Val{}, in.resV(v, st.pc).(*AggV).el...)}
		sv := &AggV{el: append([]Val{}, a.el[iState].(*AggV).el...)}
		for j := 0; j < 3; j++ {
			sv.el[j] = in.feVal(fePasta, st3[j])
		}
		a.el[iState] = sv
		st.mem[o] = a
		return []Val{&PtrV{o: o}}
	})
	if rn == nil {
		return
	}
	mod := func(t *T) *T { return tt.Mod(t, pastaP) }
	w := append([]*T{}, st3...)
	for i := 0; i < 63; i++ {
		var s [3]*T
		for j := range s {
			s[j] = p5(mod(tt.Add(w[j], keys[i][j])))
		}
		for j := range s {
			w[j] = tt.Int(0)
			for k := range s {
				w[j] = tt.Add(w[j], tt.Mul(m[j][k], s[k]))
			}
			w[j] = mod(w[j])
		}
	}
	sv, _ := in.resV(in.objVal(rn.st, o).(*AggV).el[iState], rn.st.pc).(*AggV)
	for j := 0; j < 3 && sv != nil; j++ {
		h.sc(f).ExpectT(fmt.Sprintf("permutation/state %d", j), "the state", in.feOf(fePasta, sv.el[j], rn.st), mod(tt.Add(w[j], keys[63][j])), rn.st.pc)
	}
	r.Count("rounds", 63)
}

// minaSign: the nonce is drawn until it is not zero; the last draw is the one used.
func (h *H) minaSign(s *specCheck, rn *Run, key string, d *T, dOK, parsed *B, enc func(P *T) *T, hash func(P, rx *T) *T) {
	in, tt, r := h.in, h.tt, h.r
	w := pallas
	G := tt.Gen(w)
	for _, e := range in.reads {
		if e.n != tt.Int(32) {
			r.Bad(key+"/nonce", s.pos, "the nonce is not drawn from 32 random bytes")
			return
		}
	}
	if len(in.reads) == 0 {
		r.Bad(key+"/nonce", s.pos, "no randomness is read")
		return
	}
	e := in.reads[len(in.reads)-1]
	good := tt.BAll(dOK, parsed, tt.BNot(tt.Var(tt.Atom("randerr", e.name[5:], 0, nil, nil))))
	k := tt.Val(h.byteMask(tt.BIn(e.name, e.n), 0, 0x3F, 0))
	zero := tt.Eq0(tt.Mod(k, w.n))
	s.Expect(key+"/nonce not zero", tt.BNot(tt.BAnd(zero, rn.IsNil(1))), rn.st.pc, func() string { return "signs with nonce 0" })
	pc := tt.BAnd(rn.st.pc, tt.BNot(zero))
	s.iff(key+"/succeeds", rn.IsNil(1), good, pc)
	ok := tt.BAnd(pc, good)
	x, y := tt.coords(w, tt.PMul(w, k, G))
	kk := tt.Choice([]*B{h.odd(y), tt.BNot(h.odd(y))}, []*T{tt.Neg(k), k})
	c := hash(tt.PMul(w, d, G), x)
	sv := tt.map2(kk, c, func(k, c *T) *T { return tt.Mod(tt.Add(k, tt.Mul(c, d)), w.n) })
	s.ExpectT(key+"/signature", "the signature", in.canonB(rn.Bytes(0, ok), ok), tt.BCat(tt.BE(x, 32), tt.BE(sv, 32)), ok)
}
