package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C05: dispatch.  The scheme packages' exported functions are uninterpreted;
// what each public function does for each selector must be the one call the
// selector names, on the caller's arguments in their roles.

func init() { checks["C05"] = checkC05 }

type opaqueCall struct {
	name string
	pc   *B
	err  *B // the call reports an error
}

var schemePkgs = []string{"eddsa", "pasta", "bls12_381"}

// callB: the bytes an uninterpreted function returns.
func (tt *Terms) callB(name string, args ...*T) *T {
	ln := tt.Atom("calllen", name, 0, big0, pow2(20), args...)
	if strings.HasSuffix(name, ":out32") {
		ln = tt.Int(32)
	}
	return tt.BIn2("call:"+name, ln, args...)
}

func (tt *Terms) callC(kind, name string, args ...*T) *B {
	return tt.Var(tt.Atom(kind, name, 0, nil, nil, args...))
}

func isArr32(t types.Type) bool {
	n, ok := isByteArray(t)
	return ok && n == 32
}

// modelOpaque makes every exported function of the scheme packages an
// uninterpreted function of its arguments' contents.
func (in *Interp) modelOpaque() {
	for _, sp := range in.p.RepoSP {
		pkg := shortS(sp.Pkg.Path())
		ok := false
		for _, s := range schemePkgs {
			ok = ok || s == pkg
		}
		if !ok {
			continue
		}
		for _, m := range sp.Members {
			if fn, is := m.(*ssa.Function); is && token.IsExported(fn.Name()) {
				in.opaqueFn(fn)
			}
		}
	}
}

func (in *Interp) opaqueFn(fn *ssa.Function) {
	tt := in.tt
	name := shortS(fn.String())
	in.def(name, func(in *Interp, c *callCtx) (Val, bool) {
		sig := fn.Signature
		var args []*T
		var out Val
		np := sig.Params().Len()
		for i := 0; i < np; i++ {
			t := sig.Params().At(i).Type()
			switch {
			case isPtrArr32(t) && i == np-1 && np > 1:
				out = c.args[i]
			case isPtrArr32(t), isByteArr(t), isByteSliceT(t):
				args = append(args, in.bytesOf(c.args[i], c.st))
			case isSliceOfBytes(t):
				s, ok := in.resV(c.args[i], c.st.pc).(*SliceV)
				if !ok {
					return nil, false
				}
				a, ok := in.sliceContent(s, c.st).(*AggV)
				if !ok {
					return nil, false
				}
				for _, e := range a.el {
					args = append(args, in.bytesOf(e, c.st))
				}
			default:
				return nil, false
			}
		}
		oc := len(in.opq)
		in.opq = append(in.opq, opaqueCall{name, c.st.pc, tt.False})
		// one application per combination of argument alternatives
		type app struct {
			g    *B
			args []*T
		}
		apps := []app{{tt.True, nil}}
		for _, t := range args {
			var next []app
			for _, ap := range apps {
				for _, al := range in.hoist(t, tt.BAnd(c.st.pc, ap.g)) {
					next = append(next, app{tt.BAnd(ap.g, al.g), append(append([]*T{}, ap.args...), al.v.(*T))})
				}
			}
			apps = next
		}
		if len(apps) > 16 {
			return nil, false
		}
		each := func(f func(args []*T) Val) Val {
			v := f(apps[0].args)
			for _, ap := range apps[1:] {
				v = in.choiceIf(ap.g, f(ap.args), v)
			}
			return v
		}
		cond := func(kind string) *B {
			b := tt.False
			for _, ap := range apps {
				b = tt.BOr(b, tt.BAnd(ap.g, tt.callC(kind, name, ap.args...)))
			}
			return b
		}
		if out != nil {
			in.store(out, each(func(a []*T) Val { return tt.callB(name+":out32", a...) }), c.st, c.pos)
		}
		var res []Val
		errC := tt.False
		last := -1
		for i := 0; i < sig.Results().Len(); i++ {
			if sig.Results().At(i).Type().String() == "error" {
				errC = cond("callerr")
				in.opq[oc].err = errC
				last = i
			}
		}
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			switch {
			case i == last:
				var e Val = in.errVal(c, name)
				if g := in.errGlobal(fn, "ErrInfinity"); g != nil {
					e = in.choiceIf(cond("callinf"), in.load(&PtrV{o: g}, c.st, c.pos, t), e)
				}
				res = append(res, in.choiceIf(errC, e, &IfaceV{}))
			case isByteSliceT(t):
				b := in.newBytes(each(func(a []*T) Val { return tt.callB(name, a...) }).(*T), c.st, "opaque")
				res = append(res, in.choiceIf(errC, in.nilSlice(), b))
			case isByteArr(t):
				res = append(res, each(func(a []*T) Val { return tt.callB(name+":out32", a...) }))
			case isBoolT(t):
				res = append(res, cond("calltrue"))
			default:
				return nil, false
			}
		}
		if len(res) == 1 {
			return res[0], true
		}
		return &TupleV{res}, true
	})
}

// hoist: the alternatives of a byte string whose parts are choices.
func (in *Interp) hoist(t *T, pc *B) []galt {
	tt := in.tt
	t = in.canonB(t, pc)
	var find func(t *T) *T
	find = func(t *T) *T {
		if t.op == "choice" {
			return t
		}
		if t.op == "cat" {
			for _, a := range t.args {
				if c := find(a); c != nil {
					return c
				}
			}
		}
		return nil
	}
	ch := find(t)
	if ch == nil {
		return []galt{{tt.True, t}}
	}
	var out []galt
	for _, a := range in.alts(ch, pc) {
		if a.g == tt.True {
			return []galt{{tt.True, t}}
		}
		for _, b := range in.hoist(t, tt.BAnd(pc, a.g)) {
			out = append(out, galt{tt.BAnd(a.g, b.g), b.v})
		}
	}
	return out
}

func (in *Interp) errGlobal(fn *ssa.Function, name string) *Obj {
	if g, ok := fn.Pkg.Members[name].(*ssa.Global); ok {
		return in.global(g)
	}
	return nil
}

func isByteSliceT(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByteT(s.Elem())
}
func isByteArr(t types.Type) bool { _, ok := isByteArray(t); return ok }
func isPtrArr32(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isByteArr(p.Elem())
}
func isSliceOfBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByteSliceT(s.Elem())
}

// curvesIn: the curves whose group, field or order occurs.
func curvesIn(ts []*T, cs ...*B) map[string]bool {
	m := map[string]bool{}
	for _, op := range []string{"G", "aff", "px", "py"} {
		for _, a := range atomList(op, ts, cs...) {
			m[a.s] = true
		}
	}
	for _, op := range []string{"mod", "inv", "sqrt"} {
		for _, a := range atomList(op, ts, cs...) {
			if n, ok := modNames[a.s]; ok {
				m[n[strings.Index(n, ".")+1:]] = true
			}
		}
	}
	return m
}

var curveSel = map[string]string{"ECC_CURVE_SECP256K1": "secp256k1", "ECC_CURVE_SECP256R1": "secp256r1", "ECC_CURVE_SM2_STANDARD": "sm2"}

func checkC05(p *Prog, r *Report) {
	dispatch(p, r, nil)
}

// dispatch runs every public operation for each selector.  With see, the runs
// are only shown to it.
func dispatch(p *Prog, r *Report, see func(h *H, key string, s *specCheck, rn *Run, ok *B, outs []int)) {
	if see == nil {
		r.Explain = "Every public operation is evaluated for each selector it supports, with the scheme packages' exported functions uninterpreted: the result must be the one call the selector names on the arguments in their roles, with the selector's domain tag; for the Weierstrass curves the result and the success condition must mention the selector's curve and no other. One evaluation for all remaining 2^32 selector values must show that nothing is called and the wrong-type indication is returned."
		r.Assume = []string{"an uninterpreted scheme function returns nil bytes with an error"}
	}
	h := newH(p, r)
	h.in.RunInit(schemePkgs...)
	h.in.modelOpaque()
	in, tt := h.in, h.tt
	const (
		nul = "ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL"
		aug = "ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG"
	)
	NUL, AUG := tt.BLit("BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_"), tt.BLit("BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_AUG_")
	priv, id, msg, sig, pub := h.sym("prikey"), h.sym("ID"), h.sym("message"), h.sym("signature"), h.sym("pubkey")
	arg := func(t *T, st *State) Val { return in.sliceArg(t, st) }
	args := func(ts ...*T) func(st *State, sel *T) []Val {
		return func(st *State, sel *T) []Val {
			var l []Val
			for _, t := range ts {
				l = append(l, arg(t, st))
			}
			return append(l, sel)
		}
	}
	type out struct {
		bytes map[int]*T // result index -> content on success
		ok    *B         // condition for success
		pre   *B         // compared under this condition only
	}
	type fn struct {
		name   string
		ret    int    // index of the return code, -1 when there is none
		wrong  string // its value for an unsupported selector
		byt    []int  // indices of byte results
		args   func(st *State, sel *T) []Val
		opaque map[string]func() out
		weier  []string
		okOf   func(rn *Run) *B
		plain  []string // supported, checked elsewhere
	}
	one := func(name string, as ...*T) func() out {
		return func() out {
			return out{map[int]*T{0: tt.callB(name, as...)}, tt.BNot(tt.callC("callerr", name, as...)), tt.True}
		}
	}
	yes := func(name string, as ...*T) func() out {
		return func() out { return out{nil, tt.callC("calltrue", name, as...), tt.True} }
	}
	allW := []string{"ECC_CURVE_SECP256K1", "ECC_CURVE_SECP256R1", "ECC_CURVE_SM2_STANDARD"}
	sm2 := allW[2:]
	sc32, pt32, q32, pt48 := h.fix("scalar", 32), h.fix("point", 32), h.fix("point2", 32), h.fix("point", 48)
	p64, q64, z33 := h.fix("point", 64), h.fix("point2", 64), h.fix("compressed", 33)
	m32, s64 := h.fix("message", 32), h.fix("signature", 64)
	notNil := func(i int) func(rn *Run) *B {
		return func(rn *Run) *B { return tt.BNot(rn.IsNil(i)) }
	}
	pubOf := tt.callB("bls12_381.GenPublicKey", priv)
	sigs := func(st *State, sel *T) []Val {
		o := in.newObj("sigs", nil, 0)
		st.mem[o] = &AggV{el: []Val{arg(h.sym("sig1"), st), arg(h.sym("sig2"), st), arg(h.sym("sig3"), st)}}
		return []Val{sel, &SliceV{o: o, off: tt.Int(0), ln: tt.Int(3), cp: tt.Int(3), nilc: tt.False}}
	}
	agg := one("bls12_381.AggregateSignatures", h.sym("sig1"), h.sym("sig2"), h.sym("sig3"))
	ka := func(n int) func(st *State, sel *T) []Val {
		return func(st *State, sel *T) []Val {
			var l []Val
			f := map[int]string{9: "IDI IDR dI pubI pubR tmpdI tmpI tmpR Sin", 6: "IDI IDR dR pubR pubI tmpI", 7: "IDI IDR dR pubR pubI tmpI", 2: "S1 S2"}[n]
			for _, s := range strings.Fields(f) {
				switch s {
				case "dI", "dR", "tmpdI", "Sin":
					l = append(l, arg(h.fix(s, 32), st))
				case "pubI", "pubR", "tmpI", "tmpR":
					l = append(l, arg(h.fix(s, 64), st))
				default:
					l = append(l, arg(h.sym(s), st))
				}
			}
			if n == 9 || n == 6 || n == 7 {
				l = append(l, tt.In("keylen", 1, 32))
			}
			if n == 7 {
				l = append(l, arg(h.fix("random", 32), st))
			}
			return append(l, sel)
		}
	}
	fns := []fn{
		{name: "GenPubkey", ret: 1, wrong: "ECC_WRONG_TYPE", byt: []int{0}, args: args(priv), weier: allW, opaque: map[string]func() out{
			"ECC_CURVE_ED25519_NORMAL": one("eddsa.CURVE25519_genPub", priv), "ECC_CURVE_ED25519": one("eddsa.ED25519_genPub", priv),
			"ECC_CURVE_X25519": one("eddsa.X25519_genPub", priv), "ECC_CURVE_CURVE25519_SHA256": one("eddsa.CURVE25519_sha256_genPub", priv),
			nul: one("bls12_381.GenPublicKey", priv), aug: one("bls12_381.GenPublicKey", priv), "ECC_CURVE_PASTA": one("pasta.GenPublicKey", priv)}},
		{name: "Signature", ret: 2, wrong: "ECC_WRONG_TYPE", byt: []int{0}, args: args(priv, id, msg), weier: allW, opaque: map[string]func() out{
			"ECC_CURVE_ED25519_NORMAL": one("eddsa.CURVE25519_sign", priv, msg), "ECC_CURVE_ED25519": one("eddsa.ED25519_sign", priv, msg),
			"ECC_CURVE_X25519": one("eddsa.X25519_sign", priv, msg), "ECC_CURVE_CURVE25519_SHA256": one("eddsa.CURVE25519_sha256_sign", priv, msg),
			nul: one("bls12_381.Sign", priv, tt.BCat(NUL, msg)), "ECC_CURVE_PASTA": one("pasta.Sign", priv, msg),
			aug: func() out {
				o := one("bls12_381.Sign", priv, tt.BCat(AUG, pubOf, msg))()
				o.pre = tt.BNot(tt.callC("callerr", "bls12_381.GenPublicKey", priv))
				return o
			}}},
		{name: "Verify", ret: 0, wrong: "ECC_WRONG_TYPE", args: args(pub, id, msg, sig), weier: allW, opaque: map[string]func() out{
			"ECC_CURVE_ED25519_NORMAL": yes("eddsa.CURVE25519_verify", pub, msg, sig), "ECC_CURVE_ED25519": yes("eddsa.ED25519_verify", pub, msg, sig),
			"ECC_CURVE_X25519": yes("eddsa.X25519_verify", pub, msg, sig), "ECC_CURVE_CURVE25519_SHA256": yes("eddsa.CURVE25519_sha256_verify", pub, msg, sig),
			nul: yes("bls12_381.Verify", pub, tt.BCat(NUL, msg), sig), aug: yes("bls12_381.Verify", pub, tt.BCat(AUG, pub, msg), sig),
			"ECC_CURVE_PASTA": yes("pasta.Verify", pub, msg, sig)}},
		{name: "AggregateSignatures", ret: 1, wrong: "ECC_WRONG_TYPE", byt: []int{0}, args: sigs, opaque: map[string]func() out{nul: agg, aug: agg}},
		{name: "Encryption", ret: 1, wrong: "ECC_WRONG_TYPE", byt: []int{0}, args: args(p64, m32), weier: sm2},
		{name: "Decryption", ret: 1, wrong: "ECC_WRONG_TYPE", byt: []int{0}, args: args(sc32, h.fix("cipher", 140)), weier: sm2},
		{name: "KeyAgreement_initiator_step1", ret: -1, byt: []int{0, 1}, args: args(), weier: sm2, okOf: notNil(1)},
		{name: "KeyAgreement_initiator_step2", ret: 2, wrong: "ECC_WRONG_TYPE", byt: []int{0, 1}, args: ka(9), weier: sm2},
		{name: "KeyAgreement_responder_step1", ret: 4, wrong: "ECC_WRONG_TYPE", byt: []int{0, 1, 2, 3}, args: ka(6), weier: sm2},
		{name: "KeyAgreement_responder_ElGamal_step1", ret: 4, wrong: "ECC_WRONG_TYPE", byt: []int{0, 1, 2, 3}, args: ka(7), weier: sm2},
		{name: "KeyAgreement_responder_step2", ret: 0, wrong: "ECC_WRONG_TYPE", args: ka(2), plain: sm2},
		{name: "Point_mulBaseG", ret: -1, byt: []int{0}, args: args(sc32), weier: allW, okOf: notNil(0), opaque: map[string]func() out{
			"ECC_CURVE_ED25519": one("eddsa.ED25519_genPub", sc32), nul: one("bls12_381.GenPublicKey", sc32), aug: one("bls12_381.GenPublicKey", sc32)},
			plain: []string{"ECC_CURVE_PASTA"}},
		{name: "Point_mulBaseG_add", ret: -1, byt: []int{0}, args: args(p64, sc32), weier: allW, okOf: notNil(0), opaque: map[string]func() out{
			"ECC_CURVE_PASTA": one("pasta.PointMulBaseGAdd", p64, sc32)}, plain: []string{"ECC_CURVE_ED25519", nul, aug}},
		{name: "Point_add", ret: 1, wrong: "FAILURE", byt: []int{0}, args: args(p64, q64), weier: allW, opaque: map[string]func() out{
			"ECC_CURVE_PASTA": one("pasta.PointAdd", p64, q64)}, plain: []string{"ECC_CURVE_ED25519"}},
		{name: "Point_mul", ret: 1, wrong: "FAILURE", byt: []int{0}, args: args(p64, sc32), weier: allW, opaque: map[string]func() out{
			"ECC_CURVE_PASTA": one("pasta.PointMul", p64, sc32)}, plain: []string{"ECC_CURVE_ED25519"}},
		{name: "PointCompress", ret: -1, byt: []int{0}, args: args(p64), plain: append([]string{"ECC_CURVE_PASTA"}, allW...)},
		{name: "PointDecompress", ret: -1, byt: []int{0}, args: args(z33), weier: allW, okOf: notNil(0), opaque: map[string]func() out{
			"ECC_CURVE_PASTA": one("pasta.PointDecompress", z33)}},
		{name: "RecoverPubkey", ret: 1, wrong: "ECC_WRONG_TYPE", byt: []int{0}, args: args(h.fix("signature", 65), m32), weier: allW},
		{name: "GetCurveOrder", ret: -1, byt: []int{0}, args: args(), plain: append([]string{"ECC_CURVE_PASTA", "ECC_CURVE_ED25519"}, allW...)},
	}
	// inputs for which the Weierstrass code runs to the end
	wargs := map[string]func(st *State, sel *T) []Val{
		"GenPubkey": args(sc32), "Signature": args(sc32, id, m32), "Verify": args(p64, id, m32, s64),
	}
	extra := []struct {
		fn, sel string
		args    func(st *State, sel *T) []Val
		want    func() out
		okOf    func(rn *Run) *B
	}{
		{"Point_mulBaseG_add", "ECC_CURVE_ED25519", args(pt32, sc32), func() out {
			f := "eddsa.ScalarMultBaseAdd"
			return out{map[int]*T{0: tt.callB(f+":out32", pt32, sc32)}, tt.BAnd(tt.callC("calltrue", "eddsa.IsPoint", pt32), tt.BNot(tt.callC("calltrue", f, pt32, sc32))), tt.True}
		}, notNil(0)},
		{"Point_mulBaseG_add", nul, args(pt48, sc32), nil, nil}, {"Point_mulBaseG_add", aug, args(pt48, sc32), nil, nil},
		{"Point_add", "ECC_CURVE_ED25519", args(pt32, q32), func() out {
			f := "eddsa.Point_add"
			return out{map[int]*T{0: tt.callB(f+":out32", pt32, q32)}, tt.BAll(tt.callC("calltrue", "eddsa.IsPoint", pt32), tt.callC("calltrue", "eddsa.IsPoint", q32),
				tt.BNot(tt.callC("calltrue", f, pt32, q32))), tt.True}
		}, nil},
		{"Point_mulBaseG", "ECC_CURVE_PASTA", args(sc32), nil, nil},
	}
	okOf := func(f *fn, rn *Run) *B {
		if f.ret >= 0 {
			return h.retIs(rn, f.ret, "SUCCESS")
		}
		if f.okOf != nil {
			return f.okOf(rn)
		}
		return notNil(0)(rn)
	}
	match := func(key string, f *fn, s *specCheck, rn *Run, o out) {
		if see != nil {
			see(h, key, s, rn, okOf(f, rn), f.byt)
			return
		}
		pc := in.normPC(tt.BAnd(rn.st.pc, o.pre))
		ok := okOf(f, rn)
		s.iff(key+"/succeeds", ok, o.ok, pc)
		pc = in.normPC(tt.BAnd(pc, o.ok))
		var is []int
		for i := range o.bytes {
			is = append(is, i)
		}
		sort.Ints(is)
		for _, i := range is {
			got := in.canonB(rn.Bytes(i, tt.BAnd(o.ok, o.pre)), pc)
			s.ExpectT(key+"/result", "the result", got, o.bytes[i], pc)
		}
		r.Count("scheme_calls", 1)
	}
	for i := range fns {
		f := &fns[i]
		g := needFn(p, r, "", "", f.name)
		if g == nil {
			continue
		}
		s := h.sc(g)
		known := map[string]bool{}
		var sels []string
		for n := range f.opaque {
			known[n] = true
			sels = append(sels, n)
		}
		sort.Strings(sels)
		for _, n := range f.plain {
			known[n] = true
		}
		for _, n := range f.weier {
			known[n] = true
		}
		for _, n := range sels {
			sv, good := h.sel(n)
			if !good {
				continue
			}
			key := f.name + "/" + n
			in.opq = nil
			if rn := h.run(key, g, func(st *State) []Val { return f.args(st, sv) }); rn != nil {
				match(key, f, s, rn, f.opaque[n]())
			}
		}
		for _, n := range f.weier {
			sv, good := h.sel(n)
			if !good {
				continue
			}
			key := f.name + "/" + n
			in.opq = nil
			as := f.args
			if a := wargs[f.name]; a != nil {
				as = a
			}
			rn := h.run(key, g, func(st *State) []Val { return as(st, sv) })
			if rn == nil {
				continue
			}
			ok := okOf(f, rn)
			if see != nil {
				see(h, key, s, rn, ok, f.byt)
				if rn := h.run(key+"/any length", g, func(st *State) []Val { return f.args(st, sv) }); rn != nil && wargs[f.name] != nil {
					see(h, key+"/any length", s, rn, okOf(f, rn), f.byt)
				}
				continue
			}
			var ts []*T
			for _, i := range f.byt {
				ts = append(ts, rn.Bytes(i, ok))
			}
			if !in.feasible(tt.BAnd(rn.st.pc, ok)) {
				s.r.Bad(key+"/succeeds", s.pos, "never succeeds")
				continue
			}
			m := curvesIn(ts, ok)
			want := curveSel[n]
			var other []string
			for c := range m {
				if c != want && curveByName(c) != nil {
					other = append(other, c)
				}
			}
			sort.Strings(other)
			switch {
			case len(in.opq) > 0:
				r.Bad(key, s.pos, "runs "+in.opq[0].name+", which is not the selector's scheme")
			case len(other) > 0:
				r.Bad(key, s.pos, fmt.Sprintf("uses curve %s, the selector names %s", strings.Join(other, ", "), want))
			case !m[want]:
				r.Undecided(key, "the selector's curve does not occur in the result")
			default:
				r.OK(key, s.pos, "")
				r.Count("curve_runs", 1)
			}
		}
		for _, e := range extra {
			if e.fn != f.name {
				continue
			}
			sv, good := h.sel(e.sel)
			if !good {
				continue
			}
			key := f.name + "/" + e.sel + "/own length"
			in.opq = nil
			rn := h.run(key, g, func(st *State) []Val { return e.args(st, sv) })
			if rn == nil {
				continue
			}
			if see != nil {
				see(h, key, s, rn, okOf(f, rn), f.byt)
				continue
			}
			if e.want != nil {
				match(key, f, s, rn, e.want())
				continue
			}
			if e.sel == "ECC_CURVE_PASTA" { // compressed form of the generated key
				k := "pasta.GenPublicKey"
				pk := tt.callB(k, sc32)
				e0 := tt.callC("callerr", k, sc32)
				is64 := tt.Eq(pk.len, tt.Int(64))
				pc := tt.BAll(rn.st.pc, tt.BNot(e0), is64)
				s.iff(key+"/succeeds", okOf(f, rn), tt.True, pc)
				got := in.canonB(rn.Bytes(0, tt.BAnd(tt.BNot(e0), is64)), pc)
				if l := atomList("in", []*T{got}); len(l) == 0 || !hasTerm(l, pk) {
					r.Bad(key+"/result", s.pos, "the result is not made of pasta.GenPublicKey's: "+clip(got.String(), 200))
				} else {
					r.OK(key+"/result", s.pos, "")
				}
				continue
			}
			k := "bls12_381.ScalarMultBaseAdd"
			s.ExpectT(key+"/result", "the result", in.canonB(rn.Bytes(0, tt.True), rn.st.pc), tt.callB(k, pt48, sc32), rn.st.pc)
			s.iff(key+"/infinity", rn.Bool(1), tt.callC("calltrue", k, pt48, sc32), rn.st.pc)
		}
		// everything else
		key := f.name + "/unsupported"
		in.opq = nil
		sv := tt.In("selector", 0, 0xffffffff)
		rn := h.run(key, g, func(st *State) []Val {
			for n := range known {
				if c, good := h.sel(n); good {
					st.pc = tt.BAnd(st.pc, tt.BNot(tt.Eq(sv, c)))
				}
			}
			return f.args(st, sv)
		})
		if rn == nil {
			continue
		}
		if see != nil {
			see(h, key, s, rn, okOf(f, rn), f.byt)
			continue
		}
		if f.ret >= 0 {
			s.Expect(key+"/code", h.retIs(rn, f.ret, f.wrong), rn.st.pc, h.detail("the return code", rn.Int(f.ret, tt.True)))
		}
		for _, i := range f.byt {
			s.Expect(fmt.Sprintf("%s/output%d", key, i), rn.IsNil(i), rn.st.pc, func() string { return "an output is not nil: " + clip(rn.Bytes(i, tt.True).String(), 200) })
		}
		if len(in.opq) > 0 {
			r.Bad(key+"/runs", s.pos, "runs "+in.opq[0].name)
		} else if len(in.reads) > 0 {
			r.Bad(key+"/runs", s.pos, "reads randomness")
		} else {
			r.OK(key+"/runs", s.pos, "")
		}
		r.Count("unsupported_selectors", 1)
	}
	if see != nil {
		return
	}
	// the order reported
	if g := needFn(p, r, "", "", "GetCurveOrder"); g != nil {
		for n, v := range map[string]*T{"ECC_CURVE_SECP256K1": tt.Const(curveByName("secp256k1").n), "ECC_CURVE_SECP256R1": tt.Const(curveByName("secp256r1").n),
			"ECC_CURVE_SM2_STANDARD": tt.Const(curveByName("sm2").n), "ECC_CURVE_ED25519": tt.Const(ordL), "ECC_CURVE_PASTA": tt.Const(pastaQ)} {
			if sv, good := h.sel(n); good {
				if rn := h.run("GetCurveOrder/"+n, g, func(st *State) []Val { return []Val{sv} }); rn != nil {
					h.sc(g).ExpectT("GetCurveOrder/"+n, "the order", rn.Bytes(0, tt.True), tt.BE(v, 32), rn.st.pc)
				}
			}
		}
	}
	r.Min["scheme_calls"] = 25
	r.Min["curve_runs"] = 20
	r.Min["unsupported_selectors"] = 19
}

func hasTerm(l []*T, t *T) bool {
	for _, x := range l {
		if x == t {
			return true
		}
	}
	return false
}
