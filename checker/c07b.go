package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
)

// f2 is an element of Fp[u]/(u^2+1).
type f2 [2]*big.Int

func f2mul(m *big.Int, a, b f2) f2 {
	r := new(big.Int).Sub(new(big.Int).Mul(a[0], b[0]), new(big.Int).Mul(a[1], b[1]))
	i := new(big.Int).Add(new(big.Int).Mul(a[0], b[1]), new(big.Int).Mul(a[1], b[0]))
	return f2{r.Mod(r, m), i.Mod(i, m)}
}
func f2add(m *big.Int, a, b f2) f2 {
	r, i := new(big.Int).Add(a[0], b[0]), new(big.Int).Add(a[1], b[1])
	return f2{r.Mod(r, m), i.Mod(i, m)}
}
func f2neg(m *big.Int, a f2) f2 {
	r, i := new(big.Int).Neg(a[0]), new(big.Int).Neg(a[1])
	return f2{r.Mod(r, m), i.Mod(i, m)}
}
func f2inv(m *big.Int, a f2) f2 {
	n := new(big.Int).Add(new(big.Int).Mul(a[0], a[0]), new(big.Int).Mul(a[1], a[1]))
	n = modInv(n.Mod(n, m), m)
	return f2{mulm(m, a[0], n), mulm(m, new(big.Int).Neg(a[1]), n)}
}
func f2exp(m *big.Int, a f2, k *big.Int) f2 {
	r := f2{big1, big0}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = f2mul(m, r, r)
		if k.Bit(i) == 1 {
			r = f2mul(m, r, a)
		}
	}
	return r
}

func f2polymul(m *big.Int, a, b []f2) []f2 {
	r := make([]f2, len(a)+len(b)-1)
	for i := range r {
		r[i] = f2{big0, big0}
	}
	for i := range a {
		for j := range b {
			r[i+j] = f2add(m, r[i+j], f2mul(m, a[i], b[j]))
		}
	}
	return r
}
func f2polyadd(m *big.Int, a, b []f2) []f2 {
	var r []f2
	for i := 0; i < len(a) || i < len(b); i++ {
		x := f2{big0, big0}
		if i < len(a) {
			x = f2add(m, x, a[i])
		}
		if i < len(b) {
			x = f2add(m, x, b[i])
		}
		r = append(r, x)
	}
	return r
}

// isogenyOK: xn^3*yd^2 + B*xd^3*yd^2 = (X^3 + a X + b)*yn^2*xd^3.
func isogenyOK(m *big.Int, xn, xd, yn, yd []f2, a, b, B f2) bool {
	mu := func(l ...[]f2) []f2 {
		r := []f2{{big1, big0}}
		for _, x := range l {
			r = f2polymul(m, r, x)
		}
		return r
	}
	L := f2polyadd(m, mu(xn, xn, xn, yd, yd), mu([]f2{B}, xd, xd, xd, yd, yd))
	R := mu([]f2{b, a, {big0, big0}, {big1, big0}}, yn, yn, xd, xd, xd)
	D := f2polyadd(m, L, mu([]f2{{big.NewInt(-1), big0}}, R))
	for _, d := range D {
		if d[0].Sign() != 0 || d[1].Sign() != 0 {
			return false
		}
	}
	return true
}

func (e *cEnv) bls() {
	const pk = "bls12_381/bls"
	p := blsP
	R := new(big.Int).Lsh(big1, 384)
	Ri := modInv(new(big.Int).Mod(R, p), p)
	i64 := func(k int64) *big.Int { return bi(k) }
	el := func(name string, want ...*big.Int) {
		for i := range want {
			want[i] = mulm(p, want[i], R)
		}
		e.elems(pk, name, pos64[:6], p, true, nil, want...)
	}
	u := func(l ...f2) []*big.Int {
		var o []*big.Int
		for _, x := range l {
			o = append(o, x[0], x[1])
		}
		return o
	}
	half := func(v *big.Int, n uint) *big.Int { return new(big.Int).Rsh(v, n) }
	m1 := new(big.Int).Sub(p, big1)
	e.elems(pk, "modulus", pos64[:6], new(big.Int).Lsh(big1, 384), true, nil, p)
	w64 := new(big.Int).Lsh(big1, 64)
	inv := new(big.Int).ModInverse(new(big.Int).Mod(p, w64), w64)
	e.list(pk, "inp", inv.Sub(w64, inv))
	el("r1", i64(1))
	el("r2", R)
	el("negativeOne2", m1, i64(0))
	el("twoInv", modInv(i64(2), p))
	e.list(pk, "pMinus3Over4", half(new(big.Int).Sub(p, i64(3)), 2))
	e.list(pk, "pPlus1Over4", half(new(big.Int).Add(p, i64(1)), 2))
	e.list(pk, "pMinus1Over2", half(m1, 1))
	el("nonResidue1", m1)
	el("nonResidue2", i64(1), i64(1))
	for _, s := range []struct {
		n string
		k uint
	}{{"h1", 63}, {"h2", 62}} {
		if l, pos, ok := e.nums(pk, s.n); ok && len(l) == 7 {
			e.eq(pk+"."+s.n, pos, limbsVal(l, pos64), new(big.Int).Lsh(p, s.k))
		}
	}
	el("b", i64(4))
	el("b2", i64(4), i64(4))
	e.list(pk, "q", blsR)
	t := new(big.Int).Neg(blsX)
	pw := func(k int64) *big.Int { return new(big.Int).Exp(t, bi(k), nil) }
	g1 := new(big.Int).Sub(t, big1)
	g1.Mul(g1, g1).Div(g1, bi(3))
	e.list(pk, "cofactorG1", g1)
	g2 := new(big.Int)
	for i, c := range []int64{13, -4, -4, 6, -4, 0, 5, -4, 1} {
		g2.Add(g2, new(big.Int).Mul(bi(c), pw(int64(i))))
	}
	g2.Div(g2, bi(9))
	e.list(pk, "cofactorG2", g2)
	e.list(pk, "x", blsX)
	e.list(pk, "cofactorEFFG1", new(big.Int).Add(blsX, big1))
	e.list(pk, "cofactorEFFG2", new(big.Int).Mul(g2, new(big.Int).Sub(new(big.Int).Mul(bi(3), pw(2)), bi(3))))
	el("infinity", i64(0), i64(1), i64(0))
	el("infinity2", i64(0), i64(0), i64(1), i64(0), i64(0), i64(0))
	gx := hexi("17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb")
	gy := hexi("08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1")
	el("g1One", gx, gy, i64(1))
	el("G1One", gx, gy, i64(1))
	el("g1NegativeOne", gx, new(big.Int).Sub(p, gy), i64(1))
	G2 := []string{
		"024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8",
		"13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e",
		"0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801",
		"0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be"}
	for _, n := range []string{"g2One", "G2One"} {
		el(n, hexi(G2[0]), hexi(G2[1]), hexi(G2[2]), hexi(G2[3]), i64(1), i64(0))
	}
	el("frobeniusCoeffs2", i64(1), m1)
	xi := f2{big1, big1}
	frob := func(num, den int64, n int64) []*big.Int {
		var l []*big.Int
		for i := int64(0); i < n; i++ {
			k := new(big.Int).Exp(p, bi(i), nil)
			k.Sub(k, big1).Mul(k, bi(num)).Div(k, bi(den))
			l = append(l, u(f2exp(p, xi, k))...)
		}
		return l
	}
	el("frobeniusCoeffs61", frob(1, 3, 6)...)
	el("frobeniusCoeffs62", frob(2, 3, 6)...)
	el("frobeniusCoeffs12", frob(1, 6, 12)...)
	// the SSWU curves
	dec := func(l []*big.Int) []*big.Int {
		var o []*big.Int
		for i := 0; i+6 <= len(l); i += 6 {
			o = append(o, mulm(p, limbsVal(l[i:i+6], pos64[:6]), Ri))
		}
		return o
	}
	A1 := hexi("144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d")
	B1 := hexi("12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0")
	mba := func(a, b f2) f2 { return f2neg(p, f2mul(p, b, f2inv(p, a))) }
	for _, s := range []struct {
		n       string
		a, b, z f2
	}{
		{"swuParamsForG1", f2{A1, big0}, f2{B1, big0}, f2{bi(11), big0}},
		{"swuParamsForG2", f2{big0, bi(240)}, f2{bi(1012), bi(1012)}, f2{bi(-2), bi(-1)}},
	} {
		v, ty, pos, ok := e.global(pk, s.n)
		if !ok {
			e.r.Undecided(pk+"."+s.n, "no such package variable")
			continue
		}
		e.r.Count("variables", 1)
		for _, f := range []struct {
			n string
			w f2
		}{{"a", s.a}, {"b", s.b}, {"z", s.z}, {"zInv", f2neg(p, f2inv(p, s.z))}, {"minusBOverA", mba(s.a, s.b)}} {
			key := pk + "." + s.n + "." + f.n
			x, _ := e.field(v, ty, f.n)
			var l []*big.Int
			if x == nil || !e.flat(x, &l) {
				e.r.Undecided(key, "no such field, or it does not fold")
				continue
			}
			w := []*big.Int{mulm(p, f.w[0], R)}
			if len(l) == 12 {
				w = append(w, mulm(p, f.w[1], R))
			}
			e.elemList(key, pos, l, pos64[:6], p, true, nil, w...)
		}
	}
	// the isogenies
	for _, s := range []struct {
		n       string
		w       int
		a, b, B f2
		lead    [2]string
	}{
		{"isogenyConstansG1", 1, f2{A1, big0}, f2{B1, big0}, f2{bi(4), big0}, [2]string{"6e08c248e260e70bd1e962381edee3d31d79d7e22c837bc23c0bf1bc24c6b68c24b1b80b64d391fa9c8ba2e8ba2d229", "15e6be4e990f03ce4ea50b3b42df2eb5cb181d8f84965a3957add4fa95af01b2b665027efec01c7704b456be69c8b604"}},
		{"isogenyConstantsG2", 2, f2{big0, bi(240)}, f2{bi(1012), bi(1012)}, f2{bi(4), bi(4)}, [2]string{"171d6541fa38ccfaed6dea691f5fb614cb14b4e7f4e810aa22d6108f142b85757098e38d0f671c7188e2aaaaaaaa5ed1", "124c9ad43b6cf79bfbf7043de3811ad0761b0f37a1e26286b0e977c69aa274524e79097a56dc4bd9e1b371c71c718b10"}},
	} {
		l, pos, ok := e.nums(pk, s.n)
		if !ok {
			continue
		}
		key := pk + "." + s.n
		d := dec(l)
		if len(d)%(4*s.w) != 0 {
			e.r.Bad(key, pos, "has another number of coefficients")
			continue
		}
		e.r.Count("entries", len(d))
		k := len(d) / 4 / s.w
		var poly [4][]f2
		for i := range poly {
			for j := 0; j < k; j++ {
				c := f2{d[(i*k+j)*s.w], big0}
				if s.w == 2 {
					c[1] = d[(i*k+j)*2+1]
				}
				poly[i] = append(poly[i], c)
			}
		}
		lead := func(q []f2) f2 {
			for i := len(q) - 1; i >= 0; i-- {
				if q[i][0].Sign() != 0 || q[i][1].Sign() != 0 {
					return q[i]
				}
			}
			return f2{big0, big0}
		}
		ok = isogenyOK(p, poly[0], poly[1], poly[2], poly[3], s.a, s.b, s.B)
		e.r.Check(ok, key, pos, "the rational map does not send the auxiliary curve to the group's curve")
		e.eq(key+"/x", pos, mulm(p, lead(poly[0])[0], modInv(lead(poly[1])[0], p)), hexi(s.lead[0]))
		e.eq(key+"/y", pos, mulm(p, lead(poly[2])[0], modInv(lead(poly[3])[0], p)), hexi(s.lead[1]))
	}
	// the exported order and the hash-to-curve tags
	for _, pkg := range e.h.p.SSA.AllPackages() {
		if pkg.Pkg.Name() != "bls12_381" {
			continue
		}
		for _, n := range pkg.Pkg.Scope().Names() {
			c, ok := pkg.Pkg.Scope().Lookup(n).(*types.Const)
			if ok && n == "BLS12_381_ORDER" && c.Val().Kind() == constant.String {
				v, ok := new(big.Int).SetString(constant.StringVal(c.Val()), 16)
				if !ok {
					v = big0
				}
				e.r.Count("variables", 1)
				e.eq("bls12_381."+n, e.h.p.Pos(c.Pos()), v, blsR)
			}
		}
	}
	str := func(s string) []*big.Int {
		var l []*big.Int
		for i := 0; i < len(s); i++ {
			l = append(l, bi(int64(s[i])))
		}
		return l
	}
	for n, s := range map[string]string{
		"Domain":                 "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_AUG_",
		"curveOrder":             "",
		"DST_BASIC":              "",
		"BLS12_381_DOMAIN_BASIC": "",
	} {
		if _, _, _, ok := e.global("bls12_381", n); ok && s != "" {
			e.list("bls12_381", n, str(s)...)
		} else if ok && n == "curveOrder" {
			e.list("bls12_381", n, blsR)
		}
	}
}

// the digits of pi after the hexadecimal point, as 32-bit words.
var piWords = []uint64{0x243F6A88, 0x85A308D3, 0x13198A2E, 0x03707344, 0xA4093822, 0x299F31D0, 0x082EFA98, 0xEC4E6C89,
	0x452821E6, 0x38D01377, 0xBE5466CF, 0x34E90C6C, 0xC0AC29B7, 0xC97C50DD, 0x3F84D5B5, 0xB5470917,
	0x9216D5D9, 0x8979FB1B, 0xD1310BA6, 0x98DFB5AC, 0x2FFD72DB, 0xD01ADFB7, 0xB8E1AFED, 0x6A267E96,
	0xBA7C9045, 0xF12C7F99, 0x24A19947, 0xB3916CF7, 0x0801F2E2, 0x858EFC16, 0x636920D8, 0x71574E69}

// sqrtFrac: the first n bits of the fractional part of sqrt(k).
func sqrtFrac(k int64, n uint) *big.Int {
	v := new(big.Int).Lsh(bi(k), 2*n)
	v.Sqrt(v)
	return v.And(v, new(big.Int).Sub(new(big.Int).Lsh(big1, n), big1))
}

var primes16 = []int64{2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53}

func (e *cEnv) hashes() {
	iv := func(from int, n uint, tail bool) []*big.Int {
		var l []*big.Int
		for i := 0; i < 8; i++ {
			v := sqrtFrac(primes16[from+i], 64)
			if n == 32 {
				if tail {
					v = new(big.Int).And(v, bi(0xffffffff))
				} else {
					v = new(big.Int).Rsh(v, 32)
				}
			}
			l = append(l, v)
		}
		return l
	}
	pad := func(n int) []*big.Int {
		l := []*big.Int{bi(0x80)}
		for len(l) < n {
			l = append(l, bi(0))
		}
		return l
	}
	e.list("blake256", "iv256", iv(0, 32, false)...)
	e.list("blake256", "iv224", iv(8, 32, true)...)
	e.list("blake256", "pad", pad(64)...)
	e.list("blake512", "iv512", iv(0, 64, false)...)
	e.list("blake512", "iv384", iv(8, 64, false)...)
	e.list("blake2s", "iv", iv(0, 32, false)...)
	// named constants
	for _, pkg := range e.h.p.SSA.AllPackages() {
		n := pkg.Pkg.Name()
		if n != "blake256" && n != "blake512" {
			continue
		}
		e.r.Count("variables", 1)
		for i := 0; i < 16; i++ {
			nm := fmt.Sprintf("cst%d", i)
			c, ok := pkg.Pkg.Scope().Lookup(nm).(*types.Const)
			if !ok {
				e.r.Undecided(n+"."+nm, "no such constant")
				continue
			}
			v, _ := new(big.Int).SetString(constant.ToInt(c.Val()).ExactString(), 10)
			w := new(big.Int).SetUint64(piWords[i])
			if n == "blake512" {
				w = new(big.Int).SetUint64(piWords[2*i]<<32 | piWords[2*i+1])
			}
			e.eq(n+"."+nm, e.h.p.Pos(c.Pos()), v, w)
		}
	}
	// the Keccak round constants sit in a file this platform's build leaves out
	e.keccakRC()
}

// keccakRCs: the round constants from the LFSR of FIPS 202.
func keccakRCs() []*big.Int {
	var out []*big.Int
	lfsr := 1
	for r := 0; r < 24; r++ {
		v := new(big.Int)
		for j := uint(0); j <= 6; j++ {
			if lfsr&1 == 1 {
				v.SetBit(v, int(1<<j)-1, 1)
			}
			lfsr <<= 1
			if lfsr&0x100 != 0 {
				lfsr ^= 0x171
			}
		}
		out = append(out, v)
	}
	return out
}

func (e *cEnv) keccakRC() {
	fs := token.NewFileSet()
	path := filepath.Join(e.h.p.Repo, "sha3", "keccakf.go")
	if _, err := os.Stat(path); err != nil {
		e.r.Undecided("sha3.rc", "no such file")
		return
	}
	f, err := parser.ParseFile(fs, path, nil, 0)
	if err != nil {
		e.r.Undecided("sha3.rc", err.Error())
		return
	}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			vs := s.(*ast.ValueSpec)
			if len(vs.Names) != 1 || vs.Names[0].Name != "rc" || len(vs.Values) != 1 {
				continue
			}
			cl, ok := vs.Values[0].(*ast.CompositeLit)
			if !ok {
				continue
			}
			var l []*big.Int
			for _, x := range cl.Elts {
				tv, err := types.Eval(fs, nil, token.NoPos, exprText(x))
				if err != nil || tv.Value == nil {
					e.r.Undecided("sha3.rc", "an entry is not a constant expression")
					return
				}
				v, _ := new(big.Int).SetString(constant.ToInt(tv.Value).ExactString(), 10)
				l = append(l, v)
			}
			pos := "sha3/keccakf.go:" + fmt.Sprint(fs.Position(vs.Pos()).Line)
			e.r.Count("variables", 1)
			want := keccakRCs()
			bad := ""
			if len(l) != len(want) {
				bad = fmt.Sprintf("has %d entries, must have 24", len(l))
			}
			for i := range l {
				e.r.Count("entries", 1)
				if bad == "" && l[i].Cmp(want[i]) != 0 {
					bad = fmt.Sprintf("entry %d is %x, must be %x", i, l[i], want[i])
				}
			}
			e.r.Check(bad == "", "sha3.rc", pos, bad)
			return
		}
	}
	e.r.Undecided("sha3.rc", "no such variable")
}

func exprText(x ast.Expr) string { return types.ExprString(x) }
