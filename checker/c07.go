package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"go/types"
	"math/big"
)

// C07: the initialisers of the package-level variables are folded to values
// and each value is compared with the one its specification or its defining
// relation gives, computed here independently.

func init() { checks["C07"] = checkC07 }

type cEnv struct {
	h  *H
	st *State
	r  *Report
}

func hexi(s string) *big.Int { v, _ := new(big.Int).SetString(s, 16); return v }

// flat: the numbers inside a folded value, in order.
func (e *cEnv) flat(v Val, out *[]*big.Int) bool {
	in := e.h.in
	switch x := v.(type) {
	case *T:
		if x.IsConst() {
			*out = append(*out, x.c)
			return true
		}
		if isBytes(x) && x.len.IsConst() {
			for i := int64(0); i < x.len.c.Int64(); i++ {
				b := in.bAt(x, in.tt.Int(i), in.tt.True)
				if !b.IsConst() {
					return false
				}
				*out = append(*out, b.c)
			}
			return true
		}
	case *B:
		switch x {
		case in.tt.True:
			*out = append(*out, big1)
			return true
		case in.tt.False:
			*out = append(*out, big0)
			return true
		}
	case *AggV:
		for _, a := range x.el {
			if !e.flat(a, out) {
				return false
			}
		}
		return true
	case *SliceV:
		return e.flat(in.sliceContent(x, e.st), out)
	case *PtrV:
		if x.o != nil {
			v := in.loadPath(e.st, x.o, x.path)
			if a, ok := v.(*OpaqueV); ok && a != nil {
				return false
			}
			return e.flat(v, out)
		}
	}
	return false
}

// global: the value of a package-level variable.
func (e *cEnv) global(pkg, name string) (Val, types.Type, string, bool) {
	for g, o := range e.h.in.globals {
		if g.Name() == name && (shortS(g.Pkg.Pkg.Path()) == pkg || g.Pkg.Pkg.Name() == pkg) {
			return e.h.in.base[o], g.Type().Underlying().(*types.Pointer).Elem(), e.h.p.Pos(g.Pos()), true
		}
	}
	return nil, nil, "", false
}

func (e *cEnv) nums(pkg, name string) ([]*big.Int, string, bool) {
	v, _, pos, ok := e.global(pkg, name)
	key := pkg + "." + name
	if !ok {
		e.r.Undecided(key, "no such package variable")
		return nil, "", false
	}
	var l []*big.Int
	if !e.flat(v, &l) {
		e.r.Undecided(key, "the initialiser does not fold to a constant")
		return nil, "", false
	}
	e.r.Count("variables", 1)
	return l, pos, true
}

func (e *cEnv) eq(key, pos string, got, want *big.Int) {
	e.r.Count("entries", 1)
	e.r.Check(got.Cmp(want) == 0, key, pos, fmt.Sprintf("is %x, must be %x", got, want))
}

func (e *cEnv) list(pkg, name string, want ...*big.Int) {
	l, pos, ok := e.nums(pkg, name)
	if !ok {
		return
	}
	key := pkg + "." + name
	if len(l) != len(want) {
		e.r.Bad(key, pos, fmt.Sprintf("has %d numbers, must have %d", len(l), len(want)))
		return
	}
	bad := ""
	for i := range l {
		e.r.Count("entries", 1)
		if l[i].Cmp(want[i]) != 0 && bad == "" {
			bad = fmt.Sprintf("entry %d is %x, must be %x", i, l[i], want[i])
		}
	}
	e.r.Check(bad == "", key, pos, bad)
}

// limbsVal: the value of little-endian limbs of the given bit positions.
func limbsVal(l []*big.Int, pos []uint) *big.Int {
	v := new(big.Int)
	for i, x := range l {
		v.Add(v, new(big.Int).Lsh(x, pos[i]))
	}
	return v
}

var (
	pos64    = []uint{0, 64, 128, 192, 256, 320, 384}
	posSM2   = []uint{0, 29, 57, 86, 114, 143, 171, 200, 228}
	pos25519 = []uint{0, 26, 51, 77, 102, 128, 153, 179, 204, 230}
)

// elems: variables holding field elements; conv maps the limb value to the
// element, width limits the limbs.
func (e *cEnv) elems(pkg, name string, pos []uint, m *big.Int, canonical bool, width func(i int) uint, want ...*big.Int) {
	l, where, ok := e.nums(pkg, name)
	if !ok {
		return
	}
	e.elemList(pkg+"."+name, where, l, pos, m, canonical, width, want...)
}

func (e *cEnv) elemList(key, where string, l []*big.Int, pos []uint, m *big.Int, canonical bool, width func(i int) uint, want ...*big.Int) {
	n := len(pos)
	if len(l) != n*len(want) {
		e.r.Bad(key, where, fmt.Sprintf("has %d limbs, must have %d", len(l), n*len(want)))
		return
	}
	bad := ""
	for i, w := range want {
		e.r.Count("entries", 1)
		c := l[n*i : n*i+n]
		v := limbsVal(c, pos)
		ok := new(big.Int).Mod(new(big.Int).Sub(v, w), m).Sign() == 0
		if canonical {
			ok = v.Cmp(new(big.Int).Mod(w, m)) == 0
		}
		if !ok && bad == "" {
			bad = fmt.Sprintf("element %d is %x, must be %x", i, new(big.Int).Mod(v, m), new(big.Int).Mod(w, m))
		}
		if width != nil {
			for j, x := range c {
				if new(big.Int).Abs(x).BitLen() > int(width(j)) && bad == "" {
					bad = fmt.Sprintf("limb %d of element %d is wider than %d bits", j, i, width(j))
				}
			}
		}
	}
	e.r.Check(bad == "", key, where, bad)
}

func modInv(a, m *big.Int) *big.Int { return new(big.Int).ModInverse(a, m) }
func mulm(m *big.Int, l ...*big.Int) *big.Int {
	v := big.NewInt(1)
	for _, x := range l {
		v.Mul(v, x)
		v.Mod(v, m)
	}
	return v
}

// wadd: affine addition on y^2 = x^3 + ax + b; nil is the identity.
func wadd(c *wcurve, P, Q [2]*big.Int) [2]*big.Int {
	if P[0] == nil {
		return Q
	}
	if Q[0] == nil {
		return P
	}
	var l *big.Int
	if P[0].Cmp(Q[0]) == 0 {
		if new(big.Int).Mod(new(big.Int).Add(P[1], Q[1]), c.p).Sign() == 0 {
			return [2]*big.Int{}
		}
		l = mulm(c.p, bi(3), P[0], P[0])
		l.Add(l, c.a)
		l = mulm(c.p, l, modInv(new(big.Int).Lsh(P[1], 1), c.p))
	} else {
		l = mulm(c.p, new(big.Int).Sub(Q[1], P[1]), modInv(new(big.Int).Mod(new(big.Int).Sub(Q[0], P[0]), c.p), c.p))
	}
	x := mulm(c.p, l, l)
	x.Sub(x, P[0]).Sub(x, Q[0]).Mod(x, c.p)
	y := new(big.Int).Sub(P[0], x)
	y.Mul(y, l).Sub(y, P[1]).Mod(y, c.p)
	return [2]*big.Int{x, y}
}

func wmul(c *wcurve, k *big.Int, P [2]*big.Int) [2]*big.Int {
	var R [2]*big.Int
	for i := k.BitLen() - 1; i >= 0; i-- {
		R = wadd(c, R, R)
		if k.Bit(i) == 1 {
			R = wadd(c, R, P)
		}
	}
	return R
}

func checkC07(p *Prog, r *Report) {
	r.Explain = "The initialisers of every package-level constant and table are folded from the source (no code of the library is executed) and compared entry by entry with values computed independently from the specifications: group multiples, powers, Montgomery images, inverses and defining polynomial relations."
	r.Assume = []string{"constants inside hand-written assembly are not read", "the Poseidon round keys and matrix are compared with a recorded digest and with the initial states they must produce"}
	in := NewInterp(p)
	in.Std()
	in.RunInit()
	h := &H{p: p, r: r, in: in, tt: in.tt}
	in.unk = nil
	e := &cEnv{h, &State{in.tt.True, in.base}, r}
	e.weierstrass()
	e.edwards()
	e.pasta()
	e.bls()
	e.hashes()
	r.Min["variables"] = 60
	r.Min["entries"] = 900
}

// field of a struct value by name, through pointers and embedding.
func (e *cEnv) field(v Val, t types.Type, name string) (Val, types.Type) {
	for {
		if pv, ok := v.(*PtrV); ok && pv.o != nil {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				t = pt.Elem()
			}
			if s, ok := t.Underlying().(*types.Struct); !ok || s == nil {
				return nil, nil
			}
			v = e.h.in.loadPath(e.st, pv.o, pv.path)
			continue
		}
		break
	}
	s, ok := t.Underlying().(*types.Struct)
	a, ok2 := v.(*AggV)
	if !ok || !ok2 {
		return nil, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return a.el[i], s.Field(i).Type()
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			if w, wt := e.field(a.el[i], s.Field(i).Type(), name); w != nil {
				return w, wt
			}
		}
	}
	return nil, nil
}

func (e *cEnv) weierstrass() {
	big1f := func(v Val) *big.Int {
		var l []*big.Int
		if e.flat(v, &l) && len(l) == 1 {
			return l[0]
		}
		return nil
	}
	for _, g := range [][2]string{{"secp256k1", "secp256k1"}, {"secp256r1", "secp256r1"}, {"sm2_std", "sm2"}} {
		w := curveByName(g[1])
		v, t, pos, ok := e.global("owcrypt", g[0])
		if !ok {
			e.r.Undecided("owcrypt."+g[0], "no such package variable")
			continue
		}
		e.r.Count("variables", 1)
		for _, f := range []struct {
			n string
			w *big.Int
		}{{"P", w.p}, {"N", w.n}, {"B", w.b}, {"Gx", w.gx}, {"Gy", w.gy}} {
			key := "owcrypt." + g[0] + "." + f.n
			x, _ := e.field(v, t, f.n)
			if x == nil {
				e.r.Undecided(key, "no such field")
				continue
			}
			c := big1f(x)
			if c == nil {
				e.r.Undecided(key, "the initialiser does not fold to a constant")
				continue
			}
			e.eq(key, pos, c, f.w)
		}
		if x, _ := e.field(v, t, "BitSize"); x != nil {
			if c, ok := x.(*T); ok && c.IsConst() {
				e.eq("owcrypt."+g[0]+".BitSize", pos, c.c, bi(256))
			}
		}
		if g[1] == "sm2" {
			R := new(big.Int).Lsh(big1, 257)
			if x, _ := e.field(v, t, "RInverse"); x != nil {
				if c := big1f(x); c != nil {
					e.eq("owcrypt.sm2_std.RInverse", pos, c, modInv(new(big.Int).Mod(R, w.p), w.p))
				}
			}
			for _, f := range []struct {
				n string
				w *big.Int
			}{{"a", w.a}, {"b", w.b}, {"gx", w.gx}, {"gy", w.gy}} {
				key := "owcrypt.sm2_std." + f.n
				x, _ := e.field(v, t, f.n)
				var l []*big.Int
				if x == nil || !e.flat(x, &l) {
					e.r.Undecided(key, "does not fold to a constant")
					continue
				}
				e.elemList(key, pos, l, posSM2, w.p, false, widthSM2, mulm(w.p, f.w, R))
			}
		}
	}
	w := curveByName("sm2")
	R := new(big.Int).Lsh(big1, 257)
	var fs, cs []*big.Int
	for i := int64(0); i < 9; i++ {
		fs = append(fs, mulm(w.p, bi(i), R))
		if i < 8 {
			cs = append(cs, mulm(w.p, bi(i), R))
		}
	}
	e.elems("owcrypt", "sm2_stdFactor", posSM2, w.p, false, widthSM2, fs...)
	e.elems("owcrypt", "sm2_stdCarry", posSM2, w.p, false, widthSM2, cs...)
	e.elems("owcrypt", "sm2_stdZero31", posSM2, w.p, false, nil, bi(0))
	if l, pos, ok := e.nums("owcrypt", "sm2_stdZero31"); ok {
		bad := ""
		for i, x := range l {
			if x.Cmp(new(big.Int).Lsh(big1, widthSM2(i)+1)) < 0 || x.BitLen() > 32 {
				bad = fmt.Sprintf("limb %d is %x: subtracting a limb of %d bits would underflow", i, x, widthSM2(i)+1)
			}
		}
		e.r.Check(bad == "", "owcrypt.sm2_stdZero31/limbs", pos, bad)
	}
	var pre []*big.Int
	G := [2]*big.Int{w.gx, w.gy}
	var mult [8][2]*big.Int
	for j := range mult {
		mult[j] = wmul(w, new(big.Int).Lsh(big1, uint(32*j)), G)
	}
	for h := 0; h < 2; h++ {
		for i := 1; i < 16; i++ {
			var P [2]*big.Int
			for j := 0; j < 4; j++ {
				if i>>uint(j)&1 == 1 {
					P = wadd(w, P, mult[2*j+h])
				}
			}
			pre = append(pre, mulm(w.p, P[0], R), mulm(w.p, P[1], R))
		}
	}
	e.elems("owcrypt", "sm2_stdPrecomputed", posSM2, w.p, false, widthSM2, pre...)
	// the reported orders
	for _, s := range []struct {
		sel string
		n   *big.Int
	}{{"ECC_CURVE_SECP256K1", curveByName("secp256k1").n}, {"ECC_CURVE_SECP256R1", curveByName("secp256r1").n},
		{"ECC_CURVE_SM2_STANDARD", w.n}, {"ECC_CURVE_ED25519", ordL}, {"ECC_CURVE_PASTA", pastaQ}} {
		fn := needFn(e.h.p, e.r, "", "", "GetCurveOrder")
		sel, ok := e.h.sel(s.sel)
		if fn == nil || !ok {
			continue
		}
		key := "GetCurveOrder/" + s.sel
		if rn := e.h.run(key, fn, func(st *State) []Val { return []Val{sel} }); rn != nil {
			got := rn.Bytes(0, rn.tt.True)
			v := e.h.in.canonB(got, rn.tt.True)
			e.r.Count("entries", 1)
			want := s.n.FillBytes(make([]byte, 32))
			e.h.sc(fn).ExpectT(key, "the order", v, e.h.tt.BLit(string(want)), rn.st.pc)
		}
	}
}

func widthSM2(i int) uint {
	if i%2 == 0 {
		return 29
	}
	return 28
}

var (
	p25519 = new(big.Int).Sub(new(big.Int).Lsh(big1, 255), bi(19))
	ordL   = hexi("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed")
	pastaP = hexi("40000000000000000000000000000000224698fc094cf91b992d30ed00000001")
	pastaQ = hexi("40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001")
	blsP   = hexi("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab")
	blsR   = hexi("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001")
	blsX   = hexi("d201000000010000") // the parameter is -blsX
)

func (e *cEnv) edwards() {
	p := p25519
	d := mulm(p, bi(-121665), modInv(bi(121666), p))
	d.Mod(d, p)
	i := new(big.Int).Exp(bi(2), new(big.Int).Rsh(new(big.Int).Sub(p, big1), 2), p)
	w := func(j int) uint { return 26 - uint(j%2) }
	const pk = "eddsa/edwards25519"
	e.elems(pk, "d", pos25519, p, false, w, d)
	e.elems(pk, "d2", pos25519, p, false, w, new(big.Int).Lsh(d, 1))
	e.elems(pk, "A", pos25519, p, false, w, bi(486662))
	e.elems("eddsa", "d", pos25519, p, false, w, d)
	// either root of -1
	if l, pos, ok := e.nums(pk, "SqrtM1"); ok && len(l) == 10 {
		v := new(big.Int).Mod(limbsVal(l, pos25519), p)
		if v.Cmp(i) != 0 {
			i.Sub(p, i)
		}
		e.eq(pk+".SqrtM1", pos, v, i)
	}
	by := mulm(p, bi(4), modInv(bi(5), p))
	bx := hexi("216936d3cd6e53fec0a4e231fdd6dc5c692cc7609525a7b2c9562d608f25d51a")
	add := func(P, Q [2]*big.Int) [2]*big.Int {
		k := mulm(p, d, P[0], Q[0], P[1], Q[1])
		x := new(big.Int).Add(mulm(p, P[0], Q[1]), mulm(p, P[1], Q[0]))
		y := new(big.Int).Add(mulm(p, P[1], Q[1]), mulm(p, P[0], Q[0]))
		return [2]*big.Int{mulm(p, x, modInv(new(big.Int).Mod(new(big.Int).Add(big1, k), p), p)), mulm(p, y, modInv(new(big.Int).Mod(new(big.Int).Sub(big1, k), p), p))}
	}
	pre := func(P [2]*big.Int) []*big.Int {
		return []*big.Int{new(big.Int).Add(P[1], P[0]), new(big.Int).Sub(P[1], P[0]), mulm(p, bi(2), d, P[0], P[1])}
	}
	B := [2]*big.Int{bx, by}
	B2 := add(B, B)
	var tb []*big.Int
	P := B
	for i := 0; i < 8; i++ {
		tb = append(tb, pre(P)...)
		P = add(P, B2)
	}
	e.elems(pk, "bi", pos25519, p, false, w, tb...)
	tb = nil
	P = B
	for i := 0; i < 32; i++ {
		Q := P
		for j := 0; j < 8; j++ {
			tb = append(tb, pre(Q)...)
			Q = add(Q, P)
		}
		for k := 0; k < 8; k++ {
			P = add(P, P)
		}
	}
	e.elems(pk, "base", pos25519, p, false, w, tb...)
	// Curve25519 over the Montgomery base point of abscissa 9
	y2 := new(big.Int).Mod(new(big.Int).Add(bi(729+9), mulm(p, bi(486662), bi(81))), p)
	my := new(big.Int).ModSqrt(y2, p)
	le := func(v *big.Int) []*big.Int {
		var l []*big.Int
		for i := 0; i < 32; i++ {
			l = append(l, new(big.Int).And(new(big.Int).Rsh(v, uint(8*i)), bi(255)))
		}
		return l
	}
	e.list("eddsa", "prime", le(p)...)
	e.list("eddsa", "order", le(ordL)...)
	e.list("eddsa", "orderTimes8", le(new(big.Int).Lsh(ordL, 3))...)
	if l, pos, ok := e.nums("eddsa", "base2y"); ok && len(l) == 10 {
		v := new(big.Int).Mod(limbsVal(l, pos25519), p)
		want := mulm(p, bi(2), my)
		if v.Cmp(want) != 0 {
			want = new(big.Int).Mod(new(big.Int).Neg(want), p)
		}
		e.eq("eddsa.base2y", pos, v, want)
		if l2, pos2, ok := e.nums("eddsa", "baseR2y"); ok && len(l2) == 10 {
			e.eq("eddsa.baseR2y", pos2, new(big.Int).Mod(limbsVal(l2, pos25519), p), modInv(want, p))
		}
	}
}

func (e *cEnv) pasta() {
	R := new(big.Int).Lsh(big1, 256)
	p := pastaP
	m := func(v *big.Int) *big.Int { return mulm(p, v, R) }
	gy, _ := new(big.Int).SetString("12418654782883325593414442427049395787963493412651469444558597405572177144507", 10)
	el := func(name string, want ...*big.Int) {
		for i := range want {
			want[i] = m(want[i])
		}
		e.elems("pasta", name, pos64[:4], p, true, nil, want...)
	}
	el("GroupCoeffB", bi(5))
	el("FieldOne", bi(1))
	el("FieldThree", bi(3))
	el("FieldFour", bi(4))
	el("FieldEight", bi(8))
	el("FieldZero", bi(0))
	el("ScalarZero", bi(0))
	el("GroupZero", bi(0), bi(1), bi(0))
	el("AffineOne", bi(1), gy)
	by := func(v *big.Int) []*big.Int {
		var l []*big.Int
		for _, b := range v.FillBytes(make([]byte, 32)) {
			l = append(l, bi(int64(b)))
		}
		return l
	}
	e.list("pasta", "fpOrder", by(p)...)
	e.list("pasta", "fqOrder", by(pastaQ)...)
	hv := new(big.Int).Rsh(new(big.Int).Sub(p, big1), 1)
	var bits []*big.Int
	for i := 253; i >= 0; i-- {
		bits = append(bits, bi(int64(hv.Bit(i))))
	}
	if l, pos, ok := e.nums("pasta", "PMinus1Over2"); ok {
		if n, _, ok := e.nums("pasta", "Pminus1Over2Len"); ok {
			e.eq("pasta.Pminus1Over2Len", pos, n[0], bi(int64(len(l))))
		}
		// the bits of (p-1)/2, least or most significant first
		v, u := new(big.Int), new(big.Int)
		for i, b := range l {
			v.Add(v, new(big.Int).Lsh(b, uint(i)))
			u.Add(u.Lsh(u, 1), b)
		}
		e.r.Check(v.Cmp(hv) == 0 || u.Cmp(hv) == 0, "pasta.PMinus1Over2", pos, fmt.Sprintf("is the bit string of %x, must be that of %x", u, hv))
	}
	// Poseidon
	rk, rpos, ok1 := e.nums("pasta", "RoundKeys3W")
	mds, mpos, ok2 := e.nums("pasta", "MdsMatrix3W")
	main, apos, ok3 := e.nums("pasta", "MainnetIV3W")
	test, tpos, ok4 := e.nums("pasta", "TestnetIV3W")
	if !ok1 || !ok2 || !ok3 || !ok4 {
		return
	}
	if len(rk) != 64*3*4 || len(mds) != 9*4 || len(main) != 12 || len(test) != 12 {
		e.r.Bad("pasta.poseidon/shape", rpos, "the tables have another number of entries")
		return
	}
	Ri := modInv(new(big.Int).Mod(R, p), p)
	dec := func(l []*big.Int) []*big.Int {
		var o []*big.Int
		for i := 0; i < len(l); i += 4 {
			o = append(o, mulm(p, limbsVal(l[i:i+4], pos64[:4]), Ri))
		}
		return o
	}
	k, mm := dec(rk), dec(mds)
	perm := func(prefix string) []*big.Int {
		b := []byte(prefix)
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
		s := []*big.Int{new(big.Int).SetBytes(b), bi(0), bi(0)}
		for r := 0; r < 63; r++ {
			var u [3]*big.Int
			for i := range u {
				u[i] = new(big.Int).Exp(new(big.Int).Add(s[i], k[3*r+i]), bi(5), p)
			}
			for i := range s {
				t := new(big.Int)
				for j := range u {
					t.Add(t, new(big.Int).Mul(mm[3*i+j], u[j]))
				}
				s[i] = t.Mod(t, p)
			}
		}
		for i := range s {
			s[i] = new(big.Int).Mod(new(big.Int).Add(s[i], k[63*3+i]), p)
		}
		return s
	}
	a, b := perm("MinaSignatureMainnet"), perm("CodaSignature*******")
	same := func(x, y []*big.Int) bool {
		for i := range x {
			if x[i].Cmp(y[i]) != 0 {
				return false
			}
		}
		return true
	}
	okA, okB := same(dec(main), a), same(dec(test), b)
	e.r.Count("entries", 64*3+9+6)
	e.digest("pasta.RoundKeys3W", rpos, rk, "RK")
	e.digest("pasta.MdsMatrix3W", mpos, mds, "MDS")
	e.r.Check(okA, "pasta.MainnetIV3W", apos, "is not the state the permutation leaves after absorbing the network prefix")
	e.r.Check(okB, "pasta.TestnetIV3W", tpos, "is not the state the permutation leaves after absorbing the network prefix")
}

var recorded = map[string]string{
	"RK":  "e844f5145eb55207c8cda079ad40b732",
	"MDS": "b04212f4c57a64b728df2872b22bccd1",
}

func (e *cEnv) digest(key, pos string, l []*big.Int, name string) {
	s := sha256.New()
	for _, x := range l {
		fmt.Fprintf(s, "%x,", x)
	}
	d := hex.EncodeToString(s.Sum(nil)[:16])
	e.r.Check(d == recorded[name], key, pos, "an entry differs from the published table (digest "+d+")")
}
