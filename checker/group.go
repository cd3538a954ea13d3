package main

import (
	"math/big"
	"strings"
)

// Short Weierstrass groups as abstract groups: a point is a linear combination
// (modulo the group order) of the generator and of affine input points; its
// coordinates are the atoms px/py of that combination.  Whether the curve
// code implements this group is a separate property (C22).

type wcurve struct {
	name               string
	p, n, a, b, gx, gy *big.Int
	ed                 bool // Edwards form: identity (0, 1), negation flips the abscissa
}

func hx(s string) *big.Int {
	v, ok := new(big.Int).SetString(strings.ReplaceAll(s, " ", ""), 16)
	if !ok {
		panic("bad constant " + s)
	}
	return v
}

var wcurves = []*wcurve{
	{"secp256k1", hx("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"), hx("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"), big0, bi(7),
		hx("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"), hx("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"), false},
	{"secp256r1", hx("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"), hx("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"), bi(-3),
		hx("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"),
		hx("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"), hx("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"), false},
	{"sm2", hx("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF"), hx("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123"), bi(-3),
		hx("28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93"),
		hx("32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7"), hx("BC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0"), false},
}

func init() {
	for _, c := range wcurves {
		modNames[c.p.Text(16)] = "p." + c.name
		modNames[c.n.Text(16)] = "n." + c.name
	}
}

func curveByName(n string) *wcurve {
	for _, c := range wcurves {
		if c.name == n {
			return c
		}
	}
	if n == edCurve.name {
		return edCurve
	}
	return nil
}

func curveByP(p *big.Int) *wcurve {
	for _, c := range wcurves {
		if c.p.Cmp(p) == 0 {
			return c
		}
	}
	return nil
}

func (tt *Terms) Gen(c *wcurve) *T { return tt.Atom("G", c.name, 0, nil, nil) }

// Aff: the point with the given coordinates.
func (tt *Terms) Aff(c *wcurve, x, y *T) *T {
	if x.op == "choice" || y.op == "choice" {
		if x.op == "choice" {
			var vs []*T
			for _, a := range x.args {
				vs = append(vs, tt.Aff(c, a, y))
			}
			return tt.Choice(x.cs, vs)
		}
		var vs []*T
		for _, a := range y.args {
			vs = append(vs, tt.Aff(c, x, a))
		}
		return tt.Choice(y.cs, vs)
	}
	x, y = tt.Mod(x, c.p), tt.Mod(y, c.p)
	if x.IsConst() && y.IsConst() {
		if x.c.Sign() == 0 && y.c.Sign() == 0 {
			return tt.Int(0)
		}
		if x.c.Cmp(c.gx) == 0 && y.c.Cmp(c.gy) == 0 {
			return tt.Gen(c)
		}
		if x.c.Cmp(c.gx) == 0 && new(big.Int).Sub(c.p, y.c).Cmp(c.gy) == 0 {
			return tt.Mod(tt.Neg(tt.Gen(c)), c.n)
		}
	}
	// coordinates of a known combination
	if x.op == "px" && x.s == c.name {
		P := x.args[0]
		py := tt.Py(c, P)
		if y == py {
			return P
		}
		if tt.modNorm(tt.Add(y, py), c.p) == tt.Int(0) {
			return tt.Mod(tt.Neg(P), c.n)
		}
	}
	// sign normal form for affine atoms: prefer the y with the smaller leading coefficient
	yn := tt.modNorm(y, c.p)
	if ms := yn.monos(); len(ms) > 0 && !yn.IsConst() {
		if ms[len(ms)-1].co.Cmp(new(big.Int).Rsh(c.p, 1)) > 0 {
			return tt.Mod(tt.Neg(tt.Aff(c, x, tt.Mod(tt.Neg(yn), c.p))), c.n)
		}
	}
	return tt.Atom("aff", c.name, 0, nil, nil, x, y)
}

func leadNeg(p *T, m *big.Int) bool {
	ms := p.monos()
	if len(ms) == 0 {
		return false
	}
	return ms[len(ms)-1].co.Cmp(new(big.Int).Rsh(m, 1)) > 0
}

// pointPoly strips the mod wrapper.
func pointPoly(P *T) *T {
	if P.op == "mod" {
		return P.args[0]
	}
	return P
}

func (tt *Terms) Px(c *wcurve, P *T) *T { x, _ := tt.coords(c, P); return x }
func (tt *Terms) Py(c *wcurve, P *T) *T { _, y := tt.coords(c, P); return y }

func (tt *Terms) coords(c *wcurve, P *T) (*T, *T) {
	if P.op == "choice" {
		var xs, ys []*T
		for _, a := range P.args {
			x, y := tt.coords(c, a)
			xs, ys = append(xs, x), append(ys, y)
		}
		return tt.Choice(P.cs, xs), tt.Choice(P.cs, ys)
	}
	q := tt.modNorm(pointPoly(P), c.n)
	if q.IsConst() {
		if c.ed {
			return tt.Int(0), tt.Int(1)
		}
		return tt.Int(0), tt.Int(0)
	}
	neg := leadNeg(q, c.n)
	if neg {
		q = tt.modNorm(tt.Neg(q), c.n)
	}
	var x, y *T
	switch {
	case q.op == "G":
		x, y = tt.Const(c.gx), tt.Const(c.gy)
	case q.op == "aff":
		x, y = q.args[0], q.args[1]
	default:
		hi := new(big.Int).Sub(c.p, big1)
		Q := tt.Mod(q, c.n)
		x, y = tt.Atom("px", c.name, 0, big0, hi, Q), tt.Atom("py", c.name, 0, big0, hi, Q)
	}
	if neg && c.ed {
		x = tt.Mod(tt.Neg(x), c.p)
	} else if neg {
		y = tt.Mod(tt.Neg(y), c.p)
	}
	return x, y
}

func (tt *Terms) PAdd(c *wcurve, P, Q *T) *T { return tt.PLin(c, tt.Int(1), P, tt.Int(1), Q) }

// PLin: k1*P + k2*Q.
func (tt *Terms) PLin(c *wcurve, k1, P, k2, Q *T) *T {
	for i, t := range []*T{k1, P, k2, Q} {
		if t.op == "choice" {
			var vs []*T
			for _, a := range t.args {
				l := []*T{k1, P, k2, Q}
				l[i] = a
				vs = append(vs, tt.PLin(c, l[0], l[1], l[2], l[3]))
			}
			return tt.Choice(t.cs, vs)
		}
	}
	r := tt.Add(tt.Mul(k1, pointPoly(P)), tt.Mul(k2, pointPoly(Q)))
	return tt.Mod(tt.modNorm(r, c.n), c.n)
}

// genCoef: k when P is k times the base point.
func (tt *Terms) genCoef(P *T) (*T, bool) {
	k := tt.Int(0)
	for _, m := range pointPoly(P).monos() {
		t, n := tt.Const(m.co), 0
		for _, v := range m.vs {
			switch v.op {
			case "G":
				n++
			case "aff", "eddec":
				return nil, false
			default:
				t = tt.Mul(t, v)
			}
		}
		if n != 1 {
			return nil, false
		}
		k = tt.Add(k, t)
	}
	return k, true
}

func (tt *Terms) PMul(c *wcurve, k, P *T) *T { return tt.PLin(c, k, P, tt.Int(0), tt.Int(0)) }

// OnCurve: y^2 = x^3 + ax + b (mod p).
func (tt *Terms) OnCurve(c *wcurve, x, y *T) *B {
	if x.op == "choice" {
		r := tt.False
		for i, a := range x.args {
			r = tt.BOr(r, tt.BAnd(x.cs[i], tt.OnCurve(c, a, y)))
		}
		return r
	}
	if y.op == "choice" {
		r := tt.False
		for i, a := range y.args {
			r = tt.BOr(r, tt.BAnd(y.cs[i], tt.OnCurve(c, x, a)))
		}
		return r
	}
	if x.op == "px" && x.s == c.name && tt.Aff(c, x, y).op != "aff" {
		return tt.True
	}
	l := tt.Mul(y, y)
	r := tt.Add(tt.Add(tt.Mul(tt.Mul(x, x), x), tt.Scale(x, c.a)), tt.Const(c.b))
	return tt.ZeroMod(tt.Sub(l, r), c.p)
}

// curveOf identifies the curve of a receiver by the field prime it stores.
func (in *Interp) curveOf(v Val, c *callCtx) *wcurve {
	var find func(v Val, d int) *big.Int
	find = func(v Val, d int) *big.Int {
		if d > 4 {
			return nil
		}
		switch x := v.(type) {
		case *PtrV:
			if x.o == nil {
				return nil
			}
			return find(in.loadPath(c.st, x.o, x.path), d+1)
		case *AggV:
			for _, e := range x.el {
				if r := find(e, d+1); r != nil {
					return r
				}
			}
		case *T:
			if x.op == "const" {
				return x.c
			}
		}
		return nil
	}
	p := find(v, 0)
	if p == nil {
		in.note("curve parameters unknown")
		return nil
	}
	w := curveByP(p)
	if w == nil {
		w = &wcurve{name: "p=" + p.Text(16), p: p, n: pow2(256), a: big0, b: big0, gx: big0, gy: big0}
	}
	return w
}

func (in *Interp) retPoint(w *wcurve, P *T, c *callCtx) Val {
	x, y := in.tt.coords(w, P)
	return &TupleV{[]Val{in.newBig(x, c.st), in.newBig(y, c.st)}}
}

// modelCurves treats the repository's Weierstrass curve methods as group
// operations.
func (in *Interp) modelCurves() {
	tt := in.tt
	for _, recv := range []string{"(*owcrypt.secp256k1Curve).", "(owcrypt.sm2_stdCurve).", "(*crypto/elliptic.CurveParams)."} {
		generic := strings.Contains(recv, "elliptic")
		need := func(in *Interp, w *wcurve, x, y *T, c *callCtx) {
			if generic {
				// crypto/elliptic panics on points that are not on the curve
				inf := tt.BAnd(tt.Eq0(x), tt.Eq0(y))
				ok := tt.BAll(tt.BNot(tt.Lt0(x)), tt.BNot(tt.Lt0(y)), tt.Lt(x, tt.Const(w.p)), tt.Lt(y, tt.Const(w.p)), tt.OnCurve(w, x, y))
				in.oblige("crypto/elliptic point not on curve", c.pos, tt.BOr(inf, ok), c.st)
			}
		}
		in.def(recv+"Add", func(in *Interp, c *callCtx) (Val, bool) {
			w := in.curveOf(c.args[0], c)
			if w == nil {
				return nil, false
			}
			x1, y1, x2, y2 := in.bigVal(c.args[1], c), in.bigVal(c.args[2], c), in.bigVal(c.args[3], c), in.bigVal(c.args[4], c)
			need(in, w, x1, y1, c)
			need(in, w, x2, y2, c)
			return in.retPoint(w, tt.PAdd(w, tt.Aff(w, x1, y1), tt.Aff(w, x2, y2)), c), true
		})
		in.def(recv+"Double", func(in *Interp, c *callCtx) (Val, bool) {
			w := in.curveOf(c.args[0], c)
			if w == nil {
				return nil, false
			}
			x1, y1 := in.bigVal(c.args[1], c), in.bigVal(c.args[2], c)
			need(in, w, x1, y1, c)
			return in.retPoint(w, tt.PMul(w, tt.Int(2), tt.Aff(w, x1, y1)), c), true
		})
		in.def(recv+"ScalarMult", func(in *Interp, c *callCtx) (Val, bool) {
			w := in.curveOf(c.args[0], c)
			if w == nil {
				return nil, false
			}
			x1, y1 := in.bigVal(c.args[1], c), in.bigVal(c.args[2], c)
			need(in, w, x1, y1, c)
			k := tt.Val(in.bytesOf(c.args[3], c.st))
			return in.retPoint(w, tt.PMul(w, k, tt.Aff(w, x1, y1)), c), true
		})
		in.def(recv+"ScalarBaseMult", func(in *Interp, c *callCtx) (Val, bool) {
			w := in.curveOf(c.args[0], c)
			if w == nil {
				return nil, false
			}
			k := tt.Val(in.bytesOf(c.args[1], c.st))
			return in.retPoint(w, tt.PMul(w, k, tt.Gen(w)), c), true
		})
		if !generic && recv != "(owcrypt.sm2_stdCurve)." {
			continue // interpreted
		}
		in.def(recv+"IsOnCurve", func(in *Interp, c *callCtx) (Val, bool) {
			w := in.curveOf(c.args[0], c)
			if w == nil {
				return nil, false
			}
			x, y := in.bigVal(c.args[1], c), in.bigVal(c.args[2], c)
			r := tt.OnCurve(w, x, y)
			if true {
				r = tt.BAll(tt.BNot(tt.Lt0(x)), tt.BNot(tt.Lt0(y)), tt.Lt(x, tt.Const(w.p)), tt.Lt(y, tt.Const(w.p)), r)
			}
			return in.decide(r, c.st.pc), true
		})
	}
	in.def("(*crypto/elliptic.CurveParams).Params", func(in *Interp, c *callCtx) (Val, bool) { return c.args[0], true })
}
