package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// BLS12-381.  Two levels: the field level (limb arrays are elements modulo
// p), and the group level, where the points of the order-r subgroups are
// residues modulo r (their logarithms to the standard generators) and the
// pairing is multiplication.

const blsPk = "bls12_381/bls."

var feBls = &limbField{name: "bls", off: words64(6), lo: big0, hi: pow2m(64)}

func init() {
	feBls.p = blsP
	feBls.r = new(big.Int).Mod(pow2(384), blsP)
	modNames[blsP.Text(16)] = "p.bls"
	modNames[blsR.Text(16)] = "r.bls"
}

// dlog: an unknown point of a subgroup.
func (tt *Terms) dlog(name string, args ...*T) *T {
	return tt.Atom("dlog", name, 0, big0, new(big.Int).Sub(blsR, big1), args...)
}

func (tt *Terms) g1c(P *T, n int64) *T { return tt.BIn2("g1:enc", tt.Int(n), P) }
func (tt *Terms) g2c(P *T, n int64) *T { return tt.BIn2("g2:enc", tt.Int(n), P) }
func (tt *Terms) blsOK(g string, b *T) *B {
	if b.op == "choice" {
		r := tt.False
		for i, a := range b.args {
			r = tt.BOr(r, tt.BAnd(b.cs[i], tt.blsOK(g, a)))
		}
		return r
	}
	return tt.Var(tt.Atom("blsdec", g, 0, nil, nil, b))
}
func (tt *Terms) blsDec(g string, b *T) *T {
	return tt.mapC(b, func(b *T) *T { return tt.dlog(g+"dec", b) })
}

// hashPoint: what a message hashes to under a tag.
func (tt *Terms) hashPoint(g string, msg, dst *T) *T {
	return tt.map2(msg, dst, func(m, d *T) *T { return tt.dlog(g+"hash", m, d) })
}

func (in *Interp) typeNamed(pkg, name string) types.Type {
	sp := in.p.ByPath[modPath+"/"+pkg]
	if sp == nil {
		return nil
	}
	m, _ := sp.Members[name].(*ssa.Type)
	if m == nil {
		return nil
	}
	return m.Type()
}

// modelBlsGroup: points hold their logarithm in the first limb of every coordinate.
func (in *Interp) modelBlsGroup() {
	tt := in.tt
	red := func(t *T) *T {
		return tt.mapC(t, func(t *T) *T { return tt.Mod(tt.modNorm(pointPoly(t), blsR), blsR) })
	}
	in.def(blsPk+"cfgArch", func(in *Interp, c *callCtx) (Val, bool) { return &TupleV{}, true })
	for _, g := range []struct {
		n    string
		k    int
		size int64
	}{{"1", 1, 48}, {"2", 2, 96}} {
		g := g
		lim := func(P *T, j int) *T {
			return tt.mapC(P, func(P *T) *T {
				if P.IsConst() && P.c.Sign() == 0 {
					return tt.Int(0)
				}
				return tt.Atom("limb", "pt"+g.n, j, big0, pow2m(64), P)
			})
		}
		val := func(P *T) Val {
			P = red(P)
			pt := &AggV{}
			for i := 0; i < 3; i++ {
				co := &AggV{}
				for k := 0; k < g.k; k++ {
					f := &AggV{}
					for j := 0; j < 6; j++ {
						f.el = append(f.el, lim(P, (i*2+k)*6+j))
					}
					co.el = append(co.el, f)
				}
				if g.k == 1 {
					pt.el = append(pt.el, co.el[0])
				} else {
					pt.el = append(pt.el, co)
				}
			}
			return pt
		}
		var flat func(v Val, st *State, out []*T) []*T
		flat = func(v Val, st *State, out []*T) []*T {
			if a, ok := in.resV(v, st.pc).(*AggV); ok {
				for _, e := range a.el {
					out = flat(e, st, out)
				}
				return out
			}
			return append(out, in.res(in.intOf(v, st), st.pc))
		}
		var one func(ls []*T, pc *B) *T
		one = func(ls []*T, pc *B) *T {
			zero := true
			for i, l := range ls {
				if l.op == "choice" {
					var cs []*B
					var vs []*T
					for j, cnd := range l.cs {
						p := tt.BAnd(pc, cnd)
						if !in.feasible(p) {
							continue
						}
						sub := append([]*T{}, ls...)
						sub[i] = l.args[j]
						for k := i + 1; k < len(sub); k++ {
							sub[k] = in.res(sub[k], p)
						}
						cs, vs = append(cs, cnd), append(vs, one(sub, p))
					}
					return tt.Choice(cs, vs)
				}
				// the abscissa of the identity is arbitrary
				zero = zero && (l.IsConst() && l.c.Sign() == 0 || i < len(ls)*2/3)
			}
			if zero {
				return tt.Int(0)
			}
			if e := ls[len(ls)-1]; e.op == "limb" && e.s == "pt"+g.n {
				P, same := e.args[0], true
				for i, l := range ls {
					j := i
					if g.k == 1 {
						j = (i/6)*12 + i%6
					}
					same = same && l == lim(P, j)
				}
				if same {
					return P
				}
			}
			in.note("a point of group " + g.n + " put together by hand")
			return tt.dlog("bad"+g.n, ls...)
		}
		get := func(c *callCtx, i int) *T {
			v := c.args[i]
			if p, ok := v.(*PtrV); ok {
				v = in.loadPath(c.st, p.o, p.path)
			} else if ch, ok := v.(*ChoiceV); ok {
				v = in.load(ch, c.st, c.pos, nil)
			}
			v = in.resV(v, c.st.pc)
			if ch, ok := v.(*ChoiceV); ok {
				var vs []*T
				for k, a := range ch.vs {
					s := &State{tt.BAnd(c.st.pc, ch.cs[k]), c.st.mem}
					vs = append(vs, one(flat(a, s, nil), s.pc))
				}
				return tt.Choice(ch.cs, vs)
			}
			return one(flat(v, c.st, nil), c.st.pc)
		}
		typ := in.typeNamed("bls12_381/bls", "PointG"+g.n)
		if typ == nil {
			in.note("no type PointG" + g.n)
			continue
		}
		fresh := func(c *callCtx, P *T) Val {
			o := in.newObj("point", typ, c.pos)
			c.st.mem[o] = val(P)
			return &PtrV{o: o}
		}
		m := func(name string, f func(c *callCtx) Val) {
			in.def("(*"+blsPk+"G"+g.n+")."+name, func(in *Interp, c *callCtx) (Val, bool) {
				v := f(c)
				return v, v != nil
			})
		}
		put := func(c *callCtx, P *T) Val {
			in.store(c.args[1], val(P), c.st, c.pos)
			return c.args[1]
		}
		in.def(blsPk+"NewG"+g.n, func(in *Interp, c *callCtx) (Val, bool) {
			o := in.newObj("group", nil, c.pos)
			c.st.mem[o] = tt.Int(0)
			return &PtrV{o: o}, true
		})
		m("Zero", func(c *callCtx) Val { return fresh(c, tt.Int(0)) })
		m("New", func(c *callCtx) Val { return fresh(c, tt.Int(0)) })
		m("One", func(c *callCtx) Val { return fresh(c, tt.Int(1)) })
		m("IsZero", func(c *callCtx) Val { return tt.eq0C(red(get(c, 1))) })
		m("Equal", func(c *callCtx) Val { return tt.eq0C(red(tt.map2(get(c, 1), get(c, 2), tt.Sub))) })
		m("InCorrectSubgroup", func(c *callCtx) Val { return tt.True })
		m("IsOnCurve", func(c *callCtx) Val { return tt.True })
		m("Affine", func(c *callCtx) Val { return c.args[1] })
		m("Neg", func(c *callCtx) Val { return put(c, tt.mapC(get(c, 2), tt.Neg)) })
		m("Double", func(c *callCtx) Val { return put(c, tt.map2(get(c, 2), get(c, 2), tt.Add)) })
		m("Add", func(c *callCtx) Val { return put(c, tt.map2(get(c, 2), get(c, 3), tt.Add)) })
		m("Sub", func(c *callCtx) Val { return put(c, tt.map2(get(c, 2), get(c, 3), tt.Sub)) })
		m("MulScalar", func(c *callCtx) Val {
			return put(c, tt.map2(in.bigVal(c.args[3], c), get(c, 2), func(a, b *T) *T { return tt.Mul(pointPoly(a), pointPoly(b)) }))
		})
		m("ToCompressed", func(c *callCtx) Val {
			b := tt.mapC(red(get(c, 1)), func(P *T) *T { return tt.BIn2("g"+g.n+":enc", tt.Int(g.size), P) })
			return in.newBytes(b, c.st, "enc")
		})
		m("FromCompressed", func(c *callCtx) Val {
			b := in.resB(in.bytesOf(c.args[1], c.st), c.st.pc)
			in.oblige("point encoding of another length", c.pos, tt.Le(tt.Int(g.size), b.len), c.st)
			b = in.resB(in.bRange(b, tt.Int(0), tt.Int(g.size), c.st.pc), c.st.pc)
			ok := tt.blsOK("g"+g.n, b)
			pt := fresh(c, tt.blsDec("g"+g.n, b))
			return &TupleV{el: []Val{in.choiceIf(ok, pt, &PtrV{}), in.choiceIf(ok, &IfaceV{}, in.errVal(c, "decode"))}}
		})
		m("HashToCurve", func(c *callCtx) Val {
			msg, dst := in.resB(in.bytesOf(c.args[1], c.st), c.st.pc), in.resB(in.bytesOf(c.args[2], c.st), c.st.pc)
			return &TupleV{el: []Val{fresh(c, tt.hashPoint("g"+g.n, in.canonB(msg, c.st.pc), in.canonB(dst, c.st.pc))), &IfaceV{}}}
		})
		if g.n == "1" {
			in.blsG1 = func(c *callCtx, i int) *T { return get(c, i) }
		} else {
			in.blsG2 = func(c *callCtx, i int) *T { return get(c, i) }
		}
	}
	// the engine accumulates the sum of products of logarithms
	acc := func(c *callCtx, sign int64) (Val, bool) {
		p, ok := c.args[0].(*PtrV)
		if !ok {
			return nil, false
		}
		e := tt.map2(in.blsG1(c, 1), in.blsG2(c, 2), func(a, b *T) *T { return tt.Mul(pointPoly(a), pointPoly(b)) })
		if sign < 0 {
			e = tt.mapC(e, tt.Neg)
		}
		old := in.intOf(in.loadPath(c.st, p.o, p.path), c.st)
		in.store(p, tt.map2(old, e, tt.Add), c.st, c.pos)
		return p, true
	}
	in.def(blsPk+"NewEngine", func(in *Interp, c *callCtx) (Val, bool) {
		o := in.newObj("engine", nil, token.NoPos)
		c.st.mem[o] = tt.Int(0)
		return &PtrV{o: o}, true
	})
	in.def("(*"+blsPk+"Engine).AddPair", func(in *Interp, c *callCtx) (Val, bool) { return acc(c, 1) })
	in.def("(*"+blsPk+"Engine).AddPairInv", func(in *Interp, c *callCtx) (Val, bool) { return acc(c, -1) })
	in.def("(*"+blsPk+"Engine).Check", func(in *Interp, c *callCtx) (Val, bool) {
		p, ok := c.args[0].(*PtrV)
		if !ok {
			return nil, false
		}
		return tt.eq0C(red(in.intOf(in.loadPath(c.st, p.o, p.path), c.st))), true
	})
}

// modelPhore: the key type of the third-party library, by its meaning.
func (in *Interp) modelPhore() {
	tt := in.tt
	const pk = "github.com/phoreproject/bls/g1pubs."
	const bk = "github.com/phoreproject/bls."
	red := func(t *T) *T {
		return tt.mapC(t, func(t *T) *T { return tt.Mod(tt.modNorm(pointPoly(t), blsR), blsR) })
	}
	box := func(c *callCtx, P *T) Val {
		o := in.newObj("phore", nil, token.NoPos)
		c.st.mem[o] = red(P)
		return &PtrV{o: o}
	}
	val := func(c *callCtx, i int) *T {
		if t, ok := c.args[i].(*T); ok {
			return t
		}
		return in.intOf(in.load(c.args[i], c.st, c.pos, nil), c.st)
	}
	in.def(pk+"DeserializeSecretKey", func(in *Interp, c *callCtx) (Val, bool) {
		b := in.bytesOf(c.args[0], c.st)
		o := in.newObj("phore", nil, token.NoPos)
		v := tt.mapC(in.resB(b, c.st.pc), tt.Val)
		// values of r and above are replaced by zero
		c.st.mem[o] = tt.mapC(v, func(v *T) *T { return in.condT(in.decide(tt.Lt(v, tt.Const(blsR)), c.st.pc), v, tt.Int(0)) })
		return &PtrV{o: o}, true
	})
	in.def(pk+"PrivToPub", func(in *Interp, c *callCtx) (Val, bool) { return box(c, val(c, 0)), true })
	in.def("(*"+pk+"PublicKey).GetPoint", func(in *Interp, c *callCtx) (Val, bool) { return box(c, val(c, 0)), true })
	in.def("("+bk+"G1Projective).Add (*"+bk+"G1Projective).Add", func(in *Interp, c *callCtx) (Val, bool) {
		return box(c, tt.map2(val(c, 0), val(c, 1), tt.Add)), true
	})
	in.def("(*"+bk+"G1Projective).ToAffine ("+bk+"G1Projective).ToAffine (*"+bk+"G1Affine).ToProjective ("+bk+"G1Affine).ToProjective (*"+bk+"G1Projective).Copy ("+bk+"G1Projective).Copy", func(in *Interp, c *callCtx) (Val, bool) { return box(c, val(c, 0)), true })
	in.def("(*"+bk+"G1Affine).IsZero ("+bk+"G1Affine).IsZero ("+bk+"G1Projective).IsZero (*"+bk+"G1Projective).IsZero", func(in *Interp, c *callCtx) (Val, bool) {
		return tt.eq0C(red(val(c, 0))), true
	})
	in.def(pk+"NewPublicKeyFromG1", func(in *Interp, c *callCtx) (Val, bool) { return box(c, val(c, 0)), true })
	ser := func(in *Interp, c *callCtx) (Val, bool) {
		b := tt.mapC(red(val(c, 0)), func(P *T) *T { return tt.g1c(P, 48) })
		return b, true
	}
	in.def("("+pk+"PublicKey).Serialize (*"+pk+"PublicKey).Serialize", ser)
	in.def(pk+"DeserializePublicKey", func(in *Interp, c *callCtx) (Val, bool) {
		b := in.resB(in.bytesOf(c.args[0], c.st), c.st.pc)
		ok := tt.blsOK("g1phore", b)
		return &TupleV{el: []Val{in.choiceIf(ok, box(c, tt.blsDec("g1", b)), &PtrV{}), in.choiceIf(ok, &IfaceV{}, in.errVal(c, "decode"))}}, true
	})
}

// modelStrings: the searches whose answer is only compared with zero.
func (in *Interp) modelStrings() {
	tt := in.tt
	in.def("strings.HasPrefix", func(in *Interp, c *callCtx) (Val, bool) {
		return in.hasPrefix(in.bytesOf(c.args[0], c.st), in.bytesOf(c.args[1], c.st), c.st.pc), true
	})
	in.def("strings.Index", func(in *Interp, c *callCtx) (Val, bool) {
		s, sub := in.bytesOf(c.args[0], c.st), in.bytesOf(c.args[1], c.st)
		at := in.hasPrefix(s, sub, c.st.pc)
		has := tt.Var(tt.Atom("strhas", "", 0, nil, nil, s, sub))
		pos := tt.Atom("strpos", "", 0, big1, pow2m(40), s, sub)
		return in.condT(in.decide(at, c.st.pc), tt.Int(0), in.condT(has, pos, tt.Int(-1))), true
	})
}

func (in *Interp) hasPrefix(s, p *T, pc *B) *B {
	tt := in.tt
	s, p = in.resB(s, pc), in.resB(p, pc)
	if s.op == "choice" {
		r := tt.False
		for i, a := range s.args {
			g := tt.BAnd(pc, s.cs[i])
			if in.feasible(g) {
				r = tt.BOr(r, tt.BAnd(s.cs[i], in.hasPrefix(a, p, g)))
			}
		}
		return r
	}
	long := in.decide(tt.Le(p.len, s.len), pc)
	if long == tt.False {
		return tt.False
	}
	g := tt.BAnd(pc, long)
	return tt.BAnd(long, in.bytesEq(in.bRange(s, tt.Int(0), p.len, g), p, g))
}

// blsFe: the element six words hold, in Montgomery form.
func (in *Interp) blsFe(v Val, st *State) *T {
	tt := in.tt
	rinv := tt.Const(modInv(feBls.r, blsP))
	return tt.mapC(in.feOf(feBls, v, st), func(e *T) *T {
		if e.op == "limbs" {
			return tt.Mod(tt.Mul(in.wordsNum(e.args, st.pc), rinv), blsP)
		}
		return e
	})
}

// blsRaw: the number six words make up.
func (in *Interp) blsRaw(v Val, st *State) *T {
	tt := in.tt
	if p, ok := v.(*PtrV); ok {
		v = in.loadPath(st, p.o, p.path)
	}
	w := in.wordsOf(v, st, 6)
	if w == nil {
		return tt.mapC(in.blsFe(v, st), func(e *T) *T { return tt.Mod(tt.Mul(e, tt.Const(feBls.r)), blsP) })
	}
	var num func(ls []*T, pc *B) *T
	num = func(ls []*T, pc *B) *T {
		con, v := true, new(big.Int)
		for i, l := range ls {
			if l.op == "choice" {
				return tt.mapC(in.feLimbs(feBls, ls, pc), func(e *T) *T { return tt.Mod(tt.Mul(e, tt.Const(feBls.r)), blsP) })
			}
			if l.IsConst() {
				v.Add(v, new(big.Int).Lsh(l.c, uint(64*i)))
			} else {
				con = false
			}
		}
		if con {
			return tt.Const(v)
		}
		if e := in.feLimbs(feBls, ls, pc); e.op != "limbs" {
			return tt.mapC(e, func(e *T) *T { return tt.Mod(tt.Mul(e, tt.Const(feBls.r)), blsP) })
		}
		return in.wordsNum(ls, pc)
	}
	return num(w, st.pc)
}

func (in *Interp) wordsOf(v Val, st *State, n int) []*T {
	a, ok := in.resV(v, st.pc).(*AggV)
	if !ok || len(a.el) != n {
		return nil
	}
	var ls []*T
	for _, e := range a.el {
		ls = append(ls, in.res(in.intOf(e, st), st.pc))
	}
	return ls
}

// mapCs: f over the alternatives of several terms.
func (tt *Terms) mapCs(ts []*T, f func(ts []*T) *B) *B {
	for i, t := range ts {
		if t.op == "choice" {
			r := tt.False
			for j, a := range t.args {
				sub := append([]*T{}, ts...)
				sub[i] = a
				r = tt.BOr(r, tt.BAnd(t.cs[j], tt.mapCs(sub, f)))
			}
			return r
		}
	}
	return f(ts)
}

func (tt *Terms) mapTs(ts []*T, f func(ts []*T) *T) *T {
	for i, t := range ts {
		if t.op == "choice" {
			var vs []*T
			for _, a := range t.args {
				sub := append([]*T{}, ts...)
				sub[i] = a
				vs = append(vs, tt.mapTs(sub, f))
			}
			return tt.Choice(t.cs, vs)
		}
	}
	return f(ts)
}

// modelBlsField: the base field of BLS12-381.
func (in *Interp) modelBlsField() {
	tt := in.tt
	mod := func(e *T) *T { return tt.Mod(e, blsP) }
	get := func(c *callCtx, i int) *T { return in.blsFe(in.deref(c.args[i], c.st), c.st) }
	put := func(c *callCtx, i int, e *T) (Val, bool) {
		in.store(c.args[i], in.feVal(feBls, tt.mapC(e, mod)), c.st, c.pos)
		return &TupleV{}, true
	}
	bin := func(names, assign string, g func(a, b *T) *T) {
		for _, n := range splitNames(names) {
			in.def(blsPk+n, func(in *Interp, c *callCtx) (Val, bool) { return put(c, 0, tt.map2(get(c, 1), get(c, 2), g)) })
		}
		for _, n := range splitNames(assign) {
			in.def(blsPk+n, func(in *Interp, c *callCtx) (Val, bool) { return put(c, 0, tt.map2(get(c, 0), get(c, 1), g)) })
		}
	}
	mulf := func(a, b *T) *T { return mod(tt.Mul(a, b)) }
	bin("mulADX mulNoADX", "mulAssignADX mulAssignNoADX", mulf)
	bin("add ladd", "addAssign laddAssign", func(a, b *T) *T { return mod(tt.Add(a, b)) })
	bin("sub", "subAssign lsubAssign", func(a, b *T) *T { return mod(tt.Sub(a, b)) })
	un := func(names, assign string, g func(a *T) *T) {
		for _, n := range splitNames(names) {
			in.def(blsPk+n, func(in *Interp, c *callCtx) (Val, bool) { return put(c, 0, tt.mapC(get(c, 1), g)) })
		}
		for _, n := range splitNames(assign) {
			in.def(blsPk+n, func(in *Interp, c *callCtx) (Val, bool) { return put(c, 0, tt.mapC(get(c, 0), g)) })
		}
	}
	un("double ldouble", "doubleAssign", func(a *T) *T { return mod(tt.Add(a, a)) })
	un("neg _neg", "", func(a *T) *T { return mod(tt.Neg(a)) })
	un("inverse", "", func(a *T) *T { return tt.Inv(a, blsP) })
	in.def(blsPk+"cfgArch", func(in *Interp, c *callCtx) (Val, bool) { return &TupleV{}, true })
	in.def(blsPk+"fromMont", func(in *Interp, c *callCtx) (Val, bool) {
		in.store(c.args[0], in.canonWords(get(c, 1), 6), c.st, c.pos)
		return &TupleV{}, true
	})
	eq := func(i, j int) modelFn {
		return func(in *Interp, c *callCtx) (Val, bool) {
			return in.decide(tt.eq0C(tt.map2(get(c, i), get(c, j), func(a, b *T) *T { return mod(tt.Sub(a, b)) })), c.st.pc), true
		}
	}
	in.def("(*"+blsPk+"fe).Equals (*"+blsPk+"fe).equal "+blsPk+"equal", eq(0, 1))
	in.def("(*"+blsPk+"fe).IsZero (*"+blsPk+"fe).isZero "+blsPk+"isZero", func(in *Interp, c *callCtx) (Val, bool) {
		return in.decide(tt.eq0C(get(c, 0)), c.st.pc), true
	})
	in.def("(*"+blsPk+"fe).Cmp", func(in *Interp, c *callCtx) (Val, bool) {
		return tt.map2(in.blsRaw(in.deref(c.args[0], c.st), c.st), in.blsRaw(in.deref(c.args[1], c.st), c.st), func(a, b *T) *T { return tt.Cmp3(tt.Sub(a, b)) }), true
	})
	in.def(blsPk+"sqrt", func(in *Interp, c *callCtx) (Val, bool) {
		a := get(c, 1)
		sq := in.decide(tt.mapCs([]*T{a}, func(a []*T) *B { return tt.IsSquare(a[0], blsP) }), c.st.pc)
		put(c, 0, tt.mapC(a, func(a *T) *T {
			return in.condT(in.decide(tt.IsSquare(a, blsP), c.st.pc), tt.Sqrt(a, blsP), tt.Atom("fexp", "sqrt", 0, big0, new(big.Int).Sub(blsP, big1), a))
		}))
		return sq, true
	})
	in.def(blsPk+"exp", func(in *Interp, c *callCtx) (Val, bool) {
		e := in.bigVal(c.args[2], c)
		if !e.IsConst() {
			return nil, false
		}
		a := get(c, 1)
		half := new(big.Int).Rsh(new(big.Int).Sub(blsP, big1), 1)
		quarter := new(big.Int).Rsh(new(big.Int).Add(blsP, big1), 2)
		return put(c, 0, tt.mapC(a, func(a *T) *T {
			sq := tt.IsSquare(a, blsP)
			switch {
			case e.c.Cmp(quarter) == 0:
				return in.condT(in.decide(sq, c.st.pc), tt.Sqrt(a, blsP), tt.Sqrt(mod(tt.Neg(a)), blsP))
			case e.c.Cmp(half) == 0:
				z := in.decide(tt.Eq0(a), c.st.pc)
				return in.condT(z, tt.Int(0), in.condT(in.decide(sq, c.st.pc), tt.Int(1), tt.Const(new(big.Int).Sub(blsP, big1))))
			}
			return tt.Atom("fexp", "bls", 0, big0, new(big.Int).Sub(blsP, big1), a, e)
		}))
	})
}

func splitNames(s string) []string { return strings.Fields(s) }

// blsFe2: the two coefficients of a quadratic extension element.
func (in *Interp) blsFe2(v Val, st *State) [2]*T {
	if p, ok := v.(*PtrV); ok {
		v = in.loadPath(st, p.o, p.path)
	}
	a, ok := in.resV(v, st.pc).(*AggV)
	if !ok || len(a.el) != 2 {
		in.note("extension element of unexpected form")
		z := in.tt.Fresh("fe2", big0, new(big.Int).Sub(blsP, big1))
		return [2]*T{z, z}
	}
	return [2]*T{in.blsFe(a.el[0], st), in.blsFe(a.el[1], st)}
}

func (in *Interp) fe2Val(x [2]*T) Val {
	return &AggV{el: []Val{in.feVal(feBls, x[0]), in.feVal(feBls, x[1])}}
}

// sqrt2: coefficient i of the root the library takes of a square.
func (tt *Terms) sqrt2(a [2]*T, i int) *T {
	return tt.mapTs(a[:], func(a []*T) *T {
		return tt.Atom("sqrt2", "", i, big0, new(big.Int).Sub(blsP, big1), a...)
	})
}

// isSquare2: an element of the quadratic extension is a square exactly when its
// norm is one (p = 3 mod 4).
func (tt *Terms) isSquare2(a [2]*T) *B {
	return tt.mapCs(a[:], func(a []*T) *B {
		return tt.IsSquare(tt.Mod(tt.Add(tt.Mul(a[0], a[0]), tt.Mul(a[1], a[1])), blsP), blsP)
	})
}

// modelBlsSqrt2: square roots and the subgroup test, uninterpreted.
func (in *Interp) modelBlsSqrt2() {
	tt := in.tt
	in.def("(*"+blsPk+"fp2).sqrt", func(in *Interp, c *callCtx) (Val, bool) {
		a := in.blsFe2(in.deref(c.args[2], c.st), c.st)
		in.store(c.args[1], in.fe2Val([2]*T{tt.sqrt2(a, 0), tt.sqrt2(a, 1)}), c.st, c.pos)
		return tt.isSquare2(a), true
	})
	for g, k := range map[string]int{"1": 1, "2": 2} {
		g, k := g, k
		in.def("(*"+blsPk+"G"+g+").InCorrectSubgroup", func(in *Interp, c *callCtx) (Val, bool) {
			return tt.inSub(g, in.blsCoords(in.deref(c.args[1], c.st), k, c.st)), true
		})
	}
}

func (tt *Terms) inSub(g string, co []*T) *B {
	return tt.mapCs(co, func(co []*T) *B { return tt.Var(tt.Atom("insub", g, 0, nil, nil, co...)) })
}

// blsCoords: the coordinates of a point, coefficient by coefficient.
func (in *Interp) blsCoords(v Val, k int, st *State) []*T {
	if p, ok := v.(*PtrV); ok {
		v = in.loadPath(st, p.o, p.path)
	}
	a, ok := in.resV(v, st.pc).(*AggV)
	if !ok || len(a.el) != 3 {
		in.note("point of unexpected form")
		return nil
	}
	var co []*T
	for _, e := range a.el {
		if k == 1 {
			co = append(co, in.blsFe(e, st))
			continue
		}
		x := in.blsFe2(e, st)
		co = append(co, x[0], x[1])
	}
	return co
}

// deref: what a pointer (or a choice of pointers) points to.
func (in *Interp) deref(v Val, st *State) Val {
	switch v.(type) {
	case *PtrV, *ChoiceV:
		return in.load(v, st, 0, nil)
	}
	return v
}
