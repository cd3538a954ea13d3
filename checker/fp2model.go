package main

import "math/big"

// The quadratic extension as a ring of opaque elements: one term per element,
// with u an atom whose square is -1.  (That the coefficient formulas implement
// the extension is part of the tower property.)

type fp2Opaque struct {
	h  *H
	id *polyID
	u  *T
}

func (h *H) modelFp2Opaque(id *polyID) *fp2Opaque {
	in, tt := h.in, h.tt
	w := &fp2Opaque{h: h, id: id}
	w.u = tt.Atom("var", "u", 0, big0, new(big.Int).Sub(blsP, big1))
	id.nz[w.u] = true
	id.rules = append(id.rules, polyRule{[]*T{w.u, w.u}, tt.Const(subOne(blsP))})
	get := func(c *callCtx, i int) *T { return w.get(in.deref(c.args[i], c.st), c.st) }
	put := func(c *callCtx, i int, e *T) (Val, bool) {
		in.store(c.args[i], w.put(e), c.st, c.pos)
		return &TupleV{}, true
	}
	pk := "(*" + blsPk + "fp2)."
	un := func(name, assign string, g func(a *T) *T) {
		if name != "" {
			in.def(pk+name, func(in *Interp, c *callCtx) (Val, bool) { return put(c, 1, tt.mapC(get(c, 2), g)) })
		}
		if assign != "" {
			in.def(pk+assign, func(in *Interp, c *callCtx) (Val, bool) { return put(c, 1, tt.mapC(get(c, 1), g)) })
		}
	}
	bin := func(name, assign string, g func(a, b *T) *T) {
		if name != "" {
			in.def(pk+name, func(in *Interp, c *callCtx) (Val, bool) { return put(c, 1, tt.map2(get(c, 2), get(c, 3), g)) })
		}
		if assign != "" {
			in.def(pk+assign, func(in *Interp, c *callCtx) (Val, bool) { return put(c, 1, tt.map2(get(c, 1), get(c, 2), g)) })
		}
	}
	mul := func(a, b *T) *T { return id.mul(a, b) }
	bin("mul", "mulAssign", mul)
	un("square", "squareAssign", func(a *T) *T { return id.mul(a, a) })
	bin("add", "addAssign", func(a, b *T) *T { return id.add(a, b) })
	bin("ladd", "", func(a, b *T) *T { return id.add(a, b) })
	bin("sub", "subAssign", func(a, b *T) *T { return id.sub(a, b) })
	dbl := func(a *T) *T { return id.k(2, a) }
	un("double", "doubleAssign", dbl)
	un("ldouble", "", dbl)
	un("neg", "", id.neg)
	un("inverse", "", func(a *T) *T { return id.inv(a) })
	xi := id.add(tt.Int(1), w.u)
	un("mulByNonResidue", "", func(a *T) *T { return id.mul(a, xi) })
	un("mulByB", "", func(a *T) *T { return id.mul(a, id.k(4, xi)) })
	in.def(pk+"mulByFq", func(in *Interp, c *callCtx) (Val, bool) {
		return put(c, 1, tt.map2(get(c, 2), in.blsFe(in.deref(c.args[3], c.st), c.st), mul))
	})
	in.def(pk+"isZero", func(in *Interp, c *callCtx) (Val, bool) {
		return in.decide(tt.eq0C(tt.mapC(get(c, 1), func(a *T) *T { return tt.Mod(a, blsP) })), c.st.pc), true
	})
	in.def(pk+"isOne", func(in *Interp, c *callCtx) (Val, bool) {
		return in.decide(tt.eq0C(tt.mapC(get(c, 1), func(a *T) *T { return tt.Mod(tt.AddI(a, -1), blsP) })), c.st.pc), true
	})
	in.def(pk+"equal", func(in *Interp, c *callCtx) (Val, bool) {
		return in.decide(tt.eq0C(tt.map2(get(c, 1), get(c, 2), func(a, b *T) *T { return tt.Mod(id.sub(a, b), blsP) })), c.st.pc), true
	})
	for _, n := range []string{"equal", "isZero"} {
		n := n
		in.def("(*"+blsPk+"fe2)."+n, func(in *Interp, c *callCtx) (Val, bool) {
			a := get(c, 0)
			if n == "equal" {
				a = tt.map2(a, get(c, 1), id.sub)
			}
			return in.decide(tt.eq0C(tt.mapC(a, func(a *T) *T { return tt.Mod(a, blsP) })), c.st.pc), true
		})
	}
	in.def(blsPk+"cfgArch", func(in *Interp, c *callCtx) (Val, bool) { return &TupleV{}, true })
	return w
}

// inv: the inverse of a product of atoms that are not zero, or an atom.
func (id *polyID) inv(a *T) *T {
	tt := id.h.tt
	q := id.nf(a)
	if q.IsConst() && q.c.Sign() == 0 {
		return q
	}
	if co, fs, ok := id.factor(q); ok {
		r := tt.Const(modInv(co, id.p))
		for _, v := range fs {
			r = tt.Mul(r, id.invOf(v))
		}
		return id.nf(r)
	}
	return tt.Inv(a, id.p)
}

// invOf: 1/v as a free non-zero atom with v * (1/v) = 1.
func (id *polyID) invOf(v *T) *T {
	tt := id.h.tt
	i := tt.Atom("var", "1/"+v.s, v.n, big0, new(big.Int).Sub(id.p, big1))
	if !id.nz[i] {
		id.nz[i] = true
		id.invs[i] = v
		lead := []*T{v, i}
		if v.id > i.id {
			lead = []*T{i, v}
		}
		id.rules = append(id.rules, polyRule{lead, tt.Int(1)})
	}
	return i
}

func (w *fp2Opaque) words(e *T) []*T {
	in, tt := w.h.in, w.h.tt
	_ = in
	if e.op == "choice" {
		var alts [][]*T
		for _, a := range e.args {
			alts = append(alts, w.words(a))
		}
		out := make([]*T, 12)
		for i := range out {
			var vs []*T
			for _, a := range alts {
				vs = append(vs, a[i])
			}
			out[i] = tt.Choice(e.cs, vs)
		}
		return out
	}
	e = w.id.nf(e)
	if c, ok := w.constant(e); ok {
		var out []*T
		for _, x := range c {
			for i := 0; i < 6; i++ {
				out = append(out, in.feLimb(feBls, tt.Const(x), i))
			}
		}
		return out
	}
	var out []*T
	for i := 0; i < 12; i++ {
		out = append(out, tt.Atom("limb", "fe2", i, big0, pow2m(64), e))
	}
	return out
}

// constant: c0 + c1 u.
func (w *fp2Opaque) constant(e *T) (f2, bool) {
	c := f2{big0, big0}
	if e.IsConst() {
		c[0] = new(big.Int).Mod(e.c, blsP)
		return c, true
	}
	for _, m := range e.monos() {
		switch {
		case len(m.vs) == 0:
			c[0] = new(big.Int).Mod(m.co, blsP)
		case len(m.vs) == 1 && m.vs[0] == w.u:
			c[1] = new(big.Int).Mod(m.co, blsP)
		default:
			return c, false
		}
	}
	return c, true
}

func (w *fp2Opaque) put(e *T) Val {
	v, _ := shapeWords([]int{2, 6}, w.words(e))
	return v
}

func (w *fp2Opaque) get(v Val, st *State) *T {
	in := w.h.in
	if p, ok := v.(*PtrV); ok {
		v = in.loadPath(st, p.o, p.path)
	}
	return w.of(flatWords(in, v, st, nil), st.pc)
}

func (w *fp2Opaque) of(ls []*T, pc *B) *T {
	in, tt := w.h.in, w.h.tt
	if len(ls) != 12 {
		in.note("extension element of unexpected form")
		return tt.Fresh("fe2", big0, new(big.Int).Sub(blsP, big1))
	}
	con := true
	for i, l := range ls {
		if l.op == "choice" {
			var vs []*T
			var cs []*B
			for j, c := range l.cs {
				p := tt.BAnd(pc, c)
				if !in.feasible(p) {
					continue
				}
				sub := append([]*T{}, ls...)
				for k := i; k < len(ls); k++ {
					if k == i {
						sub[k] = l.args[j]
					} else {
						sub[k] = in.res(ls[k], p)
					}
				}
				cs = append(cs, c)
				vs = append(vs, w.of(sub, p))
			}
			return tt.Choice(cs, vs)
		}
		con = con && l.IsConst()
	}
	if con {
		return w.id.nf(tt.Add(in.feLimbs(feBls, ls[:6], pc), tt.Mul(in.feLimbs(feBls, ls[6:], pc), w.u)))
	}
	if e0 := ls[0]; e0.op == "limb" && e0.s == "fe2" {
		same := true
		for i, l := range ls {
			same = same && l.op == "limb" && l.s == "fe2" && l.n == i && l.args[0] == e0.args[0]
		}
		if same {
			return e0.args[0]
		}
	}
	in.note("extension element of unexpected form")
	return tt.Fresh("fe2", big0, new(big.Int).Sub(blsP, big1))
}
