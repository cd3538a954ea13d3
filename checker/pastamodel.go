package main

import (
	"go/types"
	"math/big"
)

// Pallas: field elements, scalars and points as terms.

var pallas = &wcurve{name: "pallas", a: big0, b: bi(5), gx: big1,
	gy: hx("1b74b5a30a12937c53dfa9f06378ee548f655bd4333d477119cf7a23caed2abb")}

var (
	fePasta = &limbField{name: "fp", off: words64(4), lo: big0, hi: pow2m(64)}
	scPasta = &limbField{name: "fq", off: words64(4), lo: big0, hi: pow2m(64)}
)

func init() {
	pallas.p, pallas.n = pastaP, pastaQ
	wcurves = append(wcurves, pallas)
	fePasta.p, scPasta.p = pastaP, pastaQ
	fePasta.r, scPasta.r = new(big.Int).Mod(pow2(256), pastaP), new(big.Int).Mod(pow2(256), pastaQ)
	modNames[pastaP.Text(16)] = "p.pallas"
	modNames[pastaQ.Text(16)] = "n.pallas"
}

// canonWords: the n little-endian 64-bit words of x.
func (in *Interp) canonWords(x *T, n int) Val {
	tt := in.tt
	a := &AggV{}
	for i := 0; i < n; i++ {
		a.el = append(a.el, tt.mapC(x, func(x *T) *T { return in.wordOf(x, n, i) }))
	}
	return a
}

func (in *Interp) wordOf(x *T, n, i int) *T {
	tt := in.tt
	if x.IsConst() {
		return tt.Const(new(big.Int).And(new(big.Int).Rsh(x.c, uint(64*i)), pow2m(64)))
	}
	return tt.Val(tt.bsub(tt.BE(x, 8*n), tt.Int(int64(8*(n-1-i))), tt.Int(8)))
}

// wordsVal: the number n little-endian words make up.
func (in *Interp) wordsVal(v Val, st *State) *T {
	tt := in.tt
	if p, ok := v.(*PtrV); ok {
		v = in.loadPath(st, p.o, p.path)
	}
	v = in.resV(v, st.pc)
	if ch, ok := v.(*ChoiceV); ok {
		var vs []*T
		for i, a := range ch.vs {
			vs = append(vs, in.wordsVal(a, &State{tt.BAnd(st.pc, ch.cs[i]), st.mem}))
		}
		return tt.Choice(ch.cs, vs)
	}
	a, ok := v.(*AggV)
	if !ok {
		in.note("word array of unexpected form")
		return tt.Fresh("words", big0, pow2m(256))
	}
	var ls []*T
	for _, e := range a.el {
		ls = append(ls, in.res(in.intOf(e, st), st.pc))
	}
	return in.wordsNum(ls, st.pc)
}

func (in *Interp) wordsNum(ls []*T, pc *B) *T {
	tt := in.tt
	for i, l := range ls {
		if l.op != "choice" {
			continue
		}
		var vs []*T
		var cs []*B
		for j, c := range l.cs {
			p := tt.BAnd(pc, c)
			if !in.feasible(p) {
				continue
			}
			sub := append([]*T{}, ls...)
			sub[i] = l.args[j]
			for k := i + 1; k < len(ls); k++ {
				sub[k] = in.res(ls[k], p)
			}
			cs, vs = append(cs, c), append(vs, in.wordsNum(sub, p))
		}
		return tt.Choice(cs, vs)
	}
	var bs []*T
	for i := len(ls) - 1; i >= 0; i-- {
		bs = append(bs, tt.bytesPoly(ls[i], 8))
	}
	return tt.Val(tt.BCat(bs...))
}

// bytesPoly: the n big-endian bytes of x, which may be spelled as a sum of bytes.
func (tt *Terms) bytesPoly(x *T, n int) *T {
	ms := x.monos()
	if len(ms) < 2 {
		return tt.BE(x, n)
	}
	at := make([]*T, n)
	for i := range at {
		at[i] = tt.Int(0)
	}
	for _, m := range ms {
		k := m.co.BitLen() - 1
		if len(m.vs) != 1 || m.co.Sign() <= 0 || k%8 != 0 || int(m.co.TrailingZeroBits()) != k || k/8 >= n || !at[k/8].IsConst() {
			return tt.BE(x, n)
		}
		v := m.vs[0]
		if v.lo == nil || v.hi == nil || v.lo.Sign() < 0 || v.hi.BitLen() > 8 {
			return tt.BE(x, n)
		}
		at[k/8] = v
	}
	var bs []*T
	for i := n - 1; i >= 0; i-- {
		bs = append(bs, tt.BByte(at[i]))
	}
	return tt.BCat(bs...)
}

// modelPastaField: the two Montgomery fields.
func (in *Interp) modelPastaField() {
	tt := in.tt
	for _, x := range []struct {
		n string
		f *limbField
	}{{"Fp", fePasta}, {"Fq", scPasta}} {
		f, p, pk := x.f, x.f.p, "pasta.FiatPasta"+x.n
		get := func(in *Interp, c *callCtx, i int) *T { return in.feOf(f, c.args[i], c.st) }
		put := func(in *Interp, c *callCtx, e *T) (Val, bool) {
			in.store(c.args[0], in.feVal(f, e), c.st, c.pos)
			return &TupleV{}, true
		}
		mod := func(e *T) *T { return tt.Mod(e, p) }
		bin := func(name string, g func(a, b *T) *T) {
			in.def(pk+name, func(in *Interp, c *callCtx) (Val, bool) {
				return put(in, c, tt.map2(get(in, c, 1), get(in, c, 2), func(a, b *T) *T { return mod(g(a, b)) }))
			})
		}
		un := func(name string, g func(a *T) *T) {
			in.def(pk+name, func(in *Interp, c *callCtx) (Val, bool) {
				return put(in, c, tt.mapC(get(in, c, 1), func(a *T) *T { return mod(g(a)) }))
			})
		}
		bin("Add", tt.Add)
		bin("Sub", tt.Sub)
		bin("Mul", tt.Mul)
		un("Square", func(a *T) *T { return tt.Mul(a, a) })
		un("Opp", tt.Neg)
		un("Copy", func(a *T) *T { return a })
		un("Inv", func(a *T) *T { return tt.Inv(a, p) })
		in.def(pk+"SetOne", func(in *Interp, c *callCtx) (Val, bool) { return put(in, c, tt.Int(1)) })
		in.def(pk+"ToMontgomery", func(in *Interp, c *callCtx) (Val, bool) {
			return put(in, c, tt.mapC(in.wordsVal(c.args[1], c.st), mod))
		})
		in.def(pk+"FromMontgomery", func(in *Interp, c *callCtx) (Val, bool) {
			in.store(c.args[0], in.canonWords(get(in, c, 1), 4), c.st, c.pos)
			return &TupleV{}, true
		})
		in.def(pk+"NonZero", func(in *Interp, c *callCtx) (Val, bool) {
			z := in.decide(tt.eq0C(get(in, c, 1)), c.st.pc)
			nz := tt.mapC(get(in, c, 1), func(a *T) *T { return tt.Atom("nonzero", f.name, 0, big1, pow2m(64), a) })
			in.store(c.args[0], in.condT(z, tt.Int(0), nz), c.st, c.pos)
			return &TupleV{}, true
		})
		in.def(pk+"Equals", func(in *Interp, c *callCtx) (Val, bool) {
			return tt.eq0C(tt.map2(get(in, c, 0), get(in, c, 1), func(a, b *T) *T { return mod(tt.Sub(a, b)) })), true
		})
		in.def(pk+"EqualsZero", func(in *Interp, c *callCtx) (Val, bool) { return tt.eq0C(get(in, c, 0)), true })
		in.def(pk+"EqualsOne", func(in *Interp, c *callCtx) (Val, bool) {
			return tt.eq0C(tt.mapC(get(in, c, 0), func(a *T) *T { return mod(tt.AddI(a, -1)) })), true
		})
		in.def(pk+"Sqrt", func(in *Interp, c *callCtx) (Val, bool) {
			v := get(in, c, 1)
			old := get(in, c, 0)
			sq := tt.False
			for _, a := range in.alts(v, c.st.pc) {
				sq = tt.BOr(sq, tt.BAnd(a.g, tt.IsSquare(a.v.(*T), p)))
			}
			root := tt.mapC(v, func(a *T) *T { return tt.Sqrt(a, p) })
			put(in, c, in.condT(in.decide(sq, c.st.pc), root, old))
			return sq, true
		})
	}
}

// a Jacobian representative of P
func (in *Interp) jacPut(w *wcurve, f *limbField, dst Val, P *T, c *callCtx) {
	tt := in.tt
	co := func(i int) Val {
		return in.feVal(f, tt.mapC(P, func(P *T) *T {
			if P.IsConst() {
				return tt.Int(int64(i) & 1)
			}
			z := tt.Atom("jz", w.name, 0, big0, new(big.Int).Sub(w.p, big1), P)
			x, y := tt.coords(w, P)
			switch i {
			case 0:
				return tt.Mod(tt.Mul(x, tt.Mul(z, z)), w.p)
			case 1:
				return tt.Mod(tt.Mul(y, tt.Mul(z, tt.Mul(z, z))), w.p)
			}
			return z
		}))
	}
	in.store(dst, &AggV{el: []Val{co(0), co(1), co(2)}}, c.st, c.pos)
}

func (in *Interp) jacGet(w *wcurve, f *limbField, v Val, st *State) *T {
	tt := in.tt
	if p, ok := v.(*PtrV); ok {
		v = in.loadPath(st, p.o, p.path)
	}
	v = in.resV(v, st.pc)
	if ch, ok := v.(*ChoiceV); ok {
		var vs []*T
		for i, a := range ch.vs {
			vs = append(vs, in.jacGet(w, f, a, &State{tt.BAnd(st.pc, ch.cs[i]), st.mem}))
		}
		return tt.Choice(ch.cs, vs)
	}
	a, ok := v.(*AggV)
	if !ok || len(a.el) != 3 {
		in.note("point of unexpected form")
		return tt.Fresh("jpt", nil, nil)
	}
	var co []*T
	for _, e := range a.el {
		co = append(co, in.feOf(f, e, st))
	}
	return in.jacFrom(w, co, st.pc)
}

func (in *Interp) jacFrom(w *wcurve, co []*T, pc *B) *T {
	tt := in.tt
	for i, t := range co {
		if t.op != "choice" {
			continue
		}
		var cs []*B
		var vs []*T
		for j, g := range t.cs {
			p := tt.BAnd(pc, g)
			if !in.feasible(p) {
				continue
			}
			sub := append([]*T{}, co...)
			sub[i] = t.args[j]
			for k := i + 1; k < len(sub); k++ {
				sub[k] = in.res(sub[k], p)
			}
			cs, vs = append(cs, g), append(vs, in.jacFrom(w, sub, p))
		}
		return tt.Choice(cs, vs)
	}
	z := co[2]
	mod := func(t *T) *T { return tt.Mod(t, w.p) }
	if z.op == "jz" && z.s == w.name {
		P := z.args[0]
		x, y := tt.coords(w, P)
		z2 := tt.Mul(z, z)
		X, Y := mod(tt.Mul(x, z2)), mod(tt.Mul(y, tt.Mul(z2, z)))
		if co[0] == X && co[1] == Y {
			return P
		}
		if co[0] == X && co[1] == mod(tt.Neg(Y)) {
			return tt.Mod(tt.modNorm(tt.Neg(pointPoly(P)), w.n), w.n)
		}
	}
	if z.IsConst() {
		if z.c.Sign() == 0 {
			return tt.Int(0)
		}
		if z.c.Cmp(big1) == 0 {
			return tt.Aff(w, co[0], co[1])
		}
	}
	return tt.Atom("jpt", w.name, 0, nil, nil, co...)
}

func (in *Interp) modelPastaGroup() {
	in.tt.jac = true
	tt := in.tt
	w, f := pallas, fePasta
	get := func(in *Interp, c *callCtx, i int) *T { return in.jacGet(w, f, c.args[i], c.st) }
	in.def("pasta.GroupAdd", func(in *Interp, c *callCtx) (Val, bool) {
		in.jacPut(w, f, c.args[0], tt.PAdd(w, get(in, c, 1), get(in, c, 2)), c)
		return &TupleV{}, true
	})
	in.def("pasta.GroupDbl", func(in *Interp, c *callCtx) (Val, bool) {
		in.jacPut(w, f, c.args[0], tt.PMul(w, tt.Int(2), get(in, c, 1)), c)
		return &TupleV{}, true
	})
	in.def("pasta.GroupScalarMul", func(in *Interp, c *callCtx) (Val, bool) {
		k := in.feOf(scPasta, c.args[1], c.st)
		in.jacPut(w, f, c.args[0], tt.PMul(w, k, get(in, c, 2)), c)
		return &TupleV{}, true
	})
}

// modelMina: a message is n1 prefix elements, n2 suffix elements and an
// initial sponge state, or does not parse.
func (in *Interp) modelMina(n1, n2 int) {
	tt := in.tt
	in.def("encoding/json.Unmarshal", func(in *Interp, c *callCtx) (Val, bool) {
		msg := in.bytesOf(c.args[0], c.st)
		i, ok := c.args[1].(*IfaceV)
		if !ok {
			return nil, false
		}
		p, ok := i.v.(*PtrV)
		if !ok {
			return nil, false
		}
		pt, ok := i.typ.Underlying().(*types.Pointer)
		if !ok {
			return nil, false
		}
		st, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			return nil, false
		}
		a := &AggV{}
		for k := 0; k < st.NumFields(); k++ {
			switch st.Field(k).Name() {
			case "TransactionPrefix", "TransactionSuffix":
				n, s := n1, "prefix"
				if st.Field(k).Name() == "TransactionSuffix" {
					n, s = n2, "suffix"
				}
				arr := &AggV{}
				for j := 0; j < n; j++ {
					arr.el = append(arr.el, in.feVal(fePasta, tt.minaEl(s, j, msg)))
				}
				o := in.newObj("json", types.NewArray(st.Field(k).Type().Underlying().(*types.Slice).Elem(), int64(n)), c.pos)
				c.st.mem[o] = arr
				ln := tt.Int(int64(n))
				a.el = append(a.el, &SliceV{o: o, off: tt.Int(0), ln: ln, cp: ln, nilc: tt.False})
			case "SpongeIV":
				arr := &AggV{}
				for j := 0; j < 3; j++ {
					arr.el = append(arr.el, in.feVal(fePasta, tt.minaEl("iv", j, msg)))
				}
				a.el = append(a.el, arr)
			default:
				return nil, false
			}
		}
		in.store(p, a, c.st, c.pos)
		return in.choiceIf(tt.minaBad(msg), in.errVal(c, "json"), &IfaceV{}), true
	})
}

func (tt *Terms) minaEl(s string, j int, msg *T) *T {
	return tt.Atom("mina", s, j, big0, new(big.Int).Sub(pastaP, big1), msg)
}
func (tt *Terms) minaBad(msg *T) *B { return tt.Var(tt.Atom("jsonerr", "", 0, nil, nil, msg)) }

// modelPoseidon: the permutation as three functions of the three state elements.
func (in *Interp) modelPoseidon() {
	tt := in.tt
	in.def("pasta.PerMutation3W", func(in *Interp, c *callCtx) (Val, bool) {
		p, ok := c.args[0].(*PtrV)
		if !ok {
			return nil, false
		}
		pt, _ := c.sig.Params().At(0).Type().Underlying().(*types.Pointer)
		if pt == nil {
			return nil, false
		}
		ctx, _ := pt.Elem().Underlying().(*types.Struct)
		i := fieldIx(ctx, "State")
		if i < 0 {
			return nil, false
		}
		sp := &PtrV{o: p.o, path: append(append([]Sel{}, p.path...), Sel{i: i})}
		a, ok := in.resV(in.loadPath(c.st, sp.o, sp.path), c.st.pc).(*AggV)
		if !ok || len(a.el) < 3 {
			return nil, false
		}
		var s []*T
		for j := 0; j < 3; j++ {
			s = append(s, in.feOf(fePasta, a.el[j], c.st))
		}
		out := &AggV{el: append([]Val{}, a.el...)}
		for j := 0; j < 3; j++ {
			out.el[j] = in.feVal(fePasta, tt.permC(j, s))
		}
		in.store(sp, out, c.st, c.pos)
		return &TupleV{}, true
	})
}

func (tt *Terms) permC(j int, s []*T) *T {
	for i, t := range s {
		if t.op == "choice" {
			var vs []*T
			for _, a := range t.args {
				l := append([]*T{}, s...)
				l[i] = a
				vs = append(vs, tt.permC(j, l))
			}
			return tt.Choice(t.cs, vs)
		}
	}
	return tt.Atom("poseidon", "", j, big0, new(big.Int).Sub(pastaP, big1), s...)
}
