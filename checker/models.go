package main

import (
	"encoding/hex"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of library functions: each gives the value a call computes as a term
// over the values of its arguments, plus the obligations that the library
// itself checks with a panic.

func (in *Interp) def(names string, f modelFn) {
	for _, n := range strings.Fields(names) {
		in.models[n] = f
	}
}

// ---- helpers ----

func (in *Interp) newBig(t *T, st *State) *PtrV {
	o := in.newObj("big", nil, token.NoPos)
	st.mem[o] = t
	return &PtrV{o: o}
}

// bigVal reads the integer behind a *big.Int value.
func (in *Interp) bigVal(v Val, c *callCtx) *T {
	x := in.load(v, c.st, c.pos, nil)
	return in.intOf(x, c.st)
}

func (in *Interp) intOf(x Val, st *State) *T {
	switch y := x.(type) {
	case *T:
		if !isBytes(y) {
			return in.res(y, st.pc)
		}
	case *ChoiceV:
		var cs []*B
		var vs []*T
		ok := true
		for _, a := range in.alts(y, st.pc) {
			t, k := a.v.(*T)
			if !k || isBytes(t) {
				ok = false
				break
			}
			cs = append(cs, a.g)
			vs = append(vs, t)
		}
		if ok && len(vs) > 0 {
			return in.tt.Choice(cs, vs)
		}
	}
	in.note("integer contents unknown")
	return in.tt.Fresh("unk:big", nil, nil)
}

func (in *Interp) setBig(z Val, t *T, c *callCtx) Val {
	in.store(z, t, c.st, c.pos)
	return z
}

// emod: Euclidean remainder by a positive constant, using path facts.
func (in *Interp) emod(x, m *T, pc *B) *T {
	return in.map2(x, m, pc, func(x, m *T, pc *B) *T {
		x, m = in.res(x, pc), in.res(m, pc)
		if m.IsConst() && m.c.Sign() > 0 {
			l, h := in.rangeOf(x, pc)
			if l != nil && h != nil && l.Sign() >= 0 && h.Cmp(m.c) < 0 {
				return x
			}
			return in.tt.Mod(x, m.c)
		}
		return in.tt.Atom("emod", "", 0, big0, nil, x, m)
	})
}

func (in *Interp) errVal(c *callCtx, name string) Val {
	k := name + "@"
	if c.pos.IsValid() {
		k += in.p.Pos(c.pos)
	} else {
		k += itoa(in.tt.next())
	}
	o := in.errObjs[k]
	if o == nil {
		o = in.newObj("err:"+name, nil, c.pos)
		if in.errObjs == nil {
			in.errObjs = map[string]*Obj{}
		}
		in.errObjs[k] = o
		in.base[o] = in.tt.Int(0)
	}
	return &IfaceV{model: "error", v: &PtrV{o: o}}
}

func (in *Interp) choiceIf(c *B, a, b Val) Val {
	tt := in.tt
	if c == tt.True {
		return a
	}
	if c == tt.False {
		return b
	}
	return in.mergeV([]*B{c, tt.BNot(c)}, []Val{a, b})
}

func (in *Interp) condT(c *B, a, b *T) *T {
	tt := in.tt
	return tt.Choice([]*B{c, tt.BNot(c)}, []*T{a, b})
}

// ---- big.Int ----

func (in *Interp) modelBig() {
	tt := in.tt
	BI := "(*math/big.Int)."
	in.def("math/big.NewInt", func(in *Interp, c *callCtx) (Val, bool) {
		return in.newBig(in.intOf(c.args[0], c.st), c.st), true
	})
	bin := func(name string, f func(x, y *T, pc *B) *T) {
		in.def(BI+name, func(in *Interp, c *callCtx) (Val, bool) {
			x, y := in.bigVal(c.args[1], c), in.bigVal(c.args[2], c)
			return in.setBig(c.args[0], in.map2(x, y, c.st.pc, f), c), true
		})
	}
	bin("Add", func(x, y *T, _ *B) *T { return tt.Add(x, y) })
	bin("Sub", func(x, y *T, _ *B) *T { return tt.Sub(x, y) })
	bin("Mul", func(x, y *T, _ *B) *T { return tt.Mul(x, y) })
	bin("Xor", func(x, y *T, _ *B) *T { return tt.Xor(x, y, 512) })
	un := func(name string, f func(x *T, pc *B) *T) {
		in.def(BI+name, func(in *Interp, c *callCtx) (Val, bool) {
			return in.setBig(c.args[0], in.mapT(in.bigVal(c.args[1], c), c.st.pc, f), c), true
		})
	}
	un("Set", func(x *T, _ *B) *T { return x })
	un("Neg", func(x *T, _ *B) *T { return tt.Neg(x) })
	un("Abs", func(x *T, _ *B) *T {
		if x.lo != nil && x.lo.Sign() >= 0 {
			return x
		}
		neg := tt.Lt0(x)
		return in.condT(neg, tt.Neg(x), x)
	})
	in.def(BI+"SetInt64 "+BI+"SetUint64", func(in *Interp, c *callCtx) (Val, bool) {
		return in.setBig(c.args[0], in.intOf(c.args[1], c.st), c), true
	})
	in.def(BI+"SetBytes", func(in *Interp, c *callCtx) (Val, bool) {
		b := in.bytesOf(c.args[1], c.st)
		return in.setBig(c.args[0], tt.Val(b), c), true
	})
	in.def(BI+"Bytes", func(in *Interp, c *callCtx) (Val, bool) {
		x := in.bigVal(c.args[0], c)
		return in.newBytes(in.mapT(x, c.st.pc, func(x *T, pc *B) *T { return tt.BEMin(x) }), c.st, "Bytes"), true
	})
	in.def(BI+"FillBytes", func(in *Interp, c *callCtx) (Val, bool) {
		x := in.bigVal(c.args[0], c)
		n := in.lenOf(c.args[1], types.NewSlice(types.Typ[types.Uint8]), c.st)
		if !n.IsConst() {
			return nil, false
		}
		k := int(n.c.Int64())
		in.oblige("big.Int.FillBytes buffer too small", c.pos, tt.Lt(x, tt.Const(pow2(8*k))), c.st)
		in.writeBytes(c.args[1], in.mapT(x, c.st.pc, func(x *T, _ *B) *T { return tt.BE(x, k) }), c.st)
		return c.args[1], true
	})
	in.def(BI+"Cmp "+BI+"CmpAbs", func(in *Interp, c *callCtx) (Val, bool) {
		x, y := in.bigVal(c.args[0], c), in.bigVal(c.args[1], c)
		return in.map2(x, y, c.st.pc, func(x, y *T, _ *B) *T { return tt.Cmp3(tt.Sub(x, y)) }), true
	})
	in.def(BI+"Sign", func(in *Interp, c *callCtx) (Val, bool) {
		x := in.bigVal(c.args[0], c)
		return in.mapT(x, c.st.pc, func(x *T, _ *B) *T { return tt.Cmp3(x) }), true
	})
	in.def(BI+"IsUint64", func(in *Interp, c *callCtx) (Val, bool) {
		x := in.bigVal(c.args[0], c)
		return tt.BAnd(tt.BNot(tt.Lt0(x)), tt.Lt(x, tt.Const(pow2(64)))), true
	})
	in.def(BI+"Int64", func(in *Interp, c *callCtx) (Val, bool) {
		x := in.bigVal(c.args[0], c)
		return in.mapT(x, c.st.pc, func(x *T, _ *B) *T { return tt.Wrap(x, 64, true) }), true
	})
	in.def(BI+"Uint64", func(in *Interp, c *callCtx) (Val, bool) {
		x := in.bigVal(c.args[0], c)
		return in.mapT(x, c.st.pc, func(x *T, _ *B) *T { return tt.LowBits(x, 64) }), true
	})
	in.def(BI+"BitLen", func(in *Interp, c *callCtx) (Val, bool) {
		x := in.bigVal(c.args[0], c)
		return in.mapT(x, c.st.pc, func(x *T, _ *B) *T {
			if x.IsConst() {
				return tt.Int(int64(x.c.BitLen()))
			}
			var hi *big.Int
			if x.hi != nil && x.lo != nil && x.lo.Sign() >= 0 {
				hi = bi(int64(x.hi.BitLen()))
			}
			return tt.Atom("bitlen", "", 0, big0, hi, x)
		}), true
	})
	in.def(BI+"Bits", func(in *Interp, c *callCtx) (Val, bool) {
		x := in.bigVal(c.args[0], c)
		k := 0
		if x.hi != nil && x.lo != nil && x.lo.Sign() >= 0 {
			k = (x.hi.BitLen() + 63) / 64
		} else {
			return nil, false
		}
		a := &AggV{}
		for i := 0; i < k; i++ {
			a.el = append(a.el, tt.LowBits(tt.Shr(x, 64*i), 64))
		}
		o := in.newObj("words", nil, c.pos)
		c.st.mem[o] = a
		n := tt.Int(int64(k))
		// leading zero words are not part of the slice
		var cs []*B
		var vs []*T
		rest := tt.True
		for j := 0; j < k; j++ {
			z := tt.Eq0(tt.Shr(x, 64*j))
			cs, vs = append(cs, tt.BAnd(rest, z)), append(vs, tt.Int(int64(j)))
			rest = tt.BAnd(rest, tt.BNot(z))
		}
		phi := tt.phi
		tt.phi = false
		ln := tt.Choice(append(cs, rest), append(vs, n))
		tt.phi = phi
		return &SliceV{o: o, off: tt.Int(0), ln: ln, cp: n, nilc: tt.False}, true
	})
	in.def(BI+"Bit", func(in *Interp, c *callCtx) (Val, bool) {
		x := in.bigVal(c.args[0], c)
		i := in.intOf(c.args[1], c.st)
		return in.map2(x, i, c.st.pc, func(x, i *T, _ *B) *T {
			if i.IsConst() {
				return tt.LowBits(tt.Shr(x, int(i.c.Int64())), 1)
			}
			return tt.Atom("bit", "", 0, big0, big1, x, i)
		}), true
	})
	shift := func(name string, left bool) {
		in.def(BI+name, func(in *Interp, c *callCtx) (Val, bool) {
			x := in.bigVal(c.args[1], c)
			k := in.intOf(c.args[2], c.st)
			return in.setBig(c.args[0], in.map2(x, k, c.st.pc, func(x, k *T, _ *B) *T {
				if k.IsConst() && k.c.IsInt64() && k.c.Int64() < 1<<16 {
					if left {
						return tt.Scale(x, pow2(int(k.c.Int64())))
					}
					return tt.Shr(x, int(k.c.Int64()))
				}
				return tt.Atom("big"+name, "", 0, nil, nil, x, k)
			}), c), true
		})
	}
	bitw := func(name string, f func(in *Interp, x, y *T, w int) *T) {
		in.def(BI+name, func(in *Interp, c *callCtx) (Val, bool) {
			x, y := in.bigVal(c.args[1], c), in.bigVal(c.args[2], c)
			return in.setBig(c.args[0], in.map2(x, y, c.st.pc, func(x, y *T, pc *B) *T {
				w := 8
				for _, v := range []*T{x, y} {
					lo, hi := in.rangeOf(v, pc)
					if lo == nil || lo.Sign() < 0 {
						return tt.Atom("big"+name, "", 0, nil, nil, x, y)
					}
					if hi == nil {
						w = 1 << 16
					} else if hi.BitLen() > w {
						w = hi.BitLen()
					}
				}
				if name == "And" {
					a, b := x, y
					if a.IsConst() {
						a, b = b, a
					}
					if b.IsConst() {
						if b.c.Sign() == 0 {
							return b
						}
						if k := b.c.BitLen(); b.c.Cmp(pow2m(k)) == 0 {
							return tt.LowBits(a, k)
						}
					}
				}
				if w == 1<<16 {
					return tt.Atom("big"+name, "", 0, big0, nil, x, y)
				}
				return f(in, x, y, w)
			}), c), true
		})
	}
	bitw("And", func(in *Interp, x, y *T, w int) *T { return tt.And(x, y, w) })
	bitw("Or", func(in *Interp, x, y *T, w int) *T { return tt.Or(x, y, w) })
	bitw("Xor", func(in *Interp, x, y *T, w int) *T { return tt.Xor(x, y, w) })
	bitw("AndNot", func(in *Interp, x, y *T, w int) *T { return tt.And(x, tt.Not(y, w), w) })
	in.def(BI+"SetBit", func(in *Interp, c *callCtx) (Val, bool) {
		x := in.bigVal(c.args[1], c)
		i, b := in.intOf(c.args[2], c.st), in.intOf(c.args[3], c.st)
		return in.setBig(c.args[0], in.map2(x, i, c.st.pc, func(x, i *T, pc *B) *T {
			lo, hi := in.rangeOf(x, pc)
			if !i.IsConst() || !b.IsConst() || lo == nil || lo.Sign() < 0 || hi == nil {
				return tt.Atom("bigSetBit", "", 0, nil, nil, x, i, b)
			}
			k := pow2(int(i.c.Int64()))
			w := max(hi.BitLen(), k.BitLen())
			if b.c.Sign() == 0 {
				return tt.And(x, tt.Not(tt.Const(k), w), w)
			}
			return tt.Or(x, tt.Const(k), w)
		}), c), true
	})
	shift("Lsh", true)
	shift("Rsh", false)
	in.def(BI+"SetString", func(in *Interp, c *callCtx) (Val, bool) {
		s, ok := c.args[1].(*T)
		b := in.intOf(c.args[2], c.st)
		if ok && s.op == "lit" && b.IsConst() {
			v, k := new(big.Int).SetString(s.s, int(b.c.Int64()))
			if !k {
				return &TupleV{[]Val{&PtrV{}, tt.False}}, true
			}
			z := in.setBig(c.args[0], tt.Const(v), c)
			return &TupleV{[]Val{z, tt.True}}, true
		}
		z := in.setBig(c.args[0], tt.Fresh("unk:parsed", nil, nil), c)
		okb := tt.Var(tt.Fresh("unk:parse", nil, nil))
		in.note("integer parsed from unknown text")
		return &TupleV{[]Val{in.choiceIf(okb, z, &PtrV{}), okb}}, true
	})
	in.def(BI+"Mod", func(in *Interp, c *callCtx) (Val, bool) {
		x, m := in.bigVal(c.args[1], c), in.bigVal(c.args[2], c)
		in.oblige("division by zero", c.pos, tt.BNot(tt.Eq0(m)), c.st)
		return in.setBig(c.args[0], in.emod(x, m, c.st.pc), c), true
	})
	in.def(BI+"Rem", func(in *Interp, c *callCtx) (Val, bool) {
		x, m := in.bigVal(c.args[1], c), in.bigVal(c.args[2], c)
		in.oblige("division by zero", c.pos, tt.BNot(tt.Eq0(m)), c.st)
		if !in.proveGE0(x, c.st.pc) {
			return in.setBig(c.args[0], tt.Atom("bigrem", "", 0, nil, nil, x, m), c), true
		}
		return in.setBig(c.args[0], in.emod(x, m, c.st.pc), c), true
	})
	div := func(in *Interp, c *callCtx) (Val, bool) {
		x, m := in.bigVal(c.args[1], c), in.bigVal(c.args[2], c)
		in.oblige("division by zero", c.pos, tt.BNot(tt.Eq0(m)), c.st)
		return in.setBig(c.args[0], in.map2(x, m, c.st.pc, func(x, m *T, pc *B) *T {
			if x.IsConst() && m.IsConst() {
				return tt.Const(new(big.Int).Div(x.c, m.c))
			}
			if m.IsConst() && m.c.Sign() > 0 && in.proveGE0(x, pc) {
				k := m.c.BitLen() - 1
				if m.c.Cmp(pow2(k)) == 0 {
					return tt.Shr(x, k)
				}
				var hi *big.Int
				if x.hi != nil {
					hi = new(big.Int).Quo(x.hi, m.c)
				}
				return tt.Atom("quo", m.c.Text(16), 0, big0, hi, x)
			}
			return tt.Atom("bigdiv", "", 0, nil, nil, x, m)
		}), c), true
	}
	in.def(BI+"Div "+BI+"Quo", div)
	in.def(BI+"ModInverse", func(in *Interp, c *callCtx) (Val, bool) {
		x, m := in.bigVal(c.args[1], c), in.bigVal(c.args[2], c)
		if !m.IsConst() {
			in.note("inverse for unknown modulus")
			return c.args[0], true
		}
		zero := in.decide(tt.liftC(x, func(x *T) *B { return tt.ZeroMod(x, m.c) }), c.st.pc)
		if zero == tt.True {
			return &PtrV{}, true
		}
		pc2 := tt.BAnd(c.st.pc, tt.BNot(zero))
		inv := in.mapT(x, pc2, func(x *T, pc *B) *T { return tt.Inv(in.res(x, pc), m.c) })
		if zero == tt.False {
			return in.setBig(c.args[0], inv, c), true
		}
		old := in.intOf(in.load(c.args[0], c.st, c.pos, nil), c.st)
		z := in.setBig(c.args[0], in.condT(zero, old, inv), c)
		return in.choiceIf(zero, &PtrV{}, z), true
	})
	in.def(BI+"ModSqrt", func(in *Interp, c *callCtx) (Val, bool) {
		x, m := in.bigVal(c.args[1], c), in.bigVal(c.args[2], c)
		if !m.IsConst() {
			return nil, false
		}
		xr := in.emod(x, m, c.st.pc)
		qr := in.decide(tt.liftC(xr, func(x *T) *B { return tt.IsSquare(x, m.c) }), c.st.pc)
		root := in.mapT(xr, c.st.pc, func(x *T, _ *B) *T { return tt.Sqrt(x, m.c) })
		if qr == tt.True {
			return in.setBig(c.args[0], root, c), true
		}
		old := in.intOf(in.load(c.args[0], c.st, c.pos, nil), c.st)
		z := in.setBig(c.args[0], in.condT(qr, root, old), c)
		return in.choiceIf(qr, z, &PtrV{}), true
	})
	in.def(BI+"Exp", func(in *Interp, c *callCtx) (Val, bool) {
		x, e := in.bigVal(c.args[1], c), in.bigVal(c.args[2], c)
		var m *T
		if p, ok := c.args[3].(*PtrV); ok && p.o == nil {
			m = tt.Int(0)
		} else {
			m = in.bigVal(c.args[3], c)
		}
		r := in.map2(x, e, c.st.pc, func(x, e *T, _ *B) *T {
			if m.IsConst() && e.IsConst() && m.c.Sign() > 0 && e.c.Sign() >= 0 {
				if x.IsConst() {
					return tt.Const(new(big.Int).Exp(x.c, e.c, m.c))
				}
				if new(big.Int).Sub(m.c, e.c).Cmp(bi(2)) == 0 {
					return tt.Inv(x, m.c)
				}
				if e.c.BitLen() <= 3 {
					r := tt.Int(1)
					for i := int64(0); i < e.c.Int64(); i++ {
						r = tt.Mod(tt.Mul(r, x), m.c)
					}
					return r
				}
				return tt.Atom("powmod", e.c.Text(16)+"/"+m.c.Text(16), 0, big0, new(big.Int).Sub(m.c, big1), tt.Mod(x, m.c))
			}
			return tt.Atom("exp", "", 0, nil, nil, x, e, m)
		})
		return in.setBig(c.args[0], r, c), true
	})
	in.def(BI+"String "+BI+"Text", func(in *Interp, c *callCtx) (Val, bool) {
		x := in.bigVal(c.args[0], c)
		if x.IsConst() {
			return tt.BLit(x.c.String()), true
		}
		return tt.BIn("text"+itoa(x.id), tt.Atom("textlen", "", 0, big1, nil, x)), true
	})
}

// liftC applies a predicate below a choice.
func (tt *Terms) liftC(x *T, f func(*T) *B) *B {
	if x.op == "choice" {
		r := tt.False
		for i, a := range x.args {
			r = tt.BOr(r, tt.BAnd(x.cs[i], tt.liftC(a, f)))
		}
		return r
	}
	return f(x)
}

// ZeroMod: x = 0 (mod m), canonical.
func (tt *Terms) ZeroMod(x *T, m *big.Int) *B {
	return tt.Eq0(tt.Mod(x, m))
}

// IsSquare: x is a square modulo the prime m (zero included).
func (tt *Terms) IsSquare(x *T, m *big.Int) *B {
	if x.IsConst() {
		if x.c.Sign() == 0 || big.Jacobi(x.c, m) == 1 {
			return tt.True
		}
		return tt.False
	}
	return tt.Var(tt.Atom("square", m.Text(16), 0, nil, nil, x))
}

func (tt *Terms) Sqrt(x *T, m *big.Int) *T {
	if x.IsConst() {
		r := new(big.Int).ModSqrt(x.c, m)
		if r != nil {
			return tt.Const(r)
		}
	}
	return tt.Atom("sqrt", m.Text(16), 0, big0, new(big.Int).Sub(m, big1), x)
}

// ---- errors, randomness, misc ----

func (in *Interp) modelMisc() {
	tt := in.tt
	in.def("errors.New", func(in *Interp, c *callCtx) (Val, bool) {
		n := ""
		if t, ok := c.args[0].(*T); ok && t.op == "lit" {
			n = t.s
		}
		return in.errVal(c, n), true
	})
	in.def("fmt.Errorf", func(in *Interp, c *callCtx) (Val, bool) { return in.errVal(c, "errorf"), true })
	in.def("model:error.Error", func(in *Interp, c *callCtx) (Val, bool) {
		return tt.BIn("errtext", tt.Atom("errlen", "", 0, big0, bi(1<<20))), true
	})
	in.def("fmt.Sprintf fmt.Sprint fmt.Sprintln", func(in *Interp, c *callCtx) (Val, bool) {
		return tt.BIn("text"+itoa(tt.next()), tt.Fresh("textlen", big0, bi(1<<20))), true
	})
	in.def("fmt.Println fmt.Printf fmt.Print", func(in *Interp, c *callCtx) (Val, bool) {
		return &TupleV{[]Val{tt.Fresh("n", big0, bi(1<<20)), &IfaceV{}}}, true
	})
	in.def("(*sync.Once).Do", func(in *Interp, c *callCtx) (Val, bool) {
		f, ok := c.args[1].(*FuncV)
		if !ok || f.fn == nil {
			return nil, false
		}
		_, s := in.callFunc(f.fn, nil, f.bind, c.st, c.call)
		if s == nil {
			c.st.pc = tt.False
			return &TupleV{}, true
		}
		c.rep = s
		return &TupleV{}, true
	})
	in.def("(*sync.Mutex).Lock (*sync.Mutex).Unlock (*sync.RWMutex).Lock (*sync.RWMutex).Unlock (*sync.RWMutex).RLock (*sync.RWMutex).RUnlock", func(in *Interp, c *callCtx) (Val, bool) {
		return &TupleV{}, true
	})
	fill := func(in *Interp, c *callCtx, dst Val) *T {
		n := in.lenOf(dst, types.NewSlice(types.Typ[types.Uint8]), c.st)
		in.rands++
		name := "rand#" + itoa(in.rands)
		t := tt.BIn(name, n)
		in.writeBytes(dst, t, c.st)
		var fn *ssa.Function
		if len(in.stack) > 0 {
			fn = in.stack[len(in.stack)-1]
		}
		in.reads = append(in.reads, &ReadEv{name, n, fn, c.pos})
		return n
	}
	in.def("crypto/rand.Read", func(in *Interp, c *callCtx) (Val, bool) {
		n := fill(in, c, c.args[0])
		bad := tt.Var(tt.Atom("randerr", itoa(in.rands), 0, nil, nil))
		return &TupleV{[]Val{n, in.choiceIf(bad, in.errVal(c, "rand"), &IfaceV{})}}, true
	})
	in.def("model:rand.Read", func(in *Interp, c *callCtx) (Val, bool) {
		n := fill(in, c, c.args[1])
		bad := tt.Var(tt.Atom("randerr", itoa(in.rands), 0, nil, nil))
		return &TupleV{[]Val{n, in.choiceIf(bad, in.errVal(c, "rand"), &IfaceV{})}}, true
	})
	readFull := func(in *Interp, c *callCtx, buf Val) (Val, bool) {
		i, ok := c.args[0].(*IfaceV)
		if !ok {
			return nil, false
		}
		if i.typ == nil && i.model == "rand" {
			n := fill(in, c, buf)
			bad := tt.Var(tt.Atom("randerr", itoa(in.rands), 0, nil, nil))
			return &TupleV{[]Val{n, in.choiceIf(bad, in.errVal(c, "rand"), &IfaceV{})}}, true
		}
		n := in.lenOf(buf, types.NewSlice(types.Typ[types.Uint8]), c.st)
		if i.typ == nil {
			return nil, false
		}
		ms := in.p.SSA.MethodSets.MethodSet(i.typ)
		sel := ms.Lookup(nil, "Read")
		if sel == nil {
			return nil, false
		}
		r, s := in.callFunc(in.p.SSA.MethodValue(sel), []Val{i.v, buf}, nil, c.st, c.call)
		if s == nil {
			c.st.pc = tt.False
			return nil, true
		}
		c.rep = s
		tv, ok := r.(*TupleV)
		if !ok {
			return r, true
		}
		got := in.intOf(tv.el[0], s)
		if in.decide(tt.Eq(got, n), s.pc) == tt.True {
			return &TupleV{[]Val{n, &IfaceV{}}}, true
		}
		in.note("short read")
		return in.resultUnknown(c.sig, "read"), true
	}
	in.def("io.ReadFull", func(in *Interp, c *callCtx) (Val, bool) { return readFull(in, c, c.args[1]) })
	in.def("io.ReadAtLeast", func(in *Interp, c *callCtx) (Val, bool) { return readFull(in, c, c.args[1]) })

	in.def("bytes.Equal", func(in *Interp, c *callCtx) (Val, bool) {
		a, b := in.bytesOf(c.args[0], c.st), in.bytesOf(c.args[1], c.st)
		return in.bytesEq(a, b, c.st.pc), true
	})
	in.def("bytes.Compare", func(in *Interp, c *callCtx) (Val, bool) {
		a, b := in.bytesOf(c.args[0], c.st), in.bytesOf(c.args[1], c.st)
		if a.len == b.len && a.len.IsConst() {
			// byte strings of one length order as the numbers they spell
			if x, y := tt.Val(a), tt.Val(b); !x.IsConst() && !y.IsConst() {
				eq, lt := in.bytesEq(a, b, c.st.pc), in.decide(tt.Lt(x, y), c.st.pc)
				return tt.Choice([]*B{eq, tt.BAnd(tt.BNot(eq), lt), tt.BAnd(tt.BNot(eq), tt.BNot(lt))}, []*T{tt.Int(0), tt.Int(-1), tt.Int(1)}), true
			}
			return in.map2(tt.Val(a), tt.Val(b), c.st.pc, func(x, y *T, _ *B) *T { return tt.Cmp3(tt.Sub(x, y)) }), true
		}
		eq := in.bytesEq(a, b, c.st.pc)
		lt := tt.Var(tt.Atom("blt", "", 0, nil, nil, a, b))
		return tt.Choice([]*B{eq, tt.BAnd(tt.BNot(eq), lt), tt.BAnd(tt.BNot(eq), tt.BNot(lt))}, []*T{tt.Int(0), tt.Int(-1), tt.Int(1)}), true
	})
	in.def("crypto/subtle.ConstantTimeCompare", func(in *Interp, c *callCtx) (Val, bool) {
		a, b := in.bytesOf(c.args[0], c.st), in.bytesOf(c.args[1], c.st)
		return in.condT(in.bytesEq(a, b, c.st.pc), tt.Int(1), tt.Int(0)), true
	})
	in.def("crypto/hmac.Equal", func(in *Interp, c *callCtx) (Val, bool) {
		a, b := in.bytesOf(c.args[0], c.st), in.bytesOf(c.args[1], c.st)
		return in.bytesEq(a, b, c.st.pc), true
	})
	in.def("crypto/subtle.ConstantTimeByteEq crypto/subtle.ConstantTimeEq", func(in *Interp, c *callCtx) (Val, bool) {
		a, b := in.intOf(c.args[0], c.st), in.intOf(c.args[1], c.st)
		return in.condT(in.decide(tt.Eq(a, b), c.st.pc), tt.Int(1), tt.Int(0)), true
	})
	in.def("encoding/hex.DecodeString", func(in *Interp, c *callCtx) (Val, bool) {
		s, ok := c.args[0].(*T)
		if ok && s.op == "lit" {
			b, err := hex.DecodeString(s.s)
			if err != nil {
				return &TupleV{[]Val{in.nilSlice(), in.errVal(c, "hex")}}, true
			}
			return &TupleV{[]Val{in.newBytes(tt.BLit(string(b)), c.st, "hex"), &IfaceV{}}}, true
		}
		return nil, false
	})
	for n, f := range map[string]func(float64) float64{"Log2": math.Log2, "Floor": math.Floor, "Ceil": math.Ceil, "Sqrt": math.Sqrt, "Trunc": math.Trunc} {
		in.def("math."+n, func(in *Interp, c *callCtx) (Val, bool) {
			x, ok := c.args[0].(FltV)
			if !ok {
				return nil, false
			}
			return FltV(f(float64(x))), true
		})
	}
	// math/bits
	in.def("math/bits.Mul64", func(in *Interp, c *callCtx) (Val, bool) {
		p := tt.Mul(in.intOf(c.args[0], c.st), in.intOf(c.args[1], c.st))
		return &TupleV{[]Val{tt.Shr(p, 64), tt.LowBits(p, 64)}}, true
	})
	in.def("math/bits.Add64 math/bits.Add", func(in *Interp, c *callCtx) (Val, bool) {
		p := tt.Add(tt.Add(in.intOf(c.args[0], c.st), in.intOf(c.args[1], c.st)), in.intOf(c.args[2], c.st))
		return &TupleV{[]Val{tt.LowBits(p, 64), tt.Shr(p, 64)}}, true
	})
	in.def("math/bits.Sub64 math/bits.Sub", func(in *Interp, c *callCtx) (Val, bool) {
		p := tt.Sub(tt.Sub(in.intOf(c.args[0], c.st), in.intOf(c.args[1], c.st)), in.intOf(c.args[2], c.st))
		return &TupleV{[]Val{tt.LowBits(p, 64), tt.Neg(tt.Shr(p, 64))}}, true
	})
	rot := func(w int) modelFn {
		return func(in *Interp, c *callCtx) (Val, bool) {
			k := in.intOf(c.args[1], c.st)
			if !k.IsConst() {
				return nil, false
			}
			n := int(((k.c.Int64() % int64(w)) + int64(w)) % int64(w))
			return tt.Rotl(in.intOf(c.args[0], c.st), n, w), true
		}
	}
	in.def("math/bits.RotateLeft32", rot(32))
	in.def("math/bits.RotateLeft64", rot(64))
	// ciphers
	in.def("crypto/aes.NewCipher", func(in *Interp, c *callCtx) (Val, bool) {
		k := in.bytesOf(c.args[0], c.st)
		n := in.res(k.len, c.st.pc)
		if n.IsConst() && (n.c.Int64() == 16 || n.c.Int64() == 24 || n.c.Int64() == 32) {
			o := in.newObj("aes", nil, c.pos)
			c.st.mem[o] = k
			return &TupleV{[]Val{&IfaceV{model: "aes", v: &PtrV{o: o}}, &IfaceV{}}}, true
		}
		return nil, false
	})
	in.def("crypto/cipher.NewCTR", func(in *Interp, c *callCtx) (Val, bool) {
		i, ok := c.args[0].(*IfaceV)
		if !ok || i.model != "aes" {
			return nil, false
		}
		k := in.bytesOf(i.v, c.st)
		iv := in.bytesOf(c.args[1], c.st)
		in.oblige("CTR iv length", c.pos, tt.Eq(iv.len, tt.Int(16)), c.st)
		o := in.newObj("ctr", nil, c.pos)
		c.st.mem[o] = &StreamV{k, iv, tt.Int(0)}
		return &IfaceV{model: "ctr", v: &PtrV{o: o}}, true
	})
	in.def("model:ctr.XORKeyStream", func(in *Interp, c *callCtx) (Val, bool) {
		p := c.args[0].(*PtrV)
		src := in.bytesOf(c.args[2], c.st)
		s, ok := in.objVal(c.st, p.o).(*StreamV)
		var out *T
		if ok {
			ks := tt.bsub(tt.BIn2("keystream", tt.Const(pow2(60)), s.key, s.iv), s.pos, src.len)
			if z := src.op == "zeros" || (src.op == "lit" && allZero(src.s)); z {
				out = ks
			} else {
				out = tt.BytesXor(src, ks)
			}
			c.st.mem[p.o] = &StreamV{s.key, s.iv, tt.Add(s.pos, src.len)}
		} else {
			// position lost at a loop: the bytes are the "next" ones of this stream
			in.rands++
			out = tt.BIn("stream#"+itoa(in.rands), src.len)
			in.note("keystream position unknown")
		}
		in.writeBytes(c.args[1], out, c.st)
		return &TupleV{}, true
	})
	in.def("reflect.TypeOf", func(in *Interp, c *callCtx) (Val, bool) { return &UnkV{"reflect"}, true })
}

// BIn2: a named byte string determined by other terms.
func (tt *Terms) BIn2(name string, ln *T, args ...*T) *T {
	return tt.bAtom("in", name, 0, ln, args...)
}

// BXor: bytewise exclusive or of equally long strings.
func (tt *Terms) BytesXor(a, b *T) *T {
	if a == b {
		return tt.BZeros(a.len)
	}
	s := sort2(a, b)
	return tt.bAtom("bxor", "", 0, a.len, s...)
}

// ---- hashes ----

var digestSize = map[string]int{
	"md4": 16, "md5": 16, "sha1": 20, "ripemd160": 20, "sha224": 28, "sha256": 32, "sha384": 48, "sha512": 64, "sm3": 32,
	"keccak256": 32, "keccak512": 64, "sha3-224": 28, "sha3-256": 32, "sha3-384": 48, "sha3-512": 64, "blake256": 32, "blake224": 28,
	"blake512": 64, "blake384": 48, "blake2b-256": 32, "blake2b-512": 64, "blake2s-256": 32,
}

var blockSize = map[string]int{"md4": 64, "md5": 64, "sha1": 64, "ripemd160": 64, "sha224": 64, "sha256": 64, "sha384": 128, "sha512": 128, "sm3": 64,
	"keccak256": 136, "keccak512": 72, "sha3-224": 144, "sha3-256": 136, "sha3-384": 104, "sha3-512": 72, "blake256": 64, "blake512": 128}

func hashSize(alg string) int {
	if n, ok := digestSize[alg]; ok {
		return n
	}
	if i := strings.LastIndex(alg, "/"); i >= 0 {
		n := 0
		for _, ch := range alg[i+1:] {
			n = n*10 + int(ch-'0')
		}
		return n
	}
	return 0
}

func (in *Interp) newHash(alg string, key *T, c *callCtx) Val {
	o := in.newObj("hash", nil, c.pos)
	c.st.mem[o] = &HashV{alg, key, in.tt.BEmpty()}
	return &IfaceV{model: "hash", v: &PtrV{o: o}}
}

func (in *Interp) digest(h *HashV) *T {
	tt := in.tt
	if h.data.op == "choice" && len(h.data.args) <= 8 {
		var vs []*T
		for _, a := range h.data.args {
			vs = append(vs, in.digest(&HashV{h.alg, h.key, a}))
		}
		return tt.Choice(h.data.cs, vs)
	}
	if h.key != nil {
		return tt.BHash("hmac-"+h.alg, hashSize(h.alg), h.key, h.data)
	}
	return tt.BHash(h.alg, hashSize(h.alg), h.data)
}

func (in *Interp) hashState(v Val, c *callCtx) *HashV {
	p, ok := v.(*PtrV)
	if !ok || p.o == nil {
		return nil
	}
	h, _ := in.objVal(c.st, p.o).(*HashV)
	return h
}

func (in *Interp) modelHash() {
	tt := in.tt
	mk := func(name, alg string) {
		in.def(name, func(in *Interp, c *callCtx) (Val, bool) { return in.newHash(alg, nil, c), true })
	}
	mk("golang.org/x/crypto/md4.New", "md4")
	mk("crypto/md5.New", "md5")
	mk("crypto/sha1.New", "sha1")
	mk("crypto/sha256.New", "sha256")
	mk("crypto/sha256.New224", "sha224")
	mk("crypto/sha512.New", "sha512")
	mk("crypto/sha512.New384", "sha384")
	mk("golang.org/x/crypto/ripemd160.New", "ripemd160")
	mk("sm3.New", "sm3")
	mk("sha3.NewKeccak256", "keccak256")
	mk("sha3.NewKeccak512", "keccak512")
	mk("sha3.New224", "sha3-224")
	mk("sha3.New256", "sha3-256")
	mk("sha3.New384", "sha3-384")
	mk("sha3.New512", "sha3-512")
	mk("blake256.New", "blake256")
	mk("blake256.New224", "blake224")
	mk("blake512.New", "blake512")
	mk("blake512.New384", "blake384")
	mk("blake2s.New256", "blake2s/32")
	in.def("golang.org/x/crypto/blake2b.New", func(in *Interp, c *callCtx) (Val, bool) {
		n := in.intOf(c.args[0], c.st)
		k := in.bytesOf(c.args[1], c.st)
		if !n.IsConst() || !k.len.IsConst() || k.len.c.Sign() != 0 {
			in.note("blake2b.New with unknown parameters")
			return nil, false
		}
		if n.c.Int64() < 1 || n.c.Int64() > 64 {
			return &TupleV{[]Val{&IfaceV{}, in.errVal(c, "blake2b size")}}, true
		}
		return &TupleV{[]Val{in.newHash("blake2b/"+n.c.String(), nil, c), &IfaceV{}}}, true
	})
	in.def("golang.org/x/crypto/blake2b.Sum512", func(in *Interp, c *callCtx) (Val, bool) {
		return tt.BHash("blake2b/64", 64, in.bytesOf(c.args[0], c.st)), true
	})
	in.def("blake2s.NewMAC", func(in *Interp, c *callCtx) (Val, bool) {
		n := in.intOf(c.args[0], c.st)
		k := in.bytesOf(c.args[1], c.st)
		if !n.IsConst() || !k.len.IsConst() {
			in.note("blake2s.NewMAC with unknown parameters")
			return nil, false
		}
		in.oblige("blake2s.NewMAC invalid size", c.pos, tt.BAnd(tt.Le(n, tt.Int(32)), tt.Le(tt.Int(1), n)), c.st)
		if c.st.pc == tt.False {
			return nil, true
		}
		if k.len.c.Sign() == 0 {
			return in.newHash("blake2s/"+n.c.String(), nil, c), true
		}
		return in.newHash("blake2s/"+n.c.String(), k, c), true
	})
	sum := func(name, alg string) {
		in.def(name, func(in *Interp, c *callCtx) (Val, bool) {
			return in.digest(&HashV{alg, nil, in.bytesOf(c.args[0], c.st)}), true
		})
	}
	sum("crypto/sha256.Sum256", "sha256")
	sum("crypto/sha512.Sum512", "sha512")
	sum("crypto/sha1.Sum", "sha1")
	sum("crypto/md5.Sum", "md5")
	in.def("sm3.Sm3Sum", func(in *Interp, c *callCtx) (Val, bool) {
		return in.newBytes(in.digest(&HashV{"sm3", nil, in.bytesOf(c.args[0], c.st)}), c.st, "sm3sum"), true
	})
	in.def("model:hash.Write", func(in *Interp, c *callCtx) (Val, bool) {
		h := in.hashState(c.args[0], c)
		b := in.bytesOf(c.args[1], c.st)
		if h == nil {
			in.note("hash state unknown")
			return &TupleV{[]Val{b.len, &IfaceV{}}}, true
		}
		d := in.map2(h.data, b, c.st.pc, func(x, y *T, _ *B) *T { return tt.BCat(x, y) })
		c.st.mem[c.args[0].(*PtrV).o] = &HashV{h.alg, h.key, d}
		return &TupleV{[]Val{b.len, &IfaceV{}}}, true
	})
	in.def("model:hash.Sum", func(in *Interp, c *callCtx) (Val, bool) {
		h := in.hashState(c.args[0], c)
		b := in.bytesOf(c.args[1], c.st)
		if h == nil {
			in.note("hash state unknown")
			return in.newBytes(tt.BIn("unk:digest"+itoa(tt.next()), tt.Fresh("unk:len", big0, bi(1<<20))), c.st, "digest"), true
		}
		if len(segs(b)) == 0 {
			if s, ok := c.args[1].(*SliceV); !ok || s.o == nil {
				return in.newBytes(in.digest(h), c.st, "digest"), true
			}
		}
		bt := types.NewSlice(types.Typ[types.Uint8])
		return in.appendB(c.args[1], in.newBytes(in.digest(h), c.st, "digest"), bt, bt, c.st), true
	})
	in.def("model:hash.Reset", func(in *Interp, c *callCtx) (Val, bool) {
		h := in.hashState(c.args[0], c)
		p, ok := c.args[0].(*PtrV)
		if h == nil || !ok {
			if ok {
				// recover the algorithm from the object when alternatives agree
				if cv, k := in.objVal(c.st, p.o).(*ChoiceV); k {
					if h0, k := cv.vs[0].(*HashV); k {
						c.st.mem[p.o] = &HashV{h0.alg, h0.key, tt.BEmpty()}
						return &TupleV{}, true
					}
				}
			}
			in.note("hash state unknown")
			return &TupleV{}, true
		}
		c.st.mem[p.o] = &HashV{h.alg, h.key, tt.BEmpty()}
		return &TupleV{}, true
	})
	in.def("model:hash.Size", func(in *Interp, c *callCtx) (Val, bool) {
		if h := in.hashState(c.args[0], c); h != nil {
			return tt.Int(int64(hashSize(h.alg))), true
		}
		return nil, false
	})
	in.def("model:hash.BlockSize", func(in *Interp, c *callCtx) (Val, bool) {
		if h := in.hashState(c.args[0], c); h != nil && blockSize[h.alg] > 0 {
			return tt.Int(int64(blockSize[h.alg])), true
		}
		return nil, false
	})
	in.def("crypto.RegisterHash", func(in *Interp, c *callCtx) (Val, bool) { return &TupleV{}, true })
	in.def("crypto/hmac.New", func(in *Interp, c *callCtx) (Val, bool) {
		f, ok := c.args[0].(*FuncV)
		if !ok || f.fn == nil {
			return nil, false
		}
		r, s := in.callFunc(f.fn, nil, f.bind, c.st, c.call)
		if s == nil {
			return nil, false
		}
		i, ok := r.(*IfaceV)
		if !ok || i.model != "hash" {
			return nil, false
		}
		h, ok := in.objVal(s, i.v.(*PtrV).o).(*HashV)
		if !ok {
			return nil, false
		}
		c.rep = s
		c2 := &callCtx{st: s, pos: c.pos}
		return in.newHash(h.alg, in.bytesOf(c.args[1], s), c2), true
	})
}

// ---- package initialisation ----

// RunInit evaluates the package initialisers of the repository (and of the
// repository packages they import) into the base memory.
func (in *Interp) RunInit(only ...string) {
	st := &State{in.tt.True, map[*Obj]Val{}}
	done := map[*ssa.Package]bool{}
	var run func(p *ssa.Package)
	run = func(p *ssa.Package) {
		if done[p] {
			return
		}
		done[p] = true
		if !in.repoPkg(p) {
			return
		}
		for _, i := range p.Pkg.Imports() {
			if q := in.p.SSA.Package(i); q != nil {
				run(q)
			}
		}
		if len(only) > 0 {
			ok := false
			for _, o := range only {
				if shortS(p.Pkg.Path()) == o || p.Pkg.Name() == o {
					ok = true
				}
			}
			if !ok {
				return
			}
		}
		f := p.Func("init")
		if f == nil || len(f.Blocks) == 0 {
			return
		}
		in.initing = true
		_, s := in.CallFn(f, nil, nil, st)
		in.initing = false
		if s != nil {
			st = s
		}
	}
	for _, p := range in.p.RepoSP {
		run(p)
	}
	for o, v := range st.mem {
		in.base[o] = v
	}
	in.inited = true
}

func (in *Interp) repoPkg(p *ssa.Package) bool {
	return p != nil && p.Pkg != nil && (p.Pkg.Path() == modPath || strings.HasPrefix(p.Pkg.Path(), modPath+"/"))
}
