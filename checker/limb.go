package main

import (
	"math/big"
)

// Field elements kept in limbs.  At the level of formulas an element is a
// term modulo the field's prime; a limb array holds the atoms limb_i(e).
// That the limb arithmetic implements the field is a separate property.

type limbField struct {
	name string
	p    *big.Int
	off  []uint   // bit offset of each limb
	r    *big.Int // element = value * r^-1 (Montgomery form), or nil
	lo   *big.Int
	hi   *big.Int
}

var fe25519 = &limbField{name: "25519", p: nil, off: []uint{0, 26, 51, 77, 102, 128, 153, 179, 204, 230}, lo: bi(-1 << 31), hi: bi(1<<31 - 1)}

func words64(n int) []uint {
	var l []uint
	for i := 0; i < n; i++ {
		l = append(l, uint(64*i))
	}
	return l
}

// feVal: the limbs of e.
func (in *Interp) feVal(f *limbField, e *T) Val {
	tt := in.tt
	a := &AggV{}
	e = tt.Mod(e, f.p)
	for i := range f.off {
		a.el = append(a.el, in.feLimb(f, e, i))
	}
	return a
}

func (in *Interp) feLimb(f *limbField, e *T, i int) *T {
	tt := in.tt
	if e.op == "choice" {
		var vs []*T
		for _, x := range e.args {
			vs = append(vs, in.feLimb(f, x, i))
		}
		return tt.Choice(e.cs, vs)
	}
	if e.IsConst() {
		v := new(big.Int).Set(e.c)
		if f.r != nil {
			v.Mul(v, f.r)
			v.Mod(v, f.p)
		}
		v.Rsh(v, f.off[i])
		if i+1 < len(f.off) {
			v.And(v, pow2m(int(f.off[i+1]-f.off[i])))
		}
		return tt.Const(v)
	}
	return tt.Atom("limb", f.name, i, f.lo, f.hi, e)
}

// feOf: the element a limb array represents.
func (in *Interp) feOf(f *limbField, v Val, st *State) *T {
	tt := in.tt
	if p, ok := v.(*PtrV); ok {
		v = in.loadPath(st, p.o, p.path)
	}
	v = in.resV(v, st.pc)
	if ch, ok := v.(*ChoiceV); ok {
		var vs []*T
		for i, a := range ch.vs {
			vs = append(vs, in.feOf(f, a, &State{tt.BAnd(st.pc, ch.cs[i]), st.mem}))
		}
		return tt.Choice(ch.cs, vs)
	}
	a, ok := v.(*AggV)
	if !ok || len(a.el) != len(f.off) {
		in.note("limb array of unexpected form")
		return tt.Fresh("fe", big0, new(big.Int).Sub(f.p, big1))
	}
	var ls []*T
	for _, e := range a.el {
		ls = append(ls, in.res(in.intOf(e, st), st.pc))
	}
	return in.feLimbs(f, ls, st.pc)
}

func (in *Interp) feLimbs(f *limbField, ls []*T, pc *B) *T {
	tt := in.tt
	con := true
	for i, l := range ls {
		if l.op == "choice" {
			var vs []*T
			var cs []*B
			for j, c := range l.cs {
				p := tt.BAnd(pc, c)
				if !in.feasible(p) {
					continue
				}
				sub := append([]*T{}, ls...)
				for k := i; k < len(ls); k++ {
					if k == i {
						sub[k] = l.args[j]
					} else {
						sub[k] = in.res(ls[k], p)
					}
				}
				cs = append(cs, c)
				vs = append(vs, in.feLimbs(f, sub, p))
			}
			return tt.Choice(cs, vs)
		}
		con = con && l.IsConst()
	}
	if con {
		v := new(big.Int)
		for i, l := range ls {
			v.Add(v, new(big.Int).Lsh(l.c, f.off[i]))
		}
		if f.r != nil {
			v.Mul(v, modInv(f.r, f.p))
		}
		return tt.Const(v.Mod(v, f.p))
	}
	e0 := ls[0]
	if e0.op == "limb" && e0.s == f.name {
		e := e0.args[0]
		same := true
		for i, l := range ls {
			same = same && l == in.feLimb(f, e, i)
		}
		if same {
			return e
		}
	}
	return tt.Atom("limbs", f.name, 0, big0, new(big.Int).Sub(f.p, big1), ls...)
}

// montOf: the field whose elements the arrays hold, if it is kept in reduced form.
func montOf(as ...*AggV) *limbField {
	for _, a := range as {
		if len(a.el) == 0 {
			continue
		}
		t, _ := a.el[0].(*T)
		for t != nil && t.op == "choice" {
			t = t.args[len(t.args)-1]
		}
		for _, f := range []*limbField{fePasta, scPasta} {
			if t != nil && t.op == "limb" && t.s == f.name && len(a.el) == len(f.off) {
				return f
			}
		}
	}
	return nil
}
