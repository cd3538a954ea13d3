package main

import (
	"fmt"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Limb arithmetic.  Machine words are polynomials over the input limbs and
// over shr(x,k) = floor(x/2^k); a carry is such an atom, so what leaves one
// limb and enters the next cancels in the value the limbs stand for.  Ranges
// show that no word wraps; where one may, a wrap atom remains and the value
// does not come out.

func init() { checks["C21"] = checkC21 }

func checkC21(p *Prog, r *Report) {
	r.Explain = "Every limb and carry of the field and scalar routines is evaluated as a polynomial over the input limbs and over floor(x/2^k) terms, with ranges. Shown are: no machine word overflows for inputs within the stated bounds; the value of the output limbs is congruent to the exact result (carries cancel identically); output limbs are within the bounds the next operation needs; encodings and reduced scalars are the canonical representative. A value that cannot be shown equal is reported only with limbs for which the extracted terms differ."
	jobs := []func(sub *Report){
		func(sub *Report) { newHOn(p, sub, "eddsa", edPk).feArith() },
		func(sub *Report) { newHOn(p, sub, "eddsa", edPk).feCoding() },
		func(sub *Report) { newHOn(p, sub, "eddsa", edPk).feMove() },
		func(sub *Report) { newHOn(p, sub, "eddsa", edPk).feNonZero() },
		func(sub *Report) { newHOn(p, sub, "eddsa", edPk).scReduce() },
		func(sub *Report) { newHOn(p, sub, "eddsa", edPk).scMulAdd() },
	}
	r.parallel(len(jobs), func(i int, sub *Report) { jobs[i](sub) })
}

// feBound: bounds of a limb vector, 2^26 and 2^25 times num/100.
func feBound(num int64) []*big.Int {
	var l []*big.Int
	for i := 0; i < 10; i++ {
		b := new(big.Int).Mul(bi(num), pow2(26-(i&1)))
		l = append(l, b.Div(b, bi(100)))
	}
	return l
}

func negs(l []*big.Int) []*big.Int {
	var r []*big.Int
	for _, x := range l {
		r = append(r, new(big.Int).Neg(x))
	}
	return r
}

func (h *H) limbsIn(name string, f *limbField, lo, hi []*big.Int) (*AggV, *T) {
	tt := h.tt
	a, s := &AggV{}, tt.Int(0)
	for i, o := range f.off {
		v := tt.Atom("var", name+itoa(i), 0, lo[i], hi[i])
		a.el = append(a.el, v)
		s = tt.Add(s, tt.Scale(v, pow2(int(o))))
	}
	return a, s
}

func (h *H) limbsOut(f *limbField, v Val, st *State) ([]*T, *T) {
	tt, in := h.tt, h.in
	a, ok := in.deref(v, st).(*AggV)
	if !ok || len(a.el) != len(f.off) {
		return nil, nil
	}
	s := tt.Int(0)
	var l []*T
	for i, o := range f.off {
		t, ok := a.el[i].(*T)
		if !ok {
			return nil, nil
		}
		t = in.res(t, st.pc)
		l = append(l, t)
		s = tt.Add(s, tt.Scale(t, pow2(int(o))))
	}
	return l, s
}

// sample looks for values of the atoms vars under which bad holds of the
// values of ts.
func (h *H) sample(vars []*T, ts []*T, bad func(v []*big.Int) bool) string {
	for seed := -len(h.special); seed < 400; seed++ {
		e := h.in.newEval(2*(seed+len(h.special)), h.tt.True)
		for i, v := range vars {
			if seed < 0 {
				x := h.special[-seed-1][v]
				if x == nil {
					x = big0
				}
				e.ints[v] = x
				continue
			}
			lo, hi := v.lo, v.hi
			if lo == nil || hi == nil {
				return ""
			}
			x := e.draw("limb", lo, hi, []byte(v.s), []byte(itoa(v.n)))
			c := e.rnd("kind", 1, []byte(v.s), []byte(itoa(v.n)))[0]
			switch {
			case seed == 0 || seed%4 == 1 && c < 100:
				x = hi
			case seed == 2 || seed%4 == 1 && c < 200:
				x = lo
			case seed%4 == 2 && c < 200, seed%4 == 1 && c < 240:
				x = bi(int64(c % 3))
				if x.Cmp(hi) > 0 || x.Cmp(lo) < 0 {
					x = lo
				}
			case seed == 3 && i&1 == 0, seed == 4 && i&1 == 1:
				x = hi
			case seed == 3 || seed == 4:
				x = lo
			}
			e.ints[v] = x
		}
		vals, ok := e.all(ts)
		if ok && bad(vals) {
			var l []string
			for _, v := range vars {
				l = append(l, v.String()+"="+e.ints[v].String())
			}
			return clip(strings.Join(l, " "), 900)
		}
	}
	return ""
}

// all: the values of ts, unless one cannot be had.
func (e *rEval) all(ts []*T) (vals []*big.Int, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(rFail); !is {
				panic(x)
			}
			ok = false
		}
	}()
	for _, t := range ts {
		vals = append(vals, e.int(t))
	}
	return vals, true
}

// limbEq: the two numbers are equal.
func (h *H) limbEq(key string, f *ssa.Function, got, want *T, vars []*T) {
	if got == nil || want == nil {
		h.r.Undecided(key, "no result")
		return
	}
	if got == want {
		h.r.OK(key, h.p.Pos(f.Pos()), "")
		return
	}
	if w := h.sample(vars, []*T{got, want}, func(x []*big.Int) bool { return x[0].Cmp(x[1]) != 0 }); w != "" {
		h.r.Bad(key, h.p.Pos(f.Pos()), "the result differs for "+w)
		return
	}
	h.r.Undecided(key, "not shown equal: "+clip(got.String(), 200))
}

// corner adds samples: x written in the limbs l of the given bit offsets,
// if it fits.  With sign, digits are the balanced ones.
func (h *H) corner(x *big.Int, l []*T, off []uint, sign bool) {
	m := map[*T]*big.Int{}
	for i, v := range l {
		d := new(big.Int).Set(x)
		if i+1 < len(l) {
			w := off[i+1] - off[i]
			d.Mod(d, pow2(int(w)))
			if sign && d.BitLen() == int(w) {
				d.Sub(d, pow2(int(w)))
			}
			x = new(big.Int).Rsh(new(big.Int).Sub(x, d), w)
		}
		if d.Cmp(v.lo) < 0 || d.Cmp(v.hi) > 0 {
			return
		}
		m[v] = d
	}
	h.special = append(h.special, m)
}

// corners: numbers near multiples of p.
func (h *H) corners(p *big.Int, l []*T, off []uint) {
	for _, k := range []int64{0, 1, 2, -1, 3, -2, 255, 65537} {
		for _, d := range []int64{-1, 0, 1, -19, 19, 18} {
			x := new(big.Int).Mul(p, bi(k))
			x.Add(x, bi(d))
			h.corner(x, l, off, false)
			h.corner(x, l, off, true)
		}
	}
	for n := p.BitLen() - 1; n <= p.BitLen()+1; n++ {
		for d := int64(-2); d <= 2; d++ {
			h.corner(new(big.Int).Add(pow2(n), bi(d)), l, off, false)
			h.corner(new(big.Int).Sub(bi(d), pow2(n)), l, off, true)
		}
	}
}

func byteOffs(n int) []uint {
	var l []uint
	for i := 0; i < n; i++ {
		l = append(l, uint(8*i))
	}
	return l
}

// congruent: got and want are congruent modulo p.
func (h *H) congruent(key string, f *ssa.Function, got, want *T, p *big.Int, vars []*T) bool {
	tt := h.tt
	if got == nil {
		h.r.Undecided(key, "the result is not a limb vector")
		return false
	}
	d := tt.modNorm(h.opened(tt.modNorm(tt.Sub(got, want), p), p), p)
	pos := h.p.Pos(f.Pos())
	if d.IsConst() && d.c.Sign() == 0 {
		h.r.OK(key, pos, "")
		return true
	}
	if w := h.sample(vars, []*T{tt.Sub(got, want)}, func(v []*big.Int) bool {
		return new(big.Int).Mod(v[0], p).Sign() != 0
	}); w != "" {
		h.r.Bad(key, pos, "the result is not congruent to the exact one for "+w)
		return false
	}

	h.r.Undecided(key, "congruence not shown: difference "+clip(d.String(), 300))
	return false
}

// opened: the polynomial without fields, modulo p.
func (h *H) opened(t *T, p *big.Int) *T {
	tt := h.tt
	for i := 0; i < 100; i++ {
		old := t
		tt.open = true
		t = tt.modNorm(tt.Subst(t, func(a *T) *T {
			if a.op == "field" {
				// floors are written as the code's are
				tt.open = false
				c := tt.Shr(a.args[0], a.n)
				tt.open = true
				return tt.Sub(a.args[0], tt.Scale(c, pow2(a.n)))
			}
			return nil
		}), p)
		tt.open = false
		if t == old {
			break
		}
	}
	return t
}

// limbRange: t lies in [lo,hi].
func (h *H) limbRange(key string, f *ssa.Function, t *T, lo, hi *big.Int, vars []*T) bool {
	pos := h.p.Pos(f.Pos())
	if within(t, lo, hi) {
		h.r.OK(key, pos, "")
		return true
	}
	if w := h.sample(vars, []*T{t}, func(v []*big.Int) bool {
		return v[0].Cmp(lo) < 0 || v[0].Cmp(hi) > 0
	}); w != "" {
		h.r.Bad(key, pos, fmt.Sprintf("the limb leaves [%v, %v] for %s", lo, hi, w))
		return false
	}
	h.r.Undecided(key, "range not shown")
	return false
}

func aggVars(vs ...Val) []*T {
	var l []*T
	for _, v := range vs {
		if a, ok := v.(*AggV); ok {
			for _, x := range a.el {
				l = append(l, x.(*T))
			}
		}
	}
	return l
}

func (h *H) feArith() {
	tt := h.tt
	tt.limb = true
	p := p25519
	for _, x := range []struct {
		name    string
		in, out int64
		args    int
		result  func(a, b *T) *T
	}{
		{"FeAdd", 110, 220, 2, func(a, b *T) *T { return tt.Add(a, b) }},
		{"FeSub", 110, 220, 2, func(a, b *T) *T { return tt.Sub(a, b) }},
		{"FeNeg", 110, 110, 1, func(a, b *T) *T { return tt.Neg(a) }},
		{"FeCopy", 110, 110, 1, func(a, b *T) *T { return a }},
		{"FeMul", 165, 55, 2, func(a, b *T) *T { return tt.Mul(a, b) }},
		{"FeSquare", 165, 55, 1, func(a, b *T) *T { return tt.Mul(a, a) }},
		{"FeSquare2", 165, 55, 1, func(a, b *T) *T { return tt.Scale(tt.Mul(a, a), bi(2)) }},
		{"FeZero", 110, 55, 0, func(a, b *T) *T { return tt.Int(0) }},
		{"FeOne", 110, 55, 0, func(a, b *T) *T { return tt.Int(1) }},
	} {
		f := h.pkgFn(edPk, x.name)
		if f == nil {
			continue
		}
		b := feBound(x.in)
		// which arguments share storage: 0 destination, 1.. operands
		for _, sh := range [][]int{{0, 1, 2}, {0, 0, 2}, {0, 1, 0}, {0, 1, 1}, {0, 0, 0}} {
			if x.args < 2 && sh[2] != 2 || x.args < 1 && sh[1] != 1 {
				continue
			}
			key := x.name
			if sh[1] != 1 || sh[2] != 2 {
				key += fmt.Sprint("/shared ", sh[:x.args+1])
			}
			agg := make([]*AggV, 3)
			val := make([]*T, 3)
			ptr := make([]Val, 3)
			rn := h.run(key, f, func(st *State) []Val {
				for i := 0; i <= x.args; i++ {
					if sh[i] < i {
						agg[i], val[i], ptr[i] = agg[sh[i]], val[sh[i]], ptr[sh[i]]
						continue
					}
					agg[i], val[i] = h.limbsIn(string(rune('o'+i)), fe25519, negs(b), b)
					ptr[i] = h.place("arg"+itoa(i), agg[i], st)
				}
				return append([]Val{}, ptr[:x.args+1]...)
			})
			if rn == nil {
				continue
			}
			vars := aggVars(agg[0])
			for i := 1; i <= x.args; i++ {
				if sh[i] == i {
					vars = append(vars, aggVars(agg[i])...)
				}
			}
			l, s := h.limbsOut(fe25519, ptr[0], rn.st)
			if !h.congruent(key+"/value", f, s, x.result(val[1], val[2]), p, vars) {
				continue
			}
			for i := range l {
				bo := feBound(x.out)[i]
				h.limbRange(fmt.Sprintf("%s/limb %d", key, i), f, l[i], new(big.Int).Neg(bo), bo, vars)
			}
			for i := 1; i <= x.args; i++ {
				if sh[i] == i {
					_, s := h.limbsOut(fe25519, ptr[i], rn.st)
					h.r.Check(s == val[i], key+"/operand "+itoa(i)+" kept", h.p.Pos(f.Pos()), "the operand is modified")
				}
			}
		}
	}

}

func (h *H) feMove() {
	tt := h.tt
	if f := h.pkgFn(edPk, "FeCMove"); f != nil {
		b := feBound(110)
		for _, bit := range []int64{0, 1} {
			key := fmt.Sprint("FeCMove/", bit)
			var x, y *AggV
			var vx, vy *T
			var px, py Val
			rn := h.run(key, f, func(st *State) []Val {
				x, vx = h.limbsIn("x", fe25519, negs(b), b)
				y, vy = h.limbsIn("y", fe25519, negs(b), b)
				px, py = h.place("x", x, st), h.place("y", y, st)
				return []Val{px, py, tt.Int(bit)}
			})
			if rn == nil {
				continue
			}
			_, s := h.limbsOut(fe25519, px, rn.st)
			want := vx
			if bit == 1 {
				want = vy
			}
			h.congruent(key, f, s, want, pow2(400), append(aggVars(x), aggVars(y)...))
		}
	}
}

// feNonZero: FeIsNonZero on encodings with one byte that may be other than 0.
func (h *H) feNonZero() {
	in, tt := h.in, h.tt
	f := h.pkgFn(edPk, "FeIsNonZero")
	if f == nil {
		return
	}
	var enc *T
	in.def(edPk+".FeToBytes", func(in *Interp, c *callCtx) (Val, bool) {
		in.store(c.args[0], enc, c.st, c.pos)
		return &TupleV{}, true
	})
	for i := 0; i < 32; i++ {
		b := h.fix("e"+itoa(i), 1)
		enc = tt.BCat(tt.BCat(tt.BZeros(tt.Int(int64(i))), b), tt.BZeros(tt.Int(int64(31-i))))
		key := fmt.Sprint("FeIsNonZero/byte ", i)
		rn := h.run(key, f, func(st *State) []Val {
			lo := feBound(110)
			x, _ := h.limbsIn("x", fe25519, negs(lo), lo)
			return []Val{h.place("x", x, st)}
		})
		if rn == nil {
			continue
		}
		got, v := rn.Int(0, tt.True), h.in.bAt(b, tt.Int(0), tt.True)
		bad, open := "", false
		for k := int64(0); k < 256 && bad == ""; k++ {
			e := in.newEval(0, tt.True)
			e.ints[v] = bi(k)
			r, ok := e.all([]*T{got})
			switch {
			case !ok:
				open = true
			case (r[0].Sign() != 0) != (k != 0) || r[0].BitLen() > 1:
				bad = fmt.Sprintf("byte %d of the encoding is %d and the others are 0: the result is %v", i, k, r[0])
			}
		}
		switch {
		case bad != "":
			h.r.Bad(key, h.p.Pos(f.Pos()), bad)
		case open:
			h.r.Undecided(key, "the result is not a function of the encoding")
		default:
			h.r.OK(key, h.p.Pos(f.Pos()), "")
		}
	}
}

// leSum: the little-endian number of the bytes of b.
func (h *H) leSum(b *T, n int) *T {
	tt := h.tt
	s := tt.Int(0)
	for i := 0; i < n; i++ {
		s = tt.Add(s, tt.Scale(h.in.bAt(b, tt.Int(int64(i)), tt.True), pow2(8*i)))
	}
	return s
}

func (h *H) byteVars(b *T, n int) []*T {
	var l []*T
	for i := 0; i < n; i++ {
		l = append(l, h.in.bAt(b, h.tt.Int(int64(i)), h.tt.True))
	}
	return l
}

// leOut: the number in the n bytes at v.
func (h *H) leOut(v Val, st *State, n int) *T {
	in := h.in
	b := in.bytesOf(v, st)
	if b == nil {
		return nil
	}
	return h.leSum(b, n)
}

func (h *H) feCoding() {
	in, tt := h.in, h.tt
	tt.limb = true
	p := p25519
	if f := h.pkgFn(edPk, "FeFromBytes"); f != nil {
		s := h.fix("s", 32)
		b := feBound(110)
		var out Val
		var junk *AggV
		rn := h.run("FeFromBytes", f, func(st *State) []Val {
			junk, _ = h.limbsIn("junk", fe25519, negs(b), b)
			out = h.place("out", junk, st)
			return []Val{out, h.place("s", s, st)}
		})
		if rn != nil {
			l, v := h.limbsOut(fe25519, out, rn.st)
			vars := h.byteVars(s, 32)
			top := vars[31]
			want := tt.Sub(h.leSum(s, 32), tt.Scale(tt.Shr(top, 7), pow2(255)))
			if h.congruent("FeFromBytes/value", f, v, want, p, vars) {
				for i := range l {
					bo := feBound(55)[i]
					h.limbRange(fmt.Sprint("FeFromBytes/limb ", i), f, l[i], new(big.Int).Neg(bo), bo, vars)
				}
			}
		}
	}
	if f := h.pkgFn(edPk, "FeToBytes"); f != nil {
		b := feBound(110)
		var x *AggV
		var v *T
		var out, px Val
		rn := h.run("FeToBytes", f, func(st *State) []Val {
			x, v = h.limbsIn("x", fe25519, negs(b), b)
			px = h.place("x", x, st)
			out = h.place("out", h.fix("junk", 32), st)
			return []Val{out, px}
		})
		if rn != nil {
			s := h.leOut(out, rn.st, 32)
			vars := aggVars(x)
			h.special = nil
			h.corners(p, vars, fe25519.off)
			q := h.canonical("FeToBytes/canonical", f, s, v, p, vars)
			if q != nil {
				_, w := h.limbsOut(fe25519, px, rn.st)
				if g := h.pkgFn(edPk, "FeIsNegative"); g != nil {
					neg := h.run("FeIsNegative", g, func(st *State) []Val { return []Val{h.place("x", x, st)} })
					if neg != nil {
						h.limbEq("FeIsNegative/value", g, neg.Int(0, tt.True), tt.LowBits(in.bAt(in.bytesOf(out, rn.st), tt.Int(0), tt.True), 1), vars)
					}
				}
				h.congruent("FeToBytes/operand keeps its value", f, tt.Subst(h.opened(w, p), q), v, p, vars)
			}
		}
	}

}

// uncut: the number the bytes of s were cut from, s itself if there is none.
func (h *H) uncut(s *T) *T {
	tt := h.tt
	var top mono
	for _, x := range s.monos() {
		if len(x.vs) == 1 && (top.co == nil || x.co.Cmp(top.co) > 0) {
			top = x
		}
	}
	if top.co == nil {
		return s
	}
	j := top.co.BitLen() - 1
	a, m := top.vs[0], 0
	if a.op == "field" {
		a, m = a.args[0], a.n
	}
	var v *T
	for _, x := range a.monos() {
		if len(x.vs) == 1 && x.vs[0].op == "shr" && x.vs[0].n == j && x.co.Cmp(big1) == 0 && (v == nil || v.id < x.vs[0].id) {
			v = x.vs[0]
		}
	}
	if v == nil {
		return s
	}
	u := tt.Add(tt.Scale(tt.Sub(a, v), pow2(j)), v.args[0])
	if m > 0 {
		c := tt.Shr(u, j+m)
		tt.open = true
		u = tt.Sub(u, tt.Scale(c, pow2(j+m)))
		tt.open = false
	}
	if d := h.opened(tt.Sub(s, u), pow2(1000)); d.IsConst() && d.c.Sign() == 0 {
		return u
	}
	return s
}

// canonical: s is v mod p, for s = u - 2^n*shr(u,n) with u = v + (2^n-p)*q
// and q = shr(a,m): for each value of q the bounds on a, by Lagrange
// multipliers over the box of the limbs, put v - p*q into [0,p-1], so that
// shr(u,n) is q.  The result substitutes q for shr(u,n).
func (h *H) canonical(key string, f *ssa.Function, s, v *T, p *big.Int, vars []*T) func(*T) *T {
	tt := h.tt
	pos := h.p.Pos(f.Pos())
	if s == nil {
		h.r.Undecided(key, "the output is not a byte array")
		return nil
	}
	if sub := h.canonicalBy(h.uncut(s), v, p); sub != nil {
		h.r.OK(key, pos, "")
		return sub
	}
	if w := h.sample(vars, []*T{s, v}, func(x []*big.Int) bool {
		return new(big.Int).Mod(x[1], p).Cmp(x[0]) != 0
	}); w != "" {
		h.r.Bad(key, pos, "the output is not the reduced value for "+w)
		return nil
	}
	h.r.Undecided(key, "not shown canonical: difference "+clip(tt.Sub(s, v).String(), 400))
	return nil
}

func (h *H) canonicalBy(s, v *T, p *big.Int) func(*T) *T {
	tt := h.tt
	n := p.BitLen()
	e := new(big.Int).Sub(pow2(n), p)

	for _, x := range s.monos() {
		if len(x.vs) != 1 || x.vs[0].op != "shr" || new(big.Int).Neg(x.co).Cmp(pow2(n)) != 0 {
			continue
		}
		c := x.vs[0]
		u := tt.Add(s, tt.Scale(c, pow2(n)))
		if tt.Shr(u, n) != c {
			continue
		}
		d := tt.Sub(u, v).monos()
		if len(d) != 1 || len(d[0].vs) != 1 || d[0].co.Cmp(e) != 0 || d[0].vs[0].op != "shr" {
			continue
		}
		q := d[0].vs[0]
		if q.lo == nil || q.hi == nil || new(big.Int).Sub(q.hi, q.lo).Cmp(bi(64)) > 0 {
			continue
		}
		a, m := q.args[0], q.n
		good := true
		for k := new(big.Int).Set(q.lo); k.Cmp(q.hi) <= 0 && good; k = new(big.Int).Add(k, big1) {
			obj := tt.Sub(v, tt.Const(new(big.Int).Mul(p, k)))
			low := tt.Sub(a, tt.Const(new(big.Int).Mul(pow2(m), k)))
			high := tt.Sub(tt.Const(pow2m(m)), low)
			lo := h.lagrange(obj, low)
			hi := h.lagrange(tt.Neg(obj), high)
			good = lo != nil && hi != nil && lo.Cmp(new(big.Rat).SetInt64(-1)) > 0 && hi.Cmp(new(big.Rat).SetInt(new(big.Int).Neg(p))) > 0
			h.r.Count("quotient_cases", 1)
		}
		if good {
			return func(t *T) *T {
				if t == c {
					return q
				}
				return nil
			}
		}
	}
	return nil
}

// lagrange: a lower bound of the linear obj over the box of its atoms where
// the linear g is not negative.
func (h *H) lagrange(obj, g *T) *big.Rat {
	coef := func(t *T) (map[*T]*big.Rat, *big.Rat) {
		m, c := map[*T]*big.Rat{}, new(big.Rat)
		for _, x := range t.monos() {
			switch len(x.vs) {
			case 0:
				c.SetInt(x.co)
			case 1:
				m[x.vs[0]] = new(big.Rat).SetInt(x.co)
			default:
				return nil, nil
			}
		}
		return m, c
	}
	o, oc := coef(obj)
	c, cc := coef(g)
	if o == nil || c == nil {
		return nil
	}
	ls := []*big.Rat{new(big.Rat)}
	for v, x := range o {
		if y := c[v]; y != nil {
			if l := new(big.Rat).Quo(x, y); l.Sign() > 0 {
				ls = append(ls, l)
			}
		}
	}
	var best *big.Rat
	for _, l := range ls {
		b := new(big.Rat).Sub(oc, new(big.Rat).Mul(l, cc))
		all := map[*T]*big.Rat{}
		for v, x := range o {
			all[v] = new(big.Rat).Set(x)
		}
		for v, x := range c {
			if all[v] == nil {
				all[v] = new(big.Rat)
			}
			all[v].Sub(all[v], new(big.Rat).Mul(l, x))
		}
		ok := true
		for v, x := range all {
			e := v.lo
			if x.Sign() < 0 {
				e = v.hi
			}
			if x.Sign() != 0 && e == nil {
				ok = false
				break
			}
			if x.Sign() != 0 {
				b.Add(b, new(big.Rat).Mul(x, new(big.Rat).SetInt(e)))
			}
		}
		if ok && (best == nil || b.Cmp(best) > 0) {
			best = b
		}
	}
	return best
}

// reducedBy: s is congruent to v modulo p and lies in [0,p-1].
func (h *H) reducedBy(key string, f *ssa.Function, s, v *T, p *big.Int, vars []*T) {
	if h.congruent(key+"/value", f, s, v, p, vars) {
		h.limbRange(key+"/reduced", f, h.uncut(s), big0, new(big.Int).Sub(p, big1), vars)
	}
}

func (h *H) scReduce() {
	in, tt := h.in, h.tt
	tt.limb = true
	tt.maxPoly = 1 << 20
	s := h.fix("s", 64)
	h.corners(ordL, h.byteVars(s, 64), byteOffs(64))
	if f := h.pkgFn(edPk, "ScReduce"); f != nil {
		var out Val
		rn := h.run("ScReduce", f, func(st *State) []Val {
			out = h.place("out", h.fix("junk", 32), st)
			return []Val{out, h.place("s", s, st)}
		})
		if rn != nil {
			h.reducedBy("ScReduce", f, h.leOut(out, rn.st, 32), h.leSum(s, 64), ordL, h.byteVars(s, 64))
		}
	}
	if f := h.pkgFn("eddsa", "x25519_sc_reduce"); f != nil {
		rn := h.run("x25519_sc_reduce", f, func(st *State) []Val { return []Val{in.sliceArg(s, st)} })
		if rn != nil {
			h.reducedBy("x25519_sc_reduce", f, h.leSum(rn.Bytes(0, h.tt.True), 32), h.leSum(s, 64), ordL, h.byteVars(s, 64))
		}
	}
}

func (h *H) scMulAdd() {
	tt := h.tt
	tt.limb = true
	tt.maxPoly = 1 << 20
	f := h.pkgFn(edPk, "ScMulAdd")
	if f == nil {
		return
	}
	a, b, c := h.fix("a", 32), h.fix("b", 32), h.fix("c", 32)
	h.corners(ordL, h.byteVars(c, 32), byteOffs(32))
	var out Val
	rn := h.run("ScMulAdd", f, func(st *State) []Val {
		out = h.place("out", h.fix("junk", 32), st)
		return []Val{out, h.place("a", a, st), h.place("b", b, st), h.place("c", c, st)}
	})
	if rn != nil {
		want := tt.Add(tt.Mul(h.leSum(a, 32), h.leSum(b, 32)), h.leSum(c, 32))
		vars := append(append(h.byteVars(a, 32), h.byteVars(b, 32)...), h.byteVars(c, 32)...)
		h.reducedBy("ScMulAdd", f, h.leOut(out, rn.st, 32), want, ordL, vars)
	}
}
