package main

import (
	"fmt"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Identities between polynomials modulo a prime and the equations of curves.
// Points are written through affine coordinates (and a scale factor), with one
// rule per point that removes the leading monomial of its curve equation.  The
// points range over an irreducible variety, so a polynomial vanishes on it
// exactly when its normal form is zero.

type polyRule struct {
	lead []*T // multiset of atoms
	repl *T
}

type polyID struct {
	h     *H
	p     *big.Int
	rules []polyRule
	nz    map[*T]bool // atoms that are not zero
	n     int
	invs  map[*T]*T // 1/v to v
	nzp   []*T      // polynomials that are not zero
}

func newPolyID(h *H, p *big.Int) *polyID {
	id := &polyID{h: h, p: p, nz: map[*T]bool{}, invs: map[*T]*T{}}
	h.tt.zeroHook = id.zero
	h.tt.maxPoly = 1 << 22
	return id
}

func (id *polyID) v(name string) *T {
	id.n++
	return id.h.tt.Atom("var", fmt.Sprint(name, "'", id.n), 0, big0, new(big.Int).Sub(id.p, big1))
}

func (id *polyID) nonzero(name string) *T {
	v := id.v(name)
	id.nz[v] = true
	return v
}

// red: the polynomial of a term, coefficients modulo the prime.
func (id *polyID) red(t *T) *T {
	tt := id.h.tt
	if t.op == "mod" && hx(t.s).Cmp(id.p) == 0 {
		return t.args[0]
	}
	deep := false
	for _, m := range t.monos() {
		for _, v := range m.vs {
			deep = deep || (v.op == "mod" || v.op == "inv") && hx(v.s).Cmp(id.p) == 0 || v.op == "choice"
		}
	}
	if deep {
		t = tt.Subst(t, func(a *T) *T {
			if a.op == "mod" && hx(a.s).Cmp(id.p) == 0 {
				return a.args[0]
			}
			if a.op == "inv" && hx(a.s).Cmp(id.p) == 0 {
				return id.inv(a.args[0])
			}
			if a.op == "choice" {
				// representatives of one residue
				v := id.nf(a.args[0])
				for _, x := range a.args[1:] {
					if id.nf(x) != v {
						return nil
					}
				}
				return v
			}
			return nil
		})
	}
	ms := []mono{}
	for _, x := range t.monos() {
		c := new(big.Int).Mod(x.co, id.p)
		if c.Sign() != 0 {
			ms = append(ms, mono{c, x.vs})
		}
	}
	return tt.fromList(ms)
}

func without(vs, lead []*T) ([]*T, bool) {
	var out []*T
	j := 0
	for _, v := range vs {
		if j < len(lead) && v == lead[j] {
			j++
			continue
		}
		out = append(out, v)
	}
	return out, j == len(lead)
}

// nf: the normal form.
func (id *polyID) nf(t *T) *T {
	tt := id.h.tt
	t = id.red(t)
	for again := true; again; {
		again = false
		for _, r := range id.rules {
			var keep, quo []mono
			for _, m := range t.monos() {
				if q, ok := without(m.vs, r.lead); ok {
					quo = append(quo, mono{m.co, q})
				} else {
					keep = append(keep, m)
				}
			}
			if quo != nil {
				again = true
				t = id.red(tt.Add(tt.fromList(keep), tt.Mul(tt.fromList(quo), r.repl)))
			}
		}
	}
	return t
}

// cleared: the normal form times the powers of non-zero atoms that remove the
// inverses; it vanishes exactly when the polynomial does.
func (id *polyID) cleared(t *T) *T {
	q := id.nf(t)
	for {
		var i *T
		k := 0
		for _, m := range q.monos() {
			n := 0
			for _, v := range m.vs {
				if id.invs[v] != nil && (i == nil || v == i) {
					i = v
					n++
				}
			}
			k = max(k, n)
		}
		if i == nil {
			return q
		}
		var ms []mono
		for _, m := range q.monos() {
			var vs []*T
			n := 0
			for _, v := range m.vs {
				if v == i {
					n++
				} else {
					vs = append(vs, v)
				}
			}
			for ; n < k; n++ {
				vs = mergeVars(vs, []*T{id.invs[i]})
			}
			ms = append(ms, mono{m.co, vs})
		}
		acc := map[string]*mono{}
		for _, m := range ms {
			key := mkey(m.vs)
			if e := acc[key]; e != nil {
				e.co = new(big.Int).Add(e.co, m.co)
			} else {
				acc[key] = &mono{new(big.Int).Set(m.co), m.vs}
			}
		}
		q = id.nf(id.h.tt.fromMonos(acc))
	}
}

// factor writes a polynomial as a constant times atoms that are not zero.
func (id *polyID) factor(q *T) (*big.Int, []*T, bool) {
	if q.IsConst() {
		return q.c, nil, q.c.Sign() != 0
	}
	var fs []*T
	l := q.monos()
	for again := true; again; {
		again = false
		for _, v := range l[0].vs {
			if !id.nz[v] {
				continue
			}
			var o []mono
			for _, m := range l {
				if w, ok := without(m.vs, []*T{v}); ok {
					o = append(o, mono{m.co, w})
				}
			}
			if len(o) == len(l) {
				fs = append(fs, v)
				l, again = o, true
				break
			}
		}
		if len(l) == 1 && len(l[0].vs) == 0 {
			return l[0].co, fs, true
		}
	}
	if l[0].vs == nil || len(id.nzp) > 0 {
		if f, ok := id.products(id.h.tt.fromList(l), 2); ok {
			return f, fs, true
		}
	}
	// squares of ordinates, which the curve equation rewrites
	q = id.h.tt.fromList(l)
	l = q.monos()
	for _, r := range id.rules {
		if len(r.lead) != 2 || r.lead[0] != r.lead[1] || !id.nz[r.lead[0]] {
			continue
		}
		e := r.repl
		for k := 0; k < 2; k++ {
			el := e.monos()
			f := new(big.Int).Mul(l[len(l)-1].co, modInv(el[len(el)-1].co, id.p))
			if d := id.red(id.h.tt.Sub(q, id.h.tt.Scale(e, f))); d.IsConst() && d.c.Sign() == 0 {
				for i := 0; i <= 2*k+1; i++ {
					fs = append(fs, r.lead[0])
				}
				return f.Mod(f, id.p), fs, true
			}
			e = id.mul(e, r.repl)
		}
	}
	return nil, nil, false
}

// products: a constant times at most n of the polynomials known not to vanish.
func (id *polyID) products(q *T, n int) (*big.Int, bool) {
	var try func(e *T, n, from int) (*big.Int, bool)
	l := q.monos()
	try = func(e *T, n, from int) (*big.Int, bool) {
		el := e.monos()
		if len(el) == len(l) && len(el) > 0 {
			f := new(big.Int).Mul(l[len(l)-1].co, modInv(el[len(el)-1].co, id.p))
			if d := id.red(id.h.tt.Sub(q, id.h.tt.Scale(e, f))); d.IsConst() && d.c.Sign() == 0 {
				return f.Mod(f, id.p), true
			}
		}
		if n == 0 {
			return nil, false
		}
		for i := from; i < len(id.nzp); i++ {
			if f, ok := try(id.mul(e, id.nzp[i]), n-1, i); ok {
				return f, true
			}
		}
		return nil, false
	}
	return try(id.h.tt.Int(1), n, 0)
}

func (id *polyID) isNonzero(q *T) bool {
	_, _, ok := id.factor(q)
	return ok
}

// zero decides p == 0 where the equations do.
func (id *polyID) zero(t *T) *B {
	tt := id.h.tt
	if t.op == "mod" && hx(t.s).Cmp(id.p) != 0 {
		return nil
	}
	if t.op == "poly" {
		// a difference of residues
		for _, m := range t.monos() {
			for _, v := range m.vs {
				if v.op != "var" && v.op != "mod" || v.op == "mod" && hx(v.s).Cmp(id.p) != 0 {
					return nil
				}
			}
		}
		if t.lo == nil || t.hi == nil || t.hi.Cmp(id.p) >= 0 || new(big.Int).Neg(t.lo).Cmp(id.p) >= 0 {
			return nil
		}
	} else if t.op != "mod" && t.op != "var" {
		return nil
	}
	q := id.cleared(t)
	if q.IsConst() {
		if q.c.Sign() == 0 {
			return tt.True
		}
		return tt.False
	}
	if id.isNonzero(q) {
		return tt.False
	}
	// up to factors that are not zero
	ms := q.monos()
	for _, v := range ms[0].vs {
		if !id.nz[v] {
			continue
		}
		var l []mono
		for _, m := range ms {
			w, ok := without(m.vs, []*T{v})
			if !ok {
				break
			}
			l = append(l, mono{m.co, w})
		}
		if len(l) == len(ms) {
			return id.zero(tt.Mod(tt.fromList(l), id.p))
		}
	}
	inv := modInv(ms[len(ms)-1].co, id.p)
	l := make([]mono, len(ms))
	for i, m := range ms {
		c := new(big.Int).Mul(m.co, inv)
		l[i] = mono{c.Mod(c, id.p), m.vs}
	}
	return tt.Var(tt.Atom("eq0", "", 0, nil, nil, tt.Mod(tt.fromList(l), id.p)))
}

// mul and friends, for writing expectations
func (id *polyID) mul(ts ...*T) *T {
	r := ts[0]
	for _, t := range ts[1:] {
		r = id.nf(id.h.tt.Mul(r, t))
	}
	return r
}
func (id *polyID) add(ts ...*T) *T {
	r := ts[0]
	for _, t := range ts[1:] {
		r = id.h.tt.Add(r, t)
	}
	return id.nf(r)
}
func (id *polyID) neg(t *T) *T    { return id.nf(id.h.tt.Neg(t)) }
func (id *polyID) sub(a, b *T) *T { return id.nf(id.h.tt.Sub(a, b)) }
func (id *polyID) k(n int64, t *T) *T {
	return id.nf(id.h.tt.Scale(t, bi(n)))
}

// affine: a point of a curve, or nil for the identity; x = xn/d^2, y = yn/d^3.
type affine struct{ xn, yn, d *T }

// curve: y^2 = x^3 + a x + b in Jacobian (Z^2, Z^3) or homogeneous coordinates.
type curveImpl struct {
	id   *polyID
	a, b *T
	hom  bool
	put  func(e *T) Val
	get  func(v Val, st *State) *T
	// the identity when Z = 0
	shape func(co []Val) Val
	split func(v Val) ([]Val, bool)
}

// point: an affine point (x, y) of the curve with y^2 = rhs(x).
func (c *curveImpl) point(name string, x *T) affine {
	id := c.id
	y := id.v(name + ".y")
	id.nz[y] = true // no point of order two
	id.rules = append(id.rules, polyRule{[]*T{y, y}, c.rhs(x)})
	return affine{x, y, id.h.tt.Int(1)}
}

func (c *curveImpl) rhs(x *T) *T {
	id := c.id
	return id.add(id.mul(x, x, x), id.mul(c.a, x), c.b)
}

func (c *curveImpl) scaled(q affine, z *T) []*T {
	id := c.id
	if c.hom {
		return []*T{id.mul(q.xn, z), id.mul(q.yn, z), z}
	}
	return []*T{id.mul(q.xn, z, z), id.mul(q.yn, z, z, z), z}
}

// sum of two points with different abscissas; the difference d is given.
func (c *curveImpl) chord(p, q affine, d *T) affine {
	id := c.id
	n := id.sub(q.yn, p.yn)
	return c.line(p, id.add(p.xn, q.xn), n, d)
}

func (c *curveImpl) tangent(p affine) affine {
	id := c.id
	n := id.add(id.k(3, id.mul(p.xn, p.xn)), c.a)
	return c.line(p, id.k(2, p.xn), n, id.k(2, p.yn))
}

func (c *curveImpl) line(p affine, sx, n, d *T) affine {
	id := c.id
	d2 := id.mul(d, d)
	xn := id.sub(id.mul(n, n), id.mul(sx, d2))
	yn := id.sub(id.mul(n, id.sub(id.mul(p.xn, d2), xn)), id.mul(p.yn, d2, d))
	return affine{xn, yn, d}
}

func (c *curveImpl) val(co []*T) Val {
	var l []Val
	for _, e := range co {
		l = append(l, c.put(e))
	}
	if c.shape != nil {
		return c.shape(l)
	}
	return &AggV{el: l}
}

// is checks that coordinates represent the expected point (nil: the identity).
func (c *curveImpl) is(key, at string, v Val, st *State, want *affine) {
	id := c.id
	in, r := id.h.in, id.h.r
	a, ok := in.resV(v, st.pc).(*AggV)
	if !ok {
		r.Undecided(key, "point of unexpected form")
		return
	}
	els := a.el
	if c.split != nil {
		if els, ok = c.split(a); !ok {
			r.Undecided(key, "point of unexpected form")
			return
		}
	}
	var co []*T
	for _, e := range els {
		co = append(co, c.get(e, st))
	}
	id.cases(co, st.pc, func(co []*T, g *B) {
		c.leaf(key, at, co, g, want)
	})
}

// cases enumerates the joint alternatives of terms.
func (id *polyID) cases(co []*T, pc *B, f func(co []*T, g *B)) {
	in, tt := id.h.in, id.h.tt
	var rec func(i int, acc []*T, g *B)
	rec = func(i int, acc []*T, g *B) {
		if i == len(co) {
			f(append([]*T{}, acc...), g)
			return
		}
		for _, al := range in.over(co[i], g) {
			g2 := tt.BAnd(g, al.g)
			if in.feasible(g2) {
				rec(i+1, append(acc, al.v.(*T)), g2)
			}
		}
	}
	rec(0, nil, pc)
}

// special: equations a case assumes beyond the class, and substitutions that
// solve the linear ones.
func (id *polyID) special(g *B) (subst map[*T]*T, unsolved string) {
	tt := id.h.tt
	at := map[*T]bool{}
	supp(g, at, map[*B]bool{})
	var l []*T
	for a := range at {
		l = append(l, a)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	subst = map[*T]*T{}
	for _, a := range l {
		if tt.BAnd(g, tt.BNot(tt.Var(a))) != tt.False {
			continue
		}
		if a.op != "eq0" {
			unsolved = a.String()
			continue
		}
		q := id.red(a.args[0])
		done := false
		for _, m := range q.monos() {
			if len(m.vs) == 1 && subst[m.vs[0]] == nil {
				v := m.vs[0]
				_, rest, ok := splitVar(id, q, v)
				if ok {
					k := modInv(m.co, id.p)
					subst[v] = id.red(tt.Scale(rest, k.Neg(k)))
					done = true
					break
				}
			}
		}
		if !done {
			unsolved = clip(a.String(), 300)
		}
	}
	return subst, unsolved
}

// splitVar: q = co*v + rest with rest free of v.
func splitVar(id *polyID, q, v *T) (*big.Int, *T, bool) {
	var co *big.Int
	var ms []mono
	for _, m := range q.monos() {
		n := 0
		for _, w := range m.vs {
			if w == v {
				n++
			}
		}
		switch {
		case n == 0:
			ms = append(ms, m)
		case n == 1 && len(m.vs) == 1:
			co = m.co
		default:
			return nil, nil, false
		}
	}
	return co, id.h.tt.fromList(ms), co != nil
}

func (c *curveImpl) leaf(key, at string, co []*T, g *B, want *affine) {
	id := c.id
	r := id.h.r
	if len(co) < 2 {
		r.Undecided(key, "point of unexpected form")
		return
	}
	z := id.h.tt.Int(1)
	if len(co) > 2 {
		z = co[2]
	}
	if want == nil {
		id.identity(key+"/identity", at, z, g, "the third coordinate must be 0")
		return
	}
	zz := id.mul(z)
	d2 := id.mul(want.d, want.d)
	z2, z3 := zz, zz
	if !c.hom {
		z2 = id.mul(zz, zz)
		z3 = id.mul(z2, zz)
	}
	id.identity(key+"/x", at, id.sub(id.mul(co[0], d2), id.mul(z2, want.xn)), g, "abscissa: X*dx - Z*nx must vanish")
	id.identity(key+"/y", at, id.sub(id.mul(co[1], d2, want.d), id.mul(z3, want.yn)), g, "ordinate: Y*dy - Z*ny must vanish")
	if id.isNonzero(id.nf(zz)) {
		r.OK(key+"/z", at, "")
	} else if id.nf(zz).IsConst() {
		r.Bad(key+"/z", at, "the third coordinate is 0 although the result is not the identity")
	} else {
		if _, u := id.special(g); u == "" && len(id.nf(zz).monos()) == 1 {
			r.Bad(key+"/z", at, "the third coordinate vanishes with "+clip(zz.String(), 200))
			return
		}
		r.Undecided(key+"/z", "cannot tell that the third coordinate is not 0: "+clip(zz.String(), 200))
	}
}

// identity: the polynomial vanishes on the class.
func (id *polyID) identity(key, at string, t *T, g *B, what string) {
	tt, r := id.h.tt, id.h.r
	q := id.cleared(t)
	zero := func(q *T) bool { return q.IsConst() && q.c.Sign() == 0 }
	if zero(q) {
		r.OK(key, at, "")
		return
	}
	sub, unsolved := id.special(g)
	if len(sub) > 0 {
		q = id.cleared(tt.Subst(q, func(v *T) *T { return sub[v] }))
		if zero(q) {
			r.OK(key, at, "")
			return
		}
	}
	if u := unknownT(q, map[*T]bool{}); u != "" {
		r.Undecided(key, "depends on "+u)
		return
	}
	if o := id.opaque(q); o != "" {
		r.Undecided(key, "depends on "+o)
		return
	}
	if unsolved != "" {
		r.Undecided(key, "a special case the class does not settle: "+unsolved)
		return
	}
	r.Bad(key, at, what+"; it is "+clip(q.String(), 500))
}

// opaque: an atom of the polynomial that is no free variable.
func (id *polyID) opaque(q *T) string {
	for _, m := range q.monos() {
		for _, v := range m.vs {
			if v.op != "var" {
				return clip(v.String(), 200)
			}
		}
	}
	return ""
}

// wcase: one class of operands of an addition.
type wcase struct {
	name   string
	p1, p2 []*T
	sum    *affine
	a1, a2 *affine // the operands
}

// addCases: every pair of points, up to the classes of the group law.
func (c *curveImpl) addCases(affine2 bool) []wcase {
	id := c.id
	tt := id.h.tt
	zero, one := tt.Int(0), tt.Int(1)
	z := func(n string) *T { return id.nonzero(n) }
	z2 := func(n string) *T {
		if affine2 {
			return one
		}
		return z(n)
	}
	var l []wcase
	inf := func(n string) []*T { return []*T{id.v(n + "X"), id.v(n + "Y"), zero} }
	q := c.point("q", id.v("q.x"))
	l = append(l, wcase{"O+Q", inf("o"), c.scaled(q, z2("q.z")), &q, nil, &q})
	l = append(l, wcase{"0:0:0+Q", []*T{zero, zero, zero}, c.scaled(q, z2("q.z")), &q, nil, &q})
	if !affine2 {
		l = append(l, wcase{"P+O", c.scaled(q, z("q.z")), inf("o"), &q, &q, nil})
		l = append(l, wcase{"O+O", inf("o"), inf("o"), nil, nil, nil})
	}
	p := c.point("p", id.v("p.x"))
	dbl := c.tangent(p)
	l = append(l, wcase{"P+P", c.scaled(p, z("p.z")), c.scaled(p, z2("q.z")), &dbl, &p, &p})
	m := affine{p.xn, id.neg(p.yn), p.d}
	l = append(l, wcase{"P-P", c.scaled(p, z("p.z")), c.scaled(m, z2("q.z")), nil, &p, &m})
	s := c.point("s", id.v("s.x"))
	d := id.nonzero("d")
	t := c.point("t", id.add(s.xn, d))
	sum := c.chord(s, t, d)
	l = append(l, wcase{"P+Q", c.scaled(s, z("p.z")), c.scaled(t, z2("q.z")), &sum, &s, &t})
	if w := c.omega(); w != nil && c.a.IsConst() && c.a.c.Sign() == 0 {
		// same ordinate, different abscissa
		x := id.nonzero("w.x")
		s := c.point("w", x)
		t := affine{id.mul(w, x), s.yn, s.d}
		sum := c.chord(s, t, id.sub(t.xn, s.xn))
		l = append(l, wcase{"P+Q with equal ordinates", c.scaled(s, z("p.z")), c.scaled(t, z2("q.z")), &sum, &s, &t})
	}
	return l
}

// omega: a cube root of one.
func (c *curveImpl) omega() *T {
	e := new(big.Int).Sub(c.id.p, big1)
	if new(big.Int).Mod(e, bi(3)).Sign() != 0 {
		return nil
	}
	e.Div(e, bi(3))
	for g := int64(2); g < 40; g++ {
		w := new(big.Int).Exp(bi(g), e, c.id.p)
		if w.Cmp(big1) != 0 {
			return c.id.h.tt.Const(w)
		}
	}
	return nil
}

// groupOp runs an operation with a destination and one or two operands, for
// every way destination and operands may share storage.
func (c *curveImpl) groupOp(key string, f *ssa.Function, k wcase, two bool, recv func(st *State) []Val, retPtr bool) {
	h := c.id.h
	at := h.p.Pos(f.Pos())
	al := []string{"", "r=p"}
	if two {
		al = append(al, "r=q")
		if k.name == "P+P" && k.p2[2] == k.p1[2] {
			al = append(al, "p=q", "r=p=q")
		}
	}
	for _, a := range al {
		kk := key + " " + k.name
		if a != "" {
			kk += " " + a
		}
		var r, p, q *PtrV
		rn := h.run(kk, f, func(st *State) []Val {
			p = h.place("p", c.val(k.p1), st)
			if two {
				q = h.place("q", c.val(k.p2), st)
			}
			switch a {
			case "p=q", "r=p=q":
				q = p
			}
			switch a {
			case "", "p=q":
				junk := []*T{c.id.v("jx"), c.id.v("jy"), c.id.v("jz")}
				r = h.place("r", c.val(junk[:len(k.p1)]), st)
			case "r=q":
				r = q
			default:
				r = p
			}
			args := append(recv(st), r, p)
			if two {
				args = append(args, q)
			}
			return args
		})
		if rn == nil {
			continue
		}
		h.r.Count("classes", 1)
		c.is(kk, at, h.in.load(r, rn.st, 0, nil), rn.st, k.sum)
		if retPtr && len(rn.res) > 0 {
			c.is(kk+"/returned", at, h.in.load(rn.res[0], rn.st, 0, nil), rn.st, k.sum)
		}
		if a == "" {
			c.is(kk+"/first operand", at, h.in.load(p, rn.st, 0, nil), rn.st, k.a1)
			if two {
				c.is(kk+"/second operand", at, h.in.load(q, rn.st, 0, nil), rn.st, k.a2)
			}
		}
	}
}
