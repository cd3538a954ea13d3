package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C23: the extension fields of the pairing.  Elements are polynomials in w over
// the quadratic field, w^6 = xi = 1+u; a coefficient is a pair of residues.

func init() { checks["C23"] = checkC23 }

func checkC23(p *Prog, r *Report) {
	r.Explain = "Every operation of fp2, fp6 and fp12 evaluated on operands whose coefficients are unknown residues modulo p: each coefficient of the result must be, as a polynomial, the one the defining polynomials u^2 = -1, v^3 = 1+u, w^2 = v fix; once with distinct operands and once for every way the callers let result and operands coincide (computed over all static call sites). Cyclotomic squaring must differ from squaring by a combination of the relations that define the cyclotomic subgroup; exponentiations and the final exponentiation are evaluated by tracking the exponent."
	r.Assume = []string{"the base field routines compute modulo p (add, sub, mul, square, neg, double, inverse)"}
	a := aliasClasses(p)
	h := newHOn(p, r, "bls12_381/bls")
	h.in.modelBlsField()
	h.towerOps(a)
	h = newHOn(p, r, "bls12_381/bls")
	h.towerPowers()
	h = newHOn(p, r, "bls12_381/bls")
	r.Min["operations"] = 60
}

// ---- which operands callers let coincide ----

// addrKey names the address an SSA value holds; equal keys are equal addresses.
func addrKey(v ssa.Value, params map[ssa.Value]int, depth int) string {
	if depth > 12 {
		return ""
	}
	if i, ok := params[v]; ok {
		return fmt.Sprint("p", i)
	}
	switch v := v.(type) {
	case *ssa.IndexAddr:
		c, ok := v.Index.(*ssa.Const)
		if !ok {
			return fmt.Sprintf("%s[%p]", addrKey(v.X, params, depth+1), v.Index)
		}
		return addrKey(v.X, params, depth+1) + "[" + c.Value.String() + "]"
	case *ssa.FieldAddr:
		return fmt.Sprintf("%s.%d", addrKey(v.X, params, depth+1), v.Field)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return "*(" + addrKey(v.X, params, depth+1) + ")"
		}
	}
	return fmt.Sprintf("%p", v)
}

// partition: class numbers, one per pointer argument, in first-seen order.
func partition(keys []string) string {
	m := map[string]int{}
	var out []string
	for _, k := range keys {
		if _, ok := m[k]; !ok {
			m[k] = len(m)
		}
		out = append(out, itoa(m[k]))
	}
	return strings.Join(out, " ")
}

func partitions(n int) [][]int {
	var out [][]int
	var rec func(p []int, max int)
	rec = func(p []int, max int) {
		if len(p) == n {
			out = append(out, append([]int{}, p...))
			return
		}
		for i := 0; i <= max; i++ {
			m := max
			if i == max {
				m++
			}
			rec(append(p, i), m)
		}
	}
	rec(nil, 0)
	return out
}

// aliasClasses: for every function of package bls, the partitions of its pointer
// parameters (receiver excepted) that some chain of static calls produces.
func aliasClasses(p *Prog) map[*ssa.Function]map[string]bool {
	out := map[*ssa.Function]map[string]bool{}
	var fns []*ssa.Function
	for _, f := range p.funcs {
		if strings.HasPrefix(shortS(f.String()), blsPk) || strings.HasPrefix(shortS(f.String()), "(*"+blsPk) {
			fns = append(fns, f)
		}
	}
	ptrs := func(f *ssa.Function) []int {
		var l []int
		for i, q := range f.Params {
			if i == 0 && f.Signature.Recv() != nil {
				continue
			}
			if _, ok := q.Type().Underlying().(*types.Pointer); ok {
				l = append(l, i)
			}
		}
		return l
	}
	add := func(f *ssa.Function, s string) bool {
		if out[f] == nil {
			out[f] = map[string]bool{}
		}
		if out[f][s] {
			return false
		}
		out[f][s] = true
		return true
	}
	same := func(f *ssa.Function, ix []int, cls []int) bool {
		t := map[int]types.Type{}
		for k, i := range ix {
			if q, ok := t[cls[k]]; ok && !types.Identical(q, f.Params[i].Type()) {
				return false
			}
			t[cls[k]] = f.Params[i].Type()
		}
		return true
	}
	str := func(l []int) string { return strings.Trim(fmt.Sprint(l), "[]") }
	for _, f := range fns {
		ix := ptrs(f)
		if o := f.Object(); o != nil && o.Exported() && len(ix) <= 4 {
			for _, q := range partitions(len(ix)) {
				if same(f, ix, q) {
					add(f, str(q))
				}
			}
			continue
		}
		var id []int
		for k := range ix {
			id = append(id, k)
		}
		add(f, str(id))
	}
	for again := true; again; {
		again = false
		for _, f := range fns {
			ix := ptrs(f)
			for q := range out[f] {
				cls := strings.Fields(q)
				params := map[ssa.Value]int{}
				for k, i := range ix {
					n := 0
					fmt.Sscan(cls[k], &n)
					params[f.Params[i]] = n
				}
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						c, ok := ins.(ssa.CallInstruction)
						if !ok {
							continue
						}
						g := c.Common().StaticCallee()
						if g == nil || out[g] == nil {
							continue
						}
						var keys []string
						for _, i := range ptrs(g) {
							keys = append(keys, addrKey(c.Common().Args[i], params, 0))
						}
						if add(g, partition(keys)) {
							again = true
						}
					}
				}
			}
		}
	}
	return out
}

// ---- the reference ----

type twEl struct { // coefficient n is that of w^(n*step)
	c [][2]*T
}

type tower struct {
	h *H
	q fld
}

// degree of an operand kind: 1 base, 2, 6, 12
var twNames = map[int]string{1: "fe", 2: "fe2", 6: "fe6", 12: "fe12"}

func (w tower) fresh(name string, deg int) [][2]*T {
	top := new(big.Int).Sub(blsP, big1)
	v := func(i int) *T { return w.h.tt.Atom("var", name, i, big0, top) }
	if deg == 1 {
		return [][2]*T{{v(0), w.h.tt.Int(0)}}
	}
	var l [][2]*T
	for i := 0; i < deg/2; i++ {
		l = append(l, [2]*T{v(2 * i), v(2*i + 1)})
	}
	return l
}

// val: coefficients of fe12 are kept in powers of w.
func (w tower) val(x [][2]*T, deg int) Val {
	in := w.h.in
	switch deg {
	case 1:
		return in.feVal(feBls, x[0][0])
	case 2:
		return in.fe2Val(x[0])
	case 6:
		a := &AggV{}
		for _, c := range x {
			a.el = append(a.el, in.fe2Val(c))
		}
		return a
	}
	return &AggV{el: []Val{w.val([][2]*T{x[0], x[2], x[4]}, 6), w.val([][2]*T{x[1], x[3], x[5]}, 6)}}
}

func (w tower) of(v Val, deg int, st *State) [][2]*T {
	in := w.h.in
	switch deg {
	case 1:
		return [][2]*T{{in.blsFe(v, st), w.h.tt.Int(0)}}
	case 2:
		return [][2]*T{in.blsFe2(v, st)}
	}
	a, ok := in.resV(v, st.pc).(*AggV)
	n := 3
	if deg == 12 {
		n = 2
	}
	if !ok || len(a.el) != n {
		in.note("field element of unexpected form")
		return w.fresh("bad", deg)
	}
	if deg == 6 {
		var l [][2]*T
		for _, e := range a.el {
			l = append(l, in.blsFe2(e, st))
		}
		return l
	}
	x, y := w.of(a.el[0], 6, st), w.of(a.el[1], 6, st)
	return [][2]*T{x[0], y[0], x[1], y[1], x[2], y[2]}
}

func (w tower) xi(a [2]*T) [2]*T {
	tt := w.h.tt
	return [2]*T{tt.Mod(tt.Sub(a[0], a[1]), blsP), tt.Mod(tt.Add(a[0], a[1]), blsP)}
}

// mul: product of polynomials in a root of X^n = xi.
func (w tower) mul(a, b [][2]*T) [][2]*T {
	n := len(a)
	tt := w.h.tt
	r := w.zero(n)
	for i := range a {
		for j := range b {
			m := w.q.mul(a[i], b[j])
			k := i + j
			if k >= n {
				m, k = w.xi(m), k-n
			}
			r[k] = fe2Add(tt, r[k], m)
		}
	}
	return r
}

func (w tower) zero(n int) [][2]*T {
	var l [][2]*T
	for i := 0; i < n; i++ {
		l = append(l, w.q.num(0, 0))
	}
	return l
}
func (w tower) one(n int) [][2]*T {
	l := w.zero(n)
	l[0] = w.q.num(1, 0)
	return l
}
func (w tower) lin(a, b [][2]*T, k, m int64) [][2]*T {
	tt := w.h.tt
	var l [][2]*T
	for i := range a {
		var c [2]*T
		for j := range c {
			c[j] = tt.Mod(tt.Lin(bi(k), a[i][j], bi(m), b[i][j]), blsP)
		}
		l = append(l, c)
	}
	return l
}
func (w tower) scale(a [][2]*T, b [2]*T) [][2]*T {
	var l [][2]*T
	for _, c := range a {
		l = append(l, w.q.mul(c, b))
	}
	return l
}

// frob: the p^k power.
func (w tower) frob(a [][2]*T, k int) [][2]*T {
	n := len(a)
	e := new(big.Int).Exp(blsP, bi(int64(k)), nil)
	e.Div(e.Sub(e, big1), bi(int64(n)))
	g, c := f2exp(blsP, f2{big1, big1}, e), f2{big1, big0}
	var l [][2]*T
	for _, x := range a {
		if k%2 == 1 {
			x = [2]*T{x[0], w.h.tt.Mod(w.h.tt.Neg(x[1]), blsP)}
		}
		l = append(l, w.q.mul(x, [2]*T{w.h.tt.Const(c[0]), w.h.tt.Const(c[1])}))
		c = f2mul(blsP, c, g)
	}
	return l
}

// sparse places coefficients at powers of the generator.
func (w tower) sparse(n int, at map[int][2]*T) [][2]*T {
	l := w.zero(n)
	for i, c := range at {
		l[i] = c
	}
	return l
}

type twOp struct {
	recv, name string
	deg        []int // degree of each pointer argument
	out        []int // positions of results
	num        *big.Int
	want       func(x [][][2]*T) [][][2]*T
	ret        string // what it returns: "" nothing, "bool", "ptr"
	is         func(x [][][2]*T) *B
	rdeg       int
}

func (h *H) towerOps(al map[*ssa.Function]map[string]bool) {
	p, r, tt, in := h.p, h.r, h.tt, h.in
	pk := "bls12_381/bls"
	w := tower{h, fld{h, 2}}
	var ops []twOp
	one := func(x [][2]*T) [][][2]*T { return [][][2]*T{x} }
	three := func(recv, name string, d int, f func(a, b [][2]*T) [][2]*T) {
		ops = append(ops, twOp{recv: recv, name: name, deg: []int{d, d, d}, out: []int{0}, want: func(x [][][2]*T) [][][2]*T { return one(f(x[1], x[2])) }})
	}
	assign := func(recv, name string, d int, f func(a, b [][2]*T) [][2]*T) {
		ops = append(ops, twOp{recv: recv, name: name, deg: []int{d, d}, out: []int{0}, want: func(x [][][2]*T) [][][2]*T { return one(f(x[0], x[1])) }})
	}
	two := func(recv, name string, d int, f func(a [][2]*T) [][2]*T) {
		ops = append(ops, twOp{recv: recv, name: name, deg: []int{d, d}, out: []int{0}, want: func(x [][][2]*T) [][][2]*T { return one(f(x[1])) }})
	}
	self := func(recv, name string, d int, f func(a [][2]*T) [][2]*T) {
		ops = append(ops, twOp{recv: recv, name: name, deg: []int{d}, out: []int{0}, want: func(x [][][2]*T) [][][2]*T { return one(f(x[0])) }})
	}
	zeroIs := func(x [][2]*T) *B {
		b := tt.True
		for _, c := range x {
			b = tt.BAll(b, tt.Eq0(c[0]), tt.Eq0(c[1]))
		}
		return b
	}
	gen := func(d int) [][2]*T { // the generator of the next level
		if d == 12 {
			return w.sparse(6, map[int][2]*T{1: w.q.num(1, 0)})
		}
		return w.sparse(d/2, map[int][2]*T{1 % (d / 2): w.q.num(1, 0)})
	}
	for _, d := range []int{2, 6, 12} {
		d, rc := d, "fp"+itoa(d)
		sum := func(k, m int64) func(a, b [][2]*T) [][2]*T {
			return func(a, b [][2]*T) [][2]*T { return w.lin(a, b, k, m) }
		}
		three(rc, "add", d, sum(1, 1))
		three(rc, "ladd", d, sum(1, 1))
		three(rc, "sub", d, sum(1, -1))
		three(rc, "mul", d, w.mul)
		assign(rc, "addAssign", d, sum(1, 1))
		assign(rc, "subAssign", d, sum(1, -1))
		assign(rc, "mulAssign", d, w.mul)
		two(rc, "double", d, func(a [][2]*T) [][2]*T { return w.lin(a, a, 1, 1) })
		two(rc, "ldouble", d, func(a [][2]*T) [][2]*T { return w.lin(a, a, 1, 1) })
		self(rc, "doubleAssign", d, func(a [][2]*T) [][2]*T { return w.lin(a, a, 1, 1) })
		two(rc, "neg", d, func(a [][2]*T) [][2]*T { return w.lin(a, a, 0, -1) })
		two(rc, "copy", d, func(a [][2]*T) [][2]*T { return a })
		two(rc, "square", d, func(a [][2]*T) [][2]*T { return w.mul(a, a) })
		self(rc, "squareAssign", d, func(a [][2]*T) [][2]*T { return w.mul(a, a) })
		two(rc, "conjugate", d, func(a [][2]*T) [][2]*T {
			if d == 2 {
				return [][2]*T{{a[0][0], tt.Mod(tt.Neg(a[0][1]), blsP)}}
			}
			l := append([][2]*T{}, a...)
			for i := 1; i < len(l); i += 2 {
				l[i] = w.lin(a[i:i+1], a[i:i+1], 0, -1)[0]
			}
			return l
		})
		for _, n := range []string{"isZero", "isOne", "equal"} {
			n := n
			o := twOp{recv: rc, name: n, deg: []int{d}, ret: "bool"}
			if n == "equal" {
				o.deg = []int{d, d}
			}
			o.is = func(x [][][2]*T) *B {
				switch n {
				case "isOne":
					return zeroIs(w.lin(x[0], w.one(len(x[0])), 1, -1))
				case "equal":
					return zeroIs(w.lin(x[0], x[1], 1, -1))
				}
				return zeroIs(x[0])
			}
			ops = append(ops, o)
			o.recv = ""
			o.name = "fe" + itoa(d) + "." + n
			ops = append(ops, o)
		}
		for _, n := range []string{"zero", "one", "new"} {
			n := n
			ops = append(ops, twOp{recv: rc, name: n, ret: "ptr", rdeg: d, want: func(x [][][2]*T) [][][2]*T {
				if n == "one" {
					return one(w.one((d + 1) / 2))
				}
				return one(w.zero((d + 1) / 2))
			}})
			if n != "new" {
				ops = append(ops, twOp{name: "fe" + itoa(d) + "." + n, deg: []int{d}, out: []int{0}, want: func(x [][][2]*T) [][][2]*T {
					if n == "one" {
						return one(w.one(len(x[0])))
					}
					return one(w.zero(len(x[0])))
				}})
			}
		}
		ops = append(ops, twOp{name: "fe" + itoa(d) + ".set", deg: []int{d, d}, out: []int{0}, want: func(x [][][2]*T) [][][2]*T { return one(x[1]) }})
		ks := 12
		nm := []string{"frobeniusMap", "frobeniusMapAssign"}
		if d == 2 {
			nm = []string{"frobeniousMap", "frobeniousMapAssign"}
		}
		for k := 0; k < ks; k++ {
			k := k
			ops = append(ops, twOp{recv: rc, name: nm[0], deg: []int{d, d}, out: []int{0}, num: bi(int64(k)), want: func(x [][][2]*T) [][][2]*T { return one(w.frob(x[1], k)) }})
			ops = append(ops, twOp{recv: rc, name: nm[1], deg: []int{d}, out: []int{0}, num: bi(int64(k)), want: func(x [][][2]*T) [][][2]*T { return one(w.frob(x[0], k)) }})
		}
	}
	two("fp2", "mulByNonResidue", 2, func(a [][2]*T) [][2]*T { return w.scale(a, w.q.num(1, 1)) })
	two("fp2", "mulByB", 2, func(a [][2]*T) [][2]*T { return w.scale(a, w.q.num(4, 4)) })
	two("fp6", "mulByNonResidue", 6, func(a [][2]*T) [][2]*T { return w.mul(a, gen(6)) })
	ops = append(ops,
		twOp{recv: "fp2", name: "mulByFq", deg: []int{2, 2, 1}, out: []int{0}, want: func(x [][][2]*T) [][][2]*T { return one(w.scale(x[1], x[2][0])) }},
		twOp{recv: "fp6", name: "mulByBaseField", deg: []int{6, 6, 2}, out: []int{0}, want: func(x [][][2]*T) [][][2]*T { return one(w.scale(x[1], x[2][0])) }},
		twOp{recv: "fp6", name: "mulBy01", deg: []int{6, 6, 2, 2}, out: []int{0}, want: func(x [][][2]*T) [][][2]*T {
			return one(w.mul(x[1], w.sparse(3, map[int][2]*T{0: x[2][0], 1: x[3][0]})))
		}},
		twOp{recv: "fp6", name: "mulBy01Assign", deg: []int{6, 2, 2}, out: []int{0}, want: func(x [][][2]*T) [][][2]*T {
			return one(w.mul(x[0], w.sparse(3, map[int][2]*T{0: x[1][0], 1: x[2][0]})))
		}},
		twOp{recv: "fp6", name: "mulBy1", deg: []int{6, 6, 2}, out: []int{0}, want: func(x [][][2]*T) [][][2]*T {
			return one(w.mul(x[1], w.sparse(3, map[int][2]*T{1: x[2][0]})))
		}},
		twOp{recv: "fp12", name: "mulBy014Assign", deg: []int{12, 2, 2, 2}, out: []int{0}, want: func(x [][][2]*T) [][][2]*T {
			return one(w.mul(x[0], w.sparse(6, map[int][2]*T{0: x[1][0], 2: x[2][0], 3: x[3][0]})))
		}},
		twOp{recv: "fp12", name: "fp4Square", deg: []int{2, 2, 2, 2}, out: []int{0, 1}, want: func(x [][][2]*T) [][][2]*T {
			a, b := x[2], x[3]
			return [][][2]*T{w.lin(w.mul(a, a), [][2]*T{w.xi(w.mul(b, b)[0])}, 1, 1), w.lin(w.mul(a, b), a, 2, 0)}
		}},
	)
	for _, o := range ops {
		h.towerOp(w, o, al)
	}
	// inverses: the adjoint times the inverse of the norm in the field below
	adj := map[int]func(a [][2]*T) (a2, norm [][2]*T){
		2: func(a [][2]*T) ([][2]*T, [][2]*T) {
			n := tt.Mod(tt.Add(tt.Mul(a[0][0], a[0][0]), tt.Mul(a[0][1], a[0][1])), blsP)
			return [][2]*T{{a[0][0], tt.Mod(tt.Neg(a[0][1]), blsP)}}, [][2]*T{{n, tt.Int(0)}}
		},
		6: func(a [][2]*T) ([][2]*T, [][2]*T) {
			mu := func(i, j int) [2]*T { return w.q.mul(a[i], a[j]) }
			mi := func(x, y [2]*T) [2]*T { return w.lin([][2]*T{x}, [][2]*T{y}, 1, -1)[0] }
			l := [][2]*T{mi(mu(0, 0), w.xi(mu(1, 2))), mi(w.xi(mu(2, 2)), mu(0, 1)), mi(mu(1, 1), mu(0, 2))}
			return l, [][2]*T{w.mul(a, l)[0]}
		},
		12: func(a [][2]*T) ([][2]*T, [][2]*T) {
			l := append([][2]*T{}, a...)
			for i := 1; i < 6; i += 2 {
				l[i] = w.lin(a[i:i+1], a[i:i+1], 0, -1)[0]
			}
			m := w.mul(a, l)
			return l, [][2]*T{m[0], m[2], m[4]}
		},
	}
	for _, d := range []int{2, 6, 12} {
		d := d
		below := map[int]int{2: 1, 6: 2, 12: 6}[d]
		var asked [][][2]*T
		nm := "(*" + blsPk + "fp" + itoa(below) + ").inverse"
		di, xi, dst := 1, 2, tower.fresh(w, "inv", below)
		if below == 1 {
			nm, di, xi = blsPk+"inverse", 0, 1
		}
		old := in.models[nm]
		in.def(nm, func(in *Interp, c *callCtx) (Val, bool) {
			asked = append(asked, w.of(in.deref(c.args[xi], c.st), below, c.st))
			in.store(c.args[di], w.val(dst, below), c.st, c.pos)
			return &TupleV{}, true
		})
		dd := func(a [][2]*T) [][2]*T {
			l, _ := adj[d](a)
			if d == 12 {
				return w.mul(l, [][2]*T{dst[0], w.q.num(0, 0), dst[1], w.q.num(0, 0), dst[2], w.q.num(0, 0)})
			}
			return w.scale(l, dst[0])
		}
		asked = nil
		h.towerOp(w, twOp{recv: "fp" + itoa(d), name: "inverse", deg: []int{d, d}, out: []int{0}, want: func(x [][][2]*T) [][][2]*T { return one(dd(x[1])) }}, al)
		f := h.methodFn(pk, "fp"+itoa(d), "inverse")
		if f != nil {
			for i, a := range asked {
				x := w.fresh("x1", d)
				for _, m := range polyOf(a[0][0]).monos() {
					for _, v := range m.vs {
						if v.op == "var" && v.s == "x0" { // in place
							x = w.fresh("x0", d)
						}
					}
				}
				_, n := adj[d](x)
				for j := range n {
					for k := 0; k < 2; k++ {
						h.sc(f).ExpectT(fmt.Sprint("fp", d, ".inverse/norm ", i, " ", j, " ", k), "the element inverted below", a[j][k], n[j][k], tt.True)
					}
				}
			}
			if len(asked) == 0 {
				r.Undecided("fp"+itoa(d)+".inverse/norm", "no inversion in the field below")
			}
		}
		if old != nil {
			in.models[nm] = old
		} else {
			delete(in.models, nm)
		}
	}
	// quotient: times the inverse
	in.def("(*"+blsPk+"fp2).inverse", func(in *Interp, c *callCtx) (Val, bool) {
		x := in.blsFe2(in.deref(c.args[2], c.st), c.st)
		in.store(c.args[1], in.fe2Val(w.q.inv(x)), c.st, c.pos)
		return &TupleV{}, true
	})
	h.towerOp(w, twOp{recv: "fp2", name: "div", deg: []int{2, 2, 2}, out: []int{0}, want: func(x [][][2]*T) [][][2]*T { return one(w.scale(x[1], w.q.inv(x[2][0]))) }}, al)
	delete(in.models, "(*"+blsPk+"fp2).inverse")
	h.cyclotomic(w, al)
	_ = p
}

// towerFn: the function and the value its receiver has.
func (h *H) towerFn(recv, name string) (*ssa.Function, func(st *State) []Val) {
	pk := "bls12_381/bls"
	if recv == "" {
		t := strings.SplitN(name, ".", 2)
		return h.methodFn(pk, t[0], t[1]), func(st *State) []Val { return nil }
	}
	f := h.methodFn(pk, recv, name)
	mk := h.p.Func(pk, "", "newF"+recv[1:])
	return f, func(st *State) []Val {
		if mk == nil {
			return []Val{&PtrV{}}
		}
		var ra []Val
		for range mk.Params {
			ra = append(ra, &PtrV{})
		}
		v, s2 := h.in.CallFn(mk, ra, nil, st)
		if s2 != nil {
			st.pc, st.mem = s2.pc, s2.mem
		}
		return []Val{v}
	}
}

func (h *H) towerOp(w tower, o twOp, al map[*ssa.Function]map[string]bool) {
	in, tt, r := h.in, h.tt, h.r
	key := strings.TrimPrefix(o.recv+"."+o.name, ".")
	f, recv := h.towerFn(o.recv, o.name)
	if f == nil || len(f.Blocks) == 0 {
		return
	}
	r.Count("operations", 1)
	var parts []string
	for q := range al[f] {
		parts = append(parts, q)
	}
	sort.Strings(parts)
	if len(o.deg) == 0 || o.recv == "" {
		parts = []string{""}
	}
	for _, q := range parts {
		cls := strings.Fields(q)
		if len(cls) != len(o.deg) && q != "" {
			r.Undecided(key, "operands of unexpected kind")
			return
		}
		k := key
		if o.num != nil {
			k += " " + o.num.String()
		}
		for i := range cls {
			if cls[i] != itoa(i) {
				k += " with operands " + q
				break
			}
		}
		var objs []*PtrV
		var x [][][2]*T
		ok := true
		rn := h.run(k, f, func(st *State) []Val {
			args := recv(st)
			byCls := map[string]int{}
			for i, d := range o.deg {
				c := itoa(i)
				if len(cls) > 0 {
					c = cls[i]
				}
				if j, seen := byCls[c]; seen {
					if o.deg[j] != d {
						ok = false
					}
					objs, x = append(objs, objs[j]), append(x, x[j])
					args = append(args, objs[j])
					continue
				}
				byCls[c] = i
				v := w.fresh("x"+itoa(i), d)
				pt := h.place("x"+itoa(i), w.val(v, d), st)
				objs, x = append(objs, pt), append(x, v)
				args = append(args, pt)
			}
			if o.num != nil {
				args = append(args, tt.Const(o.num))
			}
			return args
		})
		if rn == nil || !ok {
			continue
		}
		r.Count("classes", 1)
		s := h.sc(f)
		switch o.ret {
		case "bool":
			s.iff(k, rn.Bool(0), o.is(x), rn.st.pc)
		case "ptr":
			w.same(s, k, w.of(in.load(rn.res[0], rn.st, 0, nil), o.rdeg, rn.st), o.want(x)[0], rn.st.pc)
		default:
			want := o.want(x)
			isOut := map[*Obj]bool{}
			for i, j := range o.out {
				isOut[objs[j].o] = true
				kk := k
				if len(o.out) > 1 {
					kk += fmt.Sprint("/", i)
				}
				w.same(s, kk, w.of(in.load(objs[j], rn.st, 0, nil), o.deg[j], rn.st), want[i], rn.st.pc)
			}
			for i := range objs {
				if !isOut[objs[i].o] {
					w.same(s, fmt.Sprint(k, "/operand ", i, " unchanged"), w.of(in.load(objs[i], rn.st, 0, nil), o.deg[i], rn.st), x[i], rn.st.pc)
				}
			}
		}
	}
}

func (w tower) same(s *specCheck, key string, got, want [][2]*T, pc *B) {
	in, tt := w.h.in, w.h.tt
	if len(got) != len(want) {
		w.h.r.Undecided(key, "result of unexpected form")
		return
	}
	for i := range got {
		for j := 0; j < 2; j++ {
			if len(got) == 1 && want[i][j].IsConst() && got[i][j] == want[i][j] && j == 1 {
				continue
			}
			g, x := in.res(got[i][j], pc), tt.Mod(want[i][j], blsP)
			if g == x {
				w.h.r.OK(fmt.Sprint(key, "/", i, ".", j), s.pos, "")
				continue
			}
			s.ExpectT(fmt.Sprint(key, "/", i, ".", j), "the coefficient", g, x, pc)
		}
	}
}
