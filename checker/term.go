package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Hash-consed value terms.  Integer terms denote mathematical integers and are
// kept as canonical polynomials over atoms; every term carries the interval
// that bounds it on all paths.

type T struct {
	id   int
	op   string // "const", "poly", or an atom kind
	args []*T
	c    *big.Int // const
	n    int
	s    string
	ms   []mono // poly, sorted by key
	cs   []*B   // choice guards (parallel to args)
	anf  []amono
	lo   *big.Int // nil: unbounded
	hi   *big.Int
	len  *T // length, for byte-string terms
}

type mono struct {
	co *big.Int
	vs []*T // sorted by id, with repetition; empty = constant term
}

// masked monomial of a bitwise expression: mask & v1 & v2 ...
type amono struct {
	mask *big.Int
	vs   []*T
}

type Terms struct {
	zeroHook func(t *T) *B // decides t == 0 where known
	jac      bool          // identity rules for Jacobian code
	tab      map[string]*T
	all      []*T
	btab     map[string]*B
	ball     []*B
	fresh    int
	True     *B
	False    *B
	// memo
	iteMemo    map[[3]int]*B
	conMemo    map[[2]int]*B
	litMemo    map[int][]lit
	ors        map[int][]*T // operands of values built by Or
	nops       int
	maxPoly    int
	open       bool // do not collect x - 2^k*(x>>k)
	limb       bool // keep carries as polynomials (x & mask = x - 2^k*(x>>k))
	phi        bool // keep choices as atoms
	rangeUnder func(t *T, c *B) (*big.Int, *big.Int)
}

func NewTerms() *Terms {
	tt := &Terms{tab: map[string]*T{}, btab: map[string]*B{}, iteMemo: map[[3]int]*B{}, conMemo: map[[2]int]*B{}, litMemo: map[int][]lit{}, maxPoly: 20000}
	tt.True = &B{id: 1}
	tt.False = &B{id: 0}
	tt.ball = []*B{tt.False, tt.True}
	return tt
}

var (
	big0 = big.NewInt(0)
	big1 = big.NewInt(1)
)

func bi(n int64) *big.Int  { return big.NewInt(n) }
func pow2(k int) *big.Int  { return new(big.Int).Lsh(big1, uint(k)) }
func pow2m(k int) *big.Int { return new(big.Int).Sub(pow2(k), big1) }

func (tt *Terms) mk(key string, f func() *T) *T {
	if t := tt.tab[key]; t != nil {
		return t
	}
	t := f()
	t.id = len(tt.all) + 1
	tt.all = append(tt.all, t)
	tt.tab[key] = t
	return t
}

func ids(op string, s string, n int, args []*T) string {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(s)
	sb.WriteByte('|')
	sb.WriteString(strconv.Itoa(n))
	for _, a := range args {
		sb.WriteByte(',')
		if a == nil {
			sb.WriteByte('_')
		} else {
			sb.WriteString(strconv.Itoa(a.id))
		}
	}
	return sb.String()
}

// Atom makes an uninterpreted term.
func (tt *Terms) Atom(op, s string, n int, lo, hi *big.Int, args ...*T) *T {
	return tt.mk(ids(op, s, n, args), func() *T {
		return &T{op: op, s: s, n: n, args: args, lo: lo, hi: hi}
	})
}

func (tt *Terms) Fresh(name string, lo, hi *big.Int) *T {
	tt.fresh++
	return tt.Atom("fresh", fmt.Sprintf("%s#%d", name, tt.fresh), 0, lo, hi)
}

func (tt *Terms) Const(c *big.Int) *T {
	return tt.mk("const|"+c.Text(62), func() *T { v := new(big.Int).Set(c); return &T{op: "const", c: v, lo: v, hi: v} })
}
func (tt *Terms) Int(n int64) *T { return tt.Const(bi(n)) }

func (t *T) IsConst() bool { return t.op == "const" }

func (t *T) isAtom() bool { return t.op != "const" && t.op != "poly" }

func (t *T) monos() []mono {
	switch t.op {
	case "const":
		if t.c.Sign() == 0 {
			return nil
		}
		return []mono{{t.c, nil}}
	case "poly":
		return t.ms
	}
	return []mono{{big1, []*T{t}}}
}

func mkey(vs []*T) string {
	if len(vs) == 1 {
		return strconv.Itoa(vs[0].id)
	}
	var sb strings.Builder
	for i, v := range vs {
		if i > 0 {
			sb.WriteByte('.')
		}
		sb.WriteString(strconv.Itoa(v.id))
	}
	return sb.String()
}

func lessMono(a, b []*T) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i].id != b[i].id {
			return a[i].id < b[i].id
		}
	}
	return false
}

func (tt *Terms) fromMonos(m map[string]*mono) *T {
	ms := make([]mono, 0, len(m))
	for _, x := range m {
		if x.co.Sign() != 0 {
			ms = append(ms, *x)
		}
	}
	return tt.fromList(ms)
}

func (tt *Terms) fromList(ms []mono) *T {
	if len(ms) == 0 {
		return tt.Const(big0)
	}
	if len(ms) == 1 {
		if len(ms[0].vs) == 0 {
			return tt.Const(ms[0].co)
		}
		if len(ms[0].vs) == 1 && ms[0].co.Cmp(big1) == 0 {
			return ms[0].vs[0]
		}
	}
	if len(ms) > tt.maxPoly {
		panic(fmt.Sprintf("polynomial too large (%d terms)", len(ms)))
	}
	if tt.limb && !tt.open {
		if r := tt.foldWindow(ms); r != nil {
			return r
		}
	}
	sort.Slice(ms, func(i, j int) bool { return lessMono(ms[i].vs, ms[j].vs) })
	var sb strings.Builder
	sb.WriteString("poly")
	for _, x := range ms {
		sb.WriteByte('+')
		sb.WriteString(x.co.Text(62))
		sb.WriteByte('*')
		sb.WriteString(mkey(x.vs))
	}
	return tt.mk(sb.String(), func() *T {
		t := &T{op: "poly", ms: ms}
		t.lo, t.hi = tt.polyRange(t, nil)
		return t
	})
}

func (tt *Terms) Lin(k1 *big.Int, a *T, k2 *big.Int, b *T) *T {
	tt.nops++
	if a.IsConst() && b.IsConst() {
		x := new(big.Int).Mul(k1, a.c)
		y := new(big.Int).Mul(k2, b.c)
		return tt.Const(x.Add(x, y))
	}
	// merge two sorted lists
	am, bm := a.monos(), b.monos()
	out := make([]mono, 0, len(am)+len(bm))
	i, j := 0, 0
	for i < len(am) || j < len(bm) {
		switch {
		case j >= len(bm) || (i < len(am) && lessMono(am[i].vs, bm[j].vs)):
			out = append(out, mono{new(big.Int).Mul(k1, am[i].co), am[i].vs})
			i++
		case i >= len(am) || lessMono(bm[j].vs, am[i].vs):
			out = append(out, mono{new(big.Int).Mul(k2, bm[j].co), bm[j].vs})
			j++
		default:
			c := new(big.Int).Mul(k1, am[i].co)
			d := new(big.Int).Mul(k2, bm[j].co)
			c.Add(c, d)
			if c.Sign() != 0 {
				out = append(out, mono{c, am[i].vs})
			}
			i++
			j++
		}
	}
	// drop zero coefficients (k1 or k2 zero)
	o2 := out[:0]
	for _, x := range out {
		if x.co.Sign() != 0 {
			o2 = append(o2, x)
		}
	}
	return tt.fromList(o2)
}

func (tt *Terms) Add(a, b *T) *T { return tt.Lin(big1, a, big1, b) }
func (tt *Terms) Sub(a, b *T) *T { return tt.Lin(big1, a, bi(-1), b) }
func (tt *Terms) Neg(a *T) *T    { return tt.Lin(bi(-1), a, big0, tt.Const(big0)) }
func (tt *Terms) AddI(a *T, n int64) *T {
	return tt.Add(a, tt.Int(n))
}
func (tt *Terms) Scale(a *T, k *big.Int) *T { return tt.Lin(k, a, big0, tt.Const(big0)) }

func (tt *Terms) Mul(a, b *T) *T {
	tt.nops++
	if a.IsConst() {
		return tt.Scale(b, a.c)
	}
	if b.IsConst() {
		return tt.Scale(a, b.c)
	}
	am, bm := a.monos(), b.monos()
	if len(am)*len(bm) > tt.maxPoly*4 {
		panic("polynomial product too large")
	}
	acc := map[string]*mono{}
	for _, x := range am {
		for _, y := range bm {
			vs := mergeVars(x.vs, y.vs)
			k := mkey(vs)
			c := new(big.Int).Mul(x.co, y.co)
			if e := acc[k]; e != nil {
				e.co.Add(e.co, c)
			} else {
				acc[k] = &mono{c, vs}
			}
		}
	}
	return tt.fromMonos(acc)
}

func mergeVars(a, b []*T) []*T {
	out := make([]*T, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		if j >= len(b) || (i < len(a) && a[i].id <= b[j].id) {
			out = append(out, a[i])
			i++
		} else {
			out = append(out, b[j])
			j++
		}
	}
	// cancel v * inv(v) pairs
	return out
}

// Subst rewrites atoms by f (f returns nil to keep).
func (tt *Terms) Subst(t *T, f func(*T) *T) *T {
	switch t.op {
	case "const":
		return t
	case "poly":
		changed := false
		m := map[*T]*T{}
		for _, x := range t.ms {
			for _, v := range x.vs {
				if _, ok := m[v]; !ok {
					r := f(v)
					if r != nil && r != v {
						changed = true
						m[v] = r
					} else {
						m[v] = v
					}
				}
			}
		}
		if !changed {
			return t
		}
		// accumulate in a map
		acc := map[string]*mono{}
		add := func(c *big.Int, vs []*T) {
			k := mkey(vs)
			if e := acc[k]; e != nil {
				e.co = new(big.Int).Add(e.co, c)
			} else {
				acc[k] = &mono{new(big.Int).Set(c), vs}
			}
		}
		for _, x := range t.ms {
			hit := false
			for _, v := range x.vs {
				if m[v] != v {
					hit = true
				}
			}
			if !hit {
				add(x.co, x.vs)
				continue
			}
			p := tt.Const(x.co)
			for _, v := range x.vs {
				p = tt.Mul(p, m[v])
			}
			for _, y := range p.monos() {
				add(y.co, y.vs)
			}
		}
		return tt.fromMonos(acc)
	}
	if r := f(t); r != nil {
		return r
	}
	return t
}

// ---- intervals ----

func addB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	return new(big.Int).Add(a, b)
}

func minB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

type rng struct{ lo, hi *big.Int }

func mulR(a, b rng) rng {
	if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
		p := []*big.Int{new(big.Int).Mul(a.lo, b.lo), new(big.Int).Mul(a.lo, b.hi), new(big.Int).Mul(a.hi, b.lo), new(big.Int).Mul(a.hi, b.hi)}
		lo, hi := p[0], p[0]
		for _, x := range p[1:] {
			if x.Cmp(lo) < 0 {
				lo = x
			}
			if x.Cmp(hi) > 0 {
				hi = x
			}
		}
		return rng{lo, hi}
	}
	// half-open cases: both nonnegative
	if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() >= 0 {
		return rng{new(big.Int).Mul(a.lo, b.lo), nil}
	}
	return rng{}
}

// polyRange bounds a polynomial; ref, if given, refines atom bounds.
func (tt *Terms) polyRange(t *T, ref func(*T) (rng, bool)) (*big.Int, *big.Int) {
	lo, hi := tt.plainRange(t.monos(), ref)
	if tt.limb && ref == nil {
		if l2, h2, ok := tt.pairRange(t); ok {
			lo, hi = tighten(lo, hi, l2, h2)
		}
		if l2, h2, ok := tt.windowRange(t); ok {
			lo, hi = tighten(lo, hi, l2, h2)
		}
		return lo, hi
	}
	// residue patterns: X - 2^k*shr(Y,k) with X-Y constant lies in a window
	for _, x := range t.ms {
		if len(x.vs) != 1 {
			continue
		}
		v := x.vs[0]
		if v.op == "shr" {
			p := pow2(v.n)
			// coefficient divides? write t = q*(Y - 2^k*shr(Y,k)) + rest, q = -co/2^k
			q := new(big.Int)
			r := new(big.Int)
			q.QuoRem(x.co, p, r)
			if r.Sign() != 0 || q.Sign() == 0 {
				continue
			}
			q.Neg(q)
			y := v.args[0]
			rest := tt.restOf(t, q, y, v, p)
			if rest == nil || len(rest) > len(t.ms)+1 {
				continue
			}
			rl, rh := tt.plainRange(rest, ref)
			w := mulR(rng{q, q}, rng{big0, pow2m(v.n)})
			l2, h2 := addB(rl, w.lo), addB(rh, w.hi)
			lo, hi = tighten(lo, hi, l2, h2)
		}
	}
	return lo, hi
}

// pairRange: t contains c*(shr(A,n) - shr(B,n)); the difference is between
// shr(A-B,n) and one more.
func (tt *Terms) pairRange(t *T) (*big.Int, *big.Int, bool) {
	for i, x := range t.ms {
		if len(x.vs) != 1 || x.vs[0].op != "shr" {
			continue
		}
		for _, y := range t.ms[i+1:] {
			if len(y.vs) != 1 || y.vs[0].op != "shr" || new(big.Int).Add(x.co, y.co).Sign() != 0 {
				continue
			}
			A, B := x.vs[0].args[0], y.vs[0].args[0]
			n := uint(max(x.vs[0].n, y.vs[0].n))
			A = tt.Scale(A, pow2(int(n)-x.vs[0].n))
			B = tt.Scale(B, pow2(int(n)-y.vs[0].n))
			d := tt.Sub(A, B)
			if len(d.monos()) >= len(A.monos())+len(B.monos()) || d.lo == nil || d.hi == nil {
				continue
			}
			w := mulR(rng{x.co, x.co}, rng{new(big.Int).Rsh(d.lo, n), new(big.Int).Add(new(big.Int).Rsh(d.hi, n), big1)})
			rest := tt.Sub(tt.Sub(t, tt.Scale(x.vs[0], x.co)), tt.Scale(y.vs[0], y.co))
			return addB(rest.lo, w.lo), addB(rest.hi, w.hi), true
		}
	}
	return nil, nil, false
}

// windowRange: t contains co*shr(y,n).  With co = -q*2^k, k <= n, the part
// q*(z - 2^k*shr(z,k)), z = shr(y,n-k), lies in q*[0,2^k-1].  The part that
// leaves least is taken out.
func (tt *Terms) windowRange(t *T) (*big.Int, *big.Int, bool) {
	var best []mono
	var win rng
	for _, x := range t.ms {
		if len(x.vs) != 1 || x.vs[0].op != "shr" {
			continue
		}
		v := x.vs[0]
		k := min(int(x.co.TrailingZeroBits()), v.n)
		if k == 0 {
			continue
		}
		q := new(big.Int).Neg(new(big.Int).Rsh(x.co, uint(k)))
		rest := tt.restOf(t, q, tt.Shr(v.args[0], v.n-k), v, pow2(k))
		if len(rest) < len(t.ms) && (best == nil || len(rest) < len(best)) {
			best, win = rest, mulR(rng{q, q}, rng{big0, pow2m(k)})
		}
	}
	if best == nil {
		return nil, nil, false
	}
	r := tt.fromList(best)
	return addB(r.lo, win.lo), addB(r.hi, win.hi), true
}

func tighten(lo, hi, l2, h2 *big.Int) (*big.Int, *big.Int) {
	if l2 != nil && (lo == nil || l2.Cmp(lo) > 0) {
		lo = l2
	}
	if h2 != nil && (hi == nil || h2.Cmp(hi) < 0) {
		hi = h2
	}
	return lo, hi
}

// restOf computes the monomials of t - q*(y - p*v) without creating a term.
func (tt *Terms) restOf(t *T, q *big.Int, y, v *T, p *big.Int) []mono {
	acc := map[string]*mono{}
	add := func(c *big.Int, vs []*T) {
		k := mkey(vs)
		if e := acc[k]; e != nil {
			e.co = new(big.Int).Add(e.co, c)
		} else {
			acc[k] = &mono{new(big.Int).Set(c), vs}
		}
	}
	for _, x := range t.ms {
		add(x.co, x.vs)
	}
	nq := new(big.Int).Neg(q)
	for _, x := range y.monos() {
		add(new(big.Int).Mul(nq, x.co), x.vs)
	}
	add(new(big.Int).Mul(q, p), []*T{v})
	out := []mono{}
	for _, x := range acc {
		if x.co.Sign() != 0 {
			out = append(out, *x)
		}
	}
	return out
}

func (tt *Terms) plainRange(ms []mono, ref func(*T) (rng, bool)) (*big.Int, *big.Int) {
	lo, hi := big0, big0
	for _, x := range ms {
		r := rng{big1, big1}
		i := 0
		for i < len(x.vs) {
			v := x.vs[i]
			k := 1
			for i+k < len(x.vs) && x.vs[i+k] == v {
				k++
			}
			vr := rng{v.lo, v.hi}
			if ref != nil {
				if rr, ok := ref(v); ok {
					vr = rr
				}
			}
			pr := vr
			for j := 1; j < k; j++ {
				pr = mulR(pr, vr)
			}
			if k == 2 && (pr.lo == nil || pr.lo.Sign() < 0) {
				pr.lo = big0
			}
			r = mulR(r, pr)
			i += k
		}
		r = mulR(r, rng{x.co, x.co})
		lo, hi = addB(lo, r.lo), addB(hi, r.hi)
		if lo == nil && hi == nil {
			return nil, nil
		}
	}
	return lo, hi
}

func within(t *T, lo, hi *big.Int) bool {
	return t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0
}

// ---- machine arithmetic ----

// Wrap reduces an exact integer into a machine type.
func (tt *Terms) Wrap(t *T, bits int, signed bool) *T {
	lo, hi := big0, pow2m(bits)
	if signed {
		lo, hi = new(big.Int).Neg(pow2(bits-1)), pow2m(bits-1)
	}
	if within(t, lo, hi) {
		return t
	}
	m := pow2(bits)
	if tt.limb && !t.IsConst() {
		if signed {
			off := tt.Const(pow2(bits - 1))
			return tt.Sub(tt.Field(tt.Add(t, off), bits), off)
		}
		return tt.Field(t, bits)
	}
	// reduce coefficients, strip inner wraps of at least this width
	red := tt.Subst(t, func(a *T) *T {
		if (a.op == "wrap" || a.op == "wraps") && a.n >= bits {
			return a.args[0]
		}
		if a.op == "val" && bits <= 8 {
			a = tt.lastByte(a.args[0])
			if a.op != "byteAt" || bits == 8 {
				return a
			}
		}
		if a.op == "byteAt" && bits < 8 {
			if b := a.args[0]; b.op == "be" && a.n == b.n-1 {
				return b.args[0]
			}
			return a
		}
		return nil
	})
	ms := []mono{}
	for _, x := range red.monos() {
		c := new(big.Int).Mod(x.co, m)
		if c.Sign() != 0 {
			ms = append(ms, mono{c, x.vs})
		}
	}
	red = tt.fromList(ms)
	if within(red, lo, hi) {
		return red
	}
	if red.IsConst() {
		c := new(big.Int).Mod(red.c, m)
		if signed && c.Cmp(hi) > 0 {
			c.Sub(c, m)
		}
		return tt.Const(c)
	}
	if bits == 1 && !signed {
		if l := red.monos(); len(l) > 1 && len(l[0].vs) == 0 {
			return tt.Sub(tt.Int(1), tt.Wrap(tt.fromList(l[1:]), 1, false))
		}
	}
	op := "wrap"
	if signed {
		op = "wraps"
	}
	return tt.Atom(op, "", bits, lo, hi, red)
}

// lastByte: the final byte of a byte string of known length, nil if unknown.
func (tt *Terms) lastByte(b *T) *T {
	if !b.len.IsConst() || b.len.c.Sign() == 0 || !b.len.c.IsInt64() {
		return nil
	}
	n := int(b.len.c.Int64())
	switch b.op {
	case "cat":
		return tt.lastByte(b.args[len(b.args)-1])
	case "sub":
		if !b.args[1].IsConst() {
			return nil
		}
		return tt.byteAtom(b.args[0], int(b.args[1].c.Int64())+n-1)
	case "lit":
		return tt.Int(int64(b.s[n-1]))
	case "byte":
		return b.args[0]
	case "zeros":
		return tt.Int(0)
	case "in", "hash", "be":
		return tt.byteAtom(b, n-1)
	}
	return nil
}

// Shr: arithmetic (floor) shift right by a constant.
func (tt *Terms) Shr(t *T, k int) *T {
	if k == 0 {
		return t
	}
	if t.IsConst() {
		return tt.Const(new(big.Int).Rsh(t.c, uint(k)))
	}
	var lo, hi *big.Int
	if t.lo != nil {
		lo = new(big.Int).Rsh(t.lo, uint(k))
	}
	if t.hi != nil {
		hi = new(big.Int).Rsh(t.hi, uint(k))
	}
	if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
		return tt.Const(lo)
	}
	if t.op == "shr" {
		return tt.Shr(t.args[0], k+t.n)
	}
	if t.op == "field" && k < t.n && !tt.phi {
		return tt.Field(tt.Shr(t.args[0], k), t.n-k)
	}
	if t.op == "val" && k%8 == 0 && t.args[0].len.IsConst() {
		if n := t.args[0].len.c.Int64(); n > int64(k/8) {
			return tt.Val(tt.bsub(t.args[0], tt.Int(0), tt.Int(n-int64(k/8))))
		}
	}
	if lo != nil && hi != nil && lo.Cmp(bi(-1)) == 0 && hi.Sign() == 0 && !tt.limb {
		c := tt.Lt0(t)
		return tt.Choice([]*B{c, tt.BNot(c)}, []*T{tt.Int(-1), tt.Int(0)})
	}
	if tt.phi {
		if j := min(tt.lowZeros(t), k); j > 0 {
			q := make([]mono, 0, len(t.ms))
			for _, x := range t.monos() {
				q = append(q, mono{new(big.Int).Rsh(x.co, uint(j)), x.vs})
			}
			return tt.Shr(tt.fromList(q), k-j)
		}
	}
	// split off the part divisible by 2^k
	p := pow2(k)
	var q, r []mono
	for _, x := range t.monos() {
		m := new(big.Int).Mod(x.co, p)
		if m.Sign() == 0 {
			q = append(q, mono{new(big.Int).Rsh(x.co, uint(k)), x.vs})
		} else if len(x.vs) == 0 && tt.limb && m.Cmp(x.co) != 0 {
			q = append(q, mono{new(big.Int).Rsh(x.co, uint(k)), nil})
			r = append(r, mono{m, nil})
		} else if y := new(big.Int).Rsh(new(big.Int).Add(x.co, pow2(k-1)), uint(k)); tt.limb && y.Sign() != 0 && x.co.BitLen() > k {
			q = append(q, mono{y, x.vs})
			r = append(r, mono{new(big.Int).Sub(x.co, new(big.Int).Lsh(y, uint(k))), x.vs})
		} else {
			r = append(r, x)
		}
	}
	if len(q) > 0 {
		rt := tt.fromList(r)
		return tt.Add(tt.fromList(q), tt.Shr(rt, k))
	}
	if tt.limb {
		// a + shr(b,m) is shr(2^m a + b, m); b may mention what is in a
		var v *T
		for _, x := range t.ms {
			if len(x.vs) == 1 && x.vs[0].op == "shr" && x.co.Cmp(big1) == 0 && (v == nil || v.id < x.vs[0].id) {
				v = x.vs[0]
			}
		}
		if v != nil {
			return tt.Shr(tt.Add(tt.Scale(tt.Sub(t, v), pow2(v.n)), v.args[0]), k+v.n)
		}
		// bits below all others: a + 2^j b with 0 <= a < 2^j
		if r := tt.dropLow(t, k); r != nil {
			return r
		}
	}
	return tt.Atom("shr", "", k, lo, hi, t)
}

// dropLow: shr(a + 2^j b, k) is shr(b, k-j) if 0 <= a < 2^j, j <= k.
func (tt *Terms) dropLow(t *T, k int) *T {
	done := map[int]bool{}
	for _, x := range t.ms {
		j := int(x.co.TrailingZeroBits())
		if j == 0 || j > k || done[j] {
			continue
		}
		done[j] = true
		p := pow2(j)
		var a, b []mono
		for _, y := range t.ms {
			if int(y.co.TrailingZeroBits()) >= j {
				b = append(b, mono{new(big.Int).Rsh(y.co, uint(j)), y.vs})
			} else {
				a = append(a, y)
			}
		}
		if len(a) == 0 || len(b) == 0 {
			continue
		}
		if r := tt.fromList(a); within(r, big0, new(big.Int).Sub(p, big1)) {
			return tt.Shr(tt.fromList(b), k-j)
		}
	}
	return nil
}

func tz(t *T) int {
	r := 1 << 20
	for _, x := range t.monos() {
		z := int(x.co.TrailingZeroBits())
		for _, v := range x.vs {
			if v.op == "wrap" || v.op == "wraps" {
				z += tz(v.args[0])
			}
		}
		if z < r {
			r = z
		}
	}
	return r
}

// ---- bitwise algebra (algebraic normal form with masks) ----

func (tt *Terms) toANF(t *T, w int) []amono {
	if t.IsConst() {
		c := new(big.Int).And(new(big.Int).Mod(t.c, pow2(w)), pow2m(w))
		if c.Sign() == 0 {
			return nil
		}
		return []amono{{c, nil}}
	}
	if t.op == "anf" {
		return t.anf
	}
	mask := pow2m(w)
	if t.hi != nil && t.lo != nil && t.lo.Sign() >= 0 {
		k := t.hi.BitLen()
		if k < w {
			mask = pow2m(k)
		}
	}
	return []amono{{mask, []*T{t}}}
}

func anfAdd(acc map[string]*amono, mask *big.Int, vs []*T) {
	k := mkey(vs)
	if e := acc[k]; e != nil {
		e.mask = new(big.Int).Xor(e.mask, mask)
	} else {
		acc[k] = &amono{new(big.Int).Set(mask), vs}
	}
}

func (tt *Terms) fromANF(acc map[string]*amono, w int) *T {
	var l []amono
	for _, x := range acc {
		if x.mask.Sign() != 0 {
			l = append(l, *x)
		}
	}
	if len(l) == 0 {
		return tt.Const(big0)
	}
	sort.Slice(l, func(i, j int) bool { return lessMono(l[i].vs, l[j].vs) })
	if len(l) == 1 {
		if len(l[0].vs) == 0 {
			return tt.Const(l[0].mask)
		}
		if len(l[0].vs) == 1 {
			v := l[0].vs[0]
			if v.lo != nil && v.hi != nil && v.lo.Sign() >= 0 && l[0].mask.Cmp(pow2m(min(w, v.hi.BitLen()))) == 0 && v.hi.BitLen() <= w {
				return v
			}
		}
	}
	var sb strings.Builder
	sb.WriteString("anf")
	sb.WriteString(strconv.Itoa(w))
	hb := 0
	for _, x := range l {
		sb.WriteByte('^')
		sb.WriteString(x.mask.Text(62))
		sb.WriteByte('&')
		sb.WriteString(mkey(x.vs))
		if x.mask.BitLen() > hb {
			hb = x.mask.BitLen()
		}
	}
	return tt.mk(sb.String(), func() *T {
		return &T{op: "anf", n: w, anf: l, lo: big0, hi: pow2m(hb)}
	})
}

func (tt *Terms) Xor(a, b *T, w int) *T {
	tt.nops++
	if a.IsConst() && b.IsConst() {
		return tt.Const(new(big.Int).Xor(a.c, b.c))
	}
	acc := map[string]*amono{}
	for _, x := range tt.toANF(a, w) {
		anfAdd(acc, x.mask, x.vs)
	}
	for _, x := range tt.toANF(b, w) {
		anfAdd(acc, x.mask, x.vs)
	}
	return tt.fromANF(acc, w)
}

func (tt *Terms) And(a, b *T, w int) *T {
	tt.nops++
	if a.IsConst() && b.IsConst() {
		return tt.Const(new(big.Int).And(a.c, b.c))
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		// low mask: residue
		k := b.c.BitLen()
		if b.c.Sign() > 0 && b.c.Cmp(pow2m(k)) == 0 && a.op != "anf" {
			return tt.Wrap(a, k, false)
		}
	}
	if a == b {
		return a
	}
	x, y := tt.toANF(a, w), tt.toANF(b, w)
	if len(x) > 12 && len(y) > 1 || len(y) > 12 && len(x) > 1 || len(x)*len(y) > 24 {
		// kept as one atom, with the operands' complements taken out
		if r, ok := tt.stripOne(x, a, w); ok {
			return tt.Xor(tt.And(r, b, w), b, w)
		}
		if r, ok := tt.stripOne(y, b, w); ok {
			return tt.Xor(tt.And(a, r, w), a, w)
		}
		return tt.Atom("and", "", w, big0, pow2m(w), sort2(a, b)...)
	}
	acc := map[string]*amono{}
	for _, p := range x {
		for _, q := range y {
			m := new(big.Int).And(p.mask, q.mask)
			if m.Sign() == 0 {
				continue
			}
			anfAdd(acc, m, unionVars(p.vs, q.vs))
		}
	}
	return tt.fromANF(acc, w)
}

// stripOne: t without its all-ones constant.
func (tt *Terms) stripOne(x []amono, t *T, w int) (*T, bool) {
	for _, m := range x {
		if len(m.vs) == 0 && m.mask.Cmp(pow2m(w)) == 0 {
			return tt.Xor(t, tt.Const(m.mask), w), true
		}
	}
	return nil, false
}

func sort2(a, b *T) []*T {
	if a.id > b.id {
		a, b = b, a
	}
	return []*T{a, b}
}

func unionVars(a, b []*T) []*T {
	out := make([]*T, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i].id < b[j].id):
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j].id < a[i].id:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

func (tt *Terms) Or(a, b *T, w int) *T {
	tt.nops++
	if a.IsConst() && b.IsConst() {
		return tt.Const(new(big.Int).Or(a.c, b.c))
	}
	// disjoint bit ranges: addition
	if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		if r := tt.rotPattern(a, b, w); r != nil {
			return r
		}
		if r := tt.rotPattern(b, a, w); r != nil {
			return r
		}
		if a.hi != nil && tz(b) >= a.hi.BitLen() && tz(b) > 0 {
			return tt.Add(a, b)
		}
		if b.hi != nil && tz(a) >= b.hi.BitLen() && tz(a) > 0 {
			return tt.Add(a, b)
		}
	}
	ops := append(append([]*T{}, tt.orOps(a)...), tt.orOps(b)...)
	sort.Slice(ops, func(i, j int) bool { return ops[i].id < ops[j].id })
	k := 0
	for i, o := range ops {
		if i == 0 || o != ops[i-1] {
			ops[k] = o
			k++
		}
	}
	ops = ops[:k]
	if k == 1 {
		return ops[0]
	}
	var r *T
	if len(tt.toANF(a, w))*len(tt.toANF(b, w)) > 64 {
		hb := 0
		for _, o := range ops {
			if o.hi == nil || o.lo == nil || o.lo.Sign() < 0 || o.hi.BitLen() > w {
				hb = w
			} else {
				hb = max(hb, o.hi.BitLen())
			}
		}
		r = tt.Atom("or", "", w, big0, pow2m(hb), ops...)
	} else {
		// a|b = a ^ b ^ (a&b)
		r = tt.Xor(tt.Xor(a, b, w), tt.And(a, b, w), w)
	}
	if !r.IsConst() && r != a && r != b {
		if tt.ors == nil {
			tt.ors = map[int][]*T{}
		}
		tt.ors[r.id] = ops
	}
	return r
}

// orOps: the operands of a value that is a bitwise or.
func (tt *Terms) orOps(t *T) []*T {
	if o := tt.ors[t.id]; o != nil {
		return o
	}
	return []*T{t}
}

func (tt *Terms) Not(a *T, w int) *T { return tt.Xor(a, tt.Const(pow2m(w)), w) }

// rotPattern: wrap(2^k*x) | x>>(w-k)
func (tt *Terms) rotPattern(a, b *T, w int) *T {
	if b.op != "shr" {
		return nil
	}
	x := b.args[0]
	k := w - b.n
	if k <= 0 || k >= w {
		return nil
	}
	if tt.Wrap(tt.Scale(x, pow2(k)), w, false) == a {
		return tt.Rotl(x, k, w)
	}
	return nil
}

func (tt *Terms) Rotl(x *T, k, w int) *T {
	k = ((k % w) + w) % w
	if k == 0 {
		return x
	}
	if x.IsConst() {
		l := new(big.Int).Lsh(x.c, uint(k))
		h := new(big.Int).Rsh(x.c, uint(w-k))
		l.Or(l, h)
		return tt.Const(l.And(l, pow2m(w)))
	}
	if x.op == "rotl" && x.s == strconv.Itoa(w) {
		return tt.Rotl(x.args[0], k+x.n, w)
	}
	if x.op == "anf" && len(x.anf) <= 4 {
		// rotation distributes over xor and and
		acc := map[string]*amono{}
		ok := true
		for _, m := range x.anf {
			if m.mask.Cmp(pow2m(w)) != 0 && len(m.vs) > 0 {
				ok = false
				break
			}
			mask := tt.Rotl(tt.Const(m.mask), k, w).c
			vs := make([]*T, len(m.vs))
			for i, v := range m.vs {
				vs[i] = tt.Rotl(v, k, w)
			}
			sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
			anfAdd(acc, mask, vs)
		}
		if ok {
			return tt.fromANF(acc, w)
		}
	}
	return tt.Atom("rotl", strconv.Itoa(w), k, big0, pow2m(w), x)
}

// ---- modular algebra ----

// Mod reduces modulo a positive constant m; inner reductions by the same m are
// dissolved so that the result is canonical.
func (tt *Terms) Mod(t *T, m *big.Int) *T {
	if within(t, big0, new(big.Int).Sub(m, big1)) {
		return t
	}
	if k := m.BitLen() - 1; k > 0 && k <= 16 && m.Cmp(pow2(k)) == 0 && !tt.limb {
		return tt.LowBits(t, k)
	}
	r := tt.modNorm(t, m)
	if within(r, big0, new(big.Int).Sub(m, big1)) {
		return r
	}
	if r.IsConst() {
		return tt.Const(new(big.Int).Mod(r.c, m))
	}
	return tt.Atom("mod", m.Text(16), 0, big0, new(big.Int).Sub(m, big1), r)
}

// modNorm: canonical representative polynomial of t modulo m.
func (tt *Terms) modNorm(t *T, m *big.Int) *T {
	ms := m.Text(16)
	for i := 0; i < 20; i++ {
		n := tt.Subst(t, func(a *T) *T {
			if a.op == "mod" && a.s == ms {
				return a.args[0]
			}
			return nil
		})
		if n == t {
			break
		}
		t = n
	}
	acc := map[string]*mono{}
	for _, x := range t.monos() {
		c := new(big.Int).Mod(x.co, m)
		if c.Sign() == 0 {
			continue
		}
		vs := cancelInv(x.vs, ms)
		k := mkey(vs)
		if e := acc[k]; e != nil {
			e.co.Add(e.co, c)
			e.co.Mod(e.co, m)
		} else {
			acc[k] = &mono{c, vs}
		}
	}
	return tt.fromMonos(acc)
}

// cancelInv removes v * inv(v) pairs modulo ms.
func cancelInv(vs []*T, ms string) []*T {
	has := false
	for _, v := range vs {
		if v.op == "inv" && v.s == ms {
			has = true
		}
	}
	if !has {
		return vs
	}
	out := append([]*T{}, vs...)
	for {
		hit := false
		for i, v := range out {
			if v.op != "inv" || v.s != ms {
				continue
			}
			for j, w := range out {
				if w == v.args[0] {
					var n []*T
					for k, x := range out {
						if k != i && k != j {
							n = append(n, x)
						}
					}
					out = n
					hit = true
					break
				}
			}
			if hit {
				break
			}
		}
		if !hit {
			return out
		}
	}
}

// Inv: inverse modulo a prime (0 for 0).
func (tt *Terms) Inv(t *T, m *big.Int) *T {
	r := tt.modNorm(t, m)
	if r.IsConst() {
		v := new(big.Int).ModInverse(r.c, m)
		if v == nil {
			v = new(big.Int)
		}
		return tt.Const(v)
	}
	if r.op == "inv" && r.s == m.Text(16) {
		return tt.Mod(r.args[0], m)
	}
	// monomial: product of inverses
	if len(r.monos()) == 1 {
		x := r.monos()[0]
		out := tt.Const(new(big.Int).ModInverse(x.co, m))
		for _, v := range x.vs {
			if v.op == "inv" && v.s == m.Text(16) {
				out = tt.Mul(out, v.args[0])
			} else {
				out = tt.Mul(out, tt.Atom("inv", m.Text(16), 0, big0, new(big.Int).Sub(m, big1), v))
			}
		}
		return tt.Mod(out, m)
	}
	// canonical sign: leading coefficient at most m/2
	l := r.monos()[len(r.monos())-1]
	half := new(big.Int).Rsh(m, 1)
	if l.co.Cmp(half) > 0 {
		return tt.Mod(tt.Neg(tt.Inv(tt.modNorm(tt.Neg(r), m), m)), m)
	}
	return tt.Atom("inv", m.Text(16), 0, big0, new(big.Int).Sub(m, big1), r)
}

// ---- printing ----

func (t *T) String() string { return t.str(0) }

func (t *T) str(d int) string {
	if t == nil {
		return "_"
	}
	if d > 9 {
		return "…"
	}
	switch t.op {
	case "const":
		if t.c.BitLen() > 64 {
			return "0x" + t.c.Text(16)
		}
		return t.c.String()
	case "poly":
		var ps []string
		for i, m := range t.ms {
			if i > 24 {
				ps = append(ps, fmt.Sprintf("…(%d terms)", len(t.ms)))
				break
			}
			var f []string
			if len(m.vs) == 0 || m.co.Cmp(big1) != 0 {
				if m.co.BitLen() > 64 {
					f = append(f, "0x"+m.co.Text(16))
				} else {
					f = append(f, m.co.String())
				}
			}
			for _, v := range m.vs {
				f = append(f, v.str(d+1))
			}
			ps = append(ps, strings.Join(f, "*"))
		}
		return "(" + strings.Join(ps, " + ") + ")"
	case "anf":
		var ps []string
		for i, m := range t.anf {
			if i > 12 {
				ps = append(ps, "…")
				break
			}
			var f []string
			if len(m.vs) == 0 || m.mask.Cmp(pow2m(t.n)) != 0 {
				f = append(f, "0x"+m.mask.Text(16))
			}
			for _, v := range m.vs {
				f = append(f, v.str(d+1))
			}
			ps = append(ps, strings.Join(f, "&"))
		}
		return "(" + strings.Join(ps, " ^ ") + ")"
	case "choice", "phi":
		var ps []string
		for i, a := range t.args {
			ps = append(ps, t.cs[i].str(d+2)+" ? "+a.str(d+1))
		}
		return "{" + strings.Join(ps, "; ") + "}"
	case "mod":
		return "(" + t.args[0].str(d+1) + " mod " + modName(t.s) + ")"
	case "inv":
		return "1/" + t.args[0].str(d+1)
	case "lit":
		return fmt.Sprintf("%x", t.s)
	}
	var ps []string
	for _, a := range t.args {
		ps = append(ps, a.str(d+1))
	}
	s := t.op
	if t.s != "" {
		s += ":" + t.s
	}
	if t.n != 0 {
		s += ":" + strconv.Itoa(t.n)
	}
	if len(ps) > 0 {
		s += "(" + strings.Join(ps, ", ") + ")"
	}
	return s
}

var modNames = map[string]string{}

func modName(s string) string {
	if n := modNames[s]; n != "" {
		return n
	}
	return "0x" + s
}

// Field: t mod 2^k as an atom, limb mode only.
func (tt *Terms) Field(t *T, k int) *T {
	var ms []mono
	for _, x := range t.monos() {
		if int(x.co.TrailingZeroBits()) >= k && x.co.Sign() != 0 {
			continue
		}
		if len(x.vs) == 0 {
			x.co = new(big.Int).Mod(x.co, pow2(k))
		}
		ms = append(ms, x)
	}
	t = tt.fromList(ms)
	if within(t, big0, pow2m(k)) {
		return t
	}
	if t.IsConst() {
		return tt.Const(new(big.Int).Mod(t.c, pow2(k)))
	}
	if t.op == "field" && t.n >= k && !tt.phi {
		return tt.Field(t.args[0], k)
	}
	if l := t.monos(); len(l) == 2 && len(l[0].vs) == 0 && len(l[1].vs) == 1 && l[1].co.Cmp(big1) == 0 && !tt.phi {
		if x := l[1].vs[0]; x.op == "field" && x.n >= k {
			return tt.Field(tt.Add(x.args[0], tt.Const(l[0].co)), k)
		}
	}
	if tt.phi && t.op == "poly" {
		// a word that wrapped and comes back into range
		u := tt.Subst(t, func(a *T) *T {
			if a.op == "field" && a.n >= k {
				return a.args[0]
			}
			return nil
		})
		if u != t && within(u, big0, pow2m(k)) {
			return u
		}
	}
	if j := tt.lowZeros(t); j > 0 && tt.phi {
		q := make([]mono, 0, len(t.ms))
		for _, x := range t.monos() {
			q = append(q, mono{new(big.Int).Rsh(x.co, uint(j)), x.vs})
		}
		return tt.Scale(tt.Field(tt.fromList(q), k-j), pow2(j))
	}
	return tt.Atom("field", "", k, big0, pow2m(k), t)
}

// lowZeros: the power of two that divides all coefficients of t.
func (tt *Terms) lowZeros(t *T) int {
	j := -1
	for _, x := range t.monos() {
		if n := int(x.co.TrailingZeroBits()); j < 0 || n < j {
			j = n
		}
	}
	return max(j, 0)
}

// opaque: a sum of input bytes as one atom, so that its parts do not take
// different ways through later shifts.
func (tt *Terms) opaque(t *T) *T {
	if t.op != "poly" || t.lo == nil || t.hi == nil || t.lo.Sign() < 0 {
		return t
	}
	for _, x := range t.ms {
		if len(x.vs) != 1 || x.co.Sign() < 0 {
			return t
		}
		v := x.vs[0]
		if v.op == "shr" {
			v = v.args[0]
		}
		if v.op != "byteAt" {
			return t
		}
	}
	k := t.hi.BitLen()
	return tt.Atom("field", "", k, big0, t.hi, t)
}

// foldWindow: the polynomial c + z - 2^k*shr(z,k) as c + field.
func (tt *Terms) foldWindow(ms []mono) *T {
	for _, x := range ms {
		if len(x.vs) != 1 || x.vs[0].op != "shr" || x.co.Sign() >= 0 {
			continue
		}
		v := x.vs[0]
		k := int(x.co.TrailingZeroBits())
		if k == 0 || x.co.BitLen() != k+1 {
			continue
		}
		if k <= v.n {
			z := tt.Shr(v.args[0], v.n-k)
			rest := tt.restOf(&T{op: "poly", ms: ms}, big1, z, v, pow2(k))
			if len(rest) == 0 {
				return tt.Field(z, k)
			}
			if len(rest) == 1 && len(rest[0].vs) == 0 {
				return tt.Add(tt.Field(z, k), tt.Const(rest[0].co))
			}
			continue
		}
		// low bits the shift did not depend on
		y := tt.Scale(v.args[0], pow2(k-v.n))
		rest := tt.restOf(&T{op: "poly", ms: ms}, big1, y, v, pow2(k))
		if len(rest)+len(y.monos()) > len(ms)+1 {
			continue
		}
		r := tt.fromList(rest)
		for _, off := range []*T{tt.Int(0), tt.Const(pow2(k - 1))} {
			if a := tt.Add(r, off); within(a, big0, pow2m(k-v.n)) {
				return tt.Sub(tt.Field(tt.Add(y, a), k), off)
			}
		}
	}
	return nil
}

// LowBits: t mod 2^k for any integer t.
func (tt *Terms) LowBits(t *T, k int) *T {
	if within(t, big0, pow2m(k)) {
		return t
	}
	if t.IsConst() {
		return tt.Const(new(big.Int).Mod(t.c, pow2(k)))
	}
	if t.op == "byteAt" && t.args[0].op == "be" && t.n == t.args[0].n-1 && k <= 8 {
		return tt.LowBits(t.args[0].args[0], k)
	}
	if k == 1 && t.op == "mod" {
		return tt.Atom("wrap", "", 1, big0, big1, t)
	}
	if tt.limb {
		return tt.Field(t, k)
	}
	return tt.Wrap(t, k, false)
}
