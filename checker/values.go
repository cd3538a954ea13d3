package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract values: *T (integers, strings, byte arrays, big.Int contents),
// *B (booleans) and the structured values below.
type Val interface{}

type Obj struct {
	id   int
	name string
	typ  types.Type
	pos  token.Pos
	sum  bool // summary object (loop-carried)
	view bool // copy made for an unsafe view
}

type Sel struct {
	i int
	t *T
}

// FltV: a known floating-point number.
type FltV float64

type PtrV struct {
	o    *Obj
	path []Sel
	neg  bool
}

type SliceV struct {
	o           *Obj
	path        []Sel
	off, ln, cp *T
	nilc        *B
}

type AggV struct{ el []Val }

type TupleV struct{ el []Val }

type IfaceV struct {
	typ   types.Type
	model string
	v     Val
}

type FuncV struct {
	fn   *ssa.Function
	bind []Val
}

type ChoiceV struct {
	cs []*B
	vs []Val
}

type UnkV struct {
	why string
}

type MapV struct{ o *Obj }

// UnsafeV is an unsafe.Pointer made from a pointer of type typ.
type UnsafeV struct {
	v   Val
	typ types.Type
}

type HashV struct {
	alg  string
	key  *T
	data *T
}

type StreamV struct {
	key, iv, pos *T
}

// OpaqueV: a library value known only by the terms it was made from.
type OpaqueV struct {
	kind string
	t    *T
}

func isByteT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isByteArray(t types.Type) (int64, bool) {
	a, ok := t.Underlying().(*types.Array)
	if ok && isByteT(a.Elem()) {
		return a.Len(), true
	}
	return 0, false
}

func isNamed(t types.Type, path, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == path
}

func isBigInt(t types.Type) bool { return isNamed(t, "math/big", "Int") }

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// intType: bits, signed, isInteger.
func intType(t types.Type) (int, bool, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func typeRange(bits int, signed bool) (*big.Int, *big.Int) {
	if signed {
		return new(big.Int).Neg(pow2(bits - 1)), pow2m(bits - 1)
	}
	return big0, pow2m(bits)
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (in *Interp) zero(t types.Type) Val {
	tt := in.tt
	if isBigInt(t) {
		return tt.Int(0)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if _, _, ok := intType(t); ok {
			return tt.Int(0)
		}
		if isStringT(t) {
			return tt.BEmpty()
		}
		if isBoolT(t) {
			return tt.False
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return &PtrV{}
		}
		return &UnkV{"float"}
	case *types.Pointer, *types.Chan:
		return &PtrV{}
	case *types.Slice:
		return in.nilSlice()
	case *types.Map:
		return &MapV{}
	case *types.Interface:
		return &IfaceV{}
	case *types.Signature:
		return &FuncV{}
	case *types.Struct:
		a := &AggV{}
		for i := 0; i < u.NumFields(); i++ {
			a.el = append(a.el, in.zero(u.Field(i).Type()))
		}
		return a
	case *types.Array:
		if isByteT(u.Elem()) {
			return tt.BZeros(tt.Int(u.Len()))
		}
		n := int(u.Len())
		if n > 1<<16 {
			return &UnkV{"large array"}
		}
		a := &AggV{el: make([]Val, n)}
		if n > 0 {
			z := in.zero(u.Elem())
			for i := range a.el {
				a.el[i] = z
			}
		}
		return a
	case *types.Tuple:
		a := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			a.el = append(a.el, in.zero(u.At(i).Type()))
		}
		return a
	}
	return &UnkV{"zero of " + t.String()}
}

func (in *Interp) nilSlice() *SliceV {
	z := in.tt.Int(0)
	return &SliceV{off: z, ln: z, cp: z, nilc: in.tt.True}
}

// fresh unknown value of a type
func (in *Interp) unknown(t types.Type, why string) Val {
	tt := in.tt
	if isBigInt(t) {
		return tt.Fresh("unk:"+why, nil, nil)
	}
	if bits, s, ok := intType(t); ok {
		lo, hi := typeRange(bits, s)
		return tt.Fresh("unk:"+why, lo, hi)
	}
	if isBoolT(t) {
		return tt.Var(tt.Fresh("unk:"+why, nil, nil))
	}
	if isStringT(t) {
		return tt.BIn("unk:"+why+itoa(tt.next()), tt.Fresh("unk:len:"+why, big0, pow2m(62)))
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := &AggV{}
		for i := 0; i < u.NumFields(); i++ {
			a.el = append(a.el, in.unknown(u.Field(i).Type(), why))
		}
		return a
	case *types.Array:
		if isByteT(u.Elem()) {
			return tt.BIn("unk:"+why+itoa(tt.next()), tt.Int(u.Len()))
		}
		if u.Len() <= 1024 {
			a := &AggV{}
			for i := int64(0); i < u.Len(); i++ {
				a.el = append(a.el, in.unknown(u.Elem(), why))
			}
			return a
		}
	case *types.Tuple:
		a := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			a.el = append(a.el, in.unknown(u.At(i).Type(), why))
		}
		return a
	}
	return &UnkV{why}
}

func (tt *Terms) next() int { tt.fresh++; return tt.fresh }

// ---- equality and merging ----

func samePath(a, b []Sel) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func same(a, b Val) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *PtrV:
		y, ok := b.(*PtrV)
		return ok && x.o == y.o && samePath(x.path, y.path)
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && x.o == y.o && samePath(x.path, y.path) && x.off == y.off && x.ln == y.ln && x.cp == y.cp && x.nilc == y.nilc
	case *AggV:
		y, ok := b.(*AggV)
		if !ok || len(x.el) != len(y.el) {
			return false
		}
		for i := range x.el {
			if !same(x.el[i], y.el[i]) {
				return false
			}
		}
		return true
	case *TupleV:
		y, ok := b.(*TupleV)
		if !ok || len(x.el) != len(y.el) {
			return false
		}
		for i := range x.el {
			if !same(x.el[i], y.el[i]) {
				return false
			}
		}
		return true
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok || x.model != y.model {
			return false
		}
		if (x.typ == nil) != (y.typ == nil) || (x.typ != nil && !types.Identical(x.typ, y.typ)) {
			return false
		}
		if x.v == nil || y.v == nil {
			return x.v == nil && y.v == nil
		}
		return same(x.v, y.v)
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok || x.fn != y.fn || len(x.bind) != len(y.bind) {
			return false
		}
		for i := range x.bind {
			if !same(x.bind[i], y.bind[i]) {
				return false
			}
		}
		return true
	case *ChoiceV:
		y, ok := b.(*ChoiceV)
		if !ok || len(x.cs) != len(y.cs) {
			return false
		}
		for i := range x.cs {
			if x.cs[i] != y.cs[i] || !same(x.vs[i], y.vs[i]) {
				return false
			}
		}
		return true
	case *HashV:
		y, ok := b.(*HashV)
		return ok && *x == *y
	case *StreamV:
		y, ok := b.(*StreamV)
		return ok && *x == *y
	case *OpaqueV:
		y, ok := b.(*OpaqueV)
		return ok && *x == *y
	case *MapV:
		y, ok := b.(*MapV)
		return ok && x.o == y.o
	}
	return false
}

type galt struct {
	g *B
	v Val
}

// mergeV selects among values by disjoint guards that cover the current path.
func (in *Interp) mergeV(cs []*B, vs []Val) Val {
	tt := in.tt
	var g []galt
	add := func(c *B, v Val) {
		if c == tt.False {
			return
		}
		for i := range g {
			if same(g[i].v, v) {
				g[i].g = tt.BOr(g[i].g, c)
				return
			}
		}
		g = append(g, galt{c, v})
	}
	for i, v := range vs {
		if cv, ok := v.(*ChoiceV); ok {
			for j := range cv.cs {
				add(tt.BAnd(cs[i], cv.cs[j]), cv.vs[j])
			}
			continue
		}
		add(cs[i], v)
	}
	if len(g) == 0 {
		return &UnkV{"dead"}
	}
	if len(g) == 1 {
		return g[0].v
	}
	gs := make([]*B, len(g))
	for i := range g {
		gs[i] = g[i].g
	}
	switch x := g[0].v.(type) {
	case *T:
		var ts []*T
		for _, a := range g {
			t, ok := a.v.(*T)
			if !ok {
				break
			}
			ts = append(ts, t)
		}
		if len(ts) == len(g) {
			if in.bitSelect && len(ts) == 2 && !isBytes(ts[0]) {
				if r := in.linearSelect(gs, ts); r != nil {
					return r
				}
			}
			return tt.Choice(gs, ts)
		}
	case *B:
		r := tt.False
		for _, a := range g {
			b, ok := a.v.(*B)
			if !ok {
				return &UnkV{"mixed merge"}
			}
			r = tt.BOr(r, tt.BAnd(a.g, b))
		}
		return r
	case *AggV:
		n := len(x.el)
		ok := true
		for _, a := range g {
			y, k := a.v.(*AggV)
			if !k || len(y.el) != n {
				ok = false
			}
		}
		if ok {
			out := &AggV{el: make([]Val, n)}
			for i := 0; i < n; i++ {
				l := make([]Val, len(g))
				for j := range g {
					l[j] = g[j].v.(*AggV).el[i]
				}
				out.el[i] = in.mergeV(gs, l)
			}
			return out
		}
	case *TupleV:
		n := len(x.el)
		out := &TupleV{el: make([]Val, n)}
		for i := 0; i < n; i++ {
			l := make([]Val, len(g))
			for j := range g {
				l[j] = g[j].v.(*TupleV).el[i]
			}
			out.el[i] = in.mergeV(gs, l)
		}
		return out
	case *SliceV:
		ok := true
		for _, a := range g {
			y, k := a.v.(*SliceV)
			if !k || y.o != x.o || !samePath(x.path, y.path) {
				ok = false
			}
		}
		if ok {
			var o, l, c []*T
			nc := tt.False
			for _, a := range g {
				y := a.v.(*SliceV)
				o, l, c = append(o, y.off), append(l, y.ln), append(c, y.cp)
				nc = tt.BOr(nc, tt.BAnd(a.g, y.nilc))
			}
			return &SliceV{x.o, x.path, tt.Choice(gs, o), tt.Choice(gs, l), tt.Choice(gs, c), nc}
		}
	case *IfaceV:
		if x.v == nil {
			break
		}
		ok := true
		for _, a := range g {
			y, k := a.v.(*IfaceV)
			if !k || y.model != x.model || y.v == nil || (x.typ == nil) != (y.typ == nil) || (x.typ != nil && !types.Identical(x.typ, y.typ)) {
				ok = false
			}
		}
		if ok && x.typ != nil {
			var l []Val
			for _, a := range g {
				l = append(l, a.v.(*IfaceV).v)
			}
			return &IfaceV{x.typ, x.model, in.mergeV(gs, l)}
		}
	case *HashV:
		ok := true
		var ts []*T
		for _, a := range g {
			y, k := a.v.(*HashV)
			if !k || y.alg != x.alg || y.key != x.key {
				ok = false
				break
			}
			ts = append(ts, y.data)
		}
		if ok {
			return &HashV{x.alg, x.key, tt.Choice(gs, ts)}
		}
	}
	c := &ChoiceV{}
	for _, a := range g {
		c.cs = append(c.cs, a.g)
		c.vs = append(c.vs, a.v)
	}
	return c
}

// linearSelect: guard is a literal "b = 0" of a 0/1 term: b*x1 + (1-b)*x0.
func (in *Interp) linearSelect(gs []*B, ts []*T) *T {
	tt := in.tt
	bitOf := func(g *B) (*T, bool) { // returns bit term, and whether g means bit==1
		if g.isTerm() || !g.hi.isTerm() || !g.lo.isTerm() || g.v.op != "eq0" {
			return nil, false
		}
		p := g.v.args[0]
		if within(p, big0, big1) {
			return p, g.hi != tt.True
		}
		return nil, false
	}
	b, one := bitOf(gs[0])
	if b == nil {
		return nil
	}
	x1, x0 := ts[0], ts[1]
	if !one {
		x1, x0 = x0, x1
	}
	return tt.Add(x0, tt.Mul(b, tt.Sub(x1, x0)))
}

// alts flattens a value into feasible guarded alternatives.
func (in *Interp) alts(v Val, pc *B) []galt {
	tt := in.tt
	switch x := v.(type) {
	case *ChoiceV:
		var out []galt
		for i := range x.cs {
			if in.feasible(tt.BAnd(pc, x.cs[i])) {
				out = append(out, galt{x.cs[i], x.vs[i]})
			}
		}
		if len(out) == 1 {
			out[0].g = tt.True
		}
		return out
	case *T:
		if x.op == "choice" {
			var out []galt
			for i := range x.cs {
				if in.feasible(tt.BAnd(pc, x.cs[i])) {
					out = append(out, galt{x.cs[i], x.args[i]})
				}
			}
			if len(out) == 1 {
				out[0].g = tt.True
			}
			return out
		}
	}
	return []galt{{tt.True, v}}
}

// res simplifies an integer/bytes term under pc: drops dead alternatives and
// replaces terms fixed by the path facts.
func (in *Interp) res(t *T, pc *B) *T {
	tt := in.tt
	if t == nil || t.op == "const" || t.op == "lit" {
		return t
	}
	if t.op == "choice" {
		as := in.alts(t, pc)
		if len(as) == 0 {
			return t
		}
		if len(as) == 1 {
			return in.res(as[0].v.(*T), pc)
		}
		if len(as) < len(t.args) {
			var cs []*B
			var vs []*T
			for _, a := range as {
				cs = append(cs, a.g)
				vs = append(vs, a.v.(*T))
			}
			t = tt.Choice(cs, vs)
		}
		if isBytes(t) {
			return t
		}
	}
	if isBytes(t) {
		return t
	}
	lo, hi := in.rangeOf(t, pc)
	if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
		return tt.Const(lo)
	}
	f := in.facts(pc)
	if f == nil || len(f.fixed) == 0 {
		return t
	}
	return tt.Subst(t, func(a *T) *T {
		if c, ok := f.fixed[a.id]; ok {
			return tt.Const(c)
		}
		if a.op == "choice" {
			as := in.alts(a, pc)
			if len(as) == 1 {
				return as[0].v.(*T)
			}
		}
		return nil
	})
}

func (in *Interp) resB(t *T, pc *B) *T { return in.res(t, pc) }

// resV simplifies any value under pc.
func (in *Interp) resV(v Val, pc *B) Val {
	switch x := v.(type) {
	case *T:
		return in.res(x, pc)
	case *ChoiceV:
		as := in.alts(x, pc)
		if len(as) == 1 {
			return as[0].v
		}
		if len(as) < len(x.cs) && len(as) > 0 {
			c := &ChoiceV{}
			for _, a := range as {
				c.cs = append(c.cs, a.g)
				c.vs = append(c.vs, a.v)
			}
			return c
		}
	case *B:
		return in.decide(x, pc)
	}
	return v
}

// ---- path facts ----

type Facts struct {
	rng   map[int]rng // by id of the non-constant part of a linear form
	fixed map[int]*big.Int
	terms map[int]*T
}

var bottomFacts = &Facts{}

// splitConst: p = q + c with q without constant term and positive leading sign.
func (tt *Terms) splitConst(p *T) (q *T, c *big.Int, neg bool) {
	ms := p.monos()
	c = big0
	if len(ms) > 0 && len(ms[0].vs) == 0 {
		c = ms[0].co
	}
	q = p
	if c.Sign() != 0 {
		q = tt.Lin(big1, p, bi(-1), tt.Const(c))
	}
	qm := q.monos()
	if len(qm) > 0 && qm[len(qm)-1].co.Sign() < 0 {
		q = tt.Neg(q)
		neg = true
	}
	return
}

func (in *Interp) meetLit(f *Facts, v *T, pos bool) *Facts {
	tt := in.tt
	if f == bottomFacts {
		return f
	}
	if v.op != "lt0" && v.op != "eq0" {
		return f
	}
	p := v.args[0]
	q, c, neg := tt.splitConst(p)
	// p = (+/-q) + c
	var lo, hi *big.Int
	excl := (*big.Int)(nil)
	switch {
	case v.op == "lt0" && pos: // ±q + c <= -1
		hi = new(big.Int).Sub(bi(-1), c)
	case v.op == "lt0": // ±q + c >= 0
		lo = new(big.Int).Neg(c)
	case pos:
		lo = new(big.Int).Neg(c)
		hi = lo
	default:
		excl = new(big.Int).Neg(c)
	}
	if neg {
		nl, nh := (*big.Int)(nil), (*big.Int)(nil)
		if hi != nil {
			nl = new(big.Int).Neg(hi)
		}
		if lo != nil {
			nh = new(big.Int).Neg(lo)
		}
		lo, hi = nl, nh
		if excl != nil {
			excl = new(big.Int).Neg(excl)
		}
	}
	cur, ok := f.rng[q.id]
	if !ok {
		cur = rng{q.lo, q.hi}
	}
	// what the other facts say about q
	if q.op == "poly" {
		l2, h2 := tt.polyRange(q, in.refOf(f))
		cur.lo, cur.hi = tighten(cur.lo, cur.hi, l2, h2)
	}
	nl, nh := tighten(cur.lo, cur.hi, lo, hi)
	if excl != nil {
		if nl != nil && nl.Cmp(excl) == 0 {
			nl = new(big.Int).Add(nl, big1)
		}
		if nh != nil && nh.Cmp(excl) == 0 {
			nh = new(big.Int).Sub(nh, big1)
		}
	}
	if nl != nil && nh != nil && nl.Cmp(nh) > 0 {
		return bottomFacts
	}
	n := &Facts{rng: map[int]rng{}, fixed: map[int]*big.Int{}, terms: map[int]*T{}}
	for k, x := range f.rng {
		n.rng[k] = x
		n.terms[k] = f.terms[k]
	}
	for k, x := range f.fixed {
		n.fixed[k] = x
	}
	set := func(q *T, l, h *big.Int) {
		n.rng[q.id] = rng{l, h}
		n.terms[q.id] = q
		if q.isAtom() && l != nil && h != nil && l.Cmp(h) == 0 {
			n.fixed[q.id] = l
		}
	}
	set(q, nl, nh)
	// a single scaled atom
	if q.op == "poly" && len(q.ms) == 1 && len(q.ms[0].vs) == 1 {
		a, k := q.ms[0].vs[0], q.ms[0].co
		var al, ah *big.Int
		if nl != nil {
			al = new(big.Int).Neg(floorDiv(new(big.Int).Neg(nl), k))
		}
		if nh != nil {
			ah = floorDiv(nh, k)
		}
		cl, ch := a.lo, a.hi
		if r, ok := n.rng[a.id]; ok {
			cl, ch = r.lo, r.hi
		}
		cl, ch = tighten(cl, ch, al, ah)
		if cl != nil && ch != nil && cl.Cmp(ch) > 0 {
			return bottomFacts
		}
		set(a, cl, ch)
	}
	// a difference of atoms bounded: propagate to each atom
	if q.op == "poly" && len(q.ms) <= 4 && len(q.ms) > 1 {
		for _, m := range q.ms {
			if len(m.vs) != 1 {
				continue
			}
			a := m.vs[0]
			rest := tt.Lin(big1, q, new(big.Int).Neg(m.co), a)
			rl, rh := tt.polyRange(rest, in.refOf(f))
			// co*a = q - rest
			tl, th := addB(nl, negB(rh)), addB(nh, negB(rl))
			if m.co.Sign() < 0 {
				tl, th = negB(th), negB(tl)
			}
			k := new(big.Int).Abs(m.co)
			var al, ah *big.Int
			if tl != nil {
				al = new(big.Int).Neg(floorDiv(new(big.Int).Neg(tl), k))
			}
			if th != nil {
				ah = floorDiv(th, k)
			}
			if al == nil && ah == nil {
				continue
			}
			cl, ch := a.lo, a.hi
			if r, ok := n.rng[a.id]; ok {
				cl, ch = r.lo, r.hi
			}
			cl, ch = tighten(cl, ch, al, ah)
			if cl != nil && ch != nil && cl.Cmp(ch) > 0 {
				return bottomFacts
			}
			set(a, cl, ch)
		}
	}
	return n
}

func negB(a *big.Int) *big.Int {
	if a == nil {
		return nil
	}
	return new(big.Int).Neg(a)
}

func (in *Interp) refOf(f *Facts) func(*T) (rng, bool) {
	return func(a *T) (rng, bool) {
		r, ok := f.rng[a.id]
		if !ok && in.tt.phi {
			r, ok = in.partRange(f, a)
		}
		return r, ok
	}
}

// partRange: the range of some bits of an atom with a known range.
func (in *Interp) partRange(f *Facts, a *T) (rng, bool) {
	if a.op != "field" && a.op != "shr" {
		return rng{}, false
	}
	x := a.args[0]
	r, ok := f.rng[x.id]
	if !ok && x.isAtom() {
		r, ok = in.partRange(f, x)
	}
	if !ok || r.lo == nil || r.hi == nil || r.lo.Sign() < 0 {
		return rng{}, false
	}
	k := uint(a.n)
	l, h := new(big.Int).Rsh(r.lo, k), new(big.Int).Rsh(r.hi, k)
	if a.op == "shr" {
		return rng{l, h}, true
	}
	if l.Cmp(h) != 0 {
		return rng{}, false
	}
	m := pow2m(int(k))
	return rng{new(big.Int).And(r.lo, m), new(big.Int).And(r.hi, m)}, true
}

// splitRange: the range of t under pc, by cases over the conditions of pc
// on the same values.
func (in *Interp) splitRange(t *T, pc *B, n int) (*big.Int, *big.Int) {
	lo, hi := in.rangeOf(t, pc)
	if n == 0 || pc == in.tt.True || t.IsConst() {
		return lo, hi
	}
	tt := in.tt
	base := map[int]bool{}
	root := func(a *T) int {
		for (a.op == "field" || a.op == "shr") && a.args[0].isAtom() {
			a = a.args[0]
		}
		return a.id
	}
	for _, x := range t.monos() {
		for _, v := range x.vs {
			base[root(v)] = true
		}
	}
	for _, v := range tt.Support(pc) {
		if v.op != "lt0" && v.op != "eq0" {
			continue
		}
		rel := false
		for _, x := range v.args[0].monos() {
			for _, y := range x.vs {
				rel = rel || base[root(y)]
			}
		}
		if !rel {
			continue
		}
		c := tt.Var(v)
		a, b := tt.BAnd(pc, c), tt.BAnd(pc, tt.BNot(c))
		if a == pc || b == pc {
			continue
		}
		l0, h0 := in.splitRange(t, a, n-1)
		l1, h1 := in.splitRange(t, b, n-1)
		lo, hi = tighten(lo, hi, minB(l0, l1), maxB(h0, h1))
	}
	return lo, hi
}

// fits: t lies between lo and hi under pc.
func (in *Interp) fits(t *T, pc *B, lo, hi *big.Int) bool {
	for n := 0; n < 3; n++ {
		l, h := in.splitRange(t, pc, n)
		if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
			return true
		}
	}
	return false
}

var emptyFacts = &Facts{rng: map[int]rng{}, fixed: map[int]*big.Int{}, terms: map[int]*T{}}

// facts: interval facts implied by a condition (join over its paths).
func (in *Interp) facts(b *B) *Facts {
	tt := in.tt
	if b == tt.True {
		return emptyFacts
	}
	if b == tt.False {
		return bottomFacts
	}
	if f := in.factMemo[b.id]; f != nil {
		return f
	}
	h := in.meetLit(in.facts(b.hi), b.v, true)
	l := in.meetLit(in.facts(b.lo), b.v, false)
	var r *Facts
	switch {
	case h == bottomFacts:
		r = l
	case l == bottomFacts:
		r = h
	default:
		r = &Facts{rng: map[int]rng{}, fixed: map[int]*big.Int{}, terms: map[int]*T{}}
		for k, x := range h.rng {
			y, ok := l.rng[k]
			if !ok {
				continue
			}
			z := rng{minB(x.lo, y.lo), maxB(x.hi, y.hi)}
			r.rng[k] = z
			r.terms[k] = h.terms[k]
			if z.lo != nil && z.hi != nil && z.lo.Cmp(z.hi) == 0 && h.terms[k].isAtom() {
				r.fixed[k] = z.lo
			}
		}
	}
	if in.factCost += 8 + len(r.rng) + len(r.fixed); in.factCost > 12000000 {
		in.factMemo, in.factCost = map[int]*Facts{}, 0
	}
	in.factMemo[b.id] = r
	return r
}

func (in *Interp) feasible(b *B) bool {
	if b == in.tt.False {
		return false
	}
	return in.facts(b) != bottomFacts
}

func (in *Interp) rangeOf(t *T, pc *B) (*big.Int, *big.Int) {
	tt := in.tt
	if t.IsConst() {
		return t.c, t.c
	}
	lo, hi := t.lo, t.hi
	f := in.facts(pc)
	if f == bottomFacts || len(f.rng) == 0 {
		return lo, hi
	}
	if t.op == "choice" {
		var l, h *big.Int
		first := true
		for _, a := range in.alts(t, pc) {
			al, ah := in.rangeOf(a.v.(*T), tt.BAnd(pc, a.g))
			if first {
				l, h, first = al, ah, false
			} else {
				l, h = minB(l, al), maxB(h, ah)
			}
		}
		return tighten(lo, hi, l, h)
	}
	q, c, neg := tt.splitConst(t)
	if r, ok := f.rng[q.id]; ok {
		l, h := r.lo, r.hi
		if neg {
			l, h = negB(h), negB(l)
		}
		lo, hi = tighten(lo, hi, addB(l, c), addB(h, c))
	}
	if tt.phi && t.op != "poly" {
		if r, ok := in.partRange(f, t); ok {
			lo, hi = tighten(lo, hi, r.lo, r.hi)
		}
	}
	if t.op == "poly" {
		l, h := tt.polyRange(t, func(a *T) (rng, bool) {
			if r, ok := f.rng[a.id]; ok {
				return r, true
			}
			if tt.phi {
				if r, ok := in.partRange(f, a); ok {
					return r, true
				}
			}
			if a.op == "choice" {
				l, h := in.rangeOf(a, pc)
				return rng{l, h}, true
			}
			return rng{}, false
		})
		lo, hi = tighten(lo, hi, l, h)
		// sum of known linear forms: t = q1 + rest
		if len(t.ms) >= 2 && len(t.ms) <= 6 {
			for id, r := range f.rng {
				q1 := f.terms[id]
				if q1.op != "poly" || len(q1.ms) < 2 || len(q1.ms) > 4 {
					continue
				}
				for _, s := range []int64{1, -1} {
					rest := tt.Lin(big1, t, bi(-s), q1)
					if len(rest.monos()) >= len(t.ms) {
						continue
					}
					rl, rh := tt.polyRange(rest, in.refOf(f))
					l, h := r.lo, r.hi
					if s < 0 {
						l, h = negB(h), negB(l)
					}
					lo, hi = tighten(lo, hi, addB(rl, l), addB(rh, h))
				}
			}
		}
	}
	return lo, hi
}

// decide simplifies a condition under the path condition.
func (in *Interp) decide(c, pc *B) *B {
	tt := in.tt
	if c.isTerm() {
		return c
	}
	if tt.BAnd(pc, c) == tt.False {
		return tt.False
	}
	if tt.BAnd(pc, tt.BNot(c)) == tt.False {
		return tt.True
	}
	for _, v := range tt.Support(c) {
		if v.op != "lt0" && v.op != "eq0" {
			continue
		}
		if v.op == "eq0" {
			if e := in.modEq(v.args[0], pc); e != nil {
				c = tt.Ite(e, tt.Assume(c, v, true), tt.Assume(c, v, false))
				if c.isTerm() {
					return c
				}
				continue
			}
			if a := in.fixTop(v.args[0], pc); a != v.args[0] {
				c = tt.Ite(tt.Eq0(a), tt.Assume(c, v, true), tt.Assume(c, v, false))
				if c.isTerm() {
					return c
				}
				continue
			}
		}
		lo, hi := in.rangeOf(v.args[0], pc)
		if v.op == "lt0" {
			if hi != nil && hi.Sign() < 0 {
				c = tt.Assume(c, v, true)
			} else if lo != nil && lo.Sign() >= 0 {
				c = tt.Assume(c, v, false)
			}
		} else {
			if (lo != nil && lo.Sign() > 0) || (hi != nil && hi.Sign() < 0) {
				c = tt.Assume(c, v, false)
			} else if lo != nil && hi != nil && lo.Sign() == 0 && hi.Sign() == 0 {
				c = tt.Assume(c, v, true)
			}
		}
		if c.isTerm() {
			return c
		}
	}
	if !in.feasible(tt.BAnd(pc, c)) {
		return tt.False
	}
	if !in.feasible(tt.BAnd(pc, tt.BNot(c))) {
		return tt.True
	}
	return c
}

// normPC rewrites the residue equations inside a path condition the way decide
// rewrites those of a condition under it.
func (in *Interp) normPC(pc *B) *B {
	tt := in.tt
	for _, v := range tt.Support(pc) {
		if v.op != "eq0" {
			continue
		}
		rest := tt.BOr(tt.Assume(pc, v, true), tt.Assume(pc, v, false))
		if e := in.modEq(v.args[0], rest); e != nil && e != tt.Var(v) {
			pc = tt.Ite(e, tt.Assume(pc, v, true), tt.Assume(pc, v, false))
		} else if a := in.fixTop(v.args[0], rest); a != v.args[0] {
			pc = tt.Ite(tt.Eq0(a), tt.Assume(pc, v, true), tt.Assume(pc, v, false))
		}
	}
	return pc
}

// fixTop replaces the terms pc fixes to a constant in a linear form of which
// more than the fixed part remains.
func (in *Interp) fixTop(t *T, pc *B) *T {
	if t.op != "poly" {
		return t
	}
	f := in.facts(pc)
	if len(f.fixed) == 0 {
		return t
	}
	tt := in.tt
	r := t
	for _, m := range t.ms {
		if len(m.vs) == 1 {
			if c, ok := f.fixed[m.vs[0].id]; ok {
				r = tt.Add(tt.Lin(big1, r, new(big.Int).Neg(m.co), m.vs[0]), tt.Const(new(big.Int).Mul(m.co, c)))
			}
		}
	}
	return r
}

// balanced: the representative of t modulo m with coefficients in (-m/2, m/2].
func (tt *Terms) balanced(t *T, m *big.Int) *T {
	half := new(big.Int).Rsh(m, 1)
	var ms []mono
	for _, x := range tt.modNorm(t, m).monos() {
		c := x.co
		if c.Cmp(half) > 0 {
			c = new(big.Int).Sub(c, m)
		}
		ms = append(ms, mono{c, x.vs})
	}
	return tt.fromList(ms)
}

// modEq rewrites "p = 0" about residues into equations between integers when
// the path bounds leave at most two multiples of the modulus.
func (in *Interp) modEq(p *T, pc *B) *B {
	tt := in.tt
	var m *big.Int
	if p.op == "mod" {
		m = hx(p.s)
	} else {
		for _, x := range p.monos() {
			if len(x.vs) == 1 && x.vs[0].op == "mod" && new(big.Int).Abs(x.co).Cmp(big1) == 0 {
				m = hx(x.vs[0].s)
			}
		}
		if m == nil {
			return nil
		}
		lo, hi := in.rangeOf(p, pc)
		if lo == nil || hi == nil || new(big.Int).Neg(m).Cmp(lo) >= 0 || m.Cmp(hi) <= 0 {
			return nil
		}
		q := tt.Mod(p, m)
		if q.op != "mod" {
			return tt.Eq0(q)
		}
		if e := in.modEq(q, pc); e != nil {
			return e
		}
		return tt.Eq0(q)
	}
	best := (*B)(nil)
	for _, t := range []*T{tt.balanced(p.args[0], m), p.args[0]} {
		lo, hi := in.rangeOf(t, pc)
		if lo == nil || hi == nil {
			continue
		}
		k0 := new(big.Int).Neg(floorDiv(new(big.Int).Neg(lo), m))
		k1 := floorDiv(hi, m)
		if new(big.Int).Sub(k1, k0).Cmp(big1) > 0 {
			continue
		}
		r := tt.False
		for k := new(big.Int).Set(k0); k.Cmp(k1) <= 0; k.Add(k, big1) {
			r = tt.BOr(r, tt.Eq0(tt.Sub(t, tt.Const(new(big.Int).Mul(k, m)))))
		}
		best = r
		break
	}
	return best
}

// ---- printing ----

func (in *Interp) show(v Val, st *State) string {
	return in.showD(v, st, 0)
}

func (in *Interp) showD(v Val, st *State, d int) string {
	if d > 6 {
		return "…"
	}
	switch x := v.(type) {
	case nil:
		return "<none>"
	case *T:
		return x.String()
	case *B:
		return x.String()
	case *PtrV:
		if x.o == nil {
			return "nil"
		}
		s := "&" + x.o.name
		for _, p := range x.path {
			s += fmt.Sprintf(".%d", p.i)
		}
		if st != nil {
			s += "=" + in.showD(in.loadPath(st, x.o, x.path), st, d+1)
		}
		return s
	case *SliceV:
		if x.o == nil {
			return "nil[]"
		}
		s := "[]" + x.o.name
		if st != nil {
			if c, ok := in.sliceContent(x, st).(*T); ok {
				s = "[" + c.String() + "]"
			} else {
				s += in.showD(in.sliceContent(x, st), st, d+1)
			}
		}
		if x.nilc != in.tt.False {
			s += "{nil if " + x.nilc.String() + "}"
		}
		return s
	case *AggV:
		var p []string
		for i, e := range x.el {
			if i > 12 {
				p = append(p, "…")
				break
			}
			p = append(p, in.showD(e, st, d+1))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case *TupleV:
		var p []string
		for _, e := range x.el {
			p = append(p, in.showD(e, st, d+1))
		}
		return "(" + strings.Join(p, ", ") + ")"
	case *IfaceV:
		if x.v == nil {
			return "nil"
		}
		return "iface(" + x.model + ")" + in.showD(x.v, st, d+1)
	case *FuncV:
		if x.fn == nil {
			return "nilfunc"
		}
		return short(x.fn)
	case *ChoiceV:
		var p []string
		for i := range x.cs {
			p = append(p, x.cs[i].str(4)+" ? "+in.showD(x.vs[i], st, d+1))
		}
		return "{" + strings.Join(p, "; ") + "}"
	case *UnkV:
		return "?" + x.why
	case *HashV:
		return "hash:" + x.alg + "<" + x.data.String() + ">"
	}
	return fmt.Sprintf("%T", v)
}
