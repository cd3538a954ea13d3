package main

import (
	"crypto/sha256"
	"encoding/binary"
	"math/big"
	"os"
	"sort"
	"strings"
)

// Random interpretation of extracted terms (Gulwani/Necula): two terms whose
// normal forms differ are evaluated under random values of their atoms.  It is
// used only to recognise terms that are equal but written differently, so as
// not to report them; nothing is executed, the values are those of the
// abstract domain.

type rEval struct {
	in    *Interp
	seed  uint64
	coins bool // conditions of low probability are drawn instead of computed
	long  int64
	f     *Facts
	ints  map[*T]*big.Int
	strs  map[*T][]byte
	alias map[string]*big.Int
	force map[string]bool // coins fixed by the path being examined
	used  map[string]bool // coins drawn so far
}

type rFail struct{}

func (e *rEval) rnd(tag string, n int, parts ...[]byte) []byte {
	h := sha256.New()
	var b [16]byte
	binary.BigEndian.PutUint64(b[:8], e.seed)
	binary.BigEndian.PutUint64(b[8:], uint64(len(tag)))
	h.Write(b[:])
	h.Write([]byte(tag))
	for _, p := range parts {
		binary.BigEndian.PutUint64(b[:8], uint64(len(p)))
		h.Write(b[:8])
		h.Write(p)
	}
	s := h.Sum(nil)
	var out []byte
	for i := uint64(0); len(out) < n; i++ {
		binary.BigEndian.PutUint64(b[:8], i)
		d := sha256.Sum256(append(append([]byte{}, s...), b[:8]...))
		out = append(out, d[:]...)
	}
	return out[:n]
}

func ser(v *big.Int) []byte {
	b := v.Bytes()
	if v.Sign() < 0 {
		return append([]byte{1}, b...)
	}
	return append([]byte{0}, b...)
}

func (e *rEval) draw(tag string, lo, hi *big.Int, parts ...[]byte) *big.Int {
	r := e.rnd(tag, 48, parts...)
	if lo == nil && hi == nil {
		return new(big.Int).SetBytes(r[:40])
	}
	if lo == nil {
		return new(big.Int).Sub(hi, new(big.Int).SetBytes(r[:8]))
	}
	if hi == nil {
		return new(big.Int).Add(lo, new(big.Int).SetBytes(r[:40]))
	}
	w := new(big.Int).Sub(hi, lo)
	w.Add(w, big1)
	if w.Sign() <= 0 {
		panic(rFail{})
	}
	v := new(big.Int).SetBytes(r)
	return v.Mod(v, w).Add(v, lo)
}

func (e *rEval) length(t *T) int {
	n := e.int(t)
	if n.Sign() < 0 || n.Cmp(bi(1<<16)) > 0 {
		panic(rFail{})
	}
	return int(n.Int64())
}

func (e *rEval) parts(ts []*T) [][]byte {
	var out [][]byte
	for _, a := range ts {
		if isBytes(a) {
			out = append(out, append([]byte{2}, e.bytes(a)...))
		} else {
			out = append(out, ser(e.int(a)))
		}
	}
	return out
}

func (e *rEval) int(t *T) *big.Int {
	if t.op == "const" {
		return t.c
	}
	if v, ok := e.ints[t]; ok {
		return v
	}
	v, fx := e.f.fixed[t.id]
	if !fx {
		v = e.int1(t)
		if len(e.alias) > 0 {
			if c, ok := e.alias[aliasKey(t, v)]; ok {
				v = c
			}
		}
	}
	e.ints[t] = v
	return v
}

func aliasKey(t *T, v *big.Int) string {
	return t.op + "/" + t.s + "/" + itoa(t.n) + "/" + string(ser(v))
}

// fixAliases: a term the path fixes to a constant is also that constant when
// it is written differently.
func (e *rEval) fixAliases() {
	var ids []int
	for id := range e.f.fixed {
		if t := e.f.terms[id]; t != nil && t.op != "in" && t.op != "poly" && len(t.args) > 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		t := e.f.terms[id]
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, is := x.(rFail); !is {
						panic(x)
					}
				}
			}()
			e.alias[aliasKey(t, e.int1(t))] = e.f.fixed[id]
		}()
	}
}

func (e *rEval) int1(t *T) *big.Int {
	a := func(i int) *big.Int { return e.int(t.args[i]) }
	small := func(v *big.Int) uint {
		if v.Sign() < 0 || v.Cmp(bi(4096)) > 0 {
			panic(rFail{})
		}
		return uint(v.Int64())
	}
	switch t.op {
	case "poly":
		r := new(big.Int)
		for _, m := range t.ms {
			p := new(big.Int).Set(m.co)
			for _, v := range m.vs {
				p.Mul(p, e.int(v))
			}
			r.Add(r, p)
		}
		return r
	case "anf":
		r := new(big.Int)
		for _, m := range t.anf {
			p := new(big.Int).Set(m.mask)
			for _, v := range m.vs {
				x := new(big.Int).Mod(e.int(v), pow2(t.n))
				p.And(p, x)
			}
			r.Xor(r, p)
		}
		return r
	case "choice", "phi":
		for i, c := range t.cs {
			if e.cond(c) {
				return a(i)
			}
		}
		return a(len(t.args) - 1)
	case "mod":
		return new(big.Int).Mod(a(0), hx(t.s))
	case "field":
		return new(big.Int).Mod(a(0), pow2(t.n))
	case "inv":
		m := hx(t.s)
		r := new(big.Int).ModInverse(new(big.Int).Mod(a(0), m), m)
		if r == nil {
			return big0
		}
		return r
	case "emod":
		m := a(1)
		if m.Sign() == 0 {
			panic(rFail{})
		}
		return new(big.Int).Mod(a(0), m)
	case "quo":
		return new(big.Int).Quo(a(0), hx(t.s))
	case "rem":
		return new(big.Int).Rem(a(0), hx(t.s))
	case "wrap", "wraps":
		v := new(big.Int).Mod(a(0), pow2(t.n))
		if t.op == "wraps" && v.Bit(t.n-1) == 1 {
			v.Sub(v, pow2(t.n))
		}
		return v
	case "shr":
		return new(big.Int).Rsh(a(0), uint(t.n))
	case "shrs", "bigRsh":
		return new(big.Int).Rsh(a(0), small(a(1)))
	case "bigLsh":
		return new(big.Int).Lsh(a(0), small(a(1)))
	case "rotl":
		w := int(bi10(t.s).Int64())
		x := new(big.Int).Mod(a(0), pow2(w))
		y := new(big.Int).Lsh(x, uint(t.n))
		y.Or(y, new(big.Int).Rsh(x, uint(w-t.n)))
		return y.Mod(y, pow2(w))
	case "or":
		r := new(big.Int)
		for i := range t.args {
			r.Or(r, a(i))
		}
		return r
	case "and":
		return new(big.Int).And(a(0), a(1))
	case "bit":
		return bi(int64(a(0).Bit(int(small(a(1))))))
	case "bitlen":
		return bi(int64(a(0).BitLen()))
	case "blen":
		return bi(int64((a(0).BitLen() + 7) / 8))
	case "cmp3":
		return bi(int64(a(0).Sign()))
	case "val":
		return new(big.Int).SetBytes(e.bytes(t.args[0]))
	case "byteAt":
		b := e.bytes(t.args[0])
		if t.n >= len(b) {
			panic(rFail{})
		}
		return bi(int64(b[t.n]))
	case "byteSym":
		b := e.bytes(t.args[0])
		i := a(1)
		if i.Sign() < 0 || i.Cmp(bi(int64(len(b)))) >= 0 {
			panic(rFail{})
		}
		return bi(int64(b[i.Int64()]))
	case "powmod":
		for i := range t.s {
			if t.s[i] == '/' {
				return new(big.Int).Exp(a(0), hx(t.s[:i]), hx(t.s[i+1:]))
			}
		}
	case "sqrt":
		m := hx(t.s)
		x := new(big.Int).Mod(a(0), m)
		return e.draw("sqrt"+t.s, t.lo, t.hi, ser(x))
	case "G":
		return e.draw("G"+t.s, big1, bi(1<<62))
	case "aff":
		x, y := a(0), a(1)
		w := curveByName(t.s)
		if w == nil {
			break
		}
		ny := new(big.Int).Mod(new(big.Int).Neg(y), w.p)
		k, neg := y, false
		if ny.Cmp(y) < 0 {
			k, neg = ny, true
		}
		v := e.draw("aff"+t.s, big1, bi(1<<62), ser(x), ser(k))
		if neg {
			v = new(big.Int).Neg(v)
		}
		return v
	case "jz":
		w := curveByName(t.s)
		q := new(big.Int).Mod(a(0), w.n)
		if q.Sign() == 0 {
			return big0
		}
		return e.draw("jz"+t.s, big1, new(big.Int).Sub(w.p, big1), ser(q))
	case "px", "py":
		w := curveByName(t.s)
		if w == nil {
			break
		}
		q := new(big.Int).Mod(a(0), w.n)
		nq := new(big.Int).Sub(w.n, q)
		k, neg := q, false
		if nq.Cmp(q) < 0 {
			k, neg = nq, true
		}
		v := e.draw(t.op+t.s, big1, new(big.Int).Sub(w.p, big1), ser(k))
		if neg && (t.op == "py") != w.ed {
			v = new(big.Int).Sub(w.p, v)
		}
		return v
	case "in":
		lo, hi := t.lo, t.hi
		if r, ok := e.f.rng[t.id]; ok {
			lo, hi = tighten(lo, hi, r.lo, r.hi)
		}
		if len(t.s) > 4 && t.s[:4] == "len:" {
			l := lo
			if l == nil {
				l = big0
			}
			h := new(big.Int).Add(l, bi(e.long))
			if hi != nil && hi.Cmp(h) < 0 {
				h = hi
			}
			return e.draw("in"+itoa(t.id), l, h)
		}
		return e.draw("in"+itoa(t.id), lo, hi)
	case "fresh":
		return e.draw("fresh"+itoa(t.id), t.lo, t.hi)
	case "lt0", "eq0", "beq", "blt", "square", "randerr":
		if e.atom(t) {
			return big1
		}
		return big0
	}
	return e.draw("f:"+t.op+":"+t.s+":"+itoa(t.n), t.lo, t.hi, e.parts(t.args)...)
}

func bi10(s string) *big.Int { v, _ := new(big.Int).SetString(s, 10); return v }

func (e *rEval) bytes(t *T) []byte {
	if v, ok := e.strs[t]; ok {
		return v
	}
	v := e.bytes1(t)
	if t.op != "choice" && len(v) != e.length(t.len) {
		panic(rFail{})
	}
	e.strs[t] = v
	return v
}

func (e *rEval) bytes1(t *T) []byte {
	switch t.op {
	case "lit":
		return []byte(t.s)
	case "zeros":
		return make([]byte, e.length(t.len))
	case "choice":
		for i, c := range t.cs {
			if e.cond(c) {
				return e.bytes(t.args[i])
			}
		}
		return e.bytes(t.args[len(t.args)-1])
	case "sub":
		if s := t.args[0]; s.len.op == "fresh" || strings.HasPrefix(s.op, "keystream") || strings.HasPrefix(s.s, "keystream") {
			return e.rnd("stream"+itoa(s.id), e.length(t.len), ser(e.int(t.args[1])))
		}
		b := e.bytes(t.args[0])
		o, n := e.length(t.args[1]), e.length(t.len)
		if o+n > len(b) {
			panic(rFail{})
		}
		return b[o : o+n]
	case "cat":
		var out []byte
		for _, a := range t.args {
			out = append(out, e.bytes(a)...)
		}
		return out
	case "rev":
		b := append([]byte{}, e.bytes(t.args[0])...)
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
		return b
	case "be":
		v := new(big.Int).Mod(e.int(t.args[0]), pow2(8*t.n))
		return v.FillBytes(make([]byte, t.n))
	case "bemin":
		return new(big.Int).Abs(e.int(t.args[0])).Bytes()
	case "byte":
		return []byte{byte(new(big.Int).Mod(e.int(t.args[0]), bi(256)).Int64())}
	case "bxor":
		x, y := e.bytes(t.args[0]), e.bytes(t.args[1])
		if len(x) != len(y) {
			panic(rFail{})
		}
		out := make([]byte, len(x))
		for i := range x {
			out[i] = x[i] ^ y[i]
		}
		return out
	case "upd":
		b := append([]byte{}, e.bytes(t.args[0])...)
		o, d := e.length(t.args[1]), e.bytes(t.args[2])
		if o+len(d) > len(b) {
			panic(rFail{})
		}
		copy(b[o:], d)
		return b
	}
	if len(t.args) == 0 {
		return e.rnd("in"+itoa(t.id), e.length(t.len))
	}
	return e.rnd("f:"+t.op+":"+t.s+":"+itoa(t.n), e.length(t.len), e.parts(t.args)...)
}

func (e *rEval) cond(b *B) bool {
	for !b.isTerm() {
		if e.atom(b.v) {
			b = b.hi
		} else {
			b = b.lo
		}
	}
	return b == e.in.tt.True
}

// atom: truth of a condition atom.  A condition that random values satisfy
// almost never (or always) is drawn by its value when coins are on, so that
// equivalent conditions get the same coin.
func (e *rEval) atom(v *T) bool {
	b, key, neg := e.lit(v)
	if key == "" {
		return b
	}
	c, ok := e.force[key]
	if !ok {
		c = e.rnd("coin", 1, []byte(key))[0]&1 == 1
		e.used[key] = c
	}
	return c != neg
}

// lit: the truth of an atom, or the name of the coin that decides it.
func (e *rEval) lit(v *T) (val bool, key string, neg bool) {
	coin := func(tag string, p ...[]byte) string {
		k := tag
		for _, x := range p {
			k += ":" + itoa(len(x)) + ":" + string(x)
		}
		return k
	}
	switch v.op {
	case "eq0":
		d := e.int(v.args[0])
		if d.Sign() == 0 {
			return true, "", false
		}
		if !e.coins {
			return false, "", false
		}
		if a := v.args[0]; a.op == "mod" {
			m := hx(a.s)
			n := new(big.Int).Sub(m, d)
			if n.Cmp(d) < 0 {
				d = n
			}
		}
		return false, coin("eq", ser(new(big.Int).Abs(d))), false
	case "lt0":
		d := e.int(v.args[0])
		if e.coins && d.BitLen() > 9 {
			if d.Sign() >= 0 {
				return false, coin("lt", ser(d)), false
			}
			return false, coin("lt", ser(new(big.Int).Sub(bi(-1), d))), true
		}
		return d.Sign() < 0, "", false
	case "beq":
		x, y := e.bytes(v.args[0]), e.bytes(v.args[1])
		if string(x) == string(y) {
			return true, "", false
		}
		if !e.coins {
			return false, "", false
		}
		if string(x) > string(y) {
			x, y = y, x
		}
		return false, coin("beq", x, y), false
	case "square":
		m := hx(v.s)
		return false, coin("square"+v.s, ser(new(big.Int).Mod(e.int(v.args[0]), m))), false
	case "randerr":
		if !e.coins {
			return false, "", false
		}
		return false, coin("randerr" + v.s), false
	}
	if len(v.args) == 0 {
		return false, coin("atom" + itoa(v.id)), false
	}
	return false, coin("f:"+v.op+v.s+itoa(v.n), e.parts(v.args)...), false
}

// holds tries to make every literal true; false when two literals need
// different values of one coin, or a computed literal is false.
func (e *rEval) holds(ls []rlit) (ok, bad bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(rFail); !is {
				panic(x)
			}
			bad = true // lengths do not fit
			if debugWitness {
				println("  BAD lengths")
			}
		}
	}()
	for round := 0; round < len(ls)+2; round++ {
		again := false
		for _, l := range ls {
			b, key, neg := e.lit(l.v)
			if key == "" {
				if b != l.pos {
					if debugWitness {
						println("  FAIL computed", l.pos, clip(l.v.str(6), 700))
					}
					return false, false
				}
				continue
			}
			want := l.pos != neg
			if c, ok := e.force[key]; ok {
				if c != want {
					if debugWitness {
						println("  FAIL forced", l.pos, clip(l.v.str(6), 700), clip(key, 60))
					}
					return false, false
				}
				continue
			}
			e.force[key] = want
			if c, ok := e.used[key]; ok && c != want {
				again = true
				break
			}
		}
		if !again {
			return true, false
		}
		e.ints, e.strs, e.used = map[*T]*big.Int{}, map[*T][]byte{}, map[string]bool{}
	}
	return true, false
}

type rlit struct {
	v   *T
	pos bool
}

// witnessed: some path of the condition is consistent under a random
// interpretation; cut is set when there are too many paths to tell.
func (in *Interp) witnessed(c *B, paths int) (found, cut bool) {
	tt := in.tt
	n := 0
	c = in.splitBytes(c)
	var ls []rlit
	var rec func(b *B, p *B) bool
	rec = func(b *B, p *B) bool {
		if b == tt.False || cut {
			return false
		}
		if b != tt.True {
			for _, pos := range []bool{true, false} {
				k, nx := tt.Var(b.v), b.hi
				if !pos {
					k, nx = tt.BNot(k), b.lo
				}
				if nx == tt.False {
					continue
				}
				q := tt.BAnd(p, k)
				if !in.feasible(q) {
					continue
				}
				ls = append(ls, rlit{b.v, pos})
				r := rec(nx, q)
				if r {
					return true
				}
				ls = ls[:len(ls)-1]
			}
			return false
		}
		if n++; n > paths {
			cut = true
			return false
		}
		fit := false
		for seed := 1; seed < 81; seed += 2 {
			ok, bad := in.newEval(seed, p).holds(ls)
			if !bad {
				fit = true
			}
			if ok {
				if debugWitness {
					e := in.newEval(seed, p)
					for _, l := range ls {
						_, k, ng := e.lit(l.v)
						println("  lit", l.pos, ng, clip(l.v.str(6), 700), clip(k, 60))
					}
				}
				return true
			}
		}
		return !fit
	}
	found = rec(c, tt.True)
	return
}

// splitBytes: an equality of byte strings that is elsewhere in the condition
// decided byte by byte is split into its bytes.
func (in *Interp) splitBytes(c *B) *B {
	tt := in.tt
	have := map[*T]bool{}
	sup := tt.Support(c)
	for _, v := range sup {
		have[v] = true
	}
	for _, v := range sup {
		if v.op != "beq" || !v.args[0].len.IsConst() || v.args[0].len.c.Cmp(bi(128)) > 0 {
			continue
		}
		k := int(v.args[0].len.c.Int64())
		all, any := tt.True, false
		for i := 0; i < k; i++ {
			x, y := in.bAt(v.args[0], tt.Int(int64(i)), tt.True), in.bAt(v.args[1], tt.Int(int64(i)), tt.True)
			e := tt.Eq(x, y)
			if !e.isTerm() && have[e.v] {
				any = true
			}
			all = tt.BAnd(all, e)
		}
		if any {
			c = tt.Ite(all, tt.Assume(c, v, true), tt.Assume(c, v, false))
		}
	}
	return c
}

func (in *Interp) newEval(seed int, pc *B) *rEval {
	f := in.facts(pc)
	if f == nil || f == bottomFacts {
		f = emptyFacts
	}
	e := &rEval{in: in, seed: uint64(seed), coins: seed%2 == 1, f: f, ints: map[*T]*big.Int{}, strs: map[*T][]byte{}, force: map[string]bool{}, used: map[string]bool{}}
	e.alias = map[string]*big.Int{}
	e.long = []int64{7, 40, 130, 300, 700}[seed/2%5]
	e.fixAliases()
	return e
}

// tryEval evaluates a term to a serialised value; ok is false when the random
// lengths do not fit the term.
func (e *rEval) try(t *T) (v string, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(rFail); !is {
				panic(x)
			}
			ok = false
		}
	}()
	if isBytes(t) {
		return "b" + string(e.bytes(t)), true
	}
	return "i" + string(ser(e.int(t))), true
}

// sameRandom: a and b agree on every random interpretation.
func (in *Interp) sameRandom(a, b *T, pc *B) bool {
	if a == nil || b == nil || isBytes(a) != isBytes(b) {
		return false
	}
	good := 0
	for seed := 0; seed < 200 && good < 48; seed++ {
		e := in.newEval(seed, pc)
		x, ok1 := e.try(a)
		y, ok2 := e.try(b)
		if !ok1 || !ok2 {
			continue
		}
		if x != y {
			return false
		}
		good++
	}
	return good >= 16
}

// unify merges the atoms of a condition that random interpretation cannot
// tell apart.
func (in *Interp) unify(c, pc *B) *B {
	tt := in.tt
	sup := tt.Support(c)
	if len(sup) < 1 || len(sup) > 400 {
		return c
	}
	const K = 24
	type fp struct {
		v       *T
		val     []*big.Int // value of the argument
		ok      bool
		allZero bool
	}
	var fps []*fp
	evals := make([]*rEval, K)
	for i := range evals {
		evals[i] = in.newEval(i, pc)
		if evals[i].long < 130 {
			evals[i].long = 130
		}
	}
	seen := map[string]*T{}
	for _, v := range sup {
		if v.op != "eq0" && v.op != "lt0" {
			if len(v.args) == 0 {
				continue
			}
			key, ok, same := v.op+v.s+itoa(v.n), true, v.op == "beq"
			for _, e := range evals {
				var ps []string
				for _, a := range v.args {
					x, k := e.try(a)
					ok = ok && k
					ps = append(ps, x)
				}
				if v.op == "beq" {
					sort.Strings(ps)
					same = same && ps[0] == ps[1]
				}
				for _, x := range ps {
					key += itoa(len(x)) + ":" + x
				}
			}
			if !ok {
				continue
			}
			if same {
				c = tt.Assume(c, v, true)
			} else if o := seen[key]; o != nil {
				c = tt.Ite(tt.Var(o), tt.Assume(c, v, true), tt.Assume(c, v, false))
			} else {
				seen[key] = v
			}
			continue
		}
		f := &fp{v: v, ok: true, allZero: true}
		for _, e := range evals {
			_, ok := e.try(v.args[0])
			if !ok {
				f.ok = false
				break
			}
			x := e.int(v.args[0])
			if x.Sign() != 0 {
				f.allZero = false
			}
			f.val = append(f.val, x)
		}
		if f.ok {
			fps = append(fps, f)
		}
	}
	sort.Slice(fps, func(i, j int) bool { return fps[i].v.id < fps[j].v.id })
	for i, g := range fps {
		if g.allZero {
			c = tt.Assume(c, g.v, g.v.op == "eq0")
			continue
		}
		for _, f := range fps[:i] {
			if f.v.op != g.v.op || f.allZero {
				continue
			}
			same, opp := true, true
			for k := range g.val {
				d := f.val[k]
				if d.Cmp(g.val[k]) != 0 {
					same = false
				}
				n := new(big.Int).Neg(d)
				if g.v.op == "lt0" {
					n.Sub(n, big1)
				}
				if n.Cmp(g.val[k]) != 0 {
					opp = false
				}
			}
			if g.v.op == "eq0" && !same && !opp {
				same = propMod(f.v.args[0], f.val, g.v.args[0], g.val)
			}
			if g.v.op == "eq0" {
				same, opp = same || opp, false
			}
			if same || opp {
				hi, lo := tt.Assume(c, g.v, true), tt.Assume(c, g.v, false)
				if opp {
					hi, lo = lo, hi
				}
				c = tt.Ite(tt.Var(f.v), hi, lo)
				break
			}
		}
	}
	return c
}

// propMod: two residues of the same modulus with a constant nonzero ratio.
func propMod(a *T, av []*big.Int, b *T, bv []*big.Int) bool {
	if a.op != "mod" || b.op != "mod" || a.s != b.s {
		return false
	}
	m := hx(a.s)
	var q *big.Int
	for i := range av {
		if av[i].Sign() == 0 || bv[i].Sign() == 0 {
			if av[i].Sign() != bv[i].Sign() {
				return false
			}
			continue
		}
		iv := new(big.Int).ModInverse(bv[i], m)
		if iv == nil {
			return false
		}
		r := iv.Mul(iv, av[i])
		r.Mod(r, m)
		if q == nil {
			q = r
		} else if q.Cmp(r) != 0 {
			return false
		}
	}
	return q != nil
}

var debugWitness = os.Getenv("VERIF_WITNESS") != ""

// sameList: the two lists agree on every random interpretation (true, -1), or
// differ at some index on one of them (false, i), or cannot be evaluated
// (false, -1).
func (in *Interp) sameList(a, b []*T, pc *B) (bool, int) {
	good := 0
	for seed := 0; seed < 60 && good < 12; seed++ {
		e := in.newEval(seed, pc)
		ok := true
		for i := range a {
			if a[i] == b[i] {
				continue
			}
			x, ok1 := e.try(a[i])
			y, ok2 := e.try(b[i])
			if !ok1 || !ok2 {
				ok = false
				break
			}
			if x != y {
				return false, i
			}
		}
		if ok {
			good++
		}
	}
	return good >= 6, -1
}
