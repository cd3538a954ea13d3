package main

import (
	"math/big"
	"strings"
)

// Byte-string terms.  A byte string is a concatenation of segments with
// (possibly symbolic) lengths; the constructors keep a canonical form.

func (tt *Terms) bAtom(op, s string, n int, ln *T, args ...*T) *T {
	as := append([]*T{}, args...)
	k := ids(op, s, n, as) + "#" + itoa(ln.id)
	return tt.mk(k, func() *T { return &T{op: op, s: s, n: n, args: as, len: ln} })
}

func itoa(n int) string { return big.NewInt(int64(n)).String() }

func (tt *Terms) BLit(s string) *T {
	return tt.mk("lit|"+s, func() *T { return &T{op: "lit", s: s, len: tt.Int(int64(len(s)))} })
}
func (tt *Terms) BEmpty() *T { return tt.BLit("") }
func (tt *Terms) BZeros(n *T) *T {
	if n.IsConst() && n.c.Sign() >= 0 && n.c.BitLen() < 24 {
		return tt.BLit(strings.Repeat("\x00", int(n.c.Int64())))
	}
	return tt.bAtom("zeros", "", 0, n, n)
}
func (tt *Terms) BIn(name string, ln *T) *T { return tt.bAtom("in", name, 0, ln) }

func isBytes(t *T) bool { return t != nil && t.len != nil }

func segs(t *T) []*T {
	if t.op == "cat" {
		return t.args
	}
	if t.op == "lit" && t.s == "" {
		return nil
	}
	return []*T{t}
}

// number of bytes needed for the largest value of X (or -1)
func maxBytes(x *T) int {
	if x.hi == nil || x.lo == nil || x.lo.Sign() < 0 {
		return -1
	}
	return (x.hi.BitLen() + 7) / 8
}

func (tt *Terms) Blen(x *T) *T {
	if x.IsConst() {
		return tt.Int(int64((x.c.BitLen() + 7) / 8))
	}
	if x.op == "choice" && len(x.args) <= 8 {
		var vs []*T
		for _, a := range x.args {
			vs = append(vs, tt.Blen(a))
		}
		return tt.Choice(x.cs, vs)
	}
	var hi *big.Int
	if n := maxBytes(x); n >= 0 {
		hi = bi(int64(n))
	}
	lo := big0
	if x.lo != nil && x.lo.Sign() > 0 {
		lo = bi(int64((x.lo.BitLen() + 7) / 8))
	}
	if hi != nil && lo.Cmp(hi) == 0 {
		return tt.Const(lo)
	}
	return tt.Atom("blen", "", 0, lo, hi, x)
}

// BE: big-endian encoding of x in n bytes (x < 256^n assumed).
func (tt *Terms) BE(x *T, n int) *T {
	if x.IsConst() {
		b := make([]byte, n)
		v := new(big.Int).Mod(x.c, pow2(8*n))
		v.FillBytes(b)
		return tt.BLit(string(b))
	}
	if x.op == "choice" && len(x.args) <= 8 {
		var vs []*T
		for _, a := range x.args {
			vs = append(vs, tt.BE(a, n))
		}
		return tt.Choice(x.cs, vs)
	}
	if x.op == "wrap" && x.n >= 8*n {
		return tt.BE(x.args[0], n)
	}
	k := maxBytes(x)
	if k >= 0 && n > k {
		return tt.BCat(tt.BLit(strings.Repeat("\x00", n-k)), tt.BE(x, k))
	}
	if x.op == "val" && x.args[0].len.IsConst() && x.args[0].len.c.Int64() == int64(n) {
		return x.args[0]
	}
	return tt.bAtom("be", "", n, tt.Int(int64(n)), x)
}

func (tt *Terms) BEMin(x *T) *T {
	if x.IsConst() {
		return tt.BLit(string(x.c.Bytes()))
	}
	if x.op == "choice" && len(x.args) <= 8 {
		var vs []*T
		for _, a := range x.args {
			vs = append(vs, tt.BEMin(a))
		}
		return tt.Choice(x.cs, vs)
	}
	l := tt.Blen(x)
	if l.IsConst() {
		return tt.BE(x, int(l.c.Int64()))
	}
	return tt.bAtom("bemin", "", 0, l, x)
}

func (tt *Terms) BByte(b *T) *T {
	if b.IsConst() {
		return tt.BLit(string([]byte{byte(b.c.Int64())}))
	}
	if b.op == "byteAt" {
		return tt.bsub(b.args[0], tt.Int(int64(b.n)), tt.Int(1))
	}
	if b.op == "byteSym" {
		return tt.bsub(b.args[0], b.args[1], tt.Int(1))
	}
	return tt.bAtom("byte", "", 0, tt.Int(1), b)
}

// bsub: sub-range of an atomic segment.
func (tt *Terms) bsub(base, off, ln *T) *T {
	if ln.IsConst() && ln.c.Sign() == 0 {
		return tt.BEmpty()
	}
	switch base.op {
	case "lit":
		if off.IsConst() && ln.IsConst() {
			o, l := off.c.Int64(), ln.c.Int64()
			if o >= 0 && l >= 0 && o+l <= int64(len(base.s)) {
				return tt.BLit(base.s[o : o+l])
			}
		}
		if strings.Count(base.s, "\x00") == len(base.s) {
			return tt.BZeros(ln)
		}
	case "zeros":
		return tt.BZeros(ln)
	case "sub":
		return tt.bsub(base.args[0], tt.Add(base.args[1], off), ln)
	case "rev":
		if ln == tt.Int(1) {
			return tt.bsub(base.args[0], tt.Sub(tt.AddI(base.len, -1), off), ln)
		}
	}
	if off.IsConst() && off.c.Sign() == 0 && ln == base.len {
		return base
	}
	return tt.bAtom("sub", "", 0, ln, base, off)
}

func (tt *Terms) BCat(ts ...*T) *T {
	var l []*T
	for _, t := range ts {
		l = append(l, segs(t)...)
	}
	for {
		out := l[:0:0]
		changed := false
		for _, s := range l {
			if s.len.IsConst() && s.len.c.Sign() == 0 {
				changed = true
				continue
			}
			if len(out) > 0 {
				if m := tt.mergeSeg(out[len(out)-1], s); m != nil {
					out = append(out[:len(out)-1], segs(m)...)
					changed = true
					continue
				}
			}
			out = append(out, s)
		}
		l = out
		if !changed {
			break
		}
	}
	if len(l) == 0 {
		return tt.BEmpty()
	}
	if len(l) == 1 {
		return l[0]
	}
	ln := tt.Int(0)
	for _, s := range l {
		ln = tt.Add(ln, s.len)
	}
	return tt.bAtom("cat", "", 0, ln, l...)
}

func allZero(s string) bool { return strings.Count(s, "\x00") == len(s) }

func (tt *Terms) mergeSeg(a, b *T) *T {
	switch {
	case a.op == "lit" && b.op == "lit":
		return tt.BLit(a.s + b.s)
	case a.op == "zeros" && b.op == "zeros":
		return tt.BZeros(tt.Add(a.args[0], b.args[0]))
	case a.op == "zeros" && b.op == "bemin":
		s := tt.Add(a.len, b.len)
		if s.IsConst() {
			return tt.BE(b.args[0], int(s.c.Int64()))
		}
	case a.op == "zeros" && b.op == "lit" && allZero(b.s):
		return tt.BZeros(tt.Add(a.len, b.len))
	case a.op == "lit" && b.op == "zeros" && allZero(a.s):
		return tt.BZeros(tt.Add(a.len, b.len))
	case a.op == "sub" && b.op == "sub" && a.args[0] == b.args[0]:
		if tt.Add(a.args[1], a.len) == b.args[1] {
			return tt.bsub(a.args[0], a.args[1], tt.Add(a.len, b.len))
		}
	}
	if ra, oa := tt.revPiece(a); ra != nil {
		if rb, ob := tt.revPiece(b); rb == ra && tt.Add(oa, a.len) == ob {
			return tt.bsub(tt.BRev(ra), oa, tt.Add(a.len, b.len))
		}
	}
	return tt.mergeBE(a, b)
}

// revPiece: s as a piece of a reversed string, and its offset there.
func (tt *Terms) revPiece(s *T) (*T, *T) {
	if s.op != "sub" {
		return nil, nil
	}
	if s.args[0].op == "rev" {
		return s.args[0].args[0], s.args[1]
	}
	if s.len == tt.Int(1) && s.args[0].len.IsConst() {
		return s.args[0], tt.Sub(tt.AddI(s.args[0].len, -1), s.args[1])
	}
	return nil, nil
}

// BRev: the bytes in reverse order.
func (tt *Terms) BRev(b *T) *T {
	if b.op == "choice" {
		var vs []*T
		for _, a := range b.args {
			vs = append(vs, tt.BRev(a))
		}
		return tt.Choice(b.cs, vs)
	}
	switch b.op {
	case "lit":
		r := []byte(b.s)
		for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
			r[i], r[j] = r[j], r[i]
		}
		return tt.BLit(string(r))
	case "zeros":
		return b
	case "rev":
		return b.args[0]
	case "cat":
		var l []*T
		for i := len(b.args) - 1; i >= 0; i-- {
			l = append(l, tt.BRev(b.args[i]))
		}
		return tt.BCat(l...)
	case "sub":
		base := b.args[0]
		return tt.bsub(tt.BRev(base), tt.Sub(tt.Sub(base.len, b.args[1]), b.len), b.len)
	}
	if b.len == tt.Int(1) {
		return b
	}
	return tt.bAtom("rev", "", 0, b.len, b)
}

// mergeBE joins two big-endian pieces of one number.
func (tt *Terms) mergeBE(a, b *T) *T {
	num := func(t *T) (*T, int) {
		switch t.op {
		case "byte":
			return t.args[0], 1
		case "be":
			return t.args[0], t.n
		}
		return nil, 0
	}
	x, n := num(a)
	y, m := num(b)
	if x == nil || y == nil {
		return nil
	}
	wrapped := false
	if x.op == "wrap" && x.n == 8*n {
		x, wrapped = x.args[0], true
	}
	if x.op != "shr" || x.n < 8*m {
		return nil
	}
	Y := tt.Shr(x.args[0], x.n-8*m)
	if tt.Wrap(Y, 8*m, false) != y {
		return nil
	}
	if wrapped {
		Y = tt.Wrap(Y, 8*(n+m), false)
	}
	return tt.BE(Y, n+m)
}

// Val: big-endian integer value of a byte string.
func (tt *Terms) Val(b *T) *T {
	if b.op == "choice" {
		var vs []*T
		for _, a := range b.args {
			vs = append(vs, tt.Val(a))
		}
		return tt.Choice(b.cs, vs)
	}
	ss := segs(b)
	r := tt.Int(0)
	shift := 0
	for i := len(ss) - 1; i >= 0; i-- {
		s := ss[i]
		if !s.len.IsConst() && i > 0 {
			// everything to the left must be zero
			z := true
			for _, x := range ss[:i] {
				if !(x.op == "zeros" || (x.op == "lit" && allZero(x.s))) {
					z = false
				}
			}
			if !z {
				return tt.Atom("val", "", 0, big0, nil, b)
			}
		}
		r = tt.Add(r, tt.Scale(tt.val1(s), pow2(shift)))
		if s.len.IsConst() {
			shift += 8 * int(s.len.c.Int64())
		} else {
			break
		}
	}
	return r
}

func (tt *Terms) val1(s *T) *T {
	switch s.op {
	case "lit":
		return tt.Const(new(big.Int).SetBytes([]byte(s.s)))
	case "zeros":
		return tt.Int(0)
	case "be":
		if k := maxBytes(s.args[0]); k >= 0 && k <= s.n {
			return s.args[0]
		}
		return tt.Wrap(s.args[0], 8*s.n, false)
	case "bemin":
		return s.args[0]
	case "byte":
		return s.args[0]
	case "choice":
		return tt.Val(s)
	}
	if s.len.IsConst() && s.len.c.Cmp(big1) == 0 && s.op == "sub" && s.args[1].IsConst() {
		return tt.byteAtom(s.args[0], int(s.args[1].c.Int64()))
	}
	var hi *big.Int
	if s.len.IsConst() {
		hi = pow2m(8 * int(s.len.c.Int64()))
	}
	return tt.Atom("val", "", 0, big0, hi, s)
}

func (tt *Terms) byteAtom(base *T, i int) *T {
	if base.op == "lit" {
		return tt.Int(int64(base.s[i]))
	}
	if base.op == "byte" {
		return base.args[0]
	}
	if base.op == "rev" && base.len.IsConst() {
		return tt.byteAtom(base.args[0], int(base.len.c.Int64())-1-i)
	}
	hi := bi(255)
	if base.op == "be" && i == 0 && base.args[0].hi != nil {
		h := new(big.Int).Rsh(base.args[0].hi, uint(8*(base.n-1)))
		if h.Cmp(hi) < 0 {
			hi = h
		}
	}
	return tt.Atom("byteAt", "", i, big0, hi, base)
}

// Hash output.
func (tt *Terms) BHash(alg string, n int, args ...*T) *T {
	return tt.bAtom("hash", alg, 0, tt.Int(int64(n)), args...)
}

// ---- operations that need path facts ----

// locate finds the segment position of offset off; returns index i and the
// offset inside segment i (nil when on its left boundary).
func (in *Interp) locate(ss []*T, off *T, pc *B) (int, *T, bool) {
	tt := in.tt
	p := tt.Int(0)
	for i, s := range ss {
		d := tt.Sub(off, p)
		if d.IsConst() && d.c.Sign() == 0 {
			return i, nil, true
		}
		e := tt.Sub(d, s.len)
		if in.proveGE0(d, pc) && in.proveGE0(tt.Neg(e), pc) {
			if e.IsConst() && e.c.Sign() == 0 {
				return i + 1, nil, true
			}
			return i, d, true
		}
		p = tt.Add(p, s.len)
	}
	d := tt.Sub(off, p)
	if d.IsConst() && d.c.Sign() == 0 {
		return len(ss), nil, true
	}
	lo, hi := in.rangeOf(d, pc)
	if lo != nil && hi != nil && lo.Sign() == 0 && hi.Sign() == 0 {
		return len(ss), nil, true
	}
	return 0, nil, false
}

func (in *Interp) proveGE0(t *T, pc *B) bool {
	lo, _ := in.rangeOf(t, pc)
	return lo != nil && lo.Sign() >= 0
}

func (in *Interp) bRange(b, off, ln *T, pc *B) *T {
	tt := in.tt
	if off.IsConst() && off.c.Sign() == 0 && ln == b.len {
		return b
	}
	if b.op == "choice" && len(b.args) <= 16 {
		var cs []*B
		var vs []*T
		for i, a := range b.args {
			p := tt.BAnd(pc, b.cs[i])
			if !in.feasible(p) {
				continue
			}
			cs = append(cs, b.cs[i])
			vs = append(vs, in.bRange(a, in.res(off, p), in.res(ln, p), p))
		}
		return tt.Choice(cs, vs)
	}
	ss := segs(b)
	i, di, ok1 := in.locate(ss, off, pc)
	j, dj, ok2 := in.locate(ss, tt.Add(off, ln), pc)
	if !ok1 || !ok2 || i > j {
		return tt.bsub(b, off, ln)
	}
	if i == j && di != nil && dj != nil {
		return tt.bsub(ss[i], di, tt.Sub(dj, di))
	}
	if i == j && di == nil && dj != nil {
		return tt.bsub(ss[i], tt.Int(0), dj)
	}
	var out []*T
	if di != nil {
		out = append(out, tt.bsub(ss[i], di, tt.Sub(ss[i].len, di)))
		i++
	}
	for ; i < j; i++ {
		out = append(out, ss[i])
	}
	if dj != nil {
		out = append(out, tt.bsub(ss[j], tt.Int(0), dj))
	}
	return tt.BCat(out...)
}

func (in *Interp) bWrite(b, off, data *T, pc *B) *T {
	tt := in.tt
	if off.IsConst() && off.c.Sign() == 0 && data.len == b.len {
		return data
	}
	if b.op == "choice" && len(b.args) <= 16 {
		var cs []*B
		var vs []*T
		for i, a := range b.args {
			p := tt.BAnd(pc, b.cs[i])
			if !in.feasible(p) {
				continue
			}
			cs = append(cs, b.cs[i])
			vs = append(vs, in.bWrite(a, in.res(off, p), in.resB(data, p), p))
		}
		return tt.Choice(cs, vs)
	}
	if data.op == "choice" && len(data.args) <= 16 {
		var cs []*B
		var vs []*T
		for i, a := range data.args {
			p := tt.BAnd(pc, data.cs[i])
			if !in.feasible(p) {
				continue
			}
			cs = append(cs, data.cs[i])
			vs = append(vs, in.bWrite(b, in.res(off, p), a, p))
		}
		return tt.Choice(cs, vs)
	}
	if off.op == "choice" && len(off.args) <= 16 {
		var cs []*B
		var vs []*T
		for i, a := range off.args {
			p := tt.BAnd(pc, off.cs[i])
			if !in.feasible(p) {
				continue
			}
			cs = append(cs, off.cs[i])
			vs = append(vs, in.bWrite(b, a, data, p))
		}
		return tt.Choice(cs, vs)
	}
	end := tt.Add(off, data.len)
	ss := segs(b)
	_, _, ok1 := in.locate(ss, off, pc)
	_, _, ok2 := in.locate(ss, end, pc)
	if !ok1 || !ok2 {
		return tt.bAtom("upd", "", 0, b.len, b, off, data)
	}
	return tt.BCat(in.bRange(b, tt.Int(0), off, pc), data, in.bRange(b, end, tt.Sub(b.len, end), pc))
}

func (in *Interp) bAt(b, idx *T, pc *B) *T {
	tt := in.tt
	if idx.op == "choice" && len(idx.args) <= 64 {
		var cs []*B
		var vs []*T
		for i, a := range idx.args {
			p := tt.BAnd(pc, idx.cs[i])
			if !in.feasible(p) {
				continue
			}
			cs = append(cs, idx.cs[i])
			vs = append(vs, in.bAt(b, a, p))
		}
		return tt.Choice(cs, vs)
	}
	if b.op == "choice" && len(b.args) <= 16 {
		var cs []*B
		var vs []*T
		for i, a := range b.args {
			p := tt.BAnd(pc, b.cs[i])
			if !in.feasible(p) {
				continue
			}
			cs = append(cs, b.cs[i])
			vs = append(vs, in.bAt(a, idx, p))
		}
		return tt.Choice(cs, vs)
	}
	r := in.bRange(b, idx, tt.Int(1), pc)
	switch r.op {
	case "lit":
		if len(r.s) == 1 {
			return tt.Int(int64(r.s[0]))
		}
	case "byte":
		return r.args[0]
	case "zeros":
		return tt.Int(0)
	case "sub":
		if r.args[1].IsConst() {
			return tt.byteAtom(r.args[0], int(r.args[1].c.Int64()))
		}
		return tt.Atom("byteSym", "", 0, big0, bi(255), r.args[0], r.args[1])
	case "choice":
		return tt.Val(r)
	}
	if r.len.IsConst() && r.len.c.Cmp(big1) == 0 && r.op != "cat" {
		return tt.byteAtom(r, 0)
	}
	return tt.Atom("byteSym", "", 0, big0, bi(255), b, idx)
}
