package main

import (
	"fmt"
	"math/big"
	"os"

	"golang.org/x/tools/go/ssa"
)

// C20: the hash implementations of the repository, evaluated on a message of
// unknown content, against an independently written specification in the same
// term algebra.

func init() { checks["C20"] = checkC20 }

// ---- reference specifications ----

type hw struct {
	in *Interp
	tt *Terms
	w  int
}

func (h hw) c(v uint64) *T  { return h.tt.Const(new(big.Int).SetUint64(v)) }
func (h hw) xor(l ...*T) *T { return h.fold(h.tt.Xor, l) }
func (h hw) and(l ...*T) *T { return h.fold(h.tt.And, l) }
func (h hw) or(l ...*T) *T  { return h.fold(h.tt.Or, l) }
func (h hw) fold(f func(a, b *T, w int) *T, l []*T) *T {
	r := l[0]
	for _, x := range l[1:] {
		r = f(r, x, h.w)
	}
	return r
}
func (h hw) not(a *T) *T { return h.tt.Not(a, h.w) }
func (h hw) add(l ...*T) *T {
	r := l[0]
	for _, x := range l[1:] {
		r = h.tt.Add(r, x)
	}
	return h.tt.Wrap(r, h.w, false)
}
func (h hw) rotr(a *T, k int) *T { return h.rotl(a, (h.w-k)%h.w) }
func (h hw) rotl(a *T, k int) *T {
	if k %= h.w; k == 0 {
		return a
	}
	return h.tt.Or(h.tt.Wrap(h.tt.Scale(a, pow2(k)), h.w, false), h.tt.Shr(a, h.w-k), h.w)
}

// words of a byte string of known length.
func (h hw) words(b *T, le bool) []*T {
	n := int(b.len.c.Int64()) * 8 / h.w
	var out []*T
	for i := 0; i < n; i++ {
		v := h.tt.Int(0)
		for j := 0; j < h.w/8; j++ {
			x := h.in.bAt(b, h.tt.Int(int64(i*h.w/8+j)), h.tt.True)
			s := 8 * (h.w/8 - 1 - j)
			if le {
				s = 8 * j
			}
			v = h.tt.Add(v, h.tt.Scale(x, pow2(s)))
		}
		out = append(out, v)
	}
	return out
}

var blakeSigma = [10][16]int{
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
	{14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
	{11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
	{7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
	{9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
	{2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
	{12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
	{13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
	{6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5},
	{10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0},
}

var blakeLanes = [8][4]int{{0, 4, 8, 12}, {1, 5, 9, 13}, {2, 6, 10, 14}, {3, 7, 11, 15}, {0, 5, 10, 15}, {1, 6, 11, 12}, {2, 7, 8, 13}, {3, 4, 9, 14}}

// blake: one compression of BLAKE-256 (w=32) or BLAKE-512 (w=64); t0, t1 are
// the counter words.
func (h hw) blake(cv, salt, m []*T, t0, t1 *T) []*T {
	rounds, rot := 14, [4]int{16, 12, 8, 7}
	cst := make([]*T, 16)
	for i := range cst {
		cst[i] = h.c(piWords[i])
	}
	if h.w == 64 {
		rounds, rot = 16, [4]int{32, 25, 16, 11}
		for i := range cst {
			cst[i] = h.c(piWords[2*i]<<32 | piWords[2*i+1])
		}
	}
	v := append([]*T{}, cv...)
	for i := 0; i < 4; i++ {
		v = append(v, h.xor(salt[i], cst[i]))
	}
	v = append(v, h.xor(t0, cst[4]), h.xor(t0, cst[5]), h.xor(t1, cst[6]), h.xor(t1, cst[7]))
	for r := 0; r < rounds; r++ {
		s := blakeSigma[r%10]
		for i, l := range blakeLanes {
			a, b, c, d := l[0], l[1], l[2], l[3]
			v[a] = h.add(v[a], v[b], h.xor(m[s[2*i]], cst[s[2*i+1]]))
			v[d] = h.rotr(h.xor(v[d], v[a]), rot[0])
			v[c] = h.add(v[c], v[d])
			v[b] = h.rotr(h.xor(v[b], v[c]), rot[1])
			v[a] = h.add(v[a], v[b], h.xor(m[s[2*i+1]], cst[s[2*i]]))
			v[d] = h.rotr(h.xor(v[d], v[a]), rot[2])
			v[c] = h.add(v[c], v[d])
			v[b] = h.rotr(h.xor(v[b], v[c]), rot[3])
		}
	}
	out := make([]*T, 8)
	for i := range out {
		out[i] = h.xor(cv[i], salt[i%4], v[i], v[i+8])
	}
	return out
}

// blake2s: one compression with counter words t0, t1 and finalisation flag f.
func (h hw) blake2s(cv, m []*T, t0, t1, f *T) []*T {
	return h.blake2sN(cv, m, t0, t1, f, h.tt.Int(0))
}

// blake2sN: with both finalisation flags.
func (h hw) blake2sN(cv, m []*T, t0, t1, f, f1 *T) []*T {
	v := append([]*T{}, cv...)
	for i := 0; i < 8; i++ {
		v = append(v, h.tt.Const(new(big.Int).Rsh(sqrtFrac(primes16[i], 64), 32)))
	}
	v[12], v[13], v[14] = h.xor(v[12], t0), h.xor(v[13], t1), h.xor(v[14], f)
	v[15] = h.xor(v[15], f1)
	for r := 0; r < 10; r++ {
		s := blakeSigma[r]
		for i, l := range blakeLanes {
			a, b, c, d := l[0], l[1], l[2], l[3]
			v[a] = h.add(v[a], v[b], m[s[2*i]])
			v[d] = h.rotr(h.xor(v[d], v[a]), 16)
			v[c] = h.add(v[c], v[d])
			v[b] = h.rotr(h.xor(v[b], v[c]), 12)
			v[a] = h.add(v[a], v[b], m[s[2*i+1]])
			v[d] = h.rotr(h.xor(v[d], v[a]), 8)
			v[c] = h.add(v[c], v[d])
			v[b] = h.rotr(h.xor(v[b], v[c]), 7)
		}
	}
	out := make([]*T, 8)
	for i := range out {
		out[i] = h.xor(cv[i], v[i], v[i+8])
	}
	return out
}

var sm3IV = []uint64{0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}

func (h hw) sm3(cv, m []*T) []*T {
	W := append([]*T{}, m...)
	p1 := func(x *T) *T { return h.xor(x, h.rotl(x, 15), h.rotl(x, 23)) }
	p0 := func(x *T) *T { return h.xor(x, h.rotl(x, 9), h.rotl(x, 17)) }
	for j := 16; j < 68; j++ {
		W = append(W, h.xor(p1(h.xor(W[j-16], W[j-9], h.rotl(W[j-3], 15))), h.rotl(W[j-13], 7), W[j-6]))
	}
	v := append([]*T{}, cv...)
	A, B, C, D, E, F, G, H := 0, 1, 2, 3, 4, 5, 6, 7
	for j := 0; j < 64; j++ {
		t := uint32(0x79cc4519)
		ff, gg := h.xor(v[A], v[B], v[C]), h.xor(v[E], v[F], v[G])
		if j >= 16 {
			t = 0x7a879d8a
			ff = h.or(h.and(v[A], v[B]), h.and(v[A], v[C]), h.and(v[B], v[C]))
			gg = h.or(h.and(v[E], v[F]), h.and(h.not(v[E]), v[G]))
		}
		k := uint(j % 32)
		tj := h.c(uint64(t<<k | t>>(32-k)))
		ss1 := h.rotl(h.add(h.rotl(v[A], 12), v[E], tj), 7)
		ss2 := h.xor(ss1, h.rotl(v[A], 12))
		tt1 := h.add(ff, v[D], ss2, h.xor(W[j], W[j+4]))
		tt2 := h.add(gg, v[H], ss1, W[j])
		v = []*T{tt1, v[A], h.rotl(v[B], 9), v[C], p0(tt2), v[E], h.rotl(v[F], 19), v[G]}
	}
	for i := range v {
		v[i] = h.xor(v[i], cv[i])
	}
	return v
}

// keccakF: the permutation on 25 lanes, lane (x, y) at x+5y.
func (h hw) keccakF(a []*T) []*T {
	rc := keccakRCs()
	var rot [25]int
	x, y := 1, 0
	for t := 0; t < 24; t++ {
		rot[x+5*y] = (t + 1) * (t + 2) / 2 % 64
		x, y = y, (2*x+3*y)%5
	}
	for r := 0; r < 24; r++ {
		var c [5]*T
		for x := range c {
			c[x] = h.xor(a[x], a[x+5], a[x+10], a[x+15], a[x+20])
		}
		b := make([]*T, 25)
		for x := 0; x < 5; x++ {
			d := h.xor(c[(x+4)%5], h.rotl(c[(x+1)%5], 1))
			for y := 0; y < 5; y++ {
				b[y+5*((2*x+3*y)%5)] = h.rotl(h.xor(a[x+5*y], d), rot[x+5*y])
			}
		}
		n := make([]*T, 25)
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				n[x+5*y] = h.xor(b[x+5*y], h.and(h.not(b[(x+1)%5+5*y]), b[(x+2)%5+5*y]))
			}
		}
		n[0] = h.xor(n[0], h.tt.Const(rc[r]))
		a = n
	}
	return a
}

// perm: Keccak-f as an uninterpreted permutation where the implementation calls
// the function the model stands for, and in full otherwise.
func (h hw) perm(a []*T) []*T {
	if h.in.permUsed == 0 {
		return h.keccakF(a)
	}
	o := make([]*T, 25)
	for i := range o {
		o[i] = h.tt.Atom("keccak", "", i, big0, pow2m(64), a...)
	}
	return o
}

// ---- whole digests as lists of words ----

type hashAlg struct {
	key, pkg, fn string
	w            int
	le           bool
	block        int // bytes
	size         int // bytes
	spec         func(h hw, msg *T) []*T
	args         func(h *H, st *State) []Val
}

func (h hw) lit(b ...byte) *T { return h.tt.BLit(string(b)) }

// mdPad: 0x80…, marker bit, big-endian bit length in tail bytes.
func (h hw) mdPad(msg *T, block, tail int, mark byte) *T {
	n := int(msg.len.c.Int64())
	z := block - tail - 1 - n%block
	for z < 0 {
		z += block
	}
	p := make([]byte, z+1+tail)
	p[0] = 0x80
	p[z] |= mark
	bl := new(big.Int).SetInt64(int64(n) * 8).FillBytes(make([]byte, tail))
	copy(p[z+1:], bl)
	return h.tt.BCat(msg, h.tt.BLit(string(p)))
}

func (h hw) blakeDigest(msg *T, iv []*T, salt []*T, full bool) []*T {
	block, tail := 64, 8
	if h.w == 64 {
		block, tail = 128, 16
	}
	mark := byte(0)
	if full {
		mark = 1
	}
	n := int(msg.len.c.Int64())
	m := h.words(h.mdPad(msg, block, tail, mark), false)
	cv := iv
	for i := 0; i*16 < len(m); i++ {
		cnt := 8 * n
		if 8*block*(i+1) < cnt {
			cnt = 8 * block * (i + 1)
		}
		if n <= block*i {
			cnt = 0 // no message bit in this block
		}
		cv = h.blake(cv, salt, m[16*i:16*i+16], h.tt.Int(int64(cnt)), h.tt.Int(0))
	}
	return cv
}

func (h hw) ivWords(from int, tail bool) []*T {
	var l []*T
	for i := 0; i < 8; i++ {
		v := sqrtFrac(primes16[from+i], 64)
		if h.w == 32 {
			if tail {
				v = new(big.Int).And(v, bi(0xffffffff))
			} else {
				v = new(big.Int).Rsh(v, 32)
			}
		}
		l = append(l, h.tt.Const(v))
	}
	return l
}

func (h hw) zeros(n int) []*T {
	var l []*T
	for i := 0; i < n; i++ {
		l = append(l, h.tt.Int(0))
	}
	return l
}

func (h hw) blake2sDigest(msg *T, key *T, size int) []*T {
	n := int(msg.len.c.Int64())
	kl := 0
	if key != nil {
		kl = int(key.len.c.Int64())
		msg = h.tt.BCat(key, h.tt.BZeros(h.tt.Int(int64(64-kl))), msg)
		n += 64
	}
	cv := h.ivWords(0, false)
	cv[0] = h.xor(cv[0], h.c(uint64(0x01010000|kl<<8|size)))
	nb := (n + 63) / 64
	if nb == 0 {
		nb = 1
	}
	if z := nb*64 - n; z > 0 {
		msg = h.tt.BCat(msg, h.tt.BZeros(h.tt.Int(int64(z))))
	}
	m := h.words(msg, true)
	for i := 0; i < nb; i++ {
		t, f := 64*(i+1), uint64(0)
		if i == nb-1 {
			t, f = n, 0xffffffff
		}
		cv = h.blake2s(cv, m[16*i:16*i+16], h.tt.Int(int64(t)), h.tt.Int(0), h.c(f))
	}
	return cv
}

func (h hw) sm3Digest(msg *T) []*T {
	m := h.words(h.mdPad(msg, 64, 8, 0), false)
	var cv []*T
	for _, x := range sm3IV {
		cv = append(cv, h.c(x))
	}
	for i := 0; i*16 < len(m); i++ {
		cv = h.sm3(cv, m[16*i:16*i+16])
	}
	return cv
}

// sponge: the first out bytes of Keccak[rate] with domain byte ds, as lanes.
func (h hw) sponge(msg *T, rate int, ds byte, out int) []*T {
	n := int(msg.len.c.Int64())
	p := make([]byte, rate-n%rate)
	p[0] = ds
	p[len(p)-1] |= 0x80
	m := h.words(h.tt.BCat(msg, h.tt.BLit(string(p))), true)
	s := h.zeros(25)
	for i := 0; i < len(m); i += rate / 8 {
		for j := 0; j < rate/8; j++ {
			s[j] = h.xor(s[j], m[i+j])
		}
		s = h.perm(s)
	}
	var o []*T
	for len(o)*8 < out {
		if len(o) > 0 {
			s = h.perm(s)
		}
		o = append(o, s[:rate/8]...)
	}
	return o
}

// specBytes: the digest bytes of the state words.
func (h hw) bytes(ws []*T, le bool, size int) []*T {
	var l []*T
	for _, x := range ws {
		if !le {
			l = append(l, h.tt.BE(x, h.w/8))
			continue
		}
		for j := 0; j < h.w/8; j++ {
			l = append(l, h.tt.BByte(h.tt.Wrap(h.tt.Shr(x, 8*j), 8, false)))
		}
	}
	b := h.tt.BCat(l...)
	var out []*T
	for i := 0; i < size; i++ {
		out = append(out, h.in.bAt(b, h.tt.Int(int64(i)), h.tt.True))
	}
	return out
}

// ---- driving the implementation ----

func (h *H) pkgFn(pkg, name string) *ssa.Function {
	for _, sp := range h.p.RepoSP {
		if shortS(sp.Pkg.Path()) == pkg || sp.Pkg.Name() == pkg {
			return sp.Func(name)
		}
	}
	return nil
}

// method calls a method of the dynamic value of an interface or pointer.
func (h *H) method(v Val, st *State, name string, args ...Val) (Val, *State) {
	i, ok := v.(*IfaceV)
	if !ok || i.typ == nil {
		return nil, nil
	}
	ms := h.in.p.SSA.MethodSets.MethodSet(i.typ)
	for k := 0; k < ms.Len(); k++ {
		if ms.At(k).Obj().Name() == name {
			fn := h.in.p.SSA.MethodValue(ms.At(k))
			return h.in.callFunc(fn, append([]Val{i.v}, args...), nil, st, nil)
		}
	}
	return nil, nil
}

// rawHashes: an interpreter in which the repository's hash packages are
// interpreted, not modelled.
func newRaw(p *Prog, r *Report) *H {
	in := NewInterp(p)
	in.Std()
	for _, n := range []string{"sm3.New", "sha3.NewKeccak256", "sha3.NewKeccak512", "sha3.New224", "sha3.New256", "sha3.New384", "sha3.New512",
		"blake256.New", "blake256.New224", "blake512.New", "blake512.New384", "blake2s.New256", "blake2s.NewMAC", "sm3.Sm3Sum"} {
		delete(in.models, n)
	}
	in.RunInit("sm3", "sha3", "blake256", "blake512", "blake2s")
	h := &H{p: p, r: r, in: in, tt: in.tt}
	h.drain("init")
	return h
}

func first(v Val) Val {
	if t, ok := v.(*TupleV); ok && len(t.el) > 0 {
		return t.el[0]
	}
	return v
}

// digestOf: New(args) ; Write(msg) ; Sum(nil), as bytes.
func (h *H) digestRun(key string, mk *ssa.Function, mkArgs func(st *State) []Val, msg *T) *T {
	in := h.in
	st := in.newState()
	in.nsteps = 0
	var args []Val
	if mkArgs != nil {
		args = mkArgs(st)
	}
	v, st := in.callFunc(mk, args, nil, st, nil)
	if st == nil {
		h.r.Undecided(key, "the constructor does not return")
		return nil
	}
	o := first(v)
	if msg.len.c.Sign() != 0 {
		if _, st = h.method(o, st, "Write", in.sliceArg(msg, st)); st == nil {
			h.r.Undecided(key, "Write does not return")
			return nil
		}
	}
	v, st = h.method(o, st, "Sum", in.nilSlice())
	h.drain(key)
	if st == nil {
		h.r.Undecided(key, "Sum does not return")
		return nil
	}
	h.r.Count("interpreted_steps", in.nsteps)
	return in.resB(in.bytesOf(v, st), st.pc)
}

// sameBytes compares a byte string with the expected bytes.
func (h *H) sameBytes(key, pos string, got *T, want []*T) {
	in, tt := h.in, h.tt
	if !got.len.IsConst() {
		h.r.Undecided(key, "the digest has no constant length: "+clip(got.len.String(), 200))
		return
	}
	if got.len.c.Cmp(bi(int64(len(want)))) != 0 {
		h.r.Bad(key, pos, fmt.Sprintf("the digest has %s bytes, must have %d", got.len.c, len(want)))
		return
	}
	var gs []*T
	for i := range want {
		gs = append(gs, in.bAt(got, tt.Int(int64(i)), tt.True))
	}
	h.sameTerms(key, pos, "byte %d of the digest", "digest_bytes", gs, want)
}

// sameTerms compares two lists of numbers.
func (h *H) sameTerms(key, pos, what, unit string, got, want []*T) {
	in, tt := h.in, h.tt
	eq := true
	seen := map[*T]bool{}
	for i, w := range want {
		h.r.Count(unit, 1)
		if got[i] == w {
			continue
		}
		eq = false
		if u := unknownT(got[i], seen); u != "" {
			h.r.Undecided(key, "depends on "+u)
			return
		}
	}
	if eq {
		h.r.OK(key, pos, "")
		return
	}
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Println("RAND", key)
	}
	same, i := in.sameList(got, want, tt.True)
	switch {
	case same:
		h.r.Count("random_interpretation", 1)
		h.r.OK(key, pos, "")
	case i < 0:
		h.r.Undecided(key, "equality with the specification is neither shown nor refuted")
	default:
		h.r.Bad(key, pos, fmt.Sprintf(what+" differs from the specification's: %s", i, clip(got[i].String(), 300)))
	}
}

// modelKeccakF: the permutation, where the build takes it from assembly.
func (h *H) modelKeccakF() {
	w := hw{h.in, h.tt, 64}
	h.in.def("sha3.keccakF1600", func(in *Interp, c *callCtx) (Val, bool) {
		pv, ok := c.args[0].(*PtrV)
		if !ok {
			return nil, false
		}
		l, ok := lanes(in.load(pv, c.st, c.pos, nil))
		if !ok || len(l) != 25 {
			return nil, false
		}
		n := &AggV{}
		in.permUsed++
		for _, x := range w.perm(l) {
			n.el = append(n.el, x)
		}
		in.store(pv, n, c.st, c.pos)
		return &TupleV{}, true
	})
}

func lanes(v Val) ([]*T, bool) {
	a, ok := v.(*AggV)
	if !ok {
		return nil, false
	}
	var l []*T
	for _, x := range a.el {
		t, ok := x.(*T)
		if !ok {
			return nil, false
		}
		l = append(l, t)
	}
	return l, true
}

// saltIn: the salt the salted constructors are given.
func (h hw) saltIn() *T { return h.tt.BIn("salt", h.tt.Int(int64(h.w/2))) }

func saltArg(w int) func(h *H, st *State) []Val {
	return func(h *H, st *State) []Val { return []Val{h.in.sliceArg(hw{h.in, h.tt, w}.saltIn(), st)} }
}

func macArg(size, kl int64) func(h *H, st *State) []Val {
	return func(h *H, st *State) []Val {
		return []Val{h.tt.Int(size), h.in.sliceArg(h.tt.BIn("key", h.tt.Int(kl)), st)}
	}
}

var c20algs = []hashAlg{
	{"blake256", "blake256", "New", 32, false, 64, 32, func(h hw, m *T) []*T { return h.blakeDigest(m, h.ivWords(0, false), h.zeros(4), true) }, nil},
	{"blake224", "blake256", "New224", 32, false, 64, 28, func(h hw, m *T) []*T { return h.blakeDigest(m, h.ivWords(8, true), h.zeros(4), false) }, nil},
	{"blake512", "blake512", "New", 64, false, 128, 64, func(h hw, m *T) []*T { return h.blakeDigest(m, h.ivWords(0, false), h.zeros(4), true) }, nil},
	{"blake384", "blake512", "New384", 64, false, 128, 48, func(h hw, m *T) []*T { return h.blakeDigest(m, h.ivWords(8, false), h.zeros(4), false) }, nil},
	{"blake2s", "blake2s", "New256", 32, true, 64, 32, func(h hw, m *T) []*T { return h.blake2sDigest(m, nil, 32) }, nil},
	{"sm3", "sm3", "New", 32, false, 64, 32, func(h hw, m *T) []*T { return h.sm3Digest(m) }, nil},
	{"blake256-salt", "blake256", "NewSalt", 32, false, 64, 32, func(h hw, m *T) []*T {
		return h.blakeDigest(m, h.ivWords(0, false), h.words(h.saltIn(), false), true)
	}, saltArg(32)},
	{"blake224-salt", "blake256", "New224Salt", 32, false, 64, 28, func(h hw, m *T) []*T {
		return h.blakeDigest(m, h.ivWords(8, true), h.words(h.saltIn(), false), false)
	}, saltArg(32)},
	{"blake512-salt", "blake512", "NewSalt", 64, false, 128, 64, func(h hw, m *T) []*T {
		return h.blakeDigest(m, h.ivWords(0, false), h.words(h.saltIn(), false), true)
	}, saltArg(64)},
	{"blake384-salt", "blake512", "New384Salt", 64, false, 128, 48, func(h hw, m *T) []*T {
		return h.blakeDigest(m, h.ivWords(8, false), h.words(h.saltIn(), false), false)
	}, saltArg(64)},
	{"blake2s-mac", "blake2s", "NewMAC", 32, true, 64, 32, func(h hw, m *T) []*T { return h.blake2sDigest(m, h.tt.BIn("key", h.tt.Int(32)), 32) }, macArg(32, 32)},
	{"blake2s-mac16", "blake2s", "NewMAC", 32, true, 64, 16, func(h hw, m *T) []*T { return h.blake2sDigest(m, h.tt.BIn("key", h.tt.Int(7)), 16) }, macArg(16, 7)},
	{"keccak256", "sha3", "NewKeccak256", 64, true, 136, 32, func(h hw, m *T) []*T { return h.sponge(m, 136, 1, 32) }, nil},
	{"keccak512", "sha3", "NewKeccak512", 64, true, 72, 64, func(h hw, m *T) []*T { return h.sponge(m, 72, 1, 64) }, nil},
	{"sha3-224", "sha3", "New224", 64, true, 144, 28, func(h hw, m *T) []*T { return h.sponge(m, 144, 6, 28) }, nil},
	{"sha3-256", "sha3", "New256", 64, true, 136, 32, func(h hw, m *T) []*T { return h.sponge(m, 136, 6, 32) }, nil},
	{"sha3-384", "sha3", "New384", 64, true, 104, 48, func(h hw, m *T) []*T { return h.sponge(m, 104, 6, 48) }, nil},
	{"sha3-512", "sha3", "New512", 64, true, 72, 64, func(h hw, m *T) []*T { return h.sponge(m, 72, 6, 64) }, nil},
}

// digestsOf takes every parts-th message length.
func (h *H) digestsOf(pre string, only string, part, parts int, algs ...hashAlg) {
	for _, a := range algs {
		if only != "" && a.pkg != only {
			continue
		}
		mk := h.pkgFn(a.pkg, a.fn)
		if mk == nil {
			h.r.Undecided(pre+a.key, "no constructor "+a.pkg+"."+a.fn)
			continue
		}
		w := hw{h.in, h.tt, a.w}
		var ns []int
		b := a.block
		if h.r.Tier == "thorough" || a.pkg == "sha3" {
			for n := 0; n <= 2*b+1; n++ {
				ns = append(ns, n)
			}
		} else {
			ns = []int{0, 1, b - b/8 - 2, b - b/8 - 1, b - b/8, b - 1, b, b + 1, 2*b - b/8 - 1, 2 * b, 2*b + 3}
			if a.args != nil {
				ns = []int{0, b - b/8 - 1, b, b + 1}
			}
		}
		for i, n := range ns {
			if i%parts != part {
				continue
			}
			key := fmt.Sprintf("%s%s/%d", pre, a.key, n)
			msg := h.tt.BIn("msg", h.tt.Int(int64(n)))
			var mkArgs func(st *State) []Val
			if a.args != nil {
				mkArgs = func(st *State) []Val { return a.args(h, st) }
			}
			got := h.digestRun(key, mk, mkArgs, msg)
			if got == nil {
				continue
			}
			h.sameBytes(key, h.p.Pos(mk.Pos()), got, w.bytes(a.spec(w, msg), a.le, a.size))
		}
	}
}

func checkC20(p *Prog, r *Report) {
	r.Explain = "Each hash of the repository is evaluated from its source on messages of unknown content (lengths from empty to beyond two blocks), and every digest byte, a term over the message bytes, is compared with the term an independently written specification gives. The compression functions are also compared on unknown chaining values, counters and blocks."
	r.Assume = []string{"the amd64 assembly of Keccak-f is taken to be the permutation; the portable source is compared with it"}
	raw := func(p *Prog, r *Report) *H {
		h := newRaw(p, r)
		if f := h.pkgFn("sha3", "keccakF1600"); f != nil && f.Blocks == nil {
			h.modelKeccakF()
		}
		return h
	}
	var jobs []func(r *Report)
	for _, a := range c20algs {
		a := a
		n := 1
		if a.pkg == "sha3" {
			n = 6
		}
		for k := 0; k < n; k++ {
			jobs = append(jobs, func(r *Report) { raw(p, r).digestsOf("", "", k, n, a) })
		}
	}
	jobs = append(jobs, func(r *Report) { raw(p, r).plainSums() }, func(r *Report) { raw(p, r).blake2sConfig() })
	for _, a := range c20mds() {
		a := a
		for k := 0; k < 16; k++ {
			k := k
			jobs = append(jobs, func(r *Report) { raw(p, r).steps(a, k, 16) })
		}
	}
	p2, err := LoadProg(p.Repo, verifDir, "appengine,generic")
	if err != nil {
		r.Undecided("portable", "the portable build does not load: "+err.Error())
		return
	}
	jobs = append(jobs, func(r *Report) { portableKeccak(p2, r) })
	for _, a := range c20algs {
		a := a
		for k := 0; k < 6 && a.pkg == "sha3"; k++ {
			jobs = append(jobs, func(r *Report) {
				h := newRaw(p2, r)
				h.modelKeccakF()
				h.digestsOf("portable/", "sha3", k, 6, a)
			})
		}
	}
	r.parallel(len(jobs), func(i int, r *Report) { jobs[i](r) })
	r.Min["digest_bytes"] = 3000
}

func portableKeccak(p2 *Prog, r *Report) {
	h2 := newRaw(p2, r)
	if fn := h2.pkgFn("sha3", "keccakF1600"); fn != nil && fn.Blocks != nil {
		w := hw{h2.in, h2.tt, 64}
		st := h2.in.newState()
		o := h2.in.newObj("lanes", nil, 0)
		a := &AggV{}
		var l []*T
		for i := 0; i < 25; i++ {
			t := h2.tt.Atom("in", fmt.Sprintf("lane%d", i), 0, big0, pow2m(64))
			l = append(l, t)
			a.el = append(a.el, t)
		}
		st.mem[o] = a
		_, st = h2.in.CallFn(fn, []Val{&PtrV{o: o}}, nil, st)
		h2.drain("keccakF1600")
		if st == nil {
			r.Undecided("keccakF1600", "does not return")
		} else if got, ok := lanes(h2.in.objVal(st, o)); !ok {
			r.Undecided("keccakF1600", "the state is not understood")
		} else {
			h2.sameWords("keccakF1600", p2.Pos(fn.Pos()), got, w.keccakF(l))
		}
	} else {
		r.Undecided("keccakF1600", "no portable permutation")
	}
}

func (h *H) sameWords(key, pos string, got, want []*T) {
	h.sameTerms(key, pos, "word %d of the result", "state_words", got, want)
}
