package main

import (
	"fmt"
	"go/types"
)

// The hash objects in an arbitrary state: chaining value, counter and buffered
// bytes unknown. Absorbing from there, and finalising from there, are the two
// steps of which every digest of every message is made.

// objOf: the object a constructor's result points to.
func objOf(v Val) *Obj {
	if i, ok := v.(*IfaceV); ok && i.typ != nil {
		v = i.v
	}
	if p, ok := v.(*PtrV); ok && len(p.path) == 0 {
		return p.o
	}
	return nil
}

func structOf(v Val) *types.Struct {
	i, ok := v.(*IfaceV)
	if !ok || i.typ == nil {
		return nil
	}
	t := i.typ
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func fieldIx(s *types.Struct, name string) int {
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// setFields overwrites named fields of the object; false if one is missing.
func (h *H) setFields(v Val, st *State, m map[string]Val) bool {
	o, s := objOf(v), structOf(v)
	if o == nil || s == nil {
		return false
	}
	a, ok := h.in.objVal(st, o).(*AggV)
	if !ok {
		return false
	}
	n := &AggV{el: append([]Val{}, a.el...)}
	for k, x := range m {
		i := fieldIx(s, k)
		if i < 0 || i >= len(n.el) {
			return false
		}
		n.el[i] = x
	}
	st.mem[o] = n
	return true
}

func (h *H) field(v Val, st *State, name string) Val {
	o, s := objOf(v), structOf(v)
	if o == nil || s == nil {
		return nil
	}
	a, ok := h.in.objVal(st, o).(*AggV)
	i := fieldIx(s, name)
	if !ok || i < 0 || i >= len(a.el) {
		return nil
	}
	return a.el[i]
}

func (h hw) atoms(name string, n int) []*T {
	var l []*T
	for i := 0; i < n; i++ {
		l = append(l, h.tt.Atom("in", fmt.Sprintf("%s%d", name, i), 0, big0, pow2m(h.w)))
	}
	return l
}

func agg(l []*T) *AggV {
	a := &AggV{}
	for _, x := range l {
		a.el = append(a.el, x)
	}
	return a
}

// mdState describes the state of a block-chained hash: counter is the number
// of bytes absorbed before the buffered ones.
type mdAlg struct {
	key, pkg, fn string
	w            int
	le           bool
	block, size  int
	// inject the state: chaining value cv, blk blocks absorbed, buffer of nx bytes
	inject func(h *H, o Val, st *State, cv []*T, blk *T, buf *T) bool
	// chaining value, number of absorbed blocks as the state's counter, buffered bytes
	chain string
	// absorb one block, blk blocks before it
	absorb func(h hw, cv, m []*T, blk *T) []*T
	final  func(h hw, cv []*T, blk, buf *T) []*T
	state  func(h *H, o Val, st *State) (cv []*T, count *T, buf *T, ok bool)
	count  func(h hw, blk *T, nx int) *T
	lazy   bool // a full block stays buffered until more arrives
}

func padTo(h hw, b *T, n int) *T {
	l := int(b.len.c.Int64())
	return h.tt.BCat(b, h.tt.BZeros(h.tt.Int(int64(n-l))))
}

// mdFinal pads buf for a hash with big-endian bit length and absorbs it.
func (h hw) mdFinal(cv []*T, blk, buf *T, block, tail int, mark byte, comp func(h hw, cv, m []*T, bits *T) []*T) []*T {
	nx := int(buf.len.c.Int64())
	bits := h.tt.Add(h.tt.Scale(blk, bi(int64(8*block))), h.tt.Int(int64(8*nx)))
	z := block - tail - 1 - nx
	for z < 0 {
		z += block
	}
	p := make([]byte, z+1)
	p[0] = 0x80
	p[z] |= mark
	m := h.words(h.tt.BCat(buf, h.tt.BLit(string(p)), h.tt.BE(bits, tail)), false)
	for i := 0; i*16 < len(m); i++ {
		b := bits
		if i > 0 || nx == 0 {
			b = nil // no message bit in this block
		}
		cv = comp(h, cv, m[16*i:16*i+16], b)
	}
	return cv
}

func blakeComp(salt func(h hw) []*T) func(h hw, cv, m []*T, bits *T) []*T {
	return func(h hw, cv, m []*T, bits *T) []*T {
		t0, t1 := h.tt.Int(0), h.tt.Int(0)
		if bits != nil {
			t0, t1 = h.tt.Wrap(bits, h.w, false), h.tt.Wrap(h.tt.Shr(bits, h.w), h.w, false)
		}
		return h.blake(cv, salt(h), m, t0, t1)
	}
}

func sm3Comp(h hw, cv, m []*T, bits *T) []*T { return h.sm3(cv, m) }

func blakeAlg(key, fn string, w, size int, mark byte, salt func(h hw) []*T) mdAlg {
	pkg, block, tail := "blake256", 64, 8
	if w == 64 {
		pkg, block, tail = "blake512", 128, 16
	}
	comp := blakeComp(salt)
	return mdAlg{key: key, pkg: pkg, fn: fn, w: w, block: block, size: size, chain: "h",
		inject: func(h *H, o Val, st *State, cv []*T, blk, buf *T) bool {
			q := hw{h.in, h.tt, w}
			return h.setFields(o, st, map[string]Val{"h": agg(cv), "s": agg(salt(q)), "t": h.tt.Scale(blk, bi(int64(8*block))), "x": padTo(q, buf, block), "nx": buf.len})
		},
		absorb: func(h hw, cv, m []*T, blk *T) []*T {
			return comp(h, cv, m, h.tt.Scale(h.tt.Add(blk, h.tt.Int(1)), bi(int64(8*block))))
		},
		final: func(h hw, cv []*T, blk, buf *T) []*T { return h.mdFinal(cv, blk, buf, block, tail, mark, comp) },
		state: func(h *H, o Val, st *State) ([]*T, *T, *T, bool) {
			cv, ok := lanes(h.field(o, st, "h"))
			t, ok1 := h.field(o, st, "t").(*T)
			x, ok2 := h.field(o, st, "x").(*T)
			nx, ok3 := h.field(o, st, "nx").(*T)
			if !ok || !ok1 || !ok2 || !ok3 || !nx.IsConst() {
				return nil, nil, nil, false
			}
			return cv, t, h.in.bRange(x, h.tt.Int(0), nx, h.tt.True), true
		},
		count: func(h hw, blk *T, nx int) *T { return h.tt.Scale(blk, bi(int64(8*block))) },
	}
}

func blake2sAlg(hi bool) mdAlg {
	key := "blake2s"
	if hi {
		key = "blake2s-carry"
	}
	split := func(tt *Terms, n *T) (*T, *T) { return tt.Wrap(n, 32, false), tt.Shr(n, 32) }
	return mdAlg{key: key, pkg: "blake2s", fn: "New256", w: 32, le: true, block: 64, size: 32, chain: "h", lazy: true,
		inject: func(h *H, o Val, st *State, cv []*T, blk, buf *T) bool {
			q := hw{h.in, h.tt, 32}
			t0, t1 := split(h.tt, h.tt.Scale(blk, bi(64)))
			return h.setFields(o, st, map[string]Val{"h": agg(cv), "t": agg([]*T{t0, t1}), "x": padTo(q, buf, 64), "nx": buf.len})
		},
		absorb: func(h hw, cv, m []*T, blk *T) []*T {
			t0, t1 := split(h.tt, h.tt.Scale(h.tt.Add(blk, h.tt.Int(1)), bi(64)))
			return h.blake2s(cv, m, t0, t1, h.tt.Int(0))
		},
		final: func(h hw, cv []*T, blk, buf *T) []*T {
			t0, t1 := split(h.tt, h.tt.Add(h.tt.Scale(blk, bi(64)), buf.len))
			return h.blake2s(cv, h.words(padTo(h, buf, 64), true), t0, t1, h.c(0xffffffff))
		},
		state: func(h *H, o Val, st *State) ([]*T, *T, *T, bool) {
			cv, ok := lanes(h.field(o, st, "h"))
			t, ok1 := lanes(h.field(o, st, "t"))
			x, ok2 := h.field(o, st, "x").(*T)
			nx, ok3 := h.field(o, st, "nx").(*T)
			if !ok || !ok1 || !ok2 || !ok3 || !nx.IsConst() || len(t) != 2 {
				return nil, nil, nil, false
			}
			return cv, h.tt.Add(t[0], h.tt.Scale(t[1], pow2(32))), h.in.bRange(x, h.tt.Int(0), nx, h.tt.True), true
		},
		count: func(h hw, blk *T, nx int) *T {
			t0, t1 := split(h.tt, h.tt.Scale(blk, bi(64)))
			return h.tt.Add(t0, h.tt.Scale(t1, pow2(32)))
		},
	}
}

var sm3Alg = mdAlg{key: "sm3", pkg: "sm3", fn: "New", w: 32, block: 64, size: 32, chain: "digest",
	inject: func(h *H, o Val, st *State, cv []*T, blk, buf *T) bool {
		return h.setFields(o, st, map[string]Val{"digest": agg(cv), "unhandleMsg": h.in.newBytes(buf, st, "pending"),
			"length": h.tt.Add(h.tt.Scale(blk, bi(512)), h.tt.Scale(buf.len, bi(8)))})
	},
	absorb: func(h hw, cv, m []*T, blk *T) []*T { return h.sm3(cv, m) },
	final:  func(h hw, cv []*T, blk, buf *T) []*T { return h.mdFinal(cv, blk, buf, 64, 8, 0, sm3Comp) },
	state: func(h *H, o Val, st *State) ([]*T, *T, *T, bool) {
		cv, ok := lanes(h.field(o, st, "digest"))
		t, ok1 := h.field(o, st, "length").(*T)
		u := h.field(o, st, "unhandleMsg")
		if !ok || !ok1 || u == nil {
			return nil, nil, nil, false
		}
		b := h.in.resB(h.in.bytesOf(u, st), st.pc)
		return cv, t, b, b.len.IsConst()
	},
	count: func(h hw, blk *T, nx int) *T {
		return h.tt.Add(h.tt.Scale(blk, bi(512)), h.tt.Int(int64(8*nx)))
	},
}

// steps: Write and Sum from an arbitrary state, for every fill of the buffer
// (of which this call takes every parts-th).
func (h *H) steps(a mdAlg, part, parts int) {
	in, tt := h.in, h.tt
	q := hw{in, tt, a.w}
	mk := h.pkgFn(a.pkg, a.fn)
	if mk == nil {
		h.r.Undecided(a.key, "no constructor "+a.pkg+"."+a.fn)
		return
	}
	pos := h.p.Pos(mk.Pos())
	blk := tt.Atom("in", "blocks", 0, big0, pow2m(50))
	switch a.key {
	case "blake2s":
		blk = tt.Atom("in", "fewblocks", 0, big0, pow2m(25))
	case "blake2s-carry":
		// 2^32 bytes are about to be passed, with any high word
		blk = tt.Add(tt.Scale(tt.Atom("in", "high", 0, big0, pow2m(20)), pow2(26)), tt.Int(1<<26-1))
	}
	cv := q.atoms("h", 8)
	var nxs []int
	for n := part; n < a.block; n += parts {
		nxs = append(nxs, n)
	}
	if a.lazy && a.block%parts == part {
		nxs = append(nxs, a.block)
	}
	writes := func(nx int) []int {
		b := a.block
		l := []int{1, b}
		if nx <= 1 || nx >= b-1 {
			l = append(l, 2*b+1)
		}
		if h.r.Tier == "thorough" {
			l = []int{1, 2, 3, b - nx - 1, b - nx, b - nx + 1, b - 1, b, b + 1, 2*b - nx, 2*b - 1, 2 * b, 2*b + 1}
		}
		var out []int
		for _, m := range l {
			dup := m <= 0
			for _, o := range out {
				dup = dup || o == m
			}
			if !dup {
				out = append(out, m)
			}
		}
		return out
	}
	start := func(key string, nx int) (Val, *State, *T) {
		st := in.newState()
		in.nsteps = 0
		v, st := in.callFunc(mk, nil, nil, st, nil)
		if st == nil {
			h.r.Undecided(key, "the constructor does not return")
			return nil, nil, nil
		}
		o := first(v)
		buf := tt.BIn("buffered", tt.Int(int64(nx)))
		if !a.inject(h, o, st, cv, blk, buf) {
			h.r.Undecided(key, "the state's fields are not those the check knows")
			return nil, nil, nil
		}
		return o, st, buf
	}
	for _, nx := range nxs {
		if a.lazy && nx == 0 {
			continue // at least one byte is buffered once anything was written
		}
		key := fmt.Sprintf("finalise/%s/%d", a.key, nx)
		o, st, buf := start(key, nx)
		if o == nil {
			return
		}
		v, st := h.method(o, st, "Sum", in.nilSlice())
		h.drain(key)
		if st == nil {
			h.r.Undecided(key, "Sum does not return")
			continue
		}
		h.sameBytes(key, pos, in.resB(in.bytesOf(v, st), st.pc), q.bytes(a.final(q, cv, blk, buf), a.le, a.size))
	}
	for _, nx := range nxs {
		for _, m := range writes(nx) {
			if a.lazy && nx == 0 {
				continue
			}
			key := fmt.Sprintf("absorb/%s/%d+%d", a.key, nx, m)
			o, st, buf := start(key, nx)
			if o == nil {
				return
			}
			msg := tt.BIn("msg", tt.Int(int64(m)))
			_, st = h.method(o, st, "Write", in.sliceArg(msg, st))
			h.drain(key)
			if st == nil {
				h.r.Undecided(key, "Write does not return")
				continue
			}
			all := tt.BCat(buf, msg)
			n := nx + m
			full := n / a.block
			if a.lazy {
				full = (n - 1) / a.block
			}
			w := q.words(in.bRange(all, tt.Int(0), tt.Int(int64(full*a.block)), tt.True), a.le)
			want := cv
			for i := 0; i < full; i++ {
				want = a.absorb(q, want, w[16*i:16*i+16], tt.Add(blk, tt.Int(int64(i))))
			}
			got, cnt, rest, ok := a.state(h, o, st)
			if !ok {
				h.r.Undecided(key, "the state is not understood")
				continue
			}
			for i := range got {
				got[i] = in.res(got[i], st.pc)
			}
			h.sameWords(key+"/chain", pos, got, want)
			wr := in.bRange(all, tt.Int(int64(full*a.block)), tt.Int(int64(n-full*a.block)), tt.True)
			h.sameTerms(key+"/buffer", pos, "value %d of (counter, buffer length) after the write", "state_words",
				[]*T{in.res(cnt, st.pc), rest.len}, []*T{a.count(q, tt.Add(blk, tt.Int(int64(full))), n-full*a.block), wr.len})
			var gs, ws []*T
			for i := 0; i < n-full*a.block && rest.len == wr.len; i++ {
				gs = append(gs, in.bAt(rest, tt.Int(int64(i)), tt.True))
				ws = append(ws, in.bAt(wr, tt.Int(int64(i)), tt.True))
			}
			h.sameTerms(key+"/pending", pos, "buffered byte %d after the write", "buffered_bytes", gs, ws)
		}
	}
}

func zeroSalt(n int) func(h hw) []*T { return func(h hw) []*T { return h.zeros(n) } }
func anySalt(h hw) []*T              { return h.atoms("s", 4) }

func c20mds() []mdAlg {
	return []mdAlg{
		blakeAlg("blake256", "New", 32, 32, 1, anySalt), blakeAlg("blake224", "New224", 32, 28, 0, anySalt),
		blakeAlg("blake512", "New", 64, 64, 1, anySalt), blakeAlg("blake384", "New384", 64, 48, 0, anySalt),
		blake2sAlg(false), blake2sAlg(true), sm3Alg,
	}
}

// plainSums: the functions that hash a whole message at once.
func (h *H) plainSums() {
	in, tt := h.in, h.tt
	w4, w8 := hw{in, tt, 32}, hw{in, tt, 64}
	type ps struct {
		pkg, fn string
		out     int
		spec    func(m *T) []*T
	}
	sha := func(rate, out int) func(m *T) []*T {
		return func(m *T) []*T { return w8.bytes(w8.sponge(m, rate, 6, out), true, out) }
	}
	for _, x := range []ps{
		{"sha3", "Sum224", 0, sha(144, 28)}, {"sha3", "Sum256", 0, sha(136, 32)}, {"sha3", "Sum384", 0, sha(104, 48)}, {"sha3", "Sum512", 0, sha(72, 64)},
		{"blake2s", "Sum256", 0, func(m *T) []*T { return w4.bytes(w4.blake2sDigest(m, nil, 32), true, 32) }},
		{"sm3", "Sm3Sum", 0, func(m *T) []*T { return w4.bytes(w4.sm3Digest(m), false, 32) }},
		{"sha3", "ShakeSum128", 200, func(m *T) []*T { return w8.bytes(w8.sponge(m, 168, 0x1f, 200), true, 200) }},
		{"sha3", "ShakeSum256", 200, func(m *T) []*T { return w8.bytes(w8.sponge(m, 136, 0x1f, 200), true, 200) }},
	} {
		fn := h.pkgFn(x.pkg, x.fn)
		key := "sum/" + x.pkg + "." + x.fn
		if fn == nil {
			h.r.Undecided(key, "no such function")
			continue
		}
		for _, n := range []int{0, 70, 170} {
			key := fmt.Sprintf("%s/%d", key, n)
			st := in.newState()
			msg := tt.BIn("msg", tt.Int(int64(n)))
			args := []Val{in.sliceArg(msg, st)}
			var out *SliceV
			if x.out > 0 {
				out = in.newBytes(tt.BIn("out", tt.Int(int64(x.out))), st, "out")
				args = []Val{out, args[0]}
			}
			v, st := in.callFunc(fn, args, nil, st, nil)
			h.drain(key)
			if st == nil {
				h.r.Undecided(key, "does not return")
				continue
			}
			var got *T
			if out != nil {
				got = in.bytesOf(out, st)
			} else {
				got = in.bytesOf(first(v), st)
			}
			h.sameBytes(key, h.p.Pos(fn.Pos()), in.resB(got, st.pc), x.spec(msg))
		}
	}
}

// blake2sConfig: the parameter block of a fully configured BLAKE2s.
func (h *H) blake2sConfig() {
	in, tt := h.in, h.tt
	q := hw{in, tt, 32}
	fn := h.pkgFn("blake2s", "New")
	key := "config/blake2s.New"
	if fn == nil {
		h.r.Undecided(key, "no such function")
		return
	}
	cfgT := derefT(fn.Params[0].Type())
	cs, _ := cfgT.Underlying().(*types.Struct)
	ti := fieldIx(cs, "Tree")
	if cs == nil || ti < 0 {
		h.r.Undecided(key, "the configuration's fields are not those the check knows")
		return
	}
	treeT := derefT(cs.Field(ti).Type())
	ts, _ := treeT.Underlying().(*types.Struct)
	set := func(s *types.Struct, t types.Type, m map[string]Val) Val {
		a := in.zero(t).(*AggV)
		n := &AggV{el: append([]Val{}, a.el...)}
		for k, v := range m {
			if i := fieldIx(s, k); i >= 0 {
				n.el[i] = v
			} else {
				h.r.Undecided(key, "no configuration field "+k)
			}
		}
		return n
	}
	byteA := func(n string) *T { return tt.Atom("in", n, 0, big0, bi(255)) }
	for _, last := range []bool{false, true} {
		for _, size := range []int64{0, 13, 32} {
			k := fmt.Sprintf("%s/size%d,last=%v", key, size, last)
			st := in.newState()
			kb, sb, pb := tt.BIn("key", tt.Int(5)), tt.BIn("salt", tt.Int(8)), tt.BIn("person", tt.Int(8))
			leaf := tt.Atom("in", "leaf", 0, big0, pow2m(32))
			off := tt.Atom("in", "offset", 0, big0, pow2m(48))
			to := in.newObj("tree", nil, 0)
			inner := tt.Atom("in", "inner", 0, big0, bi(32))
			lb := tt.False
			if last {
				lb = tt.True
			}
			st.mem[to] = set(ts, treeT, map[string]Val{"Fanout": byteA("fanout"), "MaxDepth": byteA("depth"), "LeafSize": leaf, "NodeOffset": off,
				"NodeDepth": byteA("ndepth"), "InnerHashSize": inner, "IsLastNode": lb})
			co := in.newObj("config", nil, 0)
			st.mem[co] = set(cs, cfgT, map[string]Val{"Size": tt.Int(size), "Key": in.sliceArg(kb, st), "Salt": in.sliceArg(sb, st), "Person": in.sliceArg(pb, st), "Tree": &PtrV{o: to}})
			v, st := in.callFunc(fn, []Val{&PtrV{o: co}}, nil, st, nil)
			if st == nil {
				h.drain(k)
				h.r.Undecided(k, "New does not return")
				continue
			}
			o := first(v)
			msg := tt.BIn("msg", tt.Int(70))
			if _, st = h.method(o, st, "Write", in.sliceArg(msg, st)); st != nil {
				v, st = h.method(o, st, "Sum", in.nilSlice())
			}
			h.drain(k)
			if st == nil {
				h.r.Undecided(k, "Write or Sum does not return")
				continue
			}
			sz := size
			if sz == 0 {
				sz = 32
			}
			p := tt.BCat(tt.BLit(string([]byte{byte(sz), 5})), tt.BByte(byteA("fanout")), tt.BByte(byteA("depth")),
				h.leBytes(leaf, 4), h.leBytes(off, 6), tt.BByte(byteA("ndepth")), tt.BByte(inner), sb, pb)
			cv := q.ivWords(0, false)
			for i, x := range q.words(p, true) {
				cv[i] = q.xor(cv[i], x)
			}
			all := q.words(tt.BCat(padTo(q, kb, 64), padTo(q, msg, 128)), true)
			f1 := tt.Int(0)
			if last {
				f1 = q.c(0xffffffff)
			}
			z := tt.Int(0)
			cv = q.blake2sN(cv, all[:16], tt.Int(64), z, z, z)
			cv = q.blake2sN(cv, all[16:32], tt.Int(128), z, z, z)
			cv = q.blake2sN(cv, all[32:], tt.Int(134), z, q.c(0xffffffff), f1)
			h.sameBytes(k, h.p.Pos(fn.Pos()), in.resB(in.bytesOf(v, st), st.pc), q.bytes(cv, true, int(sz)))
		}
	}
}

// leBytes: the n-byte little-endian form of a number.
func (h *H) leBytes(x *T, n int) *T {
	var l []*T
	for j := 0; j < n; j++ {
		l = append(l, h.tt.BByte(h.tt.Wrap(h.tt.Shr(x, 8*j), 8, false)))
	}
	return h.tt.BCat(l...)
}
