package main

import (
	"fmt"
	"go/types"
	"os"
	"time"
)

// C19: the streaming contract of every hash object.

func init() { checks["C19"] = checkC19 }

// stream drives one hash object and keeps track of the message so far.
type stream struct {
	h   *H
	key string
	pos string
	o   Val
	st  *State
	ok  bool
	was []*SliceV // the caller's buffers of earlier writes
}

func (s *stream) call(name string, args ...Val) Val {
	if !s.ok {
		return nil
	}
	v, st := s.h.method(s.o, s.st, name, args...)
	if st == nil {
		if len(s.h.in.unk) == 0 {
			s.h.r.Bad(s.key+"/panic", s.pos, name+" panics on every path")
		} else {
			s.h.drain(s.key)
			s.h.r.Undecided(s.key, name+" does not return")
		}
		s.ok = false
		return nil
	}
	s.st = st
	return v
}

// write writes m and checks what Write reports; the caller's buffer is
// overwritten afterwards, which must not matter.
func (s *stream) write(m *T) {
	if !s.ok {
		return
	}
	in, tt := s.h.in, s.h.tt
	sl := in.newBytes(m, s.st, "written")
	v := s.call("Write", sl)
	if !s.ok {
		return
	}
	if t, ok := v.(*TupleV); ok && len(t.el) == 2 {
		n, ok := t.el[0].(*T)
		if ok {
			n = in.res(n, s.st.pc)
		}
		e := in.decide(in.equal(t.el[1], &IfaceV{}, types.Universe.Lookup("error").Type(), s.st), s.st.pc)
		if !ok || n != m.len || e != tt.True {
			s.h.r.Bad(s.key+"/write-result", s.pos, fmt.Sprintf("Write of %s bytes reports %s, error-free: %s", m.len, in.show(t.el[0], s.st), e))
		} else {
			s.h.r.Count("write_results", 1)
		}
	}
	s.was = append(s.was, sl)
	s.scribble()
}

// scribble overwrites the buffers earlier writes were given.
func (s *stream) scribble() {
	for _, b := range s.was {
		s.h.in.store(&PtrV{o: b.o}, s.h.tt.BIn("scribble", b.ln), s.st, 0)
	}
}

// sum reads the digest behind a prefix.
func (s *stream) sum(prefix *T) *T {
	if !s.ok {
		return nil
	}
	in := s.h.in
	var a Val = in.nilSlice()
	if prefix != nil {
		a = in.newBytes(prefix, s.st, "prefix")
	}
	v := s.call("Sum", a)
	if !s.ok {
		return nil
	}
	return in.resB(in.bytesOf(v, s.st), s.st.pc)
}

func (h *H) newStream(key string, a hashAlg) *stream {
	mk := h.pkgFn(a.pkg, a.fn)
	if mk == nil {
		h.r.Undecided(key, "no constructor "+a.pkg+"."+a.fn)
		return &stream{h: h}
	}
	st := h.in.newState()
	h.in.nsteps = 0
	var args []Val
	if a.args != nil {
		args = a.args(h, st)
	}
	v, st := h.in.callFunc(mk, args, nil, st, nil)
	if st == nil {
		h.drain(key)
		h.r.Undecided(key, "the constructor does not return")
		return &stream{h: h}
	}
	return &stream{h, key, h.p.Pos(mk.Pos()), first(v), st, true, nil}
}

func (h *H) byteList(b *T) []*T {
	if b == nil || !b.len.IsConst() {
		return nil
	}
	var l []*T
	for i := int64(0); i < b.len.c.Int64(); i++ {
		l = append(l, h.in.bAt(b, h.tt.Int(i), h.tt.True))
	}
	return l
}

// expect compares a digest with the one of a fresh object.
func (s *stream) expect(what string, got *T, want []*T) {
	if got == nil {
		return
	}
	s.h.drain(s.key)
	s.h.sameBytes(s.key+"/"+what, s.pos, got, want)
}

func (h *H) streaming(a hashAlg) {
	in, tt := h.in, h.tt
	b := a.block
	fresh := map[string][]*T{}
	msg := func(n int) *T { return tt.BIn("msg", tt.Int(int64(n))) }
	part := func(n, from, to int) *T {
		return in.bRange(msg(n), tt.Int(int64(from)), tt.Int(int64(to-from)), tt.True)
	}
	// digest of n message bytes written at once to a new object
	ref := func(n int) []*T {
		k := fmt.Sprint(n)
		if l, ok := fresh[k]; ok {
			return l
		}
		s := h.newStream(a.key+"/reference", a)
		if n > 0 {
			s.write(msg(n))
		}
		l := h.byteList(s.sum(nil))
		fresh[k] = l
		return l
	}
	N := 2*b + b/4 + 1

	// sizes
	s := h.newStream(a.key+"/sizes", a)
	for _, q := range []struct {
		name string
		want int
	}{{"Size", a.size}, {"BlockSize", a.block}} {
		v := s.call(q.name)
		if !s.ok {
			return
		}
		t, ok := v.(*T)
		if ok {
			t = in.res(t, s.st.pc)
		}
		if ok && t == tt.Int(int64(q.want)) {
			h.r.OK(a.key+"/"+q.name, s.pos, "")
		} else {
			h.r.Bad(a.key+"/"+q.name, s.pos, fmt.Sprintf("%s reports %s, must be %d", q.name, in.show(v, s.st), q.want))
		}
	}

	// splits
	var splits [][]int
	if h.r.Tier != "thorough" && a.args != nil {
		splits = [][]int{{1}, {b + 1}}
	} else if h.r.Tier == "thorough" || a.pkg == "sha3" {
		for i := 0; i <= N; i++ {
			splits = append(splits, []int{i})
		}
		for i := 0; i <= b+1 && h.r.Tier == "thorough"; i += 5 {
			for j := i; j <= N; j += 7 {
				splits = append(splits, []int{i, j})
			}
		}
	} else {
		splits = [][]int{{1}, {b - 1}, {b}, {b + 1}, {2*b - 1}, {2 * b}, {0, b}, {1, b}, {b / 2, b/2 + b}, {b - 1, b + 1}, {b - 1, 2 * b}, {1, 2, 3}, {b, b, 2 * b}}
	}
	want := ref(N)
	for _, sp := range splits {
		s := h.newStream(fmt.Sprintf("%s/split%v", a.key, sp), a)
		at := 0
		for _, x := range append(append([]int{}, sp...), N) {
			s.write(part(N, at, x))
			at = x
		}
		s.expect("digest", s.sum(nil), want)
	}

	// reading leaves the state alone, and appends
	at := []int{0, 1, b - b/8 - 1, b - 1, b, b + 1}
	if a.args != nil {
		at = []int{0, b}
	}
	if h.r.Tier == "thorough" {
		at = nil
		for i := 0; i <= b+1; i++ {
			at = append(at, i)
		}
	}
	for _, n := range at {
		s := h.newStream(fmt.Sprintf("%s/read%d", a.key, n), a)
		s.write(part(N, 0, n/2))
		s.write(part(N, n/2, n))
		pre := tt.BIn("prefix", tt.Int(5))
		want := ref(n)
		if n == 0 {
			// an empty write and no write are the same
			want = ref(0)
		} else {
			want = h.prefixOf(a, N, n)
		}
		got := s.sum(pre)
		if got != nil && got.len == tt.Int(int64(5+a.size)) {
			s.expect("prefix", in.bRange(got, tt.Int(0), tt.Int(5), tt.True), h.byteList(pre))
			got = in.bRange(got, tt.Int(5), tt.Int(int64(a.size)), tt.True)
			s.expect("appended", got, want)
		} else if got != nil {
			h.r.Bad(s.key+"/length", s.pos, "Sum of a 5-byte prefix returns "+clip(got.len.String(), 100)+" bytes")
		}
		s.expect("again", s.sum(nil), want)
		s.write(part(N, n, N))
		s.expect("continued", s.sum(nil), ref(N))
	}

	// reset
	for _, n := range []int{0, 1, b, b + 3} {
		for _, read := range []bool{false, true} {
			s := h.newStream(fmt.Sprintf("%s/reset%d,read=%v", a.key, n, read), a)
			s.write(tt.BIn("before", tt.Int(int64(n))))
			if read {
				s.sum(nil)
			}
			s.call("Reset")
			s.expect("empty", s.sum(nil), ref(0))
			s.write(msg(b + 3))
			s.expect("digest", s.sum(nil), ref(b+3))
		}
	}
}

// snapshot: the memory reachable from v.
func (in *Interp) snapshot(v Val, st *State, m map[*Obj]Val) {
	switch x := v.(type) {
	case *IfaceV:
		in.snapshot(x.v, st, m)
	case *PtrV:
		if x.o != nil {
			in.snapObj(x.o, st, m)
		}
	case *SliceV:
		if x.o != nil {
			in.snapObj(x.o, st, m)
		}
	case *AggV:
		for _, e := range x.el {
			in.snapshot(e, st, m)
		}
	}
}

func (in *Interp) snapObj(o *Obj, st *State, m map[*Obj]Val) {
	if _, ok := m[o]; !ok {
		m[o] = in.objVal(st, o)
		in.snapshot(m[o], st, m)
	}
}

// identical: certainly the same value (false: not known).
func identical(a, b Val) bool {
	switch x := a.(type) {
	case *T:
		return a == b
	case *B:
		return a == b
	case *IfaceV:
		y, ok := b.(*IfaceV)
		return ok && (x == y || x.v != nil && y.v != nil && x.model == y.model && types.Identical(x.typ, y.typ) && identical(x.v, y.v))
	case *PtrV:
		y, ok := b.(*PtrV)
		return ok && (x == y || x.o == y.o && len(x.path) == 0 && len(y.path) == 0 && !x.neg && !y.neg)
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && (x == y || x.o == y.o && len(x.path) == 0 && len(y.path) == 0 && x.off == y.off && x.ln == y.ln && x.cp == y.cp && x.nilc == y.nilc)
	case *AggV:
		y, ok := b.(*AggV)
		if !ok || len(x.el) != len(y.el) {
			return false
		}
		for i := range x.el {
			if !identical(x.el[i], y.el[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}

// fills: for every number of buffered bytes, Sum leaves every field of the
// object as it was, and Reset leads back to the digest of the empty message.
func (h *H) fills(a hashAlg) {
	in, tt := h.in, h.tt
	var empty, cont []*T
	one := func(s *stream) []*T { return h.byteList(s.sum(nil)) }
	step := 1
	if a.args != nil && a.pkg != "blake2s" {
		step = 9 // the same code as without a salt
	}
	for n := 0; n <= a.block; n += step {
		s := h.newStream(fmt.Sprintf("%s/fill%d", a.key, n), a)
		if empty == nil {
			empty = one(s)
			s = h.newStream(s.key, a)
		}
		msg := tt.BIn("msg", tt.Int(int64(n)))
		if n > 0 {
			s.write(msg)
		}
		if !s.ok {
			return
		}
		before := map[*Obj]Val{}
		in.snapshot(s.o, s.st, before)
		s.sum(nil)
		if !s.ok {
			return
		}
		same := true
		for o, v := range before {
			if !identical(v, in.objVal(s.st, o)) {
				same = false
			}
		}
		if same {
			h.r.OK(s.key+"/sum-keeps-state", s.pos, "")
			h.r.Count("states_after_sum", 1)
		} else {
			// some memory changed (perhaps spare capacity): it must not matter
			more := tt.BIn("more", tt.Int(int64(a.block+1)))
			t := h.newStream(s.key, a)
			if n > 0 {
				t.write(msg)
			}
			t.write(more)
			cont = one(t)
			s.write(more)
			s.expect("continued after Sum", s.sum(nil), cont)
		}
		s = h.newStream(fmt.Sprintf("%s/reset%d", a.key, n), a)
		if n > 0 {
			s.write(tt.BIn("before", tt.Int(int64(n))))
		}
		s.call("Reset")
		s.expect("empty", s.sum(nil), empty)
	}
	_ = in
}

// resetAny: Reset from an arbitrary chaining value, counter and buffer.
func (h *H) resetAny(a mdAlg) {
	in, tt := h.in, h.tt
	q := hw{in, tt, a.w}
	alg := hashAlg{key: a.key, pkg: a.pkg, fn: a.fn, block: a.block, size: a.size}
	want := h.byteList(h.newStream(a.key, alg).sum(nil))
	blk := tt.Atom("in", "blocks", 0, big0, pow2m(50))
	for _, nx := range []int{0, 1, a.block / 2, a.block - 1} {
		s := h.newStream(fmt.Sprintf("%s/reset-any%d", a.key, nx), alg)
		if !s.ok {
			return
		}
		if !a.inject(h, s.o, s.st, q.atoms("h", 8), blk, tt.BIn("buffered", tt.Int(int64(nx)))) {
			h.r.Undecided(s.key, "the state's fields are not those the check knows")
			return
		}
		s.call("Reset")
		s.expect("empty", s.sum(nil), want)
	}
}

// prefixOf: the digest of the first n of N message bytes, written at once.
func (h *H) prefixOf(a hashAlg, N, n int) []*T {
	s := h.newStream(a.key+"/reference", a)
	m := h.tt.BIn("msg", h.tt.Int(int64(N)))
	s.write(h.in.bRange(m, h.tt.Int(0), h.tt.Int(int64(n)), h.tt.True))
	return h.byteList(s.sum(nil))
}

func checkC19(p *Prog, r *Report) {
	r.Explain = "Every hash constructor's object is driven through its interface on unknown message bytes: split writes, reads in the middle, resets after writes and reads, prefixes given to Sum, buffers the caller overwrites after Write. Every digest byte is compared with that of a new object given the message in one write."
	r.Assume = []string{"Keccak-f is an uninterpreted permutation"}
	mds := []mdAlg{
		blakeAlg("blake256", "New", 32, 32, 1, zeroSalt(4)), blakeAlg("blake224", "New224", 32, 28, 0, zeroSalt(4)),
		blakeAlg("blake512", "New", 64, 64, 1, zeroSalt(4)), blakeAlg("blake384", "New384", 64, 48, 0, zeroSalt(4)),
		blake2sAlg(false), sm3Alg,
	}
	r.parallel(2*len(c20algs)+2, func(i int, r *Report) {
		h := newRaw(p, r)
		h.modelKeccakF()
		if i == len(c20algs) {
			h.shakes()
			return
		}
		if i == 2*len(c20algs)+1 {
			for _, a := range mds {
				h.resetAny(a)
			}
			return
		}
		if i > len(c20algs) {
			h.fills(c20algs[i-len(c20algs)-1])
			return
		}
		t0 := time.Now()
		h.streaming(c20algs[i])
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Println(c20algs[i].key, time.Since(t0))
		}
	})
	r.Min["digest_bytes"] = 3000
}

// shakes: squeezing in pieces, cloning and resetting the extendable outputs.
func (h *H) shakes() {
	in, tt := h.in, h.tt
	for _, a := range []hashAlg{{key: "shake128", pkg: "sha3", fn: "NewShake128", block: 168}, {key: "shake256", pkg: "sha3", fn: "NewShake256", block: 136}} {
		read := func(s *stream, n int) []*T {
			if !s.ok {
				return nil
			}
			out := in.newBytes(tt.BIn("out", tt.Int(int64(n))), s.st, "out")
			v := s.call("Read", out)
			if !s.ok {
				return nil
			}
			if t, ok := v.(*TupleV); ok && len(t.el) == 2 {
				c, _ := t.el[0].(*T)
				if c == nil || in.res(c, s.st.pc) != tt.Int(int64(n)) {
					h.r.Bad(s.key+"/read-result", s.pos, fmt.Sprintf("Read of %d bytes reports %s", n, in.show(t.el[0], s.st)))
				}
			}
			return h.byteList(in.resB(in.bytesOf(out, s.st), s.st.pc))
		}
		same := func(s *stream, what string, got, want []*T) {
			if got == nil || want == nil {
				return
			}
			h.drain(s.key)
			if len(got) != len(want) {
				h.r.Bad(s.key+"/"+what, s.pos, fmt.Sprintf("%d bytes instead of %d", len(got), len(want)))
				return
			}
			h.sameTerms(s.key+"/"+what, s.pos, "output byte %d", "digest_bytes", got, want)
		}
		N, L := a.block+37, 2*a.block+9
		m := tt.BIn("msg", tt.Int(int64(N)))
		s := h.newStream(a.key+"/once", a)
		s.write(m)
		want := read(s, L)
		for _, cut := range []int{1, a.block - 1, a.block, a.block + 1} {
			s := h.newStream(fmt.Sprintf("%s/cut%d", a.key, cut), a)
			s.write(in.bRange(m, tt.Int(0), tt.Int(int64(cut)), tt.True))
			s.write(in.bRange(m, tt.Int(int64(cut)), tt.Int(int64(N-cut)), tt.True))
			g := read(s, cut)
			c := s.call("Clone")
			g2 := append(append([]*T{}, g...), read(s, L-cut)...)
			same(s, "pieces", g2, want)
			if s.ok && c != nil {
				k := *s
				k.o, k.key = c, s.key+"/clone"
				same(&k, "rest", append(append([]*T{}, g...), read(&k, L-cut)...), want)
				s.st = k.st
			}
			s.call("Reset")
			s.write(m)
			same(s, "reset", read(s, L), want)
		}
	}
}
