package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C06: Hash and Hmac, evaluated for a message of unknown length and content
// and each selector, yield exactly the digest term the selector names.

type hashSpec struct {
	sel   string
	chain []string
}

var hashSelectors = []hashSpec{
	{"HASH_ALG_SHA1", []string{"sha1"}},
	{"HASH_ALG_SHA3_256", []string{"sha3-256"}},
	{"HASH_ALG_SHA256", []string{"sha256"}},
	{"HASH_ALG_SHA512", []string{"sha512"}},
	{"HASH_ALG_MD4", []string{"md4"}},
	{"HASH_ALG_MD5", []string{"md5"}},
	{"HASH_ALG_RIPEMD160", []string{"ripemd160"}},
	{"HASH_ALG_SM3", []string{"sm3"}},
	{"HASH_ALG_DOUBLE_SHA256", []string{"sha256", "sha256"}},
	{"HASH_ALG_HASH160", []string{"sha256", "ripemd160"}},
	{"HASH_ALG_BLAKE256", []string{"blake256"}},
	{"HASH_ALG_BLAKE512", []string{"blake512"}},
	{"HASH_ALG_KECCAK256", []string{"keccak256"}},
	{"HASH_ALG_KECCAK256_RIPEMD160", []string{"keccak256", "ripemd160"}},
	{"HASH_ALG_SHA3_256_RIPEMD160", []string{"sha3-256", "ripemd160"}},
	{"HASH_ALG_KECCAK512", []string{"keccak512"}},
	{"HASH_ALG_SHA3_512", []string{"sha3-512"}},
	{"HASH_ALG_BLAKE2B", nil},
	{"HASH_ALG_BLAKE2S", nil},
}

// constOf: the value of a package constant, resolved by the type checker.
func (p *Prog) constOf(name string) (uint64, bool) {
	for _, sp := range p.RepoSP {
		if sp.Pkg.Path() != modPath {
			continue
		}
		if c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const); ok {
			v, ok := constant.Uint64Val(constant.ToInt(c.Val()))
			return v, ok
		}
	}
	return 0, false
}

func (tt *Terms) In(name string, lo, hi int64) *T {
	return tt.Atom("in", name, 0, bi(lo), bi(hi))
}

func (in *Interp) digestOf(alg string, data *T) *T {
	h := &HashV{alg: alg, data: data}
	return in.digest(h)
}

func needFn(p *Prog, r *Report, pkg, recv, name string) *ssa.Function {
	f := p.Func(pkg, recv, name)
	if f == nil || len(f.Blocks) == 0 {
		r.Undecided("anchor/"+pkg+"."+recv+"."+name, "the function this rule is anchored to no longer resolves")
		return nil
	}
	return f
}

func checkC06(p *Prog, r *Report) {
	r.Explain = "Every selector case of Hash and Hmac evaluated to a value-graph term over an arbitrary message (unknown length and bytes); the term must be the digest constructor chain the selector names. Every requested length 0..65535 class for the variable-length digests; all unsupported selectors at once."
	r.Assume = []string{"standard-library and x/crypto digests implement their named function", "the repository's own digests are the subject of C19/C20"}
	in := NewInterp(p)
	in.Std()
	tt := in.tt
	hash := needFn(p, r, "", "", "Hash")
	hm := needFn(p, r, "", "", "Hmac")
	if hash == nil || hm == nil {
		return
	}
	sc := func(f *ssa.Function) *specCheck { return &specCheck{r: r, in: in, pos: p.Pos(f.Pos())} }
	s := sc(hash)
	dl := tt.In("digestLen", 0, 65535)
	run := func(f *ssa.Function, key string, args func(st *State) []Val) *Run {
		st := in.newState()
		n := len(in.oblOrder)
		rn := in.Call(f, st, args(st)...)
		for _, k := range in.oblOrder[n:] {
			if o := in.obl[k]; o.bad {
				r.Bad(key+"/panic", p.Pos(o.pos), "may panic: "+o.kind+" via "+o.stack)
			}
		}
		for _, u := range in.unk {
			r.Undecided(key+"/model", u)
		}
		in.unk, in.unkSeen = nil, map[string]bool{}
		in.obl, in.oblOrder = map[string]*Oblig{}, nil
		return rn
	}
	data := tt.BIn("data", tt.In("datalen", 0, 1<<40))
	var sels []*big.Int
	one := func(spec hashSpec, ln *T, want *T, suffix string) {
		v, ok := p.constOf(spec.sel)
		if !ok {
			r.Undecided("anchor/"+spec.sel, "selector constant no longer resolves")
			return
		}
		key := "Hash/" + spec.sel + suffix
		rn := run(hash, key, func(st *State) []Val {
			return []Val{in.sliceArg(data, st), ln, tt.Const(new(big.Int).SetUint64(v))}
		})
		if rn.st == nil {
			r.Bad(key, s.pos, "never returns")
			return
		}
		if want == nil {
			s.Expect(key, rn.IsNil(0), rn.st.pc, func() string { return "result is " + clip(rn.Bytes(0, tt.True).String(), 300) + ", must be nil" })
			return
		}
		s.ExpectT(key, "result", rn.Bytes(0, tt.True), want, rn.st.pc)
		r.Count("selector_cases", 1)
	}
	for _, sp := range hashSelectors {
		v, ok := p.constOf(sp.sel)
		if ok {
			sels = append(sels, new(big.Int).SetUint64(v))
		}
		if sp.chain == nil {
			alg, max := "blake2b/", 64
			if sp.sel == "HASH_ALG_BLAKE2S" {
				alg, max = "blake2s/", 32
			}
			for n := 1; n <= max; n++ {
				one(sp, tt.Int(int64(n)), in.digestOf(fmt.Sprintf("%s%d", alg, n), data), fmt.Sprintf("/len=%d", n))
			}
			for n := max + 1; n <= 600; n++ {
				one(sp, tt.Int(int64(n)), nil, fmt.Sprintf("/len=%d", n))
			}
			for _, n := range []int64{1024, 4096, 32768, 65280, 65281, 65312, 65535} {
				one(sp, tt.Int(n), nil, fmt.Sprintf("/len=%d", n))
			}
			continue
		}
		t := data
		for _, a := range sp.chain {
			t = in.digestOf(a, t)
		}
		one(sp, dl, t, "")
	}
	// all other selectors together
	other := func(f *ssa.Function, key string, sels []*big.Int, args func(sel *T, st *State) []Val) {
		sel := tt.In("selector", 0, 0xffffffff)
		rn := run(f, key, func(st *State) []Val {
			for _, v := range sels {
				st.pc = tt.BAnd(st.pc, tt.BNot(tt.Eq(sel, tt.Const(v))))
			}
			return args(sel, st)
		})
		if rn.st == nil {
			r.Bad(key, p.Pos(f.Pos()), "never returns")
			return
		}
		sc(f).Expect(key, rn.IsNil(0), rn.st.pc, func() string { return "an unsupported selector does not yield nil" })
	}
	other(hash, "Hash/unsupported", sels, func(sel *T, st *State) []Val {
		return []Val{in.sliceArg(data, st), dl, sel}
	})
	keyB := tt.BIn("key", tt.In("keylen", 0, 1<<40))
	var hsels []*big.Int
	for _, x := range [][2]string{{"HMAC_SHA256_ALG", "sha256"}, {"HMAC_SHA512_ALG", "sha512"}, {"HMAC_SM3_ALG", "sm3"}} {
		v, ok := p.constOf(x[0])
		if !ok {
			r.Undecided("anchor/"+x[0], "selector constant no longer resolves")
			continue
		}
		hsels = append(hsels, new(big.Int).SetUint64(v))
		key := "Hmac/" + x[0]
		rn := run(hm, key, func(st *State) []Val {
			return []Val{in.sliceArg(keyB, st), in.sliceArg(data, st), tt.Const(new(big.Int).SetUint64(v))}
		})
		if rn.st == nil {
			r.Bad(key, p.Pos(hm.Pos()), "never returns")
			continue
		}
		want := in.digest(&HashV{x[1], keyB, data})
		sc(hm).ExpectT(key, "result", rn.Bytes(0, tt.True), want, rn.st.pc)
		r.Count("selector_cases", 1)
	}
	other(hm, "Hmac/unsupported", hsels, func(sel *T, st *State) []Val {
		return []Val{in.sliceArg(keyB, st), in.sliceArg(data, st), sel}
	})
	r.Min["selector_cases"] = 116
	r.Analysed = append(r.Analysed, strings.Fields("owcrypt.Hash owcrypt.Hmac")...)
}

func init() { checks["C06"] = checkC06 }
