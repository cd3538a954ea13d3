package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C04: failure is reported, and yields nothing.

func init() { checks["C04"] = checkC04 }

// whole: success comes with every output, failure with none, and no failed step
// ends in success.
func (h *H) whole(key string, s *specCheck, rn *Run, ok *B, outs []int) {
	tt, in := h.tt, h.in
	h.r.Count("operations", 1)
	pc := rn.st.pc
	for _, i := range outs {
		s.Expect(fmt.Sprintf("%s/success returns output %d", key, i), tt.BOr(tt.BNot(ok), tt.BNot(rn.IsNil(i))), pc, func() string {
			return "success is reported without a result"
		})
		s.Expect(fmt.Sprintf("%s/failure returns no output %d", key, i), tt.BOr(ok, rn.IsNil(i)), pc, func() string {
			return "a result is returned although failure is reported: " + clip(rn.Bytes(i, tt.True).String(), 300)
		})
	}
	for _, c := range in.opq {
		if c.err == tt.False || c.name == "bls12_381.GenPublicKey" && strings.HasPrefix(key, "Signature/") {
			continue // signing refuses every key that key generation refuses (C15)
		}
		h.r.Count("failing_calls", 1)
		s.Expect(key+"/error of "+c.name, tt.BNot(tt.BAll(ok, c.pc, c.err)), pc, func() string {
			return "success is reported although " + c.name + " failed"
		})
	}
	used := map[string]bool{}
	for _, i := range outs {
		if !in.feasible(tt.BAnd(pc, ok)) {
			break
		}
		for n := range draws(rn.Bytes(i, ok)) {
			used[n] = true
		}
	}
	for _, e := range in.reads {
		if !used[e.name] {
			continue
		}
		h.r.Count("random_reads", 1)
		s.Expect(key+"/random source", tt.BOr(tt.BNot(ok), tt.BNot(tt.Var(tt.Atom("randerr", e.name[5:], 0, nil, nil)))), pc, func() string {
			return "success is reported although the random source failed"
		})
	}
}

func checkC04(p *Prog, r *Report) {
	r.Explain = "Every public operation is evaluated for each selector on unknown arguments with the scheme packages uninterpreted: success must come with every output, failure with none, and success must exclude the failure of every call made and of every random read used. The public functions of packages eddsa and pasta are evaluated on unknown arguments of fixed and of any length for the same pairing of error and result. In every function of the library: no error result is dropped, and no path that starts at the failure branch of a step (error not nil, or a decoding that reports false) ends by returning a nil error, true or SUCCESS."
	r.Assume = []string{"an uninterpreted scheme function returns nil bytes with an error"}
	dispatch(p, r, func(h *H, key string, s *specCheck, rn *Run, ok *B, outs []int) { h.whole(key, s, rn, ok, outs) })
	conversions(p, r)
	edPairs(p, r)
	pastaPairs(p, r)
	errorFlow(p, r)
	r.Min["operations"] = 60
	r.Min["error_results"] = 60
}

func conversions(p *Prog, r *Report) {
	h := newH(p, r)
	h.in.RunInit(schemePkgs...)
	h.in.modelOpaque()
	for _, n := range []string{"CURVE25519_convert_X_to_Ed", "CURVE25519_convert_Ed_to_X"} {
		fn := needFn(p, r, "", "", n)
		if fn == nil {
			continue
		}
		for _, a := range []*T{h.sym("key"), h.fix("key32", 32)} {
			h.in.opq = nil
			if rn := h.run(n, fn, func(st *State) []Val { return []Val{h.in.sliceArg(a, st)} }); rn != nil {
				h.whole(n, h.sc(fn), rn, rn.IsNil(1), []int{0})
			}
		}
	}
}

func edPairs(p *Prog, r *Report) {
	h := newHOn(p, r, "eddsa", "eddsa/edwards25519")
	in := h.in
	in.modelFe25519()
	in.modelEdGroup()
	in.modelCurve25519()
	sk, msg := h.fix("prikey", 32), h.sym("message")
	n := h.sym("any")
	for _, x := range []struct {
		fn   string
		args []*T
	}{
		{"ED25519_genPub", []*T{sk}}, {"ED25519_sign", []*T{sk, msg}}, {"CURVE25519_genPub", []*T{sk}}, {"CURVE25519_sign", []*T{sk, msg}},
		{"X25519_genPub", []*T{sk}}, {"X25519_sign", []*T{sk, msg}}, {"CURVE25519_sha256_genPub", []*T{sk}}, {"CURVE25519_sha256_sign", []*T{sk, msg}},
	} {
		h.pairs("eddsa", x.fn, x.args, n)
	}
}

func pastaPairs(p *Prog, r *Report) {
	h := newHOn(p, r, "pasta")
	in := h.in
	in.modelPastaField()
	in.modelPastaGroup()
	in.modelPoseidon()
	in.modelMina(1, 0)
	sk, msg, n := h.fix("prikey", 32), h.sym("message"), h.sym("any")
	p64, q64 := h.fix("point64", 64), h.fix("second64", 64)
	for _, x := range []struct {
		fn   string
		args []*T
	}{
		{"GenPublicKey", []*T{sk}}, {"Sign", []*T{sk, msg}}, {"PointAdd", []*T{p64, q64}}, {"PointMul", []*T{p64, sk}},
		{"PointMulBaseGAdd", []*T{p64, sk}}, {"PointDecompress", []*T{h.fix("point33", 33)}},
	} {
		h.pairs("pasta", x.fn, x.args, n)
	}
}

// pairs: (result, error) of a scheme function.
func (h *H) pairs(pkg, name string, args []*T, n *T) {
	in := h.in
	fn := needFn(h.p, h.r, pkg, "", name)
	if fn == nil {
		return
	}
	res := fn.Signature.Results()
	if res.Len() != 2 || fn.Signature.Params().Len() != len(args) {
		h.r.Undecided(pkg+"."+name, "other results or parameters")
		return
	}
	s := h.sc(fn)
	for v := -1; v < len(args); v++ {
		key := pkg + "." + name
		as := append([]*T{}, args...)
		if v >= 0 {
			if args[v].len == nil || !args[v].len.IsConst() {
				continue
			}
			as[v] = n
			key += fmt.Sprintf("/argument %d of any length", v)
		}
		in.opq = nil
		rn := h.run(key, fn, func(st *State) []Val {
			var l []Val
			for i, a := range as {
				if _, ok := fn.Signature.Params().At(i).Type().Underlying().(*types.Slice); !ok {
					return nil
				}
				l = append(l, in.sliceArg(a, st))
			}
			return l
		})
		if rn == nil {
			continue
		}
		h.whole(key, s, rn, rn.IsNil(1), []int{0})
	}
}

// errorFlow: errors are looked at, and their failure branches fail.
func errorFlow(p *Prog, r *Report) {
	for _, fn := range p.funcs {
		if fn.Blocks == nil || strings.HasSuffix(p.Pos(fn.Pos()), "_test.go") {
			continue
		}
		if !returnsFailure(fn) {
			continue
		}
		r.Count("functions", 1)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				res := c.Call.Signature().Results()
				if res.Len() == 0 || !isErrorT(res.At(res.Len()-1).Type()) || infallible(c) {
					continue
				}
				r.Count("error_results", 1)
				key := fmt.Sprintf("%s/%s", short(fn), calleeName(c))
				if !errorUsed(c) {
					nilTells := false
					for i := 0; i < res.Len()-1; i++ {
						nilTells = nilTells || isByteSliceT(res.At(i).Type())
					}
					if nilTells { // no bytes are returned with an error
						continue
					}
					r.Bad("dropped/"+key, p.Pos(c.Pos()), "the error of "+calleeName(c)+" is dropped")
					continue
				}
				if pos := succeedsAfter(fn, c); pos != nil {
					r.Bad("flow/"+key, p.Pos(pos.Pos()), "success is returned on a path where "+calleeName(c)+" failed")
					continue
				}
				r.OK("flow/"+key, p.Pos(c.Pos()), "")
			}
		}
	}
}

func isErrorT(t types.Type) bool { return t.String() == "error" }

func calleeName(c *ssa.Call) string {
	if f := c.Call.StaticCallee(); f != nil {
		return short(f)
	}
	if c.Call.IsInvoke() {
		return c.Call.Method.Name()
	}
	return "a function value"
}

// returnsFailure: the function can tell its caller about a failure.
func returnsFailure(fn *ssa.Function) bool {
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		if isErrorT(t) || isBoolT(t) || t.String() == "uint16" {
			return true
		}
	}
	return false
}

// infallible: writes to hashes and buffers never fail.
func infallible(c *ssa.Call) bool {
	n := ""
	if c.Call.IsInvoke() {
		n = c.Call.Method.Name()
		t := c.Call.Value.Type().String()
		if strings.Contains(t, "hash.Hash") || strings.HasSuffix(t, "hash.Hash32") || strings.Contains(t, "sha3") || strings.Contains(t, "ShakeHash") || strings.Contains(t, "XOF") {
			return n == "Write" || n == "Read"
		}
		return false
	}
	f := c.Call.StaticCallee()
	if f == nil {
		return false
	}
	if f.Name() == "Write" || f.Name() == "WriteString" || f.Name() == "WriteByte" || f.Name() == "Read" {
		if rv := f.Signature.Recv(); rv != nil {
			t := rv.Type().String()
			if strings.Contains(t, "bytes.Buffer") || strings.Contains(t, "strings.Builder") {
				return true
			}
			return alwaysNil(f, map[*ssa.Function]bool{})
		}
	}
	return f.Blocks != nil && alwaysNil(f, map[*ssa.Function]bool{})
}

// alwaysNil: every return of f gives the nil error.
func alwaysNil(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if f.Blocks == nil || seen[f] {
		return seen[f]
	}
	seen[f] = true
	for _, b := range f.Blocks {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		v := rt.Results[len(rt.Results)-1]
		if c, ok := v.(*ssa.Const); ok && c.IsNil() {
			continue
		}
		if e, ok := v.(*ssa.Extract); ok {
			v = e.Tuple
		}
		if c, ok := v.(*ssa.Call); ok {
			if g := c.Call.StaticCallee(); g != nil && alwaysNil(g, seen) {
				continue
			}
		}
		return false
	}
	return true
}

// succeedsAfter: a return reached from the failure branch of c's error that
// reports success by constants.
func succeedsAfter(fn *ssa.Function, c *ssa.Call) *ssa.Return {
	var errs []ssa.Value
	res := c.Call.Signature().Results()
	if res.Len() == 1 {
		errs = []ssa.Value{c}
	} else {
		for _, x := range *c.Referrers() {
			if e, ok := x.(*ssa.Extract); ok && e.Index == res.Len()-1 {
				errs = append(errs, e)
			}
		}
	}
	for _, e := range errs {
		for _, u := range *e.Referrers() {
			op, ok := u.(*ssa.BinOp)
			if !ok || op.Referrers() == nil {
				continue
			}
			if !isNilConst(op.X) && !isNilConst(op.Y) {
				continue
			}
			for _, w := range *op.Referrers() {
				br, ok := w.(*ssa.If)
				if !ok {
					continue
				}
				i := 0
				if op.Op.String() == "==" {
					i = 1
				} else if op.Op.String() != "!=" {
					continue
				}
				if rt := failPath(fn, br.Block(), br.Block().Succs[i], e); rt != nil {
					return rt
				}
			}
		}
	}
	return nil
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

// failPath follows every path from the edge; phis take the edge's operand.
func failPath(fn *ssa.Function, from, to *ssa.BasicBlock, err ssa.Value) *ssa.Return {
	type edge struct{ a, b int }
	seen := map[edge]bool{}
	var walk func(from, to *ssa.BasicBlock, env map[ssa.Value]ssa.Value) *ssa.Return
	walk = func(from, to *ssa.BasicBlock, env map[ssa.Value]ssa.Value) *ssa.Return {
		if seen[edge{from.Index, to.Index}] {
			return nil
		}
		seen[edge{from.Index, to.Index}] = true
		res := func(v ssa.Value) ssa.Value {
			if x, ok := env[v]; ok {
				return x
			}
			return v
		}
		e2 := map[ssa.Value]ssa.Value{}
		for k, v := range env {
			e2[k] = v
		}
		for _, ins := range to.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for i, pr := range to.Preds {
				if pr == from {
					e2[ph] = res(ph.Edges[i])
				}
			}
		}
		env = e2
		if rt, ok := to.Instrs[len(to.Instrs)-1].(*ssa.Return); ok {
			if reportsSuccess(fn, rt, func(v ssa.Value) ssa.Value {
				if x, ok := env[v]; ok {
					return x
				}
				return v
			}) {
				return rt
			}
			return nil
		}
		// a new attempt at the failed step starts over
		if ci, ok := err.(ssa.Instruction); ok && ci.Block() == to {
			return nil
		}
		for _, s := range to.Succs {
			if rt := walk(to, s, env); rt != nil {
				return rt
			}
		}
		return nil
	}
	return walk(from, to, map[ssa.Value]ssa.Value{})
}

// reportsSuccess: the return's failure indication is the constant for success.
func reportsSuccess(fn *ssa.Function, rt *ssa.Return, res func(ssa.Value) ssa.Value) bool {
	rs := fn.Signature.Results()
	for i := rs.Len() - 1; i >= 0; i-- {
		t := rs.At(i).Type()
		c, isC := res(rt.Results[i]).(*ssa.Const)
		switch {
		case isErrorT(t):
			return isC && c.IsNil()
		case t.String() == "uint16":
			return isC && c.Value != nil && c.Uint64() == 1
		case isBoolT(t) && rs.Len() == 1:
			return isC && c.Value != nil && c.Value.String() == "true"
		}
	}
	return false
}
