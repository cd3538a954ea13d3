package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effect analysis: for every function a summary of which memory reachable from
// its parameters and from package-level variables it may write, and what its
// results may point to.  Context-sensitive (summaries are instantiated at call
// sites), field-sensitive for objects allocated in the function, depth-2 for
// parameters (the pointee, and everything reachable further).

type okind int

const (
	oParam  okind = iota // memory a parameter points to directly
	oDeep                // memory reachable further from a parameter
	oGlobal              // a package-level variable
	oGDeep               // memory reachable from a package-level variable
	oAlloc               // allocated here (or by a callee, instantiated)
	oFunc                // a function value / closure
)

type eobj struct {
	kind  okind
	idx   int
	g     *ssa.Global
	key   string
	fn    *ssa.Function
	cont  map[string]eset // path -> locs stored there
	depth int
	typ   types.Type // dynamic type of what is allocated, nil if unknown
	ext   bool       // allocated outside the analysed sources
}

type eloc struct {
	o    *eobj
	path string
}
type eset map[eloc]bool

type ewrite struct {
	o    *eobj
	path string
	pos  token.Pos
	via  string
}

type esum struct {
	fn      *ssa.Function
	params  []*eobj
	deeps   []*eobj
	allocs  map[string]*eobj
	writes  map[string]ewrite // key obj+path
	results []map[string]eset
	vals    map[ssa.Value]map[string]eset
	changed bool
	undec   map[string]string
}

type Effects struct {
	P     *Prog
	sums  map[*ssa.Function]*esum
	glob  map[*ssa.Global]*eobj
	gdeep map[*ssa.Global]*eobj
	// callers for worklist
	callers map[*ssa.Function]map[*ssa.Function]bool
	work    []*ssa.Function
	inwork  map[*ssa.Function]bool
	taken   []*ssa.Function // address-taken functions
	impls   map[string][]*ssa.Function
	Undec   map[string]string
	NCalls  int
	fvars   map[*ssa.Global][]*ssa.Function
	fbad    map[*ssa.Global]bool
}

func NewEffects(p *Prog) *Effects {
	e := &Effects{P: p, sums: map[*ssa.Function]*esum{}, glob: map[*ssa.Global]*eobj{}, gdeep: map[*ssa.Global]*eobj{},
		callers: map[*ssa.Function]map[*ssa.Function]bool{}, inwork: map[*ssa.Function]bool{}, impls: map[string][]*ssa.Function{}, Undec: map[string]string{}}
	seen := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				ops = in.Operands(ops)
				cc, isCall := in.(ssa.CallInstruction)
				for _, op := range ops {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						if isCall && cc.Common().Value == g && op == &cc.Common().Value {
							continue
						}
						if !seen[g] {
							seen[g] = true
							e.taken = append(e.taken, g)
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					if !seen[g] {
						seen[g] = true
						e.taken = append(e.taken, g)
					}
				}
			}
		}
	}
	return e
}

func (e *Effects) gobj(g *ssa.Global) *eobj {
	o := e.glob[g]
	if o == nil {
		o = &eobj{kind: oGlobal, g: g, key: "G:" + g.String(), cont: map[string]eset{}}
		e.glob[g] = o
	}
	return o
}
func (e *Effects) gdobj(g *ssa.Global) *eobj {
	o := e.gdeep[g]
	if o == nil {
		o = &eobj{kind: oGDeep, g: g, key: "GD:" + g.String(), cont: map[string]eset{}}
		e.gdeep[g] = o
	}
	return o
}

func hasPtr(t types.Type) bool { return hasPtrD(t, 0) }
func hasPtrD(t types.Type, d int) bool {
	if d > 10 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Array:
		return hasPtrD(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtrD(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasPtrD(u.At(i).Type(), d+1) {
				return true
			}
		}
		return false
	}
	return true
}

// immutable error/string-like results need not be tracked
func trackable(t types.Type) bool {
	if !hasPtr(t) {
		return false
	}
	if t.String() == "error" {
		return false
	}
	return true
}

func (e *Effects) analyzable(f *ssa.Function) bool {
	if f.Blocks == nil {
		return false
	}
	if f.Synthetic != "" && f.Pkg == nil {
		return true // promotion wrappers, bound methods, instances
	}
	pp := pkgPathOf(f)
	return strings.HasPrefix(pp, modPath) || strings.HasPrefix(pp, "github.com/drand/") || strings.HasPrefix(pp, "github.com/phoreproject/")
}

func (e *Effects) Sum(f *ssa.Function) *esum {
	s := e.sums[f]
	if s != nil {
		return s
	}
	s = &esum{fn: f, allocs: map[string]*eobj{}, writes: map[string]ewrite{}, vals: map[ssa.Value]map[string]eset{}, undec: map[string]string{}}
	n := len(f.Params) + len(f.FreeVars)
	for i := 0; i < n; i++ {
		s.params = append(s.params, &eobj{kind: oParam, idx: i, key: fmt.Sprintf("P%d", i), cont: map[string]eset{}})
		d := &eobj{kind: oDeep, idx: i, key: fmt.Sprintf("D%d", i), cont: map[string]eset{}}
		s.deeps = append(s.deeps, d)
	}
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		s.results = append(s.results, map[string]eset{})
	}
	e.sums[f] = s
	e.push(f)
	return s
}

func (e *Effects) push(f *ssa.Function) {
	if !e.inwork[f] {
		e.inwork[f] = true
		e.work = append(e.work, f)
	}
}

func (e *Effects) Run(roots []*ssa.Function) {
	for _, r := range roots {
		e.Sum(r)
	}
	for iter := 0; len(e.work) > 0; iter++ {
		if iter > 200000 {
			panic("effects: no fixpoint")
		}
		f := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.inwork[f] = false
		s := e.sums[f]
		if e.pass(s) {
			for c := range e.callers[f] {
				e.push(c)
			}
		}
	}
}

func (s *esum) alloc(key string) *eobj {
	o := s.allocs[key]
	if o == nil {
		o = &eobj{kind: oAlloc, key: "A:" + key, cont: map[string]eset{}}
		s.allocs[key] = o
		s.changed = true
	}
	return o
}

func (s *esum) addTo(m map[string]eset, path string, add eset) {
	if len(add) == 0 {
		return
	}
	d := m[path]
	if d == nil {
		d = eset{}
		m[path] = d
	}
	for l := range add {
		if !d[l] {
			d[l] = true
			s.changed = true
		}
	}
}

func normLoc(l eloc) eloc {
	if l.o.kind == oDeep || l.o.kind == oGDeep {
		l.path = ""
	}
	if len(l.path) > 40 {
		l.path = l.path[:40]
	}
	return l
}

func (s *esum) set(v ssa.Value, path string, add eset) {
	m := s.vals[v]
	if m == nil {
		m = map[string]eset{}
		s.vals[v] = m
	}
	s.addTo(m, path, add)
}

// content of memory at loc for a pointer-typed cell
func (e *Effects) load(s *esum, l eloc) eset {
	out := eset{}
	switch l.o.kind {
	case oParam:
		out[eloc{s.deeps[l.o.idx], ""}] = true
	case oDeep:
		out[eloc{l.o, ""}] = true
	case oGlobal:
		out[eloc{e.gdobj(l.o.g), ""}] = true
	case oGDeep:
		out[eloc{l.o, ""}] = true
	}
	for p, c := range l.o.cont {
		if p == l.path || pathMatch(p, l.path) || l.o.kind == oDeep || l.o.kind == oGDeep {
			for x := range c {
				out[x] = true
			}
		}
	}
	return out
}

// "*" path stored at unknown place matches everything
func pathMatch(stored, want string) bool { return stored == "*" || want == "*" }

func addPath(l eloc, p string) eloc { return normLoc(eloc{l.o, l.path + p}) }

// loadTyped loads a value of type t stored at loc, giving path->set.
func (e *Effects) loadTyped(s *esum, l eloc, t types.Type, rel string, out map[string]eset, d int) {
	if !trackable(t) {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if d > 6 {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			pp := fmt.Sprintf(".%d", i)
			e.loadTyped(s, addPath(l, pp), u.Field(i).Type(), rel+pp, out, d+1)
		}
	case *types.Array:
		e.loadTyped(s, addPath(l, "[]"), u.Elem(), rel+"[]", out, d+1)
	default:
		s2 := e.load(s, l)
		if out[rel] == nil {
			out[rel] = eset{}
		}
		for x := range s2 {
			out[rel][x] = true
		}
	}
}

func (s *esum) storeLoc(l eloc, rel string, vs eset) {
	p := l.path + rel
	if l.o.kind == oDeep || l.o.kind == oGDeep {
		p = ""
	}
	if len(p) > 40 {
		p = p[:40]
	}
	s.addTo(l.o.cont, p, vs)
}

func (e *Effects) write(s *esum, l eloc, pos token.Pos, via string) {
	switch l.o.kind {
	case oAlloc, oFunc:
		return
	}
	k := l.o.key + l.path
	if _, ok := s.writes[k]; !ok {
		s.writes[k] = ewrite{l.o, l.path, pos, via}
		s.changed = true
	}
}

func (e *Effects) val(s *esum, v ssa.Value) map[string]eset {
	switch v := v.(type) {
	case *ssa.Global:
		return map[string]eset{"": {eloc{e.gobj(v), ""}: true}}
	case *ssa.Parameter:
		for i, p := range s.fn.Params {
			if p == v {
				return e.paramVal(s, i, v.Type())
			}
		}
	case *ssa.FreeVar:
		for i, p := range s.fn.FreeVars {
			if p == v {
				return e.paramVal(s, len(s.fn.Params)+i, v.Type())
			}
		}
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Function:
		return nil
	}
	return s.vals[v]
}

func (e *Effects) paramVal(s *esum, i int, t types.Type) map[string]eset {
	if !trackable(t) {
		return nil
	}
	out := map[string]eset{}
	var rec func(t types.Type, rel string, d int)
	rec = func(t types.Type, rel string, d int) {
		if !trackable(t) {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if d < 6 {
				for j := 0; j < u.NumFields(); j++ {
					rec(u.Field(j).Type(), rel+fmt.Sprintf(".%d", j), d+1)
				}
			}
		case *types.Array:
			rec(u.Elem(), rel+"[]", d+1)
		default:
			if rel == "" {
				out[rel] = eset{eloc{s.params[i], ""}: true}
			} else {
				// struct passed by value: what its pointer fields reach
				out[rel] = eset{eloc{s.deeps[i], ""}: true}
			}
		}
	}
	rec(t, "", 0)
	return out
}

func (e *Effects) ptrs(s *esum, v ssa.Value) eset {
	m := e.val(s, v)
	if m == nil {
		return nil
	}
	return m[""]
}

func (e *Effects) all(s *esum, v ssa.Value) eset {
	out := eset{}
	for _, x := range e.val(s, v) {
		for l := range x {
			out[l] = true
		}
	}
	return out
}

// reach: everything reachable from set (transitively through contents).
func (e *Effects) reach(s *esum, start eset) eset {
	out := eset{}
	var stack []eloc
	for l := range start {
		stack = append(stack, l)
	}
	for len(stack) > 0 {
		l := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if out[l] {
			continue
		}
		out[l] = true
		for x := range e.load(s, eloc{l.o, "*"}) {
			stack = append(stack, x)
		}
	}
	return out
}

func copyVal(s *esum, dst ssa.Value, src map[string]eset, pre string) {
	for p, x := range src {
		if strings.HasPrefix(p, pre) {
			s.set(dst, p[len(pre):], x)
		}
	}
}

func (e *Effects) pass(s *esum) bool {
	any := false
	for round := 0; ; round++ {
		s.changed = false
		for _, b := range s.fn.Blocks {
			for _, in := range b.Instrs {
				e.instr(s, in)
			}
		}
		if s.changed {
			any = true
		} else {
			break
		}
		if round > 500 {
			panic("effects: local fixpoint " + s.fn.String())
		}
	}
	return any
}

func (e *Effects) instr(s *esum, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		o := s.alloc(siteKey(in))
		o.typ = in.Type()
		s.set(in, "", eset{eloc{o, ""}: true})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		s.set(v, "", eset{eloc{s.alloc(siteKey(v)), ""}: true})
	case *ssa.MakeInterface:
		if trackable(in.X.Type()) {
			for _, x := range e.val(s, in.X) {
				s.set(in, "", x)
			}
			if _, ok := in.X.Type().Underlying().(*types.Struct); ok {
				// boxed copy; keep contents reachable
			}
		}
	case *ssa.MakeClosure:
		o := s.alloc(siteKey(in))
		for i, b := range in.Bindings {
			for _, x := range e.val(s, b) {
				s.storeLoc(eloc{o, ""}, fmt.Sprintf("#%d", i), x)
			}
		}
		s.set(in, "", eset{eloc{o, ""}: true})
	case *ssa.FieldAddr:
		for l := range e.ptrs(s, in.X) {
			s.set(in, "", eset{addPath(l, fmt.Sprintf(".%d", in.Field)): true})
		}
	case *ssa.IndexAddr:
		for l := range e.ptrs(s, in.X) {
			s.set(in, "", eset{addPath(l, "[]"): true})
		}
	case *ssa.Field:
		copyVal(s, in, e.val(s, in.X), fmt.Sprintf(".%d", in.Field))
	case *ssa.Index:
		copyVal(s, in, e.val(s, in.X), "[]")
	case *ssa.Lookup:
		if trackable(in.Type()) {
			for l := range e.ptrs(s, in.X) {
				s.set(in, "", e.load(s, addPath(l, "[]")))
			}
		}
	case *ssa.MapUpdate:
		for l := range e.ptrs(s, in.Map) {
			e.write(s, addPath(l, "[]"), in.Pos(), "map update")
			for _, x := range e.val(s, in.Value) {
				s.storeLoc(l, "[]", x)
			}
		}
	case *ssa.Slice:
		if _, ok := in.X.Type().Underlying().(*types.Basic); ok {
			return
		}
		s.set(in, "", e.ptrs(s, in.X))
	case *ssa.Phi:
		for _, ed := range in.Edges {
			for p, x := range e.val(s, ed) {
				s.set(in, p, x)
			}
		}
	case *ssa.ChangeType, *ssa.ChangeInterface, *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		v := in.(ssa.Value)
		var ops []*ssa.Value
		ops = in.Operands(ops)
		copyVal(s, v, e.val(s, *ops[0]), "")
	case *ssa.Convert:
		// string<->bytes conversions copy; unsafe.Pointer conversions keep aliasing
		tb, tok := in.Type().Underlying().(*types.Basic)
		fb, fok := in.X.Type().Underlying().(*types.Basic)
		if (tok && tb.Info()&types.IsString != 0) || (fok && fb.Info()&types.IsString != 0) {
			if _, ok := in.Type().Underlying().(*types.Slice); ok {
				s.set(in, "", eset{eloc{s.alloc(siteKey(in)), ""}: true})
			}
			return
		}
		_ = tok
		_ = fok
		copyVal(s, in, e.val(s, in.X), "")
	case *ssa.TypeAssert:
		if in.CommaOk {
			copyValTo(s, in, e.val(s, in.X), ".0")
		} else {
			copyVal(s, in, e.val(s, in.X), "")
		}
	case *ssa.Extract:
		copyVal(s, in, e.val(s, in.Tuple), fmt.Sprintf(".%d", in.Index))
	case *ssa.UnOp:
		if in.Op == token.MUL {
			if !trackable(in.Type()) {
				return
			}
			for l := range e.ptrs(s, in.X) {
				out := map[string]eset{}
				e.loadTyped(s, l, in.Type(), "", out, 0)
				for p, x := range out {
					s.set(in, p, x)
				}
			}
		} else if in.Op == token.ARROW {
			e.undec(s, in, "channel receive")
		}
	case *ssa.Store:
		for l := range e.ptrs(s, in.Addr) {
			e.write(s, l, in.Pos(), "store")
			for p, x := range e.val(s, in.Val) {
				s.storeLoc(l, p, x)
			}
		}
		if e.ptrs(s, in.Addr) == nil {
			if _, ok := in.Addr.(*ssa.Const); !ok {
				// address not yet known on this round
			}
		}
	case *ssa.Return:
		for i, r := range in.Results {
			if !trackable(r.Type()) {
				continue
			}
			for p, x := range e.val(s, r) {
				s.addTo(s.results[i], p, x)
			}
		}
	case *ssa.Go:
		e.call(s, in, nil)
	case *ssa.Defer:
		e.call(s, in, nil)
	case *ssa.Call:
		e.call(s, in, in)
	case *ssa.Range, *ssa.Next, *ssa.Select, *ssa.Send:
		if n, ok := in.(*ssa.Next); ok && n.IsString {
			return
		}
		if r, ok := in.(*ssa.Range); ok {
			if b, ok := r.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return
			}
			copyVal(s, r, e.val(s, r.X), "")
			return
		}
		if n, ok := in.(*ssa.Next); ok {
			for l := range e.ptrs(s, n.Iter) {
				x := e.load(s, addPath(l, "[]"))
				s.set(n, ".1", x)
				s.set(n, ".2", x)
			}
			return
		}
		if e.P.InRepo(s.fn) {
			e.undec(s, in, fmt.Sprintf("%T", in))
		}
	}
}

func copyValTo(s *esum, dst ssa.Value, src map[string]eset, to string) {
	for p, x := range src {
		s.set(dst, to+p, x)
	}
}

func (e *Effects) undec(s *esum, in ssa.Instruction, why string) {
	e.Undec[short(s.fn)+": "+why] = e.P.Pos(in.Pos())
}

func siteKey(v ssa.Value) string {
	return v.Parent().String() + "#" + v.Name()
}

// ---- calls ----

// funcVar lists the functions stored in a package-level function variable; all
// is false when something other than a plain function is stored or its address
// escapes.
func (e *Effects) funcVar(g *ssa.Global) ([]*ssa.Function, bool) {
	if e.fvars == nil {
		e.fvars = map[*ssa.Global][]*ssa.Function{}
		e.fbad = map[*ssa.Global]bool{}
		for _, f := range e.P.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if gg, ok := st.Addr.(*ssa.Global); ok {
							v := st.Val
							if ct, ok := v.(*ssa.ChangeType); ok {
								v = ct.X
							}
							if fn, ok := v.(*ssa.Function); ok {
								e.fvars[gg] = append(e.fvars[gg], fn)
							} else {
								e.fbad[gg] = true
							}
							continue
						}
					}
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					var ops []*ssa.Value
					for _, op := range in.Operands(ops) {
						if gg, ok := (*op).(*ssa.Global); ok {
							e.fbad[gg] = true
						}
					}
				}
			}
		}
	}
	return e.fvars[g], len(e.fvars[g]) > 0 && !e.fbad[g]
}

func constOrNil(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

// valueRecv: interface values that may hold something without pointers (or
// whose origin is outside the tracked values) are dispatched by type alone.
func (e *Effects) valueRecv(v ssa.Value) bool { return true }

func sigKey(sig *types.Signature) string {
	return types.TypeString(types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic()), nil)
}

func (e *Effects) ifaceImpls(t types.Type, m *types.Func) []*ssa.Function {
	k := t.String() + "." + m.Name()
	if r, ok := e.impls[k]; ok {
		return r
	}
	it, _ := t.Underlying().(*types.Interface)
	var out []*ssa.Function
	if it != nil {
		for _, sp := range e.P.SSA.AllPackages() {
			pp := sp.Pkg.Path()
			if !(strings.HasPrefix(pp, modPath) || strings.HasPrefix(pp, "github.com/drand/") || strings.HasPrefix(pp, "github.com/phoreproject/")) {
				continue
			}
			for _, mem := range sp.Members {
				tn, ok := mem.(*ssa.Type)
				if !ok {
					continue
				}
				for _, tt := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
					if _, isI := tn.Type().Underlying().(*types.Interface); isI {
						continue
					}
					if types.Implements(tt, it) {
						sel := e.P.SSA.MethodSets.MethodSet(tt).Lookup(m.Pkg(), m.Name())
						if sel != nil {
							f := e.P.SSA.MethodValue(sel)
							if f != nil {
								out = append(out, f)
							}
							break
						}
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	e.impls[k] = out
	return out
}

func (e *Effects) call(s *esum, in ssa.CallInstruction, res ssa.Value) {
	c := in.Common()
	e.NCalls++
	if b, ok := c.Value.(*ssa.Builtin); ok {
		e.builtin(s, in, b, c, res)
		return
	}
	if c.IsInvoke() {
		rs := e.ptrs(s, c.Value)
		precise := len(rs) > 0
		for l := range rs {
			if l.o.kind != oAlloc || l.path != "" || (l.o.typ == nil && !l.o.ext) {
				precise = false
			}
		}
		args := append([]ssa.Value{c.Value}, c.Args...)
		if len(rs) == 0 && s.fn.Synthetic == "" && !constOrNil(c.Value) {
			// receiver not yet computed this round, or a value without pointers
			if !e.valueRecv(c.Value) {
				return
			}
		}
		if precise {
			done := map[*ssa.Function]bool{}
			extn := false
			for l := range rs {
				if l.o.ext {
					extn = true
					continue
				}
				sel := e.P.SSA.MethodSets.MethodSet(l.o.typ).Lookup(c.Method.Pkg(), c.Method.Name())
				if sel == nil {
					continue // this object never reaches the interface with this method
				}
				f := e.P.SSA.MethodValue(sel)
				if f != nil && !done[f] {
					done[f] = true
					e.apply(s, in, f, args, nil, res)
				}
			}
			if extn {
				e.extern(s, in, "I:"+c.Method.Name(), c.Value.Type().String()+"."+c.Method.Name(), args, res)
			}
			return
		}
		for _, f := range e.ifaceImpls(c.Value.Type(), c.Method) {
			args := append([]ssa.Value{c.Value}, c.Args...)
			e.apply(s, in, f, args, nil, res)
		}
		e.extern(s, in, "I:"+c.Method.Name(), c.Value.Type().String()+"."+c.Method.Name(), append([]ssa.Value{c.Value}, c.Args...), res)
		return
	}
	if f := c.StaticCallee(); f != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			e.apply(s, in, f, append(append([]ssa.Value{}, c.Args...), mc.Bindings...), nil, res)
			return
		}
		e.apply(s, in, f, c.Args, nil, res)
		return
	}
	// a package-level function variable: every function ever stored in it
	if u, ok := c.Value.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			if fs, all := e.funcVar(g); all {
				for _, f := range fs {
					e.apply(s, in, f, c.Args, nil, res)
				}
				return
			}
		}
	}
	// dynamic: every address-taken function of that signature
	sk := sigKey(c.Signature())
	n := 0
	for _, f := range e.taken {
		if sigKey(f.Signature) == sk {
			n++
			if f.Parent() != nil && len(f.FreeVars) > 0 {
				e.apply(s, in, f, c.Args, c.Value, res)
			} else {
				e.apply(s, in, f, c.Args, nil, res)
			}
		}
	}
	if n == 0 {
		e.undec(s, in, "dynamic call with no candidates")
	}
}

func (e *Effects) apply(s *esum, in ssa.CallInstruction, f *ssa.Function, args []ssa.Value, clo ssa.Value, res ssa.Value) {
	if isOnceDo(f) {
		return // sync.Once.Do: runs its argument once, synchronised
	}
	if !e.analyzable(f) {
		e.extern(s, in, f.String(), f.String(), args, res)
		return
	}
	if e.callers[f] == nil {
		e.callers[f] = map[*ssa.Function]bool{}
	}
	e.callers[f][s.fn] = true
	cs := e.Sum(f)
	// parameter binding
	bind := make([]map[string]eset, len(cs.params))
	deep := make([]eset, len(cs.params))
	for i := range cs.params {
		var m map[string]eset
		if i < len(args) {
			m = e.val(s, args[i])
		} else if clo != nil {
			m = map[string]eset{"": {}}
			for l := range e.ptrs(s, clo) {
				for p, x := range l.o.cont {
					if strings.HasPrefix(p, "#") {
						for y := range x {
							m[""][y] = true
						}
					}
				}
				if l.o.kind != oAlloc {
					for x := range e.load(s, l) {
						m[""][x] = true
					}
				}
			}
		}
		bind[i] = m
		// deep: reachable beyond the direct pointees
		d := eset{}
		first := eset{}
		for p, x := range m {
			if p == "" {
				for l := range x {
					first[l] = true
				}
			} else {
				for l := range x {
					d[l] = true
				}
			}
		}
		for l := range first {
			for x := range e.load(s, eloc{l.o, "*"}) {
				d[x] = true
			}
		}
		deep[i] = e.reach(s, d)
	}
	inst := map[*eobj]*eobj{}
	site := fmt.Sprintf("%s@%s", callSiteKey(in), short(f))
	var tr func(l eloc) eset
	var fill func(co, no *eobj)
	tr = func(l eloc) eset {
		out := eset{}
		switch l.o.kind {
		case oParam:
			if bind[l.o.idx] != nil {
				for x := range bind[l.o.idx][""] {
					out[addPath(x, l.path)] = true
				}
			}
		case oDeep:
			for x := range deep[l.o.idx] {
				out[eloc{x.o, "*"}] = true
				if x.o.kind == oDeep || x.o.kind == oGDeep {
					out[normLoc(x)] = true
					delete(out, eloc{x.o, "*"})
				}
			}
		case oGlobal, oGDeep:
			out[l] = true
		case oAlloc:
			no := inst[l.o]
			if no == nil {
				if l.o.depth > 10 {
					no = s.alloc(site + "/deep")
				} else {
					no = s.alloc(site + "/" + l.o.key)
					if len(site)+len(l.o.key) > 600 {
						no = s.alloc(site + "/long")
					}
				}
				no.depth = l.o.depth + 1
				no.typ = l.o.typ
				no.ext = l.o.ext
				inst[l.o] = no
				fill(l.o, no)
			}
			out[eloc{no, l.path}] = true
		}
		return out
	}
	fill = func(co, no *eobj) {
		for p, x := range co.cont {
			for l := range x {
				s.addTo(no.cont, p, tr(l))
			}
		}
	}
	for _, w := range cs.writes {
		for l := range tr(eloc{w.o, w.path}) {
			e.write(s, l, in.Pos(), "call to "+short(f)+" ("+w.via+")")
		}
	}
	// stores into parameter memory
	for i, po := range cs.params {
		for _, co := range []*eobj{po, cs.deeps[i]} {
			for p, x := range co.cont {
				vs := eset{}
				for l := range x {
					for y := range tr(l) {
						vs[y] = true
					}
				}
				for l := range tr(eloc{co, p}) {
					s.addTo(l.o.cont, l.path, vs)
				}
			}
		}
	}
	if res != nil {
		nres := len(cs.results)
		for i, r := range cs.results {
			for p, x := range r {
				pre := ""
				if nres > 1 {
					pre = fmt.Sprintf(".%d", i)
				}
				for l := range x {
					s.set(res, pre+p, tr(l))
				}
			}
		}
	}
}

func isOnceDo(f *ssa.Function) bool { return f.String() == "(*sync.Once).Do" }

func callSiteKey(in ssa.CallInstruction) string {
	if v := in.Value(); v != nil {
		return v.Name()
	}
	return fmt.Sprintf("p%d", in.Pos())
}

func (e *Effects) builtin(s *esum, in ssa.CallInstruction, b *ssa.Builtin, c *ssa.CallCommon, res ssa.Value) {
	switch b.Name() {
	case "append":
		clipped := isClipped(c.Args[0])
		o := s.alloc(siteKey(res))
		s.set(res, "", eset{eloc{o, ""}: true})
		if !clipped {
			s.set(res, "", e.ptrs(s, c.Args[0]))
			for l := range e.ptrs(s, c.Args[0]) {
				e.write(s, addPath(l, "[]"), in.Pos(), "append into spare capacity")
			}
		}
		el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if trackable(el) {
			targets := []eloc{{o, ""}}
			for l := range e.ptrs(s, c.Args[0]) {
				targets = append(targets, l)
			}
			srcs := eset{}
			for l := range e.ptrs(s, c.Args[1]) {
				srcs[l] = true
			}
			for l := range e.ptrs(s, c.Args[0]) {
				srcs[l] = true
			}
			for l := range srcs {
				out := map[string]eset{}
				e.loadTyped(s, addPath(l, "[]"), el, "", out, 0)
				for p, x := range out {
					for _, t := range targets {
						s.storeLoc(t, "[]"+p, x)
					}
				}
			}
		}
	case "copy":
		for l := range e.ptrs(s, c.Args[0]) {
			e.write(s, addPath(l, "[]"), in.Pos(), "copy")
		}
		if st, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && trackable(st.Elem()) {
			for l := range e.ptrs(s, c.Args[1]) {
				out := map[string]eset{}
				e.loadTyped(s, addPath(l, "[]"), st.Elem(), "", out, 0)
				for p, x := range out {
					for t := range e.ptrs(s, c.Args[0]) {
						s.storeLoc(t, "[]"+p, x)
					}
				}
			}
		}
	case "clear", "delete":
		for l := range e.ptrs(s, c.Args[0]) {
			e.write(s, addPath(l, "[]"), in.Pos(), b.Name())
		}
	case "len", "cap", "print", "println", "panic", "recover", "min", "max", "real", "imag", "complex", "close":
	case "ssa:wrapnilchk", "String", "StringData", "SliceData", "Slice", "Add":
		if res != nil {
			copyVal(s, res, e.val(s, c.Args[0]), "")
		}
	default:
		e.undec(s, in, "builtin "+b.Name())
	}
}

// isClipped: a full slice expression x[:n:n] has no spare capacity.
func isClipped(v ssa.Value) bool {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Max == nil {
		return false
	}
	return sl.High == sl.Max || (sl.High != nil && sameExpr(sl.High, sl.Max))
}

func sameExpr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	ca, ok1 := a.(*ssa.Const)
	cb, ok2 := b.(*ssa.Const)
	if ok1 && ok2 && ca.Value != nil && cb.Value != nil {
		return ca.Value.ExactString() == cb.Value.ExactString()
	}
	la, ok1 := a.(*ssa.Call)
	lb, ok2 := b.(*ssa.Call)
	if ok1 && ok2 {
		ba, o1 := la.Call.Value.(*ssa.Builtin)
		bb, o2 := lb.Call.Value.(*ssa.Builtin)
		if o1 && o2 && ba.Name() == "len" && bb.Name() == "len" {
			return la.Call.Args[0] == lb.Call.Args[0]
		}
	}
	return false
}

// ---- models of code outside the analysed sources ----

// readers of *big.Int: leave the receiver alone
var bigReaders = map[string]bool{"Cmp": true, "CmpAbs": true, "Sign": true, "Bytes": true, "BitLen": true, "Bit": true, "Uint64": true, "Int64": true,
	"String": true, "Text": true, "IsInt64": true, "IsUint64": true, "ProbablyPrime": true, "TrailingZeroBits": true, "Format": true, "Append": true,
	"MarshalJSON": true, "MarshalText": true, "GobEncode": true, "FillBytes": true, "Bits": true, "Float64": true}

type extModel struct {
	writes []int // parameter positions whose direct pointee is written
	alias  []int // parameter positions a result may point to
	deepA  []int // parameter positions whose deeper memory a result may point to
	fresh  bool  // result is freshly allocated
}

func extModelFor(key string, f string) (extModel, bool) {
	switch {
	case strings.HasPrefix(f, "(*math/big.Int)."):
		m := strings.TrimPrefix(f, "(*math/big.Int).")
		if m == "Bits" {
			return extModel{alias: []int{0}}, true
		}
		if m == "FillBytes" || m == "Append" {
			return extModel{writes: []int{1}, alias: []int{1}}, true
		}
		if bigReaders[m] {
			return extModel{fresh: true}, true
		}
		if m == "DivMod" || m == "QuoRem" {
			return extModel{writes: []int{0, 3}, alias: []int{0, 3}}, true
		}
		if m == "GCD" {
			return extModel{writes: []int{0, 1, 2}, alias: []int{0}}, true
		}
		if m == "SetBits" {
			return extModel{writes: []int{0}, alias: []int{0}}, true
		}
		return extModel{writes: []int{0}, alias: []int{0}}, true
	case strings.HasPrefix(f, "math/big."), strings.HasPrefix(f, "crypto/sha"), strings.HasPrefix(f, "crypto/md5"), strings.HasPrefix(f, "golang.org/x/crypto/"),
		strings.HasPrefix(f, "encoding/hex.DecodeString"), strings.HasPrefix(f, "encoding/hex.EncodeToString"), strings.HasPrefix(f, "errors."), strings.HasPrefix(f, "fmt."), strings.HasPrefix(f, "strings."),
		strings.HasPrefix(f, "math."), strings.HasPrefix(f, "math/bits."), strings.HasPrefix(f, "crypto/aes."), strings.HasPrefix(f, "crypto/hmac."), strings.HasPrefix(f, "crypto/subtle.ConstantTime"), strings.HasPrefix(f, "strconv."),
		strings.HasPrefix(f, "encoding/json.Marshal"), strings.HasPrefix(f, "hash."), strings.HasPrefix(f, "crypto/rand.Int"), strings.HasPrefix(f, "sort.Search"), strings.HasPrefix(f, "reflect."), strings.HasPrefix(f, "math/rand."):
		return extModel{fresh: true}, true
	case strings.HasPrefix(f, "crypto/cipher.New"):
		return extModel{fresh: true}, true
	case strings.HasPrefix(f, "crypto/elliptic."), strings.HasPrefix(f, "(*crypto/elliptic.CurveParams)."), strings.HasPrefix(f, "(crypto/elliptic."):
		if strings.HasSuffix(f, ".Params") {
			return extModel{alias: []int{0}}, true
		}
		return extModel{fresh: true}, true
	case strings.HasPrefix(f, "crypto/ecdsa."):
		return extModel{fresh: true}, true
	case strings.HasPrefix(f, "crypto.RegisterHash"):
		return extModel{}, true
	case strings.HasPrefix(f, "encoding/json.Unmarshal"):
		return extModel{writes: []int{1}}, true
	case f == "crypto/rand.Read":
		return extModel{writes: []int{0}}, true
	case f == "io.ReadFull" || f == "io.ReadAtLeast":
		return extModel{writes: []int{1}}, true
	case strings.HasPrefix(f, "(encoding/binary."):
		if strings.Contains(f, ").Put") {
			return extModel{writes: []int{1}}, true
		}
		if strings.Contains(f, ").Append") {
			return extModel{writes: []int{1}, alias: []int{1}, fresh: true}, true
		}
		return extModel{fresh: true}, true
	case strings.HasPrefix(f, "encoding/binary."):
		return extModel{fresh: true}, true
	case strings.HasPrefix(f, "bytes.Compare"), strings.HasPrefix(f, "bytes.Equal"), strings.HasPrefix(f, "bytes.Index"), strings.HasPrefix(f, "bytes.HasPrefix"), strings.HasPrefix(f, "bytes.HasSuffix"), strings.HasPrefix(f, "bytes.Contains"), strings.HasPrefix(f, "bytes.Repeat"), strings.HasPrefix(f, "bytes.Join"), strings.HasPrefix(f, "bytes.Clone"):
		return extModel{fresh: true}, true
	case strings.HasPrefix(f, "bytes.Trim"):
		return extModel{alias: []int{0}}, true
	case strings.HasPrefix(f, "bytes.NewReader"), strings.HasPrefix(f, "bytes.NewBuffer"):
		return extModel{fresh: true, deepA: []int{0}, alias: []int{0}}, true
	case strings.HasPrefix(f, "(*bytes.Buffer)."), strings.HasPrefix(f, "(*bytes.Reader)."), strings.HasPrefix(f, "(*strings.Builder)."):
		return extModel{writes: []int{0}, alias: []int{0}}, true
	case strings.HasPrefix(f, "slices.Reverse"), strings.HasPrefix(f, "slices.Sort"):
		return extModel{writes: []int{0}}, true
	case strings.HasPrefix(f, "slices.Clone"), strings.HasPrefix(f, "slices.Equal"), strings.HasPrefix(f, "slices.Concat"), strings.HasPrefix(f, "slices.Contains"):
		return extModel{fresh: true}, true
	case strings.HasPrefix(f, "crypto/subtle.XORBytes"), strings.HasPrefix(f, "encoding/hex.Decode"), strings.HasPrefix(f, "encoding/hex.Encode"):
		return extModel{writes: []int{0}}, true
	case strings.HasPrefix(f, "(*sync."), strings.HasPrefix(f, "sync/atomic."), strings.HasPrefix(f, "(*sync/atomic."):
		return extModel{writes: []int{0}, deepA: []int{0}}, true
	case strings.HasPrefix(f, "golang.org/x/sys/cpu."), strings.HasPrefix(f, "internal/"), strings.HasPrefix(f, "runtime."), strings.HasPrefix(f, "os."), strings.HasPrefix(f, "time."):
		return extModel{fresh: true}, true
	case strings.HasPrefix(f, "(reflect."), strings.HasPrefix(f, "(*reflect."):
		return extModel{fresh: true, deepA: []int{0}, alias: []int{0}}, true
	case strings.HasPrefix(f, "(*errors."), strings.HasPrefix(f, "(*fmt."), strings.HasPrefix(f, "(*math/rand"), strings.HasPrefix(f, "(*golang.org/x/crypto/"), strings.HasPrefix(f, "(golang.org/x/crypto/"):
		return extModel{writes: []int{0}, fresh: true}, true
	}
	return extModel{}, false
}

// interface methods: behaviour of implementations outside the repository
func ifaceModel(f string) (extModel, bool) {
	i := strings.LastIndex(f, ".")
	typ, m := f[:i], f[i+1:]
	switch m {
	case "Write":
		return extModel{writes: []int{0}}, true
	case "WriteString":
		return extModel{writes: []int{0}}, true
	case "Sum":
		return extModel{writes: []int{1}, alias: []int{1}, fresh: true}, true
	case "Reset":
		return extModel{writes: []int{0}}, true
	case "Size", "BlockSize", "Error", "String":
		return extModel{}, true
	case "Read":
		return extModel{writes: []int{0, 1}}, true
	case "XORKeyStream", "Encrypt", "Decrypt":
		return extModel{writes: []int{0, 1}}, true
	}
	if typ == "crypto/elliptic.Curve" {
		if m == "Params" {
			return extModel{alias: []int{0}, deepA: []int{0}}, true
		}
		return extModel{fresh: true}, true
	}
	if strings.HasPrefix(typ, modPath) || strings.HasPrefix(typ, "github.com/") {
		return extModel{}, true // only implementations inside the analysed sources
	}
	return extModel{}, false
}

func (e *Effects) extern(s *esum, in ssa.CallInstruction, key, f string, args []ssa.Value, res ssa.Value) {
	var m extModel
	ok := false
	if strings.HasPrefix(key, "I:") {
		m, ok = ifaceModel(f)
	} else if strings.HasPrefix(f, modPath) {
		// assembly routines of the repository: the first operand is the destination
		m, ok = asmModel(f)
	} else {
		m, ok = extModelFor(key, f)
	}
	if !ok {
		if e.P.InRepo(s.fn) {
			e.undec(s, in, "unmodelled external callee "+f)
		}
		// conservative: may write everything passed, may alias everything
		m = extModel{fresh: true}
		for i := range args {
			m.writes = append(m.writes, i)
			m.alias = append(m.alias, i)
			m.deepA = append(m.deepA, i)
		}
	}
	for _, i := range m.writes {
		if i < len(args) {
			for l := range e.all(s, args[i]) {
				e.write(s, addPath(l, "[]"), in.Pos(), "call to "+shortS(f))
			}
		}
	}
	if res == nil {
		return
	}
	tup, isT := res.Type().(*types.Tuple)
	put := func(x eset) {
		if isT {
			for i := 0; i < tup.Len(); i++ {
				if trackable(tup.At(i).Type()) {
					s.set(res, fmt.Sprintf(".%d", i), x)
				}
			}
		} else if trackable(res.Type()) {
			s.set(res, "", x)
		}
	}
	if m.fresh {
		o := s.alloc(siteKey(res) + "!" + f)
		o.ext = true
		put(eset{eloc{o, ""}: true})
	}
	for _, i := range m.alias {
		if i < len(args) {
			put(e.all(s, args[i]))
		}
	}
	for _, i := range m.deepA {
		if i < len(args) {
			put(e.reach(s, e.all(s, args[i])))
		}
	}
}

func asmModel(f string) (extModel, bool) {
	base := f[strings.LastIndex(f, ".")+1:]
	switch base {
	case "isEven", "is_even":
		return extModel{}, true
	case "init":
		return extModel{}, true
	}
	return extModel{writes: []int{0}}, true
}
