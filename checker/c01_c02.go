package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C01"] = checkC01
	checks["C02"] = checkC02
}

// Parameters that exported functions write by design: the output operands of
// the arithmetic and scheme packages (function, parameter positions, reason).
// Receivers of pointer methods are always allowed.
var outParams = map[string]struct {
	idx    []int
	reason string
}{
	"(*bls12_381.OwcryptG1).MarshalTo":                         {[]int{1}, "io.Writer destination"},
	"(*bls12_381.OwcryptG2).MarshalTo":                         {[]int{1}, "io.Writer destination"},
	"(*bls12_381.OwcryptGT).MarshalTo":                         {[]int{1}, "io.Writer destination"},
	"(*bls12_381.OwcryptG1).UnmarshalFrom":                     {[]int{1}, "io.Reader source advances"},
	"(*bls12_381.OwcryptG2).UnmarshalFrom":                     {[]int{1}, "io.Reader source advances"},
	"(*bls12_381.OwcryptGT).UnmarshalFrom":                     {[]int{1}, "io.Reader source advances"},
	"(*bls12_381.OwcryptG1).Pick":                              {[]int{1}, "random stream advances"},
	"(*bls12_381.OwcryptG2).Pick":                              {[]int{1}, "random stream advances"},
	"(*bls12_381.OwcryptGT).Pick":                              {[]int{1}, "random stream advances"},
	"(*bls12_381.Suite).Pair":                                  {[]int{1, 2}, "points are normalised to affine in place (same point)"},
	"(*bls12_381.Suite).ValidatePairing":                       {[]int{1, 2, 3, 4}, "points are normalised to affine in place (same point)"},
	"(*bls12_381/bls.Engine).AddPair":                          {[]int{1, 2}, "points are normalised to affine in place (same point)"},
	"(*bls12_381/bls.Engine).AddPairInv":                       {[]int{1, 2}, "points are normalised to affine in place; the G1 operand is the engine's own copy"},
	"(*bls12_381/bls.G1).ToBytes":                              {[]int{1}, "normalised to affine in place"},
	"(*bls12_381/bls.G1).ToCompressed":                         {[]int{1}, "normalised to affine in place"},
	"(*bls12_381/bls.G1).ToUncompressed":                       {[]int{1}, "normalised to affine in place"},
	"(*bls12_381/bls.G2).ToBytes":                              {[]int{1}, "normalised to affine in place"},
	"(*bls12_381/bls.G2).ToCompressed":                         {[]int{1}, "normalised to affine in place"},
	"(*bls12_381/bls.G2).ToUncompressed":                       {[]int{1}, "normalised to affine in place"},
	"(*bls12_381/bls.G1).MulByCofactor":                        {[]int{1}, "output operand"},
	"eddsa/edwards25519.FeToBytes":                             {[]int{0, 1}, "output; the element is carried in place (same value)"},
	"eddsa/edwards25519.FeIsNegative":                          {[]int{0}, "the element is carried in place (same value)"},
	"eddsa/edwards25519.FeIsNonZero":                           {[]int{0}, "the element is carried in place (same value)"},
	"(*eddsa/edwards25519.ExtendedGroupElement).ToBytes":       {[]int{1}, "output operand"},
	"(*eddsa/edwards25519.ProjectiveGroupElement).ToBytes":     {[]int{1}, "output operand"},
	"(*eddsa/edwards25519.CompletedGroupElement).ToExtended":   {[]int{1}, "output operand"},
	"(*eddsa/edwards25519.CompletedGroupElement).ToProjective": {[]int{1}, "output operand"},
	"(*eddsa/edwards25519.ExtendedGroupElement).ToProjective":  {[]int{1}, "output operand"},
	"(*eddsa/edwards25519.ExtendedGroupElement).ToCached":      {[]int{1}, "output operand"},
	"(*eddsa/edwards25519.ExtendedGroupElement).Double":        {[]int{1}, "output operand"},
	"(*eddsa/edwards25519.ProjectiveGroupElement).Double":      {[]int{1}, "output operand"},
	"eddsa.Curve":             {[]int{0}, "Curve25519 ladder: first operand is the output"},
	"eddsa.Keygen":            {[]int{0, 1, 2}, "Curve25519-KCDSA key generation: outputs P, s and the clamped key k"},
	"eddsa.Sign":              {[]int{0}, "Curve25519-KCDSA: output v"},
	"eddsa.Verify":            {[]int{0}, "Curve25519-KCDSA: output Y"},
	"eddsa.Point_add":         {[]int{2}, "output operand"},
	"eddsa.ScalarMultBaseAdd": {[]int{2}, "output operand"},
	"pasta.AffineToGroup":     {[]int{0}, "output operand"},
	"sha3.ShakeSum128":        {[]int{0}, "output buffer"},
	"sha3.ShakeSum256":        {[]int{0}, "output buffer"},
	"pasta.GroupScalarMul":    {[]int{0}, "output operand"},
	"pasta.Compress":          {[]int{0}, "output operand"},
	"pasta.Decompress":        {[]int{0}, "output operand"},
	"pasta.GeneratePubkey":    {[]int{0}, "output operand"},
	"pasta.MatrixMul":         {[]int{0}, "output operand"},
	"pasta.PerMutation3W":     {[]int{0}, "sponge state"},
	"pasta.PoseidonUpdate":    {[]int{0}, "sponge state"},
	"pasta.PoseidonDigest":    {[]int{0}, "sponge state"},
}

// firstOperandOut: naming convention of the arithmetic packages, in which the
// first operand (or first two, for carry/borrow primitives) is the output and
// is a pointer to a fixed-size element, never caller bytes.
func firstOperandOut(f *ssa.Function, i int) bool {
	pp := strings.TrimPrefix(pkgPathOf(f), modPath+"/")
	switch pp {
	case "pasta", "eddsa/edwards25519", "bls12_381/bls":
	default:
		return false
	}
	if i >= len(f.Params) {
		return false
	}
	pt, ok := f.Params[i].Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_ = pt
	first := 0
	if f.Signature.Recv() != nil {
		first = 1
		if pp == "bls12_381/bls" && i == 1 {
			return true // kilic style: engine.Op(r, a, b)
		}
	}
	if i == first {
		return true
	}
	if i == first+1 && pp == "pasta" && (strings.HasSuffix(f.Name(), "XU64")) {
		return true
	}
	return false
}

// byte slices returned by hash.Hash.Sum may share the argument's memory: that
// is the interface's contract (append semantics).
func isHashSum(f *ssa.Function) bool {
	s := f.Signature
	return f.Name() == "Sum" && s.Recv() != nil && s.Params().Len() == 1 && s.Results().Len() == 1 && isByteSlice(s.Params().At(0).Type())
}

func isReader(f *ssa.Function) bool {
	s := f.Signature
	return f.Name() == "Read" && s.Recv() != nil && s.Params().Len() == 1 && isByteSlice(s.Params().At(0).Type())
}

func isByteSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func effectRoots(p *Prog) []*ssa.Function {
	var roots []*ssa.Function
	for _, sp := range p.RepoSP {
		roots = append(roots, p.ExportedFuncs(sp)...)
	}
	return roots
}

func checkC01(p *Prog, r *Report) {
	r.Explain = "Interprocedural, context-sensitive write-effect and alias analysis over SSA. For every exported function and method: the set of caller-supplied memory (parameter pointees, anything reachable from them, spare slice capacity) it or anything it calls may write must lie within the operands documented as outputs; for the top-level API additionally no result may point into an argument."
	r.Assume = []string{"callees outside the repository behave as their documentation says (models in checker/effects.go)", "assembly routines write only their first operand", "dynamic calls reach only functions whose address is taken"}
	e := NewEffects(p)
	roots := effectRoots(p)
	e.Run(roots)
	r.Count("exported_functions", len(roots))
	r.Count("functions_summarised", len(e.sums))
	r.Count("call_sites", e.NCalls)
	r.Min["exported_functions"] = 380
	slices := 0
	for _, f := range roots {
		s := e.sums[f]
		name := short(f)
		recv := f.Signature.Recv() != nil
		for i, prm := range f.Params {
			if !trackable(prm.Type()) {
				continue
			}
			key := fmt.Sprintf("write/%s/param%d", name, i)
			var ws []ewrite
			for _, w := range s.writes {
				if (w.o.kind == oParam || w.o.kind == oDeep) && w.o.idx == i {
					ws = append(ws, w)
				}
			}
			sort.Slice(ws, func(a, b int) bool { return ws[a].pos < ws[b].pos })
			if isByteSlice(prm.Type()) {
				slices++
			}
			if len(ws) == 0 {
				r.OK(key, p.Pos(f.Pos()), "never written")
				continue
			}
			if recv && i == 0 {
				continue
			}
			allowed := false
			for _, k := range outParams[name].idx {
				if k == i {
					allowed = true
				}
			}
			if firstOperandOut(f, i) {
				allowed = true
			}
			if i == 1 && (isHashSum(f) || isReader(f)) {
				allowed = true
			}
			if name == "(*owcrypt.zr).Read" {
				allowed = true
			}
			if allowed {
				continue
			}
			r.Bad(key, p.Pos(ws[0].pos), fmt.Sprintf("%s writes memory supplied by the caller as parameter %q: %s", name, prm.Name(), ws[0].via))
		}
		// aliasing of results: top-level API
		if pkgPathOf(f) == modPath && token.IsExported(f.Name()) && !recv {
			for i, res := range s.results {
				key := fmt.Sprintf("alias/%s/result%d", name, i)
				bad := ""
				for _, x := range res {
					for l := range e.reach(s, x) {
						if l.o.kind == oParam || l.o.kind == oDeep {
							bad = f.Params[l.o.idx].Name()
						}
					}
				}
				r.Check(bad == "", key, p.Pos(f.Pos()), "result shares memory with argument "+bad)
			}
		}
	}
	r.Count("byte_slice_parameters", slices)
	r.Min["byte_slice_parameters"] = 90
	undecided(p, r, e)
}

func undecided(p *Prog, r *Report, e *Effects) {
	var ks []string
	for k := range e.Undec {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if strings.HasPrefix(k, "(*github.com/drand") || strings.HasPrefix(k, "github.com/") || strings.HasPrefix(k, "(github.com") {
			continue // outside the repository
		}
		r.Undecided("construct/"+k, e.Undec[k]+": construct the analysis cannot follow")
	}
}

func checkC02(p *Prog, r *Report) {
	r.Explain = "Same effect analysis: for every exported function and method the set of package-level variables, and memory reachable from them, that it or anything it calls may write must be empty (package initialisation and functions run through sync.Once are exempt); no byte slice or big integer returned by the top-level API may point into package-level memory."
	r.Assume = []string{"callees outside the repository keep no state of ours", "sync.Once runs its argument once with proper ordering"}
	e := NewEffects(p)
	roots := effectRoots(p)
	e.Run(roots)
	r.Count("exported_functions", len(roots))
	r.Count("functions_summarised", len(e.sums))
	r.Count("call_sites", e.NCalls)
	r.Min["exported_functions"] = 380
	nglob := 0
	for _, sp := range p.RepoSP {
		for _, m := range sp.Members {
			if _, ok := m.(*ssa.Global); ok {
				nglob++
			}
		}
	}
	r.Count("package_variables", nglob)
	r.Min["package_variables"] = 60
	for _, f := range roots {
		s := e.sums[f]
		name := short(f)
		var ws []ewrite
		for _, w := range s.writes {
			if (w.o.kind == oGlobal || w.o.kind == oGDeep) && repoGlobal(w.o.g) {
				ws = append(ws, w)
			}
		}
		sort.Slice(ws, func(a, b int) bool { return ws[a].o.key < ws[b].o.key })
		if len(ws) == 0 {
			r.OK("state/"+name, p.Pos(f.Pos()), "writes no package-level memory")
		}
		seen := map[string]bool{}
		for _, w := range ws {
			k := "state/" + name + "/" + shortS(w.o.g.String())
			if seen[k] {
				continue
			}
			seen[k] = true
			r.Bad(k, p.Pos(w.pos), fmt.Sprintf("%s writes package-level memory %s: %s", name, shortS(w.o.g.String()), w.via))
		}
		for i, res := range s.results {
			rt := f.Signature.Results().At(i).Type()
			top := pkgPathOf(f) == modPath && f.Signature.Recv() == nil
			if !top && !isByteSlice(rt) {
				continue
			}
			bad := ""
			for _, x := range res {
				for l := range e.reach(s, x) {
					if (l.o.kind == oGlobal || l.o.kind == oGDeep) && repoGlobal(l.o.g) {
						bad = shortS(l.o.g.String())
					}
				}
			}
			r.Check(bad == "", fmt.Sprintf("escape/%s/result%d", name, i), p.Pos(f.Pos()), "result refers to package-level memory "+bad)
		}
	}
	undecided(p, r, e)
}

func repoGlobal(g *ssa.Global) bool {
	return g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath)
}
