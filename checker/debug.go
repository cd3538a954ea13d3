package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
)

func (in *Interp) Std() {
	in.modelBig()
	in.modelMisc()
	in.modelHash()
}

func init() {
	dumps["globals"] = func(p *Prog, args []string) {
		in := NewInterp(p)
		in.Std()
		in.RunInit(args...)
		for g, o := range in.globals {
			fmt.Println(shortS(g.String()), "=", in.show(in.base[o], &State{in.tt.True, in.base}))
		}
		for _, u := range in.unk {
			fmt.Println("UNK", u)
		}
		fmt.Fprintln(os.Stderr, in.nsteps, "steps")
	}
}

// -dump call Func arg...: arg = name:len (bytes), name:* (any length), NAME
// (constant) or nil.
func init() {
	dumps["call"] = func(p *Prog, args []string) {
		in := NewInterp(p)
		in.Std()
		in.RunInit("owcrypt")
		in.modelCurves()
		in.modelSchemes()
		st := in.newState()
		var vs []Val
		pkg, name := "", args[0]
		if i := strings.Index(name, "."); i >= 0 {
			pkg, name = name[:i], name[i+1:]
		}
		fn := p.Func(pkg, "", name)
		for i, a := range args[1:] {
			if a == "nil" {
				vs = append(vs, in.zero(fn.Params[i].Type()))
				continue
			}
			if j := strings.Index(a, ":"); j >= 0 {
				if a[j+1:] == "*" {
					vs = append(vs, in.sliceArg(in.tt.BIn(a[:j], in.tt.In("len:"+a[:j], 0, 1<<40)), st))
					continue
				}
				n, _ := strconv.Atoi(a[j+1:])
				v, _ := in.bytesArg(a[:j], n, st)
				vs = append(vs, v)
				continue
			}
			if c, ok := p.constOf(a); ok {
				vs = append(vs, in.tt.Int(int64(c)))
			} else {
				vs = append(vs, in.tt.In(a, 0, 0xffffffff))
			}
		}
		rn := in.Call(fn, st, vs...)
		if rn.st == nil {
			fmt.Println("no return")
			return
		}
		fmt.Println("pc", clip(rn.st.pc.String(), 2000))
		for i, v := range rn.res {
			fmt.Println("result", i, ":")
			for _, a := range in.alts(v, rn.st.pc) {
				fmt.Println("   when", clip(in.decide(a.g, rn.st.pc).String(), 1500))
				fmt.Println("     ", clip(in.show(a.v, &State{in.tt.BAnd(rn.st.pc, a.g), rn.st.mem}), 2500))
			}
		}
		for _, u := range in.unk {
			fmt.Println("UNK", u)
		}
		for _, k := range in.oblOrder {
			if o := in.obl[k]; o.bad {
				fmt.Println("OBL", o.kind, p.Pos(o.pos), o.stack)
			}
		}
		fmt.Println(in.nsteps, "steps")
	}
}

func abbrev(t *T) string {
	x := ""
	for _, m := range t.monos() {
		x += "\n  + " + m.co.Text(16)
		for _, v := range m.vs {
			x += fmt.Sprintf("*%s:%d#%d", v.op, v.n, v.id)
			if v.op == "shr" {
				x += fmt.Sprintf("(%d)", v.args[0].id)
			}
		}
	}
	return x
}
