// Command amtssadump prints, as JSON, the go/ssa form of every function of the
// package in the given directory. Generic functions are dumped as generic
// bodies (type parameters stay symbolic). Nothing is dropped: an instruction
// the dumper does not know is emitted with op "unknown" and the verifier
// rejects any path through it.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]any

type dumper struct {
	fset    *token.FileSet
	types   []M
	typeIdx map[string][]typeEnt
	sizes   types.Sizes
	pkg     *ssa.Package
	queue   []*ssa.Function
	seen    map[*ssa.Function]bool
}
type typeEnt struct {
	t  types.Type
	id int
}

func (d *dumper) typ(t types.Type) int {
	t = types.Unalias(t)
	key := t.String()
	for _, e := range d.typeIdx[key] {
		if types.Identical(e.t, t) {
			return e.id
		}
	}
	id := len(d.types)
	m := M{"id": id, "str": types.TypeString(t, func(p *types.Package) string {
		if p == d.pkg.Pkg {
			return ""
		}
		return p.Path()
	})}
	d.types = append(d.types, m)
	d.typeIdx[key] = append(d.typeIdx[key], typeEnt{t, id})
	switch t := t.(type) {
	case *types.Basic:
		m["kind"] = "basic"
		m["name"] = t.Name()
		m["info"] = int(t.Info())
		if t.Info()&types.IsInteger != 0 && t.Info()&types.IsUntyped == 0 {
			m["bits"] = d.sizes.Sizeof(t) * 8
			m["unsigned"] = t.Info()&types.IsUnsigned != 0
		}
	case *types.Pointer:
		m["kind"] = "pointer"
		m["elem"] = d.typ(t.Elem())
	case *types.Slice:
		m["kind"] = "slice"
		m["elem"] = d.typ(t.Elem())
	case *types.Array:
		m["kind"] = "array"
		m["elem"] = d.typ(t.Elem())
		m["len"] = t.Len()
	case *types.Struct:
		m["kind"] = "struct"
		var fs []M
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			fs = append(fs, M{"name": f.Name(), "type": d.typ(f.Type()), "embedded": f.Embedded()})
		}
		m["fields"] = fs
	case *types.Named:
		m["kind"] = "named"
		m["name"] = t.Obj().Name()
		if p := t.Obj().Pkg(); p != nil {
			m["pkg"] = p.Path()
		} else {
			m["pkg"] = ""
		}
		m["origin"] = t.Origin().Obj().Name()
		m["underlying"] = d.typ(t.Underlying())
		var ta []int
		for i := 0; i < t.TypeArgs().Len(); i++ {
			ta = append(ta, d.typ(t.TypeArgs().At(i)))
		}
		m["targs"] = ta
	case *types.TypeParam:
		m["kind"] = "typeparam"
		m["name"] = t.Obj().Name()
		m["constraint"] = t.Constraint().String()
	case *types.Signature:
		m["kind"] = "func"
		m["params"] = d.tuple(t.Params())
		m["results"] = d.tuple(t.Results())
	case *types.Tuple:
		m["kind"] = "tuple"
		m["elems"] = d.tuple(t)
	case *types.Interface:
		m["kind"] = "interface"
	default:
		m["kind"] = "other"
	}
	return id
}

func (d *dumper) tuple(t *types.Tuple) []int {
	r := []int{}
	for i := 0; i < t.Len(); i++ {
		r = append(r, d.typ(t.At(i).Type()))
	}
	return r
}

func (d *dumper) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := d.fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

func (d *dumper) val(v ssa.Value) any {
	if v == nil {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Const:
		m := M{"k": "const", "t": d.typ(v.Type())}
		if v.Value == nil {
			m["v"] = nil
		} else {
			switch v.Value.Kind() {
			case constant.Bool:
				m["v"] = constant.BoolVal(v.Value)
			case constant.Int:
				m["v"] = v.Value.ExactString()
			case constant.String:
				m["v"] = constant.StringVal(v.Value)
				m["isstr"] = true
			default:
				m["v"] = v.Value.ExactString()
				m["other"] = true
			}
		}
		return m
	case *ssa.Function:
		return d.fnref(v)
	case *ssa.Builtin:
		return M{"k": "builtin", "n": v.Name()}
	case *ssa.Global:
		return M{"k": "global", "n": v.Name(), "pkg": v.Pkg.Pkg.Path(), "t": d.typ(v.Type())}
	case *ssa.FreeVar:
		return M{"k": "reg", "n": "fv:" + v.Name(), "t": d.typ(v.Type())}
	case *ssa.Parameter:
		return M{"k": "reg", "n": "p:" + v.Name(), "t": d.typ(v.Type())}
	default:
		return M{"k": "reg", "n": v.Name(), "t": d.typ(v.Type())}
	}
}

func (d *dumper) fnref(f *ssa.Function) M {
	o := f
	if f.Origin() != nil {
		o = f.Origin()
	}
	pkg := ""
	if o.Pkg != nil {
		pkg = o.Pkg.Pkg.Path()
	} else if o.Object() != nil && o.Object().Pkg() != nil {
		pkg = o.Object().Pkg().Path()
	}
	if o.Blocks != nil && !d.seen[o] && (o.Pkg == d.pkg || o.Parent() != nil || pkg == d.pkg.Pkg.Path() || o.Synthetic != "") {
		d.seen[o] = true
		d.queue = append(d.queue, o)
	}
	m := M{"k": "func", "n": o.String(), "pkg": pkg, "short": o.Name()}
	var ta []int
	for _, t := range f.TypeArgs() {
		ta = append(ta, d.typ(t))
	}
	m["targs"] = ta
	return m
}

func (d *dumper) call(c *ssa.CallCommon, m M) {
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["recv"] = d.val(c.Value)
	} else {
		m["fn"] = d.val(c.Value)
	}
	args := []any{}
	for _, a := range c.Args {
		args = append(args, d.val(a))
	}
	m["args"] = args
}

func (d *dumper) instr(in ssa.Instruction) M {
	m := M{"pos": d.pos(in.Pos())}
	if v, ok := in.(ssa.Value); ok {
		m["r"] = v.Name()
		m["t"] = d.typ(v.Type())
	}
	switch i := in.(type) {
	case *ssa.Alloc:
		m["op"] = "alloc"
		m["heap"] = i.Heap
		m["comment"] = i.Comment
	case *ssa.BinOp:
		m["op"] = "binop"
		m["o"] = i.Op.String()
		m["x"], m["y"] = d.val(i.X), d.val(i.Y)
	case *ssa.UnOp:
		m["op"] = "unop"
		m["o"] = i.Op.String()
		m["x"] = d.val(i.X)
		m["commaok"] = i.CommaOk
	case *ssa.Call:
		m["op"] = "call"
		d.call(&i.Call, m)
	case *ssa.Defer:
		m["op"] = "defer"
		d.call(&i.Call, m)
	case *ssa.Go:
		m["op"] = "go"
		d.call(&i.Call, m)
	case *ssa.RunDefers:
		m["op"] = "rundefers"
	case *ssa.ChangeType:
		m["op"] = "changetype"
		m["x"] = d.val(i.X)
	case *ssa.Convert:
		m["op"] = "convert"
		m["x"] = d.val(i.X)
	case *ssa.MultiConvert:
		m["op"] = "convert"
		m["x"] = d.val(i.X)
	case *ssa.SliceToArrayPointer:
		m["op"] = "slicetoarrayptr"
		m["x"] = d.val(i.X)
	case *ssa.Extract:
		m["op"] = "extract"
		m["x"] = d.val(i.Tuple)
		m["i"] = i.Index
	case *ssa.Field:
		m["op"] = "field"
		m["x"] = d.val(i.X)
		m["i"] = i.Field
	case *ssa.FieldAddr:
		m["op"] = "fieldaddr"
		m["x"] = d.val(i.X)
		m["i"] = i.Field
	case *ssa.Index:
		m["op"] = "index"
		m["x"], m["i"] = d.val(i.X), d.val(i.Index)
	case *ssa.IndexAddr:
		m["op"] = "indexaddr"
		m["x"], m["i"] = d.val(i.X), d.val(i.Index)
	case *ssa.Slice:
		m["op"] = "slice"
		m["x"] = d.val(i.X)
		m["lo"], m["hi"], m["max"] = d.val(i.Low), d.val(i.High), d.val(i.Max)
	case *ssa.Phi:
		m["op"] = "phi"
		m["comment"] = i.Comment
		var es []any
		for _, e := range i.Edges {
			es = append(es, d.val(e))
		}
		m["edges"] = es
	case *ssa.Store:
		m["op"] = "store"
		m["addr"], m["val"] = d.val(i.Addr), d.val(i.Val)
	case *ssa.If:
		m["op"] = "if"
		m["x"] = d.val(i.Cond)
	case *ssa.Jump:
		m["op"] = "jump"
	case *ssa.Return:
		m["op"] = "return"
		rs := []any{}
		for _, r := range i.Results {
			rs = append(rs, d.val(r))
		}
		m["results"] = rs
	case *ssa.Panic:
		m["op"] = "panic"
		m["x"] = d.val(i.X)
	case *ssa.MakeClosure:
		m["op"] = "makeclosure"
		m["fn"] = d.val(i.Fn)
		var bs []any
		for _, b := range i.Bindings {
			bs = append(bs, d.val(b))
		}
		m["bind"] = bs
	case *ssa.MakeInterface:
		m["op"] = "makeinterface"
		m["x"] = d.val(i.X)
	case *ssa.MakeSlice:
		m["op"] = "makeslice"
		m["len"], m["cap"] = d.val(i.Len), d.val(i.Cap)
	case *ssa.DebugRef:
		m["op"] = "debugref"
	default:
		m["op"] = "unknown"
		m["what"] = fmt.Sprintf("%T", in)
	}
	return m
}

func (d *dumper) fn(f *ssa.Function) M {
	m := M{"name": f.String(), "short": f.Name(), "pos": d.pos(f.Pos()), "synthetic": f.Synthetic}
	if r := f.Signature.Recv(); r != nil {
		m["recv"] = d.typ(r.Type())
	}
	if f.Object() != nil {
		m["exported"] = f.Object().Exported()
	}
	ps := []any{}
	for _, p := range f.Params {
		ps = append(ps, M{"n": "p:" + p.Name(), "t": d.typ(p.Type())})
	}
	m["params"] = ps
	fv := []any{}
	for _, p := range f.FreeVars {
		fv = append(fv, M{"n": "fv:" + p.Name(), "t": d.typ(p.Type())})
	}
	m["freevars"] = fv
	m["results"] = d.tuple(f.Signature.Results())
	bs := []any{}
	for _, b := range f.Blocks {
		ins := []any{}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ins = append(ins, d.instr(in))
		}
		preds, succs := []int{}, []int{}
		for _, p := range b.Preds {
			preds = append(preds, p.Index)
		}
		for _, s := range b.Succs {
			succs = append(succs, s.Index)
		}
		bs = append(bs, M{"i": b.Index, "comment": b.Comment, "preds": preds, "succs": succs, "ins": ins})
	}
	m["blocks"] = bs
	m["hasrecover"] = f.Recover != nil
	return m
}

func main() {
	dir := os.Args[1]
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: dir, Tests: false,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(2)
	}
	prog, spkgs := ssautil.Packages(pkgs, 0)
	prog.Build()
	p := spkgs[0]
	d := &dumper{fset: prog.Fset, typeIdx: map[string][]typeEnt{}, sizes: pkgs[0].TypesSizes, pkg: p, seen: map[*ssa.Function]bool{}}
	add := func(f *ssa.Function) {
		if f != nil && f.Blocks != nil && !d.seen[f] {
			d.seen[f] = true
			d.queue = append(d.queue, f)
		}
	}
	var names []string
	for n := range p.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	tdecl := M{}
	globals := []any{}
	for _, n := range names {
		switch mem := p.Members[n].(type) {
		case *ssa.Function:
			add(mem)
		case *ssa.Global:
			globals = append(globals, M{"n": n, "t": d.typ(mem.Type())})
		case *ssa.Type:
			tdecl[n] = d.typ(mem.Type())
			if nt, ok := types.Unalias(mem.Type()).(*types.Named); ok {
				for i := 0; i < nt.NumMethods(); i++ {
					add(prog.FuncValue(nt.Method(i)))
				}
			}
		}
	}
	fns := []any{}
	for len(d.queue) > 0 {
		f := d.queue[0]
		d.queue = d.queue[1:]
		for _, a := range f.AnonFuncs {
			add(a)
		}
		fns = append(fns, d.fn(f))
	}
	out := M{"pkg": p.Pkg.Path(), "types": d.types, "typedecls": tdecl, "funcs": fns, "globals": globals}
	enc := json.NewEncoder(os.Stdout)
	if err := enc.Encode(out); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
