// gossa loads Go packages from source, builds their SSA form and writes every
// function reachable from the harness entry points (names starting with "H_")
// as JSON for the symbolic executor.  Functions of packages outside the
// -follow list are written without a body.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

type J = map[string]any

type dumper struct {
	prog    *ssa.Program
	follow  map[string]bool
	prefix  []string
	types   []J
	tmap    typeutil.Map
	fnID    map[*ssa.Function]int
	fns     []J
	queue   []*ssa.Function
	globals map[*ssa.Global]int
	glist   []J
	rtTypes []types.Type // concrete types converted to interfaces
	rtSeen  typeutil.Map
	inits   map[string]int
}

func (d *dumper) typ(t types.Type) int {
	if t == nil {
		return -1
	}
	t = types.Unalias(t)
	if v := d.tmap.At(t); v != nil {
		return v.(int)
	}
	id := len(d.types)
	d.tmap.Set(t, id)
	d.types = append(d.types, nil)
	j := J{"s": t.String()}
	switch t := t.(type) {
	case *types.Basic:
		j["k"] = "basic"
		j["name"] = t.Name()
	case *types.Pointer:
		j["k"] = "ptr"
		j["e"] = d.typ(t.Elem())
	case *types.Slice:
		j["k"] = "slice"
		j["e"] = d.typ(t.Elem())
	case *types.Array:
		j["k"] = "array"
		j["e"] = d.typ(t.Elem())
		j["n"] = t.Len()
	case *types.Struct:
		j["k"] = "struct"
		var fs []J
		for i := 0; i < t.NumFields(); i++ {
			fs = append(fs, J{"n": t.Field(i).Name(), "t": d.typ(t.Field(i).Type())})
		}
		j["f"] = fs
	case *types.Map:
		j["k"] = "map"
		j["key"] = d.typ(t.Key())
		j["e"] = d.typ(t.Elem())
	case *types.Chan:
		j["k"] = "chan"
		j["e"] = d.typ(t.Elem())
	case *types.Signature:
		j["k"] = "func"
	case *types.Interface:
		j["k"] = "iface"
		ms := []string{}
		for i := 0; i < t.NumMethods(); i++ {
			ms = append(ms, mkey(t.Method(i)))
		}
		j["m"] = ms
	case *types.Tuple:
		j["k"] = "tuple"
		var es []int
		for i := 0; i < t.Len(); i++ {
			es = append(es, d.typ(t.At(i).Type()))
		}
		j["es"] = es
	case *types.Named:
		j["k"] = "named"
		j["u"] = d.typ(t.Underlying())
		if t.Obj().Pkg() != nil {
			j["pkg"] = t.Obj().Pkg().Path()
		}
		j["name"] = t.Obj().Name()
	default:
		j["k"] = "other"
	}
	d.types[id] = j
	return id
}

func mkey(m *types.Func) string {
	if m.Exported() || m.Pkg() == nil {
		return m.Name()
	}
	return m.Pkg().Path() + "." + m.Name()
}

func (d *dumper) fn(f *ssa.Function) int {
	if id, ok := d.fnID[f]; ok {
		return id
	}
	id := len(d.fns)
	d.fnID[f] = id
	d.fns = append(d.fns, nil)
	d.queue = append(d.queue, f)
	return id
}

func (d *dumper) global(g *ssa.Global) int {
	if id, ok := d.globals[g]; ok {
		return id
	}
	id := len(d.glist)
	d.globals[g] = id
	d.glist = append(d.glist, J{"n": g.String(), "pkg": g.Pkg.Pkg.Path(), "t": d.typ(g.Type().(*types.Pointer).Elem())})
	d.needInit(g.Pkg)
	return id
}

func (d *dumper) needInit(p *ssa.Package) {
	path := p.Pkg.Path()
	if _, ok := d.inits[path]; ok {
		return
	}
	d.inits[path] = -1
	if d.followed(path) {
		if f := p.Func("init"); f != nil {
			d.inits[path] = d.fn(f)
		}
	}
}

func (d *dumper) followed(path string) bool {
	if d.follow[path] {
		return true
	}
	for _, p := range d.prefix {
		if strings.HasPrefix(path, p) {
			return true
		}
	}
	return false
}

func pkgOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (d *dumper) addRT(t types.Type) {
	t = types.Unalias(t)
	if types.IsInterface(t) || d.rtSeen.At(t) != nil {
		return
	}
	d.rtSeen.Set(t, true)
	d.typ(t)
	d.rtTypes = append(d.rtTypes, t)
}

func (d *dumper) value(v ssa.Value, reg map[ssa.Value]int) any {
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		j := J{"k": "c", "t": d.typ(v.Type())}
		if v.Value == nil {
			j["z"] = true
			return j
		}
		switch v.Value.Kind() {
		case constant.Bool:
			j["b"] = constant.BoolVal(v.Value)
		case constant.String:
			s := constant.StringVal(v.Value)
			bs := make([]int, len(s))
			for i := 0; i < len(s); i++ {
				bs[i] = int(s[i])
			}
			j["str"] = bs
		case constant.Int:
			j["i"] = v.Value.ExactString()
		case constant.Float:
			f, _ := constant.Float64Val(v.Value)
			j["fl"] = fmt.Sprintf("%x", f)
			if i := constant.ToInt(v.Value); i.Kind() == constant.Int {
				j["i"] = i.ExactString()
			}
		default:
			j["unk"] = true
		}
		// integer constant given for a float type
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			f, _ := constant.Float64Val(constant.ToFloat(v.Value))
			j["fl"] = fmt.Sprintf("%x", f)
		}
		return j
	case *ssa.Global:
		return J{"k": "g", "g": d.global(v)}
	case *ssa.Function:
		return J{"k": "f", "f": d.fn(v)}
	case *ssa.Builtin:
		return J{"k": "b", "n": v.Name()}
	default:
		id, ok := reg[v]
		if !ok {
			panic("no register for " + v.String())
		}
		return id
	}
}

func (d *dumper) call(c *ssa.CallCommon, reg map[ssa.Value]int) J {
	j := J{}
	if c.IsInvoke() {
		j["inv"] = mkey(c.Method)
		j["recv"] = d.value(c.Value, reg)
	} else {
		j["fn"] = d.value(c.Value, reg)
	}
	args := []any{}
	ats := []int{}
	for _, a := range c.Args {
		args = append(args, d.value(a, reg))
		ats = append(ats, d.typ(a.Type()))
	}
	j["args"] = args
	j["at"] = ats
	return j
}

func (d *dumper) dumpFn(f *ssa.Function) J {
	path := pkgOf(f)
	name := f.String()
	if o := f.Origin(); o != nil && o != f {
		name = o.String()
	}
	j := J{"n": name, "full": f.String(), "pkg": path}
	if f.Synthetic != "" {
		j["syn"] = f.Synthetic
	}
	var ptypes []int
	for _, p := range f.Params {
		ptypes = append(ptypes, d.typ(p.Type()))
	}
	j["pt"] = ptypes
	var rts []int
	for i := 0; i < f.Signature.Results().Len(); i++ {
		rts = append(rts, d.typ(f.Signature.Results().At(i).Type()))
	}
	j["rt"] = rts
	if pos := f.Pos(); pos.IsValid() {
		p := d.prog.Fset.Position(pos)
		j["pos"] = fmt.Sprintf("%s:%d", p.Filename, p.Line)
	}
	if f.Pkg != nil && d.followed(f.Pkg.Pkg.Path()) {
		f.Pkg.Build()
	}
	if path != "" && !d.followed(path) && len(f.TypeArgs()) == 0 && f.Synthetic == "" {
		j["ext"] = true
		return j
	}
	if len(f.Blocks) == 0 {
		j["ext"] = true
		return j
	}
	reg := map[ssa.Value]int{}
	n := 0
	for _, p := range f.Params {
		reg[p] = n
		n++
	}
	for _, p := range f.FreeVars {
		reg[p] = n
		n++
	}
	j["nfree"] = len(f.FreeVars)
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				reg[v] = n
				n++
			}
		}
	}
	j["nreg"] = n
	if f.Recover != nil {
		j["recover"] = f.Recover.Index
	}
	var blocks []any
	for _, b := range f.Blocks {
		var ins []any
		var lastLine int
		for _, in := range b.Instrs {
			o := d.instr(in, reg)
			if o == nil {
				continue
			}
			if v, ok := in.(ssa.Value); ok {
				o["r"] = reg[v]
				o["t"] = d.typ(v.Type())
			}
			if p := in.Pos(); p.IsValid() {
				lastLine = d.prog.Fset.Position(p).Line
			}
			o["l"] = lastLine
			ins = append(ins, o)
		}
		var succ []int
		for _, s := range b.Succs {
			succ = append(succ, s.Index)
		}
		var pred []int
		for _, s := range b.Preds {
			pred = append(pred, s.Index)
		}
		blocks = append(blocks, J{"i": ins, "s": succ, "p": pred})
	}
	j["b"] = blocks
	return j
}

func (d *dumper) instr(in ssa.Instruction, reg map[ssa.Value]int) J {
	V := func(v ssa.Value) any { return d.value(v, reg) }
	switch x := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		return J{"o": "alloc", "e": d.typ(x.Type().Underlying().(*types.Pointer).Elem()), "c": x.Comment}
	case *ssa.BinOp:
		return J{"o": "bin", "op": x.Op.String(), "x": V(x.X), "y": V(x.Y), "xt": d.typ(x.X.Type()), "yt": d.typ(x.Y.Type())}
	case *ssa.UnOp:
		return J{"o": "un", "op": x.Op.String(), "x": V(x.X), "xt": d.typ(x.X.Type()), "ok": x.CommaOk}
	case *ssa.Call:
		j := d.call(&x.Call, reg)
		j["o"] = "call"
		return j
	case *ssa.Defer:
		j := d.call(&x.Call, reg)
		j["o"] = "defer"
		return j
	case *ssa.Go:
		j := d.call(&x.Call, reg)
		j["o"] = "go"
		return j
	case *ssa.ChangeInterface:
		return J{"o": "chiface", "x": V(x.X)}
	case *ssa.ChangeType:
		return J{"o": "chtype", "x": V(x.X)}
	case *ssa.Convert:
		return J{"o": "conv", "x": V(x.X), "xt": d.typ(x.X.Type())}
	case *ssa.MultiConvert:
		return J{"o": "conv", "x": V(x.X), "xt": d.typ(x.X.Type())}
	case *ssa.Extract:
		return J{"o": "extract", "x": V(x.Tuple), "i": x.Index}
	case *ssa.Field:
		return J{"o": "field", "x": V(x.X), "i": x.Field}
	case *ssa.FieldAddr:
		return J{"o": "fieldaddr", "x": V(x.X), "i": x.Field}
	case *ssa.Index:
		return J{"o": "index", "x": V(x.X), "i": V(x.Index), "xt": d.typ(x.X.Type()), "it": d.typ(x.Index.Type())}
	case *ssa.IndexAddr:
		return J{"o": "indexaddr", "x": V(x.X), "i": V(x.Index), "xt": d.typ(x.X.Type()), "it": d.typ(x.Index.Type())}
	case *ssa.If:
		return J{"o": "if", "x": V(x.Cond)}
	case *ssa.Jump:
		return J{"o": "jump"}
	case *ssa.Lookup:
		return J{"o": "lookup", "x": V(x.X), "i": V(x.Index), "xt": d.typ(x.X.Type()), "it": d.typ(x.Index.Type()), "ok": x.CommaOk}
	case *ssa.MakeClosure:
		var bs []any
		for _, b := range x.Bindings {
			bs = append(bs, V(b))
		}
		return J{"o": "closure", "f": d.fn(x.Fn.(*ssa.Function)), "bs": bs}
	case *ssa.MakeInterface:
		d.addRT(x.X.Type())
		return J{"o": "mkiface", "x": V(x.X), "xt": d.typ(x.X.Type())}
	case *ssa.MakeMap:
		if x.Reserve != nil {
			return J{"o": "mkmap", "n": V(x.Reserve), "nt": d.typ(x.Reserve.Type())}
		}
		return J{"o": "mkmap"}
	case *ssa.MakeSlice:
		return J{"o": "mkslice", "n": V(x.Len), "cp": V(x.Cap), "nt": d.typ(x.Len.Type()), "ct": d.typ(x.Cap.Type())}
	case *ssa.MakeChan:
		return J{"o": "mkchan"}
	case *ssa.MapUpdate:
		return J{"o": "mapupd", "m": V(x.Map), "key": V(x.Key), "v": V(x.Value), "mt": d.typ(x.Map.Type())}
	case *ssa.Next:
		return J{"o": "next", "x": V(x.Iter), "str": x.IsString}
	case *ssa.Panic:
		return J{"o": "panic", "x": V(x.X)}
	case *ssa.Phi:
		var es []any
		for _, e := range x.Edges {
			es = append(es, V(e))
		}
		return J{"o": "phi", "es": es}
	case *ssa.Range:
		return J{"o": "range", "x": V(x.X), "xt": d.typ(x.X.Type())}
	case *ssa.Return:
		rs := []any{}
		for _, e := range x.Results {
			rs = append(rs, V(e))
		}
		return J{"o": "ret", "rs": rs}
	case *ssa.RunDefers:
		return J{"o": "rundefers"}
	case *ssa.Slice:
		return J{"o": "slice", "x": V(x.X), "lo": V(x.Low), "hi": V(x.High), "mx": V(x.Max), "xt": d.typ(x.X.Type()),
			"lot": d.vt(x.Low), "hit": d.vt(x.High), "mxt": d.vt(x.Max)}
	case *ssa.SliceToArrayPointer:
		return J{"o": "s2ap", "x": V(x.X)}
	case *ssa.Store:
		return J{"o": "store", "a": V(x.Addr), "v": V(x.Val), "vt": d.typ(x.Val.Type())}
	case *ssa.TypeAssert:
		return J{"o": "tassert", "x": V(x.X), "at": d.typ(x.AssertedType), "ok": x.CommaOk}
	case *ssa.Send, *ssa.Select:
		return J{"o": "unsupported", "w": fmt.Sprintf("%T", in)}
	}
	return J{"o": "unsupported", "w": fmt.Sprintf("%T", in)}
}

func (d *dumper) vt(v ssa.Value) int {
	if v == nil {
		return -1
	}
	return d.typ(v.Type())
}

func main() {
	dir := flag.String("dir", ".", "module directory")
	out := flag.String("o", "", "output file")
	follow := flag.String("follow", "", "comma-separated packages whose functions are encoded; a trailing * is a prefix")
	roots := flag.String("roots", "H_", "prefix of the entry points")
	flag.Parse()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: *dir,
	}
	pkgs, err := packages.Load(cfg, flag.Args()...)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	bad := false
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, "gossa:", p.PkgPath, e)
			bad = true
		}
	})
	if bad {
		os.Exit(3)
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.BareInits*0)
	d := &dumper{prog: prog, follow: map[string]bool{}, fnID: map[*ssa.Function]int{}, globals: map[*ssa.Global]int{}, inits: map[string]int{}}
	for _, f := range strings.Split(*follow, ",") {
		if strings.HasSuffix(f, "*") {
			d.prefix = append(d.prefix, strings.TrimSuffix(f, "*"))
		} else if f != "" {
			d.follow[f] = true
		}
	}
	rootIDs := J{}
	for _, p := range spkgs {
		if p == nil {
			continue
		}
		p.Build()
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if f, ok := p.Members[n].(*ssa.Function); ok && strings.HasPrefix(n, *roots) {
				rootIDs[n] = d.fn(f)
				d.needInit(p)
			}
		}
	}
	done := 0
	rtDone := 0
	mtab := map[string]map[string]int{}
	for {
		for done < len(d.queue) {
			f := d.queue[done]
			done++
			id := d.fnID[f]
			j := d.dumpFn(f)
			d.fns[id] = j
			if f.Pkg != nil {
				d.needInit(f.Pkg)
			}
		}
		if rtDone < len(d.rtTypes) {
			t := d.rtTypes[rtDone]
			rtDone++
			ms := prog.MethodSets.MethodSet(t)
			tab := map[string]int{}
			for i := 0; i < ms.Len(); i++ {
				sel := ms.At(i)
				mf := prog.MethodValue(sel)
				if mf != nil {
					tab[mkey(sel.Obj().(*types.Func))] = d.fn(mf)
				}
			}
			mtab[fmt.Sprint(d.typ(t))] = tab
			continue
		}
		break
	}
	// interface satisfaction is decided by the executor from the method tables
	files := J{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if d.followed(p.PkgPath) {
			files[p.PkgPath] = p.GoFiles
		}
	})
	w := os.Stdout
	if *out != "" {
		w, err = os.Create(*out)
		if err != nil {
			panic(err)
		}
	}
	enc := json.NewEncoder(w)
	if err := enc.Encode(J{"types": d.types, "fns": d.fns, "globals": d.glist, "roots": rootIDs, "mtab": mtab, "inits": d.inits, "files": files}); err != nil {
		panic(err)
	}
	w.Close()
	_ = token.NoPos
}
