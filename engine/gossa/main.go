// gossa dumps the go/ssa form of the package in a directory, together with the
// types it mentions and the bodies of the standard-library functions it
// reaches in an allow-list of packages, as JSON.  It is a mechanical
// translation: nothing of a function body is dropped except debug references.
package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]any

var (
	prog    *ssa.Program
	typeIdx = map[types.Type]int{}
	typeKey = map[string]int{}
	typesJ  []M
	funcs   = map[string]M{}
	queue   []*ssa.Function
	seen    = map[*ssa.Function]bool{}
	globals = map[string]M{}
	mainPkg *ssa.Package
	allow   = map[string]bool{"strings": true, "strconv": true, "slices": true, "maps": true, "sort": true,
		"encoding/binary": true, "math/bits": true, "cmp": true, "internal/stringslite": true, "internal/bytealg": true, "iter": true}
)

func typeID(t types.Type) int {
	if t == nil {
		return -1
	}
	t = types.Unalias(t)
	if i, ok := typeIdx[t]; ok {
		return i
	}
	key := types.TypeString(t, nil)
	if _, isTuple := t.(*types.Tuple); !isTuple && !strings.Contains(key, "struct{") && !hasTypeParam(t) {
		// local types of different functions may print alike; keep named types apart by identity
		if n, ok := t.(*types.Named); !ok || n.Obj().Parent() == nil || n.Obj().Pkg() == nil || n.Obj().Parent() == n.Obj().Pkg().Scope() {
			if i, ok := typeKey[key]; ok && types.Identical(typesBy[i], t) {
				typeIdx[t] = i
				return i
			}
		}
	}
	for i, o := range typesBy {
		if types.Identical(o, t) {
			typeIdx[t] = i
			return i
		}
	}
	i := len(typesJ)
	typeIdx[t] = i
	typeKey[key] = i
	m := M{"id": i, "str": types.TypeString(t, func(p *types.Package) string { return p.Name() })}
	typesJ = append(typesJ, m)
	typesBy = append(typesBy, t)
	if n, ok := t.(*types.Named); ok {
		m["name"] = n.Obj().Name()
		if n.TypeArgs().Len() > 0 {
			m["targs"] = true
		}
		if n.Obj().Pkg() != nil {
			m["pkg"] = n.Obj().Pkg().Path()
		}
		m["under"] = typeID(n.Underlying())
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		m["kind"] = "basic"
		m["basic"] = u.Name()
	case *types.Pointer:
		m["kind"] = "ptr"
		m["elem"] = typeID(u.Elem())
	case *types.Slice:
		m["kind"] = "slice"
		m["elem"] = typeID(u.Elem())
	case *types.Array:
		m["kind"] = "array"
		m["elem"] = typeID(u.Elem())
		m["len"] = u.Len()
	case *types.Map:
		m["kind"] = "map"
		m["key"] = typeID(u.Key())
		m["elem"] = typeID(u.Elem())
	case *types.Chan:
		m["kind"] = "chan"
		m["elem"] = typeID(u.Elem())
	case *types.Struct:
		m["kind"] = "struct"
		fs := []M{}
		for j := 0; j < u.NumFields(); j++ {
			f := u.Field(j)
			fs = append(fs, M{"name": f.Name(), "type": typeID(f.Type()), "tag": u.Tag(j), "exported": f.Exported(), "embedded": f.Embedded()})
		}
		m["fields"] = fs
	case *types.Interface:
		m["kind"] = "iface"
		ms := []string{}
		for j := 0; j < u.NumMethods(); j++ {
			ms = append(ms, u.Method(j).Name())
		}
		m["methods"] = ms
	case *types.Signature:
		m["kind"] = "func"
		ps, rs := []int{}, []int{}
		for j := 0; j < u.Params().Len(); j++ {
			ps = append(ps, typeID(u.Params().At(j).Type()))
		}
		for j := 0; j < u.Results().Len(); j++ {
			rs = append(rs, typeID(u.Results().At(j).Type()))
		}
		m["params"], m["results"], m["variadic"] = ps, rs, u.Variadic()
	case *types.Tuple:
		m["kind"] = "tuple"
		es := []int{}
		for j := 0; j < u.Len(); j++ {
			es = append(es, typeID(u.At(j).Type()))
		}
		m["elems"] = es
	default:
		m["kind"] = fmt.Sprintf("%T", u)
	}
	return i
}

var typesBy []types.Type

func hasTypeParam(t types.Type) bool {
	_, ok := t.(*types.TypeParam)
	return ok
}

func fname(f *ssa.Function) string {
	s := f.RelString(nil)
	return s
}

func enqueue(f *ssa.Function) string {
	n := fname(f)
	if seen[f] {
		return n
	}
	seen[f] = true
	queue = append(queue, f)
	return n
}

func val(v ssa.Value) any {
	switch x := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		m := M{"k": "const", "t": typeID(x.Type())}
		if x.Value == nil {
			m["nil"] = true
			return m
		}
		switch x.Value.Kind() {
		case constant.Bool:
			m["v"] = constant.BoolVal(x.Value)
		case constant.String:
			m["v"] = []byte(constant.StringVal(x.Value))
			b := []int{}
			for _, c := range []byte(constant.StringVal(x.Value)) {
				b = append(b, int(c))
			}
			m["v"] = b
			m["str"] = true
		case constant.Int:
			m["v"] = x.Value.ExactString()
			m["int"] = true
		default:
			m["v"] = x.Value.ExactString()
			m["float"] = true
			f, _ := constant.Float64Val(x.Value)
			m["f"] = f
		}
		return m
	case *ssa.Global:
		k := x.RelString(nil)
		if _, ok := globals[k]; !ok {
			p := ""
			if x.Pkg != nil {
				p = x.Pkg.Pkg.Path()
			}
			globals[k] = M{"name": k, "type": typeID(x.Type()), "pkg": p}
		}
		return M{"k": "global", "n": k, "t": typeID(x.Type())}
	case *ssa.Function:
		return M{"k": "func", "n": enqueue(x), "t": typeID(x.Type())}
	case *ssa.Builtin:
		return M{"k": "builtin", "n": x.Name()}
	case *ssa.Parameter:
		return M{"k": "reg", "n": "p:" + x.Name() + fmt.Sprint(paramIndex(x)), "t": typeID(x.Type())}
	case *ssa.FreeVar:
		return M{"k": "reg", "n": "f:" + x.Name(), "t": typeID(x.Type())}
	default:
		return M{"k": "reg", "n": x.Name(), "t": typeID(x.Type())}
	}
}

func paramIndex(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if q == p {
			return i
		}
	}
	return -1
}

func vals(vs []ssa.Value) []any {
	r := []any{}
	for _, v := range vs {
		r = append(r, val(v))
	}
	return r
}

func pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := prog.Fset.Position(p)
	i := strings.LastIndex(q.Filename, "/")
	return fmt.Sprintf("%s:%d", q.Filename[i+1:], q.Line)
}

func call(c *ssa.CallCommon, m M) {
	m["args"] = vals(c.Args)
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["recv"] = val(c.Value)
		m["sig"] = typeID(c.Method.Type())
		// candidate concrete methods in the main package
		return
	}
	m["fn"] = val(c.Value)
	m["sig"] = typeID(c.Signature())
}

func instr(in ssa.Instruction) M {
	m := M{}
	if v, ok := in.(ssa.Value); ok {
		m["r"] = v.Name()
		m["t"] = typeID(v.Type())
	}
	if p := pos(in.Pos()); p != "" {
		m["pos"] = p
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		m["op"], m["heap"], m["elem"], m["comment"] = "alloc", x.Heap, typeID(x.Type().Underlying().(*types.Pointer).Elem()), x.Comment
	case *ssa.BinOp:
		m["op"], m["o"], m["x"], m["y"] = "binop", x.Op.String(), val(x.X), val(x.Y)
	case *ssa.UnOp:
		m["op"], m["o"], m["x"], m["commaok"] = "unop", x.Op.String(), val(x.X), x.CommaOk
	case *ssa.Call:
		m["op"] = "call"
		call(&x.Call, m)
	case *ssa.Go:
		m["op"] = "go"
		call(&x.Call, m)
	case *ssa.Defer:
		m["op"] = "defer"
		call(&x.Call, m)
	case *ssa.ChangeInterface:
		m["op"], m["x"] = "changeiface", val(x.X)
	case *ssa.ChangeType:
		m["op"], m["x"] = "changetype", val(x.X)
	case *ssa.Convert:
		m["op"], m["x"] = "convert", val(x.X)
	case *ssa.MultiConvert:
		m["op"], m["x"] = "convert", val(x.X)
	case *ssa.SliceToArrayPointer:
		m["op"], m["x"] = "slicetoarrayptr", val(x.X)
	case *ssa.Extract:
		m["op"], m["x"], m["i"] = "extract", val(x.Tuple), x.Index
	case *ssa.Field:
		m["op"], m["x"], m["i"] = "field", val(x.X), x.Field
	case *ssa.FieldAddr:
		m["op"], m["x"], m["i"] = "fieldaddr", val(x.X), x.Field
	case *ssa.Index:
		m["op"], m["x"], m["y"] = "index", val(x.X), val(x.Index)
	case *ssa.IndexAddr:
		m["op"], m["x"], m["y"] = "indexaddr", val(x.X), val(x.Index)
	case *ssa.If:
		m["op"], m["x"] = "if", val(x.Cond)
	case *ssa.Jump:
		m["op"] = "jump"
	case *ssa.Lookup:
		m["op"], m["x"], m["y"], m["commaok"] = "lookup", val(x.X), val(x.Index), x.CommaOk
	case *ssa.MakeChan:
		m["op"], m["x"] = "makechan", val(x.Size)
	case *ssa.MakeClosure:
		m["op"], m["fn"], m["binds"] = "makeclosure", val(x.Fn), vals(x.Bindings)
	case *ssa.MakeInterface:
		m["op"], m["x"], m["xt"] = "makeiface", val(x.X), typeID(x.X.Type())
	case *ssa.MakeMap:
		m["op"] = "makemap"
	case *ssa.MakeSlice:
		m["op"], m["len"], m["cap"] = "makeslice", val(x.Len), val(x.Cap)
	case *ssa.MapUpdate:
		m["op"], m["m"], m["k"], m["v"] = "mapupdate", val(x.Map), val(x.Key), val(x.Value)
	case *ssa.Next:
		m["op"], m["x"], m["isstr"] = "next", val(x.Iter), x.IsString
	case *ssa.Range:
		m["op"], m["x"] = "range", val(x.X)
	case *ssa.Panic:
		m["op"], m["x"] = "panic", val(x.X)
	case *ssa.Phi:
		m["op"], m["edges"], m["comment"] = "phi", vals(x.Edges), x.Comment
	case *ssa.Return:
		m["op"], m["rs"] = "return", vals(x.Results)
	case *ssa.RunDefers:
		m["op"] = "rundefers"
	case *ssa.Select:
		ss := []M{}
		for _, s := range x.States {
			ss = append(ss, M{"dir": int(s.Dir), "chan": val(s.Chan), "send": val(s.Send)})
		}
		m["op"], m["states"], m["blocking"] = "select", ss, x.Blocking
	case *ssa.Send:
		m["op"], m["x"], m["y"] = "send", val(x.Chan), val(x.X)
	case *ssa.Slice:
		m["op"], m["x"], m["lo"], m["hi"], m["max"] = "slice", val(x.X), val(x.Low), val(x.High), val(x.Max)
	case *ssa.Store:
		m["op"], m["x"], m["v"] = "store", val(x.Addr), val(x.Val)
	case *ssa.TypeAssert:
		m["op"], m["x"], m["at"], m["commaok"] = "typeassert", val(x.X), typeID(x.AssertedType), x.CommaOk
	case *ssa.DebugRef:
		return nil
	default:
		m["op"] = fmt.Sprintf("?%T", in)
	}
	return m
}

func dump(f *ssa.Function) {
	n := fname(f)
	if _, ok := funcs[n]; ok {
		return
	}
	m := M{"name": n, "sig": typeID(f.Signature), "pos": pos(f.Pos()), "short": f.Name()}
	funcs[n] = m
	p := ""
	if f.Pkg != nil {
		p = f.Pkg.Pkg.Path()
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		p = o.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		p = f.Object().Pkg().Path()
	}
	m["pkg"] = p
	if f.Origin() != nil {
		m["origin"] = fname(f.Origin())
		ta := []int{}
		for _, t := range f.TypeArgs() {
			ta = append(ta, typeID(t))
		}
		m["targs"] = ta
	}
	if f.Synthetic != "" {
		m["synthetic"] = f.Synthetic
	}
	local := f.Pkg == mainPkg || p == mainPkg.Pkg.Path() || (f.Parent() != nil)
	ps := []any{}
	for _, x := range f.Params {
		ps = append(ps, val(x))
	}
	m["params"] = ps
	if f.Blocks == nil || !(local || allow[p]) {
		return
	}
	fv := []any{}
	for _, x := range f.FreeVars {
		fv = append(fv, val(x))
	}
	m["freevars"] = fv
	if f.Parent() != nil {
		m["parent"] = fname(f.Parent())
	}
	bs := []M{}
	for _, b := range f.Blocks {
		is := []M{}
		for _, in := range b.Instrs {
			if j := instr(in); j != nil {
				is = append(is, j)
			}
		}
		pr, su := []int{}, []int{}
		for _, q := range b.Preds {
			pr = append(pr, q.Index)
		}
		for _, q := range b.Succs {
			su = append(su, q.Index)
		}
		bs = append(bs, M{"i": is, "preds": pr, "succs": su, "comment": b.Comment})
	}
	m["blocks"] = bs
	if f.Recover != nil {
		m["recover"] = f.Recover.Index
	}
}

//go:embed vfytypes.txt
var extraTypes string

func main() {
	dir := os.Args[1]
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")}
	// types with the field tags the codec supports but no message of the package uses at present
	if abs, err := filepath.Abs(dir); err == nil {
		cfg.Overlay = map[string][]byte{filepath.Join(abs, "zz_vfy_types.go"): []byte(extraTypes)}
	}
	if len(os.Args) > 2 && os.Args[2] != "" {
		cfg.BuildFlags = []string{os.Args[2]}
	}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, e)
			os.Exit(4)
		}
	}
	var sp []*ssa.Package
	prog, sp = ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	mainPkg = sp[0]
	names := []string{}
	for n := range mainPkg.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	namedTypes := M{}
	for _, n := range names {
		switch x := mainPkg.Members[n].(type) {
		case *ssa.Function:
			if x.TypeParams().Len() == 0 {
				enqueue(x)
			}
		case *ssa.Global:
			val(x)
		case *ssa.Type:
			if named, ok := types.Unalias(x.Type()).(*types.Named); ok && named.TypeParams().Len() > 0 {
				continue
			}
			namedTypes[n] = typeID(x.Type())
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if f := prog.MethodValue(ms.At(i)); f != nil {
						enqueue(f)
					}
				}
			}
		}
	}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		dump(f)
	}
	methods := M{}
	for _, n := range names {
		if x, ok := mainPkg.Members[n].(*ssa.Type); ok {
			if named, ok := types.Unalias(x.Type()).(*types.Named); ok && named.TypeParams().Len() > 0 {
				continue
			}
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := prog.MethodSets.MethodSet(t)
				mm := M{}
				for i := 0; i < ms.Len(); i++ {
					if f := prog.MethodValue(ms.At(i)); f != nil {
						mm[ms.At(i).Obj().Name()] = fname(f)
					}
				}
				methods[fmt.Sprint(typeID(t))] = mm
			}
		}
	}
	// globals first seen while dumping are complete now
	out := M{"pkg": mainPkg.Pkg.Path(), "types": typesJ, "funcs": funcs, "globals": globals, "named": namedTypes, "methods": methods}
	enc := json.NewEncoder(os.Stdout)
	if err := enc.Encode(out); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(5)
	}
}
