package sx

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/constant"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded SSA program, shared by all workers.
type Program struct {
	prog    *ssa.Program
	types   typeTable
	funcs   sync.Map // *ssa.Function -> *Func
	gidx    map[*ssa.Global]int
	globals []*ssa.Global
	gperm   []bool // persists across paths
	repo    string // import path prefix of the code under test
	pkgs    map[string]*ssa.Package
	Harness *ssa.Package
	natives map[string]native
	sizes   types.Sizes

	tRuntimeErr types.Type
	tString     types.Type
	tErrorStr   types.Type

	seenMu sync.Mutex
	seen   map[*ssa.Function]bool
}

type native func(m *Machine, fn *ssa.Function, args []Value) (Value, bool)

// Overlay maps files of the verification harness into the source tree.
func Overlay(repoDir, harnessDir string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	err := filepath.Walk(harnessDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(harnessDir, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		ov[filepath.Join(repoDir, "zzverif", rel)] = b
		return nil
	})
	commands(repoDir, ov)
	return ov, err
}

// commands overlays each command cmd/x of the repository as an importable package zzverif/cmd/x with a function
// Main. Only the ways out of the process are replaced: os.Exit, os.Stdout, os.Stderr, fmt.Print* and log.* become functions of
// zzverif/common that record them.
func commands(repoDir string, ov map[string][]byte) {
	files, _ := filepath.Glob(filepath.Join(repoDir, "cmd", "*", "*.go"))
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		fset := token.NewFileSet()
		a, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
		if err != nil || a.Name.Name != "main" {
			continue
		}
		a.Name.Name = "command"
		used := false
		keep := map[string]bool{}
		hasMain := false
		ast.Inspect(a, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				hasMain = hasMain || n.Recv == nil && n.Name.Name == "main"
			case *ast.SelectorExpr:
				x, ok := n.X.(*ast.Ident)
				if !ok || x.Obj != nil {
					break
				}
				switch x.Name + "." + n.Sel.Name {
				case "os.Exit", "os.Stdout", "os.Stderr", "fmt.Printf", "fmt.Println", "fmt.Print",
					"log.Fatal", "log.Fatalf", "log.Fatalln", "log.Print", "log.Printf", "log.Println":
					keep[x.Name] = true
					x.Name = "zzcommon"
					used = true
				}
			}
			return true
		})
		var b bytes.Buffer
		if format.Node(&b, fset, a) != nil {
			continue
		}
		src := b.String()
		if used {
			i := strings.Index(src, "package command") + len("package command")
			src = src[:i] + "\n\nimport zzcommon \"github.com/mazzegi/xpdf/zzverif/common\"\n" + src[i:]
		}
		if keep["os"] {
			src += "\nvar _ = os.Getpid\n"
		}
		if keep["log"] {
			src += "\nvar _ = log.Flags\n"
		}
		if keep["fmt"] {
			src += "\nvar _ = fmt.Sprint\n"
		}
		if hasMain {
			src += "\n// Main runs the command.\nfunc Main() { main() }\n"
		}
		ov[filepath.Join(repoDir, "zzverif", "cmd", filepath.Base(filepath.Dir(f)), filepath.Base(f))] = []byte(src)
	}
}

// Load loads the packages matching patterns from dir with the overlay.
func Load(dir, repo string, ov map[string][]byte, harness string) (*Program, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     dir,
		Overlay: ov,
		Env:     os.Environ(),
	}
	init, err := packages.Load(cfg, harness)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(init, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.AllPackages(init, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, gidx: map[*ssa.Global]int{}, repo: repo, pkgs: map[string]*ssa.Package{}, seen: map[*ssa.Function]bool{}}
	P.Harness = spkgs[0]
	P.sizes = types.SizesFor("gc", "amd64")
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	all := prog.AllPackages()
	sort.Slice(all, func(i, j int) bool { return all[i].Pkg.Path() < all[j].Pkg.Path() })
	for _, p := range all {
		var ns []string
		for n := range p.Members {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			if g, ok := p.Members[n].(*ssa.Global); ok {
				P.gidx[g] = len(P.globals)
				P.globals = append(P.globals, g)
				P.gperm = append(P.gperm, !P.isRepo(p.Pkg))
			}
		}
	}
	P.tString = types.Typ[types.String]
	if rt := P.pkgs["runtime"]; rt != nil {
		P.tRuntimeErr = rt.Type("errorString").Type()
	}
	if e := P.pkgs["errors"]; e != nil {
		P.tErrorStr = types.NewPointer(e.Type("errorString").Type())
	}
	P.natives = nativeTable()
	return P, nil
}

func (P *Program) isRepo(p *types.Package) bool {
	return p != nil && (p.Path() == P.repo || strings.HasPrefix(p.Path(), P.repo+"/"))
}

func (P *Program) isHarness(p *types.Package) bool {
	return p != nil && strings.HasPrefix(p.Path(), P.repo+"/zzverif")
}

// op codes of pre-decoded instructions.
type iop uint8

const (
	iNop iop = iota
	iAlloc
	iBin
	iCall
	iInvoke
	iChangeInterface
	iCopy // ChangeType and similar
	iConvert
	iDefer
	iExtract
	iField
	iFieldAddr
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeChan
	iRecv
	iSend
	iSelect
	iMakeClosure
	iMakeInterface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iRange
	iReturn
	iRunDefers
	iSlice
	iSliceToArr
	iStore
	iTypeAssert
	iUnOp
	iLoad
	iUnsupported
)

type opnd struct {
	slot int32 // >=0 register, -1 constant, -2 global
	g    int32
	k    Value
}

type inst struct {
	op   iop
	dst  int32
	a, b opnd
	c, d opnd
	args []opnd
	aux  any
	x    int
	t    tk
	t2   tk
	typ  types.Type
	ins  ssa.Instruction
}

type phi struct {
	dst   int32
	edges []opnd
	typ   types.Type
}

type block struct {
	phis  []phi
	ins   []inst
	preds []int
	succs []int
	reg   atomic.Pointer[region]
}

// Func is a decoded function.
type Func struct {
	fn       *ssa.Function
	name     string
	nregs    int
	nparams  int
	blocks   []*block
	recover  int
	hasDefer bool
	repo     bool
	native   native
	isInit   bool
	ipdom    []int // immediate post-dominator per block, len(blocks) = exit, -1 unknown
	onceIP   sync.Once
}

func (P *Program) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	k := kindOf(t)
	switch k.k {
	case kBool:
		return mkBool(constant.BoolVal(c.Value))
	case kInt:
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return Value{n: uint64(i) & mask(k.w)}
		}
		u, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return Value{n: u & mask(k.w)}
	case kF64:
		f, _ := constant.Float64Val(c.Value)
		return mkF64(f)
	case kF32:
		f, _ := constant.Float32Val(c.Value)
		return Value{n: uint64(math.Float32bits(f))}
	case kStr:
		if c.Value.Kind() == constant.String {
			return mkStrC(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return mkStrC(string(rune(i)))
	}
	return Value{}
}

func (P *Program) get(fn *ssa.Function) *Func {
	if f, ok := P.funcs.Load(fn); ok {
		return f.(*Func)
	}
	f := P.decode(fn)
	a, _ := P.funcs.LoadOrStore(fn, f)
	return a.(*Func)
}

func funcName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func (P *Program) decode(fn *ssa.Function) *Func {
	f := &Func{fn: fn, name: funcName(fn), recover: -1}
	f.isInit = fn.Synthetic == "package initializer"
	f.repo = fn.Pkg != nil && P.isRepo(fn.Pkg.Pkg)
	if fn.Pkg == nil && fn.Parent() == nil && fn.Object() != nil && P.isRepo(fn.Object().Pkg()) {
		f.repo = true
	}
	if n, ok := P.natives[f.name]; ok {
		f.native = n
	}
	slots := map[ssa.Value]int32{}
	alloc := func(v ssa.Value) int32 {
		s, ok := slots[v]
		if !ok {
			s = int32(f.nregs)
			slots[v] = s
			f.nregs++
		}
		return s
	}
	for _, p := range fn.Params {
		alloc(p)
	}
	f.nparams = len(fn.Params)
	for _, v := range fn.FreeVars {
		alloc(v)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	opn := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{slot: -1}
		case *ssa.Const:
			return opnd{slot: -1, k: P.constVal(v)}
		case *ssa.Global:
			return opnd{slot: -2, g: int32(P.gidx[v])}
		case *ssa.Function:
			return opnd{slot: -1, k: Value{p: v}}
		case *ssa.Builtin:
			return opnd{slot: -1, k: Value{p: v}}
		}
		s, ok := slots[v]
		if !ok {
			panic(fmt.Sprintf("no slot for %v in %v", v, fn))
		}
		return opnd{slot: s}
	}
	opns := func(vs []ssa.Value) []opnd {
		o := make([]opnd, len(vs))
		for i, v := range vs {
			o[i] = opn(v)
		}
		return o
	}
	for _, b := range fn.Blocks {
		bl := &block{}
		for _, p := range b.Preds {
			bl.preds = append(bl.preds, p.Index)
		}
		for _, s := range b.Succs {
			bl.succs = append(bl.succs, s.Index)
		}
		for _, in := range b.Instrs {
			i := inst{ins: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				i.dst = slots[v]
				i.typ = v.Type()
			}
			switch in := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				bl.phis = append(bl.phis, phi{i.dst, opns(in.Edges), in.Type()})
				continue
			case *ssa.Alloc:
				i.op = iAlloc
				i.typ = in.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.BinOp:
				i.op = iBin
				i.a, i.b = opn(in.X), opn(in.Y)
				i.x = int(in.Op)
				i.t = kindOf(in.X.Type())
				i.t2 = kindOf(in.Y.Type())
				i.typ = in.X.Type()
			case *ssa.Call:
				decodeCall(&i, &in.Call, opn, opns)
			case *ssa.Defer:
				f.hasDefer = true
				decodeCall(&i, &in.Call, opn, opns)
				i.x = int(i.op)
				i.op = iDefer
			case *ssa.ChangeInterface:
				i.op = iCopy
				i.a = opn(in.X)
			case *ssa.ChangeType:
				i.op = iCopy
				i.a = opn(in.X)
			case *ssa.Convert:
				i.op = iConvert
				i.a = opn(in.X)
				i.t, i.t2 = kindOf(in.X.Type()), kindOf(in.Type())
				i.aux = in.X.Type()
			case *ssa.MultiConvert:
				i.op = iUnsupported
			case *ssa.Extract:
				i.op = iExtract
				i.a = opn(in.Tuple)
				i.x = in.Index
			case *ssa.Field:
				i.op = iField
				i.a = opn(in.X)
				i.x = in.Field
			case *ssa.FieldAddr:
				i.op = iFieldAddr
				i.a = opn(in.X)
				i.x = in.Field
			case *ssa.If:
				i.op = iIf
				i.a = opn(in.Cond)
			case *ssa.Index:
				i.op = iIndex
				i.a, i.b = opn(in.X), opn(in.Index)
				i.t = kindOf(in.X.Type())
				i.t2 = kindOf(in.Index.Type())
			case *ssa.IndexAddr:
				i.op = iIndexAddr
				i.a, i.b = opn(in.X), opn(in.Index)
				i.t = kindOf(in.X.Type())
				i.t2 = kindOf(in.Index.Type())
			case *ssa.Jump:
				i.op = iJump
			case *ssa.Lookup:
				i.op = iLookup
				i.a, i.b = opn(in.X), opn(in.Index)
				i.t = kindOf(in.X.Type())
				i.t2 = kindOf(in.Index.Type())
				if in.CommaOk {
					i.x = 1
				}
				if m, ok := in.X.Type().Underlying().(*types.Map); ok {
					i.typ = m.Elem()
					i.aux = m.Key()
				}
			case *ssa.MakeChan:
				i.op = iMakeChan
				i.a = opn(in.Size)
				i.typ = in.Type().Underlying().(*types.Chan).Elem()
			case *ssa.Send:
				i.op = iSend
				i.a, i.b = opn(in.Chan), opn(in.X)
			case *ssa.Select:
				i.op = iSelect
				if in.Blocking {
					i.x = 1
				}
				for _, st := range in.States {
					i.args = append(i.args, opn(st.Chan))
					if st.Dir == types.SendOnly {
						i.args = append(i.args, opn(st.Send))
					} else {
						i.args = append(i.args, opnd{slot: -1})
					}
				}
				i.aux = in.States
			case *ssa.MakeClosure:
				i.op = iMakeClosure
				i.args = opns(in.Bindings)
				i.aux = in.Fn
			case *ssa.MakeInterface:
				i.op = iMakeInterface
				i.a = opn(in.X)
				i.aux = P.types.get(in.X.Type())
			case *ssa.MakeMap:
				i.op = iMakeMap
				i.aux = in.Type().Underlying().(*types.Map).Key()
			case *ssa.MakeSlice:
				i.op = iMakeSlice
				i.a, i.b = opn(in.Len), opn(in.Cap)
				i.typ = in.Type().Underlying().(*types.Slice).Elem()
			case *ssa.MapUpdate:
				i.op = iMapUpdate
				i.a, i.b, i.c = opn(in.Map), opn(in.Key), opn(in.Value)
				i.aux = in.Map.Type().Underlying().(*types.Map).Key()
			case *ssa.Next:
				i.op = iNext
				i.a = opn(in.Iter)
				if in.IsString {
					i.x = 1
				}
			case *ssa.Panic:
				i.op = iPanic
				i.a = opn(in.X)
			case *ssa.Range:
				i.op = iRange
				i.a = opn(in.X)
				i.t = kindOf(in.X.Type())
			case *ssa.Return:
				i.op = iReturn
				i.args = opns(in.Results)
			case *ssa.RunDefers:
				i.op = iRunDefers
			case *ssa.Slice:
				i.op = iSlice
				i.a = opn(in.X)
				i.b, i.c, i.d = opn(in.Low), opn(in.High), opn(in.Max)
				if in.Low != nil {
					i.x |= 1
				}
				if in.High != nil {
					i.x |= 2
				}
				if in.Max != nil {
					i.x |= 4
				}
				i.t = kindOf(in.X.Type())
			case *ssa.SliceToArrayPointer:
				i.op = iSliceToArr
				i.a = opn(in.X)
				i.x = int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			case *ssa.Store:
				i.op = iStore
				i.typ = in.Val.Type()
				i.a, i.b = opn(in.Addr), opn(in.Val)
			case *ssa.TypeAssert:
				i.op = iTypeAssert
				i.a = opn(in.X)
				if in.CommaOk {
					i.x = 1
				}
				i.typ = in.AssertedType
				i.aux = P.types.get(in.AssertedType)
			case *ssa.UnOp:
				i.a = opn(in.X)
				i.op = iUnOp
				i.x = int(in.Op)
				i.t = kindOf(in.X.Type())
				if in.Op.String() == "*" {
					i.op = iLoad
					i.t2 = kindOf(in.Type())
				}
				if in.Op.String() == "<-" {
					i.op = iRecv
					i.x = 0
					if in.CommaOk {
						i.x = 1
					}
				}
			default:
				i.op = iUnsupported
			}
			bl.ins = append(bl.ins, i)
		}
		f.blocks = append(f.blocks, bl)
	}
	if fn.Recover != nil {
		f.recover = fn.Recover.Index
	}
	return f
}

func decodeCall(i *inst, c *ssa.CallCommon, opn func(ssa.Value) opnd, opns func([]ssa.Value) []opnd) {
	i.args = opns(c.Args)
	i.a = opn(c.Value)
	if c.IsInvoke() {
		i.op = iInvoke
		i.aux = c.Method
		return
	}
	i.op = iCall
	i.aux = c
}
