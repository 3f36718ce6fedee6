package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opcode uint8

const (
	iAlloc opcode = iota
	iBinOp
	iCall
	iInvoke
	iBuiltin
	iChangeInterface
	iChangeType
	iConvert
	iSliceToArrayPtr
	iSliceToArray
	iDefer
	iExtract
	iField
	iFieldAddr
	iGo
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeChan
	iMakeClosure
	iMakeInterface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iRange
	iReturn
	iRunDefers
	iSelect
	iSend
	iSlice
	iStore
	iTypeAssert
	iUnOp
	iNop
)

type operand struct {
	reg int32 // >= 0: register; otherwise constant k
	k   value
}

type cinstr struct {
	op      opcode
	dst     int32
	n       int
	commaOk bool
	heap    bool
	fresh   bool // Store/MapUpdate into memory allocated in this frame: needs no undo record
	tok     int
	a, b, c operand
	args    []operand
	t, t2   types.Type
	ik, ik2 ikind
	fn      *cfunc
	name    string
	pkg     *types.Package
	in      ssa.Instruction
	mcache  map[types.Type]*cfunc
}

type cphi struct {
	dst   int32
	edges []operand
}

type cblock struct {
	idx    int
	phis   []cphi
	code   []cinstr
	preds  []int
	succs  []int
	simple bool
}

type cfunc struct {
	fn       *ssa.Function
	name     string
	nregs    int
	blocks   []cblock
	intr     intrinsic
	hasDefer bool
	recover  int // recover block or -1
	repo     bool
	mapsPkg  bool
	compiled bool
	isInit   bool
	pkgPath  string
}

type intrinsic func(w *worker, fr *frame, args []value) value

// progState is a worker's view of the program: compiled functions and global cells.
type progState struct {
	w       *worker
	funcs   map[*ssa.Function]*cfunc
	globals map[*ssa.Global]*value
	inited  map[*ssa.Package]int
	fnvals  map[*cfunc]*fnv
	methods map[methodKey]*cfunc
	fnIDs   map[*cfunc]uint64
	fnByID  map[uint64]*cfunc
}

type methodKey struct {
	t    types.Type
	name string
	pkg  string
}

func newProgState(w *worker) *progState {
	return &progState{w: w, funcs: map[*ssa.Function]*cfunc{}, globals: map[*ssa.Global]*value{}, inited: map[*ssa.Package]int{}, fnvals: map[*cfunc]*fnv{}, methods: map[methodKey]*cfunc{}, fnIDs: map[*cfunc]uint64{}, fnByID: map[uint64]*cfunc{}}
}

func (p *progState) global(g *ssa.Global) *value {
	if c, ok := p.globals[g]; ok {
		return c
	}
	c := new(value)
	*c = zero(g.Type().Underlying().(*types.Pointer).Elem())
	p.globals[g] = c
	return c
}

func (p *progState) fnval(f *cfunc) *fnv {
	if v, ok := p.fnvals[f]; ok {
		return v
	}
	v := &fnv{fn: f}
	p.fnvals[f] = v
	return v
}

func (p *progState) get(fn *ssa.Function) *cfunc {
	if c, ok := p.funcs[fn]; ok {
		return c
	}
	c := &cfunc{fn: fn, name: fn.String(), recover: -1}
	if fn.Pkg != nil {
		c.pkgPath = fn.Pkg.Pkg.Path()
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		c.pkgPath = fn.Origin().Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		c.pkgPath = fn.Object().Pkg().Path()
	}
	c.repo = isRepoPkg(c.pkgPath)
	c.mapsPkg = c.pkgPath == "maps"
	p.funcs[fn] = c
	c.intr = lookupIntrinsic(fn, c)
	return c
}

func isRepoPkg(path string) bool {
	return (path == modPath || strings.HasPrefix(path, modPath+"/")) && !strings.HasPrefix(path, modPath+"/zzverif/") || strings.HasPrefix(path, modPath+"/zzverif/clicmd")
}

// ensureInit runs the initialiser of a package before one of its globals is first used.
func (p *progState) ensureInit(pkg *ssa.Package) {
	if p.inited[pkg] != 0 {
		return
	}
	p.inited[pkg] = 1
	if skipInit(pkg.Pkg.Path()) {
		p.inited[pkg] = 2
		return
	}
	w := p.w
	sj, sp, ss := w.journal, w.inPath, w.steps
	sst, sdepth, smo := w.callStack, w.depth, w.mapOrder
	w.journal, w.inPath, w.mapOrder = false, false, false
	w.callStack, w.depth = nil, 0
	w.initing++
	f := p.get(pkg.Func("init"))
	w.runInit(f)
	w.initing--
	w.journal, w.inPath, w.steps, w.mapOrder = sj, sp, ss, smo
	w.callStack, w.depth = sst, sdepth
	p.inited[pkg] = 2
}

func constVal(c *ssa.Const) value {
	if c.Value == nil {
		return zero(c.Type())
	}
	if tp, ok := c.Type().(*types.TypeParam); ok {
		panic(unsup("constant of type parameter %v", tp))
	}
	t, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		panic(unsup("constant of %v", c.Type()))
	}
	switch {
	case t.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case t.Info()&types.IsInteger != 0:
		k, _ := intKind(t)
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return k.norm(uint64(i))
		}
		if u, ok := constant.Uint64Val(v); ok {
			return k.norm(u)
		}
		if b, ok := constant.Val(v).(*big.Int); ok {
			return k.norm(b.Uint64())
		}
	case t.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if t.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case t.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	case t.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(constant.ToInt(c.Value))
		return string(rune(i))
	case t.Kind() == types.UnsafePointer:
		return (*value)(nil)
	}
	panic(unsup("constant %v", c))
}

func (p *progState) compile(c *cfunc) {
	fn := c.fn
	if fn.Blocks == nil {
		panic(unsup("no body: %s", c.name))
	}
	if fn.TypeParams() != nil && fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
		panic(unsup("uninstantiated generic %s", c.name))
	}
	c.isInit = fn.Synthetic == "package initializer"
	regs := map[ssa.Value]int32{}
	n := int32(0)
	add := func(v ssa.Value) {
		regs[v] = n
		n++
	}
	for _, q := range fn.Params {
		add(q)
	}
	for _, q := range fn.FreeVars {
		add(q)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	var needInit []*ssa.Package
	var opd func(v ssa.Value) operand
	opd = func(v ssa.Value) operand {
		switch v := v.(type) {
		case *ssa.Const:
			return operand{reg: -1, k: constVal(v)}
		case *ssa.Global:
			if v.Pkg != nil && p.inited[v.Pkg] == 0 {
				needInit = append(needInit, v.Pkg)
			}
			return operand{reg: -1, k: p.global(v)}
		case *ssa.Function:
			return operand{reg: -1, k: p.fnval(p.get(v))}
		case *ssa.Builtin:
			return operand{reg: -1, k: v}
		case nil:
			return operand{reg: -1, k: nil}
		}
		r, ok := regs[v]
		if !ok {
			panic(fmt.Sprintf("no register for %v in %s", v, c.name))
		}
		return operand{reg: r}
	}
	var fresh func(v ssa.Value) bool
	fresh = func(v ssa.Value) bool {
		switch v := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			return fresh(v.X)
		case *ssa.IndexAddr:
			if _, ok := v.X.Type().Underlying().(*types.Pointer); ok {
				return fresh(v.X)
			}
			_, ok := v.X.(*ssa.MakeSlice)
			return ok
		}
		return false
	}
	c.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &c.blocks[bi]
		cb.idx = bi
		for _, q := range b.Preds {
			cb.preds = append(cb.preds, q.Index)
		}
		for _, q := range b.Succs {
			cb.succs = append(cb.succs, q.Index)
		}
		for _, in := range b.Instrs {
			ci := cinstr{dst: -1, in: in}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			switch in := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				ph := cphi{dst: ci.dst}
				for _, e := range in.Edges {
					ph.edges = append(ph.edges, opd(e))
				}
				cb.phis = append(cb.phis, ph)
				continue
			case *ssa.Alloc:
				ci.op = iAlloc
				ci.t = in.Type().Underlying().(*types.Pointer).Elem()
				ci.heap = in.Heap
			case *ssa.BinOp:
				ci.op = iBinOp
				ci.a, ci.b = opd(in.X), opd(in.Y)
				ci.tok = int(in.Op)
				ci.t, ci.t2 = in.X.Type(), in.Y.Type()
				ci.ik, ci.commaOk = intKind(in.X.Type())
				ci.ik2, _ = intKind(in.Y.Type())
			case *ssa.Call:
				p.compileCall(&ci, &in.Call, opd)
			case *ssa.Defer:
				p.compileCall(&ci, &in.Call, opd)
				ci.n = int(ci.op)
				ci.op = iDefer
				c.hasDefer = true
			case *ssa.Go:
				ci.op = iGo
			case *ssa.ChangeInterface:
				ci.op = iChangeInterface
				ci.a = opd(in.X)
			case *ssa.ChangeType:
				ci.op = iChangeType
				ci.a = opd(in.X)
			case *ssa.Convert:
				ci.op = iConvert
				ci.a = opd(in.X)
				ci.t, ci.t2 = in.X.Type(), in.Type()
			case *ssa.MultiConvert:
				ci.op = iConvert
				ci.a = opd(in.X)
				ci.t, ci.t2 = in.X.Type(), in.Type()
			case *ssa.SliceToArrayPointer:
				ci.op = iSliceToArrayPtr
				ci.a = opd(in.X)
				ci.t = in.Type()
			case *ssa.Extract:
				ci.op = iExtract
				ci.a = opd(in.Tuple)
				ci.n = in.Index
			case *ssa.Field:
				ci.op = iField
				ci.a = opd(in.X)
				ci.n = in.Field
			case *ssa.FieldAddr:
				ci.op = iFieldAddr
				ci.a = opd(in.X)
				ci.n = in.Field
			case *ssa.If:
				ci.op = iIf
				ci.a = opd(in.Cond)
			case *ssa.Index:
				ci.op = iIndex
				ci.ik, _ = intKind(in.Type())
				ci.a, ci.b = opd(in.X), opd(in.Index)
				ci.t = in.X.Type()
				ci.t2 = in.Index.Type()
			case *ssa.IndexAddr:
				ci.op = iIndexAddr
				ci.ik, _ = intKind(in.Type().Underlying().(*types.Pointer).Elem())
				ci.a, ci.b = opd(in.X), opd(in.Index)
				ci.t = in.X.Type()
				ci.t2 = in.Index.Type()
			case *ssa.Jump:
				ci.op = iJump
			case *ssa.Lookup:
				ci.op = iLookup
				ci.a, ci.b = opd(in.X), opd(in.Index)
				ci.commaOk = in.CommaOk
				ci.t = in.X.Type()
			case *ssa.MakeChan:
				ci.op = iMakeChan
			case *ssa.MakeClosure:
				ci.op = iMakeClosure
				ci.fn = p.get(in.Fn.(*ssa.Function))
				for _, q := range in.Bindings {
					ci.args = append(ci.args, opd(q))
				}
			case *ssa.MakeInterface:
				ci.op = iMakeInterface
				ci.a = opd(in.X)
				ci.t = canon(in.X.Type())
			case *ssa.MakeMap:
				ci.op = iMakeMap
			case *ssa.MakeSlice:
				ci.op = iMakeSlice
				ci.a, ci.b = opd(in.Len), opd(in.Cap)
				ci.t = in.Type().Underlying().(*types.Slice).Elem()
				ci.t2 = in.Len.Type()
			case *ssa.MapUpdate:
				ci.op = iMapUpdate
				ci.a, ci.b, ci.c = opd(in.Map), opd(in.Key), opd(in.Value)
			case *ssa.Next:
				ci.op = iNext
				ci.a = opd(in.Iter)
				ci.commaOk = in.IsString
				ci.t = in.Type()
			case *ssa.Panic:
				ci.op = iPanic
				ci.a = opd(in.X)
			case *ssa.Range:
				ci.op = iRange
				ci.a = opd(in.X)
			case *ssa.Return:
				ci.op = iReturn
				for _, q := range in.Results {
					ci.args = append(ci.args, opd(q))
				}
			case *ssa.RunDefers:
				ci.op = iRunDefers
			case *ssa.Select:
				ci.op = iSelect
			case *ssa.Send:
				ci.op = iSend
			case *ssa.Slice:
				ci.op = iSlice
				ci.a = opd(in.X)
				ci.t = in.X.Type()
				ci.args = []operand{{reg: -1}, {reg: -1}, {reg: -1}}
				if in.Low != nil {
					ci.args[0] = opd(in.Low)
				}
				if in.High != nil {
					ci.args[1] = opd(in.High)
				}
				if in.Max != nil {
					ci.args[2] = opd(in.Max)
				}
			case *ssa.Store:
				ci.op = iStore
				ci.a, ci.b = opd(in.Addr), opd(in.Val)
				ci.fresh = fresh(in.Addr)
			case *ssa.TypeAssert:
				ci.op = iTypeAssert
				ci.a = opd(in.X)
				ci.t = canon(in.AssertedType)
				ci.commaOk = in.CommaOk
			case *ssa.UnOp:
				ci.op = iUnOp
				ci.a = opd(in.X)
				ci.tok = int(in.Op)
				ci.commaOk = in.CommaOk
				ci.t = in.Type()
				ci.ik, _ = intKind(in.Type())
			default:
				panic(unsup("instruction %T", in))
			}
			cb.code = append(cb.code, ci)
		}
	}
	if fn.Recover != nil {
		c.recover = fn.Recover.Index
	}
	c.nregs = int(n)
	c.compiled = true
	if p.w.funcs != nil {
		p.w.funcs[c] = true
	}
	for _, pkg := range needInit {
		p.ensureInit(pkg)
	}
}

func (p *progState) compileCall(ci *cinstr, call *ssa.CallCommon, opd func(ssa.Value) operand) {
	for _, a := range call.Args {
		ci.args = append(ci.args, opd(a))
	}
	if call.IsInvoke() {
		ci.op = iInvoke
		ci.a = opd(call.Value)
		ci.name = call.Method.Name()
		ci.pkg = call.Method.Pkg()
		ci.mcache = map[types.Type]*cfunc{}
		return
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		ci.op = iBuiltin
		if b.Name() == "append" && len(call.Args) > 0 {
			if st, ok := call.Args[0].Type().Underlying().(*types.Slice); ok {
				ci.n = elemSize(st.Elem())
			}
		}
		ci.name = b.Name()
		sig := b.Type().(*types.Signature)
		if sig.Params().Len() > 0 {
			ci.t = sig.Params().At(0).Type()
		} else if len(call.Args) > 0 {
			ci.t = call.Args[0].Type()
		}
		if len(call.Args) > 0 {
			ci.t = call.Args[0].Type()
		}
		if sig.Results().Len() == 1 {
			ci.t2 = sig.Results().At(0).Type()
		}
		return
	}
	ci.op = iCall
	if fn := call.StaticCallee(); fn != nil {
		if _, ok := call.Value.(*ssa.MakeClosure); !ok {
			ci.fn = p.get(fn)
			return
		}
	}
	ci.a = opd(call.Value)
}
