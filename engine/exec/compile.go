package exec

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"

	"verif/engine/sym"
)

type opKind uint8

const (
	oReg opKind = iota
	oConst
	oGlobal
)

// Opnd is a resolved operand.
type Opnd struct {
	kind opKind
	idx  int // register or package index
	val  Value
}

type callInfo struct {
	static  *Fn
	builtin string
	invoke  *types.Func
	fn      Opnd
	args    []Opnd
	sig     *types.Signature
	instr   ssa.Instruction
	argT    []types.Type
	resT    types.Type
}

// Instr is an instruction with resolved operands.
type Instr struct {
	op    ssa.Instruction
	args  []Opnd
	dst   int
	call  *callInfo
	typ   *TypeInfo // main type involved
	n     int64
	comma bool
	table bool // an element address that only the load after it uses
}

type Block struct {
	instrs []Instr
	succ   []int
	preds  []int
	nphi   int
}

// Fn is a compiled function.
type Fn struct {
	F       *ssa.Function
	Name    string
	Pkg     string
	nregs   int
	params  []int
	free    []int
	blocks  []Block
	recov   int
	liveMu  sync.Mutex
	liveOut [][]bool
	liveAt  map[[2]int][]bool
	scan    []bool // registers the collector looks at
	intr    intrinsic
	visible bool
	id      int32 // static function object
	pkgIdx  int
	body    bool
	module  bool
	built   chan struct{}
}

type intrinsic func(st *State, c *callCtx) Value

// fn compiles f.
func (pr *Program) fn(f *ssa.Function) *Fn {
	if x, ok := pr.fns.Load(f); ok {
		fn := x.(*Fn)
		<-fn.built
		return fn
	}
	fn := &Fn{F: f, built: make(chan struct{}), recov: -1}
	if x, loaded := pr.fns.LoadOrStore(f, fn); loaded {
		fn := x.(*Fn)
		<-fn.built
		return fn
	}
	defer close(fn.built)
	fn.Name = fnName(f)
	fn.Pkg = pkgOfFn(f)
	fn.id = pr.static.add(&Object{kind: kFunc, fn: fn, what: "func " + fn.Name, ro: true})
	fn.intr, fn.visible = lookupIntrinsic(pr, f, fn)
	fn.module = len(fn.Pkg) >= len(pr.Module) && fn.Pkg[:len(pr.Module)] == pr.Module
	if fn.intr != nil {
		return fn
	}
	if f.Pkg != nil {
		f.Pkg.Build()
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	}
	if f.Blocks == nil {
		return fn
	}
	return fn
}

// code makes sure the body of fn is compiled.
func (pr *Program) code(fn *Fn) {
	pr.fmu.Lock()
	defer pr.fmu.Unlock()
	if fn.body {
		return
	}
	pr.compile(fn)
	fn.body = true
}

func (pr *Program) compile(fn *Fn) {
	f := fn.F
	if f.Blocks == nil {
		return
	}
	regs := map[ssa.Value]int{}
	add := func(v ssa.Value) int {
		i := len(regs)
		regs[v] = i
		return i
	}
	for _, p := range f.Params {
		fn.params = append(fn.params, add(p))
	}
	for _, p := range f.FreeVars {
		fn.free = append(fn.free, add(p))
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fn.nregs = len(regs)
	opnd := func(v ssa.Value) Opnd {
		switch x := v.(type) {
		case nil:
			return Opnd{kind: oConst}
		case *ssa.Const:
			return Opnd{kind: oConst, val: pr.constVal(x)}
		case *ssa.Global:
			id := pr.globalID(x)
			return Opnd{kind: oGlobal, idx: pr.pkgIndex(x.Pkg), val: Ptr{id, 0}}
		case *ssa.Function:
			return Opnd{kind: oConst, val: Ptr{pr.fnShell(x).id, 0}}
		case *ssa.Builtin:
			return Opnd{kind: oConst}
		}
		i, ok := regs[v]
		if !ok {
			bail("operand %s in %s", v, f)
		}
		return Opnd{kind: oReg, idx: i}
	}
	fn.blocks = make([]Block, len(f.Blocks))
	for bi, b := range f.Blocks {
		blk := &fn.blocks[bi]
		for _, s := range b.Succs {
			blk.succ = append(blk.succ, s.Index)
		}
		for _, p := range b.Preds {
			blk.preds = append(blk.preds, p.Index)
		}
		for _, in := range b.Instrs {
			ins := Instr{op: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ins.dst = regs[v]
			}
			switch x := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				blk.nphi++
				for _, e := range x.Edges {
					ins.args = append(ins.args, opnd(e))
				}
			case ssa.CallInstruction:
				ins.call = pr.callInfo(x, opnd)
			default:
				for _, p := range in.Operands(nil) {
					if *p == nil {
						ins.args = append(ins.args, Opnd{kind: oConst})
					} else {
						ins.args = append(ins.args, opnd(*p))
					}
				}
			}
			switch x := in.(type) {
			case *ssa.Alloc:
				ins.typ = pr.Type(x.Type().Underlying().(*types.Pointer).Elem())
			case *ssa.FieldAddr:
				t := x.X.Type().Underlying().(*types.Pointer).Elem()
				ins.n = pr.Type(t).offs[x.Field]
			case *ssa.IndexAddr:
				switch u := x.X.Type().Underlying().(type) {
				case *types.Slice:
					ins.typ = pr.Type(u.Elem())
				case *types.Pointer:
					a := u.Elem().Underlying().(*types.Array)
					ins.typ = pr.Type(a.Elem())
					ins.n = a.Len()
				}
			case *ssa.UnOp:
				ins.typ = pr.Type(x.Type())
				ins.comma = x.CommaOk
			case *ssa.Store:
				ins.typ = pr.Type(x.Val.Type())
			case *ssa.MakeInterface:
				ins.typ = pr.Type(x.X.Type())
			case *ssa.TypeAssert:
				ins.typ = pr.Type(x.AssertedType)
				ins.comma = x.CommaOk
			}
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && len(blk.instrs) > 0 {
				l := &blk.instrs[len(blk.instrs)-1]
				if x, ok := l.op.(*ssa.IndexAddr); ok && u.X == x && soleUse(x, u) && isTableElem(u.Type()) {
					l.table = true
				}
			}
			blk.instrs = append(blk.instrs, ins)
		}
	}
	if f.Recover != nil {
		fn.recov = f.Recover.Index
	}
}

func soleUse(v ssa.Value, by ssa.Instruction) bool {
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok && r != by {
			return false
		}
	}
	return true
}

func isTableElem(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0 && b.Kind() != types.Uintptr
}

// fnShell gives the static object of f without compiling under the lock.
func (pr *Program) fnShell(f *ssa.Function) *Fn { return pr.fn(f) }

func (pr *Program) callInfo(x ssa.CallInstruction, opnd func(ssa.Value) Opnd) *callInfo {
	c := x.Common()
	ci := &callInfo{instr: x, sig: c.Signature()}
	if v := x.Value(); v != nil {
		ci.resT = v.Type()
	}
	if c.IsInvoke() {
		ci.invoke = c.Method
		ci.fn = opnd(c.Value)
	} else {
		switch v := c.Value.(type) {
		case *ssa.Builtin:
			ci.builtin = v.Name()
		case *ssa.Function:
			ci.static = pr.fnShell(v)
		default:
			ci.fn = opnd(v)
		}
	}
	for _, a := range c.Args {
		ci.args = append(ci.args, opnd(a))
		ci.argT = append(ci.argT, a.Type())
	}
	return ci
}

func (pr *Program) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return pr.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		bail("constant of type %s", t)
	}
	switch {
	case b.Info()&types.IsString != 0:
		return pr.strConst(constant.StringVal(c.Value))
	case b.Info()&types.IsBoolean != 0:
		return sym.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if pr.width(t) == 32 {
			f32, _ := constant.Float32Val(c.Value)
			return sym.Const(uint64(math.Float32bits(f32)), 32)
		}
		return sym.Const(math.Float64bits(f), 64)
	case b.Info()&types.IsInteger != 0 || b.Kind() == types.UnsafePointer:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return sym.Const(uint64(i), pr.width(t))
		}
		u, ok := constant.Uint64Val(v)
		if !ok {
			bail("constant %s", c)
		}
		return sym.Const(u, pr.width(t))
	}
	bail("constant %s", c)
	return nil
}
