package exec

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"

	"verif/engine/sym"
)

func (st *State) th() *thread { return st.threads[st.cur] }

func (st *State) top() *Frame {
	f := st.threads[st.cur].frames
	return f[len(f)-1]
}

func (st *State) get(f *Frame, o *Opnd) Value {
	switch o.kind {
	case oReg:
		return f.regs[o.idx]
	case oGlobal:
		if !st.isInited(o.idx) {
			panic(needInit{o.idx})
		}
	}
	return o.val
}

func (st *State) isInited(i int) bool {
	return i < len(st.inited) && st.inited[i]
}

func (st *State) setInited(i int) {
	for len(st.inited) <= i {
		st.inited = append(st.inited, false)
	}
	st.inited[i] = true
}

// startInit pushes the initialiser of a package.
func (st *State) startInit(i int) {
	st.setInited(i)
	p := st.prog.pkgs[i]
	if skipInit(p.Pkg.Path()) {
		return
	}
	p.Build()
	f := p.Func("init")
	if f == nil {
		return
	}
	fn := st.prog.fn(f)
	fr := st.push(fn, nil, nil, -1)
	fr.init = i + 1
	st.inInit++
}

func (st *State) push(fn *Fn, args []Value, free []Value, dst int) *Frame {
	if !fn.body {
		st.prog.code(fn)
	}
	if fn.blocks == nil {
		bail("function without body: %s", fn.Name)
	}
	th := st.th()
	if len(th.frames) > 20000 && (st.maxDepth == 0 || len(th.frames) > st.maxDepth) {
		panic(violation{fmt.Sprintf("stack overflow (call depth %d) in %s", len(th.frames), fn.Name)})
	}
	st.w.cover(fn)
	fr := &Frame{fn: fn, regs: make([]Value, fn.nregs), dst: dst, prev: -1}
	for i, r := range fn.params {
		fr.regs[r] = args[i]
	}
	for i, r := range fn.free {
		fr.regs[r] = free[i]
	}
	th.frames = append(th.frames, fr)
	return fr
}

// ret pops the top frame delivering v to its caller.
func (st *State) ret(v Value) {
	th := st.th()
	fr := th.frames[len(th.frames)-1]
	th.frames = th.frames[:len(th.frames)-1]
	if fr.init != 0 {
		st.inInit--
		return
	}
	if len(th.frames) == 0 {
		th.done = true
		th.result = v
		return
	}
	caller := th.frames[len(th.frames)-1]
	if fr.onReturn != nil {
		fr.onReturn(st, v)
		return
	}
	if fr.isDefer {
		return // the caller is unwinding or executing RunDefers and continues by itself
	}
	if fr.dst >= 0 {
		caller.regs[fr.dst] = v
	}
	st.advance(caller)
}

func (st *State) advance(f *Frame) {
	f.pc++
	st.ichoice = nil
	st.inext = 0
	st.th().go_ = false
}

// goPanicRuntime raises a Go run-time error.
func (st *State) goPanicRuntime(msg string) {
	panic(goPanic{st.runtimeError(msg)})
}

func (st *State) runtimeError(msg string) Iface {
	s := st.prog.strConst(msg)
	if p := st.prog.Pkgs["runtime"]; p != nil {
		if m := p.Type("errorString"); m != nil {
			return st.mkInterface(st.prog.Type(m.Type()), s)
		}
	}
	return st.mkInterface(st.prog.Type(types.Typ[types.String]), s)
}

// raise starts unwinding the current thread with a panic value.
func (st *State) raise(v Iface) {
	f := st.top()
	f.panicV = &v
	f.recov = false
	f.running = false
	st.unwind()
}

// unwind advances the unwinding of the top frame by one step.
func (st *State) unwind() {
	th := st.th()
	f := st.top()
	if f.panicV == nil { // recovered
		if len(f.defers) > 0 {
			st.runDefer(f)
			return
		}
		f.recov = false
		if f.fn.recov >= 0 {
			f.blk, f.pc, f.prev = f.fn.recov, 0, -1
			st.ichoice = nil
			st.inext = 0
			return
		}
		res := f.fn.F.Signature.Results()
		switch res.Len() {
		case 0:
			st.ret(nil)
		case 1:
			st.ret(st.prog.zero(res.At(0).Type()))
		default:
			st.ret(st.prog.zero(res))
		}
		return
	}
	if len(f.defers) > 0 {
		st.runDefer(f)
		return
	}
	v := *f.panicV
	if len(th.frames) == 1 {
		panic(violation{"uncaught panic: " + st.describePanic(v)})
	}
	if f.init != 0 {
		panic(violation{"panic during package initialisation: " + st.describePanic(v)})
	}
	th.frames = th.frames[:len(th.frames)-1]
	c := st.top()
	c.panicV = &v
	c.recov = false
	c.running = false
	st.ichoice = nil
	st.inext = 0
}

func (st *State) runDefer(f *Frame) {
	nd := len(f.defers) - 1
	d := f.defers[nd]
	n := len(st.th().frames)
	cur := st.cur
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(goPanic); ok {
					f.defers = f.defers[:nd]
				}
				panic(x)
			}
		}()
		st.call(d.call, d.fn, d.args, -1)
	}()
	if st.cur != cur {
		return // another thread runs first
	}
	f.defers = f.defers[:nd]
	st.ichoice = nil
	st.inext = 0
	st.th().go_ = false
	if fs := st.th().frames; len(fs) > n {
		fs[len(fs)-1].isDefer = true
	}
}

func (st *State) describePanic(v Iface) string {
	if v.T == nil {
		return "nil"
	}
	switch x := st.unbox(v).(type) {
	case Str:
		if s, ok := st.goString(x); ok {
			return s
		}
	}
	return v.T.T.String()
}

func (st *State) step() {
	th := st.th()
	f := th.frames[len(th.frames)-1]
	if f.panicV != nil || f.recov {
		st.unwind()
		return
	}
	if st.stress && st.nheap != st.collected {
		st.collect()
		st.collected = st.nheap
	}
	st.steps++
	if st.steps > st.maxSteps {
		panic(violation{"step limit exceeded (no termination within bound)"})
	}
	b := &f.fn.blocks[f.blk]
	st.exec(f, b, &b.instrs[f.pc])
}

func (st *State) jump(f *Frame, to int) {
	f.prev = f.blk
	f.blk = to
	f.pc = 0
	st.ichoice = nil
	st.inext = 0
	b := &f.fn.blocks[to]
	if b.nphi > 0 {
		pi := -1
		for i, p := range b.preds {
			if p == f.prev {
				pi = i
				break
			}
		}
		vals := make([]Value, b.nphi)
		for i := 0; i < b.nphi; i++ {
			vals[i] = st.get(f, &b.instrs[i].args[pi])
		}
		for i := 0; i < b.nphi; i++ {
			f.regs[b.instrs[i].dst] = vals[i]
		}
		f.pc = b.nphi
	}
}

func (st *State) exec(f *Frame, b *Block, in *Instr) {
	lazy := false // whether the instruction can do with a length alone
	switch x := in.op.(type) {
	case *ssa.Store, *ssa.Return, *ssa.ChangeType, *ssa.Extract, *ssa.Field, *ssa.MapUpdate:
		lazy = true
	case *ssa.BinOp:
		lazy = x.Op == token.EQL || x.Op == token.NEQ
	}
	a := func(i int) Value {
		v := st.get(f, &in.args[i])
		if !lazy {
			force(v)
		}
		return v
	}
	switch x := in.op.(type) {
	case *ssa.Phi:
		bail("phi")
	case *ssa.BinOp:
		f.regs[in.dst] = st.binop(x.Op, a(0), a(1), x.X.Type(), x.Y.Type(), x.Type())
	case *ssa.UnOp:
		f.regs[in.dst] = st.unop(x, in, a(0))
	case *ssa.Call:
		args := make([]Value, len(in.call.args))
		for i := range args {
			args[i] = st.get(f, &in.call.args[i])
		}
		var fnv Value
		if in.call.static == nil && in.call.builtin == "" {
			fnv = st.get(f, &in.call.fn)
		}
		st.callInstr(f, in, fnv, args)
		return
	case *ssa.Store:
		st.store(a(0).(Ptr), in.typ.T, a(1))
	case *ssa.FieldAddr:
		p := a(0).(Ptr)
		if p.Obj == 0 {
			st.nilDeref(p)
		}
		f.regs[in.dst] = Ptr{p.Obj, p.Off + in.n}
	case *ssa.IndexAddr:
		if in.table {
			if v := st.tableElem(in, a(0), a(1), x.Index.Type()); v != nil {
				f.regs[b.instrs[f.pc+1].dst] = v
				st.advance(f)
				break
			}
		}
		f.regs[in.dst] = st.indexAddr(in, a(0), a(1), x.Index.Type())
	case *ssa.If:
		if st.branch(st.subst(a(0).(*sym.Expr))) {
			st.jump(f, b.succ[0])
		} else {
			st.jump(f, b.succ[1])
		}
		return
	case *ssa.Jump:
		st.jump(f, b.succ[0])
		return
	case *ssa.Return:
		var v Value
		switch len(in.args) {
		case 0:
		case 1:
			v = a(0)
		default:
			t := make(Agg, len(in.args))
			for i := range t {
				t[i] = a(i)
			}
			v = t
		}
		st.ichoice = nil
		st.inext = 0
		st.ret(v)
		return
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			st.runDefer(f)
			return
		}
	case *ssa.Panic:
		v := a(0).(Iface)
		if v.T == nil {
			v = st.runtimeError("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
		}
		panic(goPanic{v})
	case *ssa.Alloc:
		f.regs[in.dst] = st.allocT(in.typ.Size, in.typ)
		if !x.Heap {
			st.allocated -= (in.typ.Size + 15) &^ 15
			if st.collected == st.nheap-1 {
				st.collected++ // no allocation to the collector
			}
		}
	case *ssa.Convert:
		f.regs[in.dst] = st.convert(a(0), x.X.Type(), x.Type())
	case *ssa.ChangeType, *ssa.ChangeInterface:
		f.regs[in.dst] = a(0)
	case *ssa.MultiConvert:
		f.regs[in.dst] = st.convert(a(0), x.X.Type(), x.Type())
	case *ssa.SliceToArrayPointer:
		s := a(0).(Slice)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if s.Len < n {
			st.goPanicRuntime("cannot convert slice to array or pointer to array")
		}
		f.regs[in.dst] = s.P
	case *ssa.MakeInterface:
		f.regs[in.dst] = st.mkInterface(in.typ, a(0))
	case *ssa.TypeAssert:
		f.regs[in.dst] = st.typeAssert(in, x, a(0).(Iface))
	case *ssa.Extract:
		f.regs[in.dst] = a(0).(Agg)[x.Index]
	case *ssa.Field:
		f.regs[in.dst] = a(0).(Agg)[x.Field]
	case *ssa.Index:
		f.regs[in.dst] = st.index(x, a(0), a(1))
	case *ssa.Slice:
		var l, h, m Value
		if x.Low != nil {
			l = a(1)
		}
		if x.High != nil {
			h = a(2)
		}
		if x.Max != nil {
			m = a(3)
		}
		f.regs[in.dst] = st.sliceOp(x, a(0), l, h, m)
	case *ssa.MakeSlice:
		et := st.prog.Type(x.Type().Underlying().(*types.Slice).Elem())
		f.regs[in.dst] = st.makeSlice(et, a(0), a(1), x.Len.Type(), x.Cap.Type())
	case *ssa.MakeClosure:
		free := make([]Value, len(in.args)-1)
		for i := range free {
			free[i] = a(i + 1)
		}
		fn := st.prog.fn(x.Fn.(*ssa.Function))
		if st.limit > 0 {
			st.charge(int64(8 + 16*len(free)))
		}
		f.regs[in.dst] = Ptr{st.newObj(&Object{kind: kFunc, fn: fn, free: free, what: "closure " + fn.Name}), 0}
	case *ssa.MakeChan:
		// channels have identity only; nothing sends or receives
		f.regs[in.dst] = st.alloc(8, "channel")
	case *ssa.MakeMap:
		mt := st.prog.Type(x.Type())
		if x.Reserve != nil {
			st.reserve(mt, toInt64(a(0), x.Reserve.Type()))
		}
		f.regs[in.dst] = st.makeMap(mt)
	case *ssa.MapUpdate:
		m := a(0).(Ptr)
		mt := x.Map.Type().Underlying().(*types.Map)
		k, v := a(1), a(2)
		st.mapUpdate(m, mt, force(k), v)
	case *ssa.Lookup:
		f.regs[in.dst] = st.lookup(x, a(0), a(1))
	case *ssa.Range:
		f.regs[in.dst] = st.rangeStart(x, a(0))
	case *ssa.Next:
		it := a(0).(Ptr)
		v := st.rangeNext(x, it)
		f.regs[in.dst] = v
	case *ssa.Defer:
		args := make([]Value, len(in.call.args))
		for i := range args {
			args[i] = st.get(f, &in.call.args[i])
		}
		var fnv Value
		if in.call.static == nil && in.call.builtin == "" {
			fnv = st.get(f, &in.call.fn)
		}
		if x.DeferStack != nil {
			bail("defer in a range-over-func body")
		}
		f.defers = append(f.defers[:len(f.defers):len(f.defers)], deferred{fnv, args, in.call})
	case *ssa.Go:
		args := make([]Value, len(in.call.args))
		for i := range args {
			args[i] = st.get(f, &in.call.args[i])
		}
		var fnv Value
		if in.call.static == nil && in.call.builtin == "" {
			fnv = st.get(f, &in.call.fn)
		}
		st.spawn(in.call, fnv, args)
	default:
		bail("instruction %T in %s", in.op, f.fn.Name)
	}
	st.advance(f)
}

func (st *State) indexRange(idx Value, t types.Type, n int64) int64 {
	e, ok := idx.(*sym.Expr)
	if !ok {
		bail("address used as index")
	}
	return st.boundCheck(e, isSigned(t), n, "index out of range")
}

// boundCheck makes e concrete after checking 0 <= e < n.
func (st *State) boundCheck(e *sym.Expr, signed bool, n int64, msg string) int64 {
	if e.W < 64 {
		if signed {
			e = sym.SExt(e, 64)
		} else {
			e = sym.ZExt(e, 64)
		}
	}
	if !st.branch(sym.Ult(e, sym.Const(uint64(n), 64))) {
		st.goPanicRuntime(msg)
	}
	return int64(st.concrete(e))
}

func (st *State) indexAddr(in *Instr, base, idx Value, it types.Type) Value {
	switch s := base.(type) {
	case Slice:
		i := st.indexRange(idx, it, s.Len)
		return Ptr{s.P.Obj, s.P.Off + i*in.typ.Size}
	case Ptr:
		if s.Obj == 0 {
			st.nilDeref(s)
		}
		i := st.indexRange(idx, it, in.n)
		return Ptr{s.Obj, s.Off + i*in.typ.Size}
	}
	bail("IndexAddr %T", base)
	return nil
}

// tableElem is the element at a symbolic index of a table of constants, nil
// if it is not that.
func (st *State) tableElem(in *Instr, base, idx Value, it types.Type) Value {
	e, ok := idx.(*sym.Expr)
	if !ok || e.IsConst() {
		return nil
	}
	if _, ok := st.fixed[e]; ok {
		return nil
	}
	var p Ptr
	var n int64
	switch s := base.(type) {
	case Slice:
		p, n = s.P, s.Len
	case Ptr:
		p, n = s, in.n
	}
	if p.Obj == 0 || n == 0 || n > 4096 {
		return nil
	}
	es := in.typ.Size
	o := st.obj(p.Obj)
	if o == nil || o.kind != kMem || p.Off < 0 || p.Off+n*es > o.size {
		return nil
	}
	return st.tableLookup(e, isSigned(it), n, func(i int64) *sym.Expr {
		e := byteOf(o.cells[p.Off+i*es])
		for j := int64(1); j < es && e != nil && e.IsConst(); j++ {
			b := byteOf(o.cells[p.Off+i*es+j])
			if b == nil {
				return nil
			}
			e = sym.Concat(b, e)
		}
		return e
	}, func() { st.access(p, n*es, false) }, isBool(in.typ.T))
}

// tableLookup is the element at index e, if all are constants and form few runs.
func (st *State) tableLookup(e *sym.Expr, signed bool, n int64, at func(int64) *sym.Expr, touch func(), boolean bool) Value {
	type run struct {
		end int64
		v   *sym.Expr
	}
	var runs []run
	for i := int64(0); i < n; i++ {
		v := at(i)
		if v == nil || !v.IsConst() {
			return nil
		}
		if k := len(runs); k > 0 && runs[k-1].v == v {
			runs[k-1].end = i + 1
			continue
		}
		if len(runs) == 64 {
			return nil
		}
		runs = append(runs, run{i + 1, v})
	}
	if e.W < 64 {
		if signed {
			e = sym.SExt(e, 64)
		} else {
			e = sym.ZExt(e, 64)
		}
	}
	if !st.branch(sym.Ult(e, sym.Const(uint64(n), 64))) {
		st.goPanicRuntime("index out of range")
	}
	touch()
	v := runs[len(runs)-1].v
	for i := len(runs) - 2; i >= 0; i-- {
		v = sym.Ite(sym.Ult(e, sym.Const(uint64(runs[i].end), 64)), runs[i].v, v)
	}
	if boolean {
		return sym.Ne(v, sym.Const(0, 8))
	}
	return v
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (st *State) index(x *ssa.Index, base, idx Value) Value {
	switch s := base.(type) {
	case Str:
		if e, ok := idx.(*sym.Expr); ok && !e.IsConst() && s.P.Obj != 0 && s.Len <= 4096 {
			o := st.obj(s.P.Obj)
			if o != nil && o.kind == kMem && s.P.Off+s.Len <= o.size {
				v := st.tableLookup(e, isSigned(x.Index.Type()), s.Len, func(i int64) *sym.Expr { return byteOf(o.cells[s.P.Off+i]) }, func() { st.access(s.P, s.Len, false) }, false)
				if v != nil {
					return v
				}
			}
		}
		i := st.indexRange(idx, x.Index.Type(), s.Len)
		return st.loadByte(Ptr{s.P.Obj, s.P.Off + i})
	case Agg:
		return s[st.indexRange(idx, x.Index.Type(), int64(len(s)))]
	}
	bail("Index %T", base)
	return nil
}

func toInt64(v Value, t types.Type) *sym.Expr {
	e, ok := v.(*sym.Expr)
	if !ok {
		bail("address used as integer")
	}
	if e.W < 64 {
		if isSigned(t) {
			return sym.SExt(e, 64)
		}
		return sym.ZExt(e, 64)
	}
	return e
}

func (st *State) sliceOp(x *ssa.Slice, base, l, h, m Value) Value {
	var p Ptr
	var length, capacity, es int64
	str := false
	switch s := base.(type) {
	case Slice:
		p, length, capacity = s.P, s.Len, s.Cap
		es = st.prog.Type(x.X.Type().Underlying().(*types.Slice).Elem()).Size
	case Str:
		p, length, capacity, es = s.P, s.Len, s.Len, 1
		str = true
	case Ptr:
		if s.Obj == 0 {
			st.nilDeref(s)
		}
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		p, length, capacity = s, at.Len(), at.Len()
		es = st.prog.Type(at.Elem()).Size
	default:
		bail("Slice %T", base)
	}
	lo := sym.Const(0, 64)
	hi := sym.Const(uint64(length), 64)
	mx := sym.Const(uint64(capacity), 64)
	if l != nil {
		lo = toInt64(l, x.Low.Type())
	}
	if h != nil {
		hi = toInt64(h, x.High.Type())
	}
	if m != nil {
		mx = toInt64(m, x.Max.Type())
	}
	c := sym.Const(uint64(capacity), 64)
	ok := sym.BAnd(sym.Ule(mx, c), sym.BAnd(sym.Ule(hi, mx), sym.Ule(lo, hi)))
	if !st.branch(st.subst(ok)) {
		st.goPanicRuntime("slice bounds out of range")
	}
	i, j := int64(st.concrete(lo)), int64(st.concrete(hi))
	k := int64(st.concrete(mx))
	if str {
		if i == j {
			return Str{}
		}
		return Str{Ptr{p.Obj, p.Off + i}, j - i}
	}
	if k-i == 0 && i > 0 {
		// gc keeps the base pointer in range for empty results
		return Slice{Ptr{p.Obj, p.Off + i*es}, 0, 0}
	}
	return Slice{Ptr{p.Obj, p.Off + i*es}, j - i, k - i}
}

func (st *State) makeSlice(et *TypeInfo, l, c Value, lt, ct types.Type) Value {
	le, ce := toInt64(l, lt), toInt64(c, ct)
	es := et.Size
	if es == 0 {
		es = 1
	}
	max := uint64(1<<47) / uint64(es)
	okl := sym.Ule(le, sym.Const(max, 64))
	if !st.branch(okl) {
		st.goPanicRuntime("makeslice: len out of range")
	}
	if !st.branch(sym.BAnd(sym.Ule(ce, sym.Const(max, 64)), sym.Ule(le, ce))) {
		st.goPanicRuntime("makeslice: cap out of range")
	}
	st.fits(ce, et.Size)
	if !st.branch(sym.Ule(ce, sym.Const(uint64(maxAlloc/es), 64))) {
		panic(violation{"allocation of unbounded size"})
	}
	n, k := int64(st.concrete(le)), int64(st.concrete(ce))
	p := st.typed(st.alloc(k*et.Size, "[]"+et.T.String()), et)
	return Slice{p, n, k}
}

func (st *State) typeAssert(in *Instr, x *ssa.TypeAssert, v Iface) Value {
	ok := false
	isIface := types.IsInterface(x.AssertedType)
	if v.T != nil {
		if isIface {
			ok = st.prog.implements(v.T, x.AssertedType)
		} else {
			ok = v.T == in.typ
		}
	}
	if ok {
		var r Value = v
		if !isIface {
			r = st.unbox(v)
		}
		if in.comma {
			return Agg{r, sym.True}
		}
		return r
	}
	if in.comma {
		return Agg{st.prog.zero(x.AssertedType), sym.False}
	}
	d := "nil"
	if v.T != nil {
		d = v.T.T.String()
	}
	st.goPanicRuntime("interface conversion: interface is " + d + ", not " + x.AssertedType.String())
	return nil
}

func (st *State) unop(x *ssa.UnOp, in *Instr, v Value) Value {
	switch x.Op {
	case token.MUL:
		return st.load(v.(Ptr), in.typ.T)
	case token.NOT:
		return sym.BNot(v.(*sym.Expr))
	case token.SUB:
		e := v.(*sym.Expr)
		if isFloat(x.Type()) {
			return sym.Xor(e, sym.Const(1<<(e.W-1), e.W))
		}
		return sym.Neg(e)
	case token.XOR:
		return sym.Not(v.(*sym.Expr))
	}
	bail("unary %s", x.Op)
	return nil
}

func (st *State) binop(op token.Token, a, b Value, at, bt, rt types.Type) Value {
	switch op {
	case token.EQL, token.NEQ:
		// interface compared with concrete value
		if types.IsInterface(at) != types.IsInterface(bt) {
			if types.IsInterface(at) {
				b = st.mkIfaceIfConcrete(b, bt)
				bt = at
			} else {
				a = st.mkIfaceIfConcrete(a, at)
				at = bt
			}
		}
		r := st.eq(a, b, at)
		if op == token.NEQ {
			r = sym.BNot(r)
		}
		return r
	}
	if isString(at) {
		return st.stringOp(op, a.(Str), b.(Str))
	}
	pa, aok := a.(Ptr)
	pb, bok := b.(Ptr)
	if aok || bok {
		return st.addrOp(op, a, b, pa, pb, aok, bok, at, bt)
	}
	x, y := a.(*sym.Expr), b.(*sym.Expr)
	if isFloat(at) {
		return st.floatOp(op, x, y)
	}
	signed := isSigned(at)
	switch op {
	case token.ADD:
		return sym.Add(x, y)
	case token.SUB:
		return sym.Sub(x, y)
	case token.MUL:
		return sym.Mul(x, y)
	case token.QUO, token.REM:
		if !st.branch(sym.Ne(y, sym.Const(0, y.W))) {
			st.goPanicRuntime("integer divide by zero")
		}
		switch {
		case op == token.QUO && signed:
			return sym.SDiv(x, y)
		case op == token.QUO:
			return sym.UDiv(x, y)
		case signed:
			return sym.SRem(x, y)
		}
		return sym.URem(x, y)
	case token.AND:
		if x.W == 0 {
			return sym.BAnd(x, y)
		}
		return sym.And(x, y)
	case token.OR:
		if x.W == 0 {
			return sym.BOr(x, y)
		}
		return sym.Or(x, y)
	case token.XOR:
		return sym.Xor(x, y)
	case token.AND_NOT:
		return sym.And(x, sym.Not(y))
	case token.SHL, token.SHR:
		if isSigned(bt) {
			if !st.branch(sym.BNot(sym.Slt(y, sym.Const(0, y.W)))) {
				st.goPanicRuntime("negative shift amount")
			}
		}
		w := x.W
		var over *sym.Expr = sym.False
		if y.W > w {
			over = sym.BNot(sym.Ult(y, sym.Const(uint64(w), y.W)))
			y = sym.Extract(y, 0, w)
		} else if y.W < w {
			y = sym.ZExt(y, w)
		}
		if op == token.SHL {
			return sym.Ite(over, sym.Const(0, w), sym.Shl(x, y))
		}
		if signed {
			return sym.Ite(over, sym.AShr(x, sym.Const(uint64(w-1), w)), sym.AShr(x, y))
		}
		return sym.Ite(over, sym.Const(0, w), sym.LShr(x, y))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		lt, le := sym.Ult, sym.Ule
		if signed {
			lt, le = sym.Slt, sym.Sle
		}
		switch op {
		case token.LSS:
			return lt(x, y)
		case token.LEQ:
			return le(x, y)
		case token.GTR:
			return lt(y, x)
		}
		return le(y, x)
	}
	bail("binary %s", op)
	return nil
}

func (st *State) mkIfaceIfConcrete(v Value, t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return Iface{}
	}
	return st.mkInterface(st.prog.Type(t), v)
}

func (st *State) addrOp(op token.Token, a, b Value, pa, pb Ptr, aok, bok bool, at, bt types.Type) Value {
	switch op {
	case token.ADD:
		if aok && !bok {
			return Ptr{pa.Obj, pa.Off + int64(st.concrete(b.(*sym.Expr)))}
		}
		if bok && !aok {
			return Ptr{pb.Obj, pb.Off + int64(st.concrete(a.(*sym.Expr)))}
		}
	case token.SUB:
		if aok && bok && pa.Obj == pb.Obj {
			return sym.Const(uint64(pa.Off-pb.Off), 64)
		}
		if aok && !bok {
			return Ptr{pa.Obj, pa.Off - int64(st.concrete(b.(*sym.Expr)))}
		}
	case token.XOR, token.OR:
		if aok && !bok && b.(*sym.Expr).IsConst() && b.(*sym.Expr).K == 0 {
			return a
		}
	}
	cv := func(v Value) *sym.Expr {
		if p, ok := v.(Ptr); ok {
			return sym.Const(ptrAddr(p), 64)
		}
		return v.(*sym.Expr)
	}
	return st.binop(op, cv(a), cv(b), at, bt, at)
}

func (st *State) stringOp(op token.Token, a, b Str) Value {
	switch op {
	case token.ADD:
		if a.Len == 0 {
			return b
		}
		if b.Len == 0 {
			return a
		}
		return st.newString(append(st.bytesOf(a.P, a.Len), st.bytesOf(b.P, b.Len)...))
	}
	// three-way comparison
	x, y := st.bytesOf(a.P, a.Len), st.bytesOf(b.P, b.Len)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	lt := sym.Bool(len(x) < len(y))
	eq := sym.Bool(len(x) == len(y))
	for i := n - 1; i >= 0; i-- {
		e := sym.Eq(x[i], y[i])
		lt = sym.BOr(sym.Ult(x[i], y[i]), sym.BAnd(e, lt))
		eq = sym.BAnd(e, eq)
	}
	switch op {
	case token.LSS:
		return lt
	case token.LEQ:
		return sym.BOr(lt, eq)
	case token.GTR:
		return sym.BNot(sym.BOr(lt, eq))
	case token.GEQ:
		return sym.BNot(lt)
	}
	bail("string %s", op)
	return nil
}

func f64(e *sym.Expr) float64 {
	if e.W == 32 {
		return float64(math.Float32frombits(uint32(e.K)))
	}
	return math.Float64frombits(e.K)
}

func (st *State) floatOp(op token.Token, x, y *sym.Expr) Value {
	switch op {
	case token.LSS:
		return floatLt(x, y)
	case token.GTR:
		return floatLt(y, x)
	case token.LEQ:
		return sym.BOr(floatLt(x, y), floatEq(x, y))
	case token.GEQ:
		return sym.BOr(floatLt(y, x), floatEq(x, y))
	}
	if !x.IsConst() || !y.IsConst() {
		bail("symbolic floating point %s", op)
	}
	if x.W == 32 {
		a, b := math.Float32frombits(uint32(x.K)), math.Float32frombits(uint32(y.K))
		var r float32
		switch op {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.QUO:
			r = a / b
		}
		return sym.Const(uint64(math.Float32bits(r)), 32)
	}
	a, b := f64(x), f64(y)
	var r float64
	switch op {
	case token.ADD:
		r = a + b
	case token.SUB:
		r = a - b
	case token.MUL:
		r = a * b
	case token.QUO:
		r = a / b
	}
	return sym.Const(math.Float64bits(r), 64)
}

// widen converts float32 bits to float64 bits.
func widen(x *sym.Expr) *sym.Expr {
	sign := sym.Extract(x, 31, 1)
	exp := sym.Extract(x, 23, 8)
	man := sym.Extract(x, 0, 23)
	z29 := sym.Const(0, 29)
	e11 := sym.Add(sym.ZExt(exp, 11), sym.Const(1023-127, 11))
	normal := sym.Concat(sign, sym.Concat(e11, sym.Concat(man, z29)))
	// NaNs are made quiet by the conversion instruction
	quiet := sym.Or(man, sym.Ite(sym.Eq(man, sym.Const(0, 23)), sym.Const(0, 23), sym.Const(1<<22, 23)))
	special := sym.Concat(sign, sym.Concat(sym.Const(0x7ff, 11), sym.Concat(quiet, z29)))
	sub := sym.Concat(sign, sym.Const(0, 63))
	for i := 0; i < 23; i++ { // highest set bit i: value 2^(i-149) * 1.xxx
		e := sym.Const(uint64(i-149+1023), 11)
		frac := sym.Shl(sym.ZExt(man, 52), sym.Const(uint64(52-i), 52))
		v := sym.Concat(sign, sym.Concat(e, frac))
		sub = sym.Ite(sym.Eq(sym.Extract(man, uint8(i), 1), sym.Const(1, 1)), v, sub)
	}
	return sym.Ite(sym.Eq(exp, sym.Const(255, 8)), special, sym.Ite(sym.Eq(exp, sym.Const(0, 8)), sub, normal))
}

func (st *State) convert(v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if isString(to) {
		switch f := fu.(type) {
		case *types.Slice:
			s := v.(Slice)
			if e := f.Elem().Underlying().(*types.Basic); e.Kind() == types.Uint8 {
				return st.newString(st.bytesOf(s.P, s.Len))
			}
			var out []byte
			for i := int64(0); i < s.Len; i++ {
				r := st.concreteInt(st.loadInt(Ptr{s.P.Obj, s.P.Off + 4*i}, 4))
				out = utf8.AppendRune(out, rune(r))
			}
			return st.concString(string(out))
		case *types.Basic:
			if f.Info()&types.IsString != 0 {
				return v
			}
			r := st.concreteInt(v)
			if r < 0 || r > utf8.MaxRune {
				r = utf8.RuneError
			}
			return st.concString(string(rune(r)))
		}
	}
	if ts, ok := tu.(*types.Slice); ok && isString(from) {
		s := v.(Str)
		if ts.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
			b := st.bytesOf(s.P, s.Len)
			cp := roundupsize(int64(len(b)), true)
			p := st.typed(st.alloc(cp, "[]byte(string)"), st.prog.byteType())
			o := st.obj(p.Obj)
			for i, e := range b {
				o.cells[i] = Cell{e, 0, 1}
			}
			return Slice{p, int64(len(b)), cp}
		}
		rs := []rune(st.mustString(v))
		p := st.alloc(int64(4*len(rs)), "[]rune")
		for i, r := range rs {
			st.storeInt(Ptr{p.Obj, int64(4 * i)}, 4, sym.Const(uint64(uint32(r)), 32))
		}
		return Slice{p, int64(len(rs)), int64(len(rs))}
	}
	fb, _ := fu.(*types.Basic)
	tb, _ := tu.(*types.Basic)
	// pointers, unsafe.Pointer and uintptr
	_, fp := fu.(*types.Pointer)
	_, tp := tu.(*types.Pointer)
	if fp || tp || fb != nil && fb.Kind() == types.UnsafePointer || tb != nil && tb.Kind() == types.UnsafePointer {
		if tb != nil && tb.Kind() == types.Uintptr {
			return v
		}
		if e, ok := v.(*sym.Expr); ok {
			return st.intToPtr(e)
		}
		return v
	}
	if fb == nil || tb == nil {
		return v
	}
	if p, ok := v.(Ptr); ok { // uintptr with provenance
		if tb.Kind() == types.Uintptr {
			return v
		}
		v = sym.Const(ptrAddr(p), 64)
	}
	e := v.(*sym.Expr)
	ff, tf := isFloat(from), isFloat(to)
	switch {
	case ff && tf:
		fw, tw := st.prog.width(from), st.prog.width(to)
		if fw == tw {
			return e
		}
		if fw == 32 {
			return widen(e)
		}
		if e.IsConst() {
			return sym.Const(uint64(math.Float32bits(float32(math.Float64frombits(e.K)))), 32)
		}
		bail("symbolic float64 to float32 conversion")
	case ff:
		if !e.IsConst() {
			bail("symbolic float to integer conversion")
		}
		x := f64(e)
		if isSigned(to) {
			return sym.Const(uint64(int64(x)), st.prog.width(to))
		}
		return sym.Const(uint64(x), st.prog.width(to))
	case tf:
		if !e.IsConst() {
			bail("symbolic integer to float conversion")
		}
		var x float64
		if isSigned(from) {
			x = float64(e.SVal())
			if st.prog.width(to) == 32 {
				return sym.Const(uint64(math.Float32bits(float32(e.SVal()))), 32)
			}
		} else {
			x = float64(e.K)
			if st.prog.width(to) == 32 {
				return sym.Const(uint64(math.Float32bits(float32(e.K))), 32)
			}
		}
		return sym.Const(math.Float64bits(x), 64)
	}
	tw := st.prog.width(to)
	if tw == 0 || e.W == 0 {
		return e
	}
	switch {
	case tw == e.W:
		return e
	case tw < e.W:
		return sym.Extract(e, 0, tw)
	case isSigned(from):
		return sym.SExt(e, tw)
	}
	return sym.ZExt(e, tw)
}

// concString makes a fresh string with known contents.
func (st *State) concString(s string) Str { return st.prog.strConst(s) }

func (st *State) lookup(x *ssa.Lookup, base, key Value) Value {
	if s, ok := base.(Str); ok {
		i := st.indexRange(key, x.Index.Type(), s.Len)
		return st.loadByte(Ptr{s.P.Obj, s.P.Off + i})
	}
	m := base.(Ptr)
	mt := x.X.Type().Underlying().(*types.Map)
	i := st.mapFind(m, mt, key)
	var v Value
	if i < 0 {
		v = st.prog.zero(mt.Elem())
	} else {
		v = st.load(Ptr{st.obj(m.Obj).entries[i].val, 0}, mt.Elem())
	}
	if x.CommaOk {
		return Agg{v, sym.Bool(i >= 0)}
	}
	return v
}
