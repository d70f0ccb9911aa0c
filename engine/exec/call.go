package exec

import (
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"

	"verif/engine/sym"
)

// callCtx is what an intrinsic sees of its call.
type callCtx struct {
	fn      *Fn
	args    []Value
	argT    []types.Type
	sig     *types.Signature
	dst     int
	pushed  bool // the intrinsic pushed a frame that delivers the result
	isDefer bool
}

func (st *State) callInstr(f *Frame, in *Instr, fnv Value, args []Value) {
	n := len(st.th().frames)
	cur := st.cur
	v, pushed := st.call(in.call, fnv, args, in.dst)
	if st.cur != cur { // switched to another thread: this call is executed later
		return
	}
	if pushed || len(st.th().frames) > n {
		st.ichoice = nil
		st.inext = 0
		st.th().go_ = false
		return
	}
	if in.dst >= 0 {
		f.regs[in.dst] = v
	}
	st.advance(f)
}

func (st *State) call(ci *callInfo, fnv Value, args []Value, dst int) (Value, bool) {
	if ci.builtin != "" {
		return st.builtin(ci, args), false
	}
	if ci.static != nil {
		return st.invokeFn(ci.static, args, nil, dst, ci)
	}
	if ci.invoke != nil {
		recv := fnv.(Iface)
		if recv.T == nil {
			st.goPanicRuntime("invalid memory address or nil pointer dereference")
		}
		if h := typeMethod(recv.T, ci.invoke); h != nil {
			c := &callCtx{args: append([]Value{recv}, args...), sig: ci.sig, dst: dst}
			v := h(st, c)
			return v, c.pushed
		}
		m := st.prog.method(recv.T, ci.invoke)
		if m == nil {
			bail("no method %s on %s", ci.invoke.Name(), recv.T.T)
		}
		all := make([]Value, 0, len(args)+1)
		all = append(all, st.unbox(recv))
		all = append(all, args...)
		return st.invokeFn(st.prog.fn(m), all, nil, dst, ci)
	}
	return st.callFuncValue(fnv.(Ptr), args, dst, ci)
}

func (st *State) callFuncValue(p Ptr, args []Value, dst int, ci *callInfo) (Value, bool) {
	if p.IsNil() {
		st.goPanicRuntime("invalid memory address or nil pointer dereference")
	}
	o := st.obj(p.Obj)
	if o != nil {
		o.alive()
	}
	if o == nil || o.kind != kFunc || p.Off != 0 {
		panic(violation{"call through a corrupt function value"})
	}
	return st.invokeFn(o.fn, args, o.free, dst, ci)
}

func (st *State) invokeFn(fn *Fn, args []Value, free []Value, dst int, ci *callInfo) (Value, bool) {
	if fn.intr != nil {
		for _, a := range args {
			force(a)
		}
		if fn.visible && st.multi && st.inInit == 0 {
			th := st.th()
			if !th.go_ {
				st.schedule(th)
				if st.th() != th {
					return nil, true
				}
			}
		}
		c := &callCtx{fn: fn, args: args, sig: fn.F.Signature, dst: dst}
		if ci != nil {
			c.argT = ci.argT
		}
		v := fn.intr(st, c)
		return v, c.pushed
	}
	if st.inInit > 0 && fn.F.Synthetic == "package initializer" {
		return nil, false // packages are initialised on demand
	}
	st.push(fn, args, free, dst)
	return nil, true
}

// callback pushes a call of a function value made by an intrinsic.
func (st *State) callback(c *callCtx, p Ptr, args []Value, dst int) {
	if p.IsNil() {
		st.goPanicRuntime("invalid memory address or nil pointer dereference")
	}
	o := st.obj(p.Obj)
	if o.fn.intr != nil {
		bail("callback to an intrinsic")
	}
	st.push(o.fn, args, o.free, dst)
	c.pushed = true
}

// ---- threads ----

func (st *State) spawn(ci *callInfo, fnv Value, args []Value) {
	if ci.builtin != "" {
		bail("go statement with a builtin")
	}
	st.spawnThread(func() { st.call(ci, fnv, args, -1) })
}

func (st *State) spawnThread(start func()) int {
	if len(st.threads) >= maxThreads {
		bail("more than %d threads", maxThreads)
	}
	id := len(st.threads)
	t := &thread{}
	par := st.th()
	t.vc = par.vc
	t.vc[id] = 1
	par.vc[st.cur]++
	st.threads = append(st.threads, t)
	st.multi = true
	old := st.cur
	st.cur = id
	start()
	st.cur = old
	if len(t.frames) == 0 {
		t.done = true
	}
	return id
}

func (st *State) runnable() []int {
	var r []int
	if t := st.threads[st.cur]; !t.done && !t.block {
		r = append(r, st.cur)
	}
	for i, t := range st.threads {
		if i != st.cur && !t.done && !t.block {
			r = append(r, i)
		}
	}
	return r
}

// schedule picks the thread that runs next; the current one is about to
// perform a visible operation (or was just blocked or finished).
func (st *State) schedule(th *thread) {
	r := st.runnable()
	if len(r) == 0 {
		panic(violation{"deadlock"})
	}
	curOK := r[0] == st.cur && !th.done && !th.block
	if curOK && st.preempt >= st.w.cfg.Preempt {
		r = r[:1]
	}
	i := st.choose(len(r))
	st.ichoice = nil
	st.inext = 0
	if curOK && i > 0 {
		st.preempt++
	}
	st.cur = r[i]
	st.sched = append(st.sched, int8(r[i]))
	st.threads[st.cur].go_ = true
}

// block parks the current thread until wake; the operation is retried then.
func (st *State) block() {
	th := st.th()
	th.block = true
	th.go_ = false
	panic(blockThread{})
}

func (st *State) wake() {
	for _, t := range st.threads {
		t.block = false
	}
}

type vclock [maxThreads]uint32

func (st *State) acquire(c vclock) {
	th := st.th()
	for i := range c {
		if c[i] > th.vc[i] {
			th.vc[i] = c[i]
		}
	}
}

func (st *State) release(c vclock) vclock {
	th := st.th()
	for i := range c {
		if th.vc[i] > c[i] {
			c[i] = th.vc[i]
		}
	}
	th.vc[st.cur]++
	return c
}

// ---- maps ----

func (st *State) makeMap(mt *TypeInfo) Ptr {
	return Ptr{st.newObj(&Object{kind: kMap, mt: mt, what: mt.T.String()}), 0}
}

// reserve accounts for a map made with room for n entries.
func (st *State) reserve(mt *TypeInfo, n *sym.Expr) {
	if st.limit <= 0 {
		return
	}
	m := mt.T.Underlying().(*types.Map)
	size := st.prog.Type(m.Key()).Size + st.prog.Type(m.Elem()).Size + 1
	st.charge(64)
	if st.branch(sym.Slt(n, sym.Const(1, 64))) || !st.branch(sym.Ule(n, sym.Const(uint64(1<<47)/uint64(size), 64))) {
		return // the runtime ignores such numbers
	}
	st.fits(n, size)
	st.charge(int64(st.concrete(n)) * size)
}

func (st *State) mapObj(m Ptr) *Object {
	o := st.obj(m.Obj)
	if o != nil {
		o.alive()
	}
	if o == nil || o.kind != kMap || m.Off != 0 {
		panic(violation{"memory used as a map is not a map"})
	}
	return o
}

func (st *State) mapRace(m Ptr, write bool) {
	if st.multi && st.inInit == 0 && m.Obj > 0 {
		st.race(Ptr{m.Obj, 0}, 1, write)
	}
}

// mapFind returns the entry index of key, or -1.
func (st *State) mapFind(m Ptr, mt *types.Map, key Value) int {
	if types.IsInterface(mt.Key()) {
		if f := key.(Iface); f.T != nil && !types.Comparable(f.T.T) {
			st.goPanicRuntime("hash of unhashable type " + f.T.T.String())
		}
	}
	if m.IsNil() {
		return -1
	}
	o := st.mapObj(m)
	st.mapRace(m, false)
	for i, e := range o.entries {
		k := st.load(Ptr{e.key, 0}, mt.Key())
		if st.branch(st.eq(k, key, mt.Key())) {
			return i
		}
	}
	return -1
}

// mapSlot returns the address of the value slot for key, adding an entry if needed.
func (st *State) mapSlot(m Ptr, mt *types.Map, key Value) Ptr {
	if m.IsNil() {
		st.goPanicRuntime("assignment to entry in nil map")
	}
	i := st.mapFind(m, mt, key)
	st.mapRace(m, true)
	o := st.wobj(m.Obj)
	kt, vt := st.prog.Type(mt.Key()), st.prog.Type(mt.Elem())
	if i >= 0 {
		if isString(mt.Key()) || isFloat(mt.Key()) || types.IsInterface(mt.Key()) {
			w := st.obj(o.entries[i].key)
			ro := w.ro
			if ro {
				st.wobj(o.entries[i].key).ro = false
			}
			st.store(Ptr{o.entries[i].key, 0}, mt.Key(), key)
		}
		return Ptr{o.entries[i].val, 0}
	}
	k := st.typed(st.alloc(kt.Size, "map key"), kt)
	v := st.typed(st.alloc(vt.Size, "map value"), vt)
	st.store(k, mt.Key(), key)
	o.entries = append(o.entries, mapEntry{k.Obj, v.Obj})
	return v
}

func (st *State) mapUpdate(m Ptr, mt *types.Map, k, v Value) {
	p := st.mapSlot(m, mt, k)
	st.store(p, mt.Elem(), v)
}

func (st *State) mapDelete(m Ptr, mt *types.Map, k Value) {
	i := st.mapFind(m, mt, k)
	if i < 0 {
		return
	}
	st.mapRace(m, true)
	o := st.wobj(m.Obj)
	o.entries = append(append([]mapEntry(nil), o.entries[:i]...), o.entries[i+1:]...)
}

type mapIter struct {
	m     Ptr
	order []mapEntry
	pos   int
}

func permutation(n, k int) []int {
	var rest []int
	for i := 0; i < n; i++ {
		rest = append(rest, i)
	}
	var out []int
	for n := len(rest); n > 0; n-- {
		f := 1
		for i := 2; i < n; i++ {
			f *= i
		}
		j := k / f % n
		k %= f
		out = append(out, rest[j])
		rest = append(rest[:j], rest[j+1:]...)
	}
	return out
}

// newMapIter snapshots the map in an arbitrary order.
func (st *State) newMapIter(m Ptr) *mapIter {
	it := &mapIter{m: m}
	if m.IsNil() {
		return it
	}
	o := st.mapObj(m)
	st.mapRace(m, false)
	n := len(o.entries)
	if n > 1 && n <= 3 && st.inInit == 0 && !st.steady && !st.w.cfg.FixedMapOrder {
		f := 1
		for i := 2; i <= n; i++ {
			f *= i
		}
		for _, j := range permutation(n, st.choose(f)) {
			it.order = append(it.order, o.entries[j])
		}
		return it
	}
	it.order = append(it.order, o.entries...)
	if n > 3 && st.inInit == 0 && !st.steady && !st.w.cfg.FixedMapOrder {
		if st.choose(2) == 1 {
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				it.order[i], it.order[j] = it.order[j], it.order[i]
			}
		}
	}
	return it
}

// next advances to the next live entry.
func (st *State) iterNext(it mapIter) (mapIter, *mapEntry) {
	for it.pos < len(it.order) {
		e := it.order[it.pos]
		it.pos++
		st.mapRace(it.m, false)
		for _, x := range st.mapObj(it.m).entries {
			if x == e {
				return it, &e
			}
		}
	}
	return it, nil
}

type strIter struct {
	s   Str
	pos int64
}

func (st *State) rangeStart(x *ssa.Range, v Value) Value {
	var side interface{}
	switch s := v.(type) {
	case Str:
		side = strIter{s, 0}
	case Ptr:
		side = *st.newMapIter(s)
	}
	return Ptr{st.newObj(&Object{kind: kChan, what: "iterator", side: map[int64]interface{}{0: side}}), 0}
}

func (st *State) rangeNext(x *ssa.Next, p Ptr) Value {
	switch it := st.obj(p.Obj).side[0].(type) {
	case strIter:
		if it.pos >= it.s.Len {
			return Agg{sym.False, sym.Const(0, 64), sym.Const(0, 32)}
		}
		b := st.loadByte(Ptr{it.s.P.Obj, it.s.P.Off + it.pos})
		pos := it.pos
		var r *sym.Expr
		if st.branch(sym.Ult(b, sym.Const(0x80, 8))) {
			r = sym.ZExt(b, 32)
			it.pos++
		} else {
			// split over the bytes of the rune
			var buf []byte
			for i := it.pos; i < it.s.Len && i < it.pos+4; i++ {
				buf = append(buf, byte(st.concrete(st.loadByte(Ptr{it.s.P.Obj, it.s.P.Off + i}))))
				if utf8.FullRune(buf) {
					break
				}
			}
			c, n := utf8.DecodeRune(buf)
			r = sym.Const(uint64(uint32(c)), 32)
			it.pos += int64(n)
		}
		st.wobj(p.Obj).side[0] = it
		return Agg{sym.True, sym.Const(uint64(pos), 64), r}
	case mapIter:
		mt := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		it, e := st.iterNext(it)
		st.wobj(p.Obj).side[0] = it
		if e == nil {
			return Agg{sym.False, st.prog.zero(mt.Key()), st.prog.zero(mt.Elem())}
		}
		return Agg{sym.True, st.load(Ptr{e.key, 0}, mt.Key()), st.load(Ptr{e.val, 0}, mt.Elem())}
	}
	bail("range")
	return nil
}

// ---- builtins ----

var sizeClasses = [...]int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int64, noscan bool) int64 {
	req := n
	if req <= 32768-8 {
		if !noscan && req > 512 {
			req += 8
		}
		for _, c := range sizeClasses {
			if c >= req {
				return c - (req - n)
			}
		}
	}
	return (req + 8191) &^ 8191
}

// growslice follows the runtime's growth policy.
func (st *State) growslice(et *TypeInfo, s Slice, newLen int64) Slice {
	if et.Size == 0 {
		return Slice{s.P, newLen, newLen}
	}
	nc := s.Cap
	if newLen > 2*s.Cap {
		nc = newLen
	} else if s.Cap < 256 {
		nc = 2 * s.Cap
	} else {
		for nc < newLen {
			nc += (nc + 768) >> 2
		}
	}
	nc = roundupsize(nc*et.Size, !et.PtrFul) / et.Size
	p := st.typed(st.alloc(nc*et.Size, "[]"+et.T.String()), et)
	st.memmove(p, s.P, s.Len*et.Size)
	return Slice{p, newLen, nc}
}

func (st *State) builtin(ci *callInfo, args []Value) Value {
	i64 := func(n int64) Value { return sym.Const(uint64(n), 64) }
	if ci.builtin != "len" && ci.builtin != "cap" {
		for _, a := range args {
			force(a)
		}
	}
	switch ci.builtin {
	case "len":
		switch v := args[0].(type) {
		case Lazy:
			return v.Len
		case Slice:
			return i64(v.Len)
		case Str:
			return i64(v.Len)
		case Ptr:
			if _, ok := ci.argT[0].Underlying().(*types.Map); ok {
				if v.IsNil() {
					return i64(0)
				}
				st.mapRace(v, false)
				return i64(int64(len(st.mapObj(v).entries)))
			}
			if p, ok := ci.argT[0].Underlying().(*types.Pointer); ok {
				return i64(p.Elem().Underlying().(*types.Array).Len())
			}
		case Agg:
			return i64(int64(len(v)))
		}
	case "cap":
		switch v := args[0].(type) {
		case Lazy:
			return v.Len
		case Slice:
			return i64(v.Cap)
		case Agg:
			return i64(int64(len(v)))
		case Ptr:
			if p, ok := ci.argT[0].Underlying().(*types.Pointer); ok {
				return i64(p.Elem().Underlying().(*types.Array).Len())
			}
		}
	case "append":
		s := args[0].(Slice)
		et := st.prog.Type(ci.argT[0].Underlying().(*types.Slice).Elem())
		var src Ptr
		var n int64
		switch v := args[1].(type) {
		case Slice:
			src, n = v.P, v.Len
		case Str:
			src, n = v.P, v.Len
		}
		if n == 0 {
			return s
		}
		nl := s.Len + n
		r := Slice{s.P, nl, s.Cap}
		if nl > s.Cap {
			r = st.growslice(et, s, nl)
		}
		st.memmove(Ptr{r.P.Obj, r.P.Off + s.Len*et.Size}, src, n*et.Size)
		return r
	case "copy":
		d := args[0].(Slice)
		et := st.prog.Type(ci.argT[0].Underlying().(*types.Slice).Elem())
		var src Ptr
		var n int64
		switch v := args[1].(type) {
		case Slice:
			src, n = v.P, v.Len
		case Str:
			src, n = v.P, v.Len
		}
		if d.Len < n {
			n = d.Len
		}
		st.memmove(d.P, src, n*et.Size)
		return i64(n)
	case "delete":
		mt := ci.argT[0].Underlying().(*types.Map)
		if !args[0].(Ptr).IsNil() {
			st.mapDelete(args[0].(Ptr), mt, args[1])
		}
		return nil
	case "clear":
		switch v := args[0].(type) {
		case Slice:
			et := st.prog.Type(ci.argT[0].Underlying().(*types.Slice).Elem())
			st.memzero(v.P, v.Len*et.Size)
		case Ptr:
			if !v.IsNil() {
				st.mapObj(v)
				st.mapRace(v, true)
				st.wobj(v.Obj).entries = nil
			}
		}
		return nil
	case "min", "max":
		r := args[0]
		t := ci.argT[0]
		for _, a := range args[1:] {
			if isFloat(t) {
				bail("floating point min/max")
			}
			if isString(t) {
				bail("string min/max")
			}
			x, y := r.(*sym.Expr), a.(*sym.Expr)
			lt := sym.Ult(x, y)
			if isSigned(t) {
				lt = sym.Slt(x, y)
			}
			if ci.builtin == "max" {
				lt = sym.BNot(lt)
			}
			r = sym.Ite(lt, x, y)
		}
		return r
	case "panic":
		panic(goPanic{args[0].(Iface)})
	case "recover":
		th := st.th()
		n := len(th.frames)
		if n >= 2 && th.frames[n-1].isDefer {
			c := th.frames[n-2]
			if c.panicV != nil {
				v := *c.panicV
				c.panicV = nil
				c.recov = true
				return v
			}
		}
		return Iface{}
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if args[0].(Ptr).IsNil() {
			st.goPanicRuntime("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		n := st.concreteInt(toInt64(args[1], ci.argT[1]))
		p := args[0].(Ptr)
		if n == 0 {
			return Str{}
		}
		return Str{p, n}
	case "StringData":
		return args[0].(Str).P
	case "Slice":
		n := st.concreteInt(toInt64(args[1], ci.argT[1]))
		p := args[0].(Ptr)
		if n < 0 || p.IsNil() && n > 0 {
			st.goPanicRuntime("unsafe.Slice: len out of range")
		}
		return Slice{p, n, n}
	case "SliceData":
		return args[0].(Slice).P
	case "Add":
		p := args[0].(Ptr)
		return Ptr{p.Obj, p.Off + st.concreteInt(toInt64(args[1], ci.argT[1]))}
	}
	bail("builtin %s", ci.builtin)
	return nil
}
