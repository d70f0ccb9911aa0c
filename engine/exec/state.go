package exec

import (
	"fmt"
	"go/types"

	"verif/engine/sym"
)

const chunkBits = 5
const chunkSize = 1 << chunkBits

type chunk struct {
	owner *epoch
	objs  [chunkSize]*Object
}

type objTab struct {
	owner  *epoch
	chunks []*chunk
}

func (t *objTab) get(i int) *Object {
	c := i >> chunkBits
	if c >= len(t.chunks) || t.chunks[c] == nil {
		return nil
	}
	return t.chunks[c].objs[i&(chunkSize-1)]
}

func (t *objTab) set(e *epoch, i int, o *Object) {
	c := i >> chunkBits
	if t.owner != e {
		t.chunks = append(make([]*chunk, 0, len(t.chunks)+4), t.chunks...)
		t.owner = e
	}
	for c >= len(t.chunks) {
		t.chunks = append(t.chunks, nil)
	}
	ch := t.chunks[c]
	if ch == nil {
		ch = &chunk{owner: e}
		t.chunks[c] = ch
	} else if ch.owner != e {
		n := *ch
		n.owner = e
		ch = &n
		t.chunks[c] = ch
	}
	ch.objs[i&(chunkSize-1)] = o
}

type fact struct {
	c       *sym.Expr
	implied bool // implied by earlier constraints: not part of the path condition
}

type deferred struct {
	fn   Value
	args []Value
	call *callInfo
}

// Frame is an activation record.
type Frame struct {
	fn       *Fn
	regs     []Value
	blk, pc  int
	prev     int
	defers   []deferred
	panicV   *Iface // unwinding with this value
	recov    bool   // a deferred call recovered
	isDefer  bool   // called by RunDefers/unwinding of the frame below
	dst      int    // register of the caller that receives the result, or -1
	running  bool   // executing RunDefers
	init     int    // package index+1 when this is a package initialiser
	onReturn func(st *State, v Value)
}

type thread struct {
	frames []*Frame
	vc     [maxThreads]uint32
	go_    bool // scheduled at its pending visible operation
	done   bool
	block  bool
	joined bool
	result Value
}

const maxThreads = 5

type nondet struct {
	v    *sym.Expr
	name string
	aux  bool // introduced by a model, no input of the harness
}

type obsRec struct {
	name string
	e    *sym.Expr
}

// State is one symbolic path.
type State struct {
	w       *worker
	prog    *Program
	ep      *epoch
	heap    objTab
	nheap   int
	globs   objTab
	inited  []bool
	threads []*thread
	cur     int
	preempt int
	multi   bool
	sched   []int8

	facts   []fact
	model   sym.Model
	fixed   map[*sym.Expr]uint64
	nondet  []nondet
	obs     []obsRec
	reach   map[string]bool
	choices []int // all environment choices made, in order

	ichoice    []int // choices already made by the instruction being executed
	inext      int
	steps      int64
	maxSteps   int64
	inInit     int // depth of package initialisers
	nforks     int
	mapPerm    bool
	depth      int
	ignoreRace bool
	maxDepth   int  // of the call stack, if not 0
	steady     bool // maps are iterated in the order of insertion
	stress     bool // collect garbage after every allocation
	collected  int
	limit      int64 // what may be allocated, if positive
	allocated  int64
}

func (st *State) clone() *State {
	n := *st
	n.ep = new(epoch)
	st.ep = new(epoch)
	n.inited = append([]bool(nil), st.inited...)
	n.threads = make([]*thread, len(st.threads))
	for i, t := range st.threads {
		nt := *t
		nt.frames = make([]*Frame, len(t.frames))
		for j, f := range t.frames {
			nf := *f
			nf.regs = append([]Value(nil), f.regs...)
			nf.defers = f.defers[:len(f.defers):len(f.defers)]
			nt.frames[j] = &nf
		}
		n.threads[i] = &nt
	}
	n.facts = st.facts[:len(st.facts):len(st.facts)]
	n.model = append(sym.Model(nil), st.model...)
	n.fixed = make(map[*sym.Expr]uint64, len(st.fixed))
	for k, v := range st.fixed {
		n.fixed[k] = v
	}
	n.nondet = st.nondet[:len(st.nondet):len(st.nondet)]
	n.obs = st.obs[:len(st.obs):len(st.obs)]
	n.sched = st.sched[:len(st.sched):len(st.sched)]
	n.choices = st.choices[:len(st.choices):len(st.choices)]
	n.ichoice = st.ichoice[:len(st.ichoice):len(st.ichoice)]
	n.reach = make(map[string]bool, len(st.reach))
	for k := range st.reach {
		n.reach[k] = true
	}
	st.facts = st.facts[:len(st.facts):len(st.facts)]
	st.nondet = st.nondet[:len(st.nondet):len(st.nondet)]
	st.obs = st.obs[:len(st.obs):len(st.obs)]
	for _, t := range st.threads {
		for _, f := range t.frames {
			f.defers = f.defers[:len(f.defers):len(f.defers)]
		}
	}
	return &n
}

// ---- path condition ----

func (st *State) decided(c *sym.Expr) (bool, bool) {
	nc := sym.BNot(c)
	for i := len(st.facts) - 1; i >= 0; i-- {
		switch st.facts[i].c {
		case c:
			return true, true
		case nc:
			return false, true
		}
	}
	return false, false
}

// slice returns the constraints that share variables, transitively, with c.
func (st *State) slice(c *sym.Expr) []*sym.Expr {
	out := []*sym.Expr{c}
	var in [1024]bool
	mark := func(e *sym.Expr) {
		for _, v := range e.Sup {
			in[v] = true
		}
	}
	mark(c)
	taken := make([]bool, len(st.facts))
	for changed := true; changed; {
		changed = false
		for i, f := range st.facts {
			if f.implied || taken[i] {
				continue
			}
			hit := false
			for _, v := range f.c.Sup {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				taken[i] = true
				mark(f.c)
				out = append(out, f.c)
				changed = true
			}
		}
	}
	return out
}

// feasible asks the solver whether c can hold on this path; the model of the
// path extended accordingly is returned.
func (st *State) feasible(c *sym.Expr) (sym.Model, bool) {
	r := st.w.solver.Check(st.slice(c))
	if !r.sat {
		return nil, false
	}
	m := append(sym.Model(nil), st.model...)
	for _, a := range r.vals {
		m = setModel(m, a.idx, a.val)
	}
	return m, true
}

func (st *State) subst(c *sym.Expr) *sym.Expr {
	if len(st.fixed) == 0 || c.IsConst() {
		return c
	}
	if v, ok := st.fixed[c]; ok {
		if c.W == 0 {
			return sym.Bool(v != 0)
		}
		return sym.Const(v, c.W)
	}
	return c
}

// branch decides a condition, forking the state when both outcomes are possible.
// Handlers must not have changed the state before calling it.
func (st *State) branch(c *sym.Expr) bool {
	if c.IsConst() {
		return c.K != 0
	}
	if v, ok := st.decided(c); ok {
		return v
	}
	mv := sym.EvalBool(c, st.model)
	side, other := c, sym.BNot(c)
	if !mv {
		side, other = other, side
	}
	m2, ok := st.feasible(other)
	if !ok {
		st.facts = append(st.facts, fact{side, true})
		return mv
	}
	if forkProfile {
		noteFork(st)
	}
	alt := st.clone()
	alt.facts = append(alt.facts, fact{other, false})
	alt.model = m2
	alt.inext = 0
	alt.nforks++
	st.nforks++
	st.w.push(alt)
	st.facts = append(st.facts, fact{side, false})
	return mv
}

// must reports whether c holds on the whole path (no fork).
func (st *State) must(c *sym.Expr) (bool, sym.Model) {
	if c.IsConst() {
		return c.K != 0, st.model
	}
	if v, ok := st.decided(c); ok {
		return v, st.model
	}
	if !sym.EvalBool(c, st.model) {
		return false, st.model
	}
	m, ok := st.feasible(sym.BNot(c))
	if !ok {
		st.facts = append(st.facts, fact{c, true})
		return true, nil
	}
	return false, m
}

// assume restricts the path to c, or ends it.
func (st *State) assume(c *sym.Expr) {
	if c.IsConst() {
		if c.K == 0 {
			panic(killPath{})
		}
		return
	}
	if v, ok := st.decided(c); ok {
		if !v {
			panic(killPath{})
		}
		return
	}
	if !sym.EvalBool(c, st.model) {
		m, ok := st.feasible(c)
		if !ok {
			panic(killPath{})
		}
		st.model = m
	}
	st.facts = append(st.facts, fact{c, false})
}

// concrete splits the path over the values e can take.
func (st *State) concrete(e *sym.Expr) uint64 {
	if e.IsConst() {
		return e.K
	}
	if v, ok := st.fixed[e]; ok {
		return v
	}
	if e.W == 0 {
		if st.branch(e) {
			return 1
		}
		return 0
	}
	for n := 0; ; n++ {
		v := sym.Eval(e, st.model)
		if n > 4096 {
			bail("more than 4096 values for %s", e)
		}
		if st.branch(sym.Eq(e, sym.Const(v, e.W))) {
			st.fixed[e] = v
			return v
		}
	}
}

func (st *State) concreteInt(v Value) int64 {
	e, ok := v.(*sym.Expr)
	if !ok {
		bail("integer expected, got %T", v)
	}
	x := st.concrete(e)
	return sym.Const(x, e.W).SVal()
}

// choose forks over n environment choices.
func (st *State) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if st.inext < len(st.ichoice) {
		c := st.ichoice[st.inext]
		st.inext++
		return c
	}
	for i := n - 1; i >= 1; i-- {
		alt := st.clone()
		alt.ichoice = append(alt.ichoice, i)
		alt.choices = append(alt.choices, i)
		alt.inext = 0
		alt.nforks++
		st.w.push(alt)
	}
	st.ichoice = append(st.ichoice, 0)
	st.choices = append(st.choices, 0)
	st.inext++
	return 0
}

func (st *State) newVar(w uint8, name string) *sym.Expr {
	i := len(st.nondet)
	if i >= 1000 {
		bail("too many symbolic variables")
	}
	v := sym.Var(i, w)
	st.nondet = append(st.nondet, nondet{v: v, name: name})
	for len(st.model) <= i {
		st.model = append(st.model, 0)
	}
	return v
}

// ---- memory ----

func (st *State) obj(id int32) *Object {
	switch {
	case id < 0:
		return st.prog.static.get(id)
	case id&globalBit != 0:
		i := int(id &^ globalBit)
		o := st.globs.get(i)
		if o == nil {
			g := (*st.prog.gvals.Load())[i]
			t := st.prog.Type(g.Type().(*types.Pointer).Elem())
			o = &Object{owner: st.ep, kind: kMem, size: t.Size, cells: make([]Cell, t.Size), what: "global " + g.String(), lay: t}
			st.globs.set(st.ep, i, o)
		}
		return o
	}
	return st.heap.get(int(id))
}

// wobj returns the object for modification.
func (st *State) wobj(id int32) *Object {
	o := st.obj(id)
	if id < 0 {
		panic(violation{"write to read-only memory (" + o.what + ")"})
	}
	if o.owner != st.ep {
		n := *o
		n.owner = st.ep
		n.cells = append([]Cell(nil), o.cells...)
		n.entries = append([]mapEntry(nil), o.entries...)
		n.acc = append([]access(nil), o.acc...)
		if o.side != nil {
			n.side = make(map[int64]interface{}, len(o.side))
			for k, v := range o.side {
				n.side[k] = v
			}
		}
		o = &n
		if id&globalBit != 0 {
			st.globs.set(st.ep, int(id&^globalBit), o)
		} else {
			st.heap.set(st.ep, int(id), o)
		}
	}
	return o
}

func (st *State) newObj(o *Object) int32 {
	st.nheap++
	o.owner = st.ep
	st.heap.set(st.ep, st.nheap, o)
	return int32(st.nheap)
}

const maxAlloc = 1 << 24

func (st *State) alloc(size int64, what string) Ptr {
	if size > maxAlloc || size < 0 {
		panic(violation{fmt.Sprintf("allocation of %d bytes", size)})
	}
	if st.limit > 0 {
		st.charge(size)
	}
	return Ptr{st.newObj(&Object{kind: kMem, size: size, cells: make([]Cell, size), what: what}), 0}
}

const tooMuch = "more memory is allocated than the limit of "

func (st *State) charge(size int64) {
	st.allocated += (size + 15) &^ 15
	if st.allocated > st.limit {
		panic(violation{fmt.Sprint(tooMuch, st.limit, " bytes")})
	}
}

// fits decides whether there is room for n times size bytes, before n is
// known.
func (st *State) fits(n *sym.Expr, size int64) {
	if st.limit > 0 && size > 0 && !st.branch(sym.Ule(n, sym.Const(uint64((st.limit-st.allocated)/size), 64))) {
		panic(violation{fmt.Sprint(tooMuch, st.limit, " bytes")})
	}
}

// nilDeref is raised for nil and wild pointers.
func (st *State) nilDeref(p Ptr) {
	if p.Obj == 0 && p.Off >= 0 && p.Off < 4096 {
		st.goPanicRuntime("invalid memory address or nil pointer dereference")
	}
	panic(violation{"access through wild pointer"})
}

// access checks an n-byte access at p and returns the object.
func (st *State) access(p Ptr, n int64, write bool) *Object {
	if p.Obj == 0 {
		st.nilDeref(p)
	}
	o := st.obj(p.Obj)
	if o == nil {
		panic(violation{"access through wild pointer"})
	}
	if n == 0 {
		return o
	}
	o.alive()
	if o.kind != kMem {
		panic(violation{fmt.Sprintf("raw memory access to %s at offset %d", o.what, p.Off)})
	}
	if p.Off < 0 || p.Off+n > o.size {
		panic(violation{fmt.Sprintf("out of bounds access: offset %d size %d in %s of %d bytes", p.Off, n, o.what, o.size)})
	}
	if o.guardd && p.Off+n > o.guard {
		panic(violation{fmt.Sprintf("access beyond the end of %s", o.what)})
	}
	if write && o.ro {
		panic(violation{"write to read-only memory (" + o.what + ")"})
	}
	if st.multi && st.inInit == 0 && p.Obj > 0 {
		st.race(p, n, write)
		o = st.obj(p.Obj)
	}
	if write {
		o = st.wobj(p.Obj)
	}
	return o
}

func (st *State) race(p Ptr, n int64, write bool) {
	o := st.obj(p.Obj)
	th := st.threads[st.cur]
	found := -1
	for i := range o.acc {
		a := &o.acc[i]
		if a.off+a.n <= p.Off || p.Off+n <= a.off {
			continue
		}
		if int(a.thr) == st.cur {
			if a.off == p.Off && a.n == n && a.write == write {
				found = i
			}
			continue
		}
		if !(a.write || write) {
			continue
		}
		if a.at > th.vc[a.thr] && !st.ignoreRace {
			panic(violation{fmt.Sprintf("data race on %s offset %d", o.what, p.Off)})
		}
	}
	at := th.vc[st.cur]
	if found >= 0 && o.acc[found].at == at {
		return
	}
	o = st.wobj(p.Obj)
	if found >= 0 {
		o.acc[found].at = at
		return
	}
	o.acc = append(o.acc, access{p.Off, n, int8(st.cur), write, at})
}

func byteOf(c Cell) *sym.Expr {
	switch v := c.V.(type) {
	case nil:
		return sym.Const(0, 8)
	case *sym.Expr:
		if c.N == 1 {
			return v
		}
		return sym.Extract(v, c.I*8, 8)
	}
	return nil
}

func (st *State) loadInt(p Ptr, n int64) Value {
	o := st.access(p, n, false)
	cs := o.cells[p.Off : p.Off+n]
	c := cs[0]
	if n == 1 {
		if b := byteOf(c); b != nil {
			return st.subst(b)
		}
		panic(violation{"part of a pointer read as an integer in " + o.what})
	}
	if c.V != nil && c.I == 0 && int64(c.N) == n {
		ok := true
		for i := 1; i < len(cs); i++ {
			if cs[i].I != uint8(i) || cs[i].N != c.N || cs[i].V != c.V {
				ok = false
				break
			}
		}
		if ok {
			return c.V
		}
	}
	e := byteOf(c)
	for i := 1; i < len(cs) && e != nil; i++ {
		b := byteOf(cs[i])
		if b == nil {
			e = nil
			break
		}
		e = sym.Concat(b, e)
	}
	if e == nil {
		panic(violation{"part of a pointer read as an integer in " + o.what})
	}
	return e
}

func (st *State) storeInt(p Ptr, n int64, v Value) {
	o := st.access(p, n, true)
	for i := int64(0); i < n; i++ {
		o.cells[p.Off+i] = Cell{v, uint8(i), uint8(n)}
	}
}

// loadPtr loads a pointer-sized word that must be a pointer.
func (st *State) loadPtr(p Ptr) Ptr {
	v := st.loadInt(p, 8)
	switch x := v.(type) {
	case Ptr:
		return x
	case *sym.Expr:
		return st.intToPtr(x)
	}
	panic("loadPtr")
}

func (st *State) intToPtr(x *sym.Expr) Ptr {
	if !x.IsConst() {
		panic(violation{"integer data used as a pointer"})
	}
	return st.addrToPtr(x.K)
}

// Addresses exist only for code that looks at them: object ids are spread
// over an imaginary address space.
const addrBase = 0xc000000000

func ptrAddr(p Ptr) uint64 {
	if p.Obj == 0 {
		return uint64(p.Off)
	}
	return addrBase + uint64(uint32(p.Obj))<<32 + uint64(p.Off)
}

func (st *State) addrToPtr(a uint64) Ptr {
	if a < addrBase {
		return Ptr{0, int64(a)}
	}
	a -= addrBase
	id, off := int32(a>>32), int64(a&0xffffffff)
	if id < 0 || id&globalBit != 0 || int(id) <= st.nheap {
		return Ptr{id, off}
	}
	panic(violation{"integer data used as a pointer"})
}

// word loads the pointer-or-integer word of an interface.
func (st *State) load(p Ptr, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			st.access(p, 16, false)
			d := st.loadPtr(p)
			e := st.loadIntExpr(Ptr{p.Obj, p.Off + 8})
			if st.isLong(d, e) {
				return Lazy{d, e}
			}
			return Str{d, st.concreteInt(e)}
		case u.Kind() == types.UnsafePointer:
			return st.loadPtr(p)
		case u.Info()&types.IsBoolean != 0:
			b := st.loadInt(p, 1).(*sym.Expr)
			return sym.Ne(b, sym.Const(0, 8))
		case u.Kind() == types.Uintptr:
			return st.loadInt(p, 8)
		}
		n := int64(st.prog.width(t)) / 8
		v := st.loadInt(p, n)
		if _, ok := v.(Ptr); ok {
			panic(violation{"a pointer read as an integer in " + st.obj(p.Obj).what})
		}
		return st.subst(v.(*sym.Expr))
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return st.loadPtr(p)
	case *types.Slice:
		st.access(p, 24, false)
		d := st.loadPtr(p)
		e := st.loadIntExpr(Ptr{p.Obj, p.Off + 8})
		if st.isLong(d, e) {
			return Lazy{d, e}
		}
		n := st.concreteInt(e)
		c := st.concreteInt(st.loadIntExpr(Ptr{p.Obj, p.Off + 16}))
		return Slice{d, n, c}
	case *types.Interface:
		st.access(p, 16, false)
		tw := st.loadPtr(p)
		dw := st.loadInt(Ptr{p.Obj, p.Off + 8}, 8)
		return st.mkIface(tw, dw)
	case *types.Struct:
		ti := st.prog.Type(t)
		st.access(p, ti.Size, false)
		a := make(Agg, len(ti.fields))
		for i, f := range ti.fields {
			a[i] = st.load(Ptr{p.Obj, p.Off + ti.offs[i]}, f.Type())
		}
		return a
	case *types.Array:
		es := st.prog.Type(u.Elem()).Size
		st.access(p, es*u.Len(), false)
		a := make(Agg, u.Len())
		for i := range a {
			a[i] = st.load(Ptr{p.Obj, p.Off + int64(i)*es}, u.Elem())
		}
		return a
	}
	bail("load of %s", t)
	return nil
}

// isLong tells whether d are contents of symbolic length.
func (st *State) isLong(d Ptr, n *sym.Expr) bool {
	return !n.IsConst() && d.Obj > 0 && st.obj(d.Obj).long
}

// force is for what needs more than the length.
func force(v Value) Value {
	if _, ok := v.(Lazy); ok {
		bail("contents of symbolic length")
	}
	return v
}

func (st *State) loadIntExpr(p Ptr) *sym.Expr {
	v := st.loadInt(p, 8)
	if e, ok := v.(*sym.Expr); ok {
		return e
	}
	panic(violation{"a pointer read as an integer in " + st.obj(p.Obj).what})
}

func (st *State) mkIface(tw Ptr, dw Value) Iface {
	if tw.IsNil() {
		return Iface{}
	}
	if tw.Obj >= 0 {
		panic(violation{"corrupt interface value"})
	}
	o := st.obj(tw.Obj)
	if o.kind != kType || tw.Off != 0 {
		panic(violation{"corrupt interface value"})
	}
	if e, ok := dw.(*sym.Expr); ok {
		dw = st.intToPtr(e)
	}
	return Iface{o.typ, dw}
}

func (st *State) store(p Ptr, t types.Type, v Value) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if l, ok := v.(Lazy); ok {
				st.access(p, 16, true)
				st.storeInt(p, 8, l.P)
				st.storeInt(Ptr{p.Obj, p.Off + 8}, 8, l.Len)
				return
			}
			s := v.(Str)
			st.access(p, 16, true)
			st.storeInt(p, 8, s.P)
			st.storeInt(Ptr{p.Obj, p.Off + 8}, 8, sym.Const(uint64(s.Len), 64))
		case u.Kind() == types.UnsafePointer || u.Kind() == types.Uintptr:
			st.storeInt(p, 8, v)
		case u.Info()&types.IsBoolean != 0:
			st.storeInt(p, 1, sym.ToBV(v.(*sym.Expr), 8))
		default:
			e, ok := v.(*sym.Expr)
			if !ok {
				bail("store of address as %s", t)
			}
			st.storeInt(p, int64(e.W)/8, e)
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		st.storeInt(p, 8, v)
	case *types.Slice:
		if l, ok := v.(Lazy); ok {
			st.access(p, 24, true)
			st.storeInt(p, 8, l.P)
			st.storeInt(Ptr{p.Obj, p.Off + 8}, 8, l.Len)
			st.storeInt(Ptr{p.Obj, p.Off + 16}, 8, l.Len)
			return
		}
		s := v.(Slice)
		st.access(p, 24, true)
		st.storeInt(p, 8, s.P)
		st.storeInt(Ptr{p.Obj, p.Off + 8}, 8, sym.Const(uint64(s.Len), 64))
		st.storeInt(Ptr{p.Obj, p.Off + 16}, 8, sym.Const(uint64(s.Cap), 64))
	case *types.Interface:
		f := v.(Iface)
		st.access(p, 16, true)
		if f.T == nil {
			st.storeInt(p, 8, nilPtr)
			st.storeInt(Ptr{p.Obj, p.Off + 8}, 8, nilPtr)
			return
		}
		st.storeInt(p, 8, f.T.Ptr())
		st.storeInt(Ptr{p.Obj, p.Off + 8}, 8, f.D)
	case *types.Struct:
		ti := st.prog.Type(t)
		a := v.(Agg)
		st.access(p, ti.Size, true)
		for i, f := range ti.fields {
			st.store(Ptr{p.Obj, p.Off + ti.offs[i]}, f.Type(), a[i])
		}
	case *types.Array:
		es := st.prog.Type(u.Elem()).Size
		a := v.(Agg)
		st.access(p, es*u.Len(), true)
		for i := range a {
			st.store(Ptr{p.Obj, p.Off + int64(i)*es}, u.Elem(), a[i])
		}
	default:
		bail("store of %s", t)
	}
}

// memmove copies n bytes.
func (st *State) memmove(dst, src Ptr, n int64) {
	if n == 0 || dst == src {
		return
	}
	so := st.access(src, n, false)
	tmp := append([]Cell(nil), so.cells[src.Off:src.Off+n]...)
	do := st.access(dst, n, true)
	copy(do.cells[dst.Off:dst.Off+n], tmp)
}

func (st *State) memzero(p Ptr, n int64) {
	if n == 0 {
		return
	}
	o := st.access(p, n, true)
	for i := int64(0); i < n; i++ {
		o.cells[p.Off+i] = Cell{}
	}
}

func (st *State) loadByte(p Ptr) *sym.Expr {
	return st.loadInt(p, 1).(*sym.Expr)
}

// bytesOf reads n bytes.
func (st *State) bytesOf(p Ptr, n int64) []*sym.Expr {
	if n == 0 {
		return nil
	}
	o := st.access(p, n, false)
	out := make([]*sym.Expr, n)
	for i := range out {
		b := byteOf(o.cells[p.Off+int64(i)])
		if b == nil {
			panic(violation{"part of a pointer read as an integer in " + o.what})
		}
		out[i] = b
	}
	return out
}

func (st *State) newBytes(b []*sym.Expr, what string) Ptr {
	p := st.typed(st.alloc(int64(len(b)), what), st.prog.byteType())
	o := st.obj(p.Obj)
	for i, e := range b {
		o.cells[i] = Cell{e, 0, 1}
	}
	return p
}

func (st *State) newString(b []*sym.Expr) Str {
	if len(b) == 0 {
		return Str{}
	}
	p := st.newBytes(b, "string")
	st.obj(p.Obj).ro = true
	return Str{p, int64(len(b))}
}

// goString gives the text of a string whose bytes are all concrete.
func (st *State) goString(s Str) (string, bool) {
	b := make([]byte, s.Len)
	for i, e := range st.bytesOf(s.P, s.Len) {
		if !e.IsConst() {
			return "", false
		}
		b[i] = byte(e.K)
	}
	return string(b), true
}

func (st *State) mustString(v Value) string {
	s, ok := st.goString(v.(Str))
	if !ok {
		// split over the symbolic bytes
		str := v.(Str)
		b := make([]byte, str.Len)
		for i, e := range st.bytesOf(str.P, str.Len) {
			b[i] = byte(st.concrete(e))
		}
		return string(b)
	}
	return s
}

// box stores v in fresh memory for an interface's data word.
func (st *State) mkInterface(ti *TypeInfo, v Value) Iface {
	if ti.Direct {
		for {
			a, ok := v.(Agg)
			if !ok {
				break
			}
			v = a[0]
		}
		return Iface{ti, v}
	}
	if ti.Size == 0 {
		return Iface{ti, st.alloc(0, "interface data")}
	}
	p := st.typed(st.alloc(ti.Size, "interface data "+ti.T.String()), ti)
	st.store(p, ti.T, v)
	st.wobj(p.Obj).ro = true
	return Iface{ti, p}
}

// unbox extracts the concrete value of an interface.
func (st *State) unbox(f Iface) Value {
	if f.T.Direct {
		return st.wrapDirect(f.T.T, f.D)
	}
	return st.load(f.D.(Ptr), f.T.T)
}

func (st *State) wrapDirect(t types.Type, v Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return Agg{st.wrapDirect(u.Field(0).Type(), v)}
	case *types.Array:
		return Agg{st.wrapDirect(u.Elem(), v)}
	}
	return v
}

// ---- equality ----

func ptrEq(a, b Ptr) bool { return a == b }

func (st *State) eqBytes(a Ptr, b Ptr, n int64) *sym.Expr {
	if a == b || n == 0 {
		return sym.True
	}
	r := sym.True
	x, y := st.bytesOf(a, n), st.bytesOf(b, n)
	for i := range x {
		r = sym.BAnd(r, sym.Eq(x[i], y[i]))
		if r == sym.False {
			return r
		}
	}
	return r
}

func floatEq(a, b *sym.Expr) *sym.Expr {
	zero := func(x *sym.Expr) *sym.Expr { return sym.Eq(sym.Extract(x, 0, x.W-1), sym.Const(0, x.W-1)) }
	return sym.BAnd(sym.BAnd(sym.BNot(isNaN(a)), sym.BNot(isNaN(b))), sym.BOr(sym.Eq(a, b), sym.BAnd(zero(a), zero(b))))
}

func isNaN(x *sym.Expr) *sym.Expr {
	var inf uint64 = 0x7f800000
	if x.W == 64 {
		inf = 0x7ff0000000000000
	}
	return sym.Ult(sym.Const(inf, x.W-1), sym.Extract(x, 0, x.W-1))
}

func floatLt(a, b *sym.Expr) *sym.Expr {
	w := a.W
	zero := func(x *sym.Expr) *sym.Expr { return sym.Eq(sym.Extract(x, 0, w-1), sym.Const(0, w-1)) }
	neg := func(x *sym.Expr) *sym.Expr { return sym.Eq(sym.Extract(x, w-1, 1), sym.Const(1, 1)) }
	mag := func(x *sym.Expr) *sym.Expr { return sym.Extract(x, 0, w-1) }
	lt := sym.Ite(neg(a),
		sym.BOr(sym.BNot(neg(b)), sym.Ult(mag(b), mag(a))),
		sym.BAnd(sym.BNot(neg(b)), sym.Ult(mag(a), mag(b))))
	return sym.BAnd(sym.BAnd(sym.BNot(isNaN(a)), sym.BNot(isNaN(b))), sym.BAnd(sym.BNot(sym.BAnd(zero(a), zero(b))), lt))
}

func (st *State) eq(a, b Value, t types.Type) *sym.Expr {
	if l, ok := b.(Lazy); ok {
		a, b = l, a
	}
	if l, ok := a.(Lazy); ok {
		switch x := b.(type) {
		case Str:
			if x.Len == 0 {
				return sym.Eq(l.Len, sym.Const(0, 64))
			}
		case Slice:
			return sym.False // a comparison with nil
		}
		force(a)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			x, y := a.(Str), b.(Str)
			if x.Len != y.Len {
				return sym.False
			}
			return st.eqBytes(x.P, y.P, x.Len)
		case u.Info()&types.IsFloat != 0:
			return floatEq(a.(*sym.Expr), b.(*sym.Expr))
		}
		return st.eqWord(a, b)
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return st.eqWord(a, b)
	case *types.Slice:
		x, y := a.(Slice), b.(Slice)
		return sym.Bool(x.P == y.P) // comparison with nil
	case *types.Interface:
		x, y := a.(Iface), b.(Iface)
		return st.eqIface(x, y)
	case *types.Struct:
		x, y := a.(Agg), b.(Agg)
		r := sym.True
		for i := range x {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = sym.BAnd(r, st.eq(x[i], y[i], u.Field(i).Type()))
		}
		return r
	case *types.Array:
		x, y := a.(Agg), b.(Agg)
		r := sym.True
		for i := range x {
			r = sym.BAnd(r, st.eq(x[i], y[i], u.Elem()))
		}
		return r
	}
	bail("comparison of %s", t)
	return nil
}

func (st *State) eqIface(x, y Iface) *sym.Expr {
	if x.T != y.T {
		return sym.False
	}
	if x.T == nil {
		return sym.True
	}
	if !types.Comparable(x.T.T) {
		st.goPanicRuntime("comparing uncomparable type " + x.T.T.String())
	}
	return st.eq(st.unbox(x), st.unbox(y), x.T.T)
}

func (st *State) eqWord(a, b Value) *sym.Expr {
	switch x := a.(type) {
	case Ptr:
		switch y := b.(type) {
		case Ptr:
			return sym.Bool(x == y)
		case *sym.Expr:
			return sym.Eq(sym.Const(ptrAddr(x), 64), y)
		}
	case *sym.Expr:
		switch y := b.(type) {
		case *sym.Expr:
			return sym.Eq(x, y)
		case Ptr:
			return sym.Eq(x, sym.Const(ptrAddr(y), 64))
		}
	}
	bail("comparison of %T and %T", a, b)
	return nil
}
