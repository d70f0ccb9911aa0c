package exec

import (
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

// pointerSlots gives the offsets in t where the garbage collector looks for
// pointers.
func (t *TypeInfo) pointerSlots(pr *Program) []int64 {
	t.mu.Lock()
	done, s := t.slotsOK, t.slots
	t.mu.Unlock()
	if done {
		return s
	}
	s = pr.slotsOf(t.T, 0, nil)
	t.mu.Lock()
	t.slots, t.slotsOK = s, true
	t.mu.Unlock()
	return s
}

func (pr *Program) slotsOf(t types.Type, off int64, s []int64) []int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer {
			s = append(s, off)
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Slice:
		s = append(s, off)
	case *types.Interface:
		s = append(s, off, off+8)
	case *types.Struct:
		ti := pr.Type(t)
		for i, f := range ti.fields {
			s = pr.slotsOf(f.Type(), off+ti.offs[i], s)
		}
	case *types.Array:
		n := pr.Type(u.Elem()).Size
		if u.Len() > 0 && hasPointers(u.Elem()) {
			for i := int64(0); i < u.Len(); i++ {
				s = pr.slotsOf(u.Elem(), off+i*n, s)
			}
		}
	}
	return s
}

// typed notes that the object holds values of type ti, as the allocator was told.
func (st *State) typed(p Ptr, ti *TypeInfo) Ptr {
	st.obj(p.Obj).lay = ti
	return p
}

func (st *State) allocT(n int64, ti *TypeInfo) Ptr {
	return st.typed(st.alloc(n, ti.T.String()), ti)
}

func (pr *Program) byteType() *TypeInfo { return pr.Type(types.Typ[types.Uint8]) }

// collect is a garbage collection: what cannot be reached through memory the
// collector looks at is gone.
func (st *State) collect() {
	marked := make([]bool, st.nheap+1)
	gmark := map[int32]bool{}
	var work []int32
	mark := func(id int32) {
		if id <= 0 {
			return
		}
		if id&globalBit != 0 {
			if !gmark[id] {
				gmark[id] = true
				work = append(work, id)
			}
			return
		}
		if int(id) <= st.nheap && !marked[id] {
			marked[id] = true
			work = append(work, id)
		}
	}
	var val func(v Value)
	val = func(v Value) {
		switch x := v.(type) {
		case Ptr:
			mark(x.Obj)
		case Slice:
			mark(x.P.Obj)
		case Str:
			mark(x.P.Obj)
		case Lazy:
			mark(x.P.Obj)
		case Iface:
			val(x.D)
		case Agg:
			for _, e := range x {
				val(e)
			}
		}
	}
	for _, th := range st.threads {
		val(th.result)
		for i, f := range th.frames {
			live := f.live(i == len(th.frames)-1)
			for r, v := range f.regs {
				if live == nil || live[r] {
					val(v)
				}
			}
			for _, d := range f.defers {
				val(d.fn)
				for _, a := range d.args {
					val(a)
				}
			}
			if f.panicV != nil {
				val(*f.panicV)
			}
		}
	}
	for i, n := 0, len(st.globs.chunks)*chunkSize; i < n; i++ {
		if st.globs.get(i) != nil {
			mark(int32(i) | globalBit)
		}
	}
	for len(work) > 0 {
		id := work[len(work)-1]
		work = work[:len(work)-1]
		o := st.obj(id)
		if o == nil {
			continue
		}
		for _, s := range o.side {
			sideRefs(reflect.ValueOf(s), mark)
		}
		switch o.kind {
		case kMap:
			for _, e := range o.entries {
				mark(e.key)
				mark(e.val)
			}
		case kFunc:
			for i, v := range o.free {
				if !o.bound && o.fn != nil && o.fn.F != nil && i < len(o.fn.F.FreeVars) {
					if b, ok := o.fn.F.FreeVars[i].Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
						continue
					}
				}
				val(v)
			}
		case kMem:
			if o.lay == nil {
				for i := range o.cells {
					if p, ok := o.cells[i].V.(Ptr); ok {
						mark(p.Obj)
					}
				}
				continue
			}
			slots := o.lay.pointerSlots(st.prog)
			if len(slots) == 0 {
				continue
			}
			for base := int64(0); base+o.lay.Size <= o.size; base += o.lay.Size {
				for _, s := range slots {
					c := o.cells[base+s]
					if p, ok := c.V.(Ptr); ok && c.I == 0 && c.N == 8 {
						mark(p.Obj)
					}
				}
			}
		}
	}
	for id := 1; id <= st.nheap; id++ {
		if marked[id] {
			continue
		}
		o := st.heap.get(id)
		if o == nil || o.freed || o.kind == kChan {
			continue
		}
		st.heap.set(st.ep, id, &Object{owner: st.ep, kind: o.kind, size: o.size, what: o.what, freed: true})
	}
}

// live gives the registers that can still be read, nil for all.
func (f *Frame) live(top bool) []bool {
	if f.panicV != nil || f.recov {
		return nil
	}
	fn := f.fn
	fn.liveMu.Lock()
	defer fn.liveMu.Unlock()
	if fn.liveOut == nil {
		fn.liveness()
	}
	key := [2]int{f.blk, f.pc}
	if !top {
		key[1]++ // the call has read its arguments
	}
	if l, ok := fn.liveAt[key]; ok {
		return l
	}
	l := append([]bool{}, fn.liveOut[f.blk]...)
	b := &fn.blocks[f.blk]
	for i := len(b.instrs) - 1; i >= key[1]; i-- {
		b.instrs[i].back(l)
	}
	if !top {
		if d := b.instrs[f.pc].dst; d >= 0 {
			l[d] = false
		}
	}
	if fn.recov >= 0 {
		// a deferred function may lead to the recovery block
		for i, v := range fn.liveIn(fn.recov) {
			l[i] = l[i] || v
		}
	}
	for i := range l {
		l[i] = l[i] && fn.scan[i]
	}
	fn.liveAt[key] = l
	return l
}

func (in *Instr) back(l []bool) {
	if _, ok := in.op.(*ssa.Phi); ok {
		l[in.dst] = false
		return
	}
	if in.dst >= 0 {
		l[in.dst] = false
	}
	use := func(o *Opnd) {
		if o.kind == oReg {
			l[o.idx] = true
		}
	}
	for i := range in.args {
		use(&in.args[i])
	}
	if c := in.call; c != nil {
		if c.static == nil && c.builtin == "" {
			use(&c.fn)
		}
		for i := range c.args {
			use(&c.args[i])
		}
	}
}

func (fn *Fn) liveIn(b int) []bool {
	l := append([]bool{}, fn.liveOut[b]...)
	blk := &fn.blocks[b]
	for i := len(blk.instrs) - 1; i >= 0; i-- {
		blk.instrs[i].back(l)
	}
	return l
}

func (fn *Fn) liveness() {
	fn.liveAt = map[[2]int][]bool{}
	fn.liveOut = make([][]bool, len(fn.blocks))
	for i := range fn.blocks {
		fn.liveOut[i] = make([]bool, fn.nregs)
	}
	for again := true; again; {
		again = false
		for b := len(fn.blocks) - 1; b >= 0; b-- {
			l := fn.liveIn(b)
			for _, p := range fn.blocks[b].preds {
				out := fn.liveOut[p]
				for i, v := range l {
					if v && !out[i] {
						out[i], again = true, true
					}
				}
				for i := 0; i < fn.blocks[b].nphi; i++ {
					ph := &fn.blocks[b].instrs[i]
					for k, q := range fn.blocks[b].preds {
						if o := &ph.args[k]; q == p && o.kind == oReg && !out[o.idx] {
							out[o.idx], again = true, true
						}
					}
				}
			}
		}
	}
	fn.scan = make([]bool, fn.nregs)
	n := 0
	note := func(t types.Type) {
		_, tuple := t.(*types.Tuple)
		fn.scan[n] = tuple || !plainType(t)
		n++
	}
	for _, p := range fn.F.Params {
		note(p.Type())
	}
	for _, p := range fn.F.FreeVars {
		note(p.Type())
	}
	for _, b := range fn.F.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				note(v.Type())
			}
		}
	}
}

// plainType tells the integers from what the collector follows.
func plainType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func (o *Object) alive() {
	if o.freed {
		panic(violation{"use of memory that the garbage collector has freed: " + o.what})
	}
}

var (
	ptrType   = reflect.TypeOf(Ptr{})
	entryType = reflect.TypeOf(mapEntry{})
	infoType  = reflect.TypeOf((*TypeInfo)(nil))
)

// sideRefs finds the objects that modelled library state refers to.
func sideRefs(v reflect.Value, mark func(int32)) {
	switch v.Kind() {
	case reflect.Struct:
		if v.Type() == ptrType {
			mark(int32(v.Field(0).Int()))
			return
		}
		if v.Type() == entryType {
			mark(int32(v.Field(0).Int()))
			mark(int32(v.Field(1).Int()))
			return
		}
		for i := 0; i < v.NumField(); i++ {
			sideRefs(v.Field(i), mark)
		}
	case reflect.Interface:
		if !v.IsNil() {
			sideRefs(v.Elem(), mark)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			sideRefs(v.Index(i), mark)
		}
	case reflect.Ptr:
		// engine data (types, expressions) except pointers to entries
		if !v.IsNil() && v.Type().Elem() == entryType {
			sideRefs(v.Elem(), mark)
		}
	}
}
