// Package exec executes go/ssa functions symbolically.
package exec

import (
	"fmt"
	"go/types"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"

	"verif/engine/sym"
)

// Value is the content of an SSA register:
//
//	*sym.Expr  booleans, integers, floats (as bits), uintptr without provenance
//	Ptr        pointers, unsafe.Pointer, maps, channels, funcs, uintptr with provenance
//	Iface, Slice, Str
//	Agg        structs, arrays and tuples
type Value interface{}

// Ptr is an address: an object and an offset in it. Obj 0 is nil when Off is 0.
type Ptr struct {
	Obj int32
	Off int64
}

func (p Ptr) IsNil() bool { return p.Obj == 0 && p.Off == 0 }

type Iface struct {
	T *TypeInfo // nil for a nil interface
	D Value     // data word
}

type Slice struct {
	P        Ptr
	Len, Cap int64
}

// Lazy is a string or byte slice of symbolic length whose contents are never
// looked at. Only what needs no more than the length is done with it.
type Lazy struct {
	P   Ptr
	Len *sym.Expr
}

type Str struct {
	P   Ptr
	Len int64
}

type Agg []Value

var nilPtr = Ptr{}

const globalBit = 1 << 30

// TypeInfo is the canonical descriptor of a type; its address is a static object.
type TypeInfo struct {
	T      types.Type
	ID     int32 // static object id (negative)
	Size   int64
	Align  int64
	Direct bool // stored directly in an interface's data word
	PtrFul bool // contains pointers

	mu      sync.Mutex
	methods map[string]*ssa.Function
	impl    map[types.Type]bool
	slots   []int64 // where the collector finds pointers
	slotsOK bool
	fields  []*types.Var
	offs    []int64
}

func (t *TypeInfo) Ptr() Ptr { return Ptr{t.ID, 0} }

type objKind uint8

const (
	kMem objKind = iota
	kMap
	kFunc
	kType
	kChan
)

// Cell is one byte of memory: byte I of the N-byte scalar V. A nil V is a zero byte.
type Cell struct {
	V    Value
	I, N uint8
}

type mapEntry struct {
	key, val int32 // object ids
}

type access struct {
	off, n int64
	thr    int8
	write  bool
	at     uint32
}

// Object is a unit of allocation.
type Object struct {
	owner  *epoch
	kind   objKind
	size   int64
	cells  []Cell
	ro     bool      // writes are violations
	long   bool      // stands for contents of symbolic length
	freed  bool      // by a garbage collection
	lay    *TypeInfo // the element type it was allocated for, if known
	guard  int64     // bytes at and beyond guard must not be touched (when > 0 or guarded)
	guardd bool
	what   string

	// kMap
	mt      *TypeInfo
	entries []mapEntry
	// kFunc
	fn    *Fn
	free  []Value
	bound bool
	// kType
	typ *TypeInfo

	side map[int64]interface{} // state of modelled runtime objects living at an offset
	acc  []access              // accesses for race detection
}

type epoch struct{ _ byte }

// static objects (negative ids): immutable and shared by all states.
type staticTab struct {
	mu  sync.Mutex
	tab atomic.Pointer[[]*Object]
}

func (s *staticTab) add(o *Object) int32 {
	s.mu.Lock()
	defer s.mu.Unlock()
	var old []*Object
	if p := s.tab.Load(); p != nil {
		old = *p
	}
	if len(old) == 0 {
		old = make([]*Object, 1, 1024)
	}
	n := append(old, o)
	s.tab.Store(&n)
	return -int32(len(n) - 1)
}

func (s *staticTab) get(id int32) *Object { return (*s.tab.Load())[-id] }

// Program is everything shared between states: code and static data.
type Program struct {
	SSA    *ssa.Program
	Sizes  types.Sizes
	Pkgs   map[string]*ssa.Package
	Module string // import path prefix of the code under test

	static staticTab

	tmu   sync.Mutex
	tmap  typeutil.Map // types.Type -> *TypeInfo
	tfast sync.Map     // types.Type -> *TypeInfo

	fmu sync.Mutex
	fns sync.Map // *ssa.Function -> *Fn

	gmu     sync.Mutex
	globals sync.Map // *ssa.Global -> int32
	glist   []*ssa.Global
	gvals   atomic.Pointer[[]*ssa.Global]

	pmu    sync.Mutex
	pkgIdx map[*ssa.Package]int
	pkgs   []*ssa.Package
	pskip  []bool

	smu  sync.Mutex
	strs map[string]int32

	msetMu  sync.Mutex
	links   map[string]string
	eager   []*ssa.Package
	rtOnce  sync.Once
	rt      *TypeInfo
	Covered sync.Map // *Fn -> true
}

// Type returns the canonical descriptor of t.
func (pr *Program) Type(t types.Type) *TypeInfo {
	if x, ok := pr.tfast.Load(t); ok {
		return x.(*TypeInfo)
	}
	pr.tmu.Lock()
	defer pr.tmu.Unlock()
	t = types.Unalias(t)
	if x := pr.tmap.At(t); x != nil {
		ti := x.(*TypeInfo)
		pr.tfast.Store(t, ti)
		return ti
	}
	ti := &TypeInfo{T: t, methods: map[string]*ssa.Function{}, impl: map[types.Type]bool{}}
	ti.Size = pr.Sizes.Sizeof(t)
	ti.Align = pr.Sizes.Alignof(t)
	ti.Direct = isDirect(t)
	ti.PtrFul = hasPointers(t)
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			ti.fields = append(ti.fields, st.Field(i))
		}
		ti.offs = pr.Sizes.Offsetsof(ti.fields)
	}
	ti.ID = pr.static.add(&Object{kind: kType, typ: ti, what: "type " + t.String(), ro: true})
	pr.tmap.Set(t, ti)
	pr.tfast.Store(t, ti)
	return ti
}

func isDirect(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		return u.NumFields() == 1 && isDirect(u.Field(0).Type())
	case *types.Array:
		return u.Len() == 1 && isDirect(u.Elem())
	}
	return false
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	}
	return true
}

// String constants live in read-only static objects.
func (pr *Program) strConst(s string) Str {
	if s == "" {
		return Str{}
	}
	pr.smu.Lock()
	defer pr.smu.Unlock()
	if id, ok := pr.strs[s]; ok {
		return Str{Ptr{id, 0}, int64(len(s))}
	}
	o := &Object{kind: kMem, size: int64(len(s)), cells: make([]Cell, len(s)), ro: true, what: "string constant"}
	for i := 0; i < len(s); i++ {
		o.cells[i] = Cell{sym.Const(uint64(s[i]), 8), 0, 1}
	}
	id := pr.static.add(o)
	pr.strs[s] = id
	return Str{Ptr{id, 0}, int64(len(s))}
}

func (pr *Program) globalID(g *ssa.Global) int32 {
	if x, ok := pr.globals.Load(g); ok {
		return x.(int32)
	}
	pr.gmu.Lock()
	defer pr.gmu.Unlock()
	if x, ok := pr.globals.Load(g); ok {
		return x.(int32)
	}
	id := int32(len(pr.glist)) | globalBit
	pr.glist = append(pr.glist, g)
	l := pr.glist
	pr.gvals.Store(&l)
	pr.globals.Store(g, id)
	return id
}

func (pr *Program) pkgIndex(p *ssa.Package) int {
	pr.pmu.Lock()
	defer pr.pmu.Unlock()
	if i, ok := pr.pkgIdx[p]; ok {
		return i
	}
	i := len(pr.pkgs)
	pr.pkgIdx[p] = i
	pr.pkgs = append(pr.pkgs, p)
	return i
}

// method finds the implementation of a method on a concrete type.
func (pr *Program) method(t *TypeInfo, m *types.Func) *ssa.Function {
	k := m.Id()
	t.mu.Lock()
	f, ok := t.methods[k]
	t.mu.Unlock()
	if ok {
		return f
	}
	pr.msetMu.Lock()
	sel := pr.SSA.MethodSets.MethodSet(t.T).Lookup(m.Pkg(), m.Name())
	if sel != nil {
		f = pr.SSA.MethodValue(sel)
	}
	pr.msetMu.Unlock()
	t.mu.Lock()
	t.methods[k] = f
	t.mu.Unlock()
	return f
}

func (pr *Program) implements(t *TypeInfo, it types.Type) bool {
	t.mu.Lock()
	v, ok := t.impl[it]
	t.mu.Unlock()
	if ok {
		return v
	}
	v = types.Implements(t.T, it.Underlying().(*types.Interface))
	t.mu.Lock()
	t.impl[it] = v
	t.mu.Unlock()
	return v
}

// ---- control flow signals raised (panicked) by instruction handlers ----

type needInit struct{ pkg int }

type goPanic struct{ val Iface }

type violation struct{ msg string }

type unsupported struct{ msg string }

func (u unsupported) Error() string { return u.msg }

type killPath struct{}

type blockThread struct{}

func bail(format string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(format, a...)})
}

func under(t types.Type) types.Type { return t.Underlying() }

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

// width of a scalar in bits; 0 for bool.
func (pr *Program) width(t types.Type) uint8 {
	b := basicOf(t)
	if b == nil {
		bail("width of %s", t)
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.Float64, types.UntypedInt, types.UntypedFloat, types.UnsafePointer:
		return 64
	}
	bail("width of %s", t)
	return 0
}

func isSigned(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func isFloat(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsString != 0
}

func isInteger(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsInteger != 0
}

// zero is the zero value of t.
func (pr *Program) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return nilPtr
		case u.Info()&types.IsBoolean != 0:
			return sym.False
		case u.Info()&types.IsComplex != 0:
			bail("complex numbers")
		}
		return sym.Const(0, pr.width(t))
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return nilPtr
	case *types.Slice:
		return Slice{}
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		a := make(Agg, u.NumFields())
		for i := range a {
			a[i] = pr.zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		a := make(Agg, u.Len())
		for i := range a {
			a[i] = pr.zero(u.Elem())
		}
		return a
	case *types.Tuple:
		a := make(Agg, u.Len())
		for i := range a {
			a[i] = pr.zero(u.At(i).Type())
		}
		return a
	}
	bail("zero of %s", t)
	return nil
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.String()
}

func pkgOfFn(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if f.Parent() != nil {
		return pkgOfFn(f.Parent())
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

func trimMod(s string) string { return strings.ReplaceAll(s, "github.com/RomiChan/protobuf/", "") }
