package exec

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/sym"
)

// typeString renders a type like reflect.Type.String.
func typeString(t types.Type) string {
	switch u := t.(type) {
	case *types.Alias:
		return typeString(types.Unalias(t))
	case *types.Named:
		s := u.Obj().Name()
		if p := u.Obj().Pkg(); p != nil {
			s = p.Name() + "." + s
		}
		return s + typeArgs(u)
	case *types.Basic:
		return u.Name()
	case *types.Pointer:
		return "*" + typeString(u.Elem())
	case *types.Slice:
		return "[]" + typeString(u.Elem())
	case *types.Array:
		return "[" + strconv.FormatInt(u.Len(), 10) + "]" + typeString(u.Elem())
	case *types.Map:
		return "map[" + typeString(u.Key()) + "]" + typeString(u.Elem())
	case *types.Chan:
		return "chan " + typeString(u.Elem())
	case *types.Interface:
		if u.NumMethods() == 0 {
			return "interface {}"
		}
	case *types.Struct:
		if u.NumFields() == 0 {
			return "struct {}"
		}
		var p []string
		for i := 0; i < u.NumFields(); i++ {
			s := ""
			if !u.Field(i).Embedded() {
				s = u.Field(i).Name() + " "
			}
			s += typeString(u.Field(i).Type())
			if u.Tag(i) != "" {
				s += " " + strconv.Quote(u.Tag(i))
			}
			p = append(p, s)
		}
		return "struct { " + strings.Join(p, "; ") + " }"
	case *types.Signature:
		var in, out []string
		for i := 0; i < u.Params().Len(); i++ {
			in = append(in, typeString(u.Params().At(i).Type()))
		}
		for i := 0; i < u.Results().Len(); i++ {
			out = append(out, typeString(u.Results().At(i).Type()))
		}
		s := "func(" + strings.Join(in, ", ") + ")"
		switch len(out) {
		case 0:
		case 1:
			s += " " + out[0]
		default:
			s += " (" + strings.Join(out, ", ") + ")"
		}
		return s
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func typeArgs(n *types.Named) string {
	a := n.TypeArgs()
	if a.Len() == 0 {
		return ""
	}
	var p []string
	for i := 0; i < a.Len(); i++ {
		p = append(p, types.TypeString(a.At(i), func(p *types.Package) string { return p.Path() }))
	}
	return "[" + strings.Join(p, ",") + "]"
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Interface:
		return reflect.Interface
	case *types.Struct:
		return reflect.Struct
	case *types.Signature:
		return reflect.Func
	}
	return reflect.Invalid
}

func (pr *Program) rtype() *TypeInfo {
	pr.rtOnce.Do(func() {
		p := pr.Pkgs["reflect"]
		if p == nil {
			return
		}
		pr.rt = pr.Type(types.NewPointer(p.Type("rtype").Type()))
	})
	if pr.rt == nil {
		bail("package reflect is not loaded")
	}
	return pr.rt
}

// rtypeOf is the reflect.Type of t.
func (st *State) rtypeOf(t types.Type) Iface {
	if t == nil {
		return Iface{}
	}
	return Iface{st.prog.rtype(), st.prog.Type(t).Ptr()}
}

// typeOfIface is the type a reflect.Type value stands for.
func (st *State) typeOfIface(v Iface) types.Type {
	if v.T == nil {
		st.goPanicRuntime("invalid memory address or nil pointer dereference")
	}
	if v.T != st.prog.rtype() {
		bail("foreign reflect.Type %s", v.T.T)
	}
	return st.typeArg(v.D.(Ptr)).T
}

func (st *State) strPanic(msg string) {
	panic(goPanic{st.mkInterface(st.prog.Type(types.Typ[types.String]), st.prog.strConst(msg))})
}

func exportedPkgPath(f *types.Var) string {
	if f.Exported() {
		return ""
	}
	if f.Pkg() == nil {
		return "?"
	}
	return f.Pkg().Path()
}

func (st *State) structField(t types.Type, i int) Value {
	ti := st.prog.Type(t)
	u := t.Underlying().(*types.Struct)
	f := u.Field(i)
	idx := st.alloc(8, "StructField.Index")
	st.storeInt(idx, 8, e64(int64(i)))
	// Name, PkgPath, Type, Tag, Offset, Index, Anonymous
	return Agg{
		st.prog.strConst(f.Name()), st.prog.strConst(exportedPkgPath(f)), st.rtypeOf(f.Type()),
		st.prog.strConst(u.Tag(i)), e64(ti.offs[i]), Slice{idx, 1, 1}, sym.Bool(f.Embedded()),
	}
}

// methods of reflect.Type
var typeMethods = map[string]func(st *State, t types.Type, a []Value) Value{}

func typeMethod(recv *TypeInfo, m *types.Func) intrinsic {
	p, ok := recv.T.(*types.Pointer)
	if !ok {
		return nil
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "reflect" || n.Obj().Name() != "rtype" {
		return nil
	}
	name := m.Name()
	f := typeMethods[name]
	return func(st *State, c *callCtx) Value {
		if f == nil {
			bail("reflect.Type.%s is not modelled", name)
		}
		return f(st, st.typeOfIface(c.args[0].(Iface)), c.args[1:])
	}
}

const (
	flagIndir = 1 << 7
	flagAddr  = 1 << 8
	flagRO    = 1 << 5
)

// rv is a decoded reflect.Value.
type rv struct {
	t    types.Type
	p    Ptr // address of the value when indir, else the pointer-shaped value
	flag uint64
}

func (st *State) rval(v Value) rv {
	a := v.(Agg)
	tp := a[0].(Ptr)
	if tp.IsNil() {
		return rv{}
	}
	var f *sym.Expr
	switch x := a[2].(type) {
	case *sym.Expr:
		f = x
	case Agg:
		f = x[0].(*sym.Expr)
	}
	return rv{st.typeArg(tp).T, a[1].(Ptr), f.K}
}

func (st *State) mkRval(v rv) Value {
	if v.t == nil {
		return Agg{nilPtr, nilPtr, e64(0)}
	}
	return Agg{st.prog.Type(v.t).Ptr(), v.p, e64(int64(v.flag&^31 | uint64(kindOf(v.t))))}
}

func (st *State) rload(v rv) Value {
	if v.flag&flagIndir != 0 {
		return st.load(v.p, v.t)
	}
	return st.wrapDirect(v.t, v.p)
}

func (st *State) rnew(t types.Type, x Value) rv {
	ti := st.prog.Type(t)
	if ti.Direct {
		for {
			a, ok := x.(Agg)
			if !ok {
				break
			}
			x = a[0]
		}
		return rv{t, x.(Ptr), 0}
	}
	p := st.typed(st.alloc(ti.Size, "reflect value "+t.String()), ti)
	st.store(p, t, x)
	return rv{t, p, flagIndir}
}

func (st *State) rkind(v rv, m string, ks ...reflect.Kind) {
	if v.t != nil {
		k := kindOf(v.t)
		for _, x := range ks {
			if x == k {
				return
			}
		}
		st.strPanic("reflect: call of reflect.Value." + m + " on " + k.String() + " Value")
	}
	st.strPanic("reflect: call of reflect.Value." + m + " on zero Value")
}

func (st *State) rassignable(v rv, m string) {
	if v.t == nil || v.flag&flagAddr == 0 || v.flag&flagRO != 0 {
		st.strPanic("reflect: reflect.Value." + m + " using unaddressable value")
	}
}

// fieldNamed finds a field of the struct itself.
func fieldNamed(s *types.Struct, n string) int {
	embedded := false
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == n {
			return i
		}
		embedded = embedded || s.Field(i).Embedded()
	}
	if embedded {
		bail("FieldByName with embedded fields")
	}
	return -1
}

func regReflect() {
	tm := func(n string, f func(st *State, t types.Type, a []Value) Value) { typeMethods[n] = f }
	elemOf := func(st *State, t types.Type) types.Type {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return u.Elem()
		case *types.Slice:
			return u.Elem()
		case *types.Array:
			return u.Elem()
		case *types.Map:
			return u.Elem()
		case *types.Chan:
			return u.Elem()
		}
		st.strPanic("reflect: Elem of invalid type " + typeString(t))
		return nil
	}
	structOf := func(st *State, t types.Type, m string) *types.Struct {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			st.strPanic("reflect: " + m + " of non-struct type " + typeString(t))
		}
		return s
	}
	tm("Kind", func(st *State, t types.Type, a []Value) Value { return e64(int64(kindOf(t))) })
	tm("Elem", func(st *State, t types.Type, a []Value) Value { return st.rtypeOf(elemOf(st, t)) })
	tm("Key", func(st *State, t types.Type, a []Value) Value {
		m, ok := t.Underlying().(*types.Map)
		if !ok {
			st.strPanic("reflect: Key of non-map type " + typeString(t))
		}
		return st.rtypeOf(m.Key())
	})
	tm("Len", func(st *State, t types.Type, a []Value) Value {
		m, ok := t.Underlying().(*types.Array)
		if !ok {
			st.strPanic("reflect: Len of non-array type " + typeString(t))
		}
		return e64(m.Len())
	})
	tm("Name", func(st *State, t types.Type, a []Value) Value {
		switch u := t.(type) {
		case *types.Named:
			return st.prog.strConst(u.Obj().Name() + typeArgs(u))
		case *types.Basic:
			return st.prog.strConst(u.Name())
		}
		return Str{}
	})
	tm("PkgPath", func(st *State, t types.Type, a []Value) Value {
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return st.prog.strConst(n.Obj().Pkg().Path())
		}
		return Str{}
	})
	tm("String", func(st *State, t types.Type, a []Value) Value { return st.prog.strConst(typeString(t)) })
	tm("Size", func(st *State, t types.Type, a []Value) Value { return e64(st.prog.Type(t).Size) })
	tm("Align", func(st *State, t types.Type, a []Value) Value { return e64(st.prog.Type(t).Align) })
	tm("FieldAlign", func(st *State, t types.Type, a []Value) Value { return e64(st.prog.Type(t).Align) })
	tm("Bits", func(st *State, t types.Type, a []Value) Value { return e64(st.prog.Type(t).Size * 8) })
	tm("NumField", func(st *State, t types.Type, a []Value) Value {
		return e64(int64(structOf(st, t, "NumField").NumFields()))
	})
	tm("Field", func(st *State, t types.Type, a []Value) Value {
		s := structOf(st, t, "Field")
		i := st.concreteInt(a[0])
		if i < 0 || i >= int64(s.NumFields()) {
			st.strPanic("reflect: Field index out of bounds")
		}
		return st.structField(t, int(i))
	})
	tm("FieldByName", func(st *State, t types.Type, a []Value) Value {
		s := structOf(st, t, "FieldByName")
		n := st.mustString(a[0])
		if i := fieldNamed(s, n); i >= 0 {
			return Agg{st.structField(t, i), sym.True}
		}
		return Agg{st.prog.zero(st.prog.Pkgs["reflect"].Type("StructField").Type()), sym.False}
	})
	tm("NumMethod", func(st *State, t types.Type, a []Value) Value {
		if i, ok := t.Underlying().(*types.Interface); ok {
			return e64(int64(i.NumMethods()))
		}
		n := 0
		ms := st.prog.SSA.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return e64(int64(n))
	})
	tm("Implements", func(st *State, t types.Type, a []Value) Value {
		return sym.Bool(st.prog.implements(st.prog.Type(t), st.typeOfIface(a[0].(Iface))))
	})
	tm("AssignableTo", func(st *State, t types.Type, a []Value) Value {
		return sym.Bool(types.AssignableTo(t, st.typeOfIface(a[0].(Iface))))
	})
	tm("ConvertibleTo", func(st *State, t types.Type, a []Value) Value {
		return sym.Bool(types.ConvertibleTo(t, st.typeOfIface(a[0].(Iface))))
	})
	tm("Comparable", func(st *State, t types.Type, a []Value) Value { return sym.Bool(types.Comparable(t)) })

	// package functions
	typeOf := func(st *State, c *callCtx) Value {
		f := c.args[0].(Iface)
		if f.T == nil {
			return Iface{}
		}
		return st.rtypeOf(f.T.T)
	}
	reg(typeOf, "reflect.TypeOf")
	reg(func(st *State, c *callCtx) Value {
		return st.rtypeOf(c.fn.F.TypeArgs()[0])
	}, "reflect.TypeFor")
	newOf := func(st *State, t types.Type) rv {
		ti := st.prog.Type(t)
		return rv{st.prog.Type(types.NewPointer(t)).T, st.typed(st.alloc(ti.Size, typeString(t)), ti), 0}
	}
	reg(func(st *State, c *callCtx) Value {
		if c.args[0].(Iface).T == nil {
			st.strPanic("reflect: New(nil)")
		}
		return st.mkRval(newOf(st, st.typeOfIface(c.args[0].(Iface))))
	}, "reflect.New")
	reg(func(st *State, c *callCtx) Value {
		t := st.typeOfIface(c.args[0].(Iface))
		return st.mkRval(rv{st.prog.Type(types.NewPointer(t)).T, c.ptr(1), 0})
	}, "reflect.NewAt")
	reg(func(st *State, c *callCtx) Value {
		t := st.typeOfIface(c.args[0].(Iface))
		return st.mkRval(st.rnew(t, st.prog.zero(t)))
	}, "reflect.Zero")
	reg(func(st *State, c *callCtx) Value {
		f := c.args[0].(Iface)
		if f.T == nil {
			return st.mkRval(rv{})
		}
		if f.T.Direct {
			return st.mkRval(rv{f.T.T, f.D.(Ptr), 0})
		}
		return st.mkRval(rv{f.T.T, f.D.(Ptr), flagIndir})
	}, "reflect.ValueOf")
	elem := func(st *State, v rv) rv {
		st.rkind(v, "Elem", reflect.Ptr, reflect.Interface)
		x := st.rload(v)
		if p, ok := x.(Ptr); ok {
			if p.IsNil() {
				return rv{}
			}
			return rv{v.t.Underlying().(*types.Pointer).Elem(), p, flagIndir | flagAddr | v.flag&flagRO}
		}
		f := x.(Iface)
		if f.T == nil {
			return rv{}
		}
		if f.T.Direct {
			return rv{f.T.T, f.D.(Ptr), 0}
		}
		return rv{f.T.T, f.D.(Ptr), flagIndir}
	}
	reg(func(st *State, c *callCtx) Value {
		v := st.rval(c.args[0])
		if v.t == nil || kindOf(v.t) != reflect.Ptr {
			return c.args[0]
		}
		return st.mkRval(elem(st, v))
	}, "reflect.Indirect")
	reg(func(st *State, c *callCtx) Value {
		s := c.args[0].(Slice)
		ft := st.prog.Pkgs["reflect"].Type("StructField").Type()
		es := st.prog.Type(ft).Size
		var fs []*types.Var
		var tags []string
		for i := int64(0); i < s.Len; i++ {
			a := st.load(Ptr{s.P.Obj, s.P.Off + i*es}, ft).(Agg)
			name, pkg := st.mustString(a[0]), st.mustString(a[1])
			if name == "" {
				st.strPanic("reflect.StructOf: field has no name")
			}
			if pkg == "" && !(name[0] >= 'A' && name[0] <= 'Z') {
				st.strPanic("reflect.StructOf: field \"" + name + "\" is unexported but missing PkgPath")
			}
			if a[2].(Iface).T == nil {
				st.strPanic("reflect.StructOf: field has no type")
			}
			var p *types.Package
			if pkg != "" {
				if sp := st.prog.Pkgs[pkg]; sp != nil {
					p = sp.Pkg
				} else {
					bail("StructOf with unknown package %s", pkg)
				}
			}
			for _, o := range fs {
				if o.Name() == name {
					st.strPanic("reflect.StructOf: duplicate field " + name)
				}
			}
			fs = append(fs, types.NewField(0, p, name, st.typeOfIface(a[2].(Iface)), a[6].(*sym.Expr) == sym.True))
			tags = append(tags, st.mustString(a[3]))
		}
		return st.rtypeOf(st.prog.Type(types.NewStruct(fs, tags)).T)
	}, "reflect.StructOf")
	reg(func(st *State, c *callCtx) Value {
		return st.rtypeOf(st.prog.Type(types.NewSlice(st.typeOfIface(c.args[0].(Iface)))).T)
	}, "reflect.SliceOf")
	reg(func(st *State, c *callCtx) Value {
		return st.rtypeOf(st.prog.Type(types.NewPointer(st.typeOfIface(c.args[0].(Iface)))).T)
	}, "reflect.PointerTo", "reflect.PtrTo")
	reg(func(st *State, c *callCtx) Value {
		return st.rtypeOf(st.prog.Type(types.NewArray(st.typeOfIface(c.args[1].(Iface)), st.concreteInt(c.args[0]))).T)
	}, "reflect.ArrayOf")
	reg(func(st *State, c *callCtx) Value {
		return st.rtypeOf(st.prog.Type(types.NewMap(st.typeOfIface(c.args[0].(Iface)), st.typeOfIface(c.args[1].(Iface)))).T)
	}, "reflect.MapOf")
	reg(func(st *State, c *callCtx) Value {
		t := st.typeOfIface(c.args[0].(Iface))
		u, ok := t.Underlying().(*types.Slice)
		if !ok {
			st.strPanic("reflect.MakeSlice of non-slice type")
		}
		i := types.Typ[types.Int]
		return st.mkRval(st.rnew(t, st.makeSlice(st.prog.Type(u.Elem()), c.args[1], c.args[2], i, i)))
	}, "reflect.MakeSlice")
	reg(func(st *State, c *callCtx) Value {
		t := st.typeOfIface(c.args[0].(Iface))
		if _, ok := t.Underlying().(*types.Map); !ok {
			st.strPanic("reflect.MakeMapWithSize of non-map type")
		}
		return st.mkRval(rv{t, st.makeMap(st.prog.Type(t)), 0})
	}, "reflect.MakeMap", "reflect.MakeMapWithSize")
	reg(func(st *State, c *callCtx) Value {
		tag := st.mustString(c.args[0])
		v, ok := reflect.StructTag(tag).Lookup(st.mustString(c.args[1]))
		return Agg{st.prog.strConst(v), sym.Bool(ok)}
	}, "(reflect.StructTag).Lookup")
	reg(func(st *State, c *callCtx) Value {
		return st.prog.strConst(reflect.StructTag(st.mustString(c.args[0])).Get(st.mustString(c.args[1])))
	}, "(reflect.StructTag).Get")
	reg(func(st *State, c *callCtx) Value {
		return st.prog.strConst(reflect.Kind(st.concreteInt(c.args[0])).String())
	}, "(reflect.Kind).String")

	// methods of reflect.Value
	vm := func(n string, f func(st *State, v rv, a []Value) Value) {
		reg(func(st *State, c *callCtx) Value { return f(st, st.rval(c.args[0]), c.args[1:]) }, "(reflect.Value)."+n)
	}
	vm("IsValid", func(st *State, v rv, a []Value) Value { return sym.Bool(v.t != nil) })
	vm("Kind", func(st *State, v rv, a []Value) Value {
		if v.t == nil {
			return e64(0)
		}
		return e64(int64(kindOf(v.t)))
	})
	vm("Type", func(st *State, v rv, a []Value) Value {
		if v.t == nil {
			st.rkind(v, "Type")
		}
		return st.rtypeOf(v.t)
	})
	vm("Elem", func(st *State, v rv, a []Value) Value { return st.mkRval(elem(st, v)) })
	pointer := func(st *State, v rv, m string) Ptr {
		st.rkind(v, m, reflect.Ptr, reflect.Map, reflect.Chan, reflect.UnsafePointer, reflect.Slice, reflect.Func)
		switch x := st.rload(v).(type) {
		case Ptr:
			return x
		case Slice:
			return x.P
		}
		bail("reflect pointer")
		return nilPtr
	}
	vm("Pointer", func(st *State, v rv, a []Value) Value { return pointer(st, v, "Pointer") })
	vm("UnsafePointer", func(st *State, v rv, a []Value) Value { return pointer(st, v, "UnsafePointer") })
	vm("UnsafeAddr", func(st *State, v rv, a []Value) Value {
		if v.t == nil || v.flag&flagAddr == 0 {
			st.strPanic("reflect.Value.UnsafeAddr of unaddressable value")
		}
		return v.p
	})
	vm("CanAddr", func(st *State, v rv, a []Value) Value { return sym.Bool(v.flag&flagAddr != 0) })
	vm("CanSet", func(st *State, v rv, a []Value) Value { return sym.Bool(v.flag&flagAddr != 0 && v.flag&flagRO == 0) })
	vm("CanInterface", func(st *State, v rv, a []Value) Value { return sym.Bool(v.flag&flagRO == 0) })
	vm("Addr", func(st *State, v rv, a []Value) Value {
		if v.flag&flagAddr == 0 {
			st.strPanic("reflect.Value.Addr of unaddressable value")
		}
		return st.mkRval(rv{st.prog.Type(types.NewPointer(v.t)).T, v.p, v.flag & flagRO})
	})
	vm("Interface", func(st *State, v rv, a []Value) Value {
		if v.t == nil {
			st.rkind(v, "Interface")
		}
		if v.flag&flagRO != 0 {
			st.strPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		x := st.rload(v)
		if f, ok := x.(Iface); ok && types.IsInterface(v.t) {
			return f
		}
		return st.mkInterface(st.prog.Type(v.t), x)
	})
	vm("IsNil", func(st *State, v rv, a []Value) Value {
		st.rkind(v, "IsNil", reflect.Ptr, reflect.Map, reflect.Chan, reflect.UnsafePointer, reflect.Slice, reflect.Func, reflect.Interface)
		switch x := st.rload(v).(type) {
		case Ptr:
			return sym.Bool(x.IsNil())
		case Slice:
			return sym.Bool(x.P.IsNil())
		case Iface:
			return sym.Bool(x.T == nil)
		}
		return sym.False
	})
	vm("IsZero", func(st *State, v rv, a []Value) Value {
		if v.t == nil {
			st.rkind(v, "IsZero")
		}
		if isFloat(v.t) {
			e := st.rload(v).(*sym.Expr)
			return sym.Eq(e, sym.Const(0, e.W))
		}
		x := st.rload(v)
		if m, ok := x.(Slice); ok {
			return sym.Bool(m.P.IsNil())
		}
		return st.eq(x, st.prog.zero(v.t), v.t)
	})
	vm("Len", func(st *State, v rv, a []Value) Value {
		st.rkind(v, "Len", reflect.Slice, reflect.String, reflect.Map, reflect.Array)
		switch x := st.rload(v).(type) {
		case Slice:
			return e64(x.Len)
		case Str:
			return e64(x.Len)
		case Agg:
			return e64(int64(len(x)))
		case Ptr:
			if x.IsNil() {
				return e64(0)
			}
			st.mapRace(x, false)
			return e64(int64(len(st.mapObj(x).entries)))
		}
		return nil
	})
	vm("Cap", func(st *State, v rv, a []Value) Value {
		st.rkind(v, "Cap", reflect.Slice)
		return e64(st.rload(v).(Slice).Cap)
	})
	vm("NumField", func(st *State, v rv, a []Value) Value {
		st.rkind(v, "NumField", reflect.Struct)
		return e64(int64(v.t.Underlying().(*types.Struct).NumFields()))
	})
	field := func(st *State, v rv, i int64) Value {
		s := v.t.Underlying().(*types.Struct)
		if i < 0 || i >= int64(s.NumFields()) {
			st.strPanic("reflect: Field index out of range")
		}
		f := s.Field(int(i))
		fl := v.flag & (flagIndir | flagAddr | flagRO)
		if !f.Exported() {
			fl |= flagRO
		}
		if v.flag&flagIndir == 0 {
			return st.mkRval(rv{f.Type(), v.p, fl})
		}
		return st.mkRval(rv{f.Type(), Ptr{v.p.Obj, v.p.Off + st.prog.Type(v.t).offs[i]}, fl})
	}
	vm("Field", func(st *State, v rv, a []Value) Value {
		st.rkind(v, "Field", reflect.Struct)
		return field(st, v, st.concreteInt(a[0]))
	})
	vm("FieldByName", func(st *State, v rv, a []Value) Value {
		st.rkind(v, "FieldByName", reflect.Struct)
		i := fieldNamed(v.t.Underlying().(*types.Struct), st.mustString(a[0]))
		if i < 0 {
			return st.mkRval(rv{})
		}
		return field(st, v, int64(i))
	})
	vm("Index", func(st *State, v rv, a []Value) Value {
		st.rkind(v, "Index", reflect.Slice, reflect.String, reflect.Array)
		switch x := st.rload(v).(type) {
		case Slice:
			et := v.t.Underlying().(*types.Slice).Elem()
			i := st.boundCheck(a[0].(*sym.Expr), true, x.Len, "reflect: slice index out of range")
			return st.mkRval(rv{et, Ptr{x.P.Obj, x.P.Off + i*st.prog.Type(et).Size}, flagIndir | flagAddr | v.flag&flagRO})
		case Str:
			i := st.boundCheck(a[0].(*sym.Expr), true, x.Len, "reflect: string index out of range")
			return st.mkRval(st.rnew(types.Typ[types.Uint8], st.loadByte(Ptr{x.P.Obj, x.P.Off + i})))
		}
		bail("reflect.Value.Index of an array")
		return nil
	})
	scalar := func(n string, w uint8, signed bool, ks ...reflect.Kind) {
		vm(n, func(st *State, v rv, a []Value) Value {
			st.rkind(v, n, ks...)
			e := st.rload(v).(*sym.Expr)
			if w == 0 {
				return e
			}
			if isFloat(v.t) {
				if e.W == 32 {
					return widen(e)
				}
				return e
			}
			if signed {
				return sym.SExt(e, w)
			}
			return sym.ZExt(e, w)
		})
	}
	ints := []reflect.Kind{reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64}
	uints := []reflect.Kind{reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr}
	scalar("Int", 64, true, ints...)
	scalar("Uint", 64, false, uints...)
	scalar("Float", 64, false, reflect.Float32, reflect.Float64)
	scalar("Bool", 0, false, reflect.Bool)
	vm("String", func(st *State, v rv, a []Value) Value {
		if v.t == nil {
			return st.prog.strConst("<invalid Value>")
		}
		if s, ok := st.rload(v).(Str); ok {
			return s
		}
		return st.prog.strConst("<" + typeString(v.t) + " Value>")
	})
	vm("Bytes", func(st *State, v rv, a []Value) Value {
		st.rkind(v, "Bytes", reflect.Slice)
		return st.rload(v)
	})
	set := func(n string, conv func(st *State, v rv, x Value) Value, ks ...reflect.Kind) {
		vm(n, func(st *State, v rv, a []Value) Value {
			st.rassignable(v, n)
			if len(ks) > 0 {
				st.rkind(v, n, ks...)
			}
			st.store(v.p, v.t, conv(st, v, a[0]))
			return nil
		})
	}
	trunc := func(st *State, v rv, x Value) Value {
		w := st.prog.width(v.t)
		if e := x.(*sym.Expr); e.W > w {
			return sym.Extract(e, 0, w)
		}
		return x
	}
	same := func(st *State, v rv, x Value) Value { return x }
	set("SetInt", trunc, ints...)
	set("SetUint", trunc, uints...)
	set("SetBool", same, reflect.Bool)
	set("SetString", same, reflect.String)
	set("SetBytes", same, reflect.Slice)
	set("SetPointer", same, reflect.UnsafePointer)
	set("SetFloat", func(st *State, v rv, x Value) Value {
		return st.convert(x, types.Typ[types.Float64], v.t)
	}, reflect.Float32, reflect.Float64)
	set("Set", func(st *State, v rv, x Value) Value {
		w := st.rval(x)
		if w.t == nil {
			st.rkind(w, "Set")
		}
		if types.IsInterface(v.t) && !types.IsInterface(w.t) {
			return st.mkInterface(st.prog.Type(w.t), st.rload(w))
		}
		if !types.AssignableTo(w.t, v.t) {
			st.strPanic("reflect.Set: value of type " + typeString(w.t) + " is not assignable to type " + typeString(v.t))
		}
		return st.rload(w)
	})
	vm("Slice", func(st *State, v rv, a []Value) Value {
		st.rkind(v, "Slice", reflect.Slice, reflect.String, reflect.Array)
		switch x := st.rload(v).(type) {
		case Slice:
			et := v.t.Underlying().(*types.Slice).Elem()
			j := st.boundCheck(a[1].(*sym.Expr), true, x.Cap+1, "reflect.Value.Slice: slice index out of bounds")
			i := st.boundCheck(a[0].(*sym.Expr), true, j+1, "reflect.Value.Slice: slice index out of bounds")
			return st.mkRval(st.rnew(v.t, Slice{Ptr{x.P.Obj, x.P.Off + i*st.prog.Type(et).Size}, j - i, x.Cap - i}))
		case Str:
			j := st.boundCheck(a[1].(*sym.Expr), true, x.Len+1, "reflect.Value.Slice: string slice index out of bounds")
			i := st.boundCheck(a[0].(*sym.Expr), true, j+1, "reflect.Value.Slice: string slice index out of bounds")
			return st.mkRval(st.rnew(v.t, Str{Ptr{x.P.Obj, x.P.Off + i}, j - i}))
		}
		bail("reflect.Value.Slice of an array")
		return nil
	})
	vm("SetLen", func(st *State, v rv, a []Value) Value {
		st.rassignable(v, "SetLen")
		st.rkind(v, "SetLen", reflect.Slice)
		s := st.rload(v).(Slice)
		n := st.boundCheck(a[0].(*sym.Expr), true, s.Cap+1, "reflect: slice length out of range in SetLen")
		st.store(v.p, v.t, Slice{s.P, n, s.Cap})
		return nil
	})
	vm("SetZero", func(st *State, v rv, a []Value) Value {
		st.rassignable(v, "SetZero")
		st.store(v.p, v.t, st.prog.zero(v.t))
		return nil
	})
	grow := func(st *State, v rv, n int64) Slice {
		s := st.rload(v).(Slice)
		et := st.prog.Type(v.t.Underlying().(*types.Slice).Elem())
		if s.Len+n > s.Cap {
			g := st.growslice(et, s, s.Len+n)
			g.Len = s.Len
			return g
		}
		return s
	}
	vm("Grow", func(st *State, v rv, a []Value) Value {
		st.rassignable(v, "Grow")
		n := st.concreteInt(a[0])
		if n < 0 {
			st.strPanic("reflect.Value.Grow: negative len")
		}
		st.store(v.p, v.t, grow(st, v, n))
		return nil
	})
	mapOf := func(st *State, v rv, m string) (Ptr, *types.Map) {
		st.rkind(v, m, reflect.Map)
		return st.rload(v).(Ptr), v.t.Underlying().(*types.Map)
	}
	vm("MapIndex", func(st *State, v rv, a []Value) Value {
		m, mt := mapOf(st, v, "MapIndex")
		i := st.mapFind(m, mt, st.rload(st.rval(a[0])))
		if i < 0 {
			return st.mkRval(rv{})
		}
		return st.mkRval(st.rnew(mt.Elem(), st.load(Ptr{st.mapObj(m).entries[i].val, 0}, mt.Elem())))
	})
	vm("SetMapIndex", func(st *State, v rv, a []Value) Value {
		m, mt := mapOf(st, v, "SetMapIndex")
		k, e := st.rload(st.rval(a[0])), st.rval(a[1])
		if e.t == nil {
			st.mapDelete(m, mt, k)
			return nil
		}
		st.mapUpdate(m, mt, k, st.rload(e))
		return nil
	})
	vm("MapKeys", func(st *State, v rv, a []Value) Value {
		m, mt := mapOf(st, v, "MapKeys")
		it := st.newMapIter(m)
		vt := st.prog.Type(st.prog.Pkgs["reflect"].Type("Value").Type())
		p := st.alloc(vt.Size*int64(len(it.order)), "[]reflect.Value")
		for i, e := range it.order {
			st.store(Ptr{p.Obj, int64(i) * vt.Size}, vt.T, st.mkRval(st.rnew(mt.Key(), st.load(Ptr{e.key, 0}, mt.Key()))))
		}
		return Slice{p, int64(len(it.order)), int64(len(it.order))}
	})
	// MapRange: the iterator is modelled in the side table of a *reflect.MapIter
	type miter struct {
		it  mapIter
		cur *mapEntry
		mt  *types.Map
	}
	vm("MapRange", func(st *State, v rv, a []Value) Value {
		m, mt := mapOf(st, v, "MapRange")
		t := st.prog.Type(st.prog.Pkgs["reflect"].Type("MapIter").Type())
		it := *st.newMapIter(m)
		p := st.alloc(t.Size, "reflect.MapIter")
		st.setSide(p, miter{it: it, mt: mt})
		return p
	})
	reg(func(st *State, c *callCtx) Value {
		m, ok := st.side(c.ptr(0)).(miter)
		if !ok {
			bail("MapIter without MapRange")
		}
		if !m.it.m.IsNil() {
			m.it, m.cur = st.iterNext(m.it)
		}
		st.setSide(c.ptr(0), m)
		return sym.Bool(m.cur != nil)
	}, "(*reflect.MapIter).Next")
	iterVal := func(key bool) intrinsic {
		return func(st *State, c *callCtx) Value {
			m, ok := st.side(c.ptr(0)).(miter)
			if !ok || m.cur == nil {
				st.strPanic("MapIter called before Next")
			}
			if key {
				return st.mkRval(st.rnew(m.mt.Key(), st.load(Ptr{m.cur.key, 0}, m.mt.Key())))
			}
			return st.mkRval(st.rnew(m.mt.Elem(), st.load(Ptr{m.cur.val, 0}, m.mt.Elem())))
		}
	}
	reg(iterVal(true), "(*reflect.MapIter).Key")
	reg(iterVal(false), "(*reflect.MapIter).Value")
	reg(func(st *State, c *callCtx) Value {
		s := st.rval(c.args[0])
		st.rkind(s, "Append", reflect.Slice)
		xs := c.args[1].(Slice)
		vt := st.prog.Type(st.prog.Pkgs["reflect"].Type("Value").Type())
		et := st.prog.Type(s.t.Underlying().(*types.Slice).Elem())
		var vals []Value
		for i := int64(0); i < xs.Len; i++ {
			vals = append(vals, st.rload(st.rval(st.load(Ptr{xs.P.Obj, xs.P.Off + i*vt.Size}, vt.T))))
		}
		r := grow(st, s, int64(len(vals)))
		for _, v := range vals {
			st.store(Ptr{r.P.Obj, r.P.Off + r.Len*et.Size}, et.T, v)
			r.Len++
		}
		return st.mkRval(st.rnew(s.t, r))
	}, "reflect.Append")
	reg(func(st *State, c *callCtx) Value {
		d, s := st.rval(c.args[0]), st.rval(c.args[1])
		st.rkind(d, "Copy", reflect.Slice)
		a := st.rload(d).(Slice)
		var src Ptr
		var n int64
		switch x := st.rload(s).(type) {
		case Slice:
			src, n = x.P, x.Len
		case Str:
			src, n = x.P, x.Len
		}
		if a.Len < n {
			n = a.Len
		}
		st.memmove(a.P, src, n*st.prog.Type(d.t.Underlying().(*types.Slice).Elem()).Size)
		return e64(n)
	}, "reflect.Copy")

	// internal/reflectlite (used by errors and sort)
	reg(func(st *State, c *callCtx) Value {
		bail("internal/reflectlite is not modelled")
		return nil
	}, "internal/reflectlite.TypeOf", "internal/reflectlite.ValueOf", "internal/reflectlite.Swapper")
	_ = fmt.Sprint
	_ = ssa.InstantiateGenerics
}
