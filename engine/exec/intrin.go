package exec

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/sym"
)

type intrDef struct {
	f       intrinsic
	visible bool
}

var intrinsics = map[string]intrDef{}

// redirects replace library functions by Go models executed like any other code.
var redirects = map[string]string{
	"fmt.Sprintf":        "Sprintf",
	"fmt.Errorf":         "Errorf",
	"fmt.Sprint":         "Sprint",
	"fmt.Sprintln":       "Sprintln",
	"fmt.Fprintf":        "Fprintf",
	"fmt.Fprint":         "Fprint",
	"fmt.Fprintln":       "Fprintln",
	"errors.Is":          "ErrorsIs",
	"errors.As":          "ErrorsAs",
	"strconv.Itoa":       "Itoa",
	"strconv.FormatInt":  "FormatInt",
	"strconv.FormatUint": "FormatUint",
	"strconv.AppendInt":  "AppendInt",
	"strconv.AppendUint": "AppendUint",
	"sort.Slice":         "SortSlice",
	"sort.SliceStable":   "SortSlice",
}

// packages whose initialisers are not run (their state is modelled or unused)
func skipInit(path string) bool {
	switch path {
	case "runtime", "reflect", "sync", "sync/atomic", "os", "syscall", "time", "unsafe", "fmt", "log", "unique", "weak", "math/rand", "math/rand/v2", "hash/maphash", "flag", "testing":
		return true
	}
	return strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "google.golang.org/protobuf") || strings.HasPrefix(path, "go/") && !textual[path]
}

// packages that read and print Go text
var textual = map[string]bool{
	"go/token": true, "go/scanner": true, "go/parser": true, "go/ast": true, "go/printer": true, "go/format": true,
	"go/build/constraint": true, "go/doc/comment": true,
}

const ndPkg = "/internal/zzverif/nd"
const modelPkg = "/internal/zzverif/model"

func reg(f intrinsic, names ...string) {
	for _, n := range names {
		if _, dup := intrinsics[n]; dup {
			panic("duplicate intrinsic " + n)
		}
		intrinsics[n] = intrDef{f, false}
	}
}

func regv(f intrinsic, names ...string) {
	for _, n := range names {
		if _, dup := intrinsics[n]; dup {
			panic("duplicate intrinsic " + n)
		}
		intrinsics[n] = intrDef{f, true}
	}
}

func lookupIntrinsic(pr *Program, f *ssa.Function, fn *Fn) (intrinsic, bool) {
	name := fn.Name
	if d, ok := intrinsics[name]; ok {
		return d.f, d.visible
	}
	if fn.Pkg == pr.Module+ndPkg {
		if d, ok := intrinsics["nd."+f.Name()]; ok {
			return d.f, d.visible
		}
	}
	if name == "(*google.golang.org/protobuf/types/descriptorpb.MessageOptions).ProtoReflect" {
		if p := pr.Pkgs[pr.Module+"/internal/zzverif/g"]; p != nil {
			t := p.Func("MessageOptionsReflect")
			return func(st *State, c *callCtx) Value {
				st.push(st.prog.fn(t), c.args, nil, c.dst)
				c.pushed = true
				return nil
			}, false
		}
	}
	if m, ok := redirects[name]; ok && fn.Pkg != pr.Module+modelPkg {
		if p := pr.Pkgs[pr.Module+modelPkg]; p != nil {
			if t := p.Func(m); t != nil {
				return func(st *State, c *callCtx) Value {
					st.push(st.prog.fn(t), c.args, nil, c.dst)
					c.pushed = true
					return nil
				}, false
			}
		}
	}
	if t, ok := pr.linkname(f); ok {
		if d, ok := intrinsics["link:"+t]; ok {
			return d.f, d.visible
		}
	}
	if o := f.Object(); o != nil && fn.Pkg == "reflect" {
		// any other use of reflection would have to be modelled
		if f.Signature.Recv() != nil && strings.HasPrefix(name, "(reflect.Value)") || strings.HasPrefix(name, "(*reflect.rtype)") {
			return func(st *State, c *callCtx) Value { bail("not modelled: %s", name); return nil }, false
		}
	}
	return nil, false
}

func e64(n int64) *sym.Expr { return sym.Const(uint64(n), 64) }

// ---- helpers for intrinsics ----

func (c *callCtx) expr(i int) *sym.Expr { return c.args[i].(*sym.Expr) }
func (c *callCtx) ptr(i int) Ptr        { return c.args[i].(Ptr) }

func (st *State) side(p Ptr) interface{} {
	if p.Obj == 0 {
		st.nilDeref(p)
	}
	o := st.obj(p.Obj)
	if o == nil {
		panic(violation{"access through wild pointer"})
	}
	return o.side[p.Off]
}

func (st *State) setSide(p Ptr, v interface{}) {
	o := st.wobj(p.Obj)
	if o.side == nil {
		o.side = map[int64]interface{}{}
	}
	o.side[p.Off] = v
}

func (st *State) typeArg(p Ptr) *TypeInfo {
	if p.IsNil() {
		st.goPanicRuntime("invalid memory address or nil pointer dereference")
	}
	if p.Obj < 0 {
		if o := st.obj(p.Obj); o.kind == kType && p.Off == 0 {
			return o.typ
		}
	}
	panic(violation{"memory used as a type descriptor is not one"})
}

// bitLen is the number of bits needed to represent x, as a 64-bit term.
func bitLen(x *sym.Expr) *sym.Expr {
	r := sym.Const(0, 64)
	for i := uint8(0); i < x.W; i++ {
		r = sym.Ite(sym.Eq(sym.Extract(x, i, 1), sym.Const(1, 1)), sym.Const(uint64(i)+1, 64), r)
	}
	return r
}

func trailingZeros(x *sym.Expr) *sym.Expr {
	r := sym.Const(uint64(x.W), 64)
	for i := int(x.W) - 1; i >= 0; i-- {
		r = sym.Ite(sym.Eq(sym.Extract(x, uint8(i), 1), sym.Const(1, 1)), sym.Const(uint64(i), 64), r)
	}
	return r
}

func onesCount(x *sym.Expr) *sym.Expr {
	r := sym.Const(0, 64)
	for i := uint8(0); i < x.W; i++ {
		r = sym.Add(r, sym.ZExt(sym.Extract(x, i, 1), 64))
	}
	return r
}

type mutexState struct {
	locked  bool
	readers int
	vc, rvc vclock
}

func (st *State) mutex(p Ptr) mutexState {
	if m, ok := st.side(p).(mutexState); ok {
		return m
	}
	return mutexState{}
}

type poolItem struct {
	v  Iface
	vc vclock
}

type smapEntry struct {
	k  Value
	v  Value
	vc vclock
}

type smap struct{ e []smapEntry }

func init() {
	// ---- harness interface ----
	for _, d := range []struct {
		n string
		w uint8
	}{{"U8", 8}, {"U16", 16}, {"U32", 32}, {"U64", 64}} {
		w := d.w
		n := d.n
		reg(func(st *State, c *callCtx) Value { return st.newVar(w, n) }, "nd."+d.n)
	}
	reg(func(st *State, c *callCtx) Value {
		return sym.Eq(sym.Extract(st.newVar(8, "Bool"), 0, 1), sym.Const(1, 1))
	}, "nd.Bool")
	reg(func(st *State, c *callCtx) Value { st.assume(c.expr(0)); return nil }, "nd.Assume")
	reg(func(st *State, c *callCtx) Value {
		e := st.subst(c.expr(0))
		st.w.r.asserts.Add(1)
		ok, m := st.must(e)
		if !ok {
			msg, _ := st.goString(c.args[1].(Str))
			if m == nil {
				m = st.model
			}
			st.w.report(st, "assertion: "+msg, m)
			panic(killPath{})
		}
		return nil
	}, "nd.Assert")
	reg(func(st *State, c *callCtx) Value {
		s, _ := st.goString(c.args[0].(Str))
		if !st.reach[s] {
			st.reach[s] = true
		}
		return nil
	}, "nd.Reach")
	reg(func(st *State, c *callCtx) Value {
		s, _ := st.goString(c.args[0].(Str))
		st.obs = append(st.obs[:len(st.obs):len(st.obs)], obsRec{s, c.expr(1)})
		return nil
	}, "nd.Observe")
	reg(func(st *State, c *callCtx) Value {
		e := c.expr(0)
		return sym.Const(st.concrete(e), e.W)
	}, "nd.Concrete")
	regND2()
	for _, n := range []string{"nd.LongString", "nd.LongBytes"} {
		reg(func(st *State, c *callCtx) Value {
			p := st.alloc(16, "contents of symbolic length")
			o := st.obj(p.Obj)
			o.long = true
			if e := c.expr(0); !e.IsConst() {
				return Lazy{p, e}
			}
			bail("contents of symbolic length")
			return nil
		}, n)
	}
	reg(func(st *State, c *callCtx) Value {
		x, y := c.args[0].(Slice), c.args[1].(Slice)
		if x.Len != y.Len {
			return sym.False
		}
		return st.eqBytes(x.P, y.P, x.Len)
	}, "nd.SameBytes")
	reg(func(st *State, c *callCtx) Value {
		s := c.args[0].(Slice)
		if s.Len == 0 {
			return nil
		}
		b := st.bytesOf(s.P, s.Len)
		o := st.access(s.P, s.Len, true)
		for i, e := range b {
			o.cells[s.P.Off+int64(i)] = Cell{sym.Xor(e, sym.Const(0xff, 8)), 0, 1}
		}
		return nil
	}, "nd.Flip")
	reg(func(st *State, c *callCtx) Value {
		n := st.concreteInt(c.args[0])
		if n == 0 {
			return Slice{st.alloc(0, "ramp"), 0, 0}
		}
		p := st.alloc(n, "ramp")
		cells := st.obj(p.Obj).cells
		for i := range cells {
			cells[i] = Cell{sym.Const(uint64(i*7+13)&255, 8), 0, 1}
		}
		return Slice{p, n, n}
	}, "nd.Ramp")
	reg(func(st *State, c *callCtx) Value { st.collect(); return nil }, "nd.GC")
	reg(func(st *State, c *callCtx) Value {
		st.limit, st.allocated = st.concreteInt(c.args[0]), 0
		return nil
	}, "nd.Limit")
	reg(func(st *State, c *callCtx) Value {
		n := st.allocated
		st.limit = 0
		return e64(n)
	}, "nd.Allocated")
	reg(func(st *State, c *callCtx) Value {
		st.stress = st.branch(c.args[0].(*sym.Expr))
		st.collected = st.nheap
		return nil
	}, "nd.Stress")
	reg(func(st *State, c *callCtx) Value {
		st.steady = st.branch(c.args[0].(*sym.Expr))
		return nil
	}, "nd.Steady")
	reg(func(st *State, c *callCtx) Value {
		st.maxDepth = len(st.th().frames) + int(st.concreteInt(c.args[0]))
		return nil
	}, "nd.Stack")
	reg(func(st *State, c *callCtx) Value { return e64(st.steps) }, "nd.Work")
	reg(func(st *State, c *callCtx) Value {
		// Guarded(data []byte) []byte: a read-only copy followed by untouchable memory
		s := c.args[0].(Slice)
		b := st.bytesOf(s.P, s.Len)
		const slack = 16
		p := st.alloc(s.Len+slack, "the input buffer")
		o := st.obj(p.Obj)
		for i, e := range b {
			o.cells[i] = Cell{e, 0, 1}
		}
		o.guard, o.guardd, o.ro = s.Len, true, true
		return Slice{p, s.Len, s.Len + slack}
	}, "nd.Guarded")
	reg(func(st *State, c *callCtx) Value {
		f := c.ptr(0)
		o := st.obj(f.Obj)
		st.spawnThread(func() { st.push(o.fn, nil, o.free, -1) })
		return nil
	}, "nd.Spawn")
	regv(func(st *State, c *callCtx) Value {
		for i, t := range st.threads {
			if i != st.cur && !t.done {
				st.block()
			}
		}
		th := st.th()
		for i, t := range st.threads {
			if i != st.cur {
				st.acquire(vclock(t.vc))
			}
		}
		th.vc[st.cur]++
		st.threads = []*thread{th}
		st.cur = 0
		st.multi = false
		st.preempt = 0
		return nil
	}, "nd.Join")
	reg(func(st *State, c *callCtx) Value { return e64(int64(st.w.cfg.Tier)) }, "nd.Tier")
	// Table lookups by symbolic index without splitting.
	// formatting of one operand, used by the fmt model
	reg(func(st *State, c *callCtx) Value {
		verb := st.mustString(c.args[0])
		if v := c.args[1].(Iface); v.T != nil && (verb == "v" || verb == "s") {
			if b := basicOf(v.T.T); b != nil && b.Info()&types.IsString != 0 {
				return st.unbox(v)
			}
		}
		return st.concString(st.formatValue(verb, c.args[1].(Iface)))
	}, "github.com/RomiChan/protobuf/internal/zzverif/model.format")

	// integer tells the fmt model whether an operand is a symbolic integer (1 signed,
	// 2 unsigned) and gives its magnitude's raw bits.
	reg(func(st *State, c *callCtx) Value {
		v := c.args[0].(Iface)
		no := Agg{e64(0), e64(0)}
		if v.T == nil {
			return no
		}
		b := basicOf(v.T.T)
		if b == nil || b.Info()&types.IsInteger == 0 {
			return no
		}
		e, ok := st.unbox(v).(*sym.Expr)
		if !ok || e.IsConst() {
			return no
		}
		if isSigned(v.T.T) {
			return Agg{sym.SExt(e, 64), e64(1)}
		}
		return Agg{sym.ZExt(e, 64), e64(2)}
	}, "github.com/RomiChan/protobuf/internal/zzverif/model.integer")
	// digits gives the k decimal digits of u, which has exactly that many.
	reg(func(st *State, c *callCtx) Value {
		u, k := c.expr(0), int(st.concrete(c.expr(1)))
		if k > 19 {
			bail("decimal of a number with 20 digits")
		}
		u = st.subst(u)
		if u.IsConst() {
			return st.concString(strconv.FormatUint(u.K, 10))
		}
		p := st.alloc(int64(k), "decimal")
		val := strconv.FormatUint(sym.Eval(u, st.model), 10)
		if len(val) != k {
			bail("number of digits")
		}
		sum := sym.Const(0, 64)
		o := st.obj(p.Obj)
		for i := 0; i < k; i++ {
			d := st.newVar(8, "digit")
			n := len(st.nondet) - 1
			st.nondet = st.nondet[: n+1 : n+1]
			st.nondet[n].aux = true
			st.model = append(sym.Model(nil), st.model...)
			st.model[n] = uint64(val[i] - '0')
			lo := uint64(0)
			if i == 0 && k > 1 {
				lo = 1
			}
			st.assume(sym.Ule(d, sym.Const(9, 8)))
			st.assume(sym.Ule(sym.Const(lo, 8), d))
			sum = sym.Add(sym.Mul(sum, sym.Const(10, 64)), sym.ZExt(d, 64))
			o.cells[i] = Cell{sym.Add(d, sym.Const('0', 8)), 0, 1}
		}
		st.assume(sym.Eq(sum, u))
		return Str{p, int64(k)}
	}, "github.com/RomiChan/protobuf/internal/zzverif/model.digits")

	// ---- go/types ----
	reg(func(st *State, c *callCtx) Value {
		names := types.Universe.Names()
		et := st.prog.Type(types.Typ[types.String])
		p := st.alloc(et.Size*int64(len(names)), "names")
		for i, n := range names {
			st.store(Ptr{p.Obj, p.Off + et.Size*int64(i)}, types.Typ[types.String], st.concString(n))
		}
		return Slice{p, int64(len(names)), int64(len(names))}
	}, "(*go/types.Scope).Names")

	// ---- math/bits ----
	for _, w := range []string{"", "8", "16", "32", "64"} {
		reg(func(st *State, c *callCtx) Value { return bitLen(c.expr(0)) }, "math/bits.Len"+w)
		reg(func(st *State, c *callCtx) Value {
			return sym.Sub(e64(int64(c.expr(0).W)), bitLen(c.expr(0)))
		}, "math/bits.LeadingZeros"+w)
		reg(func(st *State, c *callCtx) Value { return trailingZeros(c.expr(0)) }, "math/bits.TrailingZeros"+w)
		reg(func(st *State, c *callCtx) Value { return onesCount(c.expr(0)) }, "math/bits.OnesCount"+w)
	}
	for _, n := range []string{"internal/runtime/sys", "runtime/internal/sys"} {
		for _, w := range []string{"8", "32", "64"} {
			reg(func(st *State, c *callCtx) Value { return bitLen(c.expr(0)) }, n+".Len"+w)
			reg(func(st *State, c *callCtx) Value { return trailingZeros(c.expr(0)) }, n+".TrailingZeros"+w)
		}
	}
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt} {
		f := f
		reg(func(st *State, c *callCtx) Value {
			e := c.expr(0)
			if !e.IsConst() {
				bail("symbolic floating point function")
			}
			return sym.Const(math.Float64bits(f(math.Float64frombits(e.K))), 64)
		}, "math."+n)
	}

	// ---- bytes and strings ----
	indexByte := func(st *State, p Ptr, n int64, b *sym.Expr) Value {
		for i, x := range st.bytesOf(p, n) {
			if st.branch(st.subst(sym.Eq(x, b))) {
				return e64(int64(i))
			}
		}
		return e64(-1)
	}
	count := func(st *State, p Ptr, n int64, b *sym.Expr) Value {
		k := 0
		for _, x := range st.bytesOf(p, n) {
			if st.branch(st.subst(sym.Eq(x, b))) {
				k++
			}
		}
		return e64(int64(k))
	}
	reg(func(st *State, c *callCtx) Value {
		s := c.args[0].(Slice)
		return indexByte(st, s.P, s.Len, c.expr(1))
	}, "internal/bytealg.IndexByte", "bytes.IndexByte")
	reg(func(st *State, c *callCtx) Value {
		s := c.args[0].(Str)
		return indexByte(st, s.P, s.Len, c.expr(1))
	}, "internal/bytealg.IndexByteString", "strings.IndexByte", "internal/stringslite.IndexByte")
	reg(func(st *State, c *callCtx) Value {
		s := c.args[0].(Slice)
		return count(st, s.P, s.Len, c.expr(1))
	}, "internal/bytealg.Count")
	reg(func(st *State, c *callCtx) Value {
		s := c.args[0].(Str)
		return count(st, s.P, s.Len, c.expr(1))
	}, "internal/bytealg.CountString")
	reg(func(st *State, c *callCtx) Value {
		a, b := c.args[0].(Slice), c.args[1].(Slice)
		if a.Len != b.Len {
			return sym.False
		}
		return st.eqBytes(a.P, b.P, a.Len)
	}, "internal/bytealg.Equal", "bytes.Equal")
	index := func(st *State, hp Ptr, hn int64, np Ptr, nn int64) Value {
		for i := int64(0); i+nn <= hn; i++ {
			if st.branch(st.subst(st.eqBytes(Ptr{hp.Obj, hp.Off + i}, np, nn))) {
				return e64(i)
			}
		}
		return e64(-1)
	}
	reg(func(st *State, c *callCtx) Value {
		a, b := c.args[0].(Str), c.args[1].(Str)
		return index(st, a.P, a.Len, b.P, b.Len)
	}, "strings.Index", "internal/bytealg.IndexString", "internal/stringslite.Index")
	reg(func(st *State, c *callCtx) Value {
		a, b := c.args[0].(Slice), c.args[1].(Slice)
		return index(st, a.P, a.Len, b.P, b.Len)
	}, "bytes.Index", "internal/bytealg.Index")
	cmp := func(st *State, ap Ptr, an int64, bp Ptr, bn int64) Value {
		x, y := Str{ap, an}, Str{bp, bn}
		lt := st.stringOp(tokLSS, x, y).(*sym.Expr)
		gt := st.stringOp(tokLSS, y, x).(*sym.Expr)
		return sym.Ite(lt, e64(-1), sym.Ite(gt, e64(1), e64(0)))
	}
	reg(func(st *State, c *callCtx) Value {
		a, b := c.args[0].(Slice), c.args[1].(Slice)
		return cmp(st, a.P, a.Len, b.P, b.Len)
	}, "bytes.Compare", "internal/bytealg.Compare")
	reg(func(st *State, c *callCtx) Value {
		a, b := c.args[0].(Str), c.args[1].(Str)
		return cmp(st, a.P, a.Len, b.P, b.Len)
	}, "strings.Compare", "internal/bytealg.CompareString")
	reg(func(st *State, c *callCtx) Value {
		st.fits(c.expr(0), 1)
		n := st.concreteInt(c.args[0])
		p := st.typed(st.alloc(n, "[]byte"), st.prog.byteType())
		return Slice{p, n, n}
	}, "internal/bytealg.MakeNoZero")
	reg(func(st *State, c *callCtx) Value { return c.args[0] }, "internal/abi.NoEscape", "internal/abi.Escape", "strings.noescape")
	reg(func(st *State, c *callCtx) Value { return nil }, "(*strings.Builder).copyCheck", "runtime.KeepAlive", "runtime.GC", "runtime.Gosched", "runtime.SetFinalizer", "link:runtime.procUnpin", "link:runtime.GC")

	// ---- runtime entry points reached by linkname ----
	reg(func(st *State, c *callCtx) Value {
		mt := st.typeArg(c.ptr(0))
		if _, ok := mt.T.Underlying().(*types.Map); !ok {
			panic(violation{"makemap of a non-map type"})
		}
		st.reserve(mt, c.expr(1))
		return st.makeMap(mt)
	}, "link:reflect.makemap", "link:runtime.makemap")
	reg(func(st *State, c *callCtx) Value {
		mt := st.typeArg(c.ptr(0))
		return st.makeMap(mt)
	}, "link:runtime.makemap_small")
	mapT := func(st *State, tp Ptr, m Ptr) *types.Map {
		ti := st.typeArg(tp)
		mt, ok := ti.T.Underlying().(*types.Map)
		if !ok {
			panic(violation{"map operation with a non-map type"})
		}
		if !m.IsNil() {
			if o := st.mapObj(m); !types.Identical(o.mt.T.Underlying(), mt) {
				panic(violation{"map operation with the wrong map type"})
			}
		}
		return mt
	}
	reg(func(st *State, c *callCtx) Value {
		mt := mapT(st, c.ptr(0), c.ptr(1))
		k := st.load(c.ptr(2), mt.Key())
		return st.mapSlot(c.ptr(1), mt, k)
	}, "link:runtime.mapassign")
	reg(func(st *State, c *callCtx) Value {
		mt := mapT(st, c.ptr(0), c.ptr(1))
		k := st.load(c.ptr(2), mt.Key())
		v := st.load(c.ptr(3), mt.Elem())
		st.mapUpdate(c.ptr(1), mt, k, v)
		return nil
	}, "link:reflect.mapassign", "link:reflect.mapassign0")
	access := func(st *State, c *callCtx) (Value, bool) {
		mt := mapT(st, c.ptr(0), c.ptr(1))
		k := st.load(c.ptr(2), mt.Key())
		i := st.mapFind(c.ptr(1), mt, k)
		if i < 0 {
			return nil, false
		}
		return Ptr{st.mapObj(c.ptr(1)).entries[i].val, 0}, true
	}
	zeroOf := func(st *State, c *callCtx) Value {
		mt := mapT(st, c.ptr(0), c.ptr(1))
		p := st.typed(st.alloc(st.prog.Type(mt.Elem()).Size, "zero value"), st.prog.Type(mt.Elem()))
		st.obj(p.Obj).ro = true
		return p
	}
	reg(func(st *State, c *callCtx) Value {
		if v, ok := access(st, c); ok {
			return v
		}
		return zeroOf(st, c)
	}, "link:runtime.mapaccess1")
	reg(func(st *State, c *callCtx) Value {
		if v, ok := access(st, c); ok {
			return Agg{v, sym.True}
		}
		return Agg{zeroOf(st, c), sym.False}
	}, "link:runtime.mapaccess2")
	reg(func(st *State, c *callCtx) Value {
		if v, ok := access(st, c); ok {
			return v
		}
		return nilPtr
	}, "link:reflect.mapaccess")
	reg(func(st *State, c *callCtx) Value {
		mt := mapT(st, c.ptr(0), c.ptr(1))
		if !c.ptr(1).IsNil() {
			st.mapDelete(c.ptr(1), mt, st.load(c.ptr(2), mt.Key()))
		}
		return nil
	}, "link:runtime.mapdelete", "link:reflect.mapdelete")
	reg(func(st *State, c *callCtx) Value {
		mapT(st, c.ptr(0), c.ptr(1))
		if !c.ptr(1).IsNil() {
			st.mapRace(c.ptr(1), true)
			st.wobj(c.ptr(1).Obj).entries = nil
		}
		return nil
	}, "link:runtime.mapclear", "link:reflect.mapclear")
	reg(func(st *State, c *callCtx) Value {
		if c.ptr(0).IsNil() {
			return e64(0)
		}
		st.mapRace(c.ptr(0), false)
		return e64(int64(len(st.mapObj(c.ptr(0)).entries)))
	}, "link:reflect.maplen", "link:runtime.maplen", "link:reflect.maplen0")
	setIter := func(st *State, it Ptr, e *mapEntry) {
		k, v := nilPtr, nilPtr
		if e != nil {
			k, v = Ptr{e.key, 0}, Ptr{e.val, 0}
		}
		st.storeInt(it, 8, k)
		st.storeInt(Ptr{it.Obj, it.Off + 8}, 8, v)
	}
	reg(func(st *State, c *callCtx) Value {
		mapT(st, c.ptr(0), c.ptr(1))
		it := *st.newMapIter(c.ptr(1))
		st.access(c.ptr(2), 32, true)
		var e *mapEntry
		if !it.m.IsNil() {
			it, e = st.iterNext(it)
		}
		id := st.newObj(&Object{kind: kChan, what: "map iterator", side: map[int64]interface{}{0: it}})
		p := c.ptr(2)
		st.storeInt(Ptr{p.Obj, p.Off + 16}, 8, c.ptr(0))
		st.storeInt(Ptr{p.Obj, p.Off + 24}, 8, Ptr{id, 0})
		setIter(st, p, e)
		return nil
	}, "link:runtime.mapiterinit", "link:reflect.mapiterinit")
	reg(func(st *State, c *callCtx) Value {
		p := c.ptr(0)
		ip := st.loadPtr(Ptr{p.Obj, p.Off + 24})
		if ip.IsNil() {
			st.goPanicRuntime("invalid memory address or nil pointer dereference")
		}
		it, ok := st.obj(ip.Obj).side[0].(mapIter)
		if !ok {
			panic(violation{"mapiternext on a corrupt iterator"})
		}
		var e *mapEntry
		if !it.m.IsNil() {
			it, e = st.iterNext(it)
		}
		st.setSide(ip, it)
		setIter(st, p, e)
		return nil
	}, "link:runtime.mapiternext", "link:reflect.mapiternext")
	reg(func(st *State, c *callCtx) Value {
		ti := st.typeArg(c.ptr(0))
		st.memmove(c.ptr(1), c.ptr(2), ti.Size)
		return nil
	}, "link:runtime.typedmemmove", "link:reflect.typedmemmove")
	reg(func(st *State, c *callCtx) Value {
		ti := st.typeArg(c.ptr(0))
		st.memzero(c.ptr(1), ti.Size)
		return nil
	}, "link:runtime.typedmemclr", "link:reflect.typedmemclr")
	reg(func(st *State, c *callCtx) Value {
		n := st.concreteInt(c.args[2])
		st.memmove(c.ptr(0), c.ptr(1), n)
		return nil
	}, "link:runtime.memmove", "link:reflect.memmove")
	reg(func(st *State, c *callCtx) Value {
		n := st.concreteInt(c.args[1])
		st.memzero(c.ptr(0), n)
		return nil
	}, "link:runtime.memclrNoHeapPointers", "link:reflect.memclrNoHeapPointers")
	reg(func(st *State, c *callCtx) Value {
		ti := st.typeArg(c.ptr(0))
		n := c.expr(1)
		es := ti.Size
		if es == 0 {
			es = 1
		}
		st.fits(n, ti.Size)
		if !st.branch(sym.Ule(n, sym.Const(uint64(maxAlloc/es), 64))) {
			st.goPanicRuntime("runtime: allocation size out of range")
		}
		k := int64(st.concrete(n))
		return st.typed(st.alloc(k*ti.Size, "[]"+ti.T.String()), ti)
	}, "link:runtime.newarray", "link:reflect.unsafe_NewArray")
	reg(func(st *State, c *callCtx) Value {
		ti := st.typeArg(c.ptr(0))
		return st.allocT(ti.Size, ti)
	}, "link:runtime.newobject", "link:reflect.unsafe_New")
	reg(func(st *State, c *callCtx) Value {
		st.fits(c.expr(0), 1)
		n := st.concreteInt(c.args[0])
		p := st.alloc(n, "mallocgc")
		if t := c.ptr(1); t.IsNil() {
			st.typed(p, st.prog.byteType())
		} else {
			st.typed(p, st.typeArg(t))
		}
		return p
	}, "link:runtime.mallocgc")
	reg(func(st *State, c *callCtx) Value {
		ti := st.typeArg(c.ptr(0))
		d, s := sliceArg(c.args[1]), sliceArg(c.args[2])
		n := d.Len
		if s.Len < n {
			n = s.Len
		}
		st.memmove(d.P, s.P, n*ti.Size)
		return e64(n)
	}, "link:reflect.typedslicecopy", "link:runtime.typedslicecopy")

	// ---- synchronisation ----
	regv(func(st *State, c *callCtx) Value {
		m := st.mutex(c.ptr(0))
		if m.locked || m.readers > 0 {
			st.block()
		}
		m.locked = true
		st.acquire(m.vc)
		st.acquire(m.rvc)
		st.setSide(c.ptr(0), m)
		return nil
	}, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*internal/sync.Mutex).Lock")
	regv(func(st *State, c *callCtx) Value {
		m := st.mutex(c.ptr(0))
		if m.locked || m.readers > 0 {
			return sym.False
		}
		m.locked = true
		st.acquire(m.vc)
		st.acquire(m.rvc)
		st.setSide(c.ptr(0), m)
		return sym.True
	}, "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*internal/sync.Mutex).TryLock")
	regv(func(st *State, c *callCtx) Value {
		m := st.mutex(c.ptr(0))
		if !m.locked {
			panic(violation{"fatal error: unlock of unlocked mutex"})
		}
		m.locked = false
		m.vc = st.release(m.vc)
		st.setSide(c.ptr(0), m)
		st.wake()
		return nil
	}, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*internal/sync.Mutex).Unlock")
	regv(func(st *State, c *callCtx) Value {
		m := st.mutex(c.ptr(0))
		if m.locked {
			st.block()
		}
		m.readers++
		st.acquire(m.vc)
		st.setSide(c.ptr(0), m)
		return nil
	}, "(*sync.RWMutex).RLock")
	regv(func(st *State, c *callCtx) Value {
		m := st.mutex(c.ptr(0))
		if m.readers == 0 {
			panic(violation{"fatal error: RUnlock of unlocked RWMutex"})
		}
		m.readers--
		m.rvc = st.release(m.rvc)
		st.setSide(c.ptr(0), m)
		st.wake()
		return nil
	}, "(*sync.RWMutex).RUnlock")
	// WaitGroup
	type wg struct {
		n  int64
		vc vclock
	}
	getwg := func(st *State, p Ptr) wg {
		w, _ := st.side(p).(wg)
		return w
	}
	addwg := func(st *State, p Ptr, d int64) {
		w := getwg(st, p)
		w.n += d
		if w.n < 0 {
			st.goPanicRuntime("sync: negative WaitGroup counter")
		}
		w.vc = st.release(w.vc)
		st.setSide(p, w)
		st.wake()
	}
	regv(func(st *State, c *callCtx) Value { addwg(st, c.ptr(0), st.concreteInt(c.args[1])); return nil }, "(*sync.WaitGroup).Add")
	regv(func(st *State, c *callCtx) Value { addwg(st, c.ptr(0), -1); return nil }, "(*sync.WaitGroup).Done")
	regv(func(st *State, c *callCtx) Value {
		w := getwg(st, c.ptr(0))
		if w.n > 0 {
			st.block()
		}
		st.acquire(w.vc)
		return nil
	}, "(*sync.WaitGroup).Wait")
	// Pool
	regv(func(st *State, c *callCtx) Value {
		p := c.ptr(0)
		items, _ := st.side(p).([]poolItem)
		n := len(items)
		if n > 2 {
			n = 2
		}
		if n > 0 {
			k := 0
			if !st.w.cfg.PoolAlwaysHits {
				k = st.choose(n + 1)
			}
			if k < n {
				i := len(items) - 1 - k
				it := items[i]
				rest := append(append([]poolItem(nil), items[:i]...), items[i+1:]...)
				st.acquire(it.vc)
				st.setSide(p, rest)
				return it.v
			}
		}
		// New
		pt := st.poolNewOffset()
		f := st.loadPtr(Ptr{p.Obj, p.Off + pt})
		if f.IsNil() {
			return Iface{}
		}
		st.callback(c, f, nil, c.dst)
		return nil
	}, "(*sync.Pool).Get")
	regv(func(st *State, c *callCtx) Value {
		p := c.ptr(0)
		v := c.args[1].(Iface)
		if v.T == nil {
			return nil
		}
		items, _ := st.side(p).([]poolItem)
		items = append(append([]poolItem(nil), items...), poolItem{v, st.release(vclock{})})
		st.setSide(p, items)
		return nil
	}, "(*sync.Pool).Put")
	regMaps()
	regAtomics()
	regReflect()
	reg(func(st *State, c *callCtx) Value {
		return nil
	}, "link:runtime_notifyListAdd")
	_ = strconv.Itoa
	_ = reflect.TypeOf
}

func sliceArg(v Value) Slice {
	switch s := v.(type) {
	case Slice:
		return s
	case Agg: // struct{data unsafe.Pointer; len, cap int}
		l, c := s[1].(*sym.Expr), s[2].(*sym.Expr)
		if !l.IsConst() || !c.IsConst() {
			bail("symbolic slice header")
		}
		return Slice{s[0].(Ptr), l.SVal(), c.SVal()}
	}
	bail("slice argument %T", v)
	return Slice{}
}

func (st *State) poolNewOffset() int64 {
	t := st.prog.Pkgs["sync"].Type("Pool").Type()
	ti := st.prog.Type(t)
	for i, f := range ti.fields {
		if f.Name() == "New" {
			return ti.offs[i]
		}
	}
	bail("sync.Pool has no New")
	return 0
}

// regMaps models sync.Map and syncx.Map as linearizable maps.
func regMaps() {
	const sy = "(*sync.Map)."
	const sx = "(*github.com/RomiChan/syncx.Map[K, V])."
	const hm = "(*internal/sync.HashTrieMap[K, V])."
	both := func(f intrinsic, n string) { regv(f, sy+n, sx+n, hm+n) }
	get := func(st *State, c *callCtx) []smapEntry {
		m, _ := st.side(c.ptr(0)).(smap)
		return m.e
	}
	anyT := types.NewInterfaceType(nil, nil).Complete()
	kt := func(c *callCtx, i int) types.Type {
		if c.sig != nil && c.sig.Params().Len() > i {
			return c.sig.Params().At(i).Type()
		}
		return anyT
	}
	find := func(st *State, es []smapEntry, k Value, t types.Type) int {
		for i, e := range es {
			if st.branch(st.eq(e.k, k, t)) {
				return i
			}
		}
		return -1
	}
	put := func(st *State, c *callCtx, es []smapEntry, i int, k, v Value) {
		n := append([]smapEntry(nil), es...)
		if i < 0 {
			n = append(n, smapEntry{k: k})
			i = len(n) - 1
		}
		n[i].v = v
		n[i].vc = st.release(vclock{})
		st.setSide(c.ptr(0), smap{n})
	}
	del := func(st *State, c *callCtx, es []smapEntry, i int) {
		n := append(append([]smapEntry(nil), es[:i]...), es[i+1:]...)
		st.setSide(c.ptr(0), smap{n})
	}
	zeroV := func(st *State, c *callCtx, i int) Value { return st.prog.zero(c.sig.Results().At(i).Type()) }
	both(func(st *State, c *callCtx) Value {
		es := get(st, c)
		i := find(st, es, c.args[1], kt(c, 0))
		if i < 0 {
			return Agg{zeroV(st, c, 0), sym.False}
		}
		st.acquire(es[i].vc)
		return Agg{es[i].v, sym.True}
	}, "Load")
	both(func(st *State, c *callCtx) Value {
		es := get(st, c)
		put(st, c, es, find(st, es, c.args[1], kt(c, 0)), c.args[1], c.args[2])
		return nil
	}, "Store")
	both(func(st *State, c *callCtx) Value {
		es := get(st, c)
		i := find(st, es, c.args[1], kt(c, 0))
		if i >= 0 {
			st.acquire(es[i].vc)
			return Agg{es[i].v, sym.True}
		}
		put(st, c, es, i, c.args[1], c.args[2])
		return Agg{c.args[2], sym.False}
	}, "LoadOrStore")
	both(func(st *State, c *callCtx) Value {
		es := get(st, c)
		i := find(st, es, c.args[1], kt(c, 0))
		if i < 0 {
			return Agg{zeroV(st, c, 0), sym.False}
		}
		st.acquire(es[i].vc)
		v := es[i].v
		del(st, c, es, i)
		return Agg{v, sym.True}
	}, "LoadAndDelete")
	both(func(st *State, c *callCtx) Value {
		es := get(st, c)
		if i := find(st, es, c.args[1], kt(c, 0)); i >= 0 {
			del(st, c, es, i)
		}
		return nil
	}, "Delete")
	both(func(st *State, c *callCtx) Value {
		es := get(st, c)
		i := find(st, es, c.args[1], kt(c, 0))
		if i >= 0 {
			st.acquire(es[i].vc)
			v := es[i].v
			put(st, c, es, i, c.args[1], c.args[2])
			return Agg{v, sym.True}
		}
		put(st, c, es, i, c.args[1], c.args[2])
		return Agg{zeroV(st, c, 0), sym.False}
	}, "Swap")
	both(func(st *State, c *callCtx) Value {
		es := get(st, c)
		i := find(st, es, c.args[1], kt(c, 0))
		if i < 0 || !st.branch(st.eq(es[i].v, c.args[2], kt(c, 1))) {
			return sym.False
		}
		st.acquire(es[i].vc)
		put(st, c, es, i, c.args[1], c.args[3])
		return sym.True
	}, "CompareAndSwap")
	both(func(st *State, c *callCtx) Value {
		es := get(st, c)
		i := find(st, es, c.args[1], kt(c, 0))
		if i < 0 || !st.branch(st.eq(es[i].v, c.args[2], kt(c, 1))) {
			return sym.False
		}
		del(st, c, es, i)
		return sym.True
	}, "CompareAndDelete")
	both(func(st *State, c *callCtx) Value {
		st.setSide(c.ptr(0), smap{})
		return nil
	}, "Clear")
	both(func(st *State, c *callCtx) Value {
		if len(get(st, c)) == 0 {
			return nil
		}
		bail("Range over a concurrent map")
		return nil
	}, "Range")
}

type atomicVC struct{ vc vclock }

func regAtomics() {
	sync := func(st *State, p Ptr, write bool) {
		a, _ := st.side(p).(atomicVC)
		st.acquire(a.vc)
		if write {
			a.vc = st.release(a.vc)
		}
		st.setSide(p, a)
	}
	// plain memory accesses of atomics must not count as races
	raw := func(st *State, f func() Value) Value {
		old := st.ignoreRace
		m := st.multi
		st.multi = false
		defer func() { st.ignoreRace = old; st.multi = m }()
		return f()
	}
	for _, d := range []struct {
		n string
		t types.Type
	}{{"Int32", types.Typ[types.Int32]}, {"Uint32", types.Typ[types.Uint32]}, {"Int64", types.Typ[types.Int64]}, {"Uint64", types.Typ[types.Uint64]}, {"Uintptr", types.Typ[types.Uintptr]}, {"Pointer", types.Typ[types.UnsafePointer]}} {
		t := d.t
		regv(func(st *State, c *callCtx) Value {
			return raw(st, func() Value {
				v := st.load(c.ptr(0), t)
				sync(st, c.ptr(0), false)
				return v
			})
		}, "sync/atomic.Load"+d.n)
		regv(func(st *State, c *callCtx) Value {
			return raw(st, func() Value {
				st.store(c.ptr(0), t, c.args[1])
				sync(st, c.ptr(0), true)
				return nil
			})
		}, "sync/atomic.Store"+d.n)
		regv(func(st *State, c *callCtx) Value {
			return raw(st, func() Value {
				v := st.load(c.ptr(0), t)
				st.store(c.ptr(0), t, c.args[1])
				sync(st, c.ptr(0), true)
				return v
			})
		}, "sync/atomic.Swap"+d.n)
		regv(func(st *State, c *callCtx) Value {
			return raw(st, func() Value {
				v := st.load(c.ptr(0), t)
				if st.branch(st.eq(v, c.args[1], t)) {
					st.store(c.ptr(0), t, c.args[2])
					sync(st, c.ptr(0), true)
					return sym.True
				}
				sync(st, c.ptr(0), false)
				return sym.False
			})
		}, "sync/atomic.CompareAndSwap"+d.n)
		if d.n != "Pointer" {
			regv(func(st *State, c *callCtx) Value {
				return raw(st, func() Value {
					v := sym.Add(st.load(c.ptr(0), t).(*sym.Expr), c.expr(1))
					st.store(c.ptr(0), t, v)
					sync(st, c.ptr(0), true)
					return v
				})
			}, "sync/atomic.Add"+d.n)
		}
	}
	// atomic.Value
	type av struct {
		v  Iface
		vc vclock
	}
	regv(func(st *State, c *callCtx) Value {
		a, _ := st.side(c.ptr(0)).(av)
		st.acquire(a.vc)
		return a.v
	}, "(*sync/atomic.Value).Load")
	regv(func(st *State, c *callCtx) Value {
		a, _ := st.side(c.ptr(0)).(av)
		v := c.args[1].(Iface)
		if v.T == nil {
			st.goPanicRuntime("sync/atomic: store of nil value into Value")
		}
		if a.v.T != nil && a.v.T != v.T {
			st.goPanicRuntime("sync/atomic: store of inconsistently typed value into Value")
		}
		a.v = v
		a.vc = st.release(a.vc)
		st.setSide(c.ptr(0), a)
		return nil
	}, "(*sync/atomic.Value).Store")
	regv(func(st *State, c *callCtx) Value {
		a, _ := st.side(c.ptr(0)).(av)
		v := c.args[1].(Iface)
		old := a.v
		st.acquire(a.vc)
		a.v = v
		a.vc = st.release(a.vc)
		st.setSide(c.ptr(0), a)
		return old
	}, "(*sync/atomic.Value).Swap")
	regv(func(st *State, c *callCtx) Value {
		a, _ := st.side(c.ptr(0)).(av)
		if !st.branch(st.eqIface(a.v, c.args[1].(Iface))) {
			st.acquire(a.vc)
			return sym.False
		}
		st.acquire(a.vc)
		a.v = c.args[2].(Iface)
		a.vc = st.release(a.vc)
		st.setSide(c.ptr(0), a)
		return sym.True
	}, "(*sync/atomic.Value).CompareAndSwap")
}

// formatValue renders one operand for the fmt model; symbolic values give a
// placeholder (no property depends on the text of messages).
func (st *State) formatValue(verb string, v Iface) string {
	if v.T == nil {
		if verb == "T" || verb == "v" {
			return "<nil>"
		}
		return "%!" + verb + "(<nil>)"
	}
	if verb == "T" {
		return typeString(v.T.T)
	}
	x := st.unbox(v)
	return st.formatAny(verb, x, v.T.T)
}

func (st *State) formatAny(verb string, x Value, t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			s, ok := st.goString(x.(Str))
			if !ok {
				return "?"
			}
			return fmt.Sprintf("%"+verb, s)
		case u.Info()&types.IsBoolean != 0:
			if e := x.(*sym.Expr); e.IsConst() {
				return fmt.Sprintf("%"+verb, e.K != 0)
			}
			return "?"
		case u.Info()&types.IsInteger != 0:
			if e, ok := x.(*sym.Expr); ok && e.IsConst() {
				if isSigned(t) {
					return fmt.Sprintf("%"+verb, e.SVal())
				}
				return fmt.Sprintf("%"+verb, e.K)
			}
			return "?"
		case u.Info()&types.IsFloat != 0:
			if e := x.(*sym.Expr); e.IsConst() {
				return fmt.Sprintf("%"+verb, f64(e))
			}
			return "?"
		}
	case *types.Slice:
		s := x.(Slice)
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && verb != "v" && verb != "d" {
			if g, ok := st.goString(Str{s.P, s.Len}); ok {
				return fmt.Sprintf("%"+verb, []byte(g))
			}
			return "?"
		}
		es := st.prog.Type(u.Elem()).Size
		var parts []string
		for i := int64(0); i < s.Len; i++ {
			parts = append(parts, st.formatAny(verb, st.load(Ptr{s.P.Obj, s.P.Off + i*es}, u.Elem()), u.Elem()))
		}
		return "[" + strings.Join(parts, " ") + "]"
	case *types.Pointer, *types.Signature, *types.Chan, *types.Map:
		p := x.(Ptr)
		if p.IsNil() {
			return "<nil>"
		}
		return fmt.Sprintf("0x%x", ptrAddr(p))
	case *types.Interface:
		return st.formatValue(verb, x.(Iface))
	}
	return "?"
}
