// Package ref is an independent statement of the protobuf encoding for Go
// message structs: what bytes a message has, what message bytes have, and
// when two messages are the same. It shares no code with the library and uses
// only the public Option interface of it.
package ref

import (
	"math"
	"reflect"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	"github.com/RomiChan/protobuf/proto"
)

// Kind is a protobuf type.
type Kind uint8

const (
	Bool Kind = iota
	Int32
	Int64
	Uint32
	Uint64
	Sint32
	Sint64
	Fixed32
	Fixed64
	Sfixed32
	Sfixed64
	Float
	Double
	String
	Bytes
	Message
)

// Card says how a field holds values of its kind.
type Card uint8

const (
	Plain Card = iota // the value itself; a pointer for messages
	Opt               // proto.Option
	Ptr               // pointer to a scalar
	Rep               // slice
	Map
)

// Wire types.
const (
	Varint = 0
	W64    = 1
	Len    = 2
	W32    = 5
)

// Field describes one field.
type Field struct {
	Num   uint64
	Kind  Kind
	Card  Card
	Index int          // in the struct
	Elem  reflect.Type // Go type of one value
	Type  reflect.Type // Go type of the field
	Msg   *Schema
	Key   *Field
	Val   *Field
}

// Schema describes a message type.
type Schema struct {
	Type   reflect.Type
	Fields []*Field
}

// Wire is the wire type of one value of the field.
func (f *Field) Wire() uint64 {
	if f.Card == Map {
		return Len
	}
	switch f.Kind {
	case Fixed32, Sfixed32, Float:
		return W32
	case Fixed64, Sfixed64, Double:
		return W64
	case String, Bytes, Message:
		return Len
	}
	return Varint
}

var schemas = map[reflect.Type]*Schema{}

// Of gives the schema of a message struct type.
func Of(t reflect.Type) *Schema {
	if s := schemas[t]; s != nil {
		return s
	}
	s := &Schema{Type: t}
	schemas[t] = s
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		tag, ok := sf.Tag.Lookup("protobuf")
		if sf.PkgPath != "" || !ok {
			continue
		}
		wire, num := parseTag(tag)
		f := &Field{Num: num, Index: i, Type: sf.Type}
		ft := sf.Type
		switch ft.Kind() {
		case reflect.Map:
			f.Card, f.Kind = Map, Message
			kw, kn := parseTag(sf.Tag.Get("protobuf_key"))
			vw, vn := parseTag(sf.Tag.Get("protobuf_val"))
			f.Key = &Field{Num: kn, Elem: ft.Key(), Type: ft.Key()}
			f.Key.kind(kw)
			f.Val = &Field{Num: vn, Elem: ft.Elem(), Type: ft.Elem()}
			f.Val.kind(vw)
		case reflect.Slice:
			if ft.Elem().Kind() == reflect.Uint8 {
				f.Elem = ft
			} else {
				f.Card, f.Elem = Rep, ft.Elem()
			}
			f.kind(wire)
		case reflect.Ptr:
			f.Elem = ft
			if ft.Elem().Kind() != reflect.Struct {
				f.Card, f.Elem = Ptr, ft.Elem()
			}
			f.kind(wire)
		case reflect.Struct:
			f.Card, f.Elem = Opt, OptionElem(ft)
			f.kind(wire)
		default:
			f.Elem = ft
			f.kind(wire)
		}
		s.Fields = append(s.Fields, f)
	}
	return s
}

// OptionElem is the type an Option holds.
func OptionElem(t reflect.Type) reflect.Type {
	switch reflect.New(t).Interface().(type) {
	case *proto.Option[bool]:
		return reflect.TypeOf(false)
	case *proto.Option[int32]:
		return reflect.TypeOf(int32(0))
	case *proto.Option[int64]:
		return reflect.TypeOf(int64(0))
	case *proto.Option[uint32]:
		return reflect.TypeOf(uint32(0))
	case *proto.Option[uint64]:
		return reflect.TypeOf(uint64(0))
	case *proto.Option[float32]:
		return reflect.TypeOf(float32(0))
	case *proto.Option[float64]:
		return reflect.TypeOf(float64(0))
	case *proto.Option[string]:
		return reflect.TypeOf("")
	}
	panic("ref: not an option of a scalar")
}

// parseTag reads `wire,number,label`.
func parseTag(tag string) (wire string, num uint64) {
	i := 0
	for tag[i] != ',' {
		i++
	}
	wire = tag[:i]
	for i++; i < len(tag) && tag[i] != ','; i++ {
		num = num*10 + uint64(tag[i]-'0')
	}
	return
}

func (f *Field) kind(wire string) {
	switch f.Elem.Kind() {
	case reflect.Bool:
		f.Kind = Bool
	case reflect.Int32:
		f.Kind = pick(wire, Int32, Sint32, Sfixed32)
	case reflect.Int64:
		f.Kind = pick(wire, Int64, Sint64, Sfixed64)
	case reflect.Uint32:
		f.Kind = pick(wire, Uint32, Uint32, Fixed32)
	case reflect.Uint64:
		f.Kind = pick(wire, Uint64, Uint64, Fixed64)
	case reflect.Float32:
		f.Kind = Float
	case reflect.Float64:
		f.Kind = Double
	case reflect.String:
		f.Kind = String
	case reflect.Slice:
		f.Kind = Bytes
	case reflect.Ptr:
		f.Kind = Message
		f.Msg = Of(f.Elem.Elem())
	default:
		panic("ref: unsupported type")
	}
}

func pick(wire string, v, z, f Kind) Kind {
	switch wire {
	case "varint":
		return v
	case "zigzag32", "zigzag64":
		return z
	}
	return f
}

// Get reads an Option: whether it is set and its value.
func Get(v reflect.Value) (bool, reflect.Value) {
	switch o := v.Addr().Interface().(type) {
	case *proto.Option[bool]:
		return o.IsSome(), reflect.ValueOf(o.Unwrap())
	case *proto.Option[int32]:
		return o.IsSome(), reflect.ValueOf(o.Unwrap())
	case *proto.Option[int64]:
		return o.IsSome(), reflect.ValueOf(o.Unwrap())
	case *proto.Option[uint32]:
		return o.IsSome(), reflect.ValueOf(o.Unwrap())
	case *proto.Option[uint64]:
		return o.IsSome(), reflect.ValueOf(o.Unwrap())
	case *proto.Option[float32]:
		return o.IsSome(), reflect.ValueOf(o.Unwrap())
	case *proto.Option[float64]:
		return o.IsSome(), reflect.ValueOf(o.Unwrap())
	case *proto.Option[string]:
		return o.IsSome(), reflect.ValueOf(o.Unwrap())
	}
	panic("ref: not an option of a scalar")
}

// SetOption stores Some(x).
func SetOption(v, x reflect.Value) {
	switch o := v.Addr().Interface().(type) {
	case *proto.Option[bool]:
		*o = proto.Some(x.Interface().(bool))
	case *proto.Option[int32]:
		*o = proto.Some(x.Interface().(int32))
	case *proto.Option[int64]:
		*o = proto.Some(x.Interface().(int64))
	case *proto.Option[uint32]:
		*o = proto.Some(x.Interface().(uint32))
	case *proto.Option[uint64]:
		*o = proto.Some(x.Interface().(uint64))
	case *proto.Option[float32]:
		*o = proto.Some(x.Interface().(float32))
	case *proto.Option[float64]:
		*o = proto.Some(x.Interface().(float64))
	case *proto.Option[string]:
		*o = proto.Some(x.Interface().(string))
	default:
		panic("ref: not an option of a scalar")
	}
}

// bits is the number a scalar value stands for on the wire.
func bits(k Kind, v reflect.Value) uint64 {
	switch k {
	case Bool:
		if v.Bool() {
			return 1
		}
		return 0
	case Int32, Int64:
		return uint64(v.Int())
	case Sint32, Sint64:
		x := v.Int()
		return uint64(x)<<1 ^ uint64(x>>63)
	case Sfixed32:
		return uint64(uint32(v.Int()))
	case Sfixed64:
		return uint64(v.Int())
	case Float:
		return uint64(math.Float32bits(v.Interface().(float32)))
	case Double:
		return math.Float64bits(v.Interface().(float64))
	}
	return v.Uint()
}

// setBits stores the scalar a number on the wire stands for.
func setBits(k Kind, v reflect.Value, x uint64) {
	switch k {
	case Bool:
		v.SetBool(x != 0)
	case Int32, Sfixed32:
		v.SetInt(int64(int32(x)))
	case Int64, Sfixed64:
		v.SetInt(int64(x))
	case Sint32:
		x := uint32(x)
		v.SetInt(int64(int32(x>>1) ^ -int32(x&1)))
	case Sint64:
		v.SetInt(int64(x>>1) ^ -int64(x&1))
	case Uint32, Fixed32:
		v.SetUint(uint64(uint32(x)))
	case Uint64, Fixed64:
		v.SetUint(x)
	case Float:
		v.Set(reflect.ValueOf(math.Float32frombits(uint32(x))))
	case Double:
		v.Set(reflect.ValueOf(math.Float64frombits(x)))
	}
}

// AppendVarint writes a base 128 varint.
func AppendVarint(b []byte, x uint64) []byte {
	for x >= 0x80 {
		b = append(b, byte(x)|0x80)
		x >>= 7
	}
	return append(b, byte(x))
}

func appendTag(b []byte, f *Field) []byte { return AppendVarint(b, f.Num<<3|f.Wire()) }

// appendValue writes one value without its tag.
func appendValue(b []byte, f *Field, v reflect.Value) []byte {
	switch f.Kind {
	case String:
		s := v.String()
		b = AppendVarint(b, uint64(len(s)))
		return append(b, s...)
	case Bytes:
		s := v.Bytes()
		b = AppendVarint(b, uint64(len(s)))
		return append(b, s...)
	case Message:
		var s []byte
		if !v.IsNil() {
			s = Encode(nil, f.Msg, v.Elem())
		}
		b = AppendVarint(b, uint64(len(s)))
		return append(b, s...)
	}
	x := bits(f.Kind, v)
	n := 0
	switch f.Wire() {
	case W32:
		n = 4
	case W64:
		n = 8
	default:
		return AppendVarint(b, x)
	}
	for i := 0; i < n; i++ {
		b = append(b, byte(x>>(8*uint(i))))
	}
	return b
}

// Encode writes a message, fields in declaration order.
func Encode(b []byte, s *Schema, v reflect.Value) []byte {
	for _, f := range s.Fields {
		b = EncodeField(b, f, v.Field(f.Index))
	}
	return b
}

// EncodeField writes one field.
func EncodeField(b []byte, f *Field, v reflect.Value) []byte {
	switch f.Card {
	case Plain:
		switch f.Kind {
		case String:
			if v.Len() == 0 {
				return b
			}
		case Bytes, Message:
			if v.IsNil() {
				return b
			}
		default:
			if bits(f.Kind, v) == 0 {
				return b
			}
		}
		return appendValue(appendTag(b, f), f, v)
	case Opt:
		some, x := Get(v)
		if !some {
			return b
		}
		return appendValue(appendTag(b, f), f, x)
	case Ptr:
		if v.IsNil() {
			return b
		}
		return appendValue(appendTag(b, f), f, v.Elem())
	case Rep:
		for i := 0; i < v.Len(); i++ {
			b = appendValue(appendTag(b, f), f, v.Index(i))
		}
		return b
	case Map:
		for _, k := range v.MapKeys() {
			b = AppendEntry(b, f, k, v.MapIndex(k))
		}
		return b
	}
	panic("ref: bad field")
}

// AppendEntry writes one map entry.
func AppendEntry(b []byte, f *Field, k, v reflect.Value) []byte {
	e := appendValue(appendTag(nil, f.Key), f.Key, k)
	e = appendValue(appendTag(e, f.Val), f.Val, v)
	b = appendTag(b, f)
	b = AppendVarint(b, uint64(len(e)))
	return append(b, e...)
}

// Why says what is wrong with an input.
type Why int

const (
	Valid       Why = iota
	Unspecified     // groups and field numbers out of range: no claim
	Truncated
	Overflow  // varint of more than 64 bits
	BadWire   // wire type no field can have
	WrongWire // not the wire type of the declared field
)

// Step is a field on the way to the problem.
type Step struct{ Num, Wire uint64 }

// Problem is what is wrong with an input and where.
type Problem struct {
	Why  Why
	Path []Step
	Tag  bool // in a tag, not in a field
}

func ok() Problem { return Problem{} }

// ReadVarint reads a varint.
func ReadVarint(b []byte) (x uint64, n int, w Why) {
	for i, c := range b {
		if i == 9 && c > 1 || i > 9 {
			// more than 64 bits, or never ending
			for _, c := range b[i:] {
				if c < 0x80 {
					return 0, 0, Overflow
				}
			}
			return 0, 0, Truncated
		}
		x |= uint64(c&0x7f) << (7 * uint(i))
		if c < 0x80 {
			return x, i + 1, Valid
		}
	}
	return 0, 0, Truncated
}

// Decode merges the encoded message in b into v as the specification says.
func Decode(b []byte, s *Schema, v reflect.Value) Problem {
	for len(b) > 0 {
		tag, n, w := ReadVarint(b)
		if w != Valid {
			return Problem{Why: w, Tag: true}
		}
		num, wire := tag>>3, tag&7
		if num == 0 || tag>>32 != 0 {
			return Problem{Why: Unspecified}
		}
		b = b[n:]
		path := []Step{{num, wire}}
		var f *Field
		for _, g := range s.Fields {
			if g.Num == num {
				f = g
			}
		}
		if f != nil && f.Wire() != wire {
			return Problem{Why: WrongWire, Path: path}
		}
		var x uint64
		var data []byte
		switch wire {
		case Varint:
			x, n, w = ReadVarint(b)
			if w != Valid {
				return Problem{Why: w, Path: path}
			}
			b = b[n:]
		case W32, W64:
			n = 4
			if wire == W64 {
				n = 8
			}
			if len(b) < n {
				return Problem{Why: Truncated, Path: path}
			}
			for i := n - 1; i >= 0; i-- {
				x = x<<8 | uint64(b[i])
			}
			b = b[n:]
		case Len:
			l, n, w := ReadVarint(b)
			if w != Valid {
				return Problem{Why: w, Path: path}
			}
			b = b[n:]
			if l > uint64(len(b)) {
				return Problem{Why: Truncated, Path: path}
			}
			l = nd.Concrete(l)
			data, b = b[:l], b[l:]
		default:
			return Problem{Why: BadWire, Path: path}
		}
		if f == nil {
			continue
		}
		if p := f.set(v.Field(f.Index), x, data); p.Why != Valid {
			p.Path = append(path, p.Path...)
			return p
		}
	}
	return ok()
}

// set merges one decoded record into a field.
func (f *Field) set(v reflect.Value, x uint64, data []byte) Problem {
	switch f.Card {
	case Plain:
		return f.value(v, x, data)
	case Opt:
		e := reflect.New(f.Elem).Elem()
		p := f.value(e, x, data)
		SetOption(v, e)
		return p
	case Ptr:
		if v.IsNil() {
			v.Set(reflect.New(f.Elem))
		}
		return f.value(v.Elem(), x, data)
	case Rep:
		e := reflect.New(f.Elem).Elem()
		p := f.value(e, x, data)
		if p.Why == Valid {
			v.Set(reflect.Append(v, e))
		}
		return p
	case Map:
		if v.IsNil() {
			v.Set(reflect.MakeMap(f.Type))
		}
		key := reflect.New(f.Key.Elem).Elem()
		val := reflect.New(f.Val.Elem).Elem()
		p := decodeEntry(data, f, key, val)
		if p.Why == Valid {
			v.SetMapIndex(key, val)
		}
		return p
	}
	panic("ref: bad field")
}

func decodeEntry(b []byte, f *Field, key, val reflect.Value) Problem {
	// an entry is a message with the two fields
	s := &Schema{Fields: []*Field{f.Key, f.Val}}
	for len(b) > 0 {
		n, p := decodeOne(b, s, key, val)
		if p.Why != Valid {
			return p
		}
		b = b[n:]
	}
	return ok()
}

func decodeOne(b []byte, s *Schema, key, val reflect.Value) (int, Problem) {
	tag, n, w := ReadVarint(b)
	if w != Valid {
		return 0, Problem{Why: w, Tag: true}
	}
	num, wire := tag>>3, tag&7
	if num == 0 || tag>>32 != 0 {
		return 0, Problem{Why: Unspecified}
	}
	path := []Step{{num, wire}}
	var f *Field
	var v reflect.Value
	if num == s.Fields[0].Num {
		f, v = s.Fields[0], key
	} else if num == s.Fields[1].Num {
		f, v = s.Fields[1], val
	}
	if f != nil && f.Wire() != wire {
		return 0, Problem{Why: WrongWire, Path: path}
	}
	var x uint64
	var data []byte
	switch wire {
	case Varint:
		y, k, w := ReadVarint(b[n:])
		if w != Valid {
			return 0, Problem{Why: w, Path: path}
		}
		x = y
		n += k
	case W32, W64:
		k := 4
		if wire == W64 {
			k = 8
		}
		if len(b)-n < k {
			return 0, Problem{Why: Truncated, Path: path}
		}
		for i := k - 1; i >= 0; i-- {
			x = x<<8 | uint64(b[n+i])
		}
		n += k
	case Len:
		l, k, w := ReadVarint(b[n:])
		if w != Valid {
			return 0, Problem{Why: w, Path: path}
		}
		n += k
		if l > uint64(len(b)-n) {
			return 0, Problem{Why: Truncated, Path: path}
		}
		l = nd.Concrete(l)
		data = b[n : n+int(l)]
		n += int(l)
	default:
		return 0, Problem{Why: BadWire, Path: path}
	}
	if f == nil {
		return n, ok()
	}
	p := f.value(v, x, data)
	if p.Why != Valid {
		p.Path = append(path, p.Path...)
	}
	return n, p
}

// value stores or merges one value.
func (f *Field) value(v reflect.Value, x uint64, data []byte) Problem {
	switch f.Kind {
	case String:
		v.SetString(string(data))
	case Bytes:
		v.SetBytes(append([]byte{}, data...))
	case Message:
		if v.IsNil() {
			v.Set(reflect.New(f.Elem.Elem()))
		}
		return Decode(data, f.Msg, v.Elem())
	default:
		setBits(f.Kind, v, x)
	}
	return ok()
}

// Equal reports whether two messages are the same, without deciding it where
// that depends on symbolic values. Empty and nil slices and maps are the same
// where presence has no meaning. Where b lacks the message of a map entry, a
// may hold an empty one.
func Equal(s *Schema, a, b reflect.Value) bool {
	eq := true
	for _, f := range s.Fields {
		eq = nd.And(eq, EqualField(f, a.Field(f.Index), b.Field(f.Index)))
	}
	return eq
}

// EqualField compares one field.
func EqualField(f *Field, a, b reflect.Value) bool {
	switch f.Card {
	case Plain:
		if f.Kind == Bytes && a.IsNil() != b.IsNil() {
			return false
		}
		return equalValue(f, a, b)
	case Opt:
		as, av := Get(a)
		bs, bv := Get(b)
		return nd.And(as == bs, equalValue(f, av, bv))
	case Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() && b.IsNil()
		}
		return equalValue(f, a.Elem(), b.Elem())
	case Rep:
		if a.Len() != b.Len() {
			return false
		}
		eq := true
		for i := 0; i < a.Len(); i++ {
			eq = nd.And(eq, equalValue(f, a.Index(i), b.Index(i)))
		}
		return eq
	case Map:
		if a.Len() != b.Len() {
			return false
		}
		eq := true
		for _, k := range a.MapKeys() {
			bv := b.MapIndex(k)
			if !bv.IsValid() {
				return false
			}
			av := a.MapIndex(k)
			if f.Val.Kind == Message && bv.IsNil() {
				eq = nd.And(eq, empty(f.Val, av))
				continue
			}
			if f.Val.Kind == Message && av.IsNil() {
				return false
			}
			eq = nd.And(eq, equalValue(f.Val, av, bv))
		}
		return eq
	}
	panic("ref: bad field")
}

func empty(f *Field, v reflect.Value) bool {
	return v.IsNil() || len(Encode(nil, f.Msg, v.Elem())) == 0
}

func equalValue(f *Field, a, b reflect.Value) bool {
	switch f.Kind {
	case Bool:
		return a.Bool() == b.Bool()
	case String:
		return a.String() == b.String()
	case Bytes:
		x, y := a.Bytes(), b.Bytes()
		return SameBytes(x, y)
	case Message:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() && b.IsNil()
		}
		return Equal(f.Msg, a.Elem(), b.Elem())
	}
	return bits(f.Kind, a) == bits(f.Kind, b)
}

// SameBytes compares contents.
func SameBytes(x, y []byte) bool { return nd.SameBytes(x, y) }

// Clone copies a message and everything it refers to.
func Clone(s *Schema, v reflect.Value) reflect.Value {
	c := reflect.New(s.Type).Elem()
	c.Set(v)
	for _, f := range s.Fields {
		src, dst := v.Field(f.Index), c.Field(f.Index)
		switch f.Card {
		case Plain:
			dst.Set(cloneValue(f, src))
		case Opt:
			if some, x := Get(src); some && f.Kind == String {
				SetOption(dst, cloneValue(f, x))
			}
		case Ptr:
			if !src.IsNil() {
				p := reflect.New(f.Elem)
				p.Elem().Set(cloneValue(f, src.Elem()))
				dst.Set(p)
			}
		case Rep:
			if src.IsNil() {
				continue
			}
			d := reflect.MakeSlice(f.Type, src.Len(), src.Len())
			for i := 0; i < src.Len(); i++ {
				d.Index(i).Set(cloneValue(f, src.Index(i)))
			}
			dst.Set(d)
		case Map:
			if src.IsNil() {
				continue
			}
			d := reflect.MakeMap(f.Type)
			for _, k := range src.MapKeys() {
				d.SetMapIndex(k, cloneValue(f.Val, src.MapIndex(k)))
			}
			dst.Set(d)
		}
	}
	return c
}

func cloneValue(f *Field, v reflect.Value) reflect.Value {
	switch f.Kind {
	case String:
		c := reflect.New(f.Elem).Elem()
		c.SetString(string(append([]byte{}, v.String()...)))
		return c
	case Bytes:
		if v.IsNil() {
			return v
		}
		c := reflect.New(f.Elem).Elem()
		c.SetBytes(append([]byte{}, v.Bytes()...))
		return c
	case Message:
		if v.IsNil() {
			return v
		}
		p := reflect.New(f.Elem.Elem())
		p.Elem().Set(Clone(f.Msg, v.Elem()))
		return p
	}
	return v
}

// Sum is a number that depends on all of the message, for comparing runs.
func Sum(s *Schema, v reflect.Value) uint64 {
	n := uint64(1)
	for _, f := range s.Fields {
		n = n*31 + sumField(f, v.Field(f.Index))
	}
	return n
}

func sumField(f *Field, v reflect.Value) uint64 {
	switch f.Card {
	case Opt:
		some, x := Get(v)
		if !some {
			return 3
		}
		return sumValue(f, x)
	case Ptr:
		if v.IsNil() {
			return 5
		}
		return sumValue(f, v.Elem())
	case Rep:
		n := uint64(v.Len())
		for i := 0; i < v.Len(); i++ {
			n = n*7 + sumValue(f, v.Index(i))
		}
		return n
	case Map:
		n := uint64(v.Len())
		for _, k := range v.MapKeys() {
			n += sumValue(f.Key, k) + 3*sumValue(f.Val, v.MapIndex(k))
		}
		return n
	}
	return sumValue(f, v)
}

func sumValue(f *Field, v reflect.Value) uint64 {
	switch f.Kind {
	case Bool:
		if v.Bool() {
			return 1
		}
		return 2
	case String:
		return SumBytes([]byte(v.String()))
	case Bytes:
		return SumBytes(v.Bytes())
	case Message:
		if v.IsNil() {
			return 9
		}
		return Sum(f.Msg, v.Elem())
	}
	return bits(f.Kind, v)
}

// SumBytes is Sum for bytes.
func SumBytes(b []byte) uint64 {
	n := uint64(len(b))
	for i := 0; i < len(b); i++ {
		if i == 100 && len(b) > 200 {
			i = len(b) - 20
		}
		n = n*3 + uint64(b[i])
	}
	return n
}
