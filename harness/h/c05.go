package h

import (
	"errors"
	"io"
	"reflect"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	"github.com/RomiChan/protobuf/internal/zzverif/ref"
	"github.com/RomiChan/protobuf/proto"
)

// malformed requires an error for b if the specification has no meaning for it.
func malformed(b []byte, t reflect.Type) {
	s := ref.Of(t)
	p := ref.Decode(b, s, reflect.New(t).Elem())
	nd.Assume(p.Why != ref.Valid && p.Why != ref.Unspecified)
	nd.Reach("malformed")
	err := proto.Unmarshal(nd.Guarded(b), reflect.New(t).Interface())
	nd.Assert(err != nil, "Unmarshal accepts malformed input")
}

func H_C05_bytes_tiny() { malformed(ref.Raw(nd.Choose(arbLen())+1), typeOf(new(Tiny))) }
func H_C05_bytes_rep()  { malformed(ref.Raw(nd.Choose(arbLen())+1), typeOf(new(TinyRep))) }

// cut requires io.ErrUnexpectedEOF for a proper prefix of valid data that is not valid.
func cut(b []byte, t reflect.Type) {
	s := ref.Of(t)
	k := nd.Choose(len(b))
	b = b[:k:k]
	p := ref.Decode(b, s, reflect.New(t).Elem())
	nd.Assume(p.Why != ref.Valid && p.Why != ref.Unspecified)
	nd.Reach("cut")
	err := proto.Unmarshal(nd.Guarded(b), reflect.New(t).Interface())
	nd.Assert(err != nil, "Unmarshal accepts truncated input")
	nd.Assert(errors.Is(err, io.ErrUnexpectedEOF), "the error for truncated input does not wrap io.ErrUnexpectedEOF")
}

func cutOne(m interface{}, w ref.W) {
	t := typeOf(m)
	s := ref.Of(t)
	w.Varints = []int{1, 2, 3, 10}
	w.Lens = []int{0, 1, 5}
	cut(w.Record(s.Fields[nd.Choose(len(s.Fields))]), t)
}

func H_C05_cut_scalars() { cutOne(new(Scalars), wcfg()) }
func H_C05_cut_opts()    { cutOne(new(Opts), wcfg()) }
func H_C05_cut_ptrs()    { cutOne(new(Ptrs), wcfg()) }
func H_C05_cut_reps()    { cutOne(new(Reps), wcfg()) }
func H_C05_cut_maps() {
	t := typeOf(new(Maps))
	s := ref.Of(t)
	w := wcfg()
	w.Varints = []int{1, 3}
	w.Lens = []int{0, 2}
	w.Entries = 2
	cut(w.Record(s.Fields[nd.Choose(len(s.Fields))]), t)
}
func H_C05_cut_small() {
	t := typeOf(new(Small))
	s := ref.Of(t)
	w := wcfg()
	w.Varints = []int{2}
	w.Lens = []int{2}
	b := w.Record(s.Fields[nd.Choose(len(s.Fields))])
	b = append(b, w.Record(s.Fields[nd.Choose(len(s.Fields))])...)
	cut(b, t)
}

// Truncated records of undeclared fields.
func H_C05_cut_unknown() {
	t := typeOf(new(Tiny))
	max := 1
	if nd.Tier() > 0 {
		max = 3
	}
	cut(ref.Unknown(ref.Of(t), max), t)
}

// damaged breaks one inner record by replacing it with arbitrary bytes.
func wrap(num uint64, data []byte) []byte {
	b := ref.AppendVarint(nil, num<<3|ref.Len)
	b = ref.AppendVarint(b, uint64(len(data)))
	return append(b, data...)
}

type Nest struct {
	A *Tiny            `protobuf:"bytes,1,opt"`
	B []*Tiny          `protobuf:"bytes,2,rep"`
	C map[uint32]*Tiny `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	D uint32           `protobuf:"varint,4,opt"`
}

// nested puts arbitrary bytes inside embedded messages and map entries.
func nested(n int) []byte {
	x := ref.Raw(n)
	switch nd.Choose(5) {
	case 0:
		return wrap(1, x)
	case 1:
		return wrap(2, x)
	case 2:
		return wrap(3, x)
	case 3:
		return wrap(3, wrap(2, x))
	default:
		return wrap(1, wrap(3, x))
	}
}

func H_C05_nested() { malformed(nested(1+nd.Choose(arbLen()-2)), typeOf(new(Nest))) }
func H_C04_nested() { valid(nested(1+nd.Choose(arbLen()-2)), typeOf(new(Nest))) }

// Any wire type for each declared field, followed by arbitrary bytes.
func wrongWire(m interface{}) {
	t := typeOf(m)
	s := ref.Of(t)
	f := s.Fields[nd.Choose(len(s.Fields))]
	wire := uint64(nd.Choose(8))
	b := ref.AppendVarint(nil, f.Num<<3|wire)
	switch wire {
	case f.Wire():
		nd.Assume(false)
	case ref.Varint:
		b = append(b, ref.VarintN(1+nd.Choose(2))...)
	case ref.W32:
		b = append(b, ref.Raw(4)...)
	case ref.W64:
		b = append(b, ref.Raw(8)...)
	case ref.Len:
		n := nd.Choose(5)
		b = append(b, byte(n))
		b = append(b, ref.Raw(n)...)
	default:
		b = append(b, ref.Raw(nd.Choose(3))...)
	}
	malformed(b, t)
}

func H_C05_wire_scalars() { wrongWire(new(Scalars)) }
func H_C05_wire_opts()    { wrongWire(new(Opts)) }
func H_C05_wire_ptrs()    { wrongWire(new(Ptrs)) }
func H_C05_wire_reps()    { wrongWire(new(Reps)) }
func H_C05_wire_maps()    { wrongWire(new(Maps)) }
func H_C05_wire_small()   { wrongWire(new(Small)) }

// Varints of ten and more bytes: as tag, as value of every varint kind, as
// length, for declared and undeclared fields.
func H_C05_overflow() {
	n := 9 + nd.Choose(4)
	x := ref.Raw(n)
	for i := 0; i < n-1; i++ {
		nd.Assume(x[i] >= 0x80)
	}
	var b []byte
	var m interface{}
	switch nd.Choose(4) {
	case 0:
		b, m = x, new(Tiny)
	case 1:
		m = new(Scalars)
		k := []uint64{1, 2, 15, 16, 17, 2047, 2048, 99}[nd.Choose(8)]
		b = append(ref.AppendVarint(nil, k<<3), x...)
	case 2:
		m = new(Small)
		k := []uint64{3, 5, 6, 99}[nd.Choose(4)]
		b = append(ref.AppendVarint(nil, k<<3|ref.Len), x...)
	case 3:
		m = new(TinyRep)
		b = wrap(3, append([]byte{byte(1+nd.Choose(2)) << 3}, x...))
	}
	b = append(b, 0)
	malformed(b, typeOf(m))
}

// Length prefixes of any value on every length-delimited field.
func H_C05_lengths() {
	t := warm(new(Nest))
	if nd.Choose(2) == 1 {
		t = warm(new(Small))
	}
	s := ref.Of(t)
	f := s.Fields[nd.Choose(len(s.Fields))]
	nd.Assume(f.Wire() == ref.Len)
	b := ref.AppendVarint(nil, f.Num<<3|ref.Len)
	n := []int{1, 5, 10}[nd.Choose(3)]
	if nd.Tier() > 0 {
		n = 1 + nd.Choose(10)
	}
	b = append(b, ref.VarintN(n)...)
	n = nd.Choose(3 + nd.Tier())
	b = append(b, ref.Raw(n)...)
	malformed(b, t)
}
