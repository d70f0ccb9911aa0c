package h

import (
	"reflect"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	"github.com/RomiChan/protobuf/internal/zzverif/ref"
	"github.com/RomiChan/protobuf/proto"
)

func allVarints() []int { return []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10} }

func wcfg() ref.W {
	w := ref.W{Varints: []int{1, 2, 5, 10}, Lens: []int{0, 1, 3}, Depth: 1, Subs: 2, Entries: 8}
	if nd.Tier() > 0 {
		w.Varints = allVarints()
		w.Lens = []int{0, 1, 2, 3, 127, 128}
		w.Depth = 2
	}
	return w
}

// valid requires that b decodes to what the specification says.
func valid(b []byte, t reflect.Type) {
	s := ref.Of(t)
	want := reflect.New(t)
	p := ref.Decode(b, s, want.Elem())
	nd.Assume(p.Why == ref.Valid)
	nd.Reach("valid")
	got := reflect.New(t)
	err := proto.Unmarshal(nd.Guarded(b), got.Interface())
	nd.Assert(err == nil, "Unmarshal rejects a valid encoding")
	nd.Assert(ref.Equal(s, got.Elem(), want.Elem()), "Unmarshal gives another value than the specification")
	nd.Observe("sum", ref.Sum(s, got.Elem()))
}

func typeOf(m interface{}) reflect.Type { return reflect.TypeOf(m).Elem() }

// warm makes the library know the type before the exploration splits.
func warm(m interface{}) reflect.Type {
	nd.Steady(true)
	proto.Size(m)
	nd.Steady(false)
	t := typeOf(m)
	ref.Of(t)
	return t
}

// one decodes a single record of each field, its varint of any length.
func one(m interface{}, w ref.W) {
	t := typeOf(m)
	s := ref.Of(t)
	w.Varints = allVarints()
	w.Pad = true
	w.Lens = []int{0, 1, 2, 128}
	valid(w.Record(s.Fields[nd.Choose(len(s.Fields))]), t)
}

// two decodes records of two fields, in either order.
func two(m interface{}, w ref.W) {
	t := typeOf(m)
	s := ref.Of(t)
	b := w.Record(s.Fields[nd.Choose(len(s.Fields))])
	b = append(b, w.Record(s.Fields[nd.Choose(len(s.Fields))])...)
	valid(b, t)
}

func H_C04_one_scalars() { one(new(Scalars), wcfg()) }
func H_C04_one_opts()    { one(new(Opts), wcfg()) }
func H_C04_one_ptrs()    { one(new(Ptrs), wcfg()) }
func H_C04_one_reps()    { one(new(Reps), wcfg()) }
func H_C04_one_maps() {
	t := warm(new(Maps))
	s := ref.Of(t)
	w := wcfg()
	w.Varints = []int{1, 10}
	w.Pad = true
	w.Lens = []int{0, 2}
	w.Subs = 1
	valid(w.Record(s.Fields[nd.Choose(len(s.Fields))]), t)
}
func H_C04_one_named() { one(new(Named), wcfg()) }
func H_C04_one_sibs() {
	w := wcfg()
	w.Entries = 2
	one(new(Sibs), w)
}
func H_C04_one_tree() {
	t := warm(new(Tree))
	s := ref.Of(t)
	w := wcfg()
	w.Depth = 2
	w.Varints = []int{1, 10}
	if nd.Tier() == 0 {
		w.Varints = []int{2}
	}
	valid(w.Record(s.Fields[nd.Choose(len(s.Fields))]), t)
}

type Small struct {
	A bool                 `protobuf:"varint,1,opt"`
	B proto.Option[uint32] `protobuf:"varint,2,opt"`
	C string               `protobuf:"bytes,3,opt"`
	D []int64              `protobuf:"zigzag64,4,rep"`
	E *Sub                 `protobuf:"bytes,5,opt"`
	F []byte               `protobuf:"bytes,6,opt"`
	G *uint64              `protobuf:"fixed64,7,opt"`
}

type Sub struct {
	A int32   `protobuf:"zigzag32,1,opt"`
	B []*Leaf `protobuf:"bytes,2,rep"`
	C *Leaf   `protobuf:"bytes,3,opt"`
}

func H_C04_two() {
	w := wcfg()
	w.Varints = []int{1, 10}
	w.Lens = []int{0, 2}
	two(new(Small), w)
}

// Three records of one repeated or singular field.
func H_C04_three() {
	t := typeOf(new(Small))
	s := ref.Of(t)
	f := s.Fields[nd.Choose(len(s.Fields))]
	w := wcfg()
	w.Varints = []int{1, 10}
	w.Lens = []int{0, 1}
	w.Subs = 1
	b := w.Record(f)
	b = append(b, w.Record(f)...)
	b = append(b, w.Record(f)...)
	valid(b, t)
}

type Tiny struct {
	A int32  `protobuf:"varint,1,opt"`
	B string `protobuf:"bytes,2,opt"`
	C *Tiny  `protobuf:"bytes,3,opt"`
}

type TinyRep struct {
	A []uint32          `protobuf:"varint,1,rep"`
	B uint32            `protobuf:"fixed32,2,opt"`
	C map[uint32]uint32 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
}

func arbLen() int {
	if nd.Tier() > 0 {
		return 8
	}
	return 6
}

// Arbitrary bytes.
func H_C04_bytes_tiny() { valid(ref.Raw(nd.Choose(arbLen())+1), typeOf(new(Tiny))) }
func H_C04_bytes_rep()  { valid(ref.Raw(nd.Choose(arbLen())+1), typeOf(new(TinyRep))) }

// Long strings, bytes and messages.
// verif: steps=60000000 samples=8
func H_C04_long() {
	o := bulky()
	v := reflect.ValueOf(o).Elem()
	valid(ref.Encode(nil, ref.Of(v.Type()), v), v.Type())
}
