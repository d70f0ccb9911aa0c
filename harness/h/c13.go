package h

import (
	"reflect"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	"github.com/RomiChan/protobuf/internal/zzverif/ref"
	"github.com/RomiChan/protobuf/proto"
)

// HA, HB and HC use the same Go types with different encodings and refer to
// each other.
type HA struct {
	A []int32             `protobuf:"varint,1,rep"`
	B *HB                 `protobuf:"bytes,2,opt"`
	M map[int32]int32     `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
	O proto.Option[int32] `protobuf:"varint,4,opt"`
	P *int32              `protobuf:"varint,5,opt"`
	S []string            `protobuf:"bytes,6,rep"`
}

type HB struct {
	A []int32             `protobuf:"zigzag32,1,rep"`
	B *HA                 `protobuf:"bytes,2,opt"`
	M map[int32]int32     `protobuf:"bytes,3,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	O proto.Option[int32] `protobuf:"zigzag32,4,opt"`
	P *int32              `protobuf:"fixed32,5,opt"`
	X uint32              `protobuf:"fixed32,6,opt"`
}

type HC struct {
	L []*HA           `protobuf:"bytes,1,rep"`
	R map[int32]*HB   `protobuf:"bytes,2,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
	A []int32         `protobuf:"fixed32,3,rep"`
	X uint32          `protobuf:"varint,4,opt"`
	P *int32          `protobuf:"zigzag32,5,opt"`
	M map[int32]int32 `protobuf:"bytes,6,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"fixed32,2,opt"`
}

func newH(i int) interface{} {
	switch i {
	case 0:
		return new(HA)
	case 1:
		return new(HB)
	}
	return new(HC)
}

// earlier performs one call that must not matter later.
func earlier() {
	m := newH(nd.Choose(3))
	t := typeOf(m)
	s := ref.Of(t)
	switch nd.Choose(5) {
	case 0:
		proto.Size(m)
	case 1:
		fillAll(m)
		_, err := proto.Marshal(m)
		nd.Assert(err == nil, "Marshal returned an error")
	case 2:
		fillAll(m)
		b := ref.Encode(nil, s, reflect.ValueOf(m).Elem())
		nd.Assert(proto.Unmarshal(b, newOf(t)) == nil, "Unmarshal rejects a valid encoding")
	case 3:
		// fails inside the last record
		fillAll(m)
		b := ref.Encode(nil, s, reflect.ValueOf(m).Elem())
		nd.Assert(proto.Unmarshal(b[:len(b)-1], newOf(t)) != nil, "Unmarshal accepts truncated input")
	case 4:
		// fails inside an entry of a map and inside an embedded message
		for _, f := range s.Fields {
			if f.Card == ref.Map {
				k := ref.Some(f.Key, 1)
				v := ref.Some(f.Val, 2)
				b := ref.AppendEntry(nil, f, k, v)
				e, _ := ref.Split(b)
				b = wrap(f.Num, append(append([]byte{}, e[0].Data...), 0x1f))
				nd.Assert(proto.Unmarshal(b, newOf(t)) != nil, "Unmarshal accepts a malformed entry")
			}
			if f.Kind == ref.Message && f.Card != ref.Map {
				b := wrap(f.Num, []byte{10})
				nd.Assert(proto.Unmarshal(b, newOf(t)) != nil, "Unmarshal accepts a malformed message")
			}
		}
	}
}

func newOf(t reflect.Type) interface{} { return reflect.New(t).Interface() }

func history(n int) {
	for i := 0; i < n; i++ {
		earlier()
	}
	m := newH(nd.Choose(3))
	s := ref.Of(typeOf(m))
	c := ref.Cfg{Lens: []int{2}, Reps: []int{0, 2}, Maps: []int{0, 1}, Depth: 0, Elem: true, Bare: true}
	v := reflect.ValueOf(m).Elem()
	if n > 1 {
		fillAll(m)
		m.(setter).set(nd.U32())
	} else {
		k := nd.Choose(len(s.Fields))
		ref.FillAny(s.Fields[k], v.Field(s.Fields[k].Index), c)
	}
	final(m, s, v)
}

type setter interface{ set(x uint32) }

func (m *HA) set(x uint32) { y := int32(x); m.P = &y }
func (m *HB) set(x uint32) { y := int32(x); m.P = &y }
func (m *HC) set(x uint32) { y := int32(x); m.P = &y }

// final requires the results the specification prescribes.
func final(m interface{}, s *ref.Schema, v reflect.Value) {
	want := ref.Encode(nil, s, v)
	b, err := proto.Marshal(m)
	nd.Assert(err == nil, "Marshal returned an error")
	nd.Assert(ref.SameBytes(b, want), "Marshal gives other bytes after what came before")
	nd.Assert(proto.Size(m) == len(want), "Size gives another value after what came before")
	out := reflect.New(v.Type())
	nd.Assert(proto.Unmarshal(want, out.Interface()) == nil, "Unmarshal fails after what came before")
	nd.Assert(ref.Equal(s, out.Elem(), v), "Unmarshal gives another message after what came before")
}

// The very first use of each type.
func H_C13_first() { history(0) }

// After one call.
func H_C13_after1() { history(1) }

// After two calls.
// verif: fixedmap poolhits
func H_C13_after2() { history(2) }

// After three calls.
// verif: fixedmap poolhits thorough=1
func H_C13_after3() { history(3) }

// Map entries that omit their parts, after other decodes of the same and of
// other map types.
func H_C13_pool() {
	n := 1 + nd.Tier()
	for i := 0; i < n; i++ {
		earlier()
	}
	m := newH(nd.Choose(3))
	t := typeOf(m)
	s := ref.Of(t)
	f := s.Fields[nd.Choose(len(s.Fields))]
	nd.Assume(f.Card == ref.Map)
	w := ref.W{Varints: []int{2}, Lens: []int{1}, Depth: 0, Entries: 5}
	decode11(m, w.Record(f))
}

// Structs with the same fields in other places, or only some of them.
type SA struct {
	A uint32   `protobuf:"varint,1,opt"`
	B []uint32 `protobuf:"varint,2,rep"`
	C *Leaf    `protobuf:"bytes,3,opt"`
}

type SB struct {
	B []uint32 `protobuf:"fixed32,2,rep"`
	C *Leaf    `protobuf:"bytes,1,opt"`
	A uint32   `protobuf:"fixed32,3,opt"`
}

type SC struct {
	C []*Leaf              `protobuf:"bytes,3,rep"`
	A proto.Option[uint32] `protobuf:"varint,1,opt"`
	B []byte               `protobuf:"bytes,2,opt"`
	D map[uint32]*Leaf     `protobuf:"bytes,4,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	E map[uint32]uint32    `protobuf:"bytes,5,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	F map[uint32]uint32    `protobuf:"bytes,6,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
}

func H_C13_similar() {
	all := []interface{}{new(SA), new(SB), new(SC), new(Leaf)}
	for i := 0; i < 2; i++ {
		m := all[nd.Choose(4)]
		m = newOf(typeOf(m))
		fillAll(m)
		b, err := proto.Marshal(m)
		nd.Assert(err == nil, "Marshal returned an error")
		nd.Assert(proto.Unmarshal(b, newOf(typeOf(m))) == nil, "Unmarshal rejects what Marshal wrote")
	}
	m := all[nd.Choose(4)]
	s := ref.Of(typeOf(m))
	v := reflect.ValueOf(m).Elem()
	c := ref.Cfg{Lens: []int{2}, Reps: []int{0, 2}, Maps: []int{0, 1}, Depth: 1, Elem: true, Bare: true}
	k := nd.Choose(len(s.Fields))
	ref.FillAny(s.Fields[k], v.Field(s.Fields[k].Index), c)
	final(m, s, v)
}

// Undeclared fields of any number after records of declared ones, of the same
// message or of another one decoded before.
func H_C13_unknown() {
	all := []interface{}{new(Scalars), new(Reps), new(Opts)}
	m := all[nd.Choose(3)]
	t := warm(m)
	s := ref.Of(t)
	f := s.Fields[nd.Choose(len(s.Fields))]
	w := ref.W{Varints: []int{1}, Lens: []int{2}, Depth: 0}
	r := w.Record(f)
	num := uint64(nd.U32())
	nd.Assume(num != 0 && num < 1<<29)
	for _, g := range s.Fields {
		nd.Assume(num != g.Num)
	}
	u := append(ref.AppendVarint(nil, num<<3|f.Wire()), w.Payload(f)...)
	want := reflect.New(t)
	if nd.Choose(2) == 0 {
		nd.Assert(proto.Unmarshal(r, newOf(t)) == nil, "Unmarshal rejects a valid encoding")
	} else {
		ref.Decode(r, s, want.Elem())
		u = append(r, u...)
	}
	out := reflect.New(t)
	nd.Assert(proto.Unmarshal(u, out.Interface()) == nil, "Unmarshal rejects an undeclared field")
	nd.Assert(ref.Equal(s, out.Elem(), want.Elem()), "an undeclared field is taken for one seen before")
}
