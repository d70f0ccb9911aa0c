package h

import (
	"reflect"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	"github.com/RomiChan/protobuf/internal/zzverif/ref"
	"github.com/RomiChan/protobuf/proto"
)

// task is one goroutine's work and what it gave.
type task struct {
	in, out interface{}
	size    int
	data    []byte
	got     []byte
	err     error
	op      int
	s       *ref.Schema
}

// newTask prepares a call and the answer the specification prescribes, without
// touching the library.
func newTask(m interface{}, op int) *task {
	v := reflect.ValueOf(m).Elem()
	t := &task{in: m, op: op, s: ref.Of(v.Type())}
	t.data = ref.Encode(nil, t.s, v)
	t.out = newOf(v.Type())
	return t
}

func (t *task) run() {
	switch t.op {
	case 0:
		t.got, t.err = proto.Marshal(t.in)
	case 1:
		t.err = proto.Unmarshal(t.data, t.out)
	case 2:
		t.size = proto.Size(t.in)
	case 3:
		t.err = proto.Unmarshal(t.data[:len(t.data)-1], t.out)
	}
}

func (t *task) check() {
	switch t.op {
	case 0:
		nd.Assert(t.err == nil, "Marshal returned an error")
		nd.Assert(ref.SameBytes(t.got, t.data), "a concurrent Marshal gives other bytes")
	case 1:
		nd.Assert(t.err == nil, "a concurrent Unmarshal fails")
		nd.Assert(ref.Equal(t.s, reflect.ValueOf(t.out).Elem(), reflect.ValueOf(t.in).Elem()), "a concurrent Unmarshal gives another message")
	case 2:
		nd.Assert(t.size == len(t.data), "a concurrent Size gives another value")
	case 3:
		nd.Assert(t.err != nil, "a concurrent Unmarshal accepts truncated input")
	}
}

func race(ts ...*task) {
	for _, t := range ts {
		nd.Spawn(t.run)
	}
	nd.Join()
	for _, t := range ts {
		t.check()
	}
	nd.Reach("joined")
}

// Mutually recursive types.
type CA struct {
	B *CB    `protobuf:"bytes,1,opt"`
	X uint32 `protobuf:"varint,2,opt"`
}

type CB struct {
	A *CA    `protobuf:"bytes,1,opt"`
	Y []bool `protobuf:"varint,2,rep"`
}

func pickCA(i int) interface{} {
	if i == 0 {
		return &CA{B: &CB{A: &CA{X: 3}, Y: []bool{true}}, X: 7}
	}
	return &CB{A: &CA{B: &CB{Y: []bool{false, true}}, X: 9}, Y: []bool{true}}
}

// Two goroutines meet mutually recursive types for the first time.
// verif: race reach=joined
func H_C14_mutual() {
	i, j := nd.Choose(2), nd.Choose(2)
	a, b := nd.Choose(3), nd.Choose(3)
	nd.Assume(nd.Tier() > 0 || a <= b)
	race(newTask(pickCA(i), a), newTask(pickCA(j), b))
}

// Types that contain each other without recursion, met from both sides.
type CO struct {
	M *CI            `protobuf:"bytes,1,opt"`
	R []*CI          `protobuf:"bytes,2,rep"`
	P map[uint32]*CI `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type CI struct {
	X []uint32 `protobuf:"varint,1,rep"`
	S string   `protobuf:"bytes,2,opt"`
}

func pickCO(i int) interface{} {
	in := &CI{X: []uint32{1, 300}, S: "s"}
	if i == 0 {
		return in
	}
	return &CO{M: in, R: []*CI{in, {}}, P: map[uint32]*CI{4: in}}
}

// verif: race reach=joined
func H_C14_nested() {
	i, j := nd.Choose(2), 1
	a, b := nd.Choose(3), nd.Choose(3)
	nd.Assume(nd.Tier() > 0 || a <= b && a != 2)
	race(newTask(pickCO(i), a), newTask(pickCO(j), b))
}

// Different types with the same encodings of the same Go types, so what is
// shared below the message types is shared between goroutines.
type CS struct {
	A []int32         `protobuf:"varint,1,rep"`
	B []int32         `protobuf:"zigzag32,2,rep"`
	C *int32          `protobuf:"fixed32,3,opt"`
	D map[int32]int32 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
}

type CT struct {
	A []int32         `protobuf:"zigzag32,1,rep"`
	B []int32         `protobuf:"varint,2,rep"`
	C *int32          `protobuf:"varint,3,opt"`
	D map[int32]int32 `protobuf:"bytes,4,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
}

func pickCS(i int) interface{} {
	x := int32(-5)
	if i == 0 {
		return &CS{A: []int32{-1, 2}, B: []int32{-1, 2}, C: &x, D: map[int32]int32{-7: -8}}
	}
	return &CT{A: []int32{-1, 2}, B: []int32{-1, 2}, C: &x, D: map[int32]int32{-7: -8}}
}

// verif: race reach=joined
func H_C14_overlap() {
	i, j := nd.Choose(2), nd.Choose(2)
	a, b := nd.Choose(2), nd.Choose(2)
	nd.Assume(i <= j && (nd.Tier() > 0 || a <= b))
	race(newTask(pickCS(i), a), newTask(pickCS(j), b))
}

// Later uses: the types are known already, two decodes of maps overlap.
// verif: race reach=joined
func H_C14_warm() {
	warm(new(CO))
	warm(new(CS))
	mk := func() *task {
		switch nd.Choose(3) {
		case 0:
			return newTask(pickCO(1), nd.Choose(2))
		case 1:
			return newTask(pickCS(0), 1)
		}
		return newTask(pickCS(0), 3)
	}
	race(mk(), mk())
}

// Map decoders share what they reuse between calls.
// verif: race reach=joined
func H_C14_maps() {
	warm(new(MapsSmall))
	x := &MapsSmall{B: map[string][]byte{"k": ref.Raw(1)}}
	y := &MapsSmall{B: map[string][]byte{"": ref.Raw(2)}}
	a, b := newTask(x, 1), newTask(y, 1)
	if nd.Choose(2) == 1 {
		// without a value
		b.data = wrap(2, []byte{10, 1, 'q'})
		b.in = &MapsSmall{B: map[string][]byte{"q": nil}}
	}
	race(a, b)
}

// Three goroutines.
// verif: race thorough=1 preempt=2 reach=joined
func H_C14_three() {
	race(newTask(pickCA(0), 0), newTask(pickCA(1), 1), newTask(pickCA(nd.Choose(2)), nd.Choose(3)))
}

// A goroutine that decodes and one that encodes a type which contains itself.
type CR struct {
	L []*CR          `protobuf:"bytes,1,rep"`
	M map[uint32]*CR `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	X uint32         `protobuf:"varint,3,opt"`
}

// verif: race reach=joined
func H_C14_self() {
	m := func() interface{} { return &CR{L: []*CR{{X: 1}}, M: map[uint32]*CR{1: {X: 2}}} }
	a, b := nd.Choose(3), nd.Choose(3)
	nd.Assume(a <= b)
	race(newTask(m(), a), newTask(m(), b))
}
