package h

import (
	"reflect"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	"github.com/RomiChan/protobuf/internal/zzverif/ref"
	"github.com/RomiChan/protobuf/proto"
)

// exactly requires that b gives the error or the message the specification
// says it has.
func exactly(b []byte, t reflect.Type) {
	s := ref.Of(t)
	want := reflect.New(t)
	p := ref.Decode(b, s, want.Elem())
	nd.Assume(p.Why != ref.Unspecified)
	got := reflect.New(t)
	err := proto.Unmarshal(nd.Guarded(b), got.Interface())
	if p.Why != ref.Valid {
		nd.Reach("error")
		nd.Assert(err != nil, "contents that do not fit their window are accepted")
		return
	}
	nd.Reach("ok")
	nd.Assert(err == nil, "contents that fit their window are rejected")
	nd.Assert(ref.Equal(s, got.Elem(), want.Elem()), "contents of a window are wrong, or the parent resumes in the wrong place")
	nd.Observe("sum", ref.Sum(s, got.Elem()))
}

// window puts a length of any value before n arbitrary bytes and a final
// record, in each length-delimited field.
func window(m interface{}, tail []byte, n int) {
	t := warm(m)
	s := ref.Of(t)
	f := s.Fields[nd.Choose(len(s.Fields))]
	nd.Assume(f.Wire() == ref.Len)
	b := ref.AppendVarint(nil, f.Num<<3|ref.Len)
	b = append(b, ref.VarintN(1)...)
	b = append(b, ref.Raw(n)...)
	b = append(b, tail...)
	exactly(b, t)
}

func n19(q, t int) int {
	if nd.Tier() > 0 {
		return nd.Choose(t + 1)
	}
	return nd.Choose(q + 1)
}

// verif: reach=ok,error
func H_C19_nest() { window(new(Nest), []byte{32, 7}, n19(4, 6)) }

// verif: reach=ok,error
func H_C19_small() { window(new(Small), []byte{8, 1}, n19(4, 5)) }

// verif: reach=ok,error
func H_C19_maps() { window(new(MapsSmall), []byte{26, 2, 8, 1}, n19(4, 5)) }

// verif: reach=ok,error
func H_C19_opts() { window(new(Opts), []byte{8, 7}, n19(4, 6)) }

// verif: reach=ok,error
func H_C19_ptrs() { window(new(Ptrs), []byte{8, 7}, n19(4, 6)) }

// verif: reach=ok,error
func H_C19_reps() { window(new(Reps), []byte{8, 7}, n19(4, 5)) }

// verif: reach=ok,error
func H_C19_named() { window(new(Named), []byte{8, 7}, n19(3, 5)) }

// Two levels of windows: the outer length is arbitrary, the inner one too.
// verif: reach=ok,error
func H_C19_two() {
	t := warm(new(Nest))
	outer := ref.VarintN(1)
	inner := ref.VarintN(1)
	n := n19(3, 4)
	x := ref.Raw(n)
	var b []byte
	switch nd.Choose(4) {
	case 0: // Nest.A.C
		b = append([]byte{10}, outer...)
		b = append(b, 26)
	case 1: // Nest.B[].B, a string
		b = append([]byte{18}, outer...)
		b = append(b, 18)
	case 2: // Nest.C value
		b = append([]byte{26}, outer...)
		b = append(b, 8, 1, 18)
	case 3: // Nest.C value first
		b = append([]byte{26}, outer...)
		b = append(b, 18)
	}
	b = append(b, inner...)
	b = append(b, x...)
	b = append(b, 32, 9)
	exactly(b, t)
}

// A field inside that ends beyond its window while the input goes on, for
// each kind of inner field.
func beyond(f *ref.Field, w ref.W) []byte {
	in := w.Record(f)
	return in
}

// verif: reach=ok,error
func H_C19_beyond() {
	t := warm(new(BigOuter))
	s := ref.Of(t)
	in := ref.Of(typeOf(new(BigInner)))
	w := ref.W{Varints: []int{1, 3}, Lens: []int{0, 3}, Depth: 1, Subs: 1, Entries: 1}
	r := beyond(in.Fields[nd.Choose(len(in.Fields))], w)
	f := s.Fields[nd.Choose(3)]
	short := nd.Choose(len(r) + 3)
	l := len(r) + 2 - short // from two beyond the record to nothing
	b := []byte{byte(f.Num<<3 | ref.Len)}
	if f.Card == ref.Map {
		b = append(b, byte(4+l), 8, 5, 18, byte(l))
	} else {
		b = append(b, byte(l))
	}
	b = append(b, r...)
	b = append(b, 32, 9, 32, 10)
	exactly(b, t)
}

type BigOuter struct {
	A *BigInner            `protobuf:"bytes,1,opt"`
	B []*BigInner          `protobuf:"bytes,2,rep"`
	C map[uint32]*BigInner `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	D uint32               `protobuf:"varint,4,opt"`
}

type BigInner struct {
	A uint64                `protobuf:"varint,1,opt"`
	B uint32                `protobuf:"fixed32,2,opt"`
	C float64               `protobuf:"fixed64,3,opt"`
	D string                `protobuf:"bytes,5,opt"`
	E []byte                `protobuf:"bytes,6,opt"`
	F *Leaf                 `protobuf:"bytes,7,opt"`
	G []uint32              `protobuf:"fixed32,8,rep"`
	H proto.Option[string]  `protobuf:"bytes,9,opt"`
	I proto.Option[float32] `protobuf:"fixed32,10,opt"`
	J *int64                `protobuf:"fixed64,11,opt"`
	K map[string][]byte     `protobuf:"bytes,12,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	L [][]byte              `protobuf:"bytes,13,rep"`
}

// An undeclared inner field that ends beyond its window.
// verif: reach=ok,error
func H_C19_unknown() {
	t := warm(new(Nest))
	u := ref.UnknownN(ref.Of(typeOf(new(Tiny))), 1)
	nd.Assume(len(u) < 100)
	short := nd.Choose(len(u) + 3)
	l := len(u) + 2 - short
	k := nd.Choose(3)
	b := []byte{byte((k+1)<<3 | 2)}
	if k == 2 {
		b = append(b, byte(4+l), 8, 5, 18)
	}
	b = append(b, byte(l))
	b = append(b, u...)
	b = append(b, 32, 9, 32, 10)
	exactly(b, t)
}
