package h

import (
	"reflect"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	"github.com/RomiChan/protobuf/internal/zzverif/ref"
	"github.com/RomiChan/protobuf/proto"
)

// decodeApart decodes b and requires that the message has nothing to do with
// b's memory.
func decodeApart(b []byte, m interface{}) {
	v := reflect.ValueOf(m).Elem()
	s := ref.Of(v.Type())
	buf := append(make([]byte, 0, len(b)+8), b...)
	err := proto.Unmarshal(buf, m)
	if err == nil {
		nd.Reach("decoded")
	}
	nd.Assert(ref.SameBytes(buf, b), "Unmarshal changed its input")
	nd.Assert(!ref.Aliases(s, v, buf), "the message refers to the input's memory")
	before := ref.Clone(s, v)
	nd.Flip(buf)
	nd.Assert(ref.Equal(s, v, before), "changing the input afterwards changed the message")
	nd.Observe("sum", ref.Sum(s, v))
}

func w9() ref.W {
	w := ref.W{Varints: []int{2}, Lens: []int{0, 1, 5, 128}, Depth: 1, Subs: 2, Entries: 3}
	if nd.Tier() > 0 {
		w.Entries = 8
		w.Depth = 2
		w.Lens = []int{0, 1, 2, 15, 16, 17, 31, 32, 33, 64, 127, 128, 129, 1000, 4096}
	}
	return w
}

func apart(m interface{}, w ref.W) {
	t := warm(m)
	s := ref.Of(t)
	b := w.Record(s.Fields[nd.Choose(len(s.Fields))])
	if nd.Choose(2) == 1 {
		fillAll(m)
	}
	decodeApart(b, m)
}

// verif: reach=decoded
func H_C09_scalars() { apart(new(Scalars), w9()) }

// verif: reach=decoded
func H_C09_opts() { apart(new(Opts), w9()) }

// verif: reach=decoded
func H_C09_ptrs() { apart(new(Ptrs), w9()) }

// verif: reach=decoded
func H_C09_reps() { apart(new(Reps), w9()) }

// verif: reach=decoded
func H_C09_maps() { w := w9(); w.Subs = 1; apart(new(Maps), w) }

// verif: reach=decoded
func H_C09_named() { apart(new(Named), w9()) }

// verif: reach=decoded
func H_C09_small() { apart(new(Small), w9()) }

// verif: reach=decoded
func H_C09_nest() { w := w9(); w.Lens = []int{0, 5}; apart(new(Nest), w) }

// Long contents may take other paths.
// verif: reach=decoded steps=60000000 samples=8
func H_C09_long() {
	o := bulky()
	b := ref.Encode(nil, ref.Of(typeOf(o)), reflect.ValueOf(o).Elem())
	decodeApart(b, new(Outer))
}

// Input that fails part way through.
func H_C09_failing() {
	m := new(Small)
	s := ref.Of(warm(m))
	w := w9()
	w.Lens = []int{0, 5}
	w.Subs = 1
	b := w.Record(s.Fields[nd.Choose(len(s.Fields))])
	b = append(b, ref.Raw(2)...)
	decodeApart(b, m)
}

// Arbitrary bytes that cannot be written.
func H_C09_bytes() { totalBytes(new(Small), 5, 7) }

// encodeApart marshals m and requires that neither side affects the other.
func encodeApart(m interface{}, s *ref.Schema, v reflect.Value) {
	before := ref.Clone(s, v)
	n := proto.Size(m)
	nd.Assert(ref.Equal(s, v, before), "Size changed the message")
	b, err := proto.Marshal(m)
	nd.Assert(err == nil, "Marshal returned an error")
	nd.Assert(ref.Equal(s, v, before), "Marshal changed the message")
	nd.Assert(!ref.Aliases(s, v, b), "Marshal's output shares memory with the message")
	keep := append([]byte{}, b...)
	b2, err := proto.Marshal(m)
	nd.Assert(err == nil, "Marshal returned an error")
	nd.Assert(!nd.SameMemory(b, b2), "two outputs of Marshal share memory")
	nd.Assert(len(b2) == n, "Marshal gives another length the second time")
	nd.Flip(b2)
	for i := range b2[:cap(b2)] {
		b2[:cap(b2)][i] = 0xee
	}
	nd.Assert(ref.Equal(s, v, before), "changing Marshal's output changed the message")
	nd.Assert(ref.SameBytes(b, keep), "changing one output of Marshal changed another")
	b3, err := proto.Marshal(m)
	nd.Assert(err == nil && len(b3) == n, "a later Marshal differs")
	out := reflect.New(v.Type())
	nd.Assert(ref.Decode(b3, s, out.Elem()).Why == ref.Valid, "a later Marshal is affected by changing an output")
	nd.Assert(ref.Equal(s, out.Elem(), v), "a later Marshal is affected by changing an output")
	// and the other way round
	for _, f := range s.Fields {
		v.Field(f.Index).Set(reflect.Zero(f.Type))
		ref.FillSome(f, v.Field(f.Index), 17)
	}
	nd.Assert(ref.SameBytes(b, keep), "changing the message changed Marshal's output")
	_, err = proto.Marshal(m)
	nd.Assert(err == nil, "Marshal returned an error")
	nd.Assert(ref.SameBytes(b, keep), "a later Marshal changed an earlier output")
	nd.Observe("n", uint64(n))
}

func encApart(m interface{}, c ref.Cfg) {
	warm(m)
	s, v := focus(m, c)
	encodeApart(m, s, v)
}

func H_C09_enc_scalars() { encApart(new(Scalars), small()) }
func H_C09_enc_opts()    { encApart(new(Opts), small()) }
func H_C09_enc_ptrs()    { encApart(new(Ptrs), small()) }
func H_C09_enc_reps()    { encApart(new(Reps), small()) }
func H_C09_enc_maps()    { c := mapCfg(); c.Maps = []int{0, 1}; encApart(new(Maps), c) }
func H_C09_enc_small()   { encApart(new(Small), small()) }
func H_C09_enc_nest() {
	c := mapCfg()
	c.Maps = []int{0, 1}
	c.Reps = []int{0, 2}
	encApart(new(Nest), c)
}

// The memory behind the message's slices is left alone as well.
func H_C09_spare() {
	buf := ref.Raw(8)
	keep := append([]byte{}, buf...)
	n := nd.Choose(4)
	m := &Small{A: true, F: buf[:n:8], C: "x", D: []int64{1, 2, 3}[:n%3]}
	r := make([]*Leaf, 1, 3)
	r[0] = &Leaf{A: int32(nd.U32())}
	m.E = &Sub{B: r}
	if nd.Choose(2) == 0 {
		proto.Size(m)
	}
	_, err := proto.Marshal(m)
	nd.Assert(err == nil, "Marshal returned an error")
	nd.Assert(ref.SameBytes(buf, keep), "Marshal wrote into the spare capacity of a field")
	nd.Assert(r[:2][1] == nil, "Marshal wrote into the spare capacity of a field")
}

// Two messages decoded from the same input share nothing either.
func H_C09_twice() {
	t := warm(new(Small))
	s := ref.Of(t)
	w := w9()
	w.Lens = []int{0, 5}
	w.Subs = 1
	b := w.Record(s.Fields[nd.Choose(len(s.Fields))])
	x, y := new(Small), new(Small)
	nd.Assert(proto.Unmarshal(b, x) == nil && proto.Unmarshal(b, y) == nil, "Unmarshal rejects a valid record")
	vy := reflect.ValueOf(y).Elem()
	before := ref.Clone(s, vy)
	nd.Assert(!ref.Aliases(s, vy, x.F), "two decoded messages share memory")
	for i := range x.F {
		x.F[i] ^= 0xff
	}
	for i := range x.D {
		x.D[i]++
	}
	if x.E != nil {
		x.E.A++
		for _, l := range x.E.B {
			l.A++
		}
	}
	if x.G != nil {
		*x.G++
	}
	nd.Assert(ref.Equal(s, vy, before), "changing one decoded message changed another")
}
