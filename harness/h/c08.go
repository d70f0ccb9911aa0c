package h

import (
	"reflect"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	"github.com/RomiChan/protobuf/internal/zzverif/ref"
	"github.com/RomiChan/protobuf/proto"
)

func w8() ref.W {
	w := ref.W{Varints: []int{1, 2}, Lens: []int{0, 2}, Depth: 1, Subs: 2, Entries: 3}
	if nd.Tier() > 0 {
		w.Varints = []int{1, 10}
		w.Entries = 8
	}
	return w
}

// concat requires that a and b in one go give what a and then b give.
func concat(a, b []byte, t reflect.Type) {
	s := ref.Of(t)
	x, y := reflect.New(t), reflect.New(t)
	want := reflect.New(t)
	ab := append(append([]byte{}, a...), b...)
	nd.Assert(proto.Unmarshal(ab, x.Interface()) == nil, "Unmarshal rejects the concatenation")
	nd.Assert(proto.Unmarshal(a, y.Interface()) == nil, "Unmarshal rejects the first encoding")
	nd.Assert(proto.Unmarshal(b, y.Interface()) == nil, "Unmarshal rejects the second encoding")
	ref.Decode(ab, s, want.Elem())
	nd.Assert(ref.Equal(s, x.Elem(), y.Elem()), "decoding a concatenation differs from decoding its parts in turn")
	nd.Assert(ref.Equal(s, y.Elem(), want.Elem()), "the merged message is not what the specification prescribes")
	nd.Observe("sum", ref.Sum(s, x.Elem()))
}

func concatOf(m interface{}, same bool, w ref.W) {
	t := warm(m)
	s := ref.Of(t)
	i := nd.Choose(len(s.Fields))
	j := i
	if !same {
		j = nd.Choose(len(s.Fields))
	}
	concat(w.Record(s.Fields[i]), w.Record(s.Fields[j]), t)
}

func H_C08_concat_small()   { concatOf(new(Small), false, w8()) }
func H_C08_concat_scalars() { concatOf(new(Scalars), true, w8()) }
func H_C08_concat_opts()    { concatOf(new(Opts), true, w8()) }
func H_C08_concat_ptrs()    { concatOf(new(Ptrs), true, w8()) }
func H_C08_concat_reps()    { concatOf(new(Reps), true, w8()) }
func H_C08_concat_maps()    { concatOf(new(Maps), true, w8()) }
func H_C08_concat_mixed()   { concatOf(new(Mixed), false, w8()) }
func H_C08_concat_nest()    { w := w8(); w.Entries = 1; w.Subs = 1; concatOf(new(Nest), false, w) }

func H_C08_concat_tree() {
	w := w8()
	w.Depth = 2
	w.Subs = 1
	w.Lens = []int{1}
	concatOf(new(Tree), false, w)
}

// into decodes one record into a message all of whose fields hold something,
// the record's field anything.
func into(m interface{}, w ref.W, c ref.Cfg) {
	t := warm(m)
	s := ref.Of(t)
	v := reflect.ValueOf(m).Elem()
	k := nd.Choose(len(s.Fields))
	for i, f := range s.Fields {
		if i == k {
			ref.FillAny(f, v.Field(f.Index), c)
		} else {
			ref.FillSome(f, v.Field(f.Index), i)
		}
	}
	mergeOf(m, s, v, k, w.Record(s.Fields[k]))
}

// mergeOf decodes b, which holds records of the field k alone.
func mergeOf(m interface{}, s *ref.Schema, v reflect.Value, k int, b []byte) {
	t := v.Type()
	want := reflect.New(t)
	want.Elem().Set(ref.Clone(s, v))
	before := reflect.New(t).Elem()
	before.Set(v)
	nd.Assert(ref.Decode(b, s, want.Elem()).Why == ref.Valid, "harness: invalid record")
	nd.Assert(proto.Unmarshal(nd.Guarded(b), m) == nil, "Unmarshal rejects a valid record")
	for i, f := range s.Fields {
		x := v.Field(f.Index)
		nd.Assert(ref.EqualField(f, x, want.Elem().Field(f.Index)), "merging gives another field value than the specification")
		if i != k {
			old := before.Field(f.Index)
			if x.Kind() == reflect.Ptr || x.Kind() == reflect.Map {
				nd.Assert(x.Pointer() == old.Pointer(), "a field that is not in the input refers to something else")
			}
		}
	}
	nd.Observe("sum", ref.Sum(s, v))
}

func c8() ref.Cfg {
	return ref.Cfg{Lens: []int{0, 3}, Reps: []int{0, 2}, Maps: []int{0, 1}, Depth: 1, Elem: true, Bare: true}
}

func H_C08_into_scalars() { into(new(Scalars), w8(), c8()) }
func H_C08_into_opts()    { into(new(Opts), w8(), c8()) }
func H_C08_into_ptrs()    { into(new(Ptrs), w8(), c8()) }
func H_C08_into_reps()    { into(new(Reps), w8(), c8()) }
func H_C08_into_maps()    { w := w8(); w.Lens = []int{2}; into(new(Maps), w, c8()) }
func H_C08_into_sibs()    { into(new(Sibs), w8(), c8()) }
func H_C08_into_named()   { into(new(Named), w8(), c8()) }
func H_C08_into_small()   { into(new(Small), w8(), c8()) }
func H_C08_into_mixed()   { into(new(Mixed), w8(), c8()) }
func H_C08_into_nest()    { w := w8(); w.Lens = []int{2}; into(new(Nest), w, c8()) }
func H_C08_into_tree()    { w := w8(); w.Lens = []int{1}; w.Subs = 1; into(new(Tree), w, c8()) }

// Nothing in the input, nothing changes.
func H_C08_nothing() {
	m := new(Mixed)
	s, v := focus(m, small())
	before := ref.Clone(s, v)
	var b []byte
	if nd.Choose(2) == 1 {
		b = []byte{}
	}
	nd.Assert(proto.Unmarshal(b, m) == nil, "Unmarshal rejects empty input")
	nd.Assert(ref.Equal(s, v, before), "empty input changes the message")
}

// A message field merges into the embedded message that is there.
func H_C08_deep() {
	m := &Nest{A: &Tiny{A: int32(nd.U32()), B: string(ref.Raw(2)), C: &Tiny{A: int32(nd.U32()), B: "keep"}}, D: nd.U32()}
	v := reflect.ValueOf(m).Elem()
	s := ref.Of(warm(m))
	tiny := ref.Of(typeOf(new(Tiny)))
	w := w8()
	w.Depth = 0
	in := w.Record(tiny.Fields[nd.Choose(2)])
	switch nd.Choose(3) {
	case 1:
		in = wrap(3, in)
	case 2:
		in = append(wrap(3, in), wrap(3, w.Record(tiny.Fields[nd.Choose(2)]))...)
	}
	b := wrap(1, in)
	if nd.Choose(2) == 1 {
		b = append(b, wrap(1, w.Record(tiny.Fields[nd.Choose(2)]))...)
	}
	want := reflect.New(v.Type())
	want.Elem().Set(ref.Clone(s, v))
	ref.Decode(b, s, want.Elem())
	nd.Assert(proto.Unmarshal(b, m) == nil, "Unmarshal rejects a valid record")
	nd.Assert(ref.Equal(s, v, want.Elem()), "merging an embedded message loses or changes something")
	nd.Observe("sum", ref.Sum(s, v))
}
