package h

import (
	"reflect"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	"github.com/RomiChan/protobuf/internal/zzverif/ref"
	"github.com/RomiChan/protobuf/proto"
)

// count12 gives the numbers of elements tried, around each growth.
func count12() int {
	l := []int{0, 1, 2, 3, 9, 10, 11, 20, 21}
	if nd.Tier() > 0 {
		l = nil
		for i := 0; i <= 24; i++ {
			l = append(l, i)
		}
		l = append(l, 39, 40, 41, 79, 80, 81, 160, 161)
	}
	return l[nd.Choose(len(l))]
}

// elems gives a slice of n elements, one of them arbitrary.
func elems(f *ref.Field, n int) reflect.Value {
	v := reflect.New(f.Type).Elem()
	pick := 0
	if n > 1 {
		pick = []int{0, n / 2, n - 1}[nd.Choose(3)]
	}
	c := ref.Cfg{Lens: []int{0, 2}, Depth: 1, Bare: true}
	for i := 0; i < n; i++ {
		if i == pick {
			v.Set(reflect.Append(v, ref.Any(f, c)))
			continue
		}
		if i%3 == 2 {
			z := reflect.New(f.Elem).Elem()
			if f.Kind == ref.Message {
				z.Set(reflect.New(f.Elem.Elem()))
			}
			v.Set(reflect.Append(v, z))
			continue
		}
		v.Set(reflect.Append(v, ref.Some(f, i)))
	}
	return v
}

// each requires one record per element, and the same elements back.
func each(m interface{}) {
	t := warm(m)
	s := ref.Of(t)
	v := reflect.ValueOf(m).Elem()
	f := s.Fields[nd.Choose(len(s.Fields))]
	nd.Assume(f.Card == ref.Rep)
	n := count12()
	v.Field(f.Index).Set(elems(f, n))
	b, err := proto.Marshal(m)
	nd.Assert(err == nil, "Marshal returned an error")
	rs, ok := ref.Split(b)
	nd.Assert(ok, "Marshal's output is malformed")
	nd.Assert(len(rs) == n && ref.Count(rs, f.Num) == n, "the number of records differs from the number of elements")
	out := reflect.New(t)
	nd.Assert(proto.Unmarshal(b, out.Interface()) == nil, "Unmarshal rejects what Marshal wrote")
	nd.Assert(ref.Equal(s, out.Elem(), v), "the elements came back different")
	nd.Observe("sum", ref.Sum(s, out.Elem()))
}

func H_C12_each_reps()  { each(new(Reps)) }
func H_C12_each_named() { each(new(Named)) }
func H_C12_each_sibs()  { each(new(Sibs)) }
func H_C12_each_nest()  { each(new(Nest)) }

// appendTo decodes records into a slice that has elements, with room for more
// that holds remains of earlier use.
func appendTo(m interface{}, w ref.W) {
	t := warm(m)
	s := ref.Of(t)
	v := reflect.ValueOf(m).Elem()
	f := s.Fields[nd.Choose(len(s.Fields))]
	nd.Assume(f.Card == ref.Rep)
	have := []int{0, 1, 3, 10}[nd.Choose(4)]
	room := []int{0, 1, 2, 5}[nd.Choose(4)]
	full := reflect.MakeSlice(f.Type, have+room, have+room)
	for i := 0; i < have+room; i++ {
		full.Index(i).Set(ref.Some(f, i))
	}
	x := v.Field(f.Index)
	x.Set(full.Slice(0, have))
	want := reflect.New(t)
	want.Elem().Set(ref.Clone(s, v))
	n := 1 + nd.Choose(2)
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, w.Record(f)...)
	}
	nd.Assert(ref.Decode(b, s, want.Elem()).Why == ref.Valid, "harness: invalid records")
	nd.Assert(proto.Unmarshal(nd.Guarded(b), m) == nil, "Unmarshal rejects valid records")
	nd.Assert(x.Len() == have+n, "the number of elements after decoding is wrong")
	nd.Assert(ref.Equal(s, v, want.Elem()), "decoding appends something else than the specification says")
	nd.Observe("sum", ref.Sum(s, v))
}

func w12() ref.W {
	return ref.W{Varints: []int{1, 5}, Lens: []int{0, 2}, Depth: 1, Subs: 1, Entries: 1}
}

func H_C12_append_reps()  { appendTo(new(Reps), w12()) }
func H_C12_append_named() { appendTo(new(Named), w12()) }
func H_C12_append_sibs()  { appendTo(new(Sibs), w12()) }
func H_C12_append_nest() {
	w := w12()
	w.Varints = []int{1}
	w.Lens = []int{1}
	w.Subs = 1 + nd.Tier()
	appendTo(new(Nest), w)
}

// Many records, the elements all different, across every growth.
func H_C12_grow() {
	t := warm(new(Reps))
	s := ref.Of(t)
	f := s.Fields[nd.Choose(len(s.Fields))]
	n := 45
	if nd.Tier() > 0 {
		n = 180
	}
	pick := []int{0, 9, 10, 19, 20, 39, 40, n - 1}[nd.Choose(8)]
	w := ref.W{Varints: []int{2}, Lens: []int{1}, Depth: 0}
	var b []byte
	want := reflect.New(t)
	x := want.Elem().Field(f.Index)
	for i := 0; i < n; i++ {
		if i == pick {
			r := w.Record(f)
			b = append(b, r...)
			nd.Assert(ref.Decode(r, s, want.Elem()).Why == ref.Valid, "harness: invalid record")
			continue
		}
		e := ref.Some(f, i)
		one := reflect.New(t)
		one.Elem().Field(f.Index).Set(reflect.Append(one.Elem().Field(f.Index), e))
		b = append(b, ref.Encode(nil, s, one.Elem())...)
		x.Set(reflect.Append(x, e))
	}
	m := reflect.New(t)
	nd.Assert(proto.Unmarshal(b, m.Interface()) == nil, "Unmarshal rejects valid records")
	nd.Assert(m.Elem().Field(f.Index).Len() == n, "elements are lost or invented")
	nd.Assert(ref.Equal(s, m.Elem(), want.Elem()), "an element came back different or in another place")
	nd.Observe("sum", ref.Sum(s, m.Elem()))
}

// Records of two repeated fields that alternate, across growths of both.
func H_C12_alternate() {
	t := warm(new(Reps))
	s := ref.Of(t)
	k := nd.Choose(len(s.Fields))
	f := s.Fields[k]
	d := 1 + nd.Choose(3)
	if nd.Tier() > 0 {
		d = 1 + nd.Choose(len(s.Fields)-1)
	}
	g := s.Fields[(k+d)%len(s.Fields)]
	n := 22
	if nd.Tier() > 0 {
		n = 42
	}
	pick := []int{0, 9, n - 1}[nd.Choose(3)]
	w := ref.W{Varints: []int{2}, Lens: []int{1}, Depth: 0}
	var b []byte
	want := reflect.New(t)
	for i := 0; i < n; i++ {
		for x, f := range []*ref.Field{f, g} {
			var r []byte
			if i == pick {
				r = w.Record(f)
			} else {
				one := reflect.New(t)
				y := one.Elem().Field(f.Index)
				y.Set(reflect.Append(y, ref.Some(f, i+x)))
				r = ref.Encode(nil, s, one.Elem())
			}
			nd.Assert(ref.Decode(r, s, want.Elem()).Why == ref.Valid, "harness: invalid record")
			b = append(b, r...)
		}
	}
	m := reflect.New(t)
	nd.Assert(proto.Unmarshal(b, m.Interface()) == nil, "Unmarshal rejects valid records")
	nd.Assert(ref.Equal(s, m.Elem(), want.Elem()), "alternating records are mixed up")
	nd.Observe("sum", ref.Sum(s, m.Elem()))
}

// Records of two repeated fields and a singular one interleaved.
func H_C12_mixed() {
	t := warm(new(Inter))
	s := ref.Of(t)
	w := ref.W{Varints: []int{1}, Lens: []int{1}, Depth: 1, Subs: 1}
	n := 4
	if nd.Tier() > 0 {
		n = 6
	}
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, w.Record(s.Fields[nd.Choose(len(s.Fields))])...)
	}
	m := new(Inter)
	if nd.Choose(2) == 1 {
		m.A = make([]uint32, 1, 2)
		m.C = make([][]byte, 0, 1)
	}
	want := reflect.New(t)
	want.Elem().Set(ref.Clone(s, reflect.ValueOf(m).Elem()))
	nd.Assert(ref.Decode(b, s, want.Elem()).Why == ref.Valid, "harness: invalid records")
	nd.Assert(proto.Unmarshal(b, m) == nil, "Unmarshal rejects valid records")
	nd.Assert(ref.Equal(s, reflect.ValueOf(m).Elem(), want.Elem()), "interleaved records are mixed up")
	nd.Observe("sum", ref.Sum(s, reflect.ValueOf(m).Elem()))
}

type Inter struct {
	A []uint32 `protobuf:"varint,1,rep"`
	B []string `protobuf:"bytes,2,rep"`
	C [][]byte `protobuf:"bytes,3,rep"`
	D bool     `protobuf:"varint,4,opt"`
	E []bool   `protobuf:"varint,5,rep"`
}

// Nil byte slices are written as empty.
func H_C12_nilbytes() {
	m := new(Inter)
	n := 1 + nd.Choose(3)
	for i := 0; i < n; i++ {
		switch nd.Choose(3) {
		case 0:
			m.C = append(m.C, nil)
		case 1:
			m.C = append(m.C, []byte{})
		case 2:
			m.C = append(m.C, ref.Raw(1))
		}
	}
	b, err := proto.Marshal(m)
	nd.Assert(err == nil, "Marshal returned an error")
	nd.Assert(proto.Size(m) == len(b), "Size differs from the length of Marshal's output")
	rs, ok := ref.Split(b)
	nd.Assert(ok && len(rs) == n, "not one record per element")
	out := new(Inter)
	nd.Assert(proto.Unmarshal(b, out) == nil, "Unmarshal rejects what Marshal wrote")
	nd.Assert(len(out.C) == n, "elements are lost")
	for i := range m.C {
		nd.Assert(ref.SameBytes(m.C[i], out.C[i]), "an element came back different")
		nd.Assert(ref.SameBytes(m.C[i], rs[i].Data), "a record holds something else than its element")
	}
}

// A decode that fails leaves whole elements only.
func H_C12_failed() {
	t := warm(new(Reps))
	s := ref.Of(t)
	f := s.Fields[nd.Choose(len(s.Fields))]
	w := ref.W{Varints: []int{1}, Lens: []int{1}, Depth: 0}
	a := w.Record(f)
	b := append(append([]byte{}, a...), 0x0f)
	m, want := reflect.New(t), reflect.New(t)
	nd.Assert(proto.Unmarshal(b, m.Interface()) != nil, "Unmarshal accepts malformed input")
	x := m.Elem().Field(f.Index)
	x.Set(x.Slice(0, 0))
	c := w.Record(f)
	nd.Assert(proto.Unmarshal(c, m.Interface()) == nil, "Unmarshal rejects a valid record")
	nd.Assert(ref.Decode(c, s, want.Elem()).Why == ref.Valid, "harness: invalid record")
	nd.Assert(ref.Equal(s, m.Elem(), want.Elem()), "an element depends on an earlier use of the slice")
}
