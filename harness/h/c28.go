package h

import (
	"reflect"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	"github.com/RomiChan/protobuf/internal/zzverif/ref"
	"github.com/RomiChan/protobuf/proto"
)

// owns decodes b several times and requires that whatever one of the messages
// refers to is its own, and each piece of it another's than the others'.
func owns(m interface{}, b []byte) {
	v := reflect.ValueOf(m).Elem()
	t := v.Type()
	s := ref.Of(t)
	y := reflect.New(t)
	nd.Assert(proto.Unmarshal(b, m) == nil && proto.Unmarshal(b, y.Interface()) == nil, "Unmarshal rejects a valid record")
	parts := ref.Parts(s, v)
	nd.Observe("parts", uint64(parts))
	if parts == 0 {
		return
	}
	nd.Reach("parts")
	k := nd.Choose(parts)
	wantX, wantY := ref.Clone(s, v), ref.Clone(s, y.Elem())
	ref.Scribble(s, v, k)
	ref.Scribble(s, wantX, k)
	nd.Assert(ref.Equal(s, v, wantX), "writing to one part of a decoded message changes another part of it")
	nd.Assert(ref.Equal(s, y.Elem(), wantY), "writing to a decoded message changes another one")
	z := reflect.New(t)
	nd.Assert(proto.Unmarshal(b, z.Interface()) == nil, "Unmarshal rejects a valid record")
	fresh := reflect.New(t)
	ref.Decode(b, s, fresh.Elem())
	nd.Assert(ref.Equal(s, z.Elem(), fresh.Elem()), "writing to a decoded message changes what is decoded later")
	nd.Assert(ref.Equal(s, v, wantX), "decoding another message changes one decoded earlier")
	nd.Observe("sum", ref.Sum(s, v))
}

func w28() ref.W {
	w := ref.W{Varints: []int{1}, Lens: []int{0, 1, 2, 16, 40, 600}, Depth: 1, Subs: 1, Entries: 3, Keys: 2}
	if nd.Tier() > 0 {
		w.Lens = []int{0, 1, 5, 16, 64, 1000}
		w.Entries = 5
		w.Keys = 0
		w.Depth = 2
	}
	return w
}

// ownSame decodes two or three records of a field.
func ownSame(m interface{}) {
	t := warm(m)
	s := ref.Of(t)
	w := w28()
	f := s.Fields[nd.Choose(len(s.Fields))]
	b := append(w.Record(f), w.Record(f)...)
	owns(m, b)
}

// ownPair decodes records of two fields in turn.
func ownPair(m interface{}) {
	t := warm(m)
	s := ref.Of(t)
	w := w28()
	w.Entries = 1
	w.Lens = []int{2}
	if nd.Tier() > 0 {
		w.Lens = []int{0, 5}
	}
	f, g := s.Fields[nd.Choose(len(s.Fields))], s.Fields[nd.Choose(len(s.Fields))]
	a, b := w.Record(f), w.Record(g)
	owns(m, append(append(append(append([]byte{}, a...), b...), a...), b...))
}

// verif: reach=parts fixedmap poolhits
func H_C28_ptrs() { ownSame(new(Ptrs)) }

// verif: reach=parts fixedmap poolhits
func H_C28_reps() { ownSame(new(Reps)) }

// verif: reach=parts fixedmap poolhits
func H_C28_maps() { ownSame(new(Maps)) }

// verif: reach=parts fixedmap poolhits
func H_C28_named() { ownSame(new(Named)) }

// verif: reach=parts fixedmap poolhits
func H_C28_small() { ownPair(new(Small)) }

// verif: reach=parts fixedmap poolhits
func H_C28_mixed() { ownPair(new(Mixed)) }

// verif: reach=parts fixedmap poolhits
func H_C28_nest() { ownPair(new(Nest)) }

// verif: reach=parts fixedmap poolhits
func H_C28_sibs() { ownPair(new(Sibs)) }

// verif: reach=parts fixedmap poolhits
func H_C28_tree() {
	m := new(Tree)
	warm(m)
	v := append([]byte{2 << 3}, ref.VarintN(1)...)
	num := func() uint64 { return []uint64{1, 3, 4}[nd.Choose(3)] }
	a := append(wrap(num(), v), v...)
	owns(m, append(wrap(num(), a), wrap(num(), a)...))
}

// Every field of several kinds at once.
// verif: reach=parts fixedmap poolhits
func H_C28_all() {
	m := []interface{}{new(Small), new(Reps), new(Nest), new(Mixed), new(Ptrs)}[nd.Choose(5)]
	t := warm(m)
	s := ref.Of(t)
	x := reflect.New(t)
	fillAll(x.Interface())
	owns(m, ref.Encode(nil, s, x.Elem()))
}

// Many elements, with room left over.
// verif: reach=parts fixedmap poolhits
func H_C28_many() {
	m := new(Reps)
	t := warm(m)
	s := ref.Of(t)
	w := w28()
	w.Lens = []int{2}
	f := s.Fields[[]int{0, 8, 13, 14, 15}[nd.Choose(5)]]
	var b []byte
	r := w.Record(f)
	for n := []int{3, 10, 11}[nd.Choose(3)]; n > 0; n-- {
		b = append(b, r...)
	}
	owns(m, b)
}

// Elements that were in a repeated field are not written to when others follow:
// whoever kept them still has them.
func kept(m interface{}) {
	t := warm(m)
	s := ref.Of(t)
	v := reflect.ValueOf(m).Elem()
	w := w28()
	w.Entries = 1
	f := s.Fields[nd.Choose(len(s.Fields))]
	nd.Assume(f.Card == ref.Rep)
	ref.FillSome(f, v.Field(f.Index), 7)
	if nd.Choose(2) == 1 {
		nd.Assert(proto.Unmarshal(w.Record(f), m) == nil, "Unmarshal rejects a valid record")
	}
	old := reflect.New(t).Elem()
	old.Set(v)
	elems := ref.Clone(s, v)
	nd.Assert(proto.Unmarshal(w.Record(f), m) == nil, "Unmarshal rejects a valid record")
	nd.Reach("elems")
	nd.Assert(ref.EqualField(f, old.Field(f.Index), elems.Field(f.Index)), "Unmarshal writes to elements that were there before")
	other := reflect.New(t)
	nd.Assert(proto.Unmarshal(w.Record(f), other.Interface()) == nil, "Unmarshal rejects a valid record")
	nd.Assert(ref.EqualField(f, old.Field(f.Index), elems.Field(f.Index)), "decoding another message writes to elements that were in this one")
}

// Arrays that a field has outgrown are whoever's who kept them.
// verif: reach=grown
func H_C28_outgrown() {
	m := new(Reps)
	t := warm(m)
	s := ref.Of(t)
	v := reflect.ValueOf(m).Elem()
	w := w28()
	w.Lens = []int{2}
	f := s.Fields[[]int{0, 2, 6, 8, 10, 12, 13, 14, 15}[nd.Choose(9)]]
	r := w.Record(f)
	var b []byte
	for n := []int{4, 10, 20}[nd.Choose(3)]; n > 0; n-- {
		b = append(b, r...)
	}
	nd.Assert(proto.Unmarshal(b, m) == nil, "Unmarshal rejects valid records")
	old := reflect.New(t).Elem()
	old.Set(v)
	elems := ref.Clone(s, v)
	x := reflect.New(t)
	for n := 0; n < 2; n++ {
		nd.Assert(proto.Unmarshal(b, m) == nil && proto.Unmarshal(b, x.Interface()) == nil, "Unmarshal rejects valid records")
	}
	nd.Reach("grown")
	for n := 0; n < 2; n++ {
		y := reflect.New(t)
		nd.Assert(proto.Unmarshal(w.Record(f), y.Interface()) == nil, "Unmarshal rejects a valid record")
	}
	nd.Assert(ref.EqualField(f, old.Field(f.Index), elems.Field(f.Index)), "decoding writes to elements that were in a message before")
}

// verif: reach=elems
func H_C28_kept_reps() { kept(new(Reps)) }

// verif: reach=elems
func H_C28_kept_small() { kept(new(Small)) }

// verif: reach=elems
func H_C28_kept_named() { kept(new(Named)) }

// Values that map entries replace are left as they are.
// verif: reach=values fixedmap poolhits
func H_C28_kept_maps() {
	m := []interface{}{new(Maps), new(Nest), new(CR)}[nd.Choose(3)]
	t := warm(m)
	s := ref.Of(t)
	v := reflect.ValueOf(m).Elem()
	w := w28()
	w.Lens = []int{2}
	f := s.Fields[nd.Choose(len(s.Fields))]
	nd.Assume(f.Card == ref.Map)
	nd.Assert(proto.Unmarshal(w.Record(f), m) == nil, "Unmarshal rejects a valid record")
	old := reflect.New(t).Elem()
	o := reflect.MakeMap(f.Type)
	for _, k := range v.Field(f.Index).MapKeys() {
		o.SetMapIndex(k, v.Field(f.Index).MapIndex(k))
	}
	old.Field(f.Index).Set(o)
	values := ref.Clone(s, old)
	nd.Assert(proto.Unmarshal(w.Record(f), m) == nil, "Unmarshal rejects a valid record")
	nd.Reach("values")
	nd.Assert(ref.EqualField(f, old.Field(f.Index), values.Field(f.Index)), "Unmarshal writes to values that were in a map before")
}
