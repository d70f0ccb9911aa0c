package h

import (
	"reflect"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	"github.com/RomiChan/protobuf/internal/zzverif/ref"
	"github.com/RomiChan/protobuf/proto"
)

// broken decodes b, which is malformed, into m and requires that m holds
// exactly what comes before the failure and that it can be used as if it had
// been put together that way.
func broken(m interface{}, b []byte, more func(s *ref.Schema) []byte) {
	v := reflect.ValueOf(m).Elem()
	t := v.Type()
	s := ref.Of(t)
	want := reflect.New(t)
	want.Elem().Set(ref.Clone(s, v))
	before := reflect.New(t).Elem()
	before.Set(v)
	p := ref.Decode(b, s, want.Elem())
	nd.Assume(p.Why != ref.Valid && p.Why != ref.Unspecified)
	nd.Reach("failed")
	err := proto.Unmarshal(nd.Guarded(b), m)
	nd.Assert(err != nil, "Unmarshal accepts malformed input")
	for _, f := range s.Fields {
		x := v.Field(f.Index)
		nd.Assert(ref.EqualField(f, x, want.Elem().Field(f.Index)), "after a failure the message does not hold what precedes the failing record")
		old := before.Field(f.Index)
		if (x.Kind() == reflect.Ptr || x.Kind() == reflect.Map) && !old.IsNil() && f.Card != ref.Ptr {
			nd.Assert(x.Pointer() == old.Pointer(), "a failure replaces what the message referred to")
		}
	}
	nd.Observe("sum", ref.Sum(s, v))
	usable(m, s, v)
	if more != nil {
		r := more(s)
		nd.Assert(ref.Decode(r, s, want.Elem()).Why == ref.Valid, "harness: invalid record")
		nd.Assert(proto.Unmarshal(nd.Guarded(r), m) == nil, "after a failure the message rejects valid input")
		nd.Assert(ref.Equal(s, v, want.Elem()), "after a failure the message merges valid input in another way")
	}
}

// usable requires that m can be measured, encoded and decoded again.
func usable(m interface{}, s *ref.Schema, v reflect.Value) {
	n := proto.Size(m)
	out, err := proto.Marshal(m)
	nd.Assert(err == nil, "Marshal fails after a failed Unmarshal")
	nd.Assert(len(out) == n, "Size and Marshal differ after a failed Unmarshal")
	again := reflect.New(v.Type())
	nd.Assert(ref.Decode(out, s, again.Elem()).Why == ref.Valid, "Marshal writes malformed data after a failed Unmarshal")
	nd.Assert(ref.Equal(s, again.Elem(), v), "Marshal writes something else after a failed Unmarshal")
}

// moreOf gives a valid record of one of the fields.
func moreOf(w ref.W) func(s *ref.Schema) []byte {
	return func(s *ref.Schema) []byte { return w.Record(s.Fields[nd.Choose(len(s.Fields))]) }
}

func w27() ref.W {
	w := ref.W{Varints: []int{2}, Lens: []int{0, 2}, Depth: 1, Subs: 1, Entries: 1}
	if nd.Tier() > 0 {
		w.Varints = []int{1, 10}
		w.Subs = 2
		w.Entries = 8
	}
	return w
}

// Arbitrary bytes into empty and filled messages.
func brokenBytes(m interface{}, quick, thorough int) {
	warm(m)
	n := quick
	if nd.Tier() > 0 {
		n = thorough
	}
	if nd.Choose(2) == 1 {
		fillAll(m)
	}
	broken(m, ref.Raw(1+nd.Choose(n)), nil)
}

// verif: reach=failed
func H_C27_bytes_tiny() { brokenBytes(new(Tiny), 5, 6) }

// verif: reach=failed fixedmap
func H_C27_bytes_rep() { brokenBytes(new(TinyRep), 5, 6) }

// verif: reach=failed
func H_C27_bytes_small() { brokenBytes(new(Small), 4, 5) }

// Arbitrary bytes inside embedded messages, elements and map entries.
// verif: reach=failed fixedmap
func H_C27_nested() {
	m := new(Nest)
	warm(m)
	if nd.Choose(2) == 1 {
		fillAll(m)
	}
	n := 3
	if nd.Tier() > 0 {
		n = 5
	}
	broken(m, nested(1+nd.Choose(n)), nil)
}

// tailOf breaks off a record of the field, or damages it.
func tailOf(w ref.W, s *ref.Schema, few bool) []byte {
	n := 8
	if few {
		n = 3
	}
	f := s.Fields[nd.Choose(len(s.Fields))]
	switch nd.Choose(3) {
	case 0: // cut short
		b := w.Record(f)
		k := len(b) - 1
		if few {
			k -= nd.Choose(2) * (k - 1)
		} else {
			k = 1 + nd.Choose(k)
		}
		return b[:k:len(b)]
	case 1: // a wire type the field does not have
		wire := uint64(nd.Choose(8))
		if few {
			nd.Assume(wire < 3)
		}
		nd.Assume(wire != f.Wire())
		return append(ref.AppendVarint(nil, f.Num<<3|wire), ref.Raw(8)...)
	default: // something undeclared that cannot be
		return append(ref.AppendVarint(nil, 99<<3|uint64([]int{7, 4, 1, 2, 5, 0, 3, 6}[nd.Choose(n)])), ref.Raw(1)...)
	}
}

// partly decodes a record of one field and then one that fails, and uses the
// message further.
func partly(m interface{}, w ref.W) {
	t := warm(m)
	s := ref.Of(t)
	if nd.Choose(2) == 1 {
		fillAll(m)
	}
	var b []byte
	if nd.Choose(2) == 1 {
		b = w.Record(s.Fields[nd.Choose(len(s.Fields))])
	}
	broken(m, append(b, tailOf(w, s, false)...), nil)
}

// verif: reach=failed
func H_C27_scalars() { partlySame(new(Scalars)) }

// verif: reach=failed
func H_C27_opts() { partlySame(new(Opts)) }

// verif: reach=failed
func H_C27_ptrs() { partlySame(new(Ptrs)) }

// verif: reach=failed
func H_C27_reps() { partlySame(new(Reps)) }

// verif: reach=failed fixedmap
func H_C27_maps() { partlySame(new(Maps)) }

// verif: reach=failed fixedmap
func H_C27_named() { partlySame(new(Named)) }

// verif: reach=failed
func H_C27_small() { w := w27(); w.Lens = []int{2}; partly(new(Small), w) }

// partlySame fails at the field it has just decoded, or at another.
func partlySame(m interface{}) {
	t := warm(m)
	s := ref.Of(t)
	w := w27()
	w.Lens = []int{2}
	i := nd.Choose(len(s.Fields))
	f := s.Fields[i]
	if nd.Choose(2) == 1 {
		fillAll(m)
	}
	var b []byte
	if nd.Choose(2) == 1 {
		b = w.Record(f)
	}
	one := &ref.Schema{Type: s.Type, Fields: []*ref.Field{f}}
	broken(m, append(b, tailOf(w, one, false)...), func(s *ref.Schema) []byte { return w.Record(f) })
}

// Elements, entries and embedded messages that fail part way through, next to
// good ones, in a message with room left from earlier.
// verif: reach=failed fixedmap
func H_C27_inside() {
	m := new(Nest)
	warm(m)
	tiny := ref.Of(typeOf(new(Tiny)))
	w := w27()
	w.Lens = []int{2}
	w.Depth = 0
	switch nd.Choose(3) {
	case 1:
		fillAll(m)
	case 2:
		m.A = &Tiny{A: -4, C: &Tiny{B: "keep"}}
		m.B = append(make([]*Tiny, 0, 4), &Tiny{A: 1})
		m.B[:2][1] = &Tiny{A: 77, B: "gone"}
		m.C = map[uint32]*Tiny{5: {A: 6}}
	}
	good := append([]byte{2<<3 | 2, 2}, ref.Raw(2)...)
	in := append([]byte{}, good...)
	if nd.Tier() > 0 {
		good = w.Record(tiny.Fields[nd.Choose(2)])
		in = append(append([]byte{}, good...), tailOf(w, tiny, true)...)
	} else {
		in = append(in, [][]byte{{1 << 3}, {2<<3 | 2, 3, 'x'}, {3<<3 | 2, 2, 1 << 3, 0x80}, {1<<3 | 5, 1, 2, 3, 4}, {9<<3 | 7}}[nd.Choose(5)]...)
	}
	var b []byte
	switch nd.Choose(5) {
	case 0:
		b = wrap(1, in)
	case 1:
		b = append(wrap(2, good), wrap(2, in)...)
	case 2:
		b = wrap(3, append([]byte{1 << 3, byte(nd.Choose(2)) * 5}, wrap(2, in)...))
	case 3:
		b = append(wrap(3, append([]byte{1 << 3, 9}, wrap(2, good)...)), wrap(3, append(wrap(2, good), in...))...)
	default:
		b = wrap(1, wrap(3, in))
	}
	k := nd.Choose(4)
	broken(m, b, func(s *ref.Schema) []byte {
		switch k {
		case 0:
			return wrap(1, good)
		case 1:
			return wrap(2, good)
		case 2:
			return wrap(3, append([]byte{1 << 3, 5}, wrap(2, good)...))
		}
		return wrap(3, nil)
	})
}

// A failure deep inside, at every depth.
// verif: reach=failed
func H_C27_deep() {
	m := new(Tree)
	warm(m)
	if nd.Choose(2) == 1 {
		m.L = &Tree{V: proto.Some(int64(nd.U64())), L: &Tree{V: proto.Some(int64(5))}}
		m.K = []*Tree{{R: new(Tree)}}
	}
	v := append([]byte{2 << 3}, ref.VarintN(1)...)
	b := append(append([]byte{}, v...), [][]byte{{2 << 3}, {2<<3 | 1}, {9<<3 | 4}, {1<<3 | 2, 9}}[nd.Choose(4)]...)
	for d := nd.Choose(4); d > 0; d-- {
		b = append(append([]byte{}, v...), wrap([]uint64{1, 3, 4}[nd.Choose(3)], b)...)
	}
	broken(m, b, func(s *ref.Schema) []byte { return wrap(1, wrap(1, v)) })
}
