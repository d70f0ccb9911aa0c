package h

import (
	"reflect"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	"github.com/RomiChan/protobuf/internal/zzverif/ref"
	"github.com/RomiChan/protobuf/proto"
)

// entries requires one entry per key, holding that key and its value.
func entries(b []byte, s *ref.Schema, v reflect.Value) {
	rs, ok := ref.Split(b)
	nd.Assert(ok, "Marshal's output is malformed")
	for _, f := range s.Fields {
		if f.Card != ref.Map {
			continue
		}
		m := v.Field(f.Index)
		nd.Assert(ref.Count(rs, f.Num) == m.Len(), "the number of entries written differs from the number of keys")
		seen := reflect.MakeMap(f.Type)
		for _, r := range rs {
			if r.Num != f.Num {
				continue
			}
			nd.Reach("entry")
			nd.Assert(r.Wire == ref.Len, "an entry has another wire type")
			k, x, p := ref.DecodeEntry(r.Data, f)
			nd.Assert(p.Why == ref.Valid, "an entry is malformed for its declared kinds")
			nd.Assert(!seen.MapIndex(k).IsValid(), "a key is written twice")
			seen.SetMapIndex(k, x)
			have := m.MapIndex(k)
			nd.Assert(have.IsValid(), "an entry holds a key that is not in the map")
			if f.Val.Kind == ref.Message && x.IsNil() {
				nd.Assert(len(ref.Encode(nil, f.Val.Msg, have.Elem())) == 0, "an entry lacks its value")
				continue
			}
			nd.Assert(ref.Same(f.Val, have, x), "an entry holds another value than the map")
		}
	}
	nd.Observe("n", uint64(len(rs)))
}

func enc11(m interface{}, c ref.Cfg) {
	warm(m)
	s, v := focus(m, c)
	b, err := proto.Marshal(m)
	nd.Assert(err == nil, "Marshal returned an error")
	entries(b, s, v)
	out := reflect.New(v.Type())
	nd.Assert(proto.Unmarshal(b, out.Interface()) == nil, "Unmarshal rejects what Marshal wrote")
	for _, f := range s.Fields {
		if f.Card == ref.Map {
			nd.Assert(ref.EqualField(f, out.Elem().Field(f.Index), v.Field(f.Index)), "a map came back different")
		}
	}
}

// verif: reach=entry
func H_C11_enc_maps() { enc11(new(Maps), mapCfg()) }

// verif: reach=entry
func H_C11_enc_sibs() { enc11(new(Sibs), mapCfg()) }

// verif: reach=entry
func H_C11_enc_named() { c := mapCfg(); c.Reps = []int{0, 1}; enc11(new(Named), c) }

// verif: reach=entry
func H_C11_enc_nest() { c := mapCfg(); c.Reps = []int{0, 1}; enc11(new(Nest), c) }

// Maps with more entries than fit one bucket.
// verif: fixedmap poolhits
func H_C11_enc_many() {
	n := []int{7, 8, 9, 17}[nd.Choose(4)]
	m := &TinyRep{C: map[uint32]uint32{}}
	for i := 0; i < n; i++ {
		m.C[uint32(i*3)] = uint32(i)
	}
	m.C[6] = nd.U32()
	v := reflect.ValueOf(m).Elem()
	s := ref.Of(warm(new(TinyRep)))
	b, err := proto.Marshal(m)
	nd.Assert(err == nil, "Marshal returned an error")
	nd.Assert(proto.Size(m) == len(b), "Size of a map differs from what is written")
	entries(b, s, v)
	out := new(TinyRep)
	nd.Assert(proto.Unmarshal(b, out) == nil, "Unmarshal rejects what Marshal wrote")
	nd.Assert(ref.Equal(s, reflect.ValueOf(out).Elem(), v), "a map came back different")
}

// Empty and nil maps write nothing, also next to other fields.
func H_C11_empty() {
	m := new(Maps)
	v := reflect.ValueOf(m).Elem()
	s := ref.Of(warm(m))
	f := s.Fields[nd.Choose(len(s.Fields))]
	if nd.Choose(2) == 1 {
		v.Field(f.Index).Set(reflect.MakeMap(f.Type))
	}
	b, err := proto.Marshal(m)
	nd.Assert(err == nil, "Marshal returned an error")
	nd.Assert(len(b) == 0, "an empty map writes something")
	nd.Assert(proto.Size(m) == 0, "an empty map has a size")
}

// decode compares with what the specification says after decoding b into m.
func decode11(m interface{}, b []byte) {
	v := reflect.ValueOf(m).Elem()
	s := ref.Of(v.Type())
	want := reflect.New(v.Type())
	want.Elem().Set(ref.Clone(s, v))
	nd.Assert(ref.Decode(b, s, want.Elem()).Why == ref.Valid, "harness: invalid entries")
	nd.Assert(proto.Unmarshal(nd.Guarded(b), m) == nil, "Unmarshal rejects valid entries")
	nd.Assert(ref.Equal(s, v, want.Elem()), "decoding map entries gives another map than the specification")
	nd.Observe("sum", ref.Sum(s, v))
}

// One entry of every form, into an empty map or one that has entries.
func dec11(m interface{}, entries int) {
	t := warm(m)
	s := ref.Of(t)
	v := reflect.ValueOf(m).Elem()
	f := s.Fields[nd.Choose(len(s.Fields))]
	nd.Assume(f.Card == ref.Map)
	w := ref.W{Varints: []int{1, 2}, Lens: []int{0, 2}, Depth: 1, Subs: 1, Entries: 8}
	if nd.Tier() > 0 {
		w.Varints = allVarints()
		w.Subs = 2
	}
	if entries > 1 {
		w.Varints = []int{2}
		w.Lens = []int{1}
		w.Entries = 5
	}
	if entries > 2 {
		w.Entries = 3
		w.Depth = 0
	}
	if nd.Choose(2) == 1 {
		ref.FillSome(f, v.Field(f.Index), nd.Choose(3))
	}
	var b []byte
	for ; entries > 0; entries-- {
		b = append(b, w.Record(f)...)
	}
	decode11(m, b)
}

func H_C11_dec_maps()   { dec11(new(Maps), 1) }
func H_C11_dec_sibs()   { dec11(new(Sibs), 1) }
func H_C11_dec_named()  { dec11(new(Named), 1) }
func H_C11_dec2_maps()  { dec11(new(Maps), 2) }
func H_C11_dec2_sibs()  { dec11(new(Sibs), 2) }
func H_C11_dec3_small() { dec11(new(MapsSmall), 3) }

type MapsSmall struct {
	A map[uint32]*Leaf  `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[string][]byte `protobuf:"bytes,2,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	C map[bool]int32    `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
}

// The same map type in two messages; what a failed decode of one leaves
// behind must not show up in a later decode of either.
func H_C11_failed() {
	t := warm(new(MapsSmall))
	s := ref.Of(t)
	f := s.Fields[nd.Choose(len(s.Fields))]
	w := ref.W{Varints: []int{2}, Lens: []int{2}, Depth: 1, Subs: 1, Entries: 1}
	bad := append(w.Record(f.Key), w.Record(f.Val)...)
	switch nd.Choose(4) {
	case 0:
		bad = append(bad, 0xff)
	case 1:
		bad = append(bad, byte(f.Key.Num<<3|7))
	case 2:
		bad = bad[:len(bad)-1]
	case 3:
		bad = append(bad, byte(f.Val.Num<<3|3))
	}
	bad = wrap(f.Num, bad)
	nd.Assert(proto.Unmarshal(bad, new(MapsSmall)) != nil, "Unmarshal accepts a malformed entry")
	w.Entries = 5
	decode11(new(MapsSmall), w.Record(f))
}

// Values of entries do not share memory with each other.
func H_C11_apart() {
	warm(new(MapsSmall))
	var b []byte
	n := 1 + nd.Choose(3)
	for i := 0; i < 2; i++ {
		e := append([]byte{10, 1, byte('a' + i), 18, byte(n)}, ref.Raw(n)...)
		b = append(b, wrap(2, e)...)
		e = []byte{8, byte(i), 18, 4, 8, byte(i + 1), 18, 0}
		b = append(b, wrap(1, e)...)
	}
	m := new(MapsSmall)
	nd.Assert(proto.Unmarshal(b, m) == nil, "Unmarshal rejects valid entries")
	x, y := m.B["a"], m.B["b"]
	nd.Assert(len(x) == n && len(y) == n, "an entry is lost")
	nd.Assert(!nd.SameMemory(x, y), "the values of two entries share memory")
	nd.Assert(m.A[0] != nil && m.A[1] != nil && m.A[0] != m.A[1], "the values of two entries are the same message")
	nd.Assert(m.A[0].A == 1 && m.A[1].A == 2, "the value of an entry is not its own")
}

// Growing decoded maps.
// verif: poolhits
func H_C11_grow() {
	warm(new(TinyRep))
	n := 12
	if nd.Tier() > 0 {
		n = 40
	}
	pick := nd.Choose(n)
	m := new(TinyRep)
	if nd.Choose(2) == 1 {
		m.C = map[uint32]uint32{500: 1}
	}
	var b []byte
	for i := 0; i < n; i++ {
		x := []byte{byte(i)}
		if i == pick {
			x = ref.VarintN(2)
		}
		b = append(b, wrap(3, append([]byte{8, byte(i), 16}, x...))...)
	}
	decode11(m, b)
}
