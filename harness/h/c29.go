package h

import (
	"reflect"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	"github.com/RomiChan/protobuf/internal/zzverif/ref"
	"github.com/RomiChan/protobuf/proto"
)

// MapTree nests through map values.
type MapTree struct {
	A uint32              `protobuf:"varint,1,opt"`
	B map[uint32]*MapTree `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

// work is what f takes.
func work(f func()) uint64 {
	before := nd.Work()
	f()
	return nd.Work() - before
}

// scales requires that inputs of 1, 2 and 4 times the size take 1, 2 and 4
// times the work, give or take a half each time.
func scales(m interface{}, n int, size func(n int) []byte) {
	t := warm(m)
	nd.Steady(true)
	var dec, siz, enc [3]uint64
	for i := range dec {
		x := reflect.New(t)
		b := size(n << i)
		var err error
		dec[i] = work(func() { err = proto.Unmarshal(b, x.Interface()) })
		nd.Observe("err", bit(err != nil))
		if err != nil {
			continue
		}
		var k int
		siz[i] = work(func() { k = proto.Size(x.Interface()) })
		var out []byte
		enc[i] = work(func() { out, err = proto.Marshal(x.Interface()) })
		nd.Assert(err == nil && len(out) == k, "Marshal failed")
	}
	for i := 0; i < 2; i++ {
		nd.Assert(dec[i+1] <= 3*dec[i], "decoding twice as much takes more than three times as long")
		nd.Assert(siz[i+1] <= 3*siz[i], "Size of twice as much takes more than three times as long")
		// at each level the length of what is inside is found again
		nd.Assert(enc[i+1] <= 5*enc[i], "Marshal of twice as much takes more than five times as long")
	}
}

func bit(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func n29() int { return 100 << (2 * nd.Tier()) }

func repeat(r []byte, n int) []byte {
	var b []byte
	for ; n > 0; n-- {
		b = append(b, r...)
	}
	return b
}

func w29() ref.W {
	return ref.W{Varints: []int{1}, Lens: []int{2}, Depth: 1, Subs: 1, Entries: 1, Keys: 1}
}

// Many records of one field, again and again.
func manyRecords(m interface{}) {
	t := warm(m)
	s := ref.Of(t)
	r := w29().Record(s.Fields[nd.Choose(len(s.Fields))])
	scales(m, n29(), func(n int) []byte { return repeat(r, n) })
}

// verif: work poolhits steps=60000000
func H_C29_many_reps() { manyRecords(new(Reps)) }

// verif: work poolhits steps=60000000
func H_C29_many_scalars() { manyRecords(new(Scalars)) }

// verif: work poolhits steps=60000000
func H_C29_many_opts() { manyRecords(new(Opts)) }

// verif: work poolhits steps=60000000
func H_C29_many_ptrs() { manyRecords(new(Ptrs)) }

// verif: work poolhits steps=60000000
func H_C29_many_named() { manyRecords(new(Named)) }

// verif: work poolhits steps=60000000
func H_C29_many_nest() { manyRecords(new(Nest)) }

// verif: work poolhits steps=60000000
func H_C29_many_maps() { manyRecords(new(Maps)) }

// Maps that grow.
// verif: work poolhits steps=60000000
func H_C29_keys() {
	m := new(Nest)
	warm(m)
	v := ref.Raw(1)
	scales(m, n29(), func(n int) []byte {
		var b []byte
		for i := 0; i < n; i++ {
			k := append([]byte{1 << 3}, ref.AppendVarint(nil, uint64(i))...)
			b = append(b, wrap(3, append(k, wrap(2, wrap(2, v))...))...)
		}
		return b
	})
}

// Records of two fields in turn.
func turns(m interface{}) {
	t := warm(m)
	s := ref.Of(t)
	r := append(w29().Record(s.Fields[nd.Choose(len(s.Fields))]), w29().Record(s.Fields[nd.Choose(len(s.Fields))])...)
	scales(m, n29(), func(n int) []byte { return repeat(r, n) })
}

// verif: work poolhits steps=60000000
func H_C29_turns_small() { turns(new(Small)) }

// verif: work poolhits steps=60000000
func H_C29_turns_nest() { turns(new(Nest)) }

// verif: work poolhits steps=60000000
func H_C29_turns_mixed() { turns(new(Mixed)) }

// Embedded messages with many records, elements with many elements.
// verif: work poolhits steps=60000000
func H_C29_inner() {
	m := new(Tree)
	warm(m)
	r := [][]byte{{2 << 3, 7}, {3<<3 | 2, 0}, {1<<3 | 2, 2, 2 << 3, 1}, {9 << 3, 1}, {3<<3 | 2, 2, 3<<3 | 2, 0}}[nd.Choose(5)]
	num := []uint64{1, 3, 4}[nd.Choose(3)]
	outer := 1 + nd.Choose(2)*9
	scales(m, n29(), func(n int) []byte { return repeat(wrap(num, repeat(r, n)), outer) })
}

// Undeclared fields.
// verif: work poolhits steps=60000000
func H_C29_unknown() {
	m := new(Nest)
	t := warm(m)
	r := ref.UnknownN(ref.Of(t), 2)
	if nd.Choose(2) == 1 {
		r = wrap(1, r)
	}
	scales(m, n29(), func(n int) []byte { return repeat(r, n) })
}

// Long contents.
// verif: work poolhits steps=60000000
func H_C29_long() {
	m := []interface{}{new(Scalars), new(Opts), new(Ptrs), new(Reps), new(Maps)}[nd.Choose(5)]
	t := warm(m)
	s := ref.Of(t)
	f := s.Fields[nd.Choose(len(s.Fields))]
	nd.Assume(f.Card != ref.Map && (f.Kind == ref.String || f.Kind == ref.Bytes) || f.Card == ref.Map && (f.Val.Kind == ref.String || f.Val.Kind == ref.Bytes))
	num := f.Num
	scales(m, 2000<<(2*nd.Tier()), func(n int) []byte {
		c := ref.Content(n)
		if f.Card == ref.Map {
			c = ref.AppendVarint([]byte{2<<3 | 2}, uint64(n))
			c = append(c, ref.Content(n)...)
		}
		return wrap(num, c)
	})
}

// Nesting, through singular, repeated and map fields; complete, and broken
// at the innermost level.
func deepOf(m interface{}, up func(b []byte) []byte) {
	inner := [][]byte{nil, {2 << 3, 1}, {9<<3 | 7}, {9 << 3, 0x80}}[nd.Choose(4)]
	scales(m, 20<<nd.Tier(), func(n int) []byte {
		b := inner
		for ; n > 0; n-- {
			b = up(b)
		}
		return b
	})
}

// verif: work poolhits steps=60000000
func H_C29_deep_tree() {
	num := []uint64{1, 3, 4}[nd.Choose(3)]
	two := nd.Choose(2) == 1
	deepOf(new(Tree), func(b []byte) []byte {
		b = wrap(num, b)
		if two {
			b = append(b, 2<<3, 3)
		}
		return b
	})
}

// verif: work poolhits steps=60000000
func H_C29_deep_ping() {
	deepOf(new(Ping), func(b []byte) []byte { return wrap(2, wrap(1, b)) })
}

// verif: work poolhits steps=60000000
func H_C29_deep_map() {
	k := byte(nd.Choose(2))
	deepOf(new(MapTree), func(b []byte) []byte { return wrap(2, append([]byte{1 << 3, k}, wrap(2, b)...)) })
}

// Arbitrary bytes: not more than so many times what good ones of that length
// take, whatever lengths and numbers they claim.
func boundedBytes(m interface{}, quick, thorough int) {
	t := warm(m)
	nd.Steady(true)
	s := ref.Of(t)
	f := s.Fields[0]
	good := w29().Record(f)
	unit := work(func() { proto.Unmarshal(good, reflect.New(t).Interface()) })
	n := quick
	if nd.Tier() > 0 {
		n = thorough
	}
	b := ref.Raw(nd.Choose(n + 1))
	var err error
	w := work(func() { err = proto.Unmarshal(b, m) })
	nd.Observe("err", bit(err != nil))
	nd.Assert(w <= 40*unit*uint64(len(b)+1), "decoding takes much longer than the input is long")
}

// verif: work poolhits steps=60000000
func H_C29_bytes_scalars() { boundedBytes(new(Scalars), 5, 6) }

// verif: work poolhits steps=60000000
func H_C29_bytes_small() { boundedBytes(new(Small), 5, 6) }

// verif: work poolhits steps=60000000
func H_C29_bytes_nest() { boundedBytes(new(Nest), 5, 6) }

// verif: work poolhits steps=60000000
func H_C29_bytes_maps() { boundedBytes(new(Maps), 5, 6) }

// Length prefixes of any value.
// verif: work poolhits steps=60000000
func H_C29_claims() {
	m := []interface{}{new(Scalars), new(Reps), new(Maps), new(Nest)}[nd.Choose(4)]
	t := warm(m)
	nd.Steady(true)
	s := ref.Of(t)
	f := s.Fields[nd.Choose(len(s.Fields))]
	num := f.Num
	if f.Wire() != ref.Len {
		num = 999
	}
	unit := work(func() { proto.Unmarshal(w29().Record(s.Fields[0]), reflect.New(t).Interface()) })
	b := ref.AppendVarint(nil, num<<3|ref.Len)
	b = append(b, ref.VarintN([]int{1, 3, 5, 9, 10}[nd.Choose(5)])...)
	b = append(b, ref.Raw(nd.Choose(3))...)
	w := work(func() { proto.Unmarshal(b, m) })
	nd.Assert(w <= 40*unit*uint64(len(b)+1), "decoding takes much longer than the input is long")
}
