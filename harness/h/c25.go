package h

import (
	"reflect"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	"github.com/RomiChan/protobuf/internal/zzverif/ref"
	"github.com/RomiChan/protobuf/proto"
)

// What decoding may allocate: a fixed amount, and so much for every byte of
// the input (a record of two bytes can ask for a message or a map).
const (
	allocBase = 32 << 10
	allocByte = 2 << 10
)

// frugal decodes b and requires that the memory asked for follows from the
// length of b, whatever lengths and numbers b speaks of.
func frugal(m interface{}, b []byte) {
	nd.Limit(allocBase + allocByte*len(b))
	err := proto.Unmarshal(b, m)
	nd.Allocated()
	if err != nil {
		nd.Reach("error")
	} else {
		nd.Reach("ok")
	}
	v := reflect.ValueOf(m).Elem()
	s := ref.Of(v.Type())
	nd.Observe("sum", ref.Sum(s, v))
	nd.Limit(allocBase + allocByte*len(b))
	n := proto.Size(m)
	nd.Allocated()
	nd.Limit(allocBase + 16*n)
	out, err := proto.Marshal(m)
	nd.Allocated()
	nd.Assert(err == nil && len(out) == n, "Marshal failed")
}

func frugalBytes(m interface{}, quick, thorough int) {
	warm(m)
	n := quick
	if nd.Tier() > 0 {
		n = thorough
	}
	frugal(m, ref.Raw(nd.Choose(n+1)))
}

// Arbitrary bytes.
// verif: reach=error,ok
func H_C25_bytes_scalars() { frugalBytes(new(Scalars), 4, 5) }

// verif: reach=error,ok
func H_C25_bytes_small() { frugalBytes(new(Small), 4, 5) }

// verif: reach=error,ok
func H_C25_bytes_maps() { frugalBytes(new(Maps), 4, 5) }

// verif: reach=error,ok
func H_C25_bytes_nest() { frugalBytes(new(Nest), 4, 5) }

// claim gives a record of a field, or of none, whose length is anything at
// all, perhaps after other records of it and inside a message.
func claim(m interface{}) {
	t := warm(m)
	s := ref.Of(t)
	var b []byte
	num := uint64(900)
	if i := nd.Choose(len(s.Fields) + 1); i < len(s.Fields) {
		f := s.Fields[i]
		num = f.Num
		if nd.Choose(2) == 1 {
			w := ref.W{Varints: []int{1}, Lens: []int{1}, Depth: 0, Subs: 1, Entries: 1}
			b = w.Record(f)
		}
		// into what it holds
		switch {
		case nd.Choose(2) == 0:
		case f.Card == ref.Map:
			in := ref.AppendVarint(nil, []uint64{f.Key.Num<<3 | 2, f.Val.Num<<3 | 2}[nd.Choose(2)])
			in = append(in, ref.VarintN(lengths()[nd.Choose(len(lengths()))])...)
			in = append(in, ref.Raw(nd.Choose(2))...)
			b = ref.AppendVarint(b, num<<3|2)
			b = ref.AppendVarint(b, uint64(len(in)))
			b = append(b, in...)
			frugal(m, b)
			return
		case f.Kind == ref.Message:
			g := f.Msg.Fields[nd.Choose(len(f.Msg.Fields))]
			in := ref.AppendVarint(nil, g.Num<<3|2)
			in = append(in, ref.VarintN(lengths()[nd.Choose(len(lengths()))])...)
			in = append(in, ref.Raw(nd.Choose(2))...)
			b = ref.AppendVarint(b, num<<3|2)
			b = ref.AppendVarint(b, uint64(len(in)))
			b = append(b, in...)
			frugal(m, b)
			return
		}
	}
	b = ref.AppendVarint(b, num<<3|2)
	b = append(b, ref.VarintN(lengths()[nd.Choose(len(lengths()))])...)
	b = append(b, ref.Raw(nd.Choose(2))...)
	frugal(m, b)
}

func lengths() []int {
	if nd.Tier() > 0 {
		return []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
	}
	return []int{3, 5, 10}
}

// verif: reach=error
func H_C25_claim_scalars() { claim(new(Scalars)) }

// verif: reach=error
func H_C25_claim_opts() { claim(new(Opts)) }

// verif: reach=error
func H_C25_claim_ptrs() { claim(new(Ptrs)) }

// verif: reach=error
func H_C25_claim_reps() { claim(new(Reps)) }

// verif: reach=error
func H_C25_claim_maps() { claim(new(Maps)) }

// verif: reach=error
func H_C25_claim_named() { claim(new(Named)) }

// verif: reach=error
func H_C25_claim_nest() { claim(new(Nest)) }

// manyOf decodes n records of one field: the memory asked for in total grows
// with the input, not with its square.
func manyOf(m interface{}, n int) {
	t := warm(m)
	s := ref.Of(t)
	w := ref.W{Varints: []int{1}, Lens: []int{1}, Depth: 0, Subs: 0, Entries: 1}
	f := s.Fields[nd.Choose(len(s.Fields))]
	one := w.Record(f)
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, one...)
	}
	per := 96
	if f.Kind == ref.Message || f.Card == ref.Map {
		per = allocByte
	}
	nd.Limit(allocBase + per*len(b))
	err := proto.Unmarshal(b, m)
	nd.Allocated()
	nd.Assert(err == nil, "Unmarshal rejects a valid message")
	nd.Observe("sum", ref.Sum(s, reflect.ValueOf(m).Elem()))
}

// verif: steps=60000000
func H_C25_many_reps() {
	n := 2500
	if nd.Tier() > 0 {
		n = 10000
	}
	manyOf(new(Reps), n)
}
