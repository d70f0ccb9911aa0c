package h

import (
	"errors"
	"io"
	"reflect"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	"github.com/RomiChan/protobuf/internal/zzverif/ref"
	"github.com/RomiChan/protobuf/proto"
)

// unknown gives an undeclared record.
func unknown(s *ref.Schema) []byte {
	if nd.Tier() > 0 {
		return ref.Unknown(s, 5)
	}
	return ref.UnknownN(s, []int{1, 2, 5}[nd.Choose(3)])
}

// same requires that both inputs give the same result.
func same(with, without []byte, t reflect.Type) {
	s := ref.Of(t)
	a, b := reflect.New(t), reflect.New(t)
	err1 := proto.Unmarshal(nd.Guarded(with), a.Interface())
	err2 := proto.Unmarshal(nd.Guarded(without), b.Interface())
	nd.Assert((err1 == nil) == (err2 == nil), "an unknown field changes the error result")
	nd.Assert(errors.Is(err1, io.ErrUnexpectedEOF) == errors.Is(err2, io.ErrUnexpectedEOF), "an unknown field changes the kind of error")
	nd.Assert(ref.Equal(s, a.Elem(), b.Elem()), "an unknown field changes the message")
	if err1 == nil {
		nd.Reach("ok")
	} else {
		nd.Reach("error")
	}
	nd.Observe("sum", ref.Sum(s, a.Elem()))
}

// join concatenates with u at position k.
func join(parts [][]byte, k int, u []byte) (with, without []byte) {
	for i := 0; i <= len(parts); i++ {
		if i == k {
			with = append(with, u...)
		}
		if i < len(parts) {
			with = append(with, parts[i]...)
			without = append(without, parts[i]...)
		}
	}
	return
}

func w7() ref.W {
	w := wcfg()
	w.Varints = []int{2}
	w.Lens = []int{2}
	w.Subs = 1
	w.Entries = 1
	if nd.Tier() > 0 {
		w.Varints = []int{1, 10}
		w.Entries = 8
	}
	return w
}

func between(m interface{}) {
	t := warm(m)
	s := ref.Of(t)
	w := w7()
	i := nd.Choose(len(s.Fields))
	j := (i + 1) % len(s.Fields)
	parts := [][]byte{w.Record(s.Fields[i]), w.Record(s.Fields[j])}
	with, without := join(parts, nd.Choose(3), unknown(s))
	same(with, without, t)
}

// verif: reach=ok
func H_C07_small() { between(new(Small)) }

// verif: reach=ok
func H_C07_scalars() { between(new(Scalars)) }

// verif: reach=ok
func H_C07_reps() { between(new(TinyRep)) }

// verif: reach=ok
func H_C07_opts() { between(new(Opts)) }

// Before arbitrary bytes, so also before malformed fields.
// verif: reach=ok,error
func H_C07_before() {
	t := warm(new(Tiny))
	x := ref.Raw(1 + nd.Choose(3+nd.Tier()))
	same(append(unknown(ref.Of(t)), x...), x, t)
}

// Inside embedded messages, elements, map entries and map message values.
// verif: reach=ok
func H_C07_nested() {
	t := warm(new(Nest))
	tiny := ref.Of(typeOf(new(Tiny)))
	w := w7()
	in := [][]byte{w.Record(tiny.Fields[nd.Choose(len(tiny.Fields))]), w.Record(tiny.Fields[0])}
	at := nd.Choose(3)
	var wrapper func(b []byte) []byte
	switch nd.Choose(5) {
	case 0:
		wrapper = func(b []byte) []byte { return wrap(1, b) }
	case 1:
		wrapper = func(b []byte) []byte { return wrap(2, b) }
	case 2:
		wrapper = func(b []byte) []byte { return wrap(1, wrap(3, b)) }
	case 3:
		k := append([]byte{8}, ref.VarintN(1)...)
		wrapper = func(b []byte) []byte { return wrap(3, append(append([]byte{}, k...), wrap(2, b)...)) }
	case 4:
		tiny = nil
		in = [][]byte{append([]byte{8}, ref.VarintN(2)...), wrap(2, ref.AppendVarint([]byte{8}, 77))}
		if nd.Choose(2) == 1 {
			in[0], in[1] = in[1], in[0]
		}
		wrapper = func(b []byte) []byte { return wrap(3, b) }
	}
	with, without := join(in, at, unknown(tiny))
	same(wrapper(with), wrapper(without), t)
}

// Inside entries of maps of every kind.
// verif: reach=ok
func H_C07_entries() {
	t := warm(new(Maps))
	s := ref.Of(t)
	f := s.Fields[nd.Choose(len(s.Fields))]
	w := w7()
	in := [][]byte{w.Record(f.Key), w.Record(f.Val)}
	at := nd.Choose(3)
	u := ref.UnknownN(nil, 1+nd.Choose(2))
	with, without := join(in, at, u)
	same(wrap(f.Num, with), wrap(f.Num, without), t)
}

// Two unknown records in a row, around a known one.
// verif: reach=ok
func H_C07_twice() {
	t := warm(new(Tiny))
	s := ref.Of(t)
	u := ref.UnknownN(s, 1)
	r := ref.UnknownN(s, 1)
	k := append([]byte{8}, ref.VarintN(2)...)
	if nd.Choose(2) == 0 {
		same(append(append(u, r...), k...), k, t)
	} else {
		same(append(append(u, k...), r...), k, t)
	}
}

// Only unknown records, into a message without fields.
// verif: reach=ok
func H_C07_empty() {
	t := warm(new(Empty))
	same(unknown(ref.Of(t)), nil, t)
}

// Undeclared numbers equal to a declared one in the low bits, or in the low
// bits of the tag's first bytes.
// verif: reach=ok
func H_C07_near() {
	t := warm(new(Scalars))
	s := ref.Of(t)
	f := s.Fields[nd.Choose(len(s.Fields))]
	num := f.Num ^ 1<<uint(nd.Choose(29))
	nd.Assume(num != 0)
	for _, g := range s.Fields {
		nd.Assume(num != g.Num)
	}
	w := w7()
	r := w.Record(f)
	u := ref.AppendVarint(nil, num<<3|f.Wire())
	same(append(append(u, w.Payload(f)...), r...), r, t)
}
