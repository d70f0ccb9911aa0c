package h

import (
	"errors"
	"io"
	"reflect"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	"github.com/RomiChan/protobuf/internal/zzverif/ref"
	"github.com/RomiChan/protobuf/proto"
)

// blame requires the error for b to identify the field and the cause.
func blame(b []byte, t reflect.Type) {
	s := ref.Of(t)
	p := ref.Decode(b, s, reflect.New(t).Elem())
	nd.Assume(p.Why != ref.Valid && p.Why != ref.Unspecified)
	err := proto.Unmarshal(nd.Guarded(b), reflect.New(t).Interface())
	nd.Assert(err != nil, "Unmarshal accepts malformed input")
	if len(p.Path) > 0 {
		_, ok := err.(*proto.UnmarshalFieldError)
		nd.Assert(ok, "the error is not an UnmarshalFieldError")
	}
	e := err
	for _, st := range p.Path {
		var f *proto.UnmarshalFieldError
		nd.Assert(errors.As(e, &f), "a level of the message has no UnmarshalFieldError")
		nd.Assert(nd.And(uint64(f.FieldNumber) == st.Num, uint64(f.WireType) == st.Wire), "an UnmarshalFieldError does not carry the number and wire type of the tag")
		nd.Assert(len(f.Error()) > 0, "an error without text")
		e = f.Err
		nd.Assert(e != nil && errors.Unwrap(f) == e, "an UnmarshalFieldError does not unwrap to its cause")
	}
	if len(p.Path) > 0 {
		var f *proto.UnmarshalFieldError
		nd.Assert(!errors.As(e, &f), "there are more UnmarshalFieldErrors than levels")
	}
	switch p.Why {
	case ref.Truncated:
		nd.Reach("truncated")
		nd.Assert(errors.Is(err, io.ErrUnexpectedEOF), "truncation is not reported as io.ErrUnexpectedEOF")
		nd.Assert(!errors.Is(err, proto.ErrWireTypeUnknown), "truncation is reported as an unknown wire type")
	case ref.BadWire:
		nd.Reach("badwire")
		nd.Assert(errors.Is(err, proto.ErrWireTypeUnknown), "an unknown wire type is not reported as ErrWireTypeUnknown")
		nd.Assert(!errors.Is(err, io.ErrUnexpectedEOF), "an unknown wire type is reported as truncation")
	case ref.WrongWire, ref.Overflow:
		nd.Assert(!errors.Is(err, io.ErrUnexpectedEOF), "a malformed field is reported as truncation")
	}
	nd.Observe("levels", uint64(len(p.Path)))
}

func n20(q, t int) int {
	if nd.Tier() > 0 {
		return 1 + nd.Choose(t)
	}
	return 1 + nd.Choose(q)
}

// verif: reach=truncated,badwire
func H_C20_tiny() { blame(ref.Raw(n20(5, 7)), warm(new(Tiny))) }

// verif: reach=truncated,badwire
func H_C20_rep() { blame(ref.Raw(n20(5, 7)), warm(new(TinyRep))) }

// verif: reach=truncated,badwire
func H_C20_nested() { t := warm(new(Nest)); blame(nested(n20(4, 6)), t) }

// verif: reach=truncated,badwire
func H_C20_scalars() { blame(ref.Raw(n20(3, 5)), warm(new(Scalars))) }

// After a good record.
// verif: reach=truncated,badwire
func H_C20_second() {
	t := warm(new(Small))
	s := ref.Of(t)
	w := w7()
	b := w.Record(s.Fields[nd.Choose(len(s.Fields))])
	blame(append(b, ref.Raw(n20(3, 4))...), t)
}

// A record of each field cut short.
func cut20(m interface{}) {
	t := warm(m)
	s := ref.Of(t)
	w := w7()
	w.Lens = []int{0, 3}
	b := w.Record(s.Fields[nd.Choose(len(s.Fields))])
	k := 1 + nd.Choose(len(b)-1)
	blame(b[:k:k], t)
}

// verif: reach=truncated
func H_C20_cut_scalars() { cut20(new(Scalars)) }

// verif: reach=truncated
func H_C20_cut_opts() { cut20(new(Opts)) }

// verif: reach=truncated
func H_C20_cut_ptrs() { cut20(new(Ptrs)) }

// verif: reach=truncated
func H_C20_cut_reps() { cut20(new(Reps)) }

// verif: reach=truncated
func H_C20_cut_maps() { cut20(new(Maps)) }

// Wrong wire types for each field.
func wrong20(m interface{}) {
	t := warm(m)
	s := ref.Of(t)
	f := s.Fields[nd.Choose(len(s.Fields))]
	wire := uint64(nd.Choose(8))
	nd.Assume(wire != f.Wire())
	b := ref.AppendVarint(nil, f.Num<<3|wire)
	blame(append(b, ref.Raw(nd.Choose(3))...), t)
}

func H_C20_wire_scalars() { wrong20(new(Scalars)) }
func H_C20_wire_opts()    { wrong20(new(Opts)) }
func H_C20_wire_ptrs()    { wrong20(new(Ptrs)) }
func H_C20_wire_reps()    { wrong20(new(Reps)) }
func H_C20_wire_maps()    { wrong20(new(Maps)) }

// Undeclared fields with numbers of every size, cut short or of unknown wire
// types, at the top and inside.
// verif: reach=truncated,badwire
func H_C20_unknown() {
	t := warm(new(Nest))
	tag := ref.VarintN([]int{1, 2, 3, 5}[nd.Choose(4)])
	x, _, _ := ref.ReadVarint(tag)
	num, wire := x>>3, x&7
	nd.Assume(nd.And(num > 4, x>>32 == 0))
	b := tag
	n := nd.Choose(3)
	b = append(b, ref.Raw(n)...)
	switch nd.Choose(3) {
	case 0:
		nd.Assume(nd.Or(wire > 5, nd.Or(wire == 3, wire == 4)))
	case 1:
		nd.Assume(nd.And(wire == 1, true))
	case 2:
		nd.Assume(wire == 5)
	}
	switch nd.Choose(3) {
	case 1:
		b = wrap(1, b)
	case 2:
		b = wrap(3, wrap(2, b))
	}
	blame(b, t)
}

// Values of length-delimited undeclared fields that are cut short.
// verif: reach=truncated
func H_C20_unknownlen() {
	t := warm(new(Tiny))
	l := ref.VarintN([]int{1, 2, 5, 10}[nd.Choose(4)])
	b := append([]byte{0x7a}, l...)
	b = append(b, ref.Raw(nd.Choose(3))...)
	blame(b, t)
}
