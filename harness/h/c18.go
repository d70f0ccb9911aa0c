package h

import (
	"math"
	"reflect"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	"github.com/RomiChan/protobuf/internal/zzverif/ref"
	"github.com/RomiChan/protobuf/proto"
)

// laws checks an option that must be present with v or absent.
func laws[T any](o proto.Option[T], present bool, v, d T, same func(a, b T) bool) {
	nd.Assert(o.IsSome() == present, "IsSome is wrong")
	nd.Assert(o.IsNone() == !present, "IsNone is wrong")
	nd.Assert(o.IsSome() != o.IsNone(), "IsSome and IsNone are not opposite")
	p := o
	if present {
		nd.Assert(same(o.Unwrap(), v), "Unwrap gives another value")
		nd.Assert(same(o.UnwrapOr(d), v), "UnwrapOr gives another value than the one held")
	} else {
		var zero T
		nd.Assert(same(o.Unwrap(), zero), "Unwrap of an absent option is not the zero value")
		nd.Assert(same(o.UnwrapOr(d), d), "UnwrapOr of an absent option is not the default")
	}
	// reading changes nothing
	nd.Assert(p.IsSome() == o.IsSome() && same(p.Unwrap(), o.Unwrap()), "reading changes the option")
}

func option[T any](v, d T, same func(a, b T) bool) {
	laws(proto.Some(v), true, v, d, same)
	laws(proto.None[T](), false, v, d, same)
	var z proto.Option[T]
	laws(z, false, v, d, same)
	z = proto.Some(v)
	laws(z, true, v, d, same)
	z = proto.None[T]()
	laws(z, false, v, d, same)
	laws(proto.Some(d), true, d, v, same)
}

func eq[T comparable](a, b T) bool { return a == b }

func eqF32(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) }
func eqF64(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

type pair struct {
	A uint8
	B uint64
	C string
}

func H_C18_scalars() {
	switch nd.Choose(8) {
	case 0:
		option(nd.Bool(), nd.Bool(), eq[bool])
	case 1:
		option(int32(nd.U32()), int32(nd.U32()), eq[int32])
	case 2:
		option(int64(nd.U64()), int64(nd.U64()), eq[int64])
	case 3:
		option(nd.U32(), nd.U32(), eq[uint32])
	case 4:
		option(nd.U64(), nd.U64(), eq[uint64])
	case 5:
		option(math.Float32frombits(nd.U32()), math.Float32frombits(nd.U32()), eqF32)
	case 6:
		option(math.Float64frombits(nd.U64()), math.Float64frombits(nd.U64()), eqF64)
	case 7:
		option(string(ref.Raw(nd.Choose(4))), string(ref.Raw(nd.Choose(4))), eq[string])
	}
}

func H_C18_others() {
	switch nd.Choose(8) {
	case 0:
		option(nd.U8(), nd.U8(), eq[uint8])
	case 1:
		option([]byte{nd.U8(), 1}, nil, func(a, b []byte) bool { return (a == nil) == (b == nil) && ref.SameBytes(a, b) })
	case 2:
		option(pair{nd.U8(), nd.U64(), "a"}, pair{1, nd.U64(), string(ref.Raw(1))}, eq[pair])
	case 3:
		x, y := int32(nd.U32()), int32(2)
		option(&x, &y, eq[*int32])
	case 4:
		option(Color(nd.U32()), Color(nd.U32()), eq[Color])
	case 5:
		option(interface{}(nd.U32()), interface{}("d"), func(a, b interface{}) bool { return a == b })
	case 6:
		option([3]uint16{nd.U16(), nd.U16(), 3}, [3]uint16{4, nd.U16(), 0}, eq[[3]uint16])
	case 7:
		in := proto.Some(nd.U32())
		option(in, proto.None[uint32](), func(a, b proto.Option[uint32]) bool {
			return a.IsSome() == b.IsSome() && a.Unwrap() == b.Unwrap()
		})
	}
}

// The typed constructors.
func H_C18_constructors() {
	switch nd.Choose(8) {
	case 0:
		v := nd.Bool()
		laws(proto.Bool(v), true, v, !v, eq[bool])
	case 1:
		v := int32(nd.U32())
		laws(proto.Int32(v), true, v, 5, eq[int32])
	case 2:
		v := int64(nd.U64())
		laws(proto.Int64(v), true, v, 5, eq[int64])
	case 3:
		v := nd.U32()
		laws(proto.Uint32(v), true, v, 5, eq[uint32])
	case 4:
		v := nd.U64()
		laws(proto.Uint64(v), true, v, 5, eq[uint64])
	case 5:
		v := math.Float32frombits(nd.U32())
		laws(proto.Float32(v), true, v, 5, eqF32)
	case 6:
		v := math.Float64frombits(nd.U64())
		laws(proto.Float64(v), true, v, 5, eqF64)
	case 7:
		v := string(ref.Raw(nd.Choose(4)))
		laws(proto.String(v), true, v, "d", eq[string])
	}
}

// Options that Unmarshal produced, or left alone.
func H_C18_decoded() {
	m := new(Opts)
	t := warm(m)
	s := ref.Of(t)
	k := nd.Choose(len(s.Fields))
	w := wcfg()
	b := w.Record(s.Fields[k])
	// a value from before is replaced, also by zero
	have := nd.Choose(2) == 1
	if have {
		ref.FillSome(s.Fields[k], reflect.ValueOf(m).Elem().Field(s.Fields[k].Index), 3)
	}
	nd.Assert(proto.Unmarshal(b, m) == nil, "Unmarshal rejects a valid record")
	r, _ := ref.Split(b)
	x := r[0].X
	zz := func(x uint64) int64 { return int64(x>>1) ^ -int64(x&1) }
	zz32 := func(x uint32) int32 { return int32(x>>1) ^ -int32(x&1) }
	laws(m.A, k == 0, int32(x), 9, eq[int32])
	laws(m.B, k == 1, int64(x), 9, eq[int64])
	laws(m.C, k == 2, uint32(x), 9, eq[uint32])
	laws(m.D, k == 3, x, 9, eq[uint64])
	laws(m.E, k == 4, zz32(uint32(x)), 9, eq[int32])
	laws(m.F, k == 5, zz(x), 9, eq[int64])
	laws(m.G, k == 6, x != 0, true, eq[bool])
	laws(m.H, k == 7, uint32(x), 9, eq[uint32])
	laws(m.I, k == 8, x, 9, eq[uint64])
	laws(m.J, k == 9, int32(x), 9, eq[int32])
	laws(m.K, k == 10, int64(x), 9, eq[int64])
	laws(m.L, k == 11, math.Float32frombits(uint32(x)), 9, eqF32)
	laws(m.M, k == 12, math.Float64frombits(x), 9, eqF64)
	laws(m.N, k == 13, string(r[0].Data), "d", eq[string])
}

// Options copied out of a message keep their value when the message changes.
func H_C18_copied() {
	m := new(Opts)
	warm(m)
	x, y := nd.U32(), nd.U32()
	b := append([]byte{0x45}, byte(x), byte(x>>8), byte(x>>16), byte(x>>24))
	nd.Assert(proto.Unmarshal(b, m) == nil, "Unmarshal rejects a valid record")
	o := m.H
	b = append([]byte{0x45}, byte(y), byte(y>>8), byte(y>>16), byte(y>>24))
	nd.Assert(proto.Unmarshal(b, m) == nil, "Unmarshal rejects a valid record")
	laws(o, true, x, 1, eq[uint32])
	laws(m.H, true, y, 1, eq[uint32])
}
