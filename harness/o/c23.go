// Package o holds the harnesses over the oneof accessors the generator writes.
package o

import (
	"math"

	common "github.com/RomiChan/protobuf/internal/zzverif/gen/other/common"
	"github.com/RomiChan/protobuf/internal/zzverif/gen/p2"
	"github.com/RomiChan/protobuf/internal/zzverif/gen/p3"
	common1 "github.com/RomiChan/protobuf/internal/zzverif/gen/third/common"
	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	"github.com/RomiChan/protobuf/internal/zzverif/ref"
)

// H_ anchors the package.
func H_() {}

func same32(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) }
func same64(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

const (
	right = "the getter of the member that is set does not return its value"
	other = "the getter of a member that is not set does not return the default"
	whole = "the getter of the oneof does not return what it holds"
)

// p3One stores the k-th member of the oneof (none for k = 0) and gives a check of every getter of it.
func p3One(m *p3.Choice, k int) func(*p3.Choice) {
	var v_int32 int32
	var v_int64 int64
	var v_uint32 uint32
	var v_uint64 uint64
	var v_sint32 int32
	var v_sint64 int64
	var v_bool bool
	var v_fixed32 uint32
	var v_fixed64 uint64
	var v_sfixed32 int32
	var v_sfixed64 int64
	var v_float float32
	var v_double float64
	var v_string string
	var v_bytes []byte
	var v_enum int32 = 0
	var v_message *p3.Leaf
	switch k {
	case 1:
		v_int32 = int32(nd.U32())
		m.One = &p3.Choice_OneInt32{OneInt32: v_int32}
	case 2:
		v_int64 = int64(nd.U64())
		m.One = &p3.Choice_OneInt64{OneInt64: v_int64}
	case 3:
		v_uint32 = nd.U32()
		m.One = &p3.Choice_OneUint32{OneUint32: v_uint32}
	case 4:
		v_uint64 = nd.U64()
		m.One = &p3.Choice_OneUint64{OneUint64: v_uint64}
	case 5:
		v_sint32 = int32(nd.U32())
		m.One = &p3.Choice_OneSint32{OneSint32: v_sint32}
	case 6:
		v_sint64 = int64(nd.U64())
		m.One = &p3.Choice_OneSint64{OneSint64: v_sint64}
	case 7:
		v_bool = nd.Bool()
		m.One = &p3.Choice_OneBool{OneBool: v_bool}
	case 8:
		v_fixed32 = nd.U32()
		m.One = &p3.Choice_OneFixed32{OneFixed32: v_fixed32}
	case 9:
		v_fixed64 = nd.U64()
		m.One = &p3.Choice_OneFixed64{OneFixed64: v_fixed64}
	case 10:
		v_sfixed32 = int32(nd.U32())
		m.One = &p3.Choice_OneSfixed32{OneSfixed32: v_sfixed32}
	case 11:
		v_sfixed64 = int64(nd.U64())
		m.One = &p3.Choice_OneSfixed64{OneSfixed64: v_sfixed64}
	case 12:
		v_float = math.Float32frombits(nd.U32())
		m.One = &p3.Choice_OneFloat{OneFloat: v_float}
	case 13:
		v_double = math.Float64frombits(nd.U64())
		m.One = &p3.Choice_OneDouble{OneDouble: v_double}
	case 14:
		v_string = string(ref.Content(2))
		m.One = &p3.Choice_OneString{OneString: v_string}
	case 15:
		v_bytes = ref.Content(2)
		m.One = &p3.Choice_OneBytes{OneBytes: v_bytes}
	case 16:
		v_enum = int32(nd.U32())
		m.One = &p3.Choice_OneEnum{OneEnum: v_enum}
	case 17:
		v_message = new(p3.Leaf)
		m.One = &p3.Choice_OneMessage{OneMessage: v_message}
	}
	return func(m *p3.Choice) {
		if m == nil {
			nd.Assert(m.GetOne() == nil, whole)
		} else {
			nd.Assert(m.GetOne() == m.One, whole)
		}
		if k == 1 {
			nd.Assert(m.GetOneInt32() == v_int32, right)
		} else {
			nd.Assert(m.GetOneInt32() == v_int32, other)
		}
		if k == 2 {
			nd.Assert(m.GetOneInt64() == v_int64, right)
		} else {
			nd.Assert(m.GetOneInt64() == v_int64, other)
		}
		if k == 3 {
			nd.Assert(m.GetOneUint32() == v_uint32, right)
		} else {
			nd.Assert(m.GetOneUint32() == v_uint32, other)
		}
		if k == 4 {
			nd.Assert(m.GetOneUint64() == v_uint64, right)
		} else {
			nd.Assert(m.GetOneUint64() == v_uint64, other)
		}
		if k == 5 {
			nd.Assert(m.GetOneSint32() == v_sint32, right)
		} else {
			nd.Assert(m.GetOneSint32() == v_sint32, other)
		}
		if k == 6 {
			nd.Assert(m.GetOneSint64() == v_sint64, right)
		} else {
			nd.Assert(m.GetOneSint64() == v_sint64, other)
		}
		if k == 7 {
			nd.Assert(m.GetOneBool() == v_bool, right)
		} else {
			nd.Assert(m.GetOneBool() == v_bool, other)
		}
		if k == 8 {
			nd.Assert(m.GetOneFixed32() == v_fixed32, right)
		} else {
			nd.Assert(m.GetOneFixed32() == v_fixed32, other)
		}
		if k == 9 {
			nd.Assert(m.GetOneFixed64() == v_fixed64, right)
		} else {
			nd.Assert(m.GetOneFixed64() == v_fixed64, other)
		}
		if k == 10 {
			nd.Assert(m.GetOneSfixed32() == v_sfixed32, right)
		} else {
			nd.Assert(m.GetOneSfixed32() == v_sfixed32, other)
		}
		if k == 11 {
			nd.Assert(m.GetOneSfixed64() == v_sfixed64, right)
		} else {
			nd.Assert(m.GetOneSfixed64() == v_sfixed64, other)
		}
		if k == 12 {
			nd.Assert(same32(m.GetOneFloat(), v_float), right)
		} else {
			nd.Assert(same32(m.GetOneFloat(), v_float), other)
		}
		if k == 13 {
			nd.Assert(same64(m.GetOneDouble(), v_double), right)
		} else {
			nd.Assert(same64(m.GetOneDouble(), v_double), other)
		}
		if k == 14 {
			nd.Assert(m.GetOneString() == v_string, right)
		} else {
			nd.Assert(m.GetOneString() == v_string, other)
		}
		if k == 15 {
			nd.Assert(((m.GetOneBytes() == nil) == (v_bytes == nil) && ref.SameBytes(m.GetOneBytes(), v_bytes)), right)
		} else {
			nd.Assert(((m.GetOneBytes() == nil) == (v_bytes == nil) && ref.SameBytes(m.GetOneBytes(), v_bytes)), other)
		}
		if k == 16 {
			nd.Assert(m.GetOneEnum() == v_enum, right)
		} else {
			nd.Assert(m.GetOneEnum() == v_enum, other)
		}
		if k == 17 {
			nd.Assert(m.GetOneMessage() == v_message, right)
		} else {
			nd.Assert(m.GetOneMessage() == v_message, other)
		}
	}
}

// p3Two stores the k-th member of the oneof (none for k = 0) and gives a check of every getter of it.
func p3Two(m *p3.Choice, k int) func(*p3.Choice) {
	var v_int32 int32
	var v_int64 int64
	var v_uint32 uint32
	var v_uint64 uint64
	var v_sint32 int32
	var v_sint64 int64
	var v_bool bool
	var v_fixed32 uint32
	var v_fixed64 uint64
	var v_sfixed32 int32
	var v_sfixed64 int64
	var v_float float32
	var v_double float64
	var v_string string
	var v_bytes []byte
	var v_enum int32 = 0
	var v_message *common.Far
	switch k {
	case 1:
		v_int32 = int32(nd.U32())
		m.Two = &p3.Choice_TwoInt32{TwoInt32: v_int32}
	case 2:
		v_int64 = int64(nd.U64())
		m.Two = &p3.Choice_TwoInt64{TwoInt64: v_int64}
	case 3:
		v_uint32 = nd.U32()
		m.Two = &p3.Choice_TwoUint32{TwoUint32: v_uint32}
	case 4:
		v_uint64 = nd.U64()
		m.Two = &p3.Choice_TwoUint64{TwoUint64: v_uint64}
	case 5:
		v_sint32 = int32(nd.U32())
		m.Two = &p3.Choice_TwoSint32{TwoSint32: v_sint32}
	case 6:
		v_sint64 = int64(nd.U64())
		m.Two = &p3.Choice_TwoSint64{TwoSint64: v_sint64}
	case 7:
		v_bool = nd.Bool()
		m.Two = &p3.Choice_TwoBool{TwoBool: v_bool}
	case 8:
		v_fixed32 = nd.U32()
		m.Two = &p3.Choice_TwoFixed32{TwoFixed32: v_fixed32}
	case 9:
		v_fixed64 = nd.U64()
		m.Two = &p3.Choice_TwoFixed64{TwoFixed64: v_fixed64}
	case 10:
		v_sfixed32 = int32(nd.U32())
		m.Two = &p3.Choice_TwoSfixed32{TwoSfixed32: v_sfixed32}
	case 11:
		v_sfixed64 = int64(nd.U64())
		m.Two = &p3.Choice_TwoSfixed64{TwoSfixed64: v_sfixed64}
	case 12:
		v_float = math.Float32frombits(nd.U32())
		m.Two = &p3.Choice_TwoFloat{TwoFloat: v_float}
	case 13:
		v_double = math.Float64frombits(nd.U64())
		m.Two = &p3.Choice_TwoDouble{TwoDouble: v_double}
	case 14:
		v_string = string(ref.Content(2))
		m.Two = &p3.Choice_TwoString{TwoString: v_string}
	case 15:
		v_bytes = ref.Content(2)
		m.Two = &p3.Choice_TwoBytes{TwoBytes: v_bytes}
	case 16:
		v_enum = int32(nd.U32())
		m.Two = &p3.Choice_TwoEnum{TwoEnum: v_enum}
	case 17:
		v_message = new(common.Far)
		m.Two = &p3.Choice_TwoMessage{TwoMessage: v_message}
	}
	return func(m *p3.Choice) {
		if m == nil {
			nd.Assert(m.GetTwo() == nil, whole)
		} else {
			nd.Assert(m.GetTwo() == m.Two, whole)
		}
		if k == 1 {
			nd.Assert(m.GetTwoInt32() == v_int32, right)
		} else {
			nd.Assert(m.GetTwoInt32() == v_int32, other)
		}
		if k == 2 {
			nd.Assert(m.GetTwoInt64() == v_int64, right)
		} else {
			nd.Assert(m.GetTwoInt64() == v_int64, other)
		}
		if k == 3 {
			nd.Assert(m.GetTwoUint32() == v_uint32, right)
		} else {
			nd.Assert(m.GetTwoUint32() == v_uint32, other)
		}
		if k == 4 {
			nd.Assert(m.GetTwoUint64() == v_uint64, right)
		} else {
			nd.Assert(m.GetTwoUint64() == v_uint64, other)
		}
		if k == 5 {
			nd.Assert(m.GetTwoSint32() == v_sint32, right)
		} else {
			nd.Assert(m.GetTwoSint32() == v_sint32, other)
		}
		if k == 6 {
			nd.Assert(m.GetTwoSint64() == v_sint64, right)
		} else {
			nd.Assert(m.GetTwoSint64() == v_sint64, other)
		}
		if k == 7 {
			nd.Assert(m.GetTwoBool() == v_bool, right)
		} else {
			nd.Assert(m.GetTwoBool() == v_bool, other)
		}
		if k == 8 {
			nd.Assert(m.GetTwoFixed32() == v_fixed32, right)
		} else {
			nd.Assert(m.GetTwoFixed32() == v_fixed32, other)
		}
		if k == 9 {
			nd.Assert(m.GetTwoFixed64() == v_fixed64, right)
		} else {
			nd.Assert(m.GetTwoFixed64() == v_fixed64, other)
		}
		if k == 10 {
			nd.Assert(m.GetTwoSfixed32() == v_sfixed32, right)
		} else {
			nd.Assert(m.GetTwoSfixed32() == v_sfixed32, other)
		}
		if k == 11 {
			nd.Assert(m.GetTwoSfixed64() == v_sfixed64, right)
		} else {
			nd.Assert(m.GetTwoSfixed64() == v_sfixed64, other)
		}
		if k == 12 {
			nd.Assert(same32(m.GetTwoFloat(), v_float), right)
		} else {
			nd.Assert(same32(m.GetTwoFloat(), v_float), other)
		}
		if k == 13 {
			nd.Assert(same64(m.GetTwoDouble(), v_double), right)
		} else {
			nd.Assert(same64(m.GetTwoDouble(), v_double), other)
		}
		if k == 14 {
			nd.Assert(m.GetTwoString() == v_string, right)
		} else {
			nd.Assert(m.GetTwoString() == v_string, other)
		}
		if k == 15 {
			nd.Assert(((m.GetTwoBytes() == nil) == (v_bytes == nil) && ref.SameBytes(m.GetTwoBytes(), v_bytes)), right)
		} else {
			nd.Assert(((m.GetTwoBytes() == nil) == (v_bytes == nil) && ref.SameBytes(m.GetTwoBytes(), v_bytes)), other)
		}
		if k == 16 {
			nd.Assert(m.GetTwoEnum() == v_enum, right)
		} else {
			nd.Assert(m.GetTwoEnum() == v_enum, other)
		}
		if k == 17 {
			nd.Assert(m.GetTwoMessage() == v_message, right)
		} else {
			nd.Assert(m.GetTwoMessage() == v_message, other)
		}
	}
}

// p2One stores the k-th member of the oneof (none for k = 0) and gives a check of every getter of it.
func p2One(m *p2.Choice, k int) func(*p2.Choice) {
	var v_int32 int32
	var v_int64 int64
	var v_uint32 uint32
	var v_uint64 uint64
	var v_sint32 int32
	var v_sint64 int64
	var v_bool bool
	var v_fixed32 uint32
	var v_fixed64 uint64
	var v_sfixed32 int32
	var v_sfixed64 int64
	var v_float float32
	var v_double float64
	var v_string string
	var v_bytes []byte
	var v_enum int32 = 5
	var v_message *common1.Far
	switch k {
	case 1:
		v_int32 = int32(nd.U32())
		m.One = &p2.Choice_OneInt32{OneInt32: v_int32}
	case 2:
		v_int64 = int64(nd.U64())
		m.One = &p2.Choice_OneInt64{OneInt64: v_int64}
	case 3:
		v_uint32 = nd.U32()
		m.One = &p2.Choice_OneUint32{OneUint32: v_uint32}
	case 4:
		v_uint64 = nd.U64()
		m.One = &p2.Choice_OneUint64{OneUint64: v_uint64}
	case 5:
		v_sint32 = int32(nd.U32())
		m.One = &p2.Choice_OneSint32{OneSint32: v_sint32}
	case 6:
		v_sint64 = int64(nd.U64())
		m.One = &p2.Choice_OneSint64{OneSint64: v_sint64}
	case 7:
		v_bool = nd.Bool()
		m.One = &p2.Choice_OneBool{OneBool: v_bool}
	case 8:
		v_fixed32 = nd.U32()
		m.One = &p2.Choice_OneFixed32{OneFixed32: v_fixed32}
	case 9:
		v_fixed64 = nd.U64()
		m.One = &p2.Choice_OneFixed64{OneFixed64: v_fixed64}
	case 10:
		v_sfixed32 = int32(nd.U32())
		m.One = &p2.Choice_OneSfixed32{OneSfixed32: v_sfixed32}
	case 11:
		v_sfixed64 = int64(nd.U64())
		m.One = &p2.Choice_OneSfixed64{OneSfixed64: v_sfixed64}
	case 12:
		v_float = math.Float32frombits(nd.U32())
		m.One = &p2.Choice_OneFloat{OneFloat: v_float}
	case 13:
		v_double = math.Float64frombits(nd.U64())
		m.One = &p2.Choice_OneDouble{OneDouble: v_double}
	case 14:
		v_string = string(ref.Content(2))
		m.One = &p2.Choice_OneString{OneString: v_string}
	case 15:
		v_bytes = ref.Content(2)
		m.One = &p2.Choice_OneBytes{OneBytes: v_bytes}
	case 16:
		v_enum = int32(nd.U32())
		m.One = &p2.Choice_OneEnum{OneEnum: v_enum}
	case 17:
		v_message = new(common1.Far)
		m.One = &p2.Choice_OneMessage{OneMessage: v_message}
	}
	return func(m *p2.Choice) {
		if m == nil {
			nd.Assert(m.GetOne() == nil, whole)
		} else {
			nd.Assert(m.GetOne() == m.One, whole)
		}
		if k == 1 {
			nd.Assert(m.GetOneInt32() == v_int32, right)
		} else {
			nd.Assert(m.GetOneInt32() == v_int32, other)
		}
		if k == 2 {
			nd.Assert(m.GetOneInt64() == v_int64, right)
		} else {
			nd.Assert(m.GetOneInt64() == v_int64, other)
		}
		if k == 3 {
			nd.Assert(m.GetOneUint32() == v_uint32, right)
		} else {
			nd.Assert(m.GetOneUint32() == v_uint32, other)
		}
		if k == 4 {
			nd.Assert(m.GetOneUint64() == v_uint64, right)
		} else {
			nd.Assert(m.GetOneUint64() == v_uint64, other)
		}
		if k == 5 {
			nd.Assert(m.GetOneSint32() == v_sint32, right)
		} else {
			nd.Assert(m.GetOneSint32() == v_sint32, other)
		}
		if k == 6 {
			nd.Assert(m.GetOneSint64() == v_sint64, right)
		} else {
			nd.Assert(m.GetOneSint64() == v_sint64, other)
		}
		if k == 7 {
			nd.Assert(m.GetOneBool() == v_bool, right)
		} else {
			nd.Assert(m.GetOneBool() == v_bool, other)
		}
		if k == 8 {
			nd.Assert(m.GetOneFixed32() == v_fixed32, right)
		} else {
			nd.Assert(m.GetOneFixed32() == v_fixed32, other)
		}
		if k == 9 {
			nd.Assert(m.GetOneFixed64() == v_fixed64, right)
		} else {
			nd.Assert(m.GetOneFixed64() == v_fixed64, other)
		}
		if k == 10 {
			nd.Assert(m.GetOneSfixed32() == v_sfixed32, right)
		} else {
			nd.Assert(m.GetOneSfixed32() == v_sfixed32, other)
		}
		if k == 11 {
			nd.Assert(m.GetOneSfixed64() == v_sfixed64, right)
		} else {
			nd.Assert(m.GetOneSfixed64() == v_sfixed64, other)
		}
		if k == 12 {
			nd.Assert(same32(m.GetOneFloat(), v_float), right)
		} else {
			nd.Assert(same32(m.GetOneFloat(), v_float), other)
		}
		if k == 13 {
			nd.Assert(same64(m.GetOneDouble(), v_double), right)
		} else {
			nd.Assert(same64(m.GetOneDouble(), v_double), other)
		}
		if k == 14 {
			nd.Assert(m.GetOneString() == v_string, right)
		} else {
			nd.Assert(m.GetOneString() == v_string, other)
		}
		if k == 15 {
			nd.Assert(((m.GetOneBytes() == nil) == (v_bytes == nil) && ref.SameBytes(m.GetOneBytes(), v_bytes)), right)
		} else {
			nd.Assert(((m.GetOneBytes() == nil) == (v_bytes == nil) && ref.SameBytes(m.GetOneBytes(), v_bytes)), other)
		}
		if k == 16 {
			nd.Assert(m.GetOneEnum() == v_enum, right)
		} else {
			nd.Assert(m.GetOneEnum() == v_enum, other)
		}
		if k == 17 {
			nd.Assert(m.GetOneMessage() == v_message, right)
		} else {
			nd.Assert(m.GetOneMessage() == v_message, other)
		}
	}
}

// p2Two stores the k-th member of the oneof (none for k = 0) and gives a check of every getter of it.
func p2Two(m *p2.Choice, k int) func(*p2.Choice) {
	var v_int32 int32
	var v_int64 int64
	var v_uint32 uint32
	var v_uint64 uint64
	var v_sint32 int32
	var v_sint64 int64
	var v_bool bool
	var v_fixed32 uint32
	var v_fixed64 uint64
	var v_sfixed32 int32
	var v_sfixed64 int64
	var v_float float32
	var v_double float64
	var v_string string
	var v_bytes []byte
	var v_enum int32 = -7
	var v_message *p2.Leaf
	switch k {
	case 1:
		v_int32 = int32(nd.U32())
		m.Two = &p2.Choice_TwoInt32{TwoInt32: v_int32}
	case 2:
		v_int64 = int64(nd.U64())
		m.Two = &p2.Choice_TwoInt64{TwoInt64: v_int64}
	case 3:
		v_uint32 = nd.U32()
		m.Two = &p2.Choice_TwoUint32{TwoUint32: v_uint32}
	case 4:
		v_uint64 = nd.U64()
		m.Two = &p2.Choice_TwoUint64{TwoUint64: v_uint64}
	case 5:
		v_sint32 = int32(nd.U32())
		m.Two = &p2.Choice_TwoSint32{TwoSint32: v_sint32}
	case 6:
		v_sint64 = int64(nd.U64())
		m.Two = &p2.Choice_TwoSint64{TwoSint64: v_sint64}
	case 7:
		v_bool = nd.Bool()
		m.Two = &p2.Choice_TwoBool{TwoBool: v_bool}
	case 8:
		v_fixed32 = nd.U32()
		m.Two = &p2.Choice_TwoFixed32{TwoFixed32: v_fixed32}
	case 9:
		v_fixed64 = nd.U64()
		m.Two = &p2.Choice_TwoFixed64{TwoFixed64: v_fixed64}
	case 10:
		v_sfixed32 = int32(nd.U32())
		m.Two = &p2.Choice_TwoSfixed32{TwoSfixed32: v_sfixed32}
	case 11:
		v_sfixed64 = int64(nd.U64())
		m.Two = &p2.Choice_TwoSfixed64{TwoSfixed64: v_sfixed64}
	case 12:
		v_float = math.Float32frombits(nd.U32())
		m.Two = &p2.Choice_TwoFloat{TwoFloat: v_float}
	case 13:
		v_double = math.Float64frombits(nd.U64())
		m.Two = &p2.Choice_TwoDouble{TwoDouble: v_double}
	case 14:
		v_string = string(ref.Content(2))
		m.Two = &p2.Choice_TwoString{TwoString: v_string}
	case 15:
		v_bytes = ref.Content(2)
		m.Two = &p2.Choice_TwoBytes{TwoBytes: v_bytes}
	case 16:
		v_enum = int32(nd.U32())
		m.Two = &p2.Choice_TwoEnum{TwoEnum: v_enum}
	case 17:
		v_message = new(p2.Leaf)
		m.Two = &p2.Choice_TwoMessage{TwoMessage: v_message}
	}
	return func(m *p2.Choice) {
		if m == nil {
			nd.Assert(m.GetTwo() == nil, whole)
		} else {
			nd.Assert(m.GetTwo() == m.Two, whole)
		}
		if k == 1 {
			nd.Assert(m.GetTwoInt32() == v_int32, right)
		} else {
			nd.Assert(m.GetTwoInt32() == v_int32, other)
		}
		if k == 2 {
			nd.Assert(m.GetTwoInt64() == v_int64, right)
		} else {
			nd.Assert(m.GetTwoInt64() == v_int64, other)
		}
		if k == 3 {
			nd.Assert(m.GetTwoUint32() == v_uint32, right)
		} else {
			nd.Assert(m.GetTwoUint32() == v_uint32, other)
		}
		if k == 4 {
			nd.Assert(m.GetTwoUint64() == v_uint64, right)
		} else {
			nd.Assert(m.GetTwoUint64() == v_uint64, other)
		}
		if k == 5 {
			nd.Assert(m.GetTwoSint32() == v_sint32, right)
		} else {
			nd.Assert(m.GetTwoSint32() == v_sint32, other)
		}
		if k == 6 {
			nd.Assert(m.GetTwoSint64() == v_sint64, right)
		} else {
			nd.Assert(m.GetTwoSint64() == v_sint64, other)
		}
		if k == 7 {
			nd.Assert(m.GetTwoBool() == v_bool, right)
		} else {
			nd.Assert(m.GetTwoBool() == v_bool, other)
		}
		if k == 8 {
			nd.Assert(m.GetTwoFixed32() == v_fixed32, right)
		} else {
			nd.Assert(m.GetTwoFixed32() == v_fixed32, other)
		}
		if k == 9 {
			nd.Assert(m.GetTwoFixed64() == v_fixed64, right)
		} else {
			nd.Assert(m.GetTwoFixed64() == v_fixed64, other)
		}
		if k == 10 {
			nd.Assert(m.GetTwoSfixed32() == v_sfixed32, right)
		} else {
			nd.Assert(m.GetTwoSfixed32() == v_sfixed32, other)
		}
		if k == 11 {
			nd.Assert(m.GetTwoSfixed64() == v_sfixed64, right)
		} else {
			nd.Assert(m.GetTwoSfixed64() == v_sfixed64, other)
		}
		if k == 12 {
			nd.Assert(same32(m.GetTwoFloat(), v_float), right)
		} else {
			nd.Assert(same32(m.GetTwoFloat(), v_float), other)
		}
		if k == 13 {
			nd.Assert(same64(m.GetTwoDouble(), v_double), right)
		} else {
			nd.Assert(same64(m.GetTwoDouble(), v_double), other)
		}
		if k == 14 {
			nd.Assert(m.GetTwoString() == v_string, right)
		} else {
			nd.Assert(m.GetTwoString() == v_string, other)
		}
		if k == 15 {
			nd.Assert(((m.GetTwoBytes() == nil) == (v_bytes == nil) && ref.SameBytes(m.GetTwoBytes(), v_bytes)), right)
		} else {
			nd.Assert(((m.GetTwoBytes() == nil) == (v_bytes == nil) && ref.SameBytes(m.GetTwoBytes(), v_bytes)), other)
		}
		if k == 16 {
			nd.Assert(m.GetTwoEnum() == v_enum, right)
		} else {
			nd.Assert(m.GetTwoEnum() == v_enum, other)
		}
		if k == 17 {
			nd.Assert(m.GetTwoMessage() == v_message, right)
		} else {
			nd.Assert(m.GetTwoMessage() == v_message, other)
		}
	}
}

func H_C23_p3_one() {
	m := new(p3.Choice)
	a := p3One(m, nd.Choose(18))
	b := p3Two(m, 0)
	a(m)
	b(m)
	nd.Reach("ran")
}

func H_C23_p3_two() {
	m := new(p3.Choice)
	a := p3One(m, 0)
	b := p3Two(m, nd.Choose(18))
	a(m)
	b(m)
	nd.Reach("ran")
}

// Both oneofs are set, and then set again.
func H_C23_p3_both() {
	m := new(p3.Choice)
	a := p3One(m, 1+nd.Choose(17))
	b := p3Two(m, 1+nd.Choose(17))
	a(m)
	b(m)
	a = p3One(m, 1+nd.Choose(17))
	a(m)
	b(m)
}

// A nil message has no member set.
func H_C23_p3_nil() {
	m := new(p3.Choice)
	a, b := p3One(m, 0), p3Two(m, 0)
	a(nil)
	b(nil)
	a(m)
	b(m)
}

func H_C23_p2_one() {
	m := new(p2.Choice)
	a := p2One(m, nd.Choose(18))
	b := p2Two(m, 0)
	a(m)
	b(m)
	nd.Reach("ran")
}

func H_C23_p2_two() {
	m := new(p2.Choice)
	a := p2One(m, 0)
	b := p2Two(m, nd.Choose(18))
	a(m)
	b(m)
	nd.Reach("ran")
}

// Both oneofs are set, and then set again.
func H_C23_p2_both() {
	m := new(p2.Choice)
	a := p2One(m, 1+nd.Choose(17))
	b := p2Two(m, 1+nd.Choose(17))
	a(m)
	b(m)
	a = p2One(m, 1+nd.Choose(17))
	a(m)
	b(m)
}

// A nil message has no member set.
func H_C23_p2_nil() {
	m := new(p2.Choice)
	a, b := p2One(m, 0), p2Two(m, 0)
	a(nil)
	b(nil)
	a(m)
	b(m)
}

// Enums declared in the message, elsewhere, with and without a value 0.
func H_C23_p2_pick() {
	m := new(p2.Pick)
	k := nd.Choose(5)
	v := int32(nd.U32())
	switch k {
	case 1:
		m.What = &p2.Pick_Plain{Plain: v}
	case 2:
		m.What = &p2.Pick_Near{Near: v}
	case 3:
		m.What = &p2.Pick_Far{Far: v}
	case 4:
		m.What = &p2.Pick_Out{Out: &p2.Pick{What: &p2.Pick_Near{Near: v}}}
	}
	want := [4]int32{0, 0, 2147483647, -3}
	if k < 4 {
		want[k] = v
	}
	nd.Assert(m.GetPlain() == want[1], other)
	nd.Assert(m.GetNear() == want[2], other)
	nd.Assert(m.GetFar() == want[3], other)
	if k == 4 {
		nd.Assert(m.GetOut().GetNear() == v && m.GetOut().GetPlain() == 0 && m.GetOut().GetOut() == nil, right)
	} else {
		nd.Assert(m.GetOut() == nil && m.GetOut().GetFar() == -3 && m.GetOut().GetWhat() == nil, other)
	}
}
