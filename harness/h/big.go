package h

import (
	"reflect"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	"github.com/RomiChan/protobuf/internal/zzverif/ref"
	"github.com/RomiChan/protobuf/proto"
)

// Sizes past the thresholds at which implementations like to change their ways.

// Bulk has long repeated fields.
type Bulk struct {
	A []uint32 `protobuf:"varint,1,rep"`
	B []string `protobuf:"bytes,2,rep"`
	C []*Leaf  `protobuf:"bytes,3,rep"`
	D []uint64 `protobuf:"fixed64,4,rep"`
}

// Thousands of elements.
// verif: steps=60000000 samples=4
func H_C12_thousands() {
	n := []int{257, 1300, 2700}[nd.Choose(3)]
	k := nd.Choose(4)
	pick := []int{0, n - 1}[nd.Choose(2)]
	x := nd.U32()
	m := new(Bulk)
	var b []byte
	for i := 0; i < n; i++ {
		v := uint32(i) * 7
		if i == pick {
			v = x
		}
		switch k {
		case 0:
			m.A = append(m.A, v)
			b = ref.AppendVarint(append(b, 8), uint64(v))
		case 1:
			m.B = append(m.B, string([]byte{byte(v)}))
			b = append(b, 18, 1, byte(v))
		case 2:
			m.C = append(m.C, &Leaf{A: int32(v & 63), B: "x"})
			if v&63 == 0 {
				b = append(b, 26, 3, 18, 1, 'x')
			} else {
				b = append(b, 26, 5, 8, byte(v&63), 18, 1, 'x')
			}
		case 3:
			m.D = append(m.D, uint64(v))
			b = append(b, 33, byte(v), byte(v>>8), byte(v>>16), byte(v>>24), 0, 0, 0, 0)
		}
	}
	got, err := proto.Marshal(m)
	nd.Assert(err == nil && len(got) == len(b) && ref.SameBytes(got, b), "Marshal does not write one record per element")
	out := new(Bulk)
	if nd.Choose(2) == 1 {
		out.A, out.B = make([]uint32, 1, 1), make([]string, 0, 3)
		m.A = append([]uint32{0}, m.A...)
	}
	nd.Assert(proto.Unmarshal(b, out) == nil, "Unmarshal rejects valid records")
	nd.Assert(len(out.A) == len(m.A) && len(out.B) == len(m.B) && len(out.C) == len(m.C) && len(out.D) == len(m.D), "elements are lost or invented")
	ok := true
	for i := range m.A {
		ok = nd.And(ok, out.A[i] == m.A[i])
	}
	for i := range m.B {
		ok = nd.And(ok, out.B[i] == m.B[i])
	}
	for i := range m.C {
		ok = nd.And(ok, out.C[i] != nil && out.C[i].A == m.C[i].A && out.C[i].B == "x")
	}
	for i := range m.D {
		ok = nd.And(ok, out.D[i] == m.D[i])
	}
	nd.Assert(ok, "an element came back different or in another place")
}

// Many has more fields than a machine word has bits.
type Many struct {
	F1     uint32 `protobuf:"varint,1,opt"`
	F2     uint32 `protobuf:"varint,2,opt"`
	F3     uint32 `protobuf:"varint,3,opt"`
	F4     uint32 `protobuf:"varint,4,opt"`
	F5     uint32 `protobuf:"varint,5,opt"`
	F6     uint32 `protobuf:"varint,6,opt"`
	F7     uint32 `protobuf:"varint,7,opt"`
	F8     uint32 `protobuf:"varint,8,opt"`
	F9     uint32 `protobuf:"varint,9,opt"`
	F10    uint32 `protobuf:"varint,10,opt"`
	F11    uint32 `protobuf:"varint,11,opt"`
	F12    uint32 `protobuf:"varint,12,opt"`
	F13    uint32 `protobuf:"varint,13,opt"`
	F14    uint32 `protobuf:"varint,14,opt"`
	F15    uint32 `protobuf:"varint,15,opt"`
	F16    uint32 `protobuf:"varint,16,opt"`
	F17    uint32 `protobuf:"varint,17,opt"`
	F18    uint32 `protobuf:"varint,18,opt"`
	F19    uint32 `protobuf:"varint,19,opt"`
	F20    uint32 `protobuf:"varint,20,opt"`
	F21    uint32 `protobuf:"varint,21,opt"`
	F22    uint32 `protobuf:"varint,22,opt"`
	F23    uint32 `protobuf:"varint,23,opt"`
	F24    uint32 `protobuf:"varint,24,opt"`
	F25    uint32 `protobuf:"varint,25,opt"`
	F26    uint32 `protobuf:"varint,26,opt"`
	F27    uint32 `protobuf:"varint,27,opt"`
	F28    uint32 `protobuf:"varint,28,opt"`
	F29    uint32 `protobuf:"varint,29,opt"`
	F30    uint32 `protobuf:"varint,30,opt"`
	F31    uint32 `protobuf:"varint,31,opt"`
	F32    uint32 `protobuf:"varint,32,opt"`
	F33    uint32 `protobuf:"varint,33,opt"`
	F34    uint32 `protobuf:"varint,34,opt"`
	F35    uint32 `protobuf:"varint,35,opt"`
	F36    uint32 `protobuf:"varint,36,opt"`
	F37    uint32 `protobuf:"varint,37,opt"`
	F38    uint32 `protobuf:"varint,38,opt"`
	F39    uint32 `protobuf:"varint,39,opt"`
	F40    uint32 `protobuf:"varint,40,opt"`
	F63    uint32 `protobuf:"varint,63,opt"`
	F64    uint32 `protobuf:"varint,64,opt"`
	F65    uint32 `protobuf:"varint,65,opt"`
	F66    uint32 `protobuf:"varint,66,opt"`
	F127   uint32 `protobuf:"varint,127,opt"`
	F128   uint32 `protobuf:"varint,128,opt"`
	F129   uint32 `protobuf:"varint,129,opt"`
	F130   uint32 `protobuf:"varint,130,opt"`
	F255   uint32 `protobuf:"varint,255,opt"`
	F256   uint32 `protobuf:"varint,256,opt"`
	F257   uint32 `protobuf:"varint,257,opt"`
	F258   uint32 `protobuf:"varint,258,opt"`
	F511   uint32 `protobuf:"varint,511,opt"`
	F512   uint32 `protobuf:"varint,512,opt"`
	F513   uint32 `protobuf:"varint,513,opt"`
	F1000  uint32 `protobuf:"varint,1000,opt"`
	F1023  uint32 `protobuf:"varint,1023,opt"`
	F1024  uint32 `protobuf:"varint,1024,opt"`
	F1025  uint32 `protobuf:"varint,1025,opt"`
	F2047  uint32 `protobuf:"varint,2047,opt"`
	F2048  uint32 `protobuf:"varint,2048,opt"`
	F4095  uint32 `protobuf:"varint,4095,opt"`
	F4096  uint32 `protobuf:"varint,4096,opt"`
	F5000  uint32 `protobuf:"varint,5000,opt"`
	F8191  uint32 `protobuf:"varint,8191,opt"`
	F8192  uint32 `protobuf:"varint,8192,opt"`
	F65535 uint32 `protobuf:"varint,65535,opt"`
	F65536 uint32 `protobuf:"varint,65536,opt"`
	F65537 uint32 `protobuf:"varint,65537,opt"`
}

// Every field present at once, one of them arbitrary.
func many() *Many {
	m := new(Many)
	fill := nd.Choose(2) == 1
	p := []*uint32{&m.F1, &m.F2, &m.F3, &m.F4, &m.F5, &m.F6, &m.F7, &m.F8, &m.F9, &m.F10, &m.F11, &m.F12, &m.F13, &m.F14, &m.F15, &m.F16, &m.F17, &m.F18, &m.F19, &m.F20, &m.F21, &m.F22, &m.F23, &m.F24, &m.F25, &m.F26, &m.F27, &m.F28, &m.F29, &m.F30, &m.F31, &m.F32, &m.F33, &m.F34, &m.F35, &m.F36, &m.F37, &m.F38, &m.F39, &m.F40, &m.F63, &m.F64, &m.F65, &m.F66, &m.F127, &m.F128, &m.F129, &m.F130, &m.F255, &m.F256, &m.F257, &m.F258, &m.F511, &m.F512, &m.F513, &m.F1000, &m.F1023, &m.F1024, &m.F1025, &m.F2047, &m.F2048, &m.F4095, &m.F4096, &m.F5000, &m.F8191, &m.F8192, &m.F65535, &m.F65536, &m.F65537}
	if fill {
		for i := range p {
			*p[i] = uint32(i) + 1
		}
	}
	*p[nd.Choose(len(p))] = uint32(nd.U16())
	return m
}

func H_C01_many() { roundTripOf(many()) }
func H_C03_many() {
	m := many()
	v := reflect.ValueOf(m).Elem()
	exactOf(m, ref.Of(v.Type()), v)
}
func H_C02_many() { m := many(); v := reflect.ValueOf(m).Elem(); sizesOf(m, ref.Of(v.Type()), v) }

// Maps of many entries, as long as a table is small and after it has grown.
// verif: steps=60000000 samples=4 fixedmap poolhits
func H_C11_crowd() {
	type crowd struct {
		M map[uint32]string `protobuf:"bytes,1,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	}
	n := []int{8, 9, 130, 1025}[nd.Choose(4)]
	m := &crowd{M: map[uint32]string{}}
	k := nd.U32()
	nd.Assume(k >= 1<<20)
	v := string(ref.Content(2))
	for i := 0; i < n-1; i++ {
		m.M[uint32(i)] = string([]byte{byte(i), byte(i >> 8)})
	}
	m.M[k] = v
	b, err := proto.Marshal(m)
	nd.Assert(err == nil && len(b) == n*11, "the entries do not have their size")
	nd.Assert(proto.Size(m) == len(b), "Size differs from the length of Marshal's output")
	out := new(crowd)
	if nd.Choose(2) == 1 {
		out.M = map[uint32]string{3: "old", 1 << 19: "kept"}
	}
	have := out.M != nil
	nd.Assert(proto.Unmarshal(b, out) == nil, "Unmarshal rejects what Marshal wrote")
	if have {
		nd.Assert(out.M[1<<19] == "kept", "an entry that was there before is lost")
		delete(out.M, 1<<19)
	}
	nd.Assert(len(out.M) == n, "entries are lost or invented")
	ok := out.M[k] == v
	for i := 0; i < n-1; i++ {
		ok = nd.And(ok, out.M[uint32(i)] == string([]byte{byte(i), byte(i >> 8)}))
	}
	nd.Assert(ok, "an entry came back different")
}

// Deep nests through every kind of field that can hold a message.
type Deep struct {
	V uint32           `protobuf:"varint,1,opt"`
	P *Deep            `protobuf:"bytes,2,opt"`
	R []*Deep          `protobuf:"bytes,3,rep"`
	M map[uint32]*Deep `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B []byte           `protobuf:"bytes,5,opt"`
}

// deep gives a message nested to some depth and what it encodes to.
func deep() (*Deep, []byte) {
	nd.Steady(true)
	proto.Size(new(Deep))
	nd.Steady(false)
	n := []int{33, 101, 130}[nd.Choose(3)]
	if nd.Tier() > 0 {
		n = []int{33, 65, 101, 130, 257, 520}[nd.Choose(6)]
	}
	how := nd.Choose(4)
	m := &Deep{B: ref.Raw(2)}
	b := wrap(5, m.B)
	for i := 1; i < n; i++ {
		k := how
		if how == 3 {
			k = i % 3
		}
		v := uint32(i % 3)
		up := &Deep{V: v}
		var head []byte
		if v != 0 {
			head = []byte{8, byte(v)}
		}
		switch k {
		case 0:
			up.P = m
			b = wrap(2, b)
		case 1:
			up.R = []*Deep{m}
			b = wrap(3, b)
		case 2:
			up.M = map[uint32]*Deep{7: m}
			b = wrap(4, append([]byte{8, 7}, wrap(2, b)...))
		}
		b = append(head, b...)
		m = up
	}
	return m, b
}

// Deep nesting is measured and encoded like any other.
// verif: steps=60000000 samples=4
func H_C02_nesting() {
	m, b := deep()
	nd.Assert(proto.Size(m) == len(b), "Size differs from the length of the encoding")
}

// verif: steps=60000000 samples=4
func H_C03_nesting() {
	m, b := deep()
	got, err := proto.Marshal(m)
	nd.Assert(err == nil && ref.SameBytes(got, b), "Marshal's output is not the encoding the specification prescribes")
}

// verif: steps=60000000 samples=4
func H_C04_nesting() {
	m, b := deep()
	out := new(Deep)
	nd.Assert(proto.Unmarshal(b, out) == nil, "Unmarshal rejects a valid encoding")
	for x, y := m, out; x != nil; {
		nd.Assert(y != nil && x.V == y.V && ref.SameBytes(x.B, y.B) && len(x.R) == len(y.R) && len(x.M) == len(y.M), "a nested message is lost or came back different")
		nd.Assert((x.P == nil) == (y.P == nil), "a nested message is lost or came back different")
		switch {
		case x.P != nil:
			x, y = x.P, y.P
		case len(x.R) > 0:
			x, y = x.R[0], y.R[0]
		case len(x.M) > 0:
			x, y = x.M[7], y.M[7]
		default:
			x = nil
		}
	}
}

// verif: steps=60000000 samples=4
func H_C01_nesting() {
	m, _ := deep()
	roundTripOf(m)
}
