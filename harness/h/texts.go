package h

import (
	"reflect"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	"github.com/RomiChan/protobuf/internal/zzverif/ref"
	"github.com/RomiChan/protobuf/proto"
)

// Texts has strings and bytes in every position a field can have them.
type Texts struct {
	A string               `protobuf:"bytes,1,opt"`
	B []byte               `protobuf:"bytes,2,opt"`
	C proto.Option[string] `protobuf:"bytes,3,opt"`
	D *string              `protobuf:"bytes,4,opt"`
	E []string             `protobuf:"bytes,5,rep"`
	F [][]byte             `protobuf:"bytes,6,rep"`
	G map[string]string    `protobuf:"bytes,7,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	H map[uint32][]byte    `protobuf:"bytes,8,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	I uint32               `protobuf:"varint,9,opt"`
}

// texts puts contents of each length in each position.
func texts(lens []int) *Texts {
	m := new(Texts)
	warm(m)
	c := ref.Content(lens[nd.Choose(len(lens))])
	str := string(c)
	switch nd.Choose(9) {
	case 0:
		m.A = str
	case 1:
		m.B = c
	case 2:
		m.C = proto.Some(str)
	case 3:
		m.D = &str
	case 4:
		m.E = []string{"", str, "x"}
	case 5:
		m.F = [][]byte{c, {1}}
	case 6:
		m.G = map[string]string{str: "v"}
	case 7:
		m.G = map[string]string{"k": str}
	case 8:
		m.H = map[uint32][]byte{3: c}
	}
	m.I = 300
	return m
}

// some lengths that are far apart.
func steps() []int {
	if nd.Tier() > 0 {
		return big()
	}
	return []int{129, 1024, 4097, 16384, 65536}
}

// verif: steps=60000000 samples=8
func H_C01_texts() { roundTripOf(texts(big())) }

// verif: steps=60000000 samples=8
func H_C02_texts() {
	m := texts(big())
	v := reflect.ValueOf(m).Elem()
	sizesOf(m, ref.Of(v.Type()), v)
}

// verif: steps=60000000 samples=8
func H_C03_texts() {
	m := texts(big())
	nd.Assume(len(m.G)+len(m.H) == 0)
	v := reflect.ValueOf(m).Elem()
	exactOf(m, ref.Of(v.Type()), v)
}

// verif: steps=60000000 samples=8
func H_C04_texts() {
	m := texts(big())
	v := reflect.ValueOf(m).Elem()
	b := ref.Encode(nil, ref.Of(v.Type()), v)
	if nd.Choose(2) == 1 {
		// with a second record, the last one wins
		x := new(Texts)
		for i, f := range ref.Of(v.Type()).Fields {
			ref.FillSome(f, reflect.ValueOf(x).Elem().Field(f.Index), i)
		}
		o := ref.Encode(nil, ref.Of(v.Type()), reflect.ValueOf(x).Elem())
		if nd.Choose(2) == 1 {
			b = append(b, o...)
		} else {
			b = append(o, b...)
		}
	}
	valid(b, v.Type())
}

// Long contents into fields that hold something, or nothing.
// verif: steps=60000000 samples=8
func H_C08_texts() {
	c := c8()
	c.Lens = []int{0, 5, 40}
	m := new(Texts)
	warm(m)
	s := ref.Of(typeOf(m))
	v := reflect.ValueOf(m).Elem()
	k := nd.Choose(8)
	for i, f := range s.Fields {
		if i == k {
			ref.FillAny(f, v.Field(f.Index), c)
		} else {
			ref.FillSome(f, v.Field(f.Index), i)
		}
	}
	f := s.Fields[k]
	n := big()[nd.Choose(len(big()))]
	var b []byte
	if f.Card == ref.Map {
		x, y := []byte{'k'}, ref.Content(n)
		if f.Key.Kind == ref.String && nd.Choose(2) == 1 {
			x, y = y, x
		}
		e := []byte{8, 1}
		if f.Key.Kind == ref.String {
			e = wrap(1, x)
		}
		b = wrap(f.Num, append(e, wrap(2, y)...))
	} else {
		b = wrap(f.Num, ref.Content(n))
	}
	mergeOf(m, s, v, k, b)
}

// verif: reach=decoded steps=60000000 samples=8
func H_C09_texts() {
	m := texts(steps())
	b := ref.Encode(nil, ref.Of(typeOf(m)), reflect.ValueOf(m).Elem())
	o := new(Texts)
	if nd.Choose(2) == 1 {
		fillAll(o)
	}
	decodeApart(b, o)
}

// Long unknown fields.
// verif: reach=ok steps=60000000 samples=8
func H_C07_long() {
	t := warm(new(Texts))
	n := big()[nd.Choose(len(big()))]
	num := uint64(nd.U32())
	nd.Assume(num > 9 && num < 1<<29)
	u := ref.AppendVarint(nil, num<<3|2)
	u = ref.Padded(u, uint64(n), nd.Choose(2))
	u = append(u, ref.Content(n)...)
	k := append([]byte{72}, ref.VarintN(2)...)
	r := wrap(1, ref.Content(3))
	with, without := join([][]byte{k, r}, nd.Choose(3), u)
	same(with, without, t)
}

// vlen is the length of x as a varint, for x below 2^42.
func vlen(x uint64) uint64 {
	n := uint64(1)
	for k := uint(7); k < 42; k += 7 {
		if x >= 1<<k {
			n++
		}
	}
	return n
}

func field(tag, n uint64) uint64 { return tag + vlen(n) + n }

type LongTexts struct {
	T *Texts            `protobuf:"bytes,1,opt"`
	R []*Texts          `protobuf:"bytes,20,rep"`
	M map[uint32]*Texts `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

// Size for contents of any length below 2^32, in each position, and at each
// level of nesting.
func H_C02_anylen() {
	warm(new(LongTexts))
	n := nd.U64()
	nd.Assume(n < 1<<32)
	m := new(Texts)
	var want uint64
	switch nd.Choose(8) {
	case 0:
		m.A = nd.LongString(n)
		want = field(1, n)
		if n == 0 {
			want = 0
		}
	case 1:
		m.B = nd.LongBytes(n)
		want = field(1, n)
	case 2:
		m.C = proto.Some(nd.LongString(n))
		want = field(1, n)
	case 3:
		s := nd.LongString(n)
		m.D = &s
		want = field(1, n)
	case 4:
		k := uint64(nd.U32())
		m.E = []string{nd.LongString(k), "", nd.LongString(n)}
		want = field(1, n) + 2 + field(1, k)
	case 5:
		m.F = [][]byte{nil, nd.LongBytes(n)}
		want = field(1, n) + 2
	case 6:
		m.G = map[string]string{"k": nd.LongString(n)}
		want = field(1, 3+field(1, n))
	case 7:
		m.H = map[uint32][]byte{300: nd.LongBytes(n)}
		want = field(1, 3+field(1, n))
	}
	if nd.Choose(2) == 1 {
		m.I = 1
		want += 2
	}
	switch nd.Choose(4) {
	case 0:
		nd.Assert(uint64(proto.Size(m)) == want, "Size is not the size of the encoding")
	case 1:
		nd.Assert(uint64(proto.Size(&LongTexts{T: m})) == field(1, want), "Size is not the size of the encoding")
	case 2:
		nd.Assert(uint64(proto.Size(&LongTexts{R: []*Texts{{I: 1}, m}})) == 5+field(2, want), "Size is not the size of the encoding")
	case 3:
		nd.Assert(uint64(proto.Size(&LongTexts{M: map[uint32]*Texts{1: m}})) == field(1, 2+field(1, want)), "Size is not the size of the encoding")
	}
	nd.Observe("size", want)
}
