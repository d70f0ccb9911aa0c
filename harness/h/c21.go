package h

import (
	"reflect"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	"github.com/RomiChan/protobuf/internal/zzverif/ref"
	"github.com/RomiChan/protobuf/proto"
)

type Base struct {
	Z uint32 `protobuf:"varint,50,opt"`
}

type other struct{ a, b uint64 }

// hidden is embedded with a tag.
type hidden struct {
	Q uint32 `protobuf:"varint,1,opt"`
}

// Dirty has fields that take no part before, between and after the others.
type Dirty struct {
	u0 uint16 `protobuf:"varint,20,opt"`
	A  bool   `protobuf:"varint,1,opt"`
	Base
	U1 uint8
	B  proto.Option[bool] `protobuf:"varint,2,opt"`
	u2 []byte             `protobuf:"bytes,21,opt"`
	C  uint32             `protobuf:"varint,3,opt"`
	U3 map[string]int
	D  []uint32 `protobuf:"varint,4,rep"`
	*other
	U4      func()
	E       *Leaf            `protobuf:"bytes,5,opt"`
	U5      interface{}      `json:"x"`
	F       map[uint8]string `xml:"protobuf"`
	G       string           `protobuf:"bytes,7,opt"`
	U6      [2]float64
	H       *uint32 `protobuf:"fixed32,8,opt"`
	*hidden `protobuf:"bytes,22,opt"`
	u7      [3]uint16
	I       []byte `protobuf:"bytes,9,opt"`
	U8      chan int
	J       map[uint32]uint32 `protobuf:"bytes,10,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	u9      *Leaf
	K       float64 `protobuf:"fixed64,11,opt"`
	_       uint32
	UA      uint64 `Protobuf:"varint,12,opt"`
	uB      string
	UC      uint64 `proto:"varint,12,opt"`
	UD      uint64 `json:"varint,12,opt" protobuf_key:"varint,12,opt" protobuf_val:"varint,12,opt"`
	UE      uint64 `protobuf_oneof:"varint,12,opt" yaml:"protobuf"`
	UF      []byte `pb:"bytes,12,opt" xprotobuf:"bytes,12,opt" protobuf3:"bytes,12,opt" json:"protobuf:\"bytes,12,opt\""`
	UG      []byte `protobuf :"bytes,12,opt"`
	UH      uint64 `asn1:"varint,12,opt" xml:"varint,12,opt"`
	Ö       uint32 `protobuf:"varint,23,opt"`
	ö       uint32 `protobuf:"varint,24,opt"`
	X_1     int64  `protobuf:"zigzag64,25,opt"`
	世       uint64 `protobuf:"varint,26,opt"`
}

// Clean has the same message fields and nothing else.
type Clean struct {
	A bool               `protobuf:"varint,1,opt"`
	B proto.Option[bool] `protobuf:"varint,2,opt"`
	C uint32             `protobuf:"varint,3,opt"`
	D []uint32           `protobuf:"varint,4,rep"`
	E *Leaf              `protobuf:"bytes,5,opt"`
	G string             `protobuf:"bytes,7,opt"`
	H *uint32            `protobuf:"fixed32,8,opt"`
	I []byte             `protobuf:"bytes,9,opt"`
	J map[uint32]uint32  `protobuf:"bytes,10,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	K float64            `protobuf:"fixed64,11,opt"`
	L uint32             `protobuf:"varint,23,opt"`
	M int64              `protobuf:"zigzag64,25,opt"`
}

// soil gives the other fields arbitrary contents and a function that requires
// them to be what they were.
func soil(d *Dirty) func() {
	d.u0, d.U1, d.u2 = nd.U16(), nd.U8(), ref.Raw(2)
	d.Z = nd.U32()
	d.U3 = map[string]int{"a": 1}
	o := &other{nd.U64(), nd.U64()}
	d.other = o
	hi := &hidden{Q: nd.U32()}
	d.hidden = hi
	hit := false
	d.U4 = func() { hit = true }
	d.U5 = nd.U32()
	d.F = map[uint8]string{1: "x"}
	d.U6 = [2]float64{1, 2}
	d.u7 = [3]uint16{nd.U16(), nd.U16(), nd.U16()}
	d.U8 = make(chan int, 1)
	l := &Leaf{A: int32(nd.U32()), B: "u9"}
	d.u9 = l
	d.UA, d.UC, d.UD, d.UE, d.UH = nd.U64(), nd.U64(), nd.U64(), nd.U64(), nd.U64()
	d.ö, d.世 = nd.U32(), nd.U64()
	d.UF, d.UG = []byte{7}, []byte{8}
	d.uB = string(ref.Raw(1))
	was := *d
	oWas, lWas, hWas := *o, *l, *hi
	bs := append([]byte{}, d.u2...)
	return func() {
		same := d.u0 == was.u0
		same = nd.And(same, d.U1 == was.U1)
		same = nd.And(same, d.Z == was.Z)
		same = nd.And(same, d.u7 == was.u7)
		same = nd.And(same, d.UA == was.UA)
		same = nd.And(same, d.UC == was.UC)
		same = nd.And(same, d.UD == was.UD)
		same = nd.And(same, d.UE == was.UE)
		same = nd.And(same, d.UH == was.UH)
		same = nd.And(same, d.ö == was.ö)
		same = nd.And(same, d.世 == was.世)
		same = nd.And(same, len(d.UF) == 1 && d.UF[0] == 7 && len(d.UG) == 1 && d.UG[0] == 8)
		same = nd.And(same, d.U5 == was.U5)
		same = nd.And(same, *o == oWas)
		same = nd.And(same, l.A == lWas.A)
		same = nd.And(same, hi.Q == hWas.Q)
		nd.Assert(same, "a field that takes no part has changed")
		nd.Assert(d.other == o && d.hidden == hi && d.u9 == l && d.U8 == was.U8 && l.B == "u9", "a field that takes no part refers to something else")
		nd.Assert(len(d.u2) == 2 && ref.SameBytes(d.u2, bs), "a byte slice that takes no part has changed")
		nd.Assert(d.uB == was.uB && d.U6 == was.U6, "a field that takes no part has changed")
		nd.Assert(len(d.U3) == 1 && d.U3["a"] == 1 && len(d.F) == 1 && d.F[1] == "x", "a map that takes no part has changed")
		d.U4()
		nd.Assert(hit, "a function that takes no part has changed")
	}
}

func (d *Dirty) clean() *Clean {
	return &Clean{d.A, d.B, d.C, d.D, d.E, d.G, d.H, d.I, d.J, d.K, d.Ö, d.X_1}
}

func c21() ref.Cfg {
	return ref.Cfg{Lens: []int{0, 2, 128}, Reps: []int{0, 2}, Maps: []int{0, 1}, Depth: 1, Elem: true}
}

// Size and Marshal give what they give for the twin without the other fields.
func H_C21_encode() {
	d := new(Dirty)
	warm(d)
	var check func()
	if nd.Choose(2) == 1 {
		check = soil(d)
	}
	focus(d, c21())
	c := d.clean()
	want := ref.Encode(nil, ref.Of(typeOf(c)), reflect.ValueOf(c).Elem())
	nd.Assert(proto.Size(d) == len(want), "fields that take no part influence Size")
	b, err := proto.Marshal(d)
	nd.Assert(err == nil, "Marshal returned an error")
	nd.Assert(ref.SameBytes(b, want), "fields that take no part influence Marshal")
	b, err = proto.Marshal(c)
	nd.Assert(err == nil && ref.SameBytes(b, want), "Marshal of the twin differs")
	if check != nil {
		check()
	}
}

// Unmarshal gives what it gives for the twin, and leaves the rest alone.
func H_C21_decode() {
	d := new(Dirty)
	t := warm(new(Clean))
	warm(d)
	s := ref.Of(t)
	if nd.Choose(2) == 1 {
		fillAll(d)
	}
	check := soil(d)
	want := reflect.New(t)
	want.Elem().Set(ref.Clone(s, reflect.ValueOf(d.clean()).Elem()))
	w := ref.W{Varints: []int{1, 10}, Lens: []int{0, 2}, Depth: 1, Subs: 1, Entries: 3}
	b := w.Record(s.Fields[nd.Choose(len(s.Fields))])
	if nd.Choose(2) == 1 {
		// numbers that only fields which take no part carry
		n := []uint64{20, 21, 50, 12, 6, 22, 24, 26}[nd.Choose(8)]
		b = append(ref.AppendVarint(nil, n<<3), append(ref.VarintN(2), b...)...)
	}
	nd.Assert(ref.Decode(b, s, want.Elem()).Why == ref.Valid, "harness: invalid record")
	nd.Assert(proto.Unmarshal(nd.Guarded(b), d) == nil, "Unmarshal rejects valid input")
	check()
	got := reflect.ValueOf(d.clean()).Elem()
	nd.Assert(ref.Equal(s, got, want.Elem()), "fields that take no part disturb the others")
	nd.Observe("sum", ref.Sum(s, got))
}

// Arbitrary bytes.
func H_C21_bytes() {
	d := new(Dirty)
	warm(d)
	check := soil(d)
	n := 3 + nd.Tier()*2
	proto.Unmarshal(nd.Guarded(ref.Raw(1+nd.Choose(n))), d)
	check()
}

// First use through Unmarshal, in embedded messages, elements and map values.
func H_C21_nested() {
	type holder struct {
		A *Dirty            `protobuf:"bytes,1,opt"`
		B []*Dirty          `protobuf:"bytes,2,rep"`
		C map[uint32]*Dirty `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	}
	t := typeOf(new(Clean))
	s := ref.Of(t)
	w := ref.W{Varints: []int{2}, Lens: []int{2}, Depth: 1, Subs: 1, Entries: 1}
	in := w.Record(s.Fields[nd.Choose(len(s.Fields))])
	want := reflect.New(t)
	m := new(holder)
	var check func()
	k := nd.Choose(4)
	var b []byte
	switch k {
	case 0:
		m.A = new(Dirty)
		check = soil(m.A)
		b = wrap(1, in)
	case 1:
		b = wrap(2, in)
	case 2:
		b = wrap(3, append([]byte{8, 4}, wrap(2, in)...))
	case 3:
		b = wrap(1, in)
	}
	ref.Decode(in, s, want.Elem())
	nd.Assert(proto.Unmarshal(b, m) == nil, "Unmarshal rejects valid input")
	got := m.A
	switch k {
	case 1:
		got = m.B[0]
	case 2:
		got = m.C[4]
	}
	nd.Assert(got != nil, "an embedded message is lost")
	if check != nil {
		check()
	} else {
		nd.Assert(got.u0 == 0 && got.U1 == 0 && got.u2 == nil && got.other == nil && got.hidden == nil && got.U4 == nil && got.U5 == nil && got.UA == 0 && got.UC == 0 && got.UD == 0 && got.UE == 0 && got.UF == nil && got.UG == nil && got.UH == 0 && got.uB == "" && got.Z == 0 && got.ö == 0 && got.世 == 0 && got.u9 == nil, "Unmarshal set a field that takes no part")
	}
	nd.Assert(ref.Equal(s, reflect.ValueOf(got.clean()).Elem(), want.Elem()), "fields that take no part disturb the others")
}

// A struct with nothing but fields that take no part.
type Idle struct {
	a uint32 `protobuf:"varint,1,opt"`
	B string
	c *Leaf `protobuf:"bytes,2,opt"`
}

func H_C21_idle() {
	x := nd.U32()
	m := &Idle{a: x, B: "b", c: &Leaf{A: 1}}
	if nd.Choose(2) == 1 {
		nd.Assert(proto.Size(m) == 0, "fields that take no part influence Size")
	}
	b, err := proto.Marshal(m)
	nd.Assert(err == nil && len(b) == 0, "fields that take no part influence Marshal")
	r := ref.Unknown(ref.Of(typeOf(m)), 2)
	nd.Assert(proto.Unmarshal(r, m) == nil, "Unmarshal rejects valid input")
	nd.Assert(m.a == x && m.B == "b" && m.c != nil && m.c.A == 1, "Unmarshal wrote to a field that takes no part")
}
