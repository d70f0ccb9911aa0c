package h

import (
	"reflect"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	"github.com/RomiChan/protobuf/internal/zzverif/ref"
	"github.com/RomiChan/protobuf/proto"
)

func exact(m interface{}, c ref.Cfg) {
	s, v := focus(m, c)
	exactOf(m, s, v)
}

func exactOf(m interface{}, s *ref.Schema, v reflect.Value) {
	want := ref.Encode(nil, s, v)
	b, err := proto.Marshal(m)
	nd.Assert(err == nil, "Marshal returned an error")
	nd.Assert(ref.SameBytes(b, want), "Marshal's output is not the encoding the specification prescribes")
	again, err := proto.Marshal(m)
	nd.Assert(err == nil, "the second Marshal returned an error")
	nd.Assert(ref.SameBytes(again, want), "the second Marshal differs")
	for i := 0; i < len(b) && i < 12; i++ {
		nd.Observe("b", uint64(b[i]))
	}
}

func H_C03_scalars() { exact(new(Scalars), cfg()) }
func H_C03_opts()    { exact(new(Opts), cfg()) }
func H_C03_ptrs()    { exact(new(Ptrs), cfg()) }
func H_C03_reps()    { exact(new(Reps), cfg()) }
func H_C03_sibs() {
	m := new(Sibs)
	c := cfg()
	c.Maps = []int{0}
	v := reflect.ValueOf(m).Elem()
	s := ref.Of(v.Type())
	k := nd.Choose(len(s.Fields))
	bg := nd.Choose(2)
	for i, f := range s.Fields {
		if f.Card == ref.Map {
			continue
		}
		if i == k {
			ref.FillAny(f, v.Field(f.Index), c)
		} else if bg == 1 {
			ref.FillSome(f, v.Field(f.Index), i)
		}
	}
	exactOf(m, s, v)
}
func H_C03_tree() { exact(new(Tree), small()) }
func H_C03_ping() { exact(new(Ping), cfg()) }

type Wide struct {
	A uint64  `protobuf:"varint,1,opt"`
	B int32   `protobuf:"varint,18,opt"`
	C int64   `protobuf:"zigzag64,3,opt"`
	D float32 `protobuf:"fixed32,4,opt"`
}

// All fields hold arbitrary values at the same time.
func H_C03_all() {
	m := &Wide{D: 1}
	if nd.Tier() > 0 {
		m.A = nd.U64()
	} else {
		m.A = uint64(nd.U16())
	}
	m.B = int32(nd.U32())
	m.C = int64(nd.U64())
	v := reflect.ValueOf(m).Elem()
	exactOf(m, ref.Of(v.Type()), v)
}

// verif: steps=60000000 samples=8
func H_C03_long() {
	o := bulky()
	nd.Assume(o.P == nil)
	v := reflect.ValueOf(o).Elem()
	exactOf(o, ref.Of(v.Type()), v)
}

// Field numbers at each step of the size of the tag, in each wire type.
type Nums struct {
	A uint32         `protobuf:"varint,15,opt"`
	B uint32         `protobuf:"varint,16,opt"`
	C uint32         `protobuf:"fixed32,2047,opt"`
	D uint64         `protobuf:"fixed64,2048,opt"`
	E string         `protobuf:"bytes,262143,opt"`
	F []byte         `protobuf:"bytes,262144,opt"`
	G *Leaf          `protobuf:"bytes,33554431,opt"`
	H []*Leaf        `protobuf:"bytes,33554432,rep"`
	I []uint32       `protobuf:"varint,536870911,rep"`
	J map[bool]*Leaf `protobuf:"bytes,536870910,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

func nums() (*Nums, *ref.Schema, reflect.Value) {
	m := new(Nums)
	v := reflect.ValueOf(m).Elem()
	s := ref.Of(v.Type())
	ref.Focus(s, v, cfg())
	return m, s, v
}

func H_C03_nums() {
	m, s, v := nums()
	nd.Assume(len(m.J) == 0)
	exactOf(m, s, v)
}

func H_C01_nums() { m, _, _ := nums(); roundTripOf(m) }
func H_C02_nums() { m, s, v := nums(); sizesOf(m, s, v) }
