package h

import (
	"reflect"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	"github.com/RomiChan/protobuf/internal/zzverif/ref"
	"github.com/RomiChan/protobuf/proto"
)

// focus fills one field of m with arbitrary contents and gives its schema.
func focus(m interface{}, c ref.Cfg) (*ref.Schema, reflect.Value) {
	v := reflect.ValueOf(m).Elem()
	s := ref.Of(v.Type())
	ref.Focus(s, v, c)
	return s, v
}

func sizes(m interface{}, c ref.Cfg) {
	s, v := focus(m, c)
	sizesOf(m, s, v)
}

func sizesOf(m interface{}, s *ref.Schema, v reflect.Value) {
	n := proto.Size(m)
	b, err := proto.Marshal(m)
	nd.Assert(err == nil, "Marshal returned an error")
	nd.Assert(n == len(b), "Size differs from the length of Marshal's output")
	out := reflect.New(v.Type())
	p := ref.Decode(b, s, out.Elem())
	nd.Assert(p.Why == ref.Valid, "a length prefix does not match what follows it")
	nd.Observe("n", uint64(n))
}

func H_C02_scalars() { sizes(new(Scalars), cfg()) }
func H_C02_opts()    { sizes(new(Opts), cfg()) }
func H_C02_ptrs()    { sizes(new(Ptrs), cfg()) }
func H_C02_reps()    { sizes(new(Reps), cfg()) }
func H_C02_maps()    { sizes(new(Maps), mapCfg()) }
func H_C02_sibs()    { sizes(new(Sibs), mapCfg2()) }
func H_C02_named()   { sizes(new(Named), cfg()) }
func H_C02_mixed()   { sizes(new(Mixed), cfg()) }
func H_C02_tree()    { sizes(new(Tree), small()) }
func H_C02_ping()    { sizes(new(Ping), cfg()) }

func mapCfg2() ref.Cfg {
	c := cfg()
	c.Maps = []int{0, 1, 2}
	return c
}

// big lists lengths around the steps of the length prefix.
func big() []int {
	l := []int{121, 122, 123, 124, 125, 126, 127, 128, 255, 256, 257, 512, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 16375, 16376, 16377, 16378, 16379, 16380, 16381, 16382, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65540}
	if nd.Tier() > 0 {
		l = append(l, 20000, 30000, 131071, 131072, 262144, 524288, 1048576, 2097144, 2097150, 2097151, 2097152)
	}
	return l
}

type Outer struct {
	A uint32            `protobuf:"varint,1,opt"`
	M *Inner            `protobuf:"bytes,2,opt"`
	R []*Inner          `protobuf:"bytes,3,rep"`
	P map[uint32]*Inner `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Inner struct {
	B []byte `protobuf:"bytes,1,opt"`
	S string `protobuf:"bytes,200,opt"`
	M *Inner `protobuf:"bytes,3,opt"`
}

// some32 is any number whose varint has one or two bytes, or any at all.
func some32() uint32 {
	if nd.Tier() > 0 {
		return nd.U32()
	}
	return uint32(nd.U8())
}

// bulky puts long contents at some place inside a message.
func bulky() *Outer {
	n := big()[nd.Choose(len(big()))]
	c := ref.Content(n)
	in := &Inner{}
	if nd.Choose(2) == 0 {
		in.B = c
	} else {
		in.S = string(c)
	}
	if nd.Choose(2) == 1 {
		in = &Inner{M: in}
	}
	o := &Outer{A: some32()}
	switch nd.Choose(3) {
	case 0:
		o.M = in
	case 1:
		o.R = []*Inner{{}, in, {S: "x"}}
	case 2:
		o.P = map[uint32]*Inner{some32(): in}
	}
	return o
}

// Contents long enough to change the size of every enclosing length prefix.
// verif: steps=60000000 samples=8
func H_C02_long() {
	o := bulky()
	v := reflect.ValueOf(o).Elem()
	sizesOf(o, ref.Of(v.Type()), v)
}

// verif: steps=60000000 samples=8
func H_C01_long() { roundTripOf(bulky()) }
