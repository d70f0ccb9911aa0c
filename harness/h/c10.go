package h

import (
	"reflect"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	"github.com/RomiChan/protobuf/internal/zzverif/ref"
	"github.com/RomiChan/protobuf/proto"
)

// present reports whether a singular field holds something that is written.
func present(f *ref.Field, v reflect.Value) bool {
	switch f.Card {
	case ref.Opt:
		some, _ := ref.Get(v)
		return some
	case ref.Ptr:
		return !v.IsNil()
	}
	switch f.Kind {
	case ref.String:
		return v.Len() > 0
	case ref.Bytes, ref.Message:
		return !v.IsNil()
	}
	return ref.NonZero(f.Kind, v)
}

// presence requires one record per present field and none per absent one, and
// that decoding gives the same presence back.
func presence(m interface{}, c ref.Cfg) {
	warm(m)
	s, v := focus(m, c)
	b, err := proto.Marshal(m)
	nd.Assert(err == nil, "Marshal returned an error")
	rs, ok := ref.Split(b)
	nd.Assert(ok, "Marshal's output is malformed")
	out := reflect.New(v.Type())
	nd.Assert(proto.Unmarshal(b, out.Interface()) == nil, "Unmarshal rejects what Marshal wrote")
	for _, f := range s.Fields {
		if f.Card == ref.Rep || f.Card == ref.Map {
			continue
		}
		x, y := v.Field(f.Index), out.Elem().Field(f.Index)
		n := ref.Count(rs, f.Num)
		if present(f, x) {
			nd.Reach("present")
			nd.Assert(n == 1, "a present field is not written exactly once")
			nd.Assert(present(f, y), "a present field comes back absent")
			nd.Assert(ref.EqualField(f, y, x), "a present field comes back with another value")
		} else {
			nd.Reach("absent")
			nd.Assert(n == 0, "an absent field is written")
			nd.Assert(!present(f, y), "an absent field comes back present")
		}
	}
	nd.Observe("n", uint64(len(rs)))
}

// verif: reach=present,absent
func H_C10_scalars() { presence(new(Scalars), cfg()) }

// verif: reach=present,absent
func H_C10_opts() { presence(new(Opts), cfg()) }

// verif: reach=present,absent
func H_C10_ptrs() { presence(new(Ptrs), cfg()) }

// verif: reach=present,absent
func H_C10_mixed() { presence(new(Mixed), mapCfg3()) }

// verif: reach=present,absent
func H_C10_small() { presence(new(Small), small()) }

// verif: reach=present,absent
func H_C10_sibs() { presence(new(Sibs), mapCfg3()) }

// verif: reach=present,absent
func H_C10_named() { presence(new(Named), mapCfg3()) }

// verif: reach=present,absent
func H_C10_tree() { presence(new(Tree), small()) }

// verif: reach=present,absent
func H_C10_ping() { presence(new(Ping), cfg()) }

func mapCfg3() ref.Cfg {
	c := small()
	c.Maps = []int{0, 1}
	c.Reps = []int{0, 1}
	c.Bare = true
	return c
}

// A record with any value, zero and empty included, makes the field present;
// a field without record stays absent.
func decodePresence(m interface{}) {
	t := warm(m)
	s := ref.Of(t)
	k := nd.Choose(len(s.Fields))
	w := wcfg()
	w.Varints = []int{1, 2, 10}
	b := w.Record(s.Fields[k])
	nd.Assert(proto.Unmarshal(b, m) == nil, "Unmarshal rejects a valid record")
	v := reflect.ValueOf(m).Elem()
	for i, f := range s.Fields {
		x := v.Field(f.Index)
		if i != k {
			if f.Card == ref.Rep || f.Card == ref.Map {
				nd.Assert(x.Len() == 0, "a field without record is not empty")
			} else {
				nd.Assert(!present(f, x), "a field without record is present")
			}
			continue
		}
		if f.Card == ref.Opt || f.Card == ref.Ptr || f.Card == ref.Plain && (f.Kind == ref.Bytes || f.Kind == ref.Message) {
			nd.Assert(present(f, x), "a field with a record is absent")
		}
	}
	nd.Observe("sum", ref.Sum(s, v))
}

func H_C10_dec_scalars() { decodePresence(new(Scalars)) }
func H_C10_dec_opts()    { decodePresence(new(Opts)) }
func H_C10_dec_ptrs()    { decodePresence(new(Ptrs)) }
func H_C10_dec_small()   { decodePresence(new(Small)) }
func H_C10_dec_mixed()   { decodePresence(new(Mixed)) }

// Presence inside embedded messages, elements and map values.
func H_C10_inner() {
	in := new(Pres)
	warm(new(PresOuter))
	s, v := focus(in, small())
	o := &PresOuter{}
	k := nd.Choose(3)
	switch k {
	case 0:
		o.A = in
	case 1:
		o.B = []*Pres{{}, in}
	case 2:
		o.C = map[string]*Pres{"k": in}
	}
	b, err := proto.Marshal(o)
	nd.Assert(err == nil, "Marshal returned an error")
	p := new(PresOuter)
	nd.Assert(proto.Unmarshal(b, p) == nil, "Unmarshal rejects what Marshal wrote")
	nd.Assert((p.A != nil) == (k == 0) && len(p.B) == len(o.B) && len(p.C) == len(o.C), "an embedded message is lost or invented")
	got := p.A
	switch k {
	case 1:
		got = p.B[1]
	case 2:
		got = p.C["k"]
	}
	nd.Assert(got != nil, "an embedded message is lost")
	nd.Assert(ref.Equal(s, reflect.ValueOf(got).Elem(), v), "presence or value inside an embedded message differs")
}

type Pres struct {
	A proto.Option[string]  `protobuf:"bytes,1,opt"`
	B proto.Option[float64] `protobuf:"fixed64,2,opt"`
	C proto.Option[bool]    `protobuf:"varint,3,opt"`
	D *int32                `protobuf:"varint,4,opt"`
	E *bool                 `protobuf:"varint,5,opt"`
	F []byte                `protobuf:"bytes,6,opt"`
	G float32               `protobuf:"fixed32,7,opt"`
	H *Leaf                 `protobuf:"bytes,8,opt"`
	I proto.Option[int32]   `protobuf:"zigzag32,9,req"`
	J *string               `protobuf:"bytes,10,opt"`
	K *uint64               `protobuf:"fixed64,11,opt"`
}

type PresOuter struct {
	A *Pres            `protobuf:"bytes,1,opt"`
	B []*Pres          `protobuf:"bytes,2,rep"`
	C map[string]*Pres `protobuf:"bytes,3,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}
