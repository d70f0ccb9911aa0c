// Package k holds the harnesses over code written by the generator: before
// they are compiled, the plugin of the tree under test is built and run on the
// proto files of package protos.
package k

import (
	"reflect"

	common "github.com/RomiChan/protobuf/internal/zzverif/gen/other/common"
	"github.com/RomiChan/protobuf/internal/zzverif/gen/p2"
	"github.com/RomiChan/protobuf/internal/zzverif/gen/p3"
	common1 "github.com/RomiChan/protobuf/internal/zzverif/gen/third/common"
	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	"github.com/RomiChan/protobuf/internal/zzverif/protos"
	"github.com/RomiChan/protobuf/internal/zzverif/ref"
	"github.com/RomiChan/protobuf/proto"
)

// H_ anchors the package.
func H_() {}

// types are the generated types of messages by full name.
var types = map[string]reflect.Type{
	"other.Far":           reflect.TypeOf(common.Far{}),
	"third.Far":           reflect.TypeOf(common1.Far{}),
	"p3.Leaf":             reflect.TypeOf(p3.Leaf{}),
	"p3.Plain":            reflect.TypeOf(p3.Plain{}),
	"p3.Opt":              reflect.TypeOf(p3.Opt{}),
	"p3.Rep":              reflect.TypeOf(p3.Rep{}),
	"p3.Maps":             reflect.TypeOf(p3.Maps{}),
	"p3.Away":             reflect.TypeOf(p3.Away{}),
	"p3.Outer":            reflect.TypeOf(p3.Outer{}),
	"p3.Outer.Inner":      reflect.TypeOf(p3.Outer_Inner{}),
	"p3.Outer.Inner.Deep": reflect.TypeOf(p3.Outer_Inner_Deep{}),
	"p2.Leaf":             reflect.TypeOf(p2.Leaf{}),
	"p2.Opt":              reflect.TypeOf(p2.Opt{}),
	"p2.Req":              reflect.TypeOf(p2.Req{}),
	"p2.Rep":              reflect.TypeOf(p2.Rep{}),
	"p2.Maps":             reflect.TypeOf(p2.Maps{}),
}

var kinds = map[string]ref.Kind{
	"int32": ref.Int32, "int64": ref.Int64, "uint32": ref.Uint32, "uint64": ref.Uint64, "sint32": ref.Sint32, "sint64": ref.Sint64,
	"bool": ref.Bool, "fixed32": ref.Fixed32, "fixed64": ref.Fixed64, "sfixed32": ref.Sfixed32, "sfixed64": ref.Sfixed64,
	"float": ref.Float, "double": ref.Double, "string": ref.String, "bytes": ref.Bytes, "enum": ref.Int32, "message": ref.Message,
}

var goKinds = map[string]reflect.Kind{
	"int32": reflect.Int32, "int64": reflect.Int64, "uint32": reflect.Uint32, "uint64": reflect.Uint64, "sint32": reflect.Int32, "sint64": reflect.Int64,
	"bool": reflect.Bool, "fixed32": reflect.Uint32, "fixed64": reflect.Uint64, "sfixed32": reflect.Int32, "sfixed64": reflect.Int64,
	"float": reflect.Float32, "double": reflect.Float64, "string": reflect.String, "bytes": reflect.Slice, "enum": reflect.Int32, "message": reflect.Ptr,
}

// find gives the declaration of a message.
func find(full string) (*protos.M, string) {
	for i := range protos.Files {
		f := &protos.Files[i]
		if m := findIn(f.Package, f.Messages, full); m != nil {
			return m, f.Syntax
		}
	}
	panic("no message " + full)
}

func findIn(pre string, ms []protos.M, full string) *protos.M {
	for i := range ms {
		n := pre + "." + ms[i].Name
		if n == full {
			return &ms[i]
		}
		if m := findIn(n, ms[i].Sub, full); m != nil {
			return m
		}
	}
	return nil
}

// camel is the Go name of a field.
func camel(s string) string {
	var b []byte
	up := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '_' {
			up = true
			continue
		}
		if up && c >= 'a' && c <= 'z' {
			c -= 'a' - 'A'
		}
		up = false
		b = append(b, c)
	}
	return string(b)
}

var schemas = map[string]*ref.Schema{}

// schema says what the fields of a message are according to its declaration.
func schema(full string) *ref.Schema {
	if s := schemas[full]; s != nil {
		return s
	}
	t, ok := types[full]
	nd.Assert(ok, "harness: unknown message type")
	s := &ref.Schema{Type: t}
	schemas[full] = s
	m, syntax := find(full)
	for i := range m.Fields {
		d := &m.Fields[i]
		if d.Oneof != "" {
			continue
		}
		sf, ok := t.FieldByName(camel(d.Name))
		nd.Assert(ok, "a field is not in the generated struct")
		f := &ref.Field{Num: uint64(d.Num), Index: sf.Index[0], Type: sf.Type}
		presence := d.Label == "optional" || d.Label == "required" || syntax == "proto2"
		switch {
		case d.Label == "map":
			f.Card, f.Kind = ref.Map, ref.Message
			nd.Assert(sf.Type.Kind() == reflect.Map, "a map field is not a Go map")
			f.Key = element(1, d.Key, "", sf.Type.Key())
			f.Val = element(2, d.Kind, d.Ref, sf.Type.Elem())
		case d.Label == "repeated":
			nd.Assert(sf.Type.Kind() == reflect.Slice, "a repeated field is not a Go slice")
			e := element(f.Num, d.Kind, d.Ref, sf.Type.Elem())
			e.Card, e.Index, e.Type = ref.Rep, f.Index, sf.Type
			f = e
		case presence && d.Kind != "bytes" && d.Kind != "message":
			nd.Assert(sf.Type.Kind() == reflect.Struct && sf.Type.NumField() == 2, "an optional scalar is not an Option")
			e := element(f.Num, d.Kind, d.Ref, ref.OptionElem(sf.Type))
			e.Card, e.Index, e.Type = ref.Opt, f.Index, sf.Type
			f = e
		default:
			e := element(f.Num, d.Kind, d.Ref, sf.Type)
			e.Index = f.Index
			f = e
		}
		s.Fields = append(s.Fields, f)
	}
	return s
}

// element describes one value of the kind.
func element(num uint64, kind, name string, t reflect.Type) *ref.Field {
	f := &ref.Field{Num: num, Kind: kinds[kind], Elem: t, Type: t}
	nd.Assert(t.Kind() == goKinds[kind], "a field does not have the Go type of its kind")
	switch kind {
	case "bytes":
		nd.Assert(t.Elem().Kind() == reflect.Uint8, "a bytes field is not a byte slice")
	case "message":
		nd.Assert(t.Elem() == types[name], "a message field refers to another message type")
		f.Msg = schema(name)
	}
	return f
}

func warm(full string) (*ref.Schema, reflect.Value) {
	v := reflect.New(types[full]).Elem()
	proto.Size(v.Addr().Interface())
	return schema(full), v
}

func cfg() ref.Cfg {
	c := ref.Cfg{Lens: []int{0, 1, 128}, Reps: []int{0, 1, 2}, Maps: []int{0, 1, 2}, Depth: 1, Elem: true}
	if nd.Tier() > 0 {
		c = ref.Cfg{Lens: []int{0, 1, 2, 127, 128, 129}, Reps: []int{0, 1, 2, 3}, Maps: []int{0, 1, 2, 3}, Depth: 2}
	}
	return c
}

// writes requires that the runtime writes the message as its proto declares
// and reads back the same.
func writes(full string, exact bool, c ref.Cfg) {
	s, v := warm(full)
	ref.Focus(s, v, c)
	m := v.Addr().Interface()
	b, err := proto.Marshal(m)
	nd.Assert(err == nil, "Marshal returned an error")
	nd.Assert(proto.Size(m) == len(b), "Size differs from the length of Marshal's output")
	if exact {
		nd.Assert(ref.SameBytes(b, ref.Encode(nil, s, v)), "the encoding is not that of the declared kinds")
	}
	got, want := reflect.New(s.Type), reflect.New(s.Type)
	p := ref.Decode(b, s, want.Elem())
	nd.Assert(p.Why == ref.Valid, "what Marshal wrote is not an encoding of the declared message")
	nd.Assert(ref.Equal(s, v, want.Elem()), "what Marshal wrote means something else by the declared kinds")
	nd.Assert(proto.Unmarshal(b, got.Interface()) == nil, "Unmarshal rejects what Marshal wrote")
	nd.Assert(ref.Equal(s, got.Elem(), v), "the message came back different")
	nd.Observe("len", uint64(len(b)))
}

func H_C17_out_plain() { writes("p3.Plain", true, cfg()) }
func H_C17_out_opt3()  { writes("p3.Opt", true, cfg()) }
func H_C17_out_opt2()  { writes("p2.Opt", true, cfg()) }
func H_C17_out_req()   { writes("p2.Req", true, cfg()) }
func H_C17_out_rep3()  { writes("p3.Rep", true, cfg()) }
func H_C17_out_rep2()  { writes("p2.Rep", true, cfg()) }
func H_C17_out_away()  { c := cfg(); c.Maps = []int{0, 1}; writes("p3.Away", true, c) }
func H_C17_out_outer() {
	c := cfg()
	c.Depth = 2
	c.Maps = []int{0, 1}
	c.Lens = []int{1}
	writes("p3.Outer", true, c)
}
func H_C17_out_third() { writes("third.Far", true, cfg()) }
func H_C17_out_maps3() { c := cfg(); c.Bare = true; c.Lens = []int{0, 2}; writes("p3.Maps", false, c) }
func H_C17_out_maps2() { c := cfg(); c.Bare = true; c.Lens = []int{0, 2}; writes("p2.Maps", false, c) }

func wcfg() ref.W {
	w := ref.W{Varints: []int{1, 2, 5, 10}, Lens: []int{0, 1, 3}, Depth: 1, Subs: 2, Entries: 6}
	if nd.Tier() > 0 {
		w.Varints = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
		w.Lens = []int{0, 1, 2, 3, 127, 128}
	}
	return w
}

// reads requires that the runtime reads a record of any field as declared.
func reads(full string, w ref.W) {
	s, _ := warm(full)
	b := w.Record(s.Fields[nd.Choose(len(s.Fields))])
	want, got := reflect.New(s.Type), reflect.New(s.Type)
	p := ref.Decode(b, s, want.Elem())
	nd.Assume(p.Why == ref.Valid)
	nd.Reach("valid")
	nd.Assert(proto.Unmarshal(b, got.Interface()) == nil, "Unmarshal rejects a record of the declared kind")
	nd.Assert(ref.Equal(s, got.Elem(), want.Elem()), "Unmarshal gives another value than the declared kind")
	nd.Observe("sum", ref.Sum(s, got.Elem()))
}

// verif: reach=valid
func H_C17_in_plain() { reads("p3.Plain", wcfg()) }

// verif: reach=valid
func H_C17_in_opt3() { reads("p3.Opt", wcfg()) }

// verif: reach=valid
func H_C17_in_opt2() { reads("p2.Opt", wcfg()) }

// verif: reach=valid
func H_C17_in_req() { reads("p2.Req", wcfg()) }

// verif: reach=valid
func H_C17_in_rep3() { reads("p3.Rep", wcfg()) }

// verif: reach=valid
func H_C17_in_rep2() { reads("p2.Rep", wcfg()) }

// verif: reach=valid
func H_C17_in_away() { reads("p3.Away", wcfg()) }

// verif: reach=valid
func H_C17_in_outer() { w := wcfg(); w.Depth = 2; w.Subs = 1; reads("p3.Outer", w) }

// verif: reach=valid
func H_C17_in_maps3() { w := wcfg(); w.Varints = []int{2, 10}; reads("p3.Maps", w) }

// verif: reach=valid
func H_C17_in_maps2() { w := wcfg(); w.Varints = []int{2, 10}; reads("p2.Maps", w) }
