package g

import (
	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
)

// Three messages and two enums, nested in any way; each message has a field of some kind.
func H_C22_tree() {
	warm()
	a, b, c := msg("A"), msg("B"), msg("C")
	f := file([]*protogen.Message{a}, nil)
	put := func(m *protogen.Message, k int) {
		ps := []*protogen.Message{a, b}
		if k == 0 {
			f.Messages = append(f.Messages, m)
		} else {
			ps[k-1].Messages = append(ps[k-1].Messages, m)
		}
	}
	ms := []*protogen.Message{a, b, c}
	// A map's entry is a nested message too, before the others or after them.
	early := nd.Bool()
	if early {
		fills(ms)
	}
	put(b, nd.Choose(2))
	put(c, nd.Choose(3))
	for i := 0; i < 2; i++ {
		e := enum([]string{"E", "F"}[i], int32(i))
		if k := nd.Choose(4); k == 0 {
			f.Enums = append(f.Enums, e)
		} else {
			ms[k-1].Enums = append(ms[k-1].Enums, e)
		}
	}
	if !early {
		fills(ms)
	}
	s := generate(f)
	once(s, "A", "B", "C")
	nd.Assert(len(s.types) == 5, "there are types that were not declared")
	nd.Assert(s.typeNamed("E").kind == "int32" && s.typeNamed("F").kind == "int32", "an enum is not an int32")
	nd.Assert(len(s.consts) == 2, "an enum value is not declared once")
	for _, m := range ms {
		fields(s, m)
	}
}

func fills(ms []*protogen.Message) {
	for _, m := range ms {
		fill(m, nd.Choose(4))
	}
}

// fill gives a message fields.
func fill(m *protogen.Message, k int) {
	switch k {
	case 1:
		m.Fields = []*protogen.Field{field("X", 1, protoreflect.Int32Kind, implicit), field("Y", 2, protoreflect.MessageKind, implicit)}
	case 2:
		m.Fields = []*protogen.Field{field("X", 1, protoreflect.Int32Kind, repeated), field("Y", 2, protoreflect.DoubleKind, opt3)}
	case 3:
		m.Fields = []*protogen.Field{mapOf(m, "X", 1, protoreflect.BoolKind, protoreflect.Int32Kind)}
	}
}

// once requires that every message is declared, as a struct that cannot be compared.
func once(s *source, names ...string) {
	for _, n := range names {
		d := s.typeNamed(n)
		nd.Assert(d.kind == "struct" && !d.alias, "a message is not a struct")
		nd.Assert(!d.comparable(), "messages can be compared with ==")
	}
}

// fields requires that the fields of a message are declared in their order.
func fields(s *source, m *protogen.Message) {
	d := s.typeNamed(m.GoIdent.GoName)
	n := 0
	for _, f := range d.fields {
		if f.tag == "" {
			nd.Assert(f.name == "_", "there is a field that was not declared")
			continue
		}
		nd.Assert(n < len(m.Fields) && m.Fields[n].GoName == f.name, "the fields are not those of the message in their order")
		n++
	}
	nd.Assert(n == len(m.Fields), "a field is not declared")
}

// Messages cannot be compared, whatever their fields are.
func H_C22_compare() {
	warm()
	m, q := msg("A"), msg("B")
	for i := nd.Choose(3); i > 0; i-- {
		ks := several
		if nd.Tier() > 0 {
			ks = kinds
		}
		k := ks[nd.Choose(len(ks))]
		m.Fields = append(m.Fields, field("Fld"+string(rune('0'+i)), 3, k, shape(k)))
	}
	fill(q, nd.Choose(4))
	ms := []*protogen.Message{m, q}
	if nd.Bool() {
		ms = []*protogen.Message{q, m}
	}
	s := generate(file(ms, nil))
	once(s, "A", "B")
	fields(s, m)
	fields(s, q)
}

// text is any comment of n characters as found in proto files.
func text(n int) protogen.Comments {
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.U8()
		nd.Assume(nd.Or(b[i] == '\n', nd.And(b[i] >= ' ', b[i] < 0x7f)))
	}
	return protogen.Comments(b)
}

// Comments and deprecation marks never change what is declared.
func H_C22_comments() {
	warm()
	n := 5
	if nd.Tier() > 0 {
		n = 7
	}
	a, e := msg("A"), enum("E", 7, -8)
	x := field("X", 12, protoreflect.Sint32Kind, opt3)
	y := field("Y", 13, protoreflect.EnumKind, repeated)
	z := field("Z", 14, protoreflect.StringKind, opt3)
	a.Fields = []*protogen.Field{x, y, z}
	o := inOneof("One", z)
	a.Oneofs = []*protogen.Oneof{o, x.Oneof}
	f := file([]*protogen.Message{a}, []*protogen.Enum{e})
	yes := true
	dep := nd.Bool()
	t := text(nd.Choose(n + 1))
	switch nd.Choose(9) {
	case 0:
		a.Comments.Leading = t
		if dep {
			a.Desc.(*messageDesc).opts = &descriptorpb.MessageOptions{Deprecated: &yes}
		}
	case 1:
		x.Comments.Leading = t
		if dep {
			x.Desc.(*fieldDesc).opts = &descriptorpb.FieldOptions{Deprecated: &yes}
		}
	case 2:
		x.Comments.Trailing = t
	case 3:
		e.Comments.Leading = t
		if dep {
			e.Desc.(*enumDesc).opts = &descriptorpb.EnumOptions{Deprecated: &yes}
		}
	case 4:
		e.Values[0].Comments.Leading = t
		if dep {
			e.Values[0].Desc.(*valueDesc).opts = &descriptorpb.EnumValueOptions{Deprecated: &yes}
		}
	case 5:
		e.Values[0].Comments.Trailing = t
	case 6:
		o.Comments.Leading = t
	case 7:
		z.Comments.Leading, y.Comments.Trailing = t, t
		if dep {
			z.Desc.(*fieldDesc).opts = &descriptorpb.FieldOptions{Deprecated: &yes}
		}
	case 8:
		z.Comments.Trailing = t
		x.Comments.LeadingDetached = []protogen.Comments{t}
	}
	s := generate(f)
	once(s, "A")
	d := s.typeNamed("A")
	nd.Assert(len(s.types) == 4 && len(d.fields) >= 3, "comments change the declarations")
	d.fields[0].is(s, "X", 12, protoreflect.Sint32Kind, opt3)
	nd.Assert(d.fields[1].name == "Y" && d.fields[1].typ == "[]Color", "comments change a field")
	nd.Assert(d.fields[2].name == "One", "comments change a oneof")
	w := s.typeNamed("M_Z")
	nd.Assert(len(w.fields) == 1 && w.fields[0].name == "Z" && w.fields[0].typ == "string", "comments change the wrapper of a member")
	nd.Assert(len(s.consts) == 2 && s.consts[0].val == "7" && s.consts[1].val == "-8", "comments change an enum")
}
