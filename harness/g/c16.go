package g

import (
	"bytes"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/reflect/protoreflect"

	"google.golang.org/protobuf/types/descriptorpb"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
)

// number is any field number that proto files may use.
func number() uint32 {
	n := nd.U32()
	nd.Assume(nd.And(nd.And(n >= 1, n < 1<<29), nd.Or(n < 19000, n > 19999)))
	return n
}

func num(n uint32) protoreflect.FieldNumber { return protoreflect.FieldNumber(n) }

// shape is any shape the kind can have.
func shape(k protoreflect.Kind) int {
	n := nd.Choose(shapes)
	if k == protoreflect.GroupKind {
		nd.Assume(n != implicit && n != opt3)
	}
	if n == packed {
		nd.Assume(scalar(k) && k != protoreflect.StringKind)
	}
	return n
}

func wantType(s *source, k protoreflect.Kind, sh int) string {
	t := goType(k)
	switch sh {
	case repeated, packed:
		return "[]" + t
	case implicit:
		return t
	}
	if !scalar(k) {
		return t
	}
	return string(s.imports["github.com/RomiChan/protobuf/proto"]) + ".Option[" + t + "]"
}

func label(sh int) string {
	switch sh {
	case repeated, packed:
		return "rep"
	case required:
		return "req"
	}
	return "opt"
}

// is requires that a field is declared for the kind and shape.
func (f *fieldDecl) is(s *source, name string, n uint32, k protoreflect.Kind, sh int) {
	nd.Assert(f.name == name, "a field has another name")
	nd.Assert(f.typ == wantType(s, k, sh), "a field does not have the Go type of its kind")
	tag, ok := lookup(f.tag, "protobuf")
	nd.Assert(ok, "a field has no protobuf tag")
	tagIs(tag, wire(k), uint64(n), label(sh))
	_, ok = lookup(f.tag, "protobuf_key")
	nd.Assert(!ok, "a field that is no map has a key tag")
}

// A message with one field of any kind, shape and number.
func H_C16_field() {
	warm()
	k := kinds[nd.Choose(len(kinds))]
	sh := shape(k)
	n := number()
	m := msg("M")
	m.Fields = []*protogen.Field{field("Fld", num(n), k, sh)}
	s := generate(file([]*protogen.Message{m}, nil))
	nd.Assert(s.pkg == "pkg", "the generated file belongs to another package")
	nd.Assert(len(s.types) == 1, "there are types that were not declared")
	d := s.typeNamed("M")
	nd.Assert(d.kind == "struct" && !d.alias && len(d.fields) >= 1, "a message is not a struct with its fields")
	d.fields[0].is(s, "Fld", n, k, sh)
	for _, f := range d.fields[1:] {
		nd.Assert(f.tag == "" && f.name == "_", "there are fields that were not declared")
	}
}

// A map field with any key and value kind and number.
func H_C16_map() {
	warm()
	k := keyKinds[nd.Choose(len(keyKinds))]
	v := kinds[nd.Choose(len(kinds)-1)] // no groups
	n := number()
	m := msg("M")
	m.Fields = []*protogen.Field{mapOf(m, "Fld", num(n), k, v)}
	s := generate(file([]*protogen.Message{m}, nil))
	nd.Assert(len(s.types) == 1, "there are types that were not declared")
	d := s.typeNamed("M")
	nd.Assert(d.kind == "struct" && len(d.fields) == 1, "a message is not a struct with its fields")
	f := d.fields[0]
	nd.Assert(f.name == "Fld", "a field has another name")
	nd.Assert(f.typ == "map["+goType(k)+"]"+goType(v), "a map field does not have the Go type of its kinds")
	f.mapTags(n, k, v)
}

func (f *fieldDecl) mapTags(n uint32, k, v protoreflect.Kind) {
	tag, ok := lookup(f.tag, "protobuf")
	nd.Assert(ok, "a field has no protobuf tag")
	tagIs(tag, "bytes", uint64(n), "rep")
	tag, ok = lookup(f.tag, "protobuf_key")
	nd.Assert(ok, "a map field has no key tag")
	tagIs(tag, wire(k), 1, "opt")
	tag, ok = lookup(f.tag, "protobuf_val")
	nd.Assert(ok, "a map field has no value tag")
	tagIs(tag, wire(v), 2, "opt")
}

// An enum with values of any number, at the top or nested.
func H_C16_enum() {
	warm()
	// the numbers, by sign and magnitude
	var nums []int32
	var mags []uint32
	var negs []bool
	one := nd.Choose(3)
	for i := 0; i < 3; i++ {
		mag, neg := uint32(i*100), i == 1
		if i == one {
			mag, neg = nd.U32(), nd.Bool()
			if neg {
				nd.Assume(nd.And(mag >= 1, mag <= 1<<31))
			} else {
				nd.Assume(mag < 1<<31)
			}
		}
		n := int32(mag)
		if neg {
			n = int32(-mag)
		}
		nums, mags, negs = append(nums, n), append(mags, mag), append(negs, neg)
	}
	k := nd.Choose(3) + 1
	nums = nums[:k]
	e := enum("Color", nums...)
	m := msg("M")
	f := file([]*protogen.Message{m}, nil)
	if nd.Bool() {
		m.Enums = []*protogen.Enum{e}
	} else {
		f.Enums = []*protogen.Enum{e}
	}
	s := generate(f)
	nd.Assert(len(s.types) == 2, "there are types that were not declared")
	d := s.typeNamed("Color")
	nd.Assert(d.kind == "int32", "an enum is not an int32")
	nd.Assert(len(s.consts) == len(nums), "an enum does not have its values")
	for i, c := range s.consts {
		nd.Assert(c.name == "Color_"+string(rune('A'+i)), "an enum value has another name")
		nd.Assert(c.typ == "Color" || c.typ == "", "an enum value has another type")
		n, neg := decimal(c.val)
		nd.Assert(nd.And(n == uint64(mags[i]), neg == negs[i]), "an enum value has another number")
	}
}

// several kinds that differ in type, encoding and presence.
var several = []protoreflect.Kind{protoreflect.BoolKind, protoreflect.Sint32Kind, protoreflect.Fixed64Kind, protoreflect.BytesKind, protoreflect.MessageKind, protoreflect.EnumKind}

// Three fields of different kinds and shapes, one possibly a map.
func H_C16_three() {
	warm()
	m := msg("M")
	var ks [3]protoreflect.Kind
	var ss [3]int
	var ns [3]uint32
	mp := nd.Choose(4)
	top := uint32(10)
	if nd.Tier() > 0 {
		top = 100
	}
	for i := range ks {
		ns[i] = nd.U32()
		nd.Assume(nd.And(ns[i] >= 1, ns[i] < top))
		name := "Fld" + string(rune('0'+i))
		if mp == i {
			m.Fields = append(m.Fields, mapOf(m, name, num(ns[i]), protoreflect.Sint64Kind, protoreflect.Fixed32Kind))
			continue
		}
		ks[i] = several[nd.Choose(len(several))]
		ss[i] = []int{implicit, opt3, repeated}[nd.Choose(3)]
		m.Fields = append(m.Fields, field(name, num(ns[i]), ks[i], ss[i]))
	}
	s := generate(file([]*protogen.Message{m}, nil))
	d := s.typeNamed("M")
	nd.Assert(len(s.types) == 1 && len(d.fields) >= 3, "a message is not a struct with its fields")
	for i, f := range d.fields {
		name := "Fld" + string(rune('0'+i))
		switch {
		case i > 2:
			nd.Assert(f.tag == "" && f.name == "_", "there are fields that were not declared")
		case mp == i:
			nd.Assert(f.name == name && f.typ == "map[int64]uint32", "a map field does not have the Go type of its kinds")
			f.mapTags(ns[i], protoreflect.Sint64Kind, protoreflect.Fixed32Kind)
		default:
			f.is(s, name, ns[i], ks[i], ss[i])
		}
	}
}

// inOneof makes a oneof of the fields.
func inOneof(name string, fs ...*protogen.Field) *protogen.Oneof {
	d := &oneofDesc{name: protoreflect.Name("o_" + name)}
	o := &protogen.Oneof{Desc: d, GoName: name, GoIdent: here.Ident("M_" + name), Fields: fs}
	for _, f := range fs {
		f.Oneof = o
		x := f.Desc.(*fieldDesc)
		x.oneof, x.presence, x.optional = d, true, false
	}
	return o
}

// The members of oneofs are declared in wrapper types, without Option.
func H_C16_oneof() {
	warm()
	k := kinds[nd.Choose(len(kinds))]
	n := number()
	m := msg("M")
	a, b, c := field("Aa", num(n), k, opt3), field("Bb", 5, protoreflect.StringKind, opt3), field("Cc", 7, protoreflect.Sint32Kind, opt3)
	p := field("Pp", 9, protoreflect.Int64Kind, opt3)
	m.Oneofs = []*protogen.Oneof{inOneof("One", b, a), inOneof("Two", c), p.Oneof}
	switch nd.Choose(3) {
	case 0:
		m.Fields = []*protogen.Field{b, p, a, c}
	case 1:
		m.Fields = []*protogen.Field{p, b, a, c}
	case 2:
		m.Fields = []*protogen.Field{b, c, a, p}
	}
	s := generate(file([]*protogen.Message{m}, nil))
	d := s.typeNamed("M")
	got := map[string]int{}
	for _, f := range d.fields {
		got[f.name]++
		switch f.name {
		case "One", "Two":
			tag, ok := lookup(f.tag, "protobuf_oneof")
			nd.Assert(ok && tag == "o_"+f.name, "the field of a oneof has another tag")
			_, ok = lookup(f.tag, "protobuf")
			nd.Assert(!ok, "the field of a oneof has a protobuf tag")
			i := s.typeNamed(f.typ)
			nd.Assert(i.kind == "interface", "the field of a oneof is not an interface")
			for _, w := range []struct{ t, o string }{{"M_Aa", "One"}, {"M_Bb", "One"}, {"M_Cc", "Two"}} {
				has := 0
				for _, x := range s.methods {
					if x.recv == w.t && x.name == i.fields[0].name {
						has++
					}
				}
				nd.Assert(has == 1 == (w.o == f.name) && has < 2, "a member does not belong to its oneof, or belongs to another")
			}
		case "Pp":
			f.is(s, "Pp", 9, protoreflect.Int64Kind, opt3)
		default:
			nd.Assert(f.tag == "" && f.name == "_", "there are fields that were not declared")
		}
	}
	nd.Assert(got["One"] == 1 && got["Two"] == 1 && got["Pp"] == 1, "the struct lacks a field or has it twice")
	for _, w := range []struct {
		name string
		k    protoreflect.Kind
		n    uint32
	}{{"Aa", k, n}, {"Bb", protoreflect.StringKind, 5}, {"Cc", protoreflect.Sint32Kind, 7}} {
		t := s.typeNamed("M_" + w.name)
		nd.Assert(t.kind == "struct" && len(t.fields) == 1, "the wrapper of a member is not a struct with one field")
		f := t.fields[0]
		nd.Assert(f.name == w.name && f.typ == goType(w.k), "a member does not have the Go type of its kind")
		tag, ok := lookup(f.tag, "protobuf")
		nd.Assert(ok, "a member has no protobuf tag")
		tagIs(tag, wire(w.k), uint64(w.n), "opt")
	}
}

// Types declared in other files are named through their package, packages with
// the same base name being kept apart.
func H_C16_refs() {
	warm()
	pkgs := []protogen.GoImportPath{here, "example.com/other/pkg", "example.com/third/common", "example.com/fourth/common", "example.com/x/type", "example.com/proto"}
	m := msg("M")
	var want []string
	var from []protogen.GoImportPath
	for i := 0; i < 3; i++ {
		name := "Fld" + string(rune('0'+i))
		p := pkgs[nd.Choose(len(pkgs))]
		var f *protogen.Field
		t := "Far" + string(rune('0'+i))
		sh := []int{implicit, opt3, repeated}[nd.Choose(3)]
		if i == 1 {
			f = field(name, 3, protoreflect.EnumKind, sh)
			f.Enum.GoIdent = p.Ident(t)
		} else {
			f = field(name, 4, protoreflect.MessageKind, sh)
			f.Message.GoIdent = p.Ident(t)
		}
		m.Fields = append(m.Fields, f)
		from = append(from, p)
		want = append(want, t)
	}
	s := generate(file([]*protogen.Message{m}, nil))
	d := s.typeNamed("M")
	nd.Assert(len(d.fields) >= 3, "a message is not a struct with its fields")
	seen := map[string]protogen.GoImportPath{}
	for i := range want {
		q := want[i]
		if from[i] != here {
			alias := string(s.imports[from[i]])
			nd.Assert(alias != "", "a package is used but not imported")
			nd.Assert(seen[alias] == "" || seen[alias] == from[i], "two packages share a name")
			seen[alias] = from[i]
			q = alias + "." + q
		}
		if i != 1 {
			q = "*" + q
		}
		switch x := m.Fields[i].Desc; {
		case x.IsList():
			q = "[]" + q
		case i == 1 && x.HasPresence():
			q = string(s.imports["github.com/RomiChan/protobuf/proto"]) + ".Option[" + q + "]"
		}
		nd.Assert(d.fields[i].typ == q, "a field does not name the type of the other package")
	}
}

// Maps whose values are declared elsewhere.
func H_C16_mapref() {
	warm()
	k := []protoreflect.Kind{protoreflect.EnumKind, protoreflect.MessageKind}[nd.Choose(2)]
	m := msg("M")
	f := mapOf(m, "Fld", 1, protoreflect.BoolKind, k)
	p := protogen.GoImportPath("example.com/other/pkg")
	star := "*"
	if k == protoreflect.EnumKind {
		f.Message.Fields[1].Enum.GoIdent = p.Ident("Far")
		star = ""
	} else {
		f.Message.Fields[1].Message.GoIdent = p.Ident("Far")
	}
	m.Fields = []*protogen.Field{f}
	s := generate(file([]*protogen.Message{m}, nil))
	nd.Assert(s.typeNamed("M").fields[0].typ == "map[bool]"+star+string(s.imports[p])+".Far", "a map field does not have the Go type of its kinds")
	nd.Assert(len(s.imports) == 1, "a package is imported that is not used")
}

// Messages marked for field tracking keep the tags of their fields.
func H_C16_tracked() {
	warm()
	k := kinds[nd.Choose(len(kinds))]
	sh := shape(k)
	n := number()
	nd.Assume(n < 1000)
	m := msg("M")
	o := new(descriptorpb.MessageOptions)
	var b []byte
	tracked := false
	for i := nd.Choose(3); i > 0; i-- {
		switch nd.Choose(4) {
		case 0:
			v := nd.U8() & 0x7f
			b = append(b, 0xa8, 0xe0, 0xcd, 0x8e, 0x01, v) // the option
			tracked = v != 0
		case 3:
			v := nd.U8() & 0x7f
			b = append(b, 0xa8, 0xe0, 0xcd, 0x8e, 0x01, 0x80, v)
			tracked = v != 0
		case 1:
			b = append(b, 0xf8, 0x3f, nd.U8()|0x80, nd.U8()&0x7f)
		case 2:
			b = append(b, 0xfa, 0x3f, 2, nd.U8(), nd.U8())
		}
	}
	o.ProtoReflect().SetUnknown(b)
	m.Desc.(*messageDesc).opts = o
	m.Fields = []*protogen.Field{field("Fld", num(n), k, sh)}
	one := nd.Bool()
	if one {
		z, u := field("Z", 2000, protoreflect.StringKind, opt3), field("U", 2001, protoreflect.Int64Kind, opt3)
		o := inOneof("One", z, u)
		m.Fields = append(m.Fields, z, u)
		m.Oneofs = []*protogen.Oneof{o}
	}
	g := generated(file([]*protogen.Message{m}, nil))
	pragmas(raw(g), tracked, one)
	s := read(g)
	d := s.typeNamed("M")
	d.fields[0].is(s, "Fld", n, k, sh)
	marked(d.fields[0], tracked)
	if one {
		marked(d.fields[1], tracked)
		marked(s.typeNamed("M_Z").fields[0], tracked)
		marked(s.typeNamed("M_U").fields[0], tracked)
	}
}

// pragmas requires that getters carry the pragma that goes with tracking, and
// that the pragma stands nowhere else, where the compiler would reject it.
func pragmas(b []byte, tracked, one bool) {
	getters, pending := 0, 0
	for len(b) > 0 {
		line := b
		if n := bytes.IndexByte(b, '\n'); n >= 0 {
			line, b = b[:n], b[n+1:]
		} else {
			b = nil
		}
		getter := bytes.HasPrefix(line, []byte("func (")) && bytes.Contains(line, []byte(") Get"))
		switch {
		case string(line) == "//go:nointerface":
			pending++
		case len(line) == 0 || bytes.HasPrefix(line, []byte("//")):
		case getter:
			getters++
			nd.Assert(nd.Or(nd.And(tracked, pending == 1), nd.And(!tracked, pending == 0)), "a getter has a nointerface pragma against what the message says")
			pending = 0
		default:
			nd.Assert(pending == 0, "there is a nointerface pragma where no getter follows")
		}
	}
	nd.Assert(pending == 0, "there is a nointerface pragma where no getter follows")
	nd.Assert(one == (getters == 3), "getters are missing")
}

// marked requires that a field has the mark of field tracking or not.
func marked(f *fieldDecl, tracked bool) {
	v, ok := lookup(f.tag, "go")
	nd.Assert(ok == tracked, "a field is marked for tracking against what the message says")
	nd.Assert(nd.Or(!ok, v == "track"), "the mark of tracking is another")
}
