// Package g holds the harnesses over the code generator. It is given
// descriptors whose kinds, labels, numbers and comments are symbolic, and the
// text it writes is read back.
package g

import (
	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"

	"github.com/RomiChan/protobuf/internal/generator"
)

// H_ anchors the package.
func H_() {}

// fieldDesc answers for a field descriptor.
type fieldDesc struct {
	protoreflect.FieldDescriptor
	place    place
	name     protoreflect.Name
	num      protoreflect.FieldNumber
	kind     protoreflect.Kind
	card     protoreflect.Cardinality
	presence bool
	isMap    bool
	optional bool // written with the optional keyword
	packed   bool
	syntax   protoreflect.Syntax
	msg      *messageDesc
	enum     *enumDesc
	oneof    *oneofDesc
	opts     *descriptorpb.FieldOptions
}

func (d *fieldDesc) Name() protoreflect.Name               { return d.name }
func (d *fieldDesc) FullName() protoreflect.FullName       { return d.place.full(d.name) }
func (d *fieldDesc) Number() protoreflect.FieldNumber      { return d.num }
func (d *fieldDesc) Kind() protoreflect.Kind               { return d.kind }
func (d *fieldDesc) Cardinality() protoreflect.Cardinality { return d.card }
func (d *fieldDesc) HasPresence() bool                     { return d.presence }
func (d *fieldDesc) HasOptionalKeyword() bool              { return d.optional }
func (d *fieldDesc) IsMap() bool                           { return d.isMap }
func (d *fieldDesc) IsList() bool                          { return d.card == protoreflect.Repeated && !d.isMap }
func (d *fieldDesc) IsWeak() bool                          { return false }
func (d *fieldDesc) IsExtension() bool                     { return false }
func (d *fieldDesc) IsPacked() bool                        { return d.packed }
func (d *fieldDesc) IsPlaceholder() bool                   { return false }
func (d *fieldDesc) HasDefault() bool                      { return false }
func (d *fieldDesc) HasJSONName() bool                     { return false }
func (d *fieldDesc) JSONName() string                      { return string(d.name) }
func (d *fieldDesc) TextName() string                      { return string(d.name) }
func (d *fieldDesc) Syntax() protoreflect.Syntax           { return d.syntax }
func (d *fieldDesc) Options() protoreflect.ProtoMessage    { return d.opts }
func (d *fieldDesc) Message() protoreflect.MessageDescriptor {
	if d.msg == nil {
		return nil
	}
	return d.msg
}
func (d *fieldDesc) Enum() protoreflect.EnumDescriptor {
	if d.enum == nil {
		return nil
	}
	return d.enum
}
func (d *fieldDesc) ContainingOneof() protoreflect.OneofDescriptor {
	if d.oneof == nil {
		return nil
	}
	return d.oneof
}
func (d *fieldDesc) MapKey() protoreflect.FieldDescriptor {
	if !d.isMap {
		return nil
	}
	return d.msg.fields[0]
}
func (d *fieldDesc) MapValue() protoreflect.FieldDescriptor {
	if !d.isMap {
		return nil
	}
	return d.msg.fields[1]
}

type messageDesc struct {
	protoreflect.MessageDescriptor
	place  place
	of     *protogen.Message
	name   protoreflect.Name
	entry  bool
	fields []*fieldDesc
	opts   *descriptorpb.MessageOptions
	syntax protoreflect.Syntax
}

func (d *messageDesc) Name() protoreflect.Name            { return d.name }
func (d *messageDesc) FullName() protoreflect.FullName    { return d.place.full(d.name) }
func (d *messageDesc) IsMapEntry() bool                   { return d.entry }
func (d *messageDesc) IsPlaceholder() bool                { return false }
func (d *messageDesc) Syntax() protoreflect.Syntax        { return d.syntax }
func (d *messageDesc) Options() protoreflect.ProtoMessage { return d.opts }

type oneofDesc struct {
	protoreflect.OneofDescriptor
	place     place
	of        *protogen.Oneof
	name      protoreflect.Name
	synthetic bool
}

func (d *oneofDesc) Name() protoreflect.Name            { return d.name }
func (d *oneofDesc) FullName() protoreflect.FullName    { return d.place.full(d.name) }
func (d *oneofDesc) IsSynthetic() bool                  { return d.synthetic }
func (d *oneofDesc) Options() protoreflect.ProtoMessage { return (*descriptorpb.OneofOptions)(nil) }

type enumDesc struct {
	protoreflect.EnumDescriptor
	place place
	of    *protogen.Enum
	name  protoreflect.Name
	opts  *descriptorpb.EnumOptions
}

func (d *enumDesc) Name() protoreflect.Name            { return d.name }
func (d *enumDesc) FullName() protoreflect.FullName    { return d.place.full(d.name) }
func (d *enumDesc) IsPlaceholder() bool                { return false }
func (d *enumDesc) Options() protoreflect.ProtoMessage { return d.opts }

type valueDesc struct {
	protoreflect.EnumValueDescriptor
	place place
	scope protoreflect.Descriptor
	name  protoreflect.Name
	num   protoreflect.EnumNumber
	opts  *descriptorpb.EnumValueOptions
}

func (d *valueDesc) Name() protoreflect.Name { return d.name }
func (d *valueDesc) FullName() protoreflect.FullName {
	if d.scope == nil {
		return "pkg." + protoreflect.FullName(d.name)
	}
	return d.scope.FullName() + "." + protoreflect.FullName(d.name)
}
func (d *valueDesc) IsPlaceholder() bool                      { return false }
func (d *oneofDesc) IsPlaceholder() bool                      { return false }
func (d *oneofDesc) Fields() protoreflect.FieldDescriptors    { return &fieldList{of: d.of.Fields} }
func (d *enumDesc) Values() protoreflect.EnumValueDescriptors { return &valueList{of: d.of.Values} }
func (d *messageDesc) Fields() protoreflect.FieldDescriptors  { return &fieldList{of: d.of.Fields} }
func (d *messageDesc) Oneofs() protoreflect.OneofDescriptors  { return &oneofList{of: d.of.Oneofs} }
func (d *messageDesc) Enums() protoreflect.EnumDescriptors    { return &enumList{of: d.of.Enums} }
func (d *messageDesc) Messages() protoreflect.MessageDescriptors {
	return &messageList{of: d.of.Messages}
}
func (d *messageDesc) Extensions() protoreflect.ExtensionDescriptors { return noExtensions{} }
func (d *fileDesc) Enums() protoreflect.EnumDescriptors              { return &enumList{of: d.of.Enums} }
func (d *fileDesc) Messages() protoreflect.MessageDescriptors        { return &messageList{of: d.of.Messages} }
func (d *fileDesc) Extensions() protoreflect.ExtensionDescriptors    { return noExtensions{} }
func (d *fileDesc) Services() protoreflect.ServiceDescriptors        { return noServices{} }
func (d *fileDesc) Parent() protoreflect.Descriptor                  { return nil }
func (d *fileDesc) ParentFile() protoreflect.FileDescriptor          { return d }
func (d *fileDesc) Index() int                                       { return 0 }
func (d *fileDesc) IsPlaceholder() bool                              { return false }
func (d *fieldDesc) ContainingMessage() protoreflect.MessageDescriptor {
	if d.place.parent == nil {
		return nil
	}
	return d.place.parent.(protoreflect.MessageDescriptor)
}
func (d *fieldDesc) DefaultEnumValue() protoreflect.EnumValueDescriptor {
	if d.enum == nil {
		return nil
	}
	return d.enum.of.Values[0].Desc
}
func (d *fieldDesc) Default() protoreflect.Value {
	if d.card == protoreflect.Repeated {
		return protoreflect.Value{}
	}
	switch d.kind {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(false)
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(0)
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(0)
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(0)
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(0)
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(0)
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(0)
	case protoreflect.StringKind:
		return protoreflect.ValueOfString("")
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes(nil)
	case protoreflect.EnumKind:
		return protoreflect.ValueOfEnum(d.DefaultEnumValue().Number())
	}
	return protoreflect.Value{}
}
func (d *valueDesc) Number() protoreflect.EnumNumber    { return d.num }
func (d *valueDesc) Options() protoreflect.ProtoMessage { return d.opts }

type fileDesc struct {
	protoreflect.FileDescriptor
	of      *protogen.File
	path    string
	syntax  protoreflect.Syntax
	imports []protoreflect.FileImport
}

func (d *fileDesc) Path() string                       { return d.path }
func (d *fileDesc) Name() protoreflect.Name            { return "pkg" }
func (d *fileDesc) Package() protoreflect.FullName     { return "pkg" }
func (d *fileDesc) FullName() protoreflect.FullName    { return "pkg" }
func (d *fileDesc) Syntax() protoreflect.Syntax        { return d.syntax }
func (d *fileDesc) Imports() protoreflect.FileImports  { return &imports{list: d.imports} }
func (d *fileDesc) Options() protoreflect.ProtoMessage { return (*descriptorpb.FileOptions)(nil) }

type imports struct {
	protoreflect.FileImports
	list []protoreflect.FileImport
}

func (d *imports) Len() int                          { return len(d.list) }
func (d *imports) Get(i int) protoreflect.FileImport { return d.list[i] }

// options answers for the reflection of message options during symbolic
// execution.
type options struct {
	protoreflect.Message
	unknown protoreflect.RawFields
}

func (o *options) GetUnknown() protoreflect.RawFields  { return o.unknown }
func (o *options) SetUnknown(b protoreflect.RawFields) { o.unknown = b }

var optionsOf = map[*descriptorpb.MessageOptions]*options{}

// MessageOptionsReflect replaces (*descriptorpb.MessageOptions).ProtoReflect
// during symbolic execution.
func MessageOptionsReflect(m *descriptorpb.MessageOptions) protoreflect.Message {
	o := optionsOf[m]
	if o == nil {
		o = &options{}
		optionsOf[m] = o
	}
	return o
}

const here = protogen.GoImportPath("example.com/some/pkg")

// file is a proto file around the given messages and enums.
func file(ms []*protogen.Message, es []*protogen.Enum) *protogen.File {
	return &protogen.File{
		Desc: &fileDesc{path: "some/pkg.proto", syntax: protoreflect.Proto3}, GoPackageName: "pkg", GoImportPath: here,
		GoDescriptorIdent: here.Ident("File_some_pkg_proto"), GeneratedFilenamePrefix: "some/pkg", Messages: ms, Enums: es, Generate: true,
	}
}

// generate runs the generator and gives what it wrote.
func generate(f *protogen.File) *source {
	link(f)
	gen := &protogen.Plugin{Files: []*protogen.File{f}, FilesByPath: map[string]*protogen.File{f.Desc.Path(): f}}
	return read(generator.GenerateFile(gen, f))
}

// warm makes everything used later initialised before the exploration splits.
func warm() {
	m := msg("Warm")
	m.Fields = []*protogen.Field{field("Field", 1, protoreflect.Int32Kind, 0)}
	generate(file([]*protogen.Message{m}, nil))
}

func msg(name string) *protogen.Message {
	return &protogen.Message{
		Desc: &messageDesc{name: protoreflect.Name(name), syntax: protoreflect.Proto3}, GoIdent: here.Ident(name),
	}
}

// Shapes of fields.
const (
	implicit = iota // proto3, no presence
	opt3            // proto3 optional: presence and a synthetic oneof
	opt2            // proto2 optional
	required
	repeated
	packed
	shapes
)

// field is a field named name. Kinds that refer to something get a stub of it.
func field(name string, num protoreflect.FieldNumber, kind protoreflect.Kind, shape int) *protogen.Field {
	d := &fieldDesc{name: protoreflect.Name("f_" + name), num: num, kind: kind, card: protoreflect.Optional, syntax: protoreflect.Proto3}
	f := &protogen.Field{Desc: d, GoName: name, GoIdent: here.Ident("M_" + name)}
	isMsg := kind == protoreflect.MessageKind || kind == protoreflect.GroupKind
	switch shape {
	case implicit:
		d.presence = isMsg
	case opt3:
		d.presence, d.optional = true, true
		d.oneof = &oneofDesc{name: protoreflect.Name("_" + name), synthetic: true}
		f.Oneof = &protogen.Oneof{Desc: d.oneof, GoName: "X" + name, GoIdent: here.Ident("M_X" + name), Fields: []*protogen.Field{f}}
	case opt2:
		d.presence, d.optional, d.syntax = true, true, protoreflect.Proto2
	case required:
		d.presence, d.card, d.syntax = true, protoreflect.Required, protoreflect.Proto2
	case repeated:
		d.card = protoreflect.Repeated
	case packed:
		d.card, d.packed = protoreflect.Repeated, true
	}
	if isMsg {
		d.msg = &messageDesc{name: "Sub"}
		f.Message = &protogen.Message{Desc: d.msg, GoIdent: here.Ident("Sub")}
	}
	if kind == protoreflect.EnumKind {
		f.Enum = enum("Color", 3, -1)
		d.enum = f.Enum.Desc.(*enumDesc)
	}
	return f
}

func enum(name string, nums ...int32) *protogen.Enum {
	e := &protogen.Enum{Desc: &enumDesc{name: protoreflect.Name(name)}, GoIdent: here.Ident(name)}
	for i, n := range nums {
		v := name + "_" + string(rune('A'+i))
		e.Values = append(e.Values, &protogen.EnumValue{Desc: &valueDesc{name: protoreflect.Name(v), num: protoreflect.EnumNumber(n)}, GoIdent: here.Ident(v), Parent: e})
	}
	return e
}

// mapOf is a map field of m; its entry message is declared in m.
func mapOf(m *protogen.Message, name string, num protoreflect.FieldNumber, key, val protoreflect.Kind) *protogen.Field {
	f := field(name, num, protoreflect.MessageKind, repeated)
	d := f.Desc.(*fieldDesc)
	d.isMap = true
	k, v := field("Key", 1, key, implicit), field("Value", 2, val, implicit)
	d.msg = &messageDesc{name: protoreflect.Name(name + "Entry"), entry: true, fields: []*fieldDesc{k.Desc.(*fieldDesc), v.Desc.(*fieldDesc)}}
	f.Message = &protogen.Message{Desc: d.msg, GoIdent: here.Ident(m.GoIdent.GoName + "_" + name + "Entry"), Fields: []*protogen.Field{k, v}}
	m.Messages = append(m.Messages, f.Message)
	return f
}

// kinds lists every kind a field can have.
var kinds = []protoreflect.Kind{
	protoreflect.BoolKind, protoreflect.EnumKind, protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Uint32Kind,
	protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Uint64Kind, protoreflect.Sfixed32Kind, protoreflect.Fixed32Kind,
	protoreflect.FloatKind, protoreflect.Sfixed64Kind, protoreflect.Fixed64Kind, protoreflect.DoubleKind, protoreflect.StringKind,
	protoreflect.BytesKind, protoreflect.MessageKind, protoreflect.GroupKind,
}

var keyKinds = []protoreflect.Kind{
	protoreflect.BoolKind, protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Uint32Kind,
	protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Uint64Kind, protoreflect.Sfixed32Kind, protoreflect.Fixed32Kind,
	protoreflect.Sfixed64Kind, protoreflect.Fixed64Kind, protoreflect.StringKind,
}

// wire is the encoding named in the tag of a kind.
func wire(k protoreflect.Kind) string {
	switch k {
	case protoreflect.Sint32Kind:
		return "zigzag32"
	case protoreflect.Sint64Kind:
		return "zigzag64"
	case protoreflect.Sfixed32Kind, protoreflect.Fixed32Kind, protoreflect.FloatKind:
		return "fixed32"
	case protoreflect.Sfixed64Kind, protoreflect.Fixed64Kind, protoreflect.DoubleKind:
		return "fixed64"
	case protoreflect.StringKind, protoreflect.BytesKind, protoreflect.MessageKind:
		return "bytes"
	case protoreflect.GroupKind:
		return "group"
	}
	return "varint"
}

// goType is the Go type of one value of a kind.
func goType(k protoreflect.Kind) string {
	switch k {
	case protoreflect.BoolKind:
		return "bool"
	case protoreflect.EnumKind:
		return "Color"
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return "int32"
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return "uint32"
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return "int64"
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return "uint64"
	case protoreflect.FloatKind:
		return "float32"
	case protoreflect.DoubleKind:
		return "float64"
	case protoreflect.StringKind:
		return "string"
	case protoreflect.BytesKind:
		return "[]byte"
	}
	return "*Sub"
}

func scalar(k protoreflect.Kind) bool {
	return k != protoreflect.BytesKind && k != protoreflect.MessageKind && k != protoreflect.GroupKind
}
