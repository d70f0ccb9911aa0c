package g

import (
	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
)

// place is where a declaration stands.
type place struct {
	file   *fileDesc
	parent protoreflect.Descriptor
	index  int
}

func (p *place) at(f *fileDesc, parent protoreflect.Descriptor, i int) { *p = place{f, parent, i} }

func (p *place) in() protoreflect.FileDescriptor {
	if p.file == nil {
		return nil
	}
	return p.file
}

func (p *place) full(n protoreflect.Name) protoreflect.FullName {
	if p.parent == nil {
		return "pkg." + protoreflect.FullName(n)
	}
	return p.parent.FullName() + "." + protoreflect.FullName(n)
}

// link completes the descriptors of a file: what they say of each other.
func link(f *protogen.File) {
	d := f.Desc.(*fileDesc)
	d.of = f
	if f.Proto == nil {
		name, pkg, syntax := d.path, "pkg", "proto3"
		f.Proto = &descriptorpb.FileDescriptorProto{Name: &name, Package: &pkg, Syntax: &syntax}
	}
	for i, e := range f.Enums {
		linkEnum(d, d, i, e)
	}
	for i, m := range f.Messages {
		linkMessage(d, d, i, m)
	}
	for _, m := range f.Messages {
		linkRefs(d, m)
	}
}

func linkEnum(f *fileDesc, p protoreflect.Descriptor, i int, e *protogen.Enum) {
	d := e.Desc.(*enumDesc)
	d.place.at(f, p, i)
	d.of = e
	for j, v := range e.Values {
		v.Parent = e
		// Values stand beside their enum.
		x := v.Desc.(*valueDesc)
		x.place.at(f, d, j)
		x.scope = p
	}
}

func linkMessage(f *fileDesc, p protoreflect.Descriptor, i int, m *protogen.Message) {
	d := m.Desc.(*messageDesc)
	d.place.at(f, p, i)
	d.of = m
	for j, x := range m.Fields {
		x.Parent = m
		fd := x.Desc.(*fieldDesc)
		fd.place.at(f, d, j)
		if x.Oneof != nil {
			known := false
			for _, o := range m.Oneofs {
				known = known || o == x.Oneof
			}
			if !known {
				m.Oneofs = append(m.Oneofs, x.Oneof)
			}
		}
	}
	for j, o := range m.Oneofs {
		o.Parent = m
		od := o.Desc.(*oneofDesc)
		od.place.at(f, d, j)
		od.of = o
	}
	for j, e := range m.Enums {
		linkEnum(f, d, j, e)
	}
	for j, x := range m.Messages {
		linkMessage(f, d, j, x)
	}
}

// linkRefs completes the messages and enums that fields refer to.
func linkRefs(f *fileDesc, m *protogen.Message) {
	for _, x := range m.Fields {
		if x.Message != nil && x.Message.Desc.(*messageDesc).of == nil {
			linkMessage(f, f, 7, x.Message)
			linkRefs(f, x.Message)
		}
		if x.Enum != nil && x.Enum.Desc.(*enumDesc).of == nil {
			linkEnum(f, f, 7, x.Enum)
		}
	}
	for _, x := range m.Messages {
		linkRefs(f, x)
	}
}

type fieldList struct {
	protoreflect.FieldDescriptors
	of []*protogen.Field
}

func (l *fieldList) Len() int                               { return len(l.of) }
func (l *fieldList) Get(i int) protoreflect.FieldDescriptor { return l.of[i].Desc }
func (l *fieldList) ByName(s protoreflect.Name) protoreflect.FieldDescriptor {
	for _, f := range l.of {
		if f.Desc.Name() == s {
			return f.Desc
		}
	}
	return nil
}
func (l *fieldList) ByNumber(n protoreflect.FieldNumber) protoreflect.FieldDescriptor {
	for _, f := range l.of {
		if f.Desc.Number() == n {
			return f.Desc
		}
	}
	return nil
}

type oneofList struct {
	protoreflect.OneofDescriptors
	of []*protogen.Oneof
}

func (l *oneofList) Len() int                               { return len(l.of) }
func (l *oneofList) Get(i int) protoreflect.OneofDescriptor { return l.of[i].Desc }
func (l *oneofList) ByName(s protoreflect.Name) protoreflect.OneofDescriptor {
	for _, o := range l.of {
		if o.Desc.Name() == s {
			return o.Desc
		}
	}
	return nil
}

type messageList struct {
	protoreflect.MessageDescriptors
	of []*protogen.Message
}

func (l *messageList) Len() int                                 { return len(l.of) }
func (l *messageList) Get(i int) protoreflect.MessageDescriptor { return l.of[i].Desc }
func (l *messageList) ByName(s protoreflect.Name) protoreflect.MessageDescriptor {
	for _, m := range l.of {
		if m.Desc.Name() == s {
			return m.Desc
		}
	}
	return nil
}

type enumList struct {
	protoreflect.EnumDescriptors
	of []*protogen.Enum
}

func (l *enumList) Len() int                              { return len(l.of) }
func (l *enumList) Get(i int) protoreflect.EnumDescriptor { return l.of[i].Desc }
func (l *enumList) ByName(s protoreflect.Name) protoreflect.EnumDescriptor {
	for _, e := range l.of {
		if e.Desc.Name() == s {
			return e.Desc
		}
	}
	return nil
}

type valueList struct {
	protoreflect.EnumValueDescriptors
	of []*protogen.EnumValue
}

func (l *valueList) Len() int                                   { return len(l.of) }
func (l *valueList) Get(i int) protoreflect.EnumValueDescriptor { return l.of[i].Desc }
func (l *valueList) ByName(s protoreflect.Name) protoreflect.EnumValueDescriptor {
	for _, v := range l.of {
		if v.Desc.Name() == s {
			return v.Desc
		}
	}
	return nil
}
func (l *valueList) ByNumber(n protoreflect.EnumNumber) protoreflect.EnumValueDescriptor {
	for _, v := range l.of {
		if v.Desc.Number() == n {
			return v.Desc
		}
	}
	return nil
}

type noExtensions struct {
	protoreflect.ExtensionDescriptors
}

func (noExtensions) Len() int { return 0 }

type noServices struct {
	protoreflect.ServiceDescriptors
}

func (noServices) Len() int { return 0 }

func (d *fieldDesc) Index() int                              { return d.place.index }
func (d *fieldDesc) Parent() protoreflect.Descriptor         { return d.place.parent }
func (d *fieldDesc) ParentFile() protoreflect.FileDescriptor { return d.place.in() }

func (d *messageDesc) Index() int                              { return d.place.index }
func (d *messageDesc) Parent() protoreflect.Descriptor         { return d.place.parent }
func (d *messageDesc) ParentFile() protoreflect.FileDescriptor { return d.place.in() }

func (d *oneofDesc) Index() int                              { return d.place.index }
func (d *oneofDesc) Parent() protoreflect.Descriptor         { return d.place.parent }
func (d *oneofDesc) ParentFile() protoreflect.FileDescriptor { return d.place.in() }

func (d *enumDesc) Index() int                              { return d.place.index }
func (d *enumDesc) Parent() protoreflect.Descriptor         { return d.place.parent }
func (d *enumDesc) ParentFile() protoreflect.FileDescriptor { return d.place.in() }

func (d *valueDesc) Index() int                              { return d.place.index }
func (d *valueDesc) Parent() protoreflect.Descriptor         { return d.place.parent }
func (d *valueDesc) ParentFile() protoreflect.FileDescriptor { return d.place.in() }
