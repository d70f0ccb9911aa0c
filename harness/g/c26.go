package g

import (
	"os"
	"reflect"
	"unsafe"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"

	"github.com/RomiChan/protobuf/internal/generator"
	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	command "github.com/RomiChan/protobuf/internal/zzverif/plugin"
	request "github.com/RomiChan/protobuf/internal/zzverif/protogen"
)

const (
	there  = protogen.GoImportPath("example.com/other/dep")
	beyond = protogen.GoImportPath("example.com/far/dep") // shares its last element with there
)

// into makes the declarations of a file belong to another package.
func into(f *protogen.File, p protogen.GoImportPath) {
	f.GoImportPath = p
	f.GoDescriptorIdent.GoImportPath = p
	for _, e := range f.Enums {
		enumInto(e, p)
	}
	for _, m := range f.Messages {
		msgInto(m, p)
	}
}

func enumInto(e *protogen.Enum, p protogen.GoImportPath) {
	e.GoIdent.GoImportPath = p
	for _, v := range e.Values {
		v.GoIdent.GoImportPath = p
	}
}

func msgInto(m *protogen.Message, p protogen.GoImportPath) {
	m.GoIdent.GoImportPath = p
	for _, f := range m.Fields {
		f.GoIdent.GoImportPath = p
		if f.Message != nil {
			msgInto(f.Message, p)
		}
		if f.Enum != nil {
			enumInto(f.Enum, p)
		}
	}
	for _, o := range m.Oneofs {
		o.GoIdent.GoImportPath = p
	}
	for _, e := range m.Enums {
		enumInto(e, p)
	}
	for _, x := range m.Messages {
		msgInto(x, p)
	}
}

// named is a file with a name of its own.
func named(name string, p protogen.GoImportPath, ms []*protogen.Message, es []*protogen.Enum) *protogen.File {
	f := file(ms, es)
	d := f.Desc.(*fileDesc)
	d.path = name + ".proto"
	f.GeneratedFilenamePrefix = name
	f.GoPackageName = "dep"
	f.GoDescriptorIdent.GoName = "File_" + name + "_proto"
	into(f, p)
	link(f)
	return f
}

func plugin(fs ...*protogen.File) *protogen.Plugin {
	p := &protogen.Plugin{Files: fs, FilesByPath: map[string]*protogen.File{}}
	for _, f := range fs {
		p.FilesByPath[f.Desc.Path()] = f
	}
	return p
}

// decl is something a file declares at the top.
type decl struct{ tok, name string }

// declared lists what must be declared for a file, in any order.
func declared(f *protogen.File) []decl {
	var ds []decl
	for _, e := range f.Enums {
		ds = declaredEnum(ds, e)
	}
	for _, m := range f.Messages {
		ds = declaredMsg(ds, m)
	}
	return ds
}

func declaredEnum(ds []decl, e *protogen.Enum) []decl {
	ds = append(ds, decl{"type", e.GoIdent.GoName})
	for _, v := range e.Values {
		ds = append(ds, decl{"const", v.GoIdent.GoName})
	}
	return ds
}

func declaredMsg(ds []decl, m *protogen.Message) []decl {
	if m.Desc.IsMapEntry() {
		return ds
	}
	ds = append(ds, decl{"type", m.GoIdent.GoName})
	for _, o := range m.Oneofs {
		if o.Desc.IsSynthetic() {
			continue
		}
		for _, f := range o.Fields {
			ds = append(ds, decl{"type", f.GoIdent.GoName})
		}
	}
	for _, e := range m.Enums {
		ds = declaredEnum(ds, e)
	}
	for _, x := range m.Messages {
		ds = declaredMsg(ds, x)
	}
	return ds
}

// content gives the final text of a file.
func content(g *protogen.GeneratedFile) []byte {
	b, err := g.Content()
	nd.Assert(err == nil, "what is generated is no Go file")
	return b
}

// filesOf lists the files that go into the answer.
func filesOf(gen *protogen.Plugin) (fs []*protogen.GeneratedFile) {
	v := reflect.ValueOf(gen).Elem()
	all := *(*[]*protogen.GeneratedFile)(unsafe.Pointer(v.FieldByName("genFiles").UnsafeAddr()))
	for _, g := range all {
		if !reflect.ValueOf(g).Elem().FieldByName("skip").Bool() {
			fs = append(fs, g)
		}
	}
	return
}

func failed(gen *protogen.Plugin) bool {
	v := reflect.ValueOf(gen).Elem()
	return *(*error)(unsafe.Pointer(v.FieldByName("err").UnsafeAddr())) != nil
}

// nameOf is the name of a file in the answer.
func nameOf(g *protogen.GeneratedFile) string {
	return reflect.ValueOf(g).Elem().FieldByName("filename").String()
}

// rich is a file's worth of declarations, some of them from pieces of choice.
func rich(name string, p protogen.GoImportPath, pieces ...int) *protogen.File {
	if len(pieces) > 1 && pieces[0] == pieces[1] {
		pieces = pieces[1:]
	}
	m := msg("B")
	m.Fields = []*protogen.Field{field("X", 1, protoreflect.Int32Kind, opt3)}
	f := file([]*protogen.Message{m}, nil)
	var es []*protogen.Enum
	for _, k := range pieces {
		switch k {
		case 1:
			x := msg("B_Inner")
			x.Desc.(*messageDesc).name = "Inner"
			m.Messages = append(m.Messages, x)
			x.Enums = append(x.Enums, enum("B_Inner_E", 0, -2))
		case 2:
			es = append(es, enum("E", 5))
		case 3:
			a, b := field("Aa", 3, protoreflect.StringKind, opt3), field("Bb", 4, protoreflect.EnumKind, opt3)
			m.Oneofs = append(m.Oneofs, inOneof("One", a, b))
			m.Fields = append(m.Fields, a, b)
		case 4:
			m.Fields = append(m.Fields, mapOf(m, "Mp", 7, protoreflect.StringKind, protoreflect.MessageKind))
		case 5:
			f.Messages = append(f.Messages, msg("File_"+name+"_proto"))
		case 6:
			m.Enums = append(m.Enums, enum("B_Big", -1<<31, 1<<31-1))
		}
	}
	return named(name, p, f.Messages, es)
}

// forwards requires that s forwards exactly the declarations of f, once each,
// besides its own.
func forwards(s *source, own int, fs ...*protogen.File) {
	types := map[string]string{}
	for _, t := range s.types {
		types[t.name] = t.kind
		nd.Assert(t.kind != "struct" || !t.alias, "a message is an alias")
	}
	consts := map[string]string{}
	for _, c := range s.consts {
		consts[c.name] = c.val
	}
	nd.Assert(len(types) == len(s.types) && len(consts) == len(s.consts), "a name is declared twice")
	n := own
	for _, f := range fs {
		q := s.named(string(f.GoImportPath))
		nd.Assert(q != "" && q != "_" && q != ".", "a package is used but not imported")
		for _, d := range declared(f) {
			n++
			if d.tok == "type" {
				nd.Assert(types[d.name] == q+"."+d.name, "a type of a public import is not forwarded")
				nd.Assert(s.typeNamed(d.name).alias, "a type of a public import is declared anew")
			} else {
				nd.Assert(consts[d.name] == q+"."+d.name, "an enum value of a public import is not forwarded")
			}
		}
	}
	nd.Assert(len(types)+len(consts) == n, "something is declared that no file declares")
}

// One import, public or not, weak or not, of the same package or another.
// verif: fixedmap poolhits
func H_C26_import() {
	warm()
	m := msg("A")
	fa := file([]*protogen.Message{m}, nil)
	fa.Enums = append(fa.Enums, enum("Own", 1))
	at := there
	same := nd.Bool()
	if same {
		at = here
	}
	fb := rich("dep", at, 1+nd.Choose(6), nd.Choose(7)*nd.Tier())
	public, weak, known, used := nd.Bool(), nd.Bool(), nd.Bool(), nd.Bool()
	if used {
		// a message of the import is the type of a field
		x := field("X", 1, protoreflect.MessageKind, implicit)
		x.Message = fb.Messages[0]
		m.Fields = append(m.Fields, x)
	}
	fa.Desc.(*fileDesc).imports = []protoreflect.FileImport{{FileDescriptor: fb.Desc, IsPublic: public, IsWeak: weak}}
	link(fa)
	gen := plugin(fb, fa)
	if !known {
		delete(gen.FilesByPath, fb.Desc.Path())
	}
	g := generator.GenerateFile(gen, fa)
	nd.Assert(!failed(gen), "the plugin reports an error for valid files")
	s := readText(content(g))
	fs := filesOf(gen)
	nd.Assert(len(fs) == 1 && fs[0] == g, "an import is generated along with the file")
	fwd := known && public && !same
	if fwd {
		forwards(s, 3, fb)
	} else {
		forwards(s, 3)
	}
	_, has := s.imports[at]
	nd.Assert(has == (!same && (fwd || used || known && !weak)), "the imported packages are not those of the imported files")
	nd.Assert(len(s.imports) <= 1, "a package is imported that no file belongs to")
	if used && !same {
		nd.Assert(s.typeNamed("A").fields[0].typ == "*"+s.named(string(at))+".B", "a field does not name the type of the other package")
	}
}

// Public imports of files that import others publicly: every name comes once.
// verif: fixedmap poolhits
func H_C26_chain() {
	warm()
	fa := file([]*protogen.Message{msg("A")}, nil)
	fb := rich("dep", there, 2)
	c := msg("C")
	fc := named("far", beyond, []*protogen.Message{c}, []*protogen.Enum{enum("F", 1, 2)})
	d := msg("D")
	at := there
	if nd.Bool() {
		at = here
	}
	fd := named("near", at, []*protogen.Message{d}, nil)
	imp := func(f *protogen.File) protoreflect.FileImport {
		return protoreflect.FileImport{FileDescriptor: f.Desc, IsPublic: true}
	}
	if nd.Bool() {
		fb.Desc.(*fileDesc).imports = []protoreflect.FileImport{imp(fc)}
	}
	if nd.Bool() {
		fc.Desc.(*fileDesc).imports = []protoreflect.FileImport{imp(fd)}
	}
	is := []protoreflect.FileImport{imp(fb), imp(fc), imp(fd)}
	// in any order
	var order []protoreflect.FileImport
	for len(is) > 0 {
		i := nd.Choose(len(is))
		order = append(order, is[i])
		is = append(is[:i:i], is[i+1:]...)
	}
	fa.Desc.(*fileDesc).imports = order
	link(fa)
	gen := plugin(fd, fc, fb, fa)
	g := generator.GenerateFile(gen, fa)
	nd.Assert(!failed(gen), "the plugin reports an error for valid files")
	s := readText(content(g))
	fs := filesOf(gen)
	nd.Assert(len(fs) == 1 && fs[0] == g, "an import is generated along with the file")
	if at == here {
		forwards(s, 1, fb, fc)
	} else {
		forwards(s, 1, fb, fc, fd)
	}
	seen := map[protogen.GoPackageName]bool{}
	for _, n := range s.imports {
		nd.Assert(n == "_" || !seen[n], "two packages share a name")
		seen[n] = true
	}
}

// What is generated for a file depends on nothing but the file and its imports.
// verif: poolhits
func H_C26_alone() {
	warm()
	fb := rich("dep", there, nd.Choose(7))
	m := msg("A")
	x := field("X", 1, protoreflect.MessageKind, implicit)
	x.Message = fb.Messages[0]
	m.Fields = []*protogen.Field{x, field("Y", 2, protoreflect.Sint32Kind, opt3), mapOf(m, "Z", 3, protoreflect.BoolKind, protoreflect.EnumKind)}
	fill(m, 0)
	fa := file([]*protogen.Message{m}, []*protogen.Enum{enum("Own", 1, 2)})
	fa.Desc.(*fileDesc).imports = []protoreflect.FileImport{{FileDescriptor: fb.Desc, IsPublic: nd.Bool()}}
	link(fa)
	o := msg("O")
	fill(o, nd.Choose(4))
	fo := named("other", here, []*protogen.Message{o}, nil)
	a := string(content(generator.GenerateFile(plugin(fb, fa), fa)))
	b := string(content(generator.GenerateFile(plugin(fb), fb)))
	gen := plugin(fb, fo, fa)
	var fs []*protogen.File
	for _, f := range []*protogen.File{fb, fo, fa} {
		if f == fa || nd.Bool() {
			fs = append(fs, f)
		}
	}
	if nd.Bool() {
		for i, j := 0, len(fs)-1; i < j; i, j = i+1, j-1 {
			fs[i], fs[j] = fs[j], fs[i]
		}
	}
	for _, f := range fs {
		generator.GenerateFile(gen, f)
	}
	nd.Assert(!failed(gen), "the plugin reports an error for valid files")
	gs := filesOf(gen)
	nd.Assert(len(gs) == len(fs), "a file is not generated once")
	for i, f := range fs {
		t := string(content(gs[i]))
		switch f {
		case fa:
			nd.Assert(t == a, "what is generated depends on other files")
		case fb:
			nd.Assert(t == b, "what is generated depends on other files")
		}
	}
}

// The plugin answers with the files asked for, which may import each other.
// verif: fixedmap poolhits
func H_C26_answer() {
	warm()
	fb := rich("dep", there, nd.Choose(7))
	x, y := msg("X"), msg("Y")
	fc := named("more", here, []*protogen.Message{x}, nil)
	fd := named("last", here, []*protogen.Message{y}, []*protogen.Enum{enum("L", 1)})
	f := field("F", 1, protoreflect.MessageKind, implicit)
	f.Message = fb.Messages[0]
	x.Fields = append(x.Fields, f)
	switch k := nd.Choose(6); k {
	case 5:
		fd.Messages, fd.Enums = nil, nil
	case 4:
		fd.Messages = nil
	default:
		fill(y, k)
	}
	fc.Desc.(*fileDesc).imports = []protoreflect.FileImport{{FileDescriptor: fb.Desc, IsPublic: nd.Bool()}}
	fd.Desc.(*fileDesc).imports = []protoreflect.FileImport{{FileDescriptor: fc.Desc, IsPublic: nd.Bool()}}
	link(fc)
	link(fd)
	fs := []*protogen.File{fb, fc, fd}
	var want []string
	var texts []string
	for _, f := range fs {
		f.Generate = nd.Bool()
		if f.Generate {
			want = append(want, f.GeneratedFilenamePrefix+".pb.go")
			texts = append(texts, string(content(generator.GenerateFile(plugin(fs...), f))))
		}
	}
	gen := plugin(fs...)
	request.Request, request.Runs = gen, 0
	os.Args = []string{"protoc-gen-golite"}
	command.Main()
	nd.Assert(request.Runs == 1, "the plugin does not answer, or twice")
	nd.Assert(!failed(gen), "the plugin reports an error for valid files")
	nd.Assert(gen.SupportedFeatures&1 == 1, "the plugin does not accept proto3 optional fields")
	gs := filesOf(gen)
	nd.Assert(len(gs) == len(want), "the files in the answer are not those asked for")
	for i, n := range want {
		var g *protogen.GeneratedFile
		for _, x := range gs {
			if nameOf(x) == n {
				g = x
			}
		}
		nd.Assert(g != nil, "the files in the answer are not those asked for")
		nd.Assert(string(content(g)) == texts[i], "what is generated depends on other files")
	}
}

// comment is any text of n characters as found in proto files, possibly after
// something that means something to Go.
func comment(n int) protogen.Comments {
	starts := []string{"", "line x:", "+build ", "go:", " ", "line ", "line :1:", "go:build ", "go:embed ", "go:linkname ", "*/", "/*", "\t +build ignore ", "a\n+build", "\nline a:"}
	i := nd.Choose(len(starts))
	if i > 2 && nd.Tier() == 0 {
		n = 0
	}
	return protogen.Comments(starts[i]) + text(nd.Choose(n+1))
}

// Comments do not make the file anything but Go.
// verif: fixedmap poolhits
func H_C26_comments() {
	warm()
	n := 1
	if nd.Tier() > 0 {
		n = 2
	}
	a, e := msg("A"), enum("E", 7)
	x, y, z := field("X", 12, protoreflect.Sint32Kind, opt3), field("Y", 13, protoreflect.EnumKind, repeated), field("Z", 14, protoreflect.StringKind, opt3)
	a.Fields = []*protogen.Field{x, y, z}
	o := inOneof("One", z)
	a.Oneofs = []*protogen.Oneof{o, x.Oneof}
	f := file([]*protogen.Message{a}, []*protogen.Enum{e})
	t := comment(n)
	at := nd.Choose(9)
	yes := at != 2 && at != 5 && at != 6 && at != 8 && nd.Bool()
	switch at {
	case 0:
		a.Comments.Leading = t
		a.Desc.(*messageDesc).opts = &descriptorpb.MessageOptions{Deprecated: &yes}
	case 1:
		x.Comments.Leading = t
		x.Desc.(*fieldDesc).opts = &descriptorpb.FieldOptions{Deprecated: &yes}
	case 2:
		x.Comments.Trailing = t
	case 3:
		e.Comments.Leading = t
		e.Desc.(*enumDesc).opts = &descriptorpb.EnumOptions{Deprecated: &yes}
	case 4:
		e.Values[0].Comments.Leading = t
		e.Values[0].Desc.(*valueDesc).opts = &descriptorpb.EnumValueOptions{Deprecated: &yes}
	case 5:
		e.Values[0].Comments.Trailing = t
	case 6:
		o.Comments.Leading = t
	case 7:
		z.Comments.Leading = t
		z.Desc.(*fieldDesc).opts = &descriptorpb.FieldOptions{Deprecated: &yes}
	case 8:
		z.Comments.Trailing = t
	}
	link(f)
	gen := plugin(f)
	b := content(generator.GenerateFile(gen, f))
	nd.Assert(!failed(gen), "the plugin reports an error for valid files")
	s := readText(b)
	nd.Assert(len(s.types) == 4 && len(s.consts) == 1, "comments change the declarations")
	for i := range b {
		nd.Assert(!directive(b, i, "line ") && !directive(b, i, "go:"), "a comment is a directive to the Go compiler")
	}
}

// directive tells whether a directive to the compiler stands at b[i:].
func directive(b []byte, i int, name string) bool {
	name = "//" + name
	if len(b)-i < len(name) || string(b[i:i+len(name)]) != name {
		return false
	}
	// only where the comment starts
	for i--; i >= 0 && b[i] != '\n'; i-- {
		if b[i] != '\t' && b[i] != ' ' {
			return false
		}
	}
	return true
}

// loc is a place in a proto file nothing else has.
func loc(p *protogen.Location, name string) { p.SourceFile = name }

// Annotations name what is declared and where it comes from.
// verif: fixedmap poolhits
func H_C26_annotations() {
	warm()
	fb := rich("dep", here, nd.Choose(7), nd.Choose(7))
	want := map[string]string{}
	var walk func(m *protogen.Message)
	enums := func(es []*protogen.Enum) {
		for _, e := range es {
			loc(&e.Location, "enum "+e.GoIdent.GoName)
			want[e.GoIdent.GoName] = e.Location.SourceFile
			for _, v := range e.Values {
				loc(&v.Location, "value "+v.GoIdent.GoName)
				want[v.GoIdent.GoName] = v.Location.SourceFile
			}
		}
	}
	walk = func(m *protogen.Message) {
		if m.Desc.IsMapEntry() {
			return
		}
		t := m.GoIdent.GoName
		loc(&m.Location, "message "+t)
		want[t] = m.Location.SourceFile
		for _, o := range m.Oneofs {
			loc(&o.Location, "oneof "+t+" "+o.GoName)
			if !o.Desc.IsSynthetic() {
				want[t+"."+o.GoName] = o.Location.SourceFile
			}
		}
		for _, f := range m.Fields {
			loc(&f.Location, "field "+t+" "+f.GoName)
			if f.Oneof != nil && !f.Oneof.Desc.IsSynthetic() {
				want[f.GoIdent.GoName+"."+f.GoName] = f.Location.SourceFile
			} else {
				want[t+"."+f.GoName] = f.Location.SourceFile
			}
		}
		enums(m.Enums)
		for _, x := range m.Messages {
			walk(x)
		}
	}
	enums(fb.Enums)
	for _, m := range fb.Messages {
		walk(m)
	}
	g := generator.GenerateFile(plugin(fb), fb)
	got := *(*map[string][]protogen.Location)(unsafe.Pointer(reflect.ValueOf(g).Elem().FieldByName("annotations").UnsafeAddr()))
	s := read(g)
	is := map[string]bool{}
	for _, t := range s.types {
		is[t.name] = true
		for _, f := range t.fields {
			is[t.name+"."+f.name] = true
		}
	}
	for _, c := range s.consts {
		is[c.name] = true
	}
	for _, m := range s.methods {
		is[m.recv+"."+m.name] = true
	}
	for k := range got {
		nd.Assert(is[k], "an annotation names nothing that is declared")
	}
	for k, l := range want {
		nd.Assert(len(got[k]) == 1 && got[k][0].SourceFile == l, "a declaration is not annotated with where it comes from")
	}
}
