package g

import (
	"bytes"
	"reflect"
	"unsafe"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"

	"github.com/RomiChan/protobuf/internal/generator"
	"github.com/RomiChan/protobuf/internal/zzverif/nd"
)

// documented is a declaration with the comments around it.
type documented struct {
	in, name string // the struct, interface or block it is in, and its name
	lead     [][]byte
	trail    []byte
}

// documentation reads the declarations of a file line by line.
func documentation(b []byte) (ds []documented) {
	var lead [][]byte
	in := ""
	skip := false
	for len(b) > 0 {
		n := 0
		for n < len(b) && b[n] != '\n' {
			n++
		}
		line := b[:n]
		b = b[n:]
		if len(b) > 0 {
			b = b[1:]
		}
		for len(line) > 0 && (line[0] == ' ' || line[0] == '\t') {
			line = line[1:]
		}
		code, trail := cut(line)
		switch {
		case len(code) == 0 && trail == nil:
			lead = nil
			continue
		case len(code) == 0:
			lead = append(lead, trail)
			continue
		case code[0] == '}' || code[0] == ')':
			in, skip, lead = "", false, nil
			continue
		case skip:
			continue
		}
		w := wordAt(code)
		last := code[len(code)-1]
		switch w {
		case "func":
			skip = last == '{'
			if i := bytes.IndexByte(code, ')'); i > 0 && i+2 < len(code) {
				ds = append(ds, documented{"func", wordAt(code[i+2:]), lead, trail})
			}
		case "package":
		case "import":
			skip = last == '('
		case "const":
			nd.Assert(last == '(' && in == "", "a const block is not what was expected")
			in = "const"
		case "type":
			name := wordAt(code[len("type "):])
			ds = append(ds, documented{"", name, lead, trail})
			if last == '{' {
				in = name
			}
		default:
			ds = append(ds, documented{in, w, lead, trail})
		}
		lead = nil
	}
	return
}

func wordAt(b []byte) string {
	n := 0
	for n < len(b) && word(b[n]) {
		n++
	}
	return string(b[:n])
}

// cut splits a line into code without blanks at its end and the text of a
// comment, nil if there is none.
func cut(line []byte) (code, comment []byte) {
	quote := byte(0)
	i := 0
	for ; i < len(line); i++ {
		c := line[i]
		if quote == 0 && c == '/' && i+1 < len(line) && line[i+1] == '/' {
			comment = line[i+2 : len(line) : len(line)]
			break
		}
		if quote != 0 {
			if c == quote {
				quote = 0
			}
		} else if c == '`' || c == '"' {
			quote = c
		}
	}
	code = line[:i]
	for len(code) > 0 && (code[len(code)-1] == ' ' || code[len(code)-1] == '\t') {
		code = code[:len(code)-1]
	}
	return
}

// print is what remains of lines without blanks and empty lines.
func print(lines [][]byte) (p []byte) {
	for _, l := range lines {
		n := len(p)
		for _, c := range l {
			if c != ' ' && c != '\t' {
				p = append(p, c)
			}
		}
		if len(p) > n {
			p = append(p, '\n')
		}
	}
	return
}

// linesOf are the lines of a comment in the proto file.
func linesOf(c protogen.Comments) (ls [][]byte) {
	b := []byte(c)
	i := 0
	for j := 0; j <= len(b); j++ {
		if j == len(b) || b[j] == '\n' {
			ls = append(ls, b[i:j])
			i = j + 1
		}
	}
	return
}

type docs []documented

// has requires that the declaration is there, with these comments.
func (ds docs) has(in, name string, c protogen.CommentSet, deprecated bool, mentions ...string) {
	var d *documented
	for i := range ds {
		if ds[i].in == in && ds[i].name == name {
			nd.Assert(d == nil, "something is declared twice")
			d = &ds[i]
		}
	}
	nd.Assert(d != nil, "something is not declared")
	got, want := print(d.lead), print(linesOf(c.Leading))
	nd.Assert(len(got) >= len(want) && nd.SameBytes(got[:len(want)], want), "a leading comment is lost or changed")
	rest := got[len(want):]
	for _, m := range mentions {
		nd.Assert(bytes.Contains(rest, []byte(m)), "the comment of a oneof does not name its members")
	}
	if deprecated {
		nd.Assert(bytes.HasPrefix(rest, []byte("Deprecated:")), "a deprecation mark is lost")
		nd.Assert(bytes.IndexByte(rest, '\n') == len(rest)-1, "there is more to a comment than there should be")
	} else if len(mentions) == 0 {
		nd.Assert(len(rest) == 0, "there is more to a comment than there should be")
	}
	var trail [][]byte
	if ls := linesOf(c.Trailing); len(ls) == 1 || len(ls) == 2 && len(ls[1]) == 0 {
		trail = ls
	}
	nd.Assert(nd.SameBytes(print([][]byte{d.trail}), print(trail)), "a trailing comment is lost or changed")
}

func raw(g *protogen.GeneratedFile) []byte {
	v := reflect.ValueOf(g).Elem()
	return (*bytes.Buffer)(unsafe.Pointer(v.FieldByName("buf").UnsafeAddr())).Bytes()
}

func generated(f *protogen.File) *protogen.GeneratedFile {
	link(f)
	return generator.GenerateFile(plugin(f), f)
}

// deprecate marks a declaration.
func deprecate(x interface{}) {
	yes := true
	switch x := x.(type) {
	case *protogen.Message:
		x.Desc.(*messageDesc).opts = &descriptorpb.MessageOptions{Deprecated: &yes}
	case *protogen.Field:
		x.Desc.(*fieldDesc).opts = &descriptorpb.FieldOptions{Deprecated: &yes}
	case *protogen.Enum:
		x.Desc.(*enumDesc).opts = &descriptorpb.EnumOptions{Deprecated: &yes}
	case *protogen.EnumValue:
		x.Desc.(*valueDesc).opts = &descriptorpb.EnumValueOptions{Deprecated: &yes}
	}
}

// elem is a declaration of a proto file and where it ends up.
type elem struct {
	x        interface{}
	in, name string
	c        *protogen.CommentSet
	trails   bool // trailing comments are kept
	mentions []string
}

// book is a file in which there is something of everything.
func book() (*protogen.File, []elem) {
	a, b, n := msg("A"), msg("B"), msg("A_N")
	e, i := enum("E", 7, -8), enum("A_I", 0, 1, 2)
	x, y := field("X", 12, protoreflect.Sint32Kind, opt3), field("Y", 13, protoreflect.EnumKind, repeated)
	z, u := field("Z", 14, protoreflect.StringKind, implicit), field("U", 15, protoreflect.BytesKind, implicit)
	w := field("W", 16, protoreflect.Fixed64Kind, implicit)
	p, q := field("P", 1, protoreflect.MessageKind, implicit), field("Q", 2, protoreflect.DoubleKind, required)
	o := inOneof("One", z, u)
	k := mapOf(a, "K", 17, protoreflect.StringKind, protoreflect.Int32Kind)
	a.Fields = []*protogen.Field{x, z, y, u, k, w}
	a.Oneofs = []*protogen.Oneof{o, x.Oneof}
	a.Enums = []*protogen.Enum{i}
	a.Messages = append(a.Messages, n)
	n.Fields = []*protogen.Field{q}
	b.Fields = []*protogen.Field{p}
	es := []elem{
		{x: a, name: "A", c: &a.Comments}, {x: b, name: "B", c: &b.Comments}, {x: n, name: "A_N", c: &n.Comments},
		{x: e, name: "E", c: &e.Comments}, {x: i, name: "A_I", c: &i.Comments},
		{x: o, in: "A", name: "One", c: &o.Comments, mentions: []string{"M_Z", "M_U"}},
		{x: x, in: "A", name: "X", c: &x.Comments, trails: true}, {x: y, in: "A", name: "Y", c: &y.Comments, trails: true},
		{x: k, in: "A", name: "K", c: &k.Comments, trails: true}, {x: w, in: "A", name: "W", c: &w.Comments, trails: true},
		{x: z, in: "M_Z", name: "Z", c: &z.Comments, trails: true}, {x: u, in: "M_U", name: "U", c: &u.Comments, trails: true},
		{x: q, in: "A_N", name: "Q", c: &q.Comments, trails: true}, {x: p, in: "B", name: "P", c: &p.Comments, trails: true},
	}
	for _, v := range append(append([]*protogen.EnumValue{}, e.Values...), i.Values...) {
		es = append(es, elem{x: v, in: "const", name: v.GoIdent.GoName, c: &v.Comments, trails: true})
	}
	return file([]*protogen.Message{a, b}, []*protogen.Enum{e}), es
}

// check requires that everything has its comments. k is what is deprecated.
func check(b []byte, es []elem, deprecated func(i int) bool) {
	ds := docs(documentation(b))
	for i, e := range es {
		c := *e.c
		if !e.trails {
			c.Trailing = ""
		}
		_, never := e.x.(*protogen.Oneof)
		ds.has(e.in, e.name, c, deprecated(i) && !never, e.mentions...)
		if e.in == "M_Z" || e.in == "M_U" {
			ds.has("func", "Get"+e.name, protogen.CommentSet{}, deprecated(i))
		}
	}
}

// Any comment on any one thing.
func H_C31_any() {
	warm()
	n := 4
	if nd.Tier() > 0 {
		n = 5
	}
	f, es := book()
	i := []int{0, 3, 4, 5, 6, 8, 10, 13, 15}[nd.Choose(9)]
	e := es[i]
	t := protogen.Comments("")
	if nd.Choose(2) == 1 {
		t = comment(0)
	} else {
		t = text(nd.Choose(n + 1))
	}
	dep := false
	if e.trails && nd.Choose(2) == 1 {
		e.c.Trailing = t
	} else {
		e.c.Leading = t
		if dep = nd.Bool(); dep {
			deprecate(e.x)
		}
	}
	check(raw(generated(f)), es, func(k int) bool { return dep && k == i })
}

// annotate gives everything but i comments of its own.
func annotate(es []elem, i int) {
	for k, e := range es {
		if k != i {
			id := string(rune('a' + k))
			e.c.Leading = protogen.Comments(" lead " + id + "\n\n more " + id + "\n")
			e.c.Trailing = protogen.Comments(" trail " + id + "\n")
			if k%3 == 2 {
				e.c.Leading = protogen.Comments("lead" + id) // no newline, as for /* */
				e.c.Trailing = protogen.Comments(" trail\n " + id + "\n")
			}
			e.c.LeadingDetached = []protogen.Comments{protogen.Comments(" apart " + id + "\n")}
		}
	}
}

// pick marks one thing, everything or nothing as deprecated.
func pick(es []elem) func(i int) bool {
	d := nd.Choose(len(es) + 2)
	dep := func(i int) bool { return d == i || d == len(es) }
	for i, e := range es {
		if dep(i) {
			deprecate(e.x)
		}
	}
	return dep
}

// Everything has comments of its own, but one thing; one thing is deprecated,
// everything, or nothing.
func H_C31_own() {
	warm()
	f, es := book()
	annotate(es, nd.Choose(len(es)+1))
	dep := pick(es)
	check(raw(generated(f)), es, dep)
}

// So it is in the file that is written in the end.
// verif: fixedmap poolhits
func H_C31_final() {
	warm()
	f, es := book()
	annotate(es, len(es))
	dep := pick(es)
	check(content(generated(f)), es, dep)
}

// marker tells whether there is a line that marks the file as generated, as Go
// tools look for it, before the package clause.
func marker(b []byte) bool {
	for len(b) > 0 {
		n := bytes.IndexByte(b, '\n')
		if n < 0 {
			return false
		}
		line := b[:n]
		b = b[n+1:]
		if bytes.HasPrefix(line, []byte("package ")) {
			return false
		}
		if bytes.HasPrefix(line, []byte("// Code generated ")) && bytes.HasSuffix(line, []byte(" DO NOT EDIT.")) {
			return true
		}
	}
	return false
}

// Files are marked as generated, whatever is in them.
// verif: fixedmap poolhits
func H_C31_marker() {
	warm()
	f, es := book()
	if nd.Bool() {
		annotate(es, -1)
	}
	if nd.Bool() {
		f.Messages = nil
	}
	if nd.Bool() {
		f.Enums = nil
	}
	dep := nd.Bool()
	if nd.Bool() {
		f.Proto = &descriptorpb.FileDescriptorProto{Options: &descriptorpb.FileOptions{Deprecated: &dep}}
	}
	if nd.Bool() {
		f.Desc.(*fileDesc).syntax = protoreflect.Proto2
	}
	g := generated(f)
	nd.Assert(marker(raw(g)), "the file is not marked as generated")
	nd.Assert(marker(content(g)), "the file is not marked as generated in the end")
}
