package g

import (
	"bytes"
	"reflect"
	"unsafe"

	"google.golang.org/protobuf/compiler/protogen"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
)

// source is what was generated, as far as the harnesses look at it.
type source struct {
	pkg     string
	types   []*typeDecl
	consts  []*constDecl
	methods []*method
	imports map[protogen.GoImportPath]protogen.GoPackageName
}

type typeDecl struct {
	name   string
	alias  bool
	kind   string // "struct", "interface" or the type
	fields []*fieldDecl
}

type fieldDecl struct{ name, typ, tag string }

type constDecl struct{ name, typ, val string }

type method struct{ recv, name, result string }

// read parses what the generator has written. Names it gave to imported
// packages are taken from the file.
func read(g *protogen.GeneratedFile) *source {
	v := reflect.ValueOf(g).Elem()
	buf := (*bytes.Buffer)(unsafe.Pointer(v.FieldByName("buf").UnsafeAddr()))
	s := &source{imports: *(*map[protogen.GoImportPath]protogen.GoPackageName)(unsafe.Pointer(v.FieldByName("packageNames").UnsafeAddr()))}
	p := &parser{b: buf.Bytes()}
	p.next()
	p.file(s)
	return s
}

// readText parses the final text of a file.
func readText(b []byte) *source {
	s := &source{imports: map[protogen.GoImportPath]protogen.GoPackageName{}}
	p := &parser{b: b}
	p.next()
	p.file(s)
	return s
}

// named is what the file calls an imported package.
func (s *source) named(path string) string { return string(s.imports[protogen.GoImportPath(path)]) }

// importDecl reads what follows the word import.
func (p *parser) importDecl(s *source) {
	block := p.tok == "("
	if block {
		p.next()
	}
	for {
		p.lines()
		if block && p.tok == ")" {
			p.next()
			return
		}
		name := ""
		if !p.str {
			name = p.take()
		}
		nd.Assert(p.str, "an import has no path")
		path := protogen.GoImportPath(p.take())
		_, twice := s.imports[path]
		nd.Assert(!twice, "a package is imported twice")
		s.imports[path] = protogen.GoPackageName(name)
		if !block {
			return
		}
	}
}

type parser struct {
	b   []byte
	pos int
	tok string // the current token: a word, a string with its quotes, one other byte, "\n", or "" at the end
	str bool
}

func word(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c >= 0x80
}

func (p *parser) next() {
	p.str = false
	for p.pos < len(p.b) && (p.b[p.pos] == ' ' || p.b[p.pos] == '\t' || p.b[p.pos] == '\r') {
		p.pos++
	}
	if p.pos >= len(p.b) {
		p.tok = ""
		return
	}
	i := p.pos
	c := p.b[i]
	switch {
	case c == '/' && i+1 < len(p.b) && p.b[i+1] == '/':
		for p.pos < len(p.b) && p.b[p.pos] != '\n' {
			p.pos++
		}
		p.next()
		return
	case c == '`' || c == '"':
		for p.pos++; p.pos < len(p.b) && p.b[p.pos] != c; p.pos++ {
		}
		nd.Assert(p.pos < len(p.b), "a string in the generated code does not end")
		p.tok, p.str = string(p.b[i+1:p.pos]), true
		p.pos++
		return
	case word(c):
		for p.pos < len(p.b) && word(p.b[p.pos]) {
			p.pos++
		}
	case c == '-' || c == '.':
		p.pos++
	default:
		p.pos++
	}
	p.tok = string(p.b[i:p.pos])
}

func (p *parser) lines() {
	for p.tok == "\n" || p.tok == ";" {
		p.next()
	}
}

func (p *parser) take() string {
	t := p.tok
	p.next()
	return t
}

func (p *parser) expect(t string) {
	nd.Assert(p.tok == t, "the generated code is not what was expected")
	p.next()
}

func (p *parser) file(s *source) {
	for {
		p.lines()
		switch p.take() {
		case "":
			return
		case "package":
			s.pkg = p.take()
		case "import":
			p.importDecl(s)
		case "type":
			s.types = append(s.types, p.typeDecl())
		case "const":
			p.consts(s)
		case "func":
			s.methods = append(s.methods, p.method())
		default:
			nd.Assert(false, "there is something unexpected in the generated code")
		}
	}
}

// typ reads a type up to something that cannot be part of it.
func (p *parser) typ() string {
	t := ""
	depth := 0
	for !p.str && p.tok != "" && p.tok != "\n" && p.tok != ";" && p.tok != "{" && p.tok != "}" && (depth > 0 || p.tok != ")" && p.tok != "=") {
		switch p.tok {
		case "(", "[":
			depth++
		case ")", "]":
			depth--
		}
		if t != "" && word(t[len(t)-1]) && word(p.tok[0]) {
			t += " "
		}
		t += p.take()
	}
	return t
}

func (p *parser) typeDecl() *typeDecl {
	d := &typeDecl{name: p.take()}
	if p.tok == "=" {
		d.alias = true
		p.next()
	}
	d.kind = p.typ()
	if d.kind != "struct" && d.kind != "interface" {
		return d
	}
	p.expect("{")
	for {
		p.lines()
		if p.tok == "}" {
			p.next()
			return d
		}
		nd.Assert(p.tok != "", "a type in the generated code does not end")
		f := &fieldDecl{name: p.take()}
		f.typ = p.typ()
		if p.str {
			f.tag = p.take()
		}
		nd.Assert(p.tok == "\n" || p.tok == "}" || p.tok == ";", "there is something unexpected in a generated struct")
		d.fields = append(d.fields, f)
	}
}

func (p *parser) consts(s *source) {
	block := p.tok == "("
	if block {
		p.next()
	}
	for {
		p.lines()
		if p.tok == ")" {
			p.next()
			return
		}
		nd.Assert(p.tok != "", "a const block in the generated code does not end")
		c := &constDecl{name: p.take()}
		c.typ = p.typ()
		p.expect("=")
		for p.tok != "" && p.tok != "\n" && p.tok != ")" && p.tok != ";" {
			c.val += p.take()
		}
		s.consts = append(s.consts, c)
		if !block {
			return
		}
	}
}

func (p *parser) method() *method {
	m := &method{}
	p.expect("(")
	for p.tok != ")" && p.tok != "" {
		m.recv = p.take()
	}
	p.expect(")")
	m.name = p.take()
	p.expect("(")
	p.expect(")")
	m.result = p.typ()
	nd.Assert(p.tok == "{", "a method in the generated code has no body")
	depth := 0
	for {
		switch p.tok {
		case "{":
			depth++
		case "}":
			depth--
		case "":
			nd.Assert(p.str, "a method in the generated code does not end")
		}
		p.next()
		if depth == 0 {
			return m
		}
	}
}

func (s *source) typeNamed(name string) *typeDecl {
	var d *typeDecl
	for _, t := range s.types {
		if t.name == name {
			nd.Assert(d == nil, "a type is declared twice")
			d = t
		}
	}
	nd.Assert(d != nil, "a type is not declared")
	return d
}

// decimal reads a number written in decimal.
func decimal(s string) (n uint64, neg bool) {
	if len(s) > 0 && s[0] == '-' {
		neg = true
		s = s[1:]
	}
	nd.Assert(len(s) > 0 && len(s) < 20, "a number is missing")
	for i := 0; i < len(s); i++ {
		c := s[i]
		nd.Assert(nd.And(c >= '0', c <= '9'), "a number is not decimal")
		n = n*10 + uint64(c-'0')
	}
	return
}

// tagIs requires that the value of a protobuf tag is the wire encoding, the
// number and the label.
func tagIs(tag, wire string, num uint64, label string) {
	var parts []string
	i := 0
	for j := 0; j <= len(tag); j++ {
		if j == len(tag) || tag[j] == ',' {
			parts = append(parts, tag[i:j])
			i = j + 1
		}
	}
	nd.Assert(len(parts) >= 3, "a tag is incomplete")
	nd.Assert(parts[0] == wire, "a tag names another encoding than the kind has")
	n, neg := decimal(parts[1])
	nd.Assert(nd.And(!neg, n == num), "a tag has another number than the field")
	nd.Assert(parts[2] == label, "a tag has another label than the field")
}

// lookup finds the value of a key in a struct tag of the conventional form.
func lookup(tag, key string) (string, bool) {
	for tag != "" {
		if tag[0] == ' ' {
			tag = tag[1:]
			continue
		}
		i := 0
		for i < len(tag) && tag[i] != ':' {
			i++
		}
		name := tag[:i]
		nd.Assert(i > 0 && i+1 < len(tag) && tag[i+1] == '"', "a struct tag is malformed")
		tag = tag[i+2:]
		for i = 0; i < len(tag) && tag[i] != '"'; i++ {
			nd.Assert(tag[i] != '\\', "a struct tag has escapes")
		}
		nd.Assert(i < len(tag), "a struct tag is malformed")
		if name == key {
			return tag[:i], true
		}
		tag = tag[i+1:]
	}
	return "", false
}

// comparable tells whether values of the type can be compared with ==.
func (d *typeDecl) comparable() bool {
	for _, f := range d.fields {
		t := f.typ
		for len(t) > 3 && t[:3] == "[0]" {
			t = t[3:]
		}
		if len(t) > 2 && t[:2] == "[]" || len(t) > 4 && (t[:4] == "map[" || t[:4] == "func") {
			return false
		}
	}
	return true
}
