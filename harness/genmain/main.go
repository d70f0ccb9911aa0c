// Command genmain gives the proto files of package protos to the plugin named
// by its first argument and writes what it generates under the second.
package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"

	"github.com/RomiChan/protobuf/internal/zzverif/protos"
)

var kinds = map[string]descriptorpb.FieldDescriptorProto_Type{
	"enum": descriptorpb.FieldDescriptorProto_TYPE_ENUM, "message": descriptorpb.FieldDescriptorProto_TYPE_MESSAGE,
}

func field(f protos.F, kind, label string) *descriptorpb.FieldDescriptorProto {
	d := &descriptorpb.FieldDescriptorProto{Name: proto.String(f.Name), Number: proto.Int32(f.Num)}
	t, ok := kinds[kind]
	if !ok {
		t = descriptorpb.FieldDescriptorProto_Type(descriptorpb.FieldDescriptorProto_Type_value["TYPE_"+strings.ToUpper(kind)])
	}
	d.Type = &t
	if ok {
		d.TypeName = proto.String("." + f.Ref)
	}
	l := descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL
	switch label {
	case "required":
		l = descriptorpb.FieldDescriptorProto_LABEL_REQUIRED
	case "repeated", "map":
		l = descriptorpb.FieldDescriptorProto_LABEL_REPEATED
	}
	d.Label = &l
	return d
}

// entry is the name of the entry message of a map field.
func entry(name string) string {
	s := ""
	for _, p := range strings.Split(name, "_") {
		s += strings.ToUpper(p[:1]) + p[1:]
	}
	return s + "Entry"
}

func message(full string, m protos.M, syntax string) *descriptorpb.DescriptorProto {
	d := &descriptorpb.DescriptorProto{Name: proto.String(m.Name)}
	full += "." + m.Name
	oneofs := map[string]int32{}
	for _, f := range m.Fields {
		if f.Oneof != "" {
			if _, ok := oneofs[f.Oneof]; !ok {
				oneofs[f.Oneof] = int32(len(d.OneofDecl))
				d.OneofDecl = append(d.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: proto.String(f.Oneof)})
			}
		}
	}
	for _, f := range m.Fields {
		if f.Label == "map" {
			e := entry(f.Name)
			k := field(protos.F{Name: "key", Num: 1}, f.Key, "")
			v := field(protos.F{Name: "value", Num: 2, Ref: f.Ref}, f.Kind, "")
			d.NestedType = append(d.NestedType, &descriptorpb.DescriptorProto{
				Name: proto.String(e), Field: []*descriptorpb.FieldDescriptorProto{k, v},
				Options: &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)},
			})
			g := f
			g.Ref = full + "." + e
			d.Field = append(d.Field, field(g, "message", "map"))
			continue
		}
		p := field(f, f.Kind, f.Label)
		if f.Oneof != "" {
			p.OneofIndex = proto.Int32(oneofs[f.Oneof])
		}
		if syntax == "proto3" && f.Label == "optional" {
			p.Proto3Optional = proto.Bool(true)
			p.OneofIndex = proto.Int32(int32(len(d.OneofDecl)))
			d.OneofDecl = append(d.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: proto.String("_" + f.Name)})
		}
		d.Field = append(d.Field, p)
	}
	for _, s := range m.Sub {
		d.NestedType = append(d.NestedType, message(full, s, syntax))
	}
	for _, e := range m.Enums {
		d.EnumType = append(d.EnumType, enum(e))
	}
	return d
}

func enum(e protos.E) *descriptorpb.EnumDescriptorProto {
	d := &descriptorpb.EnumDescriptorProto{Name: proto.String(e.Name)}
	for i, n := range e.Names {
		d.Value = append(d.Value, &descriptorpb.EnumValueDescriptorProto{Name: proto.String(n), Number: proto.Int32(e.Values[i])})
	}
	return d
}

func file(f protos.File) *descriptorpb.FileDescriptorProto {
	d := &descriptorpb.FileDescriptorProto{
		Name: proto.String(f.Path), Package: proto.String(f.Package), Syntax: proto.String(f.Syntax),
		Dependency: f.Imports, Options: &descriptorpb.FileOptions{GoPackage: proto.String(f.GoPackage)},
	}
	for _, p := range f.Public {
		d.PublicDependency = append(d.PublicDependency, int32(len(d.Dependency)))
		d.Dependency = append(d.Dependency, p)
	}
	for _, m := range f.Messages {
		d.MessageType = append(d.MessageType, message(f.Package, m, f.Syntax))
	}
	for _, e := range f.Enums {
		d.EnumType = append(d.EnumType, enum(e))
	}
	return d
}

func fatal(a ...interface{}) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(1)
}

func main() {
	req := &pluginpb.CodeGeneratorRequest{}
	for _, f := range protos.Files {
		req.ProtoFile = append(req.ProtoFile, file(f))
		req.FileToGenerate = append(req.FileToGenerate, f.Path)
	}
	b, err := proto.Marshal(req)
	if err != nil {
		fatal(err)
	}
	cmd := exec.Command(os.Args[1])
	cmd.Stdin = bytes.NewReader(b)
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		fatal("the plugin fails:", err)
	}
	var resp pluginpb.CodeGeneratorResponse
	if err := proto.Unmarshal(out, &resp); err != nil {
		fatal("the plugin's answer cannot be read:", err)
	}
	if resp.Error != nil {
		fatal("the plugin reports:", *resp.Error)
	}
	for _, f := range resp.File {
		p := filepath.Join(os.Args[2], filepath.FromSlash(f.GetName()))
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			fatal(err)
		}
		if err := os.WriteFile(p, []byte(f.GetContent()), 0o644); err != nil {
			fatal(err)
		}
	}
}
