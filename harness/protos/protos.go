// Package protos is the table of proto files given to the generator: what the
// harnesses expect is derived from it, not from what the generator wrote.
package protos

// F is a field. Label is "" (implicit presence), "optional", "required",
// "repeated" or "map"; Oneof names the oneof the field is a member of.
type F struct {
	Name  string
	Num   int32
	Kind  string // a scalar kind, "enum" or "message"
	Label string
	Key   string // kind of the keys of a map
	Ref   string // full name of the enum or message type
	Oneof string
}

// M is a message; nested messages follow in Sub.
type M struct {
	Name   string
	Fields []F
	Sub    []M
	Enums  []E
}

// E is an enum.
type E struct {
	Name   string
	Names  []string
	Values []int32
}

// File is a proto file.
type File struct {
	Path, Package, GoPackage, Syntax string
	Imports                          []string
	Public                           []string
	Messages                         []M
	Enums                            []E
}

// Scalars lists the scalar kinds.
var Scalars = []string{"int32", "int64", "uint32", "uint64", "sint32", "sint64", "bool", "fixed32", "fixed64", "sfixed32", "sfixed64", "float", "double", "string", "bytes"}

// Keys lists the kinds that map keys may have.
var Keys = []string{"int32", "int64", "uint32", "uint64", "sint32", "sint64", "bool", "fixed32", "fixed64", "sfixed32", "sfixed64", "string"}

const root = "github.com/RomiChan/protobuf/internal/zzverif/gen/"

// numbers are spread over the lengths a tag can have.
var numbers = []int32{1, 2, 15, 16, 17, 2047, 2048, 20000, 262143, 262144, 33554431, 33554432, 536870911, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 18, 19, 20, 21, 22}

func all(label, enum, msg string) []F {
	var fs []F
	for i, k := range Scalars {
		fs = append(fs, F{Name: "f_" + k, Num: numbers[i], Kind: k, Label: label})
	}
	fs = append(fs, F{Name: "f_enum", Num: numbers[len(Scalars)], Kind: "enum", Label: label, Ref: enum})
	return append(fs, F{Name: "f_message", Num: numbers[len(Scalars)+1], Kind: "message", Label: label, Ref: msg})
}

func maps(enum, msg string) []F {
	var fs []F
	for i, k := range Keys {
		// every key kind, with values of every kind taken in turn
		fs = append(fs, F{Name: "k_" + k, Num: numbers[i], Kind: Scalars[(i*4+3)%len(Scalars)], Label: "map", Key: k})
	}
	for i, k := range Scalars {
		fs = append(fs, F{Name: "v_" + k, Num: 100 + int32(i), Kind: k, Label: "map", Key: Keys[(i*5+2)%len(Keys)]})
	}
	fs = append(fs, F{Name: "v_enum", Num: 130, Kind: "enum", Label: "map", Key: "sfixed32", Ref: enum})
	return append(fs, F{Name: "v_message", Num: 131, Kind: "message", Label: "map", Key: "sint64", Ref: msg})
}

func oneof(name, enum, msg string, from int32) []F {
	var fs []F
	for i, k := range Scalars {
		fs = append(fs, F{Name: name + "_" + k, Num: from + int32(i), Kind: k, Oneof: name})
	}
	fs = append(fs, F{Name: name + "_enum", Num: from + 20, Kind: "enum", Oneof: name, Ref: enum})
	return append(fs, F{Name: name + "_message", Num: from + 21, Kind: "message", Oneof: name, Ref: msg})
}

var leaf = M{Name: "Leaf", Fields: []F{{Name: "a", Num: 1, Kind: "int32"}, {Name: "b", Num: 2, Kind: "string"}}}

// Files are in dependency order.
var Files = []File{
	{
		Path: "other/common.proto", Package: "other", GoPackage: root + "other/common", Syntax: "proto3",
		Messages: []M{{Name: "Far", Fields: []F{{Name: "x", Num: 1, Kind: "sint32"}, {Name: "y", Num: 2, Kind: "bytes", Label: "optional"}}}},
		Enums:    []E{{"Hue", []string{"HUE_NONE", "HUE_RED", "HUE_LOW"}, []int32{0, 2147483647, -2147483648}}},
	},
	{
		Path: "third/common.proto", Package: "third", GoPackage: root + "third/common", Syntax: "proto2",
		Messages: []M{{Name: "Far", Fields: []F{{Name: "z", Num: 536870911, Kind: "sfixed64", Label: "required"}}}},
		Enums:    []E{{"Hue", []string{"T_FIRST", "T_ZERO", "T_NEG"}, []int32{5, 0, -1}}, {"Odd", []string{"ODD_ONE"}, []int32{-3}}},
	},
	{
		Path: "p3.proto", Package: "p3", GoPackage: root + "p3", Syntax: "proto3", Imports: []string{"other/common.proto", "third/common.proto"},
		Messages: []M{
			leaf,
			{Name: "Plain", Fields: all("", "p3.Kind", "p3.Leaf")},
			{Name: "Opt", Fields: all("optional", "p3.Kind", "p3.Leaf")},
			{Name: "Rep", Fields: all("repeated", "p3.Kind", "p3.Leaf")},
			{Name: "Maps", Fields: maps("p3.Kind", "p3.Leaf")},
			{Name: "Away", Fields: []F{
				{Name: "m", Num: 1, Kind: "message", Ref: "other.Far"},
				{Name: "e", Num: 2, Kind: "enum", Ref: "other.Hue"},
				{Name: "oe", Num: 3, Kind: "enum", Label: "optional", Ref: "other.Hue"},
				{Name: "rm", Num: 4, Kind: "message", Label: "repeated", Ref: "third.Far"},
				{Name: "re", Num: 5, Kind: "enum", Label: "repeated", Ref: "other.Hue"},
				{Name: "mm", Num: 6, Kind: "message", Label: "map", Key: "string", Ref: "other.Far"},
				{Name: "me", Num: 7, Kind: "enum", Label: "map", Key: "bool", Ref: "other.Hue"},
			}},
			{Name: "Outer", Fields: []F{
				{Name: "in", Num: 1, Kind: "message", Ref: "p3.Outer.Inner"},
				{Name: "st", Num: 2, Kind: "enum", Ref: "p3.Outer.State"},
				{Name: "self", Num: 3, Kind: "message", Ref: "p3.Outer"},
				{Name: "deep", Num: 4, Kind: "message", Label: "repeated", Ref: "p3.Outer.Inner.Deep"},
			}, Enums: []E{{"State", []string{"OFF", "ON"}, []int32{0, 1}}},
				Sub: []M{{Name: "Inner", Fields: []F{{Name: "back", Num: 16, Kind: "message", Ref: "p3.Outer"}, {Name: "d", Num: 1, Kind: "message", Label: "map", Key: "fixed64", Ref: "p3.Outer.Inner.Deep"}},
					Sub: []M{{Name: "Deep", Fields: []F{{Name: "v", Num: 1, Kind: "sfixed32", Label: "optional"}}}}}}},
			{Name: "Choice", Fields: append(append([]F{{Name: "before", Num: 1, Kind: "uint32"}}, oneof("one", "p3.Kind", "p3.Leaf", 100)...), append([]F{{Name: "between", Num: 2, Kind: "string"}}, append(oneof("two", "other.Hue", "other.Far", 200), F{Name: "after", Num: 3, Kind: "bool", Label: "optional"})...)...)},
		},
		Enums: []E{{"Kind", []string{"KIND_ZERO", "KIND_ONE", "KIND_NEG"}, []int32{0, 1, -1}}},
	},
	{
		Path: "p2.proto", Package: "p2", GoPackage: root + "p2", Syntax: "proto2", Imports: []string{"third/common.proto"},
		Messages: []M{
			{Name: "Leaf", Fields: []F{{Name: "a", Num: 1, Kind: "int32", Label: "optional"}, {Name: "b", Num: 2, Kind: "string", Label: "required"}}},
			{Name: "Opt", Fields: all("optional", "p2.Kind", "p2.Leaf")},
			{Name: "Req", Fields: all("required", "p2.Kind", "p2.Leaf")},
			{Name: "Rep", Fields: all("repeated", "p2.Kind", "p2.Leaf")},
			{Name: "Maps", Fields: maps("p2.Zeroed", "p2.Leaf")},
			{Name: "Choice", Fields: append(oneof("one", "third.Hue", "third.Far", 10), oneof("two", "p2.Kind", "p2.Leaf", 50)...)},
			{Name: "Pick", Fields: []F{
				{Name: "plain", Num: 1, Kind: "enum", Ref: "p2.Zeroed", Oneof: "what"}, {Name: "near", Num: 2, Kind: "enum", Ref: "p2.Pick.Own", Oneof: "what"},
				{Name: "far", Num: 3, Kind: "enum", Ref: "third.Odd", Oneof: "what"}, {Name: "out", Num: 4, Kind: "message", Ref: "p2.Pick", Oneof: "what"},
			}, Enums: []E{{"Own", []string{"OWN_A", "OWN_B"}, []int32{2147483647, 1}}}},
		},
		Enums: []E{{"Kind", []string{"LAST", "MIDDLE", "SECOND"}, []int32{-7, 0, 3}}, {"Zeroed", []string{"Z_NONE", "Z_MIN"}, []int32{0, -2147483648}}},
	},
	{
		Path: "pub.proto", Package: "pub", GoPackage: root + "pub", Syntax: "proto3", Public: []string{"p3.proto"},
		Messages: []M{{Name: "Using", Fields: []F{{Name: "o", Num: 1, Kind: "message", Ref: "p3.Outer"}}}},
	},
}
