package h

import (
	"reflect"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	"github.com/RomiChan/protobuf/internal/zzverif/ref"
	"github.com/RomiChan/protobuf/proto"
)

type iface15 interface{ M() }
type int15 int

func (int15) M() {}

// invalid15 lists arguments that are not pointers to structs.
func invalid15() []interface{} {
	n, s, bs, ar := 5, "x", []byte{1, 2}, [3]uint32{1, 2, 3}
	i32, f := int32(7), 1.5
	p := &Small{A: true}
	var np *Small
	var ni *int
	var nm map[string]int
	var e interface{} = 3
	var e2 iface15 = int15(4)
	return []interface{}{
		nil, 0, int32(1), "text", 2.5, true, []byte{1}, []*Small{p}, map[string]int{"a": 1}, nm,
		func() {}, make(chan int), Small{C: "v"}, Leaf{}, [2]byte{1, 2}, int15(3), uintptr(8),
		&n, &s, &bs, &ar, &i32, &f, &p, &np, ni, &ni, &nm, &e, &e2, (**Small)(nil), (*[]byte)(nil), (*map[string]int)(nil), (*interface{})(nil), (*func())(nil), new(chan int),
	}
}

func contains(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

// look reads what an argument refers to, as a number.
func look(x interface{}) uint64 {
	switch p := x.(type) {
	case *int:
		if p != nil {
			return uint64(*p)
		}
	case *string:
		return ref.SumBytes([]byte(*p))
	case *[]byte:
		if p != nil {
			return ref.SumBytes(*p)
		}
	case *[3]uint32:
		return uint64(p[0]) + uint64(p[1])<<8 + uint64(p[2])<<16
	case *int32:
		return uint64(*p)
	case **Small:
		if p != nil && *p != nil {
			return ref.Sum(ref.Of(reflect.TypeOf(Small{})), reflect.ValueOf(*p).Elem())
		}
	case map[string]int:
		return uint64(len(p))
	case []byte:
		return ref.SumBytes(p)
	}
	return 1
}

// Unmarshal into anything but a pointer to a struct.
func H_C15_unmarshal() {
	l := invalid15()
	x := l[nd.Choose(len(l))]
	before := look(x)
	b := ref.Raw(1 + nd.Choose(4))
	err := proto.Unmarshal(b, x)
	nd.Assert(err != nil, "Unmarshal accepts an invalid target")
	e, ok := err.(*proto.InvalidUnmarshalError)
	nd.Assert(ok, "the error is not an InvalidUnmarshalError")
	nd.Assert(e.Type == reflect.TypeOf(x), "the error names another type")
	s := err.Error()
	nd.Assert(len(s) > 0, "the error has no text")
	if x == nil {
		nd.Assert(contains(s, "nil"), "the error does not name the problem")
	} else {
		nd.Assert(contains(s, e.Type.String()), "the error does not name the type")
	}
	nd.Assert(look(x) == before, "Unmarshal wrote to an invalid target")
}

// Unmarshal into nil pointers to structs.
func H_C15_nilptr() {
	l := []interface{}{(*Small)(nil), (*Leaf)(nil), (*Tree)(nil), (*Maps)(nil), (*Empty)(nil), (*Mixed)(nil)}
	x := l[nd.Choose(len(l))]
	if nd.Choose(2) == 1 {
		// known already
		proto.Size(x)
	}
	b := ref.Raw(1 + nd.Choose(4))
	err := proto.Unmarshal(b, x)
	e, ok := err.(*proto.InvalidUnmarshalError)
	nd.Assert(ok && e != nil, "the error is not an InvalidUnmarshalError")
	nd.Assert(e.Type == reflect.TypeOf(x), "the error names another type")
	nd.Assert(contains(err.Error(), "nil") && contains(err.Error(), e.Type.String()), "the error does not name the problem")
}

// Marshal of anything but a pointer to a struct.
func H_C15_marshal() {
	l := invalid15()
	x := l[nd.Choose(len(l))]
	before := look(x)
	b, err := proto.Marshal(x)
	nd.Assert(err != nil, "Marshal accepts an invalid argument")
	nd.Assert(len(b) == 0, "Marshal gives bytes with an error")
	nd.Assert(len(err.Error()) > 0, "the error has no text")
	nd.Assert(look(x) == before, "Marshal wrote to an invalid argument")
}

// Marshal and Size of nil message pointers, before and after other uses.
func H_C15_nilmessage() {
	l := []interface{}{(*Small)(nil), (*Leaf)(nil), (*Tree)(nil), (*Maps)(nil), (*Empty)(nil), (*Mixed)(nil), (*Opts)(nil), (*Reps)(nil)}
	x := l[nd.Choose(len(l))]
	if nd.Choose(2) == 1 {
		m := newOf(typeOf(x))
		fillAll(m)
		_, err := proto.Marshal(m)
		nd.Assert(err == nil, "Marshal returned an error")
	}
	if nd.Choose(2) == 1 {
		nd.Assert(proto.Size(x) == 0, "a nil message has a size")
	}
	b, err := proto.Marshal(x)
	nd.Assert(err == nil, "Marshal of a nil message returns an error")
	nd.Assert(len(b) == 0, "Marshal of a nil message gives bytes")
	nd.Assert(proto.Size(x) == 0, "a nil message has a size")
}

// An invalid call does not disturb later ones.
func H_C15_after() {
	l := invalid15()
	x := l[nd.Choose(len(l))]
	proto.Unmarshal([]byte{8, 1}, x)
	proto.Marshal(x)
	m := &Small{A: true, C: string(ref.Raw(2))}
	s, v := ref.Of(typeOf(m)), reflect.ValueOf(m).Elem()
	final(m, s, v)
}
