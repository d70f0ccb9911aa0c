package ref

import (
	"math"
	"reflect"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
)

// Cfg bounds the messages generated.
type Cfg struct {
	Lens  []int // string and bytes lengths
	Reps  []int // element counts
	Maps  []int // entry counts
	Depth int   // nested messages
	Elem  bool  // vary only one element of a repeated field
	Bare  bool  // the other fields are unset
}

func choose(l []int) int { return l[nd.Choose(len(l))] }

// Content gives n bytes of which the outer ones are arbitrary.
func Content(n int) []byte {
	b := nd.Ramp(n)
	for i := 0; i < 3 && i < n; i++ {
		b[i] = nd.U8()
	}
	for i := n - 2; i < n; i++ {
		if i >= 3 {
			b[i] = nd.U8()
		}
	}
	return b
}

// Any gives an arbitrary value of one element of the field.
func Any(f *Field, c Cfg) reflect.Value {
	v := reflect.New(f.Elem).Elem()
	switch f.Kind {
	case Bool:
		v.SetBool(nd.Bool())
	case Int32, Sint32, Sfixed32:
		v.SetInt(int64(int32(nd.U32())))
	case Int64, Sint64, Sfixed64:
		v.SetInt(int64(nd.U64()))
	case Uint32, Fixed32:
		v.SetUint(uint64(nd.U32()))
	case Uint64, Fixed64:
		v.SetUint(nd.U64())
	case Float:
		v.Set(reflect.ValueOf(math.Float32frombits(nd.U32())))
	case Double:
		v.Set(reflect.ValueOf(math.Float64frombits(nd.U64())))
	case String:
		v.SetString(string(Content(choose(c.Lens))))
	case Bytes:
		v.SetBytes(Content(choose(c.Lens)))
	case Message:
		v.Set(reflect.New(f.Elem.Elem()))
		if c.Depth > 0 {
			c.Depth--
			Focus(f.Msg, v.Elem(), c)
		}
	}
	return v
}

// Some gives a fixed non-zero value, a different one for each salt.
func Some(f *Field, salt int) reflect.Value {
	v := reflect.New(f.Elem).Elem()
	switch f.Kind {
	case Bool:
		v.SetBool(true)
	case Int32, Sint32, Sfixed32:
		v.SetInt(int64(int32(-1000003 * (salt + 1))))
	case Int64, Sint64, Sfixed64:
		v.SetInt(-100000000003 * int64(salt+1))
	case Uint32, Fixed32:
		v.SetUint(uint64(1000003 * (salt + 1)))
	case Uint64, Fixed64:
		v.SetUint(100000000003 * uint64(salt+1))
	case Float:
		v.Set(reflect.ValueOf(float32(salt) + 1.5))
	case Double:
		v.Set(reflect.ValueOf(float64(salt) + 2.5))
	case String:
		v.SetString("s" + string(rune('a'+salt%26)))
	case Bytes:
		v.SetBytes([]byte{byte(salt), 0xff, 0})
	case Message:
		v.Set(reflect.New(f.Elem.Elem()))
		for i, g := range f.Msg.Fields {
			if g.Card == Plain && g.Kind != Message {
				v.Elem().Field(g.Index).Set(Some(g, salt+i))
			}
		}
	}
	return v
}

// FillSome stores fixed non-zero contents in a field.
func FillSome(f *Field, v reflect.Value, salt int) {
	switch f.Card {
	case Plain:
		v.Set(Some(f, salt))
	case Opt:
		SetOption(v, Some(f, salt))
	case Ptr:
		p := reflect.New(f.Elem)
		p.Elem().Set(Some(f, salt))
		v.Set(p)
	case Rep:
		v.Set(reflect.Append(v, Some(f, salt), Some(f, salt+1)))
	case Map:
		v.Set(reflect.MakeMap(f.Type))
		v.SetMapIndex(Some(f.Key, salt), Some(f.Val, salt+1))
	}
}

// FillAny stores arbitrary contents in a field.
func FillAny(f *Field, v reflect.Value, c Cfg) {
	switch f.Card {
	case Plain:
		if (f.Kind == Message || f.Kind == Bytes) && nd.Choose(2) == 0 {
			return
		}
		v.Set(Any(f, c))
	case Opt:
		if nd.Bool() {
			SetOption(v, Any(f, c))
		}
	case Ptr:
		if nd.Bool() {
			p := reflect.New(f.Elem)
			p.Elem().Set(Any(f, c))
			v.Set(p)
		}
	case Rep:
		n := choose(c.Reps)
		pick := -1
		if c.Elem && n > 1 {
			pick = []int{0, n / 2, n - 1}[nd.Choose(3)]
		}
		for i := 0; i < n; i++ {
			if pick >= 0 && i != pick {
				v.Set(reflect.Append(v, Some(f, i)))
				continue
			}
			v.Set(reflect.Append(v, Any(f, c)))
		}
	case Map:
		n := choose(c.Maps)
		if n == 0 {
			return
		}
		v.Set(reflect.MakeMap(f.Type))
		for i := 0; i < n; i++ {
			if i == 0 && n > 1 {
				v.SetMapIndex(Some(f.Key, i), Some(f.Val, i))
				continue
			}
			if n > 1 && c.Elem {
				v.SetMapIndex(Any(f.Key, c), Some(f.Val, 7))
				continue
			}
			v.SetMapIndex(Any(f.Key, c), Any(f.Val, c))
		}
	}
}

// Focus gives one field of the message arbitrary contents; the others are
// all unset or all hold fixed contents.
func Focus(s *Schema, v reflect.Value, c Cfg) {
	k := nd.Choose(len(s.Fields))
	bg := 0
	if !c.Bare {
		bg = nd.Choose(2)
	}
	for i, f := range s.Fields {
		if i == k {
			FillAny(f, v.Field(f.Index), c)
		} else if bg == 1 {
			FillSome(f, v.Field(f.Index), i)
		}
	}
}

// All gives every field arbitrary contents.
func All(s *Schema, v reflect.Value, c Cfg) {
	for _, f := range s.Fields {
		FillAny(f, v.Field(f.Index), c)
	}
}
