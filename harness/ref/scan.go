package ref

import (
	"reflect"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
)

// Rec is one record of an encoded message.
type Rec struct {
	Num, Wire uint64
	X         uint64 // varint and fixed-size values
	Data      []byte // length-delimited contents
	All       []byte // the whole record
}

// Split lists the records of an encoded message, or gives nil and false where
// it is not well-formed.
func Split(b []byte) ([]Rec, bool) {
	var out []Rec
	for len(b) > 0 {
		tag, n, w := ReadVarint(b)
		if w != Valid {
			return nil, false
		}
		r := Rec{Num: tag >> 3, Wire: tag & 7}
		switch r.Wire {
		case Varint:
			x, k, w := ReadVarint(b[n:])
			if w != Valid {
				return nil, false
			}
			r.X = x
			n += k
		case W32, W64:
			k := 4
			if r.Wire == W64 {
				k = 8
			}
			if len(b)-n < k {
				return nil, false
			}
			for i := k - 1; i >= 0; i-- {
				r.X = r.X<<8 | uint64(b[n+i])
			}
			n += k
		case Len:
			l, k, w := ReadVarint(b[n:])
			if w != Valid {
				return nil, false
			}
			n += k
			if l > uint64(len(b)-n) {
				return nil, false
			}
			l = nd.Concrete(l)
			r.Data = b[n : n+int(l)]
			n += int(l)
		default:
			return nil, false
		}
		r.All = b[:n]
		out = append(out, r)
		b = b[n:]
	}
	return out, true
}

// Count is the number of records with a field number.
func Count(rs []Rec, num uint64) int {
	n := 0
	for _, r := range rs {
		if r.Num == num {
			n++
		}
	}
	return n
}

// DecodeEntry reads the contents of a map entry.
func DecodeEntry(b []byte, f *Field) (key, val reflect.Value, p Problem) {
	key = reflect.New(f.Key.Elem).Elem()
	val = reflect.New(f.Val.Elem).Elem()
	p = decodeEntry(b, f, key, val)
	return
}

// Same compares two values of a field's element type.
func Same(f *Field, a, b reflect.Value) bool { return equalValue(f, a, b) }

// Aliases reports whether anything the message refers to lies in b.
func Aliases(s *Schema, v reflect.Value, b []byte) bool {
	for _, f := range s.Fields {
		x := v.Field(f.Index)
		switch f.Card {
		case Plain:
			if aliases(f, x, b) {
				return true
			}
		case Opt:
			if some, y := Get(x); some && aliases(f, y, b) {
				return true
			}
		case Ptr:
			if !x.IsNil() && aliases(f, x.Elem(), b) {
				return true
			}
		case Rep:
			for i := 0; i < x.Len(); i++ {
				if aliases(f, x.Index(i), b) {
					return true
				}
			}
		case Map:
			for _, k := range x.MapKeys() {
				if aliases(f.Key, k, b) || aliases(f.Val, x.MapIndex(k), b) {
					return true
				}
			}
		}
	}
	return false
}

func aliases(f *Field, v reflect.Value, b []byte) bool {
	switch f.Kind {
	case String:
		return nd.SameString(v.String(), b)
	case Bytes:
		return nd.SameMemory(v.Bytes(), b)
	case Message:
		return !v.IsNil() && Aliases(f.Msg, v.Elem(), b)
	}
	return false
}

// NonZero reports whether a scalar has a bit set.
func NonZero(k Kind, v reflect.Value) bool { return bits(k, v) != 0 }
