package ref

import (
	"github.com/RomiChan/protobuf/internal/zzverif/nd"
)

// W bounds the encodings generated.
type W struct {
	Varints []int // encoded lengths of varints
	Lens    []int // payload lengths of strings and bytes
	Depth   int
	Pad     bool // also non-minimal tags and lengths
	Subs    int  // records in an embedded message
	Entries int  // variants of map entries, see entry
	Keys    int  // map keys: one of so many fixed ones, or arbitrary if 0
}

// VarintN gives an arbitrary varint of exactly n bytes (n up to 10).
func VarintN(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		c := nd.U8()
		switch {
		case i < n-1:
			c |= 0x80
		case i == 9:
			c &= 1
		default:
			c &= 0x7f
		}
		b[i] = c
	}
	return b
}

// Padded writes x as a varint with extra bytes.
func Padded(b []byte, x uint64, extra int) []byte {
	b = AppendVarint(b, x)
	for ; extra > 0; extra-- {
		b[len(b)-1] |= 0x80
		b = append(b, 0)
	}
	return b
}

func (w W) num(b []byte, x uint64) []byte {
	if w.Pad {
		return Padded(b, x, nd.Choose(2)*2)
	}
	return AppendVarint(b, x)
}

// Delimited writes a length and the data.
func (w W) Delimited(b, data []byte) []byte {
	b = w.num(b, uint64(len(data)))
	return append(b, data...)
}

// Record gives one arbitrary well-formed record of a field.
func (w W) Record(f *Field) []byte {
	b := w.num(nil, f.Num<<3|f.Wire())
	if f.Card == Map {
		return w.Delimited(b, w.entry(f))
	}
	return append(b, w.payload(f)...)
}

// Payload gives an arbitrary value without tag.
func (w W) Payload(f *Field) []byte { return w.payload(f) }

func (w W) payload(f *Field) []byte {
	switch f.Wire() {
	case Varint:
		return VarintN(choose(w.Varints))
	case W32:
		return Raw(4)
	case W64:
		return Raw(8)
	}
	if f.Kind != Message {
		return w.Delimited(nil, Content(choose(w.Lens)))
	}
	var sub []byte
	if w.Depth > 0 {
		in := w
		in.Depth--
		in.Pad = false
		n := nd.Choose(w.Subs + 1)
		for i := 0; i < n; i++ {
			sub = append(sub, in.Record(f.Msg.Fields[nd.Choose(len(f.Msg.Fields))])...)
		}
	}
	return w.Delimited(nil, sub)
}

// entry gives the contents of a map entry.
func (w W) entry(f *Field) []byte {
	in := w
	in.Pad = false
	if w.Keys > 0 {
		k := appendValue(appendTag(nil, f.Key), f.Key, Some(f.Key, nd.Choose(w.Keys)))
		return append(k, in.Record(f.Val)...)
	}
	switch nd.Choose(w.Entries) {
	case 0:
		return append(in.Record(f.Key), in.Record(f.Val)...)
	case 1:
		return append(in.Record(f.Val), in.Record(f.Key)...)
	case 2:
		return in.Record(f.Key)
	case 3:
		return in.Record(f.Val)
	case 4:
		return nil
	case 5:
		return append(append(in.Record(f.Key), in.Record(f.Val)...), in.Record(f.Val)...)
	case 6:
		return append(append(in.Record(f.Key), in.Record(f.Key)...), in.Record(f.Val)...)
	default:
		return append(append(in.Record(f.Key), Unknown(nil, 1)...), in.Record(f.Val)...)
	}
}

// Raw gives n arbitrary bytes.
func Raw(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.U8()
	}
	return b
}

// Unknown gives an arbitrary well-formed record of a field that is not
// declared in s (or whose number is above 2 where s is nil, for map entries),
// its tag taking up to max bytes.
func Unknown(s *Schema, max int) []byte { return UnknownN(s, 1+nd.Choose(max)) }

// UnknownN is Unknown with a tag of n bytes.
func UnknownN(s *Schema, n int) []byte {
	b := VarintN(n)
	tag, _, _ := ReadVarint(b)
	num, wire := tag>>3, tag&7
	nd.Assume(nd.And(num != 0, tag>>32 == 0))
	if s == nil {
		nd.Assume(num > 2)
	} else {
		for _, f := range s.Fields {
			nd.Assume(num != f.Num)
		}
	}
	switch nd.Choose(4) {
	case 0:
		nd.Assume(wire == Varint)
		return append(b, VarintN([]int{1, 2, 5, 9, 10}[nd.Choose(5)])...)
	case 1:
		nd.Assume(wire == W32)
		return append(b, Raw(4)...)
	case 2:
		nd.Assume(wire == W64)
		return append(b, Raw(8)...)
	default:
		nd.Assume(wire == Len)
		n := []int{0, 1, 2, 5, 130}[nd.Choose(5)]
		b = Padded(b, uint64(n), nd.Choose(2))
		return append(b, Content(n)...)
	}
}
