package ref

import "reflect"

// Parts counts the pieces of memory a message refers to.
func Parts(s *Schema, v reflect.Value) int {
	k := 1 << 30
	scribble(s, v, &k, false)
	return 1<<30 - k
}

// Scribble writes to the piece number k: other contents, and something into
// the room behind a slice.
func Scribble(s *Schema, v reflect.Value, k int) { scribble(s, v, &k, true) }

func hit(k *int) bool {
	*k--
	return *k == -1
}

func scribble(s *Schema, v reflect.Value, k *int, do bool) {
	for _, f := range s.Fields {
		x := v.Field(f.Index)
		switch f.Card {
		case Plain:
			scribbleValue(f, x, k, do)
		case Ptr:
			if !x.IsNil() && hit(k) && do {
				x.Elem().Set(Some(f, 90))
			}
		case Rep:
			if x.IsNil() {
				continue
			}
			if hit(k) && do {
				all := x.Slice(0, x.Cap())
				for i := 0; i < all.Len(); i++ {
					if i >= x.Len() || f.Kind != Bytes && f.Kind != Message {
						all.Index(i).Set(Some(f, 91))
					}
				}
			}
			for i := 0; i < x.Len(); i++ {
				scribbleValue(f, x.Index(i), k, do)
			}
		case Map:
			if x.IsNil() {
				continue
			}
			if hit(k) && do {
				x.SetMapIndex(Some(f.Key, 92), Some(f.Val, 93))
				continue
			}
			if f.Val.Kind == Bytes || f.Val.Kind == Message {
				for _, key := range sortedKeys(f, x) {
					scribbleValue(f.Val, x.MapIndex(key), k, do)
				}
			}
		}
	}
}

func scribbleValue(f *Field, v reflect.Value, k *int, do bool) {
	switch f.Kind {
	case Bytes:
		if v.IsNil() || !hit(k) || !do {
			return
		}
		b := v.Bytes()
		for i := range b {
			b[i] ^= 0xff
		}
		for b := b[len(b):cap(b)]; len(b) > 0; b = b[1:] {
			b[0] = 0xee
		}
	case Message:
		if v.IsNil() {
			return
		}
		if hit(k) && do {
			for i, g := range f.Msg.Fields {
				if g.Card == Plain && g.Kind != Message && g.Kind != Bytes {
					v.Elem().Field(g.Index).Set(Some(g, 94+i))
				}
			}
		}
		scribble(f.Msg, v.Elem(), k, do)
	}
}

// sortedKeys lists a map's keys in the same order in every run.
func sortedKeys(f *Field, m reflect.Value) []reflect.Value {
	var keys []reflect.Value
	var encs []string
	for _, k := range m.MapKeys() {
		keys = append(keys, k)
		encs = append(encs, string(appendValue(nil, f.Key, k)))
		for i := len(keys) - 1; i > 0 && encs[i] < encs[i-1]; i-- {
			encs[i], encs[i-1] = encs[i-1], encs[i]
			keys[i], keys[i-1] = keys[i-1], keys[i]
		}
	}
	return keys
}
