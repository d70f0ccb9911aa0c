package h

import (
	"reflect"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	"github.com/RomiChan/protobuf/internal/zzverif/ref"
	"github.com/RomiChan/protobuf/proto"
)

// stressed calls f with the garbage collector running all the time.
func stressed(f func()) {
	nd.Stress(true)
	f()
	nd.Stress(false)
	nd.GC()
}

// collected decodes b into m while garbage is collected and requires what
// would be there without.
func collected(b []byte, m interface{}) {
	v := reflect.ValueOf(m).Elem()
	s := ref.Of(v.Type())
	want := ref.Clone(s, v)
	p := ref.Decode(b, s, want)
	nd.Assume(p.Why == ref.Valid)
	var err error
	stressed(func() { err = proto.Unmarshal(b, m) })
	nd.Assert(err == nil, "Unmarshal rejects a valid message")
	nd.Assert(ref.Equal(s, v, want), "the decoded message does not survive garbage collection")
	var n int
	var out []byte
	stressed(func() { n = proto.Size(m) })
	stressed(func() { out, err = proto.Marshal(m) })
	nd.Assert(err == nil, "Marshal returned an error")
	nd.Assert(n == len(out), "Size differs from the length of Marshal's output")
	again := reflect.New(v.Type())
	nd.Assert(ref.Decode(out, s, again.Elem()).Why == ref.Valid, "Marshal's output does not survive garbage collection")
	nd.Assert(ref.Equal(s, again.Elem(), want), "Marshal's output does not survive garbage collection")
	nd.Observe("sum", ref.Sum(s, v))
}

func w24() ref.W {
	w := ref.W{Varints: []int{2}, Lens: []int{0, 5}, Depth: 1, Subs: 2, Entries: 2}
	if nd.Tier() > 0 {
		w.Lens = []int{0, 1, 16, 33, 1000}
		w.Entries = 3
	}
	return w
}

func survives(m interface{}, w ref.W) {
	t := warm(m)
	s := ref.Of(t)
	nd.GC()
	b := w.Record(s.Fields[nd.Choose(len(s.Fields))])
	if nd.Choose(2) == 1 {
		fillAll(m)
	}
	collected(b, m)
}

// verif: gc
func H_C24_scalars() { survives(new(Scalars), w24()) }

// verif: gc
func H_C24_opts() { survives(new(Opts), w24()) }

// verif: gc
func H_C24_ptrs() { survives(new(Ptrs), w24()) }

// verif: gc
func H_C24_reps() { survives(new(Reps), w24()) }

// verif: gc
func H_C24_maps() { w := w24(); w.Subs = 1; survives(new(Maps), w) }

// verif: gc
func H_C24_named() { survives(new(Named), w24()) }

// verif: gc
func H_C24_small() { survives(new(Small), w24()) }

// verif: gc
func H_C24_nest() { survives(new(Nest), w24()) }

// Types met for the first time while garbage is collected.
// verif: gc
func H_C24_first() {
	ms := []interface{}{new(Scalars), new(Opts), new(Ptrs), new(Reps), new(Maps), new(Named), new(Small), new(Nest)}
	m := ms[nd.Choose(len(ms))]
	s := ref.Of(typeOf(m))
	fillAll(m)
	var b []byte
	switch nd.Choose(3) {
	case 0:
		stressed(func() { proto.Size(m) })
	case 1:
		var err error
		stressed(func() { b, err = proto.Marshal(m) })
		nd.Assert(err == nil, "Marshal returned an error")
	}
	if b == nil {
		b = ref.Encode(nil, s, reflect.ValueOf(m).Elem())
	}
	collected(b, reflect.New(typeOf(m)).Interface())
}

// Several records of a field, some in the same call, some in the next: slices
// and maps grow, and what the library keeps for the next time is used.
func again(m interface{}, w ref.W) {
	s := ref.Of(warm(m))
	nd.GC()
	n := growth(m)
	f := s.Fields[nd.Choose(len(s.Fields))]
	one := w.Record(f)
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, one...)
	}
	collected(b, m)
	collected(one, m)
}

// growth is enough for slices to grow, where there are few paths.
func growth(m interface{}) int {
	_, maps := m.(*Maps)
	_, nest := m.(*Nest)
	switch {
	case maps || nest:
		return 2
	case nd.Tier() > 0:
		return 40
	}
	return 11
}

func w24again() ref.W {
	return ref.W{Varints: []int{2}, Lens: []int{3}, Depth: 1, Subs: 1, Entries: 1}
}

// verif: gc
func H_C24_again_small() { again(new(Small), w24again()) }

// verif: gc
func H_C24_again_reps() { again(new(Reps), w24again()) }

// verif: gc
func H_C24_again_maps() { w := w24again(); w.Depth = 0; again(new(Maps), w) }

// verif: gc
func H_C24_again_nest() { w := w24again(); w.Depth = 0; again(new(Nest), w) }

// Input that fails part way through.
// verif: gc
func H_C24_failing() {
	m := new(Small)
	s := ref.Of(warm(m))
	nd.GC()
	w := w24()
	w.Subs = 1
	b := w.Record(s.Fields[nd.Choose(len(s.Fields))])
	b = append(b, ref.Raw(2)...)
	var err error
	stressed(func() { err = proto.Unmarshal(b, m) })
	if err != nil {
		nd.Reach("error")
		stressed(func() { nd.Assert(len(err.Error()) > 0, "no message") })
	}
	v := reflect.ValueOf(m).Elem()
	nd.Observe("sum", ref.Sum(s, v))
	stressed(func() { _, err = proto.Marshal(m) })
	nd.Assert(err == nil, "Marshal returned an error")
}
