package h

import (
	"reflect"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	"github.com/RomiChan/protobuf/internal/zzverif/ref"
	"github.com/RomiChan/protobuf/proto"
)

func cfg() ref.Cfg {
	c := ref.Cfg{Lens: []int{0, 1, 3, 127, 128}, Reps: []int{0, 1, 2}, Maps: []int{0, 1, 2}, Depth: 2, Elem: true}
	if nd.Tier() > 0 {
		c = ref.Cfg{Lens: []int{0, 1, 2, 3, 5, 8, 126, 127, 128, 129, 16383, 16384}, Reps: []int{0, 1, 2, 3}, Maps: []int{0, 1, 2, 3}, Depth: 3}
	}
	return c
}

// small is for types whose messages vary in many places at once.
func small() ref.Cfg {
	c := ref.Cfg{Lens: []int{0, 1, 127, 128}, Reps: []int{0, 1, 2}, Maps: []int{0, 1, 2}, Depth: 1, Elem: true}
	if nd.Tier() > 0 {
		c.Depth = 2
	}
	return c
}

func mapCfg() ref.Cfg {
	c := ref.Cfg{Lens: []int{0, 1, 128}, Reps: []int{0, 1}, Maps: []int{0, 1, 2}, Depth: 1, Elem: true, Bare: true}
	if nd.Tier() > 0 {
		c = ref.Cfg{Lens: []int{0, 1, 2, 127, 128}, Reps: []int{0, 1, 2}, Maps: []int{0, 1, 2, 3}, Depth: 1}
	}
	return c
}

func roundTrip(m interface{}, c ref.Cfg) {
	v := reflect.ValueOf(m).Elem()
	s := ref.Of(v.Type())
	ref.Focus(s, v, c)
	roundTripOf(m)
}

func roundTripOf(m interface{}) {
	v := reflect.ValueOf(m).Elem()
	s := ref.Of(v.Type())
	b, err := proto.Marshal(m)
	nd.Assert(err == nil, "Marshal returned an error")
	out := reflect.New(v.Type())
	err = proto.Unmarshal(b, out.Interface())
	nd.Assert(err == nil, "Unmarshal rejects what Marshal wrote")
	nd.Assert(ref.Equal(s, out.Elem(), v), "the message came back different")
	nd.Observe("len", uint64(len(b)))
}

func H_C01_scalars() { roundTrip(new(Scalars), cfg()) }
func H_C01_opts()    { roundTrip(new(Opts), cfg()) }
func H_C01_ptrs()    { roundTrip(new(Ptrs), cfg()) }
func H_C01_reps()    { roundTrip(new(Reps), cfg()) }
func H_C01_maps()    { warm(new(Maps)); roundTrip(new(Maps), mapCfg()) }
func H_C01_sibs()    { roundTrip(new(Sibs), cfg()) }
func H_C01_named()   { roundTrip(new(Named), cfg()) }
func H_C01_mixed()   { roundTrip(new(Mixed), cfg()) }
func H_C01_tree()    { roundTrip(new(Tree), small()) }
func H_C01_ping()    { roundTrip(new(Ping), cfg()) }

// Two fields at a time hold arbitrary values.
func H_C01_pairs() {
	m := new(Mixed)
	warm(m)
	v := reflect.ValueOf(m).Elem()
	s := ref.Of(v.Type())
	c := small()
	c.Lens = []int{0, 128}
	i := nd.Choose(len(s.Fields))
	j := nd.Choose(len(s.Fields))
	nd.Assume(i < j && (nd.Tier() > 0 || j == i+1))
	ref.FillAny(s.Fields[i], v.Field(s.Fields[i].Index), c)
	ref.FillAny(s.Fields[j], v.Field(s.Fields[j].Index), c)
	roundTripOf(m)
}
