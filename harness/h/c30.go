package h

import (
	"reflect"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	"github.com/RomiChan/protobuf/internal/zzverif/ref"
)

func c30() ref.Cfg {
	c := ref.Cfg{Lens: []int{0, 2}, Reps: []int{0, 2}, Maps: []int{0, 1}, Depth: 1, Elem: true}
	if nd.Tier() > 0 {
		c.Depth = 2 // one entry: the order of two is another in each call
	}
	return c
}

// sharedMessage measures and encodes one message, one of whose fields is
// arbitrary, in several goroutines.
func sharedMessage(m interface{}) {
	t := warm(m)
	s := ref.Of(t)
	v := reflect.ValueOf(m).Elem()
	f := s.Fields[nd.Choose(len(s.Fields))]
	ref.FillAny(f, v.Field(f.Index), c30())
	want := ref.Encode(nil, s, v)
	before := ref.Clone(s, v)
	n := 2
	if nd.Tier() > 0 {
		n = 3
	}
	var ts []*task
	for i, last := 0, 0; i < n; i++ {
		op := nd.Choose(2)
		nd.Assume(op >= last)
		last = op
		ts = append(ts, &task{in: m, op: 2 * op, s: s, data: want})
	}
	race(ts...)
	nd.Assert(ref.Equal(s, v, before), "Marshal and Size changed the message")
	for _, x := range ts[1:] {
		if x.op == 0 && ts[0].op == 0 {
			nd.Assert(!nd.SameMemory(x.got, ts[0].got), "two results are the same memory")
		}
	}
	nd.Observe("size", uint64(len(want)))
}

// verif: race reach=joined fixedmap
func H_C30_message_small() { sharedMessage(new(Small)) }

// verif: race reach=joined fixedmap
func H_C30_message_scalars() { sharedMessage(new(Scalars)) }

// verif: race reach=joined fixedmap
func H_C30_message_opts() { sharedMessage(new(Opts)) }

// verif: race reach=joined fixedmap
func H_C30_message_ptrs() { sharedMessage(new(Ptrs)) }

// verif: race reach=joined fixedmap
func H_C30_message_reps() { sharedMessage(new(Reps)) }

// verif: race reach=joined fixedmap
func H_C30_message_maps() { sharedMessage(new(Maps)) }

// verif: race reach=joined fixedmap
func H_C30_message_nest() { sharedMessage(new(Nest)) }

// verif: race reach=joined fixedmap
func H_C30_message_named() { sharedMessage(new(Named)) }

// All fields of a message hold something.
// verif: race reach=joined fixedmap
func H_C30_message_all() {
	m := []interface{}{new(Scalars), new(Opts), new(Ptrs), new(Reps), new(Small), new(Mixed), new(Nest), new(Named), new(Sibs)}[nd.Choose(9)]
	warm(m)
	fillAll(m)
	race(newTask(m, 2*nd.Choose(2)), newTask(m, 0))
}

// Two messages refer to the same message, bytes, array and map.
// verif: race reach=joined fixedmap
func H_C30_parts() {
	warm(new(Nest))
	x, y := new(Nest), new(Nest)
	fillAll(x)
	v, w := reflect.ValueOf(x).Elem(), reflect.ValueOf(y).Elem()
	s := ref.Of(v.Type())
	for i, f := range s.Fields {
		if nd.Choose(2) == 1 {
			w.Field(f.Index).Set(v.Field(f.Index))
		} else {
			ref.FillSome(f, w.Field(f.Index), i+1)
		}
	}
	race(newTask(x, 2*nd.Choose(2)), newTask(y, 0))
}

// sharedInput decodes one input in several goroutines.
func sharedInput(m interface{}, b []byte) {
	t := reflect.TypeOf(m).Elem()
	s := ref.Of(t)
	want := reflect.New(t)
	why := ref.Decode(b, s, want.Elem()).Why
	nd.Assume(why != ref.Unspecified)
	valid := why == ref.Valid
	n := 2
	if nd.Tier() > 0 {
		n = 3
	}
	var ts []*task
	for i := 0; i < n; i++ {
		ts = append(ts, &task{in: want.Interface(), out: newOf(t), op: 1, s: s, data: b})
	}
	for _, x := range ts {
		nd.Spawn(x.run)
	}
	nd.Join()
	for _, x := range ts {
		v := reflect.ValueOf(x.out).Elem()
		nd.Assert((x.err == nil) == valid, "a concurrent Unmarshal of the same input gives another result")
		nd.Assert(ref.Equal(s, v, want.Elem()), "a concurrent Unmarshal of the same input gives another message")
		nd.Observe("sum", ref.Sum(s, v))
	}
	if valid {
		nd.Reach("decoded")
	} else {
		nd.Reach("failed")
	}
	a, c := reflect.ValueOf(ts[0].out).Elem(), reflect.ValueOf(ts[1].out).Elem()
	if parts := ref.Parts(s, a); parts > 0 {
		ref.Scribble(s, a, nd.Choose(parts))
		nd.Assert(ref.Equal(s, c, want.Elem()), "messages decoded from the same input share memory")
	}
}

func sharedRecord(m interface{}) {
	t := warm(m)
	s := ref.Of(t)
	w := ref.W{Varints: []int{2}, Lens: []int{0, 3}, Depth: 1, Subs: 1, Entries: 2}
	if nd.Tier() > 0 {
		w.Varints = []int{1, 10}
		w.Entries = 8
	}
	b := w.Record(s.Fields[nd.Choose(len(s.Fields))])
	if k := nd.Choose(2); k == 1 {
		b = b[:len(b)-1]
	}
	sharedInput(m, b)
}

// verif: race reach=decoded,failed fixedmap
func H_C30_input_small() { sharedRecord(new(Small)) }

// verif: race reach=decoded,failed fixedmap
func H_C30_input_scalars() { sharedRecord(new(Scalars)) }

// verif: race reach=decoded,failed fixedmap
func H_C30_input_opts() { sharedRecord(new(Opts)) }

// verif: race reach=decoded,failed fixedmap
func H_C30_input_ptrs() { sharedRecord(new(Ptrs)) }

// verif: race reach=decoded,failed fixedmap
func H_C30_input_reps() { sharedRecord(new(Reps)) }

// verif: race reach=decoded,failed fixedmap
func H_C30_input_maps() { sharedRecord(new(Maps)) }

// verif: race reach=decoded,failed fixedmap
func H_C30_input_nest() { sharedRecord(new(Nest)) }

// One goroutine encodes what another has as its input: a message whose bytes
// are that input.
// verif: race reach=joined fixedmap
func H_C30_both() {
	warm(new(Small))
	warm(new(Scalars))
	x := new(Small)
	fillAll(x)
	b := ref.Encode(nil, ref.Of(typeOf(x)), reflect.ValueOf(x).Elem())
	m := &Scalars{O: b}
	race(newTask(m, 2*nd.Choose(2)), &task{in: x, out: new(Small), op: 1, s: ref.Of(typeOf(x)), data: b})
}

// Arbitrary bytes as the input of two calls.
// verif: race reach=decoded,failed fixedmap
func H_C30_bytes() {
	m := []interface{}{new(Tiny), new(TinyRep)}[nd.Choose(2)]
	warm(m)
	sharedInput(m, ref.Raw(1+nd.Choose(3+nd.Tier())))
}

// The first use of a type is by several goroutines that share the message.
// verif: race reach=joined fixedmap
func H_C30_first() {
	m := pickCO(1)
	race(newTask(m, 2*nd.Choose(2)), newTask(m, 0))
}
