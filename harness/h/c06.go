package h

import (
	"reflect"

	"github.com/RomiChan/protobuf/internal/zzverif/nd"
	"github.com/RomiChan/protobuf/internal/zzverif/ref"
	"github.com/RomiChan/protobuf/proto"
)

// total decodes b, which lies in memory that must not be written and must not
// be read beyond its end, into m and then reads all that m refers to. The
// executor reports every panic, every access outside an object and every path
// that does not end.
func total(m interface{}, b []byte) {
	v := reflect.ValueOf(m).Elem()
	err := proto.Unmarshal(nd.Guarded(b), m)
	if err != nil {
		nd.Reach("error")
		nd.Assert(len(err.Error()) > 0, "an error without text")
		nd.Observe("err", 1)
	} else {
		nd.Reach("ok")
	}
	nd.Observe("sum", ref.Sum(ref.Of(v.Type()), v))
}

// fillAll stores fixed contents in every field.
func fillAll(m interface{}) {
	v := reflect.ValueOf(m).Elem()
	for i, f := range ref.Of(v.Type()).Fields {
		ref.FillSome(f, v.Field(f.Index), i)
	}
}

func totalBytes(m interface{}, quick, thorough int) {
	warm(m)
	n := quick
	if nd.Tier() > 0 {
		n = thorough
	}
	if nd.Choose(2) == 1 {
		fillAll(m)
	}
	total(m, ref.Raw(nd.Choose(n+1)))
}

// Arbitrary bytes.
// verif: reach=error,ok
func H_C06_bytes_scalars() { totalBytes(new(Scalars), 4, 6) }

// verif: reach=error,ok
func H_C06_bytes_opts() { totalBytes(new(Opts), 4, 6) }

// verif: reach=error,ok
func H_C06_bytes_ptrs() { totalBytes(new(Ptrs), 4, 6) }

// verif: reach=error,ok
func H_C06_bytes_reps() { totalBytes(new(Reps), 4, 6) }

// verif: reach=error,ok
func H_C06_bytes_maps() { totalBytes(new(Maps), 3, 5) }

// verif: reach=error,ok
func H_C06_bytes_named() { totalBytes(new(Named), 4, 6) }

// verif: reach=error,ok
func H_C06_bytes_mixed() { totalBytes(new(Mixed), 4, 6) }

// verif: reach=error,ok
func H_C06_bytes_tree() { totalBytes(new(Tree), 5, 7) }

// verif: reach=error,ok
func H_C06_bytes_nest() { totalBytes(new(Nest), 5, 7) }

// verif: reach=error,ok
func H_C06_bytes_tinyrep() { totalBytes(new(TinyRep), 5, 7) }

// verif: reach=error,ok
func H_C06_bytes_empty() { totalBytes(new(Empty), 5, 8) }

type Empty struct{}

// totalField puts arbitrary bytes after the tag of each field.
func totalField(m interface{}, quick, thorough int) {
	t := warm(m)
	s := ref.Of(t)
	n := quick
	if nd.Tier() > 0 {
		n = thorough
	}
	f := s.Fields[nd.Choose(len(s.Fields))]
	b := ref.AppendVarint(nil, f.Num<<3|f.Wire())
	if nd.Choose(2) == 1 {
		fillAll(m)
	}
	total(m, append(b, ref.Raw(nd.Choose(n+1))...))
}

// Long runs of continuation bytes after the tag of each field.
func totalLong(m interface{}) {
	s := ref.Of(warm(m))
	f := s.Fields[nd.Choose(len(s.Fields))]
	b := ref.AppendVarint(nil, f.Num<<3|f.Wire())
	n := []int{6, 8, 9, 10, 11, 12}[nd.Choose(6)]
	x := ref.Raw(n)
	for i := 0; i < n-1; i++ {
		nd.Assume(x[i] >= 0x80)
	}
	total(m, append(b, x...))
}

func H_C06_long_scalars() { totalLong(new(Scalars)) }
func H_C06_long_opts()    { totalLong(new(Opts)) }
func H_C06_long_ptrs()    { totalLong(new(Ptrs)) }
func H_C06_long_reps()    { totalLong(new(Reps)) }
func H_C06_long_maps()    { totalLong(new(Maps)) }

func H_C06_field_scalars() { totalField(new(Scalars), 4, 9) }
func H_C06_field_opts()    { totalField(new(Opts), 4, 9) }
func H_C06_field_ptrs()    { totalField(new(Ptrs), 4, 9) }
func H_C06_field_reps()    { totalField(new(Reps), 4, 6) }
func H_C06_field_maps()    { totalField(new(Maps), 4, 5) }
func H_C06_field_named()   { totalField(new(Named), 4, 6) }
func H_C06_field_nest()    { totalField(new(Nest), 4, 6) }

// Lengths of every value for every length-delimited field and for undeclared
// ones, inside an embedded message as well.
func H_C06_lengths() {
	m := interface{}(new(Small))
	switch nd.Choose(3) {
	case 1:
		m = new(Nest)
	case 2:
		m = new(TinyRep)
	}
	s := ref.Of(warm(m))
	num := uint64(77)
	if k := nd.Choose(len(s.Fields) + 1); k < len(s.Fields) {
		num = s.Fields[k].Num
	}
	b := ref.AppendVarint(nil, num<<3|ref.Len)
	l := []int{1, 5, 10}
	if nd.Tier() > 0 {
		l = allVarints()
	}
	b = append(b, ref.VarintN(l[nd.Choose(len(l))])...)
	b = append(b, ref.Raw(nd.Choose(2+nd.Tier()))...)
	if nd.Choose(2) == 1 {
		m = new(Nest)
		b = wrap(uint64(1+nd.Choose(2)), b)
	}
	total(m, b)
}

// The target lies between other memory, which must not change.
type framed struct {
	p [3]uint64
	M Mixed
	q [3]uint64
}

func H_C06_frame() {
	var x framed
	t := warm(&x.M)
	s := ref.Of(t)
	var w [6]uint64
	for i := range w {
		w[i] = nd.U64()
	}
	copy(x.p[:], w[:3])
	copy(x.q[:], w[3:])
	wc := wcfg()
	wc.Varints = []int{1, 10}
	wc.Lens = []int{2}
	wc.Entries = 2
	wc.Subs = 1
	b := wc.Record(s.Fields[nd.Choose(len(s.Fields))])
	b = append(b, wc.Record(s.Fields[nd.Choose(len(s.Fields))])...)
	total(&x.M, b[:len(b)-nd.Choose(2)])
	for i := range x.p {
		nd.Assert(nd.And(x.p[i] == w[i], x.q[i] == w[i+3]), "Unmarshal wrote outside the message")
	}
}

// Deep nesting, complete and cut short.
func H_C06_deep() {
	n := 40
	if nd.Tier() > 0 {
		n = 400
	}
	warm(new(Tree))
	b := ref.Raw(nd.Choose(3))
	num := []uint64{1, 3, 4}[nd.Choose(3)]
	for i := 0; i < n; i++ {
		b = wrap(num, b)
	}
	if nd.Choose(2) == 1 {
		b = b[:len(b)-1-nd.Choose(2)]
	}
	total(new(Tree), b)
}

// Nesting of any depth must not use up the stack: what other implementations
// accept, 10000 levels, is room enough.
// verif: steps=200000000 samples=1
func H_C06_stack() {
	warm(new(Tree))
	nd.Steady(true)
	num := []uint64{1, 3, 4}[nd.Choose(3)]
	const levels = 60000
	r := make([]byte, 0, 6*levels) // backwards
	for i := 0; i < levels; i++ {
		l := len(r)
		p := ref.AppendVarint(ref.AppendVarint(nil, num<<3|ref.Len), uint64(l))
		for j := len(p) - 1; j >= 0; j-- {
			r = append(r, p[j])
		}
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	nd.Stack(40000, 16<<20)
	proto.Unmarshal(r, new(Tree))
}
