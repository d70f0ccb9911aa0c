// Package nd is the interface between harnesses and the checker. The symbolic
// executor replaces every function here; the bodies below are what runs when
// a counterexample is replayed against the real code.
package nd

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
	"syscall"
	"unsafe"
)

// Failure is what a violated assertion panics with.
type Failure struct{ Msg string }

func (f Failure) Error() string { return "assertion failed: " + f.Msg }

// Skip is what an input outside the assumptions panics with.
type Skip struct{}

var (
	inputs []uint64
	pos    int
	obs    []string
	wg     sync.WaitGroup
	mu     sync.Mutex
	fails  []interface{}
	tier   int
	maps   [][]byte
)

// Start prepares a replay (not used by harnesses).
func Start(in []uint64, t int) {
	Stress(false)
	inputs, pos, obs, fails, tier = in, 0, nil, nil, t
	Counting, Steps = false, 0
	debug.SetMaxStack(1e9)
}

// Finish gives the observations of a replay (not used by harnesses).
func Finish() []string {
	Stress(false)
	for _, m := range maps {
		syscall.Munmap(m)
	}
	maps = nil
	return obs
}

func next() uint64 {
	if pos < len(inputs) {
		pos++
		return inputs[pos-1]
	}
	pos++
	return 0
}

// U8 and friends give an arbitrary value.
func U8() uint8   { return uint8(next()) }
func U16() uint16 { return uint16(next()) }
func U32() uint32 { return uint32(next()) }
func U64() uint64 { return next() }
func Bool() bool  { return next()&1 != 0 }

// Assume restricts the inputs considered.
func Assume(ok bool) {
	if !ok {
		panic(Skip{})
	}
}

// Assert states the property.
func Assert(ok bool, msg string) {
	if !ok {
		panic(Failure{msg})
	}
}

// Reach marks a situation the harness must cover.
func Reach(what string) {}

// Observe records a value that the replay must reproduce.
func Observe(name string, v uint64) { obs = append(obs, fmt.Sprintf("%s=%d", name, v)) }

// Concrete splits the exploration over the values of v.
func Concrete(v uint64) uint64 { return v }

// And, Or and Imp combine conditions without splitting the exploration.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func Imp(a, b bool) bool { return !a || b }

// SameBytes compares without splitting the exploration.
func SameBytes(x, y []byte) bool { return string(x) == string(y) }

// Ramp gives n bytes, byte(i*7+13) in place i.
func Ramp(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + 13)
	}
	return b
}

// GC is a garbage collection.
func GC() {
	runtime.GC()
	runtime.GC()
	for i := 0; i < 64; i++ {
		for n := 8; n <= 1024; n *= 2 {
			junk[i] = append(junk[i], make([]byte, n))
		}
	}
	for i := range junk {
		junk[i] = nil
	}
}

var junk [64][][]byte

// Stress collects garbage as often as can be from here on, or stops that.
func Stress(on bool) {
	Stressing = on
	if stop != nil {
		close(stop)
		wg2.Wait()
		stop = nil
		debug.SetGCPercent(100)
	}
	if on {
		debug.SetGCPercent(1)
		stop = make(chan bool)
		wg2.Add(1)
		go func(stop chan bool) {
			defer wg2.Done()
			for {
				select {
				case <-stop:
					return
				default:
					runtime.GC()
				}
			}
		}(stop)
	}
}

var (
	// Stressing is set between Stress(true) and Stress(false).
	Stressing bool

	stop chan bool
	wg2  sync.WaitGroup
)

// Limit says how much memory may be allocated until the call of Allocated.
func Limit(n int) {
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30})
	limit, base = n, total()
}

// Allocated gives the memory allocated since the call of Limit.
func Allocated() int {
	n := int(total() - base)
	if n > limit {
		panic(Failure{fmt.Sprintf("%d bytes allocated, the limit is %d", n, limit)})
	}
	return n
}

func total() uint64 {
	var s runtime.MemStats
	runtime.ReadMemStats(&s)
	return s.TotalAlloc
}

var (
	limit int
	base  uint64
)

// Steady says that the order in which maps are iterated does not matter until
// it is called again.
func Steady(on bool) {}

// Stack limits the call stack from here on, to so many calls and bytes (at
// least 20000 calls are always possible).
func Stack(calls, bytes int) { debug.SetMaxStack(bytes) }

// Work is the number of steps done so far: instructions in the checker,
// statements of the code under test in a build that counts them, 0 elsewhere.
func Work() uint64 {
	Counting = true
	return Steps
}

var (
	Counting bool
	Steps    uint64
)

// Flip inverts every byte.
func Flip(b []byte) {
	for i := range b {
		b[i] ^= 0xff
	}
}

// Tier is 0 for the quick check and 1 for the thorough one.
func Tier() int { return tier }

// Choose gives an arbitrary number below n, one path each.
func Choose(n int) int {
	if n <= 1 {
		return 0
	}
	v := U32()
	Assume(v < uint32(n))
	return int(Concrete(uint64(v)))
}

// Guarded copies data to memory that cannot be written and is followed by
// memory that cannot be accessed. The capacity extends into the latter.
func Guarded(data []byte) []byte {
	page := syscall.Getpagesize()
	n := (len(data) + page - 1) / page * page
	m, err := syscall.Mmap(-1, 0, n+page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	maps = append(maps, m)
	copy(m[n-len(data):], data)
	if n > 0 {
		if err := syscall.Mprotect(m[:n], syscall.PROT_READ); err != nil {
			panic(err)
		}
	}
	if err := syscall.Mprotect(m[n:], syscall.PROT_NONE); err != nil {
		panic(err)
	}
	return m[n-len(data) : n : n+16]
}

// SameMemory reports whether two slices' storage overlaps.
func SameMemory(a, b []byte) bool {
	if cap(a) == 0 || cap(b) == 0 {
		return false
	}
	x := *(*uintptr)(unsafe.Pointer(&a))
	y := *(*uintptr)(unsafe.Pointer(&b))
	return x < y+uintptr(cap(b)) && y < x+uintptr(cap(a))
}

// SameString reports whether a string's bytes lie in the storage of b.
func SameString(s string, b []byte) bool {
	if len(s) == 0 || cap(b) == 0 {
		return false
	}
	x := *(*uintptr)(unsafe.Pointer(&s))
	y := *(*uintptr)(unsafe.Pointer(&b))
	return x < y+uintptr(cap(b)) && y < x+uintptr(len(s))
}

// Spawn runs f concurrently with the harness.
func Spawn(f func()) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		defer func() {
			if x := recover(); x != nil {
				mu.Lock()
				fails = append(fails, x)
				mu.Unlock()
			}
		}()
		f()
	}()
}

// Join waits for everything spawned.
func Join() {
	wg.Wait()
	mu.Lock()
	defer mu.Unlock()
	if len(fails) > 0 {
		panic(fails[0])
	}
}

var long []byte

// LongBytes gives n bytes whose contents must not matter, n up to 2^33.
func LongBytes(n uint64) []byte {
	if long == nil {
		m, err := syscall.Mmap(-1, 0, 1<<33, syscall.PROT_READ, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
		if err != nil {
			panic(err)
		}
		long = m
	}
	return long[:n:n]
}

// LongString is LongBytes for strings.
func LongString(n uint64) string {
	b := LongBytes(n)
	return *(*string)(unsafe.Pointer(&b))
}
