// Package model holds the stand-ins for library functions that are executed
// symbolically instead of the originals.
package model

import (
	"io"
	"reflect"
)

// format renders one operand (an intrinsic of the executor).
func format(verb string, v interface{}) string

// integer and digits are intrinsics of the executor, too.
func integer(v interface{}) (u uint64, kind int)
func digits(u uint64, k int) string

func decimal(u uint64) string {
	k, p := 1, uint64(10)
	for k < 20 && u >= p {
		k++
		p *= 10
		if k == 20 {
			break
		}
	}
	return digits(u, k)
}

func FormatUint(u uint64, base int) string {
	if base == 10 {
		return decimal(u)
	}
	var a [65]byte
	i := len(a)
	for {
		i--
		a[i] = "0123456789abcdefghijklmnopqrstuvwxyz"[u%uint64(base)]
		u /= uint64(base)
		if u == 0 {
			return string(a[i:])
		}
	}
}

func FormatInt(i int64, base int) string {
	if i < 0 {
		return "-" + FormatUint(-uint64(i), base)
	}
	return FormatUint(uint64(i), base)
}

func Itoa(i int) string                              { return FormatInt(int64(i), 10) }
func AppendInt(b []byte, i int64, base int) []byte   { return append(b, FormatInt(i, base)...) }
func AppendUint(b []byte, u uint64, base int) []byte { return append(b, FormatUint(u, base)...) }

type errorString struct{ s string }

func (e *errorString) Error() string { return e.s }

type wrapError struct {
	s   string
	err error
}

func (e *wrapError) Error() string { return e.s }
func (e *wrapError) Unwrap() error { return e.err }

type wrapErrors struct {
	s    string
	errs []error
}

func (e *wrapErrors) Error() string   { return e.s }
func (e *wrapErrors) Unwrap() []error { return e.errs }

type stringer interface{ String() string }

func operand(verb string, v interface{}) string {
	switch verb[len(verb)-1] {
	case 'v', 's', 'q', 'x', 'X', 'w':
		if verb[0] != '#' {
			switch x := v.(type) {
			case error:
				return format(verb, x.Error())
			case stringer:
				return format(verb, x.String())
			}
		}
	}
	if verb == "v" || verb == "d" {
		switch u, k := integer(v); k {
		case 1:
			return FormatInt(int64(u), 10)
		case 2:
			return FormatUint(u, 10)
		}
	}
	return format(verb, v)
}

func sprintf(f string, a []interface{}) (string, []error) {
	var b []byte
	var errs []error
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			b = append(b, f[i])
			continue
		}
		j := i + 1
		for j < len(f) && (f[j] >= '0' && f[j] <= '9' || f[j] == '+' || f[j] == '-' || f[j] == '#' || f[j] == ' ' || f[j] == '.') {
			j++
		}
		if j >= len(f) {
			b = append(b, "%!(NOVERB)"...)
			break
		}
		if f[j] == '%' {
			b = append(b, '%')
			i = j
			continue
		}
		if n >= len(a) {
			b = append(b, "%!"...)
			b = append(b, f[j])
			b = append(b, "(MISSING)"...)
			i = j
			continue
		}
		verb := f[i+1 : j+1]
		if f[j] == 'w' {
			if e, ok := a[n].(error); ok {
				errs = append(errs, e)
			}
			verb = "v"
		}
		b = append(b, operand(verb, a[n])...)
		n++
		i = j
	}
	return string(b), errs
}

func Sprintf(f string, a ...interface{}) string {
	s, _ := sprintf(f, a)
	return s
}

func Errorf(f string, a ...interface{}) error {
	s, errs := sprintf(f, a)
	switch len(errs) {
	case 0:
		return &errorString{s}
	case 1:
		return &wrapError{s, errs[0]}
	}
	return &wrapErrors{s, errs}
}

func isString(v interface{}) bool {
	_, ok := v.(string)
	return ok
}

func Sprint(a ...interface{}) string {
	var b []byte
	for i, v := range a {
		if i > 0 && !isString(v) && !isString(a[i-1]) {
			b = append(b, ' ')
		}
		b = append(b, operand("v", v)...)
	}
	return string(b)
}

func Sprintln(a ...interface{}) string {
	var b []byte
	for i, v := range a {
		if i > 0 {
			b = append(b, ' ')
		}
		b = append(b, operand("v", v)...)
	}
	return string(append(b, '\n'))
}

func Fprintf(w io.Writer, f string, a ...interface{}) (int, error) {
	return w.Write([]byte(Sprintf(f, a...)))
}
func Fprint(w io.Writer, a ...interface{}) (int, error)   { return w.Write([]byte(Sprint(a...))) }
func Fprintln(w io.Writer, a ...interface{}) (int, error) { return w.Write([]byte(Sprintln(a...))) }

// ErrorsIs is errors.Is.
func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	return is(err, target, reflect.TypeOf(target).Comparable())
}

func is(err, target error, comparable bool) bool {
	for {
		if comparable && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if is(e, target, comparable) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// ErrorsAs is errors.As.
func ErrorsAs(err error, target interface{}) bool {
	if err == nil {
		return false
	}
	val := reflect.ValueOf(target)
	t := val.Type().Elem()
	return as(err, target, val, t)
}

func as(err error, target interface{}, val reflect.Value, t reflect.Type) bool {
	for {
		if t.Kind() == reflect.Interface {
			if reflect.TypeOf(err).Implements(t) {
				val.Elem().Set(reflect.ValueOf(err))
				return true
			}
		} else if reflect.TypeOf(err) == t {
			val.Elem().Set(reflect.ValueOf(err))
			return true
		}
		if x, ok := err.(interface{ As(interface{}) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && as(e, target, val, t) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// SortSlice is sort.Slice (and stable).
func SortSlice(x interface{}, less func(i, j int) bool) {
	v := reflect.ValueOf(x)
	n := v.Len()
	if n < 2 {
		return
	}
	tmp := reflect.New(v.Type().Elem()).Elem()
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			tmp.Set(v.Index(j))
			v.Index(j).Set(v.Index(j - 1))
			v.Index(j - 1).Set(tmp)
		}
	}
}
