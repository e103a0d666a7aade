// Package rt holds what the generated zoo and the engines share: random values of any type, strict comparison of
// values, and the entry point of the original bodies.
package rt

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"unsafe"
)

// Rng is a splitmix64 generator: everything drawn is a function of the seed in the plan.
type Rng struct{ s uint64 }

func NewRng(seed ...uint64) *Rng {
	r := &Rng{s: 0x9E3779B97F4A7C15}
	for _, x := range seed {
		r.s ^= x + 0x9E3779B97F4A7C15 + (r.s << 6) + (r.s >> 2)
		r.s = r.U64()
	}
	return r
}

func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

type CustomErr struct{ Code int }

func (c *CustomErr) Error() string { return fmt.Sprint("custom ", c.Code) }

var errType = reflect.TypeOf((*error)(nil)).Elem()

var impls = map[reflect.Type][]func(*Rng) interface{}{}

// RegisterImpls tells how to make values of a non-empty interface type.
func RegisterImpls(iface interface{}, fs ...func(*Rng) interface{}) {
	t := reflect.TypeOf(iface).Elem()
	impls[t] = append(impls[t], fs...)
}

// Gen makes a random value of type t; the result is addressable.
func Gen(t reflect.Type, r *Rng) reflect.Value { return gen(t, r, 3) }

func gen(t reflect.Type, r *Rng, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	fill(v, r, depth)
	return v
}

func fill(v reflect.Value, r *Rng, depth int) {
	t := v.Type()
	if !v.CanSet() {
		v = reflect.NewAt(t, unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.N(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		switch r.N(4) {
		case 0:
			v.SetInt(int64(r.N(5)) - 2)
		default:
			v.SetInt(int64(r.U64()) >> uint(64-t.Bits()))
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(r.U64() >> uint(64-t.Bits()))
	case reflect.Float32, reflect.Float64:
		switch r.N(8) {
		case 0:
			v.SetFloat(math.NaN())
		case 1:
			v.SetFloat(math.Copysign(0, -1))
		case 2:
			v.SetFloat(math.Inf(1 - 2*r.N(2)))
		default:
			v.SetFloat(float64(float32(int64(r.U64())>>20) / 1024))
		}
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(complex(float64(float32(r.N(1000)))/8, float64(float32(r.N(1000)))/-8))
	case reflect.String:
		n := r.N(12)
		if r.N(20) == 0 {
			n = 300
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.U64())
		}
		v.SetString(string(b))
	case reflect.Slice:
		if r.N(6) == 0 {
			return
		}
		n := r.N(4)
		s := reflect.MakeSlice(t, n, n+r.N(3))
		if depth > 0 {
			for i := 0; i < n; i++ {
				fill(s.Index(i), r, depth-1)
			}
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			if i < 16 || i >= t.Len()-16 { // enough of the large ones
				fill(v.Index(i), r, depth-1)
			}
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			fill(v.Field(i), r, depth-1)
		}
	case reflect.Map:
		if r.N(5) == 0 {
			return
		}
		m := reflect.MakeMap(t)
		if depth > 0 && !hasInterface(t.Key()) {
			for i := r.N(3); i > 0; i-- {
				m.SetMapIndex(gen(t.Key(), r, depth-1), gen(t.Elem(), r, depth-1))
			}
		}
		v.Set(m)
	case reflect.Ptr:
		if r.N(6) == 0 {
			return
		}
		p := reflect.New(t.Elem())
		if depth > 0 {
			fill(p.Elem(), r, depth-1)
		}
		v.Set(p)
	case reflect.Chan:
		if r.N(6) == 0 {
			return
		}
		v.Set(reflect.MakeChan(reflect.ChanOf(reflect.BothDir, t.Elem()), r.N(3)).Convert(t))
	case reflect.Func:
		if r.N(6) == 0 {
			return
		}
		v.Set(reflect.MakeFunc(t, func([]reflect.Value) []reflect.Value {
			out := make([]reflect.Value, t.NumOut())
			for i := range out {
				out[i] = reflect.Zero(t.Out(i))
			}
			return out
		}))
	case reflect.Interface:
		if r.N(6) == 0 {
			return
		}
		if fs := impls[t]; len(fs) > 0 {
			v.Set(reflect.ValueOf(fs[r.N(len(fs))](r)))
			return
		}
		if t == errType || (t.NumMethod() == 1 && t.Method(0).Name == "Error") {
			if r.N(2) == 0 {
				v.Set(reflect.ValueOf(errors.New("e" + fmt.Sprint(r.N(9)))))
			} else {
				v.Set(reflect.ValueOf(&CustomErr{r.N(9)}))
			}
			return
		}
		if t.NumMethod() == 0 {
			pool := []interface{}{int(0), "", float64(0), new(int), []byte(nil), [2]string{}, struct {
				A int8
				B interface{}
			}{}, uint8(0), map[string]int(nil), (func())(nil)}
			pt := reflect.TypeOf(pool[r.N(len(pool))])
			v.Set(gen(pt, r, depth-1))
		} else if Implementers != nil && depth > 0 {
			if ts := Implementers(t); len(ts) > 0 {
				v.Set(gen(ts[r.N(len(ts))], r, depth-1))
			}
		}
	case reflect.UnsafePointer:
		if r.N(4) != 0 {
			v.SetPointer(unsafe.Pointer(new(int64)))
		}
	default:
		panic("rt.Gen: " + t.String())
	}
}

// hasInterface tells whether a key of this type might not be hashable.
func hasInterface(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Interface:
		return true
	case reflect.Array:
		return hasInterface(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasInterface(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}

// Implementers finds types that implement an interface for which no values have been registered.
var Implementers func(t reflect.Type) []reflect.Type

// Copy makes an addressable shallow copy.
func Copy(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	return n
}

// clean makes a value addressable and drops the marks of unexported fields.
func clean(v reflect.Value) reflect.Value {
	if !v.CanAddr() {
		return Copy(v)
	}
	if !v.CanInterface() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

func word(v reflect.Value) unsafe.Pointer { // of an addressable value
	return *(*unsafe.Pointer)(unsafe.Pointer(v.UnsafeAddr()))
}

// Same tells whether two values are the very same: equal bits for numbers, equal contents for strings, identical
// pointers, maps, channels, functions and slices (data, length and capacity), recursively for arrays, structs and
// interfaces.
func Same(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	a, b = clean(a), clean(b)
	switch a.Kind() {
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Complex64, reflect.Complex128:
		x, y := a.Complex(), b.Complex()
		return math.Float64bits(real(x)) == math.Float64bits(real(y)) && math.Float64bits(imag(x)) == math.Float64bits(imag(y))
	case reflect.String:
		return a.String() == b.String()
	case reflect.Slice:
		return a.Pointer() == b.Pointer() && a.Len() == b.Len() && a.Cap() == b.Cap() && a.IsNil() == b.IsNil()
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !Same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !Same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Map, reflect.Ptr, reflect.Chan, reflect.UnsafePointer:
		return a.Pointer() == b.Pointer()
	case reflect.Func:
		return word(a) == word(b)
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return Same(a.Elem(), b.Elem())
	}
	panic("rt.Same: " + a.Type().String())
}

// SameAll compares two lists of values.
func SameAll(a, b []reflect.Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !Same(a[i], b[i]) {
			return false
		}
	}
	return true
}

// Hash digests the contents of a value (not identities), for data-dependent decisions.
func Hash(v reflect.Value) uint64 {
	h := uint64(14695981039346656037)
	mix := func(x uint64) { h = (h ^ x) * 1099511628211; h ^= h >> 29 }
	var walk func(v reflect.Value, d int)
	walk = func(v reflect.Value, d int) {
		if !v.IsValid() || d < 0 {
			return
		}
		mix(uint64(v.Kind()))
		switch v.Kind() {
		case reflect.Bool:
			if v.Bool() {
				mix(1)
			}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			mix(uint64(v.Int()))
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			mix(v.Uint())
		case reflect.Float32, reflect.Float64:
			mix(math.Float64bits(v.Float()))
		case reflect.Complex64, reflect.Complex128:
			mix(math.Float64bits(real(v.Complex())))
			mix(math.Float64bits(imag(v.Complex())))
		case reflect.String:
			for _, c := range []byte(v.String()) {
				mix(uint64(c))
			}
		case reflect.Slice, reflect.Array:
			mix(uint64(v.Len()))
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), d-1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), d-1)
			}
		case reflect.Map:
			mix(uint64(v.Len()))
		case reflect.Ptr, reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), d-1)
			}
		}
	}
	walk(v, 6)
	return h
}

// Show prints a value for messages and samples.
func Show(v reflect.Value) string {
	if !v.IsValid() {
		return "<none>"
	}
	s := fmt.Sprintf("%v", v)
	if v.CanInterface() {
		switch v.Kind() {
		case reflect.Struct, reflect.Slice, reflect.String, reflect.Array:
			s = fmt.Sprintf("%+q", fmt.Sprintf("%v", v.Interface()))
		}
	}
	if len(s) > 60 {
		s = s[:60] + "..."
	}
	return v.Type().String() + "(" + s + ")"
}

func ShowAll(vs []reflect.Value) string {
	parts := make([]string, len(vs))
	for i, v := range vs {
		parts[i] = Show(v)
	}
	return "[" + strings.Join(parts, ", ") + "]"
}
