package rt

import "reflect"

// Std is a function or method of the standard library.
type Std struct {
	Name   string
	Method string
	Fn     interface{}
	Pure   bool // may be called without a mock
	Type   reflect.Type
	Code   uintptr
}

var Stds []*Std

func RegisterStd(name, method string, fn interface{}, pure bool) {
	Stds = append(Stds, &Std{Name: name, Method: method, Fn: fn, Pure: pure, Type: reflect.TypeOf(fn), Code: reflect.ValueOf(fn).Pointer()})
}
