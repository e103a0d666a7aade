package rt

import (
	"hash/fnv"
	"reflect"
	"unsafe"
)

// NMethod is a method (or field of function type) that values of a type of the C13 zoo have.
type NMethod struct {
	Name, Owner, Path                    string
	ID                                   int
	Ptr, Field, InValue, Declared, Iface bool
	Calls                                []NCall
	Recv                                 func(v interface{}) interface{} // the pointer receiver that the method gets
}

type NCall struct {
	Name string
	Call func(v interface{}, n int) int // v is a pointer to the outer value
}

type Nest struct {
	Name    string
	New     func() interface{} // pointer to a new value
	NewNil  func() interface{}
	Methods []*NMethod
}

var Nests []*Nest

func RegisterNest(name string, f func() interface{}, _ string) *Nest {
	n := &Nest{Name: name, New: f}
	Nests = append(Nests, n)
	return n
}

func (n *Nest) Add(m *NMethod) { n.Methods = append(n.Methods, m) }

// AddrOf is the address of the embedded value: of is its address, v its content, which may be the pointer.
func AddrOf(of, v interface{}) unsafe.Pointer {
	if r := reflect.ValueOf(v); r.Kind() == reflect.Ptr {
		return r.UnsafePointer()
	}
	return reflect.ValueOf(of).UnsafePointer()
}

// MethBody is what all methods of the C13 zoo do.
func MethBody(id, n int) int { return id*1000 + n }

// GInst is one instantiation of a generic function or method.
type GInst struct {
	Group  int
	Name   string
	Shape  string // instantiations with the same shape share their code
	Method bool
	ID     int
	Fn     interface{}
	Types  []reflect.Type  // used by the function, in this order
	Want   func(n int) int // the result of the original
	Calls  []func(n int) int
}

var GInsts []*GInst

func TypeOf[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

// TypeBody is what the generic functions do: the result depends on the types they see.
func TypeBody(id, n int, vs ...interface{}) int {
	h := fnv.New32()
	for _, v := range vs {
		if v != nil {
			h.Write([]byte(reflect.TypeOf(v).String()))
		}
	}
	return int(h.Sum32()) + n*31 + id
}
