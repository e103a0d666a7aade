package rt

import (
	"reflect"
	"runtime"
	"unsafe"
)

// Form is one way of calling a function of the zoo: a and r hold pointers to the arguments and results.
type Form struct {
	Name  string
	NoRes bool // the results cannot be observed (go and defer statements)
	// Recv tells how the form delivers the receiver: "" as given, "nonnil" only for non-nil pointer receivers
	Recv string
	// Spread forms pass the elements of the variadic slice (at most 3) one by one
	Spread bool
	Call   func(a, r []interface{})
}

// Entry is one function of the zoo.
type Entry struct {
	ID      int
	Name    string
	Kind    string // func, vmethod, pmethod, gfunc, gmethod, pure, closure
	Fn      interface{}
	Generic bool
	OrigID  int         // the id its body reports
	Pure    interface{} // a twin with the same body, for those that report nothing
	Forms   []Form
	Hook    func(cb func(a, r []interface{})) interface{} // a compiled hook with the full signature

	Type  reflect.Type
	Code  uintptr // address of the code that a mock of it patches, if it can be told
	Index int
}

var Entries []*Entry

func Register(e *Entry) {
	e.Type = reflect.TypeOf(e.Fn)
	if !e.Generic {
		e.Code = reflect.ValueOf(e.Fn).Pointer()
	}
	e.Index = len(Entries)
	Entries = append(Entries, e)
}

// OrigHandler is called by every original body of the zoo.
var OrigHandler func(id int, args, res []reflect.Value)

// Orig is the body of (almost) every function of the zoo: args and res are pointers to its parameters and results.
func Orig(id int, args, res []interface{}) {
	a := make([]reflect.Value, len(args))
	for i, p := range args {
		a[i] = reflect.ValueOf(p).Elem()
	}
	r := make([]reflect.Value, len(res))
	for i, p := range res {
		r[i] = reflect.ValueOf(p).Elem()
	}
	OrigHandler(id, a, r)
}

// Once is Orig in the condition of a loop.
func Once(id int) bool {
	Orig(id, nil, nil)
	return false
}

// Use keeps padding alive.
func Use(p []byte) {}

// Grow makes the stack of the goroutine large enough for everything that the engines do on it (they run with
// gcshrinkstackoff=1): a function whose entry has been displaced by mockey must not need to grow the stack (see K4).
func Grow() {
	var grow func(n int) byte
	grow = func(n int) byte {
		var b [1024]byte
		b[n%1024] = byte(n)
		if n == 0 {
			return b[0]
		}
		return grow(n-1) + b[1]
	}
	grow(700)
}

// GoStart is called before Go starts the goroutine, and what it returns on the goroutine.
var GoStart = func() func() { return func() {} }

// Go runs f on a new goroutine with a large stack, and hands its panic over.
func Go(f func()) {
	ch := make(chan *interface{}, 1)
	start := GoStart()
	go func() {
		defer func() {
			if p := recover(); p != nil {
				ch <- &p
			}
			close(ch)
		}()
		Grow()
		start()
		f()
	}()
	if p := <-ch; p != nil {
		panic(*p)
	}
}

// GID is the id of the current goroutine.
func GID() int64 { return runtime.VerifGoid() }

// StackGID is the id of the current goroutine as the runtime prints it in stack traces.
func StackGID() int64 {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	var id int64
	for _, c := range buf[len("goroutine "):n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + int64(c-'0')
	}
	return id
}

// BytesAt is the memory at an address.
func BytesAt(addr uintptr, n int) []byte {
	return unsafe.Slice((*byte)(*(*unsafe.Pointer)(unsafe.Pointer(&addr))), n)
}
