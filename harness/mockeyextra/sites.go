// Places where mocks are applied: the messages about re-mocks have to name them.
// The same file lies in several packages, whose paths differ.
package mockeyextra

import (
	"fmt"
	"runtime"

	"github.com/bytedance/mockey"
)

func here() string {
	_, file, line, _ := runtime.Caller(1)
	return fmt.Sprintf("%s:%d", file, line)
}

type act struct {
	kind   int
	b      *mockey.MockBuilder
	m      *mockey.Mocker
	v      *mockey.MockerVar
	ptr, x interface{}
	where  string
}

// Build, Patch, Value and PatchValue apply a mock at the n-th place.
func Build(n int, b *mockey.MockBuilder) (*mockey.Mocker, string) {
	a := &act{b: b}
	run(n, a)
	return a.m, a.where
}

func Patch(n int, m *mockey.Mocker) string {
	a := &act{kind: 1, m: m}
	run(n, a)
	return a.where
}

func Value(n int, ptr, x interface{}) (*mockey.MockerVar, string) {
	a := &act{kind: 2, ptr: ptr, x: x}
	run(n, a)
	return a.v, a.where
}

func PatchValue(n int, v *mockey.MockerVar) string {
	a := &act{kind: 3, v: v}
	run(n, a)
	return a.where
}

func run(n int, a *act) { places[n%len(places)](a) }

var places = []func(*act){function, closure, global, func(a *act) { initial(a) }, object{}.value, (&object{}).pointer, generic[int], (&generics[string, []int]{}).method, generics[object, error]{}.value, inGeneric[string], deep, deferred, recovering,
	promoted, func(a *act) { doer(embedder{&object{}}).pointer(a) }}

func function(a *act) {
	switch a.kind {
	case 0:
		a.m, a.where = a.b.Build(), here()
	case 1:
		_, a.where = a.m.Patch(), here()
	case 2:
		a.v, a.where = mockey.MockValue(a.ptr).To(a.x), here()
	case 3:
		_, a.where = a.v.Patch(), here()
	}
}

func closure(a *act) {
	func() {
		func() {
			switch a.kind {
			case 0:
				a.m, a.where = a.b.Build(), here()
			case 1:
				_, a.where = a.m.Patch(), here()
			case 2:
				a.v, a.where = mockey.MockValue(a.ptr).To(a.x), here()
			case 3:
				_, a.where = a.v.Patch(), here()
			}
		}()
	}()
}

var global = func(a *act) {
	switch a.kind {
	case 0:
		a.m, a.where = a.b.Build(), here()
	case 1:
		_, a.where = a.m.Patch(), here()
	case 2:
		a.v, a.where = mockey.MockValue(a.ptr).To(a.x), here()
	case 3:
		_, a.where = a.v.Patch(), here()
	}
}

var initial func(*act)

func init() {
	initial = func(a *act) {
		switch a.kind {
		case 0:
			a.m, a.where = a.b.Build(), here()
		case 1:
			_, a.where = a.m.Patch(), here()
		case 2:
			a.v, a.where = mockey.MockValue(a.ptr).To(a.x), here()
		case 3:
			_, a.where = a.v.Patch(), here()
		}
	}
}

type object struct{}

func (object) value(a *act) {
	switch a.kind {
	case 0:
		a.m, a.where = a.b.Build(), here()
	case 1:
		_, a.where = a.m.Patch(), here()
	case 2:
		a.v, a.where = mockey.MockValue(a.ptr).To(a.x), here()
	case 3:
		_, a.where = a.v.Patch(), here()
	}
}

func (*object) pointer(a *act) {
	switch a.kind {
	case 0:
		a.m, a.where = a.b.Build(), here()
	case 1:
		_, a.where = a.m.Patch(), here()
	case 2:
		a.v, a.where = mockey.MockValue(a.ptr).To(a.x), here()
	case 3:
		_, a.where = a.v.Patch(), here()
	}
}

type doer interface{ pointer(*act) }

type embedder struct{ *object }

func generic[T any](a *act) {
	switch a.kind {
	case 0:
		a.m, a.where = a.b.Build(), here()
	case 1:
		_, a.where = a.m.Patch(), here()
	case 2:
		a.v, a.where = mockey.MockValue(a.ptr).To(a.x), here()
	case 3:
		_, a.where = a.v.Patch(), here()
	}
}

type generics[T, U any] struct{}

func (*generics[T, U]) method(a *act) {
	switch a.kind {
	case 0:
		a.m, a.where = a.b.Build(), here()
	case 1:
		_, a.where = a.m.Patch(), here()
	case 2:
		a.v, a.where = mockey.MockValue(a.ptr).To(a.x), here()
	case 3:
		_, a.where = a.v.Patch(), here()
	}
}

func (generics[T, U]) value(a *act) {
	switch a.kind {
	case 0:
		a.m, a.where = a.b.Build(), here()
	case 1:
		_, a.where = a.m.Patch(), here()
	case 2:
		a.v, a.where = mockey.MockValue(a.ptr).To(a.x), here()
	case 3:
		_, a.where = a.v.Patch(), here()
	}
}

func inGeneric[T any](a *act) {
	func() {
		switch a.kind {
		case 0:
			a.m, a.where = a.b.Build(), here()
		case 1:
			_, a.where = a.m.Patch(), here()
		case 2:
			a.v, a.where = mockey.MockValue(a.ptr).To(a.x), here()
		case 3:
			_, a.where = a.v.Patch(), here()
		}
	}()
}

func deep(a *act) { recurse(a, 40) }

func recurse(a *act, n int) {
	if n > 0 {
		recurse(a, n-1)
		return
	}
	switch a.kind {
	case 0:
		a.m, a.where = a.b.Build(), here()
	case 1:
		_, a.where = a.m.Patch(), here()
	case 2:
		a.v, a.where = mockey.MockValue(a.ptr).To(a.x), here()
	case 3:
		_, a.where = a.v.Patch(), here()
	}
}

func deferred(a *act) {
	defer func() {
		switch a.kind {
		case 0:
			a.m, a.where = a.b.Build(), here()
		case 1:
			_, a.where = a.m.Patch(), here()
		case 2:
			a.v, a.where = mockey.MockValue(a.ptr).To(a.x), here()
		case 3:
			_, a.where = a.v.Patch(), here()
		}
	}()
}

func recovering(a *act) {
	var own interface{}
	defer func() {
		if p := recover(); p != nil && p != own {
			panic(p)
		}
		switch a.kind {
		case 0:
			a.m, a.where = a.b.Build(), here()
		case 1:
			_, a.where = a.m.Patch(), here()
		case 2:
			a.v, a.where = mockey.MockValue(a.ptr).To(a.x), here()
		case 3:
			_, a.where = a.v.Patch(), here()
		}
	}()
	own = fmt.Sprint("own ", a.kind)
	panic(own)
}

// mocks whose methods are promoted from mockey's
type builder struct{ *mockey.MockBuilder }
type mocker struct{ *mockey.Mocker }
type variable struct{ *mockey.MockerVar }

func promoted(a *act) {
	switch a.kind {
	case 0:
		var b interface{ Build() *mockey.Mocker } = builder{a.b}
		a.m, a.where = b.Build(), here()
	case 1:
		var m interface{ Patch() *mockey.Mocker } = mocker{a.m}
		_, a.where = m.Patch(), here()
	case 2:
		var v interface {
			To(interface{}) *mockey.MockerVar
		} = variable{mockey.MockValue(a.ptr)}
		a.v, a.where = v.To(a.x), here()
	case 3:
		var v interface{ Patch() *mockey.MockerVar } = variable{a.v}
		_, a.where = v.Patch(), here()
	}
}
