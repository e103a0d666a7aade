package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"reflect"
	"strings"
	"unicode"

	"github.com/bytedance/mockey"

	"verifharness/rt"
)

// Engine of C13: methods of generated types are looked up with GetMethod, mocked, and called in every way.

type MPick struct {
	T int `json:"t"`           // type
	M int `json:"m"`           // method
	I int `json:"i,omitempty"` // instance: 0 pointer, 1 value, 2 inside of an interface, 3 nil pointer, 4 value with embedded pointers nil
	D int `json:"d,omitempty"` // definition: 0 Return, 1 To with receiver, 2 To without, 3 To that calls the origin
	V int `json:"v,omitempty"`
}

type MPlan struct {
	P []MPick `json:"p"`
	O []int   `json:"o"`           // other methods that are called
	B int     `json:"b,omitempty"` // names that must be refused
}

func genMPlan(t *rt.Rng) MPlan {
	p := MPlan{B: t.N(100000)}
	for i := 1 + t.N(3); i > 0; i-- {
		p.P = append(p.P, MPick{t.N(997), t.N(997), []int{0, 0, 1, 1, 2, 3, 4}[t.N(7)], t.N(4), t.N(1000)})
	}
	for i := 2 + t.N(6); i > 0; i-- {
		p.O = append(p.O, t.N(1<<20))
	}
	return p
}

type mlive struct {
	pick  MPick
	nest  *rt.Nest
	m     *rt.NMethod
	val   interface{} // pointer to the value that is called
	mk    *mockey.Mocker
	ret   int
	hooks int
	argN  int
	recv  reflect.Value
}

func getMethodCase(plan string, verb bool) (*failure, map[string]int) {
	var p MPlan
	if json.Unmarshal([]byte(plan), &p) != nil {
		return nil, nil
	}
	st := map[string]int{}
	defer mockey.UnPatchAll()
	var lives []*mlive
	ids := map[int]bool{}
	for _, k := range p.P {
		n := rt.Nests[abs(k.T)%len(rt.Nests)]
		if len(n.Methods) == 0 {
			continue
		}
		m := n.Methods[abs(k.M)%len(n.Methods)]
		if ids[m.ID] {
			continue
		}
		ids[m.ID] = true
		l := &mlive{pick: k, nest: n, m: m, ret: -1 - abs(k.V)}
		if f := l.mock(st); f != nil {
			f.Msg = fmt.Sprintf("%s of %s (%+v): %s", m.Name, n.Name, k, f.Msg)
			return f, st
		}
		if l.mk != nil {
			lives = append(lives, l)
		}
	}
	if f := refused(p.B); f != nil {
		return f, st
	}
	if f := checkMeths(p.O, lives, st); f != nil {
		return f, st
	}
	// released one after the other
	for len(lives) > 0 {
		l := lives[0]
		lives = lives[1:]
		l.mk.UnPatch()
		for _, c := range l.m.Calls {
			if got := c.Call(l.nest.New(), 5); got != l.m.ID*1000+5 {
				return &failure{"release", fmt.Sprintf("%s.%s, called by %s, returns %d after its mock was released", l.nest.Name, l.m.Name, c.Name, got)}, st
			}
		}
		if f := checkMeths(p.O, lives, st); f != nil {
			return f, st
		}
	}
	return nil, st
}

// lookup is the known domain: unexported methods are found on the instance whose kind declares them only (K6)
func (l *mlive) lookup() (inst interface{}, ok bool) {
	m := l.m
	l.val = l.nest.New()
	i := l.pick.I
	low := !m.Field && !token.IsExported(m.Name)
	if low && (!m.Declared || (i == 0 || i == 3) != m.Ptr) {
		return nil, false
	}
	switch i {
	case 1:
		inst = reflect.ValueOf(l.val).Elem().Interface()
	case 2:
		var e error
		_ = e
		var box interface{} = l.val
		if low && !m.Ptr {
			box = reflect.ValueOf(l.val).Elem().Interface()
		}
		inst = box
	case 3:
		// a nil pointer has its methods, but nothing is inside of it
		if !m.Declared || m.Field || !m.Ptr {
			return nil, false
		}
		inst = reflect.Zero(reflect.TypeOf(l.val)).Interface()
	case 4:
		// nothing is known behind nil pointers, and what is beside them is found
		if l.nest.NewNil == nil || !m.Declared {
			return nil, false
		}
		v := l.nest.NewNil()
		inst = v
		if low && !m.Ptr {
			inst = reflect.ValueOf(v).Elem().Interface()
		}
	default:
		inst = l.val
	}
	return inst, true
}

func (l *mlive) mock(st map[string]int) (fail *failure) {
	inst, ok := l.lookup()
	if !ok {
		st["outside"]++
		return nil
	}
	defer func() {
		if p := recover(); p != nil {
			fail = &failure{"panic", fmt.Sprintf("GetMethod or the mock panics: %v", p)}
		}
	}()
	get, name := mockey.GetMethod, "GetMethod"
	if token.IsExported(l.m.Name) && !l.m.Field {
		// the deprecated forms: one for promoted methods too, one that takes the method of the very type of the instance
		if l.pick.V%5 == 1 {
			get, name = mockey.GetNestedMethod, "GetNestedMethod"
		} else if l.pick.V%5 == 2 && l.m.Declared && (reflect.TypeOf(inst).Kind() == reflect.Ptr) == l.m.Ptr {
			get, name = mockey.GetPrivateMethod, "GetPrivateMethod"
		}
	}
	if name == "GetNestedMethod" && l.pick.I == 3 {
		get, name = mockey.GetMethod, "GetMethod" // nothing is nested in nil
	}
	st[name]++
	fn := get(inst, l.m.Name)
	t := reflect.TypeOf(fn)
	if t == nil || t.Kind() != reflect.Func {
		return &failure{"kind", fmt.Sprintf("GetMethod returned %v", t)}
	}
	b := mockey.Mock(fn)
	hook := func(ft reflect.Type, nr bool) interface{} {
		return reflect.MakeFunc(ft, func(args []reflect.Value) []reflect.Value {
			l.hooks++
			if !nr && !l.m.Field {
				l.recv = args[0]
			}
			for _, a := range args {
				if a.Type().Kind() == reflect.Int && a.Type().Name() == "int" {
					l.argN = int(a.Int())
				}
			}
			return []reflect.Value{reflect.ValueOf(l.ret)}
		}).Interface()
	}
	d := l.pick.D
	if l.m.Field && d == 2 {
		d = 1
	}
	switch d {
	case 1:
		b.To(hook(t, false))
	case 2:
		var in []reflect.Type
		for i := 1; i < t.NumIn(); i++ {
			in = append(in, t.In(i))
		}
		b.To(hook(reflect.FuncOf(in, []reflect.Type{t.Out(0)}, t.IsVariadic()), true))
	case 3:
		o := reflect.New(t)
		b.Origin(o.Interface()).To(reflect.MakeFunc(t, func(args []reflect.Value) []reflect.Value {
			l.hooks++
			var r []reflect.Value
			if t.IsVariadic() {
				r = o.Elem().CallSlice(args)
			} else {
				r = o.Elem().Call(args)
			}
			return []reflect.Value{reflect.ValueOf(int(r[0].Int()) - 1000000 + l.ret)}
		}).Interface())
	default:
		b.Return(l.ret)
	}
	l.mk = b.Build()
	st["mocked"]++
	if !token.IsExported(l.m.Name) {
		st["unexported"]++
	}
	if l.m.Field {
		st["field"]++
	}
	if strings.Count(l.m.Path, ".") > 0 {
		st["promoted"]++
	}
	if strings.Count(l.m.Path, ".") > 1 {
		st["promoted-deep"]++
	}
	if l.m.Iface {
		st["promoted-iface"]++
	}
	st[fmt.Sprintf("instance:%d", l.pick.I)]++
	return nil
}

func checkMeths(others []int, lives []*mlive, st map[string]int) *failure {
	byID := map[int]*mlive{}
	for _, l := range lives {
		byID[l.m.ID] = l
	}
	for _, l := range lives {
		v := l.nest.New()
		for i, c := range l.m.Calls {
			n := 10 + i
			l.hooks, l.argN, l.recv = 0, 0, reflect.Value{}
			want := l.ret
			if l.pick.D == 3 {
				want = l.m.ID*1000 + n - 1000000 + l.ret
			}
			got := c.Call(v, n)
			what := fmt.Sprintf("%s.%s (mock %+v) called by %s", l.nest.Name, l.m.Name, l.pick, c.Name)
			if got != want {
				return &failure{"result", fmt.Sprintf("%s returned %d instead of %d", what, got, want)}
			}
			if l.pick.D != 0 && l.hooks != 1 {
				return &failure{"result", fmt.Sprintf("%s ran the hook %d times", what, l.hooks)}
			}
			if (l.pick.D == 1 || l.pick.D == 2) && l.argN != n {
				return &failure{"args", fmt.Sprintf("%s: the hook got %d instead of %d", what, l.argN, n)}
			}
			if l.recv.IsValid() && l.m.Recv != nil && c.Name == "pointer" && l.recv.Kind() == reflect.Ptr {
				if w := reflect.ValueOf(l.m.Recv(v)); l.recv.Pointer() != w.Pointer() || l.recv.Type() != w.Type() {
					return &failure{"args", fmt.Sprintf("%s: the hook got the receiver %v %x instead of %v %x", what, l.recv.Type(), l.recv.Pointer(), w.Type(), w.Pointer())}
				}
				st["receiver"]++
			}
			st["call:"+c.Name]++
		}
	}
	for _, o := range others {
		n := rt.Nests[o%len(rt.Nests)]
		if len(n.Methods) == 0 {
			continue
		}
		m := n.Methods[(o>>8)%len(n.Methods)]
		if byID[m.ID] != nil {
			continue
		}
		c := m.Calls[(o>>14)%len(m.Calls)]
		if got := c.Call(n.New(), 7); got != m.ID*1000+7 {
			return &failure{"other", fmt.Sprintf("%s.%s, which has no mock, returned %d instead of %d, called by %s", n.Name, m.Name, got, m.ID*1000+7, c.Name)}
		}
		st["other"]++
	}
	return nil
}

var allMethodNames map[string]bool

func methodNames() map[string]bool {
	if allMethodNames == nil {
		allMethodNames = map[string]bool{}
		for _, n := range rt.Nests {
			for _, m := range n.Methods {
				allMethodNames[m.Name] = true
			}
		}
	}
	return allMethodNames
}

// refused: names that are nothing, or fields that are no functions.
func refused(b int) *failure {
	n := rt.Nests[b%len(rt.Nests)]
	name := []string{"Nope", "nope", "plain", "Plain2", "M", "m", "Ünicode", "_", "pad", n.Name}[b/31%10]
	if k := b / 310; len(n.Methods) > 0 && k%2 == 0 {
		// almost the name of a method
		near := n.Methods[k/8%len(n.Methods)].Name
		r := []rune(near)
		switch k / 2 % 4 {
		case 0:
			near = string(r[:len(r)-1])
		case 1:
			near += string(r[len(r)-1:])
		case 2:
			near = string(r[1:])
		case 3:
			if r[0] = unicode.ToUpper(r[0]); string(r) == near {
				r[0] = unicode.ToLower(r[0])
			}
			near = string(r)
		}
		if near != "" && !methodNames()[near] {
			name = near
		}
	}
	var inst interface{} = n.New()
	if b/7%2 == 0 {
		inst = reflect.ValueOf(inst).Elem().Interface()
	}
	if b%5 == 0 {
		inst = nil
	}
	pan := safely(func() { mockey.GetMethod(inst, name) })
	if pan == nil {
		return &failure{"refuse", fmt.Sprintf("GetMethod(%T, %q) does not panic", inst, name)}
	}
	if !strings.Contains(fmt.Sprint(pan), name) {
		return &failure{"refuse", fmt.Sprintf("GetMethod(%T, %q) panics without naming it: %v", inst, name, pan)}
	}
	return nil
}

func init() {
	properties["C13"] = &property{
		gen: func(seed int) string {
			b, _ := json.Marshal(genMPlan(rt.NewRng(uint64(seed))))
			return string(b)
		},
		run: func(plan string, verb bool) (f *failure, st map[string]int) {
			done := make(chan struct{})
			go func() {
				defer close(done)
				rt.Grow()
				if p := safely(func() { f, st = getMethodCase(plan, verb) }); p != nil {
					f = &failure{"panic", fmt.Sprint(p)}
				}
			}()
			<-done
			return f, st
		},
		nontrivial: func(s map[string]int) bool { return s["mocked"] > 0 },
	}
}
