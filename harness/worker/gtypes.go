package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"

	"github.com/bytedance/mockey"

	"verifharness/rt"
)

// Engine of C14 for GenericInfo: instantiations, many of which share their code, are mocked with hooks and predicates
// that take GenericInfo, and all instantiations are called.

type TPick struct {
	I int `json:"i"`           // instantiation
	D int `json:"d,omitempty"` // definition
	V int `json:"v,omitempty"`
}

type TPlan struct {
	P []TPick  `json:"p"`
	C [][2]int `json:"c"` // calls: instantiation, form
}

type tlive struct {
	inst *rt.GInst
	pick TPick
	ret  int
	mk   *mockey.Mocker
	seen int
	when int
}

type gtypesRun struct {
	infos map[*rt.GInst]mockey.GenericInfo
	cur   *rt.GInst // being called
	bad   string
	st    map[string]int
}

func (g *gtypesRun) failf(f string, a ...interface{}) {
	if g.bad == "" {
		g.bad = fmt.Sprintf(f, a...)
	}
}

func (g *gtypesRun) info(v reflect.Value, where string) {
	in := v.Interface().(mockey.GenericInfo)
	for i, t := range g.cur.Types {
		if got := in.UsedParamType(uintptr(i)); got != t {
			g.failf("in the %s, for a call of %s: UsedParamType(%d) is %v instead of %v", where, g.cur.Name, i, got, t)
			return
		}
		g.st["usedparamtype"]++
	}
	if old, ok := g.infos[g.cur]; ok && !old.Equal(in) {
		g.failf("in the %s: the infos of two calls of %s are not Equal", where, g.cur.Name)
	}
	g.infos[g.cur] = in
	for o, oi := range g.infos {
		if o != g.cur && (oi.Equal(in) || in.Equal(oi)) {
			g.failf("in the %s: the infos of %s and %s are Equal", where, g.cur.Name, o.Name)
		}
	}
}

func (g *gtypesRun) run(p *TPlan) {
	g.infos = map[*rt.GInst]mockey.GenericInfo{}
	var lives []*tlive
	defer mockey.UnPatchAll()
	byShape := map[string]*tlive{}
	for _, k := range p.P {
		in := rt.GInsts[abs(k.I)%len(rt.GInsts)]
		if byShape[in.Shape] != nil {
			continue
		}
		l := &tlive{inst: in, pick: k, ret: -1 - abs(k.V)}
		g.mock(l)
		lives = append(lives, l)
		byShape[in.Shape] = l
		if g.bad != "" {
			return
		}
	}
	g.calls(p, byShape)
	for _, l := range lives {
		l.mk.UnPatch()
		delete(byShape, l.inst.Shape)
		g.calls(p, byShape)
	}
}

func (g *gtypesRun) mock(l *tlive) {
	ft := reflect.TypeOf(l.inst.Fn)
	infoT := reflect.TypeOf(mockey.GenericInfo(0))
	sig := func(info, nr bool, out reflect.Type) reflect.Type {
		var in []reflect.Type
		if info {
			in = append(in, infoT)
		}
		for i := 0; i < ft.NumIn(); i++ {
			if !nr || i > 0 {
				in = append(in, ft.In(i))
			}
		}
		return reflect.FuncOf(in, []reflect.Type{out}, false)
	}
	nr := l.pick.V%3 == 0 && l.inst.Method
	hook := func(info bool) interface{} {
		return reflect.MakeFunc(sig(info, nr, ft.Out(0)), func(args []reflect.Value) []reflect.Value {
			l.seen++
			if info {
				g.info(args[0], "hook")
			}
			return []reflect.Value{reflect.ValueOf(l.ret)}
		}).Interface()
	}
	when := func(info bool, f func(v reflect.Value) bool) interface{} {
		return reflect.MakeFunc(sig(info, nr, reflect.TypeOf(true)), func(args []reflect.Value) []reflect.Value {
			l.when++
			if info {
				g.info(args[0], "predicate")
			}
			return []reflect.Value{reflect.ValueOf(f(args[0]))}
		}).Interface()
	}
	only := func(v reflect.Value) bool {
		in := v.Interface().(mockey.GenericInfo)
		for i, t := range l.inst.Types {
			if in.UsedParamType(uintptr(i)) != t {
				return false
			}
		}
		return true
	}
	var b *mockey.MockBuilder
	if l.pick.V%2 == 0 {
		b = mockey.MockGeneric(l.inst.Fn)
	} else {
		b = mockey.Mock(l.inst.Fn, mockey.OptGeneric)
	}
	switch l.pick.D {
	case 0:
		b.Return(l.ret)
	case 1:
		b.To(hook(true))
	case 2:
		b.To(hook(false))
	case 3:
		b.When(when(true, only)).To(hook(true))
	case 4:
		b.When(when(true, only)).Return(l.ret)
	case 5:
		b.When(when(false, func(reflect.Value) bool { return true })).To(hook(true))
	}
	l.mk = b.Build()
	g.st[fmt.Sprint("def:", l.pick.D)]++
}

func (g *gtypesRun) calls(p *TPlan, byShape map[string]*tlive) {
	for i, c := range p.C {
		in := rt.GInsts[abs(c[0])%len(rt.GInsts)]
		// most calls are of instantiations that share their code with a mocked one
		if i%4 != 3 && len(p.P) > 0 {
			m := rt.GInsts[abs(p.P[i%len(p.P)].I)%len(rt.GInsts)]
			var same []*rt.GInst
			for _, o := range rt.GInsts {
				if o.Group == m.Group {
					same = append(same, o)
				}
			}
			in = same[abs(c[0])%len(same)]
		}
		g.cur = in
		want := in.Want(i)
		l := byShape[in.Shape]
		hooks, whens := 0, 0
		if l != nil {
			exact := l.inst == in
			if !exact {
				g.st["twin"]++
			}
			switch l.pick.D {
			case 0:
				want = l.ret
			case 1, 2:
				want, hooks = l.ret, 1
			case 3:
				whens = 1
				if exact {
					want, hooks = l.ret, 1
				}
			case 4:
				whens = 1
				if exact {
					want = l.ret
				}
			case 5:
				want, hooks, whens = l.ret, 1, 1
			}
			l.seen, l.when = 0, 0
			g.st["mocked-call"]++
		} else {
			g.st["unmocked-call"]++
		}
		got := in.Calls[abs(c[1])%len(in.Calls)](i)
		if l != nil && (l.seen != hooks || l.when != whens) {
			g.failf("call of %s (mock of %s, definition %d): hook ran %d times instead of %d, predicate %d times instead of %d", in.Name, l.inst.Name, l.pick.D, l.seen, hooks, l.when, whens)
		}
		if got != want {
			of := "no mock"
			if l != nil {
				of = fmt.Sprintf("mock of %s, definition %d", l.inst.Name, l.pick.D)
			}
			g.failf("call of %s (%s) returned %d instead of %d", in.Name, of, got, want)
		}
		if i == len(p.C)/2 && p.C[0][1]%5 == 0 {
			runtime.GC()
		}
	}
}

func init() {
	properties["C14t"] = &property{
		gen: func(seed int) string {
			t := rt.NewRng(uint64(seed))
			var p TPlan
			for i := 1 + t.N(3); i > 0; i-- {
				p.P = append(p.P, TPick{t.N(997), t.N(6), t.N(1000)})
			}
			for i := 3 + t.N(9); i > 0; i-- {
				p.C = append(p.C, [2]int{t.N(997), t.N(60)})
			}
			b, _ := json.Marshal(p)
			return string(b)
		},
		run: func(plan string, verb bool) (*failure, map[string]int) {
			var p TPlan
			if json.Unmarshal([]byte(plan), &p) != nil {
				return nil, nil
			}
			g := &gtypesRun{st: map[string]int{}}
			done := make(chan struct{})
			go func() {
				defer close(done)
				rt.Grow()
				if pan := safely(func() { g.run(&p) }); pan != nil {
					g.failf("panic: %v", pan)
				}
			}()
			<-done
			if g.bad != "" {
				return &failure{"generic", g.bad}, g.st
			}
			return nil, g.st
		},
		nontrivial: func(s map[string]int) bool { return s["twin"] > 0 },
	}
}
