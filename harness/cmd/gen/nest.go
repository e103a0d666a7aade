package main

import (
	"fmt"
	"go/token"
	"strings"
)

// The zoo of C13: types composed by embedding, no method name used twice.

type nmethod struct {
	name, owner string
	id          int
	ptr         bool // pointer receiver
	field       bool // a field of function type
	inValue     bool // in the method set of the value type
	declared    bool // by the type itself
	iface       bool // comes through an embedded interface
	path        string
	kind        int // of signature
}

// the signatures of methods: parameters, arguments of a call
var nsigs = [][2]string{
	{"n int", "n"},
	{"n int, rest ...string", "n, \"x\", \"y\""},
	{"n int, rest ...string", "n"},
	{"s string, n int, a [3]int", "\"s\", n, [3]int{1, 2, n}"},
}

func (m nmethod) sig() string {
	return "(" + nsigs[m.kind][0] + ") int"
}

func (m nmethod) args() string { return nsigs[m.kind][1] }

// mname: names of all sorts
func (g *gen) mname(id int, low bool, suffix string) string {
	n := fmt.Sprintf("M%d%s", id, suffix)
	switch g.Intn(10) {
	case 0:
		n = fmt.Sprintf("M%d%s%s", id, strings.Repeat("Long", 30+g.Intn(80)), suffix)
	case 1:
		n = fmt.Sprintf("Ünïcødé%d%s", id, suffix)
		if low {
			return fmt.Sprintf("ünïcødé%d%s", id, suffix)
		}
	case 2:
		n = fmt.Sprintf("Z%d%s", id, suffix)
		if low {
			return fmt.Sprintf("%s%d%s", g.pick("_", "z", "a", "界"), id, suffix)
		}
	}
	if low {
		return "m" + n[1:]
	}
	return n
}

type ntype struct {
	name    string
	strct   bool
	methods []nmethod
	owners  map[string]bool // all types inside
	cons    string          // expression building a value
	nilcons string          // the same, with the embedded pointers and interfaces nil
	hasNil  bool
}

func (m nmethod) exported() bool { return token.IsExported(m.name) }

// declare writes the methods of a type; k values of each kind are wanted
func (g *gen) declare(t *ntype, want int) {
	n := 0
	for i := 0; i < 4; i++ {
		if want&(1<<i) == 0 {
			continue
		}
		id := g.nid
		g.nid++
		m := nmethod{name: g.mname(id, i > 1, []string{"v", "p", "v", "p"}[i]), kind: g.Intn(len(nsigs)), owner: t.name, id: id, ptr: i&1 == 1, inValue: i&1 == 0, declared: true}
		star := ""
		if m.ptr {
			star = "*"
		}
		g.p("func (x %s%s) %s%s { return rt.MethBody(%d, n) }", star, t.name, m.name, m.sig(), id)
		t.methods = append(t.methods, m)
		n++
	}
}

func (g *gen) nests(n int) {
	var ts []*ntype
	type ifc struct {
		name    string
		methods []string
		impl    *ntype
		ptr     bool
	}
	var ifs []*ifc
	for i := 0; i < n; i++ {
		low := g.Intn(3) == 0
		nm := g.name(map[bool]string{true: "e", false: "E"}[low])
		t := &ntype{name: nm, strct: true, owners: map[string]bool{nm: true}}
		if i < 3 || g.Intn(5) == 0 {
			if g.Intn(2) == 0 {
				t.strct = false
				g.p("type %s %s", nm, g.pick("int", "string", "[]int", "float64", "[3]string", "chan int", "func(int) int", "uint8", "complex128", "bool", "[]string"))
				t.cons = fmt.Sprintf("func() (x %s) { return }()", nm)
				t.nilcons = t.cons
			}
		}
		if t.strct {
			var fields, cons, nilcons []string
			if g.Intn(2) == 0 {
				fields = append(fields, "pad [3]int")
			}
			// embed earlier ones
			for j := 0; j < 3 && len(ts) > 0 && i >= 3; j++ {
				if g.Intn(3) == 0 && len(ifs) > 0 {
					f := ifs[g.Intn(len(ifs))]
					ok := true
					for o := range f.impl.owners {
						ok = ok && !t.owners[o]
					}
					if !ok {
						continue
					}
					for o := range f.impl.owners {
						t.owners[o] = true
					}
					fields = append(fields, f.name)
					amp := ""
					if f.ptr {
						amp = "&"
						if !f.impl.strct {
							continue
						}
					}
					cons = append(cons, fmt.Sprintf("%s: %s%s", f.name, amp, f.impl.cons))
					t.hasNil = true
					for _, m := range f.impl.methods {
						for _, want := range f.methods {
							if m.name == want {
								m.inValue, m.declared, m.iface, m.path = true, false, true, "."+f.name
								t.methods = append(t.methods, m)
							}
						}
					}
					continue
				}
				e := ts[g.Intn(len(ts))]
				ok := true
				for o := range e.owners {
					ok = ok && !t.owners[o]
				}
				if !ok {
					continue
				}
				for o := range e.owners {
					t.owners[o] = true
				}
				ptr := g.Intn(2) == 0 && e.strct
				star, amp := "", ""
				if ptr {
					star, amp = "*", "&"
				}
				fields = append(fields, star+e.name)
				cons = append(cons, fmt.Sprintf("%s: %s%s", e.name, amp, e.cons))
				if ptr {
					t.hasNil = true
				} else {
					nilcons = append(nilcons, fmt.Sprintf("%s: %s", e.name, e.nilcons))
					t.hasNil = t.hasNil || e.hasNil
				}
				for _, m := range e.methods {
					m.declared = false
					m.path = "." + e.name + m.path
					m.inValue = m.inValue || ptr
					t.methods = append(t.methods, m)
				}
			}
			if g.Intn(2) == 0 {
				fields = append(fields, "plain int", "Plain2 string")
			}
			for j := g.Intn(3); j > 0; j-- {
				id := g.nid
				g.nid++
				fn := fmt.Sprintf("%s%d", g.pick("F", "f"), id)
				g.p("func ff%d(n int) int { return rt.MethBody(%d, n) }", id, id)
				fields = append(fields, fn+" func(int) int")
				cons = append(cons, fmt.Sprintf("%s: ff%d", fn, id))
				nilcons = append(nilcons, fmt.Sprintf("%s: ff%d", fn, id))
				t.methods = append(t.methods, nmethod{name: fn, owner: nm, id: id, field: true, inValue: true, declared: true})
			}
			g.Shuffle(len(fields), func(a, b int) { fields[a], fields[b] = fields[b], fields[a] })
			g.p("type %s struct {\n%s\n}", nm, strings.Join(fields, "\n"))
			t.cons = fmt.Sprintf("%s{%s}", nm, strings.Join(cons, ", "))
			t.nilcons = fmt.Sprintf("%s{%s}", nm, strings.Join(nilcons, ", "))
		}
		g.declare(t, g.Intn(16))
		ts = append(ts, t)
		// an interface that it implements
		if g.Intn(2) == 0 {
			ptr := g.Intn(2) == 0 && t.strct
			var ms, names []string
			for _, m := range t.methods {
				if !m.field && m.exported() && (m.inValue || ptr) && g.Intn(3) > 0 {
					ms = append(ms, m.name+m.sig())
					names = append(names, m.name)
				}
			}
			if len(ms) > 0 {
				f := &ifc{g.name("X"), names, t, ptr}
				g.p("type %s interface { %s }", f.name, strings.Join(ms, "; "))
				ifs = append(ifs, f)
			}
		}
	}
	for _, t := range ts {
		g.p("func init() {")
		g.p("nt := rt.RegisterNest(%q, func() interface{} { x := %s; return &x }, %q)", t.name, t.cons, t.name)
		g.p("_ = nt")
		if t.hasNil {
			g.p("nt.NewNil = func() interface{} { x := %s; return &x }", t.nilcons)
		}
		for _, m := range t.methods {
			g.p("nt.Add(&rt.NMethod{Name: %q, ID: %d, Ptr: %v, Field: %v, InValue: %v, Declared: %v, Iface: %v, Path: %q, Owner: %q,", m.name, m.id, m.ptr, m.field, m.inValue, m.declared, m.iface, m.path, m.owner)
			x := fmt.Sprintf("x := v.(*%s)\n", t.name)
			g.p("Calls: []rt.NCall{")
			form := func(name, pre, call string) {
				g.p("{%q, func(v interface{}, n int) int {\n%s%s\nreturn %s\n}},", name, x, pre, call)
			}
			form("pointer", "", "x."+m.name+"("+m.args()+")")
			form("value", "y := *x", "y."+m.name+"("+m.args()+")")
			form("methodvalue", "f := x."+m.name, "f("+m.args()+")")
			if !m.field {
				form("iface-ptr", fmt.Sprintf("var i interface{ %s%s } = x", m.name, m.sig()), "i."+m.name+"("+m.args()+")")
				form("expr-ptr", fmt.Sprintf("f := (*%s).%s", t.name, m.name), "f(x, "+m.args()+")")
				if m.inValue {
					form("iface-val", fmt.Sprintf("var i interface{ %s%s } = *x", m.name, m.sig()), "i."+m.name+"("+m.args()+")")
					form("expr-val", fmt.Sprintf("f := %s.%s", t.name, m.name), "f(*x, "+m.args()+")")
				}
				if m.path != "" {
					form("path", "", "x"+m.path+"."+m.name+"("+m.args()+")")
				}
			}
			g.p("},")
			if !m.field && !m.iface {
				if m.ptr {
					g.p("Recv: func(v interface{}) interface{} { x := v.(*%s); return (*%s)(rt.AddrOf(&x%s, x%s)) },", t.name, m.owner, m.path, m.path)
				}
			}
			g.p("})")
		}
		g.p("}")
	}
}

func subst(u string, in [2]string) string {
	u = strings.NewReplacer("T", "\x00", "U", "\x01").Replace(u)
	return strings.NewReplacer("\x00", in[0], "\x01", in[1]).Replace(u)
}

// gtypes: generic functions whose bodies use known types in a known order, instantiated with types that share their code.
func (g *gen) gtypes(n int) {
	g.p(`
type GInt int
type GStr string
type GPtr struct { a, b int }
type GSa struct { x int; y string }
type GSb struct { x int; y string }
type GSl []int
type GFn func()
type GArr [2]uint16
`)
	pool := [][]string{
		{"int", "GInt"}, {"string", "GStr"}, {"*int", "*GPtr", "*GSa", "**int"}, {"GSa", "GSb"}, {"[]int", "GSl"}, {"func()", "GFn"}, {"[2]uint16", "GArr"},
		{"float64"}, {"bool"}, {"error"}, {"map[string]int"}, {"uint8"}, {"complex64"}, {"struct{}"},
	}
	deriv := []string{"T", "U", "[]T", "*U", "map[string]T", "[2]U", "chan T", "func(T) U", "[]U", "*T", "struct{ f T; g U }", "[]*T"}
	for i := 0; i < n; i++ {
		name := g.name("Q")
		method := g.Intn(2) == 0
		id := g.nid
		g.nid++
		perm := g.Perm(len(deriv))[:1+g.Intn(5)]
		var uses, anys []string
		for _, k := range perm {
			uses = append(uses, deriv[k])
			anys = append(anys, fmt.Sprintf("interface{}(*new(%s))", deriv[k]))
		}
		star := g.pick("", "*")
		body := fmt.Sprintf("{ return rt.TypeBody(%d, n, %s) }", id, strings.Join(anys, ", "))
		if method {
			g.p("type %s[T any, U any] struct { a T; b U }", name)
			g.p("func (r %s%s[T, U]) Mq(n int, a T, b U) int %s", star, name, body)
		} else {
			g.p("func %s[T any, U any](n int, a T, b U) int %s", name, body)
		}
		// instantiations: some that share their code, some that do not
		var insts [][2]string
		var shapes []string
		seen := map[string]bool{}
		pick := func(a, b int) {
			T, U := pool[a][g.Intn(len(pool[a]))], pool[b][g.Intn(len(pool[b]))]
			if !seen[T+","+U] {
				seen[T+","+U] = true
				insts = append(insts, [2]string{T, U})
				shapes = append(shapes, fmt.Sprintf("%d,%d", a, b))
			}
		}
		a, b := g.Intn(7), g.Intn(len(pool))
		for k := 0; k < 4; k++ {
			pick(a, b)
		}
		pick(b, a)
		pick(g.Intn(len(pool)), b)
		pick(a, g.Intn(len(pool)))
		for k, in := range insts {
			inst := fmt.Sprintf("%s[%s, %s]", name, in[0], in[1])
			// the types of the receiver and the parameters come first
			var types []string
			if method {
				types = append(types, fmt.Sprintf("rt.TypeOf[%s%s]()", star, inst))
			}
			order := []string{"T", "U"}
			for _, u := range uses {
				if u != "T" && u != "U" {
					order = append(order, u)
				}
			}
			for _, u := range order {
				types = append(types, fmt.Sprintf("rt.TypeOf[%s]()", subst(u, in)))
			}
			g.p("func init() {")
			fn := inst
			if method {
				fn = fmt.Sprintf("(%s%s).Mq", star, inst)
			}
			g.p("rt.GInsts = append(rt.GInsts, &rt.GInst{Group: %d, Name: %q, Shape: %q, Method: %v, ID: %d, Fn: %s, Types: []reflect.Type{%s}, Want: func(n int) int {", i, fn, name+":"+shapes[k], method, id, fn, strings.Join(types, ", "))
			// the result of the original, worked out without generics
			var plain []string
			for _, u := range uses {
				plain = append(plain, fmt.Sprintf("interface{}(*new(%s))", subst(u, in)))
			}
			g.p("return rt.TypeBody(%d, n, %s)\n},", id, strings.Join(plain, ", "))
			g.p("Calls: []func(n int) int{")
			zero := fmt.Sprintf("var a %s\nvar b %s\n", in[0], in[1])
			if method {
				recv := fmt.Sprintf("x := &%s{}\n", inst)
				g.p("func(n int) int {\n%s%sreturn x.Mq(n, a, b)\n},", zero, recv)
				g.p("func(n int) int {\n%s%sf := x.Mq\nreturn f(n, a, b)\n},", zero, recv)
				g.p("func(n int) int {\n%s%sf := %s\nreturn f(%sx, n, a, b)\n},", zero, recv, fn, map[string]string{"": "*", "*": ""}[star])
				g.p("func(n int) int {\n%s%svar i interface { Mq(int, %s, %s) int } = x\nreturn i.Mq(n, a, b)\n},", zero, recv, in[0], in[1])
			} else {
				g.p("func(n int) int {\n%sreturn %s(n, a, b)\n},", zero, inst)
				g.p("func(n int) int {\n%sf := %s\nreturn f(n, a, b)\n},", zero, inst)
			}
			g.p("}})")
			g.p("}")
		}
	}
}
