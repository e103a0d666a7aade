// gen writes the zoo: functions, methods and generic functions of random signatures and body shapes, with one wrapper
// per form of calling them. It is a function of its seed.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/format"
	"math/rand"
	"os"
	"strings"
)

type gen struct {
	*rand.Rand
	buf    bytes.Buffer
	nid    int
	nn     int
	named  []named
	ifaces []string
}

type named struct {
	name       string
	comparable bool
	strct      bool
	kind       string
}

func (g *gen) p(f string, a ...interface{}) { fmt.Fprintf(&g.buf, f+"\n", a...) }

func (g *gen) pick(s ...string) string { return s[g.Intn(len(s))] }

var basics = []string{"bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "float64", "complex64", "complex128", "string"}

func (g *gen) cmp() string {
	switch g.Intn(6) {
	case 0:
		return "[2]int16"
	case 1:
		for _, i := range g.Perm(len(g.named)) {
			if g.named[i].comparable && !g.named[i].strct {
				return g.named[i].name
			}
		}
	}
	return g.pick("bool", "int", "uint8", "string", "int64")
}

func (g *gen) typ(d int) string {
	if d <= 0 {
		return g.pick(basics...)
	}
	switch g.Intn(20) {
	case 0, 1:
		return "[]" + g.elem(d-1)
	case 2:
		if g.Intn(8) == 0 {
			return fmt.Sprintf("[%d]%s", 5+g.Intn(130), g.pick(basics...))
		}
		return fmt.Sprintf("[%d]%s", g.Intn(5), g.elem(d-1))
	case 3:
		return "map[" + g.cmp() + "]" + g.elem(d-1)
	case 4, 5:
		return "*" + g.elem(d-1)
	case 6:
		return g.pick("chan ", "<-chan ", "chan<- ") + g.elem(d-1)
	case 7:
		return g.pick("func()", "func(int) string", "func(a ...string) (bool, error)")
	case 8:
		return "interface{}"
	case 9:
		return "error"
	case 10:
		return "unsafe.Pointer"
	case 11:
		return "struct{}"
	case 12, 13, 14:
		if len(g.named) > 0 {
			return g.named[g.Intn(len(g.named))].name
		}
	case 15:
		if len(g.ifaces) > 0 {
			return g.ifaces[g.Intn(len(g.ifaces))]
		}
	}
	return g.pick(basics...)
}

// elem avoids chan unsafe.Pointer and the like: reflect.ChanOf derives its types from them, which goes wrong in some
// versions of Go when the program also uses pointers to them.
func (g *gen) elem(d int) string {
	if t := g.typ(d); t != "unsafe.Pointer" {
		return t
	}
	return "uintptr"
}

func (g *gen) name(prefix string) string { g.nn++; return fmt.Sprintf("%s%d", prefix, g.nn) }

type sig struct {
	in, out  []string
	variadic bool
}

func (g *gen) sig() sig {
	var s sig
	n := []int{0, 1, 1, 2, 2, 3, 3, 4, 5, 8, 12}[g.Intn(11)]
	for i := 0; i < n; i++ {
		if i == 0 && g.Intn(24) == 0 {
			s.in = append(s.in, "GenericInfo")
			continue
		}
		s.in = append(s.in, g.typ(2))
	}
	if g.Intn(4) == 0 {
		s.variadic = true
		s.in = append(s.in, g.elem(1))
	}
	m := []int{0, 1, 1, 1, 2, 2, 3, 5}[g.Intn(8)]
	for i := 0; i < m; i++ {
		s.out = append(s.out, g.typ(2))
	}
	return s
}

func (s sig) inT(i int) string {
	if s.variadic && i == len(s.in)-1 {
		return "[]" + s.in[i]
	}
	return s.in[i]
}

func (s sig) params(names bool) string {
	var ps []string
	for i, t := range s.in {
		if s.variadic && i == len(s.in)-1 {
			t = "..." + t
		}
		if names {
			t = fmt.Sprintf("p%d %s", i, t)
		}
		ps = append(ps, t)
	}
	return strings.Join(ps, ", ")
}

func (s sig) results(names bool) string {
	if len(s.out) == 0 {
		return ""
	}
	var rs []string
	for i, t := range s.out {
		if names {
			t = fmt.Sprintf("r%d %s", i, t)
		}
		rs = append(rs, t)
	}
	return "(" + strings.Join(rs, ", ") + ")"
}

func seq(f string, n int) string {
	var xs []string
	for i := 0; i < n; i++ {
		xs = append(xs, fmt.Sprintf(f, i))
	}
	return strings.Join(xs, ", ")
}

// body writes the result list and the body of a function reporting as id; recv is "r" for methods.
func (g *gen) body(id int, s sig, recv string) string {
	var b strings.Builder
	style := g.Intn(4)
	args := ""
	pre := ""
	if style == 1 {
		for i := range s.in {
			pre += fmt.Sprintf("q%d := p%d\n", i, i)
		}
		args = seq("&q%d", len(s.in))
		if recv != "" {
			pre += "rr := r\n"
			args = strings.TrimSuffix("&rr, "+args, ", ")
		}
	} else {
		args = seq("&p%d", len(s.in))
		if recv != "" {
			args = strings.TrimSuffix("&r, "+args, ", ")
		}
	}
	unnamed := g.Intn(3) == 0
	fmt.Fprintf(&b, "%s {\n", s.results(!unnamed))
	if n := []int{0, 0, 0, 0, 16, 100, 200, 1000, 5000}[g.Intn(9)]; n > 0 {
		fmt.Fprintf(&b, "var pad [%d]byte\nrt.Use(pad[:])\n", n)
	}
	switch style {
	case 2:
		b.WriteString("for i := 0; i < 3; i++ {\nrt.Use(nil)\n}\n")
	case 3:
		b.WriteString("defer rt.Use(nil)\n")
	}
	if unnamed {
		for i, t := range s.out {
			fmt.Fprintf(&b, "var r%d %s\n", i, t)
		}
	}
	b.WriteString(pre)
	fmt.Fprintf(&b, "rt.Orig(%d, []interface{}{%s}, []interface{}{%s})\n", id, args, seq("&r%d", len(s.out)))
	if unnamed {
		fmt.Fprintf(&b, "return %s\n", seq("r%d", len(s.out)))
	} else {
		b.WriteString("return\n")
	}
	b.WriteString("}\n")
	return b.String()
}

// callArgs renders the arguments a[from:] of a call.
func (s sig) callArgs(from int) string {
	var xs []string
	for i := range s.in {
		x := fmt.Sprintf("*a[%d].(*%s)", i+from, s.inT(i))
		if s.variadic && i == len(s.in)-1 {
			x = "(" + x + ")..."
		}
		xs = append(xs, x)
	}
	return strings.Join(xs, ", ")
}

func (s sig) assign(call string) string {
	if len(s.out) == 0 {
		return call
	}
	var xs []string
	for i, t := range s.out {
		xs = append(xs, fmt.Sprintf("*r[%d].(*%s)", i, t))
	}
	return strings.Join(xs, ", ") + " = " + call
}

type form struct{ name, pre, callee, recv string }

// entry writes the registration of one entry. full is the signature including the receiver.
func (g *gen) entry(id, orig int, name, kind, fn string, generic bool, full, s sig, forms []form, pure string) {
	g.p("rt.Register(&rt.Entry{ID: %d, OrigID: %d, Name: %q, Kind: %q, Fn: %s, Generic: %v,", id, orig, name, kind, fn, generic)
	if pure != "" {
		g.p("Pure: %s,", pure)
	}
	g.p("Forms: []rt.Form{")
	from := len(full.in) - len(s.in)
	for _, f := range forms {
		sg, fr := s, from
		if f.recv == "full" {
			sg, fr = full, 0
			f.recv = ""
		}
		call := f.callee + "(" + sg.callArgs(fr) + ")"
		g.p("{Name: %q, Recv: %q, Call: func(a, r []interface{}) {\n%s\n%s\n}},", f.name, f.recv, f.pre, sg.assign(call))
	}
	f := forms[0]
	if f.recv != "full" && s.variadic {
		g.p("{Name: \"spread\", Spread: true, Call: func(a, r []interface{}) {\n%s\ns := *a[%d].(*%s)\nswitch len(s) {", f.pre, len(full.in)-1, s.inT(len(s.in)-1))
		for k := 0; k <= 3; k++ {
			h := sig{in: s.in[:len(s.in)-1], out: s.out}
			xs := strings.TrimPrefix(h.callArgs(from)+", "+seq("s[%d]", k), ", ")
			g.p("case %d:\n%s", k, s.assign(f.callee+"("+xs+")"))
		}
		g.p("default:\npanic(\"spread\")\n}\n}},")
	}
	sg, fr := s, from
	if f.recv == "full" {
		sg, fr = full, 0
	}
	call := f.callee + "(" + sg.callArgs(fr) + ")"
	g.p("{Name: \"defer\", NoRes: true, Call: func(a, r []interface{}) {\n%s\nfunc() { defer %s }()\n}},", f.pre, call)
	g.p("{Name: \"go\", Call: func(a, r []interface{}) {\n%s\nrt.Go(func() { %s })\n}},", f.pre, sg.assign(call))
	g.p("},")
	// a compiled hook with the full signature
	g.p("Hook: func(cb func(a, r []interface{})) interface{} {\nreturn func(%s) %s {\ncb([]interface{}{%s}, []interface{}{%s})\nreturn\n}\n},", full.params(true), full.results(true), seq("&p%d", len(full.in)), seq("&r%d", len(full.out)))
	g.p("})")
}

func (g *gen) types() {
	for i := 0; i < 6; i++ {
		n := g.name("N")
		if i == 3 {
			n = "GenericInfo" // not mockey's
		}
		k := g.pick("int", "int16", "uint8", "float64", "string", "bool", "[]byte", "map[string]int", "func(int) int", "uint64")
		g.p("type %s %s", n, k)
		c := !strings.ContainsAny(k, "[") && !strings.HasPrefix(k, "func")
		g.named = append(g.named, named{n, c, false, k})
	}
	for i := 0; i < 3; i++ {
		// interface with implementers
		n := g.name("I")
		m := g.name("Q")
		g.p("type %s interface { %s(int) string }", n, m)
		g.p("type %sA struct { a int; b string }\nfunc (x *%sA) %s(i int) string { return x.b }", n, n, m)
		g.p("type %sB int16\nfunc (x %sB) %s(i int) string { return \"b\" }", n, n, m)
		g.p("func init() { rt.RegisterImpls((*%s)(nil), func(r *rt.Rng) interface{} { return &%sA{r.N(9), \"x\"} }, func(r *rt.Rng) interface{} { return %sB(r.N(9)) }) }", n, n, n)
		g.ifaces = append(g.ifaces, n)
	}
	for i := 0; i < 7; i++ {
		n := g.name("S")
		g.p("type %s struct {", n)
		k := []int{0, 1, 2, 3, 4, 6, 12}[i]
		for j := 0; j < k; j++ {
			g.p("%s%d %s", g.pick("f", "F"), j, g.typ(2))
		}
		g.p("}")
		g.named = append(g.named, named{n, false, true, "struct"})
	}
}

func (g *gen) funcs(n int) {
	for i := 0; i < n; i++ {
		s := g.sig()
		id := g.nid
		g.nid++
		name := g.name("F")
		if i%6 == 5 { // a function literal
			g.p("var %s = func(%s) %s", name, s.params(true), g.body(id, s, ""))
		} else {
			g.p("func %s(%s) %s", name, s.params(true), g.body(id, s, ""))
		}
		g.p("func init() {")
		g.entry(id, id, name, "func", name, false, s, s, []form{
			{"direct", "", name, ""},
			{"funcvar", "f := " + name, "f", ""},
			{"ifacevar", "var x interface{} = " + name + "\nf := x.(func(" + s.params(false) + ") " + s.results(false) + ")", "f", ""},
			{"closure", "g := func() func(" + s.params(false) + ") " + s.results(false) + " { return " + name + " }", "g()", ""},
		}, "")
		g.p("}")
	}
}

// closures: literals that capture variables; a mock of one is a mock of all of the same literal
func (g *gen) closures(n int) {
	for i := 0; i < n; i++ {
		s := g.sig()
		id := g.nid
		g.nid++
		name := g.name("C")
		g.p("func %s(c0 int, c1 string) func(%s) %s {", name, s.params(false), s.results(false))
		g.p("return func(%s) %s", s.params(true), strings.Replace(g.body(id, s, ""), "{\n", "{\nrt.Use([]byte(c1)[:c0])\nc0 = 0\n", 1))
		g.p("}")
		g.p("var %sA, %sB = %s(1, \"x\"), %s(2, \"abc\")", name, name, name, name)
		g.p("func init() {")
		g.entry(id, id, name, "closure", name+"A", false, s, s, []form{
			{"direct", "", name + "A", ""},
			{"sister", "f := " + name + "B", "f", ""},
			{"fresh", "", name + "(0, \"y\")", ""},
		}, "")
		g.p("}")
	}
}

// loops start with a jump
func (g *gen) loops(n int) {
	for i := 0; i < n; i++ {
		id := g.nid
		g.nid++
		name := g.name("L")
		cond := fmt.Sprintf("rt.Once(%d)", id)
		g.p("func %s() {\nfor %s%s {\n%s}\n}", name, strings.Repeat("!", 2*(i&1)), cond, g.pick("", "rt.Use(nil)\n", "continue\n"))
		g.p("func init() {")
		g.entry(id, id, name, "func", name, false, sig{}, sig{}, []form{
			{"direct", "", name, ""},
			{"funcvar", "f := " + name, "f", ""},
		}, "")
		g.p("}")
	}
}

// tinies are short neighbours
func (g *gen) tinies(n int) {
	names := []string{}
	bodies := []string{}
	for i := 0; i < n; i++ {
		names = append(names, g.name("Y"))
		bodies = append(bodies, []string{"(p0 int) int {\nreturn p0 + %d\n}", "(p0 uint8) uint8 {\nreturn p0 ^ %d\n}", "() int {\nreturn %d\n}", "(p0 *int) {\n*p0 = %d\n}", "(p0 int, p1 int) int {\nreturn p0 - p1 + %d\n}", "(p0 string) int {\nreturn len(p0) + %d\n}"}[[]int{0, 1, 4, 5, 0, 5}[g.Intn(6)]])
		bodies[i] = fmt.Sprintf(bodies[i], g.Intn(100))
		g.p("func %s%s", names[i], bodies[i])
	}
	for i := range names {
		g.p("func %sTwin%s", names[i], bodies[i])
	}
	for i, name := range names {
		id := g.nid
		g.nid++
		var s sig
		for _, f := range strings.Split(bodies[i][1:strings.Index(bodies[i], ")")], ",") {
			if f := strings.Fields(f); len(f) == 2 {
				s.in = append(s.in, f[1])
			}
		}
		s.out = strings.Fields(bodies[i][strings.Index(bodies[i], ")")+1 : strings.Index(bodies[i], "{")])
		g.p("func init() {")
		g.entry(id, id, name, "pure", name, false, s, s, []form{
			{"direct", "", name, ""},
			{"funcvar", "f := " + name, "f", ""},
		}, name+"Twin")
		g.p("}")
	}
}

func (g *gen) methods(n int) {
	for i := 0; i < n; i++ {
		s := g.sig()
		id := g.nid
		g.nid++
		// a fresh receiver type, so that every embedding is unambiguous
		base := g.name("R")
		strct := true
		switch g.Intn(4) {
		case 0:
			g.p("type %s %s", base, g.pick("int", "string", "float64", "uint8", "[]int"))
			strct = false
		default:
			g.p("type %s struct {", base)
			for j := g.Intn(4); j > 0; j-- {
				g.p("x%d %s", j, g.typ(2))
			}
			g.p("}")
		}
		_ = strct
		ptr := g.Intn(2) == 0
		name := g.name(g.pick("M", "M", "m"))
		rt := base
		kind := "vmethod"
		if ptr {
			rt, kind = "*"+base, "pmethod"
		}
		g.p("func (r %s) %s(%s) %s", rt, name, s.params(true), g.body(id, s, "r"))
		em, ep, em2, ifc := base+"E", base+"EP", base+"E2", base+"I"
		g.p("type %s struct { pad int32; %s }", em, base)
		g.p("type %s struct { *%s; pad string }", ep, base)
		g.p("type %s struct { pad []int; %s }", em2, ep)
		g.p("type %s interface { %s(%s) %s }", ifc, name, s.params(false), s.results(false))
		g.p("type %sEI struct { %s }", base, ifc)
		full := sig{in: append([]string{rt}, s.in...), out: s.out, variadic: s.variadic}
		expr := fmt.Sprintf("(%s).%s", rt, name)
		var fs []form
		if ptr {
			x := "x := *a[0].(**" + base + ")"
			fs = []form{
				{"direct", x, "x." + name, ""},
				{"expr", "", expr, "full"},
				{"funcvar", "f := " + expr, "f", "full"},
				{"value", x + "\nf := x." + name, "f", ""},
				{"addr", x + "\ntype B struct{ p " + base + " }\nb := (*B)(unsafe.Pointer(x))", "b.p." + name, "nonnil"},
				{"iface", x + "\nvar i " + ifc + " = x", "i." + name, ""},
				{"embedptr", x + "\ne := " + ep + "{" + base + ": x}", "e." + name, ""},
				{"embedptriface", x + "\nvar i " + ifc + " = " + ep + "{" + base + ": x}", "i." + name, ""},
				{"embed2", x + "\ne := " + em2 + "{" + ep + ": " + ep + "{" + base + ": x}}", "e." + name, ""},
				{"embed2iface", x + "\nvar i " + ifc + " = &" + em2 + "{" + ep + ": " + ep + "{" + base + ": x}}", "i." + name, ""},
				{"embediface", x + "\ne := " + base + "EI{x}", "e." + name, ""},
				{"embedexpr", x + "\ne := " + ep + "{" + base + ": x}\nf := " + ep + "." + name, "func(" + s.params(true) + ") " + s.results(false) + " { " + ret(s) + "f(e" + passOn(s) + ") }", ""},
				{"ifaceexpr", x + "\nf := " + ifc + "." + name, "func(" + s.params(true) + ") " + s.results(false) + " { " + ret(s) + "f(x" + passOn(s) + ") }", ""},
				{"embedvalue", x + "\ne := " + ep + "{" + base + ": x}\nf := e." + name, "f", ""},
			}
		} else {
			x := "x := *a[0].(*" + base + ")"
			fs = []form{
				{"direct", x, "x." + name, ""},
				{"expr", "", expr, "full"},
				{"funcvar", "f := " + expr, "f", "full"},
				{"value", x + "\nf := x." + name, "f", ""},
				{"ptr", x + "\np := &x", "p." + name, ""},
				{"ptrexpr", x + "\nf := (*" + base + ")." + name, "func(" + s.params(true) + ") " + s.results(false) + " { " + ret(s) + "f(&x" + passOn(s) + ") }", ""},
				{"iface", x + "\nvar i " + ifc + " = x", "i." + name, ""},
				{"ifaceptr", x + "\nvar i " + ifc + " = &x", "i." + name, ""},
				{"ifacevalue", x + "\nvar i " + ifc + " = x\nf := i." + name, "f", ""},
				{"embed", x + "\ne := " + em + "{" + base + ": x}", "e." + name, ""},
				{"embedval", x + "\nvar i " + ifc + " = " + em + "{" + base + ": x}", "i." + name, ""},
				{"embedptr", x + "\ne := " + ep + "{" + base + ": &x}", "e." + name, ""},
				{"embed2iface", x + "\nvar i " + ifc + " = &" + em2 + "{" + ep + ": " + ep + "{" + base + ": &x}}", "i." + name, ""},
				{"embediface", x + "\ne := " + base + "EI{&x}", "e." + name, ""},
			}
		}
		g.p("func init() {")
		g.entry(id, id, expr, kind, expr, false, full, s, fs, "")
		g.p("}")
	}
}

func ret(s sig) string {
	if len(s.out) > 0 {
		return "return "
	}
	return ""
}

func passOn(s sig) string {
	if len(s.in) == 0 {
		return ""
	}
	p := ", " + seq("p%d", len(s.in))
	if s.variadic {
		p += "..."
	}
	return p
}

// generics: one shape per instantiation of a function
func (g *gen) generics(n int) {
	argPool := []string{"int", "string", "float64", "[3]int16", "S13", "[]string", "bool", "map[string]int", "complex128", "uint8", "interface{}", "error", "*int", "chan int", "func()"}
	// copied by runtime.duffcopy, from its start or its middle, or by string instructions
	argPool = append(argPool, "[128]int64", fmt.Sprintf("[%d]int64", 2*(5+g.Intn(59))), fmt.Sprintf("[%d]string", 4+g.Intn(70)), fmt.Sprintf("[%d]uint8", 60+g.Intn(1500)))
	if len(g.named) > 0 {
		for i := range argPool {
			if argPool[i] == "S13" {
				for _, nm := range g.named {
					if nm.strct {
						argPool[i] = nm.name
					}
				}
			}
		}
	}
	sub := func(s sig, T, U string) sig {
		r := sig{variadic: s.variadic}
		rep := func(t string) string {
			t = strings.ReplaceAll(t, "#T", T)
			return strings.ReplaceAll(t, "#U", U)
		}
		for _, t := range s.in {
			r.in = append(r.in, rep(t))
		}
		for _, t := range s.out {
			r.out = append(r.out, rep(t))
		}
		return r
	}
	gt := func() string {
		return g.pick("#T", "#T", "#U", "[]#T", "*#U", "map[string]#U", "[2]#T", "int", "string", "error", "func(#T) #U")
	}
	for i := 0; i < n; i++ {
		var s sig
		for j := 1 + g.Intn(4); j > 0; j-- {
			s.in = append(s.in, gt())
		}
		if g.Intn(4) == 0 {
			s.variadic = true
			s.in = append(s.in, g.pick("#T", "#U", "int"))
		}
		for j := g.Intn(4); j > 0; j-- {
			s.out = append(s.out, gt())
		}
		if i%12 == 1 { // a long way to the call of the shared body
			s.variadic = false
			for s.in = nil; len(s.in) < 44; {
				s.in = append(s.in, g.pick("#T", "#U", "[]#T", "string", "interface{}", "[2]#T", "[1]string"))
			}
		}
		if i%6 == 0 {
			s.in[0] = "#T" // with the first instance below, always copied by all of duffcopy
		}
		orig := g.nid
		g.nid++
		ts := sub(s, "T", "U")
		method := g.Intn(2) == 0
		name := g.name("G")
		ptr := g.Intn(2) == 0
		star := ""
		if ptr {
			star = "*"
		}
		if method {
			g.p("type %s[T any, U any] struct { a T; b int; c U }", name)
			g.p("func (r %s%s[T, U]) Mg(%s) %s", star, name, ts.params(true), g.body(orig, ts, "r"))
		} else {
			g.p("func %s[T any, U any](%s) %s", name, ts.params(true), g.body(orig, ts, ""))
		}
		perm := g.Perm(len(argPool))
		for j := 0; j < 3; j++ {
			T, U := argPool[perm[j]], argPool[perm[(j+3+g.Intn(4))%len(perm)]]
			if i%6 == 0 && j == 0 {
				T = "[128]int64"
			}
			inst := fmt.Sprintf("%s[%s, %s]", name, T, U)
			is := sub(s, T, U)
			id := g.nid
			g.nid++
			g.p("func init() {")
			if method {
				rt := star + inst
				full := sig{in: append([]string{rt}, is.in...), out: is.out, variadic: is.variadic}
				expr := fmt.Sprintf("(%s).Mg", rt)
				x := "x := *a[0].(*" + rt + ")"
				ifc := fmt.Sprintf("interface { Mg(%s) %s }", is.params(false), is.results(false))
				fs := []form{
					{"direct", x, "x.Mg", ""},
					{"expr", "", expr, "full"},
					{"funcvar", "f := " + expr, "f", "full"},
					{"value", x + "\nf := x.Mg", "f", ""},
					{"iface", x + "\nvar i " + ifc + " = x", "i.Mg", ""},
				}
				g.entry(id, orig, expr, "gmethod", expr, true, full, is, fs, "")
			} else {
				g.entry(id, orig, inst, "gfunc", inst, true, is, is, []form{
					{"direct", "", inst, ""},
					{"funcvar", "f := " + inst, "f", ""},
					{"ifacevar", "var x interface{} = " + inst + "\nf := x.(func(" + is.params(false) + ") " + is.results(false) + ")", "f", ""},
				}, "")
			}
			g.p("}")
		}
	}
}

// expr is never constant
func (g *gen) expr(vars []string, d int) string {
	return "(" + vars[g.Intn(len(vars))] + g.pick(" + ", " - ", " ^ ", " | ") + g.expr1(vars, d) + ")"
}

func (g *gen) expr1(vars []string, d int) string {
	if d == 0 || g.Intn(4) == 0 {
		if g.Intn(3) == 0 {
			return fmt.Sprint(g.Intn(200) - 100)
		}
		return vars[g.Intn(len(vars))]
	}
	return "(" + g.expr1(vars, d-1) + g.pick(" + ", " - ", " * ", " ^ ", " & ", " | ") + g.expr1(vars, d-1) + ")"
}

// pures: bodies that report nothing, so that leaf functions without frames are met too
func (g *gen) pures(n int) {
	for i := 0; i < n; i++ {
		id := g.nid
		g.nid++
		name := g.name("P")
		var s sig
		var vars []string
		for j := 1 + g.Intn(5); j > 0; j-- {
			k := len(s.in)
			switch g.Intn(4) {
			case 0:
				s.in = append(s.in, "string")
				vars = append(vars, fmt.Sprintf("int(len(p%d))", k))
			case 1:
				s.in = append(s.in, "[]int64")
				vars = append(vars, fmt.Sprintf("int(len(p%d))", k), fmt.Sprintf("int(cap(p%d))", k))
			default:
				t := g.pick("int", "int8", "uint16", "int64", "uint32")
				s.in = append(s.in, t)
				vars = append(vars, fmt.Sprintf("int(p%d)", k))
			}
		}
		s.out = []string{g.pick("int", "int64", "uint8", "int32")}
		var b string
		switch g.Intn(5) {
		case 0:
			b = fmt.Sprintf("return %s(%s)", s.out[0], g.expr(vars, 2))
		case 1:
			b = fmt.Sprintf("x := %s\nif x > %s { return %s(x) }\nreturn %s(%s)", g.expr(vars, 2), g.expr(vars, 1), s.out[0], s.out[0], g.expr(append(vars, "x"), 2))
		case 2:
			b = fmt.Sprintf("x := %d\nfor i := 0; i < %d; i++ { x = x*31 + %s }\nreturn %s(x)", g.Intn(100), g.Intn(9), g.expr(append(vars, "i"), 2), s.out[0])
		case 3:
			b = fmt.Sprintf("switch (%s) & 3 {\ncase 0: return %s(%s)\ncase 1: panic(\"pure\")\n}\nreturn %s(%s)", g.expr(vars, 1), s.out[0], g.expr(vars, 1), s.out[0], g.expr(vars, 1))
		case 4:
			b = fmt.Sprintf("var t [8]int\nx := %s\nt[x & 7] = %s\nreturn %s(t[(x >> 3) & 7] + t[x & 7] + t[%s & 9])", g.expr(vars, 2), g.expr(vars, 1), s.out[0], g.expr(vars, 1))
		}
		for _, nm := range []string{name, name + "Twin"} {
			g.p("func %s(%s) %s {\n%s\n}", nm, s.params(true), s.results(false), b)
		}
		g.p("func init() {")
		g.entry(id, id, name, "pure", name, false, s, s, []form{
			{"direct", "", name, ""},
			{"funcvar", "f := " + name, "f", ""},
		}, name+"Twin")
		g.p("}")
	}
}

func main() {
	seed := flag.Int64("seed", 1, "")
	out := flag.String("o", "", "")
	nf := flag.Int("funcs", 40, "")
	nm := flag.Int("methods", 40, "")
	ng := flag.Int("generics", 10, "")
	np := flag.Int("pures", 16, "")
	nn := flag.Int("nests", 24, "")
	nq := flag.Int("gtypes", 12, "")
	flag.Parse()
	g := &gen{Rand: rand.New(rand.NewSource(*seed))}
	g.p("// Code generated by cmd/gen. DO NOT EDIT.")
	g.p("package zoo\nimport (\n\"reflect\"\n\"unsafe\"\n\"verifharness/rt\"\n)\nvar _ unsafe.Pointer\nvar _ reflect.Type\n")
	g.types()
	g.funcs(*nf)
	g.methods(*nm)
	g.generics(*ng)
	g.pures(*np)
	g.tinies(10)
	g.closures(6)
	g.loops(4)
	g.nests(*nn)
	g.gtypes(*nq)
	src, err := format.Source(g.buf.Bytes())
	if err != nil {
		os.WriteFile(*out+".bad", g.buf.Bytes(), 0o644)
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if err := os.WriteFile(*out, src, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
