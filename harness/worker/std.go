//go:build stdzoo

package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/arch/x86/x86asm"

	"github.com/bytedance/mockey"

	"verifharness/rt"
	_ "verifharness/stdzoo"
)

// Engine C01s: functions and methods of the standard library as targets, with whatever signatures and code they have.
// The arguments are anything of their types; while no mock is in force only those known to be pure are called. Nothing
// of the packages in question runs between a build and the release but the calls of the case.

type SOp struct {
	K int    `json:"k"` // 0 build, 1 call, 2 release, 3 compare the memory
	T int    `json:"t"` // index into the targets
	S uint64 `json:"s"`
}

type SPlan struct {
	T   []int `json:"t"` // negative: the next function in memory after the target before
	Ops []SOp `json:"ops"`
}

func genSPlan(t *rt.Rng) SPlan {
	var p SPlan
	n := 1 + t.N(3)
	for i := 0; i < n; i++ {
		if i > 0 && t.N(3) == 0 {
			p.T = append(p.T, -1-t.N(2))
			continue
		}
		p.T = append(p.T, t.N(1<<24))
	}
	for n := 4 + t.N(16); n > 0; n-- {
		p.Ops = append(p.Ops, SOp{weighted(t, []int{6, 9, 2, 1}), t.N(len(p.T)), seed(t)})
	}
	return p
}

var (
	stdPure   []*rt.Std
	stdByAddr []*rt.Std
	stdImpls  = map[reflect.Type][]reflect.Type{}
)

// stdNext is the n-th function behind e.
func stdNext(e *rt.Std, n int) *rt.Std {
	if stdByAddr == nil {
		stdByAddr = append(stdByAddr, rt.Stds...)
		sort.SliceStable(stdByAddr, func(i, j int) bool { return stdByAddr[i].Code < stdByAddr[j].Code })
	}
	i := sort.Search(len(stdByAddr), func(i int) bool { return stdByAddr[i].Code > e.Code }) // behind all of its aliases
	return stdByAddr[(i+n-1)%len(stdByAddr)]
}

// stdTarget: every third target is a pure one.
func stdTarget(n int) *rt.Std {
	if stdPure == nil {
		for _, e := range rt.Stds {
			if e.Pure && pureType(e.Type) && stdUsable(e) == "" {
				stdPure = append(stdPure, e)
			}
		}
	}
	if n%3 == 0 {
		return stdPure[n/3%len(stdPure)]
	}
	return rt.Stds[n/3%len(rt.Stds)]
}

func stdImplementers(t reflect.Type) []reflect.Type {
	l, ok := stdImpls[t]
	if !ok {
		for _, e := range rt.Stds {
			if e.Method != "" {
				x := e.Type.In(0)
				if x.Implements(t) && (len(l) == 0 || l[len(l)-1] != x) {
					l = append(l, x)
				}
			}
		}
		stdImpls[t] = l
	}
	return l
}

func pureType(t reflect.Type) bool {
	for i := 0; i < t.NumIn(); i++ {
		x := t.In(i)
		if x.Kind() == reflect.Slice {
			x = x.Elem()
		}
		switch k := x.Kind(); {
		case k == reflect.Uintptr || k >= reflect.Array && k != reflect.String:
			return false
		}
	}
	return true
}

// stdUsable: besides of what usable wants, nothing may jump back into the displaced instructions.
func stdUsable(e *rt.Std) string {
	code := rt.BytesAt(e.Code, 4096)
	if s := entryProblem(code, branchLen); s != "" {
		return s
	}
	for pos := 0; pos < 2000; {
		inst, err := x86asm.Decode(code[pos:], 64)
		if err != nil || inst.Op == x86asm.INT { // past the end
			break
		}
		if rel, ok := inst.Args[0].(x86asm.Rel); ok && inst.Op != x86asm.CALL {
			if to := pos + inst.Len + int(rel); to > 0 && to < maxEntry {
				return "loop to the entry"
			}
		}
		pos += inst.Len
	}
	return ""
}

type stdMock struct {
	e       *rt.Std
	m       *mockey.Mocker
	mode    int
	nr      bool
	asked   int
	got     []reflect.Value
	hooked  int
	res     []reflect.Value
	origin  reflect.Value
	pass    bool // the original answers
	viaOrig bool
}

type stdCase struct {
	fail *failure
	st   map[string]int
	m    []*stdMock
	e    []*rt.Std
}

func (c *stdCase) failf(cat, f string, a ...interface{}) {
	if c.fail == nil {
		c.fail = &failure{cat, fmt.Sprintf(f, a...)}
	}
}

func kinds(vs []reflect.Value) string {
	var s []string
	for _, v := range vs {
		switch k := v.Kind(); { // no methods
		case k >= reflect.Int && k <= reflect.Int64:
			s = append(s, fmt.Sprint(v.Type().Name(), " ", v.Int()))
		case k >= reflect.Uint && k <= reflect.Uint64:
			s = append(s, fmt.Sprint(v.Type().Name(), " ", v.Uint()))
		case k == reflect.Float64 || k == reflect.Float32:
			s = append(s, fmt.Sprint(v.Type().Name(), " ", v.Float()))
		case k == reflect.String:
			s = append(s, fmt.Sprintf("%s %+q", v.Type().Name(), v.String()))
		case k == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8:
			s = append(s, fmt.Sprintf("%x", v.Bytes()))
		default:
			s = append(s, v.Type().String())
		}
	}
	return "(" + strings.Join(s, ", ") + ")"
}

// args are values for the parameters: tame ones if the original is to run.
func (c *stdCase) args(e *rt.Std, r *rt.Rng, tame bool) []reflect.Value {
	var args []reflect.Value
	wild := strings.HasPrefix(e.Name, "math.") || strings.HasPrefix(e.Name, "math/cmplx.") || strings.HasPrefix(e.Name, "time.")
	for i := 0; i < e.Type.NumIn(); i++ {
		v := rt.Gen(e.Type.In(i), r)
		if i == 0 && e.Method != "" && v.Kind() == reflect.Ptr && v.IsNil() && r.N(4) != 0 {
			v.Set(reflect.New(v.Type().Elem()))
		}
		if tame && !wild {
			small := func(v reflect.Value) {
				switch k := v.Kind(); {
				case k >= reflect.Int && k <= reflect.Int64:
					v.SetInt(int64(r.N(40) - 4))
				case k >= reflect.Uint && k <= reflect.Uint64:
					v.SetUint(uint64(r.N(40)))
				case k == reflect.String && r.N(2) == 0:
					v.SetString([]string{"", "a/../b//c", "12", "&lt;x&#39;", "%41%zz", "foo", "10.0.0.1:80", "[::1]:8", "1h2m", "Content-type"}[r.N(10)])
				}
			}
			small(v)
			if v.Kind() == reflect.Slice {
				for k := 0; k < v.Len(); k++ {
					small(v.Index(k))
				}
			}
		}
		args = append(args, v)
	}
	return args
}

func plainArgs(vs []reflect.Value) []reflect.Value {
	out := make([]reflect.Value, len(vs))
	for i, v := range vs {
		out[i] = rt.Copy(v)
	}
	return out
}

// invoke calls in one of several ways; the panic as text.
func stdInvoke(f reflect.Value, args []reflect.Value) (res []reflect.Value, pan string) {
	defer func() {
		if p := recover(); p != nil {
			pan = fmt.Sprint("panic ", p)
		}
	}()
	if f.Type().IsVariadic() {
		return f.CallSlice(args), ""
	}
	return f.Call(args), ""
}

func deepSame(a, b []reflect.Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		if x.Kind() == reflect.Float64 || x.Kind() == reflect.Float32 || x.Kind() == reflect.Complex128 {
			if !rt.Same(x, y) {
				return false
			}
			continue
		}
		if !reflect.DeepEqual(x.Interface(), y.Interface()) {
			if e1, ok := x.Interface().(error); ok {
				if e2, ok := y.Interface().(error); ok && e1.Error() == e2.Error() {
					continue
				}
			}
			return false
		}
	}
	return true
}

func hookType(t reflect.Type, skip int, out []reflect.Type) reflect.Type {
	var in []reflect.Type
	for i := skip; i < t.NumIn(); i++ {
		in = append(in, t.In(i))
	}
	return reflect.FuncOf(in, out, t.IsVariadic() && len(in) > 0)
}

// hides: a nested type has a method of the same name, which GetMethod prefers
func hides(t reflect.Type, name string, depth int) bool {
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	if depth > 6 || t.Kind() != reflect.Struct {
		return depth > 6
	}
	for i := 0; i < t.NumField(); i++ {
		if f := t.Field(i); f.Anonymous {
			if _, ok := f.Type.MethodByName(name); ok {
				return true
			}
			if _, ok := reflect.PtrTo(f.Type).MethodByName(name); ok || hides(f.Type, name, depth+1) {
				return true
			}
		}
	}
	return false
}

func outs(t reflect.Type) (l []reflect.Type) {
	for i := 0; i < t.NumOut(); i++ {
		l = append(l, t.Out(i))
	}
	return
}

func (c *stdCase) build(i int, r *rt.Rng) {
	if c.m[i] != nil {
		return
	}
	e := c.e[i]
	for k, o := range c.e { // the same function, or aliases of it
		if c.m[k] != nil && o.Code == e.Code {
			return
		}
	}
	m := &stdMock{e: e}
	problem := stdUsable(e)
	canPass := e.Pure && pureType(e.Type) && problem == ""
	m.mode = r.N(6)
	var target interface{} = e.Fn
	if e.Method != "" && r.N(2) == 0 && !hides(e.Type.In(0), e.Method, 0) {
		inst := reflect.New(e.Type.In(0)).Elem()
		if inst.Kind() == reflect.Ptr {
			inst = reflect.New(inst.Type().Elem())
		}
		target = mockey.GetMethod(inst.Interface(), e.Method)
		if reflect.TypeOf(target) != e.Type {
			c.failf("method", "GetMethod(%T, %q) is a %T", inst.Interface(), e.Method, target)
			return
		}
		c.st["by GetMethod"]++
	}
	b := mockey.Mock(target)
	hook := func(skip int) interface{} {
		return reflect.MakeFunc(hookType(e.Type, skip, outs(e.Type)), func(args []reflect.Value) []reflect.Value {
			m.hooked++
			if m.got == nil { // the outermost call, if the original calls itself
				m.got = plainArgs(args)
			}
			if m.viaOrig {
				if e.Type.IsVariadic() {
					return m.origin.Elem().CallSlice(args)
				}
				return m.origin.Elem().Call(args)
			}
			return m.res
		}).Interface()
	}
	boolOut := []reflect.Type{reflect.TypeOf(true)}
	pred := func(yes bool) interface{} {
		return reflect.MakeFunc(hookType(e.Type, 0, boolOut), func(args []reflect.Value) []reflect.Value {
			m.asked++
			if m.got == nil {
				m.got = plainArgs(args)
			}
			return []reflect.Value{reflect.ValueOf(yes)}
		}).Interface()
	}
	for k := 0; k < e.Type.NumOut(); k++ {
		m.res = append(m.res, rt.Gen(e.Type.Out(k), r))
	}
	values := func() (l []interface{}) {
		for _, v := range m.res {
			l = append(l, v.Interface())
		}
		return
	}
	if m.mode >= 4 && !canPass {
		m.mode -= 3
	}
	switch m.mode {
	case 0:
		b.To(hook(0))
	case 1:
		if e.Method != "" {
			m.nr = true
			b.To(hook(1))
		} else {
			b.To(hook(0))
		}
	case 2:
		b.Return(values()...)
	case 3:
		b.When(pred(true)).Return(values()...)
	case 4: // passed through
		m.pass = true
		b.When(pred(false)).Return(values()...)
	case 5:
		m.viaOrig, m.pass = true, true
		m.origin = reflect.New(e.Type)
		b.Origin(m.origin.Interface()).To(hook(0))
	}
	refused := ""
	func() {
		defer func() {
			if p := recover(); p != nil {
				refused = fmt.Sprint(p)
			}
		}()
		m.m = b.Build()
	}()
	switch {
	case refused != "" && (problem == "short" || problem == "undecodable"):
		c.st["refused: "+problem]++
	case refused != "":
		c.failf("build", "the mock of %s cannot be built: %s", e.Name, refused)
	case problem == "short":
		c.failf("build", "%s is too short for a mock, but it has been built", e.Name)
	default:
		c.m[i] = m
		c.st[fmt.Sprintf("mode %d", m.mode)]++
		c.st["built"]++
	}
}

func (c *stdCase) call(i int, r *rt.Rng) {
	e, m := c.e[i], c.m[i]
	if m == nil {
		if e.Pure && pureType(e.Type) {
			for k, o := range c.e { // the mock of an alias
				if c.m[k] != nil && o.Code == e.Code {
					return
				}
			}
			rr := *r
			stdInvoke(reflect.ValueOf(e.Fn), c.args(e, &rr, true))
			c.st["unmocked"]++
		}
		return
	}
	if m.pass {
		c.passed(m, r)
		return
	}
	args := c.args(e, r, false)
	f, in := reflect.ValueOf(e.Fn), plainArgs(args)
	how := r.N(4)
	if e.Method != "" && how == 1 && !(args[0].Kind() == reflect.Ptr && args[0].IsNil()) {
		f, in = args[0].MethodByName(e.Method), in[1:] // through the method table, and its wrapper for values
		c.st["method value"]++
	}
	hooked, t, mt := m.hooked, m.m.Times(), m.m.MockTimes()
	for _, o := range c.m { // originals may have called the mocked functions
		if o != nil {
			o.got = nil
		}
	}
	var res []reflect.Value
	pan := ""
	if how == 2 {
		rt.Go(func() { res, pan = stdInvoke(f, in) })
	} else {
		res, pan = stdInvoke(f, in)
	}
	c.st["mocked"]++
	what := fmt.Sprintf("%s%s", e.Name, kinds(args))
	if pan != "" {
		c.failf("call", "the mocked call %s: %s", what, pan)
		return
	}
	if !rt.SameAll(addressable(res), m.res) {
		c.failf("results", "the mocked call %s has results other than the mock's", what)
	}
	want := args
	if m.nr {
		want = args[1:]
	}
	if m.mode != 2 && !rt.SameAll(m.got, want) {
		c.failf("args", "the mocked call %s hands other arguments over: %s", what, kinds(m.got))
	}
	if h := m.hooked - hooked; (m.mode <= 1) != (h == 1) {
		c.failf("hook", "the hook of %s ran %d times for one call", what, h)
	}
	for k, o := range c.m {
		if o != nil && o != m && o.got != nil {
			c.failf("hook", "the call %s reaches the mock of %s", what, c.e[k].Name)
		}
	}
	if m.m.Times() != t+1 || m.m.MockTimes() != mt+1 {
		c.failf("times", "%s: Times goes from %d to %d, MockTimes from %d to %d by one call", what, t, m.m.Times(), mt, m.m.MockTimes())
	}
	m.got = nil
}

// passed calls a pure function through its mock, compares with it after the release, and mocks it again.
func (c *stdCase) passed(m *stdMock, r *rt.Rng) {
	e := m.e
	args := c.args(e, r, true)
	dup := func() []reflect.Value { // no shared memory
		out := plainArgs(args)
		for _, v := range out {
			if v.Kind() == reflect.Slice && !v.IsNil() {
				s := reflect.MakeSlice(v.Type(), v.Len(), v.Cap())
				reflect.Copy(s, v)
				v.Set(s)
			}
		}
		return out
	}
	f := reflect.ValueOf(e.Fn)
	in := dup()
	t, mt, hooked, asked := m.m.Times(), m.m.MockTimes(), m.hooked, m.asked
	m.got = nil
	res, pan := stdInvoke(f, in)
	got := m.got
	t1, mt1, h1, a1 := m.m.Times(), m.m.MockTimes(), m.hooked, m.asked
	m.m.UnPatch()
	in2 := dup()
	want, wpan := stdInvoke(f, in2)
	m.m.Patch()
	m.got = nil
	c.st["passed"]++
	what := fmt.Sprintf("%s%s", e.Name, kinds(args))
	if pan != wpan || !deepSame(res, want) || !deepSame(in, in2) {
		c.failf("original", "%s through the mock gives %s %s, itself %s %s", what, kinds(res), pan, kinds(want), wpan)
	}
	if !rt.SameAll(got, in) {
		c.failf("args", "%s hands other arguments over: %s", what, kinds(got))
	}
	// it may call itself
	if n := h1 - hooked + a1 - asked; n < 1 || t1 != t+n || mt1 != mt+h1-hooked || (h1 > hooked) != m.viaOrig {
		c.failf("times", "%s passed through: Times +%d, MockTimes +%d, hooks +%d, predicates +%d", what, t1-t, mt1-mt, h1-hooked, a1-asked)
	}
}

func (c *stdCase) mem() {
	diffs(func(addr uintptr) bool {
		for i, m := range c.m {
			if m != nil && addr >= c.e[i].Code && addr < c.e[i].Code+maxEntry {
				return true
			}
		}
		c.failf("text", "code at %x differs from the original, but belongs to no mock in force", addr)
		return false
	})
	exe := exePath()
	for _, x := range readMaps() {
		if x.path == exe && strings.Contains(x.perm, "x") && x.perm[:3] != "r-x" {
			c.failf("maps", "code pages %x-%x are %s", x.lo, x.hi, x.perm)
		}
	}
	c.st["memory"]++
}

func (c *stdCase) release(i int) {
	if m := c.m[i]; m != nil {
		m.m.UnPatch()
		c.m[i] = nil
		c.st["released"]++
	}
}

func stdRun(plan string, verb bool) (*failure, map[string]int) {
	var p SPlan
	if err := json.Unmarshal([]byte(plan), &p); err != nil || len(p.T) == 0 {
		return nil, nil
	}
	c := &stdCase{st: map[string]int{}}
	rt.Go(func() {
		for _, t := range p.T {
			if n := len(c.e); t < 0 && n > 0 {
				c.e = append(c.e, stdNext(c.e[n-1], -t))
				continue
			}
			c.e = append(c.e, stdTarget(abs(t)))
		}
		c.m = make([]*stdMock, len(c.e))
		for _, op := range p.Ops {
			i := op.T % len(c.e)
			r := rt.NewRng(op.S)
			if verb {
				fmt.Printf("%d %s\n", op.K, c.e[i].Name)
			}
			switch op.K {
			case 0:
				c.build(i, r)
			case 1:
				c.call(i, r)
			case 2:
				c.release(i)
			default:
				c.mem()
			}
			if c.fail != nil {
				break
			}
		}
		for i := range c.m {
			c.release(i)
		}
		if c.fail == nil {
			c.mem()
		}
	})
	return c.fail, c.st
}

func init() {
	rt.Implementers = stdImplementers
	properties["C01s"] = &property{
		gen:        func(seed int) string { b, _ := json.Marshal(genSPlan(rt.NewRng(uint64(seed)))); return string(b) },
		run:        stdRun,
		nontrivial: func(s map[string]int) bool { return s["mocked"]+s["passed"]+s["refused: short"] > 0 },
	}
}
