package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"sync"

	"github.com/bytedance/mockey"

	"verifharness/rt"
)

// Engine of C12: definitions whose functions have mutated signatures, chains that set parts twice, return values of any
// types and counts, and targets that are no functions. Whether a definition is well-typed is judged by a predicate of
// its own.

type IStep struct {
	K int    `json:"k"`           // 0 When, 1 To, 2 Return, 3 Return(Sequence), 4 Origin, 5 filter
	B int    `json:"b,omitempty"` // base signature: bit 0 without the first parameter, bit 1 GenericInfo
	M []int  `json:"m,omitempty"` // mutations
	R int    `json:"r,omitempty"` // mutation of the results, or of what is passed at all
	S uint64 `json:"s,omitempty"`
}

type IPlan struct {
	T     int      `json:"t"`
	API   int      `json:"api,omitempty"`
	Bad   int      `json:"bad,omitempty"` // > 0: mock something that is no function
	Steps []IStep  `json:"steps"`
	Re    *IStep   `json:"re,omitempty"` // applied to the built mock
	Calls []uint32 `json:"calls"`
	S     uint64   `json:"s"`
}

func genIStep(t *rt.Rng, clean int) IStep {
	s := IStep{K: weighted(t, []int{5, 5, 4, 2, 3, 1}), B: weighted(t, []int{5, 4, 1, 1}), S: seed(t)}
	if !pct(t, clean) {
		for n := 1 + t.N(2); n > 0; n-- {
			s.M = append(s.M, t.N(1000))
		}
		if pct(t, 40) {
			s.M = nil
			s.R = 1 + t.N(12)
		}
	}
	return s
}

func genIPlan(t *rt.Rng) IPlan {
	p := IPlan{T: t.N(997), API: t.N(4), S: seed(t)}
	if pct(t, 3) {
		p.Bad = 1 + t.N(16)
	}
	clean := []int{100, 80, 50, 0}[t.N(4)]
	var have [3]bool // when, hook, origin
	for n := 1 + t.N(6); n > 0; n-- {
		s := genIStep(t, clean)
		if have[0] && have[1] {
			have[0], have[1] = false, false
		}
		k := []int{0, 1, 1, 1, 2, 0}[s.K]
		if s.K < 5 && have[k] && !pct(t, 6) {
			continue
		}
		have[k] = have[k] || s.K < 5
		p.Steps = append(p.Steps, s)
	}
	if pct(t, 25) {
		s := genIStep(t, 50)
		s.K %= 5
		p.Re = &s
	}
	for n := 1 + t.N(4); n > 0; n-- {
		p.Calls = append(p.Calls, uint32(t.U64()))
	}
	return p
}

var anyT = reflect.TypeOf((*interface{})(nil)).Elem()

var strange = []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(""), errT, anyT, infoT, reflect.TypeOf(uintptr(0)), reflect.TypeOf([]int{}), reflect.TypeOf(struct{}{}), reflect.TypeOf(func() {}), boolT, reflect.TypeOf(0.5)}

// alike is another type that resembles t.
func alike(t reflect.Type, r *rt.Rng) reflect.Type {
	c := []reflect.Type{reflect.PtrTo(t), anyT, reflect.SliceOf(t)}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Chan:
		c = append(c, t.Elem(), t.Elem())
	}
	if u := unnamed(t); u != t {
		c = append(c, u, u)
	}
	switch t.Kind() {
	case reflect.Int, reflect.Int64, reflect.Uint, reflect.Uint64, reflect.Uintptr:
		c = append(c, reflect.TypeOf(int64(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(0), infoT)
	case reflect.Int32, reflect.Uint32, reflect.Float32:
		c = append(c, reflect.TypeOf(int32(0)), reflect.TypeOf(uint32(0)))
	case reflect.Bool:
		c = append(c, boolT, namedBoolT)
	case reflect.String:
		c = append(c, reflect.TypeOf(""), reflect.TypeOf([]byte{}))
	case reflect.Interface:
		c = append(c, errT)
	}
	if k := kin(t); len(k) > 0 {
		c = append(c, k[r.N(len(k))], k[r.N(len(k))])
	}
	return c[r.N(len(c))]
}

type (
	kinBool       bool
	kinInt        int
	kinInt8       int8
	kinInt16      int16
	kinInt32      int32
	kinInt64      int64
	kinUint       uint
	kinUint8      uint8
	kinUint16     uint16
	kinUint32     uint32
	kinUint64     uint64
	kinUintptr    uintptr
	kinFloat32    float32
	kinFloat64    float64
	kinComplex64  complex64
	kinComplex128 complex128
	kinString     string
	kinInts       []int
	kinBytes      []byte
	kinStrings    map[string]int
	kinFunc       func()
	kinPtr        *int
	kinChan       chan int
	kinEmpty      struct{}
	kinErr        interface{ Error() string }
	kinAny        interface{}
)

var kinTypes []reflect.Type
var kinOf sync.Map

// kin are other types of the same kind, if possible of the same underlying type.
func kin(t reflect.Type) []reflect.Type {
	if k, ok := kinOf.Load(t); ok {
		return k.([]reflect.Type)
	}
	kinMu.Lock()
	defer kinMu.Unlock()
	if kinTypes == nil {
		for _, x := range []interface{}{kinBool(false), kinInt(0), kinInt8(0), kinInt16(0), kinInt32(0), kinInt64(0), kinUint(0), kinUint8(0), kinUint16(0), kinUint32(0), kinUint64(0),
			kinUintptr(0), kinFloat32(0), kinFloat64(0), kinComplex64(0), kinComplex128(0), kinString(""), kinInts(nil), kinBytes(nil), kinStrings(nil), kinFunc(nil), kinPtr(nil), kinChan(nil), kinEmpty{}} {
			kinTypes = append(kinTypes, reflect.TypeOf(x))
		}
		kinTypes = append(kinTypes, reflect.TypeOf((*kinErr)(nil)).Elem(), reflect.TypeOf((*kinAny)(nil)).Elem())
		seen := map[reflect.Type]bool{}
		for _, e := range rt.Entries {
			for _, l := range [][]reflect.Type{inTypes(e, false, false), outTypes(e)} {
				for _, x := range l {
					if !seen[x] {
						seen[x] = true
						kinTypes = append(kinTypes, x)
					}
				}
			}
		}
	}
	var same, conv []reflect.Type
	for _, x := range kinTypes {
		if x == t || x.Kind() != t.Kind() {
			continue
		}
		if x.ConvertibleTo(t) {
			conv = append(conv, x)
		} else {
			same = append(same, x)
		}
	}
	if len(conv) == 0 {
		conv = same
	}
	kinOf.Store(t, conv)
	return conv
}

var kinMu sync.Mutex

func mutateSig(in []reflect.Type, variadic bool, m int, r *rt.Rng) ([]reflect.Type, bool) {
	in = append([]reflect.Type{}, in...)
	n := len(in)
	i := r.N(n)
	switch m % 10 {
	case 0: // drop one
		if n > 0 {
			if i == n-1 {
				variadic = false
			}
			in = append(in[:i:i], in[i+1:]...)
		}
	case 1: // one more
		i = r.N(n + 1)
		t := strange[r.N(len(strange))]
		if n > 0 && r.N(2) == 0 {
			t = in[r.N(n)]
		}
		if i == n {
			variadic = false
		}
		in = append(in[:i:i], append([]reflect.Type{t}, in[i:]...)...)
	case 2, 3, 4: // one of another type
		if n > 0 {
			if i == n-1 && variadic {
				if r.N(2) == 0 {
					in[i] = reflect.SliceOf(alike(in[i].Elem(), r))
					break
				}
				variadic = false
			}
			in[i] = alike(in[i], r)
		}
	case 5: // two exchanged
		if n > 1 {
			j := r.N(n)
			if !variadic || i < n-1 && j < n-1 {
				in[i], in[j] = in[j], in[i]
			}
		}
	case 6: // variadic or not
		if n > 0 && in[n-1].Kind() == reflect.Slice {
			variadic = !variadic
		} else if n > 0 && !variadic {
			in[n-1] = reflect.SliceOf(in[n-1])
			variadic = true
		}
	case 7: // GenericInfo in front
		in = append([]reflect.Type{infoT}, in...)
	case 8: // without the first
		if n > 0 {
			in = in[1:]
			if n == 1 {
				variadic = false
			}
		}
	case 9: // one more variadic
		if !variadic {
			in, variadic = append(in, reflect.TypeOf([]int{})), true
		}
	}
	return in, variadic
}

func sameTypes(a, b []reflect.Type) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// wellTyped judges the parameters of a function given to When, To (info: may take GenericInfo) or Origin.
func wellTyped(e *rt.Entry, in []reflect.Type, variadic, info bool) (ok, nr, gi bool) {
	if variadic != e.Type.IsVariadic() {
		return
	}
	full := inTypes(e, false, false)
	match := func(in []reflect.Type) (bool, bool) {
		if sameTypes(in, full) {
			return true, false
		}
		return len(full) > 0 && sameTypes(in, full[1:]), true
	}
	if ok, nr = match(in); ok {
		return ok, nr, false
	}
	if info && e.Generic && len(in) > 0 && in[0] == infoT {
		ok, nr = match(in[1:])
		return ok, nr, true
	}
	return
}

type icond struct {
	when, hook int // 0 none; 1-based numbers of the functions
	whenNR     bool
	hookNR     bool
	ret        [][]reflect.Value // results of Return or of the turns of a sequence
	bad        []bool            // must panic
	times      []int
	pos, used  int
}

type icase struct {
	e     *rt.Entry
	conds []*icond
	orig  bool
	st    map[string]int
	log   []string // what ran in the current call
	args  []reflect.Value
	wrong string
	truth uint32
	res   []reflect.Value // of To hooks
	nfn   int
}

func (c *icase) ran(what string, args []reflect.Value, nr, gi bool) {
	c.log = append(c.log, what)
	if gi {
		args = args[1:]
	}
	want := c.args
	if nr {
		want = want[1:]
	}
	if !rt.SameAll(args, want) && c.wrong == "" {
		c.wrong = fmt.Sprintf("%s got %s instead of %s", what, rt.ShowAll(args), rt.ShowAll(want))
	}
}

// sig makes the signature of a step.
func (c *icase) sig(s *IStep, r *rt.Rng, info bool) (in []reflect.Type, variadic bool) {
	nr := s.B&1 != 0 && canNR(c.e)
	in = inTypes(c.e, nr, info && s.B&2 != 0)
	variadic = c.e.Type.IsVariadic()
	for _, m := range s.M {
		in, variadic = mutateSig(in, variadic, abs(m), r)
	}
	return
}

var noFuncs = []func() interface{}{
	func() interface{} { return nil }, func() interface{} { return 1 }, func() interface{} { return "f" }, func() interface{} { return struct{ F func() }{} },
	func() interface{} { f := func() {}; return &f }, func() interface{} { return []func(){func() {}} }, func() interface{} { return reflect.ValueOf(noFuncs0) },
	func() interface{} { return reflect.TypeOf(noFuncs0) }, func() interface{} { return (*int)(nil) }, func() interface{} { return map[string]func(){} },
	func() interface{} { return true }, func() interface{} { return make(chan func()) },
}

func noFuncs0() {}

// apply performs a step on b (When, To, Return, Origin of *mockey.MockBuilder or *mockey.Mocker); it tells whether the definition is
// still well-typed. It panics if the step does.
func (c *icase) apply(s *IStep, when, to func(interface{}), ret func(...interface{}), origin func(interface{}), re bool, verdict *bool) {
	e := c.e
	r := rt.NewRng(s.S, 5)
	last := c.conds[len(c.conds)-1]
	if !re && s.K < 4 && last.when > 0 && last.hook > 0 {
		last = &icond{}
		c.conds = append(c.conds, last)
	}
	refuse := func(why string) {
		if *verdict {
			c.st["ill:"+why]++
		}
		*verdict = false
	}
	switch abs(s.K) % 6 {
	case 0:
		if !re && last.when > 0 {
			refuse("when twice")
		}
		in, variadic := c.sig(s, r, true)
		out := []reflect.Type{boolT}
		if s.S%5 == 0 {
			out[0] = namedBoolT
		}
		switch s.R {
		case 1:
			out = nil
		case 2:
			out = append(out, boolT)
		case 3:
			out = []reflect.Type{reflect.TypeOf(0)}
		case 4:
			out = []reflect.Type{reflect.PtrTo(boolT)}
		case 5:
			out = []reflect.Type{anyT}
		case 6:
			out = append(out, errT)
		case 7:
			out = []reflect.Type{reflect.TypeOf(uint8(0))}
		case 8, 9:
			refuse("when no function")
			when(noFuncs[r.N(len(noFuncs))]())
			return
		}
		ok, nr, gi := wellTyped(e, in, variadic, true)
		if !ok {
			refuse("when parameters")
		} else if len(out) != 1 || out[0].Kind() != reflect.Bool {
			refuse("when results")
		}
		c.nfn++
		id := c.nfn
		f := reflect.MakeFunc(reflect.FuncOf(in, out, variadic), func(args []reflect.Value) []reflect.Value {
			c.ran(fmt.Sprint("when ", id), args, nr, gi)
			return []reflect.Value{reflect.ValueOf(c.truth>>(id%32)&1 != 0).Convert(out[0])}
		})
		when(f.Interface())
		last.when, last.whenNR = id, nr
	case 1:
		if !re && last.hook > 0 {
			refuse("hook twice")
		}
		in, variadic := c.sig(s, r, true)
		if s.R == 8 || s.R == 9 {
			refuse("to no function")
			to(noFuncs[r.N(len(noFuncs))]())
			return
		}
		ok, nr, gi := wellTyped(e, in, variadic, true)
		if !ok {
			refuse("to parameters")
		}
		c.nfn++
		id := c.nfn
		f := reflect.MakeFunc(reflect.FuncOf(in, outTypes(e), variadic), func(args []reflect.Value) []reflect.Value {
			c.ran(fmt.Sprint("hook ", id), args, nr, gi)
			return c.res
		})
		to(f.Interface())
		last.hook, last.hookNR, last.ret = id, nr, nil
	case 2:
		if !re && last.hook > 0 {
			refuse("hook twice")
		}
		pass, want, bad := c.values(s, r, s.R > 0 || len(s.M) > 0)
		ret(pass...)
		c.nfn++
		last.hook, last.ret, last.bad, last.times = c.nfn, [][]reflect.Value{want}, []bool{bad}, []int{1}
		last.pos, last.used = 0, 0
	case 3:
		if !re && last.hook > 0 {
			refuse("hook twice")
		}
		c.nfn++
		var seq interface{}
		var rets [][]reflect.Value
		var bads []bool
		var times []int
		for n := 1 + r.N(4); n > 0; n-- {
			pass, want, bad := c.values(s, r, r.N(3) == 0 && (s.R > 0 || len(s.M) > 0))
			t := 1
			if seq == nil {
				seq = mockey.Sequence(pass...)
			} else {
				seq = seqThen(seq, pass, 0)
			}
			if r.N(2) == 0 {
				t = 1 + r.N(3)
				if s.R > 6 && r.N(2) == 0 {
					t = -[]int{0, 0, 1, 2, 1 << 40}[r.N(5)]
					refuse("times below one")
				}
				reflect.ValueOf(seq).MethodByName("Times").Call([]reflect.Value{reflect.ValueOf(t)})
			}
			rets, bads, times = append(rets, want), append(bads, bad), append(times, t)
		}
		ret(seq)
		last.hook, last.ret, last.bad, last.times = c.nfn, rets, bads, times
		last.pos, last.used = 0, 0
	case 4:
		if !re && c.orig {
			refuse("origin twice")
		}
		c.orig = true
		in, variadic := c.sig(s, r, false)
		switch s.R {
		case 1, 2, 3:
			refuse("origin no pointer")
			v := noFuncs[r.N(len(noFuncs))]()
			if v != nil && reflect.TypeOf(v).Kind() == reflect.Ptr && reflect.TypeOf(v).Elem().Kind() == reflect.Func {
				v = reflect.ValueOf(v).Elem().Interface()
			}
			origin(v)
			return
		case 4, 5:
			refuse("origin no pointer to a function")
			x := reflect.New([]reflect.Type{reflect.TypeOf(0), anyT, reflect.PtrTo(e.Type), reflect.TypeOf(struct{}{})}[r.N(4)])
			origin(x.Interface())
			return
		case 6:
			refuse("origin no pointer")
			origin(reflect.Zero(e.Type).Interface())
			return
		case 7:
			refuse("origin nil pointer")
			origin(reflect.Zero(reflect.PtrTo(e.Type)).Interface())
			return
		}
		if ok, _, _ := wellTyped(e, in, variadic, false); !ok {
			refuse("origin parameters")
		}
		origin(reflect.New(reflect.FuncOf(in, outTypes(e), variadic)).Interface())
	}
}

// values makes what is given to Return.
func (c *icase) values(s *IStep, r *rt.Rng, mutated bool) (pass []interface{}, want []reflect.Value, bad bool) {
	out := outTypes(c.e)
	pass = []interface{}{}
	for _, t := range out {
		switch r.N(6) {
		case 0:
			pass = append(pass, nil)
		default:
			pass = append(pass, rt.Gen(t, r).Interface())
		}
	}
	if mutated {
		switch r.N(4) {
		case 0:
			if len(pass) > 0 {
				pass = pass[:r.N(len(pass))]
			}
		case 1:
			pass = append(pass, rt.Gen(strange[r.N(len(strange))], r).Interface())
		default:
			if len(pass) > 0 {
				t := strange[r.N(len(strange))]
				if r.N(2) == 0 {
					t = alike(out[r.N(len(out))], r)
				}
				pass[r.N(len(pass))] = rt.Gen(t, r).Interface()
			}
		}
	}
	if len(pass) != len(out) {
		c.st["ret:count"]++
		return pass, nil, true
	}
	for i, t := range out {
		v := reflect.Zero(t)
		if pass[i] != nil {
			x := reflect.ValueOf(pass[i])
			if !x.CanConvert(t) {
				c.st["ret:type"]++
				return pass, nil, true
			}
			v = x.Convert(t)
		}
		want = append(want, v)
	}
	return pass, want, false
}

func addressable(vs []reflect.Value) []reflect.Value {
	out := make([]reflect.Value, len(vs))
	for i, v := range vs {
		out[i] = reflect.New(v.Type()).Elem()
		out[i].Set(v)
	}
	return out
}

// call calls the target and compares what ran with the conditions.
func (c *icase) call(k uint32, mocked bool, when string) *failure {
	e := c.e
	r := rt.NewRng(uint64(k), 9)
	c.args = genVals(inTypes(e, false, false), r)
	c.res = genVals(outTypes(e), r)
	c.truth, c.log, c.wrong = k, nil, ""
	var exp []string
	var want []reflect.Value
	wantPanic, original := false, true
	if mocked {
		for _, cd := range c.conds {
			if cd.when == 0 && cd.hook == 0 {
				continue // nothing was defined: passes everything on, which is the same as no match
			}
			if cd.when > 0 {
				exp = append(exp, fmt.Sprint("when ", cd.when))
				if k>>(cd.when%32)&1 == 0 {
					continue
				}
			}
			if cd.hook == 0 {
				break
			}
			original = false
			if cd.ret == nil {
				exp = append(exp, fmt.Sprint("hook ", cd.hook))
				want = c.res
			} else {
				want, wantPanic = cd.ret[cd.pos], cd.bad[cd.pos]
				if cd.used++; cd.used >= cd.times[cd.pos] {
					cd.used, cd.pos = 0, (cd.pos+1)%len(cd.ret)
				}
			}
			break
		}
	}
	if original {
		exp = append(exp, "original")
		want = c.res
	}
	f := formSel{e: e, call: e.Forms[0].Call}
	res, pan := f.run(c.args)
	what := fmt.Sprintf("%s: call of %s", when, e.Name)
	if fmt.Sprint(c.log) != fmt.Sprint(exp) {
		return &failure{"illtyped", fmt.Sprintf("%s ran %v, expected %v (panic %v)", what, c.log, exp, pan)}
	}
	if c.wrong != "" {
		return &failure{"illtyped", what + ": " + c.wrong}
	}
	if wantPanic {
		c.st["bad return panics"]++
		if pan == nil {
			return &failure{"illtyped", fmt.Sprintf("%s: Return with unusable values gave %s instead of a panic", what, rt.ShowAll(res))}
		}
		return nil
	}
	if pan != nil {
		return &failure{"illtyped", fmt.Sprintf("%s: unexpected panic %v", what, pan)}
	}
	for i, v := range addressable(want) {
		if rt.Same(res[i], v) || v.Kind() == reflect.Slice && reflect.DeepEqual(res[i].Interface(), v.Interface()) { // a converted string
			continue
		}
		return &failure{"illtyped", fmt.Sprintf("%s: results %s, expected %s", what, rt.ShowAll(res), rt.ShowAll(want))}
	}
	return nil
}

var illPool *Profile

func illCase(plan string, verb bool) (*failure, map[string]int) {
	var p IPlan
	if json.Unmarshal([]byte(plan), &p) != nil || len(p.Calls) == 0 {
		return nil, nil
	}
	if illPool == nil {
		illPool = &Profile{Kinds: []string{"func", "vmethod", "pmethod", "gfunc", "gmethod"}}
	}
	es := pool(illPool)
	c := &icase{e: es[abs(p.T)%len(es)], st: map[string]int{}, conds: []*icond{{}}}
	var fail *failure
	done := make(chan struct{})
	go func() {
		defer close(done)
		rt.Grow()
		if pan := safely(func() { fail = c.run(&p, verb) }); pan != nil && fail == nil {
			fail = &failure{"illtyped", fmt.Sprintf("unexpected panic: %v", pan)}
		}
		mockey.UnPatchAll()
	}()
	<-done
	return fail, c.st
}

func (c *icase) run(p *IPlan, verb bool) *failure {
	e := c.e
	st := c.st
	rt.OrigHandler = func(id int, args, res []reflect.Value) {
		if id != e.OrigID {
			c.wrong = fmt.Sprintf("the original %d ran instead of %d", id, e.OrigID)
		}
		c.ran("original", args, false, false)
		for i, v := range c.res {
			res[i].Set(v)
		}
	}
	if p.Bad > 0 {
		st["target"]++
		x := noFuncs[p.Bad%len(noFuncs)]()
		if pan := safely(func() { mockey.Mock(x).Return().Build() }); pan == nil {
			return &failure{"illtyped", fmt.Sprintf("Mock of a %T was accepted", x)}
		}
		if pan := safely(func() { mockey.MockUnsafe(x).To(func() {}).Build() }); pan == nil {
			return &failure{"illtyped", fmt.Sprintf("MockUnsafe of a %T was accepted", x)}
		}
	}
	var code []byte
	if !e.Generic {
		code = append(code, rt.BytesAt(e.Code, 64)...)
	}
	ok := true
	var m *mockey.Mocker
	at := -1
	pan := safely(func() {
		b := (&hist{}).newBuilder(e, p.API)
		for i := range p.Steps {
			at = i
			if !ok { // e.g. an Origin: the next steps need not notice
				break
			}
			if p.Steps[i].K%6 == 5 {
				b.FilterGoRoutine(mockey.Include, rt.GID())
				continue
			}
			c.apply(&p.Steps[i], func(x interface{}) { b.When(x) }, func(x interface{}) { b.To(x) }, func(x ...interface{}) { b.Return(x...) }, func(x interface{}) { b.Origin(x) }, false, &ok)
		}
		at = len(p.Steps)
		m = b.Build()
	})
	if verb {
		fmt.Printf("%s %v: ok=%v panic=%v\n", e.Name, e.Type, ok, pan)
	}
	if ok && pan != nil {
		return &failure{"illtyped", fmt.Sprintf("well-typed definition for %s %v refused at step %d: %v", e.Name, e.Type, at, pan)}
	}
	if !ok && pan == nil {
		return &failure{"illtyped", fmt.Sprintf("ill-typed definition for %s %v accepted (%v)", e.Name, e.Type, st)}
	}
	unmocked := func(when string) *failure {
		if code != nil && !bytes.Equal(code, rt.BytesAt(e.Code, 64)) {
			return &failure{"illtyped", when + ": the code of the target is changed"}
		}
		return c.call(p.Calls[0], false, when)
	}
	if ok {
		st["accepted"]++
		for _, k := range p.Calls {
			if f := c.call(k, true, "mocked"); f != nil {
				return f
			}
		}
		if p.Re != nil {
			rok := true
			several := len(c.conds) > 1
			if s := p.Re.K % 5; several && s < 4 {
				rok = false
				st["ill:reconf of several"]++
			}
			keep := *c.conds[0]
			pan := safely(func() {
				c.apply(p.Re, func(x interface{}) { m.When(x) }, func(x interface{}) { m.To(x) }, func(x ...interface{}) { m.Return(x...) }, func(x interface{}) { m.Origin(x) }, true, &rok)
			})
			if rok != (pan == nil) {
				return &failure{"illtyped", fmt.Sprintf("reconfiguration of a mock of %s %v: well-typed %v, panic %v", e.Name, e.Type, rok, pan)}
			}
			if rok || several && p.Re.K%5 < 4 {
				if !rok {
					*c.conds[0] = keep
				}
				st["reconf"]++
				for _, k := range p.Calls {
					if f := c.call(k+1, true, "reconfigured"); f != nil {
						return f
					}
				}
			}
		}
		m.UnPatch()
	} else {
		st["refused"]++
	}
	if f := unmocked("afterwards"); f != nil {
		return f
	}
	// the target can be mocked as ever
	c.conds = []*icond{{hook: 99}}
	pan = safely(func() {
		b := (&hist{}).newBuilder(e, p.API+1)
		m = b.To(reflect.MakeFunc(e.Type, func(args []reflect.Value) []reflect.Value {
			c.ran("hook 99", args, false, false)
			return c.res
		}).Interface()).Build()
	})
	if pan != nil {
		return &failure{"illtyped", fmt.Sprintf("a mock of %s after a definition that was refused or released: %v", e.Name, pan)}
	}
	if f := c.call(p.Calls[0], true, "mocked anew"); f != nil {
		return f
	}
	m.UnPatch()
	return unmocked("at the end")
}

func init() {
	properties["C12"] = &property{
		gen: func(seed int) string {
			b, _ := json.Marshal(genIPlan(rt.NewRng(uint64(seed))))
			return string(b)
		},
		run:        illCase,
		nontrivial: func(s map[string]int) bool { return s["refused"]+s["bad return panics"] > 0 },
	}
}
