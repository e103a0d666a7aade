package main

import (
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"unsafe"

	"github.com/bytedance/mockey"
	"github.com/bytedance/mockeyextra"
	"github.com/smartystreets/goconvey/convey"

	"verifharness/rt"
	"verifharness/sites"
	mockey_v1 "verifharness/sites/v1.2"
)

// The history engine runs a plan against mockey and, in lock step, against a reference model: a stack of scopes, for
// each target the stack of mocks in force, for each mock its conditions, counters, filter and sequence positions.
// For each call the model first works out the events that must happen (predicates, hooks, original bodies, in order,
// with their arguments) and the outcome; the handlers behind every generated predicate, hook and original body then
// follow that script and report the first deviation.

type failure struct{ Cat, Msg string }

type cond struct {
	id        int
	whenID    int // if the predicate has been replaced on its own
	hasWhen   bool
	whenNR    bool
	whenInfo  bool
	whenNamed bool
	hook      int // as in Cond, without bit 3
	info      bool
	acts      []int
	wacts     []int // what the predicate does
	res       []reflect.Value
	seq       *seqModel
}

type seqModel struct {
	vals   [][]reflect.Value
	times  []int
	canon  []int // first value that is the same
	cur    int
	curT   int
	counts []int64
	unseen int64 // calls by go and defer statements
}

func (q *seqModel) next() int {
	i := q.cur
	q.curT++
	if q.curT >= q.times[i] {
		q.curT = 0
		q.cur = (q.cur + 1) % len(q.vals)
	}
	return i
}

type mk struct {
	n          int
	real       *mockey.Mocker
	tgt        int
	conds      []*cond
	filter     mockey.FilterGoroutineType
	fgid       int64
	origin     reflect.Value // pointer to the origin variable
	originNR   bool
	originSet  bool
	lastRecv   reflect.Value
	patched    bool
	dead       bool
	times      int64
	mtimes     int64
	scope      *scope
	where      string
	reconfs    int
	infos      map[int64]mockey.GenericInfo
	everCalled bool
	b          *mockey.MockBuilder
	twin       bool // its builder has built several mocks
}

type scope struct {
	mocks []*mk
	vars  []*vm
}

type outcome struct {
	res     []reflect.Value
	pan     interface{}
	seq     *seqModel
	counted bool
}

type act struct {
	kind byte // 'o' origin, 'c' call, 'u' unpatch the own mock, 'm' mock and release another function, 't' read Times
	n    int64
	mk   *mk
	e    *rt.Entry
	form int
	args []reflect.Value
	out  outcome
}

type ev struct {
	kind string
	id   int
	args []reflect.Value
	res  []reflect.Value
	pan  interface{}
	yes  bool
	acts []*act
	mk   *mk
	what string
}

type callCtx struct {
	exp    []*ev
	pos    int
	spread bool
	out    outcome
	lazy   func(gid int64)
}

type panicTok struct{ n int }

// exit stands for runtime.Goexit in place of a panic.
var exit = &panicTok{-2}

func (p *panicTok) Error() string { return fmt.Sprint("generated panic ", p.n) }

type hist struct {
	onStep  func() // called before each step
	pf      *Profile
	plan    Plan
	targets []*rt.Entry
	live    [][]*mk
	idle    []*mk // defined, but not built
	scopes  []*scope
	handles []*mk
	stale   []staleOrigin
	vroots  []*vroot
	vms     []*vm
	nextID  int
	everMk  []bool // target has been mocked in this plan
	ft      *fakeT

	mu    sync.Mutex
	ctxs  map[int64]*callCtx
	fail  *failure
	fails int32
	st    map[string]int
	trace []string
	verb  bool
}

type fakeT struct{ fails int }

func (f *fakeT) Fail() { f.fails++ }

var errT = reflect.TypeOf((*error)(nil)).Elem()
var infoT = reflect.TypeOf(mockey.GenericInfo(0))

type namedBool bool

var boolT, namedBoolT = reflect.TypeOf(true), reflect.TypeOf(namedBool(true))

func (h *hist) failf(cat, f string, a ...interface{}) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.fail == nil {
		h.fail = &failure{cat, fmt.Sprintf(f, a...)}
		atomic.StoreInt32(&h.fails, 1)
	}
}

func (h *hist) failed() bool { return atomic.LoadInt32(&h.fails) != 0 }

func (h *hist) count(k string) {
	h.mu.Lock()
	h.st[k]++
	h.mu.Unlock()
}

func (h *hist) logf(f string, a ...interface{}) {
	if h.verb {
		h.mu.Lock()
		h.trace = append(h.trace, fmt.Sprintf(f, a...))
		fmt.Println(h.trace[len(h.trace)-1])
		h.mu.Unlock()
	}
}

func safely(f func()) (pan interface{}) {
	defer func() { pan = recover() }()
	f()
	return nil
}

// worker goroutines: 1..3
type workerG struct {
	ch  chan func()
	gid int64
}

var workersG [4]*workerG

func startWorkers() {
	for i := 1; i < len(workersG); i++ {
		w := &workerG{ch: make(chan func())}
		ready := make(chan struct{})
		go func() {
			rt.Grow()
			w.gid = rt.GID()
			close(ready)
			for f := range w.ch {
				f()
			}
		}()
		<-ready
		workersG[i] = w
	}
}

func on(g int, f func()) {
	g %= len(workersG)
	if g == 0 {
		f()
		return
	}
	var pan interface{}
	done := make(chan struct{})
	workersG[g].ch <- func() {
		defer close(done)
		pan = safely(f)
	}
	<-done
	if pan != nil {
		panic(pan)
	}
}

func newHist(pf *Profile, p Plan) *hist {
	h := &hist{pf: pf, plan: p, ctxs: map[int64]*callCtx{}, st: map[string]int{}, ft: &fakeT{}}
	h.scopes = []*scope{{}}
	pool := pool(pf)
	seen := map[int]bool{}
	for _, t := range p.Targets {
		if len(pool) == 0 {
			break
		}
		for k := 0; k < len(pool); k++ {
			e := pool[(abs(t)+k)%len(pool)]
			if !seen[e.Index] {
				seen[e.Index] = true
				h.targets = append(h.targets, e)
				break
			}
		}
	}
	h.live = make([][]*mk, len(h.targets))
	h.everMk = make([]bool, len(h.targets))
	for _, s := range p.Vars {
		h.addRoot(s)
	}
	return h
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

var pools = map[*Profile][]*rt.Entry{}

func pool(pf *Profile) []*rt.Entry {
	if p, ok := pools[pf]; ok {
		return p
	}
	var p []*rt.Entry
	for _, e := range rt.Entries {
		for _, k := range pf.Kinds {
			if e.Kind != k && (e.Kind != "closure" || k != "func") {
				continue
			}
			if s := usable(e); s == "" || !pf.passes() && s != "short" && s != "undecodable" {
				p = append(p, e)
			}
		}
	}
	pools[pf] = p
	return p
}

// run executes the plan; the result is nil if everything agreed with the model.
func (h *hist) run() *failure {
	cur = h
	rt.OrigHandler = h.onOrig
	rt.GoStart = func() func() {
		cx := h.ctx()
		return func() {
			if cx == nil {
				return
			}
			h.setCtx(rt.GID(), cx)
			if cx.lazy != nil {
				cx.lazy(rt.GID())
				cx.lazy = nil
			}
		}
	}
	done := make(chan struct{})
	if j := h.plan.J; j > 0 {
		h.count("goid-collision")
		runtime.VerifSetGoid(uint64(workersG[1+j%3].gid) - 1 + 1<<[]int{16, 32}[j/3%2])
	}
	go func() {
		defer close(done)
		rt.Grow()
		pan := safely(func() {
			h.runOps(h.plan.Ops, 0)
			h.sweep("at the end")
			h.logf("UnPatchAll (end)")
			mockey.UnPatchAll()
			h.modelUnAll()
			h.sweep("after the final UnPatchAll")
			h.formerOrigins()
			h.checkMem(true)
		})
		if pan != nil {
			h.failf("call", "unexpected panic: %v", pan)
		}
	}()
	<-done
	return h.fail
}

var cur *hist

func (h *hist) sweep(when string) {
	if h.failed() {
		return
	}
	for t := range h.targets {
		h.count("sweep")
		h.doCall(Op{K: "call", T: t, S: uint64(1000 + t), M: 0x5a5a}, when)
	}
	h.checkVars(when)
	h.checkTimes(when)
}

func (h *hist) runOps(ops []Op, depth int) {
	for i, op := range ops {
		if h.failed() {
			return
		}
		if op.K == "scope" {
			h.runScope(op, i, depth)
		} else {
			pan := safely(func() { on(op.G, func() { h.step(op) }) })
			if pan != nil {
				h.failf("call", "unexpected panic in %s: %v", op.K, pan)
			}
		}
		if h.failed() {
			return
		}
		h.checkTimes("after " + op.K)
		h.checkVars("after " + op.K)
		if h.pf.Checks != "" {
			h.checkMem(false)
		}
	}
}

func (h *hist) step(op Op) {
	if h.onStep != nil {
		h.onStep()
	}
	h.count("op:" + op.K)
	switch op.K {
	case "call":
		h.doCall(op, "call")
	case "build":
		h.opBuild(op)
	case "unpatch":
		if m := h.handle(op.H, nil); m != nil {
			h.logf("m%d.UnPatch()", m.n)
			m.real.UnPatch()
			if !m.patched {
				h.count("unpatch-idle")
			} else {
				h.count("unpatch-live")
				if l := h.live[m.tgt]; l[len(l)-1] != m {
					h.count("unpatch-below")
				}
				if m.scope != h.top() {
					h.count("unpatch-outer")
				}
			}
			h.modelUnpatch(m)
		}
	case "patch":
		h.opPatch(op)
	case "release":
		h.opRelease(op)
	case "reconf":
		h.opReconf(op)
	case "unall":
		h.logf("UnPatchAll()")
		mockey.UnPatchAll()
		h.modelUnAll()
	case "gc":
		runtime.GC()
	case "ocall":
		h.opOrigin(op)
	case "remock":
		h.opRemock(op)
	case "par":
		h.opPar(op)
	case "var", "varbad", "vremock", "vset":
		h.opVar(op)
	case "twin":
		h.opTwin(op)
	case "vunpatch", "vpatch":
		h.opVarPatch(op)
	}
}

func (h *hist) top() *scope { return h.scopes[len(h.scopes)-1] }

func (h *hist) inScope(t int) *mk {
	for _, m := range h.top().mocks {
		if m.tgt == t {
			return m
		}
	}
	return nil
}

// handle finds the H-th usable mock.
func (h *hist) handle(n int, ok func(*mk) bool) *mk {
	var c []*mk
	for _, m := range h.handles {
		if !m.dead && (ok == nil || ok(m)) {
			c = append(c, m)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[abs(n)%len(c)]
}

func (h *hist) modelPatch(m *mk) {
	m.patched = true
	if !m.originNR && !h.targets[m.tgt].Generic {
		m.originSet = m.origin.IsValid() // the same function for all calls, others are set by a call
	}
	m.scope = h.top()
	m.scope.mocks = append(m.scope.mocks, m)
	h.live[m.tgt] = append(h.live[m.tgt], m)
	h.everMk[m.tgt] = true
	if n := len(h.live[m.tgt]); n > 1 {
		h.count("stacked")
	}
}

func without(l []*mk, m *mk) []*mk {
	var r []*mk
	for _, x := range l {
		if x != m {
			r = append(r, x)
		}
	}
	return r
}

func (h *hist) modelUnpatch(m *mk) {
	if !m.patched {
		return
	}
	m.patched = false
	h.live[m.tgt] = without(h.live[m.tgt], m)
	m.scope.mocks = without(m.scope.mocks, m)
	m.times, m.mtimes = 0, 0
}

func (h *hist) modelUnAll() {
	for _, m := range append([]*mk{}, h.top().mocks...) {
		h.modelUnpatch(m)
	}
	vs := h.top().vars
	for i := len(vs) - 1; i >= 0; i-- {
		h.modelVUnpatch(vs[i])
	}
}

func (h *hist) checkTimes(when string) {
	if h.failed() {
		return
	}
	for _, m := range h.handles {
		if m.dead {
			continue
		}
		if t, mt := int64(m.real.Times()), int64(m.real.MockTimes()); t != m.times || mt != m.mtimes {
			h.failf("times", "%s: mock m%d of %s: Times %d MockTimes %d, expected %d and %d", when, m.n, h.targets[m.tgt].Name, t, mt, m.times, m.mtimes)
			return
		}
	}
}

// ---------------------------------------------------------------- building

func inTypes(e *rt.Entry, nr, info bool) []reflect.Type {
	var in []reflect.Type
	if info {
		in = append(in, infoT)
	}
	from := 0
	if nr {
		from = 1
	}
	for i := from; i < e.Type.NumIn(); i++ {
		in = append(in, e.Type.In(i))
	}
	return in
}

func outTypes(e *rt.Entry) []reflect.Type {
	var out []reflect.Type
	for i := 0; i < e.Type.NumOut(); i++ {
		out = append(out, e.Type.Out(i))
	}
	return out
}

// canNR: the first parameter may be left out
func canNR(e *rt.Entry) bool {
	n := e.Type.NumIn()
	return n > 1 || n == 1 && !e.Type.IsVariadic()
}

func genVals(ts []reflect.Type, r *rt.Rng) []reflect.Value {
	vs := make([]reflect.Value, len(ts))
	for i, t := range ts {
		vs[i] = rt.Gen(t, r)
	}
	return vs
}

// results drawn for Return: what is passed, and what the caller must get
func (h *hist) returnVals(e *rt.Entry, r *rt.Rng) (pass []interface{}, want []reflect.Value) {
	pass = []interface{}{}
	want = []reflect.Value{}
	for _, t := range outTypes(e) {
		v := rt.Gen(t, r)
		switch r.N(5) {
		case 0:
			h.count("return:nil")
			pass = append(pass, nil)
			want = append(want, reflect.Zero(t))
			continue
		case 1:
			if o, ok := convertible(t, r); ok {
				h.count("return:converted")
				pass = append(pass, o.Interface())
				want = append(want, o.Convert(t))
				continue
			}
		}
		x := v.Interface()
		pass = append(pass, x)
		want = append(want, v)
	}
	return
}

var nums = []reflect.Type{reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(float32(0))}

// convertible makes a value of another type that converts to t without implementation-specific results.
func convertible(t reflect.Type, r *rt.Rng) (reflect.Value, bool) {
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64:
		n := nums[r.N(len(nums))]
		return reflect.ValueOf(r.N(100)).Convert(n), true
	case reflect.String:
		return reflect.ValueOf([]byte(fmt.Sprint("s", r.N(1000)))), true
	case reflect.Slice, reflect.Map, reflect.Func, reflect.Chan:
		if u := unnamed(t); u != t {
			return rt.Gen(u, r), true
		}
	}
	return reflect.Value{}, false
}

func unnamed(t reflect.Type) reflect.Type {
	switch t.Kind() {
	case reflect.Slice:
		return reflect.SliceOf(t.Elem())
	case reflect.Map:
		return reflect.MapOf(t.Key(), t.Elem())
	case reflect.Chan:
		return reflect.ChanOf(reflect.BothDir, t.Elem())
	case reflect.Ptr:
		return reflect.PtrTo(t.Elem())
	case reflect.Func:
		var in, out []reflect.Type
		for i := 0; i < t.NumIn(); i++ {
			in = append(in, t.In(i))
		}
		for i := 0; i < t.NumOut(); i++ {
			out = append(out, t.Out(i))
		}
		return reflect.FuncOf(in, out, t.IsVariadic())
	}
	return t
}

func (h *hist) newCond(e *rt.Entry, c Cond) *cond {
	h.nextID++
	m := &cond{id: h.nextID, acts: c.Acts, wacts: c.WActs}
	if c.When&1 != 0 {
		m.setWhen(e, c)
	}
	return m
}

func (m *cond) setWhen(e *rt.Entry, c Cond) {
	m.hasWhen = true
	m.whenNR = c.When&2 != 0 && canNR(e)
	m.whenInfo = c.When&4 != 0 && e.Generic
	m.whenNamed = c.When&8 != 0
}

func (h *hist) makeWhen(m *mk, c *cond, e *rt.Entry) interface{} {
	id, nr, info := c.id, c.whenNR, c.whenInfo
	bt := boolT
	if c.whenNamed {
		bt = namedBoolT
	}
	ft := reflect.FuncOf(inTypes(e, nr, info), []reflect.Type{bt}, e.Type.IsVariadic())
	return reflect.MakeFunc(ft, func(args []reflect.Value) []reflect.Value {
		if info {
			h.onInfo(m, args[0])
			args = args[1:]
		}
		x := h.take("when", id, args)
		h.follow(x, nil)
		return []reflect.Value{reflect.ValueOf(x != nil && x.yes).Convert(bt)}
	}).Interface()
}

func (h *hist) onInfo(m *mk, v reflect.Value) {
	info := v.Interface().(mockey.GenericInfo)
	h.mu.Lock()
	defer h.mu.Unlock()
	h.st["info"]++
	if old, ok := m.infos[0]; ok && !old.Equal(info) {
		if h.fail == nil {
			h.fail = &failure{"info", fmt.Sprintf("GenericInfo of %s changed from %v to %v", h.targets[m.tgt].Name, old, info)}
			atomic.StoreInt32(&h.fails, 1)
		}
	}
	m.infos[0] = info
	for _, o := range h.handles {
		if oi, ok := o.infos[0]; ok && o.tgt != m.tgt && oi.Equal(info) && usesTypes(h.targets[m.tgt]) && h.fail == nil {
			h.fail = &failure{"info", fmt.Sprintf("GenericInfo of %s and %s are equal", h.targets[m.tgt].Name, h.targets[o.tgt].Name)}
			atomic.StoreInt32(&h.fails, 1)
		}
	}
}

// usesTypes tells whether the body of a generic function depends on its type parameters: otherwise its dictionary is empty.
func usesTypes(e *rt.Entry) bool {
	base := e.Name[:strings.IndexByte(e.Name, '[')+1]
	for _, o := range rt.Entries {
		if o != e && o.Generic && strings.HasPrefix(o.Name, base) && o.Type != e.Type {
			return true
		}
	}
	return false
}

func (h *hist) makeHook(m *mk, c *cond, e *rt.Entry) interface{} {
	id := c.id
	handle := func(args []reflect.Value) []reflect.Value {
		return h.follow(h.take("hook", id, args), outTypes(e))
	}
	if c.hook == 4 {
		h.count("hook:compiled")
		return e.Hook(func(a, r []interface{}) {
			args := make([]reflect.Value, len(a))
			for i := range a {
				args[i] = reflect.ValueOf(a[i]).Elem()
			}
			for i, v := range handle(args) {
				reflect.ValueOf(r[i]).Elem().Set(v)
			}
		})
	}
	info := c.info
	ft := reflect.FuncOf(inTypes(e, c.hook == 5, info), outTypes(e), e.Type.IsVariadic())
	return reflect.MakeFunc(ft, func(args []reflect.Value) []reflect.Value {
		if info {
			h.onInfo(m, args[0])
			args = args[1:]
		}
		return handle(args)
	}).Interface()
}

func (h *hist) prepHook(m *mk, c *cond, e *rt.Entry, src Cond, kind int) (ret []interface{}, to interface{}) {
	c.hook = kind
	c.info = src.Hook&8 != 0 && e.Generic && kind != 4
	c.acts = src.Acts
	c.res, c.seq = nil, nil
	r := rt.NewRng(src.S, 77)
	switch kind {
	case 1:
		ret, c.res = h.returnVals(e, r)
		return ret, nil
	case 2:
		q := &seqModel{}
		type chain interface {
			mockey.SequenceOpt
		}
		times := src.Seq
		if len(times) == 0 {
			times = []int{0}
		}
		n := len(times)
		var seq interface{}
		for i := 0; i < n; i++ {
			pass, want := h.returnVals(e, r)
			q.vals = append(q.vals, want)
			t := times[i]
			if t < 0 {
				t = 0
			}
			if i == 0 {
				s := mockey.Sequence(pass...)
				if t > 0 {
					s = s.Times(t)
				}
				seq = s
			} else {
				seq = seqThen(seq, pass, t)
			}
			if t == 0 {
				t = 1
			}
			q.times = append(q.times, t)
			ci := i
			for j := 0; j < i; j++ {
				if rt.SameAll(q.vals[j], want) {
					ci = j
					break
				}
			}
			q.canon = append(q.canon, ci)
		}
		q.counts = make([]int64, n)
		c.seq = q
		return []interface{}{seq}, nil
	case 5:
		if !canNR(e) {
			c.hook = 3
		}
	}
	return nil, h.makeHook(m, c, e)
}

// seqThen calls s.Then(pass...), and Times if t > 0; the type of s is not exported.
func seqThen(s interface{}, pass []interface{}, t int) interface{} {
	if pass == nil {
		pass = []interface{}{}
	}
	v := reflect.ValueOf(s).MethodByName("Then").CallSlice([]reflect.Value{reflect.ValueOf(pass)})[0]
	if t > 0 {
		v = reflect.ValueOf(v.Interface()).MethodByName("Times").Call([]reflect.Value{reflect.ValueOf(t)})[0]
	}
	return v.Interface()
}

func here() string {
	_, file, line, _ := runtime.Caller(1)
	return fmt.Sprintf("%s:%d", file, line)
}

// site numbers the places where an operation may be done.
func (op Op) site() int { return abs(op.F) + int(op.S>>7&1023)*4 }

// elsewhere chooses one of the packages that have places where mocks are applied, or none, and the place.
func elsewhere(site int) (pkg, place int) {
	n := abs(site) / 4
	if n%3 == 0 {
		return -1, 0
	}
	return n / 3 % 3, n / 9
}

func valueAt(ptr, x interface{}, site int) (*mockey.MockerVar, string) {
	if k, n := elsewhere(site); k >= 0 {
		return [...]func(int, interface{}, interface{}) (*mockey.MockerVar, string){sites.Value, mockey_v1.Value, mockeyextra.Value}[k](n, ptr, x)
	}
	return mockey.MockValue(ptr).To(x), here()
}

func patchValueAt(v *mockey.MockerVar, site int) string {
	if k, n := elsewhere(site); k >= 0 {
		return [...]func(int, *mockey.MockerVar) string{sites.PatchValue, mockey_v1.PatchValue, mockeyextra.PatchValue}[k](n, v)
	}
	_, where := v.Patch(), here()
	return where
}

func buildAt(b *mockey.MockBuilder, site int) (m *mockey.Mocker, where string) {
	if k, n := elsewhere(site); k >= 0 {
		return [...]func(int, *mockey.MockBuilder) (*mockey.Mocker, string){sites.Build, mockey_v1.Build, mockeyextra.Build}[k](n, b)
	}
	switch abs(site) % 4 {
	case 0:
		m, where = b.Build(), here()
	case 1:
		m, where = b.Build(), here()

	case 2:
		func() { m, where = b.Build(), here() }()
	default:
		rt.Go(func() { m, where = b.Build(), here() })
	}
	return
}

func patchAt(m *mockey.Mocker, site int) (where string) {
	if k, n := elsewhere(site); k >= 0 {
		return [...]func(int, *mockey.Mocker) string{sites.Patch, mockey_v1.Patch, mockeyextra.Patch}[k](n, m)
	}
	switch abs(site) % 2 {
	case 0:
		_, where = m.Patch(), here()
	default:
		func() { _, where = m.Patch(), here() }()
	}
	return
}

func (h *hist) newBuilder(e *rt.Entry, api int) *mockey.MockBuilder {
	api = abs(api) % 4
	if e.Generic {
		switch api {
		case 0:
			return mockey.Mock(e.Fn, mockey.OptGeneric)
		case 1:
			return mockey.Mock(e.Fn, mockey.OptUnsafe, mockey.OptGeneric)
		}
		return mockey.MockGeneric(e.Fn)
	}
	switch api {
	case 0:
		return mockey.MockUnsafe(e.Fn)
	case 1:
		return mockey.Mock(e.Fn, mockey.OptUnsafe)
	}
	return mockey.Mock(e.Fn)
}

// filterID is the id of the current or another goroutine, or of none.
func filterID(fg int) int64 {
	switch g := abs(fg) % 6; g {
	case 0:
		return rt.GID()
	case 1, 2, 3:
		return workersG[g].gid
	case 4:
		return 0
	}
	return -1
}

// define applies cfg to the builder and fills the model.
func (h *hist) define(b *mockey.MockBuilder, m *mk, cfg *Cfg, setFilter bool) {
	e := h.targets[m.tgt]
	filter := func() {
		gid := filterID(cfg.FG)
		switch cfg.Filter {
		case 1:
			b.IncludeCurrentGoRoutine()
			m.filter, m.fgid = mockey.Include, rt.GID()
		case 2:
			b.ExcludeCurrentGoRoutine()
			m.filter, m.fgid = mockey.Exclude, rt.GID()
		case 3:
			b.FilterGoRoutine(mockey.Include, gid)
			m.filter, m.fgid = mockey.Include, gid
		case 4:
			b.FilterGoRoutine(mockey.Exclude, gid)
			m.filter, m.fgid = mockey.Exclude, gid
		default:
			if setFilter {
				b.FilterGoRoutine(mockey.Disable, 0)
			}
		}
		if cfg.Filter > 0 {
			h.count("filter")
		}
	}
	origin := func() {
		if m.origin.IsValid() {
			return // the builder of a released mock keeps its origin
		}
		nr := cfg.Origin == 2 && canNR(e)
		if cfg.Origin == 0 || h.pf.NoGenericOrigin && e.Generic {
			return
		}
		m.origin = newOrigin(e, nr)
		m.originNR = nr
		b.Origin(m.origin.Interface())
		h.count("origin")
	}
	if cfg.Pos&1 != 0 {
		filter()
	}
	if cfg.Pos&2 != 0 {
		origin()
	}
	for i, src := range cfg.Conds {
		last := i == len(cfg.Conds)-1
		if !last {
			src.When |= 1
			if src.Hook&7 == 0 {
				src.Hook |= 1
			}
		}
		c := h.newCond(e, src)
		kind := src.Hook & 7
		if kind > 5 {
			kind = 3
		}
		if !c.hasWhen && kind == 0 {
			continue
		}
		when := func() {
			if c.hasWhen {
				h.count("cond:when")
				b.When(h.makeWhen(m, c, e))
			}
		}
		hook := func() {
			if kind == 0 {
				h.count("cond:nohook")
				return
			}
			ret, to := h.prepHook(m, c, e, src, kind)
			if to != nil {
				h.count("cond:to")
				b.To(to)
			} else {
				h.count("cond:return")
				b.Return(ret...)
			}
		}
		if src.First != 0 {
			when()
			hook()
		} else {
			hook()
			when()
		}
		m.conds = append(m.conds, c)
	}
	if cfg.Pos&1 == 0 {
		filter()
	}
	if cfg.Pos&2 == 0 {
		origin()
	}
	if len(m.conds) > 1 {
		h.count("multicond")
	}
}

func newOrigin(e *rt.Entry, nr bool) reflect.Value {
	return reflect.New(reflect.FuncOf(inTypes(e, nr, false), outTypes(e), e.Type.IsVariadic()))
}

func (h *hist) opBuild(op Op) {
	if len(h.targets) == 0 || op.C == nil {
		return
	}
	t := abs(op.T) % len(h.targets)
	// 1: the mock is defined only, and may be built at another time and place; 2: one of those
	if op.E == 2 && len(h.idle) > 0 {
		h.buildIdle(op)
		return
	}
	if op.E != 1 && h.inScope(t) != nil {
		return
	}
	e := h.targets[t]
	m := &mk{n: len(h.handles), tgt: t, infos: map[int64]mockey.GenericInfo{}}
	if op.E == 1 {
		m.n = 1000 + len(h.idle)
	}
	pan := safely(func() {
		b := h.newBuilder(e, op.C.API)
		h.define(b, m, op.C, false)
		m.b = b
		if op.E != 1 {
			m.real, m.where = buildAt(b, op.site())
		}
	})
	h.logf("m%d = Mock(%s) %s", m.n, e.Name, describe(m))
	if op.E == 1 && pan == nil {
		h.count("defined-only")
		h.idle = append(h.idle, m)
		return
	}
	if pan != nil {
		h.failf("accept", "well-typed mock of %s refused: %v", e.Name, pan)
		return
	}
	h.handles = append(h.handles, m)
	h.built(m)
}

func (h *hist) buildIdle(op Op) {
	i := abs(op.H) % len(h.idle)
	m := h.idle[i]
	if h.inScope(m.tgt) != nil {
		return
	}
	h.idle = append(h.idle[:i:i], h.idle[i+1:]...)
	if m.origin.IsValid() && !m.origin.Elem().IsNil() {
		h.failf("origin", "the origin variable of a mock of %s that is not built yet is set", h.targets[m.tgt].Name)
		return
	}
	pan := safely(func() { m.real, m.where = buildAt(m.b, op.site()) })
	h.logf("m%d = the built m%d", len(h.handles), m.n)
	m.n = len(h.handles)
	if pan != nil {
		h.failf("accept", "well-typed mock of %s refused: %v", h.targets[m.tgt].Name, pan)
		return
	}
	h.count("built-later")
	h.handles = append(h.handles, m)
	h.built(m)
}

// opTwin builds a mock from the builder of another one once more, as one may in another scope. Neither is reconfigured any more.
func (h *hist) opTwin(op Op) {
	m := h.handle(op.H, func(m *mk) bool {
		for _, c := range m.conds {
			if c.hook == 2 || c.whenID != 0 {
				return false
			}
		}
		return h.inScope(m.tgt) == nil && !m.origin.IsValid() && m.reconfs == 0 && m.b != nil
	})
	if m == nil {
		return
	}
	n := &mk{n: len(h.handles), tgt: m.tgt, infos: m.infos, conds: m.conds, filter: m.filter, fgid: m.fgid, b: m.b, twin: true}
	m.twin = true
	pan := safely(func() { n.real, n.where = buildAt(m.b, op.site()) })
	h.logf("m%d = built like m%d", n.n, m.n)
	if pan != nil {
		h.failf("accept", "building a mock of %s from the same builder refused: %v", h.targets[m.tgt].Name, pan)
		return
	}
	h.count("twin")
	h.handles = append(h.handles, n)
	h.built(n)
}

func (h *hist) built(m *mk) {
	h.count("built")
	m.originSet = false
	h.modelPatch(m)
}

func describe(m *mk) string {
	s := ""
	for _, c := range m.conds {
		s += fmt.Sprintf("{c%d when=%v nr=%v hook=%d acts=%v}", c.id, c.hasWhen, c.whenNR, c.hook, c.acts)
	}
	if m.filter != mockey.Disable {
		s += fmt.Sprintf(" filter %d g%d", m.filter, m.fgid)
	}
	if m.origin.IsValid() {
		s += fmt.Sprintf(" origin(nr=%v)", m.originNR)
	}
	return s
}

func (h *hist) opPatch(op Op) {
	m := h.handle(op.H, nil)
	if m == nil {
		return
	}
	if m.patched {
		h.count("patch-live")
		h.logf("m%d.Patch() (in force)", m.n)
		m.real.Patch()
		return
	}
	if h.inScope(m.tgt) != nil {
		return
	}
	h.count("repatch")
	h.logf("m%d.Patch()", m.n)
	m.where = patchAt(m.real, op.site())
	h.modelPatch(m)
}

func (h *hist) opRelease(op Op) {
	m := h.handle(op.H, func(m *mk) bool { return !m.twin })
	if m == nil || op.C == nil {
		return
	}
	h.logf("m%d.Release()", m.n)
	b := m.real.Release()
	h.modelUnpatch(m)
	m.dead = true
	if op.S%3 == 0 || h.inScope(m.tgt) != nil {
		h.count("release-only")
		return
	}
	n := &mk{n: len(h.handles), tgt: m.tgt, infos: map[int64]mockey.GenericInfo{}, origin: m.origin, originNR: m.originNR}
	pan := safely(func() {
		h.define(b, n, op.C, true)
		n.b = b
		n.real, n.where = buildAt(b, op.site())
	})
	h.logf("m%d = rebuilt %s", n.n, describe(n))
	if pan != nil {
		h.failf("accept", "rebuilding a released mock of %s refused: %v", h.targets[m.tgt].Name, pan)
		return
	}
	h.count("rebuilt")
	h.handles = append(h.handles, n)
	h.built(n)
}

func (h *hist) opReconf(op Op) {
	m := h.handle(op.H, func(m *mk) bool {
		o := h.inScope(m.tgt)
		return (o == nil || o == m) && !m.twin
	})
	if m == nil || op.C == nil || len(op.C.Conds) == 0 {
		return
	}
	e := h.targets[m.tgt]
	src := op.C.Conds[0]
	if len(m.conds) == 0 {
		h.nextID++
		m.conds = []*cond{{id: h.nextID}}
	}
	kind := abs(op.F) % 8
	multi := kind < 4 && len(m.conds) > 1
	c := m.conds[0]
	old := *c
	oldOrigin, oldNR := m.origin, m.originNR
	gid := rt.GID()
	var do func()
	switch kind {
	case 0:
		h.nextID++
		src.When |= 1
		nc := *c
		nc.id, nc.hasWhen = h.nextID, true
		nc.setWhen(e, src)
		// predicates and hooks of one condition have different ids now
		w := h.makeWhen(m, &nc, e)
		do = func() {
			m.where = ""
			_, m.where = m.real.When(w), here()
		}
		if !multi {
			c.hasWhen, c.whenNR, c.whenInfo, c.whenNamed = true, nc.whenNR, nc.whenInfo, nc.whenNamed
			c.whenID = nc.id
		}
	case 1, 2, 3:
		h.nextID++
		nc := *c
		nc.id = h.nextID
		k := map[int]int{2: 1, 3: 2}[kind]
		if kind == 1 {
			k = 3 + int(src.S%3)
		}
		ret, to := h.prepHook(m, &nc, e, src, k)
		if to != nil {
			do = func() { _, m.where = m.real.To(to), here() }
		} else {
			do = func() { _, m.where = m.real.Return(ret...), here() }
		}
		if !multi {
			if c.whenID == 0 {
				nc.whenID = c.id
			}
			*c = nc
		}
	case 4:
		nr := op.C.Origin == 2 && canNR(e)
		o := newOrigin(e, nr)
		m.origin, m.originNR = o, nr
		do = func() { _, m.where = m.real.Origin(o.Interface()), here() }
	case 5:
		m.filter, m.fgid = mockey.Include, gid
		do = func() { _, m.where = m.real.IncludeCurrentGoRoutine(), here() }
	case 6:
		m.filter, m.fgid = mockey.Exclude, gid
		do = func() { _, m.where = m.real.ExcludeCurrentGoRoutine(), here() }
	case 7:
		gid = filterID(op.C.FG)
		f := mockey.FilterGoroutineType(abs(op.E) % 3)
		m.filter, m.fgid = f, gid
		do = func() { _, m.where = m.real.FilterGoRoutine(f, gid), here() }
	}
	h.logf("m%d reconfigured (%d, refused=%v)", m.n, kind, multi)
	where := m.where
	stale := staleOrigin{m: m}
	if m.originSet && oldOrigin.IsValid() && (!oldNR || m.lastRecv.IsValid()) {
		stale.fn = reflect.ValueOf(oldOrigin.Elem().Interface())
		stale.nr, stale.recv = oldNR, m.lastRecv
	}
	pan := safely(do)
	if multi {
		m.where = where
		*c = old
		m.origin, m.originNR = oldOrigin, oldNR
		h.count("reconf-refused")
		if pan == nil {
			h.failf("reconf", "reconfiguring condition of a mock of %s with %d conditions was not refused", e.Name, len(m.conds))
		}
		return
	}
	if pan != nil {
		h.failf("accept", "reconfiguring the mock of %s refused: %v", e.Name, pan)
		return
	}
	h.count(fmt.Sprintf("reconf:%d", kind))
	m.reconfs++
	if stale.fn.IsValid() {
		h.stale = append(h.stale, stale)
	}
	if !m.patched {
		h.count("reconf-idle")
	}
	h.modelUnpatch(m)
	m.originSet = false
	m.infos = map[int64]mockey.GenericInfo{}
	h.modelPatch(m)
}

func (h *hist) opRemock(op Op) {
	if len(h.targets) == 0 {
		return
	}
	t := abs(op.T) % len(h.targets)
	m := h.inScope(t)
	for k := 1; m == nil && k < len(h.targets); k++ {
		t = (t + 1) % len(h.targets)
		m = h.inScope(t)
	}
	if m == nil {
		return
	}
	e := h.targets[t]
	var pan interface{}
	how := "Build"
	if op.A == 1 {
		if o := h.handle(op.H, func(o *mk) bool { return o.tgt == t && !o.patched }); o != nil {
			how = "Patch"
			pan = safely(func() { o.real.Patch() })
		}
	}
	if how == "Build" {
		pan = safely(func() {
			b := h.newBuilder(e, op.A)
			ret, _ := h.returnVals(e, rt.NewRng(op.S))
			b.Return(ret...)
			buildAt(b, op.site())
		})
	}
	h.logf("re-mock of %s by %s: %v", e.Name, how, pan)
	h.count("remock")
	h.count("remock:" + how)
	if len(h.scopes) > 1 {
		h.count("remock-inner")
	}
	h.checkRefusal(e.Name, pan, m.where)
}

func (h *hist) checkRefusal(name string, pan interface{}, where string) {
	if pan == nil {
		h.failf("remock", "mocking %s twice in one scope was not refused", name)
		return
	}
	if s := fmt.Sprint(pan); !strings.Contains(s, "re-mock") || !strings.Contains(s, where) || !strings.HasSuffix(s, where) && !boundary(s, where) {
		h.failf("remock", "refusal of re-mocking %s says %q, expected 're-mock' and %q", name, s, where)
	}
}

// boundary: where is not followed by another digit
func boundary(s, where string) bool {
	i := strings.Index(s, where) + len(where)
	return i >= len(s) || s[i] < '0' || s[i] > '9'
}

// ---------------------------------------------------------------- the model of a call

type sim struct {
	h     *hist
	cx    *callCtx
	truth uint32
	nt    uint
	depth int
	gid   int64
	act   int
	r     *rt.Rng
	par   bool
	exit  bool // runtime.Goexit is fine
}

func (s *sim) call(t int, args []reflect.Value) outcome {
	return s.level(t, len(s.h.live[t])-1, args)
}

func (s *sim) add(x *ev) *ev { s.cx.exp = append(s.cx.exp, x); return x }

func (s *sim) level(t, lvl int, args []reflect.Value) outcome {
	e := s.h.targets[t]
	if lvl < 0 {
		return s.original(t, args)
	}
	m := s.h.live[t][lvl]
	atomic.AddInt64(&m.times, 1)
	if !s.par {
		m.originSet = m.origin.IsValid()
		m.everCalled = true
		if len(args) > 0 {
			m.lastRecv = args[0]
		}
	}
	if m.filter == mockey.Include && m.fgid != s.gid || m.filter == mockey.Exclude && m.fgid == s.gid {
		s.h.count("sim:filtered")
		return s.level(t, lvl-1, args)
	}
	if m.filter != mockey.Disable {
		s.h.count("sim:filter-passed")
	}
	nested := false
	for i, c := range m.conds {
		if c.hasWhen {
			a := args
			if c.whenNR {
				a = args[1:]
			}
			id := c.id
			if c.whenID != 0 {
				id = c.whenID
			}
			x := s.add(&ev{kind: "when", id: id, args: a, mk: m, what: e.Name})
			x.yes = s.truth>>(s.nt%32)&1 != 0
			s.nt++
			s.h.count("sim:when")
			if s.predicate(x, m, c, t, lvl, args, nested) {
				return outcome{pan: x.pan}
			}
			nested = nested || len(x.acts) > 0
			if !x.yes {
				continue
			}
		}
		if i > 0 {
			s.h.count("sim:later-cond")
		}
		if c.hook == 0 {
			s.h.count("sim:nohook")
			return s.level(t, lvl-1, args)
		}
		atomic.AddInt64(&m.mtimes, 1)
		s.h.count("sim:hook")
		switch c.hook {
		case 1:
			return outcome{res: c.res}
		case 2:
			s.h.count("sim:seq")
			if s.par {
				return outcome{seq: c.seq}
			}
			return outcome{res: c.seq.vals[c.seq.next()]}
		}
		a := args
		if c.hook == 5 {
			a = args[1:]
		}
		x := s.add(&ev{kind: "hook", id: c.id, args: a, mk: m, what: e.Name})
		return s.hook(x, m, c, t, lvl, args, nested)
	}
	s.h.count("sim:unmatched")
	return s.level(t, lvl-1, args)
}

// predicate does what the predicate c.wacts says; true if it panics.
func (s *sim) predicate(x *ev, m *mk, c *cond, t, lvl int, args []reflect.Value, nested bool) bool {
	h := s.h
	if s.depth > 1 {
		return false
	}
	s.depth++
	defer func() { s.depth-- }()
	for _, a := range c.wacts {
		// not each time
		if s.r.N(3) == 0 {
			continue
		}
		var y *act
		switch a {
		case 1:
			if !m.origin.IsValid() || m.originNR && (nested || len(x.acts) > 0 || s.par) || h.targets[t].Generic && s.par {
				continue // K3, K5
			}
			h.count("sim:when-origin")
			if m.originNR {
				h.count("sim:when-origin-nr")
			}
			y = &act{kind: 'o', mk: m, e: h.targets[t], args: args}
			x.acts = append(x.acts, y)
			y.out = s.level(t, lvl-1, args)
		case 3:
			h.count("sim:when-nested")
			y = s.nested(t, x)
		case 4:
			h.count("sim:when-nested")
			y = s.nested((t+1)%len(h.targets), x)
		case 5:
			h.count("sim:when-panic")
			x.pan = &panicTok{c.id}
			return true
		case 8:
			if s.exit {
				h.count("sim:when-exit")
				x.pan = exit
				return true
			}
		case 9:
			s.other(x)
		case 10:
			s.readTimes(x, m)
		}
		if y != nil && y.out.pan == exit {
			x.pan = exit
			return true
		}
	}
	return false
}

// other: another function is mocked and released meanwhile
func (s *sim) other(x *ev) {
	if s.par {
		return
	}
	os := s.h.others()
	s.h.count("sim:other")
	x.acts = append(x.acts, &act{kind: 'm', e: os[s.r.N(len(os))]})
}

func (s *sim) readTimes(x *ev, m *mk) {
	if s.par || !m.patched {
		return
	}
	s.h.count("sim:times")
	x.acts = append(x.acts, &act{kind: 't', mk: m, n: m.times})
}

// acts of hooks: 1 origin with the same arguments, 2 origin with others, 3 nested call of the target, 4 nested call of
// another target, 5 panic, 6 return what the last origin call returned, 7 unpatch the own mock, 8 runtime.Goexit,
// 9 mock and release another function, 10 read Times
func (s *sim) hook(x *ev, m *mk, c *cond, t, lvl int, args []reflect.Value, nested bool) outcome {
	h := s.h
	e := h.targets[t]
	var last *outcome
	first := !nested
	s.depth++
	defer func() { s.depth-- }()
	for _, a := range c.acts {
		switch a {
		case 1, 2:
			if !m.origin.IsValid() || s.depth > 3 {
				continue
			}
			if (m.originNR || e.Generic) && s.par || m.originNR && !first {
				h.count("excluded:K3")
				continue // K3, K5
			}
			oa := args
			if a == 2 {
				oa = genVals(inTypes(e, false, false), s.r)
				if m.originNR {
					oa[0] = args[0]
				}
				h.count("sim:origin-other-args")
			}
			first = false
			h.count("sim:origin")
			y := &act{kind: 'o', mk: m, e: e, args: oa}
			x.acts = append(x.acts, y)
			if m.patched {
				y.out = s.level(t, lvl-1, oa)
			} else {
				h.count("sim:origin-after-unpatch")
				y.out = s.call(t, oa)
			}
			if y.out.pan == exit {
				x.pan = exit
				return outcome{pan: exit}
			}
			if y.out.pan == nil {
				o := y.out
				o.counted = true
				last = &o
			}
		case 3, 4:
			if s.depth > 2 {
				continue
			}
			u := t
			if a == 4 {
				u = (t + 1) % len(h.targets)
			}
			first = false
			h.count("sim:nested")
			if y := s.nested(u, x); y.out.pan == exit {
				x.pan = exit
				return outcome{pan: exit}
			}
		case 8:
			if s.exit {
				h.count("sim:hook-exit")
				x.pan = exit
				return outcome{pan: exit}
			}
		case 9:
			s.other(x)
		case 10:
			s.readTimes(x, m)
		case 5:
			h.count("sim:hook-panic")
			x.pan = &panicTok{c.id}
			return outcome{pan: x.pan}
		case 6:
			if last != nil && last.seq == nil {
				h.count("sim:origin-returned")
				x.res = last.res
				return outcome{res: x.res}
			}
		case 7:
			if s.par || s.depth != 1 || !m.patched || len(h.live[t]) != 1 {
				continue
			}
			h.count("sim:self-unpatch")
			x.acts = append(x.acts, &act{kind: 'u', mk: m})
			h.modelUnpatch(m)
		}
	}
	x.res = genVals(outTypes(e), s.r)
	return outcome{res: x.res}
}

func (s *sim) nested(u int, x *ev) *act {
	e := s.h.targets[u]
	y := &act{kind: 'c', e: e, form: s.r.N(64), args: genVals(inTypes(e, false, false), s.r)}
	x.acts = append(x.acts, y)
	y.out = s.call(u, y.args)
	return y
}

// acts of the original: 0, 1 return, 2 panic, 3 nested call of the same target, 4 nested call of another one, 5 runtime.Goexit
func (s *sim) original(t int, args []reflect.Value) outcome {
	h := s.h
	e := h.targets[t]
	if e.Pure != nil {
		h.count("sim:orig-pure")
		var out outcome
		out.pan = safely(func() { out.res = reflect.ValueOf(e.Pure).Call(args) })
		return out
	}
	h.count("sim:orig")
	x := s.add(&ev{kind: "orig", id: e.OrigID, args: args, what: e.Name})
	if s.depth <= 1 {
		s.depth++
		switch s.act {
		case 2:
			h.count("sim:orig-panic")
			x.pan = &panicTok{-1}
			s.depth--
			return outcome{pan: x.pan}
		case 3:
			h.count("sim:orig-recursive")
			s.nested(t, x)
		case 4:
			s.nested((t+1)%len(h.targets), x)
		case 5:
			if s.exit {
				h.count("sim:orig-exit")
				x.pan = exit
			}
		}
		if n := len(x.acts); n > 0 && x.acts[n-1].out.pan == exit {
			x.pan = exit
		}
		if x.pan == exit {
			s.depth--
			return outcome{pan: exit}
		}
		s.depth--
	}
	x.res = genVals(outTypes(e), s.r)
	return outcome{res: x.res}
}

// ---------------------------------------------------------------- reality

func (h *hist) ctx() *callCtx {
	g := rt.GID()
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.ctxs[g]
}

func (h *hist) setCtx(g int64, cx *callCtx) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if cx == nil {
		delete(h.ctxs, g)
	} else {
		h.ctxs[g] = cx
	}
}

func sameArgs(a, b []reflect.Value, spread bool) bool {
	if !spread || len(a) != len(b) || len(a) == 0 {
		return rt.SameAll(a, b)
	}
	n := len(a) - 1
	if !rt.SameAll(a[:n], b[:n]) {
		return false
	}
	x, y := a[n], b[n]
	if x.Type() != y.Type() {
		return false
	}
	if x.Kind() != reflect.Slice {
		return rt.Same(x, y)
	}
	if x.Len() != y.Len() {
		return false
	}
	for i := 0; i < x.Len(); i++ {
		if !rt.Same(x.Index(i), y.Index(i)) {
			return false
		}
	}
	return true
}

// take consumes the next expected event of the running call.
func (h *hist) take(kind string, id int, args []reflect.Value) *ev {
	cx := h.ctx()
	if h.failed() {
		return nil
	}
	if cx == nil {
		h.failf("call", "unexpected %s %d outside of any call of this history, args %s", kind, id, rt.ShowAll(args))
		return nil
	}
	if cx.pos >= len(cx.exp) {
		h.failf("call", "unexpected %s %d, args %s, after all expected events of the call", kind, id, rt.ShowAll(args))
		return nil
	}
	x := cx.exp[cx.pos]
	if x.kind != kind || x.id != id {
		h.failf("call", "event %d of the call is %s %d, expected %s %d (%s)", cx.pos, kind, id, x.kind, x.id, x.what)
		return nil
	}
	cx.pos++
	if !sameArgs(args, x.args, cx.spread) {
		h.failf("call", "%s %d (%s) got arguments %s, expected %s", kind, id, x.what, rt.ShowAll(args), rt.ShowAll(x.args))
		return nil
	}
	h.count("ev:" + kind)
	return x
}

func zeros(ts []reflect.Type) []reflect.Value {
	vs := make([]reflect.Value, len(ts))
	for i, t := range ts {
		vs[i] = reflect.Zero(t)
	}
	return vs
}

// follow does what the script says for a hook or original body.
func (h *hist) follow(x *ev, out []reflect.Type) []reflect.Value {
	if x == nil {
		return zeros(out)
	}
	for _, a := range x.acts {
		switch a.kind {
		case 'u':
			a.mk.real.UnPatch()
		case 'm':
			ret := make([]interface{}, a.e.Type.NumOut())
			mockey.Mock(a.e.Fn).Return(ret...).Build().UnPatch()
		case 't':
			if n := a.mk.real.Times(); int64(n) != a.n {
				h.failf("times", "Times of the mock of %s is %d during its call number %d", h.targets[a.mk.tgt].Name, n, a.n)
			}
		case 'o':
			args := a.args
			if a.mk.originNR {
				args = args[1:]
			}
			f := a.mk.origin.Elem()
			res, pan := callValue(f, args)
			h.compare("origin function of "+a.e.Name, a.out, res, pan, false)
		case 'c':
			f := h.form(a.e, a.form, a.args, true)
			res, pan := f.run(a.args)
			h.compare("nested "+f.name+" call of "+a.e.Name, a.out, res, pan, f.noRes)
		}
		if h.failed() {
			return zeros(out)
		}
	}
	if x.pan == exit {
		runtime.Goexit()
	}
	if x.pan != nil {
		panic(x.pan)
	}
	return x.res
}

func callValue(f reflect.Value, args []reflect.Value) (res []reflect.Value, pan interface{}) {
	pan = safely(func() {
		if f.IsNil() {
			panic("origin function is not set")
		}
		if f.Type().IsVariadic() {
			res = f.CallSlice(args)
		} else {
			res = f.Call(args)
		}
	})
	return
}

func (h *hist) onOrig(id int, args, res []reflect.Value) {
	got := make([]reflect.Value, len(args))
	for i := range args {
		got[i] = args[i]
	}
	x := h.take("orig", id, got)
	if x == nil {
		return
	}
	var out []reflect.Type
	for _, r := range res {
		out = append(out, r.Type())
	}
	for i, v := range h.follow(x, out) {
		res[i].Set(v)
	}
}

func samePanic(a, b interface{}) bool {
	if ra, ok := a.(runtime.Error); ok {
		rb, ok := b.(runtime.Error)
		return ok && ra.Error() == rb.Error()
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if !va.IsValid() || !vb.IsValid() {
		return va.IsValid() == vb.IsValid()
	}
	return va.Type() == vb.Type() && rt.Same(va, vb)
}

func (h *hist) compare(what string, out outcome, res []reflect.Value, pan interface{}, noRes bool) {
	if h.failed() {
		return
	}
	if pan != nil || out.pan != nil {
		if !samePanic(pan, out.pan) {
			h.failf("call", "%s: panic %v, expected %v", what, pan, out.pan)
		}
		return
	}
	if noRes {
		if out.seq != nil && !out.counted {
			atomic.AddInt64(&out.seq.unseen, 1)
		}
		return
	}
	if out.seq != nil {
		if out.counted {
			return
		}
		for i, v := range out.seq.vals {
			if rt.SameAll(res, v) {
				atomic.AddInt64(&out.seq.counts[i], 1)
				return
			}
		}
		h.failf("call", "%s: results %s are none of the sequence", what, rt.ShowAll(res))
		return
	}
	if !rt.SameAll(res, out.res) {
		h.failf("call", "%s: results %s, expected %s", what, rt.ShowAll(res), rt.ShowAll(out.res))
	}
}

type formSel struct {
	name   string
	noRes  bool
	spread bool
	isGo   bool
	e      *rt.Entry
	call   func(a, r []interface{})
	refl   func(args []reflect.Value) []reflect.Value
}

// form selects a way of calling e with these arguments.
func (h *hist) form(e *rt.Entry, n int, args []reflect.Value, nested bool) formSel {
	n = abs(n)
	k := len(e.Forms) + 2
	n %= k
	if n < len(e.Forms) {
		f := e.Forms[n]
		if f.Recv == "nonnil" && args[0].IsNil() || f.Spread && args[len(args)-1].Len() > 3 || f.Spread && nested || f.Name == "go" && nested {
			f = e.Forms[0]
		}
		return formSel{name: f.Name, noRes: f.NoRes, spread: f.Spread, isGo: f.Name == "go", e: e, call: f.Call}
	}
	if n == len(e.Forms)+1 && strings.HasSuffix(e.Kind, "method") && len(args) > 0 {
		name := e.Name[strings.LastIndex(e.Name, ".")+1:]
		if name[0] == 'M' {
			if mv := args[0].MethodByName(name); mv.IsValid() && !(args[0].Kind() == reflect.Ptr && args[0].IsNil()) {
				return formSel{name: "reflectmethod", e: e, refl: func(args []reflect.Value) []reflect.Value {
					if mv.Type().IsVariadic() {
						return mv.CallSlice(args[1:])
					}
					return mv.Call(args[1:])
				}}
			}
		}
	}
	return formSel{name: "reflect", e: e, refl: func(args []reflect.Value) []reflect.Value {
		fv := reflect.ValueOf(e.Fn)
		if e.Type.IsVariadic() {
			return fv.CallSlice(args)
		}
		return fv.Call(args)
	}}
}

func (f *formSel) run(args []reflect.Value) (res []reflect.Value, pan interface{}) {
	if f.refl != nil {
		pan = safely(func() { res = f.refl(args) })
		return
	}
	a := make([]interface{}, len(args))
	for i, v := range args {
		a[i] = v.Addr().Interface()
	}
	r := make([]interface{}, f.e.Type.NumOut())
	res = make([]reflect.Value, len(r))
	for i := range r {
		p := reflect.New(f.e.Type.Out(i))
		r[i] = p.Interface()
		res[i] = p.Elem()
	}
	pan = safely(func() { f.call(a, r) })
	return
}

func (h *hist) doCall(op Op, when string) {
	if len(h.targets) == 0 {
		return
	}
	h.callOn(op, when, rt.NewRng(op.S, 1), false)
}

func (h *hist) callOn(op Op, when string, r *rt.Rng, par bool) {
	t := abs(op.T) % len(h.targets)
	e := h.targets[t]
	args := genVals(inTypes(e, false, false), r)
	before := make([]reflect.Value, len(args))
	for i := range args {
		before[i] = rt.Copy(args[i])
	}
	f := h.form(e, op.F, args, false)
	alone := op.E == 1 && when == "call" // on a goroutine of its own, so that runtime.Goexit may end it
	if when != "call" || alone && f.isGo {
		f = h.form(e, 0, args, false)
	}
	gid := rt.GID()
	cx := &callCtx{spread: f.spread}
	simulate := func(gid int64) {
		s := &sim{h: h, cx: cx, truth: op.M, gid: gid, act: op.A, r: r, par: par, exit: alone}
		cx.out = s.call(t, args)
	}
	if alone {
	} else if f.isGo {
		cx.lazy = simulate
	} else {
		simulate(gid)
	}
	h.count("form:" + f.name)
	if h.everMk[t] && len(h.live[t]) == 0 {
		h.count("call-after-release")
	}
	var res []reflect.Value
	var pan interface{}
	if alone {
		done := make(chan bool)
		go func() {
			gid := rt.GID()
			defer close(done)
			defer h.setCtx(gid, nil)
			rt.Grow()
			simulate(gid)
			h.setCtx(gid, cx)
			pan = exit
			res, pan = f.run(args)
		}()
		<-done
	} else {
		h.setCtx(gid, cx)
		res, pan = f.run(args)
		h.setCtx(gid, nil)
	}
	if h.verb {
		h.logf("%s of %s: %s -> %s panic=%v (expected %d events)", f.name, e.Name, rt.ShowAll(args), rt.ShowAll(res), pan, len(cx.exp))
	}
	if h.failed() {
		return
	}
	what := when + ": " + f.name + " call of " + e.Name
	if when == "call" {
		what = f.name + " call of " + e.Name
	}
	if cx.pos < len(cx.exp) {
		x := cx.exp[cx.pos]
		h.failf("call", "%s ended after %d of %d expected events, missing %s %d; panic %v", what, cx.pos, len(cx.exp), x.kind, x.id, pan)
		return
	}
	h.compare(what, cx.out, res, pan, f.noRes)
	if !rt.SameAll(args, before) {
		h.failf("call", "%s changed the caller's arguments: %s, were %s", what, rt.ShowAll(args), rt.ShowAll(before))
	}
}

// staleOrigin is an origin function got before its mock was reconfigured.
type staleOrigin struct {
	m    *mk
	fn   reflect.Value
	nr   bool
	recv reflect.Value
}

func (h *hist) opStaleOrigin(op Op) bool {
	for i := range h.stale {
		o := h.stale[(i+abs(op.H))%len(h.stale)]
		t := o.m.tgt
		if len(h.live[t]) > 0 {
			continue // it calls the function as it is
		}
		e := h.targets[t]
		r := rt.NewRng(op.S, 2)
		args := genVals(inTypes(e, false, false), r)
		pass := args
		if o.nr {
			args[0] = o.recv
			pass = args[1:]
		}
		h.count("ocall-stale")
		gid := rt.GID()
		cx := &callCtx{}
		s := &sim{h: h, cx: cx, truth: op.M, gid: gid, act: op.A, r: r}
		cx.out = s.call(t, args)
		h.setCtx(gid, cx)
		res, pan := callValue(o.fn, pass)
		h.setCtx(gid, nil)
		h.logf("former origin of m%d (%s)", o.m.n, e.Name)
		if h.failed() {
			return true
		}
		what := fmt.Sprintf("origin function of m%d (%s), of before a reconfiguration, called after the release", o.m.n, e.Name)
		if cx.pos < len(cx.exp) {
			h.failf("call", "%s ended after %d of %d expected events; panic %v", what, cx.pos, len(cx.exp), pan)
			return true
		}
		h.compare(what, cx.out, res, pan, false)
		return true
	}
	return false
}

// formerOrigins calls, once nothing is mocked, the origin functions got before reconfigurations.
func (h *hist) formerOrigins() {
	for i := 0; i < len(h.stale) && i < 4 && !h.failed(); i++ {
		h.opStaleOrigin(Op{H: i, S: uint64(len(h.stale)*7 + i)})
	}
}

// opOrigin calls an origin function outside of any mocked call.
func (h *hist) opOrigin(op Op) {
	if op.S%2 == 0 && h.opStaleOrigin(op) {
		return
	}
	m := h.handle(op.H, func(m *mk) bool { return m.origin.IsValid() && m.originSet })
	if m == nil {
		return
	}
	e := h.targets[m.tgt]
	if !m.patched && len(h.live[m.tgt]) > 0 {
		return
	}
	r := rt.NewRng(op.S, 2)
	args := genVals(inTypes(e, false, false), r)
	pass := args
	if m.originNR {
		if !m.lastRecv.IsValid() {
			return
		}
		args[0] = m.lastRecv
		pass = args[1:]
	}
	if m.patched {
		h.count("ocall-live")
	} else {
		h.count("ocall-after-release")
	}
	gid := rt.GID()
	cx := &callCtx{}
	s := &sim{h: h, cx: cx, truth: op.M, gid: gid, act: op.A, r: r}
	lvl := -1
	for i, x := range h.live[m.tgt] {
		if x == m {
			lvl = i - 1
		}
	}
	cx.out = s.level(m.tgt, lvl, args)
	h.setCtx(gid, cx)
	res, pan := callValue(m.origin.Elem(), pass)
	h.setCtx(gid, nil)
	h.logf("origin of m%d (%s, in force %v)", m.n, e.Name, m.patched)
	if h.failed() {
		return
	}
	what := fmt.Sprintf("origin function of m%d (%s, in force %v) called outside", m.n, e.Name, m.patched)
	if cx.pos < len(cx.exp) {
		h.failf("call", "%s ended after %d of %d expected events; panic %v", what, cx.pos, len(cx.exp), pan)
		return
	}
	h.compare(what, cx.out, res, pan, false)
}

func (h *hist) opPar(op Op) {
	if len(h.targets) == 0 || len(op.P) == 0 {
		return
	}
	h.count("par")
	reps := 1 + abs(op.H)*4
	var wg sync.WaitGroup
	start := make(chan struct{})
	stop := make(chan struct{})
	for g, calls := range op.P {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rt.Grow()
			<-start
			for n := 0; n < reps; n++ {
				for j, c := range calls {
					if h.failed() {
						return
					}
					if c.A >= 3 {
						c.A = 0
					}
					pan := safely(func() { h.callOn(c, "call", rt.NewRng(c.S, uint64(g), uint64(n), uint64(j)), true) })
					if pan != nil {
						h.failf("call", "unexpected panic of a concurrent caller: %v", pan)
					}
				}
			}
		}()
	}
	var aux sync.WaitGroup
	if op.A&1 != 0 {
		aux.Add(1)
		go func() {
			defer aux.Done()
			rt.Grow()
			h.mutate(op.S, stop)
		}()
	}
	if op.A&2 != 0 {
		aux.Add(1)
		go func() {
			defer aux.Done()
			for i := 0; i < 20; i++ {
				select {
				case <-stop:
					return
				default:
				}
				runtime.GC()
			}
		}()
	}
	close(start)
	wg.Wait()
	close(stop)
	aux.Wait()
	// origin functions that depend on the last call are not predictable now
	for _, m := range h.handles {
		if m.originNR {
			m.originSet = false
		}
	}
	h.checkSeqs()
}

// others are functions that are not targets.
func (h *hist) others() (others []*rt.Entry) {
	for _, e := range rt.Entries {
		if e.Generic || usable(e) != "" {
			continue
		}
		used := false
		for _, t := range h.targets {
			used = used || t == e
		}
		if !used {
			others = append(others, e)
		}
	}
	return
}

// mutate mocks and releases other functions until told to stop.
func (h *hist) mutate(seed uint64, stop chan struct{}) {
	others := h.others()
	r := rt.NewRng(seed, 9)
	for i := 0; i < 400; i++ {
		select {
		case <-stop:
			return
		default:
		}
		e := others[r.N(len(others))]
		h.count("par:mutation")
		pan := safely(func() {
			ret := make([]interface{}, e.Type.NumOut())
			m := mockey.Mock(e.Fn).Return(ret...).Build()
			m.UnPatch()
		})
		if pan != nil {
			h.failf("accept", "mocking %s while other functions are called: %v", e.Name, pan)
			return
		}
	}
}

// checkSeqs compares how often each value of the sequences has been returned by concurrent calls.
func (h *hist) checkSeqs() {
	for _, m := range h.handles {
		for _, c := range m.conds {
			q := c.seq
			if q == nil {
				continue
			}
			n, unseen := q.unseen, q.unseen
			q.unseen = 0
			for _, k := range q.counts {
				n += k
			}
			if n == 0 {
				continue
			}
			h.count("par:seq")
			want := make([]int64, len(q.vals))
			for ; n > 0; n-- {
				want[q.canon[q.next()]]++
			}
			for i := range q.counts {
				if d := want[i] - q.counts[i]; d < 0 || d > unseen {
					h.failf("call", "sequence of %s: values returned %v times to concurrent callers (and %d unseen), expected %v", h.targets[m.tgt].Name, q.counts, unseen, want)
					return
				}
				q.counts[i] = 0
			}
		}
	}
}

// ---------------------------------------------------------------- scopes

func (h *hist) runScope(op Op, i, depth int) {
	name := fmt.Sprintf("scope %d", i)
	body := func() {
		h.count("scope")
		if depth > 0 {
			h.count("scope-nested")
		}
		h.logf("enter %s depth %d", name, depth)
		h.scopes = append(h.scopes, &scope{})
		defer func() {
			if len(h.top().mocks)+len(h.top().vars) > 0 {
				h.count("scope-releases")
				h.count(fmt.Sprintf("scope-releases-end:%d", op.E))
			}
			h.modelUnAll()
			h.scopes = h.scopes[:len(h.scopes)-1]
			h.logf("leave %s depth %d", name, depth)
		}()
		h.runOps(op.B, depth+1)
		if h.failed() {
			return
		}
		h.count(fmt.Sprintf("scope-end:%d", op.E))
		switch op.E {
		case 1:
			panic(&panicTok{1})
		case 2:
			runtime.Goexit()
		case 3:
			convey.So(1, convey.ShouldEqual, 2)
		case 4:
			panic("text")
		}
	}
	if depth > 0 {
		n := len(h.scopes)
		mockey.PatchConvey(name, body)
		if len(h.scopes) != n {
			h.failf("scope", "model lost track of the scopes")
		}
		return
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		rt.Grow()
		defer func() { recover() }()
		mockey.PatchConvey(name, h.ft, body)
	}()
	<-done
}

// ---------------------------------------------------------------- variables

type vroot struct {
	n     int
	ptr   reflect.Value
	cur   reflect.Value // what the variable must hold
	paths []vpath
	live  []*vm
}

type vpath struct {
	name string
	off  uintptr
	t    reflect.Type
}

type vm struct {
	n       int
	real    *mockey.MockerVar
	root    *vroot
	path    int
	hook    reflect.Value
	saved   reflect.Value
	patched bool
	scope   *scope
	where   string
}

var varTypes []reflect.Type

func (h *hist) addRoot(s uint64) {
	r := rt.NewRng(s, 5)
	t := varTypes[r.N(len(varTypes))]
	root := &vroot{n: len(h.vroots), ptr: reflect.New(t)}
	root.ptr.Elem().Set(rt.Gen(t, r))
	root.cur = rt.Copy(root.ptr.Elem())
	root.paths = []vpath{{"", 0, t}}
	switch t.Kind() {
	case reflect.Struct:
		for i := 1; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.Offset > 0 && f.Type.Size() > 0 {
				root.paths = append(root.paths, vpath{"." + f.Name, f.Offset, f.Type})
			}
		}
	case reflect.Array:
		for i := 1; i < t.Len(); i++ {
			root.paths = append(root.paths, vpath{fmt.Sprint("[", i, "]"), uintptr(i) * t.Elem().Size(), t.Elem()})
		}
	}
	h.vroots = append(h.vroots, root)
}

func at(base reflect.Value, p vpath) reflect.Value { // pointer to the part
	return reflect.NewAt(p.t, unsafe.Add(base.UnsafePointer(), p.off))
}

func (h *hist) checkVars(when string) {
	if h.failed() {
		return
	}
	for _, r := range h.vroots {
		if !rt.Same(r.ptr.Elem(), r.cur) {
			h.failf("var", "%s: variable v%d is %s, expected %s (%d mocks in force)", when, r.n, rt.Show(r.ptr.Elem()), rt.Show(r.cur), len(r.live))
			return
		}
	}
}

func (h *hist) vInScope(r *vroot, path int) *vm {
	for _, v := range h.top().vars {
		if v.root == r && v.path == path {
			return v
		}
	}
	return nil
}

func (h *hist) modelVPatch(v *vm) {
	v.patched = true
	v.scope = h.top()
	v.scope.vars = append(v.scope.vars, v)
	if len(v.root.live) > 0 {
		h.count("var-stacked")
	}
	v.root.live = append(v.root.live, v)
	p := at(v.root.cur.Addr(), v.root.paths[v.path]).Elem()
	v.saved = rt.Copy(p)
	p.Set(v.hook)
}

func (h *hist) modelVUnpatch(v *vm) {
	if !v.patched {
		return
	}
	v.patched = false
	for i, x := range v.root.live {
		if x != v {
			continue
		}
		// a later mock of the same part restores what this one would have restored
		later := v
		for _, y := range v.root.live[i+1:] {
			if y.path == v.path {
				later = y
				break
			}
		}
		if later != v {
			later.saved = v.saved
		} else {
			at(v.root.cur.Addr(), v.root.paths[v.path]).Elem().Set(v.saved)
		}
	}
	rm := func(l []*vm) []*vm {
		var r []*vm
		for _, x := range l {
			if x != v {
				r = append(r, x)
			}
		}
		return r
	}
	v.scope.vars = rm(v.scope.vars)
	v.root.live = rm(v.root.live)
}

// varValue draws what is given to To, and what the variable must hold then.
func (h *hist) varValue(t reflect.Type, mode int, r *rt.Rng) (interface{}, reflect.Value) {
	v := rt.Gen(t, r)
	switch mode % 6 {
	case 0:
		h.count("var:nil")
		return nil, reflect.Zero(t)
	case 1:
		if u := unnamed(t); u != t && u.AssignableTo(t) {
			h.count("var:assignable")
			o := rt.Gen(u, r)
			c := reflect.New(t).Elem()
			c.Set(o)
			return o.Interface(), c
		}
	}
	return v.Interface(), v
}

type badValue struct{ x chan bool }

func (h *hist) opVar(op Op) {
	if len(h.vroots) == 0 {
		return
	}
	r := rt.NewRng(op.S, 6)
	root := h.vroots[abs(op.T)%len(h.vroots)]
	path := abs(op.A) % len(root.paths)
	exist := h.vInScope(root, path)
	if op.K == "vremock" && exist == nil {
		for _, v := range h.top().vars {
			root, path, exist = v.root, v.path, v
		}
	}
	p := root.paths[path]
	ptr := at(root.ptr, p).Interface()
	switch op.K {
	case "vset":
		// the program assigns to the variable
		x := rt.Gen(p.t, r)
		at(root.ptr, p).Elem().Set(x)
		at(root.cur.Addr(), p).Elem().Set(x)
		h.logf("v%d%s = %s", root.n, p.name, rt.Show(x))
		if len(root.live) > 0 {
			h.count("vset-mocked")
		}
	case "var":
		if exist != nil {
			return
		}
		x, want := h.varValue(p.t, int(op.S>>3), r)
		v := &vm{n: len(h.vms), root: root, path: path, hook: want}
		h.logf("x%d = MockValue(&v%d%s).To(%s)", v.n, root.n, p.name, rt.Show(want))
		pan := safely(func() {
			v.real, v.where = valueAt(ptr, x, op.site())
		})
		if pan != nil {
			h.failf("var", "MockValue of a %v refused %s: %v", p.t, rt.Show(want), pan)
			return
		}
		h.count("var")
		h.count("var:" + p.t.Kind().String())
		if path > 0 {
			h.count("var:part")
		}
		h.vms = append(h.vms, v)
		h.modelVPatch(v)
	case "varbad":
		if reflect.TypeOf(badValue{}).AssignableTo(p.t) || exist != nil {
			return
		}
		h.count("varbad")
		var bad interface{} = badValue{}
		if op.F%4 > 0 {
			// a near miss: another type of the same kind
			if u := alike(p.t, r); op.F > 1 || u.Kind() == reflect.Interface || u.AssignableTo(p.t) {
				for n := 0; n < 3 && len(kin(p.t)) > 0; n++ {
					if u = kin(p.t)[r.N(len(kin(p.t)))]; u.Kind() != reflect.Interface && !u.AssignableTo(p.t) {
						bad = rt.Gen(u, r).Interface()
						h.count("varbad:kin")
						break
					}
				}
			} else {
				bad = rt.Gen(u, r).Interface()
				h.count("varbad:alike")
			}
		}
		if bad == nil || reflect.TypeOf(bad).AssignableTo(p.t) {
			return
		}
		h.logf("MockValue(&v%d%s).To(%T) to be refused", root.n, p.name, bad)
		if pan := safely(func() { mockey.MockValue(ptr).To(bad) }); pan == nil {
			h.failf("var", "MockValue of a %v accepted a %T", p.t, bad)
		}
	case "vremock":
		if exist == nil {
			return
		}
		x, _ := h.varValue(p.t, int(op.S>>3), r)
		pan := safely(func() { mockey.MockValue(ptr).To(x) })
		h.count("remock")
		h.count("remock:var")
		h.checkRefusal(fmt.Sprintf("variable v%d%s", root.n, p.name), pan, exist.where)
	}
}

func overlaps(r *vroot, a, b int) bool { return a == 0 || b == 0 || a == b }

func (h *hist) opVarPatch(op Op) {
	if len(h.vms) == 0 {
		return
	}
	v := h.vms[abs(op.H)%len(h.vms)]
	if op.K == "vunpatch" {
		if v.patched {
			later := false
			for _, x := range v.root.live {
				if x == v {
					later = true
				} else if later && x.path != v.path && overlaps(v.root, x.path, v.path) {
					return // parts are undone in reverse order
				}
			}
			if v.root.live[len(v.root.live)-1] != v {
				h.count("vunpatch-below")
			}
			h.count("vunpatch-live")
		} else {
			h.count("vunpatch-idle")
		}
		h.logf("x%d.UnPatch()", v.n)
		v.real.UnPatch()
		h.modelVUnpatch(v)
		return
	}
	if v.patched {
		h.count("vpatch-live")
		h.logf("x%d.Patch() (in force)", v.n)
		v.real.Patch()
		return
	}
	if h.vInScope(v.root, v.path) != nil {
		return
	}
	if op.F == 3 {
		p := v.root.paths[v.path]
		x, want := h.varValue(p.t, int(op.S>>3), rt.NewRng(op.S, 6))
		h.count("vto")
		h.logf("x%d.To(%s)", v.n, rt.Show(want))
		pan := safely(func() { _, v.where = v.real.To(x), here() })
		if pan != nil {
			h.failf("var", "To of a %v refused %s: %v", p.t, rt.Show(want), pan)
			return
		}
		v.hook = want
		h.modelVPatch(v)
		return
	}
	h.count("vrepatch")
	h.logf("x%d.Patch()", v.n)
	v.where = patchValueAt(v.real, op.site())
	h.modelVPatch(v)
}
