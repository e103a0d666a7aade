package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"unsafe"

	"github.com/bytedance/mockey"

	"verifharness/rt"
)

// Engine of C16: functions made of random position-independent instructions, placed anywhere in pages of their own
// between neighbours, are called, mocked, called through the mock and released. The reference is the function itself
// before it is mocked, and instruction boundaries are known from the construction.

type jitFn = func(a, b, c, d int64, x, y float64) (int64, int64, float64)

type JOp struct {
	N int    `json:"n"` // template
	S uint64 `json:"s"`
}

type JPlan struct {
	Ops   []JOp  `json:"ops"`
	Tail  []JOp  `json:"tail,omitempty"`
	Short bool   `json:"short,omitempty"` // no padding: may return early
	Off   int    `json:"off"`             // offset of the entry relative to the start of the second page
	Prev  []JOp  `json:"prev,omitempty"`  // the neighbour before it, adjacent
	Next  []JOp  `json:"next,omitempty"`  // the neighbour behind it
	Gap   int    `json:"gap,omitempty"`
	Busy  bool   `json:"busy,omitempty"` // another goroutine runs the neighbours all the time
	RO    int    `json:"ro,omitempty"`   // bit i: page i is not executable, if it holds no code
	Steps []int  `json:"steps"`
	S     uint64 `json:"s"`
}

func genJOps(t *rt.Rng, n int) []JOp {
	var ops []JOp
	for ; n > 0; n-- {
		ops = append(ops, JOp{N: t.N(1000), S: uint64(uint32(t.U64()))})
	}
	return ops
}

func genJPlan(t *rt.Rng) JPlan {
	p := JPlan{Ops: genJOps(t, 1+t.N(14)), S: seed(t), Short: pct(t, 12), Busy: pct(t, 15), Gap: []int{0, 0, 1, 5, 16}[t.N(5)], RO: t.N(16)}
	if p.Short {
		p.Ops = p.Ops[:min(len(p.Ops), t.N(4))]
	}
	switch t.N(3) {
	case 0:
		p.Off = -t.N(32)
	case 1:
		p.Off = t.N(24)
	default:
		p.Off = t.N(4000) - 2000
	}
	p.Tail = genJOps(t, t.N(8))
	if pct(t, 70) {
		p.Prev = genJOps(t, 1+t.N(8))
	}
	if pct(t, 70) {
		p.Next = genJOps(t, 1+t.N(8))
	}
	for n := 1 + t.N(6); n > 0; n-- {
		p.Steps = append(p.Steps, t.N(1000))
	}
	return p
}

type template struct {
	name string
	f    func(a *asm, r *rt.Rng) bool // false: not possible here
}

func (a *asm) add(ops []JOp, ts []template) {
	for _, o := range ops {
		t := ts[abs(o.N)%len(ts)]
		if t.f(a, rt.NewRng(o.S)) {
			a.names = append(a.names, t.name)
		}
	}
}

func jitFunc(addr uintptr) jitFn {
	obj := &struct{ code uintptr }{addr}
	return *(*jitFn)(unsafe.Pointer(&obj))
}

type jitRes struct {
	a, b int64
	x    uint64
}

type jitArgs struct {
	a, b, c, d int64
	x, y       float64
}

func genJitArgs(r *rt.Rng) jitArgs {
	n := func() int64 {
		if r.N(3) == 0 {
			return int64(r.N(9)) - 4
		}
		return int64(r.U64())
	}
	f := func() float64 {
		switch r.N(4) {
		case 0:
			return math.Float64frombits(r.U64())
		case 1:
			return 0
		}
		return float64(n()) / 16
	}
	return jitArgs{n(), n(), n(), n(), f(), f()}
}

func (g jitArgs) call(f jitFn) jitRes {
	a, b, x := f(g.a, g.b, g.c, g.d, g.x, g.y)
	return jitRes{a, b, math.Float64bits(x)}
}

func (g jitArgs) same(h jitArgs) bool {
	return g.a == h.a && g.b == h.b && g.c == h.c && g.d == h.d && math.Float64bits(g.x) == math.Float64bits(h.x) && math.Float64bits(g.y) == math.Float64bits(h.y)
}

type jitCase struct {
	st      map[string]int
	f       jitFn
	at      int // offset of the code in mem
	mem     []byte
	base    uintptr
	image   []byte
	perms   []string
	args    []jitArgs
	ref     []jitRes
	cut     int
	code    *asm
	nb      []jitFn
	nbRef   [][]jitRes
	fail    *failure
	protect []int
}

func (c *jitCase) failf(f string, a ...interface{}) {
	if c.fail == nil {
		c.fail = &failure{"jit", fmt.Sprintf(f, a...) + fmt.Sprintf(" [%x at page offset %x: %v]", c.code.b, c.at%int(pageSize), c.code.names)}
	}
}

func jitRun(plan string, verb bool) (*failure, map[string]int) {
	var p JPlan
	if json.Unmarshal([]byte(plan), &p) != nil || len(p.Steps) == 0 {
		return nil, nil
	}
	c := &jitCase{st: map[string]int{}}
	done := make(chan struct{})
	go func() {
		defer close(done)
		rt.Grow()
		if pan := safely(func() { c.run(&p, verb) }); pan != nil && c.fail == nil {
			c.failf("unexpected panic: %v", pan)
		}
		mockey.UnPatchAll()
	}()
	<-done
	if c.mem != nil {
		syscall.Munmap(c.mem)
	}
	return c.fail, c.st
}

func (c *jitCase) run(p *JPlan, verb bool) {
	ps := int(pageSize)
	var prev, next *asm
	c.code = assemble(p.Ops, p.Tail, !p.Short)
	mem, err := syscall.Mmap(-1, 0, 4*ps, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		return
	}
	c.mem = mem
	c.base = uintptr(unsafe.Pointer(&mem[0]))
	for i := range mem {
		mem[i] = 0xcc
	}
	c.at = (2*ps + p.Off%2000) &^ (jitAlign - 1)
	copy(mem[c.at:], c.code.b)
	lo, hi := c.at, c.at+len(c.code.b)
	gap := (abs(p.Gap) + jitAlign - 1) &^ (jitAlign - 1)
	ret := len(c.code.b) - jitRet // where it returns
	if p.Short && ret < branchLen+4 {
		gap = branchLen + 20 // MockUnsafe overwrites what follows
	}
	if prev = nil; len(p.Prev) > 0 {
		prev = assemble(p.Prev, nil, true)
		lo -= len(prev.b)
		copy(mem[lo:], prev.b)
		c.nb = append(c.nb, jitFunc(c.base+uintptr(lo)))
	}
	if len(p.Next) > 0 {
		next = assemble(p.Next, nil, true)
		hi += gap % 64
		c.nb = append(c.nb, jitFunc(c.base+uintptr(hi)))
		hi += copy(mem[hi:], next.b)
	}
	for _, b := range c.code.bounds {
		if b >= branchLen {
			c.cut = b
			break
		}
	}
	if c.cut == 0 {
		c.cut = max(len(c.code.b), branchLen)
	}
	for i := 0; i < 4; i++ {
		prot := syscall.PROT_READ | syscall.PROT_EXEC
		if p.RO>>i&1 != 0 && (hi+64 <= i*ps || lo >= (i+1)*ps) {
			prot = syscall.PROT_READ
		}
		c.protect = append(c.protect, prot)
		syscall.Mprotect(mem[i*ps:(i+1)*ps], prot)
	}
	c.image = append([]byte{}, mem...)
	c.perms = c.mapped()
	c.f = jitFunc(c.base + uintptr(c.at))
	if verb {
		fmt.Printf("%x at +%x: %v, boundaries %v\n", c.code.b, c.at, c.code.names, c.code.bounds)
	}
	r := rt.NewRng(p.S)
	for i := 0; i < 4; i++ {
		g := genJitArgs(r)
		c.args = append(c.args, g)
		c.ref = append(c.ref, g.call(c.f))
	}
	for _, f := range c.nb {
		var rs []jitRes
		for _, g := range c.args {
			rs = append(rs, g.call(f))
		}
		c.nbRef = append(c.nbRef, rs)
	}
	if c.at%ps+c.cut > ps {
		c.st["cut crosses pages"]++
	} else if c.at%ps+branchLen > ps {
		c.st["branch crosses pages"]++
	}
	c.st[fmt.Sprint("cut:", c.cut)]++
	var stop, busy int32
	var wrong atomic.Value
	if p.Busy && len(c.nb) > 0 {
		c.st["busy"]++
		ready := make(chan struct{})
		end := make(chan struct{})
		go func() {
			defer close(end)
			rt.Grow()
			close(ready)
			for k := 0; atomic.LoadInt32(&stop) == 0; k++ {
				i, j := k%len(c.nb), k%len(c.args)
				if got := c.args[j].call(c.nb[i]); got != c.nbRef[i][j] {
					wrong.Store(fmt.Sprintf("a neighbour, called all the time, returned %v instead of %v", got, c.nbRef[i][j]))
					return
				}
				atomic.AddInt32(&busy, 1)
				if k%64 == 0 {
					runtime.Gosched()
				}
			}
		}()
		<-ready
		defer func() {
			atomic.StoreInt32(&stop, 1)
			<-end
			if w := wrong.Load(); w != nil {
				c.failf("%s", w)
			}
		}()
	}
	short := p.Short && ret < branchLen
	if short && ret+jitRet == branchLen {
		return // the branch would just fit: both ways are right
	}
	if short {
		c.st["short"]++
		pan := safely(func() { mockey.Mock(c.f).Return(int64(1), int64(2), float64(3)).Build() })
		if pan == nil {
			c.failf("Mock of a function returning after %d bytes was accepted", ret)
			return
		}
		c.check("refused", false)
	}
	for i, s := range p.Steps {
		if c.fail != nil {
			return
		}
		c.mock(s, short, r, i)
	}
}

// mapped is the permissions of the pages.
func (c *jitCase) mapped() []string {
	out := make([]string, 4)
	b, err := os.ReadFile("/proc/self/maps")
	if err != nil {
		panic(err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 3)
		lh := strings.Split(f[0], "-")
		if len(lh) != 2 {
			continue
		}
		lo, _ := strconv.ParseUint(lh[0], 16, 64)
		hi, _ := strconv.ParseUint(lh[1], 16, 64)
		m := mapping{lo: uintptr(lo), hi: uintptr(hi), perm: f[1]}
		for i := range out {
			if a := c.base + uintptr(i)*pageSize; m.lo <= a && a < m.hi {
				out[i] = m.perm[:3]
			}
		}
	}
	return out
}

func (c *jitCase) check(when string, mocked bool) {
	if c.fail != nil {
		return
	}
	end := c.at
	if mocked {
		end += c.cut
	}
	for i := range c.mem {
		if bytes.Equal(c.mem[:c.at], c.image[:c.at]) && bytes.Equal(c.mem[end:], c.image[end:]) {
			break
		}
		if c.mem[i] != c.image[i] && (i < c.at || i >= end) {
			c.failf("%s: byte %d (relative to the entry) is %02x instead of %02x", when, i-c.at, c.mem[i], c.image[i])
			return
		}
	}
	if p := c.mapped(); fmt.Sprint(p) != fmt.Sprint(c.perms) {
		c.failf("%s: the pages are %v, they were %v", when, p, c.perms)
	}
	for i, f := range c.nb {
		for j, g := range c.args {
			if got := g.call(f); got != c.nbRef[i][j] {
				c.failf("%s: a neighbour returned %v instead of %v", when, got, c.nbRef[i][j])
				return
			}
		}
	}
	c.st["checked"]++
}

func (c *jitCase) original(when string) {
	for j, g := range c.args {
		if got := g.call(c.f); got != c.ref[j] && c.fail == nil {
			c.failf("%s: the function returned %v for %v instead of %v", when, got, g, c.ref[j])
		}
	}
}

// mock mocks the function in the way s says.
func (c *jitCase) mock(s int, short bool, r *rt.Rng, step int) {
	s = abs(s)
	var got jitArgs
	ran := 0
	want := jitRes{int64(r.U64()), int64(r.U64()), math.Float64bits(float64(r.N(1000)) / 8)}
	var orig jitFn
	inner := -1
	var innerRes jitRes
	hook := func(a, b, cc, d int64, x, y float64) (int64, int64, float64) {
		got = jitArgs{a, b, cc, d, x, y}
		ran++
		if inner >= 0 {
			innerRes = c.args[inner].call(orig)
		}
		return want.a, want.b, math.Float64frombits(want.x)
	}
	b := mockey.Mock(c.f)
	if short || s&64 != 0 {
		b = mockey.MockUnsafe(c.f)
	}
	pass := false
	mode := s % 4
	if short && mode != 3 { // the original of a function cut behind its end is not reachable in general
		mode = 0
	}
	switch mode {
	case 1:
		b.When(func(a, b, cc, d int64, x, y float64) bool { return pass }).To(hook)
	case 2:
		b.Origin(&orig).To(hook)
	default:
		b.To(hook)
	}
	m := b.Build()
	c.st["mocked"]++
	c.check("mocked", true)
	for round := 0; round < 2 && c.fail == nil; round++ {
		for j, g := range c.args {
			pass = (s>>3+j)&1 != 0
			if mode == 2 {
				inner = (j + s>>4) % len(c.args)
			}
			ran = 0
			res := g.call(c.f)
			if mode == 1 && !pass {
				c.st["original"]++
				if ran != 0 {
					c.failf("the hook ran although its condition is false")
				} else if res != c.ref[j] {
					c.failf("the original, called through the mock, returned %v for %v instead of %v", res, g, c.ref[j])
				}
				continue
			}
			if ran != 1 || !got.same(g) || res != want {
				c.failf("the hook ran %d times, with %v instead of %v, and the caller got %v instead of %v", ran, got, g, res, want)
				return
			}
			if inner >= 0 {
				c.st["original"]++
				if innerRes != c.ref[inner] {
					c.failf("the origin function returned %v for %v instead of %v", innerRes, c.args[inner], c.ref[inner])
					return
				}
			}
		}
		if s&32 != 0 && round == 0 {
			m.UnPatch()
			c.check("unpatched", false)
			c.original("unpatched")
			m.Patch()
			c.check("patched again", true)
		} else if s&128 != 0 && round == 0 {
			runtime.GC()
		}
	}
	m.UnPatch()
	c.check("released", false)
	c.original("released")
}

func init() {
	properties["C16"] = &property{
		gen: func(seed int) string {
			b, _ := json.Marshal(genJPlan(rt.NewRng(uint64(seed))))
			return string(b)
		},
		run:        jitRun,
		nontrivial: func(s map[string]int) bool { return s["original"]+s["short"] > 0 },
	}
}
