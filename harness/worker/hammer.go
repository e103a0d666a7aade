package main

import (
	"encoding/json"
	"fmt"
	"io"
	"runtime"
	"runtime/pprof"
	"sync"
	"sync/atomic"

	"github.com/bytedance/mockey"

	"verifharness/rt"
)

// Engine of C06, C08 and C17 for contention: several goroutines call one mocked function in a tight loop with arguments
// that decide which condition applies, so that what each call returns, how often each value of a sequence is handed out
// and what is counted follow from the arguments alone.

type HCond struct {
	When int   `json:"w,omitempty"` // 0 none, else the argument modulo 4 must be when-1
	Kind int   `json:"k,omitempty"` // 0 To, 1 Return, 2 Return(Sequence), 3 none, 4 To with a panic, 5 To calling the original
	T    []int `json:"t,omitempty"` // Times of the values of the sequence, 0: no Times
}

type HPlan struct {
	Tgt   int     `json:"tgt,omitempty"`
	Conds []HCond `json:"c"`
	Filt  int     `json:"f,omitempty"` // 0 none, 1 IncludeCurrentGoRoutine, 2 ExcludeCurrentGoRoutine
	G     int     `json:"g"`
	N     int     `json:"n"`
	Mut   int     `json:"m,omitempty"` // meanwhile: 1 another function is mocked and released, 2 GC, 4 stack traces of all goroutines, 8 CPU profile
	Yield int     `json:"y,omitempty"`
	Round int     `json:"r,omitempty"` // further rounds; the mock is patched again before each
	NoO   bool    `json:"o,omitempty"` // no origin function
	Seed  uint64  `json:"s"`
}

type hamT struct{ k int }

//go:noinline
func hamFunc(a int) int { return a*3 + 1 }

//go:noinline
func (h *hamT) Ptr(a int) int { return a*3 + 1 + 0*h.k }

//go:noinline
func (h hamT) Val(a int) int { return a*3 + 1 + 0*h.k }

//go:noinline
func hamVar(a int, rest ...string) (int, error) { hamKeep(rest); return a*3 + 1, nil }

//go:noinline
func hamGen[T any](a int, t T) int { var x T; _, _ = x, t; return a*3 + 1 }

//go:noinline
func hamWide(a int, b string, c [4]int64, d float64, e interface{}) (int, string) {
	return a*3 + 1 + 0*int(c[1]) + 0*int(d), b
}

//go:noinline
func hamOther(a int) int { return a + 1 }

var hamKept atomic.Value

// hamKeep makes its argument escape: what a hook gets is kept in the heap by reflect.
func hamKeep(x []string) { hamKept.Store(x) }

type hamTarget struct {
	name   string
	mock   func() *mockey.MockBuilder
	origin func(b *mockey.MockBuilder) func(a int) int
	hook   func(f func(int) int) interface{}
	when   func(f func(int) bool) interface{}
	ret    func(v int) []interface{}
	call   func(a int) int
}

var ham = &hamT{5}

var hamTargets = []hamTarget{
	{"function", func() *mockey.MockBuilder { return mockey.Mock(hamFunc) },
		func(b *mockey.MockBuilder) func(int) int {
			var o func(int) int
			b.Origin(&o)
			return func(a int) int { return o(a) }
		},
		func(f func(int) int) interface{} { return f }, func(f func(int) bool) interface{} { return f },
		func(v int) []interface{} { return []interface{}{v} }, func(a int) int { return hamFunc(a) }},
	{"pointer method", func() *mockey.MockBuilder { return mockey.Mock((*hamT).Ptr) },
		func(b *mockey.MockBuilder) func(int) int {
			var o func(*hamT, int) int
			b.Origin(&o)
			return func(a int) int { return o(ham, a) }
		},
		func(f func(int) int) interface{} { return func(_ *hamT, a int) int { return f(a) } },
		func(f func(int) bool) interface{} { return f },
		func(v int) []interface{} { return []interface{}{v} }, func(a int) int { return ham.Ptr(a) }},
	{"value method", func() *mockey.MockBuilder { return mockey.Mock(hamT.Val) },
		func(b *mockey.MockBuilder) func(int) int {
			var o func(hamT, int) int
			b.Origin(&o)
			return func(a int) int { return o(*ham, a) }
		},
		func(f func(int) int) interface{} { return f },
		func(f func(int) bool) interface{} { return func(_ hamT, a int) bool { return f(a) } },
		func(v int) []interface{} { return []interface{}{v} }, func(a int) int { return (*ham).Val(a) }},
	{"variadic function", func() *mockey.MockBuilder { return mockey.Mock(hamVar) },
		func(b *mockey.MockBuilder) func(int) int {
			var o func(int, ...string) (int, error)
			b.Origin(&o)
			return func(a int) int { r, _ := o(a, "x"); return r }
		},
		func(f func(int) int) interface{} { return func(a int, _ ...string) (int, error) { return f(a), nil } },
		func(f func(int) bool) interface{} { return func(a int, _ ...string) bool { return f(a) } },
		func(v int) []interface{} { return []interface{}{v, nil} }, func(a int) int { r, _ := hamVar(a, "x", "y"); return r }},
	{"generic function", func() *mockey.MockBuilder { return mockey.MockGeneric(hamGen[string]) },
		func(b *mockey.MockBuilder) func(int) int {
			var o func(int, string) int
			b.Origin(&o)
			return func(a int) int { return o(a, "t") }
		},
		func(f func(int) int) interface{} {
			return func(_ mockey.GenericInfo, a int, _ string) int { return f(a) }
		},
		func(f func(int) bool) interface{} { return func(a int, _ string) bool { return f(a) } },
		func(v int) []interface{} { return []interface{}{v} }, func(a int) int { return hamGen(a, "t") }},
	{"function with many parameters", func() *mockey.MockBuilder { return mockey.Mock(hamWide) },
		func(b *mockey.MockBuilder) func(int) int {
			var o func(int, string, [4]int64, float64, interface{}) (int, string)
			b.Origin(&o)
			return func(a int) int { r, _ := o(a, "s", [4]int64{1, 2}, 2.5, a); return r }
		},
		func(f func(int) int) interface{} {
			return func(a int, b string, _ [4]int64, _ float64, _ interface{}) (int, string) { return f(a), b }
		},
		func(f func(int) bool) interface{} {
			return func(a int, _ string, _ [4]int64, _ float64, _ interface{}) bool { return f(a) }
		},
		func(v int) []interface{} { return []interface{}{v, "r"} }, func(a int) int { r, _ := hamWide(a, "s", [4]int64{3}, 1, nil); return r }},
}

type hamPanic struct{ a int }

type hammer struct {
	p     HPlan
	mu    sync.Mutex
	bad   string
	execs []int64         // of each To, counted by the hook
	seq   []map[int]int64 // of each sequence, the values handed out
	o     func(int) int   // the original
	seqs  [][]int         // one round of each sequence
	pos   []int64         // calls of each sequence before this round
	stats map[string]int
}

func (h *hammer) fail(f string, a ...interface{}) {
	h.mu.Lock()
	if h.bad == "" {
		h.bad = fmt.Sprintf(f, a...)
	}
	h.mu.Unlock()
}

func seqValue(cond, i int) int { return 1000000 + cond*1000 + i }

// expected is the condition that answers a call with this argument, -1 for none.
func (h *hammer) expected(a int, first bool) int {
	if h.p.Filt == 1 && !first || h.p.Filt == 2 && first {
		return -1
	}
	for i, c := range h.p.Conds {
		if c.When == 0 || a%4 == c.When-1 {
			if c.Kind == 3 {
				return -1
			}
			return i
		}
	}
	return -1
}

func (h *hammer) run() {
	p := &h.p
	t := hamTargets[p.Tgt%len(hamTargets)]
	b := t.mock()
	if !p.NoO {
		h.o = t.origin(b)
	}
	h.execs = make([]int64, len(p.Conds))
	h.seqs = make([][]int, len(p.Conds))
	h.pos = make([]int64, len(p.Conds))
	for i, c := range p.Conds {
		if c.When > 0 {
			b.When(t.when(func(a int) bool { return a%4 == c.When-1 }))
		}
		switch c.Kind {
		case 0:
			b.To(t.hook(func(a int) int { atomic.AddInt64(&h.execs[i], 1); return -a - i - 10 }))
		case 1:
			b.Return(t.ret(-i - 10000)...)
		case 2:
			s := mockey.Sequence(t.ret(seqValue(i, 0))...)
			for j, n := range c.T {
				v := t.ret(seqValue(i, j))
				if j > 0 {
					s = s.Then(v...)
				}
				if n > 0 {
					s = s.Times(n)
				}
				for k := max(n, 1); k > 0; k-- {
					h.seqs[i] = append(h.seqs[i], j)
				}
			}
			b.Return(s)
		case 4:
			b.To(t.hook(func(a int) int { atomic.AddInt64(&h.execs[i], 1); panic(hamPanic{a}) }))
		case 5:
			b.To(t.hook(func(a int) int { atomic.AddInt64(&h.execs[i], 1); return h.o(a) - 7 }))
		}
	}
	switch p.Filt {
	case 1:
		b.IncludeCurrentGoRoutine()
	case 2:
		b.ExcludeCurrentGoRoutine()
	}
	m := b.Build()
	defer m.UnPatch()
	for r := 0; r <= p.Round && h.bad == ""; r++ {
		if r > 0 {
			m.UnPatch()
			if m.Times() != 0 || m.MockTimes() != 0 {
				h.fail("after UnPatch: Times %d MockTimes %d", m.Times(), m.MockTimes())
				return
			}
			if x := t.call(8); x != 25 {
				h.fail("unpatched %s returned %d, expected 25", t.name, x)
				return
			}
			m.Patch()
		}
		h.round(t, m, r)
	}
}

func (h *hammer) round(t hamTarget, m *mockey.Mocker, r int) {
	p := &h.p
	mocked := make([]int64, p.G)
	wantExec := make([][]int64, p.G)
	got := make([]map[int]int64, p.G)
	for i := range h.execs {
		h.execs[i] = 0
	}
	var ready int32
	var wg sync.WaitGroup
	body := func(g int) {
		rng := rt.NewRng(p.Seed, uint64(r), uint64(g))
		wantExec[g] = make([]int64, len(p.Conds))
		got[g] = map[int]int64{}
		args := make([]int, p.N)
		for i := range args {
			args[i] = rng.N(64)
		}
		atomic.AddInt32(&ready, 1)
		for atomic.LoadInt32(&ready) < int32(p.G) {
			runtime.Gosched()
		}
		one := func(a int) (res int, pan interface{}) {
			defer func() { pan = recover() }()
			return t.call(a), nil
		}
		for i, a := range args {
			if p.Yield > 0 && i%(p.Yield*8) == 0 {
				runtime.Gosched()
			}
			res, pan := one(a)
			c := h.expected(a, g == 0)
			want := a*3 + 1
			if c >= 0 {
				mocked[g]++
				wantExec[g][c]++
				switch p.Conds[c].Kind {
				case 0:
					want = -a - c - 10
				case 1:
					want = -c - 10000
				case 2:
					if j := res - seqValue(c, 0); j < 0 || j >= len(p.Conds[c].T) || pan != nil {
						h.fail("%s(%d) on goroutine %d returned %d, panic %v, expected a value of the sequence of condition %d", t.name, a, g, res, pan, c)
						return
					}
					got[g][res]++
					continue
				case 4:
					if pan != (hamPanic{a}) {
						h.fail("%s(%d) on goroutine %d returned %d, panic %v, expected the panic of its hook", t.name, a, g, res, pan)
						return
					}
					continue
				case 5:
					want = a*3 + 1 - 7
				}
			}
			if pan != nil || res != want {
				h.fail("%s(%d) on goroutine %d returned %d, panic %v, expected %d (condition %d)", t.name, a, g, res, pan, want, c)
				return
			}
		}
	}
	for g := 1; g < p.G; g++ {
		wg.Add(1)
		go func() { defer wg.Done(); rt.Grow(); body(g) }()
	}
	stop := make(chan struct{})
	var aux sync.WaitGroup
	if p.Mut&8 != 0 {
		pprof.StartCPUProfile(io.Discard)
		defer pprof.StopCPUProfile()
	}
	if p.Mut&7 > 0 {
		aux.Add(1)
		go func() {
			defer aux.Done()
			rt.Grow()
			for i := 0; i < 100; i++ {
				select {
				case <-stop:
					return
				default:
				}
				if p.Mut&2 != 0 && i%16 == 0 {
					runtime.GC()
				}
				if p.Mut&4 != 0 {
					buf := make([]byte, 1<<16)
					if n := runtime.Stack(buf, true); n == 0 {
						h.fail("no stack traces")
					}
				}
				if p.Mut&1 != 0 {
					x := mockey.Mock(hamOther).Return(i).Build()
					if v := hamOther(1); v != i {
						h.fail("another mocked function returned %d, expected %d", v, i)
					}
					x.UnPatch()
					if v := hamOther(i); v != i+1 {
						h.fail("another function, unpatched, returned %d, expected %d", v, i+1)
					}
				}
			}
		}()
	}
	body(0)
	wg.Wait()
	close(stop)
	aux.Wait()
	if h.bad != "" {
		return
	}
	var times, mt int64
	exec := make([]int64, len(p.Conds))
	vals := map[int]int64{}
	for g := 0; g < p.G; g++ {
		times += int64(p.N)
		mt += mocked[g]
		for i := range exec {
			exec[i] += wantExec[g][i]
		}
		for v, n := range got[g] {
			vals[v] += n
		}
	}
	h.stats["calls"] += int(times)
	h.stats["mocked"] += int(mt)
	if m.Times() != int(times) || m.MockTimes() != int(mt) {
		h.fail("%s, %d goroutines: Times %d MockTimes %d, expected %d and %d", t.name, p.G, m.Times(), m.MockTimes(), times, mt)
		return
	}
	for i, c := range p.Conds {
		switch c.Kind {
		case 0, 4, 5:
			if h.execs[i] != exec[i] {
				h.fail("%s: hook %d ran %d times, expected %d", t.name, i, h.execs[i], exec[i])
				return
			}
		case 2:
			want := make([]int64, len(c.T))
			for k := int64(0); k < exec[i]; k++ {
				want[h.seqs[i][(h.pos[i]+k)%int64(len(h.seqs[i]))]]++
			}
			h.pos[i] += exec[i]
			h.stats["seq"]++
			for j, n := range want {
				if g := vals[seqValue(i, j)]; g != n {
					h.fail("%s: value %d of the sequence %v (%d calls) was handed out %d times, expected %d", t.name, j, c.T, exec[i], g, n)
					return
				}
			}
		}
	}
}

func init() {
	for id, seqPct := range map[string]int{"C06h": 15, "C08h": 70, "C17h": 25} {
		properties[id] = &property{
			gen: func(seed int) string {
				t := rt.NewRng(uint64(seed))
				p := HPlan{Tgt: t.N(len(hamTargets)), G: 2 + t.N(7), N: 50 + t.N(8)*60, Seed: t.U64() >> 12}
				for i := 1 + t.N(4); i > 0; i-- {
					c := HCond{When: t.N(5), Kind: []int{0, 0, 0, 1, 1, 3, 4, 5}[t.N(8)]}
					if i == 1 && pct(t, 50) {
						c.When = 0
					}
					if pct(t, seqPct) {
						c.Kind = 2
						for j := 1 + t.N(4); j > 0; j-- {
							c.T = append(c.T, t.N(5))
						}
					}
					// a condition without When ends the list, one without To and Return must be the last as well
					p.Conds = append(p.Conds, c)
					if c.When == 0 || c.Kind == 3 {
						break
					}
				}
				if l := &p.Conds[len(p.Conds)-1]; l.When == 0 && l.Kind == 3 {
					l.Kind = 0
				}
				if p.NoO = pct(t, 10) || id == "C17h" && p.Tgt == 4; p.NoO { // of a generic target, with the race detector: K5
					for i := range p.Conds {
						p.Conds[i].Kind %= 5
					}
				}
				if pct(t, 25) {
					p.Filt = 1 + t.N(2)
				}
				if pct(t, 25) || id == "C17h" {
					p.Mut = t.N(4)
					if k := t.N(200); k < 20 {
						p.Mut |= 4
					} else if k == 20 {
						p.Mut |= 8 // takes a fifth of a second
					}
				}
				if pct(t, 30) {
					p.Yield = 1 + t.N(4)
				}
				if pct(t, 30) {
					p.Round = 1 + t.N(2)
				}
				b, _ := json.Marshal(p)
				return string(b)
			},
			run: func(plan string, verb bool) (*failure, map[string]int) {
				var p HPlan
				if json.Unmarshal([]byte(plan), &p) != nil || p.G < 1 || p.N < 1 || len(p.Conds) == 0 {
					return nil, nil
				}
				for i, c := range p.Conds {
					if c.Kind == 2 && len(c.T) == 0 || c.Kind == 5 && p.NoO || c.Kind == 3 && c.When == 0 || (c.When == 0 || c.Kind == 3) && i < len(p.Conds)-1 {
						return nil, nil
					}
				}
				h := &hammer{p: p, stats: map[string]int{}}
				pan := safely(h.run)
				h.stats["tgt:"+hamTargets[p.Tgt%len(hamTargets)].name]++
				if h.bad == "" && pan != nil {
					h.bad = fmt.Sprintf("panic: %v", pan)
				}
				if h.bad != "" {
					return &failure{"hammer", h.bad}, h.stats
				}
				return nil, h.stats
			},
			nontrivial: func(s map[string]int) bool { return s["mocked"] > 0 },
		}
	}
}
