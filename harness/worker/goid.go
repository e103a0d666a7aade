package main

import (
	"encoding/json"
	"fmt"
	"runtime"
	"sync"
	"time"

	"github.com/bytedance/mockey"

	"verifharness/rt"
)

// Engine of C07 for GetGoroutineId: trees of goroutines started in many ways, with ids of any magnitude, compare it with
// the id that the runtime prints.

type GNode struct {
	W int     `json:"w,omitempty"` // what it does between its reads
	N int     `json:"n,omitempty"` // how many reads
	M int     `json:"m,omitempty"` // how it is started
	B []GNode `json:"b,omitempty"`
}

type GPlan struct {
	J uint64  `json:"j,omitempty"` // ids start from here
	R []GNode `json:"r"`
}

func genGNode(t *rt.Rng, d int) GNode {
	n := GNode{W: t.N(8), N: 1 + t.N(4), M: t.N(5)}
	if d < 4 {
		for i := t.N(4); i > 0; i-- {
			n.B = append(n.B, genGNode(t, d+1))
		}
	}
	return n
}

type goidRun struct {
	mu    sync.Mutex
	seen  map[int64]bool
	bad   string
	reads int
	max   int64
}

func (g *goidRun) read(where string) int64 {
	a, b := mockey.GetGoroutineId(), rt.StackGID()
	g.mu.Lock()
	g.reads++
	g.max = max(g.max, b)
	if a != b && g.bad == "" {
		g.bad = fmt.Sprintf("GetGoroutineId returned %d on goroutine %d (%s)", a, b, where)
	}
	g.mu.Unlock()
	return a
}

func (g *goidRun) node(n *GNode, depth int) {
	if depth > 0 {
		id := mockey.GetGoroutineId()
		g.mu.Lock()
		if g.seen[id] && g.bad == "" {
			g.bad = fmt.Sprintf("two goroutines got the id %d", id)
		}
		g.seen[id] = true
		g.mu.Unlock()
	}
	g.read("start")
	var wg sync.WaitGroup
	for i := range n.B {
		c := &n.B[i]
		wg.Add(1)
		f := func() { defer wg.Done(); g.node(c, depth+1) }
		switch c.M {
		case 1:
			time.AfterFunc(time.Microsecond, f)
		case 2:
			go func() {
				defer f()
				runtime.Goexit()
			}()
		case 3:
			go func() {
				defer func() { recover(); f() }()
				panic(1)
			}()
		case 4:
			var once sync.Once
			go once.Do(f)
		default:
			go f()
		}
	}
	for i := 0; i < n.N; i++ {
		switch n.W {
		case 1:
			runtime.Gosched()
		case 2:
			time.Sleep(time.Microsecond)
		case 3:
			runtime.LockOSThread()
			runtime.Gosched()
		case 4:
			rt.Grow()
		case 5:
			if i == 0 && depth < 2 {
				runtime.GC()
			}
		case 6:
			ch := make(chan int)
			go func() { ch <- int(g.read("helper")) }()
			<-ch
		case 7:
			s := 0
			for k := 0; k < 100000; k++ {
				s += k
			}
			_ = s
		}
		g.read(fmt.Sprint("after activity ", n.W))
		if n.W == 3 {
			g.read("locked")
			runtime.UnlockOSThread()
		}
	}
	wg.Wait()
	g.read("end")
}

func genJump(t *rt.Rng) uint64 {
	if pct(t, 40) {
		return 0
	}
	return 100000 + 1<<(17+t.N(45)) - uint64(t.N(64))
}

func init() {
	properties["C07g"] = &property{
		gen: func(seed int) string {
			t := rt.NewRng(uint64(seed))
			p := GPlan{J: genJump(t)}
			for i := 1 + t.N(4); i > 0; i-- {
				p.R = append(p.R, genGNode(t, 1))
			}
			b, _ := json.Marshal(p)
			return string(b)
		},
		run: func(plan string, verb bool) (*failure, map[string]int) {
			var p GPlan
			if json.Unmarshal([]byte(plan), &p) != nil {
				return nil, nil
			}
			if p.J > 0 {
				runtime.VerifSetGoid(p.J)
			}
			g := &goidRun{seen: map[int64]bool{}}
			g.node(&GNode{B: p.R, N: 2}, 0)
			st := map[string]int{"goroutines": len(g.seen), "reads": g.reads}
			if g.max > 1<<32 {
				st["id>2^32"] = 1
			}
			if g.bad != "" {
				return &failure{"goid", g.bad}, st
			}
			return nil, st
		},
		nontrivial: func(s map[string]int) bool { return s["goroutines"] > 1 },
	}
}
