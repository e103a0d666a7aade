package main

import (
	"encoding/json"
	"fmt"
	"runtime"
	"strings"

	"github.com/bytedance/mockey"
	"github.com/smartystreets/goconvey/convey"

	"verifharness/rt"
)

// Differential engine of C03: a generated tree of convey scopes is run once with convey.Convey and once with
// mockey.PatchConvey, and the two executions must be the same: which bodies run, in which order, how often, which failures
// and errors the test gets. In the second one, functions are mocked in the scopes, and every call must be answered by the
// innermost mock of the scopes that are running at that time.

type CNode struct {
	N string  `json:"n"`           // name
	P bool    `json:"p,omitempty"` // PatchConvey, else plain Convey in both
	C bool    `json:"c,omitempty"` // the body takes convey.C
	M int     `json:"m,omitempty"` // failure mode argument
	A int     `json:"a,omitempty"` // action: 0 function, 1 nil, 2 of a wrong type, 3 a test argument too many (or missing)
	B []CStep `json:"b,omitempty"`
}

type CStep struct {
	K string `json:"k"`
	S *CNode `json:"s,omitempty"`
	F int    `json:"f,omitempty"`
}

type CPlan struct {
	R []CNode `json:"r"`
	W int     `json:"w,omitempty"` // mocks outside of the scopes
}

func genCNode(t *rt.Rng, depth int, name string) CNode {
	n := CNode{N: name, P: pct(t, 75), C: pct(t, 30)}
	if pct(t, 25) {
		n.M = 1 + t.N(3)
	}
	if pct(t, 4) {
		n.A = 1 + t.N(3)
	}
	kids := 0
	for i := t.N(7); i > 0; i-- {
		s := CStep{F: t.N(3)}
		switch w := t.N(100); {
		case w < 40 && depth < 4:
			kids++
			nm := fmt.Sprint("c", kids)
			if pct(t, 3) && kids > 1 {
				nm = fmt.Sprint("c", kids-1)
			}
			c := genCNode(t, depth+1, nm)
			s.K, s.S = "child", &c
		case w < 60:
			s.K = "mock"
		case w < 75:
			s.K = "call"
		case w < 79:
			s.K = "unall"
		case w < 84:
			s.K = "ok"
		case w < 88:
			s.K = "fail"
		case w < 91:
			s.K = "panic"
		case w < 92:
			s.K = "goexit"
		case w < 95:
			s.K = "reset"
		case w < 97:
			s.K = "skip"
		default:
			s.K = "helper"
		}
		n.B = append(n.B, s)
	}
	return n
}

func genCPlan(t *rt.Rng) CPlan {
	p := CPlan{W: t.N(8)}
	for i := 1 + t.N(2); i > 0; i-- {
		n := genCNode(t, 0, "root")
		if pct(t, 70) {
			n.P = true
		}
		p.R = append(p.R, n)
	}
	return p
}

// the functions mocked in the scopes
func convA(x int) int { return convSink(x, 1) }
func convB(x int) int { return convSink(x, 2) }
func convC(x int) int { return convSink(x, 3) }

func convSink(x, f int) int {
	s := 0
	for i := 0; i < 3; i++ {
		s += x * f
	}
	return -s - 1
}

var convFs = []func(int) int{convA, convB, convC}

type convRun struct {
	patch  bool
	trace  []string
	ft     fakeT
	stack  []map[int]int // the mocks in force by scope, outside first (the model)
	n      int
	depth  int
	bad    string
	mocked int
	nested int
	steps  int
}

func (c *convRun) t(f string, a ...interface{}) {
	if len(c.trace) < 5000 {
		c.trace = append(c.trace, fmt.Sprintf(f, a...))
	}
}

func (c *convRun) check(f int, when string) {
	want := -3*7*(f+1) - 1
	for i := len(c.stack) - 1; i >= 0; i-- {
		if v, ok := c.stack[i][f]; ok {
			want = v
			break
		}
	}
	if got := convFs[f](7); got != want && c.bad == "" {
		c.bad = fmt.Sprintf("%s: function %d returned %d instead of %d; so far: %s", when, f, got, want, strings.Join(c.trace, " "))
	}
}

func (c *convRun) checkAll(when string) {
	for f := range convFs {
		c.check(f, when)
	}
}

// scope runs one node.
func (c *convRun) scope(n *CNode, root bool) {
	pat := n.P && c.patch
	body := func(cc convey.C) {
		if pat {
			c.stack = append(c.stack, map[int]int{})
			c.nested = max(c.nested, len(c.stack)-1)
			defer func() { c.stack = c.stack[:len(c.stack)-1] }()
		}
		c.t("(%s", n.N)
		defer c.t("%s)", n.N)
		c.checkAll("on entry of " + n.N)
		for i := range n.B {
			c.steps++
			if c.steps > 3000 {
				return
			}
			c.step(n, &n.B[i], cc)
		}
		c.checkAll("before the end of " + n.N)
	}
	items := []interface{}{n.N}
	if root != (n.A == 3) {
		items = append(items, &c.ft)
	}
	switch n.M {
	case 1:
		items = append(items, convey.FailureHalts)
	case 2:
		items = append(items, convey.FailureContinues)
	case 3:
		items = append(items, convey.FailureInherits, convey.StackFail)
	}
	switch {
	case n.A == 1:
		items = append(items, nil)
	case n.A == 2:
		items = append(items, func(int) { body(nil) })
	case n.C:
		items = append(items, func(cc convey.C) { body(cc) })
	default:
		items = append(items, func() { body(nil) })
	}
	if pat {
		mockey.PatchConvey(items...)
	} else {
		convey.Convey(items...)
	}
	c.checkAll("after " + n.N)
}

func (c *convRun) step(n *CNode, s *CStep, cc convey.C) {
	so := convey.So
	if cc != nil {
		so = cc.So
	}
	switch s.K {
	case "child":
		c.scope(s.S, false)
	case "mock":
		if !c.patch {
			return
		}
		top := c.stack[len(c.stack)-1]
		if _, ok := top[s.F]; ok {
			return
		}
		c.n++
		c.mocked++
		mockey.Mock(convFs[s.F]).Return(c.n).Build()
		top[s.F] = c.n
		c.check(s.F, "after mocking")
	case "call":
		c.check(s.F, "call")
	case "unall":
		if c.patch {
			mockey.UnPatchAll()
			c.stack[len(c.stack)-1] = map[int]int{}
			c.checkAll("after UnPatchAll")
		}
	case "ok":
		so(1, convey.ShouldEqual, 1)
		c.t("ok")
	case "fail":
		c.t("fail?")
		so(1, convey.ShouldEqual, 2)
		c.t("go on")
	case "panic":
		c.t("panic")
		if s.F == 0 {
			panic(fmt.Sprint("panic of ", n.N))
		}
		if s.F == 1 {
			var m map[int]int
			m[1] = 2
		}
		panic(&panicTok{s.F})
	case "goexit":
		c.t("goexit")
		runtime.Goexit()
	case "reset":
		convey.Reset(func() { c.t("reset of %s", n.N) })
	case "skip":
		convey.SkipConvey(fmt.Sprint("skipped", s.F), func() { c.t("skipped body runs") })
		c.t("skip")
	case "helper":
		// an assertion by another goroutine can only be made through C
		if cc != nil {
			rt.Go(func() { cc.So(1, convey.ShouldEqual, 1) })
			c.t("helper")
		}
	}
}

func (c *convRun) all(p *CPlan) {
	if c.patch {
		top := map[int]int{}
		c.stack = append(c.stack, top)
		for f := range convFs {
			if p.W>>f&1 == 1 {
				c.n++
				mockey.Mock(convFs[f]).Return(c.n).Build()
				top[f] = c.n
			}
		}
	}
	for i := range p.R {
		done := make(chan struct{})
		go func() {
			defer close(done)
			rt.Grow()
			defer func() {
				if e := recover(); e != nil {
					c.t("root panics: %T %v", e, e)
				}
			}()
			c.scope(&p.R[i], true)
			c.t("root returns")
		}()
		<-done
		c.checkAll("after the root scope")
	}
	if c.patch {
		mockey.UnPatchAll()
		c.stack = []map[int]int{{}}
		c.checkAll("after the final UnPatchAll")
	}
}

func runCPlan(plan string, verb bool) (*failure, map[string]int) {
	var p CPlan
	if json.Unmarshal([]byte(plan), &p) != nil {
		return nil, nil
	}
	st := map[string]int{}
	a := &convRun{stack: []map[int]int{{}}}
	a.all(&p)
	b := &convRun{patch: true}
	b.all(&p)
	st["mocked"] = b.mocked
	st["nesting"] = b.nested
	st["events"] = len(a.trace)
	for _, s := range a.trace {
		for _, k := range []string{"panic", "goexit", "fail?", "reset of", "root panics"} {
			if strings.HasPrefix(s, k) {
				st[k]++
			}
		}
	}
	if verb {
		fmt.Println(a.ft.fails, a.trace)
		fmt.Println(b.ft.fails, b.trace)
	}
	ta, tb := strings.Join(a.trace, " "), strings.Join(b.trace, " ")
	if ta != tb {
		return &failure{"order", fmt.Sprintf("convey.Convey: %s\nPatchConvey:   %s", ta, tb)}, st
	}
	if a.ft.fails != b.ft.fails {
		return &failure{"fails", fmt.Sprintf("the test failed %d times with convey.Convey, %d times with PatchConvey: %s", a.ft.fails, b.ft.fails, ta)}, st
	}
	if b.bad != "" {
		return &failure{"result", b.bad}, st
	}
	if a.bad != "" {
		return &failure{"result", "without mocks: " + a.bad}, st
	}
	return nil, st
}

func init() {
	properties["C03d"] = &property{
		gen: func(seed int) string {
			b, _ := json.Marshal(genCPlan(rt.NewRng(uint64(seed))))
			return string(b)
		},
		run:        runCPlan,
		nontrivial: func(s map[string]int) bool { return s["mocked"] > 0 && s["nesting"] > 0 },
	}
}
