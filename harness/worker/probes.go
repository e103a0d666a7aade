package main

import (
	"fmt"
	"os"
	"runtime"
	"sync"
	"time"

	"github.com/bytedance/mockey"

	"verifharness/rt"
)

// The known findings, one fixed input each: known_findings.txt says what is wrong. A probe returns what it saw of the
// failure, or "". Each runs in its own process: several end in a crash.
var probes = map[string]func() string{
	"K1": probeK1, "K2": probeK2, "K3": probeK3, "K4": probeK4, "K5": probeK5, "K6": probeK6, "K7": probeK7, "K8": probeK8, "K9": probeK9,
}

func runProbe(id string) {
	if s := probes[id](); s != "" {
		fmt.Println("FAILS", s)
		os.Exit(10)
	}
	fmt.Println("HOLDS")
	os.Exit(0)
}

var k1v, k1w = 5555, 7777

func k1f() { k1v++; k1w++; k1v++ }

func probeK1() string {
	m := mockey.Mock(k1f).When(func() bool { return false }).Return().Build()
	defer m.UnPatch()
	k1f()
	if k1v != 5557 || k1w != 7778 {
		return fmt.Sprintf("the original incremented other memory than its variables (%d, %d)", k1v, k1w)
	}
	return ""
}

func probeK2() string {
	x := 5
	f := func() int { return x * x }
	m := mockey.Mock(f).When(func() bool { return false }).Return(0).Build()
	defer m.UnPatch()
	if r := f(); r != 25 {
		return fmt.Sprintf("the closure returned %d instead of 25", r)
	}
	return ""
}

type k3t struct{ n int }

func (k *k3t) Get() int { x := k.n; return x + 0 }

func probeK3() string {
	var orig func() int
	a, b := &k3t{1}, &k3t{2}
	m := mockey.Mock((*k3t).Get).Origin(&orig).To(func(k *k3t) int {
		if k == a {
			b.Get()
		}
		return orig()
	}).Build()
	defer m.UnPatch()
	if r := a.Get(); r != 1 {
		return fmt.Sprintf("origin() on a returned the value of b: %d", r)
	}
	return ""
}

func k4f(n int) int {
	var big [1 << 16]byte
	big[n] = byte(n)
	return int(big[n]) + n
}

func probeK4() string {
	m := mockey.Mock(k4f).When(func(int) bool { return false }).Return(0).Build()
	defer m.UnPatch()
	r := 0
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		r = k4f(7)
	}()
	wg.Wait()
	if r != 14 || m.Times() != 1 {
		return fmt.Sprintf("one call, result %d (instead of 14), counted %d times", r, m.Times())
	}
	return ""
}

// to be built with -race
func probeK5() string {
	var orig func() int
	a := &k3t{1}
	m := mockey.Mock((*k3t).Get).Origin(&orig).When(func() bool { return false }).Return(0).Build()
	defer m.UnPatch()
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 100; k++ {
				a.Get()
			}
		}()
	}
	wg.Wait()
	return ""
}

func k7f(p *int) { *p = 1 }

func k7deep(n int) int {
	var x [1024]byte
	if n == 0 {
		return int(x[5])
	}
	return k7deep(n-1) + int(x[n%1000])
}

func probeK7() string {
	m := mockey.Mock(k7f).When(func(*int) bool { return k7deep(3000) == 0 }).To(func(p *int) { *p = 7 }).Build()
	defer m.UnPatch()
	c := make(chan int)
	go func() {
		x := 0
		k7f(&x)
		c <- x
	}()
	if r := <-c; r != 7 {
		return fmt.Sprintf("the hook's assignment through its argument is lost, the variable of the caller is %d", r)
	}
	return ""
}

func k8f(p *interface{}) { *p = recover() }

func probeK8() (s string) {
	m := mockey.Mock(k8f).When(func(*interface{}) bool { return false }).To(func(*interface{}) {}).Build()
	defer m.UnPatch()
	got := new(interface{})
	defer func() {
		if r := recover(); r != nil || *got != "k8" {
			s = fmt.Sprintf("the deferred function recovered %v, and the panic %v went on", *got, r)
		}
	}()
	func() {
		defer k8f(got)
		panic("k8")
	}()
	return
}

type k6in struct{ n int }

func (k *k6in) secret() int { return k.n }

type k6out struct{ *k6in }

func probeK6() (s string) {
	o := k6out{&k6in{3}}
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprint("panic: ", r)
		}
	}()
	m := mockey.Mock(mockey.GetMethod(o, "secret")).Return(9).Build()
	defer m.UnPatch()
	if r := o.secret(); r != 9 {
		return fmt.Sprintf("a call of the method returned %d, not the mock's 9", r)
	}
	return ""
}

func k9f(p int) int { return p + 1 }

// probeK9 crashes the process, sooner or later.
func probeK9() string {
	runtime.VerifPreemptEntries = true
	m := mockey.Mock(k9f).To(func(int) int { return 2 }).Build()
	defer m.UnPatch()
	for g := 0; g < 6; g++ {
		go func() {
			rt.Grow()
			for {
				k9f(1)
			}
		}()
	}
	n := 0
	for t := time.Now(); time.Since(t) < 30*time.Second; n++ {
		buf := make([]byte, 1<<16)
		runtime.Stack(buf, true)
	}
	fmt.Println(n, "stack traces")
	return ""
}
