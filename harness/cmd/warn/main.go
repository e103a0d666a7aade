// warn tells whether it was compiled with inlining, by asking the runtime whether a frame of its own is an inlined one, and
// mocks something, to see that it runs on.
package main

import (
	"fmt"
	"os"
	"runtime"

	"github.com/bytedance/mockey"
)

var pcs [8]uintptr

//go:noinline
func grab() { runtime.Callers(2, pcs[:]) }

func via(f func()) { f() }

func inlined() bool {
	via(grab)
	f, _ := runtime.CallersFrames(pcs[:]).Next()
	if f.Function != "main.via" {
		panic(f.Function)
	}
	return f.Func == nil
}

// seven is long enough to be mocked, whatever the compiler makes of it.
//
//go:noinline
func seven(n int) int {
	for i := 0; i < len(os.Args); i++ {
		n += len(os.Args[i]) - len(os.Args[i])
	}
	return n + 7
}

func main() {
	fmt.Printf("inlining=%v\n", inlined())
	m := mockey.Mock(seven).Return(80).Build()
	fmt.Println("mocked", seven(1))
	m.UnPatch()
	fmt.Println("original", seven(1))
}
