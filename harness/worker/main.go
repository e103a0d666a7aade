// worker runs generated cases of one property in this process. The orchestrator (check.py) starts several of them, and
// replays and shrinks what fails, also when the process dies.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifharness/rt"
	_ "verifharness/zoo"
)

// property is one generated check: gen makes the case of an index as JSON, run executes it.
type property struct {
	gen func(seed int) string
	run func(plan string, verb bool) (fail *failure, stats map[string]int)
	// nontrivial judges a case by its statistics
	nontrivial func(st map[string]int) bool
}

var properties = map[string]*property{}

type result struct {
	Evaluations int            `json:"evaluations"`
	Hashes      []string       `json:"hashes"` // of non-trivial cases
	Stats       map[string]int `json:"stats"`  // number of cases in which each class occurred
	Totals      map[string]int `json:"totals"`
	Samples     []string       `json:"samples"`
	Fail        *failure       `json:"fail,omitempty"`
	FailIndex   int            `json:"fail_index"`
	Plan        string         `json:"plan,omitempty"`
	Done        bool           `json:"done"`
}

func hashOf(s string) string {
	f := fnv.New64a()
	f.Write([]byte(s))
	return strconv.FormatUint(f.Sum64(), 36)
}

// caseSeed mixes the seed of the run and the index of the case.
func caseSeed(seed int64, i int) int {
	return int(rt.NewRng(uint64(seed), uint64(i)).U64() >> 2)
}

func main() {
	prop := flag.String("prop", "", "")
	seed := flag.Int64("seed", 1, "")
	start := flag.Int("start", 0, "")
	step := flag.Int("step", 1, "")
	count := flag.Int("count", 1, "")
	budget := flag.Float64("seconds", 0, "stop after this many seconds (0: no limit)")
	out := flag.String("out", "", "")
	journal := flag.String("journal", "", "")
	replay := flag.String("replay", "", "file with a plan to run")
	reps := flag.Int("reps", 1, "how often to run the replayed plan")
	dump := flag.Bool("dump", false, "print the plans instead of running them")
	verb := flag.Bool("v", false, "")
	info := flag.Bool("info", false, "")
	probe := flag.String("probe", "", "run the probe of this known finding")
	flag.Parse()

	// die with the orchestrator
	syscall.RawSyscall(syscall.SYS_PRCTL, syscall.PR_SET_PDEATHSIG, uintptr(syscall.SIGKILL), 0)
	debug.SetMaxStack(256 << 20)
	debug.SetTraceback("system")
	// a compiled form of every type is needed before the text is snapshotted
	setup()
	if *info {
		printInfo()
		return
	}
	if *probe != "" {
		runProbe(*probe)
	}
	p := properties[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *dump {
		for i := 0; i < *count; i++ {
			fmt.Println(p.gen(caseSeed(*seed, *start+i**step)))
		}
		return
	}
	startWorkers()
	snapshotText()

	res := result{Stats: map[string]int{}, Totals: map[string]int{}, FailIndex: -1}
	finish := func(code int) {
		if *out != "" {
			b, _ := json.Marshal(res)
			if err := os.WriteFile(*out+".tmp", b, 0o644); err == nil {
				os.Rename(*out+".tmp", *out)
			}
		}
		os.Exit(code)
	}
	runOne := func(plan string, i int) {
		fail, st := p.run(plan, *verb)
		res.Evaluations++
		for k, v := range st {
			res.Stats[k]++
			res.Totals[k] += v
		}
		if p.nontrivial == nil || p.nontrivial(st) {
			res.Hashes = append(res.Hashes, hashOf(plan))
			if len(res.Samples) < 3 && len(plan) < 3000 {
				res.Samples = append(res.Samples, plan)
			}
		}
		if fail != nil {
			res.Fail, res.FailIndex, res.Plan = fail, i, plan
			fmt.Fprintf(os.Stderr, "FAIL case %d: [%s] %s\n", i, fail.Cat, fail.Msg)
			finish(3)
		}
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for i := 0; i < *reps; i++ {
			runOne(strings.TrimSpace(string(b)), i)
		}
		res.Done = true
		finish(0)
	}
	var jf *os.File
	if *journal != "" {
		jf, _ = os.Create(*journal)
	}
	t0 := time.Now()
	for n := 0; n < *count; n++ {
		if *budget > 0 && time.Since(t0).Seconds() > *budget {
			break
		}
		i := *start + n**step
		if jf != nil {
			jf.WriteAt([]byte(fmt.Sprintf("%12d", i)), 0)
		}
		runOne(p.gen(caseSeed(*seed, i)), i)
	}
	runtime.GC()
	res.Done = true
	finish(0)
}

func printInfo() {
	excl := map[string]int{}
	kinds := map[string]int{}
	for _, e := range rt.Entries {
		kinds[e.Kind]++
		if s := usable(e); s != "" {
			excl[e.Kind+": "+s]++
		}
	}
	var ks []string
	for k := range kinds {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	b, _ := json.Marshal(map[string]interface{}{"entries": kinds, "excluded": excl})
	fmt.Println(string(b))
}
