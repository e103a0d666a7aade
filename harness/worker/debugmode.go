package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"strings"

	"verifharness/rt"
)

// C18d: histories run with MOCKEY_DEBUG=true. The mocks must behave as the model says, as without it, and the standard
// output must be what the program prints itself, in whole lines, and lines starting with [MOCKEY].

var debugOut *os.File

func init() {
	pf := &Profile{Kinds: all, MaxTargets: 3, MaxOps: 10, W: map[string]int{"call": 10, "build": 8, "unpatch": 4, "patch": 3, "release": 2, "reconf": 3, "unall": 1, "scope": 4, "var": 2, "vunpatch": 1, "ocall": 2, "par": 1, "remock": 2},
		MaxConds: 3, WhenPct: 40, HookW: []int{1, 4, 1, 3, 2, 1}, Acts: []int{1, 2, 5}, OriginPct: 30, FilterPct: 15, ScopeDepth: 3, MaxVars: 2, InfoPct: 20, ParG: 4}
	properties["C18d"] = &property{
		gen: func(seed int) string { return genPlan(pf, rt.NewRng(uint64(seed))).JSON() },
		run: func(plan string, verb bool) (*failure, map[string]int) {
			var p Plan
			if err := json.Unmarshal([]byte(plan), &p); err != nil {
				return nil, nil
			}
			if debugOut == nil {
				f, err := os.CreateTemp("", "stdout")
				if err != nil {
					panic(err)
				}
				os.Remove(f.Name())
				debugOut = f
			}
			debugOut.Truncate(0)
			debugOut.Seek(0, 0)
			real := os.Stdout
			os.Stdout = debugOut
			h := newHist(pf, p)
			h.verb = verb
			var own []string
			h.onStep = func() {
				own = append(own, fmt.Sprintf("line %d of the program", len(own)))
				fmt.Println(own[len(own)-1])
			}
			f := h.run()
			os.Stdout = real
			if f != nil {
				return f, h.st
			}
			debugOut.Seek(0, 0)
			b, _ := io.ReadAll(debugOut)
			got := string(b)
			if got != "" && !strings.HasSuffix(got, "\n") {
				return &failure{Cat: "output", Msg: fmt.Sprintf("the output ends with an unfinished line: %q", got[max(0, len(got)-200):])}, h.st
			}
			n := 0
			for _, l := range strings.Split(strings.TrimSuffix(got, "\n"), "\n") {
				switch {
				case n < len(own) && l == own[n]:
					n++
				case strings.HasPrefix(l, "[MOCKEY]") && !strings.Contains(l, "of the program"):
					h.count("debug-line")
				case got == "":
				default:
					return &failure{Cat: "output", Msg: fmt.Sprintf("MOCKEY_DEBUG=true made the program print the line %q", l)}, h.st
				}
			}
			if n != len(own) {
				return &failure{Cat: "output", Msg: fmt.Sprintf("the program printed %d lines, %d of them are in the output", len(own), n)}, h.st
			}
			return nil, h.st
		},
		nontrivial: func(st map[string]int) bool { return st["debug-line"] > 0 && st["sim:hook"] > 0 },
	}
}
