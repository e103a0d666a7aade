package main

import (
	"encoding/json"
	"reflect"

	"verifharness/rt"
)

func setup() {
	seen := map[reflect.Type]bool{}
	add := func(t reflect.Type) {
		if !seen[t] && t.Size() > 0 {
			seen[t] = true
			varTypes = append(varTypes, t)
		}
	}
	for _, e := range rt.Entries {
		for i := 0; i < e.Type.NumIn(); i++ {
			add(e.Type.In(i))
		}
		for i := 0; i < e.Type.NumOut(); i++ {
			add(e.Type.Out(i))
		}
	}
	for id, pf := range profiles {
		properties[id] = histProperty(pf, nontrivial[id])
	}
}

func histProperty(pf *Profile, nt func(map[string]int) bool) *property {
	return &property{
		gen: func(seed int) string { return genPlan(pf, rt.NewRng(uint64(seed))).JSON() },
		run: func(plan string, verb bool) (*failure, map[string]int) {
			var p Plan
			if err := json.Unmarshal([]byte(plan), &p); err != nil {
				return nil, nil
			}
			h := newHist(pf, p)
			h.verb = verb
			f := h.run()
			return f, h.st
		},
		nontrivial: nt,
	}
}

// passes tells whether mocks may call the original.
func (pf *Profile) passes() bool {
	return len(pf.HookW) == 0 || pf.HookW[0] > 0 || pf.WhenPct > 0 || pf.OriginPct > 0 || pf.FilterPct > 0
}

var ordinary = []string{"func", "vmethod", "pmethod", "pure"}
var all = []string{"func", "vmethod", "pmethod", "pure", "gfunc", "gmethod"}

var profiles = map[string]*Profile{
	"C01": {Kinds: ordinary, MaxTargets: 2, MaxOps: 6, W: map[string]int{"call": 10, "build": 6, "gc": 1}, MaxConds: 1,
		HookW: []int{0, 4, 0, 3, 3, 3}, Acts: []int{5, 8, 9, 10}, GPct: 10, ExitPct: 8},
	"C02": {Kinds: all, MaxTargets: 3, MaxOps: 16, W: map[string]int{"call": 8, "build": 10, "unpatch": 8, "patch": 4, "release": 2, "reconf": 1, "unall": 1, "scope": 8, "gc": 2, "twin": 2},
		MaxConds: 2, WhenPct: 30, HookW: []int{1, 4, 0, 3, 2, 1}, Acts: []int{1, 6, 7, 9}, OriginPct: 30, ScopeDepth: 3, Ends: []int{0, 0, 0, 1, 2}, Checks: "text"},
	"C03": {Kinds: ordinary, MaxTargets: 3, MaxOps: 8, W: map[string]int{"call": 5, "build": 8, "unpatch": 2, "patch": 1, "unall": 2, "scope": 8, "var": 4, "vunpatch": 1, "twin": 2, "vpatch": 1},
		MaxConds: 1, HookW: []int{0, 5, 0, 3, 0, 0}, ScopeDepth: 4, Ends: []int{0, 0, 1, 2, 3, 4}, MaxVars: 3, GPct: 5},
	"C04": {Kinds: all, MaxTargets: 2, MaxOps: 8, W: map[string]int{"call": 14, "build": 6}, MaxConds: 5, WhenPct: 85,
		HookW: []int{2, 4, 1, 3, 1, 2}, Acts: []int{5, 3}, InfoPct: 20, OriginPct: 20, WActs: []int{1, 3, 3, 4, 5, 8, 9}, ExitPct: 8},
	"C05": {Kinds: all, MaxTargets: 3, MaxOps: 8, W: map[string]int{"call": 12, "build": 6, "ocall": 6, "unpatch": 3, "patch": 1, "scope": 3, "gc": 1, "reconf": 2}, MaxConds: 3, WhenPct: 60,
		HookW: []int{2, 2, 0, 4, 2, 3}, Acts: []int{1, 1, 2, 2, 3, 4, 6, 7, 8, 9}, OriginPct: 85, RecvOrigin: true, FilterPct: 20, OrigActs: []int{0, 0, 2, 3, 4}, ScopeDepth: 2, WActs: []int{1, 1, 3, 4, 8}, ExitPct: 8},
	"C06": {Kinds: all, MaxTargets: 2, MaxOps: 10, W: map[string]int{"call": 14, "build": 6, "unpatch": 2, "patch": 2, "release": 1, "reconf": 3, "unall": 1, "par": 2, "scope": 1, "twin": 1}, MaxConds: 3, WhenPct: 60,
		HookW: []int{2, 3, 1, 3, 1, 1}, Acts: []int{1, 2, 3, 5, 8, 10}, OriginPct: 50, FilterPct: 30, GPct: 15, OrigActs: []int{0, 0, 2, 3}, ScopeDepth: 2, ParG: 6, SeqMax: 3, WActs: []int{1, 3, 4, 5, 8, 10}, ExitPct: 12},
	"C07": {Kinds: ordinary, MaxTargets: 2, MaxOps: 10, W: map[string]int{"call": 16, "build": 6, "reconf": 6, "unpatch": 1, "patch": 1}, MaxConds: 2, WhenPct: 40,
		HookW: []int{1, 4, 0, 3, 0, 1}, OriginPct: 10, FilterPct: 90, GPct: 55, WActs: []int{3, 4}},
	"C08": {Kinds: ordinary, MaxTargets: 2, MaxOps: 20, W: map[string]int{"call": 30, "build": 4, "par": 1, "scope": 1}, MaxConds: 3, WhenPct: 40,
		HookW: []int{1, 1, 10, 1, 0, 0}, OriginPct: 10, FilterPct: 10, GPct: 10, ScopeDepth: 2, ParG: 6, SeqMax: 6, WActs: []int{1, 3, 5, 8}, ExitPct: 6},
	"C09": {MaxOps: 20, W: map[string]int{"var": 10, "varbad": 2, "vunpatch": 5, "vpatch": 4, "scope": 5, "unall": 1, "gc": 1, "vset": 4}, ScopeDepth: 3, Ends: []int{0, 0, 0, 1, 2, 3}, MaxVars: 4},
	"C10": {Kinds: all, MaxTargets: 2, MaxOps: 14, W: map[string]int{"call": 12, "build": 4, "unpatch": 4, "patch": 6, "release": 4, "reconf": 18, "scope": 2, "gc": 1, "twin": 1}, MaxConds: 2, WhenPct: 50,
		HookW: []int{2, 4, 1, 3, 1, 2}, Acts: []int{1, 5, 6}, OriginPct: 40, RecvOrigin: true, FilterPct: 15, GPct: 10, ScopeDepth: 2, SeqMax: 3, WActs: []int{3, 5}},
	"C11": {Kinds: all, MaxTargets: 3, MaxOps: 12, W: map[string]int{"call": 5, "build": 8, "unpatch": 3, "patch": 3, "release": 1, "reconf": 2, "scope": 4, "remock": 12, "var": 5, "vremock": 6, "vunpatch": 2, "vpatch": 1, "unall": 1, "twin": 1}, MaxConds: 2, WhenPct: 30,
		HookW: []int{1, 4, 0, 3, 0, 0}, ScopeDepth: 3, MaxVars: 2, GPct: 10},
	"C14": {Kinds: []string{"gfunc", "gmethod"}, MaxTargets: 4, MaxOps: 10, W: map[string]int{"call": 14, "build": 8, "unpatch": 2, "ocall": 2, "reconf": 2, "gc": 1, "scope": 1}, MaxConds: 3, WhenPct: 50,
		HookW: []int{1, 3, 1, 4, 1, 3}, Acts: []int{1, 2, 4, 6}, InfoPct: 60, OriginPct: 50, RecvOrigin: true, ScopeDepth: 2, SeqMax: 2, WActs: []int{1, 3, 4}, ExitPct: 4},
	"C15": {Kinds: all, MaxTargets: 6, MaxOps: 14, W: map[string]int{"call": 3, "build": 10, "unpatch": 6, "patch": 3, "unall": 1, "scope": 2, "gc": 1, "par": 1}, MaxConds: 1, WhenPct: 20,
		HookW: []int{1, 5, 0, 2, 0, 0}, ScopeDepth: 2, Checks: "text", ParG: 4},
	"C17": {Kinds: all, MaxTargets: 4, MaxOps: 5, W: map[string]int{"build": 8, "par": 6}, MaxConds: 3, WhenPct: 60,
		HookW: []int{1, 3, 1, 4, 1, 2}, Acts: []int{1, 2, 3, 4, 5, 6}, OriginPct: 50, FilterPct: 10, OrigActs: []int{0, 0, 2}, ParG: 8, SeqMax: 3, InfoPct: 20, WActs: []int{1, 3, 4, 5}, ExitPct: 5},
	"C17r": {Kinds: all, MaxTargets: 4, MaxOps: 5, W: map[string]int{"build": 8, "par": 6}, MaxConds: 3, WhenPct: 60,
		HookW: []int{1, 3, 1, 4, 1, 2}, Acts: []int{1, 2, 3, 5, 6}, OriginPct: 40, NoGenericOrigin: true, FilterPct: 20, OrigActs: []int{0, 0, 2}, ParG: 8, SeqMax: 3, InfoPct: 20, WActs: []int{3, 4}},
}

var nontrivial = map[string]func(map[string]int) bool{
	"C01": func(s map[string]int) bool { return s["sim:hook"] > 0 },
	"C02": func(s map[string]int) bool { return s["call-after-release"] > 0 && s["built"] > 0 },
	"C03": func(s map[string]int) bool { return s["scope-releases"] > 0 || s["op:unall"] > 0 && s["scope"] > 0 },
	"C04": func(s map[string]int) bool { return s["multicond"] > 0 && s["sim:when"] > 1 },
	"C05": func(s map[string]int) bool {
		return s["sim:origin"]+s["sim:unmatched"]+s["sim:filtered"]+s["ocall-live"]+s["ocall-after-release"] > 0
	},
	"C06": func(s map[string]int) bool {
		return s["sim:hook"] > 0 && (s["sim:unmatched"]+s["sim:filtered"]+s["par"]+s["sim:hook-panic"]+s["repatch"] > 0)
	},
	"C07": func(s map[string]int) bool { return s["sim:filtered"] > 0 },
	"C08": func(s map[string]int) bool { return s["sim:seq"] > 2 },
	"C09": func(s map[string]int) bool { return s["var"] > 0 },
	"C10": func(s map[string]int) bool {
		n := 0
		for k := 0; k < 8; k++ {
			n += s["reconf:"+string(rune('0'+k))]
		}
		return n+s["reconf-refused"]+s["repatch"]+s["rebuilt"] > 0 && s["sim:hook"] > 0
	},
	"C11":  func(s map[string]int) bool { return s["remock"] > 0 },
	"C14":  func(s map[string]int) bool { return s["sim:hook"] > 0 },
	"C15":  func(s map[string]int) bool { return s["memcheck"] > 1 && s["built"] > 0 },
	"C17":  func(s map[string]int) bool { return s["par"] > 0 && s["sim:hook"] > 0 },
	"C17r": func(s map[string]int) bool { return s["par"] > 0 && s["sim:hook"] > 0 },
}
