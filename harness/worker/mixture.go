package main

import (
	"encoding/json"

	"verifharness/rt"
)

// Engine of C19 and C20: the cases of the other engines that need neither particular schedules nor a particular build. What
// varies is the build of this worker.

type XPlan struct {
	E string          `json:"e"`
	P json.RawMessage `json:"p"`
}

var mixture = []string{"C01", "C01", "C02", "C03", "C04", "C05", "C05", "C07", "C07g", "C09", "C10", "C11", "C12", "C13", "C13", "C14", "C14", "C14t", "C16"}

// what C20 runs on arm64
var mixture64 = []string{"C01", "C01", "C01", "C02", "C03", "C04", "C05", "C05", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C14", "C14", "C14t", "C15"}

func init() {
	properties["C19"] = mixed(mixture, 19)
	properties["C20"] = mixed(mixture64, 20)
}

func mixed(mixture []string, n uint64) *property {
	return &property{
		gen: func(seed int) string {
			e := mixture[rt.NewRng(uint64(seed), n).N(len(mixture))]
			b, _ := json.Marshal(XPlan{e, json.RawMessage(properties[e].gen(seed))})
			return string(b)
		},
		run: func(plan string, verb bool) (*failure, map[string]int) {
			var p XPlan
			if json.Unmarshal([]byte(plan), &p) != nil {
				return nil, nil
			}
			e := properties[p.E]
			if e == nil || p.E == "C19" || p.E == "C20" {
				return nil, nil
			}
			f, st := e.run(string(p.P), verb)
			own := map[string]int{"engine:" + p.E: 1}
			if e.nontrivial == nil || e.nontrivial(st) {
				own["nontrivial"] = 1
			}
			return f, own
		},
		nontrivial: func(s map[string]int) bool { return s["nontrivial"] > 0 },
	}
}
