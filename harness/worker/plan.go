package main

import (
	"encoding/json"

	"verifharness/rt"
)

// Plan is one generated case of the history engine. Running it is total: every number is taken modulo what there is.
type Plan struct {
	Targets []int    `json:"targets"`
	Vars    []uint64 `json:"vars,omitempty"`
	Ops     []Op     `json:"ops"`
	J       int      `json:"j,omitempty"` // > 0: the case runs on a goroutine whose id equals that of another one modulo 2^16 or 2^32
}

// Op is one step. K is one of build, call, unpatch, patch, release, reconf, unall, scope, gc, ocall, remock, par,
// var, varbad, vunpatch, vpatch, vremock, vset, twin.
type Op struct {
	K string `json:"k"`
	T int    `json:"t,omitempty"` // target
	H int    `json:"h,omitempty"` // handle of a mock
	G int    `json:"g,omitempty"` // goroutine (0: the current one)
	F int    `json:"f,omitempty"` // form of call, kind of reconfiguration, call site of a build
	S uint64 `json:"s,omitempty"` // seed of values
	M uint32 `json:"m,omitempty"` // outcomes of the predicates
	A int    `json:"a,omitempty"` // what the original does
	E int    `json:"e,omitempty"` // how a scope ends
	C *Cfg   `json:"c,omitempty"`
	B []Op   `json:"b,omitempty"`
	P [][]Op `json:"p,omitempty"`
}

// Cfg is the definition of a mock.
type Cfg struct {
	API    int    `json:"api,omitempty"`
	Conds  []Cond `json:"conds,omitempty"`
	Filter int    `json:"filter,omitempty"` // 0 none, 1 include current, 2 exclude current, 3 Include id, 4 Exclude id
	FG     int    `json:"fg,omitempty"`     // goroutine the filter names
	Origin int    `json:"origin,omitempty"` // 0 none, 1 full signature, 2 without the first parameter
	Pos    int    `json:"pos,omitempty"`    // where in the chain filter and origin come
}

// Cond is one condition.
type Cond struct {
	First int    `json:"first,omitempty"` // 1: When is declared before the hook
	When  int    `json:"when,omitempty"`  // 0 none, bit 0: there is one, bit 1: without first parameter, bit 2: GenericInfo, bit 3: named bool
	Hook  int    `json:"hook,omitempty"`  // 0 none, 1 Return, 2 Sequence, 3 To, 4 To compiled, 5 To without first parameter, +8 GenericInfo
	Acts  []int  `json:"acts,omitempty"`  // what a To hook does
	WActs []int  `json:"wacts,omitempty"` // what a predicate does
	S     uint64 `json:"s,omitempty"`
	Seq   []int  `json:"seq,omitempty"` // times of the values of a sequence (0: no Times)
}

// Profile says what plans of a property look like.
type Profile struct {
	Kinds           []string // kinds of targets
	MaxTargets      int
	MaxOps          int
	W               map[string]int // weights of operations
	MaxConds        int
	WhenPct         int
	HookW           []int // weights of hook kinds 0..5
	Acts            []int // acts hooks may perform
	WActs           []int // acts predicates may perform
	ExitPct         int   // calls that may end by runtime.Goexit
	InfoPct         int
	OriginPct       int
	RecvOrigin      bool // origin without the first parameter
	NoGenericOrigin bool // K5
	FilterPct       int
	GPct            int // operations on another goroutine
	OrigActs        []int
	ScopeDepth      int
	Ends            []int
	MaxVars         int
	ParG            int
	SeqMax          int
	Checks          string // text, maps: looked at after every step, not only at the end
	NoForms         bool
	MultiBuild      bool
}

// Every choice is drawn from t, so that a case is a function of its seed; what fails is shrunk as a plan (see shrink.py).
func pct(t *rt.Rng, p int) bool { return t.N(100) < p }

func seed(t *rt.Rng) uint64 { return uint64(uint32(t.U64())) }

func weighted(t *rt.Rng, w []int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	n := t.N(sum)
	for i, x := range w {
		if n < x {
			return i
		}
		n -= x
	}
	return 0
}

func uni(t *rt.Rng, n int) int { return t.N(n) }

var opOrder = []string{"call", "build", "unpatch", "patch", "release", "reconf", "unall", "scope", "gc", "ocall", "remock", "par", "var", "varbad", "vunpatch", "vpatch", "vremock", "vset", "twin"}

func genCond(t *rt.Rng, pf *Profile) Cond {
	c := Cond{S: seed(t), First: uni(t, 2)}
	if pct(t, pf.WhenPct) {
		c.When = 1 | uni(t, 2)<<1
		if pct(t, 15) {
			c.When |= 8
		}
		if pct(t, pf.InfoPct) {
			c.When |= 4
		}
		if len(pf.WActs) > 0 && pct(t, 30) {
			for n := 1 + uni(t, 2); n > 0; n-- {
				c.WActs = append(c.WActs, pf.WActs[uni(t, len(pf.WActs))])
			}
		}
	}
	c.Hook = weighted(t, pf.HookW)
	if c.Hook == 2 {
		n := 1 + uni(t, max(pf.SeqMax, 1))
		for i := 0; i < n; i++ {
			c.Seq = append(c.Seq, uni(t, 4))
		}
	}
	if c.Hook >= 3 {
		if len(pf.Acts) > 0 {
			for n := uni(t, 4); n > 0; n-- {
				c.Acts = append(c.Acts, pf.Acts[uni(t, len(pf.Acts))])
			}
		}
		if c.Hook != 4 && pct(t, pf.InfoPct) {
			c.Hook |= 8
		}
	}
	return c
}

func genCfg(t *rt.Rng, pf *Profile) *Cfg {
	c := &Cfg{API: uni(t, 4), Pos: uni(t, 4)}
	n := 1
	if pf.MaxConds > 1 {
		n = 1 + uni(t, pf.MaxConds)
	}
	if pf.MaxConds >= 1 && pct(t, 4) && pf.HookW[0] > 0 {
		n = 0
	}
	for i := 0; i < n; i++ {
		c.Conds = append(c.Conds, genCond(t, pf))
	}
	if pct(t, pf.OriginPct) {
		c.Origin = 1
		if pf.RecvOrigin {
			c.Origin += uni(t, 2)
		}
	}
	if pct(t, pf.FilterPct) {
		c.Filter = 1 + uni(t, 4)
		c.FG = uni(t, 6)
	}
	return c
}

func genCall(t *rt.Rng, pf *Profile) Op {
	o := Op{K: "call", T: uni(t, 8), S: seed(t), M: uint32(t.U64()), F: uni(t, 64)}
	if pct(t, pf.GPct) {
		o.G = 1 + uni(t, 3)
	}
	if len(pf.OrigActs) > 0 {
		o.A = pf.OrigActs[uni(t, len(pf.OrigActs))]
	}
	if pct(t, pf.ExitPct) {
		o.E = 1
		if len(pf.OrigActs) > 0 && pct(t, 20) {
			o.A = 5
		}
	}
	return o
}

func genOps(t *rt.Rng, pf *Profile, n, depth int) []Op {
	var ops []Op
	w := make([]int, len(opOrder))
	for i, k := range opOrder {
		w[i] = pf.W[k]
		if k == "scope" && depth >= pf.ScopeDepth {
			w[i] = 0
		}
	}
	nested := 0
	first := false
	for i := 0; i < n; i++ {
		k := opOrder[weighted(t, w)]
		// a history without mocks says little
		if i == 0 && pct(t, 75-25*min(depth, 1)) {
			first = depth == 0
			if pf.W["build"] > 0 && (pf.W["var"] == 0 || pct(t, 60)) {
				k = "build"
			} else if pf.W["var"] > 0 {
				k = "var"
			}
		}
		var o Op
		switch k {
		case "call", "ocall":
			o = genCall(t, pf)
			o.K = k
			o.H = uni(t, 8)
		case "build":
			o = Op{K: k, T: uni(t, 8), F: uni(t, 4), S: seed(t), C: genCfg(t, pf)}
			if !first {
				if o.E = weighted(t, []int{72, 12, 16}); o.E == 2 {
					o.H = uni(t, 4)
				}
			}
			if first || depth > 0 && pct(t, 50) {
				o.T = 0 // the same function in several scopes
			}
			first = false
		case "release":
			o = Op{K: k, H: uni(t, 8), F: uni(t, 4), S: seed(t), C: genCfg(t, pf)}
		case "remock":
			o = Op{K: k, T: uni(t, 8), F: uni(t, 4), A: uni(t, 3), H: uni(t, 8), S: seed(t)}
		case "unpatch", "patch", "twin":
			o = Op{K: k, H: uni(t, 8), F: uni(t, 4), S: seed(t)}
		case "reconf":
			o = Op{K: k, H: uni(t, 8), F: uni(t, 8), S: seed(t), E: uni(t, 4)}
			o.C = &Cfg{Conds: []Cond{genCond(t, pf)}, Origin: 1, FG: uni(t, 6)}
			if pf.RecvOrigin {
				o.C.Origin += uni(t, 2)
			}
		case "unall", "gc":
			o = Op{K: k}
		case "scope":
			if nested >= 2 && depth > 0 {
				continue
			}
			nested++
			o = Op{K: k, B: genOps(t, pf, 1+uni(t, max(pf.MaxOps/2, 2)), depth+1)}
			if len(pf.Ends) > 0 {
				o.E = pf.Ends[uni(t, len(pf.Ends))]
			}
		case "par":
			o = Op{K: k, S: seed(t), H: uni(t, 4), A: uni(t, 4)}
			g := 2 + uni(t, max(pf.ParG-1, 1))
			for j := 0; j < g; j++ {
				var cs []Op
				for m := 1 + uni(t, 6); m > 0; m-- {
					c := genCall(t, pf)
					c.G = 0
					cs = append(cs, c)
				}
				o.P = append(o.P, cs)
			}
		case "var", "varbad", "vremock", "vset":
			o = Op{K: k, T: uni(t, 8), A: uni(t, 6), S: seed(t), F: uni(t, 4)}
		case "vunpatch", "vpatch":
			o = Op{K: k, H: uni(t, 8), F: uni(t, 4), S: seed(t)}
		}
		if pct(t, pf.GPct) && k != "scope" && k != "par" {
			o.G = 1 + uni(t, 3)
		}
		ops = append(ops, o)
		// most histories are about calls: follow a change with one more often than not
		if k != "call" && k != "gc" && pf.W["call"] > 0 && pct(t, 60) {
			c := genCall(t, pf)
			if k == "build" {
				c.T = o.T
			}
			ops = append(ops, c)
		}
	}
	return ops
}

func genPlan(pf *Profile, t *rt.Rng) Plan {
	var p Plan
	for n := 1 + uni(t, max(pf.MaxTargets, 1)); n > 0; n-- {
		if n := len(p.Targets); n > 0 && pct(t, 35) { // neighbours
			p.Targets = append(p.Targets, p.Targets[n-1]+[]int{1, 1, 2, -1}[uni(t, 4)])
			continue
		}
		p.Targets = append(p.Targets, uni(t, 997))
	}
	for n := uni(t, pf.MaxVars+1); n > 0; n-- {
		p.Vars = append(p.Vars, seed(t))
	}
	if pf.FilterPct >= 30 && pct(t, 30) {
		p.J = 1 + uni(t, 6)
	}
	p.Ops = genOps(t, pf, 2+uni(t, max(pf.MaxOps-1, 1)), 0)
	return p
}

func (p Plan) JSON() string { b, _ := json.Marshal(p); return string(b) }
