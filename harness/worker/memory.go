package main

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"

	"verifharness/rt"
)

// usable tells why a function is outside of the domain of calls through the original: its first instructions, which a
// mock displaces, must be position independent (known finding K1) and long enough. The stack check, a conditional
// jump, is fine because the engines run on large stacks (K4).
var usableCache = map[uintptr]string{}

func usable(e *rt.Entry) string {
	if e.Generic {
		return "" // judged by generics checks: the shared bodies have the same prologues as the other functions
	}
	if e.Kind == "closure" {
		return "capturing closure" // K2
	}
	if s, ok := usableCache[e.Code]; ok {
		return s
	}
	s := entryProblem(rt.BytesAt(e.Code, 64), branchLen)
	usableCache[e.Code] = s
	return s
}

type mapping struct {
	lo, hi uintptr
	perm   string
	path   string
}

func readMaps() []mapping {
	b, err := os.ReadFile("/proc/self/maps")
	if err != nil {
		panic(err)
	}
	var ms []mapping
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 5 {
			continue
		}
		var m mapping
		lo, hi, _ := strings.Cut(f[0], "-")
		l, _ := strconv.ParseUint(lo, 16, 64)
		h, _ := strconv.ParseUint(hi, 16, 64)
		m.lo, m.hi = uintptr(l), uintptr(h)
		m.perm = f[1]
		if len(f) > 5 {
			m.path = f[5]
		}
		ms = append(ms, m)
	}
	return ms
}

type textSeg struct {
	lo   uintptr
	copy []byte
}

var (
	textSegs  []textSeg
	anonExec0 uintptr
	pageSize  = uintptr(os.Getpagesize())
)

func exePath() string {
	p, _ := os.Readlink("/proc/self/exe")
	return p
}

func snapshotText() {
	exe := exePath()
	for _, m := range readMaps() {
		if strings.Contains(m.perm, "x") && m.path == exe {
			b := rt.BytesAt(m.lo, int(m.hi-m.lo))
			textSegs = append(textSegs, textSeg{m.lo, append([]byte{}, b...)})
		}
	}
	anonExec0 = anonExec(readMaps())
	if len(textSegs) == 0 {
		panic("no text segment")
	}
}

func anonExec(ms []mapping) uintptr {
	var n uintptr
	for _, m := range ms {
		if strings.Contains(m.perm, "x") && m.path == "" {
			n += m.hi - m.lo
		}
	}
	return n
}

// diffs calls f for each byte of the program text that differs from the start.
func diffs(f func(addr uintptr) bool) {
	for _, s := range textSegs {
		now := rt.BytesAt(s.lo, len(s.copy))
		if bytes.Equal(now, s.copy) {
			continue
		}
		for off := 0; off < len(s.copy); off += int(pageSize) {
			end := min(off+int(pageSize), len(s.copy))
			if bytes.Equal(now[off:end], s.copy[off:end]) {
				continue
			}
			for i := off; i < end; i++ {
				if now[i] != s.copy[i] && !f(s.lo+uintptr(i)) {
					return
				}
			}
		}
	}
}

func (h *hist) entryOf(e *rt.Entry, addr uintptr) bool {
	if !e.Generic {
		return addr >= e.Code && addr < e.Code+maxEntry
	}
	f := runtime.FuncForPC(addr)
	if f == nil || addr-f.Entry() >= maxEntry {
		return false
	}
	name := f.Name()
	base := e.Name // "G12[int, string]" or "(*G12[int, string]).Mg"
	base = strings.TrimLeft(base, "(*")
	base = base[:strings.IndexByte(base, '[')+1]
	i := strings.LastIndexByte(name, '/')
	name = name[i+1:]
	return strings.Contains(name, "."+base) || strings.Contains(name, "(*"+base)
}

// checkMem compares the text segment and the mappings with what the mocks in force allow.
func (h *hist) checkMem(final bool) {
	if h.failed() {
		return
	}
	live := 0
	for _, l := range h.live {
		live += len(l)
	}
	diffs(func(addr uintptr) bool {
		for t, l := range h.live {
			if len(l) > 0 && h.entryOf(h.targets[t], addr) {
				return true
			}
		}
		f := runtime.FuncForPC(addr)
		name := "?"
		if f != nil {
			name = fmt.Sprintf("%s+%d", f.Name(), addr-f.Entry())
		}
		h.failf("text", "code at %x (%s) differs from the original, but that function has no mock in force (or it is beyond its entry)", addr, name)
		return false
	})
	ms := readMaps()
	exe := exePath()
	for _, s := range textSegs {
		covered := s.lo
		for _, m := range ms {
			if m.path == exe && m.lo < s.lo+uintptr(len(s.copy)) && m.hi > s.lo {
				if m.perm[:3] != "r-x" {
					h.failf("maps", "code pages %x-%x are %s", m.lo, m.hi, m.perm)
					return
				}
				if m.lo <= covered {
					covered = max(covered, m.hi)
				}
			}
		}
		if covered < s.lo+uintptr(len(s.copy)) {
			h.failf("maps", "code pages from %x on are not mapped", covered)
			return
		}
	}
	if n := anonExec(ms); n > anonExec0+uintptr(live)*pageSize {
		h.failf("maps", "%d bytes of anonymous executable memory with %d mocks in force (%d at the start)", n, live, anonExec0)
	}
	h.count("memcheck")
}
