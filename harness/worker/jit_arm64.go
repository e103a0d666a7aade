package main

import (
	"encoding/binary"

	"verifharness/rt"
)

const (
	jitAlign = 4 // of instructions
	jitRet   = 4 // length of the return
)

// asm emits instructions and knows which registers and flags have a value.
type asm struct {
	b      []byte
	bounds []int // offsets of the instructions
	regs   uint32
	fps    uint32
	flags  bool
	depth  int // pushed pairs
	slots  uint32
	names  []string
}

// registers are x0 to x17, without x26 (the closure register), x28 (g) and the others with a meaning
const nregs = 18

func (a *asm) emit(w uint32) {
	a.bounds = append(a.bounds, len(a.b))
	a.b = binary.LittleEndian.AppendUint32(a.b, w)
}

func (a *asm) src(r *rt.Rng) uint32 { // an initialised register
	for {
		x := uint32(r.N(nregs))
		if a.regs>>x&1 != 0 {
			return x
		}
	}
}

func (a *asm) dst(r *rt.Rng) uint32 {
	if r.N(3) == 0 {
		return uint32(r.N(4))
	}
	return uint32(r.N(nregs))
}

func (a *asm) set(d uint32) { a.regs |= 1 << d }

func (a *asm) fsrc(r *rt.Rng) uint32 {
	for {
		x := uint32(r.N(15))
		if a.fps>>x&1 != 0 {
			return x
		}
	}
}

func (a *asm) slot(i int) uint32 { return uint32(1+i+2*a.depth) << 10 }

func (a *asm) fullSlot(r *rt.Rng) (int, bool) {
	if a.slots == 0 {
		return 0, false
	}
	for {
		i := r.N(6)
		if a.slots>>i&1 != 0 {
			return i, true
		}
	}
}

func bits(r *rt.Rng, n int, at int) uint32 { return uint32(r.N(1<<n)) << at }

var templates = []template{
	{"mov", func(a *asm, r *rt.Rng) bool {
		s, d := a.src(r), a.dst(r)
		a.emit(0x2a0003e0 | bits(r, 1, 31) | s<<16 | d)
		a.set(d)
		return true
	}},
	{"movz", func(a *asm, r *rt.Rng) bool {
		d := a.dst(r)
		if r.N(2) == 0 {
			a.emit(0xd2800000 | bits(r, 2, 21) | bits(r, 16, 5) | d)
		} else {
			a.emit(0x12800000 | bits(r, 1, 31) | bits(r, 1, 21) | bits(r, 16, 5) | d)
		}
		a.set(d)
		return true
	}},
	{"movk", func(a *asm, r *rt.Rng) bool {
		a.emit(0xf2800000 | bits(r, 2, 21) | bits(r, 16, 5) | a.src(r))
		return true
	}},
	{"add r,r", func(a *asm, r *rt.Rng) bool {
		s := bits(r, 1, 29)
		sf := bits(r, 1, 31)
		sh := bits(r, 5, 10)
		d := a.dst(r)
		a.emit(0x0b000000 | sf | bits(r, 1, 30) | s | uint32(r.N(3))<<22 | a.src(r)<<16 | sh | a.src(r)<<5 | d)
		a.set(d)
		a.flags = a.flags || s != 0
		return true
	}},
	{"cmp", func(a *asm, r *rt.Rng) bool {
		a.emit(0x6b00001f | bits(r, 1, 31) | a.src(r)<<16 | a.src(r)<<5)
		a.flags = true
		return true
	}},
	{"logical r,r", func(a *asm, r *rt.Rng) bool {
		o := uint32(r.N(4))
		d := a.dst(r)
		a.emit(0x0a000000 | bits(r, 1, 31) | o<<29 | bits(r, 2, 22) | bits(r, 1, 21) | a.src(r)<<16 | bits(r, 5, 10) | a.src(r)<<5 | d)
		a.set(d)
		a.flags = a.flags || o == 3
		return true
	}},
	{"logical imm", func(a *asm, r *rt.Rng) bool {
		// a run of ones of 64 bits, rotated
		d := a.dst(r)
		o := uint32(r.N(3))
		a.emit(0x92400000 | o<<29 | bits(r, 6, 16) | uint32(r.N(63))<<10 | a.src(r)<<5 | d)
		a.set(d)
		return true
	}},
	{"add imm", func(a *asm, r *rt.Rng) bool {
		s := bits(r, 1, 29)
		d := a.dst(r)
		a.emit(0x11000000 | bits(r, 1, 31) | bits(r, 1, 30) | s | bits(r, 1, 22) | bits(r, 12, 10) | a.src(r)<<5 | d)
		a.set(d)
		a.flags = a.flags || s != 0
		return true
	}},
	{"csel", func(a *asm, r *rt.Rng) bool {
		if !a.flags {
			return false
		}
		d := a.dst(r)
		a.emit(0x1a800000 | bits(r, 1, 31) | bits(r, 1, 30) | a.src(r)<<16 | bits(r, 4, 12) | bits(r, 1, 10) | a.src(r)<<5 | d)
		a.set(d)
		return true
	}},
	{"adc", func(a *asm, r *rt.Rng) bool {
		if !a.flags {
			return false
		}
		d := a.dst(r)
		a.emit(0x1a000000 | bits(r, 1, 31) | bits(r, 1, 30) | bits(r, 1, 29) | a.src(r)<<16 | a.src(r)<<5 | d)
		a.set(d)
		return true
	}},
	{"ccmp", func(a *asm, r *rt.Rng) bool {
		if !a.flags {
			return false
		}
		a.emit(0x7a400000 | bits(r, 1, 31) | a.src(r)<<16 | bits(r, 4, 12) | a.src(r)<<5 | bits(r, 4, 0))
		return true
	}},
	{"madd", func(a *asm, r *rt.Rng) bool {
		d := a.dst(r)
		a.emit(0x1b000000 | bits(r, 1, 31) | a.src(r)<<16 | bits(r, 1, 15) | a.src(r)<<10 | a.src(r)<<5 | d)
		a.set(d)
		return true
	}},
	{"div", func(a *asm, r *rt.Rng) bool {
		d := a.dst(r)
		a.emit(0x1ac00800 | bits(r, 1, 31) | bits(r, 1, 10) | a.src(r)<<16 | a.src(r)<<5 | d)
		a.set(d)
		return true
	}},
	{"shift", func(a *asm, r *rt.Rng) bool {
		d := a.dst(r)
		a.emit(0x1ac02000 | bits(r, 1, 31) | bits(r, 2, 10) | a.src(r)<<16 | a.src(r)<<5 | d)
		a.set(d)
		return true
	}},
	{"bitfield", func(a *asm, r *rt.Rng) bool {
		d := a.dst(r)
		a.emit([]uint32{0x93400000, 0xd3400000}[r.N(2)] | bits(r, 6, 16) | bits(r, 6, 10) | a.src(r)<<5 | d)
		a.set(d)
		return true
	}},
	{"bfm", func(a *asm, r *rt.Rng) bool {
		a.emit(0xb3400000 | bits(r, 6, 16) | bits(r, 6, 10) | a.src(r)<<5 | a.src(r))
		return true
	}},
	{"extr", func(a *asm, r *rt.Rng) bool {
		d := a.dst(r)
		a.emit(0x93c00000 | a.src(r)<<16 | bits(r, 6, 10) | a.src(r)<<5 | d)
		a.set(d)
		return true
	}},
	{"unary", func(a *asm, r *rt.Rng) bool {
		d := a.dst(r)
		a.emit([]uint32{0xdac00000, 0xdac00c00, 0xdac01000, 0xdac00800}[r.N(4)] | a.src(r)<<5 | d)
		a.set(d)
		return true
	}},
	{"fp arith", func(a *asm, r *rt.Rng) bool {
		d := uint32(r.N(15))
		a.emit([]uint32{0x1e602800, 0x1e603800, 0x1e600800, 0x1e601800}[r.N(4)] | a.fsrc(r)<<16 | a.fsrc(r)<<5 | d)
		a.fps |= 1 << d
		return true
	}},
	{"fp unary", func(a *asm, r *rt.Rng) bool {
		d := uint32(r.N(15))
		a.emit([]uint32{0x1e604000, 0x1e614000, 0x1e60c000}[r.N(3)] | a.fsrc(r)<<5 | d) // mov neg abs
		a.fps |= 1 << d
		return true
	}},
	{"fmov", func(a *asm, r *rt.Rng) bool {
		if r.N(2) == 0 {
			d := a.dst(r)
			a.emit(0x9e660000 | a.fsrc(r)<<5 | d)
			a.set(d)
		} else {
			d := uint32(r.N(15))
			a.emit(0x9e670000 | a.src(r)<<5 | d)
			a.fps |= 1 << d
		}
		return true
	}},
	{"cvt", func(a *asm, r *rt.Rng) bool {
		if r.N(2) == 0 {
			d := a.dst(r)
			a.emit(0x9e780000 | a.fsrc(r)<<5 | d)
			a.set(d)
		} else {
			d := uint32(r.N(15))
			a.emit(0x9e620000 | a.src(r)<<5 | d)
			a.fps |= 1 << d
		}
		return true
	}},
	{"fcmp", func(a *asm, r *rt.Rng) bool {
		a.emit(0x1e602000 | a.fsrc(r)<<16 | a.fsrc(r)<<5)
		a.flags = true
		return true
	}},
	{"fcsel", func(a *asm, r *rt.Rng) bool {
		if !a.flags {
			return false
		}
		d := uint32(r.N(15))
		a.emit(0x1e600c00 | a.fsrc(r)<<16 | bits(r, 4, 12) | a.fsrc(r)<<5 | d)
		a.fps |= 1 << d
		return true
	}},
	{"push", func(a *asm, r *rt.Rng) bool {
		if a.depth > 3 {
			return false
		}
		a.emit(0xf81f0fe0 | a.src(r))
		a.depth++
		return true
	}},
	{"pop", func(a *asm, r *rt.Rng) bool {
		if a.depth == 0 {
			return false
		}
		d := a.dst(r)
		a.emit(0xf84107e0 | d)
		a.set(d)
		a.depth--
		return true
	}},
	{"spill", func(a *asm, r *rt.Rng) bool {
		i := r.N(6)
		if r.N(3) == 0 {
			a.emit(0xfd0003e0 | a.slot(i) | a.fsrc(r))
		} else {
			a.emit(0xf90003e0 | a.slot(i) | a.src(r))
		}
		a.slots |= 1 << i
		return true
	}},
	{"reload", func(a *asm, r *rt.Rng) bool {
		i, ok := a.fullSlot(r)
		if !ok {
			return false
		}
		if r.N(3) == 0 {
			d := uint32(r.N(15))
			a.emit(0xfd4003e0 | a.slot(i) | d)
			a.fps |= 1 << d
		} else {
			d := a.dst(r)
			a.emit(0xf94003e0 | a.slot(i) | d)
			a.set(d)
		}
		return true
	}},
	{"mrs", func(a *asm, r *rt.Rng) bool { // the flags
		if !a.flags {
			return false
		}
		if r.N(2) == 0 {
			d := a.dst(r)
			a.emit(0xd53b4200 | d)
			a.set(d)
		} else {
			a.emit(0xd51b4200 | a.src(r))
		}
		return true
	}},
	{"nop", func(a *asm, r *rt.Rng) bool {
		a.emit([]uint32{0xd503201f, 0xd503201f, 0xd503203f, 0xd503245f, 0xd5033bbf}[r.N(5)])
		return true
	}},
}

// only in the tail
var tailTemplates = []template{
	{"b.cond", func(a *asm, r *rt.Rng) bool { // over the next instruction, both ways being valid
		if !a.flags {
			return false
		}
		d := a.src(r)
		a.emit(0x54000040 | bits(r, 4, 0))
		a.emit(0x91000000 | bits(r, 12, 10) | d<<5 | d)
		return true
	}},
	{"cbz", func(a *asm, r *rt.Rng) bool {
		d := a.src(r)
		if r.N(2) == 0 {
			a.emit(0x34000040 | bits(r, 1, 31) | bits(r, 1, 24) | a.src(r))
		} else {
			a.emit(0x36000040 | bits(r, 1, 31) | bits(r, 5, 19) | bits(r, 1, 24) | a.src(r))
		}
		a.emit(0x91000000 | bits(r, 12, 10) | d<<5 | d)
		return true
	}},
	{"adr", func(a *asm, r *rt.Rng) bool {
		d := a.dst(r)
		a.emit(0x10000000 | bits(r, 2, 29) | bits(r, 19, 5) | d)
		a.set(d)
		return true
	}},
	{"loop", func(a *asm, r *rt.Rng) bool {
		d, c := a.src(r), a.dst(r)
		if c == d {
			return false
		}
		a.emit(0xd2800000 | uint32(1+r.N(5))<<5 | c)
		a.emit(0xca000000 | c<<16 | bits(r, 6, 10) | d<<5 | d)
		a.emit(0xf1000400 | c<<5 | c)
		a.emit(0x54ffffc1) // b.ne -8
		a.set(c)
		a.flags = true
		return true
	}},
	{"bl", func(a *asm, r *rt.Rng) bool {
		d := a.src(r)
		a.emit(0xf81f0ffe) // push x30
		a.emit(0x94000003) // bl +12
		a.emit(0xf84107fe) // pop x30
		a.emit(0x14000003) // b +12
		a.emit(0x91000000 | 77<<10 | d<<5 | d)
		a.emit(0xd65f03c0)
		return true
	}},
}

// assemble makes the code of a function; pad: make sure that it can be mocked.
func assemble(ops, tail []JOp, pad bool) *asm {
	a := &asm{regs: 0xf, fps: 3}
	a.add(ops, templates)
	for pad && len(a.b) < branchLen {
		a.emit(0xd503201f)
	}
	if pad && len(tail) > 0 {
		a.add(tail, append(append([]template{}, tailTemplates...), templates...))
	}
	if a.depth > 0 {
		a.emit(0x910003ff | uint32(16*a.depth)<<10) // add sp, sp, n
		a.depth = 0
	}
	a.emit(0xd65f03c0)
	return a
}
