package main

import (
	"bytes"
	"encoding/binary"

	"verifharness/rt"
)

const (
	jitAlign = 1 // of instructions
	jitRet   = 1 // length of the return
)

// asm emits instructions and knows which registers and flags have a value.
type asm struct {
	b      []byte
	bounds []int // offsets of the instructions
	regs   uint32
	xmms   uint32
	flags  bool
	depth  int // pushed words
	slots  uint32
	names  []string
}

// registers by number: not RDX (the closure register), RSP, R14 (g) and R15
var scratch = []int{0, 3, 1, 7, 6, 8, 9, 10, 11, 12, 13}

func newAsm() *asm {
	return &asm{regs: 1<<0 | 1<<3 | 1<<1 | 1<<7, xmms: 3}
}

func (a *asm) emit(b ...byte) {
	a.bounds = append(a.bounds, len(a.b))
	a.b = append(a.b, b...)
}

func (a *asm) src(r *rt.Rng) int { // an initialised register
	for {
		x := scratch[r.N(len(scratch))]
		if a.regs>>x&1 != 0 {
			return x
		}
	}
}

func (a *asm) dst(r *rt.Rng) int { return scratch[r.N(len(scratch))] }

func (a *asm) xsrc(r *rt.Rng) int {
	for {
		x := r.N(15)
		if a.xmms>>x&1 != 0 {
			return x
		}
	}
}

func i8(x uint64) byte { return byte(x) }

func imm(n int, x uint64) []byte {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], x)
	return b[:n]
}

func rex(w, reg, idx, rm int) byte { return byte(0x40 | w<<3 | reg>>3<<2 | idx>>3<<1 | rm>>3) }

func modrm(mod, reg, rm int) byte { return byte(mod<<6 | reg&7<<3 | rm&7) }

func cat(bs ...[]byte) []byte { return bytes.Join(bs, nil) }

// opt is a REX prefix that may be left out if it is empty.
func opt(x byte) []byte {
	if x == 0x40 {
		return nil
	}
	return []byte{x}
}

// slot is the ModRM, SIB and displacement of a spill slot.
func (a *asm) slot(reg, i int, wide bool) []byte {
	d := 8 + 8*i + 8*a.depth
	if wide || d > 127 {
		return cat([]byte{modrm(2, reg, 4), 0x24}, imm(4, uint64(d)))
	}
	return []byte{modrm(1, reg, 4), 0x24, byte(d)}
}

func (a *asm) fullSlot(r *rt.Rng) (int, bool) {
	if a.slots == 0 {
		return 0, false
	}
	for {
		i := r.N(6)
		if a.slots>>i&1 != 0 {
			return i, true
		}
	}
}

var alus = []int{0, 1, 4, 5, 6, 7} // add or and sub xor cmp; 2 and 3 read the carry

var templates = []template{
	{"mov r,r", func(a *asm, r *rt.Rng) bool {
		d, s := a.dst(r), a.src(r)
		if r.N(2) == 0 {
			a.emit(rex(1, s, 0, d), 0x89, modrm(3, s, d))
		} else {
			a.emit(cat(opt(rex(0, d, 0, s)), []byte{0x8b, modrm(3, d, s)})...)
		}
		a.regs |= 1 << d
		return true
	}},
	{"mov r,imm", func(a *asm, r *rt.Rng) bool {
		d := a.dst(r)
		switch r.N(3) {
		case 0:
			a.emit(cat([]byte{rex(1, 0, 0, d), 0xc7, modrm(3, 0, d)}, imm(4, r.U64()))...)
		case 1:
			a.emit(cat([]byte{rex(1, 0, 0, d), byte(0xb8 | d&7)}, imm(8, r.U64()))...)
		default:
			a.emit(cat(opt(rex(0, 0, 0, d)), []byte{byte(0xb8 | d&7)}, imm(4, r.U64()))...)
		}
		a.regs |= 1 << d
		return true
	}},
	{"alu r,r", func(a *asm, r *rt.Rng) bool {
		d, s := a.src(r), a.src(r)
		op := alus[r.N(len(alus))]
		if a.flags && r.N(3) == 0 {
			op = 2 + r.N(2)
		}
		a.emit(cat(opt(rex(r.N(2), s, 0, d)), []byte{byte(op<<3 | 1), modrm(3, s, d)})...)
		a.flags = true
		return true
	}},
	{"alu r,imm8", func(a *asm, r *rt.Rng) bool {
		d := a.src(r)
		a.emit(rex(1, 0, 0, d), 0x83, modrm(3, alus[r.N(len(alus))], d), i8(r.U64()))
		a.flags = true
		return true
	}},
	{"alu r,imm32", func(a *asm, r *rt.Rng) bool {
		d := a.src(r)
		a.emit(cat([]byte{rex(1, 0, 0, d), 0x81, modrm(3, alus[r.N(len(alus))], d)}, imm(4, r.U64()))...)
		a.flags = true
		return true
	}},
	{"alu rax,imm", func(a *asm, r *rt.Rng) bool {
		op := alus[r.N(len(alus))]
		switch r.N(4) {
		case 0:
			a.emit(cat([]byte{0x48, byte(op<<3 | 5)}, imm(4, r.U64()))...)
		case 1:
			a.emit(byte(op<<3|4), i8(r.U64()))
		case 2:
			a.emit(cat([]byte{0x66, byte(op<<3 | 5)}, imm(2, r.U64()))...)
		default:
			a.emit(cat([]byte{byte(op<<3 | 5)}, imm(4, r.U64()))...)
		}
		a.flags = true
		return true
	}},
	{"alu r16,imm16", func(a *asm, r *rt.Rng) bool {
		d := a.src(r)
		a.emit(cat([]byte{0x66}, opt(rex(0, 0, 0, d)), []byte{0x81, modrm(3, alus[r.N(len(alus))], d)}, imm(2, r.U64()))...)
		a.flags = true
		return true
	}},
	{"imul", func(a *asm, r *rt.Rng) bool {
		d, s := a.src(r), a.src(r)
		switch r.N(3) {
		case 0:
			a.emit(rex(1, d, 0, s), 0x0f, 0xaf, modrm(3, d, s))
		case 1:
			a.emit(rex(1, d, 0, s), 0x6b, modrm(3, d, s), i8(r.U64()))
		default:
			a.emit(cat([]byte{rex(1, d, 0, s), 0x69, modrm(3, d, s)}, imm(4, r.U64()))...)
		}
		a.emit(rex(1, d, 0, d), 0x85, modrm(3, d, d)) // test: imul leaves flags undefined
		a.flags = true
		return true
	}},
	{"lea", func(a *asm, r *rt.Rng) bool {
		d, s, i := a.dst(r), a.src(r), a.src(r)
		sc := r.N(4)
		if r.N(2) == 0 {
			a.emit(rex(1, d, i, s), 0x8d, modrm(1, d, 4), byte(sc<<6|i&7<<3|s&7), i8(r.U64()))
		} else {
			a.emit(cat([]byte{rex(1, d, i, s), 0x8d, modrm(2, d, 4), byte(sc<<6 | i&7<<3 | s&7)}, imm(4, r.U64()))...)
		}
		a.regs |= 1 << d
		return true
	}},
	{"unary", func(a *asm, r *rt.Rng) bool {
		d := a.src(r)
		switch r.N(4) {
		case 0:
			a.emit(rex(1, 0, 0, d), 0xf7, modrm(3, 3, d))
			a.flags = true
		case 1:
			a.emit(rex(1, 0, 0, d), 0xf7, modrm(3, 2, d))
		default:
			if !a.flags {
				return false // they keep the carry
			}
			a.emit(cat(opt(rex(0, 0, 0, d)), []byte{0xff, modrm(3, r.N(2), d)})...)
		}
		return true
	}},
	{"shift", func(a *asm, r *rt.Rng) bool {
		d := a.src(r)
		op := []int{4, 5, 7}[r.N(3)]
		switch r.N(3) {
		case 0:
			a.emit(rex(1, 0, 0, d), 0xc1, modrm(3, op, d), byte(r.N(64)))
		case 1:
			a.emit(rex(1, 0, 0, d), 0xd1, modrm(3, op, d))
		default:
			a.emit(rex(1, 0, 0, d), 0xd3, modrm(3, op, d))
		}
		a.emit(rex(1, d, 0, d), 0x85, modrm(3, d, d))
		a.flags = true
		return true
	}},
	{"rotate", func(a *asm, r *rt.Rng) bool {
		d := a.src(r)
		a.emit(rex(1, 0, 0, d), 0xc1, modrm(3, r.N(2), d), byte(r.N(64)))
		a.emit(rex(1, d, 0, d), 0x85, modrm(3, d, d))
		a.flags = true
		return true
	}},
	{"xchg", func(a *asm, r *rt.Rng) bool {
		d, s := a.src(r), a.src(r)
		if r.N(2) == 0 && s != 0 {
			a.emit(rex(1, 0, 0, s), byte(0x90|s&7))
		} else {
			a.emit(rex(1, s, 0, d), 0x87, modrm(3, s, d))
		}
		return true
	}},
	{"movx", func(a *asm, r *rt.Rng) bool {
		d, s := a.dst(r), a.src(r)
		switch r.N(3) {
		case 0:
			a.emit(rex(r.N(2), d, 0, s), 0x0f, []byte{0xb6, 0xbe}[r.N(2)], modrm(3, d, s))
		case 1:
			a.emit(cat(opt(rex(0, d, 0, s)), []byte{0x0f, []byte{0xb7, 0xbf}[r.N(2)], modrm(3, d, s)})...)
		default:
			a.emit(rex(1, d, 0, s), 0x63, modrm(3, d, s))
		}
		a.regs |= 1 << d
		return true
	}},
	{"bswap", func(a *asm, r *rt.Rng) bool {
		d := a.src(r)
		a.emit(rex(1, 0, 0, d), 0x0f, byte(0xc8|d&7))
		return true
	}},
	{"setcc", func(a *asm, r *rt.Rng) bool {
		if !a.flags {
			return false
		}
		d := a.src(r)
		a.emit(rex(0, 0, 0, d), 0x0f, byte(0x90|r.N(16)), modrm(3, 0, d))
		return true
	}},
	{"cmov", func(a *asm, r *rt.Rng) bool {
		if !a.flags {
			return false
		}
		d, s := a.src(r), a.src(r)
		a.emit(rex(1, d, 0, s), 0x0f, byte(0x40|r.N(16)), modrm(3, d, s))
		return true
	}},
	{"flag", func(a *asm, r *rt.Rng) bool {
		if !a.flags {
			return false
		}
		a.emit([]byte{0xf5, 0xf8, 0xf9}[r.N(3)])
		return true
	}},
	{"cdqe", func(a *asm, r *rt.Rng) bool {
		if r.N(2) == 0 {
			a.emit(0x48, 0x98)
		} else {
			a.emit(0x98)
		}
		return true
	}},
	{"bt", func(a *asm, r *rt.Rng) bool {
		d := a.src(r)
		a.emit(rex(1, 0, 0, d), 0x0f, 0xba, modrm(3, 5+r.N(3), d), byte(r.N(64)))
		a.emit(rex(1, d, 0, d), 0x85, modrm(3, d, d))
		a.flags = true
		return true
	}},
	{"popcnt", func(a *asm, r *rt.Rng) bool {
		d, s := a.dst(r), a.src(r)
		a.emit(0xf3, rex(1, d, 0, s), 0x0f, 0xb8, modrm(3, d, s))
		a.regs |= 1 << d
		a.flags = true
		return true
	}},
	{"push", func(a *asm, r *rt.Rng) bool {
		if a.depth > 5 {
			return false
		}
		switch r.N(3) {
		case 0:
			a.emit(0x6a, i8(r.U64()))
		case 1:
			a.emit(cat([]byte{0x68}, imm(4, r.U64()))...)
		default:
			s := a.src(r)
			a.emit(cat(opt(rex(0, 0, 0, s)), []byte{byte(0x50 | s&7)})...)
		}
		a.depth++
		return true
	}},
	{"pop", func(a *asm, r *rt.Rng) bool {
		if a.depth == 0 {
			return false
		}
		d := a.dst(r)
		a.emit(cat(opt(rex(0, 0, 0, d)), []byte{byte(0x58 | d&7)})...)
		a.regs |= 1 << d
		a.depth--
		return true
	}},
	{"pushf", func(a *asm, r *rt.Rng) bool {
		if !a.flags || a.depth > 5 {
			return false
		}
		d := a.src(r)
		a.emit(0x9c)
		a.emit(rex(1, d, 0, d), 0x31, modrm(3, d, d))
		a.emit(0x9d)
		return true
	}},
	{"spill", func(a *asm, r *rt.Rng) bool {
		s, i := a.src(r), r.N(6)
		a.emit(cat([]byte{rex(1, s, 0, 0), 0x89}, a.slot(s, i, r.N(3) == 0))...)
		a.slots |= 1 << i
		return true
	}},
	{"spill imm", func(a *asm, r *rt.Rng) bool {
		i := r.N(6)
		a.emit(cat([]byte{0x48, 0xc7}, a.slot(0, i, r.N(3) == 0), imm(4, r.U64()))...)
		a.slots |= 1 << i
		return true
	}},
	{"spill imm16", func(a *asm, r *rt.Rng) bool {
		i, ok := a.fullSlot(r)
		if !ok {
			return false
		}
		a.emit(cat([]byte{0x66, 0xc7}, a.slot(0, i, r.N(2) == 0), imm(2, r.U64()))...)
		return true
	}},
	{"reload", func(a *asm, r *rt.Rng) bool {
		d := a.dst(r)
		i, ok := a.fullSlot(r)
		if !ok {
			return false
		}
		a.emit(cat([]byte{rex(1, d, 0, 0), 0x8b}, a.slot(d, i, r.N(3) == 0))...)
		a.regs |= 1 << d
		return true
	}},
	{"alu m,imm", func(a *asm, r *rt.Rng) bool {
		i, ok := a.fullSlot(r)
		if !ok {
			return false
		}
		a.emit(cat([]byte{0x48, 0x81}, a.slot(alus[r.N(len(alus))], i, r.N(2) == 0), imm(4, r.U64()))...)
		a.flags = true
		return true
	}},
	{"lock", func(a *asm, r *rt.Rng) bool {
		s := a.src(r)
		i, ok := a.fullSlot(r)
		if !ok {
			return false
		}
		if r.N(2) == 0 {
			a.emit(cat([]byte{0xf0, rex(1, s, 0, 0), 0x01}, a.slot(s, i, r.N(2) == 0))...)
		} else {
			a.emit(cat([]byte{0xf0, rex(1, s, 0, 0), 0x0f, 0xc1}, a.slot(s, i, r.N(2) == 0))...)
		}
		a.flags = true
		return true
	}},
	{"sse arith", func(a *asm, r *rt.Rng) bool {
		d, s := a.xsrc(r), a.xsrc(r)
		a.emit(cat([]byte{[]byte{0xf2, 0xf3}[r.N(2)]}, opt(rex(0, d, 0, s)), []byte{0x0f, []byte{0x58, 0x59, 0x5c, 0x5e, 0x51, 0x5d, 0x5f}[r.N(7)], modrm(3, d, s)})...)
		a.xmms |= 1 << d
		return true
	}},
	{"sse logic", func(a *asm, r *rt.Rng) bool {
		d, s := a.xsrc(r), a.xsrc(r)
		var p []byte
		if r.N(2) == 0 {
			p = []byte{0x66}
		}
		a.emit(cat(p, opt(rex(0, d, 0, s)), []byte{0x0f, []byte{0x57, 0x54, 0x56, 0x55}[r.N(4)], modrm(3, d, s)})...)
		return true
	}},
	{"movaps", func(a *asm, r *rt.Rng) bool {
		d, s := r.N(15), a.xsrc(r)
		a.emit(cat(opt(rex(0, d, 0, s)), []byte{0x0f, []byte{0x28, 0x10}[r.N(2)], modrm(3, d, s)})...)
		a.xmms |= 1 << d
		return true
	}},
	{"movsd mem", func(a *asm, r *rt.Rng) bool {
		if i, ok := a.fullSlot(r); ok && r.N(2) == 0 {
			d := r.N(15)
			a.emit(cat([]byte{0xf2}, opt(rex(0, d, 0, 0)), []byte{0x0f, 0x10}, a.slot(d, i, r.N(2) == 0))...)
			a.xmms |= 1 << d
			return true
		}
		s, i := a.xsrc(r), r.N(6)
		a.emit(cat([]byte{0xf2}, opt(rex(0, s, 0, 0)), []byte{0x0f, 0x11}, a.slot(s, i, r.N(2) == 0))...)
		a.slots |= 1 << i
		return true
	}},
	{"cvt", func(a *asm, r *rt.Rng) bool {
		if r.N(2) == 0 {
			d, s := a.xsrc(r), a.src(r)
			a.emit(0xf2, rex(1, d, 0, s), 0x0f, 0x2a, modrm(3, d, s))
		} else {
			d, s := a.dst(r), a.xsrc(r)
			a.emit(0xf2, rex(1, d, 0, s), 0x0f, 0x2c, modrm(3, d, s))
			a.regs |= 1 << d
		}
		return true
	}},
	{"movq", func(a *asm, r *rt.Rng) bool {
		if r.N(2) == 0 {
			d, s := r.N(15), a.src(r)
			a.emit(0x66, rex(1, d, 0, s), 0x0f, 0x6e, modrm(3, d, s))
			a.xmms |= 1 << d
		} else {
			d, s := a.dst(r), a.xsrc(r)
			a.emit(0x66, rex(1, s, 0, d), 0x0f, 0x7e, modrm(3, s, d))
			a.regs |= 1 << d
		}
		return true
	}},
	{"ucomisd", func(a *asm, r *rt.Rng) bool {
		d, s := a.xsrc(r), a.xsrc(r)
		a.emit(cat([]byte{0x66}, opt(rex(0, d, 0, s)), []byte{0x0f, 0x2e, modrm(3, d, s)})...)
		a.flags = true
		return true
	}},
	{"nop", func(a *asm, r *rt.Rng) bool {
		nops := [][]byte{{0x90}, {0x66, 0x90}, {0x0f, 0x1f, 0x00}, {0x0f, 0x1f, 0x40, 0x00}, {0x0f, 0x1f, 0x44, 0x00, 0x00}, {0x66, 0x0f, 0x1f, 0x44, 0x00, 0x00},
			{0x0f, 0x1f, 0x80, 1, 2, 3, 4}, {0x0f, 0x1f, 0x84, 0x00, 1, 2, 3, 4}, {0x66, 0x0f, 0x1f, 0x84, 0x00, 1, 2, 3, 4}, {0x2e, 0x66, 0x0f, 0x1f, 0x84, 0x00, 1, 2, 3, 4},
			{0x0f, 0xae, 0xe8}, {0x66, 0x66, 0x2e, 0x0f, 0x1f, 0x84, 0x00, 1, 2, 3, 4}, {0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x2e, 0x0f, 0x1f, 0x84, 0x00, 1, 2, 3, 4}, {0xf3, 0x90}}
		a.emit(nops[r.N(len(nops))]...)
		return true
	}},
}

// only in the tail
var tailTemplates = []template{
	{"jcc", func(a *asm, r *rt.Rng) bool { // over the next instruction, both ways being valid
		if !a.flags {
			return false
		}
		d := a.src(r)
		if r.N(2) == 0 {
			a.emit(byte(0x70|r.N(16)), 4)
		} else {
			a.emit(0x0f, byte(0x80|r.N(16)), 4, 0, 0, 0)
		}
		a.emit(rex(1, 0, 0, d), 0x83, modrm(3, 0, d), i8(r.U64()))
		return true
	}},
	{"rip lea", func(a *asm, r *rt.Rng) bool {
		d := a.dst(r)
		a.emit(cat([]byte{rex(1, d, 0, 0), 0x8d, modrm(0, d, 5)}, imm(4, uint64(r.N(100))))...)
		a.regs |= 1 << d
		return true
	}},
	{"call", func(a *asm, r *rt.Rng) bool {
		d := a.src(r)
		a.emit(0xe8, 2, 0, 0, 0) // call +2
		a.emit(0xeb, 5)          // jmp +5
		a.emit(rex(1, 0, 0, d), 0x83, modrm(3, 0, d), 77)
		a.emit(0xc3)
		a.flags = true
		return true
	}},
	{"loop", func(a *asm, r *rt.Rng) bool {
		d := a.src(r)
		c := scratch[r.N(len(scratch))]
		if c == d {
			return false
		}
		a.emit(cat(opt(rex(0, 0, 0, c)), []byte{byte(0xb8 | c&7)}, imm(4, uint64(1+r.N(5))))...)
		a.emit(rex(1, 0, 0, d), 0x83, modrm(3, 6, d), i8(r.U64()))
		a.emit(rex(1, 0, 0, c), 0x83, modrm(3, 5, c), 1)
		a.emit(0x75, 0xf6) // jnz -10
		a.regs |= 1 << c
		a.flags = true
		return true
	}},
}

// assemble makes the code of a function; pad: make sure that it can be mocked.
func assemble(ops, tail []JOp, pad bool) *asm {
	a := newAsm()
	a.add(ops, templates)
	for pad && len(a.b) < branchLen {
		a.emit(0x0f, 0x1f, 0x00)
	}
	if pad && len(tail) > 0 {
		a.add(tail, append(append([]template{}, tailTemplates...), templates...))
	}
	if a.depth > 0 {
		a.emit(0x48, 0x83, 0xc4, byte(8*a.depth))
		a.depth = 0
	}
	a.emit(0xc3)
	return a
}
